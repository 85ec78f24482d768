// Package vfs gives a harness files, a working directory and standard streams. Symbolically the functions below stand in
// for packages os and path/filepath and for the YAML reader and writer: the text of a document is a line that names a
// tree. Natively everything is real and happens below the scratch directory.
package vfs

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

type entry struct {
	dir     bool
	text    string
	written bool
	full    bool // nothing can be written
	locked  bool // nobody may read or write it
	link    string
}

type handle struct {
	path   string
	e      *entry
	pos    int
	write  bool
	closed bool
}

type decoder struct {
	r    io.Reader
	docs []*yaml.Node
	err  error
	read bool
	pos  int
}

type encoder struct {
	w io.Writer
	n int
}

var (
	root    string
	cwd     string
	files   map[string]*entry
	handles map[*os.File]*handle
	trees   []*yaml.Node
	decs    map[*yaml.Decoder]*decoder
	encs    map[*yaml.Encoder]*encoder
	runs    int
	before  map[string]string
)

const mark = "#ZZ:"

// Reset starts with no files; the working directory is Root()/w.
func Reset() {
	if !sym.Symbolic() {
		for k := range env {
			must(os.Unsetenv(k))
		}
	}
	env = map[string]string{}
	Plain = false
	if sym.Symbolic() {
		root = sym.Scratch()
		files = map[string]*entry{"/": {dir: true}}
		handles = map[*os.File]*handle{}
		trees = nil
		linked = false
		decs = map[*yaml.Decoder]*decoder{}
		encs = map[*yaml.Encoder]*encoder{}
		os.Stdin, os.Stdout, os.Stderr = new(os.File), new(os.File), new(os.File)
		handles[os.Stdin] = &handle{path: "/dev/stdin", e: &entry{}}
		handles[os.Stdout] = &handle{path: "/dev/stdout", e: &entry{}, write: true}
		handles[os.Stderr] = &handle{path: "/dev/stderr", e: &entry{}, write: true}
	} else {
		runs++
		if root != "" {
			must(os.Chdir(sym.Scratch()))
			_ = os.RemoveAll(root)
		}
		root = fmt.Sprintf("%s/r%d", sym.Scratch(), runs)
		if r := os.Getenv(childRoot); r != "" {
			root = r
		}
		must(os.MkdirAll(root, 0o755))
		out, err := os.OpenFile(root+".stdout", os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
		must(err)
		os.Stdout = out
		setStdin("")
	}
	AddDir("w")
	Chdir("w")
}

func must(err error) {
	if err != nil {
		panic("vfs: " + err.Error())
	}
}

func setStdin(text string) {
	if sym.Symbolic() {
		handles[os.Stdin].e.text = text
		return
	}
	must(os.WriteFile(root+".stdin", []byte(text), 0o644))
	in, err := os.Open(root + ".stdin")
	must(err)
	os.Stdin = in
}

// Root is the directory everything is in.
func Root() string { return root }

// Abs is the full path of a path below the root.
func Abs(p string) string { return path.Join(root, p) }

// Chdir changes the working directory.
func Chdir(p string) {
	cwd = Abs(p)
	if !sym.Symbolic() {
		must(os.Chdir(cwd))
	}
}

// AddDir adds a directory and those above it.
func AddDir(p string) {
	if !sym.Symbolic() {
		must(os.MkdirAll(Abs(p), 0o755))
		return
	}
	for d := Abs(p); d != "/"; d = path.Dir(d) {
		if files[d] == nil {
			files[d] = &entry{dir: true}
		}
	}
}

// AddText adds a file with the given text.
func AddText(p, text string) {
	AddDir(path.Dir(p))
	if !sym.Symbolic() {
		must(os.WriteFile(Abs(p), []byte(text), 0o644))
		return
	}
	files[Abs(p)] = &entry{text: text}
}

// AddFull adds a file that opens but takes nothing: the disk is full.
func AddFull(p string) {
	AddDir(path.Dir(p))
	if !sym.Symbolic() {
		must(os.Symlink("/dev/full", Abs(p)))
		return
	}
	files[Abs(p)] = &entry{full: true}
}

// AddLink adds a symbolic link to a file or directory.
func AddLink(p, target string) {
	AddDir(path.Dir(p))
	if !sym.Symbolic() {
		must(os.Symlink(Abs(target), Abs(p)))
		return
	}
	files[Abs(p)] = &entry{link: Abs(target)}
	linked = true
}

var linked bool // there are links

// Lock takes away the right to read and write a file or directory; what is in a directory then cannot be reached.
func Lock(p string) {
	if !sym.Symbolic() {
		must(os.Chmod(Abs(p), 0))
		locks = append(locks, Abs(p))
		return
	}
	files[Abs(p)].locked = true
}

// Unlock takes back every Lock.
func Unlock() {
	for _, p := range locks {
		must(os.Chmod(p, 0o755))
	}
	locks = nil
	for _, e := range files {
		e.locked = false
	}
}

var locks []string

// denied tells whether a path cannot be reached.
func denied(f string) bool {
	for f != "/" {
		f = path.Dir(f)
		if e := files[f]; e != nil && e.locked {
			return true
		}
	}
	return false
}

func permission(op, p string) error { return &fs.PathError{Op: op, Path: p, Err: fs.ErrPermission} }

// FullOut makes standard output take nothing.
func FullOut() {
	if !sym.Symbolic() {
		out, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		must(err)
		os.Stdout = out
		return
	}
	handles[os.Stdout].e.full = true
}

// Add adds a file that holds the given documents.
func Add(p string, docs ...*yaml.Node) { AddText(p, Text(docs...)) }

// Stdin sets the documents to read from standard input.
func Stdin(docs ...*yaml.Node) { setStdin(Text(docs...)) }

// Plain makes every text YAML: the reader and writer are then the real ones (see package hy).
var Plain bool

// Text is the text of some documents.
func Text(docs ...*yaml.Node) string {
	t := ""
	for i, d := range docs {
		if i > 0 {
			t += "---\n"
		}
		if sym.Symbolic() && !Plain {
			t += put(d)
			continue
		}
		b, err := yaml.Marshal(d)
		must(err)
		t += string(b)
	}
	return t
}

func put(d *yaml.Node) string {
	trees = append(trees, gen.Clone(d))
	return fmt.Sprintf("%s%d\n", mark, len(trees)-1)
}

// Ready notes the files there are; what changes later was written by the code under test.
func Ready() {
	if sym.Symbolic() {
		for _, e := range files {
			e.written = false
		}
		return
	}
	before = snapshot()
}

func snapshot() map[string]string {
	out := map[string]string{}
	must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, e := os.ReadFile(p)
			must(e)
			out[p] = string(b)
		}
		return err
	}))
	return out
}

// Written lists the files written since Ready, relative to the root, in order.
func Written() []string {
	var out []string
	if sym.Symbolic() {
		for p, e := range files {
			if e.written {
				out = append(out, strings.TrimPrefix(p, root+"/"))
			}
		}
	} else {
		for p, t := range snapshot() {
			if o, ok := before[p]; !ok || o != t {
				out = append(out, strings.TrimPrefix(p, root+"/"))
			}
		}
	}
	sort.Strings(out)
	return out
}

// Docs are the documents in a file; ok says that it can be read.
func Docs(p string) (docs []*yaml.Node, ok bool) {
	if sym.Symbolic() {
		e := files[Abs(p)]
		if e == nil || e.dir || e.full {
			return nil, false
		}
		return textDocs(e.text)
	}
	if fi, err := os.Stat(Abs(p)); err != nil || !fi.Mode().IsRegular() {
		return nil, false
	}
	b, err := os.ReadFile(Abs(p))
	if err != nil {
		return nil, false
	}
	return textDocs(string(b))
}

var lastIndent int

// Indent is by how much the last output was indented.
func Indent() int {
	if sym.Symbolic() {
		return lastIndent
	}
	text := Out()
	for _, p := range Written() {
		b, err := os.ReadFile(Abs(p))
		must(err)
		text = string(b)
	}
	for _, l := range strings.Split(text, "\n") {
		if n := len(l) - len(strings.TrimLeft(l, " ")); n > 0 && !strings.HasPrefix(l[n:], "#") {
			return n
		}
	}
	return 0
}

// Out is what was written to standard output.
func Out() string {
	if sym.Symbolic() {
		return handles[os.Stdout].e.text
	}
	b, err := os.ReadFile(root + ".stdout")
	must(err)
	return string(b)
}

// OutDocs are the documents written to standard output.
func OutDocs() ([]*yaml.Node, bool) { return textDocs(Out()) }

func textDocs(text string) (docs []*yaml.Node, ok bool) {
	if sym.Symbolic() && !Plain {
		docs, err := parse(text)
		return docs, err == nil
	}
	d := yaml.NewDecoder(strings.NewReader(text))
	for {
		var n yaml.Node
		err := d.Decode(&n)
		if errors.Is(err, io.EOF) {
			return docs, true
		}
		if err != nil {
			return docs, false
		}
		docs = append(docs, &n)
	}
}

var errAlias = errors.New("yaml: unknown anchor referenced")

var errText = errors.New("yaml: malformed text")

func parse(text string) (docs []*yaml.Node, err error) {
	var cur *yaml.Node
	open := false
	end := func() {
		if !open {
			return
		}
		if cur == nil {
			cur = &yaml.Node{Kind: yaml.DocumentNode, Content: []*yaml.Node{{Kind: yaml.ScalarNode, Tag: "!!null"}}}
		}
		docs = append(docs, cur)
	}
	for len(text) > 0 {
		line := text
		if i := strings.IndexByte(text, '\n'); i >= 0 {
			line, text = text[:i], text[i+1:]
		} else {
			text = ""
		}
		switch {
		case line == "":
		case line == "---":
			end()
			cur, open = nil, true
		case strings.HasPrefix(line, mark) && cur == nil:
			id := 0
			for _, c := range line[len(mark):] {
				id = id*10 + int(c-'0')
			}
			n := gen.Clone(trees[id])
			if n.Kind != yaml.DocumentNode {
				n = gen.Doc(n)
			}
			if !gen.Link(n) {
				return docs, errAlias
			}
			cur, open = n, true
		default:
			return docs, errText
		}
	}
	end()
	return docs, nil
}

// decodeNode decodes a tree into a Go value; the engine does this itself.
func decodeNode(n *yaml.Node, v interface{}) error { return n.Decode(v) }

// unmarshalText is yaml.Unmarshal; the engine does this itself for simple texts.
func unmarshalText(b []byte, v interface{}) error { return yaml.Unmarshal(b, v) }

func into(n *yaml.Node, v interface{}) error {
	if p, ok := v.(*yaml.Node); ok {
		*p = *gen.Clone(n)
		gen.Link(p)
		return nil
	}
	return decodeNode(n, v)
}

func absolute(p string) string {
	if !path.IsAbs(p) {
		p = path.Join(cwd, p)
	}
	return path.Clean(p)
}

// full is the path of what p leads to.
func full(p string) string {
	p = absolute(p)
	if !linked {
		return p
	}
	f := "/"
	for _, n := range strings.Split(p, "/") {
		f = path.Join(f, n)
		for e := files[f]; e != nil && e.link != ""; e = files[f] {
			f = e.link
		}
	}
	return f
}

// itself is the path of p, which may be a link.
func itself(p string) string {
	if !linked || strings.HasSuffix(p, "/") {
		return full(p)
	}
	p = absolute(p)
	return path.Join(full(path.Dir(p)), path.Base(p))
}

func notExist(op, p string) error { return &fs.PathError{Op: op, Path: p, Err: fs.ErrNotExist} }

type info struct {
	name string
	e    *entry
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.e.text)) }
func (i info) Mode() fs.FileMode {
	if i.e.dir {
		return fs.ModeDir | 0o755
	}
	if i.e.link != "" {
		return fs.ModeSymlink | 0o777
	}
	return 0o644
}
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.e.dir }
func (i info) Sys() interface{}   { return nil }

// names lists what is directly below a directory.
func names(dir string) []string {
	var out []string
	for p := range files {
		if p != "/" && path.Dir(p) == dir {
			out = append(out, path.Base(p))
		}
	}
	sort.Strings(out)
	return out
}

var env map[string]string

// Setenv sets an environment variable.
func Setenv(k, v string) {
	if !sym.Symbolic() {
		must(os.Setenv(k, v))
	}
	env[k] = v
}

//verif:stub vfs os.Getenv
func getenv(k string) string { return env[k] }

//verif:stub vfs os.LookupEnv
func lookupEnv(k string) (string, bool) {
	v, ok := env[k]
	return v, ok
}

//verif:stub vfs os.Getwd
func getwd() (string, error) { return cwd, nil }

//verif:stub vfs os.Stat
func stat(p string) (os.FileInfo, error) {
	return statOf(p, full(p))
}

func statOf(p, f string) (os.FileInfo, error) {
	e := files[f]
	if denied(f) {
		return nil, permission("stat", p)
	}
	if p == "" || e == nil {
		return nil, notExist("stat", p)
	}
	return info{path.Base(absolute(p)), e}, nil
}

//verif:stub vfs os.Lstat
func lstat(p string) (os.FileInfo, error) { return statOf(p, itself(p)) }

//verif:stub vfs path/filepath.EvalSymlinks
func evalSymlinks(p string) (string, error) {
	if _, err := stat(p); err != nil {
		return "", err
	}
	if !linked {
		return path.Clean(p), nil
	}
	return full(p), nil
}

//verif:stub vfs os.Mkdir
func mkdir(p string, perm os.FileMode) error {
	f := full(p)
	if denied(f) {
		return permission("mkdir", p)
	}
	if files[f] != nil {
		return &fs.PathError{Op: "mkdir", Path: p, Err: fs.ErrExist}
	}
	if d := files[path.Dir(f)]; d == nil || !d.dir {
		return notExist("mkdir", p)
	}
	files[f] = &entry{dir: true}
	return nil
}

//verif:stub vfs os.MkdirAll
func mkdirAll(p string, perm os.FileMode) error {
	f := full(p)
	if denied(f) {
		return permission("mkdir", p)
	}
	for d := f; d != "/"; d = path.Dir(d) {
		if e := files[d]; e != nil && !e.dir {
			return &fs.PathError{Op: "mkdir", Path: p, Err: errors.New("not a directory")}
		}
	}
	for d := f; d != "/"; d = path.Dir(d) {
		if files[d] == nil {
			files[d] = &entry{dir: true}
		}
	}
	return nil
}

//verif:stub vfs os.OpenFile
func openFile(p string, flag int, perm os.FileMode) (*os.File, error) {
	f := full(p)
	e := files[f]
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	switch {
	case denied(f), e != nil && e.locked:
		return nil, permission("open", p)
	case p == "" || e == nil && flag&os.O_CREATE == 0:
		return nil, notExist("open", p)
	case e == nil:
		if d := files[path.Dir(f)]; d == nil || !d.dir {
			return nil, notExist("open", p)
		}
		e = &entry{}
		files[f] = e
	case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrExist}
	case e.dir && wr:
		return nil, &fs.PathError{Op: "open", Path: p, Err: errors.New("is a directory")}
	}
	h := &handle{path: p, e: e, write: wr}
	if wr {
		e.written = true
		if flag&os.O_TRUNC != 0 {
			e.text = ""
		}
		if flag&os.O_APPEND != 0 {
			h.pos = len(e.text)
		}
	}
	file := new(os.File)
	handles[file] = h
	return file, nil
}

//verif:stub vfs os.Open
func open(p string) (*os.File, error) { return openFile(p, os.O_RDONLY, 0) }

//verif:stub vfs os.Create
func create(p string) (*os.File, error) {
	return openFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

//verif:stub vfs os.ReadFile
func readFile(p string) ([]byte, error) {
	e := files[full(p)]
	if p != "" && (denied(full(p)) || e != nil && e.locked) {
		return nil, permission("open", p)
	}
	if p == "" || e == nil {
		return nil, notExist("open", p)
	}
	if e.dir {
		return nil, &fs.PathError{Op: "read", Path: p, Err: errors.New("is a directory")}
	}
	return []byte(e.text), nil
}

//verif:stub vfs os.WriteFile
func writeFile(p string, b []byte, perm os.FileMode) error {
	f, err := create(p)
	if err != nil {
		return err
	}
	_, err = fileWrite(f, b)
	return err
}

//verif:stub vfs os.CreateTemp
func createTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	return openFile(path.Join(dir, fmt.Sprintf("tmp%d", len(handles))+strings.Replace(pattern, "*", "0", 1)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

//verif:stub vfs os.Remove
func remove(p string) error {
	f := itself(p)
	if denied(f) || files[path.Dir(f)] != nil && files[path.Dir(f)].locked {
		return permission("remove", p)
	}
	if files[f] == nil {
		return notExist("remove", p)
	}
	delete(files, f)
	return nil
}

//verif:stub vfs os.Rename
func rename(a, b string) error {
	e := files[full(a)]
	if denied(full(a)) || denied(full(b)) {
		return permission("rename", a)
	}
	if e == nil {
		return notExist("rename", a)
	}
	delete(files, full(a))
	e.written = true
	files[full(b)] = e
	return nil
}

//verif:stub vfs os.ReadDir
func readDir(p string) ([]os.DirEntry, error) {
	e := files[full(p)]
	if denied(full(p)) || e != nil && e.locked {
		return nil, permission("open", p)
	}
	if e == nil || !e.dir {
		return nil, notExist("open", p)
	}
	var out []os.DirEntry
	for _, n := range names(full(p)) {
		out = append(out, fs.FileInfoToDirEntry(info{n, files[path.Join(full(p), n)]}))
	}
	return out, nil
}

func live(f *os.File) (*handle, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	h := handles[f]
	if h == nil || h.closed {
		return nil, os.ErrClosed
	}
	return h, nil
}

//verif:stub vfs (*os.File).Read
func fileRead(f *os.File, b []byte) (int, error) {
	h, err := live(f)
	if err != nil {
		return 0, err
	}
	if h.e.dir {
		return 0, &fs.PathError{Op: "read", Path: h.path, Err: errors.New("is a directory")}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.e.text) {
		return 0, io.EOF
	}
	n := copy(b, h.e.text[h.pos:])
	h.pos += n
	return n, nil
}

//verif:stub vfs (*os.File).Write
func fileWrite(f *os.File, b []byte) (int, error) {
	h, err := live(f)
	if err != nil {
		return 0, err
	}
	if !h.write {
		return 0, &fs.PathError{Op: "write", Path: h.path, Err: errors.New("bad file descriptor")}
	}
	if h.e.full && len(b) > 0 {
		return 0, &fs.PathError{Op: "write", Path: h.path, Err: errors.New("no space left on device")}
	}
	if h.pos+len(b) < len(h.e.text) { // what was there stays behind what is written
		h.e.text = h.e.text[:h.pos] + string(b) + h.e.text[h.pos+len(b):]
	} else {
		h.e.text = h.e.text[:h.pos] + string(b)
	}
	h.pos += len(b)
	return len(b), nil
}

//verif:stub vfs (*os.File).WriteString
func fileWriteString(f *os.File, s string) (int, error) { return fileWrite(f, []byte(s)) }

//verif:stub vfs (*os.File).ReadFrom
func fileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := fileWrite(f, b)
	return int64(n), err
}

//verif:stub vfs (*os.File).WriteTo
func fileWriteTo(f *os.File, w io.Writer) (int64, error) {
	h, err := live(f)
	if err != nil {
		return 0, err
	}
	n, err := w.Write([]byte(h.e.text[h.pos:]))
	h.pos = len(h.e.text)
	return int64(n), err
}

//verif:stub vfs (*os.File).Close
func fileClose(f *os.File) error {
	h, err := live(f)
	if err != nil {
		return err
	}
	h.closed = true
	return nil
}

//verif:stub vfs (*os.File).Name
func fileName(f *os.File) string { return handles[f].path }

//verif:stub vfs (*os.File).Sync
func fileSync(f *os.File) error { return nil }

//verif:stub vfs (*os.File).Stat
func fileStat(f *os.File) (os.FileInfo, error) {
	h, err := live(f)
	if err != nil {
		return nil, err
	}
	return info{path.Base(h.path), h.e}, nil
}

//verif:stub vfs path/filepath.Walk
func walk(p string, fn filepath.WalkFunc) error {
	fi, err := lstat(p)
	if err != nil {
		err = fn(p, nil, err)
	} else {
		err = walkIn(p, fi, fn)
	}
	if err == filepath.SkipDir {
		return nil
	}
	return err
}

func walkIn(p string, fi os.FileInfo, fn filepath.WalkFunc) error {
	if !fi.IsDir() {
		return fn(p, fi, nil)
	}
	if e := files[full(p)]; e != nil && e.locked {
		return fn(p, fi, permission("open", p))
	}
	if err := fn(p, fi, nil); err != nil {
		return err
	}
	for _, n := range names(full(p)) {
		c := filepath.Join(p, n)
		ci, err := lstat(c)
		if err == nil {
			err = walkIn(c, ci, fn)
		}
		if err != nil && (err != filepath.SkipDir || ci == nil || !ci.IsDir()) {
			return err
		}
	}
	return nil
}

//verif:stub vfs path/filepath.WalkDir
func walkDir(p string, fn fs.WalkDirFunc) error {
	return walk(p, func(q string, fi os.FileInfo, err error) error {
		if fi == nil {
			return fn(q, nil, err)
		}
		return fn(q, fs.FileInfoToDirEntry(fi), err)
	})
}

//verif:stub yaml gopkg.in/yaml.v3.NewDecoder
func newDecoder(r io.Reader) *yaml.Decoder {
	d := new(yaml.Decoder)
	decs[d] = &decoder{r: r}
	return d
}

//verif:stub yaml (*gopkg.in/yaml.v3.Decoder).KnownFields
func decoderKnownFields(d *yaml.Decoder, enable bool) {}

//verif:stub yaml (*gopkg.in/yaml.v3.Decoder).Decode
func decode(d *yaml.Decoder, v interface{}) error {
	s := decs[d]
	if !s.read {
		s.read = true
		b, err := io.ReadAll(s.r)
		if err != nil {
			return err
		}
		s.docs, s.err = parse(string(b))
	}
	if s.pos >= len(s.docs) {
		if s.err != nil {
			return s.err
		}
		return io.EOF
	}
	n := s.docs[s.pos]
	s.pos++
	return into(n, v)
}

//verif:stub yaml gopkg.in/yaml.v3.NewEncoder
func newEncoder(w io.Writer) *yaml.Encoder {
	e := new(yaml.Encoder)
	encs[e] = &encoder{w: w}
	return e
}

//verif:stub yaml (*gopkg.in/yaml.v3.Encoder).SetIndent
func encoderSetIndent(e *yaml.Encoder, n int) {
	lastIndent = n
	if n < 0 {
		panic("yaml: cannot indent to a negative number of spaces")
	}
}

var errEncode = errors.New("yaml: cannot encode node with unknown kind 0")

func encodable(n *yaml.Node) bool {
	if n.Kind == 0 {
		return n.IsZero()
	}
	for _, c := range n.Content {
		if !encodable(c) {
			return false
		}
	}
	return true
}

//verif:stub yaml (*gopkg.in/yaml.v3.Encoder).Encode
func encode(e *yaml.Encoder, v interface{}) error {
	n, ok := v.(*yaml.Node)
	if !ok {
		panic("vfs: encoding something else than a node")
	}
	s := encs[e]
	if !encodable(n) {
		return errEncode
	}
	t := put(n)
	if s.n > 0 {
		t = "---\n" + t
	}
	s.n++
	_, err := s.w.Write([]byte(t))
	return err
}

//verif:stub yaml (*gopkg.in/yaml.v3.Encoder).Close
func encoderClose(e *yaml.Encoder) error { return nil }

//verif:stub yaml gopkg.in/yaml.v3.Marshal
func marshal(v interface{}) ([]byte, error) {
	n, ok := v.(*yaml.Node)
	if !ok {
		panic("vfs: marshalling something else than a node")
	}
	if !encodable(n) {
		return nil, errEncode
	}
	return []byte(put(n)), nil
}

//verif:stub yaml gopkg.in/yaml.v3.Unmarshal
func unmarshal(b []byte, v interface{}) error {
	if !bytes.Contains(b, []byte(mark)) {
		return unmarshalText(b, v)
	}
	docs, err := parse(string(b))
	if err != nil || len(docs) == 0 {
		return err
	}
	return into(docs[0], v)
}
