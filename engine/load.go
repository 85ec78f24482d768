package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// HarnessMeta describes one harness function found in the harness sources.
type HarnessMeta struct {
	Pkg, Name string
	Props     []string
	Doc       string
	Quick     map[string]int
	Thorough  map[string]int
	Use       []string
	Opt       map[string]int
	Reach     []string
}

func (h *HarnessMeta) id() string { return h.Pkg + "." + h.Name }

// StubMeta is a harness function standing in for another function.
type StubMeta struct {
	Pkg, Name, Group, Target string
}

// scanHarness reads the directives of all harness files.
func scanHarness(dir string) (hs []*HarnessMeta, stubs []*StubMeta, files map[string][]byte, err error) {
	files = map[string][]byte{}
	err = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		files[rel] = b
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
		if err != nil {
			return err
		}
		pkg := filepath.Dir(rel)
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			h := &HarnessMeta{Pkg: pkg, Name: fd.Name.Name, Quick: map[string]int{}, Thorough: map[string]int{}, Opt: map[string]int{}}
			h.Doc = strings.TrimSpace(fd.Doc.Text())
			for _, c := range fd.Doc.List {
				t := strings.TrimPrefix(c.Text, "//verif:")
				if t == c.Text {
					continue
				}
				w := strings.Fields(t)
				kv := func(m map[string]int) {
					for _, x := range w[1:] {
						i := strings.IndexByte(x, '=')
						if i < 0 {
							m[x] = 1
							continue
						}
						n, e := strconv.Atoi(x[i+1:])
						if e != nil {
							err = fmt.Errorf("%s: bad directive %s", p, c.Text)
						}
						m[x[:i]] = n
					}
				}
				switch w[0] {
				case "check":
					h.Props = append(h.Props, w[1:]...)
				case "quick":
					kv(h.Quick)
				case "thorough":
					kv(h.Thorough)
				case "opt":
					kv(h.Opt)
				case "use":
					h.Use = append(h.Use, w[1:]...)
				case "reach":
					h.Reach = append(h.Reach, w[1:]...)
				case "stub":
					if len(w) < 3 {
						return fmt.Errorf("%s: bad stub directive", p)
					}
					stubs = append(stubs, &StubMeta{pkg, fd.Name.Name, w[1], strings.Join(w[2:], " ")})
				default:
					return fmt.Errorf("%s: unknown directive %s", p, c.Text)
				}
			}
			if err != nil {
				return err
			}
			if len(h.Props) > 0 {
				hs = append(hs, h)
			}
		}
		return nil
	})
	sort.Slice(hs, func(i, j int) bool { return hs[i].id() < hs[j].id() })
	return
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "GO111MODULE", "GOOS", "GOARCH", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GONOSUMDB=*", "GOWORK=off", "GONOSUMCHECK=1")
}

// modCopy puts copies of go.mod and go.sum into dir, so that the go command never rewrites the originals.
func modCopy(repo, dir string) (string, error) {
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			return "", err
		}
	}
	return filepath.Join(dir, "go.mod"), nil
}

func zzDir(repo string) string { return filepath.Join(repo, "internal", "zzverif") }

// loadProgram builds SSA for the harness packages and everything below them.
func loadProgram(repo, modfile string, files map[string][]byte, pkgs []string) (*ssa.Program, error) {
	over := map[string][]byte{}
	for rel, b := range files {
		over[filepath.Join(zzDir(repo), rel)] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Env:        goEnv(),
		BuildFlags: []string{"-modfile=" + modfile},
		Overlay:    over,
	}
	var pats []string
	for _, p := range pkgs {
		pats = append(pats, zzPrefix+"/"+p)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		if len(msgs) > 8 {
			msgs = msgs[:8]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(msgs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	return prog, nil
}
