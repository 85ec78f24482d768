package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

type nativeReq struct {
	N       int            `json:"n"`
	Harness string         `json:"harness"`
	Prop    string         `json:"prop"`
	Values  []any          `json:"values"`
	Params  map[string]int `json:"params"`
	Stress  int            `json:"stress"`
}

type nativeFail struct {
	Prop string `json:"prop"`
	ID   string `json:"id"`
}

type nativeResp struct {
	N      int          `json:"n"`
	Obs    []string     `json:"obs"`
	Fails  []nativeFail `json:"fails"`
	Panic  string       `json:"panic,omitempty"`
	Assume bool         `json:"assume,omitempty"`
	Desync string       `json:"desync,omitempty"`
	Hang   bool         `json:"hang,omitempty"`
	Crash  string       `json:"crash,omitempty"` // the process died; tail of its stderr
	Race   bool         `json:"race,omitempty"`
	Stderr string       `json:"-"`
}

// Native builds and runs the harnesses natively.
type Native struct {
	repo, dir, modfile string
	files              map[string][]byte
	harnesses          []*HarnessMeta
	bin                map[bool]string
	err                map[bool]error
}

func (n *Native) overlay() (string, error) {
	rep := map[string]string{}
	src := filepath.Join(n.dir, "src")
	write := func(rel string, b []byte) error {
		p := filepath.Join(src, rel)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return err
		}
		rep[filepath.Join(zzDir(n.repo), rel)] = p
		return os.WriteFile(p, b, 0o644)
	}
	for rel, b := range n.files {
		if rel == "cmd/table.go" {
			continue
		}
		if err := write(rel, b); err != nil {
			return "", err
		}
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n")
	pk := map[string]bool{}
	for _, h := range n.harnesses {
		pk[h.Pkg] = true
	}
	var pks []string
	for p := range pk {
		pks = append(pks, p)
	}
	sort.Strings(pks)
	for _, p := range pks {
		fmt.Fprintf(&sb, "\t%q\n", zzPrefix+"/"+p)
	}
	sb.WriteString(")\n\nvar table = map[string]func(){\n")
	for _, h := range n.harnesses {
		fmt.Fprintf(&sb, "\t%q: %s.%s,\n", h.id(), filepath.Base(h.Pkg), h.Name)
	}
	sb.WriteString("}\n")
	if err := write("cmd/table.go", []byte(sb.String())); err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	p := filepath.Join(n.dir, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}

// Build compiles the replay binary.
func (n *Native) Build(race bool) (string, error) {
	if b, ok := n.bin[race]; ok {
		return b, n.err[race]
	}
	if n.bin == nil {
		n.bin, n.err = map[bool]string{}, map[bool]error{}
	}
	ov, err := n.overlay()
	out := filepath.Join(n.dir, fmt.Sprintf("replay-%v", race))
	if err == nil {
		args := []string{"build", "-modfile=" + n.modfile, "-overlay", ov, "-o", out}
		if race {
			args = append(args, "-race")
		}
		args = append(args, zzPrefix+"/cmd")
		c := exec.Command("go", args...)
		c.Dir = n.repo
		c.Env = goEnv()
		if race {
			c.Env = append(c.Env, "CGO_ENABLED=1")
		}
		var b []byte
		b, err = c.CombinedOutput()
		if err != nil {
			err = fmt.Errorf("building the replay binary: %v: %s", err, tail(string(b), 2000))
		}
	}
	n.bin[race], n.err[race] = out, err
	return out, err
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Run executes requests natively, restarting the process when it dies.
func (n *Native) Run(race bool, reqs []nativeReq, env []string, deadline time.Time) ([]nativeResp, error) {
	bin, err := n.Build(race)
	if err != nil {
		return nil, err
	}
	out := make([]nativeResp, 0, len(reqs))
	for len(reqs) > 0 && time.Now().Before(deadline) {
		got, err := n.runProc(bin, race, reqs, env, deadline)
		out = append(out, got...)
		if err != nil {
			return out, err
		}
		if len(got) == 0 {
			break
		}
		reqs = reqs[len(got):]
	}
	return out, nil
}

func (n *Native) runProc(bin string, race bool, reqs []nativeReq, env []string, deadline time.Time) ([]nativeResp, error) {
	scratch, err := os.MkdirTemp(n.dir, "scratch")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(scratch)
	c := exec.Command(bin)
	if !race {
		// what never ends must not take all the memory
		c = exec.Command("/bin/sh", "-c", `ulimit -v 8000000; exec "$0"`, bin)
	}
	c.Dir = scratch
	c.Env = append([]string{"HOME=" + scratch, "PATH=/usr/bin:/bin", "ZZ_SCRATCH=" + scratch, "TMPDIR=" + scratch}, env...)
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if os.Geteuid() == 0 {
		if err := os.Chown(scratch, 65534, 65534); err != nil {
			return nil, err
		}
		c.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}
	}
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	so, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	var se bytes.Buffer
	c.Stderr = &se
	if err := c.Start(); err != nil {
		return nil, err
	}
	kill := func() { _ = syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	limit := time.Until(deadline)
	if limit > 150*time.Second {
		limit = 150 * time.Second
	}
	timer := time.AfterFunc(limit, kill)
	defer timer.Stop()
	go func() {
		w := bufio.NewWriter(in)
		e := json.NewEncoder(w)
		for _, r := range reqs {
			if e.Encode(r) != nil {
				break
			}
		}
		w.Flush()
		in.Close()
	}()
	var out []nativeResp
	dec := json.NewDecoder(bufio.NewReader(so))
	for len(out) < len(reqs) {
		var r nativeResp
		if err := dec.Decode(&r); err != nil {
			break
		}
		out = append(out, r)
		if r.Hang {
			break
		}
	}
	_, _ = io.Copy(io.Discard, so)
	kill()
	_ = c.Wait()
	text := se.String()
	died := len(out) < len(reqs) && (len(out) == 0 || !out[len(out)-1].Hang)
	if died {
		r := nativeResp{N: reqs[len(out)].N, Crash: tail(text, 3000)}
		if r.Crash == "" {
			r.Crash = "process ended"
		}
		if !timer.Stop() {
			r.Crash, r.Hang = "", true
		}
		out = append(out, r)
	}
	if strings.Contains(text, "WARNING: DATA RACE") {
		for i := range out {
			out[i].Race = true
			out[i].Stderr = text
		}
	}
	return out, nil
}

// confirms says whether a native run shows the violation.
func confirms(v *Violation, r *nativeResp) bool {
	switch v.Kind {
	case "panic":
		return r.Panic != "" || r.Crash != "" && !strings.Contains(r.Crash, "all goroutines are asleep")
	case "deadlock":
		return r.Hang || strings.Contains(r.Crash, "all goroutines are asleep")
	case "hang":
		return r.Hang || r.Panic != "" || r.Crash != ""
	case "race":
		return r.Race
	}
	for _, f := range r.Fails {
		if f.ID == v.ID {
			return true
		}
	}
	return false
}
