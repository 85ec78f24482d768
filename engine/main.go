// Command engine decides properties of the repository by symbolic execution of its real code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
}

type KnownFindings struct {
	Findings []Finding `json:"findings"`
	Fixed    []string  `json:"fixed"`
}

type config struct {
	repo, verif, tier, prop, only, params string
	seed                                  int64
	budget                                time.Duration
	workers                               int
	dbg                                   bool
	noNative                              bool
}

type harnessReport struct {
	Harness    string
	Doc        string
	Params     map[string]int
	Summary    string
	Wall       float64
	Complete   bool
	Unsupp     map[string]int
	Reached    map[string]int64
	MissReach  []string
	Funcs      int
	InitErr    map[string]string
	Validated  int
	Mismatches []string
	Samples    []string
	Unconf     []string
	e          *Explorer
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(12 << 30)
	var c config
	flag.StringVar(&c.repo, "repo", "/repo", "")
	flag.StringVar(&c.verif, "verif", "/verif", "")
	flag.StringVar(&c.tier, "tier", "", "quick or thorough")
	flag.StringVar(&c.only, "harness", "", "only this harness (pkg.Name)")
	flag.StringVar(&c.params, "params", "", "override parameters k=v,k=v")
	flag.DurationVar(&c.budget, "budget", 0, "time for exploration")
	flag.IntVar(&c.workers, "workers", runtime.NumCPU(), "")
	flag.BoolVar(&c.dbg, "debug", false, "")
	flag.BoolVar(&c.noNative, "no-native", false, "")
	prof := flag.String("cpuprofile", "", "")
	replay := flag.String("replay", "", "replay a violation file natively")
	flag.Parse()
	c.prop = flag.Arg(0)
	c.seed = 1
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = s
	}
	if c.tier == "" {
		c.tier = os.Getenv("VERIF_TIER")
	}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *replay != "" {
		os.Exit(replayFile(&c, *replay))
	}
	code, err := check(&c)
	if err != nil {
		fmt.Fprintln(os.Stderr, "ERROR:", err)
		code = 2
	}
	if *prof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func mergeParams(ms ...map[string]int) map[string]int {
	out := map[string]int{}
	for _, m := range ms {
		for k, v := range m {
			out[k] = v
		}
	}
	return out
}

func (c *config) override(m map[string]int) {
	for _, kv := range strings.Split(c.params, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			n, _ := strconv.Atoi(kv[i+1:])
			m[kv[:i]] = n
		}
	}
}

func check(c *config) (int, error) {
	start := time.Now()
	hs, stubs, files, err := scanHarness(filepath.Join(c.verif, "harness"))
	if err != nil {
		return 2, err
	}
	var mine []*HarnessMeta
	for _, h := range hs {
		if c.only != "" && h.id() != c.only {
			continue
		}
		for _, p := range h.Props {
			if p == c.prop {
				mine = append(mine, h)
			}
		}
	}
	if len(mine) == 0 {
		return 2, fmt.Errorf("no harness for %s", c.prop)
	}
	dir, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		return 2, err
	}
	defer os.RemoveAll(dir)
	_ = os.Chmod(dir, 0o755)
	modfile, err := modCopy(c.repo, dir)
	if err != nil {
		return 2, err
	}
	pset := map[string]bool{}
	for _, h := range mine {
		pset[h.Pkg] = true
	}
	// the packages that hold the stubs in use
	for _, h := range mine {
		for _, u := range h.Use {
			for _, s := range stubs {
				if s.Group == u {
					pset[s.Pkg] = true
				}
			}
		}
	}
	var pkgs []string
	for p := range pset {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	nat := &Native{repo: c.repo, dir: dir, modfile: modfile, files: files, harnesses: mine}
	built := make(chan error, 1)
	race := false
	for _, h := range mine {
		if h.Opt["race"] > 0 {
			race = true
		}
	}
	if !c.noNative {
		go func() {
			_, err := nat.Build(false)
			if err == nil && race {
				_, err = nat.Build(true)
			}
			built <- err
		}()
	}
	prog, err := loadProgram(c.repo, modfile, files, pkgs)
	if err != nil {
		return 2, err
	}
	loadT := time.Since(start)
	if c.dbg {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs\n", loadT.Seconds())
	}
	total := c.budget
	if total == 0 {
		total = 240 * time.Second
		if c.tier == "thorough" {
			total = 600 * time.Second
		}
	}
	if !c.noNative {
		if err := <-built; err != nil {
			return 2, err
		}
	}
	exStart := time.Now()
	weight := 0
	for _, h := range mine {
		weight += max(1, h.Opt["weight"])
	}
	known := loadKnown(filepath.Join(c.verif, "known-findings.json"))
	var reps []*harnessReport
	var viols []*Violation
	code := 0
	for _, h := range mine {
		wt := max(1, h.Opt["weight"])
		left := total - time.Since(exStart)
		share := left * time.Duration(wt) / time.Duration(max(1, weight))
		weight -= wt
		params := mergeParams(h.Quick)
		if c.tier == "thorough" {
			params = mergeParams(h.Quick, h.Thorough)
		}
		c.override(params)
		r, err := explore(c, h, prog, stubs, params, share)
		if err != nil {
			return 2, fmt.Errorf("%s: %w", h.id(), err)
		}
		reps = append(reps, r)
		if c.dbg {
			fmt.Fprintf(os.Stderr, "%s %v: %s wall=%.1fs complete=%v\n", h.id(), params, r.Summary, r.Wall, r.Complete)
			for k, v := range r.Unsupp {
				fmt.Fprintf(os.Stderr, "   unsupported %dx %s\n", v, k)
			}
			for k, v := range r.InitErr {
				fmt.Fprintf(os.Stderr, "   init %s: %s\n", k, v)
			}
			for k, v := range r.Reached {
				fmt.Fprintf(os.Stderr, "   reached %s %d\n", k, v)
			}
		}
		if !c.noNative {
			confirmed := confirm(c, nat, h, r, params)
			viols = append(viols, confirmed...)
			validate(c, nat, h, r, params)
			if c.dbg {
				for _, m := range r.Mismatches {
					fmt.Fprintf(os.Stderr, "   MISMATCH %s\n", m)
				}
				for _, m := range r.Unconf {
					fmt.Fprintf(os.Stderr, "   UNCONFIRMED %s\n", m)
				}
			}
		} else {
			for _, v := range r.e.viols {
				b, _ := json.Marshal(v)
				fmt.Fprintf(os.Stderr, "   VIOL %s\n", b)
			}
		}
	}
	// report
	rdir := filepath.Join(c.verif, "evidence", "replays")
	_ = os.MkdirAll(rdir, 0o755)
	nviol := 0
	seen := map[string]bool{}
	for _, v := range viols {
		k := v.Harness + "/" + v.ID
		if seen[k] {
			continue
		}
		seen[k] = true
		if f := known.match(v); f != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Prop, f.What)
			continue
		}
		nviol++
		p := filepath.Join(rdir, fmt.Sprintf("%s-%s.json", v.Prop, sanitize(v.Harness+"-"+v.ID)))
		b, _ := json.MarshalIndent(map[string]any{"violation": v, "params": paramsOf(reps, v.Harness), "tier": c.tier}, "", " ")
		_ = os.WriteFile(p, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Prop, p)
		fmt.Printf("  %s: %s\n", v.Harness, v.Msg)
		if v.Where != "" {
			fmt.Printf("  at %s\n", v.Where)
		}
		for _, o := range v.Obs {
			fmt.Printf("  %s\n", tail(o, 400))
		}
		code = 1
	}
	if err := writeEvidence(c, reps, nviol, loadT, time.Since(start)); err != nil {
		return 2, err
	}
	for _, r := range reps {
		st := "complete within bounds"
		if !r.Complete {
			st = "PARTIAL (time or unsupported code; see evidence)"
		}
		fmt.Printf("%s %s %v: %d paths, %d assertion queries, %s, %d traces validated natively, %d mismatches\n",
			c.prop, r.Harness, r.Params, r.e.stats.Paths, r.e.stats.AssertQ+r.e.stats.Folded, st, r.Validated, len(r.Mismatches))
	}
	return code, nil
}

func paramsOf(reps []*harnessReport, h string) map[string]int {
	for _, r := range reps {
		if r.Harness == h {
			return r.Params
		}
	}
	return nil
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

func loadKnown(p string) *KnownFindings {
	k := &KnownFindings{}
	b, err := os.ReadFile(p)
	if err == nil {
		_ = json.Unmarshal(b, k)
	}
	return k
}

func (k *KnownFindings) match(v *Violation) *Finding {
	for i := range k.Findings {
		f := &k.Findings[i]
		if f.Property == v.Prop && f.ID == v.ID {
			return f
		}
	}
	return nil
}

func explore(c *config, h *HarnessMeta, prog *ssa.Program, stubs []*StubMeta, params map[string]int, share time.Duration) (*harnessReport, error) {
	pkg := prog.ImportedPackage(zzPrefix + "/" + h.Pkg)
	if pkg == nil {
		return nil, fmt.Errorf("package %s not loaded", h.Pkg)
	}
	fn := pkg.Func(h.Name)
	if fn == nil {
		return nil, fmt.Errorf("function not found")
	}
	opt := func(k string, def int) int {
		if v, ok := params["opt_"+k]; ok {
			return v
		}
		if v, ok := h.Opt[k]; ok {
			return v
		}
		return def
	}
	e := &Explorer{
		prog: prog, entry: fn, harness: h.id(), prop: c.prop, params: params,
		stubs:     map[string]*ssa.Function{},
		trace:     c.dbg,
		maxSteps:  int64(opt("steps", 3_000_000)),
		workers:   c.workers,
		deadline:  time.Now().Add(share),
		seed:      c.seed,
		race:      opt("race", 0) > 0,
		mapOrders: opt("maporder", 0) > 0,
		delayMax:  opt("delay", 0),
		crossEach: 20,
		sampleMax: opt("samples", 60),
		violMax:   6,
		dbg:       c.dbg,
	}
	for _, s := range stubs {
		use := false
		for _, u := range h.Use {
			use = use || u == s.Group
		}
		if !use {
			continue
		}
		sp := prog.ImportedPackage(zzPrefix + "/" + s.Pkg)
		if sp == nil {
			continue
		}
		if f := sp.Func(s.Name); f != nil {
			e.stubs[s.Target] = f
		}
	}
	t := time.Now()
	e.Run()
	r := &harnessReport{Harness: h.id(), Doc: h.Doc, Params: params, Summary: e.summary(), Wall: time.Since(t).Seconds(),
		Unsupp: e.unsupp, Reached: e.reached, Funcs: len(e.covered), InitErr: e.initErr, e: e}
	r.Complete = e.left == 0 && !e.timedOut && len(e.unsupp) == 0
	for _, l := range h.Reach {
		if e.reached[l] == 0 {
			r.MissReach = append(r.MissReach, l)
		}
	}
	return r, nil
}

func confirm(c *config, nat *Native, h *HarnessMeta, r *harnessReport, params map[string]int) []*Violation {
	var out []*Violation
	byID := map[string][]*Violation{}
	var ids []string
	for _, v := range r.e.viols {
		if byID[v.ID] == nil {
			ids = append(ids, v.ID)
		}
		byID[v.ID] = append(byID[v.ID], v)
	}
	sort.Strings(ids)
	limit := time.Now().Add(120 * time.Second)
	for _, id := range ids {
		ok := false
		why := ""
	cand:
		for _, v := range byID[id] {
			tries := 1
			if v.Kind == "race" || v.Kind == "deadlock" || h.Opt["delay"] > 0 {
				tries = 12
			}
			for k := 0; k < tries && time.Now().Before(limit); k++ {
				env := []string{"GORACE=halt_on_error=0 exitcode=0"}
				stress := 0
				if tries > 1 {
					env = append(env, fmt.Sprintf("GOMAXPROCS=%d", []int{1, 2, 4, 8}[k%4]))
					stress = k * 50
				}
				rs, err := nat.Run(v.Kind == "race", []nativeReq{{N: 0, Harness: v.Harness, Prop: c.prop, Values: v.Values, Params: params, Stress: stress}}, env, limit)
				if err != nil || len(rs) == 0 {
					why = fmt.Sprint(err)
					continue
				}
				if confirms(v, &rs[0]) {
					v.Native = "confirmed by native execution"
					out = append(out, v)
					ok = true
					break cand
				}
				b, _ := json.Marshal(rs[0])
				why = tail(string(b), 600)
			}
		}
		if !ok {
			b, _ := json.Marshal(byID[id][0])
			r.Unconf = append(r.Unconf, fmt.Sprintf("%s: counterexample not reproduced natively: %s native: %s", id, b, why))
		}
	}
	return out
}

func validate(c *config, nat *Native, h *HarnessMeta, r *harnessReport, params map[string]int) {
	var reqs []nativeReq
	for i, s := range r.e.samples {
		reqs = append(reqs, nativeReq{N: i, Harness: h.id(), Prop: c.prop, Values: s.Values, Params: params})
	}
	rs, err := nat.Run(false, reqs, nil, time.Now().Add(60*time.Second))
	if err != nil {
		r.Mismatches = append(r.Mismatches, err.Error())
		return
	}
	for _, n := range rs {
		s := r.e.samples[n.N]
		bad := ""
		switch {
		case n.Hang:
			bad = "native run hangs"
		case n.Crash != "":
			bad = "native run crashes: " + n.Crash
		case n.Panic != "":
			bad = "native run panics: " + n.Panic
		case n.Desync != "":
			bad = "desync: " + n.Desync
		case n.Assume:
			bad = "native run fails an assumption"
		case len(n.Fails) > 0:
			bad = fmt.Sprintf("native run fails %v", n.Fails)
		case !reflect.DeepEqual(append([]string{}, n.Obs...), append([]string{}, s.Obs...)):
			for i := range n.Obs {
				if i >= len(s.Obs) || n.Obs[i] != s.Obs[i] {
					sy := "<none>"
					if i < len(s.Obs) {
						sy = s.Obs[i]
					}
					bad = fmt.Sprintf("observation differs: native %q symbolic %q", n.Obs[i], sy)
					break
				}
			}
			if bad == "" {
				bad = fmt.Sprintf("observations missing natively: %d of %d", len(n.Obs), len(s.Obs))
			}
		}
		if bad != "" {
			vb, _ := json.Marshal(s.Values)
			r.Mismatches = append(r.Mismatches, bad+" values="+string(vb))
			continue
		}
		r.Validated++
		if len(r.Samples) < 3 {
			vb, _ := json.Marshal(s.Values)
			r.Samples = append(r.Samples, fmt.Sprintf("values=%s obs=%s", vb, tail(strings.Join(s.Obs, " | "), 300)))
		}
	}
}

func writeEvidence(c *config, reps []*harnessReport, nviol int, loadT, wall time.Duration) error {
	var states, trans, validated int64
	var queries, folded, aq, cross, crossBad int64
	var solver float64
	complete := true
	var samples []any
	var det []any
	funcs := map[string]int{}
	var assumptions []string
	for _, r := range reps {
		s := r.e.stats
		states += s.Done + s.Viol
		trans += s.Steps
		validated += int64(r.Validated)
		queries += s.Queries
		folded += s.Folded
		aq += s.AssertQ
		cross += s.CrossQ
		crossBad += s.CrossBad
		solver += s.SolverTime.Seconds()
		complete = complete && r.Complete
		for _, x := range r.Samples {
			samples = append(samples, r.Harness+": "+x)
		}
		for f, n := range r.e.covered {
			if strings.Contains(f, modPath) && !strings.Contains(f, zzPrefix) {
				funcs[f] = n
			}
		}
		var stubList []string
		for t := range r.e.stubs {
			stubList = append(stubList, t)
		}
		sort.Strings(stubList)
		det = append(det, map[string]any{
			"harness": r.Harness, "what": r.Doc, "bounds": r.Params, "complete_within_bounds": r.Complete,
			"paths": s.Paths, "paths_finished": s.Done, "paths_assumed_away": s.Assumed,
			"paths_unsupported": s.Unsupp + s.Budget, "work_left": r.e.left, "timed_out": r.e.timedOut,
			"unsupported": r.Unsupp, "symbolic_branches": s.Branches, "domain_decided": s.DomHit,
			"assertions_checked": s.AssertQ + s.Folded, "assertions_by_solver": s.AssertQ, "assertions_folded": s.Folded,
			"path_condition_checks": s.PathChecks,
			"solver_queries":        s.Queries, "solver_seconds": s.SolverTime.Seconds(), "solver_unknown": s.SolverUnk, "solver_errors": s.SolverErr,
			"cross_checked_cvc5": s.CrossQ, "cross_disagreements": s.CrossBad,
			"functions_executed": r.Funcs, "stubs": stubList, "reached": r.Reached, "witness_missing": r.MissReach,
			"traces_validated": r.Validated, "mismatches": r.Mismatches, "unconfirmed": r.Unconf, "wall_s": r.Wall,
		})
		assumptions = append(assumptions, r.Harness+": inputs within the bounds "+fmt.Sprint(r.Params)+"; everything larger is outside the claim")
		if !r.Complete {
			assumptions = append(assumptions, r.Harness+": exploration incomplete in this run; only the paths counted are covered")
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "no path finished with a native validation in this run")
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"wall_s": wall.Seconds(), "violations": nviol, "assumptions": assumptions,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":  complete,
			"explanation": "states: finished symbolic paths of the harnesses through the real code (each stands for every input satisfying its path condition); transitions: SSA instructions executed symbolically; traces validated: finished paths whose solver model was replayed on the natively compiled code with equal observations",
			"queries":     queries, "assertion_queries": aq, "assertions_folded_to_constants": folded, "solver_seconds": solver,
			"cross_checked": cross, "cross_disagreements": crossBad,
			"functions_encoded": funcs, "harnesses": det, "load_seconds": loadT.Seconds(),
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	_ = os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	return os.WriteFile(filepath.Join(c.verif, "evidence", c.prop+".json"), b, 0o644)
}

func replayFile(c *config, p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Violation Violation      `json:"violation"`
		Params    map[string]int `json:"params"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	hs, _, files, err := scanHarness(filepath.Join(c.verif, "harness"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	dir, err := os.MkdirTemp("", "zzverif")
	if err != nil {
		return 2
	}
	defer os.RemoveAll(dir)
	_ = os.Chmod(dir, 0o755)
	modfile, err := modCopy(c.repo, dir)
	if err != nil {
		return 2
	}
	nat := &Native{repo: c.repo, dir: dir, modfile: modfile, files: files}
	for _, h := range hs {
		if h.id() == f.Violation.Harness {
			nat.harnesses = append(nat.harnesses, h)
		}
	}
	rs, err := nat.Run(f.Violation.Kind == "race", []nativeReq{{Harness: f.Violation.Harness, Prop: f.Violation.Prop, Values: f.Violation.Values, Params: f.Params}}, nil, time.Now().Add(60*time.Second))
	if err != nil || len(rs) == 0 {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	o, _ := json.MarshalIndent(rs[0], "", " ")
	fmt.Println(string(o))
	if confirms(&f.Violation, &rs[0]) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Violation.Prop, p)
		return 1
	}
	return 0
}

var _ = rand.Int
var _ = exec.Command
