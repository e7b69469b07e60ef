package main

// The check command: decides one property on the current tree.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop configures how one property is decided (props.json).
type Prop struct {
	Packages []string `json:"packages"` // repository-relative
	Driver   string   `json:"driver"`   // repository-relative package of the driver
	Specs    []string `json:"specs"`    // contract files the driver needs, of the driver's package
	Timeout  int      `json:"timeout"`  // ms for one query
	Budget   int      `json:"budget"`   // seconds for the proof
	Notes    []string `json:"notes"`    // assumptions specific to the property
	Bounded  []string `json:"bounded"`  // parts covered by the driver only
}

type driverResult struct {
	Ran         bool
	Built       bool
	Output      string
	Fail        string // failing input, JSON
	Evaluations int    `json:"evaluations"`
	Distinct    int    `json:"distinct"`
	Samples     []any  `json:"samples"`
	Rule        string `json:"rule"`
	Seconds     float64
	Cmd         string
}

var verifDir = "/verif"

func check(args []string) {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: gocv check ID")
		os.Exit(2)
	}
	id := args[0]
	repo := "/repo"
	if v := os.Getenv("CV_REPO"); v != "" {
		repo = v
	}
	if v := os.Getenv("CV_VERIF"); v != "" {
		verifDir = v
	}
	os.Exit(runCheck(id, repo))
}

func runCheck(id, repo string) int {
	t0 := time.Now()
	seed := 1
	if v, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = v
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "props.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	all := map[string]*Prop{}
	if err := json.Unmarshal(b, &all); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := all[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	if p.Timeout == 0 {
		p.Timeout = 8000
	}
	if p.Budget == 0 {
		p.Budget = 330
	}
	budget := time.Duration(p.Budget) * time.Second
	drvMS := 6000
	if tier == "thorough" {
		budget = 520 * time.Second
		drvMS = 60000
		p.Timeout *= 3
	}

	// The bounded driver runs first: it needs little time, and a failing input
	// makes a long search for a proof pointless.
	drv := runDriver(id, p, repo, seed, drvMS)
	fmt.Printf("%s: driver: %d evaluations in %.1f s%s\n", id, drv.Evaluations, drv.Seconds, map[bool]string{true: ", FAILING INPUT FOUND", false: ""}[drv.Fail != ""])
	if drv.Fail != "" && budget > 60*time.Second {
		budget = 60 * time.Second
	}
	v := verifyProp(id, p, repo, budget, drv.Fail == "")
	if len(v.failures) > 0 && drv.Fail == "" && drv.Ran {
		// Search longer.
		d2 := runDriver(id, p, repo, seed+1000, 10*drvMS)
		fmt.Printf("%s: longer search: %d evaluations in %.1f s\n", id, d2.Evaluations, d2.Seconds)
		d2.Evaluations += drv.Evaluations
		d2.Distinct += drv.Distinct
		d2.Seconds += drv.Seconds
		if !d2.Built {
			d2.Built = drv.Built
		}
		drv = d2
	}
	code := 0
	violations := 0
	if len(v.failures) > 0 || drv.Fail != "" {
		code, violations = 1, 1
	}
	writeEvidence(id, tier, seed, p, v, drv, time.Since(t0), violations)
	for _, l := range v.summary {
		fmt.Println(l)
	}
	if code != 0 {
		path := writeReplay(id, seed, v, drv)
		for i, f := range v.failures {
			if i < 20 {
				fmt.Println("UNPROVED", f)
			}
		}
		s := fmt.Sprintf("VIOLATION property=%s replay=%s", id, path)
		if drv.Fail == "" {
			s += " no-failing-input-found"
		} else {
			fmt.Println("failing input:", drv.Fail)
		}
		fmt.Println(s)
	}
	return code
}

// ------------------------------------------------------------------------------

type verdict struct {
	failures    []string
	queries     map[string]string // failed obligation -> query
	summary     []string
	functions   []map[string]any
	obligations int
	discharged  int
	trivial     int
	invariants  int
	backends    map[string]int
	trusted     []string
	assumed     []string
	vacuity     int
	wall        float64
	solverMS    int64
	solverRuns  int64
	names       []string
	dropped     []string
}

func verifyProp(id string, p *Prop, repo string, budget time.Duration, retry bool) (v *verdict) {
	v = &verdict{queries: map[string]string{}, backends: map[string]int{}}
	t0 := time.Now()
	defer func() {
		v.wall = time.Since(t0).Seconds()
		v.solverMS = atomic.LoadInt64(&solverMS)
		v.solverRuns = atomic.LoadInt64(&solverRuns)
		if r := recover(); r != nil {
			v.failures = append(v.failures, fmt.Sprintf("verifier: %v", r))
		}
	}()
	k, fails := attemptProp(id, p, repo, budget, loadHints(id), retry)
	v.failures = fails
	if k == nil {
		return v
	}
	trusted := map[string]bool{}
	for _, r := range k.reports {
		n, d := 0, 0
		for _, o := range r.obls {
			n++
			if o.result == "discharged" {
				d++
				v.backends[o.solver]++
			} else if _, ok := v.queries[o.name()]; !ok {
				v.queries[o.name()] = o.query + "\n; " + o.out
			}
			v.names = append(v.names, o.name())
		}
		v.obligations += n
		v.discharged += d
		v.trivial += r.x.trivial
		inv := 0
		for _, li := range r.x.loops {
			for _, c := range li.cands {
				if !c.dropped {
					inv++
				}
			}
		}
		v.invariants += inv
		v.vacuity += len(r.sanity)
		v.functions = append(v.functions, map[string]any{
			"function": r.target, "obligations": n, "discharged": d, "trivially_true": r.x.trivial, "loops": len(r.x.loops), "loop_invariants": inv,
			"out_of_reach": r.err, "seconds_generating": r.dur.Seconds(),
		})
		v.summary = append(v.summary, fmt.Sprintf("%s: %s: %d/%d obligations discharged (%d more trivially true), %d loops, %d invariants", id, r.target, d, n, r.x.trivial, len(r.x.loops), inv))
		for t := range r.x.trusted {
			trusted[t] = true
		}
	}
	for _, o := range k.specObls {
		v.obligations++
		v.discharged++
		v.backends[o.solver]++
	}
	v.functions = append(v.functions, map[string]any{"function": "termination of recursive specification functions", "obligations": len(k.specObls), "discharged": len(k.specObls)})
	if specExec != nil {
		for t := range specExec.trusted {
			trusted[t] = true
		}
	}
	for t := range trusted {
		v.trusted = append(v.trusted, t)
	}
	sort.Strings(v.trusted)
	v.assumed = append(v.assumed, k.w.assumed...)
	sort.Strings(v.assumed)
	v.dropped = k.w.droppedClauses
	if os.Getenv("CV_HINTS") != "" && len(fails) == 0 {
		saveHints(id, k)
	}
	return v
}

func attemptProp(id string, p *Prop, repo string, budget time.Duration, hints map[string]bool, retry bool) (*Checker, []string) {
	specExec = nil
	w, err := loadWorld(repo, filepath.Join(verifDir, "contracts"), p.Packages)
	if err != nil {
		return nil, []string{"loading: " + err.Error()}
	}
	var fails []string
	if len(w.loadErrs) > 0 {
		for _, e := range w.loadErrs {
			fails = append(fails, "loading: "+e)
		}
		return nil, fails
	}
	for _, m := range w.missing {
		fails = append(fails, "function under contract not found: "+m)
	}
	k := &Checker{w: w, cache: map[string]Answer{}, timeout: p.Timeout, hints: hints, deadline: time.Now().Add(budget)}
	roots := w.roots(id)
	if len(roots) == 0 {
		return nil, append(fails, "no function under contract")
	}
	k.closure(roots)
	k.checkSpecs()
	k.discharge()
	if retry && len(k.failures()) > 0 && len(k.hints) > 0 && !k.late() {
		// The code may have changed: try without the recorded shortcuts.
		k.noHints()
		k.discharge()
	}
	fails = append(fails, k.failures()...)
	fails = append(fails, k.specFails...)
	n := 0
	for _, r := range k.reports {
		n += len(r.obls)
	}
	if n == 0 {
		fails = append(fails, "no obligations generated")
	}
	return k, fails
}

// ------------------------------------------------------------------------------
// Hints: candidate invariants known not to hold, which need not be tried.
// Leaving out an invariant is always sound.

func hintKey(li *LoopInst, c *Cand) string {
	return li.key + "|" + c.key()
}

func loadHints(id string) map[string]bool {
	b, err := os.ReadFile(filepath.Join(verifDir, "hints", id+".json"))
	if err != nil {
		return nil
	}
	var l []string
	if json.Unmarshal(b, &l) != nil {
		return nil
	}
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

func saveHints(id string, k *Checker) {
	kept := map[string]bool{}
	drop := map[string]bool{}
	for _, r := range k.reports {
		for _, li := range r.x.loops {
			for _, c := range li.cands {
				if c.dropped {
					drop[hintKey(li, c)] = true
				} else {
					kept[hintKey(li, c)] = true
				}
			}
		}
	}
	var l []string
	for s := range drop {
		if !kept[s] {
			l = append(l, s)
		}
	}
	sort.Strings(l)
	b, _ := json.MarshalIndent(l, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "hints"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "hints", id+".json"), append(b, '\n'), 0o644)
}

// ------------------------------------------------------------------------------
// The bounded driver

func runDriver(id string, p *Prop, repo string, seed, ms int) (res driverResult) {
	t0 := time.Now()
	defer func() { res.Seconds = time.Since(t0).Seconds() }()
	if p.Driver == "" {
		return
	}
	tmp, err := os.MkdirTemp("", "cvdrv")
	if err != nil {
		res.Output = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	pkgDir := filepath.Join(repo, p.Driver)
	pkgName := goPackageName(pkgDir)
	repl := map[string]string{}
	add := func(name, src string) {
		f := filepath.Join(tmp, name)
		os.WriteFile(f, []byte(src), 0o644)
		repl[filepath.Join(pkgDir, name)] = f
	}
	helper, err := os.ReadFile(filepath.Join(verifDir, "drivers", "helper.go.txt"))
	if err != nil {
		res.Output = err.Error()
		return
	}
	add("zz_cvhelper_test.go", strings.Replace(string(helper), "package PACKAGE", "package "+pkgName, 1))
	ds, _ := filepath.Glob(filepath.Join(verifDir, "drivers", id, "*.go"))
	for _, d := range ds {
		b, _ := os.ReadFile(d)
		n := strings.TrimSuffix(filepath.Base(d), ".go")
		n = "zz_cv_" + strings.TrimSuffix(n, "_test") + "_test.go"
		add(n, string(b))
	}
	for _, s := range p.Specs {
		b, err := os.ReadFile(filepath.Join(verifDir, "contracts", p.Driver, s))
		if err != nil {
			res.Output = err.Error()
			return
		}
		add("zz_cvspec_"+strings.TrimSuffix(s, ".go")+"_test.go", string(b))
	}
	// The repository's own tests are left out, so that they cannot clash.
	ts, _ := filepath.Glob(filepath.Join(pkgDir, "*_test.go"))
	for _, t := range ts {
		repl[t] = ""
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	bin := filepath.Join(tmp, "drv.test")
	rel := "./" + p.Driver
	if p.Driver == "." {
		rel = "."
	}
	ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "go", "test", "-vet=off", "-overlay", ovf, "-c", "-o", bin, rel)
	c.Dir = repo
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
	out, err := c.CombinedOutput()
	if err != nil {
		res.Output = "driver does not build: " + string(out)
		fmt.Println(res.Output)
		return
	}
	res.Built = true
	ctx2, cancel2 := context.WithTimeout(context.Background(), time.Duration(ms)*time.Millisecond+60*time.Second)
	defer cancel2()
	scratch := filepath.Join(tmp, "scratch")
	os.MkdirAll(scratch, 0o755)
	r := exec.CommandContext(ctx2, bin, "-test.run", "^TestCV$", "-test.timeout", "0")
	r.Dir = pkgDir
	r.Env = append(os.Environ(), fmt.Sprintf("CV_SEED=%d", seed), fmt.Sprintf("CV_MS=%d", ms), "CV_SCRATCH="+scratch, "GOTRACEBACK=single")
	var buf bytes.Buffer
	r.Stdout, r.Stderr = &buf, &buf
	rerr := r.Run()
	res.Ran = true
	res.Output = buf.String()
	for _, l := range strings.Split(res.Output, "\n") {
		if strings.HasPrefix(l, "CVSTAT ") {
			json.Unmarshal([]byte(l[7:]), &res)
		}
		if strings.HasPrefix(l, "CVFAIL ") && res.Fail == "" {
			res.Fail = l[7:]
		}
	}
	if rerr != nil && res.Fail == "" && ctx2.Err() == nil {
		// It crashed outside a guarded call: the current input is unknown, the
		// output tells.
		res.Fail = fmt.Sprintf("%q", firstLines(res.Output, 12))
	}
	if ctx2.Err() != nil && res.Fail == "" {
		res.Fail = `"the driver did not end in time"`
	}
	res.Cmd = fmt.Sprintf("VERIF_SEED=%d %s/bin/gocv drive %s", seed, verifDir, id)
	return
}

// drive runs the driver alone.
func drive(args []string) {
	if v := os.Getenv("CV_VERIF"); v != "" {
		verifDir = v
	}
	repo := "/repo"
	if v := os.Getenv("CV_REPO"); v != "" {
		repo = v
	}
	b, _ := os.ReadFile(filepath.Join(verifDir, "props.json"))
	all := map[string]*Prop{}
	json.Unmarshal(b, &all)
	seed := 1
	if v, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = v
	}
	ms := 6000
	if v, err := strconv.Atoi(os.Getenv("CV_MS")); err == nil {
		ms = v
	}
	res := runDriver(args[0], all[args[0]], repo, seed, ms)
	fmt.Println(firstLines(res.Output, 60))
	fmt.Printf("evaluations %d distinct %d in %.1f s\n", res.Evaluations, res.Distinct, res.Seconds)
	if res.Fail != "" || !res.Ran {
		fmt.Println("FAIL", res.Fail)
		os.Exit(1)
	}
}

func firstLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func goPackageName(dir string) string {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(fs)
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				return strings.Fields(l)[1]
			}
		}
	}
	return filepath.Base(dir)
}

// ------------------------------------------------------------------------------

func writeReplay(id string, seed int, v *verdict, drv driverResult) string {
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, id+".json")
	type failed struct {
		Obligation string `json:"obligation"`
		Output     string `json:"verifier_output,omitempty"`
	}
	var fs []failed
	for i, f := range v.failures {
		if i >= 40 {
			break
		}
		fl := failed{Obligation: f}
		for n, q := range v.queries {
			if strings.HasPrefix(f, n) {
				if len(q) > 20000 {
					q = q[:20000] + "..."
				}
				fl.Output = q
			}
		}
		fs = append(fs, fl)
	}
	m := map[string]any{"property": id, "seed": seed, "failed_obligations": fs}
	if drv.Fail != "" {
		m["failing_input"] = json.RawMessage(drv.Fail)
		if !json.Valid([]byte(drv.Fail)) {
			m["failing_input"] = drv.Fail
		}
		m["replay_cmd"] = drv.Cmd
		m["driver_output"] = firstLines(drv.Output, 40)
	} else {
		m["failing_input"] = nil
		m["note"] = "the obligations above are not discharged for the current source; no failing input was found"
		m["driver"] = fmt.Sprintf("%d evaluations, built: %v", drv.Evaluations, drv.Built)
		if !drv.Built {
			m["driver_output"] = firstLines(drv.Output, 20)
		}
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

var baseTrusted = []string{
	"gocv (verification condition generator in /verif/gocv) and its models of Go and of the standard library",
	"golang.org/x/tools/go/ssa v0.52.0 and the Go type checker (translation of the source to SSA)",
	"SMT solvers z3 (z3-new), cvc5 1.1.2 and z3 4.8.12: an obligation counts as discharged when one of them answers unsat",
}

var baseAssumed = []string{
	"int and int64 are mathematical integers (narrower kinds have overflow obligations)",
	"no goroutine of the program shares the memory of the call under proof; memory allocation does not fail",
	"the program ends only by returning or panicking (stack exhaustion is not modelled)",
}

func writeEvidence(id, tier string, seed int, p *Prop, v *verdict, drv driverResult, wall time.Duration, violations int) {
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	trusted := append([]string{}, baseTrusted...)
	for _, t := range v.trusted {
		trusted = append(trusted, "external function taken as a total pure function: "+t)
	}
	for _, t := range v.assumed {
		trusted = append(trusted, "assumed, not verified: "+t)
	}
	cov := map[string]any{
		"obligations":              v.obligations,
		"discharged":               v.discharged,
		"trivially_true":           v.trivial,
		"loop_invariants":          v.invariants,
		"functions_under_contract": v.functions,
		"back_ends":                v.backends,
		"solver_time_s":            float64(v.solverMS) / 1000,
		"solver_runs":              v.solverRuns,
		"proof_wall_s":             v.wall,
		"vacuity_checks":           v.vacuity,
		"checker_cmd":              fmt.Sprintf("%s/bin/gocv check %s", verifDir, id),
		"trusted_base":             trusted,
		"undischarged":             v.failures,
		"bounded_driver": map[string]any{
			"label": "bounded, not counted as proof: the code compared with the executable specification on generated inputs",
			"ran":   drv.Ran, "evaluations": drv.Evaluations, "distinct_nontrivial": drv.Distinct, "rule": drv.Rule, "samples": drv.Samples, "seconds": drv.Seconds,
		},
	}
	if len(p.Bounded) > 0 {
		cov["bounded_only"] = p.Bounded
	}
	if len(v.dropped) > 0 {
		cov["contract_clauses_left_out"] = v.dropped
	}
	m := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
		"assumptions": append(append([]string{}, baseAssumed...), p.Notes...),
		"wall_s":      wall.Seconds(), "violations": violations,
	}
	b, _ := json.MarshalIndent(m, "", " ")
	os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}

var _ sync.Mutex
