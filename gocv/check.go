package main

// Verification of one function and discharge of the obligations.

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnReport struct {
	target   string
	c        *Contract
	x        *Exec
	err      string // out of reach
	obls     []*Obl
	vacuous  bool
	sanity   []*Obl
	dur      time.Duration
	external bool
}

// verify executes a function under its contract and collects obligations.
func (w *World) verify(c *Contract) (rep *FnReport) {
	x := newExec(w)
	rep = &FnReport{target: c.target, c: c, x: x}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				rep.err = e.msg
			case noMerge:
				rep.err = "cannot merge " + e.msg
			default:
				panic(r)
			}
			if len(x.stack) > 0 {
				rep.err += " (in " + x.stack[len(x.stack)-1].String() + ")"
			}
			rep.err += " at " + x.where()
		}
	}()
	fn := c.fn
	x.root, x.rootC = fn, c
	st := newState()
	e := env{}
	var args []Value
	for _, pr := range fn.Params {
		v := x.sym(st, pr.Type(), pr.Name(), c.nilable[pr.Name()])
		args = append(args, v)
		e[pr.Name()] = envVal{v, pr.Type()}
	}
	for _, cl := range c.requires {
		st.assume(x.clauseTerm(st, cl, e))
	}
	var al []*Term
	for _, cl := range c.panics {
		al = append(al, x.clauseTerm(st, cl, e))
	}
	x.allowed = Or(al...)
	if len(c.decreases) > 0 {
		x.decr = x.clauseTerm(st, c.decreases[0], e)
	}
	for i, pr := range fn.Params {
		ov := x.snap(st, args[i])
		e["old_"+pr.Name()] = envVal{ov, pr.Type()}
		x.rootArgs["old_"+pr.Name()] = ov
		x.rootTypes["old_"+pr.Name()] = pr.Type()
	}
	x.oldGlobals(st, c.ensures, e)
	ge := env{}
	x.oldGlobals(st, x.w.invs, ge)
	for k, v := range ge {
		if _, ok := x.rootArgs[k]; !ok {
			x.rootArgs[k], x.rootTypes[k] = v.v, v.t
		}
	}
	pre := append([]*Term{}, st.pc...)
	rep.sanity = append(rep.sanity, &Obl{root: fn.String(), kind: "sanity:", label: "precondition", pc: pre, facts: append([]*Term{}, x.facts...), goal: False})
	entry := map[*Cell]Value{}
	for c, v := range st.mem {
		entry[c] = v
	}
	entrySt := st.fork()
	rs := x.execFn(st, fn, args, nil)
	for _, r := range rs {
		if r.st.dead() {
			continue
		}
		rep.sanity = append(rep.sanity, &Obl{root: fn.String(), kind: "sanity:", label: "return", pc: r.st.pc, facts: append([]*Term{}, x.facts...), goal: False})
		e2 := env{}
		for k, v := range e {
			e2[k] = v
		}
		x.resultEnv(e2, fn.Signature, r.v)
		x.stack = nil
		for _, cl := range c.ensures {
			x.oblige(r.st, "postcondition", cl.label, fn.Pos(), x.clauseTerm(r.st, cl, e2))
		}
		x.frame(r.st, entrySt, entry, e, c)
		x.freshResult(r.st, r.v, fn)
	}
	rep.obls = x.obls
	return rep
}

func (x *Exec) where() string {
	if x.curPos != "" {
		return x.curPos
	}
	return "?"
}

// freshResult checks that returned pointers do not alias the parameters.
func (x *Exec) freshResult(st *State, v Value, fn *ssa.Function) {
	if x.rootC.pure || x.w.lemmas[fn] != nil {
		return
	}
	switch v := v.(type) {
	case TupleV:
		for _, e := range v {
			x.freshResult(st, e, fn)
		}
	case *PtrV:
		if v.cell.param && v.nilc != True && v.cell.fixed == nil && len(x.rootC.ensures) > 0 {
			fail("the result may be a pointer to parameter memory")
		}
	case *IfaceV:
		if v.dyn != nil {
			x.freshResult(st, v.v, fn)
		}
	case *MapV:
		if p := x.resolve(st, v.p); p.cell.param && v.nilc != True && p.cell.fixed == nil && len(x.rootC.ensures) > 0 {
			fail("the result may be a map of parameter memory")
		}
	}
}

// frame obliges that unlisted caller memory is unchanged.
func (x *Exec) frame(st, entrySt *State, entry map[*Cell]Value, e env, c *Contract) {
	allowed := map[*Cell][]string{}
	for m := range c.modifies {
		pl, ok := x.placeOf(entrySt, m, e, c.fn.Pkg)
		if !ok {
			fail("modifies: unknown name %s", m)
		}
		if pl.none {
			continue
		}
		switch v := pl.v.(type) {
		case *MapV:
			allowed[v.p.cell] = append(allowed[v.p.cell], "")
			continue
		case *SliceV:
			allowed[v.cell] = append(allowed[v.cell], "")
			continue
		}
		v, fld := pl.ptr, pl.fld
		allowed[v.cell] = append(allowed[v.cell], fld)
		if g := x.globalOf[v.cell]; g != nil && fld == "" {
			if mv, ok := x.load(entrySt, v).(*MapV); ok {
				allowed[mv.p.cell] = append(allowed[mv.p.cell], "")
			}
			continue
		}
		if fld == "" {
			x.reach(entrySt, entry[v.cell], allowed)
		} else if sv, ok := entry[v.cell].(*StructV); ok {
			for i, ft := range fieldNames(sv.t) {
				if ft == fld {
					x.reach(entrySt, sv.f[i], allowed)
				}
			}
		}
	}
	var cs []*Cell
	for c := range st.touch {
		if c.param {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, cl := range cs {
		fs, ok := allowed[cl]
		whole := false
		for _, f := range fs {
			if f == "" {
				whole = true
			}
		}
		if ok && whole {
			continue
		}
		old, have := entry[cl]
		if !have {
			if gv := x.ginits[cl]; gv != nil {
				old, have = gv.v, true
			}
		}
		if !have {
			for _, gv := range x.ginits {
				if v, ok := gv.st.mem[cl]; ok {
					old, have = v, true
				}
			}
		}
		if !have {
			continue // allocated during the call
		}
		now := st.mem[cl]
		if sv, ok := now.(*StructV); ok {
			names := fieldNames(sv.t)
			for i := range sv.f {
				okf := false
				for _, f := range fs {
					if i < len(names) && f == names[i] {
						okf = true
					}
				}
				if okf || sameV(sv.f[i], old.(*StructV).f[i]) {
					continue
				}
				ft := fieldTypes(sv.t)[i]
				x.oblige(st, "frame:", cl.name+"."+names[i]+" is unchanged", c.fn.Pos(), Eq(x.toTerm(st, sv.f[i], ft), x.toTerm(entrySt, old.(*StructV).f[i], ft)))
			}
			continue
		}
		if sameV(now, old) {
			continue
		}
		x.oblige(st, "frame:", cl.name+" is unchanged", c.fn.Pos(), Eq(x.toTerm(st, now, cl.typ), x.toTerm(entrySt, old, cl.typ)))
	}
}

func fieldNames(t interface{ String() string }) []string {
	return structFieldNames(t)
}

// reach lists the memory owned by a value.
func (x *Exec) reach(st *State, v Value, out map[*Cell][]string) {
	switch v := v.(type) {
	case *StructV:
		for _, f := range v.f {
			x.reach(st, f, out)
		}
	case *PtrV:
		if _, ok := out[v.cell]; !ok {
			out[v.cell] = []string{""}
			x.reach(st, st.mem[v.cell], out)
		}
	case *MapV:
		out[v.p.cell] = []string{""}
	case *SliceV:
		out[v.cell] = []string{""}
	}
}

// ------------------------------------------------------------------------------
// Discharge

type Checker struct {
	w       *World
	reports []*FnReport
	expand  map[*Term]*Term
	cache   map[string]Answer
	timeout int // ms for one query
	verbose bool

	hints    map[string]bool // candidates not to try
	deadline time.Time
	all      map[*FnReport][]*Obl

	specObls  []*Obl
	specFails []string
}

func (k *Checker) late() bool { return !k.deadline.IsZero() && time.Now().After(k.deadline) }

// useHints drops the candidates that are recorded not to hold.
func (k *Checker) useHints() {
	for _, r := range k.reports {
		for _, li := range r.x.loops {
			for _, c := range li.cands {
				if !c.dropped && k.hints[hintKey(li, c)] {
					c.dropped, c.why = true, "hint"
				}
			}
		}
	}
}

// noHints brings them back.
func (k *Checker) noHints() {
	k.hints = nil
	for _, r := range k.reports {
		r.obls = k.all[r]
		r.vacuous = false
		for _, o := range r.obls {
			if o.cand != nil && o.result == "dropped" {
				o.result = ""
			}
		}
		for _, li := range r.x.loops {
			for _, c := range li.cands {
				if c.why != "cannot be evaluated" {
					c.dropped, c.why = false, ""
				}
			}
		}
	}
}

// expansion maps every loop marker to its surviving invariants.
func (k *Checker) expansion() {
	k.expand = map[*Term]*Term{}
	for _, r := range k.reports {
		for _, li := range r.x.loops {
			if li.marker == nil {
				continue
			}
			var cs []*Term
			for _, c := range li.cands {
				if !c.dropped && c.head != nil {
					cs = append(cs, c.head)
				}
			}
			k.expand[li.marker] = And(cs...)
		}
	}
}

func (k *Checker) subst(ts []*Term) []*Term {
	out := make([]*Term, 0, len(ts))
	memo := map[*Term]*Term{}
	for _, t := range ts {
		for i := 0; t.hasInv && i < 30; i++ {
			t = substTerm(t, k.expand, memo)
			if t.hasInv {
				memo = map[*Term]*Term{}
			}
		}
		if t != True {
			out = append(out, t)
		}
	}
	return out
}

// queries builds the queries of an obligation, one per conjunct of the goal.
func (k *Checker) queries(o *Obl, fuel int) []string {
	as := k.subst(append(append([]*Term{}, o.pc...), o.facts...))
	goal := k.subst([]*Term{o.goal})
	if len(goal) == 0 {
		return nil
	}
	var goals []*Term
	if goal[0].op == OAnd {
		goals = goal[0].args
	} else {
		goals = goal
	}
	for _, a := range as {
		if a == False {
			return nil
		}
	}
	have := map[*Term]bool{}
	for _, a := range as {
		have[a] = true
	}
	var out []string
	for _, g := range goals {
		if have[g] {
			continue
		}
		base := append(append([]*Term{}, as...), Not(g))
		for _, q := range caseQueries(base, fuel) {
			out = append(out, Query(q, o.name()))
		}
		as = append(as, g)
		have[g] = true
	}
	return out
}

// attempt tries to discharge obligations, in parallel.
func (k *Checker) attempt(os []*Obl, fuel, ms int) {
	type job struct {
		o  *Obl
		qs []string
	}
	var jobs []job
	t0 := time.Now()
	for _, o := range os {
		t1 := time.Now()
		jobs = append(jobs, job{o, k.queries(o, fuel)})
		if d := time.Since(t1); profiling && d > time.Second {
			fmt.Fprintf(stderr, "  generated %s fuel %d: %d queries in %v\n", o.name(), fuel, len(jobs[len(jobs)-1].qs), d)
		}
	}
	if profiling {
		t1 := time.Now()
		defer func() {
			fmt.Fprintf(stderr, "attempt fuel %d: %d obligations, generated in %v, solved in %v\n", fuel, len(os), t1.Sub(t0), time.Since(t1))
		}()
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			t1 := time.Now()
			defer func() {
				if d := time.Since(t1); profiling && d > 3*time.Second {
					fmt.Fprintf(stderr, "  slow %s fuel %d: %d queries in %v: %s\n", j.o.name(), fuel, len(j.qs), d, j.o.result)
				}
			}()
			ok := true
			var last Answer
			solver := map[string]bool{}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var omu sync.Mutex
			var qwg sync.WaitGroup
			width := make(chan struct{}, 4)
			for _, q := range j.qs {
				q := q
				width <- struct{}{}
				if ctx.Err() != nil {
					break
				}
				qwg.Add(1)
				go func() {
					defer func() { <-width; qwg.Done() }()
					mu.Lock()
					a, hit := k.cache[q]
					mu.Unlock()
					if k.late() && !(hit && a.res == "unsat") {
						a = Answer{res: "unknown", out: "out of time"}
					} else if !hit || a.res != "unsat" && a.ms < ms {
						a = solve(ctx, q, ms)
						if ctx.Err() == nil {
							a.ms = ms
							mu.Lock()
							k.cache[q] = a
							mu.Unlock()
						}
					}
					omu.Lock()
					defer omu.Unlock()
					if a.res == "unsat" {
						solver[a.solver] = true
						return
					}
					if ok {
						ok = false
						last = a
						j.o.query = q
						cancel()
					}
				}()
			}
			qwg.Wait()
			if ok {
				j.o.result = "discharged"
				var ss []string
				for s := range solver {
					ss = append(ss, s)
				}
				sort.Strings(ss)
				j.o.solver = strings.Join(ss, "+")
				if len(ss) == 0 {
					j.o.solver = "simplifier"
				}
			} else {
				j.o.result = "failed"
				j.o.out = last.res + ": " + last.out
			}
		}()
	}
	wg.Wait()
}

// prove tries an obligation list with growing effort.
func (k *Checker) prove(os []*Obl, efforts [][2]int) {
	todo := os
	for _, e := range efforts {
		if len(todo) == 0 {
			return
		}
		k.attempt(todo, e[0], e[1])
		var rest []*Obl
		for _, o := range todo {
			if o.result != "discharged" {
				rest = append(rest, o)
			}
		}
		todo = rest
	}
}

func (k *Checker) discharge() {
	if k.all == nil {
		k.all = map[*FnReport][]*Obl{}
		for _, r := range k.reports {
			k.all[r] = r.obls
		}
	}
	k.useHints()
	// Invariants first.
	for round := 0; ; round++ {
		k.expansion()
		var strong, weak []*Obl
		for _, r := range k.reports {
			for _, li := range r.x.loops {
				for _, c := range li.cands {
					if c.dropped {
						continue
					}
					for _, o := range c.obls {
						if c.weak {
							weak = append(weak, o)
						} else {
							strong = append(strong, o)
						}
					}
				}
			}
		}
		k.prove(weak, [][2]int{{0, 1500}})
		k.prove(strong, [][2]int{{0, 3000}, {1, k.timeout}, {2, k.timeout}})
		n := 0
		for _, r := range k.reports {
			for _, li := range r.x.loops {
				for _, c := range li.cands {
					if c.dropped {
						continue
					}
					for _, o := range c.obls {
						if o.result != "discharged" {
							c.dropped = true
							c.why = o.kind + " " + firstLine(o.out)
							if d := os.Getenv("CV_FAILQ"); d != "" {
								os.MkdirAll(d, 0o755)
								os.WriteFile(fmt.Sprintf("%s/inv_%s_%d.smt2", d, c.label, o.id), []byte(o.query), 0o644)
								os.WriteFile(fmt.Sprintf("%s/inv_%s_%d.txt", d, c.label, o.id), []byte(obText(o)), 0o644)
							}
							if k.verbose {
								fmt.Fprintf(os.Stderr, "  dropped %s %s [%s]: %s\n", li.pos, c.label, o.kind, firstLine(o.out))
							}
							n++
							break
						}
					}
				}
			}
		}
		if n == 0 {
			break
		}
	}
	var rest []*Obl
	for _, r := range k.reports {
		var kept []*Obl
		for _, o := range r.obls {
			if o.cand != nil {
				if o.cand.dropped {
					o.result = "dropped"
					continue
				}
				kept = append(kept, o)
				continue
			}
			kept = append(kept, o)
			rest = append(rest, o)
		}
		r.obls = kept
	}
	k.prove(rest, [][2]int{{0, 3000}, {1, k.timeout}, {2, k.timeout}, {3, k.timeout}})
	// termination of loops
	for _, r := range k.reports {
		for _, li := range r.x.loops {
			if len(li.measures) == 0 || li.backs == 0 {
				continue
			}
			best := -1
			for i, m := range li.measures {
				k.prove(m.obls, [][2]int{{0, 3000}, {1, k.timeout}})
				ok := true
				for _, o := range m.obls {
					if o.result != "discharged" {
						ok = false
					}
				}
				if ok {
					best = i
					break
				}
			}
			if best < 0 {
				best = 0
			}
			r.obls = append(r.obls, li.measures[best].obls...)
		}
	}
	// sanity
	var san []*Obl
	for _, r := range k.reports {
		san = append(san, r.sanity...)
	}
	k.attempt(san, 0, 2000)
	for _, r := range k.reports {
		if len(r.sanity) == 0 {
			continue
		}
		if r.sanity[0].result == "discharged" {
			r.vacuous = true
		}
		all := len(r.sanity) > 1
		for _, o := range r.sanity[1:] {
			if o.result != "discharged" {
				all = false
			}
		}
		if all {
			r.vacuous = true
		}
	}
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 160 {
		s = s[:160]
	}
	return s
}

// closure verifies contracts and everything they call.
func (k *Checker) closure(roots []*Contract) {
	done := map[*Contract]bool{}
	queue := append([]*Contract{}, roots...)
	for len(queue) > 0 {
		c := queue[0]
		queue = queue[1:]
		if done[c] || c.external {
			continue
		}
		done[c] = true
		t0 := time.Now()
		r := k.w.verify(c)
		r.dur = time.Since(t0)
		k.reports = append(k.reports, r)
		var next []*Contract
		for d := range r.x.calledC {
			next = append(next, d)
		}
		// lemmas used in unfoldings are found through the spec functions
		sort.Slice(next, func(i, j int) bool { return next[i].target < next[j].target })
		queue = append(queue, next...)
		if len(queue) == 0 && specExec != nil {
			for d := range specExec.calledC {
				if !done[d] {
					queue = append(queue, d)
				}
			}
		}
	}
}

// failures lists what is not proved.
func (k *Checker) failures() []string {
	var out []string
	for _, r := range k.reports {
		if r.err != "" {
			out = append(out, r.target+": out of reach: "+r.err)
			continue
		}
		if r.vacuous {
			out = append(out, r.target+": vacuous contract")
		}
		for _, o := range r.obls {
			if o.result != "discharged" && o.result != "dropped" {
				out = append(out, o.name()+": "+firstLine(o.out))
			}
		}
	}
	return out
}

// obText prints an obligation.
func obText(o *Obl) string {
	var b strings.Builder
	fmt.Fprintln(&b, o.name())
	fmt.Fprintln(&b, "goal", show(o.goal))
	for _, p := range o.pc {
		fmt.Fprintln(&b, "  pc", show(p))
	}
	return b.String()
}

var profiling, stderr = os.Getenv("CV_PROF") != "", os.Stderr
