package main

// Spec functions must terminate, or their definitions would be inconsistent:
// every recursive call has to pass something strictly smaller.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// termCheck collects the recursive calls of a spec function.
type termCheck struct {
	fn    *ssa.Function
	calls []termCall
}

type termCall struct {
	st     *State
	callee *ssa.Function
	args   []Value
	facts  []*Term
}

// scc gives the spec functions mutually recursive with fn.
func (w *World) scc(fn *ssa.Function) map[*ssa.Function]bool {
	reach := func(from *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var dfs func(f *ssa.Function)
		dfs = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(*ssa.Call); ok {
						if g := c.Call.StaticCallee(); g != nil && w.specFns[g] && !seen[g] {
							seen[g] = true
							dfs(g)
						}
					}
				}
			}
		}
		dfs(from)
		return seen
	}
	out := map[*ssa.Function]bool{}
	for g := range reach(fn) {
		if g == fn || reach(g)[fn] {
			out[g] = true
		}
	}
	return out
}

// lenOrInt is the size of a value for termination, if it has one.
func (x *Exec) sizeOf(st *State, v Value, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Len(x.content(st, v))
		}
		if u.Info()&types.IsInteger != 0 {
			return v.(*Term)
		}
	case *types.Slice:
		return Len(x.content(st, v))
	}
	return nil
}

// specTermination builds the termination obligations of a spec function, one
// list per candidate measure.
func (w *World) specTermination(fn *ssa.Function) (cands [][]*Obl, err string) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				err = e.msg
			case noMerge:
				err = "cannot merge " + e.msg
			default:
				panic(r)
			}
		}
	}()
	x := newExec(w)
	x.root = fn
	x.spec = true
	tc := &termCheck{fn: fn}
	x.term = tc
	x.termSCC = w.scc(fn)
	st := newState()
	var args []Value
	for _, pr := range fn.Params {
		args = append(args, x.sym(st, pr.Type(), pr.Name(), true))
	}
	x.execSpecBody(st, fn, args)
	x.term = nil
	if len(tc.calls) == 0 {
		return nil, ""
	}
	obl := func(c termCall, goal *Term) *Obl {
		return &Obl{root: fn.String(), kind: "spec terminates:", label: "call of " + c.callee.Name(), pc: append([]*Term{}, c.st.pc...), facts: append([]*Term{}, x.facts...), goal: goal}
	}
	measure := func(f *ssa.Function, as []Value, st *State) *Term {
		c := w.contracts[f]
		if c == nil || len(c.decreases) == 0 {
			return nil
		}
		e := env{}
		for i, pr := range f.Params {
			e[pr.Name()] = envVal{as[i], pr.Type()}
		}
		return x.clauseTerm(st, c.decreases[0], e)
	}
	if m := measure(fn, args, newState()); m != nil {
		var os []*Obl
		for _, c := range tc.calls {
			n := measure(c.callee, c.args, c.st)
			if n == nil {
				return nil, "no measure for " + c.callee.Name()
			}
			os = append(os, obl(c, And(Le(Int(0), m), Lt(n, m))))
		}
		return [][]*Obl{os}, ""
	}
	// the sum of all lengths, which works across functions as well
	sum := func(f *ssa.Function, as []Value, st *State) *Term {
		s := Int(0)
		for i, pr := range f.Params {
			if b, ok := pr.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				continue
			}
			if t := x.sizeOf(st, as[i], pr.Type()); t != nil {
				s = Add(s, t)
			}
		}
		return s
	}
	self := true
	for _, c := range tc.calls {
		self = self && c.callee == fn
	}
	if self {
		for i, pr := range fn.Params {
			m := x.sizeOf(newState(), args[i], pr.Type())
			if m == nil {
				continue
			}
			var os []*Obl
			for _, c := range tc.calls {
				os = append(os, obl(c, And(Le(Int(0), m), Lt(x.sizeOf(c.st, c.args[i], pr.Type()), m))))
			}
			cands = append(cands, os)
		}
	}
	var os []*Obl
	m := sum(fn, args, newState())
	for _, c := range tc.calls {
		os = append(os, obl(c, Lt(sum(c.callee, c.args, c.st), m)))
	}
	return append(cands, os), ""
}

// checkSpecs proves that the recursive spec functions in use terminate and
// that contracts are not mutually recursive.
func (k *Checker) checkSpecs() {
	used := map[*ssa.Function]bool{}
	for _, r := range k.reports {
		for f := range r.x.usedSpecs {
			used[f] = true
		}
	}
	if specExec != nil {
		for f := range specExec.usedSpecs {
			used[f] = true
		}
	}
	var fns []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if k.w.recursive[f] {
			fns = append(fns, f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && k.w.specFns[g] {
						add(g)
					}
				}
			}
		}
	}
	for f := range used {
		add(f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		if k.w.lemmas[f] != nil {
			continue // its recursion is an obligation of the lemma
		}
		cands, err := k.w.specTermination(f)
		if err != "" {
			k.specFails = append(k.specFails, fmt.Sprintf("%s: spec terminates: %s", f, err))
			continue
		}
		if len(cands) == 0 {
			continue
		}
		ok := false
		for _, os := range cands {
			k.prove(os, [][2]int{{0, 2000}, {1, k.timeout}})
			good := true
			for _, o := range os {
				if o.result != "discharged" {
					good = false
				}
			}
			if good {
				k.specObls = append(k.specObls, os...)
				ok = true
				break
			}
		}
		if !ok {
			k.specFails = append(k.specFails, fmt.Sprintf("%s: spec terminates: no measure decreases", f))
		}
	}
	// contracts
	next := map[*Contract][]*Contract{}
	for _, r := range k.reports {
		for c := range r.x.calledC {
			next[r.c] = append(next[r.c], c)
		}
	}
	if specExec != nil {
		// lemmas used while unfolding spec functions
		for f := range specExec.usedSpecs {
			if c := k.w.contracts[f]; c != nil {
				for d := range specExec.calledC {
					_ = d
					_ = c
				}
			}
		}
	}
	for _, r := range k.reports {
		seen := map[*Contract]bool{}
		var dfs func(c *Contract) bool
		dfs = func(c *Contract) bool {
			for _, d := range next[c] {
				if d == r.c && c != r.c {
					return true
				}
				if !seen[d] && d != r.c {
					seen[d] = true
					if dfs(d) {
						return true
					}
				}
			}
			return false
		}
		if dfs(r.c) {
			k.specFails = append(k.specFails, r.target+": recursion through other contracts has no measure")
		}
	}
}
