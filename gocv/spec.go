package main

// Evaluation of spec functions and lemmas.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// evalSpec evaluates a spec function in a state, as a value.
func (x *Exec) evalSpec(st *State, fn *ssa.Function, args []Value) Value {
	return x.callSpec(st, fn, args)
}

func (x *Exec) callSpec(st *State, fn *ssa.Function, args []Value) Value {
	if x.term != nil && x.termSCC[fn] {
		x.term.calls = append(x.term.calls, termCall{st: st.fork(), callee: fn, args: args})
	}
	if x.w.recursive[fn] || x.w.opaque[fn] {
		var ts []*Term
		for i, pr := range fn.Params {
			ts = append(ts, x.specArg(st, args[i], pr.Type()))
		}
		x.w.defineSpec(fn)
		x.usedSpecs[fn] = true
		return x.ufResult(st, specName(fn), ts, fn.Signature.Results())
	}
	return x.execSpec(st, fn, args)
}

// specArg packs an argument; spec functions only read memory.
func (x *Exec) specArg(st *State, v Value, t types.Type) *Term {
	return x.toTerm(st, v, t)
}

func specName(fn *ssa.Function) string {
	s := fn.String()
	s = strings.TrimPrefix(s, modPath+"/")
	s = strings.TrimPrefix(s, modPath+".")
	return "spec_" + mangle(s)
}

// execSpec executes the body of a spec function.
func (x *Exec) execSpec(st *State, fn *ssa.Function, args []Value) Value {
	x.usedSpecs[fn] = true
	if len(x.stack) > 40 {
		fail("spec nesting too deep at %s", fn)
	}
	sub := newState()
	for c, v := range st.mem {
		sub.mem[c] = v
	}
	for c, v := range st.fwd {
		sub.fwd[c] = v
	}
	for c, v := range st.poison {
		sub.poison[c] = v
	}
	was := x.spec
	x.spec = true
	defer func() { x.spec = was }()
	rs := x.execSpecBody(sub, fn, args)
	if len(rs) == 0 {
		fail("spec function %s has no result", fn)
	}
	if mt := resType(fn); isMap(mt) {
		t := x.toTerm(rs[len(rs)-1].st, rs[len(rs)-1].v, mt)
		for i := len(rs) - 2; i >= 0; i-- {
			t = Ite(And(rs[i].st.pc...), x.toTerm(rs[i].st, rs[i].v, mt), t)
		}
		return x.fromTerm(t, mt, nil)
	}
	// Combine by path conditions.
	r := rs[len(rs)-1].v
	for i := len(rs) - 2; i >= 0; i-- {
		r = x.iteV(rs[i].st, And(rs[i].st.pc...), rs[i].v, r, resType(fn))
	}
	return r
}

func (x *Exec) execSpecBody(sub *State, fn *ssa.Function, args []Value) []Result {
	x.outer, x.savedOuter = nil, append(x.savedOuter, x.outer)
	defer func() {
		n := len(x.savedOuter) - 1
		x.outer, x.savedOuter = x.savedOuter[n], x.savedOuter[:n]
	}()
	return x.execFn(sub, fn, args, nil)
}

// ------------------------------------------------------------------------------

var specExec *Exec

// defineSpec registers the definition of a recursive or opaque spec function.
func (w *World) defineSpec(fn *ssa.Function) {
	nm := specName(fn)
	res := fn.Signature.Results()
	names := []string{nm}
	if res.Len() > 1 {
		names = nil
		for i := 0; i < res.Len(); i++ {
			names = append(names, fmt.Sprintf("%s!%d", nm, i))
		}
	}
	for i, n := range names {
		if f, ok := w.fuel[fn]; ok {
			specFuel[n] = f
		}
		if w.opaque[fn] && !w.recursive[fn] {
			if _, ok := w.fuel[fn]; !ok {
				specFuel[n] = 1
			}
		}
		if unfolders[n] != nil {
			continue
		}
		i := i
		unfolders[n] = func(t *Term) *Term {
			if specExec == nil || specExec.w != w {
				specExec = newExec(w)
			}
			x := specExec
			x.steps = 0
			st := newState()
			var args []Value
			for k, pr := range fn.Params {
				args = append(args, x.fromTerm(t.args[k], pr.Type(), nil))
			}
			nf := len(x.facts)
			v := x.execSpec(st, fn, args)
			if tv, ok := v.(TupleV); ok {
				v = tv[i]
			}
			r := x.toTerm(st, v, res.At(i).Type())
			if len(x.facts) > nf {
				extraFacts = append(extraFacts, x.facts[nf:]...)
				x.facts = x.facts[:nf]
			}
			return r
		}
	}
}

// extraFacts collects facts found while unfolding.
var extraFacts []*Term

// ------------------------------------------------------------------------------
// Globals

// initGlobal is the value of a global before the function under verification.
func (x *Exec) initGlobal(st *State, c *Cell) Value {
	g := x.globalOf[c]
	if g == nil {
		fail("no content for memory %s", c.name)
	}
	t := c.typ
	if g.Pkg == nil || x.w.pkgs[g.Pkg.Pkg.Path()] == nil {
		// an external global: an unknown constant
		nm := "g_" + mangle(g.Pkg.Pkg.Path()+"."+g.Name())
		cst := Const(nm, x.w.sortOf(t))
		if isErrorType(t) {
			x.globalErr(st, cst)
		} else if cst.sort.kind == SUnint {
			x.fact(st, Not(Eq(cst, nilOf(cst.sort))))
		}
		v := x.fromTerm(cst, t, nil)
		return v
	}
	if x.root != nil && x.root.Pkg == g.Pkg && x.root.Name() == "init" && x.root.Synthetic != "" {
		fail("global %s is used before its initialisation", g.Name())
	}
	inf := x.w.globalInfo(g)
	if isErrorType(t) && !inf.assigned {
		cst := Const("g_"+mangle(g.Pkg.Pkg.Path()+"."+g.Name()), x.w.sortOf(t))
		x.globalErr(st, cst)
		return cst
	}
	if !inf.mutable {
		if v, ok := x.w.initValue(g); ok {
			return v
		}
		// never assigned outside of the initialisation
		cst := Const("g_"+mangle(g.Pkg.Pkg.Path()+"."+g.Name()), x.w.sortOf(t))
		if cst.sort.kind == SUnint {
			x.fact(st, Not(Eq(cst, nilOf(cst.sort))))
		}
		return x.fromTerm(cst, t, nil)
	}
	name := g.Name()
	if !inf.assigned {
		// the variable itself is set once
		v := x.sym(st, t, name, false)
		return v
	}
	return x.sym(st, t, name, true)
}

var globalErrs = map[*Term]bool{}

// globalErr declares a package-level error: not nil, distinct from the others.
func (x *Exec) globalErr(st *State, c *Term) {
	x.fact(st, Not(Eq(c, nilOf(c.sort))))
	x.fact(st, Eq(App("err_tag", IntS, c), Int(errTag(c.name))))
}

var errTags = map[string]int64{}

func errTag(n string) int64 {
	if t, ok := errTags[n]; ok {
		return t
	}
	t := int64(len(errTags) + 1)
	errTags[n] = t
	return t
}

type globalInf struct {
	assigned bool // stored outside of init
	mutable  bool // the value or what it refers to may change
}

func (w *World) globalInfo(g *ssa.Global) globalInf {
	if w.ginf == nil {
		w.ginf = map[*ssa.Global]*globalInf{}
	}
	if i := w.ginf[g]; i != nil {
		return *i
	}
	inf := &globalInf{}
	w.ginf[g] = inf
	for _, fn := range w.byName {
		if fn.Pkg != g.Pkg && (fn.Parent() == nil || fn.Parent().Pkg != g.Pkg) {
			continue
		}
		init := fn.Name() == "init" && fn.Parent() == nil && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if op == nil || *op != ssa.Value(g) {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						if !init && w.mutates(in, 0) {
							inf.mutable = true
						}
					case *ssa.Store:
						if in.Addr == ssa.Value(g) {
							if !init {
								inf.assigned, inf.mutable = true, true
							}
						} else {
							inf.assigned, inf.mutable = true, true
						}
					case *ssa.DebugRef:
					case *ssa.IndexAddr, *ssa.FieldAddr:
						for _, r := range *in.(ssa.Value).Referrers() {
							switch r := r.(type) {
							case *ssa.UnOp, *ssa.DebugRef:
							case *ssa.Store:
								if !init {
									inf.mutable, inf.assigned = true, true
								}
								_ = r
							default:
								if !init {
									inf.mutable = true
								}
							}
						}
					default:
						if !init {
							inf.mutable = true
							if _, ok := in.(*ssa.Call); ok {
								inf.assigned = true
							}
						}
					}
				}
			}
		}
	}
	return *inf
}

// mutates tells whether a loaded global may be used to change memory.
func (w *World) mutates(v ssa.Value, depth int) bool {
	switch v.Type().Underlying().(type) {
	case *types.Map, *types.Slice:
	case *types.Pointer:
		if w.isRef(v.Type()) {
			return false
		}
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.Lookup, *ssa.Range, *ssa.If, *ssa.BinOp:
		case *ssa.IndexAddr:
			for _, rr := range *r.Referrers() {
				switch rr.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					return true
				}
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			if _, ok := v.Type().Underlying().(*types.Slice); ok && depth == 0 {
				if f := r.Call.StaticCallee(); f != nil && !w.inRepoFn(f) {
					continue
				}
			}
			return true
		default:
			return true
		}
	}
	return false
}

// initValue evaluates the initialiser of a global that never changes.
func (w *World) initValue(g *ssa.Global) (Value, bool) {
	if w.ginit == nil {
		w.ginit = map[*ssa.Package]map[*ssa.Global]Value{}
	}
	vals, ok := w.ginit[g.Pkg]
	if !ok {
		w.ginit[g.Pkg] = map[*ssa.Global]Value{}
		vals = w.runInit(g.Pkg)
		w.ginit[g.Pkg] = vals
	}
	v, ok := vals[g]
	return v, ok
}

func (w *World) runInit(pkg *ssa.Package) map[*ssa.Global]Value {
	out := map[*ssa.Global]Value{}
	fn := pkg.Func("init")
	if fn == nil {
		return out
	}
	x := newExec(w)
	x.root = fn
	x.silent = 1
	st := newState()
	p := &Path{st: st, regs: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*LoopInst{}, names: map[string]ssa.Value{}, addr: map[string]bool{}}
	a := &Act{fn: fn}
	bad := map[*ssa.Global]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				continue
			case *ssa.Call:
				if f := in.Call.StaticCallee(); f != nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
					continue
				}
			}
			in := in
			func() {
				defer func() {
					if r := recover(); r != nil {
						if s, ok := in.(*ssa.Store); ok {
							if g, ok := s.Addr.(*ssa.Global); ok {
								bad[g] = true
							}
						}
						switch r.(type) {
						case unsupported, noMerge:
						default:
							panic(r)
						}
					}
				}()
				p.blk = b
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						gp := x.globalPtr(g)
						st.mem[gp.cell] = x.val(p, s.Val)
						return
					}
				}
				x.instr(a, p, in)
			}()
		}
	}
	var gs []*ssa.Global
	for g := range x.globals {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		c := x.globals[g]
		if g.Pkg != pkg || bad[g] {
			continue
		}
		v, ok := st.mem[c]
		if !ok {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			out[g] = x.snap(st, v)
		}()
	}
	return out
}

type globalVal struct {
	v  Value
	st *State
}

// globalInit loads the initial value of a global into a state. Every path
// sees the same value.
func (x *Exec) globalInit(st *State, c *Cell) Value {
	gv := x.ginits[c]
	if gv == nil {
		tmp := newState()
		was := x.spec
		x.spec = false
		v := x.initGlobal(tmp, c)
		x.spec = was
		gv = &globalVal{v, tmp}
		x.ginits[c] = gv
		// valid facts about constants
		x.facts = append(x.facts, tmp.pc...)
	}
	st.mem[c] = gv.v
	for k, v := range gv.st.mem {
		if _, ok := st.mem[k]; !ok {
			st.mem[k] = v
		}
	}
	return gv.v
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}
