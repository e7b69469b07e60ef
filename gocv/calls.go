package main

// Calls: builtins, contracts, inlining, dispatch.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(a *Act, p *Path, in *ssa.Call) bool {
	cc := &in.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		v, cont := x.builtin(p, b.Name(), cc, in)
		if !cont {
			return false
		}
		p.regs[in] = v
		return true
	}
	fnv := x.val(p, cc.Value)
	var args []Value
	for _, v := range cc.Args {
		args = append(args, x.val(p, v))
	}
	rs := x.callCommon(p, cc, fnv, args, in.Pos())
	return x.cont(a, p, in, rs)
}

// callCommon performs a call. fnv is the function or the receiver.
func (x *Exec) callCommon(p *Path, cc *ssa.CallCommon, fnv Value, args []Value, pos token.Pos) []Result {
	if cc.IsInvoke() {
		return x.invoke(p, cc, fnv, args, pos)
	}
	if t, ok := fnv.(*Term); ok {
		if f := x.fnOf[t]; f != nil {
			fnv = f
		}
	}
	switch f := fnv.(type) {
	case *FuncV:
		return x.callFn(p, f.fn, args, f.bind, pos)
	case *Term:
		return x.callOpaque(p, f, cc.Value.Type(), args, pos)
	}
	fail("call of %T", fnv)
	return nil
}

func sigKey(t types.Type) string { return shortName(t.Underlying()) }

// callOpaque calls an unknown function value.
func (x *Exec) callOpaque(p *Path, f *Term, t types.Type, args []Value, pos token.Pos) []Result {
	if f.op == OIte {
		// a choice of known functions
		var out []Result
		for i, c := range []*Term{f.args[0], Not(f.args[0])} {
			q := p.fork()
			if !q.st.branch(c) {
				continue
			}
			g := f.args[1+i]
			if fv := x.fnOf[g]; fv != nil {
				out = append(out, x.callFn(q, fv.fn, args, fv.bind, pos)...)
			} else {
				out = append(out, x.callOpaque(q, g, t, args, pos)...)
			}
		}
		return out
	}
	x.safe(p.st, "function is not nil", pos, Not(Eq(f, nilOf(f.sort))))
	if stub := x.w.callbacks[sigKey(t)]; stub != nil {
		x.trusted["callback "+sigKey(t)+" behaves as "+stub.Name()] = true
		as := args
		if len(stub.Params) == len(args)+1 {
			as = append([]Value{f}, args...)
		}
		return x.callFn(p, stub, as, nil, pos)
	}
	x.trusted["function values of type "+sigKey(t)+" are pure"] = true
	sig := t.Underlying().(*types.Signature)
	ts := []*Term{f}
	for i, a := range args {
		ts = append(ts, x.pureArg(p.st, a, sig.Params().At(i).Type(), "function value"))
	}
	return []Result{{p.st, x.ufResult(p.st, "callf_"+mangle(sigKey(t)), ts, sig.Results())}}
}

// pureArg packs an argument of a function modelled as pure.
func (x *Exec) pureArg(st *State, a Value, t types.Type, what string) *Term {
	if pv, ok := a.(*PtrV); ok && !x.w.isRef(types.NewPointer(pv.elem)) && pv.cell.fixed == nil && pv.nilc != True {
		fail("%s takes a pointer to mutable memory (%s)", what, pv.cell.name)
	}
	if iv, ok := a.(*IfaceV); ok && iv.dyn != nil {
		if pv, ok := iv.v.(*PtrV); ok && !x.w.isRef(types.NewPointer(pv.elem)) && pv.cell.fixed == nil && pv.nilc != True {
			fail("%s takes an interface with mutable memory (%s)", what, pv.cell.name)
		}
	}
	return x.toTerm(st, a, t)
}

func (x *Exec) ufResult(st *State, name string, ts []*Term, res *types.Tuple) Value {
	mkOne := func(nm string, t types.Type) Value {
		tm := App(nm, x.w.sortOf(t), ts...)
		typeFact(tm, x.w.rangeFacts(t, tm))
		v := x.fromTerm(tm, t, nil)
		if _, ok := t.Underlying().(*types.Slice); ok {
			return v
		}
		return v
	}
	switch res.Len() {
	case 0:
		return TupleV{}
	case 1:
		return mkOne(name, res.At(0).Type())
	}
	var tv TupleV
	for i := 0; i < res.Len(); i++ {
		tv = append(tv, mkOne(fmt.Sprintf("%s!%d", name, i), res.At(i).Type()))
	}
	return tv
}

// invoke calls an interface method.
func (x *Exec) invoke(p *Path, cc *ssa.CallCommon, recv Value, args []Value, pos token.Pos) []Result {
	it := cc.Value.Type()
	m := cc.Method
	if t, ok := recv.(*Term); ok {
		if o := x.dynOf[t]; o != nil {
			recv = o
		}
	}
	if iv, ok := recv.(*IfaceV); ok && iv.dyn != nil {
		fn := x.w.prog.LookupMethod(iv.dyn, m.Pkg(), m.Name())
		if fn == nil {
			fail("no method %s of %s", m.Name(), iv.dyn)
		}
		return x.callFn(p, fn, append([]Value{iv.v}, args...), nil, pos)
	}
	tm := x.toTerm(p.st, recv, it)
	if tm.sort.kind == SData {
		x.safe(p.st, "interface is not nil", pos, Not(Is(tm.sort.ctors[0], tm)))
		var loc *PtrV
		if iv, ok := recv.(*IfaceV); ok {
			loc = iv.loc
		}
		var out []Result
		for i, dt := range x.w.closedImpls(it) {
			c := tm.sort.ctors[i+1]
			q := p.fork()
			if !q.st.branch(Is(c, tm)) {
				continue
			}
			fn := x.w.prog.LookupMethod(dt, m.Pkg(), m.Name())
			out = append(out, x.callFn(q, fn, append([]Value{x.payload(c, dt, tm, loc)}, args...), nil, pos)...)
		}
		return out
	}
	x.safe(p.st, "interface is not nil", pos, Not(Eq(tm, nilOf(tm.sort))))
	if cv, ok := cvtTab[tm]; ok {
		// an interface converted from another one with the same method
		if types.IsInterface(cv.from) {
			if o, _, _ := types.LookupFieldOrMethod(cv.from, true, m.Pkg(), m.Name()); o != nil {
				tm, it = cv.t, cv.from
			}
		}
	}
	key := shortName(it) + "." + m.Name()
	if c := x.w.externs["method:"+key]; c != nil {
		return x.contractCall(p, c, nil, m.Type().(*types.Signature), append([]Value{tm}, args...), append([]types.Type{it}, paramTypes(m.Type().(*types.Signature))...), methodNames(m.Type().(*types.Signature)), pos)
	}
	x.trusted["method "+key+" is a pure function of its receiver and arguments"] = true
	sig := m.Type().(*types.Signature)
	ts := []*Term{tm}
	for i, a := range args {
		ts = append(ts, x.pureArg(p.st, a, sig.Params().At(i).Type(), "method "+key))
	}
	return []Result{{p.st, x.ufResult(p.st, "m_"+mangle(key), ts, sig.Results())}}
}

func methodNames(sig *types.Signature) []string {
	out := []string{"recv"}
	for i := 0; i < sig.Params().Len(); i++ {
		n := sig.Params().At(i).Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("a%d", i)
		}
		out = append(out, n)
	}
	return out
}

func paramTypes(sig *types.Signature) []types.Type {
	var out []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}

// sigOf lists the names and types of the parameters (with the receiver).
func sigOf(fn *ssa.Function) ([]string, []types.Type) {
	var ns []string
	var ts []types.Type
	if len(fn.Params) > 0 {
		for _, p := range fn.Params {
			ns = append(ns, p.Name())
			ts = append(ts, p.Type())
		}
		return ns, ts
	}
	sig := fn.Signature
	if r := sig.Recv(); r != nil {
		n := r.Name()
		if n == "" {
			n = "recv"
		}
		ns = append(ns, n)
		ts = append(ts, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		n := sig.Params().At(i).Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("a%d", i)
		}
		ns = append(ns, n)
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ns, ts
}

func (x *Exec) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if x.w.specFns[fn] {
		return true
	}
	pk := fn.Pkg
	if pk == nil && fn.Parent() != nil {
		pk = fn.Parent().Pkg
	}
	if pk == nil {
		return fn.Synthetic != ""
	}
	return x.w.inRepo(pk.Pkg) || pk.Pkg.Path() == "github.com/suapapa/go_hangul"
}

// callFn calls a known function.
func (x *Exec) callFn(p *Path, fn *ssa.Function, args []Value, bind []Value, pos token.Pos) []Result {
	st := p.st
	if o := fn.Origin(); o != nil && o != fn && len(fn.Blocks) == 0 {
		fn = o
	}
	nm := fn.String()
	if fn.Origin() != nil {
		nm = fn.Origin().String()
	}
	isSpec := x.w.specFns[fn]
	if isSpec {
		if o := fn.Origin(); o != nil && o.Name() == "cvEq" {
			t := fn.Signature.Params().At(0).Type()
			return []Result{{st, Eq(x.toTerm(st, args[0], t), x.toTerm(st, args[1], t))}}
		}
		if o := fn.Origin(); o != nil && o.Name() == "cvPut" {
			// a copy of a map with one more entry
			mt := fn.Signature.Params().At(0).Type()
			u := mt.Underlying().(*types.Map)
			return []Result{{st, x.fromTerm(Store(x.toTerm(st, args[0], mt), x.toTerm(st, args[1], u.Key()), Some(x.toTerm(st, args[2], u.Elem()))), mt, nil)}}
		}
		if o := fn.Origin(); o != nil && o.Name() == "cvDel" {
			// a copy of a map without an entry
			mt := fn.Signature.Params().At(0).Type()
			u := mt.Underlying().(*types.Map)
			a := x.toTerm(st, args[0], mt)
			return []Result{{st, x.fromTerm(Store(a, x.toTerm(st, args[1], u.Key()), None(a.sort.elem.ctors[1].fields[0].sort)), mt, nil)}}
		}
		if o := fn.Origin(); o != nil && o.Name() == "cvMapOf" {
			// the map made of a list of entries (as the first argument)
			mt := fn.Signature.Params().At(0).Type()
			es, et := x.entrySort(mt.Underlying().(*types.Map))
			as := x.w.sortOf(mt)
			x.entryAxioms(es, as)
			return []Result{{st, x.fromTerm(App("entmapl_"+es.name, as, x.toTerm(st, args[1], types.NewSlice(et))), mt, nil)}}
		}
		if b := specBuiltins[fn.Name()]; b != nil {
			return []Result{{st, b(x, p, args, pos)}}
		}
	}
	if x == specExec && x.w.lemmas[fn] != nil {
		fail("a recursive spec function uses a lemma (%s)", fn)
	}
	ext := x.w.externs[nm]
	if ext != nil && ext.pure && fn != x.root && !isSpec {
		// a function of another package that is taken for pure there
		ns, ts := sigOf(fn)
		return x.contractCall(p, ext, nil, fn.Signature, args, ts, ns, pos)
	}
	if c := x.w.contracts[fn]; c != nil && (!c.inline || fn == x.root) && (len(c.ensures) > 0 || c.pure || isSpec && len(c.requires)+len(c.decreases) > 0 && x.w.lemmas[fn] != nil) {
		if isSpec && x.w.lemmas[fn] == nil && (x.spec || len(c.ensures) == 0) {
			return []Result{{st, x.callSpec(st, fn, args)}}
		}
		ns, ts := sigOf(fn)
		return x.contractCall(p, c, fn, fn.Signature, args, ts, ns, pos)
	}
	if isSpec && !x.w.isStub(fn) && x.w.externs[nm] == nil {
		return []Result{{st, x.callSpec(st, fn, args)}}
	}
	if c := x.w.externs[nm]; c != nil {
		ns, ts := sigOf(fn)
		return x.contractCall(p, c, nil, fn.Signature, args, ts, ns, pos)
	}
	if m := forkModels[nm]; m != nil {
		x.used[nm] = true
		return m(x, p, args, pos)
	}
	if m := models[nm]; m != nil {
		x.used[nm] = true
		v, ok := m(x, p, args, pos)
		if !ok {
			return nil
		}
		return []Result{{p.st, v}}
	}
	if x.inlinable(fn) {
		for _, f := range x.stack {
			if f == fn && !x.spec {
				fail("recursion of %s without a contract", fn)
			}
		}
		if x.w.inRepoFn(fn) {
			x.inlined[fn.String()] = true
		}
		x.outer = append(x.outer, p)
		defer func() { x.outer = x.outer[:len(x.outer)-1] }()
		return x.execFn(st, fn, args, bind)
	}
	if fn.Name() == "init" {
		return []Result{{st, TupleV{}}}
	}
	// another external function: a pure function of its arguments
	ns, ts := sigOf(fn)
	_ = ns
	var tms []*Term
	for i, a := range args {
		tms = append(tms, x.pureArg(st, a, ts[i], nm))
	}
	x.trusted[nm+" is a pure total function"] = true
	return []Result{{st, x.ufResult(st, "ext_"+mangle(nm), tms, fn.Signature.Results())}}
}

func (w *World) isStub(fn *ssa.Function) bool {
	for _, s := range w.callbacks {
		if s == fn {
			return true
		}
	}
	return false
}

func (w *World) inRepoFn(fn *ssa.Function) bool {
	pk := fn.Pkg
	if pk == nil && fn.Parent() != nil {
		pk = fn.Parent().Pkg
	}
	return pk != nil && w.inRepo(pk.Pkg)
}

// ------------------------------------------------------------------------------
// Contracts

type env map[string]envVal

type envVal struct {
	v Value
	t types.Type
}

// bindClause finds the arguments of a clause function.
func (x *Exec) bindClause(st *State, cl *Clause, e env) []Value {
	var out []Value
	for _, pr := range cl.fn.Params {
		ev, ok := e[pr.Name()]
		if !ok {
			nm := pr.Name()
			if cl.pkg != nil {
				if g := x.w.globalNamed(cl.pkg, nm); g != nil {
					gp := x.globalPtr(g)
					ev, ok = envVal{x.load(st, gp), gp.elem}, true
				}
			}
		}
		if !ok {
			fail("clause %s: no value for parameter %s", cl.fn.Name(), pr.Name())
		}
		v, ok := x.adapt(st, ev.v, ev.t, pr.Type())
		if !ok {
			fail("clause %s: parameter %s has type %s, found %v", cl.fn.Name(), pr.Name(), pr.Type(), ev.t)
		}
		out = append(out, v)
	}
	return out
}

func (x *Exec) clauseTerm(st *State, cl *Clause, e env) *Term {
	return x.evalSpec(st, cl.fn, x.bindClause(st, cl, e)).(*Term)
}

// resultEnv adds the results to an environment.
func (x *Exec) resultEnv(e env, sig *types.Signature, v Value) {
	res := sig.Results()
	switch res.Len() {
	case 0:
	case 1:
		e["ret"] = envVal{v, res.At(0).Type()}
		e["ret0"] = e["ret"]
		if n := res.At(0).Name(); n != "" && n != "_" {
			e[n] = e["ret"]
		}
	default:
		for i := 0; i < res.Len(); i++ {
			ev := envVal{v.(TupleV)[i], res.At(i).Type()}
			e[fmt.Sprintf("ret%d", i)] = ev
			if n := res.At(i).Name(); n != "" && n != "_" {
				e[n] = ev
			}
		}
	}
}

// globalNamed finds a global of a package, or of another one (pkg__name).
func (w *World) globalNamed(pkg *ssa.Package, nm string) *ssa.Global {
	if pkg == nil {
		return nil
	}
	if g, ok := pkg.Members[nm].(*ssa.Global); ok {
		return g
	}
	if i := strings.Index(nm, "__"); i > 0 {
		for _, imp := range pkg.Pkg.Imports() {
			if imp.Name() == nm[:i] {
				if sp := w.prog.Package(imp); sp != nil {
					if g, ok := sp.Members[nm[i+2:]].(*ssa.Global); ok {
						return g
					}
				}
			}
		}
	}
	return nil
}

// oldGlobals snapshots the globals that clauses name as old_x.
func (x *Exec) oldGlobals(st *State, cls []*Clause, e env) {
	for _, cl := range cls {
		for _, pr := range cl.fn.Params {
			nm := pr.Name()
			if !strings.HasPrefix(nm, "old_") || cl.pkg == nil {
				continue
			}
			if _, ok := e[nm]; ok {
				continue
			}
			if g := x.w.globalNamed(cl.pkg, nm[4:]); g != nil {
				gp := x.globalPtr(g)
				e[nm] = envVal{x.snap(st, x.load(st, gp)), gp.elem}
			}
		}
	}
}

func (x *Exec) contractCall(p *Path, c *Contract, fn *ssa.Function, sig *types.Signature, args []Value, ts []types.Type, ns []string, pos token.Pos) []Result {
	st := p.st
	x.calledC[c] = true
	e := env{}
	for i, n := range ns {
		if i < len(args) {
			e[n] = envVal{args[i], ts[i]}
		}
	}
	short := c.target
	if i := strings.LastIndex(short, "/"); i >= 0 {
		short = short[i+1:]
	}
	var pre []*Term
	for _, cl := range c.requires {
		g := x.clauseTerm(st, cl, e)
		pre = append(pre, g)
		x.oblige(st, "precondition of "+short+":", cl.label, pos, g)
	}
	if fn != nil && fn == x.root {
		// recursion
		if len(c.decreases) == 0 {
			fail("recursion of %s without a measure", fn)
		}
		m := x.clauseTerm(st, c.decreases[0], e)
		x.oblige(st, "recursion terminates:", c.decreases[0].label, pos, And(Lt(m, x.decr), Le(Int(0), x.decr)))
	}
	if len(c.panics) > 0 && !x.spec {
		var ps []*Term
		for _, cl := range c.panics {
			ps = append(ps, x.clauseTerm(st, cl, e))
		}
		x.safe(st, short+" does not panic", pos, Not(Or(ps...)))
	}
	// the state before
	for i, n := range ns {
		if i < len(args) {
			e["old_"+n] = envVal{x.snap(st, args[i]), ts[i]}
		}
	}
	x.oldGlobals(st, c.ensures, e)
	if x.spec && len(c.modifies) > 0 {
		fail("a spec calls %s, which modifies memory", short)
	}
	// effects
	var ms []string
	for m := range c.modifies {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		x.havocName(st, m, e, c)
	}
	// results
	var v Value
	if c.pure {
		var tms []*Term
		for i, a := range args {
			tms = append(tms, x.specArg(st, a, ts[i]))
		}
		v = x.ufResult(st, "pure_"+mangle(c.target), tms, sig.Results())
		if c.fresh && !x.spec && sig.Results().Len() == 1 {
			// the caller owns the result
			rt := sig.Results().At(0).Type()
			if _, ok := rt.Underlying().(*types.Slice); ok {
				nv := x.newSlice(st, rt, x.toTerm(st, v, rt), nil)
				v = nv
			}
		}
	} else {
		if x.spec && sig.Results().Len() > 0 {
			fail("a spec calls %s, which is not pure", short)
		}
		one := func(i int) Value {
			r := sig.Results().At(i)
			return x.symResult(st, r.Type(), short+".ret", c.nilable[fmt.Sprintf("ret%d", i)] || c.nilable["ret"] || isErrorType(r.Type()))
		}
		switch n := sig.Results().Len(); n {
		case 0:
			v = TupleV{}
		case 1:
			v = one(0)
		default:
			var tv TupleV
			for i := 0; i < n; i++ {
				tv = append(tv, one(i))
			}
			v = tv
		}
	}
	x.resultEnv(e, sig, v)
	guard := True
	if x.spec {
		guard = And(pre...)
	}
	if c.pure && ensuring[c] {
		// an assumption about a function that mentions the function itself
		return []Result{{st, v}}
	}
	ensuring[c] = true
	term := x.term
	x.term = nil // the calls in what is known are not calls of the function
	for _, cl := range c.ensures {
		x.fact(st, Implies(guard, x.clauseTerm(st, cl, e)))
	}
	delete(ensuring, c)
	x.term = term
	return []Result{{st, v}}
}

// ensuring holds the contracts of which the postconditions are being read.
var ensuring = map[*Contract]bool{}

// symResult is an arbitrary result; the memory it owns is not the caller's
// parameter memory.
func (x *Exec) symResult(st *State, t types.Type, name string, nilable bool) Value {
	before := map[*Cell]bool{}
	for c := range st.mem {
		before[c] = true
	}
	v := x.sym(st, t, name, nilable)
	for c := range st.mem {
		if !before[c] {
			c.param = false
		}
	}
	return v
}

// place is memory named by a modifies clause: a field of what a pointer points
// to, all of it, a map or a slice.
type place struct {
	ptr  *PtrV // to the whole struct, or to all of it
	fld  string
	v    Value // a map or a slice
	none bool
}

// placeOf finds the memory that a name like p.tracer.prevWord denotes. ok is
// false for an unknown name.
func (x *Exec) placeOf(st *State, m string, e env, pkg *ssa.Package) (place, bool) {
	parts := strings.Split(m, ".")
	ev, ok := e[parts[0]]
	if !ok {
		if pkg != nil {
			if g := x.w.globalNamed(pkg, parts[0]); g != nil {
				gp := x.globalPtr(g)
				ev = envVal{gp, types.NewPointer(gp.elem)}
				ok = true
			}
		}
	}
	if !ok {
		return place{}, false
	}
	cur := ev.v
	for i, f := range parts[1:] {
		switch v := cur.(type) {
		case *StructV:
			k := -1
			for j, n := range structFieldNames(v.t) {
				if n == f {
					k = j
				}
			}
			if k < 0 {
				fail("modifies: no field %s", m)
			}
			cur = v.f[k]
		case *PtrV:
			if v.nilc == True {
				return place{none: true}, true
			}
			su, isS := v.elem.Underlying().(*types.Struct)
			if !isS {
				fail("modifies: no field %s", m)
			}
			k := -1
			for j := 0; j < su.NumFields(); j++ {
				if su.Field(j).Name() == f {
					k = j
				}
			}
			if k < 0 {
				fail("modifies: no field %s", m)
			}
			if i == len(parts)-2 {
				return place{ptr: v, fld: f}, true
			}
			cur = x.load(st, extend(v, step{k: stField, field: k, typ: su.Field(k).Type()}))
		default:
			fail("modifies %s: %T", m, cur)
		}
	}
	switch v := cur.(type) {
	case *PtrV:
		if v.nilc == True {
			return place{none: true}, true
		}
		return place{ptr: v}, true
	case *MapV, *SliceV:
		return place{v: v}, true
	}
	fail("modifies %s: %T", m, cur)
	return place{}, false
}

func (x *Exec) havocName(st *State, m string, e env, c *Contract) {
	var pkg *ssa.Package
	if c.fn != nil {
		pkg = c.fn.Pkg
	} else if len(c.ensures) > 0 {
		pkg = c.ensures[0].fn.Pkg
	}
	pl, ok := x.placeOf(st, m, e, pkg)
	if !ok {
		fail("modifies: unknown name %s", m)
	}
	switch {
	case pl.none:
	case pl.ptr != nil:
		v := pl.ptr
		pv := v
		if pl.fld != "" {
			su := v.elem.Underlying().(*types.Struct)
			for i := 0; i < su.NumFields(); i++ {
				if su.Field(i).Name() == pl.fld {
					pv = extend(v, step{k: stField, field: i, typ: su.Field(i).Type()})
				}
			}
		}
		if mv, ok := x.load(st, pv).(*MapV); ok {
			x.storeRaw(st, mv.p, x.fresh(m, x.w.sortOf(mv.t)))
			return
		}
		nv := x.sym(st, pv.elem, m, true)
		x.store(st, pv, nv, pv.elem)
	default:
		switch v := pl.v.(type) {
		case *MapV:
			x.storeRaw(st, v.p, x.fresh(m, x.w.sortOf(v.t)))
		case *SliceV:
			t := x.fresh(m, x.w.sortOf(v.t))
			x.fact(st, Eq(Len(t), Len(x.content(st, v))))
			x.store(st, &PtrV{cell: v.cell, nilc: False, elem: v.t}, t, v.t)
		}
	}
}

// ------------------------------------------------------------------------------
// Builtins

func (x *Exec) builtin(p *Path, name string, cc *ssa.CallCommon, in *ssa.Call) (Value, bool) {
	st := p.st
	arg := func(i int) Value { return x.val(p, cc.Args[i]) }
	switch name {
	case "len", "cap":
		switch v := arg(0).(type) {
		case *Term, *SliceV:
			if name == "cap" {
				fail("cap")
			}
			return Len(x.content(st, v)), true
		case *MapV:
			arr := x.mapTerm(st, v)
			s := mangle(arr.sort.String())
			t := App("maplen_"+s, IntS, arr)
			x.fact(st, Le(Int(0), t))
			x.fact(st, Implies(v.nilc, Eq(t, Int(0))))
			x.mapLenAxioms(arr.sort)
			return t, true
		case *StructV:
			return Int(int64(len(v.f))), true
		}
	case "append":
		rt := in.Type()
		s := x.w.sortOf(rt)
		base := arg(0)
		c := x.content(st, base)
		if len(cc.Args) < 2 {
			return base, true
		}
		var extra *Term
		ev := arg(1)
		extra = x.content(st, ev)
		if extra.sort != s {
			fail("append of %s to %s", extra.sort, s)
		}
		if x.spec {
			return Concat(s, c, extra), true
		}
		// the result may share the backing array of the base
		var fam *int
		if sv, ok := base.(*SliceV); ok {
			fam = sv.cell.fam
		}
		return x.newSlice(st, rt, Concat(s, c, extra), fam), true
	case "copy":
		dst, ok := arg(0).(*SliceV)
		src := x.content(st, arg(1))
		if !ok {
			fail("copy into a shared slice")
		}
		d := x.content(st, dst)
		n := Ite(Le(Len(src), Len(d)), Len(src), Len(d))
		x.store(st, &PtrV{cell: dst.cell, nilc: False, elem: dst.t}, Concat(d.sort, Extract(src, Int(0), n), Suffix(d, n)), dst.t)
		for c := range st.mem {
			if c.fam == dst.cell.fam && c != dst.cell {
				st.poison[c] = true
			}
		}
		return n, true
	case "delete":
		m := arg(0).(*MapV)
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		k := x.toTerm(st, arg(1), mt.Key())
		arr := x.mapTerm(st, m)
		n := Store(arr, k, None(arr.sort.elem.ctors[1].fields[0].sort))
		if m.nilc == False {
			x.storeRaw(st, m.p, n)
		} else {
			if m.p.cell.fixed != nil {
				fail("delete from an immutable map")
			}
			x.storeRaw(st, m.p, Ite(m.nilc, arr, n))
		}
		return TupleV{}, true
	case "panic":
		x.oblige(st, "no panic:", "explicit panic is unreachable", in.Pos(), x.allowed)
		return nil, false
	case "print", "println":
		return TupleV{}, true
	case "min", "max":
		r := x.toTerm(st, arg(0), in.Type())
		for i := 1; i < len(cc.Args); i++ {
			b := x.toTerm(st, arg(i), in.Type())
			if name == "min" {
				r = Ite(Le(r, b), r, b)
			} else {
				r = Ite(Le(r, b), b, r)
			}
		}
		return r, true
	case "ssa:wrapnilchk":
		return arg(0), true
	case "recover":
		return nilOf(x.w.sortOf(in.Type())), true
	}
	fail("builtin %s", name)
	return nil, false
}

func (x *Exec) mapLenAxioms(s *Sort) {
	nm := "maplen_" + mangle(s.String())
	if axiomFns[nm] != nil {
		return
	}
	axiomFns[nm] = []func(*Term) []*Term{func(t *Term) []*Term {
		a := t.args[0]
		out := []*Term{Le(Int(0), t)}
		switch a.op {
		case OConstArr:
			if a.args[0].op == OCtor && a.args[0].ctor.idx == 0 {
				out = append(out, Eq(t, Int(0)))
			}
		case OStore:
			l := App(nm, IntS, a.args[0])
			had := Not(IsNone(Select(a.args[0], a.args[1])))
			has := Not(IsNone(a.args[2]))
			d := Add(l, Ite(has, Ite(had, Int(0), Int(1)), Ite(had, Int(-1), Int(0))))
			out = append(out, Eq(t, d), Le(Int(0), l))
		}
		return out
	}}
}
