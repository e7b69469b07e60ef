package main

// Path-based symbolic execution over SSA.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obl is a proof obligation.
type Obl struct {
	root   string // function under verification
	kind   string
	label  string
	pos    string
	pc     []*Term
	facts  []*Term
	goal   *Term
	loop   *LoopInst // for invariant and measure obligations
	cand   *Cand
	base   bool
	result string // discharged, failed, dropped
	solver string
	out    string
	query  string
	depVer string
	id     int
}

func (o *Obl) name() string {
	s := o.root + ": " + o.kind
	if o.label != "" {
		s += " " + o.label
	}
	if o.pos != "" {
		s += " (" + o.pos + ")"
	}
	return s
}

type Exec struct {
	w        *World
	ncell    int
	refs     map[refKey]*Cell
	fnOf     map[*Term]*FuncV
	dynOf    map[*Term]*IfaceV
	globals  map[*ssa.Global]*Cell
	globalOf map[*Cell]*ssa.Global
	facts    []*Term
	spec     bool
	silent   int
	obls     []*Obl
	trivial  int // obligations decided by the simplifier
	root     *ssa.Function
	rootC    *Contract
	rootArgs map[string]Value // parameter names and old_ names
	allowed  *Term            // condition under which a panic is allowed
	loops    []*LoopInst
	stack    []*ssa.Function
	trusted  map[string]bool // external functions taken as pure
	inlined  map[string]bool
	calledC  map[*Contract]bool
	steps    int
	decr     *Term
	outer    []*Path // paths of the inlining callers

	savedOuter [][]*Path
	rootTypes  map[string]types.Type
	used       map[string]bool // library models used
	usedSpecs  map[*ssa.Function]bool
	entries    []map[string]envVal // old_ values per frame of the stack
	ginits     map[*Cell]*globalVal
	curPos     string
	term       *termCheck
	termSCC    map[*ssa.Function]bool
}

func newExec(w *World) *Exec {
	return &Exec{w: w, refs: map[refKey]*Cell{}, fnOf: map[*Term]*FuncV{}, dynOf: map[*Term]*IfaceV{}, globals: map[*ssa.Global]*Cell{},
		globalOf: map[*Cell]*ssa.Global{}, trusted: map[string]bool{}, inlined: map[string]bool{}, calledC: map[*Contract]bool{}, allowed: False,
		used: map[string]bool{}, usedSpecs: map[*ssa.Function]bool{}, rootArgs: map[string]Value{}, ginits: map[*Cell]*globalVal{}, rootTypes: map[string]types.Type{}}
}

// fact adds an unconditionally valid statement.
func (x *Exec) fact(st *State, t *Term) {
	if t == True {
		return
	}
	if x.spec {
		x.facts = append(x.facts, t)
		return
	}
	st.assume(t)
}

func (x *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.w.fset.Position(p)
	f := strings.TrimPrefix(ps.Filename, x.w.repo+"/")
	if i := strings.LastIndex(f, "/pkg/mod/"); i >= 0 {
		f = f[i+9:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// oblige records a proof obligation and assumes it afterwards.
func (x *Exec) oblige(st *State, kind, label string, pos token.Pos, goal *Term) {
	if x.spec {
		return
	}
	if x.silent == 0 {
		if v, ok := st.known(goal); ok && v || st.dead() {
			x.trivial++
		} else {
			x.obls = append(x.obls, &Obl{root: x.root.String(), kind: kind, label: label, pos: x.posOf(pos), pc: append([]*Term{}, st.pc...), goal: goal, facts: append([]*Term{}, x.facts...), id: len(x.obls)})
		}
	}
	st.assume(goal)
}

// safe is an obligation that something does not panic.
func (x *Exec) safe(st *State, label string, pos token.Pos, goal *Term) {
	if goal == True || x.spec {
		return
	}
	g := goal
	if len(x.stack) > 0 {
		g = Or(goal, x.allowed)
	}
	x.oblige(st, "no panic:", label, pos, g)
	st.assume(goal)
}

// ------------------------------------------------------------------------------

type Path struct {
	st     *State
	regs   map[ssa.Value]Value
	blk    *ssa.BasicBlock
	idx    int
	prev   *ssa.BasicBlock
	loops  map[*ssa.BasicBlock]*LoopInst
	defers []*ssa.Defer
	dargs  [][]Value
	names  map[string]ssa.Value
	addr   map[string]bool
	skip   bool // the start of the block is done already
}

func (p *Path) fork() *Path {
	n := &Path{st: p.st.fork(), regs: make(map[ssa.Value]Value, len(p.regs)), blk: p.blk, idx: p.idx, prev: p.prev,
		loops: map[*ssa.BasicBlock]*LoopInst{}, names: map[string]ssa.Value{}, addr: map[string]bool{}}
	for k, v := range p.regs {
		n.regs[k] = v
	}
	for k, v := range p.loops {
		n.loops[k] = v
	}
	for k, v := range p.names {
		n.names[k] = v
	}
	for k, v := range p.addr {
		n.addr[k] = v
	}
	n.defers = append([]*ssa.Defer{}, p.defers...)
	n.dargs = append([][]Value{}, p.dargs...)
	return n
}

type Result struct {
	st *State
	v  Value
}

// Act is the execution of one function body.
type Act struct {
	fn      *ssa.Function
	order   map[*ssa.BasicBlock]int
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> loop body
	work    []*Path
	results []Result
	stop    *ssa.BasicBlock // silent loop run: header at which paths end
	backs   []*Path
	region  map[*ssa.BasicBlock]bool
	entry   map[string]envVal
}

func newAct(fn *ssa.Function) *Act {
	a := &Act{fn: fn, order: map[*ssa.BasicBlock]int{}, headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := range post {
		a.order[post[len(post)-1-i]] = i
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := a.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					a.headers[s] = body
				}
				var up func(c *ssa.BasicBlock)
				up = func(c *ssa.BasicBlock) {
					if body[c] {
						return
					}
					body[c] = true
					for _, p := range c.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			} else if a.order[s] <= a.order[b] {
				fail("irreducible control flow in %s", fn)
			}
		}
	}
	return a
}

const mergeLimit = 6

// execFn runs a function body with arguments.
func (x *Exec) execFn(st *State, fn *ssa.Function, args []Value, bind []Value) []Result {
	if len(fn.Blocks) == 0 {
		fail("no body for %s", fn)
	}
	if len(x.stack) > 14 {
		fail("inlining too deep at %s", fn)
	}
	x.stack = append(x.stack, fn)
	var ent map[string]envVal
	if !x.spec && x.hasTemplates(fn) {
		ent = map[string]envVal{}
		for i, pr := range fn.Params {
			ent["old_"+pr.Name()] = envVal{x.snap(st, args[i]), pr.Type()}
		}
	}
	x.entries = append(x.entries, ent)
	defer func() { x.stack, x.entries = x.stack[:len(x.stack)-1], x.entries[:len(x.entries)-1] }()
	a := newAct(fn)
	p := &Path{st: st, regs: map[ssa.Value]Value{}, blk: fn.Blocks[0], loops: map[*ssa.BasicBlock]*LoopInst{}, names: map[string]ssa.Value{}, addr: map[string]bool{}}
	for i, pr := range fn.Params {
		p.regs[pr] = args[i]
		p.names[pr.Name()] = pr
	}
	for i, fv := range fn.FreeVars {
		p.regs[fv] = bind[i]
		p.names[fv.Name()] = fv
		if _, ok := bind[i].(*PtrV); ok {
			p.addr[fv.Name()] = true
		}
	}
	a.work = []*Path{p}
	x.runAct(a)
	return x.mergeResults(a.results, fn)
}

func (x *Exec) runAct(a *Act) {
	for len(a.work) > 0 {
		// lowest block first
		bi := 0
		for i, p := range a.work {
			if a.less(p, a.work[bi]) {
				bi = i
			}
		}
		p := a.work[bi]
		a.work = append(a.work[:bi], a.work[bi+1:]...)
		if p.idx == 0 {
			var same []*Path
			same = append(same, p)
			var rest []*Path
			for _, q := range a.work {
				if q.blk == p.blk && q.idx == 0 && sameLoops(p.loops, q.loops) && len(p.defers) == len(q.defers) {
					same = append(same, q)
				} else {
					rest = append(rest, q)
				}
			}
			_, header := a.headers[p.blk]
			entering := header && p.loops[p.blk] == nil
			limit := mergeLimit
			if x.spec {
				limit = 1
			}
			if len(same) > 1 && (entering || len(same) > limit) {
				a.work = rest
				ms := x.mergePaths(a, same)
				for _, m := range ms[1:] {
					x.runPath(a, m)
				}
				x.runPath(a, ms[0])
				continue
			}
		}
		x.runPath(a, p)
	}
}

func (a *Act) less(p, q *Path) bool {
	op, oq := a.order[p.blk], a.order[q.blk]
	if op != oq {
		return op < oq
	}
	return p.idx > q.idx
}

func sameLoops(a, b map[*ssa.BasicBlock]*LoopInst) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func (x *Exec) val(p *Path, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return &FuncV{fn: c, t: c.Signature}
	case *ssa.Global:
		return x.globalPtr(c)
	case *ssa.Builtin:
		fail("builtin value")
	}
	r, ok := p.regs[v]
	if !ok {
		fail("unset register %s in %s", v.Name(), v.Parent())
	}
	return r
}

func (x *Exec) globalPtr(g *ssa.Global) *PtrV {
	c := x.globals[g]
	et := g.Type().(*types.Pointer).Elem()
	if c == nil {
		c = x.newCell("global "+g.Name(), et)
		c.param = true
		x.globals[g] = c
		x.globalOf[c] = g
	}
	return &PtrV{cell: c, nilc: False, elem: et}
}

func (x *Exec) tm(p *Path, v ssa.Value) *Term {
	r := x.val(p, v)
	return x.toTerm(p.st, r, v.Type())
}

func (x *Exec) enterBlock(a *Act, p *Path, to *ssa.BasicBlock) {
	p.prev, p.blk, p.idx = p.blk, to, 0
	// leave loops
	for h := range p.loops {
		if body := a.headers[h]; body != nil && !body[to] {
			delete(p.loops, h)
		}
	}
	a.work = append(a.work, p)
}

// phis assigns the phi registers for the edge p.prev -> p.blk.
func (x *Exec) phis(p *Path) {
	var ei = -1
	for i, pr := range p.blk.Preds {
		if pr == p.prev {
			ei = i
		}
	}
	var vals []Value
	var ph []*ssa.Phi
	for _, in := range p.blk.Instrs {
		f, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, f)
		vals = append(vals, x.val(p, f.Edges[ei]))
	}
	for i, f := range ph {
		p.regs[f] = vals[i]
		if f.Comment != "" {
			p.names[f.Comment] = f
			p.addr[f.Comment] = false
		}
	}
}

func (x *Exec) runPath(a *Act, p *Path) {
	if p.st.dead() {
		return
	}
	if p.idx == 0 && p.skip {
		p.skip = false
		for p.idx < len(p.blk.Instrs) {
			if _, ok := p.blk.Instrs[p.idx].(*ssa.Phi); !ok {
				break
			}
			p.idx++
		}
	} else if p.idx == 0 {
		if p.prev != nil {
			x.phis(p)
		}
		if a.region != nil && !a.region[p.blk] {
			return // silent run leaves the loop
		}
		if _, ok := a.headers[p.blk]; ok {
			if p.loops[p.blk] != nil {
				x.backEdge(a, p)
				return
			}
			if a.stop != nil && p.blk == a.stop {
				a.backs = append(a.backs, p)
				return
			}
			if !x.enterLoop(a, p) {
				return
			}
		}
		for p.idx < len(p.blk.Instrs) {
			if _, ok := p.blk.Instrs[p.idx].(*ssa.Phi); !ok {
				break
			}
			p.idx++
		}
	}
	for p.idx < len(p.blk.Instrs) {
		in := p.blk.Instrs[p.idx]
		p.idx++
		x.steps++
		if x.steps > 3000000 {
			fail("too many steps")
		}
		if ps := in.Pos(); ps.IsValid() && !x.spec {
			x.curPos = x.posOf(ps)
		}
		if !x.instr(a, p, in) {
			return
		}
		if p.st.dead() {
			return
		}
	}
}

// cont adds further paths that continue at the current instruction.
func (x *Exec) cont(a *Act, p *Path, in ssa.Value, rs []Result) bool {
	if len(rs) == 0 {
		return false
	}
	for _, r := range rs[1:] {
		q := p.fork()
		q.st = r.st
		if in != nil {
			q.regs[in] = r.v
		}
		a.work = append(a.work, q)
	}
	p.st = rs[0].st
	if in != nil {
		p.regs[in] = rs[0].v
	}
	return true
}

func (x *Exec) instr(a *Act, p *Path, in ssa.Instruction) bool {
	st := p.st
	switch in := in.(type) {
	case *ssa.DebugRef:
		if id, ok := in.Expr.(*ast.Ident); ok && id.Name != "_" {
			p.names[id.Name] = in.X
			p.addr[id.Name] = in.IsAddr
		}
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		c := x.newCell(in.Comment, t)
		st.mem[c] = x.zero(t)
		p.regs[in] = &PtrV{cell: c, nilc: False, elem: t}
	case *ssa.BinOp:
		p.regs[in] = x.binop(p, in)
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			p.regs[in] = x.deref(st, x.val(p, in.X), in.X.Type(), in.Pos())
		case token.NOT:
			p.regs[in] = Not(x.tm(p, in.X))
		case token.SUB:
			r := Sub(Int(0), x.tm(p, in.X))
			x.intRangeOb(st, in.Type(), r, in.Pos())
			p.regs[in] = r
		default:
			fail("unary %s", in.Op)
		}
	case *ssa.Store:
		pv := x.val(p, in.Addr)
		ptr := x.asPtr(st, pv, in.Addr.Type(), in.Pos())
		x.store(st, ptr, x.val(p, in.Val), in.Val.Type())
	case *ssa.FieldAddr:
		ptr := x.asPtr(st, x.val(p, in.X), in.X.Type(), in.Pos())
		p.regs[in] = extend(ptr, step{k: stField, field: in.Field, typ: in.Type().(*types.Pointer).Elem()})
	case *ssa.Field:
		switch v := x.val(p, in.X).(type) {
		case *StructV:
			p.regs[in] = v.f[in.Field]
		case *Term:
			p.regs[in] = App(x.fieldFn(in.X.Type(), in.Field), x.w.sortOf(in.Type()), v)
		default:
			fail("field of %T", v)
		}
	case *ssa.IndexAddr:
		i := x.tm(p, in.Index)
		et := in.Type().(*types.Pointer).Elem()
		switch u := in.X.Type().Underlying().(type) {
		case *types.Pointer: // array
			ptr := x.asPtr(st, x.val(p, in.X), in.X.Type(), in.Pos())
			n := u.Elem().Underlying().(*types.Array).Len()
			x.safe(st, "index in range", in.Pos(), And(Le(Int(0), i), Lt(i, Int(n))))
			p.regs[in] = extend(ptr, step{k: stIndex, t: i, typ: et})
		default:
			s := x.val(p, in.X)
			x.safe(st, "index in range", in.Pos(), And(Le(Int(0), i), Lt(i, Len(x.content(st, s)))))
			switch s := s.(type) {
			case *SliceV:
				p.regs[in] = extend(&PtrV{cell: s.cell, nilc: False, elem: in.X.Type()}, step{k: stIndex, t: i, typ: et})
			case *Term:
				c := x.newCell("slice", in.X.Type())
				c.fixed = s
				p.regs[in] = extend(&PtrV{cell: c, nilc: False, elem: in.X.Type()}, step{k: stIndex, t: i, typ: et})
			}
		}
	case *ssa.Index:
		i := x.tm(p, in.Index)
		switch v := x.val(p, in.X).(type) {
		case *StructV:
			x.safe(st, "index in range", in.Pos(), And(Le(Int(0), i), Lt(i, Int(int64(len(v.f))))))
			c := x.newCell("arr", in.X.Type())
			c.fixed = v
			p.regs[in] = x.load(st, extend(&PtrV{cell: c, nilc: False, elem: in.X.Type()}, step{k: stIndex, t: i, typ: in.Type()}))
		case *Term:
			x.safe(st, "index in range", in.Pos(), And(Le(Int(0), i), Lt(i, Len(v))))
			p.regs[in] = At(v, i)
		default:
			fail("index of %T", v)
		}
	case *ssa.Lookup:
		return x.lookup(p, in)
	case *ssa.MapUpdate:
		m := x.val(p, in.Map).(*MapV)
		x.safe(st, "map is not nil", in.Pos(), Not(m.nilc))
		mt := in.Map.Type().Underlying().(*types.Map)
		k := x.toTerm(st, x.val(p, in.Key), mt.Key())
		x.mapSet(st, m, k, x.val(p, in.Value), mt)
	case *ssa.MakeMap:
		c := x.newCell("map", in.Type())
		st.mem[c] = x.emptyMap(in.Type())
		p.regs[in] = &MapV{p: &PtrV{cell: c, nilc: False, elem: in.Type()}, nilc: False, t: in.Type()}
	case *ssa.MakeSlice:
		n := x.tm(p, in.Len)
		x.safe(st, "makeslice: length is not negative", in.Pos(), Le(Int(0), n))
		s := x.w.sortOf(in.Type())
		p.regs[in] = x.newSlice(st, in.Type(), x.zeros(st, s, elemType(in.Type()), n), nil)
	case *ssa.MakeClosure:
		f := &FuncV{fn: in.Fn.(*ssa.Function), t: in.Type()}
		for _, b := range in.Bindings {
			f.bind = append(f.bind, x.val(p, b))
		}
		p.regs[in] = f
	case *ssa.MakeInterface:
		p.regs[in] = x.makeIface(st, x.val(p, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeInterface:
		p.regs[in] = x.changeIface(st, x.val(p, in.X), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		p.regs[in] = x.changeType(x.val(p, in.X), in.Type())
	case *ssa.Convert:
		p.regs[in] = x.convert(p, in)
	case *ssa.Slice:
		p.regs[in] = x.slice(p, in)
	case *ssa.Extract:
		p.regs[in] = x.val(p, in.Tuple).(TupleV)[in.Index]
	case *ssa.TypeAssert:
		return x.typeAssert(a, p, in)
	case *ssa.Range:
		p.regs[in] = x.rangeStart(p, in)
	case *ssa.Next:
		p.regs[in] = x.next(p, in)
	case *ssa.Call:
		return x.call(a, p, in)
	case *ssa.Defer:
		var as []Value
		if in.Call.IsInvoke() {
			as = append(as, x.val(p, in.Call.Value))
		} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
			as = append(as, x.val(p, in.Call.Value))
		}
		for _, v := range in.Call.Args {
			as = append(as, x.val(p, v))
		}
		p.defers = append(p.defers, in)
		p.dargs = append(p.dargs, as)
	case *ssa.RunDefers:
		if n := len(p.defers); n > 0 {
			d, as := p.defers[n-1], p.dargs[n-1]
			p.defers, p.dargs = p.defers[:n-1], p.dargs[:n-1]
			p.idx-- // come back for the others
			rs := x.callCommon(p, &d.Call, as[0], as[1:], d.Pos())
			return x.cont(a, p, nil, rs)
		}
	case *ssa.Jump:
		x.enterBlock(a, p, p.blk.Succs[0])
		return false
	case *ssa.If:
		c := x.tm(p, in.Cond)
		if v, ok := st.known(c); ok {
			to := p.blk.Succs[1]
			if v {
				to = p.blk.Succs[0]
			}
			x.enterBlock(a, p, to)
			return false
		}
		q := p.fork()
		if p.st.branch(c) {
			x.enterBlock(a, p, p.blk.Succs[0])
		}
		if q.st.branch(Not(c)) {
			x.enterBlock(a, q, q.blk.Succs[1])
		}
		return false
	case *ssa.Return:
		var v Value
		switch len(in.Results) {
		case 0:
			v = TupleV{}
		case 1:
			v = x.val(p, in.Results[0])
		default:
			var tv TupleV
			for _, r := range in.Results {
				tv = append(tv, x.val(p, r))
			}
			v = tv
		}
		a.results = append(a.results, Result{p.st, v})
		return false
	case *ssa.Panic:
		x.oblige(st, "no panic:", "explicit panic is unreachable", in.Pos(), x.allowed)
		return false
	case *ssa.Go:
		fail("goroutine")
	case *ssa.Send:
		fail("channel send")
	case *ssa.Select:
		fail("select")
	case *ssa.MakeChan:
		fail("channel")
	default:
		fail("instruction %T", in)
	}
	return true
}

// asPtr makes a location of a pointer value and checks that it is not nil.
func (x *Exec) asPtr(st *State, v Value, t types.Type, pos token.Pos) *PtrV {
	switch v := v.(type) {
	case *PtrV:
		x.safe(st, "pointer is not nil", pos, Not(v.nilc))
		if v.nilc == True {
			fail("nil dereference")
		}
		return v
	case *Term:
		et := t.Underlying().(*types.Pointer).Elem()
		x.safe(st, "pointer is not nil", pos, Not(Eq(v, nilOf(v.sort))))
		return &PtrV{cell: x.refCell(v, et), nilc: False, elem: et}
	}
	fail("asPtr %T", v)
	return nil
}

func (x *Exec) deref(st *State, v Value, t types.Type, pos token.Pos) Value {
	return x.load(st, x.asPtr(st, v, t, pos))
}

func (x *Exec) intRangeOb(st *State, t types.Type, r *Term, pos token.Pos) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Kind() == types.Int || b.Kind() == types.Int64 || b.Info()&types.IsUntyped != 0 {
		return // mathematical
	}
	f := x.w.rangeFacts(t, r)
	if f == True || x.spec {
		return
	}
	x.oblige(st, "no overflow:", shortName(t), pos, f)
}

// truncated division
func tdiv(a, b *Term) *Term {
	if b.op == OInt && b.ival.Sign() > 0 {
		if nonNeg(a) {
			return EDiv(a, b)
		}
		return Ite(Le(Int(0), a), EDiv(a, b), Sub(Int(0), EDiv(Sub(Int(0), a), b)))
	}
	fail("division by a non-constant")
	return nil
}

func (x *Exec) binop(p *Path, in *ssa.BinOp) Value {
	st := p.st
	switch in.Op {
	case token.EQL, token.NEQ:
		a, b := x.val(p, in.X), x.val(p, in.Y)
		if x.nilLike(a) && !x.nilLike(b) {
			a = x.zero(in.Y.Type())
		}
		if x.nilLike(b) && !x.nilLike(a) {
			b = x.zero(in.X.Type())
		}
		// interface against concrete
		ta, tb := in.X.Type(), in.Y.Type()
		if _, ok := ta.Underlying().(*types.Interface); ok {
			if _, ok := tb.Underlying().(*types.Interface); !ok && !x.nilLike(b) {
				b = x.makeIface(st, b, tb, ta)
			}
		}
		e := x.eqV(st, a, b, ta)
		if in.Op == token.NEQ {
			return Not(e)
		}
		return e
	}
	a, b := x.tm(p, in.X), x.tm(p, in.Y)
	isStr := a.sort == StrS
	switch in.Op {
	case token.ADD:
		if isStr {
			return Concat(StrS, a, b)
		}
		r := Add(a, b)
		x.intRangeOb(st, in.Type(), r, in.Pos())
		return r
	case token.SUB:
		r := Sub(a, b)
		x.intRangeOb(st, in.Type(), r, in.Pos())
		return r
	case token.MUL:
		r := Mul(a, b)
		x.intRangeOb(st, in.Type(), r, in.Pos())
		return r
	case token.QUO:
		x.safe(st, "divisor is not zero", in.Pos(), Not(Eq(b, Int(0))))
		return tdiv(a, b)
	case token.REM:
		x.safe(st, "divisor is not zero", in.Pos(), Not(Eq(b, Int(0))))
		if b.op == OInt && b.ival.Sign() > 0 {
			if nonNeg(a) {
				return EMod(a, b)
			}
			return Ite(Le(Int(0), a), EMod(a, b), Sub(Int(0), EMod(Sub(Int(0), a), b)))
		}
		// a non-negative dividend and a positive divisor
		x.oblige(st, "model:", "operands of % are not negative", in.Pos(), And(Le(Int(0), a), Lt(Int(0), b)))
		return App("gomod", IntS, a, b)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isStr {
			switch in.Op {
			case token.LSS:
				return StrLt(a, b)
			case token.GTR:
				return StrLt(b, a)
			case token.LEQ:
				return Not(StrLt(b, a))
			default:
				return Not(StrLt(a, b))
			}
		}
		if a.sort != IntS {
			fail("comparison of %s", a.sort)
		}
		switch in.Op {
		case token.LSS:
			return Lt(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.LEQ:
			return Le(a, b)
		default:
			return Le(b, a)
		}
	}
	fail("operator %s", in.Op)
	return nil
}

func (x *Exec) nilLike(v Value) bool {
	t, ok := v.(*Term)
	return ok && t.sort.kind == SUnint && t.sort.name == "Nil"
}

// zeros is a slice of n zero values.
func (x *Exec) zeros(st *State, s *Sort, et types.Type, n *Term) *Term {
	var z *Term
	if s == StrS {
		z = Int(0)
	} else {
		z = x.toTerm(st, x.zero(et), et)
	}
	if n.op == OInt && n.ival.Int64() <= 8 {
		var us []*Term
		for i := int64(0); i < n.ival.Int64(); i++ {
			if s == StrS {
				us = append(us, Char(z))
			} else {
				us = append(us, Unit(z))
			}
		}
		return Concat(s, us...)
	}
	nm := "zeros_" + mangle(s.String())
	if axiomFns[nm] == nil {
		axiomFns[nm] = []func(*Term) []*Term{func(t *Term) []*Term {
			return []*Term{Implies(Le(Int(0), t.args[0]), Eq(mk(OLen, IntS, "", t), t.args[0]))}
		}}
		zeroOf[nm] = z
	}
	return App(nm, s, n)
}

var zeroOf = map[string]*Term{}

func (x *Exec) lookup(p *Path, in *ssa.Lookup) bool {
	st := p.st
	if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
		s, i := x.tm(p, in.X), x.tm(p, in.Index)
		x.safe(st, "index in range", in.Pos(), And(Le(Int(0), i), Lt(i, Len(s))))
		p.regs[in] = At(s, i)
		return true
	}
	mt := in.X.Type().Underlying().(*types.Map)
	m := x.val(p, in.X).(*MapV)
	k := x.toTerm(st, x.val(p, in.Index), mt.Key())
	arr := x.mapTerm(st, m)
	e := Select(arr, k)
	found := Not(IsNone(e))
	var loc *PtrV
	if m.p.cell.fixed == nil {
		loc = extend(m.p, step{k: stMapVal, t: k, typ: mt.Elem()})
	}
	v := x.fromTerm(Val(e), mt.Elem(), loc)
	if b, ok := mt.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		x.fact(st, Implies(found, x.w.rangeFacts(mt.Elem(), Val(e))))
	}
	zv := x.zero(mt.Elem())
	if !in.CommaOk {
		p.regs[in] = x.orZero(st, found, v, zv, mt.Elem())
		return true
	}
	p.regs[in] = TupleV{x.orZero(st, found, v, zv, mt.Elem()), found}
	return true
}

func (x *Exec) orZero(st *State, found *Term, v, zv Value, t types.Type) Value {
	if iv, ok := v.(*IfaceV); ok && iv.loc != nil {
		if k, ok := st.known(found); ok && k {
			return v
		}
		return &IfaceV{t: iv.t, tm: Ite(found, iv.tm, x.toTerm(st, zv, t)), loc: iv.loc}
	}
	return x.iteV(st, found, v, zv, t)
}

func (x *Exec) mapTerm(st *State, m *MapV) *Term {
	return x.rawOrLoad(st, m.p)
}

func (x *Exec) rawOrLoad(st *State, p *PtrV) *Term {
	v := x.load(st, p)
	switch v := v.(type) {
	case *Term:
		return v
	case *MapV:
		return x.rawOrLoad(st, v.p)
	}
	fail("map content %T", v)
	return nil
}

func (x *Exec) mapSet(st *State, m *MapV, k *Term, v Value, mt *types.Map) {
	p := x.resolve(st, m.p)
	if p.cell.fixed != nil {
		fail("write to an immutable map (%s)", p.cell.name)
	}
	arr := x.mapTerm(st, m)
	t := x.packTo(st, v, mt.Elem(), extend(m.p, step{k: stMapVal, t: k, typ: mt.Elem()}))
	arr = Store(arr, k, Some(t))
	x.storeRaw(st, m.p, arr)
}

func (x *Exec) storeRaw(st *State, p *PtrV, t *Term) {
	p = x.resolve(st, p)
	if x.spec {
		x.specWrite(p.cell)
	}
	cur := x.cellVal(st, p.cell)
	if len(p.path) == 0 {
		st.mem[p.cell] = t
	} else {
		st.mem[p.cell] = x.update(st, cur, p, p.path, 0, t, p.elem)
	}
	if p.cell.param {
		st.touch[p.cell] = true
	}
}

func (x *Exec) specWrite(c *Cell) {
	if c.param {
		fail("a spec function writes to %s", c.name)
	}
}

func (x *Exec) makeIface(st *State, v Value, from, to types.Type) Value {
	if t, ok := v.(*Term); ok && x.w.isRef(from) {
		_ = t
	}
	return &IfaceV{t: to, dyn: from, v: v}
}

func (x *Exec) changeIface(st *State, v Value, from, to types.Type) Value {
	switch v := v.(type) {
	case *IfaceV:
		if v.dyn != nil {
			return &IfaceV{t: to, dyn: v.dyn, v: v.v}
		}
	case *Term:
		if o := x.dynOf[v]; o != nil {
			return &IfaceV{t: to, dyn: o.dyn, v: o.v}
		}
	}
	t := x.toTerm(st, v, from)
	s := x.w.sortOf(to)
	if s == t.sort {
		return t
	}
	r := App("iface_"+mangle(shortName(to))+"_of_"+mangle(typeName(from)), s, t)
	x.fact(st, Eq(Eq(r, nilOf(s)), Eq(t, x.toTerm(st, x.zero(from), from))))
	x.cvtOf(r, t, from)
	return r
}

var cvtTab = map[*Term]struct {
	t    *Term
	from types.Type
}{}

func (x *Exec) cvtOf(r, t *Term, from types.Type) {
	cvtTab[r] = struct {
		t    *Term
		from types.Type
	}{t, from}
}

func (x *Exec) changeType(v Value, t types.Type) Value {
	switch v := v.(type) {
	case *StructV:
		return &StructV{t: t, f: v.f}
	case *MapV:
		return &MapV{p: v.p, nilc: v.nilc, t: t}
	case *FuncV:
		return &FuncV{fn: v.fn, bind: v.bind, t: t}
	case *SliceV:
		return &SliceV{cell: v.cell, t: t}
	case *Term:
		if s := x.w.sortOf(t); s != v.sort {
			if v.op == OConst && strings.HasPrefix(v.name, "nil!") {
				return nilOf(s)
			}
			return App("chg_"+mangle(v.sort.String())+"_"+mangle(s.String()), s, v)
		}
	}
	return v
}

func (x *Exec) convert(p *Path, in *ssa.Convert) Value {
	st := p.st
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fb, _ := from.(*types.Basic)
	tb, _ := to.(*types.Basic)
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		v := x.tm(p, in.X)
		f := x.w.rangeFacts(in.Type(), v)
		if f != True && !x.spec && v.op != OInt {
			if flo, fhi := intRange(fb.Kind()); flo != nil {
				lo, hi := intRange(tb.Kind())
				if lo != nil && lo.Cmp(flo) <= 0 && fhi.Cmp(hi) <= 0 {
					return v
				}
			}
			x.oblige(st, "no overflow:", "conversion to "+shortName(in.Type()), in.Pos(), f)
		}
		return v
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		return App("enc", StrS, x.tm(p, in.X))
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return x.val(p, in.X)
	case fb != nil && fb.Info()&types.IsString != 0:
		s := to.(*types.Slice)
		if isByte(s.Elem()) {
			return x.newSlice(st, in.Type(), x.tm(p, in.X), nil)
		}
		return x.newSlice(st, in.Type(), App("runes", SeqOf(IntS), x.tm(p, in.X)), nil)
	case tb != nil && tb.Info()&types.IsString != 0:
		s := from.(*types.Slice)
		c := x.content(st, x.val(p, in.X))
		if isByte(s.Elem()) {
			return c
		}
		return App("unrunes", StrS, c)
	}
	fail("conversion from %s to %s", in.X.Type(), in.Type())
	return nil
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Exec) slice(p *Path, in *ssa.Slice) Value {
	st := p.st
	var c *Term
	var v Value
	var fam *int
	rt := in.Type()
	if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		ptr := x.asPtr(st, x.val(p, in.X), in.X.Type(), in.Pos())
		arr := x.load(st, ptr)
		et := pt.Elem().Underlying().(*types.Array).Elem()
		s := x.w.sortOf(rt)
		var us []*Term
		for _, e := range arr.(*StructV).f {
			t := x.toTerm(st, e, et)
			if s == StrS {
				us = append(us, Char(t))
			} else {
				us = append(us, Unit(t))
			}
		}
		c = Concat(s, us...)
	} else {
		v = x.val(p, in.X)
		c = x.content(st, v)
		if sv, ok := v.(*SliceV); ok {
			fam = sv.cell.fam
		}
	}
	lo, hi := Int(0), Len(c)
	if in.Low != nil {
		lo = x.tm(p, in.Low)
	}
	if in.High != nil {
		hi = x.tm(p, in.High)
	}
	if in.Max != nil {
		fail("three-index slice")
	}
	if in.Low != nil || in.High != nil {
		// The capacity is not modelled: a slice must end within the length.
		x.safe(st, "slice bounds in range", in.Pos(), And(Le(Int(0), lo), Le(lo, hi), Le(hi, Len(c))))
	}
	r := c
	if in.High == nil {
		r = Suffix(c, lo)
	} else {
		r = Extract(c, lo, Sub(hi, lo))
	}
	if _, ok := rt.Underlying().(*types.Basic); ok || x.spec {
		return r
	}
	if v != nil && r == c {
		return v
	}
	return x.newSlice(st, rt, r, fam)
}

func (x *Exec) typeAssert(a *Act, p *Path, in *ssa.TypeAssert) bool {
	st := p.st
	v := x.val(p, in.X)
	set := func(q *Path, val Value, ok *Term) {
		if in.CommaOk {
			q.regs[in] = TupleV{val, ok}
		} else {
			q.regs[in] = val
		}
	}
	if t, ok := v.(*Term); ok {
		if o := x.dynOf[t]; o != nil {
			v = o
		}
	}
	if iv, ok := v.(*IfaceV); ok && iv.dyn != nil {
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			ok := types.Implements(iv.dyn, it)
			if ok {
				set(p, &IfaceV{t: in.AssertedType, dyn: iv.dyn, v: iv.v}, True)
				return true
			}
			if in.CommaOk {
				set(p, x.zero(in.AssertedType), False)
				return true
			}
			x.safe(st, "type assertion", in.Pos(), False)
			return false
		}
		if types.Identical(iv.dyn, in.AssertedType) {
			set(p, iv.v, True)
			return true
		}
		if in.CommaOk {
			set(p, x.zero(in.AssertedType), False)
			return true
		}
		x.safe(st, "type assertion", in.Pos(), False)
		return false
	}
	tm := x.toTerm(st, v, in.X.Type())
	if types.Identical(in.AssertedType, in.X.Type()) && !in.CommaOk && tm.sort.kind != SData {
		// the check of a method value
		x.safe(st, "interface is not nil", in.Pos(), Not(Eq(tm, nilOf(tm.sort))))
		set(p, v, True)
		return true
	}
	if tm.sort.kind == SData {
		var loc *PtrV
		if iv, ok := v.(*IfaceV); ok {
			loc = iv.loc
		}
		for i, it := range x.w.closedImpls(in.X.Type()) {
			if !types.Identical(it, in.AssertedType) {
				continue
			}
			c := tm.sort.ctors[i+1]
			is := Is(c, tm)
			val := x.payload(c, it, tm, loc)
			if !in.CommaOk {
				x.safe(st, "type assertion", in.Pos(), is)
				p.regs[in] = val
				return true
			}
			if k, ok := st.known(is); ok && k {
				set(p, val, True)
				return true
			}
			if x.spec {
				set(p, val, is)
				return true
			}
			q := p.fork()
			if q.st.branch(Not(is)) {
				set(q, x.zero(in.AssertedType), False)
				a.work = append(a.work, q)
			}
			if !st.branch(is) {
				return false
			}
			set(p, val, True)
			return true
		}
		if in.CommaOk {
			set(p, x.zero(in.AssertedType), False)
			return true
		}
		x.safe(st, "type assertion", in.Pos(), False)
		return false
	}
	fail("type assertion on an open interface")
	return false
}

// payload is the content of a closed interface value.
func (x *Exec) payload(c *Ctor, it types.Type, tm *Term, loc *PtrV) Value {
	pt, isPtr := it.(*types.Pointer)
	if isPtr {
		if loc != nil {
			return extend(loc, step{k: stCtor, ctor: c, typ: pt.Elem()})
		}
		cc := x.newCell("payload", pt.Elem())
		cc.fixed = x.fromTerm(Sel(c, 0, tm), pt.Elem(), nil)
		return &PtrV{cell: cc, nilc: False, elem: pt.Elem()}
	}
	return x.fromTerm(Sel(c, 0, tm), it, nil)
}

// ------------------------------------------------------------------------------
// Iteration

func (x *Exec) entrySort(mt *types.Map) (*Sort, types.Type) {
	n := x.w.entries[typeName(mt)]
	if n == nil {
		n = x.w.entries[shortName(mt)]
	}
	if n == nil {
		fail("no //cv:entry type for %s", shortName(mt))
	}
	return x.w.sortOf(n), n
}

func (x *Exec) rangeStart(p *Path, in *ssa.Range) Value {
	c := x.newCell("iter", nil)
	if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
		arr := x.mapTerm(p.st, x.val(p, in.X).(*MapV))
		es, _ := x.entrySort(mt)
		ents := x.fresh("entries", SeqOf(es))
		x.fact(p.st, Eq(App("entmap_"+es.name, arr.sort, ents), arr))
		x.fact(p.st, Eq(App("entmapl_"+es.name, arr.sort, ents), arr))
		x.fact(p.st, Eq(App("entbag_"+es.name, UnintSort("Bag"), ents), App("mapbag_"+es.name, UnintSort("Bag"), arr)))
		x.entryAxioms(es, arr.sort)
		p.st.mem[c] = &StructV{t: nil, f: []Value{ents, ents, Int(0)}}
		return &IterV{cell: c, mt: mt}
	}
	s := x.tm(p, in.X)
	p.st.mem[c] = &StructV{t: nil, f: []Value{s, s, Int(0)}}
	return &IterV{cell: c, str: true}
}

// entryAxioms declares the facts about an enumeration of a map: entmap is the
// map of an entry list with distinct keys.
func (x *Exec) entryAxioms(es, as *Sort) {
	nm := "entmap_" + es.name
	if unfolders[nm] != nil {
		return
	}
	c := es.ctors[0]
	unfolders[nm] = func(t *Term) *Term {
		l := t.args[0]
		e := At(l, Int(0))
		return Ite(Eq(Len(l), Int(0)), ConstArr(as, None(as.elem.ctors[1].fields[0].sort)),
			Store(App(nm, as, Suffix(l, Int(1))), Sel(c, 0, e), Some(Sel(c, 1, e))))
	}
	// the same from the other end
	unfolders["entmapl_"+es.name] = func(t *Term) *Term {
		l := t.args[0]
		n := Sub(Len(l), Int(1))
		e := At(l, n)
		return Ite(Eq(Len(l), Int(0)), ConstArr(as, None(as.elem.ctors[1].fields[0].sort)),
			Store(App("entmapl_"+es.name, as, Extract(l, Int(0), n)), Sel(c, 0, e), Some(Sel(c, 1, e))))
	}
	// keys are distinct: the head is not in the map of the tail
	axiomFns[nm] = []func(*Term) []*Term{func(t *Term) []*Term {
		return nil
	}}
}

func (x *Exec) next(p *Path, in *ssa.Next) Value {
	it := x.val(p, in.Iter).(*IterV)
	st := p.st
	sv := st.mem[it.cell].(*StructV)
	rest := sv.f[1].(*Term)
	pos := sv.f[2].(*Term)
	if it.str {
		ok := Not(Eq(rest, Str("")))
		r, w := App("rune_at", IntS, rest), App("rune_w", IntS, rest)
		st.mem[it.cell] = &StructV{f: []Value{sv.f[0], Suffix(rest, w), Add(pos, w)}}
		return TupleV{ok, pos, r}
	}
	ok := Not(Eq(Len(rest), Int(0)))
	es, et := x.entrySort(it.mt)
	e := At(rest, Int(0))
	st.mem[it.cell] = &StructV{f: []Value{sv.f[0], Suffix(rest, Int(1)), Add(pos, Int(1))}}
	c := es.ctors[0]
	ft := fieldTypes(et)
	x.fact(st, Implies(ok, Eq(Select(App("entmap_"+es.name, ArrOf(c.fields[0].sort, OptOf(c.fields[1].sort)), sv.f[0].(*Term)), Sel(c, 0, e)), Some(Sel(c, 1, e)))))
	return TupleV{ok, x.fromTerm(Sel(c, 0, e), ft[0], nil), x.fromTerm(Sel(c, 1, e), ft[1], nil)}
}

// ------------------------------------------------------------------------------
// Merging

func commonPrefix(a, b []*Term) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

// mergeStates merges two states. conds tell which one applies.
func (x *Exec) mergeStates(a, b *State) (*State, *Term) {
	k := commonPrefix(a.pc, b.pc)
	kb := commonPrefix(a.br, b.br)
	ca, cb := And(a.br[kb:]...), And(b.br[kb:]...)
	n := newState()
	for _, t := range a.pc[:k] {
		n.assume(t)
	}
	n.br = append(n.br, a.br[:kb]...)
	// facts shared by both sides
	for _, t := range a.pc[k:] {
		if b.pcs[t] {
			n.assume(t)
		}
	}
	n.branch(Or(ca, cb))
	// facts of one side
	one := func(s, o *State, c *Term) {
		isBr := map[*Term]bool{}
		for _, t := range s.br[kb:] {
			if t.op == OAnd {
				for _, u := range t.args {
					isBr[u] = true
				}
			}
			isBr[t] = true
		}
		for _, t := range s.pc[k:] {
			if !o.pcs[t] && !isBr[t] {
				n.assume(Implies(c, t))
			}
		}
	}
	one(a, b, ca)
	one(b, a, cb)
	cond := x.shortCond(a.br[kb:], b.br[kb:])
	if cond == nil {
		cond = ca
	}
	if len(a.fwd) != len(b.fwd) {
		panic(noMerge{"forwarded cells"})
	}
	for c, p := range a.fwd {
		q := b.fwd[c]
		if q == nil || q.cell != p.cell || !samePath(p.path, q.path) {
			panic(noMerge{"forwarded cells"})
		}
		n.fwd[c] = p
	}
	for c := range a.poison {
		n.poison[c] = true
	}
	for c := range b.poison {
		n.poison[c] = true
	}
	for c := range a.touch {
		n.touch[c] = true
	}
	for c := range b.touch {
		n.touch[c] = true
	}
	for c, v := range a.mem {
		bv, ok := b.mem[c]
		if !ok || sameV(v, bv) {
			n.mem[c] = v
		}
	}
	for c, v := range b.mem {
		if _, ok := a.mem[c]; !ok {
			n.mem[c] = v
		}
	}
	var ks []*Cell
	for c, v := range a.mem {
		if bv, ok := b.mem[c]; ok && !sameV(v, bv) {
			ks = append(ks, c)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, c := range ks {
		n.mem[c] = x.iteMem(n, a, b, cond, a.mem[c], b.mem[c], c.typ)
	}
	return n, cond
}

// shortCond finds a condition that holds on one side and is refuted on the
// other.
func (x *Exec) shortCond(a, b []*Term) *Term {
	nb := map[*Term]bool{}
	for _, t := range b {
		nb[Not(t)] = true
	}
	for _, t := range a {
		if nb[t] {
			return t
		}
	}
	return nil
}

// iteMem merges values of which the slices live in different states.
func (x *Exec) iteMem(n, a, b *State, c *Term, va, vb Value, ty types.Type) Value {
	if sameV(va, vb) {
		return va
	}
	switch av := va.(type) {
	case *StructV:
		if bv, ok := vb.(*StructV); ok {
			r := &StructV{t: av.t}
			var fts []types.Type
			if av.t != nil {
				fts = fieldTypes(av.t)
			}
			for i := range av.f {
				var ft types.Type
				if fts != nil {
					ft = fts[i]
				}
				r.f = append(r.f, x.iteMem(n, a, b, c, av.f[i], bv.f[i], ft))
			}
			return r
		}
	case TupleV:
		if bv, ok := vb.(TupleV); ok {
			var r TupleV
			tt, _ := ty.(*types.Tuple)
			for i := range av {
				var et types.Type
				if tt != nil {
					et = tt.At(i).Type()
				}
				r = append(r, x.iteMem(n, a, b, c, av[i], bv[i], et))
			}
			return r
		}
	}
	_, sa := va.(*SliceV)
	_, sb := vb.(*SliceV)
	if sa || sb {
		var t types.Type
		var fam *int
		if s, ok := va.(*SliceV); ok {
			t, fam = s.t, s.cell.fam
		}
		if s, ok := vb.(*SliceV); ok {
			t = s.t
			if fam == nil {
				fam = s.cell.fam
			}
		}
		return x.newSlice(n, t, Ite(c, x.content(a, va), x.content(b, vb)), fam)
	}
	ma, oka := va.(*MapV)
	mb, okb := vb.(*MapV)
	if oka && okb && !(ma.p.cell == mb.p.cell && samePath(ma.p.path, mb.p.path)) {
		if ma.p.cell.fixed == nil || mb.p.cell.fixed == nil {
			panic(noMerge{"maps"})
		}
	}
	return x.iteV(n, c, va, vb, ty)
}

func sameV(a, b Value) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch av := a.(type) {
	case TupleV:
		bv, ok := b.(TupleV)
		if !ok || len(av) != len(bv) {
			return false
		}
		for i := range av {
			if !sameV(av[i], bv[i]) {
				return false
			}
		}
		return true
	}
	if _, ok := b.(TupleV); ok {
		return false
	}
	if a == b {
		return true
	}
	switch av := a.(type) {
	case *StructV:
		bv, ok := b.(*StructV)
		if !ok || len(av.f) != len(bv.f) {
			return false
		}
		for i := range av.f {
			if !sameV(av.f[i], bv.f[i]) {
				return false
			}
		}
		return true
	case *SliceV:
		bv, ok := b.(*SliceV)
		return ok && av.cell == bv.cell
	case *PtrV:
		bv, ok := b.(*PtrV)
		return ok && av.cell == bv.cell && av.nilc == bv.nilc && samePath(av.path, bv.path)
	case *MapV:
		bv, ok := b.(*MapV)
		return ok && av.nilc == bv.nilc && sameV(av.p, bv.p)
	case *IfaceV:
		bv, ok := b.(*IfaceV)
		return ok && av.tm == bv.tm && av.dyn == bv.dyn && (av.dyn == nil || sameV(av.v, bv.v)) && (av.loc == nil) == (bv.loc == nil)
	case *FuncV:
		bv, ok := b.(*FuncV)
		if !ok || av.fn != bv.fn || len(av.bind) != len(bv.bind) {
			return false
		}
		for i := range av.bind {
			if !sameV(av.bind[i], bv.bind[i]) {
				return false
			}
		}
		return true
	case *IterV:
		bv, ok := b.(*IterV)
		return ok && av.cell == bv.cell
	}
	return false
}

func (x *Exec) tryMerge(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case noMerge:
				ok = false
			case unsupported:
				ok = false
			default:
				panic(r)
			}
		}
	}()
	f()
	return true
}

func (x *Exec) mergeResults(rs []Result, fn *ssa.Function) []Result {
	var live []Result
	for _, r := range rs {
		if !r.st.dead() {
			live = append(live, r)
		}
	}
	rs = live
	if len(rs) < 2 || fn == x.root {
		return rs
	}
	force := len(rs) > 4 || x.spec
	if !x.spec {
		kinds := map[string]bool{}
		for _, r := range rs {
			kinds[x.resultKind(r.v)] = true
		}
		if len(kinds) > 4 {
			return x.mergeGroup(rs, fn, force, false)
		}
	}
	return x.mergeGroup(rs, fn, force, !x.spec)
}

// resultKind tells apart results on which callers usually branch.
func (x *Exec) resultKind(v Value) string {
	switch v := v.(type) {
	case *Term:
		switch {
		case v == True:
			return "t"
		case v == False:
			return "f"
		case v.sort == errS && v == nilErr():
			return "n"
		case v.sort == errS:
			return "e"
		}
	case *IfaceV:
		return "e"
	case TupleV:
		s := ""
		for _, e := range v {
			s += x.resultKind(e) + ","
		}
		return s
	}
	return "?"
}

func (x *Exec) mergeGroup(rs []Result, fn *ssa.Function, force, kinds bool) []Result {
	var out []Result
	for _, r := range rs {
		done := false
		for i := len(out) - 1; i >= 0 && !done; i-- {
			o := out[i]
			if kinds && x.resultKind(o.v) != x.resultKind(r.v) {
				continue
			}
			if !force && !x.sameMem(o.st, r.st) {
				continue
			}
			if !force && !mergeableV(o.v) {
				continue
			}
			done = x.tryMerge(func() {
				st, c := x.mergeStates(o.st, r.st)
				v := x.iteMem(st, o.st, r.st, c, o.v, r.v, resType(fn))
				out[i] = Result{st, v}
			})
		}
		if !done {
			out = append(out, r)
		}
	}
	return out
}

func mergeableV(v Value) bool {
	switch v := v.(type) {
	case *Term, *StructV:
		return true
	case TupleV:
		for _, e := range v {
			if !mergeableV(e) {
				return false
			}
		}
		return true
	}
	return false
}

func resType(fn *ssa.Function) types.Type {
	r := fn.Signature.Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

func (x *Exec) sameMem(a, b *State) bool {
	for c, v := range a.mem {
		if bv, ok := b.mem[c]; ok && !sameV(v, bv) {
			return false
		}
	}
	return true
}

func (x *Exec) mergePaths(a *Act, ps []*Path) []*Path {
	for _, p := range ps {
		x.phis(p)
	}
	// siblings of the branch tree come together first, so that what they share
	// needs no guard
	out := append([]*Path{}, ps...)
	bad := map[[2]*Path]bool{}
	forked := map[*Path]bool{}
	for {
		bi, bj, best := -1, -1, -1
		for i := range out {
			for j := i + 1; j < len(out); j++ {
				if bad[[2]*Path{out[i], out[j]}] {
					continue
				}
				if k := commonPrefix(out[i].st.br, out[j].st.br); k > best {
					bi, bj, best = i, j, k
				}
			}
		}
		if bi < 0 {
			break
		}
		q, p := out[bi], out[bj]
		done := x.tryMerge(func() {
			st, c := x.mergeStates(q.st, p.st)
			n := &Path{st: st, regs: map[ssa.Value]Value{}, blk: q.blk, prev: nil, loops: q.loops, names: map[string]ssa.Value{}, addr: map[string]bool{}, defers: q.defers, dargs: q.dargs}
			for r, v := range q.regs {
				pv, ok := p.regs[r]
				if !ok {
					continue
				}
				if sameV(v, pv) {
					n.regs[r] = v
					continue
				}
				if !x.liveAt(a, r, q.blk) {
					continue
				}
				n.regs[r] = x.iteMem(st, q.st, p.st, c, v, pv, r.Type())
			}
			for k, v := range q.names {
				if p.names[k] == v {
					n.names[k] = v
					n.addr[k] = q.addr[k]
				}
			}
			out[bi] = n
			forked[n] = true
		})
		if !done {
			bad[[2]*Path{q, p}] = true
			continue
		}
		out = append(out[:bj], out[bj+1:]...)
	}
	for i, q := range out {
		if !forked[q] {
			q = q.fork()
			q.prev = nil
			out[i] = q
		}
	}
	return out
}

// liveAt tells whether a register may still be used at or after a block.
func (x *Exec) liveAt(a *Act, r ssa.Value, b *ssa.BasicBlock) bool {
	in, ok := r.(ssa.Instruction)
	if !ok {
		return true
	}
	if in.Block() == b {
		return true
	}
	return in.Block().Dominates(b)
}
