package main

// Loop cutting: modified leaves, invariant candidates, measures.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cand is a candidate invariant of a loop.
type Cand struct {
	li      *LoopInst
	label   string
	weak    bool // guessed
	head    *Term
	eval    func(p *Path) *Term
	dropped bool
	why     string
	obls    []*Obl
}

// Measure is a candidate termination measure.
type Measure struct {
	label string
	head  *Term
	eval  func(p *Path) *Term
	obls  []*Obl
}

type LoopInst struct {
	id       int
	marker   *Term
	fn       *ssa.Function
	pos      string
	header   *ssa.BasicBlock
	cands    []*Cand
	measures []*Measure
	backs    int
	frames   []*Path
	pre      map[string]Value
	preT     map[string]types.Type
	silent   bool
	leaves   []*Leaf
	root     string
	ownIter  ssa.Value
	key      string
}

// key names a candidate independently of positions and SSA numbering.
func (c *Cand) key() string { return regNums.ReplaceAllString(c.label, "t_") }

var regNums = regexp.MustCompile(`\bt[0-9]+\b`)

// Leaf is a part of the state that a loop modifies.
type Leaf struct {
	phi  *ssa.Phi
	cell *Cell
	path []int
	typ  types.Type
	iter bool
	ptr  *PtrV // a pointer to immutable memory
}

func (l *Leaf) key() string {
	if l.phi != nil {
		return "phi " + l.phi.Name()
	}
	return fmt.Sprint(l.cell.id, l.path)
}

func getLeaf(v Value, path []int) Value {
	for _, i := range path {
		v = v.(*StructV).f[i]
	}
	return v
}

func setLeaf(v Value, path []int, n Value) Value {
	if len(path) == 0 {
		return n
	}
	s := v.(*StructV)
	c := &StructV{t: s.t, f: append([]Value{}, s.f...)}
	c.f[path[0]] = setLeaf(s.f[path[0]], path[1:], n)
	return c
}

// havocV is an arbitrary value of the shape of v.
func (x *Exec) havocV(st *State, v Value, t types.Type, name string) Value {
	if t != nil {
		if _, ok := t.Underlying().(*types.Slice); ok {
			s := x.w.sortOf(t)
			var fam *int
			if sv, ok := v.(*SliceV); ok {
				fam = sv.cell.fam
			}
			return x.newSlice(st, t, x.fresh(name, s), fam)
		}
	}
	switch v := v.(type) {
	case *Term:
		n := x.fresh(name, v.sort)
		if t != nil {
			typeFact(n, x.w.rangeFacts(t, n))
		}
		return n
	case *StructV:
		n := &StructV{t: v.t}
		var fts []types.Type
		if v.t != nil {
			fts = fieldTypes(v.t)
		}
		for i, f := range v.f {
			var ft types.Type
			if fts != nil {
				ft = fts[i]
			}
			n.f = append(n.f, x.havocV(st, f, ft, name))
		}
		return n
	case *PtrV:
		// checked by checkPtr
		return &PtrV{cell: v.cell, path: v.path, nilc: x.fresh(name+".nil", BoolS), elem: v.elem}
	case *FuncV, *IfaceV:
		if t != nil {
			s := x.w.sortOf(t)
			return x.fromTerm(x.fresh(name, s), t, nil)
		}
	}
	fail("a loop modifies a value that cannot be generalised (%s: %T)", name, v)
	return nil
}

func (l *Leaf) name() string {
	if l.phi != nil {
		if l.phi.Comment != "" {
			return l.phi.Comment
		}
		return l.phi.Name()
	}
	return l.cell.name
}

// havoc generalises the modified parts of the state at a loop head.
func (x *Exec) havoc(p *Path, ls []*Leaf) {
	for _, l := range ls {
		if l.phi != nil && l.ptr != nil {
			pv := &PtrV{nilc: x.fresh(l.name()+".nil", BoolS), elem: l.ptr.elem}
			pv.cell = x.newCell(l.name(), l.ptr.elem)
			pv.cell.fixed = x.fresh(l.name(), x.w.sortOf(l.ptr.elem))
			p.regs[l.phi] = pv
			continue
		}
		if l.phi != nil {
			p.regs[l.phi] = x.havocV(p.st, p.regs[l.phi], l.phi.Type(), l.name())
			continue
		}
		cur := p.st.mem[l.cell]
		if l.iter {
			sv := cur.(*StructV)
			s := sv.f[0].(*Term)
			pos := x.fresh("pos", IntS)
			x.fact(p.st, And(mk(OLe, BoolS, "", Int(0), pos), Le(pos, Len(s))))
			p.st.mem[l.cell] = &StructV{t: sv.t, f: []Value{s, Suffix(s, pos), pos}}
			continue
		}
		v := getLeaf(cur, l.path)
		if t, ok := v.(*Term); ok && l.cell.fam != nil && len(l.path) == 0 {
			// the elements of a slice; its length is fixed
			n := x.fresh(l.name(), t.sort)
			p.st.mem[l.cell] = n
			if l.cell.param {
				p.st.touch[l.cell] = true
			}
			x.fact(p.st, Eq(Len(n), Len(t)))
			continue
		}
		p.st.mem[l.cell] = setLeaf(cur, l.path, x.havocV(p.st, v, l.typ, l.name()))
		if l.cell.param {
			p.st.touch[l.cell] = true
		}
	}
}

// diffV lists the leaves in which two values differ.
func diffV(a, b Value, t types.Type, path []int, out *[]*Leaf, c *Cell) {
	if sameV(a, b) {
		return
	}
	sa, oka := a.(*StructV)
	sb, okb := b.(*StructV)
	if oka && okb && len(sa.f) == len(sb.f) {
		if sa.t == nil && len(path) == 0 && strings.HasPrefix(c.name, "iter") {
			*out = append(*out, &Leaf{cell: c, iter: true})
			return
		}
		var fts []types.Type
		if sa.t != nil {
			fts = fieldTypes(sa.t)
		}
		for i := range sa.f {
			var ft types.Type
			if fts != nil {
				ft = fts[i]
			}
			diffV(sa.f[i], sb.f[i], ft, append(append([]int{}, path...), i), out, c)
		}
		return
	}
	*out = append(*out, &Leaf{cell: c, path: path, typ: t})
}

// checkPtr tells that a pointer which is generalised keeps its target, or points
// to immutable memory.
func (x *Exec) checkPtr(l *Leaf, head, back *Path) {
	var h, b Value
	if l.phi != nil {
		h, b = head.regs[l.phi], back.regs[l.phi]
	} else if !l.iter {
		h, b = head.st.mem[l.cell], back.st.mem[l.cell]
		if h == nil || b == nil {
			return
		}
		h, b = getLeaf(h, l.path), getLeaf(b, l.path)
	}
	hp, ok := h.(*PtrV)
	if !ok {
		return
	}
	bp, ok := b.(*PtrV)
	if ok && bp.nilc == True {
		return
	}
	if ok && l.ptr != nil {
		// immutable memory
		ok = bp.cell.fixed != nil
	} else {
		ok = ok && bp.cell == hp.cell && samePath(bp.path, hp.path)
	}
	if !ok {
		fail("a loop moves a pointer (%s)", l.name())
	}
}

// modified finds what one iteration may change, by silent executions of the
// body until nothing more is found.
func (x *Exec) modified(a *Act, p *Path) []*Leaf {
	h := p.blk
	var ls []*Leaf
	have := map[string]bool{}
	phiVar := map[*ssa.Phi]bool{}
	for round := 0; ; round++ {
		if round > 12 {
			fail("modified set of a loop does not stabilise")
		}
		q := p.fork()
		nf := len(x.facts)
		x.havoc(q, ls)
		head := q.fork()
		sub := &Act{fn: a.fn, order: a.order, headers: a.headers, stop: h, region: a.headers[h], entry: a.entry}
		x.silent++
		q.skip = true
		func() {
			defer func() { x.silent-- }()
			x.runPath(sub, q)
			x.runAct(sub)
		}()
		x.facts = x.facts[:nf]
		var found []*Leaf
		for _, b := range sub.backs {
			for c, v := range head.st.mem {
				bv, ok := b.st.mem[c]
				if !ok {
					continue
				}
				diffV(v, bv, c.typ, nil, &found, c)
			}
			for c, f := range b.st.fwd {
				if _, ok := head.st.fwd[c]; !ok {
					if _, ok := head.st.mem[c]; ok {
						fail("a loop stores a pointer to outer memory (%s)", c.name)
					}
					_ = f
				}
			}
			for c := range b.st.poison {
				if _, ok := head.st.mem[c]; ok && !head.st.poison[c] {
					p.st.poison[c] = true
				}
			}
			for _, in := range h.Instrs {
				f, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				if !phiVar[f] && !sameV(head.regs[f], b.regs[f]) {
					phiVar[f] = true
					lf := &Leaf{phi: f, typ: f.Type()}
					if hp, ok := head.regs[f].(*PtrV); ok {
						if bp, ok := b.regs[f].(*PtrV); ok && (hp.nilc == True || hp.cell.fixed != nil) && bp.nilc != True && bp.cell.fixed != nil {
							lf.ptr = bp
						}
					}
					found = append(found, lf)
				}
			}
			// globals first touched in the body
			for c, v := range b.st.mem {
				if g := x.globalOf[c]; g != nil {
					if _, ok := head.st.mem[c]; !ok {
						x.globalInit(p.st, c)
						diffV(p.st.mem[c], v, c.typ, nil, &found, c)
					}
				}
			}
		}
		sort.Slice(found, func(i, j int) bool { return found[i].key() < found[j].key() })
		n := 0
		for _, l := range found {
			k := l.key()
			// a parent or the same leaf may be known already
			if have[k] {
				continue
			}
			have[k] = true
			ls = append(ls, l)
			n++
		}
		if n == 0 {
			for _, b := range sub.backs {
				for _, l := range ls {
					x.checkPtr(l, head, b)
				}
			}
			// deterministic order; drop children of a listed parent
			var out []*Leaf
			for _, l := range ls {
				sub := false
				for _, m := range ls {
					if m != l && m.phi == nil && l.phi == nil && m.cell == l.cell && len(m.path) < len(l.path) && prefixInts(m.path, l.path) {
						sub = true
					}
				}
				if !sub {
					out = append(out, l)
				}
			}
			return out
		}
	}
}

func prefixInts(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------------------

func (x *Exec) enterLoop(a *Act, p *Path) bool {
	h := p.blk
	if x.spec {
		fail("loop in a spec function (%s)", a.fn)
	}
	li := &LoopInst{id: len(x.loops), fn: a.fn, header: h, pos: x.posOf(loopPos(h)), pre: map[string]Value{}, preT: map[string]types.Type{}, silent: x.silent > 0, root: x.root.String()}
	// Every value kept across the loop must not share writable backing with one written in it.
	ls := x.modified(a, p)
	li.leaves = ls
	if x.silent > 0 {
		x.havoc(p, ls)
		p.loops[h] = li
		return true
	}
	li.key = fmt.Sprintf("%s|%s|%d", x.root, a.fn, len(x.loops))
	x.loops = append(x.loops, li)
	li.marker = Const(fmt.Sprintf("inv!%s!%d", mangle(x.root.String()), li.id), BoolS)
	entry := p.fork()
	for nm, rc := range x.visible(a, p, li) {
		if v, t, ok := x.recipeVal(rc, entry, li); ok {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
					}
				}()
				li.pre[nm] = x.snap(entry.st, v)
				li.preT[nm] = t
			}()
		}
	}
	x.havoc(p, ls)
	x.makeCands(a, p, li, entry)
	p.st.assume(li.marker)
	for _, c := range li.cands {
		x.inSpecObl(entry, c, true)
	}
	p.loops[h] = li
	return true
}

// inSpecObl records the obligation that a candidate holds at a path.
func (x *Exec) inSpecObl(p *Path, c *Cand, base bool) {
	g := c.eval(p)
	kind := "invariant preserved:"
	if base {
		kind = "invariant on entry:"
	}
	if g == nil {
		c.dropped = true
		c.why = "cannot be evaluated"
		return
	}
	o := &Obl{root: x.root.String(), kind: kind, label: c.label, pos: c.li.pos, pc: append([]*Term{}, p.st.pc...), goal: g, facts: append([]*Term{}, x.facts...), id: len(x.obls), loop: c.li, cand: c, base: base}
	if v, ok := p.st.known(g); ok && v {
		x.trivial++
		return
	}
	c.obls = append(c.obls, o)
	x.obls = append(x.obls, o)
}

func loopPos(h *ssa.BasicBlock) token.Pos {
	for _, b := range append([]*ssa.BasicBlock{h}, h.Succs...) {
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return token.NoPos
}

func (x *Exec) backEdge(a *Act, p *Path) {
	li := p.loops[p.blk]
	if li.silent || x.silent > 0 {
		return
	}
	li.backs++
	for _, c := range li.cands {
		x.inSpecObl(p, c, false)
	}
	for _, m := range li.measures {
		g := m.eval(p)
		if g == nil {
			continue
		}
		goal := And(Lt(g, m.head), Le(Int(0), m.head))
		o := &Obl{root: x.root.String(), kind: "loop terminates:", label: m.label, pos: li.pos, pc: append([]*Term{}, p.st.pc...), goal: goal, facts: append([]*Term{}, x.facts...), id: len(x.obls), loop: li}
		m.obls = append(m.obls, o)
	}
	if len(li.measures) == 0 {
		x.obls = append(x.obls, &Obl{root: x.root.String(), kind: "loop terminates:", label: "no measure is known", pos: li.pos, pc: append([]*Term{}, p.st.pc...), goal: False, id: len(x.obls)})
	}
}

// ------------------------------------------------------------------------------
// Names and recipes

type recipeKind int

const (
	rcReg recipeKind = iota
	rcConst
	rcRest
	rcRestIdx
	rcDoneIdx
	rcDone
)

// Recipe tells how to find a value at a path through a loop.
type Recipe struct {
	k     recipeKind
	v     ssa.Value
	addr  bool
	frame int // 0 = own, i = x.outer[len-i]
	val   Value
	typ   types.Type
	a, b  *Recipe
	off   int64
	fld   []int
}

func (x *Exec) regsOf(rc *Recipe, p *Path, li *LoopInst) map[ssa.Value]Value {
	if rc.frame == 0 {
		return p.regs
	}
	return li.frames[len(li.frames)-rc.frame].regs
}

func (x *Exec) recipeVal(rc *Recipe, p *Path, li *LoopInst) (v Value, t types.Type, ok bool) {
	switch rc.k {
	case rcConst:
		return rc.val, rc.typ, true
	case rcReg:
		switch c := rc.v.(type) {
		case *ssa.Const:
			if c.Value == nil {
				return x.zero(c.Type()), c.Type(), true
			}
			return x.constVal(c), c.Type(), true
		case *ssa.Global:
			v = x.globalPtr(c)
		case *ssa.Function, *ssa.Builtin:
			return nil, nil, false
		default:
			v, ok = x.regsOf(rc, p, li)[rc.v]
			if !ok {
				return nil, nil, false
			}
		}
		t = rc.v.Type()
		if rc.addr {
			pv, ok := v.(*PtrV)
			if !ok || pv.nilc != False {
				return nil, nil, false
			}
			if pv.cell.fixed == nil && p.st.mem[pv.cell] == nil && x.globalOf[pv.cell] == nil {
				return nil, nil, false
			}
			return x.load(p.st, pv), pv.elem, true
		}
		return v, t, true
	case rcRest, rcDone:
		it, ok := x.regsOf(rc, p, li)[rc.v].(*IterV)
		if !ok {
			return nil, nil, false
		}
		sv, ok := p.st.mem[it.cell].(*StructV)
		if !ok {
			return nil, nil, false
		}
		if rc.k == rcDone {
			return Extract(sv.f[0].(*Term), Int(0), sv.f[2].(*Term)), rc.typ, true
		}
		return sv.f[1], rc.typ, true
	case rcRestIdx, rcDoneIdx:
		s, st, ok1 := x.recipeVal(rc.a, p, li)
		i, _, ok2 := x.recipeVal(rc.b, p, li)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		c := x.content(p.st, s)
		it, ok := i.(*Term)
		if !ok {
			return nil, nil, false
		}
		k := Add(it, Int(rc.off))
		if rc.k == rcDoneIdx {
			return Extract(c, Int(0), k), st, true
		}
		return Suffix(c, k), st, true
	}
	return nil, nil, false
}

// visible gives recipes for all named values at a loop head.
func (x *Exec) visible(a *Act, p *Path, li *LoopInst) map[string]*Recipe {
	out := map[string]*Recipe{}
	li.frames = append([]*Path{}, x.outer...)
	add := func(q *Path, frame int) {
		for nm, v := range q.names {
			if out[nm] != nil {
				continue
			}
			switch v.(type) {
			case *ssa.Const, *ssa.Global:
			default:
				if _, ok := q.regs[v]; !ok {
					continue
				}
			}
			if frame == 0 && !availAt(v, p.blk) {
				continue
			}
			out[nm] = &Recipe{k: rcReg, v: v, addr: q.addr[nm], frame: frame}
		}
	}
	// phis of the header take precedence
	for _, in := range p.blk.Instrs {
		f, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		nm := f.Comment
		if nm == "" {
			nm = f.Name()
		}
		out[nm] = &Recipe{k: rcReg, v: f}
	}
	add(p, 0)
	// allocations that are not named by a reference yet
	for _, b := range a.fn.Blocks {
		for _, in := range b.Instrs {
			if al, ok := in.(*ssa.Alloc); ok && al.Comment != "" && out[al.Comment] == nil {
				if _, ok := p.regs[al]; ok && availAt(al, p.blk) {
					out[al.Comment] = &Recipe{k: rcReg, v: al, addr: true}
				}
			}
		}
	}
	for i := 1; i <= len(li.frames); i++ {
		add(li.frames[len(li.frames)-i], i)
	}
	return out
}

func availAt(v ssa.Value, b *ssa.BasicBlock) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	if in.Block() == b {
		_, ok := in.(*ssa.Phi)
		return ok
	}
	return in.Block().Dominates(b)
}

// adapt converts a found value to a wanted parameter type.
func (x *Exec) adapt(st *State, v Value, t, want types.Type) (r Value, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupported); is {
				r, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	if t == nil {
		if tm, is := v.(*Term); is && tm.sort == x.w.sortOf(want) {
			return v, true
		}
		return nil, false
	}
	if types.Identical(t, want) {
		return v, true
	}
	if pt, is := t.Underlying().(*types.Pointer); is && !types.Identical(t, want) {
		et := pt.Elem()
		if sameShape(et, want) {
			switch pv := v.(type) {
			case *PtrV:
				if pv.nilc == True {
					return nil, false
				}
				return x.rename(x.load(st, pv), et, want), true
			case *Term:
				return x.rename(x.load(st, &PtrV{cell: x.refCell(pv, et), nilc: False, elem: et}), et, want), true
			}
		}
		return nil, false
	}
	if sameShape(t, want) {
		return x.rename(v, t, want), true
	}
	if wi, is := want.Underlying().(*types.Interface); is && types.Implements(t, wi) {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return x.changeIface(st, v, t, want), true
		}
		return x.makeIface(st, v, t, want), true
	}
	return nil, false
}

func sameShape(a, b types.Type) bool {
	if types.Identical(a, b) {
		return true
	}
	if isBuffer(a) {
		bb, ok := b.Underlying().(*types.Basic)
		return ok && bb.Kind() == types.String
	}
	if isBuffer(b) || isReader(a) || isReader(b) {
		return false
	}
	if _, ok := a.Underlying().(*types.Interface); ok {
		return false
	}
	return types.Identical(a.Underlying(), b.Underlying())
}

func (x *Exec) rename(v Value, from, to types.Type) Value {
	if types.Identical(from, to) {
		return v
	}
	return x.changeType(v, to)
}

// ------------------------------------------------------------------------------
// Candidates

func (x *Exec) templates(a *Act) []*Clause {
	var out []*Clause
	for _, cl := range x.w.invs {
		for i := len(x.stack) - 1; i >= 0; i-- {
			f := x.stack[i]
			match := false
			for g := f; g != nil; g = g.Parent() {
				if x.w.targets(cl, g) {
					match = true
				}
			}
			if match {
				out = append(out, cl)
				break
			}
		}
	}
	return out
}

// targets tells whether a clause targets a function.
func (w *World) targets(cl *Clause, fn *ssa.Function) bool {
	return w.lookup(cl.pkg, cl.target) == fn
}

func (x *Exec) makeCands(a *Act, p *Path, li *LoopInst, entry *Path) {
	vis := x.visible(a, p, li)
	own := x.ownRests(a, p, li)
	for _, cl := range x.templates(a) {
		if cl.kind == "measure" {
			continue
		}
		for _, bd := range x.bindings(p, li, cl, vis, own) {
			x.addCand(p, li, cl, bd, entry)
		}
	}
	// readers only advance
	for _, l := range li.leaves {
		if l.cell == nil || len(l.path) > 0 {
			continue
		}
		e, ok := entry.st.mem[l.cell].(*Term)
		if !ok || e.sort != readerSort {
			continue
		}
		ct := readerSort.ctors[0]
		l := l
		x.autoCand(p, li, "the reader advances", func(q *Path) *Term {
			t, ok := q.st.mem[l.cell].(*Term)
			if !ok {
				return nil
			}
			return And(Le(Len(Sel(ct, 0, t)), Len(Sel(ct, 0, e))), Eq(Sel(ct, 3, t), Sel(ct, 3, e)))
		})
	}
	// automatic bounds of counters
	for _, in := range p.blk.Instrs {
		f, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if b, ok := f.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		e, ok1 := entry.regs[f].(*Term)
		if !ok1 || e == p.regs[f] {
			continue
		}
		f2 := f
		x.autoCand(p, li, "start <= "+f.Comment, func(q *Path) *Term { return Le(e, q.regs[f2].(*Term)) })
		x.autoCand(p, li, f.Comment+" <= start", func(q *Path) *Term { return Le(q.regs[f2].(*Term), e) })
	}
	if i, n, _, ok := x.headerCond(p); ok {
		ev := func(q *Path, s ssa.Value) *Term {
			t, ok := x.evalPure(q, s)
			if !ok {
				return nil
			}
			return t
		}
		x.autoCand(p, li, "index <= bound", func(q *Path) *Term {
			a, b := ev(q, i), ev(q, n)
			if a == nil || b == nil {
				return nil
			}
			return Le(a, b)
		})
		x.addMeasure(p, li, "bound - index", func(q *Path) *Term {
			a, b := ev(q, i), ev(q, n)
			if a == nil || b == nil {
				return nil
			}
			return Sub(b, a)
		})
	}
	// iterators advanced by the loop itself
	for _, in := range p.blk.Instrs {
		nx, ok := in.(*ssa.Next)
		if !ok {
			continue
		}
		it := nx.Iter
		x.addMeasure(p, li, "range", func(q *Path) *Term {
			iv, ok := q.regs[it].(*IterV)
			if !ok {
				return nil
			}
			sv := q.st.mem[iv.cell].(*StructV)
			return Sub(Len(sv.f[0].(*Term)), sv.f[2].(*Term))
		})
	}
	for _, cl := range x.templates(a) {
		if cl.kind != "measure" {
			continue
		}
		for _, bd := range x.bindings(p, li, cl, vis, own) {
			cl, bd := cl, bd
			ev := func(q *Path) *Term { return x.evalClause(q, li, cl, bd) }
			x.addMeasure(p, li, cl.label+cl.fn.Name()+bd.desc, ev)
		}
	}
}

func (x *Exec) autoCand(p *Path, li *LoopInst, label string, ev func(*Path) *Term) {
	h := ev(p)
	if h == nil || h == True {
		return
	}
	li.cands = append(li.cands, &Cand{li: li, label: label, weak: true, head: h, eval: ev})
}

func (x *Exec) addMeasure(p *Path, li *LoopInst, label string, ev func(*Path) *Term) {
	h := ev(p)
	if h == nil {
		return
	}
	li.measures = append(li.measures, &Measure{label: label, head: h, eval: ev})
}

func (x *Exec) addCand(p *Path, li *LoopInst, cl *Clause, bd *binding, entry *Path) {
	ev := func(q *Path) *Term { return x.evalClause(q, li, cl, bd) }
	h := ev(p)
	if h == nil || h == True {
		return
	}
	if bd.weak && ev(entry) == h {
		// nothing in it changes in this loop
		return
	}
	for _, c := range li.cands {
		if c.head == h && !c.weak {
			return
		}
	}
	li.cands = append(li.cands, &Cand{li: li, label: cl.fn.Name() + bd.desc, weak: bd.weak, head: h, eval: ev})
}

func (x *Exec) evalClause(q *Path, li *LoopInst, cl *Clause, bd *binding) (r *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupported); is {
				r = nil
				return
			}
			panic(e)
		}
	}()
	var args []Value
	for i, rc := range bd.rs {
		v, t, ok := x.recipeVal(rc, q, li)
		if !ok {
			return nil
		}
		v, ok = x.adapt(q.st, v, t, cl.fn.Params[i].Type())
		if !ok {
			return nil
		}
		args = append(args, v)
	}
	return x.evalSpec(q.st, cl.fn, args).(*Term)
}

type binding struct {
	rs   []*Recipe
	desc string
	weak bool
}

// ownRests lists the recipes of the remaining parts of ranges.
func (x *Exec) ownRests(a *Act, p *Path, li *LoopInst) []*Recipe {
	var out []*Recipe
	for _, in := range p.blk.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			var t types.Type
			if nx.IsString {
				t = types.Typ[types.String]
			} else {
				mt := nx.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
				_, et := x.entrySort(mt)
				t = types.NewSlice(et)
			}
			out = append(out, &Recipe{k: rcRest, v: nx.Iter, typ: t})
		}
	}
	if i, n, _, ok := x.headerCond(p); ok {
		if s := lenOf(n); s != nil {
			if iv, off, ok := phiPlus(i); ok {
				out = append(out, &Recipe{k: rcRestIdx, a: &Recipe{k: rcReg, v: s}, b: &Recipe{k: rcReg, v: iv}, off: off})
			}
		}
	}
	return out
}

// lenOf is the s of len(s).
func lenOf(v ssa.Value) ssa.Value {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		switch c.Call.Args[0].Type().Underlying().(type) {
		case *types.Slice, *types.Basic:
			return c.Call.Args[0]
		}
	}
	return nil
}

func phiPlus(v ssa.Value) (ssa.Value, int64, bool) {
	if f, ok := v.(*ssa.Phi); ok {
		return f, 0, true
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		if c, ok := b.Y.(*ssa.Const); ok {
			if f, ok := b.X.(*ssa.Phi); ok {
				return f, c.Int64(), true
			}
		}
	}
	return nil, 0, false
}

// headerCond recognises "i < n" at the end of a loop header. It returns the
// growing side and the bound.
func (x *Exec) headerCond(p *Path) (i, n ssa.Value, strict, ok bool) {
	h := p.blk
	last, isIf := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !isIf {
		return nil, nil, false, false
	}
	b, isBin := last.Cond.(*ssa.BinOp)
	if !isBin {
		return nil, nil, false, false
	}
	if bt, ok := b.X.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
		return nil, nil, false, false
	}
	switch b.Op {
	case token.LSS:
		i, n, strict = b.X, b.Y, true
	case token.GTR:
		i, n, strict = b.Y, b.X, true
	case token.LEQ, token.NEQ:
		i, n = b.X, b.Y
	case token.GEQ:
		i, n = b.Y, b.X
	default:
		return nil, nil, false, false
	}
	_, ok1 := x.evalPure(p, i)
	_, ok2 := x.evalPure(p, n)
	return i, n, strict, ok1 && ok2
}

// evalPure evaluates a simple expression at a loop head.
func (x *Exec) evalPure(p *Path, v ssa.Value) (*Term, bool) {
	switch c := v.(type) {
	case *ssa.Const:
		t, ok := x.constVal(c).(*Term)
		return t, ok
	case *ssa.Phi:
		if availAt(v, p.blk) {
			t, ok := p.regs[v].(*Term)
			return t, ok
		}
		return nil, false
	case *ssa.BinOp:
		if c.Block() == p.blk {
			a, ok1 := x.evalPure(p, c.X)
			b, ok2 := x.evalPure(p, c.Y)
			if !ok1 || !ok2 || a.sort != IntS || b.sort != IntS {
				return nil, false
			}
			switch c.Op {
			case token.ADD:
				return Add(a, b), true
			case token.SUB:
				return Sub(a, b), true
			}
			return nil, false
		}
	case *ssa.Call:
		if c.Block() == p.blk {
			if s := lenOf(c); s != nil {
				sv, ok := p.regs[s]
				if u, isLoad := s.(*ssa.UnOp); isLoad && u.Block() == p.blk {
					sv, ok = x.loadPure(p, u)
				} else if !availAt(s, p.blk) {
					return nil, false
				}
				if cst, isC := s.(*ssa.Const); isC {
					sv, ok = x.constVal(cst), true
				}
				if !ok {
					return nil, false
				}
				switch sv.(type) {
				case *Term, *SliceV:
					return Len(x.content(p.st, sv)), true
				}
			}
			return nil, false
		}
	case *ssa.UnOp:
		if c.Block() == p.blk {
			v, ok := x.loadPure(p, c)
			if !ok {
				return nil, false
			}
			t, ok := v.(*Term)
			return t, ok
		}
	}
	if !availAt(v, p.blk) {
		return nil, false
	}
	t, ok := p.regs[v].(*Term)
	return t, ok
}

// loadPure evaluates a load in the header.
func (x *Exec) loadPure(p *Path, u *ssa.UnOp) (v Value, ok bool) {
	if u.Op != token.MUL {
		return nil, false
	}
	pv, ok := x.addrPure(p, u.X)
	if !ok || pv.nilc != False {
		return nil, false
	}
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsupported); is {
				v, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	return x.load(p.st, pv), true
}

func (x *Exec) addrPure(p *Path, v ssa.Value) (*PtrV, bool) {
	if g, ok := v.(*ssa.Global); ok {
		return x.globalPtr(g), true
	}
	if fa, ok := v.(*ssa.FieldAddr); ok && fa.Block() == p.blk {
		b, ok := x.addrPure(p, fa.X)
		if !ok {
			return nil, false
		}
		return extend(b, step{k: stField, field: fa.Field, typ: fa.Type().(*types.Pointer).Elem()}), true
	}
	if !availAt(v, p.blk) {
		return nil, false
	}
	pv, ok := p.regs[v].(*PtrV)
	if !ok || pv.nilc != False {
		return nil, false
	}
	return pv, true
}

const maxBindings = 64

// bindings finds values for the parameters of an invariant template: by name,
// else by type.
func (x *Exec) bindings(p *Path, li *LoopInst, cl *Clause, vis map[string]*Recipe, own []*Recipe) []*binding {
	var opts [][]*Recipe
	var byName []bool
	weak := false
	for _, pr := range cl.fn.Params {
		nm := pr.Name()
		rc := x.byNameRecipe(nm, p, li, vis)
		if rc != nil {
			if v, t, ok := x.recipeVal(rc, p, li); ok {
				if _, ok := x.adapt(p.st, v, t, pr.Type()); ok {
					opts = append(opts, []*Recipe{rc})
					byName = append(byName, true)
					continue
				}
			}
		}
		var os []*Recipe
		if nm == "rest" || nm == "done" {
			for _, o := range own {
				if nm == "done" {
					o2 := *o
					switch o.k {
					case rcRest:
						o2.k = rcDone
					case rcRestIdx:
						o2.k = rcDoneIdx
					}
					o = &o2
				}
				if v, t, ok := x.recipeVal(o, p, li); ok {
					if _, ok := x.adapt(p.st, v, t, pr.Type()); ok {
						os = append(os, o)
					}
				}
			}
			if len(os) > 0 {
				opts = append(opts, os[:1])
				byName = append(byName, true)
				continue
			}
		}
		if strings.HasPrefix(nm, "old_") || strings.HasPrefix(nm, "pre_") {
			return nil
		}
		// by type
		weak = true
		var names []string
		for n := range vis {
			names = append(names, n)
		}
		sort.Strings(names)
		seen := map[interface{}]bool{}
		for _, n := range names {
			rc := vis[n]
			v, t, ok := x.recipeVal(rc, p, li)
			if !ok {
				continue
			}
			if pt, isP := t.Underlying().(*types.Pointer); isP && x.w.inRepo(namedPkg(pt.Elem())) && !types.Identical(t, pr.Type()) && !types.Identical(pt.Elem(), pr.Type()) {
				// fields of a struct behind a pointer
				if su, isS := pt.Elem().Underlying().(*types.Struct); isS {
					_ = su
				}
			}
			if _, ok := x.adapt(p.st, v, t, pr.Type()); !ok {
				continue
			}
			if tm, ok := v.(*Term); ok {
				if seen[tm] {
					continue
				}
				seen[tm] = true
			}
			os = append(os, rc)
		}
		if nm == "rest" || nm == "done" {
			// suffixes by any index
			for _, n := range names {
				rs := vis[n]
				v, t, ok := x.recipeVal(rs, p, li)
				if !ok {
					continue
				}
				switch v.(type) {
				case *Term, *SliceV:
				default:
					continue
				}
				if _, ok := x.adapt(p.st, v, t, pr.Type()); !ok {
					continue
				}
				for _, m := range names {
					ri := vis[m]
					iv, it, ok := x.recipeVal(ri, p, li)
					if !ok {
						continue
					}
					tm, ok := iv.(*Term)
					if !ok || tm.sort != IntS || tm.op == OInt {
						continue
					}
					if b, ok := it.Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
						continue
					}
					k := rcRestIdx
					if nm == "done" {
						k = rcDoneIdx
					}
					os = append(os, &Recipe{k: k, a: rs, b: ri})
				}
			}
		}
		if len(os) == 0 {
			return nil
		}
		opts = append(opts, os)
		byName = append(byName, false)
	}
	// the product of the options
	total := 1
	for _, o := range opts {
		total *= len(o)
	}
	var out []*binding
	for k := 0; k < total && len(out) < maxBindings; k++ {
		bd := &binding{weak: weak}
		r := k
		used := map[*Recipe]bool{}
		dup := false
		for i, o := range opts {
			rc := o[r%len(o)]
			r /= len(o)
			if used[rc] {
				dup = true
			}
			used[rc] = true
			bd.rs = append(bd.rs, rc)
			if !byName[i] {
				bd.desc += " " + cl.fn.Params[i].Name() + "=" + rc.desc()
			}
		}
		if dup && weak {
			continue
		}
		out = append(out, bd)
	}
	return out
}

func namedPkg(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (rc *Recipe) desc() string {
	switch rc.k {
	case rcRestIdx:
		return rc.a.desc() + "[" + rc.b.desc() + ":]"
	case rcDoneIdx:
		return rc.a.desc() + "[:" + rc.b.desc() + "]"
	case rcReg:
		switch v := rc.v.(type) {
		case *ssa.Phi:
			return v.Comment
		case *ssa.Alloc:
			return v.Comment
		}
		return rc.v.Name()
	}
	return "_"
}

func (x *Exec) byNameRecipe(nm string, p *Path, li *LoopInst, vis map[string]*Recipe) *Recipe {
	switch {
	case nm == "rest" || nm == "done":
		return nil
	case strings.HasPrefix(nm, "old_"):
		if v, ok := x.rootArgs[nm]; ok {
			return &Recipe{k: rcConst, val: v, typ: x.rootTypes[nm]}
		}
		if a := x.curEntry(nm); a != nil {
			return a
		}
		return nil
	case strings.HasPrefix(nm, "pre_"):
		if v, ok := li.pre[nm[4:]]; ok {
			return &Recipe{k: rcConst, val: v, typ: li.preT[nm[4:]]}
		}
		return nil
	}
	if rc := vis[nm]; rc != nil {
		return rc
	}
	// a global of the package
	for i := len(x.stack) - 1; i >= 0; i-- {
		f := x.stack[i]
		if f.Pkg != nil {
			if g := x.w.globalNamed(f.Pkg, nm); g != nil {
				return &Recipe{k: rcReg, v: g, addr: true}
			}
		}
	}
	return nil
}

var _ = ast.Inspect

func (x *Exec) hasTemplates(fn *ssa.Function) bool {
	for _, cl := range x.w.invs {
		if x.w.targets(cl, fn) {
			return true
		}
	}
	return false
}

func (x *Exec) curEntry(nm string) *Recipe {
	for i := len(x.entries) - 1; i >= 0; i-- {
		if ev, ok := x.entries[i][nm]; ok {
			return &Recipe{k: rcConst, val: ev.v, typ: ev.t}
		}
	}
	return nil
}
