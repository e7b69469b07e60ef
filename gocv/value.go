package main

// Symbolic values and memory.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Value is one of *Term, *StructV, *PtrV, *SliceV, *MapV, *FuncV, *IfaceV,
// TupleV, *IterV.
type Value interface{}

// Cell is an allocated memory location.
type Cell struct {
	id     int
	name   string
	typ    types.Type
	fixed  Value // immutable content, not in the state
	fam    *int  // slices possibly sharing the backing array
	parent *Cell
	param  bool // memory of the caller
}

type stepKind int

const (
	stField stepKind = iota
	stIndex
	stUnbox
	stMapVal
	stCtor
)

type step struct {
	k     stepKind
	field int
	t     *Term
	ctor  *Ctor
	typ   types.Type // type after the step
}

// PtrV is a pointer to a location.
type PtrV struct {
	cell *Cell
	path []step
	nilc *Term
	elem types.Type
}

// StructV is a struct or an array.
type StructV struct {
	t types.Type
	f []Value
}

// SliceV is a slice of which the content is in a cell.
type SliceV struct {
	cell *Cell
	t    types.Type
}

// MapV is a map of which the content (an array) is at a location.
type MapV struct {
	p    *PtrV
	nilc *Term
	t    types.Type
}

// FuncV is a known function value.
type FuncV struct {
	fn   *ssa.Function
	bind []Value
	t    types.Type
}

// IfaceV is an interface value with a known dynamic type (dyn != nil), or a
// value of a closed interface at a location.
type IfaceV struct {
	t   types.Type
	dyn types.Type
	v   Value
	tm  *Term
	loc *PtrV
}

type TupleV []Value

// IterV is a range iterator. The state is in the cell.
type IterV struct {
	cell *Cell
	str  bool
	mt   *types.Map
}

// ------------------------------------------------------------------------------

func (w *World) rangeFacts(t types.Type, v *Term) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || v.sort != IntS || v.op == OInt {
		return True
	}
	lo, hi := intRange(b.Kind())
	if lo == nil {
		return True
	}
	return And(mk(OLe, BoolS, "", BigInt(lo), v), Le(v, BigInt(hi)))
}

func intRange(k types.BasicKind) (*big.Int, *big.Int) {
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	m1 := big.NewInt(-1)
	sg := func(n uint) (*big.Int, *big.Int) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Add(p(n-1), m1)
	}
	un := func(n uint) (*big.Int, *big.Int) { return big.NewInt(0), new(big.Int).Add(p(n), m1) }
	switch k {
	case types.Int8:
		return sg(8)
	case types.Int16:
		return sg(16)
	case types.Int32:
		return sg(32)
	case types.Int, types.Int64:
		return sg(64)
	case types.Uint8:
		return un(8)
	case types.Uint16:
		return un(16)
	case types.Uint32:
		return un(32)
	case types.Uint, types.Uint64, types.Uintptr:
		return un(64)
	}
	return nil, nil
}

// ------------------------------------------------------------------------------
// State

type State struct {
	pc     []*Term
	br     []*Term // the branch conditions among pc
	pcs    map[*Term]bool
	mem    map[*Cell]Value
	fwd    map[*Cell]*PtrV
	poison map[*Cell]bool
	touch  map[*Cell]bool // written param cells (for the frame)
}

func newState() *State {
	return &State{pcs: map[*Term]bool{}, mem: map[*Cell]Value{}, fwd: map[*Cell]*PtrV{}, poison: map[*Cell]bool{}, touch: map[*Cell]bool{}}
}

func (s *State) fork() *State {
	n := newState()
	n.pc = append([]*Term{}, s.pc...)
	n.br = append([]*Term{}, s.br...)
	for k, v := range s.pcs {
		n.pcs[k] = v
	}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.fwd {
		n.fwd[k] = v
	}
	for k, v := range s.poison {
		n.poison[k] = v
	}
	for k, v := range s.touch {
		n.touch[k] = v
	}
	return n
}

// assume adds a fact. It returns false when the path is infeasible.
func (s *State) assume(t *Term) bool {
	if t == True {
		return true
	}
	if t.op == OAnd {
		for _, a := range t.args {
			if !s.assume(a) {
				return false
			}
		}
		return true
	}
	if s.pcs[t] {
		return true
	}
	s.pc = append(s.pc, t)
	s.pcs[t] = true
	if t == False || s.pcs[Not(t)] {
		s.pcs[False] = true
		return false
	}
	return true
}

// branch assumes a condition on which paths were split.
func (s *State) branch(t *Term) bool {
	if t != True {
		s.br = append(s.br, t)
	}
	return s.assume(t)
}

func (s *State) dead() bool { return s.pcs[False] }

// known decides a condition syntactically.
func (s *State) known(t *Term) (bool, bool) {
	if t == True || s.pcs[t] {
		return true, true
	}
	if t == False || s.pcs[Not(t)] {
		return false, true
	}
	if t.op == OAnd {
		all := true
		for _, a := range t.args {
			v, ok := s.known(a)
			if ok && !v {
				return false, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	if t.op == OOr {
		all := true
		for _, a := range t.args {
			v, ok := s.known(a)
			if ok && v {
				return true, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

// ------------------------------------------------------------------------------

func (x *Exec) newCell(name string, t types.Type) *Cell {
	x.ncell++
	return &Cell{id: x.ncell, name: name, typ: t}
}

// freshN numbers the fresh constants of all functions.
var freshN int

// typeFacts are unconditionally valid statements about single terms.
var typeFacts = map[*Term][]*Term{}

func typeFact(t, f *Term) {
	if f == True {
		return
	}
	for _, g := range typeFacts[t] {
		if g == f {
			return
		}
	}
	typeFacts[t] = append(typeFacts[t], f)
}

func (x *Exec) fresh(name string, s *Sort) *Term {
	freshN++
	return Const(fmt.Sprintf("%s!%d", mangle(name), freshN), s)
}

func isStructLike(t types.Type) bool {
	t = types.Unalias(t)
	if isBuffer(t) || isReader(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// opaqueStruct tells whether a struct type has no known fields.
func (x *Exec) opaqueStruct(t types.Type) bool {
	return x.w.sortOf(t).kind == SUnint
}

// fields lists the component types of a struct or an array.
func fieldTypes(t types.Type) []types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []types.Type
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, u.Field(i).Type())
		}
		return out
	case *types.Array:
		var out []types.Type
		for i := 0; i < int(u.Len()); i++ {
			out = append(out, u.Elem())
		}
		return out
	}
	return nil
}

func (x *Exec) zero(t types.Type) Value {
	t = types.Unalias(t)
	if isBuffer(t) {
		return Str("")
	}
	if isReader(t) {
		return x.fresh("zeroreader", readerSort)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Kind() == types.UntypedNil:
			return Const("nil", UnintSort("Nil"))
		}
		return Const("zero_"+mangle(u.Name()), x.w.sortOf(t))
	case *types.Struct, *types.Array:
		if x.opaqueStruct(t) {
			return Const("zero_"+mangle(typeName(t)), x.w.sortOf(t))
		}
		sv := &StructV{t: t}
		for _, ft := range fieldTypes(t) {
			sv.f = append(sv.f, x.zero(ft))
		}
		return sv
	case *types.Pointer:
		if x.w.isRef(t) {
			return nilOf(x.w.sortOf(t))
		}
		c := x.nilCell(u.Elem())
		return &PtrV{cell: c, nilc: True, elem: u.Elem()}
	case *types.Slice:
		return Empty(x.w.sortOf(t))
	case *types.Map:
		s := x.w.sortOf(t)
		c := x.newCell("nilmap", t)
		c.fixed = ConstArr(s, None(s.elem.ctors[1].fields[0].sort))
		return &MapV{p: &PtrV{cell: c, nilc: False, elem: t}, nilc: True, t: t}
	case *types.Interface:
		s := x.w.sortOf(t)
		if s.kind == SData {
			return MkCtor(s.ctors[0])
		}
		return nilOf(s)
	case *types.Signature:
		return nilOf(x.w.sortOf(t))
	case *types.Tuple:
		return TupleV{}
	}
	fail("zero of %s", t)
	return nil
}

// nilCell is a placeholder for the target of a nil pointer.
func (x *Exec) nilCell(t types.Type) *Cell {
	c := x.newCell("nilcell", t)
	c.fixed = Value(Const("nil_deref_"+mangle(typeName(t)), UnintSort("Nil")))
	return c
}

// sym makes an arbitrary value of a type. Memory reachable from it is owned
// (writable) and distinct from any other.
func (x *Exec) sym(st *State, t types.Type, name string, nilable bool) Value {
	t = types.Unalias(t)
	if isBuffer(t) || isReader(t) {
		return x.fresh(name, x.w.sortOf(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct, *types.Array:
		if x.opaqueStruct(t) {
			return x.fresh(name, x.w.sortOf(t))
		}
		sv := &StructV{t: t}
		for i, ft := range fieldTypes(t) {
			fn := fmt.Sprint(i)
			if su, ok := u.(*types.Struct); ok {
				fn = su.Field(i).Name()
			}
			sv.f = append(sv.f, x.sym(st, ft, name+"."+fn, true))
		}
		return sv
	case *types.Pointer:
		if x.w.isRef(t) {
			r := x.fresh(name, x.w.sortOf(t))
			if !nilable {
				st.assume(Not(Eq(r, nilOf(r.sort))))
			}
			return r
		}
		c := x.newCell(name, u.Elem())
		c.param = true
		st.mem[c] = x.sym(st, u.Elem(), name, true)
		nc := False
		if nilable && !isReader(u.Elem()) {
			nc = x.fresh(name+".nil", BoolS)
		}
		return &PtrV{cell: c, nilc: nc, elem: u.Elem()}
	case *types.Map:
		c := x.newCell(name, t)
		c.param = true
		st.mem[c] = x.fresh(name, x.w.sortOf(t))
		nc := False
		if nilable {
			nc = x.fresh(name+".nil", BoolS)
			st.assume(Implies(nc, Eq(st.mem[c].(*Term), x.emptyMap(t))))
		}
		return &MapV{p: &PtrV{cell: c, nilc: False, elem: t}, nilc: nc, t: t}
	}
	v := x.fresh(name, x.w.sortOf(t))
	typeFact(v, x.w.rangeFacts(t, v))
	if isFn(t) && !nilable {
		st.assume(Not(Eq(v, nilOf(v.sort))))
	}
	return v
}

func isFn(t types.Type) bool { _, ok := t.Underlying().(*types.Signature); return ok }

func (x *Exec) emptyMap(t types.Type) *Term {
	s := x.w.sortOf(t)
	return ConstArr(s, None(s.elem.ctors[1].fields[0].sort))
}

// refCell is the immutable memory behind a reference.
func (x *Exec) refCell(r *Term, elem types.Type) *Cell {
	k := refKey{r, elem}
	if c := x.refs[k]; c != nil {
		return c
	}
	c := x.newCell("ref", elem)
	x.refs[k] = c
	if x.opaqueStruct(elem) {
		c.fixed = App("deref_"+mangle(typeName(elem)), x.w.sortOf(elem), r)
		return c
	}
	st, ok := elem.Underlying().(*types.Struct)
	if !ok {
		c.fixed = x.fromTerm(App("deref_"+mangle(typeName(elem)), x.w.sortOf(elem), r), elem, nil)
		return c
	}
	sv := &StructV{t: elem}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tm := App(x.fieldFn(elem, i), x.w.sortOf(f.Type()), r)
		sv.f = append(sv.f, x.fromTerm(tm, f.Type(), nil))
	}
	c.fixed = sv
	return c
}

func (x *Exec) fieldFn(elem types.Type, i int) string {
	st := elem.Underlying().(*types.Struct)
	nm := "fld_" + mangle(shortName(elem)) + "_" + mangle(st.Field(i).Name())
	if b, ok := st.Field(i).Type().Underlying().(*types.Basic); ok {
		if _, ok := axiomFns[nm]; !ok {
			ty := st.Field(i).Type()
			_ = b
			axiomFns[nm] = []func(*Term) []*Term{func(t *Term) []*Term { return []*Term{x.w.rangeFacts(ty, t)} }}
		}
	}
	return nm
}

type refKey struct {
	r *Term
	t types.Type
}

// fromTerm explodes a term into a value. loc is where it was loaded from.
func (x *Exec) fromTerm(t *Term, ty types.Type, loc *PtrV) Value {
	ty = types.Unalias(ty)
	switch u := ty.Underlying().(type) {
	case *types.Struct, *types.Array:
		if isBuffer(ty) || isReader(ty) || x.opaqueStruct(ty) {
			return t
		}
		c := x.w.sortOf(ty).ctors[0]
		sv := &StructV{t: ty}
		for i, ft := range fieldTypes(ty) {
			var l *PtrV
			if loc != nil {
				l = extend(loc, step{k: stField, field: i, typ: ft})
			}
			sv.f = append(sv.f, x.fromTerm(Sel(c, i, t), ft, l))
		}
		return sv
	case *types.Pointer:
		if x.w.isRef(ty) {
			return t
		}
		if loc != nil {
			p := extend(loc, step{k: stUnbox, typ: u.Elem()})
			p.nilc = IsNone(t)
			return p
		}
		c := x.newCell("box", u.Elem())
		c.fixed = x.fromTerm(Val(t), u.Elem(), nil)
		return &PtrV{cell: c, nilc: IsNone(t), elem: u.Elem()}
	case *types.Map:
		if loc != nil {
			return &MapV{p: loc, nilc: False, t: ty}
		}
		c := x.newCell("romap", ty)
		c.fixed = t
		return &MapV{p: &PtrV{cell: c, nilc: False, elem: ty}, nilc: False, t: ty}
	case *types.Interface:
		if loc != nil && x.w.sortOf(ty).kind == SData {
			return &IfaceV{t: ty, tm: t, loc: loc}
		}
	}
	return t
}

func extend(p *PtrV, s step) *PtrV {
	np := make([]step, len(p.path), len(p.path)+1)
	copy(np, p.path)
	return &PtrV{cell: p.cell, path: append(np, s), nilc: False, elem: s.typ}
}

// toTerm packs a value into a term. It may add facts to the state.
func (x *Exec) toTerm(st *State, v Value, ty types.Type) *Term {
	ty = types.Unalias(ty)
	switch v := v.(type) {
	case *Term:
		if ty != nil {
			if s := x.w.sortOf(ty); s != v.sort {
				fail("toTerm: %s of sort %s as %s", show(v), v.sort, ty)
			}
		}
		return v
	case *StructV:
		s := x.w.sortOf(v.t)
		var as []*Term
		for i, ft := range fieldTypes(v.t) {
			as = append(as, x.toTerm(st, v.f[i], ft))
		}
		if s.kind != SData {
			return App("mkopaque_"+s.name, s, as...)
		}
		return MkCtor(s.ctors[0], as...)
	case *SliceV:
		return x.content(st, v)
	case *MapV:
		return x.loadTerm(st, v.p)
	case *PtrV:
		if x.w.isRef(types.NewPointer(v.elem)) {
			return x.freeze(st, v)
		}
		s := x.w.sortOf(v.elem)
		if v.nilc == True {
			return None(s)
		}
		t := Some(x.toTerm(st, x.load(st, v), v.elem))
		return Ite(v.nilc, None(s), t)
	case *IfaceV:
		if v.tm != nil {
			if v.loc != nil {
				return x.loadTerm(st, v.loc)
			}
			return v.tm
		}
		return x.ifaceTerm(st, v)
	case *FuncV:
		s := x.w.sortOf(ty)
		var as []*Term
		for i, b := range v.bind {
			as = append(as, x.toTerm(st, b, v.fn.FreeVars[i].Type()))
		}
		t := App("fn_"+mangle(v.fn.String()), s, as...)
		x.fact(st, Not(Eq(t, nilOf(s))))
		x.fnOf[t] = v
		return t
	}
	fail("toTerm of %T as %v", v, ty)
	return nil
}

// ifaceTerm packs an interface value with a known dynamic type.
func (x *Exec) ifaceTerm(st *State, v *IfaceV) *Term {
	s := x.w.sortOf(v.t)
	if s.kind == SData {
		for i, it := range x.w.closedImpls(v.t) {
			if types.Identical(it, v.dyn) {
				var p *Term
				if pt, ok := it.(*types.Pointer); ok {
					pv := v.v.(*PtrV)
					p = x.toTerm(st, x.load(st, pv), pt.Elem())
				} else {
					p = x.toTerm(st, v.v, it)
				}
				return MkCtor(s.ctors[i+1], p)
			}
		}
		fail("type %s is not in closed interface %s", v.dyn, v.t)
	}
	pl := x.toTerm(st, v.v, v.dyn)
	t := App("iface_"+mangle(shortName(v.t))+"_"+mangle(typeName(v.dyn)), s, pl)
	x.fact(st, Not(Eq(t, nilOf(s))))
	x.dynOf[t] = v
	return t
}

func (x *Exec) freeze(st *State, p *PtrV) *Term {
	rs := UnintSort("Ref_" + mangle(typeName(p.elem)))
	if p.nilc == True {
		return nilOf(rs)
	}
	v := x.load(st, p)
	ct := x.toTerm(st, v, p.elem)
	r := Const(fmt.Sprintf("frozen!%s!%d!%d", mangle(shortName(p.elem)), p.cell.id, ct.id), rs)
	facts := []*Term{Not(Eq(r, nilOf(rs)))}
	if sv, ok := v.(*StructV); ok {
		for i, ft := range fieldTypes(p.elem) {
			facts = append(facts, Eq(App(x.fieldFn(p.elem, i), x.w.sortOf(ft), r), x.toTerm(st, sv.f[i], ft)))
		}
	} else {
		facts = append(facts, Eq(App("deref_"+mangle(typeName(p.elem)), ct.sort, r), ct))
	}
	f := And(facts...)
	x.fact(st, f)
	return Ite(p.nilc, nilOf(rs), r)
}

// content is the element sequence of a slice value.
func (x *Exec) content(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *SliceV:
		if st.poison[v.cell] {
			fail("read of a slice whose backing array was written through another slice")
		}
		return x.loadTerm(st, &PtrV{cell: v.cell, nilc: False, elem: v.t})
	}
	fail("content of %T", v)
	return nil
}

func (x *Exec) newSlice(st *State, t types.Type, content *Term, fam *int) *SliceV {
	c := x.newCell("slice", t)
	if fam == nil {
		fam = new(int)
	}
	c.fam = fam
	st.mem[c] = content
	return &SliceV{cell: c, t: t}
}

// ------------------------------------------------------------------------------
// Memory access

func (x *Exec) resolve(st *State, p *PtrV) *PtrV {
	for {
		f := st.fwd[p.cell]
		if f == nil {
			return p
		}
		np := &PtrV{cell: f.cell, path: append(append([]step{}, f.path...), p.path...), nilc: p.nilc, elem: p.elem}
		p = np
	}
}

func (x *Exec) cellVal(st *State, c *Cell) Value {
	if c.fixed != nil {
		return c.fixed
	}
	v, ok := st.mem[c]
	if !ok {
		if c.typ != nil && x.globalOf[c] != nil {
			return x.globalInit(st, c)
		}
		fail("unset cell %s", c.name)
	}
	return v
}

func (x *Exec) load(st *State, p *PtrV) Value {
	p = x.resolve(st, p)
	v := x.cellVal(st, p.cell)
	cur := &PtrV{cell: p.cell, nilc: False, elem: p.cell.typ}
	return x.nav(st, v, cur, p.path)
}

func (x *Exec) loadTerm(st *State, p *PtrV) *Term {
	v := x.load(st, p)
	switch v := v.(type) {
	case *Term:
		return v
	case *MapV:
		if x.resolve(st, v.p).cell == x.resolve(st, p).cell {
			return x.rawTerm(st, p)
		}
		return x.loadTerm(st, v.p)
	}
	return x.toTerm(st, v, p.elem)
}

// rawTerm loads without exploding.
func (x *Exec) rawTerm(st *State, p *PtrV) *Term {
	p = x.resolve(st, p)
	v := x.cellVal(st, p.cell)
	for _, s := range p.path {
		t, ok := v.(*Term)
		if !ok {
			sv := v.(*StructV)
			v = sv.f[s.field]
			continue
		}
		v = stepTerm(t, s)
	}
	return v.(*Term)
}

func stepTerm(t *Term, s step) *Term {
	switch s.k {
	case stField:
		if len(t.sort.ctors) == 0 {
			fail("field of a value of sort %s", t.sort)
		}
		return Sel(t.sort.ctors[0], s.field, t)
	case stIndex:
		if t.sort.kind == SData {
			c := t.sort.ctors[0]
			r := Sel(c, len(c.fields)-1, t)
			for i := len(c.fields) - 2; i >= 0; i-- {
				r = Ite(Eq(s.t, Int(int64(i))), Sel(c, i, t), r)
			}
			return r
		}
		return At(t, s.t)
	case stUnbox:
		return Val(t)
	case stMapVal:
		return Val(Select(t, s.t))
	case stCtor:
		return Sel(s.ctor, 0, t)
	}
	panic("stepTerm")
}

func (x *Exec) nav(st *State, v Value, loc *PtrV, path []step) Value {
	for i, s := range path {
		switch vv := v.(type) {
		case *Term:
			t := stepTerm(vv, s)
			loc = extend(loc, s)
			for _, s := range path[i+1:] {
				t = stepTerm(t, s)
				loc = extend(loc, s)
			}
			return x.fromTerm(t, loc.elem, loc)
		case *StructV:
			switch {
			case s.k == stField:
				v = vv.f[s.field]
			case s.k == stIndex && s.t.op == OInt:
				k := s.t.ival.Int64()
				if k < 0 || k >= int64(len(vv.f)) {
					fail("constant array index out of range")
				}
				v = vv.f[k]
			case s.k == stIndex:
				r := vv.f[len(vv.f)-1]
				for k := len(vv.f) - 2; k >= 0; k-- {
					r = x.iteV(st, Eq(s.t, Int(int64(k))), vv.f[k], r, s.typ)
				}
				v = r
			default:
				fail("nav struct step")
			}
			loc = extend(loc, s)
		case *PtrV:
			if s.k != stUnbox {
				fail("nav pointer step")
			}
			return x.load(st, &PtrV{cell: vv.cell, path: append(append([]step{}, vv.path...), path[i+1:]...), nilc: False, elem: path[len(path)-1].typ})
		case *MapV:
			return x.load(st, &PtrV{cell: vv.p.cell, path: append(append([]step{}, vv.p.path...), path[i:]...), nilc: False, elem: path[len(path)-1].typ})
		case *SliceV:
			return x.load(st, &PtrV{cell: vv.cell, path: append([]step{}, path[i:]...), nilc: False, elem: path[len(path)-1].typ})
		case *IfaceV:
			if vv.dyn != nil && s.k == stCtor {
				if pv, ok := vv.v.(*PtrV); ok {
					return x.load(st, &PtrV{cell: pv.cell, path: append(append([]step{}, pv.path...), path[i+1:]...), nilc: False, elem: path[len(path)-1].typ})
				}
			}
			fail("nav interface step")
		default:
			fail("nav %T", v)
		}
	}
	if t, ok := v.(*Term); ok && loc.elem != nil {
		if _, isMap := loc.elem.Underlying().(*types.Map); isMap {
			return t
		}
		return x.fromTerm(t, loc.elem, loc)
	}
	return v
}

func (x *Exec) store(st *State, p *PtrV, v Value, ty types.Type) {
	p = x.resolve(st, p)
	if p.cell.fixed != nil {
		fail("write to immutable memory (%s)", p.cell.name)
	}
	if x.spec {
		x.specWrite(p.cell)
	}
	cur := x.cellVal(st, p.cell)
	if p.cell.fam != nil && len(p.path) > 0 {
		if st.poison[p.cell] {
			fail("write to a slice whose backing array was written through another slice")
		}
		for c := range st.mem {
			if c.fam == p.cell.fam && c != p.cell {
				st.poison[c] = true
			}
		}
	}
	st.mem[p.cell] = x.update(st, cur, p, p.path, 0, v, ty)
	if p.cell.param {
		st.touch[p.cell] = true
	}
}

func (x *Exec) update(st *State, cur Value, p *PtrV, path []step, at int, v Value, ty types.Type) Value {
	if len(path) == 0 {
		if _, ok := cur.(*Term); ok {
			loc := &PtrV{cell: p.cell, path: p.path[:at], nilc: False, elem: ty}
			return x.packTo(st, v, ty, loc)
		}
		return v
	}
	s := path[0]
	switch c := cur.(type) {
	case *StructV:
		n := &StructV{t: c.t, f: append([]Value{}, c.f...)}
		switch {
		case s.k == stField:
			n.f[s.field] = x.updateField(st, c.f[s.field], p, path[1:], at+1, v, ty)
		case s.k == stIndex && s.t.op == OInt:
			n.f[s.t.ival.Int64()] = x.update(st, c.f[s.t.ival.Int64()], p, path[1:], at+1, v, ty)
		case s.k == stIndex:
			for i := range n.f {
				nv := x.update(st, c.f[i], p, path[1:], at+1, v, ty)
				n.f[i] = x.iteV(st, Eq(s.t, Int(int64(i))), nv, c.f[i], s.typ)
			}
		default:
			fail("update struct step")
		}
		return n
	case *Term:
		loc := &PtrV{cell: p.cell, path: p.path, nilc: False, elem: ty}
		return updateTerm(c, path, x.packTo(st, v, ty, loc))
	case *PtrV:
		if s.k == stUnbox {
			x.store(st, &PtrV{cell: c.cell, path: append(append([]step{}, c.path...), path[1:]...), nilc: False, elem: ty}, v, ty)
			return cur
		}
	case *SliceV:
		x.store(st, &PtrV{cell: c.cell, path: append([]step{}, path...), nilc: False, elem: ty}, v, ty)
		return cur
	case *MapV:
		x.store(st, &PtrV{cell: c.p.cell, path: append(append([]step{}, c.p.path...), path...), nilc: False, elem: ty}, v, ty)
		return cur
	}
	fail("update %T", cur)
	return nil
}

// updateField stores into a field. The representation of a whole field is
// replaced as is, so that it keeps pointers to cells.
func (x *Exec) updateField(st *State, cur Value, p *PtrV, path []step, at int, v Value, ty types.Type) Value {
	if len(path) == 0 {
		switch v.(type) {
		case *PtrV, *SliceV, *MapV, *FuncV, *StructV, *IfaceV:
			return v
		}
	}
	return x.update(st, cur, p, path, at, v, ty)
}

func updateTerm(t *Term, path []step, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	switch s.k {
	case stField:
		c := t.sort.ctors[0]
		var as []*Term
		for i := range c.fields {
			f := Sel(c, i, t)
			if i == s.field {
				f = updateTerm(f, path[1:], v)
			}
			as = append(as, f)
		}
		return MkCtor(c, as...)
	case stIndex:
		if t.sort.kind == SData {
			c := t.sort.ctors[0]
			var as []*Term
			for i := range c.fields {
				f := Sel(c, i, t)
				as = append(as, Ite(Eq(s.t, Int(int64(i))), updateTerm(f, path[1:], v), f))
			}
			return MkCtor(c, as...)
		}
		var e *Term
		if t.sort == StrS {
			e = Char(v)
		} else {
			e = Unit(updateTerm(At(t, s.t), path[1:], v))
		}
		return Concat(t.sort, Extract(t, Int(0), s.t), e, Suffix(t, Add(s.t, Int(1))))
	case stUnbox:
		return Some(updateTerm(Val(t), path[1:], v))
	case stMapVal:
		return Store(t, s.t, Some(updateTerm(Val(Select(t, s.t)), path[1:], v)))
	case stCtor:
		return MkCtor(s.ctor, updateTerm(Sel(s.ctor, 0, t), path[1:], v))
	}
	panic("updateTerm")
}

// packTo converts a value stored into a term-based location. A pointer to a
// fresh cell moves the cell to the location.
func (x *Exec) packTo(st *State, v Value, ty types.Type, loc *PtrV) *Term {
	t := x.toTerm(st, v, ty)
	var pv *PtrV
	var last step
	switch v := v.(type) {
	case *PtrV:
		if x.w.isRef(types.NewPointer(v.elem)) {
			return t
		}
		pv, last = v, step{k: stUnbox, typ: v.elem}
	case *IfaceV:
		p, ok := v.v.(*PtrV)
		s := x.w.sortOf(v.t)
		if !ok || s.kind != SData || v.dyn == nil {
			return t
		}
		for i, it := range x.w.closedImpls(v.t) {
			if types.Identical(it, v.dyn) {
				last = step{k: stCtor, ctor: s.ctors[i+1], typ: p.elem}
			}
		}
		pv = p
	case *StructV:
		for i, ft := range fieldTypes(v.t) {
			switch v.f[i].(type) {
			case *PtrV, *IfaceV:
				x.packTo(st, v.f[i], ft, extend(loc, step{k: stField, field: i, typ: ft}))
			}
		}
		return t
	default:
		return t
	}
	if pv.nilc == True || pv.cell.fixed != nil {
		return t
	}
	if x.resolve(st, pv) != pv || len(pv.path) > 0 {
		fail("a pointer into memory owned by another location is stored")
	}
	if !x.spec {
		st.fwd[pv.cell] = extend(loc, last)
	}
	return t
}

// ------------------------------------------------------------------------------
// Conditional and equality

type noMerge struct{ msg string }

func (x *Exec) iteV(st *State, c *Term, a, b Value, ty types.Type) Value {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	switch av := a.(type) {
	case *Term:
		if bt, ok := b.(*Term); ok {
			return Ite(c, av, bt)
		}
	case *StructV:
		if bv, ok := b.(*StructV); ok {
			n := &StructV{t: av.t}
			for i, ft := range fieldTypes(av.t) {
				n.f = append(n.f, x.iteV(st, c, av.f[i], bv.f[i], ft))
			}
			return n
		}
	case *PtrV:
		if bv, ok := b.(*PtrV); ok {
			if av.cell == bv.cell && samePath(av.path, bv.path) {
				return &PtrV{cell: av.cell, path: av.path, nilc: Ite(c, av.nilc, bv.nilc), elem: av.elem}
			}
			if bv.nilc == True {
				return &PtrV{cell: av.cell, path: av.path, nilc: Or(Not(c), av.nilc), elem: av.elem}
			}
			if av.nilc == True {
				return &PtrV{cell: bv.cell, path: bv.path, nilc: Or(c, bv.nilc), elem: bv.elem}
			}
			if av.cell.fixed != nil && bv.cell.fixed != nil && !x.w.isRef(types.NewPointer(av.elem)) {
				t := Ite(c, x.toTerm(st, av, types.NewPointer(av.elem)), x.toTerm(st, bv, types.NewPointer(av.elem)))
				return x.fromTerm(t, types.NewPointer(av.elem), nil)
			}
		}
	case *SliceV:
		if bv, ok := b.(*SliceV); ok && av.cell == bv.cell {
			return av
		}
		return x.newSlice(st, av.t, Ite(c, x.content(st, a), x.content(st, b)), av.cell.fam)
	case *MapV:
		if bv, ok := b.(*MapV); ok {
			if av.p.cell == bv.p.cell && samePath(av.p.path, bv.p.path) {
				return &MapV{p: av.p, nilc: Ite(c, av.nilc, bv.nilc), t: av.t}
			}
			cc := x.newCell("mergedmap", av.t)
			cc.fixed = Ite(c, x.loadTerm(st, av.p), x.loadTerm(st, bv.p))
			return &MapV{p: &PtrV{cell: cc, nilc: False, elem: av.t}, nilc: Ite(c, av.nilc, bv.nilc), t: av.t}
		}
	case *FuncV:
		if bv, ok := b.(*FuncV); ok && av.fn == bv.fn && len(av.bind) == 0 {
			return a
		}
	case TupleV:
		if bv, ok := b.(TupleV); ok {
			var n TupleV
			tt, _ := ty.(*types.Tuple)
			for i := range av {
				var et types.Type
				if tt != nil {
					et = tt.At(i).Type()
				}
				n = append(n, x.iteV(st, c, av[i], bv[i], et))
			}
			return n
		}
	case *IfaceV:
		if bv, ok := b.(*IfaceV); ok && av.dyn != nil && bv.dyn != nil && types.Identical(av.dyn, bv.dyn) {
			return &IfaceV{t: av.t, dyn: av.dyn, v: x.iteV(st, c, av.v, bv.v, av.dyn)}
		}
	}
	if _, ok := b.(*SliceV); ok {
		if at, ok := a.(*Term); ok {
			return x.newSlice(st, b.(*SliceV).t, Ite(c, at, x.content(st, b)), b.(*SliceV).cell.fam)
		}
	}
	if ty != nil && !hasPtr(ty) || x.spec && ty != nil {
		return x.fromTerm(Ite(c, x.toTerm(st, a, ty), x.toTerm(st, b, ty)), ty, nil)
	}
	if i, ok := tyIface(ty); ok && x.w.sortOf(i).kind == SUnint {
		return Ite(c, x.toTerm(st, a, ty), x.toTerm(st, b, ty))
	}
	if ty != nil && isFn(ty) {
		return Ite(c, x.toTerm(st, a, ty), x.toTerm(st, b, ty))
	}
	panic(noMerge{fmt.Sprintf("%T/%T", a, b)})
}

func tyIface(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	_, ok := t.Underlying().(*types.Interface)
	return t, ok
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Signature, *types.Interface, *types.Tuple:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Slice:
		return false
	}
	return false
}

func samePath(a, b []step) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].k != b[i].k || a[i].field != b[i].field || a[i].t != b[i].t || a[i].ctor != b[i].ctor {
			return false
		}
	}
	return true
}

func (x *Exec) eqV(st *State, a, b Value, ty types.Type) *Term {
	isNil := func(v Value) bool {
		switch v := v.(type) {
		case *PtrV:
			return v.nilc == True
		case *Term:
			return v.op == OConst && len(v.name) > 4 && v.name[:4] == "nil!"
		case *MapV:
			return v.nilc == True
		}
		return false
	}
	switch av := a.(type) {
	case *PtrV:
		if isNil(b) {
			return av.nilc
		}
		if bv, ok := b.(*PtrV); ok {
			if isNil(a) {
				return bv.nilc
			}
			ra, rb := x.resolve(st, av), x.resolve(st, bv)
			if ra.cell == rb.cell && samePath(ra.path, rb.path) {
				return Eq(av.nilc, bv.nilc)
			}
			if x.w.isRef(types.NewPointer(av.elem)) {
				return Eq(x.toTerm(st, av, nil), x.toTerm(st, bv, nil))
			}
			if len(ra.path) == 0 && len(rb.path) == 0 && ra.cell.fixed == nil && rb.cell.fixed == nil {
				return And(av.nilc, bv.nilc)
			}
			fail("pointer comparison")
		}
		if bt, ok := b.(*Term); ok && x.w.isRef(types.NewPointer(av.elem)) {
			return Eq(x.toTerm(st, av, nil), bt)
		}
	case *MapV:
		if isNil(b) {
			return av.nilc
		}
		if x.spec {
			return Eq(x.loadTerm(st, av.p), x.toTerm(st, b, ty))
		}
	case *Term:
		switch bv := b.(type) {
		case *Term:
			if _, ok := ty.Underlying().(*types.Slice); ok && !x.spec {
				// comparison with nil only
				r := x.fresh("isnil", BoolS)
				x.fact(st, Implies(r, And(Eq(Len(av), Int(0)), Eq(Len(bv), Int(0)))))
				return r
			}
			return Eq(av, bv)
		case *FuncV:
			if isNil(a) {
				return False
			}
		case *IfaceV:
			if isNil(a) && bv.dyn != nil {
				return False
			}
			return Eq(av, x.toTerm(st, bv, ty))
		case *PtrV, *MapV:
			return x.eqV(st, b, a, ty)
		case *SliceV:
			return x.eqV(st, av, x.content(st, bv), ty)
		}
	case *SliceV:
		return x.eqV(st, x.content(st, av), x.content(st, b), ty)
	case *FuncV:
		if isNil(b) {
			return False
		}
	case *IfaceV:
		if isNil(b) && av.dyn != nil {
			return False
		}
		if bt, ok := b.(*Term); ok {
			return Eq(x.toTerm(st, av, ty), bt)
		}
		if bv, ok := b.(*IfaceV); ok {
			return Eq(x.toTerm(st, av, ty), x.toTerm(st, bv, ty))
		}
	case *StructV:
		if bv, ok := b.(*StructV); ok {
			var cs []*Term
			for i, ft := range fieldTypes(av.t) {
				cs = append(cs, x.eqV(st, av.f[i], bv.f[i], ft))
			}
			return And(cs...)
		}
		return Eq(x.toTerm(st, a, ty), x.toTerm(st, b, ty))
	}
	fail("comparison of %T and %T", a, b)
	return nil
}

// snap makes an immutable copy of a value for old_ names.
func (x *Exec) snap(st *State, v Value) Value {
	switch v := v.(type) {
	case *PtrV:
		if v.cell.fixed != nil && len(v.path) == 0 {
			return v
		}
		if v.nilc == True {
			return v
		}
		c := x.newCell("old_"+v.cell.name, v.elem)
		c.fixed = x.snap(st, x.load(st, v))
		return &PtrV{cell: c, nilc: v.nilc, elem: v.elem}
	case *StructV:
		n := &StructV{t: v.t}
		for _, f := range v.f {
			n.f = append(n.f, x.snap(st, f))
		}
		return n
	case *SliceV:
		return x.content(st, v)
	case *MapV:
		c := x.newCell("oldmap", v.t)
		c.fixed = x.loadTerm(st, v.p)
		return &MapV{p: &PtrV{cell: c, nilc: False, elem: v.t}, nilc: v.nilc, t: v.t}
	case *IfaceV:
		if v.tm != nil {
			return x.toTerm(st, v, v.t)
		}
		return &IfaceV{t: v.t, dyn: v.dyn, v: x.snap(st, v.v)}
	}
	return v
}

func (x *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool(constant.BoolVal(c.Value))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(c.Value)
			b, ok := new(big.Int).SetString(v.ExactString(), 10)
			if !ok {
				fail("constant %s", c)
			}
			return BigInt(b)
		case u.Info()&types.IsString != 0:
			return Str(constant.StringVal(c.Value))
		}
		return Const("const_"+mangle(c.Value.ExactString()), x.w.sortOf(c.Type()))
	}
	fail("constant %s", c)
	return nil
}
