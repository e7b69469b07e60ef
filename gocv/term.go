package main

// Hash-consed SMT terms with a light simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SortKind int

const (
	SInt SortKind = iota
	SBool
	SStr
	SSeq
	SArr
	SData
	SUnint
)

// Sort is an SMT sort.
type Sort struct {
	kind  SortKind
	name  string
	elem  *Sort // SSeq, SArr value
	key   *Sort // SArr
	ctors []*Ctor
}

type Ctor struct {
	name   string
	fields []CField
	data   *Sort
	idx    int
}

type CField struct {
	name string
	sort *Sort
}

func (s *Sort) String() string {
	switch s.kind {
	case SInt:
		return "Int"
	case SBool:
		return "Bool"
	case SStr:
		return "String"
	case SSeq:
		return "(Seq " + s.elem.String() + ")"
	case SArr:
		return "(Array " + s.key.String() + " " + s.elem.String() + ")"
	}
	return s.name
}

var (
	IntS  = &Sort{kind: SInt}
	BoolS = &Sort{kind: SBool}
	StrS  = &Sort{kind: SStr}

	seqSorts  = map[*Sort]*Sort{}
	arrSorts  = map[[2]*Sort]*Sort{}
	optSorts  = map[*Sort]*Sort{}
	dataSorts = map[string]*Sort{}
	unSorts   = map[string]*Sort{}
)

func SeqOf(e *Sort) *Sort {
	s := seqSorts[e]
	if s == nil {
		s = &Sort{kind: SSeq, elem: e}
		seqSorts[e] = s
	}
	return s
}

func ArrOf(k, v *Sort) *Sort {
	s := arrSorts[[2]*Sort{k, v}]
	if s == nil {
		s = &Sort{kind: SArr, key: k, elem: v}
		arrSorts[[2]*Sort{k, v}] = s
	}
	return s
}

func mangle(s string) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.':
			b.WriteRune(c)
		case c == '*':
			b.WriteString("P_")
		case c == '[':
			b.WriteString("L_")
		case c == '/':
			b.WriteByte('.')
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// OptOf is the option sort over e: none | some(val).
func OptOf(e *Sort) *Sort {
	s := optSorts[e]
	if s == nil {
		nm := "Opt_" + mangle(e.String())
		s = &Sort{kind: SData, name: nm}
		s.ctors = []*Ctor{
			{name: "none_" + nm, data: s, idx: 0},
			{name: "some_" + nm, data: s, idx: 1, fields: []CField{{"val_" + nm, e}}},
		}
		optSorts[e] = s
	}
	return s
}

func UnintSort(name string) *Sort {
	name = mangle(name)
	s := unSorts[name]
	if s == nil {
		s = &Sort{kind: SUnint, name: name}
		unSorts[name] = s
	}
	return s
}

// -----------------------------------------------------------------------------

type Op int

const (
	OConst Op = iota // free symbol
	OInt
	OStrLit
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd // linear sum: args are OMul/atoms and at most one OInt, canonical
	OMul
	ODiv
	OMod
	OLe
	OConcat
	OUnit
	OLen
	OExtract // extract(s, off, n)
	OSuffix  // suffix(s, k) = s[k:]
	OAt      // element of seq / code of a byte of a string
	OCode    // unused
	OChar    // string from code
	OStrLt   // str.<
	OPrefix
	OContains
	OIndexOf
	OReplAll
	OApp
	OCtor
	OSel
	OIs
	OSelect
	OStore
	OConstArr
	OEmptySeq
	OForall
)

type Term struct {
	op   Op
	args []*Term
	sort *Sort
	id   int
	name string // OConst, OApp
	ival *big.Int
	sval string
	ctor *Ctor // OCtor, OIs, OSel
	fidx int   // OSel

	hasInv bool // mentions a loop marker
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

func mk(op Op, srt *Sort, name string, args ...*Term) *Term {
	return mkX(op, srt, name, nil, 0, args...)
}

func mkX(op Op, srt *Sort, name string, c *Ctor, fidx int, args ...*Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|%p|%s|%p|%d", op, srt, name, c, fidx)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{op: op, args: args, sort: srt, name: name, ctor: c, fidx: fidx, id: len(termList)}
	for _, a := range args {
		if a.hasInv {
			t.hasInv = true
		}
	}
	if op == OConst && strings.HasPrefix(name, "inv!") {
		t.hasInv = true
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func Const(name string, s *Sort) *Term { return mk(OConst, s, name) }

func Int(i int64) *Term { return BigInt(big.NewInt(i)) }

func BigInt(b *big.Int) *Term {
	t := mk(OInt, IntS, b.String())
	if t.ival == nil {
		t.ival = new(big.Int).Set(b)
	}
	return t
}

func Str(s string) *Term {
	t := mk(OStrLit, StrS, s)
	t.sval = s
	return t
}

var (
	True  = mk(OTrue, BoolS, "")
	False = mk(OFalse, BoolS, "")
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.args[0]
	}
	return mk(ONot, BoolS, "", a)
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case OTrue:
			return true
		case OFalse:
			return false
		case OAnd:
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk(OAnd, BoolS, "", out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.op {
		case OFalse:
			return true
		case OTrue:
			return false
		case OOr:
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk(OOr, BoolS, "", out...)
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func isLit(t *Term) bool {
	return t.op == OInt || t.op == OStrLit || t.op == OTrue || t.op == OFalse
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq of different sorts: %s:%s vs %s:%s", a.sort, show(a), b.sort, show(b)))
	}
	if isLit(a) && isLit(b) {
		return False
	}
	if a.sort == BoolS {
		switch {
		case a == True:
			return b
		case b == True:
			return a
		case a == False:
			return Not(b)
		case b == False:
			return Not(a)
		}
	}
	if a.op == OCtor && b.op == OCtor {
		if a.ctor != b.ctor {
			return False
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if a.sort == IntS {
		d := Sub(a, b)
		if d.op == OInt {
			return Bool(d.ival.Sign() == 0)
		}
	}
	if a.op == OIte && isLit(b) && isLit(a.args[1]) && isLit(a.args[2]) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == OIte && isLit(a) {
		return Eq(b, a)
	}
	if a.sort == StrS || a.sort.kind == SSeq {
		if r := eqConcat(a, b); r != nil {
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OEq, BoolS, "", a, b)
}

func parts(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	if t.op == OEmptySeq || t.op == OStrLit && t.sval == "" {
		return nil
	}
	return []*Term{t}
}

// eqConcat strips common prefixes and suffixes of two concatenations.
func eqConcat(a, b *Term) *Term {
	pa, pb := parts(a), parts(b)
	i := 0
	for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
		i++
	}
	pa, pb = pa[i:], pb[i:]
	j := 0
	for j < len(pa) && j < len(pb) && pa[len(pa)-1-j] == pb[len(pb)-1-j] {
		j++
	}
	pa, pb = pa[:len(pa)-j], pb[:len(pb)-j]
	if i == 0 && j == 0 {
		// empty against non-empty
		if len(pa) == 0 || len(pb) == 0 {
			for _, p := range append(append([]*Term{}, pa...), pb...) {
				if p.op == OUnit || p.op == OStrLit && p.sval != "" || p.op == OChar {
					return False
				}
			}
		}
		return nil
	}
	return Eq(Concat(a.sort, pa...), Concat(a.sort, pb...))
}

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sorts %s vs %s", a.sort, b.sort))
	}
	if a.sort == BoolS {
		switch {
		case a == True:
			return Or(c, b)
		case a == False:
			return And(Not(c), b)
		case b == True:
			return Or(Not(c), a)
		case b == False:
			return And(c, a)
		}
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	// nested same condition
	if a.op == OIte && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if a.op == OCtor && b.op == OCtor && a.ctor == b.ctor && len(a.args) > 0 {
		as := make([]*Term, len(a.args))
		for i := range as {
			as[i] = Ite(c, a.args[i], b.args[i])
		}
		return MkCtor(a.ctor, as...)
	}
	return mk(OIte, a.sort, "", c, a, b)
}

// linear arithmetic ------------------------------------------------------------

type lin struct {
	c  *big.Int
	ms map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{big.NewInt(0), map[*Term]*big.Int{}}
	addLin(&l, t, big.NewInt(1))
	return l
}

func addLin(l *lin, t *Term, k *big.Int) {
	switch t.op {
	case OInt:
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(k, t.ival))
	case OAdd:
		for _, a := range t.args {
			addLin(l, a, k)
		}
	case OMul:
		if t.args[0].op == OInt {
			addLin(l, t.args[1], new(big.Int).Mul(k, t.args[0].ival))
			return
		}
		fallthrough
	default:
		o := l.ms[t]
		if o == nil {
			o = big.NewInt(0)
		}
		l.ms[t] = new(big.Int).Add(o, k)
	}
}

func fromLin(l lin) *Term {
	var ts []*Term
	for t, k := range l.ms {
		if k.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		k := l.ms[t]
		if k.Cmp(big.NewInt(1)) == 0 {
			out = append(out, t)
		} else {
			out = append(out, mk(OMul, IntS, "", BigInt(k), t))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, BigInt(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(OAdd, IntS, "", out...)
}

func Add(ts ...*Term) *Term {
	l := lin{big.NewInt(0), map[*Term]*big.Int{}}
	for _, t := range ts {
		if t.sort != IntS {
			panic("Add of non-int " + show(t))
		}
		addLin(&l, t, big.NewInt(1))
	}
	return fromLin(l)
}

func Sub(a, b *Term) *Term {
	l := toLin(a)
	addLin(&l, b, big.NewInt(-1))
	return fromLin(l)
}

func Mul(a, b *Term) *Term {
	if b.op == OInt {
		a, b = b, a
	}
	if a.op == OInt {
		l := lin{big.NewInt(0), map[*Term]*big.Int{}}
		addLin(&l, b, a.ival)
		return fromLin(l)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(OMul, IntS, "", a, b)
}

// EDiv and EMod are Euclidean (SMT) division.
func EDiv(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.ival.Sign() != 0 {
		q, m := new(big.Int).DivMod(a.ival, b.ival, new(big.Int))
		_ = m
		return BigInt(q)
	}
	return mk(ODiv, IntS, "", a, b)
}

func EMod(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.ival.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.ival, b.ival, new(big.Int))
		return BigInt(m)
	}
	return mk(OMod, IntS, "", a, b)
}

// nonNeg is a cheap syntactic test that a term is >= 0.
func nonNeg(t *Term) bool {
	switch t.op {
	case OInt:
		return t.ival.Sign() >= 0
	case OLen:
		return true
	case OApp:
		return nonNegApps[t.name]
	case OMul:
		return t.args[0].op == OInt && t.args[0].ival.Sign() >= 0 && nonNeg(t.args[1])
	case OAdd:
		for _, a := range t.args {
			if !nonNeg(a) {
				return false
			}
		}
		return true
	case OIte:
		return nonNeg(t.args[1]) && nonNeg(t.args[2])
	case OMod:
		return t.args[1].op == OInt && t.args[1].ival.Sign() != 0
	}
	return false
}

var nonNegApps = map[string]bool{"rune_w": true, "rune_at": true, "lrune_w": true, "lrune_at": true, "enc_len": true}

func Le(a, b *Term) *Term {
	d := Sub(b, a) // d >= 0
	if d.op == OInt {
		return Bool(d.ival.Sign() >= 0)
	}
	if nonNeg(d) {
		return True
	}
	// strictly negative?
	nd := Sub(a, Add(b, Int(1)))
	if nonNeg(nd) {
		return False
	}
	return mk(OLe, BoolS, "", a, b)
}

func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// sequences and strings ----------------------------------------------------------

func Empty(s *Sort) *Term {
	if s == StrS {
		return Str("")
	}
	return mk(OEmptySeq, s, "")
}

func Concat(s *Sort, ts ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch t.op {
		case OConcat:
			for _, a := range t.args {
				add(a)
			}
			return
		case OEmptySeq:
			return
		case OStrLit:
			if t.sval == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == OStrLit {
				out[n-1] = Str(out[n-1].sval + t.sval)
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		if t.sort != s {
			panic(fmt.Sprintf("Concat: %s in %s", t.sort, s))
		}
		add(t)
	}
	switch len(out) {
	case 0:
		return Empty(s)
	case 1:
		return out[0]
	}
	return mk(OConcat, s, "", out...)
}

func Unit(t *Term) *Term { return mk(OUnit, SeqOf(t.sort), "", t) }

func Len(t *Term) *Term {
	switch t.op {
	case OStrLit:
		return Int(int64(len(t.sval)))
	case OEmptySeq:
		return Int(0)
	case OUnit, OChar:
		return Int(1)
	case OConcat:
		var ls []*Term
		for _, a := range t.args {
			ls = append(ls, Len(a))
		}
		return Add(ls...)
	case OIte:
		return Ite(t.args[0], Len(t.args[1]), Len(t.args[2]))
	}
	return mk(OLen, IntS, "", t)
}

func Suffix(s, k *Term) *Term {
	if k.op == OInt && k.ival.Sign() == 0 {
		return s
	}
	if k == Len(s) {
		return Empty(s.sort)
	}
	if s.op == OStrLit && k.op == OInt && k.ival.Sign() >= 0 {
		n := int(k.ival.Int64())
		if n <= len(s.sval) {
			return Str(s.sval[n:])
		}
		return Str("")
	}
	if s.op == OEmptySeq || s.op == OStrLit && s.sval == "" {
		return s
	}
	if s.op == OSuffix && nonNeg(s.args[1]) && nonNeg(k) {
		return Suffix(s.args[0], Add(s.args[1], k))
	}
	if s.op == OConcat {
		// drop a whole first part
		l := Len(s.args[0])
		d := Sub(k, l)
		if nonNeg(d) && nonNeg(l) {
			return Suffix(Concat(s.sort, s.args[1:]...), d)
		}
	}
	return mk(OSuffix, s.sort, "", s, k)
}

// Extract is s[off:off+n] (SMT semantics outside of the range).
func Extract(s, off, n *Term) *Term {
	if n.op == OInt && n.ival.Sign() == 0 {
		return Empty(s.sort)
	}
	if off.op == OInt && off.ival.Sign() == 0 && n == Len(s) {
		return s
	}
	if Add(off, n) == Len(s) {
		return Suffix(s, off)
	}
	if s.op == OStrLit && off.op == OInt && n.op == OInt && off.ival.Sign() >= 0 && n.ival.Sign() >= 0 {
		o, m := int(off.ival.Int64()), int(n.ival.Int64())
		if o+m <= len(s.sval) {
			return Str(s.sval[o : o+m])
		}
	}
	if s.op == OConcat && off.op == OInt && off.ival.Sign() == 0 {
		// a prefix made of whole parts
		var ps []*Term
		tot := Int(0)
		for _, p := range s.args {
			if n == tot {
				return Concat(s.sort, ps...)
			}
			ps = append(ps, p)
			tot = Add(tot, Len(p))
		}
	}
	return mk(OExtract, s.sort, "", s, off, n)
}

// At is the element of a sequence or the code of a byte of a string.
func At(s, i *Term) *Term {
	if s.op == OStrLit && i.op == OInt && i.ival.Sign() >= 0 && i.ival.Int64() < int64(len(s.sval)) {
		return Int(int64(s.sval[i.ival.Int64()]))
	}
	if s.op == OUnit && i.op == OInt && i.ival.Sign() == 0 {
		return s.args[0]
	}
	if s.op == OConcat {
		ps, rest := s.args, i
		for len(ps) > 1 {
			d := Sub(rest, Len(ps[0]))
			if !nonNeg(d) {
				break
			}
			ps, rest = ps[1:], d
		}
		if rest.op == OInt && rest.ival.Sign() >= 0 {
			if l := Len(ps[0]); l.op == OInt && rest.ival.Cmp(l.ival) < 0 {
				return At(ps[0], rest)
			}
		}
		if len(ps) < len(s.args) {
			return At(Concat(s.sort, ps...), rest)
		}
	}
	if s.op == OSuffix && nonNeg(s.args[1]) && nonNeg(i) {
		return At(s.args[0], Add(s.args[1], i))
	}
	es := IntS
	if s.sort != StrS {
		es = s.sort.elem
	}
	return mk(OAt, es, "", s, i)
}

// Char is the one-byte string of a code.
func Char(c *Term) *Term {
	if c.op == OInt && c.ival.Sign() >= 0 && c.ival.Int64() < 256 {
		return Str(string([]byte{byte(c.ival.Int64())}))
	}
	return mk(OChar, StrS, "", c)
}

func App(name string, s *Sort, args ...*Term) *Term {
	switch name {
	case "rune_at", "rune_w":
		if r := simpDecode(name, args[0]); r != nil {
			return r
		}
	case "enc":
		if c := args[0]; c.op == OInt {
			if c.ival.IsInt64() {
				v := c.ival.Int64()
				if v < 0 || v > 0x10ffff {
					v = 0xfffd
				}
				return Str(string(rune(v)))
			}
		}
	}
	return mk(OApp, s, name, args...)
}

func MkCtor(c *Ctor, args ...*Term) *Term {
	if len(args) != len(c.fields) {
		panic("ctor arity " + c.name)
	}
	for i, a := range args {
		if a.sort != c.fields[i].sort {
			panic(fmt.Sprintf("ctor %s field %s: %s, want %s", c.name, c.fields[i].name, a.sort, c.fields[i].sort))
		}
	}
	// mk(sel0 x, sel1 x, ...) = x for a single-constructor sort
	if len(args) > 0 && len(c.data.ctors) == 1 {
		if args[0].op == OSel && args[0].ctor == c {
			x := args[0].args[0]
			same := true
			for i, a := range args {
				if a.op != OSel || a.ctor != c || a.fidx != i || a.args[0] != x {
					same = false
					break
				}
			}
			if same {
				return x
			}
		}
	}
	return mkX(OCtor, c.data, c.name, c, 0, args...)
}

func Sel(c *Ctor, i int, t *Term) *Term {
	if t.op == OCtor {
		if t.ctor == c {
			return t.args[i]
		}
	}
	if t.op == OIte {
		return Ite(t.args[0], Sel(c, i, t.args[1]), Sel(c, i, t.args[2]))
	}
	return mkX(OSel, c.fields[i].sort, c.fields[i].name, c, i, t)
}

func Is(c *Ctor, t *Term) *Term {
	if len(c.data.ctors) == 1 {
		return True
	}
	if t.op == OCtor {
		return Bool(t.ctor == c)
	}
	if t.op == OIte {
		return Ite(t.args[0], Is(c, t.args[1]), Is(c, t.args[2]))
	}
	if len(c.data.ctors) == 2 && c.idx == 1 {
		return Not(Is(c.data.ctors[0], t))
	}
	return mkX(OIs, BoolS, "", c, 0, t)
}

func None(e *Sort) *Term   { return MkCtor(OptOf(e).ctors[0]) }
func Some(t *Term) *Term   { return MkCtor(OptOf(t.sort).ctors[1], t) }
func IsNone(t *Term) *Term { return Is(t.sort.ctors[0], t) }
func Val(t *Term) *Term    { return Sel(t.sort.ctors[1], 0, t) }

func Select(a, k *Term) *Term {
	switch a.op {
	case OStore:
		e := Eq(a.args[1], k)
		if e == True {
			return a.args[2]
		}
		if e == False {
			return Select(a.args[0], k)
		}
		if constMap(a) {
			return Ite(e, a.args[2], Select(a.args[0], k))
		}
	case OConstArr:
		return a.args[0]
	case OIte:
		return Ite(a.args[0], Select(a.args[1], k), Select(a.args[2], k))
	}
	return mk(OSelect, a.sort.elem, "", a, k)
}

// constMap tells whether an array is a small table.
func constMap(a *Term) bool {
	for n := 0; n < 40; n++ {
		if a.op == OConstArr {
			return true
		}
		if a.op != OStore || a.args[1].op != OInt && a.args[1].op != OStrLit {
			return false
		}
		a = a.args[0]
	}
	return false
}

func Store(a, k, v *Term) *Term {
	if a.op == OStore && a.args[1] == k {
		return Store(a.args[0], k, v)
	}
	return mk(OStore, a.sort, "", a, k, v)
}

func ConstArr(s *Sort, v *Term) *Term { return mk(OConstArr, s, "", v) }

func StrLt(a, b *Term) *Term {
	if a.op == OStrLit && b.op == OStrLit {
		return Bool(a.sval < b.sval)
	}
	if a == b {
		return False
	}
	return mk(OStrLt, BoolS, "", a, b)
}

// PrefixOf: p is a prefix of s.
func PrefixOf(p, s *Term) *Term {
	if p.op == OStrLit && s.op == OStrLit {
		return Bool(strings.HasPrefix(s.sval, p.sval))
	}
	if p.op == OStrLit && s.op == OConcat && s.args[0].op == OStrLit {
		if len(s.args[0].sval) >= len(p.sval) {
			return Bool(strings.HasPrefix(s.args[0].sval, p.sval))
		}
	}
	return mk(OPrefix, BoolS, "", p, s)
}

func Contains(s, p *Term) *Term {
	if p.op == OStrLit && s.op == OStrLit {
		return Bool(strings.Contains(s.sval, p.sval))
	}
	return mk(OContains, BoolS, "", s, p)
}

func ReplAll(s, a, b *Term) *Term {
	if s.op == OStrLit && a.op == OStrLit && b.op == OStrLit && a.sval != "" {
		return Str(strings.ReplaceAll(s.sval, a.sval, b.sval))
	}
	return mk(OReplAll, StrS, "", s, a, b)
}

// substTerm replaces symbols by terms.
func substTerm(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = substTerm(a, m, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, as)
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case ONot:
		return Not(as[0])
	case OAnd:
		return And(as...)
	case OOr:
		return Or(as...)
	case OEq:
		return Eq(as[0], as[1])
	case OIte:
		return Ite(as[0], as[1], as[2])
	case OAdd:
		return Add(as...)
	case OMul:
		return Mul(as[0], as[1])
	case ODiv:
		return EDiv(as[0], as[1])
	case OMod:
		return EMod(as[0], as[1])
	case OLe:
		return Le(as[0], as[1])
	case OConcat:
		return Concat(t.sort, as...)
	case OUnit:
		return Unit(as[0])
	case OLen:
		return Len(as[0])
	case OExtract:
		return Extract(as[0], as[1], as[2])
	case OSuffix:
		return Suffix(as[0], as[1])
	case OAt:
		return At(as[0], as[1])
	case OChar:
		return Char(as[0])
	case OStrLt:
		return StrLt(as[0], as[1])
	case OPrefix:
		return PrefixOf(as[0], as[1])
	case OContains:
		return Contains(as[0], as[1])
	case OReplAll:
		return ReplAll(as[0], as[1], as[2])
	case OApp:
		return App(t.name, t.sort, as...)
	case OCtor:
		return MkCtor(t.ctor, as...)
	case OSel:
		return Sel(t.ctor, t.fidx, as[0])
	case OIs:
		return Is(t.ctor, as[0])
	case OSelect:
		return Select(as[0], as[1])
	case OStore:
		return Store(as[0], as[1], as[2])
	case OConstArr:
		return ConstArr(t.sort, as[0])
	case OForall:
		return mk(OForall, BoolS, t.name, as...)
	}
	return mkX(t.op, t.sort, t.name, t.ctor, t.fidx, as...)
}

// simpDecode simplifies the decoding of the first rune of a string.
func simpDecode(name string, s *Term) *Term {
	first := s
	if s.op == OConcat {
		first = s.args[0]
	}
	switch first.op {
	case OStrLit:
		if first.sval == "" {
			if name == "rune_w" {
				return Int(0)
			}
			return Int(0xfffd)
		}
		r, w := decodeRune(first.sval)
		if r == 0xfffd && w == 1 && first != s {
			return nil // may be completed by the next part
		}
		if name == "rune_w" {
			return Int(int64(w))
		}
		return Int(int64(r))
	case OApp:
		if first.name == "enc" {
			r := first.args[0]
			if name == "rune_w" {
				return Len(first)
			}
			return Ite(validRune(r), r, Int(0xfffd))
		}
	}
	return nil
}

func validRune(r *Term) *Term {
	return Or(And(Le(Int(0), r), Le(r, Int(0xd7ff))), And(Le(Int(0xe000), r), Le(r, Int(0x10ffff))))
}

func show(t *Term) string { return showD(t, 0) }

func showD(t *Term, d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case OConst:
		return t.name
	case OInt:
		return t.ival.String()
	case OStrLit:
		return fmt.Sprintf("%q", t.sval)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	}
	n := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "+", OMul: "*", ODiv: "div", OMod: "mod", OLe: "<=", OConcat: "++", OUnit: "unit", OLen: "len", OExtract: "extract", OSuffix: "suffix", OAt: "at", OChar: "char", OStrLt: "str<", OPrefix: "prefixof", OContains: "contains", OReplAll: "replall", OSelect: "select", OStore: "store", OConstArr: "constarr", OEmptySeq: "[]", OForall: "forall"}[t.op]
	switch t.op {
	case OApp, OSel:
		n = t.name
	case OCtor:
		n = t.ctor.name
	case OIs:
		n = "is-" + t.ctor.name
	}
	var as []string
	for _, a := range t.args {
		as = append(as, showD(a, d+1))
	}
	return "(" + n + " " + strings.Join(as, " ") + ")"
}
