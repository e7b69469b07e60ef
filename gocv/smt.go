package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"
)

func decodeRune(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

// ------------------------------------------------------------------------------
// Axiom instantiation

// unfolder gives the definition of an application of a spec function.
var unfolders = map[string]func(t *Term) *Term{}

// axiomFns give extra facts about an application of an uninterpreted function.
var axiomFns = map[string][]func(t *Term) []*Term{}

// specFuel overrides the default number of unfolding levels.
var specFuel = map[string]int{}

const defaultFuel = 1

func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		walk(a, seen, f)
	}
	f(t)
}

func hasBound(t *Term, memo map[*Term]bool) bool {
	if t.op == OConst && strings.HasPrefix(t.name, "bv!") {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if v, ok := memo[t]; ok {
		return v
	}
	r := false
	for _, a := range t.args {
		if hasBound(a, memo) {
			r = true
			break
		}
	}
	memo[t] = r
	return r
}

// heavyAxioms are used from the second effort on.
var heavyAxioms = map[string][]func(t *Term) []*Term{}

// instantiate closes a set of assertions under definitions and axioms.
func instantiate(as []*Term, extraFuel int) []*Term {
	axLevel := []int{1, 3, 5, 6}[min(extraFuel, 3)]
	out := append([]*Term{}, as...)
	level := map[*Term]int{}
	done := map[*Term]bool{}
	seen := map[*Term]bool{}
	bmemo := map[*Term]bool{}
	var queue []*Term
	note := func(t *Term, lv int) {
		walk(t, seen, func(x *Term) {
			if hasBound(x, bmemo) {
				return
			}
			level[x] = lv
			queue = append(queue, x)
		})
	}
	lit := map[*Term]*Term{}
	for _, a := range as {
		note(a, 0)
		if a.op == OEq && a.args[0].sort == IntS {
			if a.args[0].op == OInt {
				lit[a.args[1]] = a.args[0]
			} else if a.args[1].op == OInt {
				lit[a.args[0]] = a.args[1]
			}
		}
	}
	add := func(t *Term, lv int) {
		if t == True {
			return
		}
		out = append(out, t)
		note(t, lv)
	}
	for len(queue) > 0 {
		t := queue[0]
		queue = queue[1:]
		if done[t] {
			continue
		}
		done[t] = true
		lv := level[t]
		for _, f := range typeFacts[t] {
			add(f, lv)
		}
		if lv < 3 && (t.op == OSuffix || t.op == OApp && (t.name == "rune_at" || t.name == "rune_w" || t.name == "runes")) {
			// decoding what a spec function gives
			if s := t.args[0]; s.op == OApp && s.name != "rune_at" && unfolders[s.name] != nil && level[s] <= 1 {
				d, _ := unfold(unfolders[s.name], s)
				add(Eq(t, pushApp(t, d)), lv+1)
			}
		}
		switch t.op {
		case OApp:
			if t.name == "enc" && lit[t.args[0]] != nil {
				add(Eq(t, App("enc", StrS, lit[t.args[0]])), lv+1)
			}
			if u := unfolders[t.name]; u != nil {
				fuel := defaultFuel
				if f, ok := specFuel[t.name]; ok {
					fuel = f
				}
				if lv < fuel+extraFuel {
					d, fs := unfold(u, t)
					add(Eq(t, d), lv+1)
					for _, f := range fs {
						add(f, lv+1)
					}
				}
			}
			if lv <= axLevel {
				for _, f := range axiomFns[t.name] {
					for _, a := range f(t) {
						add(a, lv+1)
					}
				}
				if extraFuel > 0 {
					for _, f := range heavyAxioms[t.name] {
						for _, a := range f(t) {
							add(a, lv+1)
						}
					}
				}
			}
		case OSuffix:
			s, k := t.args[0], t.args[1]
			l := Len(s)
			in := And(Le(Int(0), k), Le(k, l))
			// |s[k:]| = |s| - k
			add(Implies(in, Eq(mk(OLen, IntS, "", t), Sub(l, k))), lv+1)
			if s.op == OSuffix && lv < 6 {
				add(Implies(And(Le(Int(0), k), Le(Int(0), s.args[1])), Eq(t, Suffix(s.args[0], Add(s.args[1], k)))), lv+1)
			}
			if s.op == OIte && lv < 4 {
				add(Eq(t, Ite(s.args[0], Suffix(s.args[1], k), Suffix(s.args[2], k))), lv+1)
			}
			if s.op == OConcat && lv < 3 {
				add(splitFacts(t, s, k, true), lv+1)
			}
		case OExtract:
			s, off, n := t.args[0], t.args[1], t.args[2]
			if s.op == OConcat && off == Int(0) && lv < 3 {
				add(splitFacts(t, s, n, false), lv+1)
			}
		case OAt:
			s, i := t.args[0], t.args[1]
			if s.op == OApp && zeroOf[s.name] != nil {
				add(Implies(And(Le(Int(0), i), Lt(i, s.args[0])), Eq(t, zeroOf[s.name])), lv+1)
			}
			if s.op == OSuffix && lv < 6 {
				add(Implies(And(Le(Int(0), i), Le(Int(0), s.args[1]), Lt(i, Len(s))), Eq(t, At(s.args[0], Add(s.args[1], i)))), lv+1)
			}
			if s.sort == StrS {
				add(And(Le(Int(-1), t), Le(t, Int(255)), Implies(And(Le(Int(0), i), Lt(i, Len(s))), Le(Int(0), t))), lv+1)
				_ = 0
			}
		}
	}
	return out
}

// splitFacts tells that cutting a concatenation between two of its parts gives
// the parts.
func splitFacts(t, s, k *Term, after bool) *Term {
	var out []*Term
	for i := 1; i < len(s.args); i++ {
		pre := Concat(s.sort, s.args[:i]...)
		if after {
			out = append(out, Implies(Eq(k, Len(pre)), Eq(t, Concat(s.sort, s.args[i:]...))))
		} else {
			out = append(out, Implies(Eq(k, Len(pre)), Eq(t, pre)))
		}
	}
	for _, p := range s.args {
		if p.op == OExtract {
			l := Len(p.args[0])
			in := And(Le(Int(0), p.args[1]), Le(Int(0), p.args[2]), Le(Add(p.args[1], p.args[2]), l))
			out = append(out, Implies(in, Eq(Len(p), p.args[2])))
		}
	}
	return And(out...)
}

type unfolded struct {
	d  *Term
	fs []*Term
}

var unfoldMemo = map[*Term]unfolded{}

// unfold gives the definition of an application and the facts found with it.
func unfold(u func(*Term) *Term, t *Term) (*Term, []*Term) {
	if m, ok := unfoldMemo[t]; ok {
		return m.d, m.fs
	}
	save := extraFacts
	extraFacts = nil
	d := u(t)
	fs := extraFacts
	extraFacts = save
	unfoldMemo[t] = unfolded{d, fs}
	return d, fs
}

// pushApp is t with d in place of its first argument, inside the conditionals of d.
func pushApp(t, d *Term) *Term {
	switch {
	case d.op == OIte:
		return Ite(d.args[0], pushApp(t, d.args[1]), pushApp(t, d.args[2]))
	case t.op == OSuffix:
		return Suffix(d, t.args[1])
	}
	return App(t.name, t.sort, d)
}

func init() {
	dec := func(t *Term) []*Term {
		s := t.args[0]
		r, w := App("rune_at", IntS, s), App("rune_w", IntS, s)
		empty := Eq(s, Str(""))
		_ = r
		return []*Term{
			Implies(empty, And(Eq(r, Int(0xfffd)), Eq(w, Int(0)))),
			Implies(Not(empty), And(Le(Int(1), w), Le(w, Int(4)), Le(w, Len(s)))),
			And(mk(OLe, BoolS, "", Int(0), w), mk(OLe, BoolS, "", Int(0), r), Le(r, Int(0x10ffff)), Not(And(Le(Int(0xd800), r), Le(r, Int(0xdfff))))),
		}
	}
	heavy := func(t *Term) []*Term {
		s := t.args[0]
		r, w := App("rune_at", IntS, s), App("rune_w", IntS, s)
		b := At(s, Int(0))
		empty := Eq(s, Str(""))
		return []*Term{
			Implies(And(Not(empty), Lt(b, Int(128))), And(Eq(r, b), Eq(w, Int(1)))),
			Implies(Lt(r, Int(128)), And(Eq(w, Int(1)), Eq(r, b))),
			Implies(And(Eq(w, Int(1)), Le(Int(128), r)), Eq(r, Int(0xfffd))),
			Implies(And(Not(empty), Not(And(Eq(r, Int(0xfffd)), Eq(w, Int(1))))), Eq(Extract(s, Int(0), w), App("enc", StrS, r))),
		}
	}
	heavyAxioms["rune_at"] = append(heavyAxioms["rune_at"], heavy)
	heavyAxioms["rune_w"] = append(heavyAxioms["rune_w"], heavy)
	axiomFns["gomod"] = append(axiomFns["gomod"], func(t *Term) []*Term {
		a, b := t.args[0], t.args[1]
		return []*Term{Implies(And(Le(Int(0), a), Lt(Int(0), b)), And(Le(Int(0), t), Lt(t, b), Le(t, a)))}
	})
	axiomFns["rune_at"] = append(axiomFns["rune_at"], dec)
	axiomFns["rune_w"] = append(axiomFns["rune_w"], dec)
	ldec := func(t *Term) []*Term {
		s := t.args[0]
		r, w := App("lrune_at", IntS, s), App("lrune_w", IntS, s)
		empty := Eq(s, Str(""))
		return []*Term{
			Implies(empty, And(Eq(r, Int(0xfffd)), Eq(w, Int(0)))),
			Implies(Not(empty), And(Le(Int(1), w), Le(w, Int(4)), Le(w, Len(s)))),
			And(mk(OLe, BoolS, "", Int(0), w), mk(OLe, BoolS, "", Int(0), r), Le(r, Int(0x10ffff))),
		}
	}
	axiomFns["lrune_at"] = append(axiomFns["lrune_at"], ldec)
	axiomFns["lrune_w"] = append(axiomFns["lrune_w"], ldec)
	axiomFns["enc"] = append(axiomFns["enc"], func(t *Term) []*Term {
		l := Len(t)
		return []*Term{
			And(Le(Int(1), l), Le(l, Int(4))),
		}
	})
	heavyAxioms["enc"] = append(heavyAxioms["enc"], func(t *Term) []*Term {
		r := t.args[0]
		l := Len(t)
		return []*Term{
			Implies(And(Le(Int(0), r), Lt(r, Int(128))), Eq(t, Char(r))),
			Implies(Or(Lt(r, Int(0)), Lt(Int(127), r)), And(Le(Int(2), l), Le(Int(128), At(t, Int(0))))),
			Implies(And(validRune(r), Lt(Int(127), r), Lt(r, Int(0x800))), Eq(l, Int(2))),
			Implies(And(Lt(Int(0x7ff), r), Lt(r, Int(0x10000))), Eq(l, Int(3))),
			Implies(And(Lt(Int(0xffff), r), Lt(r, Int(0x110000))), Eq(l, Int(4))),
			Implies(Not(validRune(r)), Eq(t, Str("\uFFFD"))),
			Implies(validRune(r), And(Eq(mk(OApp, IntS, "rune_at", t), r), Eq(mk(OApp, IntS, "rune_w", t), l))),
		}
	})
	// []rune(s)
	unfolders["runes"] = func(t *Term) *Term {
		s := t.args[0]
		return Ite(Eq(s, Str("")), Empty(SeqOf(IntS)),
			Concat(SeqOf(IntS), Unit(App("rune_at", IntS, s)), App("runes", SeqOf(IntS), Suffix(s, App("rune_w", IntS, s)))))
	}
	// string([]rune)
	unfolders["unrunes"] = func(t *Term) *Term {
		s := t.args[0]
		return Ite(Eq(Len(s), Int(0)), Str(""),
			Concat(StrS, App("enc", StrS, At(s, Int(0))), App("unrunes", StrS, Suffix(s, Int(1)))))
	}
	// repeat of a string
	unfolders["str_repeat"] = func(t *Term) *Term {
		s, n := t.args[0], t.args[1]
		return Ite(Le(n, Int(0)), Str(""), Concat(StrS, s, App("str_repeat", StrS, s, Sub(n, Int(1)))))
	}
	axiomFns["str_repeat"] = append(axiomFns["str_repeat"], func(t *Term) []*Term {
		s, n := t.args[0], t.args[1]
		if s.op == OStrLit {
			return []*Term{Implies(Le(Int(0), n), Eq(Len(t), Mul(Int(int64(len(s.sval))), n)))}
		}
		return nil
	})
}

// ------------------------------------------------------------------------------
// Printing

type printer struct {
	b       bytes.Buffer
	names   map[*Term]string
	sorts   map[*Sort]bool
	decls   map[string]bool
	refs    map[*Term]int
	bmemo   map[*Term]bool
	defs    bytes.Buffer
	dialect string
}

func (p *printer) declSort(s *Sort) {
	if p.sorts[s] {
		return
	}
	p.sorts[s] = true
	switch s.kind {
	case SSeq:
		p.declSort(s.elem)
	case SArr:
		p.declSort(s.key)
		p.declSort(s.elem)
	case SUnint:
		fmt.Fprintf(&p.b, "(declare-sort %s 0)\n", s.name)
	case SData:
		for _, c := range s.ctors {
			for _, f := range c.fields {
				p.declSort(f.sort)
			}
		}
		var cs []string
		for _, c := range s.ctors {
			var fs []string
			for _, f := range c.fields {
				fs = append(fs, fmt.Sprintf("(%s %s)", f.name, f.sort))
			}
			if len(fs) == 0 {
				cs = append(cs, "("+c.name+")")
			} else {
				cs = append(cs, "("+c.name+" "+strings.Join(fs, " ")+")")
			}
		}
		fmt.Fprintf(&p.b, "(declare-datatypes ((%s 0)) ((%s)))\n", s.name, strings.Join(cs, " "))
	}
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c == '\\' || c < 32 || c > 126:
			fmt.Fprintf(&b, "\\u{%x}", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) str(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.raw(t)
	if p.refs[t] > 1 && len(s) > 40 && !hasBound(t, p.bmemo) {
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, t.sort, s)
		p.names[t] = n
		return n
	}
	if len(t.args) > 0 && !hasBound(t, p.bmemo) {
		p.names[t] = s
	}
	return s
}

func (p *printer) list(op string, args ...*Term) string {
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(op)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(p.str(a))
	}
	b.WriteByte(')')
	return b.String()
}

func (p *printer) raw(t *Term) string {
	isStr := func(x *Term) bool { return x.sort == StrS }
	pick := func(x *Term, a, b string) string {
		if isStr(x) {
			return a
		}
		return b
	}
	switch t.op {
	case OConst:
		return t.name
	case OInt:
		if t.ival.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.ival.String(), "-") + ")"
		}
		return t.ival.String()
	case OStrLit:
		return smtStr(t.sval)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONot:
		return p.list("not", t.args...)
	case OAnd:
		return p.list("and", t.args...)
	case OOr:
		return p.list("or", t.args...)
	case OEq:
		return p.list("=", t.args...)
	case OIte:
		return p.list("ite", t.args...)
	case OAdd:
		return p.list("+", t.args...)
	case OMul:
		return p.list("*", t.args...)
	case ODiv:
		return p.list("div", t.args...)
	case OMod:
		return p.list("mod", t.args...)
	case OLe:
		return p.list("<=", t.args...)
	case OConcat:
		return p.list(pick(t, "str.++", "seq.++"), t.args...)
	case OUnit:
		return p.list("seq.unit", t.args...)
	case OLen:
		return p.list(pick(t.args[0], "str.len", "seq.len"), t.args...)
	case OExtract:
		return p.list(pick(t, "str.substr", "seq.extract"), t.args...)
	case OSuffix:
		s, k := p.str(t.args[0]), p.str(t.args[1])
		return fmt.Sprintf("(%s %s %s (- %s %s))", pick(t, "str.substr", "seq.extract"), s, k, p.str(mk(OLen, IntS, "", t.args[0])), k)
	case OAt:
		if isStr(t.args[0]) {
			return fmt.Sprintf("(str.to_code (str.at %s %s))", p.str(t.args[0]), p.str(t.args[1]))
		}
		return p.list("seq.nth", t.args...)
	case OChar:
		return p.list("str.from_code", t.args...)
	case OStrLt:
		return p.list("str.<", t.args...)
	case OPrefix:
		return p.list("str.prefixof", t.args...)
	case OContains:
		return p.list("str.contains", t.args...)
	case OReplAll:
		return p.list("str.replace_all", t.args...)
	case OApp:
		if len(t.args) == 0 {
			return t.name
		}
		return p.list(t.name, t.args...)
	case OCtor:
		if len(t.args) == 0 {
			return t.ctor.name
		}
		return p.list(t.ctor.name, t.args...)
	case OSel:
		return p.list(t.name, t.args...)
	case OIs:
		return p.list("(_ is "+t.ctor.name+")", t.args...)
	case OSelect:
		return p.list("select", t.args...)
	case OStore:
		return p.list("store", t.args...)
	case OConstArr:
		return fmt.Sprintf("((as const %s) %s)", t.sort, p.str(t.args[0]))
	case OEmptySeq:
		return fmt.Sprintf("(as seq.empty %s)", t.sort)
	case OForall:
		// args: bound vars..., body
		var vs []string
		for _, v := range t.args[:len(t.args)-1] {
			vs = append(vs, fmt.Sprintf("(%s %s)", v.name, v.sort))
		}
		return fmt.Sprintf("(forall (%s) %s)", strings.Join(vs, " "), p.str(t.args[len(t.args)-1]))
	}
	panic("raw")
}

// Query builds the SMT-LIB text of "asserts are satisfiable?".
func Query(asserts []*Term, comment string) string {
	p := &printer{names: map[*Term]string{}, sorts: map[*Sort]bool{}, decls: map[string]bool{}, refs: map[*Term]int{}, bmemo: map[*Term]bool{}}
	for _, l := range strings.Split(comment, "\n") {
		fmt.Fprintf(&p.b, "; %s\n", l)
	}
	fmt.Fprintf(&p.b, "(set-logic ALL)\n")
	seen := map[*Term]bool{}
	var all []*Term
	for _, a := range asserts {
		walk(a, seen, func(t *Term) { all = append(all, t) })
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, t := range all {
		p.declSort(t.sort)
		for _, a := range t.args {
			p.refs[a]++
			if t.op == OSuffix {
				p.refs[a]++
			}
		}
	}
	for _, t := range all {
		if t.op == OConst && !strings.HasPrefix(t.name, "bv!") && !p.decls[t.name] {
			p.decls[t.name] = true
			fmt.Fprintf(&p.b, "(declare-const %s %s)\n", t.name, t.sort)
		}
		if t.op == OApp && !p.decls[t.name] {
			p.decls[t.name] = true
			var ss []string
			for _, a := range t.args {
				ss = append(ss, a.sort.String())
			}
			fmt.Fprintf(&p.b, "(declare-fun %s (%s) %s)\n", t.name, strings.Join(ss, " "), t.sort)
		}
	}
	var body bytes.Buffer
	for _, a := range asserts {
		s := p.str(a)
		body.Write(p.defs.Bytes())
		p.defs.Reset()
		fmt.Fprintf(&body, "(assert %s)\n", s)
	}
	p.b.Write(body.Bytes())
	p.b.WriteString("(check-sat)\n")
	return p.b.String()
}

// ------------------------------------------------------------------------------
// Solvers

type Solver struct {
	name string
	args func(ms int) []string
}

var solvers = []Solver{
	{"z3-new", func(ms int) []string { return []string{"z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }},
	{"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", ms), "-"}
	}},
	{"z3", func(ms int) []string { return []string{"z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }},
}

var (
	slots      = make(chan struct{}, 8)
	solverMS   int64 // total solver time in milliseconds
	solverRuns int64
	bySolver   sync.Map // name -> *int64 of unsat answers
)

func runSolver(ctx context.Context, sv Solver, query string, ms int) (string, string) {
	select {
	case slots <- struct{}{}:
	case <-ctx.Done():
		return "unknown", "cancelled"
	}
	defer func() { <-slots }()
	if ctx.Err() != nil {
		return "unknown", "cancelled"
	}
	t0 := time.Now()
	cctx, cancel := context.WithTimeout(ctx, time.Duration(ms+1000)*time.Millisecond)
	defer cancel()
	a := sv.args(ms)
	cmd := exec.CommandContext(cctx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(query)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.Run()
	atomic.AddInt64(&solverMS, time.Since(t0).Milliseconds())
	atomic.AddInt64(&solverRuns, 1)
	o := strings.TrimSpace(out.String())
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
	}
	switch first {
	case "unsat", "sat":
		return first, o
	}
	return "unknown", o + errb.String()
}

type Answer struct {
	ms     int
	res    string // unsat, sat, unknown
	solver string
	out    string
}

// solve races the solvers. The first definite answer wins.
func solve(outer context.Context, query string, ms int) Answer {
	if os.Getenv("CV_DUMP") != "" {
		dumpQuery(query)
	}
	// A short run of the usually fastest one.
	short := ms
	if short > 1500 {
		short = 1500
	}
	if r, o := runSolver(outer, solvers[0], query, short); r == "unsat" || r == "sat" && ms <= 1500 {
		return Answer{0, r, solvers[0].name, o}
	} else if r == "sat" {
		return Answer{0, r, solvers[0].name, o}
	} else if strings.Contains(o, "error") {
		return Answer{0, "error", solvers[0].name, o}
	}
	ctx, cancel := context.WithCancel(outer)
	defer cancel()
	ch := make(chan Answer, len(solvers))
	for _, sv := range solvers {
		sv := sv
		go func() {
			r, o := runSolver(ctx, sv, query, ms)
			ch <- Answer{0, r, sv.name, o}
		}()
	}
	last := Answer{0, "unknown", "", ""}
	for range solvers {
		a := <-ch
		if a.res == "unsat" || a.res == "sat" {
			return a
		}
		last.out += a.solver + ": " + a.out + "\n"
	}
	return last
}

var dumpN int64

func dumpQuery(q string) {
	n := atomic.AddInt64(&dumpN, 1)
	os.MkdirAll(os.Getenv("CV_DUMP"), 0o755)
	os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", os.Getenv("CV_DUMP"), n), []byte(q), 0o644)
}
