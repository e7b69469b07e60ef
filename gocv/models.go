package main

// Models of library functions (part of the trusted base).

import (
	"go/token"
	"go/types"
	"strings"
)

type model func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool)

var models = map[string]model{}

// forkModels are models with several outcomes.
var forkModels = map[string]func(x *Exec, p *Path, args []Value, pos token.Pos) []Result{}

var errS = UnintSort("Err")

func nilErr() *Term { return nilOf(errS) }

// sptr is the location behind a receiver.
func sptr(x *Exec, p *Path, v Value, pos token.Pos) *PtrV {
	pv, ok := v.(*PtrV)
	if !ok {
		fail("receiver %T", v)
	}
	x.safe(p.st, "pointer is not nil", pos, Not(pv.nilc))
	return pv
}

func bufContent(x *Exec, p *Path, v Value, pos token.Pos) (*PtrV, *Term) {
	pv := sptr(x, p, v, pos)
	t, ok := x.load(p.st, pv).(*Term)
	if !ok {
		fail("buffer content")
	}
	return pv, t
}

func tm(x *Exec, p *Path, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *SliceV:
		return x.content(p.st, v)
	}
	fail("argument %T", v)
	return nil
}

func errValue(x *Exec, p *Path, name string, args ...Value) (r *Term) {
	var ts []*Term
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(unsupported); !ok {
					panic(e)
				}
				ts = nil
			}
		}()
		for _, a := range args {
			switch v := a.(type) {
			case *Term:
				ts = append(ts, v)
			case *SliceV:
				ts = append(ts, x.content(p.st, v))
			default:
				fail("x")
			}
		}
	}()
	if ts == nil {
		r = x.fresh("err", errS)
	} else {
		r = App(name, errS, ts...)
	}
	x.fact(p.st, Not(Eq(r, nilErr())))
	x.fact(p.st, Eq(App("err_tag", IntS, r), Int(0)))
	return r
}

func init() {
	for _, ty := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		write := func(conv func(x *Exec, p *Path, v Value) *Term, two bool) model {
			return func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
				pv, c := bufContent(x, p, args[0], pos)
				s := conv(x, p, args[1])
				x.store(p.st, pv, Concat(StrS, c, s), pv.elem)
				if !two {
					return nilErr(), true
				}
				return TupleV{Len(s), nilErr()}, true
			}
		}
		models[ty+".WriteRune"] = write(func(x *Exec, p *Path, v Value) *Term { return App("enc", StrS, v.(*Term)) }, true)
		models[ty+".WriteString"] = write(tm, true)
		models[ty+".Write"] = write(tm, true)
		models[ty+".WriteByte"] = write(func(x *Exec, p *Path, v Value) *Term { return Char(v.(*Term)) }, false)
		models[ty+".String"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
			_, c := bufContent(x, p, args[0], pos)
			return c, true
		}
		models[ty+".Len"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
			_, c := bufContent(x, p, args[0], pos)
			return Len(c), true
		}
		models[ty+".Reset"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
			pv, _ := bufContent(x, p, args[0], pos)
			x.store(p.st, pv, Str(""), pv.elem)
			return TupleV{}, true
		}
		models[ty+".Grow"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) { return TupleV{}, true }
	}
	models["(*bytes.Buffer).Bytes"] = models["(*bytes.Buffer).String"]

	forkModels["(*bufio.Reader).ReadRune"] = func(x *Exec, p *Path, args []Value, pos token.Pos) []Result {
		pv, c := bufContent(x, p, args[0], pos)
		ct := readerSort.ctors[0]
		rest, err := Sel(ct, 0, c), Sel(ct, 3, c)
		end := Eq(rest, Str(""))
		x.fact(p.st, Not(Eq(err, nilErr())))
		q := p.st.fork()
		var out []Result
		if q.branch(Not(end)) {
			r, w := App("rune_at", IntS, rest), App("rune_w", IntS, rest)
			x.store(q, pv, MkCtor(ct, Suffix(rest, w), rest, True, err), pv.elem)
			out = append(out, Result{q, TupleV{r, w, nilErr()}})
		}
		if p.st.branch(end) {
			x.store(p.st, pv, MkCtor(ct, Str(""), Sel(ct, 1, c), False, err), pv.elem)
			out = append(out, Result{p.st, TupleV{Int(0), Int(0), err}})
		}
		return out
	}
	models["(*bufio.Reader).UnreadRune"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		pv, c := bufContent(x, p, args[0], pos)
		ct := readerSort.ctors[0]
		can := Sel(ct, 2, c)
		x.store(p.st, pv, Ite(can, MkCtor(ct, Sel(ct, 1, c), Sel(ct, 1, c), False, Sel(ct, 3, c)), c), pv.elem)
		g := Const("g_bufio.ErrInvalidUnreadRune", errS)
		x.globalErr(p.st, g)
		return Ite(can, nilErr(), g), true
	}
	models["bufio.NewReader"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		ct := readerSort.ctors[0]
		var text, err *Term
		if iv, ok := args[0].(*IfaceV); ok && iv.dyn != nil {
			if t, ok := iv.v.(*Term); ok && t.op == OApp && t.name == "strings_NewReader" {
				text = t.args[0]
				err = Const("g_io.EOF", errS)
				x.globalErr(p.st, err)
			}
		}
		if text == nil {
			var t *Term
			if iv, ok := args[0].(*IfaceV); ok {
				t = x.toTerm(p.st, iv, iv.t)
			} else {
				t = args[0].(*Term)
			}
			text, err = App("reader_text", StrS, t), App("reader_err", errS, t)
			x.fact(p.st, Not(Eq(err, nilErr())))
		}
		c := x.newCell("reader", x.readerType())
		p.st.mem[c] = MkCtor(ct, text, Str(""), False, err)
		return &PtrV{cell: c, nilc: False, elem: x.readerType()}, true
	}
	models["strings.NewReader"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		return App("strings_NewReader", UnintSort("Ref_strings.Reader"), args[0].(*Term)), true
	}
	models["bytes.NewBufferString"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		t := x.bufferType()
		c := x.newCell("buffer", t)
		p.st.mem[c] = args[0]
		return &PtrV{cell: c, nilc: False, elem: t}, true
	}

	// utf8
	models["unicode/utf8.RuneCountInString"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		return Len(App("runes", SeqOf(IntS), tm(x, p, args[0]))), true
	}
	dec := func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		s := tm(x, p, args[0])
		return TupleV{App("rune_at", IntS, s), App("rune_w", IntS, s)}, true
	}
	models["unicode/utf8.DecodeRuneInString"] = dec
	models["unicode/utf8.DecodeRune"] = dec
	ldec := func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		s := tm(x, p, args[0])
		return TupleV{App("lrune_at", IntS, s), App("lrune_w", IntS, s)}, true
	}
	models["unicode/utf8.DecodeLastRuneInString"] = ldec
	models["unicode/utf8.DecodeLastRune"] = ldec
	models["unicode/utf8.RuneLen"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		r := args[0].(*Term)
		return Ite(validRune(r), Len(App("enc", StrS, r)), Int(-1)), true
	}

	models["unicode.In"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		ts := x.content(p.st, args[1])
		unfolders["uni_in"] = func(t *Term) *Term {
			r, l := t.args[0], t.args[1]
			return And(Not(Eq(Len(l), Int(0))), Or(App("ext_unicode.Is", BoolS, At(l, Int(0)), r), App("uni_in", BoolS, r, Suffix(l, Int(1)))))
		}
		r := args[0].(*Term)
		if ts.op == OUnit {
			return App("ext_unicode.Is", BoolS, ts.args[0], r), true
		}
		if ts.op == OConcat {
			var out []*Term
			for _, a := range ts.args {
				if a.op != OUnit {
					out = nil
					break
				}
				out = append(out, App("ext_unicode.Is", BoolS, a.args[0], r))
			}
			if out != nil {
				return Or(out...), true
			}
		}
		return App("uni_in", BoolS, r, ts), true
	}

	// strings
	s2 := func(f func(a, b *Term) *Term) model {
		return func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
			return f(args[0].(*Term), args[1].(*Term)), true
		}
	}
	models["strings.HasPrefix"] = s2(func(s, q *Term) *Term { return PrefixOf(q, s) })
	models["strings.HasSuffix"] = s2(func(s, q *Term) *Term {
		d := Sub(Len(s), Len(q))
		return And(Le(Int(0), d), Eq(Suffix(s, d), q))
	})
	models["strings.Contains"] = s2(func(s, q *Term) *Term { return Contains(s, q) })
	models["strings.Repeat"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		x.safe(p.st, "strings.Repeat: count is not negative", pos, Le(Int(0), args[1].(*Term)))
		return App("str_repeat", StrS, args[0].(*Term), args[1].(*Term)), true
	}
	models["strings.ContainsRune"] = s2(func(s, r *Term) *Term { return App("str_has_rune", BoolS, s, r) })
	var has func(s, r *Term) *Term
	has = func(s, r *Term) *Term {
		switch s.op {
		case OStrLit:
			var cs []*Term
			for _, c := range s.sval {
				cs = append(cs, Eq(r, Int(int64(c))))
			}
			return Or(cs...)
		case OIte:
			return Ite(s.args[0], has(s.args[1], r), has(s.args[2], r))
		}
		return App("str_has_rune", BoolS, s, r)
	}
	unfolders["str_has_rune"] = func(t *Term) *Term {
		s, r := t.args[0], t.args[1]
		if d := has(s, r); d != t {
			return d
		}
		return And(Not(Eq(s, Str(""))), Or(Eq(App("rune_at", IntS, s), r), App("str_has_rune", BoolS, Suffix(s, App("rune_w", IntS, s)), r)))
	}
	specFuel["str_has_rune"] = 3
	models["strings.Join"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		return App("str_join", StrS, tm(x, p, args[0]), args[1].(*Term)), true
	}
	unfolders["str_join"] = func(t *Term) *Term {
		s, sep := t.args[0], t.args[1]
		return Ite(Eq(Len(s), Int(0)), Str(""), Ite(Eq(Len(s), Int(1)), At(s, Int(0)),
			Concat(StrS, At(s, Int(0)), sep, App("str_join", StrS, Suffix(s, Int(1)), sep))))
	}

	// errors
	models["fmt.Errorf"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		if verbs, _ := formatVerbs(args[0]); verbs != nil {
			for i, v := range verbs {
				if v != "%w" {
					continue
				}
				e := At(x.content(p.st, args[1]), Int(int64(i)))
				if e.op == OApp && strings.HasSuffix(e.name, "_of_error") && e.args[0].sort == errS {
					x.errIsAxioms()
					return errValue(x, p, "err_wrap", append([]Value{e.args[0]}, args...)...), true
				}
			}
		}
		return errValue(x, p, "err_new", args...), true
	}
	models["fmt.Sprintf"] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		c := x.content(p.st, args[1])
		f := tm(x, p, args[0])
		if verbs, texts := formatVerbs(args[0]); texts != nil {
			out := []*Term{Str(texts[0])}
			for i, v := range verbs {
				e := At(c, Int(int64(i)))
				d := x.dynOf[e]
				if v != "%s" || d == nil {
					out = nil
					break
				}
				b, ok := types.Unalias(d.dyn).(*types.Basic)
				if !ok || b.Kind() != types.String {
					out = nil
					break
				}
				out = append(out, x.toTerm(p.st, d.v, d.dyn), Str(texts[i+1]))
			}
			if out != nil {
				return Concat(StrS, out...), true
			}
		}
		return App("sprintf", StrS, f, c), true
	}
	for _, n := range []string{"errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf"} {
		n := n
		models[n] = func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
			return errValue(x, p, "err_new", args...), true
		}
	}
	wrap := func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		e := args[0].(*Term)
		w := errValue(x, p, "err_wrap", args...)
		x.errIsAxioms()
		if k, ok := p.st.known(Not(Eq(e, nilErr()))); ok && k {
			return w, true
		}
		return Ite(Eq(e, nilErr()), nilErr(), w), true
	}
	models["github.com/pkg/errors.Wrap"] = wrap
	models["github.com/pkg/errors.Wrapf"] = wrap
	is := func(x *Exec, p *Path, args []Value, pos token.Pos) (Value, bool) {
		x.errIsAxioms()
		return App("err_is", BoolS, x.toTerm(p.st, args[0], types.Universe.Lookup("error").Type()), x.toTerm(p.st, args[1], types.Universe.Lookup("error").Type())), true
	}
	models["errors.Is"] = is
	models["github.com/pkg/errors.Is"] = is
}

// formatVerbs splits a constant format into its verbs and the texts around them.
func formatVerbs(v Value) (verbs, texts []string) {
	t, ok := v.(*Term)
	if !ok || t.op != OStrLit {
		return nil, nil
	}
	s, at := t.sval, 0
	verbs = []string{}
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '%' {
			if c := s[i+1]; c < 'a' || c > 'z' {
				return nil, nil
			}
			texts = append(texts, s[at:i])
			verbs = append(verbs, s[i:i+2])
			at = i + 2
			i++
		}
	}
	return verbs, append(texts, s[at:])
}

func (x *Exec) errIsAxioms() {
	if axiomFns["err_is"] != nil {
		return
	}
	axiomFns["err_is"] = []func(*Term) []*Term{func(t *Term) []*Term {
		e, g := t.args[0], t.args[1]
		out := []*Term{Implies(And(Eq(e, g), Not(Eq(e, nilErr()))), t), Implies(Eq(e, nilErr()), Eq(t, Eq(g, nilErr())))}
		var def func(e *Term) *Term
		def = func(e *Term) *Term {
			switch {
			case e == nilErr():
				return Eq(e, g)
			case e.op == OIte:
				return Ite(e.args[0], def(e.args[1]), def(e.args[2]))
			case e.op == OApp && strings.HasPrefix(e.name, "err_wrap"):
				return Or(Eq(e, g), App("err_is", BoolS, e.args[0], g))
			case e.op == OApp && strings.HasPrefix(e.name, "err_new"), e.op == OConst && strings.HasPrefix(e.name, "g_"):
				return Eq(e, g)
			}
			return t
		}
		if d := def(e); d != t {
			out = append(out, Eq(t, d))
		}
		return out
	}}
}

func (x *Exec) extType(pkg, name string) types.Type {
	for _, p := range x.w.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	fail("type %s.%s is not loaded", pkg, name)
	return nil
}

func (x *Exec) readerType() types.Type { return x.extType("bufio", "Reader") }
func (x *Exec) bufferType() types.Type { return x.extType("bytes", "Buffer") }

// specBuiltins are functions of contract files with a meaning of their own.
var specBuiltins = map[string]func(x *Exec, p *Path, args []Value, pos token.Pos) Value{}

func init() {
	rd := func(i int) func(x *Exec, p *Path, args []Value, pos token.Pos) Value {
		return func(x *Exec, p *Path, args []Value, pos token.Pos) Value {
			pv, ok := args[0].(*PtrV)
			if !ok {
				fail("reader %T", args[0])
			}
			return Sel(readerSort.ctors[0], i, x.load(p.st, pv).(*Term))
		}
	}
	specBuiltins["cvRest"] = rd(0) // what is not read yet
	specBuiltins["cvPrev"] = rd(1) // what was not read before the last rune
	specBuiltins["cvCan"] = rd(2)  // whether UnreadRune succeeds
	specBuiltins["cvErr"] = rd(3)  // the error at the end
}
