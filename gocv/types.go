package main

// Go types to SMT sorts.

import (
	"fmt"
	"go/types"
	"strings"
)

type unsupported struct{ msg string }

func fail(f string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func (w *World) inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func shortName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func isNamed(t types.Type, names ...string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	for _, x := range names {
		if s == x {
			return true
		}
	}
	return false
}

func isBuffer(t types.Type) bool { return isNamed(t, "bytes.Buffer", "strings.Builder") }
func isReader(t types.Type) bool { return isNamed(t, "bufio.Reader") }

func isErrorType(t types.Type) bool {
	return types.Identical(types.Unalias(t), types.Universe.Lookup("error").Type())
}

// isRef tells whether a pointer type is modelled as an immutable reference.
func (w *World) isRef(t types.Type) bool {
	p, ok := types.Unalias(t).(*types.Pointer)
	if !ok {
		return false
	}
	e := types.Unalias(p.Elem())
	if isBuffer(e) || isReader(e) {
		return false
	}
	n, ok := e.(*types.Named)
	if !ok {
		return false
	}
	if w.immutable[shortName(e)] {
		return true
	}
	return !w.inRepo(n.Obj().Pkg()) && !w.immutable["struct:"+shortName(e)]
}

var structSorts = map[string]*Sort{}

// readerSort is the ghost state of a bufio.Reader.
var readerSort = func() *Sort {
	s := &Sort{kind: SData, name: "BufioReader"}
	s.ctors = []*Ctor{{name: "mk_BufioReader", data: s, fields: []CField{
		{"rd_rest", StrS}, {"rd_prev", StrS}, {"rd_can", BoolS}, {"rd_err", UnintSort("Err")},
	}}}
	return s
}()

func (w *World) sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	if isBuffer(t) {
		return StrS
	}
	if isReader(t) {
		return readerSort
	}
	if isErrorType(t) {
		return UnintSort("Err")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return BoolS
		case u.Info()&types.IsInteger != 0:
			return IntS
		case u.Info()&types.IsString != 0:
			return StrS
		}
		return UnintSort("B_" + u.Name())
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return StrS
		}
		return SeqOf(w.sortOf(u.Elem()))
	case *types.Array:
		nm := "Arr_" + mangle(t.String())
		if s := structSorts[nm]; s != nil {
			return s
		}
		s := &Sort{kind: SData, name: nm}
		structSorts[nm] = s
		c := &Ctor{name: "mk_" + nm, data: s}
		for i := 0; i < int(u.Len()); i++ {
			c.fields = append(c.fields, CField{fmt.Sprintf("%s_%d", nm, i), w.sortOf(u.Elem())})
		}
		s.ctors = []*Ctor{c}
		return s
	case *types.Struct:
		nm := "S_" + mangle(typeName(t))
		if s := structSorts[nm]; s != nil {
			return s
		}
		if n, ok := t.(*types.Named); ok && !w.inRepo(n.Obj().Pkg()) {
			ok := true
			for i := 0; i < u.NumFields(); i++ {
				if !u.Field(i).Exported() {
					ok = false
				}
			}
			if !ok && !w.immutable["struct:"+shortName(t)] {
				return UnintSort(nm)
			}
		}
		s := &Sort{kind: SData, name: nm}
		structSorts[nm] = s
		c := &Ctor{name: "mk_" + nm, data: s}
		for i := 0; i < u.NumFields(); i++ {
			c.fields = append(c.fields, CField{fmt.Sprintf("%s.%s", nm, mangle(u.Field(i).Name())), w.sortOf(u.Field(i).Type())})
		}
		s.ctors = []*Ctor{c}
		return s
	case *types.Pointer:
		if w.isRef(t) {
			return UnintSort("Ref_" + mangle(typeName(u.Elem())))
		}
		return OptOf(w.sortOf(u.Elem()))
	case *types.Map:
		return ArrOf(w.sortOf(u.Key()), OptOf(w.sortOf(u.Elem())))
	case *types.Interface:
		if cl := w.closedImpls(t); cl != nil {
			nm := "I_" + mangle(typeName(t))
			if s := structSorts[nm]; s != nil {
				return s
			}
			s := &Sort{kind: SData, name: nm}
			structSorts[nm] = s
			s.ctors = []*Ctor{{name: "nil_" + nm, data: s, idx: 0}}
			for i, it := range cl {
				vt := it
				if p, ok := it.(*types.Pointer); ok {
					vt = p.Elem()
				}
				s.ctors = append(s.ctors, &Ctor{name: fmt.Sprintf("is_%s_%d", nm, i), data: s, idx: i + 1,
					fields: []CField{{fmt.Sprintf("val_%s_%d", nm, i), w.sortOf(vt)}}})
			}
			return s
		}
		return UnintSort("I_" + mangle(typeName(t)))
	case *types.Signature:
		return UnintSort("F_" + mangle(typeName(u)))
	}
	fail("no sort for type %s", t)
	return nil
}

// closedImpls gives the dynamic types of a closed interface.
func (w *World) closedImpls(t types.Type) []types.Type {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil
	}
	names := w.closed[shortName(t)]
	if names == nil {
		return nil
	}
	var out []types.Type
	for _, nm := range names {
		ptr := strings.HasPrefix(nm, "*")
		nm = strings.TrimPrefix(nm, "*")
		o := n.Obj().Pkg().Scope().Lookup(nm)
		if o == nil {
			fail("closed interface %s: no type %s", t, nm)
		}
		ty := o.Type()
		if ptr {
			ty = types.NewPointer(ty)
		}
		out = append(out, ty)
	}
	return out
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	fail("elemType of %s", t)
	return nil
}

func nilOf(s *Sort) *Term { return Const("nil!"+s.name, s) }

func structFieldNames(t interface{ String() string }) []string {
	ty, ok := t.(types.Type)
	if !ok || ty == nil {
		return nil
	}
	su, ok := ty.Underlying().(*types.Struct)
	if !ok {
		var out []string
		for i := range fieldTypes(ty) {
			out = append(out, fmt.Sprint(i))
		}
		return out
	}
	var out []string
	for i := 0; i < su.NumFields(); i++ {
		out = append(out, su.Field(i).Name())
	}
	return out
}
