package main

// Loads the packages under verification together with their contract files.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/hangulize/hangulize"

type Clause struct {
	kind   string // requires, ensures, invariant, measure, decreases, panics, lemma
	target string
	label  string
	fn     *ssa.Function
	pkg    *ssa.Package
}

// Contract collects the clauses of one target function.
type Contract struct {
	target    string // ssa function string
	fn        *ssa.Function
	requires  []*Clause
	ensures   []*Clause
	panics    []*Clause
	decreases []*Clause
	modifies  map[string]bool
	nilable   map[string]bool
	fresh     bool
	pure      bool
	external  bool // assumed, not verified
	props     []string
	names     []string // parameter names used by the clauses, by position
	pos       string
	inline    bool // contract is for verification only; callers inline
	nresults  int
}

type World struct {
	repo           string
	prog           *ssa.Program
	fset           *token.FileSet
	pkgs           map[string]*ssa.Package
	contracts      map[*ssa.Function]*Contract
	externs        map[string]*Contract // by function string
	invs           []*Clause            // invariants and measures
	lemmas         map[*ssa.Function]*Clause
	immutable      map[string]bool
	closed         map[string][]string
	missing        []string // contract targets that do not exist
	specPos        map[string]bool
	specFns        map[*ssa.Function]bool
	opaque         map[*ssa.Function]bool
	recursive      map[*ssa.Function]bool
	callbacks      map[string]*ssa.Function // struct field -> stub
	entries        map[string]*types.Named  // map type string -> entry type
	fuel           map[*ssa.Function]int
	axioms         []*Clause
	loadErrs       []string
	helpers        map[string]bool // targets that need not exist
	droppedClauses []string
	typeErrs       []packages.Error
	byName         map[string]*ssa.Function
	assumed        []string
	ginf           map[*ssa.Global]*globalInf
	ginit          map[*ssa.Package]map[*ssa.Global]Value
}

func contractFiles(dir string) (map[string][]string, error) {
	out := map[string][]string{}
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	err := filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(dir, filepath.Dir(p))
		out[rel] = append(out[rel], p)
		return nil
	})
	return out, err
}

// loadWorld loads the given repository-relative packages.
// Contract clauses that do not fit the current code (they name locals or
// fields that are gone) are left out: the proof has to do without them.
func loadWorld(repo, cdir string, rels []string) (*World, error) {
	blank := map[string][]blanked{}
	var dropped []string
	for round := 0; ; round++ {
		w, err := loadWorld1(repo, cdir, rels, blank)
		if err != nil || len(w.loadErrs) == 0 || round >= 4 {
			if w != nil {
				w.droppedClauses = append(w.droppedClauses, dropped...)
				for _, l := range blank {
					for _, b := range l {
						if b.essential {
							w.missing = append(w.missing, b.name+" (a clause of the property does not fit the code: "+b.err+")")
						}
					}
				}
			}
			return w, err
		}
		n := 0
		for _, e := range w.typeErrs {
			b, file, ok := clauseAt(e)
			if !ok {
				continue
			}
			dup := false
			for _, o := range blank[file] {
				dup = dup || o.name == b.name
			}
			if !dup {
				blank[file] = append(blank[file], b)
				dropped = append(dropped, b.name+": "+b.err)
				n++
			}
		}
		if n == 0 {
			return w, nil
		}
	}
}

// blanked is a clause function that does not type-check.
type blanked struct {
	name      string
	essential bool
	err       string
}

// clauseAt finds the clause function of a type error in a contract file.
func clauseAt(e packages.Error) (b blanked, file string, ok bool) {
	ps := strings.SplitN(e.Pos, ":", 3)
	if len(ps) < 2 || !strings.HasPrefix(filepath.Base(ps[0]), "zz_cv_") {
		return
	}
	line, _ := strconv.Atoi(ps[1])
	src := curOverlay[ps[0]]
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, ps[0], src, parser.ParseComments)
	if err != nil {
		return
	}
	for _, d := range f.Decls {
		fd, is := d.(*ast.FuncDecl)
		if !is || fset.Position(fd.Pos()).Line > line || fset.Position(fd.End()).Line < line {
			continue
		}
		b = blanked{name: fd.Name.Name, err: e.Msg, essential: true}
		if fd.Doc != nil {
			for _, c := range fd.Doc.List {
				fs := strings.Fields(c.Text)
				if len(fs) == 0 {
					continue
				}
				switch fs[0] {
				case "//cv:invariant", "//cv:measure", "//cv:helper":
					b.essential = false
				}
			}
		}
		return b, ps[0], true
	}
	return
}

// blankOut removes functions from a source file.
func blankOut(name string, src []byte, bs []blanked) []byte {
	if len(bs) == 0 {
		return src
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return src
	}
	out := append([]byte{}, src...)
	for _, d := range f.Decls {
		fd, is := d.(*ast.FuncDecl)
		if !is {
			continue
		}
		for _, b := range bs {
			if b.name != fd.Name.Name {
				continue
			}
			from := fd.Pos()
			if fd.Doc != nil {
				from = fd.Doc.Pos()
			}
			for i := fset.Position(from).Offset; i < fset.Position(fd.End()).Offset; i++ {
				if out[i] != '\n' {
					out[i] = ' '
				}
			}
		}
	}
	return out
}

var curOverlay map[string][]byte

func loadWorld1(repo, cdir string, rels []string, blank map[string][]blanked) (*World, error) {
	w := &World{repo: repo, pkgs: map[string]*ssa.Package{}, contracts: map[*ssa.Function]*Contract{}, externs: map[string]*Contract{},
		helpers: map[string]bool{}, lemmas: map[*ssa.Function]*Clause{}, immutable: map[string]bool{}, closed: map[string][]string{}, specPos: map[string]bool{},
		specFns: map[*ssa.Function]bool{}, opaque: map[*ssa.Function]bool{}, recursive: map[*ssa.Function]bool{}, callbacks: map[string]*ssa.Function{},
		entries: map[string]*types.Named{}, fuel: map[*ssa.Function]int{}, byName: map[string]*ssa.Function{}}
	files, err := contractFiles(cdir)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	specFiles := map[string]bool{}
	var pats []string
	for _, rel := range rels {
		if rel == "." {
			pats = append(pats, modPath)
		} else {
			pats = append(pats, modPath+"/"+rel)
		}
		for _, f := range files[rel] {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			p := filepath.Join(repo, rel, "zz_cv_"+filepath.Base(f))
			overlay[p] = blankOut(p, b, blank[p])
			specFiles[p] = true
		}
	}
	curOverlay = overlay
	pats = append(pats, "github.com/suapapa/go_hangul")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes |
			packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedExportFile | packages.NeedDeps | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off"),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			w.loadErrs = append(w.loadErrs, e.Error())
			w.typeErrs = append(w.typeErrs, e)
		}
	}
	if len(w.loadErrs) > 0 {
		return w, nil
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.GlobalDebug|ssa.InstantiateGenerics)
	w.prog = prog
	w.fset = prog.Fset
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no ssa package for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		w.pkgs[pkgs[i].PkgPath] = sp
	}
	for fn := range ssautil.AllFunctions(prog) {
		w.byName[fn.String()] = fn
	}
	// Directives.
	for i, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if !specFiles[name] {
				continue
			}
			w.directives(p, spkgs[i], f)
		}
	}
	// Spec functions.
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pos().IsValid() && specFiles[w.fset.Position(fn.Pos()).Filename] {
			w.specFns[fn] = true
		}
	}
	w.findRecursive()
	var miss []string
	for _, m := range w.missing {
		if !w.helpers[m] {
			miss = append(miss, m)
		} else {
			w.droppedClauses = append(w.droppedClauses, "contract of "+m+", which is gone")
		}
	}
	w.missing = miss
	return w, nil
}

func (w *World) findRecursive() {
	// strongly connected spec functions (small graphs: plain reachability)
	callees := map[*ssa.Function][]*ssa.Function{}
	for fn := range w.specFns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && w.specFns[f] {
						callees[fn] = append(callees[fn], f)
					}
				}
			}
		}
	}
	for fn := range w.specFns {
		seen := map[*ssa.Function]bool{}
		var dfs func(f *ssa.Function)
		dfs = func(f *ssa.Function) {
			for _, c := range callees[f] {
				if !seen[c] {
					seen[c] = true
					dfs(c)
				}
			}
		}
		dfs(fn)
		if seen[fn] {
			w.recursive[fn] = true
		}
	}
}

// lookup resolves a target name relative to a package.
func (w *World) lookup(pkg *ssa.Package, target string) *ssa.Function {
	if fn := w.byName[target]; fn != nil && (strings.Contains(target, ".")) {
		if fn.Pkg == pkg || fn.Pkg == nil || strings.Contains(target, "/") {
			return fn
		}
	}
	pp := pkg.Pkg.Path()
	var full string
	switch {
	case strings.HasPrefix(target, "(*"):
		full = "(*" + pp + "." + target[2:]
	case strings.HasPrefix(target, "("):
		full = "(" + pp + "." + target[1:]
	default:
		full = pp + "." + target
	}
	return w.byName[full]
}

func (w *World) contract(pkg *ssa.Package, target string) *Contract {
	if strings.HasPrefix(target, "ext:") {
		t := strings.TrimPrefix(target, "ext:")
		c := w.externs[t]
		if c == nil {
			c = &Contract{target: t, external: true, modifies: map[string]bool{}, nilable: map[string]bool{}}
			w.externs[t] = c
		}
		return c
	}
	fn := w.lookup(pkg, target)
	if fn == nil {
		for _, m := range w.missing {
			if m == pkg.Pkg.Path()+" "+target {
				return nil
			}
		}
		w.missing = append(w.missing, pkg.Pkg.Path()+" "+target)
		return nil
	}
	c := w.contracts[fn]
	if c == nil {
		c = &Contract{target: fn.String(), fn: fn, modifies: map[string]bool{}, nilable: map[string]bool{}}
		w.contracts[fn] = c
	}
	return c
}

func (w *World) directives(p *packages.Package, sp *ssa.Package, f *ast.File) {
	handled := map[*ast.CommentGroup]bool{}
	for _, d := range f.Decls {
		var fn *ssa.Function
		var doc *ast.CommentGroup
		switch d := d.(type) {
		case *ast.FuncDecl:
			doc = d.Doc
			if obj, ok := p.TypesInfo.Defs[d.Name].(*types.Func); ok {
				fn = w.prog.FuncValue(obj)
			}
		case *ast.GenDecl:
			doc = d.Doc
			if doc != nil {
				for _, c := range doc.List {
					fs := strings.Fields(c.Text)
					if len(fs) >= 2 && fs[0] == "//cv:entry" {
						for _, s := range d.Specs {
							if ts, ok := s.(*ast.TypeSpec); ok {
								w.entries[strings.Join(fs[1:], " ")] = p.TypesInfo.Defs[ts.Name].Type().(*types.Named)
							}
						}
						handled[doc] = true
					}
				}
			}
		}
		if doc == nil || fn == nil {
			continue
		}
		handled[doc] = true
		for _, c := range doc.List {
			w.directive(sp, fn, c)
		}
	}
	for _, g := range f.Comments {
		if handled[g] {
			continue
		}
		for _, c := range g.List {
			w.directive(sp, nil, c)
		}
	}
}

func (w *World) directive(sp *ssa.Package, fn *ssa.Function, cm *ast.Comment) {
	if !strings.HasPrefix(cm.Text, "//cv:") {
		return
	}
	fs := strings.Fields(strings.TrimPrefix(cm.Text, "//cv:"))
	kind := fs[0]
	fs = fs[1:]
	bad := func() { panic(fmt.Sprintf("bad directive %s at %s", cm.Text, w.fset.Position(cm.Pos()))) }
	names := func() []string {
		var ns []string
		for _, p := range fn.Params {
			ns = append(ns, p.Name())
		}
		return ns
	}
	clause := func() *Clause {
		if fn == nil || len(fs) < 1 {
			bad()
		}
		return &Clause{kind: kind, target: fs[0], label: strings.Join(fs[1:], " "), fn: fn, pkg: sp}
	}
	switch kind {
	case "requires", "ensures", "panics", "decreases":
		cl := clause()
		if cl.label == "" {
			cl.label = fn.Name()
		}
		c := w.contract(sp, fs[0])
		if c == nil {
			return
		}
		if c.external && kind == "ensures" {
			w.assumed = append(w.assumed, "contract of "+c.target+": "+fn.Name())
		}
		switch kind {
		case "requires":
			c.requires = append(c.requires, cl)
		case "ensures":
			c.ensures = append(c.ensures, cl)
		case "panics":
			c.panics = append(c.panics, cl)
		case "decreases":
			c.decreases = append(c.decreases, cl)
		}
		if len(names()) > len(c.names) {
			c.names = names()
		}
	case "invariant", "measure":
		w.invs = append(w.invs, clause())
	case "lemma":
		w.lemmas[fn] = &Clause{kind: kind, target: fn.String(), label: fn.Name(), fn: fn, pkg: sp}
		for _, p := range fs {
			w.lemmas[fn].label = p
		}
	case "axiom":
		w.axioms = append(w.axioms, &Clause{kind: kind, target: strings.Join(fs, " "), label: fn.Name(), fn: fn, pkg: sp})
		w.assumed = append(w.assumed, "axiom "+fn.String())
	case "modifies", "nilable":
		c := w.contract(sp, fs[0])
		if c == nil {
			return
		}
		for _, n := range fs[1:] {
			if kind == "modifies" {
				c.modifies[n] = true
			} else {
				c.nilable[n] = true
			}
		}
	case "pure", "inline", "fresh":
		if c := w.contract(sp, fs[0]); c != nil {
			switch kind {
			case "pure":
				c.pure = true
			case "inline":
				c.inline = true
			case "fresh":
				c.fresh = true
			}
		}
	case "helper":
		for _, t := range fs {
			w.helpers[sp.Pkg.Path()+" "+t] = true
		}
	case "props":
		if c := w.contract(sp, fs[0]); c != nil {
			c.props = append(c.props, fs[1:]...)
		}
	case "immutable":
		for _, n := range fs {
			w.immutable[n] = true
		}
	case "closed":
		w.closed[fs[0]] = fs[1:]
	case "callback":
		w.callbacks[fs[0]] = fn
	case "opaque":
		w.opaque[fn] = true
	case "fuel":
		n, err := strconv.Atoi(fs[0])
		if err != nil {
			bad()
		}
		w.fuel[fn] = n
	case "entry":
	default:
		bad()
	}
}

// roots are the contracts that carry a property.
func (w *World) roots(prop string) []*Contract {
	var out []*Contract
	for _, c := range w.contracts {
		for _, p := range c.props {
			if p == prop {
				out = append(out, c)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].target < out[j].target })
	return out
}
