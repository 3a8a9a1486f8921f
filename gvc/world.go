package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/coveooss/gotemplate/v3"
const rtPath = modPath + "/zzgvc/rt"

// Spec is one specification function.
type Spec struct {
	Name     string // package.Func
	Func     string
	fn       *ssa.Function
	Props    []string
	Contract string // function (or interface method) this is the contract of
	Iface    bool
	Opts     map[string]string
	Pkg      string
	File     string
}

// World is the loaded program.
type World struct {
	repo                      string
	prog                      *ssa.Program
	pkgs                      []*packages.Package
	specs                     []*Spec
	byFunc                    map[string]*Spec // contract of that function
	pureFn, opaqueFn, namedFn map[string]bool
	consts                    map[string]*constGlobal
	overlay                   map[string]string // path in repo -> path in verif
	impls                     map[string][]types.Type
	stores                    map[*ssa.Global][]ssa.Instruction
	escapes                   map[*ssa.Global]bool
	allPkgs                   map[string]*ssa.Package
	mined                     map[string]bool
	lemmas                    map[string]bool
	// specifications whose file does not compile against the code any more
	lost, lostHelper map[string]bool
	lostProps        map[string][]string
	lostWhy          string
}

var dropFiles []string

// loadDropping leaves out the specification files that no longer compile.
func loadDropping(repo, specs string) (*World, error) {
	why := ""
	dropFiles = nil
	for try := 0; ; try++ {
		w, err := load(repo, specs, false)
		if err == nil {
			w.lostWhy = why
			w.lost, w.lostHelper, w.lostProps = map[string]bool{}, map[string]bool{}, map[string][]string{}
			for _, f := range dropFiles {
				w.scanLost(f)
			}
			return w, nil
		}
		n := len(dropFiles)
		for r, p := range specFiles(repo, specs) {
			if strings.Contains(err.Error(), r) && !strings.Contains(r, "/zzgvc/rt/") {
				dropFiles = append(dropFiles, p)
			}
		}
		if len(dropFiles) == n || try > 4 {
			return nil, err
		}
		why += err.Error()
	}
}

// scanLost notes the specifications of a file that was left out.
func (w *World) scanLost(file string) {
	b, _ := os.ReadFile(file)
	pkg := ""
	var props []string
	helper := false
	for _, l := range strings.Split(string(b), "\n") {
		switch {
		case strings.HasPrefix(l, "package "):
			pkg = strings.Fields(l)[1]
		case strings.HasPrefix(l, "//gvc:prop "):
			props = append(props, strings.Fields(l)[1:]...)
		case strings.HasPrefix(l, "//gvc:opt ") && strings.Contains(l, "helper"):
			helper = true
		case strings.HasPrefix(l, "func "):
			n := strings.TrimPrefix(l, "func ")
			if i := strings.IndexAny(n, "([ "); i > 0 && len(props) > 0 {
				n = pkg + "." + n[:i]
				w.lost[n], w.lostHelper[n], w.lostProps[n] = true, helper, props
			}
			props, helper = nil, false
		}
	}
}

// contractLost: the function the contract is for does not exist any more.
func (w *World) contractLost(s *Spec) bool { return false }

// mineStatic collects constants of the repository functions a specification reaches by static calls.
func (w *World) mineStatic(s *Spec) (ints []int64, strs []string) {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, d int)
	visit = func(f *ssa.Function, d int) {
		if f == nil || seen[f] || d > 6 || !w.inRepo(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					visit(c.Common().StaticCallee(), d+1)
				}
				if m, ok := ins.(*ssa.MakeClosure); ok {
					visit(m.Fn.(*ssa.Function), d+1)
				}
			}
		}
	}
	visit(s.fn, 0)
	is, ss := w.mine(seen)
	for _, i := range is {
		if v, e := strconv.ParseInt(i, 10, 64); e == nil {
			ints = append(ints, v)
		}
	}
	return ints, ss
}

type constGlobal struct {
	v  Value
	ok bool
}

// specFiles lists the specification files and where they appear in the repository.
func specFiles(repo, specs string) map[string]string {
	m := map[string]string{}
	filepath.Walk(specs, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(specs, p)
		if strings.HasPrefix(rel, "rt/") {
			rel = "zzgvc/" + rel
		}
		m[filepath.Join(repo, rel)] = p
		return nil
	})
	return m
}

func load(repo, specs string, tests bool) (*World, error) {
	w := &World{repo: repo, byFunc: map[string]*Spec{}, opaqueFn: map[string]bool{}, namedFn: map[string]bool{}, pureFn: map[string]bool{}, consts: map[string]*constGlobal{}, impls: map[string][]types.Type{}, stores: map[*ssa.Global][]ssa.Instruction{}, escapes: map[*ssa.Global]bool{}, allPkgs: map[string]*ssa.Package{}, lemmas: map[string]bool{}}
	w.overlay = specFiles(repo, specs)
	for r, p := range w.overlay {
		if contains(dropFiles, p) {
			delete(w.overlay, r)
		}
	}
	ov := map[string][]byte{}
	pats := []string{"./..."}
	seen := map[string]bool{}
	for r, p := range w.overlay {
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		ov[r] = b
		d, _ := filepath.Rel(repo, filepath.Dir(r))
		if strings.HasPrefix(d, "zzgvc") && !seen[d] && !strings.HasSuffix(r, "_test.go") {
			seen[d] = true
			pats = append(pats, "./"+d)
		}
	}
	sort.Strings(pats[1:])
	os.Setenv("PATH", goBin+":"+os.Getenv("PATH"))
	os.Setenv("GOTOOLCHAIN", "local")
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: ov, Env: os.Environ()}
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	bad := ""
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			bad += e.Error() + "\n"
		}
	})
	if bad != "" {
		return nil, fmt.Errorf("load: %s", bad)
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	w.prog, w.pkgs = prog, pk
	for _, p := range prog.AllPackages() {
		w.allPkgs[p.Pkg.Path()] = p
		if strings.HasPrefix(p.Pkg.Path(), modPath) || strings.HasPrefix(p.Pkg.Path(), "github.com/coveooss/multilogger") {
			p.Build()
		}
	}
	w.scanGlobals()
	w.scanSpecs()
	return w, nil
}

func (w *World) build(fn *ssa.Function) {
	if fn.Pkg != nil {
		fn.Pkg.Build()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
}

func fnPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkg(fn.Parent())
	}
	return ""
}

func (w *World) inRepo(fn *ssa.Function) bool {
	p := fnPkg(fn)
	if strings.HasPrefix(p, modPath) {
		return true
	}
	if fn.Synthetic != "" && fn.Pkg == nil { // wrappers, bound methods
		return true
	}
	return false
}

// isSpecFile: functions written for the verification.
func (w *World) isSpecFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	f := w.prog.Fset.Position(fn.Pos()).Filename
	return strings.Contains(filepath.Base(f), "zz_gvc") || strings.Contains(f, "/zzgvc/")
}

func (w *World) scanSpecs() {
	for _, p := range w.pkgs {
		for _, f := range p.Syntax {
			fname := w.prog.Fset.Position(f.Pos()).Filename
			src, isOv := w.overlay[fname]
			if !isOv {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				dirs := map[string][]string{}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//gvc:") {
						t := strings.SplitN(strings.TrimPrefix(c.Text, "//gvc:"), " ", 2)
						a := ""
						if len(t) > 1 {
							a = strings.TrimSpace(t[1])
						}
						dirs[t[0]] = append(dirs[t[0]], a)
					}
				}
				sp := w.allPkgs[p.PkgPath]
				fn := sp.Func(fd.Name.Name)
				if fn == nil {
					continue
				}
				if _, ok := dirs["opaque"]; ok {
					w.opaqueFn[fn.String()] = true
				}
				if _, ok := dirs["named"]; ok {
					w.namedFn[fn.String()] = true
				}
				if _, ok := dirs["pure"]; ok {
					w.pureFn[fn.String()] = true
				}
				if len(dirs["prop"]) == 0 && len(dirs["contract"]) == 0 {
					continue
				}
				s := &Spec{Name: p.Name + "." + fd.Name.Name, Func: fd.Name.Name, fn: fn, Opts: map[string]string{}, Pkg: p.PkgPath, File: src}
				for _, l := range dirs["prop"] {
					s.Props = append(s.Props, strings.Fields(l)...)
				}
				for _, o := range dirs["opt"] {
					for _, kv := range strings.Fields(o) {
						q := strings.SplitN(kv, "=", 2)
						if len(q) == 1 {
							q = append(q, "1")
						}
						s.Opts[q[0]] = q[1]
					}
				}
				for _, kv := range dirs["cases"] {
					q := strings.SplitN(kv, "=", 2)
					s.Opts["cases."+strings.TrimSpace(q[0])] = q[1]
				}
				for _, c := range dirs["contract"] {
					c = strings.ReplaceAll(c, "~", modPath)
					s.Contract = c
					w.byFunc[c] = s
				}
				w.specs = append(w.specs, s)
			}
		}
	}
	sort.Slice(w.specs, func(i, j int) bool { return w.specs[i].Name < w.specs[j].Name })
}

// ---- globals ----

func (w *World) scanGlobals() {
	for path, p := range w.allPkgs {
		if !strings.HasPrefix(path, modPath) && !strings.HasPrefix(path, "github.com/coveooss/multilogger") {
			continue
		}
		var visit func(fn *ssa.Function)
		visit = func(fn *ssa.Function) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok {
						if g := rootGlobal(st.Addr); g != nil {
							w.stores[g] = append(w.stores[g], st)
						}
						if g, ok := st.Val.(*ssa.Global); ok {
							w.escapes[g] = true
						}
						continue
					}
					for _, op := range ins.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok {
							continue
						}
						switch i := ins.(type) {
						case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
							_ = i
						default:
							w.escapes[g] = true
						}
					}
				}
			}
			for _, a := range fn.AnonFuncs {
				visit(a)
			}
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				visit(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := w.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := w.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == p {
							visit(f)
						}
					}
				}
			}
		}
	}
}

func rootGlobal(v ssa.Value) *ssa.Global {
	switch a := v.(type) {
	case *ssa.Global:
		return a
	case *ssa.FieldAddr:
		return rootGlobal(a.X)
	case *ssa.IndexAddr:
		return rootGlobal(a.X)
	}
	return nil
}

// constant reports the value of a global that only its package initializer writes.
func (x *Exec) constGlobal(g *ssa.Global) (Value, bool) {
	w := x.w
	key := g.String()
	if c, ok := w.consts[key]; ok {
		return c.v, c.ok
	}
	w.consts[key] = &constGlobal{}
	if g.Pkg == nil || w.escapes[g] || !strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/coveooss/") {
		return nil, false
	}
	st := w.stores[g]
	for _, s := range st {
		fn := s.Parent()
		if fn.Name() != "init" || fn.Synthetic == "" || fn.Pkg != g.Pkg {
			return nil, false
		}
	}
	t := deref(g.Type())
	var v Value
	ok := true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(unsupported); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		if len(st) == 0 {
			v = x.zero(t)
			return
		}
		v = nil
		for _, ins := range st {
			s := ins.(*ssa.Store)
			e, k := x.constEval(s.Val, 0)
			if !k {
				ok = false
				return
			}
			switch a := s.Addr.(type) {
			case *ssa.Global:
				v = e
			case *ssa.FieldAddr:
				if a.X != ssa.Value(g) {
					ok = false
					return
				}
				if v == nil {
					v = x.zero(t)
				}
				sv := v.(*StructV)
				n := &StructV{sv.typ, append([]Value{}, sv.f...)}
				n.f[a.Field] = e
				v = n
			default:
				ok = false
			}
		}
	}()
	if !ok || v == nil {
		return nil, false
	}
	w.consts[key] = &constGlobal{v, true}
	return v, true
}

func (x *Exec) constEval(v ssa.Value, depth int) (Value, bool) {
	if depth > 20 {
		return nil, false
	}
	switch a := v.(type) {
	case *ssa.Const:
		return x.constVal(a), true
	case *ssa.Function:
		return &FuncV{fn: a}, true
	case *ssa.MakeInterface:
		e, ok := x.constEval(a.X, depth+1)
		return &IfaceV{types.Unalias(a.X.Type()), e}, ok
	case *ssa.ChangeInterface:
		return x.constEval(a.X, depth+1)
	case *ssa.ChangeType:
		e, ok := x.constEval(a.X, depth+1)
		if !ok {
			return nil, false
		}
		return x.changeType(e, a.Type()), true
	case *ssa.Convert:
		e, ok := x.constEval(a.X, depth+1)
		if t, is := e.(*Term); ok && is && (t.op == "str" && basicKindIsString(a.Type())) {
			return t, true
		}
		if t, is := e.(*Term); ok && is && isInt(t) {
			if b, isb := under(a.Type()).(*types.Basic); isb && b.Info()&types.IsInteger != 0 {
				return t, true
			}
		}
	case *ssa.UnOp:
		switch p := a.X.(type) {
		case *ssa.Global:
			return x.constGlobal(p)
		case *ssa.Alloc: // composite literal
			return x.constAlloc(p, depth)
		}
	case *ssa.BinOp:
		l, ok1 := x.constEval(a.X, depth+1)
		r, ok2 := x.constEval(a.Y, depth+1)
		if ok1 && ok2 {
			p, k1 := l.(*Term)
			q, k2 := r.(*Term)
			if k1 && k2 && p.sort == SStr && a.Op.String() == "+" {
				return strCat(p, q), true
			}
		}
	case *ssa.TypeAssert:
		if a.CommaOk {
			return nil, false
		}
		e, ok := x.constEval(a.X, depth+1)
		if iv, is := e.(*IfaceV); ok && is && iv.typ != nil && !isIface(a.AssertedType) && types.Identical(iv.typ, a.AssertedType) {
			return iv.v, true
		}
	case *ssa.Lookup:
		// an entry of a table of functions published by a dependency
		call, ok := a.X.(*ssa.Call)
		key, okK := x.constEval(a.Index, depth+1)
		kt, isT := key.(*Term)
		if !ok || !okK || !isT || kt.op != "str" || call.Call.StaticCallee() == nil {
			return nil, false
		}
		if f := call.Call.StaticCallee(); f.String() == "github.com/Masterminds/sprig/v3.GenericFuncMap" {
			return x.tableEntry(f.Pkg, "genericMap", kt.str, depth)
		}
	case *ssa.Call:
		if f := a.Call.StaticCallee(); f != nil && !a.Call.IsInvoke() {
			var args []*Term
			for _, e := range a.Call.Args {
				c, ok := x.constEval(e, depth+1)
				if !ok {
					return nil, false
				}
				t, ok := c.(*Term)
				if !ok {
					return nil, false
				}
				args = append(args, t)
			}
			switch f.String() {
			case "strings.ToLower":
				if args[0].op == "str" {
					return strT(strings.ToLower(args[0].str)), true
				}
			}
		}
	}
	return nil, false
}

// tableEntry is the value the initializer of a package puts under a key of one of its maps.
func (x *Exec) tableEntry(pkg *ssa.Package, global, key string, depth int) (Value, bool) {
	pkg.Build()
	g, _ := pkg.Members[global].(*ssa.Global)
	init := pkg.Func("init")
	if g == nil || init == nil {
		return nil, false
	}
	var table ssa.Value
	var found []ssa.Value
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				if table != nil {
					return nil, false
				}
				table = s.Val
			}
		}
	}
	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			if u, ok := ins.(*ssa.MapUpdate); ok && u.Map == table {
				c, ok := u.Key.(*ssa.Const)
				if !ok || c.Value == nil {
					return nil, false
				}
				if t, ok := x.constVal(c).(*Term); ok && t.op == "str" && t.str == key {
					found = append(found, u.Value)
				}
			}
		}
	}
	if len(found) != 1 {
		return nil, false
	}
	return x.constEval(found[0], depth+1)
}

// constAlloc evaluates a struct literal built in a local.
func (x *Exec) constAlloc(a *ssa.Alloc, depth int) (Value, bool) {
	t := deref(a.Type())
	if _, ok := under(t).(*types.Struct); !ok {
		return nil, false
	}
	v := x.zero(t).(*StructV)
	for _, r := range *a.Referrers() {
		switch i := r.(type) {
		case *ssa.FieldAddr:
			for _, rr := range *i.Referrers() {
				s, ok := rr.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(i) {
					return nil, false
				}
				e, ok := x.constEval(s.Val, depth+1)
				if !ok {
					return nil, false
				}
				v.f[i.Field] = e
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	return v, true
}

func basicKindIsString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// implementers lists the named types of the repository that satisfy the interface.
func (w *World) implementers(it types.Type) []types.Type {
	key := tstr(it)
	if r, ok := w.impls[key]; ok {
		return r
	}
	i := under(it).(*types.Interface)
	var out []types.Type
	if i.NumMethods() > 0 {
		var paths []string
		for p := range w.allPkgs {
			if strings.HasPrefix(p, modPath) && !strings.HasPrefix(p, rtPath) {
				paths = append(paths, p)
			}
		}
		sort.Strings(paths)
		for _, p := range paths {
			var names []string
			for n := range w.allPkgs[p].Members {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				t, ok := w.allPkgs[p].Members[n].(*ssa.Type)
				if !ok {
					continue
				}
				if strings.Contains(w.prog.Fset.Position(t.Pos()).Filename, "zz_gvc") {
					continue
				}
				nt, ok := t.Type().(*types.Named)
				if !ok || nt.TypeParams().Len() > 0 || types.IsInterface(nt) {
					continue
				}
				if types.Implements(nt, i) {
					out = append(out, nt)
				} else if pt := types.NewPointer(nt); types.Implements(pt, i) {
					out = append(out, pt)
				}
			}
		}
	}
	w.impls[key] = out
	return out
}

// mine collects the constants of the functions reachable from fn.
func (w *World) mine(fns map[*ssa.Function]bool) (ints []string, strs []string) {
	is, ss := map[string]bool{}, map[string]bool{}
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					c, ok := (*op).(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					switch c.Value.Kind() {
					case constant.Int:
						is[c.Value.ExactString()] = true
					case constant.String:
						if s := constant.StringVal(c.Value); len(s) > 0 && len(s) < 40 {
							ss[s] = true
						}
					}
				}
			}
		}
	}
	for s := range is {
		ints = append(ints, s)
	}
	for s := range ss {
		strs = append(strs, s)
	}
	sort.Strings(ints)
	sort.Strings(strs)
	return
}

// goBin is the toolchain /repo is built with.
const goBin = "/opt/veriftools/go1.26.10/bin"
