package template

import (
	"reflect"
	"sort"

	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// gvcFunc is a function to register, with its aliases.
type gvcFunc struct {
	Name    string
	Aliases []string
	Result  int
}

func init() {
	names := []string{"f", "g", "h", "add", "sum", "list", "myFunc", "len"}
	alias := []string{"f1", "f2", "g1", "h1", "total", "k", "z"}
	rt.Gen(func(g *rt.G) gvcFunc {
		f := gvcFunc{Name: names[g.Intn(len(names))], Result: g.Intn(1000)}
		for n := g.Intn(3); n > 0; n-- {
			f.Aliases = append(f.Aliases, alias[g.Intn(len(alias))])
		}
		return f
	})
	rt.Gen(func(g *rt.G) gvcFolder { return []gvcFolder{"/sub", "/sub/sub", "", "/x y"}[g.Intn(4)] })
	rt.Gen(func(g *rt.G) gvcOpts { return gvcOpts(g.Intn(1 << 17)) })
	rt.Gen(func(g *rt.G) Options { return Options(g.Intn(int(StrictErrorCheck) + 1)) })
}

// gvcFolder is a folder below the one of the parent, or that one.
type gvcFolder string

// gvcOpts is a set of options.
type gvcOpts int

func (o gvcOpts) set() OptionsSet {
	s := OptionsSet{}
	for i := Options(0); i <= StrictErrorCheck; i++ {
		if i != Extension && o&(1<<uint(i)) != 0 {
			s[i] = true
		}
	}
	return s
}

func gvcCopyOptions(s OptionsSet) OptionsSet {
	r := OptionsSet{}
	for k, v := range s {
		r[k] = v
	}
	return r
}

func gvcCopyFuncs(m funcTableMap) funcTableMap {
	r := funcTableMap{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// gvcSameFuncs: the same functions under the same names.
func gvcSameFuncs(a, b funcTableMap) bool {
	if len(a) != len(b) {
		return false
	}
	for k, f := range a {
		g := b[k]
		if g == nil || !gvcSameFunc(f.function, g.function) || (f.alias == nil) != (g.alias == nil) || f.RealName() != g.RealName() || f.Group() != g.Group() {
			return false
		}
	}
	return true
}

func gvcSameFunc(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer() && reflect.TypeOf(a) == reflect.TypeOf(b)
}

func gvcRegister(t *Template, group string, fs []gvcFunc) {
	table, al := dictionary{}, aliases{}
	for _, f := range fs {
		r := f.Result
		table[f.Name] = func() int { return r }
		al[f.Name] = f.Aliases
	}
	t.AddFunctions(table, group, FuncOptions{FuncAliases: al})
}

// A derived context does not alter its parent.
//
//gvc:prop C27
//gvc:opt bounded=1 noframe=1 runs=600
func SpecDerivedContext(o gvcOpts, user []gvcFunc, change, change2 Options, value, value2 bool, more []gvcFunc, cached bool, where gvcFolder) {
	gvcQuiet()
	dir := gvcDir()
	sub := dir + string(where)
	if where == "" {
		sub = dir
	}
	arg := sub
	if where == "" && value2 {
		arg = "" // stands for the folder of the parent
	}
	t := MustNewTemplate(dir, nil, "", o.set())
	gvcRegister(t, "user", user)
	options, funcs, folder := gvcCopyOptions(t.options), gvcCopyFuncs(t.functions), t.folder
	d := t.GetNewContext(arg, cached)
	rt.Ensures("parent options", reflect.DeepEqual(options, t.options))
	rt.Ensures("parent folder", t.folder == folder)
	rt.Ensures("parent functions", gvcSameFuncs(funcs, t.functions))
	rt.Ensures("the derived context has the same options", reflect.DeepEqual(options, d.options))
	rt.Ensures("the derived context has its folder", d.folder == sub)
	rt.Ensures("the derived context has the functions", len(d.functions) >= len(funcs))
	d.SetOption(change, value)
	d.options.set(value2, []Options{change2})
	gvcRegister(d, "derived", more)
	rt.Ensures("changing the derived options leaves the parent", reflect.DeepEqual(options, t.options))
	rt.Ensures("adding functions to the derived context leaves the parent", gvcSameFuncs(funcs, t.functions))
	again := t.GetNewContext(arg, true)
	rt.Ensures("the cached context", t.GetNewContext(sub, true) == again && cached == (again == d))
	other := t.GetNewContext(dir+"/other", true)
	rt.Ensures("one context for each folder", other != again && other != t && other.folder == dir+"/other" && again.folder == sub)
	rt.Ensures("another derived context does not see the changes", reflect.DeepEqual(options, other.options))
	rt.Ensures("the default folder", t.GetNewContext("", false).folder == folder)
}

// Names and aliases resolve to the registered functions.
//
//gvc:prop C29
//gvc:opt bounded=1 noframe=1 runs=1500
func SpecFunctionTable(o gvcOpts, first, second []gvcFunc, splits bool) {
	gvcQuiet()
	clean := func(fs []gvcFunc, used map[string]bool) (out []gvcFunc) {
		for _, f := range fs {
			if used[f.Name] {
				continue
			}
			used[f.Name] = true
			var al []string
			for _, a := range f.Aliases {
				if !used[a] {
					used[a] = true
					al = append(al, a)
				}
			}
			f.Aliases = al
			out = append(out, f)
		}
		return
	}
	t := MustNewTemplate(".", nil, "", o.set())
	used := map[string]bool{}
	first = clean(first, used)
	second = clean(second, used)
	before := gvcCopyFuncs(t.functions)
	gvcRegister(t, "one", first)
	gvcRegister(t, "two", second)
	// what is built in is defined again in the contexts that render
	again := false // the contexts that render are cached with their functions
	callable := func(name string) bool { return before[name] == nil && !t.options[RenderingDisabled] && !again }
	check := func(t *Template, what string) {
		for i, f := range append(append([]gvcFunc{}, first...), second...) {
			group := "one"
			if i >= len(first) {
				group = "two"
			}
			fi := t.getFunction(f.Name)
			rt.Ensures(what+"found by name", fi != nil && fi.Name() == f.Name && fi.RealName() == f.Name && !fi.IsAlias() && fi.Group() == group)
			rt.Ensures(what+"the registered function", fi != nil && fi.function.(func() int)() == f.Result)
			rt.Ensures(what+"its aliases", fi != nil && reflect.DeepEqual(append([]string{}, fi.Aliases()...), append([]string{}, f.Aliases...)))
			r, err := t.ProcessContent("{{ "+f.Name+" }}", "")
			rt.Ensures(what+"callable", !callable(f.Name) || err == nil && rt.Sprint(f.Result) == r)
			for _, a := range f.Aliases {
				ai := t.getFunction(a)
				rt.Ensures(what+"found by alias", ai != nil && ai.IsAlias() && ai.RealName() == f.Name && ai.Name() == a && ai.Group() == group)
				rt.Ensures(what+"the same function", ai != nil && ai.function.(func() int)() == f.Result)
				r, err := t.ProcessContent("{{ "+a+" }}", "")
				rt.Ensures(what+"callable by its alias", !callable(f.Name) || !callable(a) || err == nil && rt.Sprint(f.Result) == r)
			}
		}
		for k, f := range before {
			if !used[k] {
				g := t.getFunction(k)
				rt.Ensures(what+"unrelated functions are unchanged", g != nil && gvcSameFunc(f.function, g.function) || what != "")
				rt.Ensures(what+"unrelated functions are kept", g != nil && g.Name() == f.Name() && g.RealName() == f.RealName() && g.Group() == f.Group())
			}
		}
		var all, plain, al []string
		for k := range before {
			if !used[k] {
				all = append(all, k)
			}
		}
		for k := range used {
			all = append(all, k)
		}
		sort.Strings(all)
		for _, k := range all {
			if f := t.functions[k]; f.alias == nil {
				plain = append(plain, k)
			} else {
				al = append(al, k)
			}
		}
		if what == "" {
			rt.Ensures("the complete list", reflect.DeepEqual(t.getAllFunctions(), all))
			rt.Ensures("the list without aliases", reflect.DeepEqual(append([]string{}, t.getFunctions()...), append([]string{}, plain...)))
			rt.Ensures("the list of aliases", reflect.DeepEqual(append([]string{}, t.getAliases()...), append([]string{}, al...)))
		}
	}
	check(t, "")
	if splits {
		// functions that are defined again, under the same names and aliases
		for _, fs := range [][]gvcFunc{first, second} {
			for i := range fs {
				fs[i].Result += 1000
			}
		}
		gvcRegister(t, "one", first)
		gvcRegister(t, "two", second)
		again = true
		check(t, "")
	}
}

// The aliases of the built-in functions resolve to what they stand for.
//
//gvc:prop C29
//gvc:opt bounded=1 noframe=1 runs=200
func SpecBuiltinAliases(o gvcOpts) {
	gvcQuiet()
	t := MustNewTemplate(".", nil, "", o.set())
	for k, f := range t.functions {
		rt.Ensures("known under its name", f.Name() == k)
		if f.alias != nil {
			rt.Ensures("the function of its target", gvcSameFunc(f.function, f.alias.function))
			found := false
			for _, a := range f.Aliases() {
				found = found || a == k
			}
			rt.Ensures("listed by its target", found)
		}
	}
	for _, n := range t.getFunctions() {
		f := t.getFunction(n)
		for _, a := range f.aliases {
			rt.Ensures("every alias can be looked up", t.getFunction(a) != nil)
		}
	}
}
