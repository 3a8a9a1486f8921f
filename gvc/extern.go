package main

import (
	"crypto/sha1"
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont)

func h8(s string) string { return fmt.Sprintf("%x", sha1.Sum([]byte(s)))[:10] }

// variadic list of values of known length
func (x *Exec) elems(st *State, v Value) ([]*Term, bool) {
	s, ok := v.(*SliceV)
	if !ok {
		return nil, false
	}
	if s.len == tZero {
		return nil, true
	}
	if !isInt(s.len) || s.len.num.Int64() > 40 {
		return nil, false
	}
	l := leaves(s.elem)
	if len(l) != 1 {
		return nil, false
	}
	_, h := x.elemHeap(st, s.elem, l[0])
	var out []*Term
	for i := int64(0); i < s.len.num.Int64(); i++ {
		out = append(out, sel2(sel2(h, s.ref), addT(s.off, intT(i))))
	}
	return out, true
}

var stringType = types.Typ[types.String]

// sprint is fmt.Sprint of one value.
func (x *Exec) sprint(st *State, v Value) *Term {
	if i, ok := v.(*IfaceV); ok {
		if b, ok := under(i.typ).(*types.Basic); ok && b.Info()&types.IsString != 0 && !x.hasMethod(i.typ, "String") && !x.hasMethod(i.typ, "Error") {
			return i.v.(*Term)
		}
		if n, ok := i.typ.(*types.Named); ok && n.Obj().Name() == "String" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/collections" {
			x.assumed["collections.String prints as the text it holds"] = true
			return i.v.(*Term)
		}
	}
	t := x.asVal(v)
	r := uf("sprint", SStr, t)
	if d := ufs["sprint"]; d.def == nil {
		// the texts of integers are different
		b, n := boundVar("v", SVal), boundVar("n", SInt)
		it := uf("itoa", SStr, n)
		d.def = forall([]*Term{b}, implies(x.isType(b, types.Typ[types.Int]), eq(uf("sprint", SStr, b), uf("itoa", SStr, sel("vi", b)))), uf("sprint", SStr, b))
		ufs["itoa"].def = forall([]*Term{n}, eq(uf("itoa.inv", SInt, it), n), it)
	}
	if !t.bound {
		st.fact(implies(x.isType(t, stringType), eq(r, sel("vs", t))))
		if p := x.w.allPkgs[modPath+"/collections"]; p != nil {
			if n, ok := p.Members["String"].(*ssa.Type); ok {
				st.fact(implies(x.isType(t, n.Type()), eq(r, sel("vs", t))))
			}
		}
	}
	x.assumed["fmt.Sprint of a value is a function of the value (a collection is not mutated between two printings that are compared)"] = true
	return r
}

func (x *Exec) hasMethod(t types.Type, name string) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	_, ok := o.(*types.Func)
	return ok
}

// errorValue is a new non-nil error.
func (x *Exec) errorValue(st *State, what string) *Term {
	return ctor("vopq", intT(tagExtError), sym("err."+what, SInt))
}

const tagExtError = tagRuntimeError + 1

var models map[string]model

func (x *Exec) external(fr *Frame, st *State, name string, f *FuncV, args []Value, call interface{}, site string, k cont) bool {
	if m, ok := models[name]; ok {
		x.extern[name] = true
		m(x, fr, st, f, args, site, k)
		return true
	}
	if strings.HasPrefix(name, "math.") {
		if sorts := basicResults(f.fn.Signature); sorts != nil { // functions of their arguments
			x.extern[name] = true
			pureUF(name, sorts...)(x, fr, st, f, args, site, k)
			return true
		}
	}
	return false
}

// basicResults are the sorts of the results of a function over basic types only.
func basicResults(sig *types.Signature) []Sort {
	for i := 0; i < sig.Params().Len(); i++ {
		if _, ok := under(sig.Params().At(i).Type()).(*types.Basic); !ok {
			return nil
		}
	}
	var out []Sort
	for i := 0; i < sig.Results().Len(); i++ {
		if _, ok := under(sig.Results().At(i).Type()).(*types.Basic); !ok {
			return nil
		}
		out = append(out, leaves(sig.Results().At(i).Type())[0].sort)
	}
	return out
}

// strFn registers a function of plain arguments as an uninterpreted function with optional facts.
func pureUF(name string, sorts ...Sort) model {
	return func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		var ts []*Term
		sig := f.fn.Signature
		for i, a := range args {
			var t types.Type
			if sig.Recv() != nil {
				i--
			}
			if i < 0 {
				t = sig.Recv().Type()
			} else {
				t = sig.Params().At(i).Type()
			}
			ts = append(ts, x.toTerms(a, t)...)
		}
		var out TupleV
		for i, s := range sorts {
			n := name
			if len(sorts) > 1 {
				n = fmt.Sprintf("%s.%d", name, i)
			}
			r := uf(n, s, ts...)
			rt := f.fn.Signature.Results().At(i).Type()
			x.wf(st, []*Term{r}, rt)
			out = append(out, x.fromTerms([]*Term{r}, rt))
		}
		k(st, tupleOrOne(out), nil)
	}
}

// fallible: a value and an error that depend on the arguments only.
func fallible(name string, srt Sort) model {
	return func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		var ts []*Term
		sig := f.fn.Signature
		for i, a := range args {
			ts = append(ts, x.toTerms(a, sig.Params().At(i).Type())...)
		}
		r, e := uf(name, srt, ts...), uf(name+".err", SVal, ts...)
		if d := ufs[name]; d.def == nil && name == "strconv.Atoi" {
			// the decimal text of an integer reads as that integer
			n := boundVar("n", SInt)
			it := uf("itoa", SStr, n)
			in := and(le(intT(math.MinInt64), n), le(n, intT(math.MaxInt64)))
			d.def = forall([]*Term{n}, implies(in, and(eq(uf(name, SInt, it), n), tester("vnil", uf(name+".err", SVal, it)))), it)
		}
		rt, et := sig.Results().At(0).Type(), sig.Results().At(1).Type()
		x.wf(st, []*Term{r}, rt)
		x.wf(st, []*Term{e}, et)
		st.fact(or(tester("vnil", e), x.implements(st, e, types.Unalias(et))))
		k(st, TupleV{x.fromTerms([]*Term{r}, rt), x.norm(st, x.fromTerms([]*Term{e}, et))}, nil)
	}
}

func simpleT(g func(x *Exec, st *State, a []*Term) *Term) model {
	return func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		var ts []*Term
		for _, a := range args {
			t, ok := a.(*Term)
			if !ok {
				unsup("argument %T of %s", a, f.fn)
			}
			ts = append(ts, t)
		}
		k(st, g(x, st, ts), nil)
	}
}

func lits(a []*Term) bool {
	for _, t := range a {
		if t.op != "str" && t.op != "int" {
			return false
		}
	}
	return true
}

func init() {
	models = map[string]model{
		"fmt.Sprint": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
			es, ok := x.elems(st, args[0])
			if !ok {
				k(st, x.anyValue(st, stringType, "sprint"), nil)
				return
			}
			switch len(es) {
			case 0:
				k(st, strT(""), nil)
			case 1:
				k(st, x.sprint(st, x.fromVal(es[0])), nil)
			default:
				k(st, uf(fmt.Sprintf("sprint.%d", len(es)), SStr, es...), nil)
			}
		},
		"fmt.Sprintf": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
			k(st, x.sprintf(st, args[0].(*Term), args[1]), nil)
		},
		"fmt.Errorf": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
			k(st, x.errorValue(st, "fmt"), nil)
		},
		"errors.New": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
			k(st, x.errorValue(st, "new"), nil)
		},
		"strings.HasPrefix": simpleT(func(x *Exec, st *State, a []*Term) *Term {
			if lits(a) {
				return boolT(strings.HasPrefix(a[0].str, a[1].str))
			}
			return mk("str.prefixof", SBool, a[1], a[0])
		}),
		"strings.HasSuffix": simpleT(func(x *Exec, st *State, a []*Term) *Term {
			if lits(a) {
				return boolT(strings.HasSuffix(a[0].str, a[1].str))
			}
			return mk("str.suffixof", SBool, a[1], a[0])
		}),
		"strings.Contains": simpleT(func(x *Exec, st *State, a []*Term) *Term {
			if lits(a) {
				return boolT(strings.Contains(a[0].str, a[1].str))
			}
			return mk("str.contains", SBool, a[0], a[1])
		}),
		"strings.Index": simpleT(func(x *Exec, st *State, a []*Term) *Term { return x.strIndex(st, a[0], a[1]) }),
		"strings.ToLower": simpleT(func(x *Exec, st *State, a []*Term) *Term {
			if lits(a) {
				return strT(strings.ToLower(a[0].str))
			}
			return uf("strings.ToLower", SStr, a...)
		}),
		"strings.ToUpper": simpleT(func(x *Exec, st *State, a []*Term) *Term {
			if lits(a) {
				return strT(strings.ToUpper(a[0].str))
			}
			return uf("strings.ToUpper", SStr, a...)
		}),
		"strings.TrimSpace": simpleT(func(x *Exec, st *State, a []*Term) *Term {
			if lits(a) {
				return strT(strings.TrimSpace(a[0].str))
			}
			return uf("strings.TrimSpace", SStr, a...)
		}),
		"strings.Repeat": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
			s, n := args[0].(*Term), args[1].(*Term)
			bad := lt(n, tZero)
			x.split(fr, st, bad, func(fr *Frame, st *State) { x.panicCall(fr, st, "strings: negative Repeat count", site, k) },
				func(fr *Frame, st *State) {
					r := uf("strings.Repeat", SStr, s, n)
					st.fact(eq(strLen(r), mulT(strLen(s), n)))
					st.fact(implies(eq(n, tZero), eq(r, strT(""))))
					st.fact(implies(eq(n, tOne), eq(r, s)))
					k(st, r, nil)
				})
		},
		"sort.Strings": sortStrings,
		"github.com/Masterminds/sprig/v3.strval": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
			// string(v), v.Error(), v.String() or Sprintf("%v", v): what Sprint gives, except for bytes
			v := x.asVal(args[0])
			bytes := and(tester("vslice", v), eq(tagOf(v), tagTerm(types.NewSlice(types.Typ[types.Byte]))))
			if iv, ok := args[0].(*IfaceV); ok && iv.typ != nil {
				bytes = boolT(types.Identical(iv.typ, types.NewSlice(types.Typ[types.Byte])))
			}
			k(st, ite(bytes, uf("sprig.bytes", SStr, v), x.sprint(st, args[0])), nil)
		},
		"strings.Replace":       pureUF("strings.Replace", SStr),
		"strings.ReplaceAll":    pureUF("strings.ReplaceAll", SStr),
		"strings.Trim":          pureUF("strings.Trim", SStr),
		"strings.TrimLeft":      pureUF("strings.TrimLeft", SStr),
		"strings.TrimRight":     pureUF("strings.TrimRight", SStr),
		"strings.Title":         pureUF("strings.Title", SStr),
		"strings.ToTitle":       pureUF("strings.ToTitle", SStr),
		"strings.EqualFold":     pureUF("strings.EqualFold", SBool),
		"strings.Count":         pureUF("strings.Count", SInt),
		"unicode.IsLetter":      pureUF("unicode.IsLetter", SBool),
		"unicode.IsDigit":       pureUF("unicode.IsDigit", SBool),
		"unicode.IsSpace":       pureUF("unicode.IsSpace", SBool),
		"path/filepath.Base":    pureUF("filepath.Base", SStr),
		"path/filepath.Dir":     pureUF("filepath.Dir", SStr),
		"path/filepath.Ext":     pureUF("filepath.Ext", SStr),
		"path/filepath.Clean":   pureUF("filepath.Clean", SStr),
		"path/filepath.IsAbs":   pureUF("filepath.IsAbs", SBool),
		"math.IsNaN":            simpleT(func(x *Exec, st *State, a []*Term) *Term { return mk("fp.isNaN", SBool, a[0]) }),
		"math.Floor":            simpleT(func(x *Exec, st *State, a []*Term) *Term { return x.floor(a[0]) }),
		"math.Abs":              simpleT(func(x *Exec, st *State, a []*Term) *Term { return mk("fp.abs", SFlt, a[0]) }),
		"math.Sqrt":             pureUF("math.Sqrt", SFlt),
		"math.Pow":              pureUF("math.Pow", SFlt),
		"math.Mod":              pureUF("math.Mod", SFlt),
		"strconv.Itoa":          pureUF("itoa", SStr),
		"strconv.Quote":         pureUF("strconv.Quote", SStr),
		"sync.(*Mutex).Lock":    nop,
		"(*sync.Mutex).Lock":    nop,
		"(*sync.Mutex).Unlock":  nop,
		"(*sync.RWMutex).Lock":  nop,
		"(*sync.RWMutex).RLock": nop,
	}
	for n, m := range reflectModels {
		models[n] = m
	}
	for n, m := range moreModels {
		models[n] = m
	}
	for n, m := range textModels {
		models[n] = m
	}
}

func nop(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) { k(st, nil, nil) }

func (x *Exec) strIndex(st *State, s, sub *Term) *Term {
	if s.op == "str" && sub.op == "str" {
		return intT(int64(strings.Index(s.str, sub.str)))
	}
	r := mk("str.indexof", SInt, s, sub, tZero)
	if !r.bound {
		st.fact(and(le(intT(-1), r), implies(le(tZero, r), le(addT(r, strLen(sub)), strLen(s)))))
		st.fact(eq(mk("str.contains", SBool, s, sub), le(tZero, r)))
	}
	return r
}

func (x *Exec) sprintf(st *State, format *Term, va Value) *Term {
	es, ok := x.elems(st, va)
	if !ok || format.op != "str" {
		return x.anyValue(st, stringType, "sprintf").(*Term)
	}
	if len(es) == 0 && !strings.Contains(format.str, "%") {
		return format
	}
	// %s and %v of strings are concatenations
	var parts []*Term
	s, n, plain := format.str, 0, true
	for s != "" {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			parts = append(parts, strT(s))
			break
		}
		parts = append(parts, strT(s[:i]))
		if i+1 >= len(s) {
			plain = false
			break
		}
		switch {
		case s[i+1] == '%':
			parts = append(parts, strT("%"))
		case (s[i+1] == 's' || s[i+1] == 'v') && n < len(es):
			v := x.fromVal(es[n])
			n++
			if iv, ok := v.(*IfaceV); ok {
				if basicKindIsString(iv.typ) {
					parts = append(parts, x.sprint(st, iv))
					break
				}
			}
			if s[i+1] == 'v' {
				parts = append(parts, x.sprint(st, v))
			} else {
				t := x.asVal(v)
				r := uf("sprints", SStr, t)
				st.fact(implies(x.isType(t, stringType), eq(r, sel("vs", t))))
				if p := x.w.allPkgs[modPath+"/collections"]; p != nil {
					if n, ok := p.Members["String"].(*ssa.Type); ok {
						st.fact(implies(x.isType(t, n.Type()), eq(r, sel("vs", t))))
					}
				}
				parts = append(parts, r)
			}
		case s[i+1] == 'd' && n < len(es):
			parts = append(parts, uf("sprintd", SStr, es[n]))
			n++
		default:
			plain = false
		}
		if !plain {
			break
		}
		s = s[i+2:]
	}
	if plain && n == len(es) {
		return strCat(parts...)
	}
	return uf("sprintf."+h8(format.str)+fmt.Sprint(len(es)), SStr, es...)
}

// externIface: methods of interfaces implemented outside the repository.
func (x *Exec) externIface(fr *Frame, st *State, it types.Type, name string, recv *Term, args []Value, call interface{ Signature() *types.Signature }, site string, k cont) bool {
	switch {
	case name == "Error" && tstr(it) == "error", name == "String" && call.Signature().Results().Len() == 1:
		r := uf("method."+name, SStr, recv)
		k(st, r, nil)
		return true
	case tstr(it) == "os.FileInfo" || tstr(it) == "io/fs.FileInfo":
		sig := call.Signature()
		var out TupleV
		for i := 0; i < sig.Results().Len(); i++ {
			rt := sig.Results().At(i).Type()
			var ts []*Term
			for j, l := range leaves(rt) {
				ts = append(ts, uf(fmt.Sprintf("fileinfo.%s.%d.%d", name, i, j), l.sort, recv))
			}
			x.wf(st, ts, rt)
			out = append(out, x.fromTerms(ts, rt))
		}
		k(st, tupleOrOne(out), nil)
		return true
	}
	return false
}

var moreModels = map[string]model{
	"(*regexp.Regexp).ReplaceAllString": pureUF("regexp.ReplaceAllString", SStr),
	"(*regexp.Regexp).MatchString":      pureUF("regexp.MatchString", SBool),
	"strconv.ParseInt":                  fallible("strconv.ParseInt", SInt),
	"strconv.ParseUint":                 fallible("strconv.ParseUint", SInt),
	"strconv.Atoi":                      fallible("strconv.Atoi", SInt),
	"strconv.ParseFloat":                fallible("strconv.ParseFloat", SFlt),
	"strconv.ParseBool":                 fallible("strconv.ParseBool", SBool),
	"path/filepath.Match":               fallible("filepath.Match", SBool),
	"path.Match":                        fallible("path.Match", SBool),
}

// sortStrings: the elements are permuted into ascending order.
func sortStrings(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
	s := sliceOf(args[0])
	if s == nil {
		unsup("sort.Strings of %T", args[0])
	}
	key, h := x.elemHeap(st, s.elem, leaf{"", SStr})
	old := sel2(h, s.ref)
	x.eventSeq++
	id := x.eventSeq
	row := sym("sorted", old.sort)
	lo, hi := s.off, addT(s.off, s.len)
	in := func(i *Term) *Term { return and(le(lo, i), lt(i, hi)) }
	p := func(i *Term) *Term { return uf(fmt.Sprintf("perm.%d", id), SInt, i) }
	q := func(i *Term) *Term { return uf(fmt.Sprintf("perm.inv.%d", id), SInt, i) }
	i, j := boundVar("i", SInt), boundVar("j", SInt)
	st.fact(forall([]*Term{i}, implies(not(in(i)), eq(sel2(row, i), sel2(old, i)))))
	st.fact(forall([]*Term{i}, implies(in(i), and(in(p(i)), eq(sel2(row, i), sel2(old, p(i))), eq(q(p(i)), i)))))
	st.fact(forall([]*Term{i}, implies(in(i), and(in(q(i)), eq(sel2(row, q(i)), sel2(old, i)), eq(p(q(i)), i)))))
	st.fact(forall([]*Term{i, j}, implies(and(in(i), in(j), lt(i, j)), mk("str.<=", SBool, sel2(row, i), sel2(row, j))), mk("multipat", SBool, sel2(row, i), sel2(row, j))))
	st.heaps[key] = store(h, s.ref, row)
	k(st, nil, nil)
}
