package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a symbolic Go value: *Term for single-leaf types, or one of the structures below.
type Value interface{}

type SliceV struct {
	ref, off, len, cap *Term
	elem               types.Type
}
type StructV struct {
	typ types.Type
	f   []Value
}
type TupleV []Value

// IfaceV is an interface value whose dynamic type is known.
type IfaceV struct {
	typ types.Type
	v   Value
}
type FuncV struct {
	fn   *ssa.Function
	bind []Value
	intr string // engine-implemented function
	data Value
}

// PtrV is an address: kind o (object), e (array element), g (global).
type PtrV struct {
	kind byte
	root string // heap prefix
	path string
	ref  *Term
	idx  *Term
	elem types.Type // pointee
}

// RTypeV and RValueV model reflect.Type and reflect.Value of an interface value.
type RTypeV struct{ v Value } // the Go value whose type it is (IfaceV or Term)
// RValueV holds an interface value; nil for the zero reflect.Value. elem: obtained from a container, always valid.
type RValueV struct {
	v    Value
	elem bool
}

type MapIterV struct {
	m    *Term
	typ  *types.Map
	seen string // ghost key holding the visited set
}
type StrIterV struct {
	s    *Term
	cell string
}

type ArrV struct { // array value
	typ  *types.Array
	rows []*Term // one per element leaf
}

type leaf struct {
	path string
	sort Sort
}

type unsupported struct{ why string }

func unsup(format string, args ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, args...)})
}

func under(t types.Type) types.Type { return t.Underlying() }

var leafCache typeutil.Map

func leaves(t types.Type) []leaf {
	if r := leafCache.At(t); r != nil {
		return r.([]leaf)
	}
	var r []leaf
	switch u := under(t).(type) {
	case *types.Basic:
		r = []leaf{{"", basicSort(u)}}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		r = []leaf{{"", SInt}}
	case *types.Interface:
		r = []leaf{{"", SVal}}
	case *types.Slice:
		r = []leaf{{".ref", SInt}, {".off", SInt}, {".len", SInt}, {".cap", SInt}}
	case *types.Struct:
		if isReflectValue(t) {
			r = []leaf{{"", SVal}}
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				r = append(r, leaf{fmt.Sprintf(".%d%s", i, l.path), l.sort})
			}
		}
	case *types.Array:
		for _, l := range leaves(u.Elem()) {
			r = append(r, leaf{"[]" + l.path, arr(SInt, l.sort)})
		}
	case *types.TypeParam:
		unsup("type parameter %s", t)
	default:
		unsup("leaves of %s", t)
	}
	leafCache.Set(t, r)
	return r
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value"
}

func basicSort(b *types.Basic) Sort {
	switch {
	case b.Info()&types.IsBoolean != 0:
		return SBool
	case b.Info()&types.IsInteger != 0:
		return SInt
	case b.Info()&types.IsString != 0:
		return SStr
	case b.Info()&types.IsFloat != 0:
		return SFlt
	case b.Kind() == types.UnsafePointer || b.Kind() == types.UntypedNil:
		return SInt
	}
	if b.Info()&types.IsComplex != 0 {
		return SInt
	}
	unsup("basic type %s", b)
	return ""
}

func isIface(t types.Type) bool { _, ok := under(t).(*types.Interface); return ok }
func isSlice(t types.Type) bool { _, ok := under(t).(*types.Slice); return ok }
func isFunc(t types.Type) bool  { _, ok := under(t).(*types.Signature); return ok }
func isPtr(t types.Type) bool   { _, ok := under(t).(*types.Pointer); return ok }

var tnames typeutil.Map

// tstr names a type; identical types have one name.
func tstr(t types.Type) string {
	if r := tnames.At(t); r != nil {
		return r.(string)
	}
	n := types.TypeString(types.Unalias(t), nil)
	tnames.Set(t, n)
	return n
}

// ---- type numbers ----

type typeReg struct {
	ids    typeutil.Map
	list   []types.Type
	ifaces []types.Type
}

var treg = &typeReg{list: []types.Type{nil}}

func tagID(t types.Type) int {
	t = types.Unalias(t)
	if r := treg.ids.At(t); r != nil {
		return r.(int)
	}
	id := len(treg.list)
	treg.list = append(treg.list, t)
	treg.ids.Set(t, id)
	return id
}

func tagTerm(t types.Type) *Term { return intT(int64(tagID(t))) }

// tagRuntimeError is the type number standing for runtime errors.
const tagRuntimeError = 1 << 20

// classOf tells which constructor of Val represents dynamic type t.
func classOf(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch basicSort(u) {
		case SBool:
			return "vbool"
		case SInt:
			if u.Info()&types.IsInteger != 0 {
				return "vint"
			}
			return "vopq"
		case SStr:
			return "vstr"
		case SFlt:
			return "vflt"
		}
	case *types.Slice:
		return "vslice"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "vref"
	}
	return "vopq"
}

func kindOf(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// intRange of an integer type.
func intRange(t types.Type) (lo, hi *big.Int) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return nil, nil
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	sg := func(n uint) (*big.Int, *big.Int) {
		return new(big.Int).Neg(p(n - 1)), new(big.Int).Sub(p(n-1), big.NewInt(1))
	}
	us := func(n uint) (*big.Int, *big.Int) { return big.NewInt(0), new(big.Int).Sub(p(n), big.NewInt(1)) }
	switch b.Kind() {
	case types.Int, types.Int64:
		return sg(64)
	case types.Int8:
		return sg(8)
	case types.Int16:
		return sg(16)
	case types.Int32, types.UntypedRune:
		return sg(32)
	case types.Uint, types.Uint64, types.Uintptr:
		return us(64)
	case types.Uint8:
		return us(8)
	case types.Uint16:
		return us(16)
	case types.Uint32:
		return us(32)
	}
	return nil, nil
}

// ---- function values ----

type funcEntry struct{ f *FuncV }

var funcTab = []*FuncV{nil}
var funcIDs = map[*ssa.Function]int{}

const funcBase = -1000000 // function references are negative integers

func funcTerm(f *FuncV) *Term {
	if f.fn != nil && len(f.bind) == 0 && f.intr == "" {
		if id, ok := funcIDs[f.fn]; ok {
			return intT(int64(funcBase - id))
		}
		funcIDs[f.fn] = len(funcTab)
	}
	funcTab = append(funcTab, f)
	return intT(int64(funcBase - (len(funcTab) - 1)))
}

func funcOf(t *Term) *FuncV {
	if t.op == "int" && t.num.IsInt64() {
		id := funcBase - t.num.Int64()
		if id > 0 && id < int64(len(funcTab)) {
			return funcTab[id]
		}
	}
	return nil
}

// ---- conversion between values and leaf terms ----

func (x *Exec) toTerms(v Value, t types.Type) []*Term {
	switch w := v.(type) {
	case *Term:
		return []*Term{w}
	case *SliceV:
		return []*Term{w.ref, w.off, w.len, w.cap}
	case *StructV:
		u := under(w.typ).(*types.Struct)
		var out []*Term
		for i := range w.f {
			out = append(out, x.toTerms(w.f[i], u.Field(i).Type())...)
		}
		return out
	case *IfaceV:
		return []*Term{x.toVal(w)}
	case *FuncV:
		return []*Term{funcTerm(w)}
	case *PtrV:
		return []*Term{ptrTerm(w)}
	case *ArrV:
		return w.rows
	case *RValueV:
		return []*Term{x.asVal(w.v)}
	case nil:
		unsup("nil value of type %s", t)
	}
	unsup("toTerms of %T (%s)", v, t)
	return nil
}

func ptrTerm(p *PtrV) *Term {
	if p.kind == 'o' && p.path == "" {
		return p.ref
	}
	if p.kind == 'g' && p.path == "" {
		return fixedSym("addr."+cleanName(p.root), SInt)
	}
	// An interior pointer becomes an opaque token, remembered so that it can be followed again.
	key := fmt.Sprintf("%c%s%s", p.kind, p.root, p.path)
	var tok *Term
	if p.kind == 'e' {
		tok = uf("iptr."+key, SInt, p.ref, p.idx)
	} else {
		r := p.ref
		if r == nil {
			r = tZero
		}
		tok = uf("iptr."+key, SInt, r)
	}
	ptrTokens[tok.id] = p
	return tok
}

var ptrTokens = map[int]*PtrV{}

func (x *Exec) fromTerms(ts []*Term, t types.Type) Value {
	v, n := x.fromTermsN(ts, t)
	if n != len(ts) {
		unsup("fromTerms: %d terms for %s", len(ts), t)
	}
	return v
}

func (x *Exec) fromTermsN(ts []*Term, t types.Type) (Value, int) {
	switch u := under(t).(type) {
	case *types.Slice:
		return &SliceV{ts[0], ts[1], ts[2], ts[3], u.Elem()}, 4
	case *types.Struct:
		if isReflectValue(t) {
			return &RValueV{x.fromVal(ts[0]), true}, 1
		}
		s := &StructV{typ: t}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			v, k := x.fromTermsN(ts[n:], u.Field(i).Type())
			s.f = append(s.f, v)
			n += k
		}
		return s, n
	case *types.Signature:
		if f := funcOf(ts[0]); f != nil {
			return f, 1
		}
		return ts[0], 1
	case *types.Pointer:
		if p, ok := ptrTokens[ts[0].id]; ok {
			return p, 1
		}
		return ts[0], 1
	case *types.Interface:
		return x.fromVal(ts[0]), 1
	case *types.Array:
		n := len(leaves(u.Elem()))
		return &ArrV{u, ts[:n]}, n
	}
	return ts[0], 1
}

// fromVal makes the dynamic type explicit when the term shows it.
func (x *Exec) fromVal(t *Term) Value {
	if isCtor(t) && t.op != "vnil" && t.args[0].op == "int" {
		id := int(t.args[0].num.Int64())
		if id > 0 && id < len(treg.list) {
			typ := treg.list[id]
			return &IfaceV{typ, x.unboxVal(t, typ)}
		}
	}
	return t
}

// toVal packs a known dynamic value into a Val term.
func (x *Exec) toVal(i *IfaceV) *Term {
	if rt, ok := i.v.(*RTypeV); ok {
		return ctor("vopq", tagTerm(i.typ), uf("rtypeof", SInt, tagOf(x.asVal(rt.v))))
	}
	c := classOf(i.typ)
	tag := tagTerm(i.typ)
	if c == "vopq" {
		ts := x.toTerms(i.v, i.typ)
		return ctor("vopq", tag, x.box(i.typ, ts))
	}
	ts := x.toTerms(i.v, i.typ)
	return ctor(c, append([]*Term{tag}, ts...)...)
}

func boxName(t types.Type) string { return cleanName(tstr(t)) }

func (x *Exec) box(t types.Type, ts []*Term) *Term {
	if len(ts) == 0 {
		return fixedSym("box0."+boxName(t), SInt)
	}
	return uf("box."+boxName(t), SInt, ts...)
}

func (x *Exec) unboxVal(v *Term, t types.Type) Value {
	c := classOf(t)
	if c == "vopq" {
		b := sel("vo", v)
		var ts []*Term
		for i, l := range leaves(t) {
			ts = append(ts, uf(fmt.Sprintf("unbox.%s..%d", boxName(t), i), l.sort, b))
		}
		if len(ts) == 0 {
			r, _ := x.fromTermsN(nil, t)
			return r
		}
		return x.fromTerms(ts, t)
	}
	var ts []*Term
	for _, f := range ctorFields[c][1:] {
		ts = append(ts, sel(f, v))
	}
	return x.fromTerms(ts, t)
}

// asVal renders any interface-typed value as a Val term.
func (x *Exec) asVal(v Value) *Term {
	switch w := v.(type) {
	case *Term:
		if w.sort != SVal {
			panic("asVal of sort " + w.sort + " " + show(w))
		}
		return w
	case *IfaceV:
		return x.toVal(w)
	}
	unsup("asVal %T", v)
	return nil
}

func (x *Exec) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch basicSort(u) {
		case SBool:
			return tFalse
		case SInt:
			return tZero
		case SStr:
			return strT("")
		case SFlt:
			return fltT(0)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return tZero
	case *types.Interface:
		return tNilV
	case *types.Slice:
		return &SliceV{tZero, tZero, tZero, tZero, u.Elem()}
	case *types.Struct:
		if isReflectValue(t) {
			return &RValueV{nil, false}
		}
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, x.zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		a := &ArrV{typ: u}
		zs := x.toTerms(x.zero(u.Elem()), u.Elem())
		for _, z := range zs {
			a.rows = append(a.rows, constArr(arr(SInt, z.sort), z))
		}
		return a
	}
	unsup("zero of %s", t)
	return nil
}

func describe(v Value) string {
	switch w := v.(type) {
	case *Term:
		return show(w)
	case *SliceV:
		return fmt.Sprintf("slice(%s,%s,%s,%s)", show(w.ref), show(w.off), show(w.len), show(w.cap))
	case *IfaceV:
		return fmt.Sprintf("iface(%s,%s)", w.typ, describe(w.v))
	case *StructV:
		var p []string
		for _, f := range w.f {
			p = append(p, describe(f))
		}
		return "struct(" + strings.Join(p, ",") + ")"
	case TupleV:
		var p []string
		for _, f := range w {
			p = append(p, describe(f))
		}
		return "tuple(" + strings.Join(p, ",") + ")"
	case *FuncV:
		if w.fn != nil {
			return "func " + w.fn.String()
		}
		return "func " + w.intr
	}
	return fmt.Sprintf("%T", v)
}
