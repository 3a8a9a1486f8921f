// Package rt is the vocabulary of the specifications. The verifier interprets these
// functions itself; run as ordinary Go they evaluate the specification on concrete values.
package rt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

type skipped struct{}

// Failure is one violated clause.
type Failure struct {
	Clause string
}

type runState struct {
	fails    []string
	mayPanic bool
	caught   interface{}
	strs     []string
	vals     []interface{}
	regs     map[uintptr]*region
	mods     map[uintptr]bool
}

var cur = &runState{}

// Requires restricts the arguments.
func Requires(c bool) {
	if !c {
		panic(skipped{})
	}
}

// RequiresF is Requires of a condition evaluated as a whole.
func RequiresF(f func() bool) { Requires(f()) }

// Ensures is an obligation when the specification is verified, and an assumption where it is used as a contract.
func Ensures(name string, c bool) {
	if !c {
		cur.fails = append(cur.fails, name)
	}
}

// EnsuresF is Ensures of a condition evaluated as a whole; a panic inside makes it false.
func EnsuresF(name string, f func() bool) { Ensures(name, total(f)) }

func total(f func() bool) (r bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(skipped); ok {
				panic(e)
			}
			r = false
		}
	}()
	return f()
}

// Lemma is an intermediate obligation.
func Lemma(name string, c bool) { Ensures("lemma "+name, c) }

// Trust is an assumption, listed as such.
func Trust(name string, c bool) {}

// ForAll over lo <= i < hi.
func ForAll(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if !total(func() bool { return f(i) }) {
			return false
		}
	}
	return true
}

// Exists over lo <= i < hi.
func Exists(lo, hi int, f func(int) bool) bool {
	for i := lo; i < hi; i++ {
		if total(func() bool { return f(i) }) {
			return true
		}
	}
	return false
}

// ForAllStr over strings; concretely over the keys of the given maps and a few others.
func ForAllStr(f func(string) bool, hints ...interface{}) bool {
	for _, s := range strDomain(hints) {
		if !total(func() bool { return f(s) }) {
			return false
		}
	}
	return true
}

// ForAllVal over values; concretely over the given ones.
func ForAllVal(f func(interface{}) bool, hints ...interface{}) bool {
	dom := append([]interface{}{nil, 0, 1, "", "a"}, hints...)
	for _, v := range dom {
		if !total(func() bool { return f(v) }) {
			return false
		}
	}
	return true
}

// ExistsStr over strings.
func ExistsStr(f func(string) bool, hints ...interface{}) bool {
	for _, s := range strDomain(hints) {
		if total(func() bool { return f(s) }) {
			return true
		}
	}
	return false
}

func strDomain(hints []interface{}) []string {
	set := map[string]bool{"": true, "a": true, "zz": true}
	var add func(v reflect.Value, d int)
	add = func(v reflect.Value, d int) {
		if !v.IsValid() || d > 3 {
			return
		}
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			add(v.Elem(), d)
		case reflect.Map:
			for _, k := range v.MapKeys() {
				set[fmt.Sprint(k.Interface())] = true
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				e := v.Index(i)
				if e.CanInterface() {
					set[fmt.Sprint(e.Interface())] = true
				}
			}
		case reflect.String:
			set[v.String()] = true
		}
	}
	for _, h := range hints {
		add(reflect.ValueOf(h), 0)
	}
	for _, s := range cur.strs {
		set[s] = true
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func And(c ...bool) bool {
	for _, b := range c {
		if !b {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, b := range c {
		if b {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// Ite evaluates both values.
func Ite[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

// Same is identity of values: same dynamic type and same content, collections by reference.
func Same(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return false
	}
	switch va.Kind() {
	case reflect.Slice:
		if va.Len() != vb.Len() {
			return false
		}
		return va.Len() == 0 || va.Pointer() == vb.Pointer()
	case reflect.Map, reflect.Func, reflect.Chan, reflect.Ptr, reflect.UnsafePointer:
		return va.Pointer() == vb.Pointer()
	case reflect.Float32, reflect.Float64:
		f, g := va.Float(), vb.Float()
		return f == g || f != f && g != g
	}
	defer func() { recover() }()
	return a == b
}

// Comparable: == between two values of this dynamic type does not panic.
func Comparable(v interface{}) bool { return v == nil || reflect.ValueOf(v).Comparable() }

func SameType(a, b interface{}) bool { return reflect.TypeOf(a) == reflect.TypeOf(b) }

// SamePackage: the dynamic types are defined in the same package (a list and a
// dictionary of the same format).
func SamePackage(a, b interface{}) bool {
	return a != nil && b != nil && reflect.TypeOf(a).PkgPath() == reflect.TypeOf(b).PkgPath()
}

// IsList: the value is a slice.
func IsList(v interface{}) bool { return v != nil && reflect.TypeOf(v).Kind() == reflect.Slice }

// Payload is the underlying slice of a list value.
func Payload(v interface{}) []interface{} {
	return reflect.ValueOf(v).Convert(reflect.TypeOf([]interface{}{})).Interface().([]interface{})
}

// PayloadMap is the underlying map of a dictionary value.
func PayloadMap(v interface{}) map[string]interface{} {
	return reflect.ValueOf(v).Convert(reflect.TypeOf(map[string]interface{}{})).Interface().(map[string]interface{})
}

// Snap copies the current content of a slice.
func Snap[T any](s []T) []T { return append(make([]T, 0, len(s)), s...) }

// SnapMap copies the current content of a map.
func SnapMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

// SameAll is element-wise identity.
func SameAll[T any](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !Same(a[i], b[i]) {
			return false
		}
	}
	return true
}

// SameMap: same keys with identical values.
func SameMap[K comparable, V any](a, b map[K]V) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !Same(v, w) {
			return false
		}
	}
	return true
}

// SameSlice: the two slices are the same elements of the same memory.
func SameSlice[T any](a, b []T) bool {
	return len(a) == len(b) && unsafe.SliceData(a) == unsafe.SliceData(b)
}

// Shares: the two slices (or maps) use the same memory.
func Shares(a, b interface{}) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if !va.IsValid() || !vb.IsValid() || va.Kind() != vb.Kind() {
		return false
	}
	switch va.Kind() {
	case reflect.Slice:
		if va.Cap() == 0 || vb.Cap() == 0 {
			return false
		}
		return end(va) == end(vb)
	case reflect.Map, reflect.Ptr:
		return !va.IsNil() && va.Pointer() == vb.Pointer()
	}
	return false
}

func end(v reflect.Value) uintptr {
	return v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size()
}

// Fresh: allocated by the subject; concretely, not part of the arguments.
func Fresh(v interface{}) bool {
	id := regionID(v)
	return id == 0 || cur.regs[id] == nil
}

// Setup prepares the state of the program before the subject runs; the contract then holds for every such preparation.
func Setup(f func()) { f() }

// Modifies lists what the subject may write besides new memory.
func Modifies(x ...interface{}) {
	if cur.mods == nil {
		cur.mods = map[uintptr]bool{}
	}
	for _, v := range x {
		if id := regionID(v); id != 0 {
			cur.mods[id] = true
		}
	}
}

// LoopInv offers a loop invariant; its parameters range over the loop-carried values of those types.
func LoopInv(f interface{}) {}

// Try runs f and reports whether it panicked.
func Try(f func()) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(skipped); ok {
				panic(e)
			}
			cur.caught = e
			panicked = true
		}
	}()
	f()
	return false
}

// Caught is the value of the last panic Try intercepted.
func Caught() interface{} { return cur.caught }

// MayPanic accepts panics escaping from the specification.
func MayPanic() { cur.mayPanic = true }

// Skip ends a path outside the specified domain.
func Skip() { panic(skipped{}) }

// Visited is the ghost set of keys a map iteration has produced.
type Visited struct{ m map[string]bool }

func (v Visited) Has(k string) bool { return v.m[k] }

// Len is the number of visited keys.
func (v Visited) Len() int { return len(v.m) }

func FoldInt(n int, init int, f func(i, acc int) int) int {
	for i := 0; i < n; i++ {
		init = f(i, init)
	}
	return init
}
func FoldStr(n int, init string, f func(i int, acc string) string) string {
	for i := 0; i < n; i++ {
		init = f(i, init)
	}
	return init
}
func FoldBool(n int, init bool, f func(i int, acc bool) bool) bool {
	for i := 0; i < n; i++ {
		init = f(i, init)
	}
	return init
}
func FoldVal(n int, init interface{}, f func(i int, acc interface{}) interface{}) interface{} {
	for i := 0; i < n; i++ {
		init = f(i, init)
	}
	return init
}

// Count of the i in 0..n-1 for which f holds.
func Count(n int, f func(i int) bool) int {
	c := 0
	for i := 0; i < n; i++ {
		if f(i) {
			c++
		}
	}
	return c
}

func Sprint(v interface{}) string { return fmt.Sprint(v) }

// Cover marks a point that must be reachable.
func Cover(name string) {}
