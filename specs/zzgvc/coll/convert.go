package coll

import (
	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/collections/implementation"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// ownList and ownDict: empty collections of the helper's format.
//
//gvc:pure
func ownList(bh implementation.BaseHelper) any {
	return bh.ConvertList(implementation.ListTypeName(nil))
}

//gvc:pure
func ownDict(bh implementation.BaseHelper) any {
	return bh.ConvertDict(implementation.DictTypeName(nil))
}

// NeedConversion only reads.
//
//gvc:prop C11
//gvc:contract ~/collections/implementation.NeedConversion
func SpecNeedConversion(object any, strict bool, typeName string) {
	r := implementation.NeedConversion(object, strict, typeName)
	rt.Ensures("plain values need none", rt.Implies(plain(object), !r))
}

// CreateList gives a new list of the helper's format holding nil elements.
//
//gvc:prop C11
//gvc:contract (~/collections/implementation.BaseHelper).CreateList
//gvc:cases bh=implementation.baseHelper|json.jsonHelper|yaml.yamlHelper|hcl.hclHelper|xml.xmlHelper
func SpecCreateList(bh implementation.BaseHelper, args ...int) {
	rt.RequiresF(func() bool {
		return len(args) <= 2 && (len(args) == 0 || args[0] >= 0 && args[0] <= 1<<40) && (len(args) < 2 || args[1] <= 1<<40)
	})
	n := 0
	if len(args) > 0 {
		n = args[0]
	}
	r := bh.CreateList(args...)
	p := rt.Payload(r)
	rt.Ensures("own format", rt.SameType(r, ownList(bh)))
	rt.Ensures("that many elements", len(p) == n)
	rt.Ensures("nil elements", rt.ForAll(0, n, func(i int) bool { return p[i] == nil }))
	rt.Ensures("new", rt.Fresh(r))
}

// Create through a list gives a list of the same format.
//
//gvc:prop C11
//gvc:contract ~/collections.IGenericList.Create
func SpecListCreate(l list, args ...int) {
	rt.Requires(l != nil)
	rt.RequiresF(func() bool {
		return len(args) <= 2 && (len(args) == 0 || args[0] >= 0 && args[0] <= 1<<40) && (len(args) < 2 || args[1] <= 1<<40)
	})
	n := 0
	if len(args) > 0 {
		n = args[0]
	}
	r := l.Create(args...)
	p := rt.Payload(r)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("that many elements", len(p) == n)
	rt.Ensures("nil elements", rt.ForAll(0, n, func(i int) bool { return p[i] == nil }))
	rt.Ensures("new", rt.Fresh(r))
}

// CreateDictionary gives a new empty dictionary of the helper's format.
//
//gvc:prop C11
//gvc:contract (~/collections/implementation.BaseHelper).CreateDictionary
//gvc:cases bh=implementation.baseHelper|json.jsonHelper|yaml.yamlHelper|hcl.hclHelper|xml.xmlHelper
func SpecCreateDictionary(bh implementation.BaseHelper, args ...int) {
	rt.RequiresF(func() bool { return len(args) <= 1 && (len(args) == 0 || args[0] <= 1<<40) })
	r := bh.CreateDictionary(args...)
	m := rt.PayloadMap(r)
	rt.Ensures("own format", rt.SameType(r, ownDict(bh)))
	rt.Ensures("empty", len(m) == 0)
	rt.Ensures("no key", rt.ForAllStr(func(k string) bool { _, ok := m[k]; return !ok }))
	rt.Ensures("not nil", m != nil)
	rt.Ensures("new", rt.Fresh(r))
}

// TryAsDictionary keeps dictionaries, refuses plain values.
//
//gvc:prop C11
//gvc:contract (~/collections/implementation.BaseHelper).TryAsDictionary
//gvc:cases bh=implementation.baseHelper|json.jsonHelper|yaml.yamlHelper|hcl.hclHelper|xml.xmlHelper
func SpecTryAsDictionary(bh implementation.BaseHelper, object any) {
	r, err := bh.TryAsDictionary(object)
	rt.Ensures("a dictionary or an error", (err == nil) == (r != nil))
	rt.Ensures("plain values are refused", rt.Implies(plain(object) && object != nil, err != nil))
	rt.EnsuresF("nil gives an empty dictionary", func() bool {
		return object != nil || err == nil && len(rt.PayloadMap(r)) == 0 && rt.Fresh(r) && rt.SameType(r, ownDict(bh))
	})
	rt.EnsuresF("lists are refused", func() bool { return !isList(object) || err != nil })
	rt.EnsuresF("dictionaries are kept or converted to the own format", func() bool {
		return !isDict(object) || err == nil && (rt.Same(object, r) || rt.SameType(r, ownDict(bh)) && rt.Fresh(r))
	})
}

// TryAsList keeps lists, refuses plain values.
//
//gvc:prop C11
//gvc:contract (~/collections/implementation.BaseHelper).TryAsList
//gvc:opt transparent
//gvc:cases bh=implementation.baseHelper|json.jsonHelper|yaml.yamlHelper|hcl.hclHelper|xml.xmlHelper
func SpecTryAsList(bh implementation.BaseHelper, object any) {
	ints, areInts := object.([]int)
	rt.LoopInv(func(i int, cur list) bool {
		q := rt.Payload(cur)
		return rt.Fresh(cur) && rt.SameType(cur, ownList(bh)) && (!areInts || len(q) == len(ints) && rt.ForAll(0, i, func(k int) bool { return rt.Same(q[k], ints[k]) }))
	})
	rt.LoopInv(func(i int, from, to list) bool {
		p, q := rt.Payload(from), rt.Payload(to)
		return rt.Fresh(to) && rt.SameType(to, ownList(bh)) && len(q) == len(p) &&
			rt.ForAll(i, len(q), func(k int) bool { return q[k] == nil }) && rt.ForAll(0, i, func(k int) bool { return conv(p[k], q[k]) })
	})
	r, err := bh.TryAsList(object)
	rt.Ensures("a list or an error", (err == nil) == (r != nil))
	rt.Ensures("plain values are refused", rt.Implies(plain(object) && object != nil, err != nil))
	rt.EnsuresF("nil gives an empty list", func() bool {
		return object != nil || err == nil && len(rt.Payload(r)) == 0 && rt.Fresh(r) && rt.SameType(r, ownList(bh))
	})
	rt.EnsuresF("lists are kept or converted to the own format", func() bool {
		return !isList(object) || err == nil && (rt.Same(object, r) || rt.SameType(r, ownList(bh)) && rt.Fresh(r) && convAll(rt.Payload(object), rt.Payload(r)))
	})
	rt.EnsuresF("native lists become lists of the own format", func() bool {
		s, ok := object.([]any)
		return !ok || err == nil && rt.SameType(r, ownList(bh)) && (rt.SameSlice(s, rt.Payload(r)) || convAll(s, rt.Payload(r)) && rt.Fresh(r))
	})
	rt.EnsuresF("lists of integers", func() bool {
		return !areInts || err == nil && rt.SameType(r, ownList(bh)) && rt.Fresh(r) && len(rt.Payload(r)) == len(ints) && rt.ForAll(0, len(ints), func(i int) bool { return rt.Same(rt.Payload(r)[i], ints[i]) })
	})
}

// AsList works with whatever default format is configured: lists are kept, native lists are converted element by
// element, anything else becomes a list of one element.
//
//gvc:prop C11
//gvc:contract ~/collections.AsList
//gvc:opt transparent
//gvc:cases helper=implementation.GenericListHelper|json.GenericListHelper|yaml.GenericListHelper|hcl.GenericListHelper|xml.GenericListHelper
func SpecPackageAsList(object any, helper collections.IListHelper) {
	ints, areInts := object.([]int)
	values, native := object.([]any)
	rt.LoopInv(func(i int, cur list) bool {
		q := rt.Payload(cur)
		return cur != nil && rt.Fresh(cur) && (object == nil || !plain(object) || len(q) == i && (i == 0 || rt.Same(q[0], object)))
	})
	rt.Setup(func() { collections.SetListHelper(helper) })
	r := collections.AsList(object)
	rt.Ensures("a list", r != nil)
	rt.EnsuresF("lists are kept", func() bool { return !isList(object) || rt.Same(object, r) })
	rt.EnsuresF("native lists", func() bool {
		q := rt.Payload(r)
		return !native || (rt.SameSlice(values, q) || convAll(values, q) && rt.Fresh(r))
	})
	rt.EnsuresF("native lists of plain values", func() bool {
		return !native || !scalars(values) || rt.SameSlice(values, rt.Payload(r)) || rt.SameAll(values, rt.Payload(r))
	})
	rt.EnsuresF("lists of integers", func() bool {
		q := rt.Payload(r)
		return !areInts || rt.Fresh(r) && len(q) == len(ints) && rt.ForAll(0, len(ints), func(i int) bool { return rt.Same(q[i], ints[i]) })
	})
	rt.EnsuresF("nil gives an empty list", func() bool { return object != nil || len(rt.Payload(r)) == 0 && rt.Fresh(r) })
	rt.EnsuresF("a plain value gives a list of one element", func() bool {
		q := rt.Payload(r)
		return object == nil || !plain(object) || rt.Fresh(r) && len(q) == 1 && rt.Same(q[0], object)
	})
}

//gvc:prop C11
//gvc:contract ~/collections.TryAsList
//gvc:cases helper=implementation.GenericListHelper|json.GenericListHelper|yaml.GenericListHelper|hcl.GenericListHelper|xml.GenericListHelper
func SpecPackageTryAsList(object any, helper collections.IListHelper) {
	ints, areInts := object.([]int)
	values, native := object.([]any)
	rt.Setup(func() { collections.SetListHelper(helper) })
	r, err := collections.TryAsList(object)
	rt.Ensures("a list or an error", (err == nil) == (r != nil))
	rt.EnsuresF("lists are kept", func() bool { return !isList(object) || err == nil && rt.Same(object, r) })
	rt.EnsuresF("native lists", func() bool {
		return !native || err == nil && (rt.SameSlice(values, rt.Payload(r)) || convAll(values, rt.Payload(r)) && rt.Fresh(r))
	})
	rt.EnsuresF("lists of integers", func() bool {
		return !areInts || err == nil && rt.Fresh(r) && len(rt.Payload(r)) == len(ints) && rt.ForAll(0, len(ints), func(i int) bool { return rt.Same(rt.Payload(r)[i], ints[i]) })
	})
	rt.EnsuresF("nil gives an empty list", func() bool { return object != nil || err == nil && len(rt.Payload(r)) == 0 && rt.Fresh(r) })
	rt.EnsuresF("a plain value is refused", func() bool { return object == nil || !plain(object) || err != nil })
}

//gvc:pure
func convAll(a, b []any) bool {
	return len(a) == len(b) && rt.ForAll(0, len(a), func(i int) bool { return conv(a[i], b[i]) })
}

// TryConvert changes collections only.
//
//gvc:prop C11
//gvc:contract (~/collections/implementation.BaseHelper).TryConvert
//gvc:cases bh=implementation.baseHelper|json.jsonHelper|yaml.yamlHelper|hcl.hclHelper|xml.xmlHelper
func SpecTryConvert(bh implementation.BaseHelper, object any) {
	r, ok := bh.TryConvert(object)
	rt.Ensures("plain values are kept", rt.Implies(plain(object), !ok))
	rt.Ensures("same value when not converted", rt.Implies(!ok, rt.Same(r, object)))
	rt.EnsuresF("a collection otherwise", func() bool { return !ok || isList(r) || isDict(r) })
}

var _ = collections.NewList
