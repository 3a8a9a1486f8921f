package coll

import (
	"github.com/coveooss/gotemplate/v3/collections/implementation"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// Len and AsArray give the elements themselves.
//
//gvc:prop C01
//gvc:contract ~/collections.IGenericList.Len
//gvc:opt pure
func SpecLen(l list) {
	rt.Requires(l != nil)
	n := l.Len()
	rt.Ensures("number of elements", n == len(rt.Payload(l)))
}

//gvc:prop C01
//gvc:contract ~/collections.IGenericList.AsArray
//gvc:opt pure
func SpecAsArray(l list) {
	rt.Requires(l != nil)
	a := l.AsArray()
	rt.Ensures("the elements", rt.Same(a, rt.Payload(l)))
}

// Reading by one index: the element, counted from the end when negative, nil outside.
//
//gvc:prop C01
//gvc:contract (~/collections/implementation.ListHelper).GetIndexes
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecGetIndexes(lh implementation.ListHelper, l list, indexes ...int) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	rt.LoopInv(func(i int, r list) bool {
		q := rt.Payload(r)
		return len(q) == len(indexes) && rt.ForAll(0, i, func(k int) bool { return conv(at(p, indexes[k]), q[k]) })
	})
	v := lh.GetIndexes(l, indexes...)
	rt.Ensures("none", rt.Implies(len(indexes) == 0, v == nil))
	rt.EnsuresF("one", func() bool { return len(indexes) != 1 || rt.Same(v, at(p, indexes[0])) })
	rt.EnsuresF("many", func() bool {
		return len(indexes) < 2 || rt.SameType(v, l) && len(rt.Payload(v)) == len(indexes) && rt.Fresh(v) &&
			rt.ForAll(0, len(indexes), func(k int) bool { return conv(at(p, indexes[k]), rt.Payload(v)[k]) })
	})
}

// at is the element at a position, possibly from the end; nil outside.
//
//gvc:pure
func at(p []any, i int) any {
	if i < 0 {
		i += len(p)
	}
	if i < 0 || i >= len(p) {
		return nil
	}
	return p[i]
}

//gvc:prop C01
//gvc:contract ~/collections.IGenericList.Get
func SpecGet(l list, indexes ...int) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	v := l.Get(indexes...)
	rt.Ensures("none", rt.Implies(len(indexes) == 0, v == nil))
	rt.EnsuresF("one", func() bool { return len(indexes) != 1 || rt.Same(v, at(p, indexes[0])) })
	rt.EnsuresF("many", func() bool {
		return len(indexes) < 2 || rt.SameType(v, l) && len(rt.Payload(v)) == len(indexes) && rt.Fresh(v) &&
			rt.ForAll(0, len(indexes), func(k int) bool { return conv(at(p, indexes[k]), rt.Payload(v)[k]) })
	})
}

//gvc:prop C01
func SpecFirstLast(l list) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	f, e := l.First(), l.Last()
	rt.EnsuresF("first", func() bool { return rt.Same(f, at(p, 0)) })
	rt.EnsuresF("last", func() bool { return rt.Same(e, at(p, -1)) })
}

// Add appends or prepends in new memory.
//
//gvc:prop C03
//gvc:contract (~/collections/implementation.ListHelper).Add
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecAdd(lh implementation.ListHelper, l list, prepend bool, objects ...any) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	n, m := len(p), len(objects)
	rt.LoopInv(func(i int, r []any) bool {
		return len(r) == m && rt.ForAll(0, i, func(k int) bool { return conv(objects[k], r[k]) })
	})
	r := lh.Add(l, prepend, objects...)
	q := rt.Payload(r)
	rt.Ensures("own format", rt.SameType(r, ownList(lh.BaseHelper)))
	rt.Ensures("length", len(q) == n+m)
	rt.Ensures("new memory", rt.Fresh(r))
	first, second, k := p, objects, n
	if prepend {
		first, second, k = objects, p, m
	}
	rt.Ensures("first part", rt.ForAll(0, k, func(i int) bool { return conv(first[i], q[i]) }))
	rt.Ensures("second part", rt.ForAll(k, n+m, func(i int) bool { return conv(second[i-k], q[i]) }))
}

// Append: the old elements, then the new ones.
//
//gvc:prop C03
//gvc:contract ~/collections.IGenericList.Append
func SpecAppend(l list, values ...any) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	n, m := len(p), len(values)
	r := l.Append(values...)
	rt.Ensures("a list", r != nil)
	q := rt.Payload(r)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("length", len(q) == n+m)
	rt.Ensures("new memory", rt.Fresh(r))
	rt.Ensures("old elements first", rt.ForAll(0, n, func(i int) bool { return conv(p[i], q[i]) }))
	rt.Ensures("then the new ones", rt.ForAll(0, m, func(i int) bool { return conv(values[i], q[n+i]) }))
}

// Prepend: the new elements, then the old ones.
//
//gvc:prop C03
//gvc:contract ~/collections.IGenericList.Prepend
func SpecPrepend(l list, values ...any) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	n, m := len(p), len(values)
	r := l.Prepend(values...)
	rt.Ensures("a list", r != nil)
	q := rt.Payload(r)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("length", len(q) == n+m)
	rt.Ensures("new memory", rt.Fresh(r))
	rt.Ensures("new elements first", rt.ForAll(0, m, func(i int) bool { return conv(values[i], q[i]) }))
	rt.Ensures("then the old ones", rt.ForAll(0, n, func(i int) bool { return conv(p[i], q[m+i]) }))
}

// reversed: q holds the elements of p in the opposite order.
//
//gvc:pure
func reversed(p, q []any) bool {
	return len(q) == len(p) && rt.ForAll(0, len(p), func(i int) bool { return conv(p[len(p)-1-i], q[i]) })
}

// Reverse: the elements in the opposite order, in new memory.
//
//gvc:prop C03
//gvc:contract (~/collections/implementation.ListHelper).Reverse
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecHelperReverse(lh implementation.ListHelper, l list) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	n := len(p)
	rt.LoopInv(func(i int, target list) bool {
		q := rt.Payload(target)
		return target != nil && len(q) == n && rt.ForAll(n-i, n, func(k int) bool { return k < 0 || conv(p[n-1-k], q[k]) })
	})
	r := lh.Reverse(l)
	rt.Ensures("own format", rt.SameType(r, ownList(lh.BaseHelper)))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("the elements in the opposite order", func() bool { return reversed(p, rt.Payload(r)) })
}

//gvc:prop C03
//gvc:contract ~/collections.IGenericList.Reverse
func SpecReverse(l list) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	r := l.Reverse()
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("the elements in the opposite order", func() bool { return reversed(p, rt.Payload(r)) })
}

// Clone: the same elements in the same order, in new memory.
//
//gvc:prop C03
//gvc:contract (~/collections/implementation.ListHelper).Clone
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecHelperClone(lh implementation.ListHelper, l list) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	r := lh.Clone(l)
	rt.Ensures("own format", rt.SameType(r, ownList(lh.BaseHelper)))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.Ensures("the same elements", convAll(p, rt.Payload(r)))
}

//gvc:prop C03
//gvc:contract ~/collections.IGenericList.Clone
func SpecListClone(l list) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	r := l.Clone()
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.Ensures("the same elements", convAll(p, rt.Payload(r)))
}

// Set: the value at the index, everything else as before.
//
//gvc:prop C02
//gvc:contract (~/collections/implementation.ListHelper).SetIndex
//gvc:opt transparent
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecSetIndex(lh implementation.ListHelper, l list, index int, value any) {
	rt.Requires(l != nil)
	rt.Requires(index < 1<<40)
	rt.Requires(rt.SameType(l, ownList(lh.BaseHelper)))
	p := rt.Payload(l)
	before := rt.Snap(p)
	n := len(p)
	rt.LoopInv(func(cur list) bool {
		q := rt.Payload(cur)
		return rt.SameType(cur, l) && len(q) >= n && (len(q) == n && rt.Same(cur, l) || len(q) > n && len(q) <= index+1 && rt.Fresh(cur)) &&
			rt.ForAll(0, n, func(i int) bool { return conv(before[i], q[i]) }) && rt.ForAll(n, len(q), func(i int) bool { return q[i] == nil })
	})
	rt.Modifies(l)
	r, err := lh.SetIndex(l, index, value)
	rt.Ensures("negative index refused", (err != nil) == (index < 0))
	rt.Ensures("list or error", (err == nil) == (r != nil))
	rt.Ensures("nothing changed when refused", rt.Implies(index < 0, rt.SameAll(p, before)))
	rt.EnsuresF("in place", func() bool {
		return index < 0 || index >= n || rt.Same(r, l) && conv(value, p[index]) && rt.ForAll(0, n, func(i int) bool { return i == index || rt.Same(p[i], before[i]) })
	})
	rt.EnsuresF("enlarged", func() bool {
		if index < n {
			return true
		}
		q := rt.Payload(r)
		return rt.SameType(r, l) && len(q) == index+1 && rt.Fresh(r) && rt.SameAll(p, before) && conv(value, q[index]) &&
			rt.ForAll(0, n, func(i int) bool { return conv(before[i], q[i]) }) && rt.ForAll(n, index, func(i int) bool { return q[i] == nil })
	})
}

//gvc:prop C02
//gvc:contract ~/collections.IGenericList.Set
func SpecSet(l list, index int, value any) {
	rt.Requires(l != nil)
	rt.Requires(index < 1<<40)
	p := rt.Payload(l)
	before := rt.Snap(p)
	n := len(p)
	rt.Modifies(l)
	r, err := l.Set(index, value)
	rt.Ensures("negative index refused", (err != nil) == (index < 0))
	rt.Ensures("list or error", (err == nil) == (r != nil))
	rt.Ensures("nothing changed when refused", rt.Implies(index < 0, rt.SameAll(p, before)))
	rt.EnsuresF("in place", func() bool {
		return index < 0 || index >= n || rt.Same(r, l) && conv(value, p[index]) && rt.ForAll(0, n, func(i int) bool { return i == index || rt.Same(p[i], before[i]) })
	})
	rt.EnsuresF("enlarged", func() bool {
		if index < n {
			return true
		}
		q := rt.Payload(r)
		return rt.SameType(r, l) && len(q) == index+1 && rt.Fresh(r) && rt.SameAll(p, before) && conv(value, q[index]) &&
			rt.ForAll(0, n, func(i int) bool { return conv(before[i], q[i]) }) && rt.ForAll(n, index, func(i int) bool { return q[i] == nil })
	})
}
