package coll

import (
	"github.com/coveooss/gotemplate/v3/collections/implementation"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// sameText: elements compare by their text.
//
//gvc:pure
func sameText(a, b any) bool { return rt.Sprint(a) == rt.Sprint(b) }

// matches: equal by text, or strictly (same type and value).
//
//gvc:opaque
//gvc:pure
func matches(strict bool, a, b any) bool { return strict && a == b || !strict && sameText(a, b) }

// among: one of the values has the same text.
//
//gvc:named
//gvc:pure
func among(v any, values []any) bool {
	return rt.Exists(0, len(values), func(j int) bool { return matches(false, v, values[j]) })
}

// scalars: no element is a collection.
//
//gvc:pure
func scalars(p []any) bool {
	return rt.ForAll(0, len(p), func(i int) bool { return plain(p[i]) })
}

// comparables: the elements can be compared strictly.
//
//gvc:pure
func comparables(p []any) bool {
	return rt.ForAll(0, len(p), func(i int) bool { return rt.Comparable(p[i]) })
}

// filtered: q holds exactly the first n elements of p for which keep holds, in their order.
//
//gvc:pure
func filtered(p []any, n int, q []any, keep func(int) bool) bool {
	return len(q) == rt.Count(n, keep) && rt.ForAll(0, n, func(k int) bool {
		return !keep(k) || rt.Count(k, keep) < len(q) && conv(p[k], q[rt.Count(k, keep)])
	})
}

// Contains: the list is not empty and each of the values equals one of its elements.
//
//gvc:prop C05
//gvc:contract (~/collections/implementation.ListHelper).Contains
func SpecHelperContains(lh implementation.ListHelper, l list, strict bool, values ...any) {
	rt.Requires(l != nil)
	rt.RequiresF(func() bool { return !strict || comparables(values) || comparables(rt.Payload(l)) })
	p := rt.Payload(l)
	has := func(v any) bool {
		return rt.Exists(0, len(p), func(i int) bool { return matches(strict, v, p[i]) })
	}
	rt.LoopInv(func(i int) bool {
		return rt.ForAll(0, i, func(k int) bool { return k >= len(values) || has(values[k]) })
	})
	rt.LoopInv(func(value any, i int) bool {
		return rt.ForAll(0, i, func(k int) bool {
			return k >= len(p) || !matches(strict, value, p[k])
		})
	})
	r := lh.Contains(l, strict, values...)
	rt.Ensures("all of them in a non-empty list", r == (len(p) > 0 && rt.ForAll(0, len(values), func(k int) bool { return has(values[k]) })))
}

//gvc:prop C05
//gvc:contract ~/collections.IGenericList.Contains
func SpecContains(l list, values ...any) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	r := l.Contains(values...)
	rt.Ensures("all of them in a non-empty list", r == (len(p) > 0 && rt.ForAll(0, len(values), func(k int) bool { return among(values[k], p) })))
}

//gvc:prop C05
func SpecHas(l list, values ...any) {
	rt.Requires(l != nil)
	rt.Ensures("Has is Contains", l.Has(values...) == l.Contains(values...))
}

//gvc:prop C05
//gvc:contract ~/collections.IGenericList.ContainsStrict
func SpecContainsStrict(l list, values ...any) {
	rt.Requires(l != nil)
	rt.RequiresF(func() bool { return comparables(values) || comparables(rt.Payload(l)) })
	p := rt.Payload(l)
	r := l.ContainsStrict(values...)
	rt.Ensures("all of them in a non-empty list", r == (len(p) > 0 && rt.ForAll(0, len(values), func(k int) bool {
		return rt.Exists(0, len(p), func(i int) bool { return matches(true, values[k], p[i]) })
	})))
}

//gvc:prop C05
func SpecHasStrict(l list, values ...any) {
	rt.Requires(l != nil)
	rt.RequiresF(func() bool { return comparables(values) || comparables(rt.Payload(l)) })
	rt.Ensures("HasStrict is ContainsStrict", l.HasStrict(values...) == l.ContainsStrict(values...))
}

// positions: q lists exactly the positions below n where hit holds, in increasing order.
//
//gvc:pure
func positions(n int, q []any, hit func(int) bool) bool {
	return len(q) == rt.Count(n, hit) && rt.ForAll(0, n, func(k int) bool {
		return !hit(k) || rt.Count(k, hit) < len(q) && rt.Same(q[rt.Count(k, hit)], k)
	})
}

// Find: the increasing positions of the equal elements.
//
//gvc:prop C05
//gvc:contract (~/collections/implementation.ListHelper).Find
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecHelperFind(lh implementation.ListHelper, l list, element any, strict bool) {
	rt.Requires(l != nil)
	rt.RequiresF(func() bool { return !strict || rt.Comparable(element) || comparables(rt.Payload(l)) })
	p := rt.Payload(l)
	hit := func(k int) bool { return matches(strict, element, p[k]) }
	rt.LoopInv(func(i int, r list) bool { return positions(i, rt.Payload(r), hit) })
	r := lh.Find(l, element, strict)
	rt.Ensures("own format", rt.SameType(r, ownList(lh.BaseHelper)))
	rt.EnsuresF("exactly the positions of equal elements", func() bool { return positions(len(p), rt.Payload(r), hit) })
	rt.Ensures("new memory", rt.Fresh(r))
}

//gvc:prop C05
func SpecFind(l list, element any) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	r := l.Find(element)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.EnsuresF("exactly the positions of equal elements", func() bool {
		return positions(len(p), rt.Payload(r), func(k int) bool { return matches(false, element, p[k]) })
	})
}

//gvc:prop C05
func SpecFindStrict(l list, element any) {
	rt.Requires(l != nil)
	rt.RequiresF(func() bool { return rt.Comparable(element) || comparables(rt.Payload(l)) })
	p := rt.Payload(l)
	r := l.FindStrict(element)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.EnsuresF("exactly the positions of equal elements", func() bool {
		return positions(len(p), rt.Payload(r), func(k int) bool { return matches(true, element, p[k]) })
	})
}

// firstOf: no earlier element has the same text.
//
//gvc:named
//gvc:pure
func firstOf(p []any, k int) bool {
	return rt.ForAll(0, k, func(j int) bool { return !sameText(p[j], p[k]) })
}

// Unique keeps the first occurrence of every distinct element.
//
//gvc:prop C04
//gvc:contract (~/collections/implementation.ListHelper).Unique
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecHelperUnique(lh implementation.ListHelper, l list) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	rt.RequiresF(func() bool { return scalars(p) })
	keep := func(k int) bool { return firstOf(p, k) }
	rt.LoopInv(func(i int, r list) bool {
		q := rt.Payload(r)
		return rt.ForAll(0, len(q), func(w int) bool { return rt.Exists(0, i, func(k int) bool { return rt.Same(p[k], q[w]) }) })
	})
	rt.LoopInv(func(i int, r list) bool {
		return rt.ForAll(0, i, func(k int) bool { return among(p[k], rt.Payload(r)) })
	})
	rt.LoopInv(func(i int, r list) bool { return len(rt.Payload(r)) == rt.Count(i, keep) })
	rt.LoopInv(func(i int, r list) bool {
		q := rt.Payload(r)
		return rt.ForAll(0, i, func(k int) bool {
			return !keep(k) || rt.Count(k, keep) < len(q) && rt.Same(p[k], q[rt.Count(k, keep)])
		})
	})
	r := lh.Unique(l)
	rt.Ensures("own format", rt.SameType(r, ownList(lh.BaseHelper)))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the first occurrences, in order", func() bool { return filtered(p, len(p), rt.Payload(r), keep) })
}

//gvc:prop C04
//gvc:contract ~/collections.IGenericList.Unique
func SpecUnique(l list) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	rt.RequiresF(func() bool { return scalars(p) })
	r := l.Unique()
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the first occurrences, in order", func() bool {
		return filtered(p, len(p), rt.Payload(r), func(k int) bool { return firstOf(p, k) })
	})
}

// Without drops exactly the elements equal to one of the values.
//
//gvc:prop C04
//gvc:contract (~/collections/implementation.ListHelper).Without
//gvc:opt sealed=matches
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecHelperWithout(lh implementation.ListHelper, l list, values ...any) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	rt.RequiresF(func() bool { return scalars(values) })
	keep := func(k int) bool { return !among(p[k], values) }
	rt.LoopInv(func(excluded []any) bool { return rt.SameAll(values, excluded) })
	rt.LoopInv(func(i int, r list) bool { return filtered(p, i, rt.Payload(r), keep) })
	r := lh.Without(l, values...)
	rt.Ensures("own format", rt.SameType(r, ownList(lh.BaseHelper)))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the other elements, in order", func() bool { return filtered(p, len(p), rt.Payload(r), keep) })
}

//gvc:prop C04
func SpecWithout(l list, values ...any) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	rt.RequiresF(func() bool { return scalars(values) })
	r := l.Without(values...)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the other elements, in order", func() bool {
		return filtered(p, len(p), rt.Payload(r), func(k int) bool { return !among(p[k], values) })
	})
}

// Remove drops exactly the given positions.
//
//gvc:prop C04
//gvc:contract (~/collections/implementation.ListHelper).Remove
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecHelperRemove(lh implementation.ListHelper, l list, indexes ...int) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	keep := func(k int) bool { return !listed(k, indexes, len(p)) }
	rt.LoopInv(func(i int, positions []int) bool {
		return len(positions) == len(indexes) && rt.ForAll(0, i, func(j int) bool {
			return positions[j] == indexes[j]+rt.Ite(indexes[j] < 0, len(p), 0)
		})
	})
	rt.LoopInv(func(i int, r list) bool { return filtered(p, i, rt.Payload(r), keep) && rt.SameType(r, l) })
	r := lh.Remove(l, indexes...)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the other positions, in order", func() bool { return filtered(p, len(p), rt.Payload(r), keep) })
}

// listed: position k of n is one of the indexes, counted from the end when negative.
//
//gvc:pure
func listed(k int, indexes []int, n int) bool {
	return rt.Exists(0, len(indexes), func(j int) bool { return indexes[j]+rt.Ite(indexes[j] < 0, n, 0) == k })
}

//gvc:prop C04
func SpecRemove(l list, indexes ...int) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	r := l.Remove(indexes...)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the other positions, in order", func() bool {
		return filtered(p, len(p), rt.Payload(r), func(k int) bool { return !listed(k, indexes, len(p)) })
	})
}

// RemoveNil drops exactly the nil elements.
//
//gvc:prop C04
//gvc:contract (~/collections/implementation.ListHelper).RemoveNil
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecHelperRemoveNil(lh implementation.ListHelper, l list) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	keep := func(k int) bool { return p[k] != nil }
	rt.LoopInv(func(i int, r list) bool { return filtered(p, i, rt.Payload(r), keep) && rt.SameType(r, l) })
	r := lh.RemoveNil(l)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the other elements, in order", func() bool { return filtered(p, len(p), rt.Payload(r), keep) })
}

//gvc:prop C04
func SpecRemoveNil(l list) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	r := l.RemoveNil()
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the other elements, in order", func() bool {
		return filtered(p, len(p), rt.Payload(r), func(k int) bool { return p[k] != nil })
	})
}

// empty: nil, an empty text or an empty list.
//
//gvc:pure
func empty(v any) bool {
	if isList(v) {
		return len(rt.Payload(v)) == 0
	}
	return v == nil || rt.Sprint(v) == ""
}

// RemoveEmpty drops exactly the empty elements.
//
//gvc:prop C04
//gvc:contract (~/collections/implementation.ListHelper).RemoveEmpty
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecHelperRemoveEmpty(lh implementation.ListHelper, l list) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	keep := func(k int) bool { return !empty(p[k]) }
	rt.LoopInv(func(i int, r list) bool { return filtered(p, i, rt.Payload(r), keep) && rt.SameType(r, l) })
	r := lh.RemoveEmpty(l)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the other elements, in order", func() bool { return filtered(p, len(p), rt.Payload(r), keep) })
}

//gvc:prop C04
func SpecRemoveEmpty(l list) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	r := l.RemoveEmpty()
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the other elements, in order", func() bool {
		return filtered(p, len(p), rt.Payload(r), func(k int) bool { return !empty(p[k]) })
	})
}

// Intersect keeps the distinct elements equal to one of the values.
//
//gvc:prop C04
//gvc:contract (~/collections/implementation.ListHelper).Intersect
//gvc:opt sealed=matches
//gvc:cases lh=implementation.baseListHelper|json.jsonListHelper|yaml.yamlListHelper|hcl.hclListHelper|xml.xmlListHelper
func SpecHelperIntersect(lh implementation.ListHelper, l list, values ...any) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	rt.RequiresF(func() bool { return scalars(p) && scalars(values) })
	rt.LoopInv(func(included []any) bool { return rt.SameSlice(values, included) || rt.SameAll(values, included) })
	rt.LoopInv(func(i int, source []any, r list) bool {
		return filtered(source, i, rt.Payload(r), func(k int) bool { return among(source[k], values) })
	})
	u := lh.Unique(l)
	source := rt.Payload(u)
	r := lh.Intersect(l, values...)
	rt.Ensures("own format", rt.SameType(r, ownList(lh.BaseHelper)))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the common elements of its distinct ones, in order", func() bool {
		return filtered(source, len(source), rt.Payload(r), func(k int) bool { return among(source[k], values) })
	})
}

//gvc:prop C04
func SpecIntersect(l list, values ...any) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	rt.RequiresF(func() bool { return scalars(p) && scalars(values) })
	r := l.Intersect(values...)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.Ensures("new memory", rt.Fresh(r))
	rt.EnsuresF("exactly the common elements, in order", func() bool {
		return filtered(p, len(p), rt.Payload(r), func(k int) bool { return firstOf(p, k) && among(p[k], values) })
	})
}

// Union keeps the distinct elements of both.
//
//gvc:prop C04
func SpecUnion(l list, values ...any) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	rt.RequiresF(func() bool { return scalars(p) && scalars(values) })
	all := l.Append(values...)
	q := rt.Payload(all)
	r := l.Union(values...)
	rt.Ensures("same format", rt.SameType(r, l))
	rt.EnsuresF("the distinct elements of both", func() bool {
		return filtered(q, len(q), rt.Payload(r), func(k int) bool { return firstOf(q, k) })
	})
}

// Pop reads and removes.
//
//gvc:prop C04
//gvc:opt bounded=1
func SpecListPop(l list, indexes ...int) {
	rt.Requires(l != nil)
	p := rt.Payload(l)
	at0 := indexes
	if len(at0) == 0 {
		at0 = []int{len(p) - 1}
	}
	want, rest := l.Get(at0...), l.Remove(at0...)
	v, r := l.Pop(indexes...)
	rt.Ensures("reads", len(at0) == 1 && rt.Same(v, want) || len(at0) != 1 && sameText(v, want))
	rt.Ensures("removes", rt.SameType(r, l) && sameText(r, rest))
}

// Lists with collections inside: the text decides as well.
//
//gvc:prop C04
//gvc:opt bounded=1
func SpecFiltersDeep(l list, values ...any) {
	rt.Requires(l != nil)
	l = l.Clone()
	values = rt.Payload(l.New().Append(values...))
	p := rt.Payload(l)
	rt.Ensures("Unique", filtered(p, len(p), rt.Payload(l.Unique()), func(k int) bool { return firstOf(p, k) }))
	rt.Ensures("Without", filtered(p, len(p), rt.Payload(l.Without(values...)), func(k int) bool { return !among(p[k], values) }))
	rt.Ensures("Intersect", filtered(p, len(p), rt.Payload(l.Intersect(values...)), func(k int) bool { return firstOf(p, k) && among(p[k], values) }))
	rt.Ensures("elements unchanged", rt.ForAll(0, len(p), func(k int) bool {
		return !firstOf(p, k) || rt.Exists(0, len(rt.Payload(l.Unique())), func(j int) bool { return sameText(rt.Payload(l.Unique())[j], p[k]) })
	}))
}
