package coll

import (
	"sort"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/collections/implementation"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// named: the key is the text of one of the keys.
//
//gvc:pure
func named(k string, keys []any) bool {
	return rt.Exists(0, len(keys), func(i int) bool { return rt.Sprint(keys[i]) == k })
}

//gvc:pure
func hasKey(m map[string]any, k string) bool { _, ok := m[k]; return ok }

// AsMap and Len give the entries themselves.
//
//gvc:prop C06
//gvc:contract ~/collections.IDictionary.AsMap
//gvc:opt pure
func SpecAsMap(d dict) {
	rt.Requires(d != nil)
	m := d.AsMap()
	rt.Ensures("the entries", rt.Same(m, rt.PayloadMap(d)))
}

//gvc:prop C06
//gvc:contract ~/collections.IDictionary.Len
//gvc:opt pure
func SpecDictLen(d dict) {
	rt.Requires(d != nil)
	rt.Ensures("number of entries", d.Len() == len(rt.PayloadMap(d)))
}

// Reading by keys: the entry of that text, nil when absent.
//
//gvc:prop C06
//gvc:contract (~/collections/implementation.DictHelper).Get
//gvc:cases dh=implementation.baseDictHelper|json.jsonDictHelper|yaml.yamlDictHelper|hcl.hclDictHelper|xml.xmlDictHelper
func SpecHelperDictGet(dh implementation.DictHelper, d dict, keys []any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	rt.LoopInv(func(i int, r list) bool {
		q := rt.Payload(r)
		return rt.SamePackage(r, d) && len(q) == len(keys) && rt.ForAll(0, i, func(k int) bool { return k >= len(keys) || conv(m[rt.Sprint(keys[k])], q[k]) })
	})
	v := dh.Get(d, keys)
	rt.Ensures("none", rt.Implies(len(keys) == 0, v == nil))
	rt.EnsuresF("one", func() bool { return len(keys) != 1 || rt.Same(v, m[rt.Sprint(keys[0])]) })
	rt.EnsuresF("many", func() bool {
		return len(keys) < 2 || isList(v) && rt.SamePackage(v, d) && len(rt.Payload(v)) == len(keys) && rt.Fresh(v) &&
			rt.ForAll(0, len(keys), func(k int) bool { return conv(m[rt.Sprint(keys[k])], rt.Payload(v)[k]) })
	})
}

//gvc:prop C06
//gvc:contract ~/collections.IDictionary.Get
func SpecDictGet(d dict, keys ...any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	v := d.Get(keys...)
	rt.Ensures("none", rt.Implies(len(keys) == 0, v == nil))
	rt.EnsuresF("one", func() bool { return len(keys) != 1 || rt.Same(v, m[rt.Sprint(keys[0])]) })
	rt.EnsuresF("many", func() bool {
		return len(keys) < 2 || isList(v) && rt.SamePackage(v, d) && len(rt.Payload(v)) == len(keys) && rt.Fresh(v) &&
			rt.ForAll(0, len(keys), func(k int) bool { return conv(m[rt.Sprint(keys[k])], rt.Payload(v)[k]) })
	})
}

// Reading several keys gives a list of the same format.
//
//gvc:prop C06
//gvc:prop C11
func SpecDictGetFormat(d dict, keys ...any) {
	rt.Requires(d != nil && len(keys) >= 2)
	rt.Ensures("same format", rt.SameType(d.Get(keys...), d.CreateList()))
}

// Has: not empty and holding all the keys.
//
//gvc:prop C06
//gvc:contract (~/collections/implementation.DictHelper).Has
func SpecHelperDictHas(dh implementation.DictHelper, d dict, keys []any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	rt.LoopInv(func(i int) bool {
		return rt.ForAll(0, i, func(k int) bool { return k >= len(keys) || hasKey(m, rt.Sprint(keys[k])) })
	})
	r := dh.Has(d, keys)
	rt.Ensures("all of them in a non-empty dictionary", r == (len(m) > 0 && rt.ForAll(0, len(keys), func(k int) bool { return hasKey(m, rt.Sprint(keys[k])) })))
}

//gvc:prop C06
//gvc:contract ~/collections.IDictionary.Has
func SpecDictHas(d dict, keys ...any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	r := d.Has(keys...)
	rt.Ensures("all of them in a non-empty dictionary", r == (len(m) > 0 && rt.ForAll(0, len(keys), func(k int) bool { return hasKey(m, rt.Sprint(keys[k])) })))
}

// Default: the stored value (even nil) when the key exists.
//
//gvc:prop C06
func SpecDictDefault(d dict, key, def any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	r := d.Default(key, def)
	rt.EnsuresF("stored value", func() bool { return !hasKey(m, rt.Sprint(key)) || rt.Same(r, m[rt.Sprint(key)]) })
	rt.EnsuresF("fallback", func() bool { return hasKey(m, rt.Sprint(key)) || rt.Same(r, def) })
}

// Set concerns its key only.
//
//gvc:prop C06
//gvc:contract (~/collections/implementation.DictHelper).Set
//gvc:cases dh=implementation.baseDictHelper|json.jsonDictHelper|yaml.yamlDictHelper|hcl.hclDictHelper|xml.xmlDictHelper
func SpecHelperDictSet(dh implementation.DictHelper, d dict, key, value any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	before := rt.SnapMap(m)
	k := rt.Sprint(key)
	rt.Modifies(d)
	r := dh.Set(d, key, value)
	rt.Ensures("a dictionary", r != nil)
	q := rt.PayloadMap(r)
	rt.Ensures("in place", rt.Implies(m != nil, rt.Same(r, d)))
	rt.Ensures("or a new one", rt.Implies(m == nil, rt.Fresh(r) && rt.SameType(r, ownDict(dh.BaseHelper))))
	rt.EnsuresF("the value", func() bool { return hasKey(q, k) && conv(value, q[k]) })
	rt.Ensures("other entries as before", rt.ForAllStr(func(s string) bool {
		return s == k || hasKey(q, s) == hasKey(before, s) && (!hasKey(q, s) || rt.Same(q[s], before[s]))
	}, q, before))
	rt.Ensures("length", len(q) == len(before)+rt.Ite(hasKey(before, k), 0, 1))
}

//gvc:prop C06
//gvc:contract ~/collections.IDictionary.Set
func SpecDictSet(d dict, key, value any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	before := rt.SnapMap(m)
	k := rt.Sprint(key)
	rt.Modifies(d)
	r := d.Set(key, value)
	rt.Ensures("a dictionary", r != nil)
	q := rt.PayloadMap(r)
	rt.Ensures("same format", rt.SameType(r, d))
	rt.Ensures("in place", rt.Implies(m != nil, rt.Same(r, d)))
	rt.Ensures("or a new one", rt.Implies(m == nil, rt.Fresh(r)))
	rt.EnsuresF("the value", func() bool { return hasKey(q, k) && conv(value, q[k]) })
	rt.Ensures("other entries as before", rt.ForAllStr(func(s string) bool {
		return s == k || hasKey(q, s) == hasKey(before, s) && (!hasKey(q, s) || rt.Same(q[s], before[s]))
	}, q, before))
	rt.Ensures("length", len(q) == len(before)+rt.Ite(hasKey(before, k), 0, 1))
}

// Reading what was set.
//
//gvc:prop C06
func SpecSetThenGet(d dict, key, value any, other any) {
	rt.Requires(d != nil)
	rt.Modifies(d)
	o := d.Get(other)
	had := d.Has(other)
	r := d.Set(key, value)
	rt.Ensures("the value", conv(value, r.Get(key)))
	rt.Ensures("the key", r.Has(key))
	rt.Ensures("another key", rt.Sprint(other) == rt.Sprint(key) || rt.Same(r.Get(other), o) && r.Has(other) == had)
}

// Add makes a list of the values of a key.
//
//gvc:prop C06
//gvc:opt bounded=1 noframe=1
func SpecDictAdd(d dict, key, value any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	before := rt.SnapMap(m)
	k := rt.Sprint(key)
	r := d.Add(key, value)
	q := rt.PayloadMap(r)
	rt.Ensures("same format", rt.SameType(r, d))
	rt.Ensures("other entries as before", rt.ForAllStr(func(s string) bool {
		return s == k || hasKey(q, s) == hasKey(before, s) && (!hasKey(q, s) || rt.Same(q[s], before[s]))
	}, q, before))
	old, had := before[k]
	rt.EnsuresF("first value", func() bool { return had || conv(value, q[k]) })
	rt.EnsuresF("then a list", func() bool {
		if !had {
			return true
		}
		l, err := collections.TryAsList(old)
		n := q[k].(list)
		if err != nil {
			return n.Len() == 2 && conv(old, n.Get(0)) && conv(value, n.Get(1))
		}
		return n.Len() == l.Len()+1 && conv(value, n.Get(l.Len()))
	})
}

// removed: q holds the entries of before except the named ones.
//
//gvc:pure
func removed(before, q map[string]any, keys []any) bool {
	return rt.ForAllStr(func(s string) bool {
		return hasKey(q, s) == (hasKey(before, s) && !named(s, keys)) && (!hasKey(q, s) || rt.Same(q[s], before[s]))
	}, q, before)
}

// Flush removes the named entries, all of them when none is named.
//
//gvc:prop C07
//gvc:contract (~/collections/implementation.DictHelper).Flush
//gvc:cases dh=implementation.baseDictHelper|json.jsonDictHelper|yaml.yamlDictHelper|hcl.hclDictHelper|xml.xmlDictHelper
func SpecHelperFlush(dh implementation.DictHelper, d dict, keys []any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	before := rt.SnapMap(m)
	rt.LoopInv(func(i int, keys []any) bool { return removed(before, m, keys[:i]) })
	rt.Modifies(d)
	r := dh.Flush(d, keys)
	rt.Ensures("itself", rt.Same(r, d))
	rt.Ensures("exactly the named entries", rt.Implies(len(keys) > 0, removed(before, m, keys)))
	rt.Ensures("or all", rt.Implies(len(keys) == 0, rt.ForAllStr(func(s string) bool { return !hasKey(m, s) }, before)))
	rt.Ensures("nothing remains then", rt.Implies(len(keys) == 0, len(m) == 0))
}

//gvc:prop C07
//gvc:contract ~/collections.IDictionary.Flush
func SpecFlush(d dict, keys ...any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	before := rt.SnapMap(m)
	rt.Modifies(d)
	r := d.Flush(keys...)
	rt.Ensures("itself", rt.Same(r, d))
	rt.Ensures("exactly the named entries", rt.Implies(len(keys) > 0, removed(before, m, keys)))
	rt.Ensures("or all", rt.Implies(len(keys) == 0, rt.ForAllStr(func(s string) bool { return !hasKey(m, s) }, before)))
	rt.Ensures("nothing remains then", rt.Implies(len(keys) == 0, len(m) == 0))
}

// Pop reads, then removes.
//
//gvc:prop C07
//gvc:contract (~/collections/implementation.DictHelper).Pop
//gvc:cases dh=implementation.baseDictHelper|json.jsonDictHelper|yaml.yamlDictHelper|hcl.hclDictHelper|xml.xmlDictHelper
func SpecHelperDictPop(dh implementation.DictHelper, d dict, keys []any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	before := rt.SnapMap(m)
	rt.LoopInv(func(i int, keys []any) bool { return removed(before, m, keys[:i]) })
	rt.Modifies(d)
	v := dh.Pop(d, keys)
	rt.Ensures("exactly the named entries", removed(before, m, keys))
	rt.Ensures("none", rt.Implies(len(keys) == 0, v == nil))
	rt.EnsuresF("one", func() bool { return len(keys) != 1 || rt.Same(v, before[rt.Sprint(keys[0])]) })
	rt.EnsuresF("many", func() bool {
		return len(keys) < 2 || isList(v) && rt.SamePackage(v, d) && len(rt.Payload(v)) == len(keys) &&
			rt.ForAll(0, len(keys), func(k int) bool { return conv(before[rt.Sprint(keys[k])], rt.Payload(v)[k]) })
	})
}

//gvc:prop C07
func SpecDictPop(d dict, keys ...any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	before := rt.SnapMap(m)
	rt.Modifies(d)
	v := d.Pop(keys...)
	rt.Ensures("exactly the named entries", removed(before, m, keys))
	rt.Ensures("none", rt.Implies(len(keys) == 0, v == nil))
	rt.EnsuresF("one", func() bool { return len(keys) != 1 || rt.Same(v, before[rt.Sprint(keys[0])]) })
	rt.EnsuresF("many", func() bool {
		return len(keys) < 2 || isList(v) && rt.SamePackage(v, d) && len(rt.Payload(v)) == len(keys) &&
			rt.ForAll(0, len(keys), func(k int) bool { return conv(before[rt.Sprint(keys[k])], rt.Payload(v)[k]) })
	})
}

// Delete stops at the first key that does not exist.
//
//gvc:prop C07
//gvc:contract (~/collections/implementation.DictHelper).Delete
//gvc:cases dh=implementation.baseDictHelper|json.jsonDictHelper|yaml.yamlDictHelper|hcl.hclDictHelper|xml.xmlDictHelper
func SpecHelperDelete(dh implementation.DictHelper, d dict, keys []any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	before := rt.SnapMap(m)
	rt.LoopInv(func(i int, keys []any) bool { return removed(before, m, keys[:i]) })
	rt.LoopInv(func(i int, keys []any) bool {
		return rt.ForAll(0, i, func(j int) bool { return !missing(before, keys, j) })
	})
	rt.Modifies(d)
	r, err := dh.Delete(d, keys)
	rt.Ensures("itself", rt.Same(r, d))
	rt.Ensures("success when all exist once", (err == nil) == rt.ForAll(0, len(keys), func(i int) bool { return !missing(before, keys, i) }))
	rt.EnsuresF("exactly the named entries", func() bool { return err != nil || removed(before, m, keys) })
	rt.EnsuresF("those before the first missing one", func() bool {
		return err == nil || rt.Exists(0, len(keys), func(i int) bool {
			return missing(before, keys, i) && rt.ForAll(0, i, func(j int) bool { return !missing(before, keys, j) }) && removed(before, m, keys[:i])
		})
	})
}

// missing: the key is not there (any more) when its turn comes.
//
//gvc:pure
func missing(before map[string]any, keys []any, i int) bool {
	return !hasKey(before, rt.Sprint(keys[i])) || named(rt.Sprint(keys[i]), keys[:i])
}

//gvc:prop C07
func SpecDelete(d dict, key any, others ...any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	before := rt.SnapMap(m)
	keys := append([]any{key}, others...)
	rt.Modifies(d)
	r, err := d.Delete(key, others...)
	rt.Ensures("itself", rt.Same(r, d))
	rt.Ensures("success when all exist once", (err == nil) == rt.ForAll(0, len(keys), func(i int) bool { return !missing(before, keys, i) }))
	rt.EnsuresF("exactly the named entries", func() bool { return err != nil || removed(before, m, keys) })
	rt.EnsuresF("those before the first missing one", func() bool {
		return err == nil || rt.Exists(0, len(keys), func(i int) bool {
			return missing(before, keys, i) && rt.ForAll(0, i, func(j int) bool { return !missing(before, keys, j) }) && removed(before, m, keys[:i])
		})
	})
}

// Omit copies without the named entries.
//
//gvc:prop C07
//gvc:opt bounded=1
func SpecOmit(d dict, key any, others ...any) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	before := rt.SnapMap(m)
	keys := append([]any{key}, others...)
	r := d.Omit(key, others...)
	q := rt.PayloadMap(r)
	rt.Ensures("new", rt.SameType(r, d) && rt.Fresh(r))
	rt.Ensures("source unchanged", rt.SameMap(m, before))
	rt.Ensures("without the named entries", rt.ForAllStr(func(s string) bool {
		return hasKey(q, s) == (hasKey(before, s) && !named(s, keys)) && (!hasKey(q, s) || copied(before[s], q[s]))
	}, q, before))
}

// copied: the value itself or an equal collection.
//
//gvc:pure
func copied(v, r any) bool {
	if plain(v) {
		return rt.Same(v, r)
	}
	return (isDict(r) || isList(r)) && equalDeep(v, r)
}

// equalDeep: same content, whatever the formats.
func equalDeep(a, b any) bool {
	na, e1 := collections.MarshalGo(a)
	nb, e2 := collections.MarshalGo(b)
	return e1 == nil && e2 == nil && equalNative(na, nb)
}

func equalNative(a, b any) bool {
	switch x := a.(type) {
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !equalNative(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			if v, ok := y[k]; !ok || !equalNative(x[k], v) {
				return false
			}
		}
		return true
	}
	return rt.Same(a, b)
}

// ToStrings gives the texts of the elements.
//
//gvc:prop C08
//gvc:contract github.com/Masterminds/sprig/v3.strslice
func SpecToStrings(v any) {
	rt.LoopInv(func(i int, b []string) bool {
		a, ok := v.(collections.StringArray)
		return rt.Fresh(b) && (!ok || len(b) == i && rt.ForAll(0, i, func(k int) bool { return b[k] == string(a[k]) }))
	})
	r := collections.ToStrings(v)
	rt.EnsuresF("texts", func() bool {
		a, ok := v.(collections.StringArray)
		return !ok || len(r) == len(a) && rt.Fresh(r) && rt.ForAll(0, len(r), func(k int) bool { return r[k] == string(a[k]) })
	})
}

// Sorted: the same texts in ascending order.
//
//gvc:prop C08
//gvc:contract (~/collections.StringArray).Sorted
func SpecSorted(as collections.StringArray) {
	before := rt.Snap(as)
	n := len(as)
	rt.LoopInv(func(i int, a []string, r collections.StringArray) bool {
		return len(r) == len(a) && rt.ForAll(0, i, func(k int) bool { return string(r[k]) == a[k] })
	})
	r := as.Sorted()
	rt.Ensures("new", rt.Fresh(r))
	rt.Ensures("as many", len(r) == n)
	rt.Ensures("ascending", rt.ForAll(0, n, func(i int) bool { return rt.ForAll(0, i, func(j int) bool { return r[j] <= r[i] }) }))
	distinct := rt.ForAll(0, n, func(i int) bool { return rt.ForAll(0, i, func(j int) bool { return before[j] != before[i] }) })
	rt.Ensures("strictly when all differ", rt.Implies(distinct, rt.ForAll(0, n, func(i int) bool { return rt.ForAll(0, i, func(j int) bool { return r[j] < r[i] }) })))
	rt.Ensures("elements", rt.ForAll(0, n, func(i int) bool { return rt.Exists(0, n, func(j int) bool { return before[j] == r[i] }) }))
	rt.Ensures("all elements", rt.ForAll(0, n, func(i int) bool { return rt.Exists(0, n, func(j int) bool { return r[j] == before[i] }) }))
}

// Keys come out once each, in ascending order.
//
//gvc:prop C08
//gvc:contract (~/collections/implementation.DictHelper).KeysAsString
func SpecHelperKeys(dh implementation.DictHelper, d dict) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	rt.LoopInv(func(seen rt.Visited, keys collections.StringArray) bool {
		return len(keys) == seen.Len() &&
			rt.ForAll(0, len(keys), func(i int) bool { return seen.Has(string(keys[i])) }) &&
			rt.ForAll(0, len(keys), func(i int) bool { return rt.ForAll(0, i, func(j int) bool { return keys[j] != keys[i] }) }) &&
			rt.ForAllStr(func(s string) bool {
				return !seen.Has(s) || rt.Exists(0, len(keys), func(i int) bool { return string(keys[i]) == s })
			})
	})
	r := dh.KeysAsString(d)
	rt.Ensures("new", rt.Fresh(r))
	rt.Ensures("as many", len(r) == len(m))
	rt.Ensures("ascending", rt.ForAll(0, len(r), func(i int) bool { return rt.ForAll(0, i, func(j int) bool { return r[j] < r[i] }) }))
	rt.Ensures("keys", rt.ForAll(0, len(r), func(i int) bool { return hasKey(m, string(r[i])) }))
	rt.Ensures("all keys", rt.ForAllStr(func(s string) bool {
		return !hasKey(m, s) || rt.Exists(0, len(r), func(i int) bool { return string(r[i]) == s })
	}, m))
}

//gvc:prop C08
//gvc:contract ~/collections.IDictionary.KeysAsString
func SpecKeysAsString(d dict) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	r := d.KeysAsString()
	rt.Ensures("new", rt.Fresh(r))
	rt.Ensures("as many", len(r) == len(m))
	rt.Ensures("ascending", rt.ForAll(0, len(r), func(i int) bool { return rt.ForAll(0, i, func(j int) bool { return r[j] < r[i] }) }))
	rt.Ensures("keys", rt.ForAll(0, len(r), func(i int) bool { return hasKey(m, string(r[i])) }))
	rt.Ensures("all keys", rt.ForAllStr(func(s string) bool {
		return !hasKey(m, s) || rt.Exists(0, len(r), func(i int) bool { return string(r[i]) == s })
	}, m))
}

//gvc:prop C08
//gvc:contract ~/collections.IDictionary.GetKeys
func SpecGetKeys(d dict) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	ks := d.KeysAsString()
	r := d.GetKeys()
	q := rt.Payload(r)
	rt.Ensures("new", rt.Fresh(r))
	rt.Ensures("same format", rt.SameType(r, d.CreateList()))
	rt.Ensures("all of them", rt.ForAllStr(func(s string) bool { return !hasKey(m, s) || named(s, q) }, m))
	rt.Ensures("the keys in order", len(q) == len(ks) && rt.ForAll(0, len(ks), func(i int) bool { return rt.Same(q[i], ks[i]) }))
}

// Values come out in the order of the keys.
//
//gvc:prop C08
func SpecGetValues(d dict) {
	rt.Requires(d != nil)
	m := rt.PayloadMap(d)
	ks := d.KeysAsString()
	r := d.GetValues()
	q := rt.Payload(r)
	rt.Ensures("same format", rt.SameType(r, d.CreateList()))
	rt.Ensures("the values in key order", len(q) == len(ks) && rt.ForAll(0, len(ks), func(i int) bool { return conv(m[string(ks[i])], q[i]) }))
}

// The reference order.
//
//gvc:prop C08
//gvc:opt bounded=1
func SpecKeysReference(d dict) {
	rt.Requires(d != nil)
	var want []string
	for k := range d.AsMap() {
		want = append(want, k)
	}
	sort.Strings(want)
	rt.Ensures("KeysAsString", sameStrings(want, d.KeysAsString().Strings()))
	rt.Ensures("GetKeys", sameStrings(want, d.GetKeys().Strings()))
	vs := d.GetValues()
	rt.Ensures("GetValues", vs.Len() == len(want) && rt.ForAll(0, len(want), func(i int) bool { return equalDeep(vs.Get(i), d.Get(want[i])) }))
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// merged is the reference of a deep merge on native data.
func merged(l, r map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range l {
		out[k] = v
	}
	for k, v := range r {
		o, ok := out[k]
		if !ok {
			out[k] = v
			continue
		}
		om, ok1 := o.(map[string]any)
		vm, ok2 := v.(map[string]any)
		if ok1 && ok2 {
			out[k] = merged(om, vm)
		}
	}
	return out
}

func native(d dict) map[string]any {
	v, err := collections.MarshalGo(d)
	if err != nil || v == nil {
		return map[string]any{}
	}
	return v.(map[string]any)
}

// Merge gives priority to the left, deeply, and leaves the sources alone.
//
//gvc:prop C09
//gvc:opt bounded=1 runs=20000 noframe=1
func SpecMerge(d, e dict, more ...dict) {
	rt.Requires(d != nil && rt.PayloadMap(d) != nil)
	d, e = generic(d), generic(e)
	sources := []dict{e}
	for i := range more {
		more[i] = generic(more[i])
		sources = append(sources, more[i])
	}
	want := native(d)
	var before []map[string]any
	for _, s := range sources {
		if s == nil {
			before = append(before, nil)
			continue
		}
		before = append(before, native(s))
		want = merged(want, native(s))
	}
	rt.Modifies(d)
	r := d.Merge(e, more...)
	rt.Ensures("the leftmost value, deeply", equalNative(native(r), want))
	rt.Ensures("same format", rt.SameType(r, d))
	rt.Ensures("in place", rt.Same(r, d))
	for i, s := range sources {
		rt.Ensures("sources unchanged", s == nil || equalNative(native(s), before[i]))
	}
	// what happens to the result later does not show in the sources either
	mutateDeep(r, false)
	for i, s := range sources {
		rt.Ensures("sources unchanged afterwards", s == nil || equalNative(native(s), before[i]))
	}
}

// generic holds only converted collections, none of them shared.
func generic(d dict) dict {
	if d == nil {
		return nil
	}
	n := native(d)
	h, _ := d.GetHelpers()
	return h.AsDictionary(n)
}

// mutateDeep changes the nested dictionaries (and lists).
func mutateDeep(v any, lists bool) {
	switch x := v.(type) {
	case dict:
		for _, k := range x.KeysAsString() {
			mutateDeep(x.Get(k), lists)
		}
		if x.AsMap() != nil {
			x.Set("zz-added", 1)
			for _, k := range x.KeysAsString() {
				if !isDict(x.Get(k)) && !isList(x.Get(k)) {
					x.Set(k, "zz-changed")
				}
			}
		}
	case list:
		if !lists {
			return
		}
		for i := 0; i < x.Len(); i++ {
			mutateDeep(x.Get(i), lists)
			if !isDict(x.Get(i)) && !isList(x.Get(i)) {
				x.Set(i, "zz-changed")
			}
		}
	}
}

// A clone holds the same and is independent.
//
//gvc:prop C10
//gvc:opt bounded=1 runs=20000
func SpecDictClone(d dict, keys ...any) {
	rt.Requires(d != nil)
	src := native(d)
	r := d.Clone(keys...)
	q := rt.PayloadMap(r)
	rt.Ensures("same format, new", rt.SameType(r, d) && rt.Fresh(r))
	if len(keys) == 0 {
		rt.Ensures("same content", equalNative(native(r), src))
	} else {
		for _, k := range keys {
			v, ok := q[rt.Sprint(k)]
			rt.Ensures("requested keys", ok && equalDeep(v, d.Get(k)))
		}
		for k := range q {
			rt.Ensures("only requested keys", named(k, keys))
		}
	}
	rt.Ensures("source unchanged", equalNative(native(d), src))
	mutateDeep(r, true)
	rt.Ensures("independent", equalNative(native(d), src))
}

// Conversions keep the content.
//
//gvc:prop C11
//gvc:opt bounded=1
func SpecConvertContent(lh collections.IListHelper, v any) {
	r, ok := lh.TryConvert(v)
	rt.Ensures("content", equalDeep(v, r) || v != nil && ok && !isDict(v) && !isList(v) && equalDeep(v, r))
	rt.Ensures("Convert agrees", equalDeep(lh.Convert(v), r) && rt.SameType(lh.Convert(v), r))
}

// Every operation building a collection builds one of the same format.
//
//gvc:prop C11
//gvc:opt bounded=1 noframe=1
func SpecSameFormat(l list, d dict, n int, v any) {
	rt.Requires(l != nil && d != nil)
	rt.Requires(n >= 0 && n < 20)
	same := func(what string, x any) { rt.Ensures(what, rt.SameType(x, l)) }
	same("Append", l.Append(v))
	same("Prepend", l.Prepend(v))
	same("Clone", l.Clone())
	same("Create", l.Create(n))
	same("Create", l.Create())
	same("Create with capacity", l.Create(n, 2*n))
	same("New", l.New(v, v))
	same("Find", l.Find(v))
	same("Reverse", l.Reverse())
	same("Unique", l.Unique())
	same("Union", l.Union(v))
	same("Intersect", l.Intersect(v))
	same("Remove", l.Remove(n))
	same("RemoveEmpty", l.RemoveEmpty())
	same("RemoveNil", l.RemoveNil())
	same("Without", l.Without(v))
	same("GetMany", l.Get(0, n))
	r, _ := l.Set(n, v)
	same("Set", r)
	rt.Ensures("dictionary of the list", l.CreateDict().TypeName() == l.TypeName())
	c := l.Create(n)
	rt.Ensures("that many nil", c.Len() == n && rt.ForAll(0, n, func(i int) bool { return c.Get(i) == nil }))

	sameD := func(what string, x any) { rt.Ensures(what, rt.SameType(x, d)) }
	sameD("Clone", d.Clone())
	sameD("Create", d.Create())
	sameD("Create", d.Create(n))
	sameD("Omit", d.Omit("x"))
	rt.Ensures("new dictionary is empty", d.Create(n).Len() == 0)
	rt.Ensures("list of the dictionary", d.CreateList().TypeName() == d.TypeName())
	for _, x := range []list{d.GetKeys(), d.GetValues(), d.CreateList(n), d.Get("a", "b").(list)} {
		rt.Ensures("lists of the dictionary", x.TypeName() == d.TypeName())
	}
	sameD("Set", d.Set("k", v))
	sameD("Add", d.Add("k", v))
	sameD("Merge", d.Merge(l.CreateDict().Set("x", v)))
	sameD("Flush", d.Flush())
	dh, lh := d.GetHelpers()
	rt.Ensures("helpers of the dictionary", dh.CreateDictionary().TypeName() == d.TypeName() && lh.CreateList().TypeName() == d.TypeName())
	dh, lh = l.GetHelpers()
	rt.Ensures("helpers of the list", dh.CreateDictionary().TypeName() == l.TypeName() && lh.CreateList().TypeName() == l.TypeName())
}
