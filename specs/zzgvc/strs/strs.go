// Package strs specifies the text helpers of the collections package.
package strs

import (
	"reflect"
	"strings"
	"unicode"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

type any = interface{}
type str = collections.String

// Split2 cuts at the first separator.
//
//gvc:prop C20
//gvc:contract ~/collections.Split2
//gvc:opt strings=text
func SpecSplit2(source, sep string) {
	left, right := collections.Split2(source, sep)
	i := strings.Index(source, sep)
	if sep == "" {
		// Every text holds it; only the absence of failure is claimed
		return
	}
	rt.Ensures("no separator: everything is on the left", rt.Implies(i < 0, left == source && right == ""))
	rt.EnsuresF("left part", func() bool { return i < 0 || left == source[:i] })
	rt.EnsuresF("right part", func() bool { return i < 0 || right == source[i+len(sep):] })
}

// brk: the byte ends a word.
//
//gvc:pure
func brk(c byte, accept string) bool {
	return unicode.IsSpace(rune(c)) || unicode.IsPunct(rune(c)) && !strings.ContainsRune(accept, rune(c))
}

// The word at a position is the maximal run of word characters around it.
//
//gvc:prop C20
//gvc:contract (~/collections.String).GetWordAtPosition
//gvc:opt strings=text
func SpecGetWordAtPosition(s str, pos int, accept ...string) {
	acc := strings.Join(accept, "")
	rt.LoopInv(func(begin int) bool {
		return begin >= -1 && begin <= pos && rt.ForAll(begin+1, pos+1, func(i int) bool { return !brk(s[i], acc) })
	})
	rt.LoopInv(func(end int) bool {
		return end >= pos && end <= len(s) && rt.ForAll(pos, end, func(i int) bool { return !brk(s[i], acc) })
	})
	w, p := s.GetWordAtPosition(pos, accept...)
	out := pos < 0 || pos >= len(s)
	rt.Ensures("outside the text", rt.Implies(out, w == "" && p == -1))
	rt.Ensures("true position", rt.Implies(!out, p >= 0 && p <= pos && p+len(w) <= len(s) && p+len(w) >= pos))
	rt.EnsuresF("part of the text", func() bool { return out || w == s[p:p+len(w)] })
	rt.EnsuresF("no word on a separator", func() bool { return out || !brk(s[pos], acc) || w == "" && p == pos })
	rt.EnsuresF("the position belongs to the word", func() bool { return out || brk(s[pos], acc) || p+len(w) > pos })
	rt.EnsuresF("only word characters", func() bool { return out || rt.ForAll(p, p+len(w), func(i int) bool { return !brk(s[i], acc) }) })
	rt.EnsuresF("maximal", func() bool {
		return out || (p == 0 || brk(s[p-1], acc) || brk(s[pos], acc)) && (p+len(w) == len(s) || brk(s[p+len(w)], acc))
	})
}

//gvc:prop C20
//gvc:opt strings=text
func SpecSelectWord(s str, pos int, accept ...string) {
	w, _ := s.GetWordAtPosition(pos, accept...)
	rt.Ensures("the word", s.SelectWord(pos, accept...) == w)
}

// IndexAll lists the occurrences found from left to right.
//
//gvc:prop C21
//gvc:contract (~/collections.String).IndexAll
//gvc:opt strings=text
func SpecIndexAll(s str, substr string) {
	n := len(substr)
	t := string(s)
	rt.LoopInv(func(result []int, start, pos int) bool {
		k := len(result)
		return start >= 0 && start <= len(t) && pos == strings.Index(t[start:], substr) &&
			(k == 0 && start == 0 || k > 0 && start == result[k-1]+n) &&
			rt.ForAll(0, k, func(i int) bool { return result[i] >= 0 && result[i]+n <= len(t) }) &&
			(k == 0 || result[0] == strings.Index(t, substr)) &&
			rt.ForAll(0, k-1, func(i int) bool {
				return strings.Index(t[result[i]+n:], substr) >= 0 && result[i+1] == result[i]+n+strings.Index(t[result[i]+n:], substr)
			})
	})
	r := s.IndexAll(substr)
	none := substr == "" || s == ""
	rt.Ensures("nothing in or for an empty text", rt.Implies(none, len(r) == 0))
	rt.EnsuresF("inside the text", func() bool {
		return none || rt.ForAll(0, len(r), func(i int) bool { return r[i] >= 0 && r[i]+n <= len(t) })
	})
	rt.EnsuresF("nothing only when there is none", func() bool { return none || len(r) > 0 || strings.Index(t, substr) < 0 })
	rt.EnsuresF("the first one first", func() bool { return none || len(r) == 0 || r[0] == strings.Index(t, substr) })
	rt.EnsuresF("then each next one", func() bool {
		return none || rt.ForAll(0, len(r)-1, func(i int) bool {
			return strings.Index(t[r[i]+n:], substr) >= 0 && r[i+1] == r[i]+n+strings.Index(t[r[i]+n:], substr)
		})
	})
	rt.EnsuresF("none after the last one", func() bool { return none || len(r) == 0 || strings.Index(t[r[len(r)-1]+n:], substr) < 0 })
}

// Every listed position holds the substring.
//
//gvc:prop C21
//gvc:opt strings=text
func SpecIndexAllFound(s str, substr string, i int) {
	r := s.IndexAll(substr)
	rt.Requires(i >= 0 && i < len(r))
	t := string(s)
	rt.Ensures("increasing", i == 0 || r[i-1]+len(substr) <= r[i])
	rt.EnsuresF("holds the substring", func() bool { return t[r[i]:r[i]+len(substr)] == substr })
}

// The context around a position.
//
//gvc:prop C20
//gvc:contract (~/collections.String).GetContextAtPosition
//gvc:opt strings=text
func SpecGetContextAtPosition(s str, pos int, left, right string) {
	t := string(s)
	a, b := s.GetContextAtPosition(pos, left, right)
	out := pos < 0 || pos >= len(s)
	rt.Ensures("outside the text", rt.Implies(out, a == "" && b == -1))
	rt.Ensures("nothing or a position", b >= -1 && rt.Implies(b < 0, a == ""))
	rt.EnsuresF("begins at the nearest left delimiter", func() bool {
		if out || b < 0 {
			return true
		}
		if left == "" {
			return b == pos
		}
		return b == strings.LastIndex(t[:pos], left)
	})
	rt.EnsuresF("part of the text", func() bool { return b < 0 || b+len(a) <= len(s) && string(a) == t[b:b+len(a)] })
	rt.EnsuresF("without right delimiter it ends at the position", func() bool {
		return out || b < 0 || right != "" || b+len(a) == pos+1
	})
	rt.EnsuresF("ends with the right delimiter", func() bool {
		return out || b < 0 || right == "" || len(a) >= len(right) && string(a[len(a)-len(right):]) == right
	})
	rt.EnsuresF("up to the nearest right delimiter when there is no left one", func() bool {
		return out || left != "" || right == "" || (b < 0) == (strings.Index(t[pos:], right) < 0) && (b < 0 || b+len(a) == pos+strings.Index(t[pos:], right)+len(right))
	})
	rt.EnsuresF("nothing without left delimiter", func() bool {
		return out || left == "" || strings.LastIndex(t[:pos], left) >= 0 || b == -1
	})
}

//gvc:prop C20
//gvc:opt bounded=1
func SpecSelectContextSame(s str, pos int, left, right string) {
	a, _ := s.GetContextAtPosition(pos, left, right)
	rt.Ensures("the context", s.SelectContext(pos, left, right) == a)
}

//gvc:prop C20
//gvc:opt strings=text
func SpecSelectContext(s str, pos int, left, right string) {
	t := string(s)
	a := string(s.SelectContext(pos, left, right))
	out := pos < 0 || pos >= len(s)
	rt.Ensures("outside the text", rt.Implies(out, a == ""))
	rt.EnsuresF("nothing without left delimiter", func() bool {
		return out || left == "" || strings.LastIndex(t[:pos], left) >= 0 || a == ""
	})
	rt.EnsuresF("the text from the nearest left delimiter", func() bool {
		if out || left == "" {
			return true
		}
		b := strings.LastIndex(t[:pos], left)
		return a == "" || b >= 0 && b+len(a) <= len(t) && a == t[b:b+len(a)]
	})
	rt.EnsuresF("the text from the position", func() bool {
		return out || left != "" || pos+len(a) <= len(t) && a == t[pos:pos+len(a)]
	})
	rt.EnsuresF("ends with the right delimiter", func() bool {
		return out || right == "" || a == "" || len(a) >= len(right) && a[len(a)-len(right):] == right
	})
	rt.EnsuresF("the first right delimiter when there is no left one", func() bool {
		if out || left != "" || right == "" {
			return true
		}
		i := strings.Index(t[pos:], right)
		return i < 0 && a == "" || i >= 0 && len(a) == i+len(right)
	})
}

// ---- emptiness and default values ----

// empty: the zero values and the empty collections.
//
//gvc:pure
func empty(v any) bool {
	if v == nil {
		return true
	}
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return r.Len() == 0
	case reflect.Bool:
		return !r.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return r.Int() == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return r.Uint() == 0
	case reflect.Float32, reflect.Float64:
		return r.Float() == 0
	case reflect.Ptr:
		return r.IsNil()
	}
	return false
}

//gvc:prop C24
//gvc:contract ~/collections.IIf
func SpecIIf(test, a, b any) {
	r := collections.IIf(test, a, b)
	rt.Ensures("first branch when not empty", rt.Implies(!empty(test), rt.Same(r, a)))
	rt.Ensures("second branch when empty", rt.Implies(empty(test), rt.Same(r, b)))
}

//gvc:prop C24
func SpecIIfTypes(test, a, b any) {
	r := collections.IIf(test, a, b)
	rt.Ensures("nil", rt.Implies(test == nil, rt.Same(r, b)))
	rt.EnsuresF("booleans", func() bool { t, ok := test.(bool); return !ok || rt.Same(r, rt.Ite(t, a, b)) })
	rt.EnsuresF("integers", func() bool { t, ok := test.(int); return !ok || rt.Same(r, rt.Ite(t != 0, a, b)) })
	rt.EnsuresF("texts", func() bool { t, ok := test.(string); return !ok || rt.Same(r, rt.Ite(t != "", a, b)) })
	rt.EnsuresF("floats", func() bool { t, ok := test.(float64); return !ok || rt.Same(r, rt.Ite(t != 0, a, b)) })
	rt.EnsuresF("lists", func() bool { t, ok := test.([]any); return !ok || rt.Same(r, rt.Ite(len(t) != 0, a, b)) })
	rt.EnsuresF("maps", func() bool { t, ok := test.(map[string]any); return !ok || rt.Same(r, rt.Ite(len(t) != 0, a, b)) })
}

//gvc:prop C24
//gvc:contract ~/collections.Default
func SpecDefault(v, def any) {
	r := collections.Default(v, def)
	rt.Ensures("the value when not empty", rt.Implies(!empty(v), rt.Same(r, v)))
	rt.Ensures("the default when empty", rt.Implies(empty(v), rt.Same(r, def)))
}

//gvc:prop C24
//gvc:contract ~/collections.IfUndef
func SpecIfUndef(def any, values ...any) {
	r := collections.IfUndef(def, values...)
	rt.Ensures("no value", rt.Implies(len(values) == 0, rt.Same(r, def)))
	rt.EnsuresF("one defined value", func() bool {
		return len(values) != 1 || values[0] == nil || reflect.TypeOf(values[0]).Kind() == reflect.Ptr || rt.Same(r, values[0])
	})
	rt.EnsuresF("one nil value", func() bool { return len(values) != 1 || values[0] != nil || rt.Same(r, def) })
	rt.EnsuresF("one pointer", func() bool {
		return len(values) != 1 || values[0] == nil || reflect.TypeOf(values[0]).Kind() != reflect.Ptr || rt.Same(r, rt.Ite(reflect.ValueOf(values[0]).IsNil(), def, values[0]))
	})
	rt.EnsuresF("several values", func() bool { return len(values) < 2 || rt.Same(r, values) })
}
