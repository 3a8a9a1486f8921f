package template

import (
	"fmt"
	"strconv"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/collections/implementation"
	"github.com/coveooss/gotemplate/v3/hcl"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/xml"
	"github.com/coveooss/gotemplate/v3/yaml"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// gvcSeq is an indexable value and its elements.
type gvcSeq struct {
	V interface{}
	E []interface{}
}

func init() {
	rt.Gen(func(g *rt.G) collections.IListHelper {
		return []collections.IListHelper{implementation.GenericListHelper, json.GenericListHelper, yaml.GenericListHelper, hcl.GenericListHelper, xml.GenericListHelper}[g.Intn(5)]
	})
	rt.Gen(func(g *rt.G) gvcSeq {
		n := g.Intn(6)
		switch g.Intn(4) {
		case 0:
			s := make([]int, n)
			e := make([]interface{}, n)
			for i := range s {
				s[i] = g.Int()
				e[i] = s[i]
			}
			return gvcSeq{s, e}
		case 1:
			s := make([]string, n)
			e := make([]interface{}, n)
			for i := range s {
				s[i] = g.Str()
				e[i] = s[i]
			}
			return gvcSeq{s, e}
		case 2:
			e := make([]interface{}, n)
			for i := range e {
				e[i] = []interface{}{nil, g.Int(), g.Str(), g.Float(), true}[g.Intn(5)]
			}
			return gvcSeq{append([]interface{}{}, e...), e}
		default:
			e := make([]interface{}, n)
			for i := range e {
				e[i] = []interface{}{nil, g.Int(), g.Str(), true}[g.Intn(4)]
			}
			return gvcSeq{collections.AsList(append([]interface{}{}, e...)), e}
		}
	})
}

// One index selects that element, from the end when negative; outside is an error.
//
//gvc:prop C16
//gvc:opt bounded=1
func SpecSliceOne(s gvcSeq, i int) {
	r, err := slice(s.V, i)
	x, err2 := extract(s.V, i)
	if i < 0 {
		i += len(s.E)
	}
	out := i < 0 || i >= len(s.E)
	rt.Ensures("error outside", out == (err != nil) && out == (err2 != nil))
	rt.Ensures("the element", out || gvcSame(r, s.E[i]) && gvcSame(x, s.E[i]))
}

// gvcRange is the reference of slicing by two indexes.
func gvcRange(n, begin, end int) (from, to int, reverse bool) {
	if begin < 0 {
		begin += n + 1
	}
	if end < 0 {
		end += n + 1
	}
	if reverse = end < begin; reverse {
		begin, end = end, begin
	}
	clip := func(i int) int {
		if i < 0 {
			return 0
		}
		if i > n {
			return n
		}
		return i
	}
	return clip(begin), clip(end), reverse
}

// Two indexes select the range between them, reversed when given in reverse.
//
//gvc:prop C16
//gvc:opt bounded=1
func SpecSliceTwo(s gvcSeq, begin, end int) {
	r, err := slice(s.V, begin, end)
	rt.Ensures("no error", err == nil)
	l, ok := r.(collections.IGenericList)
	rt.Ensures("a list", ok)
	from, to, reverse := gvcRange(len(s.E), begin, end)
	rt.Ensures("its length", l.Len() == to-from)
	for k := from; k < to; k++ {
		i := k - from
		if reverse {
			i = to - 1 - k
		}
		rt.Ensures("the elements of the range", gvcSame(l.Get(i), s.E[k]))
	}
}

// The same on texts.
//
//gvc:prop C16
//gvc:opt bounded=1
func SpecSliceText(s string, begin, end int) {
	r, err := slice(s, begin, end)
	rt.Ensures("no error", err == nil)
	from, to, reverse := gvcRange(len(s), begin, end)
	want := s[from:to]
	if reverse {
		want = reverseString(want)
	}
	rt.Ensures("the part of the text", rt.Same(r, want))
	c, err := slice(s, begin)
	i := begin
	if i < 0 {
		i += len(s)
	}
	out := i < 0 || i >= len(s)
	rt.Ensures("one index", out == (err != nil) && (out || rt.Same(c, s[i:i+1])))
}

// Reversing a text reverses its characters.
//
//gvc:prop C16
//gvc:contract ~/template.reverseString
func SpecReverseString(s string) {
	in := []rune(s)
	n := len(in)
	rt.LoopInv(func(i, j int, r []rune) bool {
		return len(r) == n && i+j == n-1 && i >= 0 && i <= n/2+1 &&
			rt.ForAll(0, n, func(k int) bool {
				return k < i && r[k] == in[n-1-k] || k > j && r[k] == in[n-1-k] || k >= i && k <= j && r[k] == in[k]
			})
	})
	out := []rune(reverseString(s))
	rt.Ensures("as long", len(out) == n)
	rt.EnsuresF("in the other order", func() bool { return rt.ForAll(0, n, func(k int) bool { return out[k] == in[n-1-k] }) })
}

// Several indexes extract each of them.
//
//gvc:prop C16
//gvc:opt bounded=1
func SpecExtract(s gvcSeq, indexes []int) {
	rt.Requires(len(indexes) >= 2)
	var args []interface{}
	good := true
	for _, i := range indexes {
		args = append(args, i)
		good = good && i < len(s.E) && i >= -len(s.E)
	}
	r, err := extract(s.V, args...)
	rt.Ensures("error outside", good == (err == nil))
	if good {
		l := r.(collections.IGenericList)
		rt.Ensures("as many", l.Len() == len(indexes))
		for k, i := range indexes {
			if i < 0 {
				i += len(s.E)
			}
			rt.Ensures("each of them", gvcSame(l.Get(k), s.E[i]))
		}
	}
}

// Slicing a map by keys selects the values of the keys between them, in key order.
//
//gvc:prop C16
//gvc:opt bounded=1
func SpecSliceMap(m map[string]int, k1, k2 string) {
	rt.Requires(m != nil)
	one, err := slice(m, k1)
	v, ok := m[k1]
	rt.Ensures("one key", err == nil && (ok && rt.Same(one, v) || !ok && one == nil))
	r, err := slice(m, k1, k2)
	rt.Ensures("no error", err == nil)
	l := r.(collections.IGenericList)
	var want []interface{}
	for _, k := range collections.AsDictionary(m).KeysAsString() {
		if string(k) >= k1 && string(k) <= k2 {
			want = append(want, m[string(k)])
		} else if k1 > k2 && string(k) >= k2 && string(k) <= k1 {
			want = append([]interface{}{m[string(k)]}, want...)
		}
	}
	rt.Ensures("as many", l.Len() == len(want))
	for i := range want {
		rt.Ensures("in key order", rt.Same(l.Get(i), want[i]))
	}
}

// Safe indexing gives the element or the default.
//
//gvc:prop C16
//gvc:opt bounded=1
func SpecSafeIndex(s gvcSeq, i int, def interface{}) {
	r, err := safeIndex(s.V, i, def)
	rt.Ensures("no error", err == nil)
	rt.Ensures("inside", i < 0 || i >= len(s.E) || gvcSame(r, s.E[i]))
	rt.Ensures("outside", i >= 0 && i < len(s.E) || gvcSame(r, def))
	_, err = safeIndex(i, i, def)
	rt.Ensures("not indexable", err != nil)
}

// The same for native lists of any length.
//
//gvc:prop C16
func SpecSafeIndexList(values []interface{}, i int, def interface{}) {
	r, err := safeIndex(values, i, def)
	rt.Ensures("no error", err == nil)
	rt.EnsuresF("the element inside", func() bool { return i < 0 || i >= len(values) || rt.Same(r, values[i]) })
	rt.Ensures("the default outside", i >= 0 && i < len(values) || rt.Same(r, def))
}

//gvc:prop C16
func SpecSafeIndexRefused(n int, b bool, x float64, i int, def interface{}) {
	_, err := safeIndex(n, i, def)
	rt.Ensures("a number", err != nil)
	_, err = safeIndex(b, i, def)
	rt.Ensures("a boolean", err != nil)
	_, err = safeIndex(nil, i, def)
	rt.Ensures("nil", err != nil)
}

//gvc:prop C16
//gvc:cases helper=implementation.GenericListHelper|json.GenericListHelper|yaml.GenericListHelper|hcl.GenericListHelper|xml.GenericListHelper
func SpecSelectList(values []interface{}, i int, helper collections.IListHelper) {
	rt.Setup(func() { collections.SetListHelper(helper) })
	r, err := slice(values, i)
	at := i + rt.Ite(i < 0, len(values), 0)
	out := at < 0 || at >= len(values)
	rt.Ensures("error outside", out == (err != nil))
	rt.EnsuresF("the element", func() bool { return out || rt.Same(r, values[at]) })
}

//gvc:prop C16
//gvc:cases helper=implementation.GenericListHelper|json.GenericListHelper|yaml.GenericListHelper|hcl.GenericListHelper|xml.GenericListHelper
func SpecExtractOneList(values []interface{}, i int, helper collections.IListHelper) {
	rt.Setup(func() { collections.SetListHelper(helper) })
	r, err := extract(values, i)
	at := i + rt.Ite(i < 0, len(values), 0)
	out := at < 0 || at >= len(values)
	rt.Ensures("error outside", out == (err != nil))
	rt.EnsuresF("the element", func() bool { return out || rt.Same(r, values[at]) })
}

//gvc:prop C16
//gvc:opt strings=text
//gvc:cases helper=implementation.GenericListHelper|json.GenericListHelper|yaml.GenericListHelper|hcl.GenericListHelper|xml.GenericListHelper
func SpecSelectText(s string, i int, helper collections.IListHelper) {
	rt.Setup(func() { collections.SetListHelper(helper) })
	r, err := slice(s, i)
	at := i + rt.Ite(i < 0, len(s), 0)
	out := at < 0 || at >= len(s)
	rt.Ensures("error outside", out == (err != nil))
	rt.EnsuresF("the character", func() bool { return out || rt.Same(r, s[at:at+1]) })
}

// Without index the whole is selected; what has no elements is refused.
//
//gvc:prop C16
//gvc:cases helper=implementation.GenericListHelper|json.GenericListHelper|yaml.GenericListHelper|hcl.GenericListHelper|xml.GenericListHelper
func SpecSelectAll(values []interface{}, n, i int, b bool, helper collections.IListHelper) {
	rt.Setup(func() { collections.SetListHelper(helper) })
	r, err := slice(values)
	rt.Ensures("the whole", err == nil && rt.Same(r, values))
	_, err = slice(n, i)
	rt.Ensures("a number", err != nil)
	_, err = extract(b, i)
	rt.Ensures("a boolean", err != nil)
	_, err = slice(nil, i)
	rt.Ensures("nil", err != nil)
}

// Two indexes extract two elements.
//
//gvc:prop C16
//gvc:opt bounded=1
//gvc:cases helper=implementation.GenericListHelper|json.GenericListHelper|yaml.GenericListHelper|hcl.GenericListHelper|xml.GenericListHelper
func SpecExtractTwoList(values []int, a, b int, helper collections.IListHelper) {
	n := len(values)
	i, j := a+rt.Ite(a < 0, n, 0), b+rt.Ite(b < 0, n, 0)
	inside := func(at int) bool { return at >= 0 && at < n }
	rt.Setup(func() { collections.SetListHelper(helper) })
	rt.LoopInv(func(k int, cur collections.IGenericList) bool {
		q := rt.Payload(cur)
		return cur != nil && rt.Fresh(cur) && len(q) == 2 && k <= 2 &&
			(k < 1 || inside(i) && rt.Same(q[0], values[i])) && (k < 2 || inside(j) && rt.Same(q[1], values[j]))
	})
	r, err := extract(values, a, b)
	rt.Ensures("error outside", (err == nil) == (inside(i) && inside(j)))
	l, ok := r.(collections.IGenericList)
	rt.Ensures("a list", err != nil || ok)
	rt.EnsuresF("the elements", func() bool {
		if err != nil || !ok {
			return true
		}
		q := rt.Payload(l)
		return len(q) == 2 && rt.Same(q[0], values[i]) && rt.Same(q[1], values[j])
	})
}

var _ = fmt.Sprint
var _ = strconv.Itoa
