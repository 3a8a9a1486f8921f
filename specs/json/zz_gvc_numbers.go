package json

import (
	native "encoding/json"
	"math"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// gvcNative is a decoded document.
type gvcNative struct{ V interface{} }

func init() {
	var value func(g *rt.G, d int) interface{}
	value = func(g *rt.G, d int) interface{} {
		n := g.Intn(8)
		if d > 2 {
			n = g.Intn(6)
		}
		switch n {
		case 0:
			return g.Str()
		case 1:
			return g.Intn(2) == 0
		case 2:
			return g.Intn(9) > 3
		case 6:
			l := make([]interface{}, g.Intn(4))
			for i := range l {
				l[i] = value(g, d+1)
			}
			return l
		case 7:
			m := map[string]interface{}{}
			for i := g.Intn(4); i > 0; i-- {
				m[g.Key()] = value(g, d+1)
			}
			return m
		}
		return g.Float()
	}
	rt.Gen(func(g *rt.G) gvcNative { return gvcNative{value(g, 0)} })
}

// A decoded number becomes an integer only when it has exactly the same value.
//
//gvc:prop C12
func SpecTransformNumber(f float64) {
	r := transformElement(f)
	i, isInt := r.(int)
	g, isFloat := r.(float64)
	fits := math.Floor(f) == f && f >= -9223372036854775808 && f < 9223372036854775808
	rt.Ensures("integral numbers that fit are integers", isInt == fits)
	rt.Ensures("the integer is the number", !isInt || float64(i) == f)
	rt.Ensures("other numbers are unchanged", isInt || isFloat && (g == f || g != g && f != f))
}

// Text and booleans are unchanged.
//
//gvc:prop C12
func SpecTransformOther(s string, b bool) {
	rt.Ensures("text", rt.Same(transformElement(s), s))
	rt.Ensures("boolean", rt.Same(transformElement(b), b))
}

// gvcSameDoc compares a decoded document with its conversion.
func gvcSameDoc(in, out interface{}) bool {
	switch in := in.(type) {
	case float64:
		if in != in {
			f, ok := out.(float64)
			return ok && f != f
		}
		if math.Floor(in) == in && in >= -9223372036854775808 && in < 9223372036854775808 {
			i, ok := out.(int)
			return ok && float64(i) == in
		}
		f, ok := out.(float64)
		return ok && f == in
	case []interface{}:
		l, err := collections.TryAsList(out)
		if err != nil || l.Len() != len(in) {
			return false
		}
		for i := range in {
			if !gvcSameDoc(in[i], l.Get(i)) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		d, err := collections.TryAsDictionary(out)
		if err != nil || d.Len() != len(in) {
			return false
		}
		for k := range in {
			if !d.Has(k) || !gvcSameDoc(in[k], d.Get(k)) {
				return false
			}
		}
		return true
	}
	return in == out
}

func gvcCopy(v interface{}) interface{} {
	switch v := v.(type) {
	case []interface{}:
		out := make([]interface{}, len(v))
		for i := range v {
			out[i] = gvcCopy(v[i])
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k := range v {
			out[k] = gvcCopy(v[k])
		}
		return out
	}
	return v
}

// Every number of a document keeps its value, however deep.
//
//gvc:prop C12
//gvc:opt bounded=1 noframe=1
func SpecTransformDoc(doc gvcNative) {
	before := gvcCopy(doc.V)
	rt.Ensures("same document", gvcSameDoc(before, transformElement(doc.V)))
	out := gvcCopy(before)
	transform(&out)
	rt.Ensures("same document in place", gvcSameDoc(before, out))
}

// gvcText writes a document, without the numbers JSON does not have.
func gvcText(v interface{}) (interface{}, string) {
	switch w := v.(type) {
	case float64:
		if w != w || math.IsInf(w, 0) {
			return 0.0, ""
		}
	case []interface{}:
		for i := range w {
			w[i], _ = gvcText(w[i])
		}
	case map[string]interface{}:
		for k := range w {
			w[k], _ = gvcText(w[k])
		}
	}
	b, _ := native.Marshal(v)
	return v, string(b)
}

// Reading a text gives the numbers it holds.
//
//gvc:prop C12
//gvc:opt bounded=1 noframe=1
func SpecUnmarshalDoc(doc gvcNative) {
	v, text := gvcText(doc.V)
	rt.Requires(text != "")
	var want, out interface{}
	rt.Requires(NativeUnmarshal([]byte(text), &want) == nil)
	_ = v
	rt.Ensures("accepted", Unmarshal([]byte(text), &out) == nil)
	rt.Ensures("same document", gvcSameDoc(want, out))
	if m, ok := want.(map[string]interface{}); ok {
		dest := map[string]interface{}{}
		rt.Ensures("accepted in a map", Unmarshal([]byte(text), &dest) == nil)
		rt.Ensures("same keys and values", len(dest) == len(m))
		for k := range m {
			rt.Ensures("same values", gvcSameDoc(m[k], dest[k]))
		}
	}
}
