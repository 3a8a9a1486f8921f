package rt

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Spec is a specification to run on generated arguments.
type Spec struct {
	F     interface{}
	Opts  map[string]string
	Ints  []int64
	Strs  []string
	Cases map[string]string
}

// G generates arguments.
type G struct {
	*rand.Rand
	Ints  []int64
	Strs  []string
	Big   bool
	Depth int
	few   []string // the symbols of this case
	prev  []string
	anys  []interface{}
}

var gens = map[reflect.Type]func(*G) reflect.Value{}
var dynTypes []func(*G) interface{}

// Gen registers the generator of a type.
func Gen[T any](f func(*G) T) {
	var z *T
	gens[reflect.TypeOf(z).Elem()] = func(g *G) reflect.Value { v := f(g); return reflect.ValueOf(&v).Elem() }
}

// Dyn registers a source of values for empty interfaces.
func Dyn(f func(*G) interface{}) { dynTypes = append(dynTypes, f) }

var strPool = []string{"", "a", "b", "ab", "abc", "x y", "A", "é", "日本", "0", "1", "-1", "12", "true", "a.b", "foo", "bar", "foo bar  baz", "\n", "a\nb", "a\nb\n", " ", "  a ", "key", "\xff", "$", "@", "%", "<nil>", "[]", "map[]", "false"}
var alphabet = []string{"a", "b", "c", "A", "Z", "0", "9", " ", "\n", "\t", ".", ",", ":", ";", "-", "_", "(", ")", "[", "]", "{", "}", "<", ">", "\"", "'", "`", "@", "$", "%", "♠", "é", "\\", "/", "=", "#", "!"}

// Str generates a string, often made of few symbols or of parts of a previous one.
func (g *G) Str() string {
	s := g.str()
	if len(g.prev) < 20 {
		g.prev = append(g.prev, s)
	}
	return s
}

func (g *G) str() string {
	if g.few == nil {
		g.few = []string{}
		if g.Intn(2) == 0 {
			for i := 1 + g.Intn(5); i >= 0; i-- {
				g.few = append(g.few, alphabet[g.Intn(len(alphabet))])
			}
		}
	}
	if len(g.prev) > 0 && g.Intn(4) == 0 {
		p := g.prev[g.Intn(len(g.prev))]
		if len(p) > 0 {
			i := g.Intn(len(p))
			j := i + 1 + g.Intn(3)
			if j > len(p) || g.Intn(4) == 0 {
				j = len(p)
			}
			return p[i:j]
		}
	}
	if len(g.few) > 0 && g.Intn(4) != 0 {
		var b strings.Builder
		for i := g.Intn(1 + g.Intn(30)); i >= 0; i-- {
			b.WriteString(g.few[g.Intn(len(g.few))])
		}
		return b.String()
	}
	switch n := g.Intn(10); {
	case n < 4:
		return strPool[g.Intn(len(strPool))]
	case n < 6 && len(g.Strs) > 0:
		s := g.Strs[g.Intn(len(g.Strs))]
		if g.Intn(3) == 0 {
			s += strPool[g.Intn(len(strPool))]
		} else if g.Intn(4) == 0 {
			s = strPool[g.Intn(len(strPool))] + s + strPool[g.Intn(len(strPool))]
		}
		return s
	}
	var b strings.Builder
	if g.Intn(40) == 0 {
		return strings.Repeat(g.str(), 10+g.Intn(120))
	}
	for i := g.Intn(12); i >= 0; i-- {
		if len(g.Strs) > 0 && g.Intn(12) == 0 {
			b.WriteString(g.Strs[g.Intn(len(g.Strs))])
		}
		b.WriteString(alphabet[g.Intn(len(alphabet))])
	}
	return b.String()
}

// Key generates a short key, colliding often.
func (g *G) Key() string {
	keys := []string{"a", "b", "c", "d", "key", "x", "1", "0", "true"}
	if g.Intn(6) == 0 {
		return g.Str()
	}
	return keys[g.Intn(len(keys))]
}

// Int generates an integer.
func (g *G) Int() int {
	switch n := g.Intn(10); {
	case n < 7:
		return g.Intn(10) - 3
	case n < 9 && len(g.Ints) > 0:
		v := g.Ints[g.Intn(len(g.Ints))] + int64(g.Intn(3)-1)
		if g.Big || v < 300 && v > -300 {
			return int(v)
		}
	}
	if g.Big {
		big := []int64{math.MaxInt64, math.MinInt64, 1 << 62, 1 << 53, 1<<53 + 1, 1 << 31, 1 << 32, 63, 64, 65, -64, 1 << 20, -(1 << 31), math.MaxInt64 - 1, math.MinInt64 + 1}
		if g.Intn(2) == 0 {
			return int(big[g.Intn(len(big))])
		}
		return int(g.Uint64() >> uint(g.Intn(64)))
	}
	return g.Intn(40) - 10
}

// Float generates a float.
func (g *G) Float() float64 {
	pool := []float64{0, 1, -1, 0.5, 1.5, -2.25, 3, 1e10, 1e18, 1e19, 9.3e18, -1e19, 1 << 53, 123456.789, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, math.SmallestNonzeroFloat64, 9223372036854775807, -9223372036854775808}
	if g.Intn(4) == 0 {
		return float64(g.Intn(2000)-1000) / float64(1+g.Intn(8))
	}
	if g.Intn(6) == 0 {
		return math.Float64frombits(g.Uint64())
	}
	return pool[g.Intn(len(pool))]
}

// Any generates a value of unknown type, sometimes the text of a previous one.
func (g *G) Any() interface{} {
	if len(g.anys) > 0 && g.Intn(10) == 0 {
		return fmt.Sprint(g.anys[g.Intn(len(g.anys))])
	}
	v := g.any()
	if len(g.anys) < 20 {
		g.anys = append(g.anys, v)
	}
	return v
}

func (g *G) any() interface{} {
	n := g.Intn(20)
	if g.Depth > 2 && n > 11 {
		n = g.Intn(12)
	}
	switch n {
	case 0, 1:
		return nil
	case 2, 3, 4:
		return g.Int()
	case 5, 6, 7:
		return g.Str()
	case 8:
		return g.Intn(2) == 0
	case 9:
		return g.Float()
	case 10:
		return strPool[g.Intn(6)]
	case 11:
		return []interface{}{int8(3), uint(4), int64(7), 'x', struct{ A int }{1}, float32(1.5), json.Number("12"), uint64(math.MaxUint64)}[g.Intn(8)]
	}
	g.Depth++
	defer func() { g.Depth-- }()
	if len(dynTypes) > 0 && n < 18 {
		return dynTypes[g.Intn(len(dynTypes))](g)
	}
	switch g.Intn(5) {
	case 0:
		return g.Anys()
	case 1:
		return map[string]interface{}{g.Key(): g.Any()}
	case 2:
		return []int{g.Int(), g.Int()}
	case 3:
		return []string{g.Str()}
	default:
		s := g.Anys()
		return &s
	}
}

// Anys generates a slice, often with spare capacity.
func (g *G) Anys() []interface{} {
	n := g.Intn(5)
	if g.Intn(10) == 0 {
		n = g.Intn(12)
	}
	s := make([]interface{}, n, n+g.Intn(3)*g.Intn(3))
	for i := range s {
		s[i] = g.Any()
		if i > 0 && g.Intn(4) == 0 {
			s[i] = s[g.Intn(i)]
		}
	}
	return s
}

// Value generates a value of the type.
func (g *G) Value(t reflect.Type) (reflect.Value, bool) {
	if f, ok := gens[t]; ok {
		return f(g), true
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 0)
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(g.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(g.Int()))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(g.Float())
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(g.Str()))
			return v, true
		}
		n := g.Intn(5)
		if g.Intn(12) == 0 {
			return v, true
		}
		v.Set(reflect.MakeSlice(t, n, n+g.Intn(3)*g.Intn(3)))
		for i := 0; i < n; i++ {
			e, ok := g.Value(t.Elem())
			if !ok {
				return v, false
			}
			v.Index(i).Set(e)
		}
	case reflect.Map:
		if g.Intn(12) == 0 {
			return v, true
		}
		v.Set(reflect.MakeMap(t))
		for n := g.Intn(5); n > 0; n-- {
			k, ok := g.Value(t.Key())
			e, ok2 := g.Value(t.Elem())
			if !ok || !ok2 {
				return v, false
			}
			v.SetMapIndex(k, e)
		}
	case reflect.Interface:
		if t.NumMethod() != 0 {
			return v, false
		}
		if a := g.Any(); a != nil {
			v.Set(reflect.ValueOf(a))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			e, ok := g.Value(t.Field(i).Type)
			if !ok {
				return v, false
			}
			v.Field(i).Set(e)
		}
	case reflect.Ptr:
		e, ok := g.Value(t.Elem())
		if !ok {
			return v, false
		}
		v.Set(reflect.New(t.Elem()))
		v.Elem().Set(e)
	case reflect.Func:
		if t.NumOut() == 0 || t.IsVariadic() {
			return v, false
		}
		salt := g.Uint64()
		v.Set(reflect.MakeFunc(t, func(in []reflect.Value) []reflect.Value {
			h := fnv.New64a()
			fmt.Fprint(h, salt)
			for _, a := range in {
				fmt.Fprintf(h, "|%v", a)
			}
			sub := &G{Rand: rand.New(rand.NewSource(int64(h.Sum64()))), Ints: g.Ints, Strs: g.Strs}
			var out []reflect.Value
			for i := 0; i < t.NumOut(); i++ {
				o, _ := sub.Value(t.Out(i))
				out = append(out, o)
			}
			return out
		}))
	default:
		return v, false
	}
	return v, true
}

// region is a piece of memory reachable from the arguments.
type region struct {
	id    uintptr
	v     reflect.Value
	slice []interface{}
	m     map[interface{}]interface{}
}

func regions(args []reflect.Value) map[uintptr]*region {
	out := map[uintptr]*region{}
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		if d > 12 || !v.IsValid() {
			return
		}
		switch v.Kind() {
		case reflect.Interface:
			walk(v.Elem(), d)
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem(), d+1)
			}
		case reflect.Slice:
			if v.Cap() == 0 || v.Type().Elem().Size() == 0 {
				return
			}
			full := v.Slice3(0, v.Cap(), v.Cap())
			id := end(full)
			if r, ok := out[id]; ok && r.v.Len() >= full.Len() {
				return
			}
			r := &region{id: id, v: full}
			out[id] = r
			for i := 0; i < full.Len(); i++ {
				if full.Index(i).CanInterface() {
					r.slice = append(r.slice, full.Index(i).Interface())
				}
				if i < v.Len() {
					walk(full.Index(i), d+1)
				}
			}
		case reflect.Map:
			if v.IsNil() {
				return
			}
			id := v.Pointer()
			if out[id] != nil {
				return
			}
			r := &region{id: id, v: v, m: map[interface{}]interface{}{}}
			out[id] = r
			for _, k := range v.MapKeys() {
				if k.CanInterface() && v.MapIndex(k).CanInterface() {
					r.m[k.Interface()] = v.MapIndex(k).Interface()
				}
				walk(v.MapIndex(k), d+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i), d+1)
			}
		}
	}
	for _, a := range args {
		walk(a, 0)
	}
	return out
}

func (r *region) changed() bool {
	if r.m != nil {
		if r.v.Len() != len(r.m) {
			return true
		}
		for _, k := range r.v.MapKeys() {
			w, ok := r.m[k.Interface()]
			if !ok || !same(w, r.v.MapIndex(k).Interface()) {
				return true
			}
		}
		return false
	}
	for i, s := range r.slice {
		if !same(s, r.v.Index(i).Interface()) {
			return true
		}
	}
	return false
}

func regionID(v interface{}) uintptr {
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Slice:
		if r.Cap() == 0 {
			return 0
		}
		return end(r)
	case reflect.Map, reflect.Ptr:
		return r.Pointer()
	}
	return 0
}

type failure struct {
	Case   int
	Clause string
	Args   string
}

type report struct {
	Spec     string
	Cases    int
	Skipped  int
	Distinct int
	Samples  []string
	Failures []failure
	Fatal    string
}

func hash64(s string) int64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return int64(h.Sum64())
}

func render(args []reflect.Value) string {
	var out []string
	for _, a := range args {
		out = append(out, renderV(a, 0))
	}
	return strings.Join(out, ", ")
}

func renderV(v reflect.Value, d int) string {
	if !v.IsValid() {
		return "nil"
	}
	if d > 5 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return renderV(v.Elem(), d)
	case reflect.Slice:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, renderV(v.Index(i), d+1))
		}
		return fmt.Sprintf("%v{%s}/cap%d", v.Type(), strings.Join(s, ", "), v.Cap())
	case reflect.Map:
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, renderV(k, d+1)+": "+renderV(v.MapIndex(k), d+1))
		}
		sort.Strings(s)
		return fmt.Sprintf("%v{%s}", v.Type(), strings.Join(s, ", "))
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + renderV(v.Elem(), d+1)
	case reflect.Func:
		return v.Type().String()
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, renderV(v.Field(i), d+2))
		}
		return fmt.Sprintf("%v{%s}", v.Type(), strings.Join(s, ", "))
	case reflect.String:
		if v.Type().Name() == "string" {
			return strconv.Quote(v.String())
		}
		return fmt.Sprintf("%v(%q)", v.Type(), v.String())
	case reflect.Int, reflect.Bool:
		return fmt.Sprint(v)
	}
	return fmt.Sprintf("%v(%v)", v.Type(), v)
}

// runCase runs one case; ok is false when the arguments are outside the domain.
func runCase(name string, s Spec, seed int64, n int) (args []reflect.Value, shown string, fails []string, ok bool) {
	g := &G{Rand: rand.New(rand.NewSource(hash64(fmt.Sprintf("%s/%d/%d", name, seed, n)))), Ints: s.Ints, Strs: s.Strs, Big: s.Opts["bigints"] != ""}
	f := reflect.ValueOf(s.F)
	t := f.Type()
	for i := 0; i < t.NumIn(); i++ {
		v, good := g.Value(t.In(i))
		if !good {
			return nil, "", []string{"cannot generate " + t.In(i).String()}, false
		}
		args = append(args, v)
	}
	shown = render(args)
	if mark != nil {
		mark.WriteAt([]byte(fmt.Sprintf("%s %d\n%s\x00", name, n, clipS(shown, 4000))), 0)
	}
	st := &runState{}
	st.regs = regions(args)
	st.strs = append(append([]string{}, strPool...), collectStrs(args)...)
	cur = st
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, is := e.(skipped); is {
					ok = false
					if len(st.fails) == 0 {
						return
					}
					ok = true
					return
				}
				if !st.mayPanic {
					st.fails = append(st.fails, fmt.Sprintf("no panic (%v)", e))
				}
			}
		}()
		ok = true
		if t.IsVariadic() {
			f.CallSlice(args)
		} else {
			f.Call(args)
		}
	}()
	if ok && s.Opts["noframe"] == "" {
		for id, r := range st.regs {
			if !st.mods[id] && r.changed() {
				st.fails = append(st.fails, "frame: only new memory and the declared references are written")
				break
			}
		}
	}
	return args, shown, st.fails, ok
}

func collectStrs(args []reflect.Value) []string {
	set := map[string]bool{}
	var walk func(v reflect.Value, d int)
	walk = func(v reflect.Value, d int) {
		if d > 5 || !v.IsValid() {
			return
		}
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			walk(v.Elem(), d+1)
		case reflect.String:
			set[v.String()] = true
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				return
			}
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), d+1)
			}
		case reflect.Map:
			for _, k := range v.MapKeys() {
				walk(k, d+1)
				walk(v.MapIndex(k), d+1)
			}
		}
		if v.CanInterface() && (v.Kind() == reflect.Int || v.Kind() == reflect.Float64 || v.Kind() == reflect.Bool) {
			set[fmt.Sprint(v.Interface())] = true
		}
	}
	for _, a := range args {
		walk(a, 0)
	}
	var out []string
	for s := range set {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

var mark *os.File // the case that is running, for the report of a crash

// Main runs the specifications on generated arguments; the environment says which and how many.
func Main(specs map[string]Spec) {
	seed, _ := strconv.ParseInt(os.Getenv("GVC_SEED"), 10, 64)
	count, _ := strconv.Atoi(os.Getenv("GVC_COUNT"))
	if count == 0 {
		count = 300
	}
	limit := 3 * time.Second
	if d, err := time.ParseDuration(os.Getenv("GVC_LIMIT")); err == nil {
		limit = d
	}
	only := os.Getenv("GVC_ONLY")
	one := -1
	if c := os.Getenv("GVC_CASE"); c != "" {
		one, _ = strconv.Atoi(c)
	}
	var out *os.File = os.Stdout
	if f := os.Getenv("GVC_OUT"); f != "" {
		out, _ = os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
		defer out.Close()
	}
	if f := os.Getenv("GVC_MARK"); f != "" {
		mark, _ = os.Create(f)
	}
	debug.SetMaxStack(256 << 20)
	if f := os.Getenv("GVC_CFG"); f != "" {
		cfg := map[string]Spec{}
		if b, err := os.ReadFile(f); err == nil && json.Unmarshal(b, &cfg) == nil {
			for n, c := range cfg {
				if s, ok := specs[n]; ok {
					c.F = s.F
					specs[n] = c
				}
			}
		}
	}
	var names []string
	for n := range specs {
		names = append(names, n)
	}
	sort.Strings(names)
	emit := func(r *report) {
		b, _ := json.Marshal(r)
		out.Write(append(b, '\n'))
	}
	var started int64
	var curCase int64
	curName := ""
	var curRep *report
	caseLimit := 20 * time.Second
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			t := atomic.LoadInt64(&started)
			if t != 0 && time.Since(time.Unix(0, t)) > caseLimit {
				r := *curRep
				r.Spec = curName
				r.Failures = append(r.Failures, failure{int(atomic.LoadInt64(&curCase)), "an answer within 20 s", "see case"})
				r.Fatal = "timeout"
				emit(&r)
				os.Exit(3)
			}
		}
	}()
	for _, n := range names {
		if only != "" && !contains(strings.Split(only, ","), n) {
			continue
		}
		s := specs[n]
		r := &report{Spec: n}
		curName, curRep = n, r
		t0 := time.Now()
		seen := map[string]bool{}
		lo, hi := 0, count
		if m, err := strconv.Atoi(s.Opts["runs"]); err == nil {
			hi = m
		}
		if one >= 0 {
			lo, hi = one, one+1
		}
		for i := lo; i < hi && (one >= 0 || time.Since(t0) < limit); i++ {
			atomic.StoreInt64(&curCase, int64(i))
			atomic.StoreInt64(&started, time.Now().UnixNano())
			_, shown, fails, ok := runCase(n, s, seed, i)
			atomic.StoreInt64(&started, 0)
			r.Cases++
			if !ok {
				r.Skipped++
				if len(fails) > 0 {
					r.Fatal = fails[0]
					break
				}
				continue
			}
			if !seen[shown] {
				seen[shown] = true
				r.Distinct++
				if len(r.Samples) < 2 && len(shown) > 8 {
					r.Samples = append(r.Samples, clipS(shown, 300))
				}
			}
			if len(fails) > 0 && len(r.Failures) < 40 {
				for _, c := range fails {
					r.Failures = append(r.Failures, failure{i, c, clipS(shown, 2000)})
				}
			}
		}
		emit(r)
	}
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

// same also takes a NaN as itself.
func same(a, b interface{}) bool {
	if Same(a, b) {
		return true
	}
	if k := reflect.ValueOf(a).Kind(); k != reflect.Struct && k != reflect.Float64 && k != reflect.Float32 {
		return false
	}
	return fmt.Sprintf("%#v", a) == fmt.Sprintf("%#v", b)
}
