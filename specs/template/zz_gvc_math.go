package template

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// gvcNum is a numeric argument of a template function.
type gvcNum struct{ V interface{} }

// gvcOp chooses an operation.
type gvcOp uint

func init() {
	rt.Gen(func(g *rt.G) gvcOp { return gvcOp(g.Intn(5040)) })
	rt.Gen(func(g *rt.G) gvcNum {
		switch g.Intn(8) {
		case 0, 1, 2:
			return gvcNum{g.Int()}
		case 3:
			return gvcNum{int64(g.Int())}
		case 4:
			return gvcNum{uint8(g.Intn(256))}
		case 5:
			f := g.Float()
			return gvcNum{f}
		case 6:
			return gvcNum{strconv.Itoa(g.Int())}
		default:
			return gvcNum{float64(g.Intn(200)-100) / 4}
		}
	})
}

// gvcIntegral: the value is an integer that an int64 can hold.
//
//gvc:pure
func gvcIntegral(v float64) bool {
	return v == math.Floor(v) && v >= -9223372036854775808 && v < 9223372036854775808
}

// gvcExact: r is the value v, as an integer exactly when an int64 can hold it.
//
//gvc:opaque
//gvc:pure
func gvcExact(r interface{}, v float64) bool {
	n, isInt := r.(int64)
	f, isFloat := r.(float64)
	return isInt != isFloat && isInt == gvcIntegral(v) && (!isInt || float64(n) == v) && (!isFloat || f == v || math.IsNaN(f) && math.IsNaN(v))
}

// Only integral values an int64 can hold become integers.
//
//gvc:prop C13
//gvc:contract ~/template.simplify
//gvc:opt transparent
func SpecSimplify(v float64) {
	r := simplify(v)
	rt.Ensures("the same value, an integer exactly when an int64 can hold it", gvcExact(r, v))
}

// gvcSimple is the reference: exact conversion through arbitrary precision.
func gvcSimple(v float64) interface{} {
	if math.IsNaN(v) || math.IsInf(v, 0) {
		return v
	}
	i, acc := new(big.Float).SetFloat64(v).Int(nil)
	if acc == big.Exact && i.IsInt64() {
		return i.Int64()
	}
	return v
}

func gvcSame(a, b interface{}) bool {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		return x == y || math.IsNaN(x) && math.IsNaN(y)
	}
	return rt.Same(a, b)
}

// gvcFloat is the number an argument stands for.
func gvcFloat(v interface{}) (float64, bool) {
	f, err := strconv.ParseFloat(fmt.Sprint(v), 64)
	return f, err == nil
}

var gvcBinary = []struct {
	name string
	f    func(a, b interface{}) (interface{}, error)
	ref  func(a, b float64) float64
}{
	{"subtract", subtract, func(a, b float64) float64 { return a - b }},
	{"divide", divide, func(a, b float64) float64 { return a / b }},
	{"modulo", modulo, math.Mod},
	{"power", power, math.Pow},
	{"dim", dim, math.Dim},
	{"hypot", hypot, math.Hypot},
	{"atan2", atan2, math.Atan2},
	{"remainder", remainder, math.Remainder},
	{"add", func(a, b interface{}) (interface{}, error) { return add(a, b) }, func(a, b float64) float64 { return a + b }},
	{"multiply", func(a, b interface{}) (interface{}, error) { return multiply(a, b) }, func(a, b float64) float64 { return a * b }},
	{"max", func(a, b interface{}) (interface{}, error) { return max(a, b), nil }, math.Max},
	{"min", func(a, b interface{}) (interface{}, error) { return min(a, b), nil }, math.Min},
	{"average", func(a, b interface{}) (interface{}, error) { return average(a, b) }, func(a, b float64) float64 {
		s := gvcSimple(a + b)
		f, _ := gvcFloat(s)
		return f / 2
	}},
}

var gvcUnary = []struct {
	name string
	f    func(a interface{}) (interface{}, error)
	ref  func(a float64) float64
}{
	{"ceil", ceil, math.Ceil}, {"floor", floor, math.Floor}, {"trunc", trunc, math.Trunc}, {"abs", abs, math.Abs}, {"cbrt", cbrt, math.Cbrt},
	{"exp", exp, math.Exp}, {"exp2", exp2, math.Exp2}, {"expm1", expm1, math.Expm1}, {"sqrt", sqrt, math.Sqrt},
	{"rad", rad, func(a float64) float64 { return a * math.Pi / 180 }}, {"deg", deg, func(a float64) float64 { return a * 180 / math.Pi }},
	{"acos", acos, math.Acos}, {"acosh", acosh, math.Acosh}, {"asin", asin, math.Asin}, {"asinh", asinh, math.Asinh},
	{"atan", atan, math.Atan}, {"atanh", atanh, math.Atanh}, {"cos", cos, math.Cos}, {"cosh", cosh, math.Cosh},
	{"log", logFunc, math.Log}, {"log10", log10, math.Log10}, {"log1p", log1p, math.Log1p}, {"log2", log2, math.Log2}, {"logb", logb, math.Logb},
	{"sin", sin, math.Sin}, {"sinh", sinh, math.Sinh}, {"tan", tan, math.Tan}, {"tanh", tanh, math.Tanh},
	{"gamma", gamma, math.Gamma}, {"power10", power10, func(a float64) float64 { return math.Pow10(int(a)) }},
}

// The binary functions give the simplified result of the operation.
//
//gvc:prop C13
//gvc:opt bounded=1 bigints=1
func SpecBinary(op gvcOp, a, b gvcNum) {
	o := gvcBinary[op%gvcOp(len(gvcBinary))]
	x, ok1 := gvcFloat(a.V)
	y, ok2 := gvcFloat(b.V)
	rt.Requires(ok1 && ok2)
	r, err := o.f(a.V, b.V)
	if o.name == "divide" && y == 0 {
		rt.Ensures("division by zero is an error", err != nil)
		return
	}
	rt.Ensures("no error", err == nil)
	rt.Ensures("the exact result of "+o.name, gvcSame(r, gvcSimple(o.ref(x, y))))
}

// So do the unary ones.
//
//gvc:prop C13
//gvc:opt bounded=1 bigints=1
func SpecUnary(op gvcOp, a gvcNum) {
	o := gvcUnary[op%gvcOp(len(gvcUnary))]
	x, ok := gvcFloat(a.V)
	rt.Requires(ok)
	r, err := o.f(a.V)
	rt.Ensures("no error", err == nil)
	rt.Ensures("the exact result of "+o.name, gvcSame(r, gvcSimple(o.ref(x))))
}

// A list is processed element by element.
//
//gvc:prop C13
//gvc:opt bounded=1 bigints=1
func SpecUnaryList(op gvcOp, in []gvcNum) {
	rt.Requires(len(in) >= 2)
	o := gvcUnary[op%gvcOp(len(gvcUnary))]
	var args []interface{}
	for _, a := range in {
		_, ok := gvcFloat(a.V)
		rt.Requires(ok)
		args = append(args, a.V)
	}
	r, err := o.f(args)
	rt.Ensures("no error", err == nil)
	l, ok := r.(collections.IGenericList)
	rt.Ensures("a list", ok && l.Len() == len(in))
	for i := range in {
		x, _ := gvcFloat(in[i].V)
		rt.Ensures("the exact results of "+o.name, gvcSame(l.Get(i), gvcSimple(o.ref(x))))
	}
}

// Sums and products over any number of values.
//
//gvc:prop C13
//gvc:opt bounded=1 bigints=1
func SpecManyNumbers(in []gvcNum) {
	rt.Requires(len(in) >= 2)
	var args []interface{}
	var sum, mx, mn float64
	mul := 1.0
	for i, a := range in {
		x, ok := gvcFloat(a.V)
		rt.Requires(ok)
		args = append(args, a.V)
		sum += x
		mul *= x
		if i == 0 {
			mx, mn = x, x
		}
		mx, mn = math.Max(mx, x), math.Min(mn, x)
	}
	r, err := add(args[0], args[1:]...)
	rt.Ensures("sum", err == nil && gvcSame(r, gvcSimple(sum)))
	r, err = multiply(args[0], args[1:]...)
	rt.Ensures("product", err == nil && gvcSame(r, gvcSimple(mul)))
	rt.Ensures("maximum", gvcSame(max(args...), gvcSimple(mx)))
	rt.Ensures("minimum", gvcSame(min(args...), gvcSimple(mn)))
}

// Numeric ranges hold every step.
//
//gvc:prop C13
//gvc:opt bounded=1
func SpecRange(a, b int, limit bool) {
	rt.Requires(a > -1000 && a < 1000 && b > -1000 && b < 1000)
	f := until
	if limit {
		f = to
	}
	r, err := f(a, b)
	rt.Ensures("no error", err == nil)
	l := r.(collections.IGenericList)
	n := b - a
	if n < 0 {
		n = -n
	}
	if limit {
		n++
	}
	rt.Ensures("number of values", l.Len() == n)
	for i := 0; i < n; i++ {
		want := int64(a + i)
		if b < a {
			want = int64(a - i)
		}
		rt.Ensures("values", rt.Same(l.Get(i), want))
	}
}

// gvcInt is the integer an argument stands for.
func gvcInt(v interface{}) (int64, bool) {
	n, err := strconv.ParseInt(fmt.Sprint(v), 10, 64)
	return n, err == nil
}

// The bit operations fold their arguments from left to right; what is not an integer is an error.
//
//gvc:prop C14
//gvc:opt bounded=1 bigints=1
func SpecBits(a, b gvcNum, rest []gvcNum) {
	var args []interface{}
	x, ok := gvcInt(a.V)
	or, and, xor, clear := x, x, x, x
	good := ok
	for i, v := range append([]gvcNum{b}, rest...) {
		y, ok := gvcInt(v.V)
		good = good && ok
		or, and, xor, clear = or|y, and&y, xor^y, clear&^y
		if i > 0 {
			args = append(args, v.V)
		}
	}
	check := func(what string, want int64, r interface{}, err error) {
		rt.Ensures(what+": error when an argument is not an integer", good == (err == nil))
		rt.Ensures(what+": exact fold", !good || rt.Same(r, want))
	}
	r, err := bitwiseOr(a.V, b.V, args...)
	check("or", or, r, err)
	r, err = bitwiseAnd(a.V, b.V, args...)
	check("and", and, r, err)
	r, err = bitwiseXor(a.V, b.V, args...)
	check("xor", xor, r, err)
	r, err = bitwiseClear(a.V, b.V, args...)
	check("clear", clear, r, err)
}

// Shifts shift by the full unsigned amount.
//
//gvc:prop C14
//gvc:opt bounded=1 bigints=1
func SpecShift(a gvcNum, b gvcNum, by uint64, useBy bool) {
	x, ok1 := gvcInt(a.V)
	var amount interface{} = b.V
	if useBy {
		amount = by
	}
	y, err := strconv.ParseUint(fmt.Sprint(amount), 10, 64)
	good := ok1 && err == nil
	l, e1 := leftShift(a.V, amount)
	r, e2 := rightShift(a.V, amount)
	rt.Ensures("error when not integers", good == (e1 == nil) && good == (e2 == nil))
	if good {
		wl, wr := big.NewInt(0), x
		if y < 64 {
			wl = new(big.Int).Lsh(big.NewInt(x), uint(y))
			wr = x >> y
		} else if x < 0 {
			wr = -1
		} else {
			wr = 0
		}
		low := new(big.Int).And(wl, new(big.Int).SetUint64(math.MaxUint64)).Uint64()
		rt.Ensures("left shift", rt.Same(l, int64(low)))
		rt.Ensures("right shift", rt.Same(r, wr))
	}
}

// gvcCall calls a template function with any arguments.
func gvcCall(f interface{}, args []interface{}) (out []reflect.Value, called bool) {
	t := reflect.TypeOf(f)
	var in []reflect.Value
	for i, a := range args {
		var p reflect.Type
		switch {
		case t.IsVariadic() && i >= t.NumIn()-1:
			p = t.In(t.NumIn() - 1).Elem()
		case i < t.NumIn():
			p = t.In(i)
		default:
			continue
		}
		v := reflect.New(p).Elem()
		if a != nil {
			if !reflect.TypeOf(a).AssignableTo(p) {
				if !reflect.TypeOf(a).ConvertibleTo(p) {
					return nil, false
				}
				a = reflect.ValueOf(a).Convert(p).Interface()
			}
			v.Set(reflect.ValueOf(a))
		} else if p.Kind() != reflect.Interface {
			return nil, false
		}
		in = append(in, v)
	}
	if len(in) < t.NumIn() && !(t.IsVariadic() && len(in) == t.NumIn()-1) {
		return nil, false
	}
	return reflect.ValueOf(f).Call(in), true
}

// gvcTotal lists the functions which must never panic.
func gvcTotal() (names []string, funcs dictionary) {
	funcs = dictionary{"slice": slice, "extract": extract, "safeIndex": safeIndex}
	for _, m := range []dictionary{mathBaseFuncs, mathStatFuncs, mathTrigFuncs, mathBitsFuncs, mathUtilFuncs} {
		for k, f := range m {
			if t := reflect.TypeOf(f); t.Kind() == reflect.Func && k != "to" && k != "until" {
				funcs[k] = f
			}
		}
	}
	for k := range funcs {
		names = append(names, k)
	}
	sort.Strings(names)
	return
}

// Whatever the arguments, a value or an error comes back.
//
//gvc:prop C15
//gvc:opt bounded=1 runs=40000 noframe=1
func SpecNeverPanics(op gvcOp, args ...interface{}) {
	names, funcs := gvcTotal()
	name := names[op%gvcOp(len(names))]
	rt.Requires(name != "multiply" && name != "mul" || gvcSmall(args))
	called := true
	panicked := rt.Try(func() { _, called = gvcCall(funcs[name], args) })
	rt.Requires(called)
	rt.Ensures(name+" does not panic", !panicked)
}

// gvcSmall: repeating something that many times fits in memory.
func gvcSmall(args []interface{}) bool {
	for _, a := range args {
		if f, ok := gvcFloat(a); ok && math.Abs(f) > 1e6 {
			return false
		}
	}
	return true
}

// gvcInt64 is the integer the text of a value stands for.
//
//gvc:pure
func gvcInt64(v interface{}) int64 {
	n, err := strconv.ParseInt(rt.Sprint(v), 10, 64)
	if err != nil {
		return 0
	}
	return n
}

//gvc:pure
func gvcIsInt64(v interface{}) bool {
	_, err := strconv.ParseInt(rt.Sprint(v), 10, 64)
	return err == nil
}

//gvc:pure
func gvcAllInts(a, b interface{}, rest []interface{}) bool {
	return gvcIsInt64(a) && gvcIsInt64(b) && rt.ForAll(0, len(rest), func(i int) bool { return gvcIsInt64(rest[i]) })
}

// Or of any number of arguments is the left fold.
//
//gvc:prop C14
func SpecOr(a, b interface{}, rest []interface{}) {
	step := func(i, acc int) int { return int(int64(acc) | gvcInt64(rest[i])) }
	rt.LoopInv(func(i int, r int64) bool {
		return int(r) == rt.FoldInt(i, int(gvcInt64(a)|gvcInt64(b)), step)
	})
	rt.LoopInv(func(i int) bool { return rt.ForAll(0, i, func(k int) bool { return gvcIsInt64(rest[k]) }) })
	r, err := bitwiseOr(a, b, rest...)
	good := gvcAllInts(a, b, rest)
	rt.Ensures("an error exactly when an argument is not an integer", good == (err == nil))
	rt.EnsuresF("exact fold", func() bool {
		return !good || rt.Same(r, int64(rt.FoldInt(len(rest), int(gvcInt64(a)|gvcInt64(b)), step)))
	})
}

// And of any number of arguments is the left fold.
//
//gvc:prop C14
func SpecAnd(a, b interface{}, rest []interface{}) {
	step := func(i, acc int) int { return int(int64(acc) & gvcInt64(rest[i])) }
	rt.LoopInv(func(i int, r int64) bool {
		return int(r) == rt.FoldInt(i, int(gvcInt64(a)&gvcInt64(b)), step)
	})
	rt.LoopInv(func(i int) bool { return rt.ForAll(0, i, func(k int) bool { return gvcIsInt64(rest[k]) }) })
	r, err := bitwiseAnd(a, b, rest...)
	good := gvcAllInts(a, b, rest)
	rt.Ensures("an error exactly when an argument is not an integer", good == (err == nil))
	rt.EnsuresF("exact fold", func() bool {
		return !good || rt.Same(r, int64(rt.FoldInt(len(rest), int(gvcInt64(a)&gvcInt64(b)), step)))
	})
}

// Exclusive or of any number of arguments is the left fold.
//
//gvc:prop C14
func SpecXor(a, b interface{}, rest []interface{}) {
	step := func(i, acc int) int { return int(int64(acc) ^ gvcInt64(rest[i])) }
	rt.LoopInv(func(i int, r int64) bool {
		return int(r) == rt.FoldInt(i, int(gvcInt64(a)^gvcInt64(b)), step)
	})
	rt.LoopInv(func(i int) bool { return rt.ForAll(0, i, func(k int) bool { return gvcIsInt64(rest[k]) }) })
	r, err := bitwiseXor(a, b, rest...)
	good := gvcAllInts(a, b, rest)
	rt.Ensures("an error exactly when an argument is not an integer", good == (err == nil))
	rt.EnsuresF("exact fold", func() bool {
		return !good || rt.Same(r, int64(rt.FoldInt(len(rest), int(gvcInt64(a)^gvcInt64(b)), step)))
	})
}

// Clear of any number of arguments is the left fold.
//
//gvc:prop C14
func SpecClear(a, b interface{}, rest []interface{}) {
	step := func(i, acc int) int { return int(int64(acc) &^ gvcInt64(rest[i])) }
	rt.LoopInv(func(i int, r int64) bool {
		return int(r) == rt.FoldInt(i, int(gvcInt64(a)&^gvcInt64(b)), step)
	})
	rt.LoopInv(func(i int) bool { return rt.ForAll(0, i, func(k int) bool { return gvcIsInt64(rest[k]) }) })
	r, err := bitwiseClear(a, b, rest...)
	good := gvcAllInts(a, b, rest)
	rt.Ensures("an error exactly when an argument is not an integer", good == (err == nil))
	rt.EnsuresF("exact fold", func() bool {
		return !good || rt.Same(r, int64(rt.FoldInt(len(rest), int(gvcInt64(a)&^gvcInt64(b)), step)))
	})
}

// gvcPlain: neither a collection nor a pointer.
//
//gvc:pure
func gvcPlain(v interface{}) bool {
	if v == nil {
		return false
	}
	switch reflect.TypeOf(v).Kind() {
	case reflect.Map, reflect.Slice, reflect.Array, reflect.Ptr:
		return false
	}
	return true
}

//gvc:pure
func gvcUint64(v interface{}) uint64 {
	n, err := strconv.ParseUint(rt.Sprint(v), 10, 64)
	if err != nil {
		return 0
	}
	return n
}

//gvc:pure
func gvcIsUint64(v interface{}) bool {
	_, err := strconv.ParseUint(rt.Sprint(v), 10, 64)
	return err == nil
}

// A shift of one number uses the full unsigned amount.
//
//gvc:prop C14
func SpecShiftOne(a, b interface{}) {
	rt.Requires(gvcPlain(a))
	good := gvcIsInt64(a) && gvcIsUint64(b)
	l, err := leftShift(a, b)
	rt.Ensures("left: an error exactly when an argument is not an integer", good == (err == nil))
	rt.EnsuresF("left shift", func() bool { return !good || rt.Same(l, gvcInt64(a)<<gvcUint64(b)) })
	r, err := rightShift(a, b)
	rt.Ensures("right: an error exactly when an argument is not an integer", good == (err == nil))
	rt.EnsuresF("right shift", func() bool { return !good || rt.Same(r, gvcInt64(a)>>gvcUint64(b)) })
}

// gvcNumber is the number the text of a value stands for.
//
//gvc:pure
func gvcNumber(v interface{}) float64 {
	n, err := strconv.ParseFloat(rt.Sprint(v), 64)
	if err != nil {
		return 0
	}
	return n
}

//gvc:pure
func gvcIsNumber(v interface{}) bool {
	_, err := strconv.ParseFloat(rt.Sprint(v), 64)
	return err == nil
}

// The result of an operation on two numbers keeps its value.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecDivideExact(a, b interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a) && gvcIsNumber(b))
	x, y := gvcNumber(a), gvcNumber(b)
	r, err := divide(a, b)
	rt.Ensures("divide by zero is an error", (y == 0) == (err != nil))
	rt.EnsuresF("divide", func() bool { return y == 0 || gvcExact(r, x/y) })
}

// The result of an operation on two numbers keeps its value.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecSubtractExact(a, b interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a) && gvcIsNumber(b))
	x, y := gvcNumber(a), gvcNumber(b)
	r, err := subtract(a, b)
	rt.Ensures("subtract", err == nil && gvcExact(r, x-y))
	r, err = modulo(a, b)
	rt.Ensures("modulo", err == nil && gvcExact(r, math.Mod(x, y)))
}

// The result of an operation on two numbers keeps its value.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecPowerExact(a, b interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a) && gvcIsNumber(b))
	x, y := gvcNumber(a), gvcNumber(b)
	r, err := power(a, b)
	rt.Ensures("power", err == nil && gvcExact(r, math.Pow(x, y)))
	r, err = dim(a, b)
	rt.Ensures("dim", err == nil && gvcExact(r, math.Dim(x, y)))
}

// The result of an operation on two numbers keeps its value.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecHypotExact(a, b interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a) && gvcIsNumber(b))
	x, y := gvcNumber(a), gvcNumber(b)
	r, err := hypot(a, b)
	rt.Ensures("hypot", err == nil && gvcExact(r, math.Hypot(x, y)))
	r, err = atan2(a, b)
	rt.Ensures("atan2", err == nil && gvcExact(r, math.Atan2(x, y)))
	r, err = remainder(a, b)
	rt.Ensures("remainder", err == nil && gvcExact(r, math.Remainder(x, y)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryCeilFloor(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := ceil(a)
	rt.Ensures("ceil", err == nil && gvcExact(r, math.Ceil(x)))
	r, err = floor(a)
	rt.Ensures("floor", err == nil && gvcExact(r, math.Floor(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryTruncAbs(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := trunc(a)
	rt.Ensures("trunc", err == nil && gvcExact(r, math.Trunc(x)))
	r, err = abs(a)
	rt.Ensures("abs", err == nil && gvcExact(r, math.Abs(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryCbrtExp(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := cbrt(a)
	rt.Ensures("cbrt", err == nil && gvcExact(r, math.Cbrt(x)))
	r, err = exp(a)
	rt.Ensures("exp", err == nil && gvcExact(r, math.Exp(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryExp2Expm1(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := exp2(a)
	rt.Ensures("exp2", err == nil && gvcExact(r, math.Exp2(x)))
	r, err = expm1(a)
	rt.Ensures("expm1", err == nil && gvcExact(r, math.Expm1(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnarySqrtAcos(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := sqrt(a)
	rt.Ensures("sqrt", err == nil && gvcExact(r, math.Sqrt(x)))
	r, err = acos(a)
	rt.Ensures("acos", err == nil && gvcExact(r, math.Acos(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryAcoshAsin(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := acosh(a)
	rt.Ensures("acosh", err == nil && gvcExact(r, math.Acosh(x)))
	r, err = asin(a)
	rt.Ensures("asin", err == nil && gvcExact(r, math.Asin(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryAsinhAtan(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := asinh(a)
	rt.Ensures("asinh", err == nil && gvcExact(r, math.Asinh(x)))
	r, err = atan(a)
	rt.Ensures("atan", err == nil && gvcExact(r, math.Atan(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryAtanhCos(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := atanh(a)
	rt.Ensures("atanh", err == nil && gvcExact(r, math.Atanh(x)))
	r, err = cos(a)
	rt.Ensures("cos", err == nil && gvcExact(r, math.Cos(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryCoshLogfunc(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := cosh(a)
	rt.Ensures("cosh", err == nil && gvcExact(r, math.Cosh(x)))
	r, err = logFunc(a)
	rt.Ensures("logFunc", err == nil && gvcExact(r, math.Log(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryLog10Log1p(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := log10(a)
	rt.Ensures("log10", err == nil && gvcExact(r, math.Log10(x)))
	r, err = log1p(a)
	rt.Ensures("log1p", err == nil && gvcExact(r, math.Log1p(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryLog2Logb(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := log2(a)
	rt.Ensures("log2", err == nil && gvcExact(r, math.Log2(x)))
	r, err = logb(a)
	rt.Ensures("logb", err == nil && gvcExact(r, math.Logb(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnarySinSinh(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := sin(a)
	rt.Ensures("sin", err == nil && gvcExact(r, math.Sin(x)))
	r, err = sinh(a)
	rt.Ensures("sinh", err == nil && gvcExact(r, math.Sinh(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryTanTanh(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := tan(a)
	rt.Ensures("tan", err == nil && gvcExact(r, math.Tan(x)))
	r, err = tanh(a)
	rt.Ensures("tanh", err == nil && gvcExact(r, math.Tanh(x)))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryGammaRad(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := gamma(a)
	rt.Ensures("gamma", err == nil && gvcExact(r, math.Gamma(x)))
	r, err = rad(a)
	rt.Ensures("rad", err == nil && gvcExact(r, x*math.Pi/180))
}

// The functions of one number give its exact image.
//
//gvc:prop C13
//gvc:opt sealed floats=uf
func SpecUnaryDegPower10(a interface{}) {
	rt.Requires(gvcPlain(a) && gvcIsNumber(a))
	x := gvcNumber(a)
	r, err := deg(a)
	rt.Ensures("deg", err == nil && gvcExact(r, x*180/math.Pi))
	r, err = power10(a)
	rt.Ensures("power10", err == nil && gvcExact(r, math.Pow10(int(x))))
}

// What is not a number is an error.
//
//gvc:prop C13 C15
func SpecNotNumber(a, b interface{}) {
	rt.Requires(gvcPlain(a) && !(gvcIsNumber(a) && gvcIsNumber(b)))
	_, err := subtract(a, b)
	rt.Ensures("subtract", err != nil)
	_, err = divide(a, b)
	rt.Ensures("divide", err != nil)
	_, err = power(a, b)
	rt.Ensures("power", err != nil)
}
