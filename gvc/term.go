package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort, written as SMT-LIB text.
type Sort = string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SStr  Sort = "String"
	SVal  Sort = "Val"
	SFlt  Sort = "Flt"
)

func arr(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

func arrParts(s Sort) (Sort, Sort) {
	// "(Array K V)"
	body := s[7 : len(s)-1]
	depth, i := 0, 0
	for ; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// Term is a hash-consed SMT term.
type Term struct {
	id     int
	op     string
	args   []*Term
	sort   Sort
	name   string   // symbols, bound variables, uninterpreted functions
	num    *big.Int // integer literals
	str    string   // string literals
	seq    int      // greatest creation number of the symbols inside
	bound  bool     // contains a bound variable
	fresh  bool     // symbol denoting a freshly allocated reference
	newer  bool     // slice reference that is nil or was allocated after every older symbol
	lazy   bool     // array expressed by frame/splice, expanded when read
	binder []*Term  // quantifiers
	pats   []*Term  // quantifier patterns (each one a pattern)
	size   int
}

const maxSeq = math.MaxInt32

var (
	termTab  = map[string]*Term{}
	termSeq  int
	symSeq   int
	symNames = map[string]int{}
)

func mk(op string, sort Sort, args ...*Term) *Term { return mkN(op, "", sort, args...) }

func mkN(op, name string, sort Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(sort)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	key := b.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termSeq++
	t := &Term{id: termSeq, op: op, name: name, sort: sort, args: args, size: 1}
	for _, a := range args {
		if a.seq > t.seq {
			t.seq = a.seq
		}
		t.bound = t.bound || a.bound
		t.lazy = t.lazy || a.lazy && (op == "store" || op == "ite" || op == "frame" || op == "splice")
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if op == "frame" || op == "splice" {
		t.lazy = true
	}
	termTab[key] = t
	return t
}

func intT(n int64) *Term { return bigT(big.NewInt(n)) }
func bigT(n *big.Int) *Term {
	t := mkN("int", n.String(), SInt)
	t.num = n
	return t
}
func strT(s string) *Term {
	t := mkN("str", s, SStr)
	t.str = s
	return t
}

var (
	tTrue  = mk("true", SBool)
	tFalse = mk("false", SBool)
	tZero  = intT(0)
	tOne   = intT(1)
	tNilV  = mk("vnil", SVal)
)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// sym creates a new symbol with a unique name.
func sym(prefix string, sort Sort) *Term {
	prefix = cleanName(prefix)
	symNames[prefix]++
	symSeq++
	t := mkN("sym", fmt.Sprintf("%s!%d", prefix, symNames[prefix]), sort)
	t.seq = symSeq
	return t
}

// fixedSym returns the symbol of that exact name.
func fixedSym(name string, sort Sort) *Term { return mkN("sym", name, sort) }

func boundVar(prefix string, sort Sort) *Term {
	symNames["?"+prefix]++
	t := mkN("bound", fmt.Sprintf("%s?%d", cleanName(prefix), symNames["?"+prefix]), sort)
	t.bound = true
	t.seq = maxSeq
	return t
}

func cleanName(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

type ufDecl struct {
	def    *Term // definition, a quantified formula
	params []*Term
	known  []*Term // facts about its arguments
	body   *Term
	name   string
	args   []Sort
	ret    Sort
}

var ufs = map[string]*ufDecl{}

func uf(name string, ret Sort, args ...*Term) *Term {
	name = cleanName(name)
	if _, ok := ufs[name]; !ok {
		d := &ufDecl{name: name, ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		ufs[name] = d
	}
	if strings.HasPrefix(name, "unbox.") && len(args) == 1 && args[0].op == "uf" && strings.HasPrefix(args[0].name, "box.") {
		var i int
		if n := strings.LastIndex(name, ".."); n >= 0 && "box."+name[6:n] == args[0].name {
			fmt.Sscan(name[n+2:], &i)
			return args[0].args[i]
		}
	}
	return mkN("uf", name, ret, args...)
}

func isInt(t *Term) bool { return t.op == "int" }

func not(a *Term) *Term {
	switch a.op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.args[0]
	case "<":
		return le(a.args[1], a.args[0])
	case "<=":
		return lt(a.args[1], a.args[0])
	}
	return mk("not", SBool, a)
}

func and(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var addAll func(ts []*Term) bool
	addAll = func(ts []*Term) bool {
		for _, t := range ts {
			switch {
			case t == tTrue || seen[t.id]:
			case t == tFalse:
				return false
			case t.op == "and":
				if !addAll(t.args) {
					return false
				}
			default:
				if seen[not(t).id] {
					return false
				}
				seen[t.id] = true
				out = append(out, t)
			}
		}
		return true
	}
	if !addAll(ts) {
		return tFalse
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", SBool, out...)
}

func or(ts ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, t := range ts {
		var l []*Term
		if t.op == "or" {
			l = t.args
		} else {
			l = []*Term{t}
		}
		for _, t := range l {
			if t == tTrue || seen[not(t).id] {
				return tTrue
			}
			if t == tFalse || seen[t.id] {
				continue
			}
			seen[t.id] = true
			out = append(out, t)
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", SBool, out...)
}

func implies(a, b *Term) *Term { return or(not(a), b) }

func ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == SBool {
		if a == tTrue && b == tFalse {
			return c
		}
		if a == tFalse && b == tTrue {
			return not(c)
		}
		if a == tTrue {
			return or(c, b)
		}
		if b == tFalse {
			return and(c, a)
		}
		if a == tFalse {
			return and(not(c), b)
		}
		if b == tTrue {
			return or(not(c), a)
		}
	}
	if c.op == "not" {
		return ite(c.args[0], b, a)
	}
	return mk("ite", a.sort, c, a, b)
}

// ---- linear arithmetic ----

type lin struct {
	c *big.Int
	m map[*Term]*big.Int
}

func toLin(t *Term) lin {
	switch t.op {
	case "int":
		return lin{new(big.Int).Set(t.num), map[*Term]*big.Int{}}
	case "+":
		r := lin{new(big.Int), map[*Term]*big.Int{}}
		for _, a := range t.args {
			r.add(toLin(a), big.NewInt(1))
		}
		return r
	case "*":
		if isInt(t.args[0]) {
			r := lin{new(big.Int), map[*Term]*big.Int{}}
			r.add(toLin(t.args[1]), t.args[0].num)
			return r
		}
	}
	return lin{new(big.Int), map[*Term]*big.Int{t: big.NewInt(1)}}
}

func (l lin) add(o lin, k *big.Int) {
	l.c.Add(l.c, new(big.Int).Mul(o.c, k))
	for t, v := range o.m {
		if l.m[t] == nil {
			l.m[t] = new(big.Int)
		}
		l.m[t].Add(l.m[t], new(big.Int).Mul(v, k))
		if l.m[t].Sign() == 0 {
			delete(l.m, t)
		}
	}
}

func (l lin) term() *Term {
	var ts []*Term
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		if l.m[t].Cmp(big.NewInt(1)) == 0 {
			out = append(out, t)
		} else {
			out = append(out, mk("*", SInt, bigT(l.m[t]), t))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, bigT(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", SInt, out...)
}

func addT(a, b *Term) *Term {
	l := toLin(a)
	l.add(toLin(b), big.NewInt(1))
	return l.term()
}
func subT(a, b *Term) *Term {
	l := toLin(a)
	l.add(toLin(b), big.NewInt(-1))
	return l.term()
}
func negT(a *Term) *Term { return subT(tZero, a) }
func mulT(a, b *Term) *Term {
	if isInt(b) {
		a, b = b, a
	}
	if isInt(a) {
		l := lin{new(big.Int), map[*Term]*big.Int{}}
		l.add(toLin(b), a.num)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", SInt, a, b)
}

// divT and modT are the SMT (Euclidean) operations.
func divT(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.num.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return bigT(q)
	}
	return mk("div", SInt, a, b)
}
func modT(a, b *Term) *Term {
	if isInt(a) && isInt(b) && b.num.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.num, b.num, new(big.Int))
		return bigT(m)
	}
	return mk("mod", SInt, a, b)
}

func cmpConst(a, b *Term) (int, bool) {
	l := toLin(a)
	l.add(toLin(b), big.NewInt(-1))
	if len(l.m) == 0 {
		return l.c.Sign(), true
	}
	return 0, false
}

// split moves negative coefficients to the other side.
func normCmp(a, b *Term) (*Term, *Term) {
	l := toLin(a)
	l.add(toLin(b), big.NewInt(-1))
	p := lin{new(big.Int), map[*Term]*big.Int{}}
	n := lin{new(big.Int), map[*Term]*big.Int{}}
	for t, v := range l.m {
		if v.Sign() > 0 {
			p.m[t] = v
		} else {
			n.m[t] = new(big.Int).Neg(v)
		}
	}
	if l.c.Sign() > 0 {
		p.c = l.c
	} else {
		n.c = new(big.Int).Neg(l.c)
	}
	return p.term(), n.term()
}

func lt(a, b *Term) *Term {
	if c, ok := cmpConst(a, b); ok {
		return boolT(c < 0)
	}
	a, b = normCmp(a, b)
	return mk("<", SBool, a, b)
}
func le(a, b *Term) *Term {
	if c, ok := cmpConst(a, b); ok {
		return boolT(c <= 0)
	}
	a, b = normCmp(a, b)
	return mk("<=", SBool, a, b)
}

func isCtor(t *Term) bool { _, ok := ctorFields[t.op]; return ok }

func eq(a, b *Term) *Term {
	if a == b {
		if a.sort == SFlt && !isLit(a) {
			// identity of floats is structural here (SMT =), NaN included
			return tTrue
		}
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq: sorts %s %s: %s = %s", a.sort, b.sort, show(a), show(b)))
	}
	if a.sort == SInt {
		if c, ok := cmpConst(a, b); ok {
			return boolT(c == 0)
		}
		if distinctRefs(a, b) {
			return tFalse
		}
		a, b = normCmp(a, b)
		if a.id > b.id {
			a, b = b, a
		}
		return mk("=", SBool, a, b)
	}
	if isLit(a) && isLit(b) {
		return tFalse
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if a == tFalse {
			return not(b)
		}
		if b == tTrue {
			return a
		}
		if b == tFalse {
			return not(a)
		}
	}
	if isCtor(a) && isCtor(b) {
		if a.op != b.op {
			return tFalse
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, eq(a.args[i], b.args[i]))
		}
		return and(cs...)
	}
	if isCtor(b) {
		a, b = b, a
	}
	if isCtor(a) {
		cs := []*Term{tester(a.op, b)}
		for i, f := range ctorFields[a.op] {
			cs = append(cs, eq(sel(f, b), a.args[i]))
		}
		return and(cs...)
	}
	if a.op == "ite" && (isLit(b)) && isLit(a.args[1]) && isLit(a.args[2]) {
		return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
	}
	if b.op == "ite" && (isLit(a)) && isLit(b.args[1]) && isLit(b.args[2]) {
		return ite(b.args[0], eq(b.args[1], a), eq(b.args[2], a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", SBool, a, b)
}

func isLit(t *Term) bool {
	switch t.op {
	case "int", "str", "true", "false", "vnil", "fltlit":
		return true
	}
	return false
}

// distinctRefs reports whether two reference terms are known to differ: a freshly
// allocated reference differs from every value that existed before its allocation.
func distinctRefs(a, b *Term) bool {
	if a.fresh && !b.bound && b.seq < a.seq && b.op != "int" {
		return isRefLike(b)
	}
	if b.fresh && !a.bound && a.seq < b.seq && a.op != "int" {
		return isRefLike(a)
	}
	if a.fresh && b.newer && a.seq < b.seq || b.fresh && a.newer && b.seq < a.seq {
		return true
	}
	if a.fresh && isInt(b) || b.fresh && isInt(a) {
		return true // literal references: nil, functions, globals
	}
	return false
}

// isRefLike: the term denotes a value read from the state (not an arithmetic expression over it).
func isRefLike(t *Term) bool {
	switch t.op {
	case "sym", "select", "sel", "uf":
		return true
	case "ite":
		return isRefLike(t.args[1]) && isRefLike(t.args[2])
	}
	return false
}

// ---- arrays ----

func sel2(a, i *Term) *Term { // select
	for {
		switch a.op {
		case "store":
			e := eq(a.args[1], i)
			if e == tTrue {
				return a.args[2]
			}
			if e == tFalse {
				a = a.args[0]
				continue
			}
			if a.lazy {
				return ite(e, a.args[2], sel2(a.args[0], i))
			}
		case "constarr":
			return a.args[0]
		case "frame":
			return selFrame(a, i)
		case "splice":
			// splice(row, at, n, src, srcOff)
			row, at, n, src, so := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
			in := and(le(at, i), lt(i, addT(at, n)))
			if in == tFalse {
				a = row
				continue
			}
			return ite(in, sel2(src, addT(subT(i, at), so)), sel2(row, i))
		case "ite":
			if a.lazy || (a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "constarr") && a.size < 400 {
				return ite(a.args[0], sel2(a.args[1], i), sel2(a.args[2], i))
			}
		}
		break
	}
	_, v := arrParts(a.sort)
	return mk("select", v, a, i)
}

// frameT is the heap after an operation that writes only references allocated since
// the frontier and the given ones: frame(old, new, frontier, written...).
func frameT(old, nw, frontier *Term, marker int, mods []*Term) *Term {
	return mkN("frame", fmt.Sprint(marker), old.sort, append([]*Term{old, nw, frontier}, mods...)...)
}

func selFrame(a, i *Term) *Term {
	var marker int
	fmt.Sscan(a.name, &marker)
	old, nw, frontier, mods := a.args[0], a.args[1], a.args[2], a.args[3:]
	if isInt(i) && i.num.Sign() <= 0 {
		return sel2(old, i)
	}
	if (i.fresh || i.newer) && i.seq > marker {
		return sel2(nw, i)
	}
	c := tFalse
	for _, m := range mods {
		c = or(c, eq(m, i))
	}
	if !(i.bound == false && i.seq <= marker && isRefLike(i)) {
		c = or(c, le(frontier, i))
	}
	return ite(c, sel2(nw, i), sel2(old, i))
}

func spliceT(row, at, n, src, so *Term) *Term {
	if n == tZero {
		return row
	}
	return mk("splice", row.sort, row, at, n, src, so)
}

func store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, a, i, v)
}

func constArr(s Sort, v *Term) *Term { return mk("constarr", s, v) }

// ---- Val datatype ----

var ctorFields = map[string][]string{
	"vnil":   {},
	"vbool":  {"vbt", "vb"},
	"vint":   {"vit", "vi"},
	"vstr":   {"vst", "vs"},
	"vflt":   {"vft", "vf"},
	"vslice": {"vlt", "vlr", "vlo", "vll", "vlc"},
	"vref":   {"vrt", "vr"},
	"vopq":   {"vot", "vo"},
}
var ctorOrder = []string{"vnil", "vbool", "vint", "vstr", "vflt", "vslice", "vref", "vopq"}
var fieldSort = map[string]Sort{"vbt": SInt, "vb": SBool, "vit": SInt, "vi": SInt, "vst": SInt, "vs": SStr, "vft": SInt, "vf": SFlt,
	"vlt": SInt, "vlr": SInt, "vlo": SInt, "vll": SInt, "vlc": SInt, "vrt": SInt, "vr": SInt, "vot": SInt, "vo": SInt}
var fieldOf = map[string][2]interface{}{}

func init() {
	for c, fs := range ctorFields {
		for i, f := range fs {
			fieldOf[f] = [2]interface{}{c, i}
		}
	}
}

func ctor(name string, args ...*Term) *Term {
	// eta: ctor(sel1 v, sel2 v ...) is left alone
	return mk(name, SVal, args...)
}

func sel(field string, v *Term) *Term {
	fo := fieldOf[field]
	if v.op == fo[0].(string) {
		return v.args[fo[1].(int)]
	}
	if v.op == "ite" && (isCtor(v.args[1]) || isCtor(v.args[2])) {
		return ite(v.args[0], sel(field, v.args[1]), sel(field, v.args[2]))
	}
	return mkN("sel", field, fieldSort[field], v)
}

func tester(c string, v *Term) *Term {
	if isCtor(v) {
		return boolT(v.op == c)
	}
	if v.op == "ite" {
		return ite(v.args[0], tester(c, v.args[1]), tester(c, v.args[2]))
	}
	return mkN("is", c, SBool, v)
}

// tagOf is the dynamic type number of an interface value (0 for nil).
func tagOf(v *Term) *Term {
	if isCtor(v) {
		if v.op == "vnil" {
			return tZero
		}
		return v.args[0]
	}
	return mk("tagof", SInt, v)
}

// ---- strings ----

func strLen(s *Term) *Term {
	switch s.op {
	case "str":
		return intT(int64(len(s.str)))
	case "str.++":
		r := tZero
		for _, a := range s.args {
			r = addT(r, strLen(a))
		}
		return r
	}
	return mk("str.len", SInt, s)
}

func strCat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		var l []*Term
		if t.op == "str.++" {
			l = t.args
		} else {
			l = []*Term{t}
		}
		for _, t := range l {
			if t.op == "str" && t.str == "" {
				continue
			}
			if t.op == "str" && len(out) > 0 && out[len(out)-1].op == "str" {
				out[len(out)-1] = strT(out[len(out)-1].str + t.str)
				continue
			}
			out = append(out, t)
		}
	}
	switch len(out) {
	case 0:
		return strT("")
	case 1:
		return out[0]
	}
	return mk("str.++", SStr, out...)
}

func strSub(s, off, n *Term) *Term {
	if s.op == "str" && isInt(off) && isInt(n) {
		o, l := int(off.num.Int64()), int(n.num.Int64())
		if o >= 0 && l >= 0 && o+l <= len(s.str) {
			return strT(s.str[o : o+l])
		}
	}
	if off == tZero && n == strLen(s) {
		return s
	}
	return mk("str.substr", SStr, s, off, n)
}

// ---- quantifiers ----

func forall(vars []*Term, body *Term, pats ...*Term) *Term { return quant("forall", vars, body, pats) }
func exists(vars []*Term, body *Term) *Term                { return quant("exists", vars, body, nil) }

func quant(q string, vars []*Term, body *Term, pats []*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	used := freeBound(body)
	var vs []*Term
	for _, v := range vars {
		if used[v.id] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	args := append([]*Term{body}, vs...)
	name := ""
	for _, p := range pats {
		name += fmt.Sprintf("p%d ", p.id)
	}
	t := mkN(q, name, SBool, args...)
	t.binder = vs
	t.pats = pats
	t.bound = false
	t.seq = body.seq
	fb := freeBound(t)
	t.bound = len(fb) > 0
	if !t.bound {
		t.seq = symSeq
	}
	return t
}

var fbCache = map[int]map[int]bool{}

func freeBound(t *Term) map[int]bool {
	if !t.bound && t.op != "forall" && t.op != "exists" {
		return nil
	}
	if r, ok := fbCache[t.id]; ok {
		return r
	}
	r := map[int]bool{}
	if t.op == "bound" {
		r[t.id] = true
	}
	for _, a := range t.args {
		for k := range freeBound(a) {
			r[k] = true
		}
	}
	if t.op == "forall" || t.op == "exists" {
		for _, v := range t.binder {
			delete(r, v.id)
		}
	}
	fbCache[t.id] = r
	return r
}

// subst replaces terms by terms, rebuilding with simplification.
func subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := cache[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		same := true
		for i, a := range t.args {
			as[i] = rec(a)
			same = same && as[i] == a
		}
		r := t
		if !same {
			var ps []*Term
			for _, p := range t.pats {
				ps = append(ps, rec(p))
			}
			r = rebuild(t, as, ps)
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as, pats []*Term) *Term {
	switch t.op {
	case "not":
		return not(as[0])
	case "and":
		return and(as...)
	case "or":
		return or(as...)
	case "ite":
		return ite(as[0], as[1], as[2])
	case "+":
		r := tZero
		for _, a := range as {
			r = addT(r, a)
		}
		return r
	case "*":
		return mulT(as[0], as[1])
	case "div":
		return divT(as[0], as[1])
	case "mod":
		return modT(as[0], as[1])
	case "<":
		return lt(as[0], as[1])
	case "<=":
		return le(as[0], as[1])
	case "=":
		return eq(as[0], as[1])
	case "select":
		return sel2(as[0], as[1])
	case "store":
		return store(as[0], as[1], as[2])
	case "sel":
		return sel(t.name, as[0])
	case "is":
		return tester(t.name, as[0])
	case "tagof":
		return tagOf(as[0])
	case "splice":
		return spliceT(as[0], as[1], as[2], as[3], as[4])
	case "str.len":
		return strLen(as[0])
	case "str.++":
		return strCat(as...)
	case "str.substr":
		return strSub(as[0], as[1], as[2])
	case "uf":
		return uf(t.name, t.sort, as...)
	case "forall", "exists":
		return quant(t.op, as[1:], as[0], pats)
	}
	return mkN(t.op, t.name, t.sort, as...)
}

// ---- printing ----

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c >= 32 && c < 127 && c != '\\':
			b.WriteByte(c)
		default:
			fmt.Fprintf(&b, `\u{%x}`, c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func quoteSym(s string) string { return "|" + s + "|" }

func show(t *Term) string {
	s := printTerm(t, false, nil)
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}

// printTerm prints t as SMT-LIB; ref returns the name of an already defined term or "".
func printTerm(t *Term, abs bool, ref func(*Term) string) string {
	var b strings.Builder
	var rec func(t *Term, top bool)
	rec = func(t *Term, top bool) {
		if !top && ref != nil {
			if n := ref(t); n != "" {
				b.WriteString(n)
				return
			}
		}
		switch t.op {
		case "int":
			if t.num.Sign() < 0 {
				fmt.Fprintf(&b, "(- %s)", new(big.Int).Neg(t.num))
			} else {
				b.WriteString(t.num.String())
			}
			return
		case "str":
			b.WriteString(strLitText(t, abs))
			return
		case "sym", "bound":
			b.WriteString(quoteSym(t.name))
			return
		case "true", "false", "vnil":
			b.WriteString(t.op)
			return
		case "fltlit":
			b.WriteString(t.name)
			return
		case "forall", "exists":
			fmt.Fprintf(&b, "(%s (", t.op)
			for _, v := range t.binder {
				fmt.Fprintf(&b, "(%s %s)", quoteSym(v.name), sortText(v.sort, abs))
			}
			b.WriteString(") ")
			if len(t.pats) > 0 {
				b.WriteString("(! ")
			}
			rec(t.args[0], false)
			if len(t.pats) > 0 {
				for _, p := range t.pats {
					b.WriteString(" :pattern (")
					if p.op == "multipat" {
						for i, q := range p.args {
							if i > 0 {
								b.WriteByte(' ')
							}
							rec(q, false)
						}
					} else {
						rec(p, false)
					}
					b.WriteString(")")
				}
				b.WriteString(")")
			}
			b.WriteString(")")
			return
		case "constarr":
			fmt.Fprintf(&b, "((as const %s) ", sortText(t.sort, abs))
			rec(t.args[0], false)
			b.WriteString(")")
			return
		case "is":
			fmt.Fprintf(&b, "((_ is %s) ", t.name)
			rec(t.args[0], false)
			b.WriteString(")")
			return
		}
		head := t.op
		switch t.op {
		case "frame", "splice":
			panic(unsupported{"an array described by parts reached the solver"})
		case "uf":
			head = quoteSym(t.name)
			if len(t.args) == 0 {
				b.WriteString(head)
				return
			}
		case "sel":
			head = t.name
		}
		if o := opText(t, abs); o != "" {
			head = o
		}
		b.WriteString("(" + head)
		for _, a := range t.args {
			b.WriteByte(' ')
			rec(a, false)
		}
		b.WriteString(")")
	}
	rec(t, true)
	return b.String()
}

func strLitText(t *Term, abs bool) string {
	if abs {
		return quoteSym("lit:" + hexName(t.str))
	}
	return smtStr(t.str)
}

func hexName(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "$%02x", c)
		}
	}
	return b.String()
}

func opText(t *Term, abs bool) string {
	if abs && strings.HasPrefix(t.op, "str.") {
		return quoteSym(fmt.Sprintf("a.%s.%d", t.op, len(t.args)))
	}
	return ""
}

func sortText(s Sort, abs bool) string {
	if abs {
		return strings.ReplaceAll(s, "String", "Str")
	}
	return s
}
