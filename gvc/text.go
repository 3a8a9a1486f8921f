package main

import (
	"fmt"
	"strings"
)

// textMode adds a theory of texts to the abstract sort: parts, bytes, concatenation and searches, enough to
// reason on where the parts of a text lie. A specification asks for it with the option strings=text.
var textMode bool

const textAxioms = `
(declare-fun |text.empty| () Str)
(assert (= (|a.str.len.1| |text.empty|) 0))
(assert (forall ((s Str)) (! (=> (= (|a.str.len.1| s) 0) (= s |text.empty|)) :pattern ((|a.str.len.1| s)))))
(assert (forall ((s Str) (o Int) (n Int)) (! (=> (and (<= 0 o) (<= 0 n) (<= (+ o n) (|a.str.len.1| s))) (= (|a.str.len.1| (|a.str.substr.3| s o n)) n)) :pattern ((|a.str.substr.3| s o n)))))
(assert (forall ((s Str) (n Int)) (! (=> (= n (|a.str.len.1| s)) (= (|a.str.substr.3| s 0 n) s)) :pattern ((|a.str.substr.3| s 0 n)))))
(assert (forall ((s Str) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 o) (<= 0 i) (< i n) (<= (+ o n) (|a.str.len.1| s))) (= (|a.str.at.2| (|a.str.substr.3| s o n) i) (|a.str.at.2| s (+ o i)))) :pattern ((|a.str.at.2| (|a.str.substr.3| s o n) i)))))
(assert (forall ((s Str) (o Int) (n Int) (p Int) (m Int)) (! (=> (and (<= 0 o) (<= 0 p) (<= 0 m) (<= (+ p m) n) (<= (+ o n) (|a.str.len.1| s))) (= (|a.str.substr.3| (|a.str.substr.3| s o n) p m) (|a.str.substr.3| s (+ o p) m))) :pattern ((|a.str.substr.3| (|a.str.substr.3| s o n) p m)))))
(assert (forall ((s Str) (t Str)) (! (and (= (|a.str.substr.3| (|a.str.++.2| s t) 0 (|a.str.len.1| s)) s) (= (|a.str.substr.3| (|a.str.++.2| s t) (|a.str.len.1| s) (|a.str.len.1| t)) t)) :pattern ((|a.str.++.2| s t)))))
(assert (forall ((s Str)) (! (= (|a.str.++.2| s |text.empty|) s) :pattern ((|a.str.++.2| s |text.empty|)))))
(assert (forall ((s Str)) (! (= (|a.str.++.2| |text.empty| s) s) :pattern ((|a.str.++.2| |text.empty| s)))))
(assert (forall ((s Str) (t Str) (u Str)) (! (= (|a.str.++.2| (|a.str.++.2| s t) u) (|a.str.++.2| s (|a.str.++.2| t u))) :pattern ((|a.str.++.2| (|a.str.++.2| s t) u)))))
(assert (forall ((s Str) (o Int) (n Int) (p Int) (m Int)) (! (=> (and (<= 0 o) (<= 0 n) (<= 0 m) (= p (+ o n)) (<= (+ p m) (|a.str.len.1| s))) (= (|a.str.++.2| (|a.str.substr.3| s o n) (|a.str.substr.3| s p m)) (|a.str.substr.3| s o (+ n m)))) :pattern ((|a.str.++.2| (|a.str.substr.3| s o n) (|a.str.substr.3| s p m))))))
(assert (forall ((s Str) (t Str)) (! (and (<= (- 1) (|a.str.indexof.3| s t 0)) (=> (<= 0 (|a.str.indexof.3| s t 0)) (and (<= (+ (|a.str.indexof.3| s t 0) (|a.str.len.1| t)) (|a.str.len.1| s)) (= (|a.str.substr.3| s (|a.str.indexof.3| s t 0) (|a.str.len.1| t)) t)))) :pattern ((|a.str.indexof.3| s t 0)))))
(assert (forall ((s Str) (t Str) (o Int) (n Int)) (! (=> (and (<= 0 o) (<= (+ o n) (|a.str.len.1| s)) (= (|a.str.substr.3| s o n) t) (= n (|a.str.len.1| t))) (and (<= 0 (|a.str.indexof.3| s t 0)) (<= (|a.str.indexof.3| s t 0) o))) :pattern ((|a.str.indexof.3| s t 0) (|a.str.substr.3| s o n)))))
(assert (forall ((s Str) (t Str)) (! (and (<= (- 1) (|a.str.last.2| s t)) (=> (<= 0 (|a.str.last.2| s t)) (and (<= (+ (|a.str.last.2| s t) (|a.str.len.1| t)) (|a.str.len.1| s)) (= (|a.str.substr.3| s (|a.str.last.2| s t) (|a.str.len.1| t)) t)))) :pattern ((|a.str.last.2| s t)))))
(assert (forall ((s Str) (t Str) (o Int) (n Int)) (! (=> (and (<= 0 o) (<= (+ o n) (|a.str.len.1| s)) (= (|a.str.substr.3| s o n) t) (= n (|a.str.len.1| t))) (<= o (|a.str.last.2| s t))) :pattern ((|a.str.last.2| s t) (|a.str.substr.3| s o n)))))
(assert (forall ((s Str) (t Str) (u Str)) (! (=> (= (|a.str.len.1| u) 1) (= (|a.str.contains.2| (|a.str.++.2| s t) u) (or (|a.str.contains.2| s u) (|a.str.contains.2| t u)))) :pattern ((|a.str.contains.2| (|a.str.++.2| s t) u)))))
(assert (forall ((p Str) (s Str)) (! (= (|a.str.prefixof.2| p s) (and (<= (|a.str.len.1| p) (|a.str.len.1| s)) (= (|a.str.substr.3| s 0 (|a.str.len.1| p)) p))) :pattern ((|a.str.prefixof.2| p s)))))
(assert (forall ((p Str) (s Str)) (! (= (|a.str.suffixof.2| p s) (and (<= (|a.str.len.1| p) (|a.str.len.1| s)) (= (|a.str.substr.3| s (- (|a.str.len.1| s) (|a.str.len.1| p)) (|a.str.len.1| p)) p))) :pattern ((|a.str.suffixof.2| p s)))))
`

func textPrelude() string {
	if !textMode {
		return ""
	}
	var b strings.Builder
	b.WriteString(textAxioms)
	for n := 3; n <= 8; n++ {
		var vs, as []string
		for i := 0; i < n; i++ {
			vs = append(vs, fmt.Sprintf("(s%d Str)", i))
			as = append(as, fmt.Sprintf("s%d", i))
		}
		r := as[n-1]
		for i := n - 2; i >= 0; i-- {
			r = fmt.Sprintf("(|a.str.++.2| %s %s)", as[i], r)
		}
		l := fmt.Sprintf("(|a.str.++.%d| %s)", n, strings.Join(as, " "))
		fmt.Fprintf(&b, "(assert (forall (%s) (! (= %s %s) :pattern (%s))))\n", strings.Join(vs, " "), l, r, l)
	}
	return b.String()
}

// newTexts is a new slice of texts holding the given ones.
func (x *Exec) newTexts(st *State, n *Term, row *Term) *SliceV {
	r := x.newRef(st, "texts")
	k, h := x.elemHeap(st, stringType, leaf{"", SStr})
	st.heaps[k] = store(h, r, row)
	return &SliceV{r, tZero, n, n, stringType}
}

func (x *Exec) textRow(st *State, s *SliceV) *Term {
	_, h := x.elemHeap(st, s.elem, leaf{"", SStr})
	return sel2(h, s.ref)
}

// joined is strings.Join of a slice.
func (x *Exec) joined(st *State, s *SliceV, sep *Term) *Term {
	row := x.textRow(st, s)
	r := uf("strings.Join", SStr, row, s.off, s.len, sep)
	if !r.bound {
		st.fact(implies(eq(s.len, tZero), eq(r, strT(""))))
		st.fact(implies(eq(s.len, tOne), eq(r, sel2(row, s.off))))
	}
	return r
}

// ascii: only single byte characters, which never merge with what is around them.
func ascii(t *Term) bool {
	if t.op == "uf" && t.name == "strings.Repeat" {
		t = t.args[0]
	}
	if t.op != "str" {
		return false
	}
	for i := 0; i < len(t.str); i++ {
		if t.str[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (x *Exec) runeCount(st *State, t *Term) *Term {
	if ascii(t) {
		return strLen(t)
	}
	if t.op == "str.++" {
		a := t.args
		switch n := len(a); {
		case ascii(a[0]):
			return addT(strLen(a[0]), x.runeCount(st, strCat(a[1:]...)))
		case ascii(a[n-1]):
			return addT(x.runeCount(st, strCat(a[:n-1]...)), strLen(a[n-1]))
		}
	}
	r := uf("runecount", SInt, t)
	if !r.bound {
		st.fact(and(le(tZero, r), le(r, strLen(t))))
	}
	return r
}

var textModels = map[string]model{
	"strings.LastIndex": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		s, t := args[0].(*Term), args[1].(*Term)
		r := mk("str.last", SInt, s, t)
		if !r.bound {
			st.fact(and(le(intT(-1), r), implies(le(tZero, r), le(addT(r, strLen(t)), strLen(s)))))
		}
		k(st, r, nil)
	},
	"strings.ContainsRune": pureUF("strings.ContainsRune", SBool),
	"strings.ContainsAny":  pureUF("strings.ContainsAny", SBool),
	"strings.IndexByte":    pureUF("strings.IndexByte", SInt),
	"unicode.IsPunct":      pureUF("unicode.IsPunct", SBool),
	"strings.Join": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		s := sliceOf(args[0])
		if s == nil {
			unsup("strings.Join of %T", args[0])
		}
		k(st, x.joined(st, s, args[1].(*Term)), nil)
	},
	// Split: at least one part, the texts between the separators; what Join puts together again
	"strings.Split": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		s, sep := args[0].(*Term), args[1].(*Term)
		if s.bound || sep.bound {
			unsup("strings.Split under a quantifier")
		}
		row, n := uf("strings.Split", arr(SInt, SStr), s, sep), uf("strings.Split.n", SInt, s, sep)
		st.fact(and(le(tZero, n), le(n, addT(strLen(s), tOne)), le(n, bigT(maxLen)), implies(lt(tZero, strLen(sep)), le(tOne, n))))
		out := x.newTexts(st, n, row)
		if s.op == "uf" && s.name == "strings.Join" && s.args[3] == sep {
			// cutting again what was joined, when no part holds the separator
			from, off, cnt := s.args[0], s.args[1], s.args[2]
			j := boundVar("i", SInt)
			free := forall([]*Term{j}, implies(and(le(tZero, j), lt(j, cnt)), not(mk("str.contains", SBool, sel2(from, addT(off, j)), sep))))
			same := forall([]*Term{j}, implies(and(le(tZero, j), lt(j, n)), eq(sel2(row, j), sel2(from, addT(off, j)))))
			st.fact(implies(and(lt(tZero, strLen(sep)), lt(tZero, cnt), free), and(eq(n, cnt), same)))
		}
		st.fact(eq(x.joined(st, out, sep), s))
		i := boundVar("i", SInt)
		st.fact(forall([]*Term{i}, implies(and(le(tZero, i), lt(i, n), lt(tZero, strLen(sep))), not(mk("str.contains", SBool, sel2(row, i), sep))), sel2(row, i)))
		k(st, out, nil)
	},
	// SplitN in two: the text cut at the first separator
	"strings.SplitN": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		s, sep, n := args[0].(*Term), args[1].(*Term), args[2].(*Term)
		if !isInt(n) || n.num.Int64() != 2 || s.bound || sep.bound {
			unsup("strings.SplitN in %s", n)
		}
		i := x.strIndex(st, s, sep)
		row, cnt := sym("splitn", arr(SInt, SStr)), sym("splitn.n", SInt)
		rest := addT(i, strLen(sep))
		st.fact(and(le(tZero, cnt), le(cnt, intT(2))))
		st.fact(implies(lt(tZero, strLen(sep)), and(
			eq(cnt, ite(lt(i, tZero), tOne, intT(2))),
			eq(sel2(row, tZero), ite(lt(i, tZero), s, strSub(s, tZero, i))),
			implies(le(tZero, i), eq(sel2(row, tOne), strSub(s, rest, subT(strLen(s), rest)))))))
		k(st, x.newTexts(st, cnt, row), nil)
	},
	"unicode/utf8.RuneCountInString": simpleT(func(x *Exec, st *State, a []*Term) *Term { return x.runeCount(st, a[0]) }),
}
