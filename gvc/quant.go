package main

import (
	"crypto/sha256"
	"fmt"
	"sort"
	"strings"
)

// Quantifiers over positions are restated, before they reach a solver, once per array they
// read: the bound variable becomes the position in that array, so that the array read is a
// usable trigger. The restatements are equivalent to the original formula.

var qpCache = map[[3]int]*Term{}

// newestQ keeps only the restatement over the latest array, for fewer triggers.
var newestQ bool

func expandQ(t *Term) *Term {
	if !hasQuant(t) {
		return t
	}
	return expandPol(t, true)
}

func expandPol(t *Term, pos bool) *Term {
	if !hasQuant(t) {
		return t
	}
	key := [3]int{t.id, boolInt(pos), boolInt(newestQ)}
	if r, ok := qpCache[key]; ok {
		return r
	}
	r := t
	switch t.op {
	case "not":
		r = not(expandPol(t.args[0], !pos))
	case "and", "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = expandPol(a, pos)
		}
		if t.op == "and" {
			r = and(as...)
		} else {
			r = or(as...)
		}
	case "=":
		if a, b := t.args[0], t.args[1]; a.sort == SBool {
			r = expandPol(and(or(not(a), b), or(a, not(b))), pos)
		}
	case "ite":
		if t.sort != SBool {
			break
		}
		if c := t.args[0]; hasQuant(c) {
			r = expandPol(and(or(not(c), t.args[1]), or(c, t.args[2])), pos)
		} else {
			r = ite(c, expandPol(t.args[1], pos), expandPol(t.args[2], pos))
		}
	case "forall", "exists":
		body := expandPol(t.args[0], pos)
		if (t.op == "forall") == pos && len(t.pats) == 0 {
			r = restate(t, body)
		} else if body != t.args[0] {
			r = quant(t.op, t.binder, body, t.pats)
		}
	}
	qpCache[key] = r
	return r
}

type readAt struct {
	row, off *Term
	neg      bool
}

func restate(t *Term, body *Term) *Term {
	if len(t.binder) != 1 {
		return quant(t.op, t.binder, body, t.pats)
	}
	v := t.binder[0]
	var reads []readAt
	seen := map[int]bool{}
	dup := map[string]bool{}
	var cnt *Term // positions that are counted: the array reads at those counts would be triggers without end
	deep := false
	var walk func(a *Term)
	walk = func(a *Term) {
		if seen[a.id] || !a.bound {
			return
		}
		seen[a.id] = true
		if a.op == "uf" && strings.HasPrefix(a.name, "count.") && a.args[0] == v {
			cnt = a
		}
		if (a.op == "forall" || a.op == "exists") && !deep {
			return
		}
		if a.op == "select" {
			row, idx := a.args[0], a.args[1]
			if !freeBound(row)[v.id] && !otherBound(row, t) {
				if v.sort == SInt {
					d := subT(idx, v)
					n := addT(idx, v)
					if !freeBound(d)[v.id] && !otherBound(d, t) {
						k := fmt.Sprintf("%d/%d", row.id, d.id)
						if !dup[k] {
							dup[k] = true
							reads = append(reads, readAt{row, d, false})
						}
					} else if !freeBound(n)[v.id] && !otherBound(n, t) {
						k := fmt.Sprintf("-%d/%d", row.id, n.id)
						if !dup[k] {
							dup[k] = true
							reads = append(reads, readAt{row, n, true})
						}
					}
				} else if idx == v {
					k := fmt.Sprintf("%d", row.id)
					if !dup[k] {
						dup[k] = true
						reads = append(reads, readAt{row, tZero, false})
					}
				}
			}
		}
		for _, b := range a.args {
			walk(b)
		}
	}
	walk(body)
	if cnt == nil && len(reads) == 0 {
		deep, seen = true, map[int]bool{}
		walk(body)
	}
	if cnt != nil {
		return quant(t.op, t.binder, body, []*Term{cnt})
	}
	if len(reads) == 0 || len(reads) > 24 {
		return quant(t.op, t.binder, body, t.pats)
	}
	if newestQ {
		last := reads[0]
		for _, r := range reads {
			if r.row.seq > last.row.seq {
				last = r
			}
		}
		reads = []readAt{last}
	}
	var out []*Term
	for _, r := range reads {
		j := boundVar("j", v.sort)
		b2 := body
		if v.sort == SInt {
			at := subT(j, r.off)
			if r.neg {
				at = subT(r.off, j)
			}
			b2 = subst(body, map[*Term]*Term{v: at})
		} else {
			b2 = subst(body, map[*Term]*Term{v: j})
		}
		row := r.row
		if row.op == "store" || row.op == "ite" {
			rs := fixedSym(fmt.Sprintf("row!%d", row.id), row.sort)
			out = append(out, eq(rs, row))
			row = rs
		} else if row.op == "constarr" {
			continue
		}
		_, vs := arrParts(row.sort)
		pat := mk("select", vs, row, j)
		if !mentions(b2, j) {
			continue
		}
		out = append(out, quant(t.op, []*Term{j}, b2, []*Term{pat}))
	}
	if len(out) == 0 {
		return quant(t.op, t.binder, body, t.pats)
	}
	return and(out...)
}

func mentions(t, v *Term) bool { return freeBound(t)[v.id] }

// otherBound: variables bound further out are unusual; such reads are left alone.
func otherBound(a *Term, q *Term) bool { return a.bound && len(freeBound(a)) > 0 }

// alphaKey identifies terms that only differ by the names of their bound variables and
// the order of the arguments of commutative operators.
func alphaKey(t *Term) string {
	names := map[*Term]string{}
	closed := map[int]string{}
	var rec func(t *Term, depth int) string
	rec = func(t *Term, depth int) string {
		if len(t.args) == 0 {
			if n, ok := names[t]; ok {
				return n
			}
			return fmt.Sprintf("#%d", t.id)
		}
		if !t.bound {
			if k, ok := closed[t.id]; ok {
				return k
			}
			depth = 0
		}
		var k string
		if t.op == "forall" || t.op == "exists" {
			sorts := ""
			for i, v := range t.binder {
				names[v] = fmt.Sprintf("@%d.%d", depth, i)
				sorts += fmt.Sprint(v.sort, " ")
			}
			k = fmt.Sprintf("(%s %s%s)", t.op, sorts, rec(t.args[0], depth+1))
			for _, v := range t.binder {
				delete(names, v)
			}
		} else {
			var as []string
			for _, a := range t.args {
				as = append(as, rec(a, depth))
			}
			switch t.op {
			case "=", "and", "or":
				sort.Strings(as)
			}
			k = fmt.Sprintf("(%s|%s %s)", t.op, t.name, strings.Join(as, " "))
		}
		if len(k) > 64 {
			k = fmt.Sprintf("%x", sha256.Sum256([]byte(k)))[:32]
		}
		if !t.bound {
			closed[t.id] = k
		}
		return k
	}
	return rec(t, 0)
}

var alphaIDs = map[string]int{}

func alphaID(t *Term) int {
	k := alphaKey(t)
	if id, ok := alphaIDs[k]; ok {
		return id
	}
	alphaIDs[k] = len(alphaIDs)
	return alphaIDs[k]
}
