package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// setV is a ghost set of map keys handed to a specification closure.
type setV struct{ t *Term }

func isSetType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == rtPath && n.Obj().Name() == "Visited"
}

func (x *Exec) candTimeout(c *cand) time.Duration {
	if c.user {
		return x.opt.proveTimeout
	}
	return x.opt.feasTimeout
}

// specFrame finds the specification frame a call belongs to.
func specFrame(fr *Frame) *Frame {
	for p := fr; p != nil; p = p.caller {
		if p.spec {
			return p
		}
	}
	return nil
}

// oblige records a proof obligation and continues under its truth.
func (x *Exec) oblige(st *State, name, kind string, goal *Term) {
	if x.record > 0 || x.pure > 0 {
		st.fact(goal)
		return
	}
	o := &Obligation{Name: name, Kind: kind, pc: st.pc, goal: goal, trail: st.trailText(), facts: st}
	x.obls = append(x.obls, o)
	x.discharge(o)
	if o.Status == "discharged" {
		st.fact(goal)
		o.pc, o.facts = nil, nil
	} else {
		st.fact(goal)
	}
}

// rtCall executes a function of the specification vocabulary.
func (x *Exec) rtCall(fr *Frame, st *State, name string, f *FuncV, args []Value, call *ssa.CallCommon, site string, k cont) {
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	sf := specFrame(fr)
	assuming := sf != nil && sf.assume != nil
	closure := func(i int) *FuncV {
		c, ok := args[i].(*FuncV)
		if !ok {
			unsup("rt.%s: unknown closure", name)
		}
		return c
	}
	str := func(i int) string {
		t, ok := args[i].(*Term)
		if !ok || t.op != "str" {
			unsup("rt.%s: name not constant", name)
		}
		return t.str
	}
	tm := func(i int) *Term { return args[i].(*Term) }
	switch name {
	case "Requires", "RequiresF":
		var c *Term
		if name == "RequiresF" {
			c = x.pureEval(fr, st, closure(0), nil, nil).(*Term)
		} else {
			c = tm(0)
		}
		if assuming {
			x.oblige(st, "precondition of "+sf.assume.spec.Func+" at "+sf.assume.site, "precondition", c)
		} else {
			st.assume(c)
			if st.dead || !x.feasible(st, tTrue) {
				return
			}
		}
		k(st, nil, nil)
	case "Setup":
		if assuming {
			k(st, nil, nil)
			return
		}
		x.callFn(fr, st, closure(0), nil, site, func(st *State, res, pan Value) { k(st, nil, pan) })
	case "Ensures", "EnsuresF", "Lemma":
		var c *Term
		if name == "EnsuresF" {
			c = x.pureEval(fr, st, closure(1), nil, nil).(*Term)
		} else {
			c = tm(1)
		}
		if assuming {
			if name != "Lemma" {
				st.fact(c)
				sf.assume.learnNewer(st, c)
			}
		} else {
			x.oblige(st, str(0), strings.ToLower(name), c)
		}
		k(st, nil, nil)
	case "Trust":
		x.assumed["trusted: "+str(0)] = true
		st.fact(tm(1))
		k(st, nil, nil)
	case "ForAll", "Exists":
		k(st, x.quantInt(fr, st, name == "ForAll", tm(0), tm(1), closure(2)), nil)
	case "ForAllStr", "ForAllVal", "ExistsStr":
		srt, t := SStr, types.Type(types.Typ[types.String])
		if name == "ForAllVal" {
			srt, t = SVal, types.NewInterfaceType(nil, nil)
		}
		b := sym("q", srt)
		body := x.pureEval(fr, st, closure(0), []Value{x.fromTerms([]*Term{b}, t)}, nil).(*Term)
		v := boundVar("q", srt)
		body = subst(body, map[*Term]*Term{b: v})
		if name == "ExistsStr" {
			k(st, exists([]*Term{v}, body), nil)
		} else {
			k(st, forall([]*Term{v}, body), nil)
		}
	case "And":
		k(st, and(x.boolList(st, args[0])...), nil)
	case "Or":
		k(st, or(x.boolList(st, args[0])...), nil)
	case "Implies":
		k(st, implies(tm(0), tm(1)), nil)
	case "Iff":
		k(st, eq(tm(0), tm(1)), nil)
	case "Ite":
		k(st, x.merge(tm(0), args[1], args[2], f.fn.Signature.Results().At(0).Type()), nil)
	case "Same":
		k(st, eq(x.asVal(args[0]), x.asVal(args[1])), nil)
	case "Comparable":
		v := x.asVal(args[0])
		k(st, not(or(tester("vslice", v), and(or(tester("vref", v), tester("vopq", v)), not(x.comparable(v))))), nil)
	case "SameType":
		k(st, eq(tagOf(x.asVal(args[0])), tagOf(x.asVal(args[1]))), nil)
	case "SamePackage":
		a, b := tagOf(x.asVal(args[0])), tagOf(x.asVal(args[1]))
		k(st, and(not(eq(a, tZero)), not(eq(b, tZero)), eq(x.pkgOf(st, a), x.pkgOf(st, b))), nil)
	case "IsList":
		v := x.asVal(args[0])
		k(st, x.isGenericList(v), nil)
	case "Payload":
		k(st, x.payload(st, args[0]), nil)
	case "PayloadMap":
		switch w := args[0].(type) {
		case *IfaceV:
			k(st, w.v, nil)
		case *Term:
			k(st, sel("vr", w), nil)
		}
	case "Snap":
		s := args[0].(*SliceV)
		r := x.newRef(st, "snap")
		for _, l := range leaves(s.elem) {
			key, h := x.elemHeap(st, s.elem, l)
			st.heaps[key] = store(h, r, sel2(h, s.ref))
		}
		k(st, &SliceV{r, s.off, s.len, s.cap, s.elem}, nil)
	case "SnapMap":
		m := tm(0)
		mt := under(f.fn.Signature.Params().At(0).Type()).(*types.Map)
		r := x.newRef(st, "snap")
		ks, d, vk, c := x.mapParts(mt)
		for _, key := range []struct {
			k string
			s Sort
		}{{d, arr(SInt, arr(ks, SBool))}, {c, arr(SInt, SInt)}} {
			h := x.heap(st, key.k, key.s)
			row, none := sel2(h, m), tZero
			if key.k == d {
				none = constArr(arr(ks, SBool), tFalse)
			}
			st.heaps[key.k] = store(h, r, ite(eq(m, tZero), none, row))
		}
		for _, l := range leaves(mt.Elem()) {
			h := x.heap(st, vk+l.path, arr(SInt, arr(ks, l.sort)))
			st.heaps[vk+l.path] = store(h, r, sel2(h, m))
		}
		k(st, r, nil)
	case "SameMap":
		mt := under(f.fn.Signature.Params().At(0).Type()).(*types.Map)
		k(st, x.sameMap(st, mt, tm(0), tm(1)), nil)
	case "SameAll":
		a, b := args[0].(*SliceV), args[1].(*SliceV)
		k(st, x.sameAll(st, a, b), nil)
	case "SameSlice":
		a, b := args[0].(*SliceV), args[1].(*SliceV)
		k(st, and(eq(a.len, b.len), eq(a.ref, b.ref), eq(a.off, b.off)), nil)
	case "Shares":
		a, b := refOf(args[0]), refOf(args[1])
		k(st, and(eq(a, b), not(eq(a, tZero))), nil)
	case "Fresh":
		r := refOf2(args[0])
		// new since the call of the subject: not even memory of the specification itself
		base := x.specAlloc
		if b, ok := st.ghost["subject.alloc"].(*Term); ok {
			base = b
		} else if x.spec.Contract != "" && (sf == nil || sf.assume == nil) {
			unsup("Fresh before the call of the subject")
		}
		if sf != nil && sf.assume != nil {
			base = st.ghost[fmt.Sprintf("alloc:%d", sf.assume.id)].(*Term)
		}
		c := or(le(base, r), eq(r, tZero))
		if assuming && c.op == "or" {
			sf.assume.newer[c.id] = r
		}
		k(st, c, nil)
	case "Modifies":
		s := args[0].(*SliceV)
		n := int(s.len.num.Int64())
		_, h := x.elemHeap(st, s.elem, leaf{"", SVal})
		var ms []modRef
		if old, ok := st.ghost["mods"].([]modRef); ok {
			ms = old
		}
		for i := 0; i < n; i++ {
			v := sel2(sel2(h, s.ref), intT(int64(i)))
			iv := x.fromVal(v)
			refs := modsOf(iv)
			if t, ok := iv.(*Term); ok && len(refs) == 3 {
				if x.provesQ(st, tester("vslice", t)) {
					refs = refs[:1]
				} else if x.provesQ(st, x.isDictVal(t)) {
					refs = refs[1:2]
				}
			}
			ms = append(ms[:len(ms):len(ms)], refs...)
		}
		st.ghost["mods"] = ms
		k(st, nil, nil)
	case "LoopInv":
		iv, ok := args[0].(*IfaceV)
		if !ok {
			unsup("LoopInv of %T", args[0])
		}
		was := x.loopInvs
		if !assuming { // for the rest of this path
			x.loopInvs = append(was[:len(was):len(was)], iv.v.(*FuncV))
		}
		k(st, nil, nil)
		x.loopInvs = was
	case "Try":
		c := closure(0)
		x.callFn(fr, st, c, nil, site, func(st *State, res, pan Value) {
			if pan != nil {
				st.ghost["caught"] = pan
			}
			k(st, boolT(pan != nil), nil)
		})
	case "Caught":
		v, ok := st.ghost["caught"]
		if !ok {
			v = tNilV
		}
		k(st, v, nil)
	case "MayPanic":
		st.ghost["maypanic"] = tTrue
		k(st, nil, nil)
	case "Skip": // outside the specified domain on this path
		return
	case "Cover":
		x.covered[str(0)] = true
		k(st, nil, nil)
	case "Has":
		s, ok := args[0].(*setV)
		if !ok {
			unsup("Visited.Has of %T", args[0])
		}
		k(st, sel2(s.t, tm(1)), nil)
	case "Len":
		s, ok := args[0].(*setV)
		if !ok {
			unsup("Visited.Len of %T", args[0])
		}
		ks, _ := arrParts(s.t.sort)
		k(st, cardOf(ks, s.t), nil)
	case "FoldInt", "FoldVal", "FoldStr", "FoldBool":
		k(st, x.fold(fr, st, tm(0), args[1], closure(2), f.fn.Signature.Results().At(0).Type()), nil)
	case "Count":
		k(st, x.count(fr, st, tm(0), closure(1)), nil)
	case "UFBool", "UFInt", "UFStr", "UFVal":
		srt := map[string]Sort{"UFBool": SBool, "UFInt": SInt, "UFStr": SStr, "UFVal": SVal}[name]
		var ts []*Term
		s := args[1].(*SliceV)
		n := int(s.len.num.Int64())
		_, h := x.elemHeap(st, s.elem, leaf{"", SVal})
		for i := 0; i < n; i++ {
			ts = append(ts, sel2(sel2(h, s.ref), intT(int64(i))))
		}
		k(st, x.fromTerms([]*Term{uf("spec."+str(0), srt, ts...)}, f.fn.Signature.Results().At(0).Type()), nil)
	case "Sprint":
		k(st, x.sprint(st, args[0]), nil)
	case "Bounded", "Label":
		k(st, nil, nil)
	case "InHeap", "Old":
		unsup("rt.%s", name)
	default:
		if f.fn.Blocks != nil { // helpers written in Go
			x.callFn(fr, st, f, args, site, k)
			return
		}
		unsup("rt.%s", name)
	}
}

// isDictVal: one of the repository's dictionaries.
func (x *Exec) isDictVal(t *Term) *Term {
	p := x.w.allPkgs[modPath+"/collections"]
	if p == nil {
		return tFalse
	}
	d, ok := p.Members["IDictionary"].(*ssa.Type)
	if !ok {
		return tFalse
	}
	var cs []*Term
	for _, T := range x.w.implementers(d.Type()) {
		cs = append(cs, x.isType(t, T))
	}
	return or(cs...)
}

// modsOf: the memory a value refers to, by kind of memory.
func modsOf(v Value) []modRef {
	switch w := v.(type) {
	case *SliceV:
		return []modRef{{"E:", w.ref}}
	case *IfaceV:
		if t, ok := w.v.(*Term); ok {
			switch under(w.typ).(type) {
			case *types.Map:
				return []modRef{{"M", t}}
			}
		}
		return modsOf(w.v)
	case *PtrV:
		if w.ref == nil {
			return nil
		}
		if w.kind == 'e' {
			return []modRef{{"E:", w.ref}}
		}
		return []modRef{{"O:", w.ref}}
	case *Term:
		if w.sort == SVal {
			return []modRef{{"E:", sel("vlr", w)}, {"M", sel("vr", w)}, {"O:", sel("vr", w)}}
		}
		return []modRef{{"", w}}
	}
	return nil
}

func refOf2(v Value) *Term {
	switch w := v.(type) {
	case *SliceV:
		return w.ref
	case *IfaceV:
		return refOf2(w.v)
	case *PtrV:
		return w.ref
	case *Term:
		switch w.sort {
		case SVal:
			return ite(tester("vslice", w), sel("vlr", w), sel("vr", w))
		case SInt:
			return w
		}
	}
	return nil
}

func (x *Exec) boolList(st *State, v Value) []*Term {
	s := v.(*SliceV)
	if !isInt(s.len) {
		unsup("boolean list of unknown length")
	}
	_, h := x.elemHeap(st, s.elem, leaf{"", SBool})
	var out []*Term
	for i := int64(0); i < s.len.num.Int64(); i++ {
		out = append(out, sel2(sel2(h, s.ref), addT(s.off, intT(i))))
	}
	return out
}

func (x *Exec) merge(c *Term, a, b Value, t types.Type) Value {
	ta, tb := x.toTerms(a, t), x.toTerms(b, t)
	var r []*Term
	for i := range ta {
		r = append(r, ite(c, ta[i], tb[i]))
	}
	return x.fromTerms(r, t)
}

// payload: the elements of a list value.
func (x *Exec) payload(st *State, v Value) Value {
	it := types.NewInterfaceType(nil, nil)
	if s := sliceOf(v); s != nil {
		return s
	}
	t := x.asVal(v)
	ts := []*Term{sel("vlr", t), sel("vlo", t), sel("vll", t), sel("vlc", t)}
	return x.norm(st, &SliceV{ts[0], ts[1], ts[2], ts[3], it})
}

func (x *Exec) isGenericList(v *Term) *Term {
	for _, t := range treg.list {
		_ = t
	}
	return tester("vslice", v)
}

func (x *Exec) sameAll(st *State, a, b *SliceV) *Term {
	i := boundVar("i", SInt)
	r := eq(a.len, b.len)
	var eqs []*Term
	for _, l := range leaves(a.elem) {
		_, h := x.elemHeap(st, a.elem, l)
		eqs = append(eqs, eq(sel2(sel2(h, a.ref), addT(a.off, i)), sel2(sel2(h, b.ref), addT(b.off, i))))
	}
	return and(r, forall([]*Term{i}, implies(and(le(tZero, i), lt(i, a.len)), and(eqs...))))
}

func (x *Exec) sameMap(st *State, mt *types.Map, a, b *Term) *Term {
	ks, _, vk, _ := x.mapParts(mt)
	q := boundVar("k", ks)
	da, db := x.mapDom(st, mt, a), x.mapDom(st, mt, b)
	ha, hb := and(not(eq(a, tZero)), sel2(da, q)), and(not(eq(b, tZero)), sel2(db, q))
	var eqs []*Term
	for _, l := range leaves(mt.Elem()) {
		h := x.heap(st, vk+l.path, arr(SInt, arr(ks, l.sort)))
		eqs = append(eqs, eq(sel2(sel2(h, a), q), sel2(sel2(h, b), q)))
	}
	return forall([]*Term{q}, and(eq(ha, hb), implies(ha, and(eqs...))))
}

func (x *Exec) quantInt(fr *Frame, st *State, all bool, lo, hi *Term, f *FuncV) *Term {
	if isInt(lo) && isInt(hi) {
		n := subT(hi, lo).num.Int64()
		if n <= 0 {
			return boolT(all)
		}
		if n <= 4 {
			var out []*Term
			for i := int64(0); i < n; i++ {
				out = append(out, x.pureEval(fr, st, f, []Value{addT(lo, intT(i))}, nil).(*Term))
			}
			if all {
				return and(out...)
			}
			return or(out...)
		}
	}
	i := sym("i", SInt)
	rng := and(le(lo, i), lt(i, hi))
	body := x.pureEval(fr, st, f, []Value{i}, rng).(*Term)
	v := boundVar("i", SInt)
	body = subst(body, map[*Term]*Term{i: v})
	rng = and(le(lo, v), lt(v, hi))
	if all {
		return forall([]*Term{v}, implies(rng, body))
	}
	return exists([]*Term{v}, and(rng, body))
}

// pureEval evaluates a specification closure as one value: the paths are merged, a path that panics is false.
func (x *Exec) pureEval(fr *Frame, st *State, f *FuncV, args []Value, assume *Term) Value {
	type end struct {
		cond *Term
		v    Value
	}
	var ends []end
	s2 := st.fork()
	b0, pc0 := s2.branch, s2.pc
	var learnt []*Term
	named := map[*Term]bool{} // conditions with quantifiers are stated once and referred to by a name
	if assume != nil {
		s2.fact(assume)
	}
	x.pure++
	x.record++
	rt := f.fn.Signature.Results().At(0).Type()
	x.callFn(fr, s2, f, args, "spec", func(s *State, res, pan Value) {
		var cs []*Term
		for n := s.branch; n != b0 && n != nil; n = n.parent {
			cs = append(cs, n.t)
		}
		for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
			cs[i], cs[j] = cs[j], cs[i]
		}
		if pan != nil {
			res = nil
		}
		c := and(cs...)
		if assume == nil { // what is known of the functions met stays known
			br := map[int]bool{}
			for n := s.branch; n != b0 && n != nil; n = n.parent {
				br[n.t.id] = true
			}
			guard := func() *Term {
				if !hasQuant(c) || c.bound {
					return c
				}
				g := fixedSym(fmt.Sprintf("guard!%d", c.id), SBool)
				if !named[g] {
					named[g] = true
					learnt = append(learnt, implies(c, g))
				}
				return g
			}
			for n := s.pc; n != pc0 && n != nil; n = n.parent {
				if x.global[n.t.id] {
					learnt = append(learnt, n.t)
				} else if !br[n.t.id] && !n.t.bound && n.t != tFalse {
					learnt = append(learnt, implies(guard(), n.t))
				}
			}
		}
		ends = append(ends, end{c, res})
	})
	for _, t := range learnt {
		st.fact(t)
	}
	x.pure--
	x.record--
	var r Value
	for i := len(ends) - 1; i >= 0; i-- {
		e := ends[i]
		if e.v == nil {
			if b, ok := under(rt).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				e.v = tFalse
			} else {
				continue
			}
		}
		if r == nil {
			r = e.v
			continue
		}
		r = x.merge(e.cond, e.v, r, rt)
	}
	if r == nil {
		if b, ok := under(rt).(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return tFalse
		}
		unsup("specification function without value")
	}
	return r
}

func (x *Exec) pureCall(fr *Frame, st *State, f *FuncV, args []Value) Value {
	return x.pureEval(fr, st, f, args, nil)
}

// opaqueCall applies a specification function that solvers see as a symbol with a definition.
// Functions that read the heap have no such definition.
func (x *Exec) opaqueCall(fr *Frame, st *State, f *FuncV, args []Value) Value {
	sig := f.fn.Signature
	rtyp := sig.Results().At(0).Type()
	rl := leaves(rtyp)
	if len(rl) != 1 {
		return nil
	}
	var flat []*Term
	for i, a := range args {
		flat = append(flat, x.toTerms(a, sig.Params().At(i).Type())...)
	}
	name := cleanName("opq." + f.fn.Pkg.Pkg.Name() + "." + f.fn.Name())
	if ufs[name] == nil {
		if x.opaqueNot[name] {
			return nil
		}
		var syms []*Term
		var vals []Value
		for i := 0; i < sig.Params().Len(); i++ {
			var ts []*Term
			for _, l := range leaves(sig.Params().At(i).Type()) {
				ts = append(ts, sym("opq", l.sort))
			}
			syms = append(syms, ts...)
			vals = append(vals, x.fromTerms(ts, sig.Params().At(i).Type()))
		}
		last := symSeq
		first := syms[0].seq
		// The definition is that of the function on its own: nothing known here may shape it.
		clean := &State{heaps: map[string]*Term{}, facts: map[int]bool{}, refine: map[int]types.Type{}, ghost: map[string]Value{}, alloc: st.alloc}
		body := x.toTerms(x.pureEval(fr, clean, f, vals, nil), rtyp)[0]
		if body == tFalse || body == tTrue {
			unsup("specification function %s without definition", name)
		}
		var known []*Term
		for n := clean.pc; n != nil; n = n.parent {
			known = append(known, n.t)
		}
		if os.Getenv("GVC_OPQ") != "" {
			fmt.Println("opaque", name, clipTo(show(body), 600))
		}
		m := map[*Term]*Term{}
		var vs []*Term
		for _, s := range syms {
			v := boundVar("o", s.sort)
			m[s] = v
			vs = append(vs, v)
		}
		closed := body.seq <= last
		symsIn(body, func(s *Term) { closed = closed && (s.seq >= first && s.seq <= last) })
		if !closed {
			x.opaqueNot[name] = true
			return nil
		}
		app := uf(name, rl[0].sort, vs...)
		// sealed: this specification needs no definition, or none of the functions named
		if s, ok := x.spec.Opts["sealed"]; !ok || s != "1" && !strings.Contains("|"+s+"|", "|"+f.fn.Name()+"|") {
			ufs[name].def = forall(vs, eq(app, subst(body, m)), app)
		}
		ufs[name].params, ufs[name].body = vs, subst(body, m)
		for _, t := range known { // true of all arguments
			ok := !t.bound && t.seq <= last
			symsIn(t, func(s *Term) { ok = ok && s.seq >= first && s.seq <= last })
			if ok {
				ufs[name].known = append(ufs[name].known, subst(t, m))
			}
		}
	}
	d := ufs[name]
	m := map[*Term]*Term{}
	for i, v := range d.params {
		m[v] = flat[i]
	}
	if b := subst(d.body, m); b == tTrue || b == tFalse {
		return b
	}
	app := uf(name, rl[0].sort, flat...)
	if !app.bound {
		for _, t := range d.known {
			st.fact(subst(t, m))
		}
	}
	return x.fromTerms([]*Term{app}, rtyp)
}

// namedCall applies a specification predicate over collections, which reads the heap as it stands: the formula it stands
// for becomes a symbol of its own, whose arguments are those of the predicate that are single values.
func (x *Exec) namedCall(fr *Frame, st *State, f *FuncV, args []Value) Value {
	sig := f.fn.Signature
	if rl := leaves(sig.Results().At(0).Type()); len(rl) != 1 || rl[0].sort != SBool {
		return nil
	}
	var syms, vs, flat []*Term
	vals := append([]Value(nil), args...)
	for i, a := range args {
		pt := sig.Params().At(i).Type()
		ls := leaves(pt)
		t, ok := a.(*Term)
		if !ok && isIface(pt) {
			t, ok = x.toTerms(a, pt)[0], true
		}
		if !ok || len(ls) != 1 || isSlice(pt) {
			continue
		}
		q := sym("arg", ls[0].sort)
		syms, vs, flat = append(syms, q), append(vs, boundVar("o", ls[0].sort)), append(flat, t)
		vals[i] = x.fromTerms([]*Term{q}, pt)
	}
	if len(syms) == 0 {
		return nil
	}
	last := symSeq
	body, ok := x.pureEval(fr, st, f, vals, nil).(*Term)
	if !ok || !hasQuant(body) {
		return nil
	}
	// symbols made on the way would have to be the same for all arguments
	closed := true
	symsIn(body, func(s *Term) { closed = closed && s.seq <= last })
	if !closed {
		return nil
	}
	m := map[*Term]*Term{}
	for i, s := range syms {
		m[s] = vs[i]
	}
	body = subst(body, m)
	name := cleanName(fmt.Sprintf("named.%s.%d", f.fn.Name(), alphaID(quant("forall", vs, body, nil))))
	app := uf(name, SBool, vs...)
	if ufs[name].def == nil {
		ufs[name].def = forall(vs, eq(app, body), app)
	}
	return uf(name, SBool, flat...)
}

func symsIn(t *Term, f func(*Term)) {
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == "sym" {
			f(t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
}

// fold is the value of folding f over 0..n-1; the recursion is unfolded around n.
func (x *Exec) fold(fr *Frame, st *State, n *Term, init Value, f *FuncV, rt types.Type) Value {
	srt := leaves(rt)[0].sort
	i, acc := sym("i", SInt), sym("acc", srt)
	bodyV := x.pureEval(fr, st, f, []Value{i, x.fromTerms([]*Term{acc}, rt)}, le(tZero, i))
	body := x.toTerms(bodyV, rt)[0]
	it := x.toTerms(init, rt)[0]
	norm := subst(body, map[*Term]*Term{i: fixedSym("fold.i", SInt), acc: fixedSym("fold.acc", srt)})
	name := fmt.Sprintf("fold.%d.%d", alphaID(norm), it.id)
	fn := func(t *Term) *Term { return uf(name, srt, t) }
	step := func(t *Term) *Term { return subst(body, map[*Term]*Term{i: t, acc: fn(t)}) }
	r := fn(n)
	if !n.bound {
		st.fact(eq(fn(tZero), it))
		st.fact(implies(lt(tZero, n), eq(r, step(subT(n, tOne)))))
		st.fact(implies(le(tZero, n), eq(fn(addT(n, tOne)), step(n))))
	}
	return x.fromTerms([]*Term{r}, rt)
}

// count is the number of i in 0..n-1 for which f holds.
func (x *Exec) count(fr *Frame, st *State, n *Term, f *FuncV) *Term {
	i := sym("i", SInt)
	body := x.pureEval(fr, st, f, []Value{i}, le(tZero, i)).(*Term)
	norm := subst(body, map[*Term]*Term{i: fixedSym("fold.i", SInt)})
	name := fmt.Sprintf("count.%d", alphaID(norm))
	if os.Getenv("GVC_COUNTS") != "" {
		fmt.Println(name, show(norm))
	}
	fn := func(t *Term) *Term { return uf(name, SInt, t) }
	// step: the count at w, which follows v
	holds := func(t *Term) *Term { return subst(body, map[*Term]*Term{i: t}) }
	step := func(v, w *Term) *Term {
		b := holds(v)
		if hasQuant(b) { // quantifiers under a conditional value are of little use to the solvers
			return and(implies(b, eq(fn(w), addT(fn(v), tOne))), implies(not(b), eq(fn(w), fn(v))))
		}
		return eq(fn(w), addT(fn(v), ite(b, tOne, tZero)))
	}
	above := func(v, w *Term) *Term {
		b := holds(v)
		if hasQuant(b) {
			return implies(b, lt(fn(v), fn(w)))
		}
		return le(addT(fn(v), ite(b, tOne, tZero)), fn(w))
	}
	r := fn(n)
	if len(freeBound(body)) > 0 {
		unsup("counting under a quantifier")
	}
	if !n.bound {
		// the function is defined for all numbers: its definition holds whatever the branch
		def := x.countDefs[name]
		if def == nil {
			v, w := boundVar("i", SInt), boundVar("j", SInt)
			def = []*Term{
				eq(fn(tZero), tZero),
				forall([]*Term{v, w}, implies(and(le(tZero, v), lt(v, w), le(w, addT(v, tOne))), step(v, w)), mk("multipat", SBool, fn(v), fn(w))),
				// counting is monotonic
				forall([]*Term{v, w}, implies(and(le(tZero, v), le(v, w)), and(le(fn(v), fn(w)), le(subT(fn(w), fn(v)), subT(w, v)))), mk("multipat", SBool, fn(v), fn(w))),
				forall([]*Term{v, w}, implies(and(le(tZero, v), lt(v, w)), above(v, w)), mk("multipat", SBool, fn(v), fn(w))),
				forall([]*Term{v}, implies(le(tZero, v), and(le(tZero, fn(v)), le(fn(v), v))), fn(v)),
			}
			x.countDefs[name] = def
		}
		for _, t := range append([]*Term{
			implies(le(tZero, n), and(le(tZero, r), le(r, n))),
			implies(lt(tZero, n), step(subT(n, tOne), n)),
			implies(le(tZero, n), step(n, addT(n, tOne))),
		}, def...) {
			x.global[t.id] = true
			st.fact(t)
		}
	}
	return r
}

// ---- contracts ----

// subjectRun executes the body of the function under contract and checks the frame.
func (x *Exec) subjectRun(fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
	pre := st.fork()
	x.cone[f.fn] = true
	x.subject[fnName(f.fn)] = true
	marker := symSeq
	st.ghost["subject.alloc"] = st.alloc
	x.callFn(fr, st, f, args, site, func(s *State, res, pan Value) {
		if pan == nil && x.record == 0 && x.spec.Opts["noframe"] == "" {
			x.checkFrame(pre, s, marker)
		}
		k(s, res, pan)
	})
}

func (x *Exec) checkFrame(pre, st *State, marker int) {
	mods, _ := pre.ghost["mods"].([]modRef)
	allowed := func(key string, r *Term) *Term {
		if r.fresh && r.seq > marker {
			return tTrue
		}
		c := or(le(pre.alloc, r), eq(r, tZero)) // nothing is stored through nil
		for _, m := range mods {
			if strings.HasPrefix(key, m.key) {
				c = or(c, eq(r, m.ref))
			}
		}
		return c
	}
	for key, cur := range st.heaps {
		base, ok := pre.heaps[key]
		if !ok {
			base = x.lateHeap(pre, key, cur.sort)
		}
		if cur == base || x.constHeaps[key] {
			continue
		}
		if strings.HasPrefix(key, "G:") {
			x.oblige(st, "frame: global "+key[2:]+" unchanged", "frame", eq(cur, base))
			continue
		}
		var walk func(t *Term)
		walk = func(t *Term) {
			for t != base {
				switch t.op {
				case "store":
					if c := allowed(key, t.args[1]); c != tTrue {
						x.oblige(st, "frame: only new memory and the declared references are written", "frame", c)
					}
					t = t.args[0]
				case "frame":
					if c := le(pre.alloc, t.args[2]); c != tTrue {
						x.oblige(st, "frame: only new memory and the declared references are written", "frame", c)
					}
					for _, m := range t.args[3:] {
						if c := allowed(key, m); c != tTrue {
							x.oblige(st, "frame: only new memory and the declared references are written", "frame", c)
						}
					}
					t = t.args[0]
				default:
					st.note("%s written: %s", key, clip(show(t), 200))
					x.oblige(st, "frame: "+key, "frame", tFalse)
					return
				}
			}
		}
		walk(cur)
	}
}

// learnNewer notes the slices that a contract, whatever the case, says are in memory newer than everything there was
// when it was applied.
func (a *assumeCtx) learnNewer(st *State, c *Term) {
	if st.branch != a.branch {
		return
	}
	if c.op == "and" {
		for _, d := range c.args {
			a.learnNewer(st, d)
		}
		return
	}
	r := a.newer[c.id]
	if r == nil {
		return
	}
	if r.op == "ite" {
		r = r.args[1]
	}
	base := r
	if r.op == "sel" && r.name == "vlr" {
		base = r.args[0]
	}
	if base.op == "sym" && base.seq > a.marker && !base.fresh && !base.bound {
		r.newer = true
	}
}

// applyContract replaces a call by the contract of the callee: the specification
// function runs with the actual arguments, its call of the subject yields an arbitrary
// result, its Requires are obligations here and its Ensures are assumed.
func (x *Exec) applyContract(fr *Frame, st *State, s *Spec, args []Value, sig *types.Signature, site string, k cont) {
	x.used[s.Contract] = true
	x.eventSeq++
	id := x.eventSeq
	ctx := &assumeCtx{spec: s, id: id, site: site, args: args, branch: st.branch, marker: symSeq, newer: map[int]*Term{}}
	sfr := &Frame{fn: s.fn, env: map[ssa.Value]Value{}, caller: fr, depth: fr.depth + 1, loops: map[*ssa.BasicBlock]*loopCtx{}, pidx: -1, unwind: -1, allocIn: st.alloc, spec: true, assume: ctx, site: site}
	if len(args) > len(s.fn.Params) {
		unsup("contract %s takes %d parameters, %s has %d", s.Name, len(s.fn.Params), s.Contract, len(args))
	}
	for i, p := range s.fn.Params {
		if i >= len(args) { // a parameter of the specification only: some value
			sfr.env[p] = x.input(st, p.Type(), p.Name())
			continue
		}
		sfr.env[p] = x.coerce(st, args[i], p.Type())
	}
	saved := st.ghost["mods"]
	delete(st.ghost, "mods")
	st.ghost[fmt.Sprintf("alloc:%d", id)] = st.alloc
	sfr.k = func(st *State, res, pan Value) {
		if saved != nil {
			st.ghost["mods"] = saved
		} else {
			delete(st.ghost, "mods")
		}
		if pan != nil {
			return // contracts in use never panic: the panicking path of the specification is its violation
		}
		r, ok := st.ghost[fmt.Sprintf("result:%d", id)]
		if !ok {
			if sig.Results().Len() > 0 {
				return
			}
			r = nil
		}
		if b, isBox := r.(*boxV); isBox {
			r = b.v
		}
		k(st, r, nil)
	}
	if s.fn.Blocks == nil {
		x.w.build(s.fn)
	}
	x.runBlock(sfr, st, s.fn.Blocks[0], nil)
}

type boxV struct{ v Value }

// coerce adapts an argument to the parameter type of the specification (value to interface).
func (x *Exec) coerce(st *State, v Value, t types.Type) Value { return v }

// subjectResult is the call of the subject while its contract is being assumed.
func (x *Exec) subjectResult(fr *Frame, st *State, sig *types.Signature, site string, k cont) {
	id := fr.assume.id
	st.ghost[fmt.Sprintf("alloc:%d", id)] = st.alloc
	fr.assume.marker = symSeq
	ev := &frameEvent{id: id, frontier: st.alloc, marker: symSeq}
	if ms, ok := st.ghost["mods"].([]modRef); ok {
		ev.mods = ms
	}
	if fr.assume.spec.Opts["pure"] == "" {
		symSeq++ // the event's symbols come after everything known so far
		for key, h := range st.heaps {
			st.heaps[key] = x.applyEvent(h, key, ev)
		}
		st.events = append(st.events[:len(st.events):len(st.events)], ev)
	}
	r := x.havocResults(st, sig, "res."+fr.assume.spec.Func)
	st.ghost[fmt.Sprintf("result:%d", id)] = &boxV{r}
	k(st, r, nil)
}

// ifaceContract finds the contract of an interface method.
func (x *Exec) ifaceContract(fr *Frame, it types.Type, m *types.Func) *Spec {
	s := x.w.byFunc[tstr(it)+"."+m.Name()]
	if s == nil {
		return nil
	}
	if x.spec == s && fr.spec {
		return nil
	}
	if fr.spec && fr.assume != nil && fr.assume.spec == s {
		return nil
	}
	return s
}

// ifaceSubject: this call is the subject of an interface-level contract being assumed.
func (x *Exec) ifaceSubject(fr *Frame, call *ssa.CallCommon, i *IfaceV) bool {
	return fr.spec && fr.assume != nil && fr.assume.spec.Contract == tstr(types.Unalias(call.Value.Type()))+"."+call.Method.Name()
}

func (x *Exec) subjectCall(fr *Frame, st *State, args []Value, sig *types.Signature, site string, k cont) {
	x.subjectResult(fr, st, sig, site, k)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
