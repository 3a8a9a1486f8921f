package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleeAndArgs evaluates the callee of a call and its arguments.
func (x *Exec) calleeAndArgs(fr *Frame, st *State, call *ssa.CallCommon) (*FuncV, []Value) {
	var args []Value
	for _, a := range call.Args {
		args = append(args, x.val(fr, st, a))
	}
	if call.IsInvoke() {
		return &FuncV{intr: "invoke", data: x.val(fr, st, call.Value)}, args
	}
	switch c := x.val(fr, st, call.Value).(type) {
	case *FuncV:
		if c.intr == "" && len(c.bind) == 0 {
			return c, args
		}
		return c, args
	case *Term:
		if f := funcOf(c); f != nil {
			return f, args
		}
		return &FuncV{intr: "unknown", data: c}, args
	default:
		unsup("call of %T", c)
	}
	return nil, nil
}

func (x *Exec) doCall(fr *Frame, st *State, call *ssa.CallCommon, ins ssa.Instruction, site string, k cont) {
	f, args := x.calleeAndArgs(fr, st, call)
	if f.intr != "" {
		x.intrinsic(fr, st, f, args, call, site, k)
		return
	}
	x.dispatch(fr, st, f, args, call, site, k)
}

// intrinsic: calls of function values the engine implements, builtins and interface calls.
func (x *Exec) intrinsic(fr *Frame, st *State, f *FuncV, args []Value, call *ssa.CallCommon, site string, k cont) {
	switch {
	case strings.HasPrefix(f.intr, "builtin:"):
		x.builtin(fr, st, f.intr[8:], args, call, site, k)
	case f.intr == "invoke":
		x.invoke(fr, st, f.data, args, call, site, k)
	case f.intr == "unknown":
		t := f.data.(*Term)
		if t == tZero || x.provesQ(st, eq(t, tZero)) {
			x.panicCall(fr, st, "call of nil function", site, k)
			return
		}
		if n, ok := x.ghostFuncs[t.id]; ok {
			x.callGhostFunc(fr, st, n, t, args, k)
			return
		}
		unsup("call of an unknown function value at %s: %s", site, clip(show(t), 300))
	default:
		unsup("intrinsic %s", f.intr)
	}
}

func (x *Exec) panicCall(fr *Frame, st *State, what, site string, k cont) {
	st.note("%s at %s", what, site)
	k(st, nil, x.runtimeError(st, what))
}

// callGhostFunc: a function-typed input of the specification is an uninterpreted total function.
func (x *Exec) callGhostFunc(fr *Frame, st *State, sig *types.Signature, t *Term, args []Value, k cont) {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.toTerms(a, sig.Params().At(i).Type())...)
	}
	var out TupleV
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		var rs []*Term
		for j, l := range leaves(rt) {
			rs = append(rs, uf(fmt.Sprintf("fn.%s.%d.%d", t.name, i, j), l.sort, ts...))
		}
		x.wf(st, rs, rt)
		out = append(out, x.fromTerms(rs, rt))
	}
	k(st, tupleOrOne(out), nil)
}

// invoke calls a method of an interface value.
func (x *Exec) invoke(fr *Frame, st *State, recv Value, args []Value, call *ssa.CallCommon, site string, k cont) {
	m := call.Method
	if fr.spec && fr.assume == nil && fr.caller == nil && x.spec != nil && !fr.inSubject && x.spec.Contract == tstr(types.Unalias(call.Value.Type()))+"."+m.Name() {
		// the subject of an interface contract
		pre := st.fork()
		marker := symSeq
		fr.inSubject = true
		st.ghost["subject.alloc"] = st.alloc
		k0 := k
		k = func(st *State, res, pan Value) {
			if pan == nil && x.record == 0 && x.spec.Opts["noframe"] == "" {
				x.checkFrame(pre, st, marker)
			}
			k0(st, res, pan)
		}
	}
	if i, ok := recv.(*IfaceV); ok {
		if _, ok := i.v.(*RTypeV); ok {
			x.reflectType(fr, st, i, m.Name(), args, call, site, k)
			return
		}
		fn := x.w.prog.LookupMethod(i.typ, m.Pkg(), m.Name())
		if fn == nil {
			unsup("method %s of %s", m.Name(), i.typ)
		}
		if s := x.ifaceSubject(fr, call, i); s {
			x.subjectCall(fr, st, append([]Value{i}, args...), call.Signature(), site, k)
			return
		}
		if s := x.ifaceContract(fr, types.Unalias(call.Value.Type()), m); s != nil {
			x.applyContract(fr, st, s, append([]Value{i}, args...), call.Signature(), site, k)
			return
		}
		x.dispatch(fr, st, &FuncV{fn: fn}, append([]Value{i.v}, args...), call, site, k)
		return
	}
	t := recv.(*Term)
	if t == tNilV {
		x.panicCall(fr, st, "method call on nil", site, k)
		return
	}
	if typ, ok := st.refine[t.id]; ok {
		x.invoke(fr, st, x.norm(st, &IfaceV{typ, x.unboxVal(t, typ)}), args, call, site, k)
		return
	}
	it := types.Unalias(call.Value.Type())
	isNil := tester("vnil", t)
	if x.feasible(st, isNil) && !x.proves(st, not(isNil), x.opt.proveTimeout) {
		st2 := st.fork()
		st2.assume(isNil)
		x.paths++
		x.panicCall(fr.clone(), st2, "method call on nil", site, k)
		st.assume(not(isNil))
		if st.dead {
			return
		}
	} else {
		st.fact(not(isNil))
	}
	if s := x.ifaceContract(fr, it, m); s != nil {
		x.applyContract(fr, st, s, append([]Value{t}, args...), call.Signature(), site, k)
		return
	}
	if x.ifaceSubject(fr, call, nil) {
		x.subjectCall(fr, st, append([]Value{t}, args...), call.Signature(), site, k)
		return
	}
	if x.externIface(fr, st, it, m.Name(), t, args, call, site, k) {
		return
	}
	impls := x.w.implementers(it)
	if len(impls) == 0 {
		unsup("call of %s.%s at %s", tstr(it), m.Name(), site)
	}
	x.assumed["values of interface "+tstr(it)+" have one of the repository's own implementing types (closed world)"] = true
	for _, T := range impls {
		tagID(T)
	}
	x.implFact(st)
	for n, T := range impls {
		c := x.isType(t, T)
		if !x.feasible(st, c) {
			continue
		}
		s2, fr2 := st, fr
		if n < len(impls)-1 {
			s2, fr2 = st.fork(), fr.clone()
		}
		x.paths++
		s2.assume(c)
		s2.refine[t.id] = T
		u := x.unboxVal(t, T)
		x.wf(s2, x.toTerms(u, T), T)
		x.invoke(fr2, s2, x.norm(s2, &IfaceV{T, u}), args, call, site, k)
	}
}

// dispatch calls a known function.
func (x *Exec) dispatch(fr *Frame, st *State, f *FuncV, args []Value, call *ssa.CallCommon, site string, k cont) {
	fn := f.fn
	name := fnName(fn)
	if fnPkg(fn) == rtPath {
		x.rtCall(fr, st, fn.Name(), f, args, call, site, k)
		return
	}
	if fr.assume != nil && fr.spec && fr.assume.spec.Contract == name {
		x.subjectResult(fr, st, fn.Signature, site, k)
		return
	}
	if fr.spec && fr.assume == nil && x.spec != nil && x.spec.Contract == name && fr.caller == nil {
		x.subjectRun(fr, st, f, args, site, k)
		return
	}
	if s := x.w.byFunc[name]; s != nil {
		x.applyContract(fr, st, s, args, fn.Signature, site, k)
		return
	}
	if x.w.opaqueFn[name] && x.spec.Opts["transparent"] == "" {
		if v := x.opaqueCall(fr, st, f, args); v != nil {
			k(st, v, nil)
			return
		}
	}
	if x.w.namedFn[name] {
		if v := x.namedCall(fr, st, f, args); v != nil {
			k(st, v, nil)
			return
		}
	}
	if x.w.pureFn[name] {
		v := x.pureCall(fr, st, f, args)
		k(st, v, nil)
		return
	}
	if x.external(fr, st, name, f, args, call, site, k) {
		return
	}
	if x.w.inRepo(fn) || inlineExt[name] {
		if !x.w.isSpecFn(fn) {
			x.inlined[name] = true
			x.cone[fn] = true
		}
		x.callFn(fr, st, f, args, site, k)
		return
	}
	x.havocCall(fr, st, name, fn.Signature, args, site, k)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

var inlineExt = map[string]bool{
	"github.com/Masterminds/sprig/v3.strslice":    true,
	"github.com/coveooss/multilogger/errors.Must": true,
	"github.com/coveooss/multilogger/errors.Trap": true,
}

// havocCall: an external function without a model returns anything and is assumed to
// write nothing the verified code can see.
func (x *Exec) havocCall(fr *Frame, st *State, name string, sig *types.Signature, args []Value, site string, k cont) {
	for i := 0; i < sig.Params().Len() && i+boolInt(sig.Recv() != nil) < len(args); i++ {
		if isFunc(sig.Params().At(i).Type()) {
			unsup("external function %s receives a function", name)
		}
	}
	x.extern[name] = true
	x.assumed["external "+name+": any result, no visible side effect, no panic"] = true
	k(st, x.havocResults(st, sig, "ext."+name), nil)
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (x *Exec) havocResults(st *State, sig *types.Signature, what string) Value {
	na := sym("alloc", SInt)
	st.fact(le(st.alloc, na))
	st.alloc = na
	var out TupleV
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, x.anyValue(st, sig.Results().At(i).Type(), what))
	}
	return tupleOrOne(out)
}

// anyValue is an arbitrary well-formed value of the type.
func (x *Exec) anyValue(st *State, t types.Type, what string) Value {
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, sym(what, l.sort))
	}
	x.wf(st, ts, t)
	if it, ok := under(t).(*types.Interface); ok && it.NumMethods() > 0 {
		st.fact(or(tester("vnil", ts[0]), x.implements(st, ts[0], types.Unalias(t))))
		x.closedWorld(st, ts[0], t)
	}
	return x.norm(st, x.fromTerms(ts, t))
}

// ---- builtins ----

func (x *Exec) builtin(fr *Frame, st *State, name string, args []Value, call *ssa.CallCommon, site string, k cont) {
	at := func(i int) types.Type { return call.Args[i].Type() }
	switch name {
	case "len", "cap":
		switch v := args[0].(type) {
		case *SliceV:
			if name == "cap" {
				k(st, v.cap, nil)
			} else {
				k(st, v.len, nil)
			}
			return
		case *ArrV:
			k(st, intT(v.typ.Len()), nil)
			return
		case *PtrV:
			k(st, intT(under(v.elem).(*types.Array).Len()), nil)
			return
		case *Term:
			if v.sort == SStr {
				n := strLen(v)
				if !n.bound {
					// a text that some variable holds has that length whatever the path
					if v.op == "sym" {
						x.always(st, and(le(tZero, n), le(n, bigT(maxLen))))
					} else {
						st.fact(and(le(tZero, n), le(n, bigT(maxLen))))
					}
				}
				k(st, n, nil)
				return
			}
			if mt, ok := under(at(0)).(*types.Map); ok {
				if v == tZero {
					k(st, tZero, nil)
					return
				}
				k(st, x.mapLen(st, mt, v), nil)
				return
			}
		}
		unsup("%s of %T", name, args[0])
	case "append":
		x.appendCall(fr, st, args, call, site, k)
	case "copy":
		d := args[0].(*SliceV)
		var n *Term
		key, h := x.elemHeap(st, d.elem, leaves(d.elem)[0])
		_ = key
		_ = h
		switch s := args[1].(type) {
		case *SliceV:
			n = ite(lt(d.len, s.len), d.len, s.len)
			x.splice(st, d.elem, d.ref, addT(d.off, tZero), n, s)
		default:
			unsup("copy from string")
		}
		k(st, n, nil)
	case "delete":
		mt := under(at(0)).(*types.Map)
		m := args[0].(*Term)
		if m == tZero {
			k(st, nil, nil)
			return
		}
		isnil := eq(m, tZero)
		if x.feasible(st, isnil) && !m.fresh {
			s2 := st.fork()
			s2.assume(isnil)
			x.paths++
			k(s2, nil, nil)
			st.assume(not(isnil))
			if st.dead {
				return
			}
		}
		x.mapDelete(st, mt, m, x.keyTerm(args[1], mt))
		k(st, nil, nil)
	case "recover":
		// effective only when called by a deferred function itself
		if fr.deferred && fr.pidx >= 0 && fr.pidx < len(st.panics) && !st.panics[fr.pidx].recovered {
			st.panics = append([]panicRec{}, st.panics...)
			v := st.panics[fr.pidx].val
			st.panics[fr.pidx].recovered = true
			k(st, v, nil)
			return
		}
		k(st, tNilV, nil)
	case "panic":
		k(st, nil, args[0])
	case "min", "max":
		r := args[0].(*Term)
		if r.sort != SInt {
			unsup("%s of %s", name, r.sort)
		}
		for _, a := range args[1:] {
			b := a.(*Term)
			if name == "min" {
				r = ite(le(r, b), r, b)
			} else {
				r = ite(le(b, r), r, b)
			}
		}
		k(st, r, nil)
	case "ssa:wrapnilchk":
		switch p := args[0].(type) {
		case *PtrV:
			k(st, p, nil)
		case *Term:
			c := not(eq(p, tZero))
			if !x.provesQ(st, c) {
				s2 := st.fork()
				s2.assume(not(c))
				x.paths++
				x.panicCall(fr, s2, "nil pointer dereference", site, k)
				st.assume(c)
			}
			if !st.dead {
				k(st, p, nil)
			}
		}
	case "print", "println":
		k(st, nil, nil)
	case "clear", "close":
		unsup("builtin %s", name)
	default:
		unsup("builtin %s", name)
	}
}

// splice copies n elements of src over the row of dst starting at position at.
func (x *Exec) splice(st *State, elem types.Type, ref, at, n *Term, src *SliceV) {
	for _, l := range leaves(elem) {
		k, h := x.elemHeap(st, elem, l)
		srow := sel2(h, src.ref)
		row := sel2(h, ref)
		st.heaps[k] = store(h, ref, x.spliceRow(row, at, n, srow, src.off))
	}
}

func (x *Exec) spliceRow(row, at, n, src, so *Term) *Term {
	if isInt(n) && n.num.IsInt64() && n.num.Int64() <= 8 {
		r := row
		for i := int64(0); i < n.num.Int64(); i++ {
			r = store(r, addT(at, intT(i)), sel2(src, addT(so, intT(i))))
		}
		return r
	}
	return spliceT(row, at, n, src, so)
}

func (x *Exec) appendCall(fr *Frame, st *State, args []Value, call *ssa.CallCommon, site string, k cont) {
	s := args[0].(*SliceV)
	var t *SliceV
	switch a := args[1].(type) {
	case *SliceV:
		t = a
	case *Term:
		if a.sort == SStr {
			t = x.stringToSlice(st, a, s.elem).(*SliceV)
		}
	}
	if t == nil {
		unsup("append of %T", args[1])
	}
	if t.len == tZero {
		k(st, s, nil)
		return
	}
	n := addT(s.len, t.len)
	st.fact(le(n, bigT(maxLen)))
	fits := le(n, s.cap)
	x.split(fr, st, fits, func(_ *Frame, st *State) {
		x.splice(st, s.elem, s.ref, addT(s.off, s.len), t.len, t)
		k(st, &SliceV{s.ref, s.off, n, s.cap, s.elem}, nil)
	}, func(_ *Frame, st *State) {
		r := x.newRef(st, "append")
		c := sym("cap", SInt)
		st.fact(and(le(n, c), le(c, bigT(maxLen))))
		zs := x.toTerms(x.zero(s.elem), s.elem)
		for i, l := range leaves(s.elem) {
			key, h := x.elemHeap(st, s.elem, l)
			var row *Term
			switch {
			case s.len == tZero:
				row = constArr(arr(SInt, l.sort), zs[i])
			case s.off == tZero:
				row = sel2(h, s.ref)
				// positions beyond the length are fresh memory; they hold zero values, which nothing relies on
			default:
				row = spliceT(constArr(arr(SInt, l.sort), zs[i]), tZero, s.len, sel2(h, s.ref), s.off)
			}
			row = x.spliceRow(row, s.len, t.len, sel2(h, t.ref), t.off)
			st.heaps[key] = store(h, r, row)
		}
		k(st, &SliceV{r, tZero, n, c, s.elem}, nil)
	})
}

// ---- range ----

func (x *Exec) rangeOver(fr *Frame, st *State, in *ssa.Range) {
	switch u := under(in.X.Type()).(type) {
	case *types.Map:
		ks, _, _, _ := x.mapParts(u)
		x.rangeSeq++
		key := fmt.Sprintf("seen:%d", x.rangeSeq)
		st.ghost[key] = constArr(arr(ks, SBool), tFalse)
		m := x.term(fr, st, in.X)
		dom := x.mapDom(st, u, m)
		if m == tZero {
			dom = constArr(arr(ks, SBool), tFalse)
		}
		st.ghost[key+":dom"] = dom
		if card := cardOf(ks, st.ghost[key].(*Term)); true {
			st.fact(eq(card, tZero))
		}
		fr.env[in] = &MapIterV{m, u, key}
	default:
		x.rangeSeq++
		key := fmt.Sprintf("spos:%d", x.rangeSeq)
		st.ghost[key] = tZero
		fr.env[in] = &StrIterV{x.term(fr, st, in.X), key}
	}
}

func (x *Exec) next(fr *Frame, st *State, in *ssa.Next, k func(*Frame, *State, Value)) {
	switch it := x.val(fr, st, in.Iter).(type) {
	case *MapIterV:
		ks, _, _, _ := x.mapParts(it.typ)
		seen := st.ghost[it.seen].(*Term)
		dom0 := st.ghost[it.seen+":dom"].(*Term)
		var dom *Term
		if it.m == tZero {
			dom = dom0
		} else {
			dom = x.mapDom(st, it.typ, it.m)
			if !it.m.fresh {
				st.fact(implies(eq(it.m, tZero), forallKey(ks, func(q *Term) *Term { return not(sel2(dom, q)) })))
			}
		}
		// one more key
		{
			s2, f2 := st.fork(), fr.clone()
			x.paths++
			q := sym("key", ks)
			s2.assume(and(sel2(dom, q), not(sel2(seen, q))))
			if !s2.dead && x.feasible(s2, tTrue) {
				n := x.mapLenQuiet(s2, it.typ, it.m)
				if n != nil {
					s2.fact(lt(tZero, n))
				}
				s2.ghost[it.seen] = store(seen, q, tTrue)
				s2.fact(eq(cardOf(ks, store(seen, q, tTrue)), addT(cardOf(ks, seen), tOne)))
				_, v := x.mapGet(s2, it.typ, it.m, q)
				kt := it.typ.Key()
				x.wf(s2, []*Term{q}, kt)
				k(f2, s2, TupleV{tTrue, x.fromTerms([]*Term{q}, kt), v})
			}
		}
		// all visited
		st.assume(forallKey(ks, func(q *Term) *Term {
			return implies(and(sel2(dom0, q), sel2(dom, q)), sel2(seen, q))
		}))
		if st.dead {
			return
		}
		st.fact(implies(forallKey(ks, func(q *Term) *Term { return eq(sel2(seen, q), sel2(dom, q)) }), eq(cardOf(ks, seen), cardOf(ks, dom))))
		if it.m != tZero {
			x.mapLen(st, it.typ, it.m)
		}
		k(fr, st, TupleV{tFalse, x.zero(it.typ.Key()), x.zero(it.typ.Elem())})
	case *StrIterV:
		pos := st.ghost[it.cell].(*Term)
		n := strLen(it.s)
		st.fact(le(tZero, n))
		x.split(fr, st, lt(pos, n), func(fr *Frame, st *State) {
			r, w := x.decodeRune(st, it.s, pos)
			st.ghost[it.cell] = addT(pos, w)
			k(fr, st, TupleV{tTrue, pos, r})
		}, func(fr *Frame, st *State) {
			k(fr, st, TupleV{tFalse, tZero, tZero})
		})
	default:
		unsup("next over %T", it)
	}
}

// cardOf is the number of elements of a (finite) set of keys.
func cardOf(ks Sort, set *Term) *Term { return uf("card."+cleanName(ks), SInt, set) }

func (x *Exec) mapLenQuiet(st *State, mt *types.Map, m *Term) *Term {
	if m == tZero {
		return nil
	}
	return x.mapLen(st, mt, m)
}

func forallKey(ks Sort, f func(q *Term) *Term) *Term {
	q := boundVar("k", ks)
	return forall([]*Term{q}, f(q))
}

// decodeRune: the rune at a byte position and its width.
func (x *Exec) decodeRune(st *State, s, pos *Term) (r, w *Term) {
	if s.op == "str" && isInt(pos) {
		p := int(pos.num.Int64())
		for i, c := range s.str[p:] {
			_ = i
			l := len(string(c))
			if c == 0xFFFD {
				l = 1
			}
			return intT(int64(c)), intT(int64(l))
		}
	}
	r, w = uf("rune.at", SInt, s, pos), uf("rune.width", SInt, s, pos)
	b := x.byteAt(st, s, pos)
	if r.bound {
		return
	}
	st.fact(and(le(tZero, r), le(r, intT(0x10FFFF)), le(tOne, w), le(w, intT(4)), le(addT(pos, w), strLen(s))))
	st.fact(implies(lt(b, intT(128)), and(eq(r, b), eq(w, tOne))))
	st.fact(implies(le(intT(128), b), le(intT(128), r)))
	return
}

// ---- globals ----

func (x *Exec) globalUse(st *State, p *PtrV) {
	g := x.globalOf(p)
	if g == nil {
		return
	}
	if st.ghost["g:"+p.root] != nil {
		return
	}
	st.ghost["g:"+p.root] = tTrue
	if v, ok := x.constGlobal(g); ok {
		full := &PtrV{kind: 'g', root: p.root, elem: deref(g.Type())}
		if _, set := st.heaps[full.key(leaves(full.elem)[0])]; !set {
			x.storeTo(st, full, v)
			for _, l := range leaves(full.elem) {
				x.constHeaps[full.key(l)] = true
			}
		}
		return
	}
	if fs, ok := globalFacts[p.root]; ok {
		full := &PtrV{kind: 'g', root: p.root, elem: deref(g.Type())}
		v := x.load(st, full)
		fs(x, st, v)
	}
}

var globalFacts = map[string]func(*Exec, *State, Value){}

func (x *Exec) globalOf(p *PtrV) *ssa.Global {
	i := strings.LastIndex(p.root, ".")
	if i < 0 {
		return nil
	}
	pk := x.w.allPkgs[p.root[:i]]
	if pk == nil {
		return nil
	}
	g, _ := pk.Members[p.root[i+1:]].(*ssa.Global)
	return g
}

var _ = token.ADD
