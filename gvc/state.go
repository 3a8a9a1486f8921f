package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"
)

type panicRec struct {
	val       Value
	recovered bool
}

// State is the symbolic machine state of one path.
type State struct {
	heaps  map[string]*Term
	pc     *pcNode
	branch *pcNode // only the branch conditions
	alloc  *Term   // allocation frontier
	facts  map[int]bool
	refine map[int]types.Type
	ghost  map[string]Value
	panics []panicRec
	nTags  int
	nIfs   int
	dead   bool
	events []*frameEvent
	trail  *trailNode // branch trail, for messages
}

type trailNode struct {
	parent *trailNode
	text   string
}

func (s *State) fork() *State {
	n := *s
	n.heaps = make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.facts = make(map[int]bool, len(s.facts))
	for k, v := range s.facts {
		n.facts[k] = v
	}
	n.refine = make(map[int]types.Type, len(s.refine))
	for k, v := range s.refine {
		n.refine[k] = v
	}
	n.ghost = make(map[string]Value, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.panics = append([]panicRec{}, s.panics...)
	n.events = s.events[:len(s.events):len(s.events)]
	return &n
}

func pushPC(n *pcNode, t *Term) *pcNode {
	d := 1
	if n != nil {
		d = n.depth + 1
	}
	return &pcNode{parent: n, t: t, depth: d}
}

// fact adds something known to hold of every real execution.
func (s *State) fact(t *Term) {
	if t == tTrue {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.fact(a)
		}
		return
	}
	if s.facts[t.id] {
		return
	}
	if t == tFalse {
		s.dead = true
	}
	s.facts[t.id] = true
	s.pc = pushPC(s.pc, t)
}

// assume adds a branch condition.
func (s *State) assume(t *Term) {
	if t == tTrue {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if t == tFalse {
		s.dead = true
	}
	s.branch = pushPC(s.branch, t)
	if s.facts[t.id] {
		return
	}
	s.facts[t.id] = true
	s.pc = pushPC(s.pc, t)
}

func (s *State) note(format string, args ...interface{}) {
	s.trail = &trailNode{s.trail, fmt.Sprintf(format, args...)}
}

func (s *State) trailText() string {
	var l []string
	for t := s.trail; t != nil; t = t.parent {
		l = append(l, t.text)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return strings.Join(l, "; ")
}

// ---- heaps ----

func (x *Exec) heap(st *State, key string, sort Sort) *Term {
	if h, ok := st.heaps[key]; ok {
		return h
	}
	h := x.initHeap(st, key, sort)
	for _, e := range st.events {
		h = x.applyEvent(h, key, e)
	}
	st.heaps[key] = h
	return h
}

// frameEvent is a call known only through its contract: it writes memory it allocates and the references given.
type frameEvent struct {
	id       int
	frontier *Term
	marker   int
	mods     []modRef
	whole    bool
}

func (x *Exec) applyEvent(h *Term, key string, e *frameEvent) *Term {
	if strings.HasPrefix(key, "G:") {
		return h
	}
	var refs []*Term
	for _, m := range e.mods {
		if strings.HasPrefix(key, m.key) {
			refs = append(refs, m.ref)
		}
	}
	n := fixedSym(fmt.Sprintf("ev%d.%s", e.id, key), h.sort)
	n.seq = e.marker + 1
	if e.whole {
		return n
	}
	return frameT(h, n, e.frontier, e.marker, refs)
}

// initHeap is the content of that heap when the function under contract starts.
func (x *Exec) initHeap(st *State, key string, sort Sort) *Term {
	if h, ok := x.init[key]; ok {
		return h
	}
	h := fixedSym("H0."+x.hname+"."+key, sort)
	x.init[key] = h
	x.initSyms[h.id] = true
	return h
}

// newRef allocates a reference.
func (x *Exec) newRef(st *State, what string) *Term {
	r := sym("ref."+what, SInt)
	r.fresh = true
	st.fact(le(st.alloc, r))
	if st.alloc == tZero || isInt(st.alloc) {
		st.fact(lt(tZero, r))
	}
	st.alloc = addT(r, tOne)
	return r
}

func (p *PtrV) key(l leaf) string {
	switch p.kind {
	case 'o':
		return "O:" + p.root + p.path + l.path
	case 'e':
		return "E:" + p.root + p.path + l.path
	}
	return "G:" + p.root + p.path + l.path
}

func (x *Exec) load(st *State, p *PtrV) Value {
	if a, ok := under(p.elem).(*types.Array); ok && p.kind == 'o' && p.path == "" {
		r := &ArrV{typ: a}
		for _, l := range leaves(a.Elem()) {
			h := x.heap(st, "E:"+tstr(a.Elem())+l.path, arr(SInt, arr(SInt, l.sort)))
			r.rows = append(r.rows, sel2(h, p.ref))
		}
		return r
	}
	var ts []*Term
	for _, l := range leaves(p.elem) {
		switch p.kind {
		case 'o':
			ts = append(ts, sel2(x.heap(st, p.key(l), arr(SInt, l.sort)), p.ref))
		case 'e':
			h := x.heap(st, p.key(l), arr(SInt, arr(SInt, l.sort)))
			ts = append(ts, sel2(sel2(h, p.ref), p.idx))
		case 'g':
			ts = append(ts, x.heap(st, p.key(l), l.sort))
		}
	}
	x.wf(st, ts, p.elem)
	return x.norm(st, x.fromTerms(ts, p.elem))
}

func (x *Exec) storeTo(st *State, p *PtrV, v Value) {
	if a, ok := under(p.elem).(*types.Array); ok && p.kind == 'o' && p.path == "" {
		av := v.(*ArrV)
		for i, l := range leaves(a.Elem()) {
			k := "E:" + tstr(a.Elem()) + l.path
			h := x.heap(st, k, arr(SInt, arr(SInt, l.sort)))
			st.heaps[k] = store(h, p.ref, av.rows[i])
		}
		return
	}
	ts := x.toTerms(v, p.elem)
	for i, l := range leaves(p.elem) {
		k := p.key(l)
		switch p.kind {
		case 'o':
			st.heaps[k] = store(x.heap(st, k, arr(SInt, l.sort)), p.ref, ts[i])
		case 'e':
			h := x.heap(st, k, arr(SInt, arr(SInt, l.sort)))
			st.heaps[k] = store(h, p.ref, store(sel2(h, p.ref), p.idx, ts[i]))
		case 'g':
			x.heap(st, k, l.sort)
			st.heaps[k] = ts[i]
		}
	}
}

// fromInitial reports whether the term reads the initial state or is an input.
func (x *Exec) fromInitial(t *Term) bool {
	switch t.op {
	case "sym":
		return x.inputs[t.id] || x.initSyms[t.id]
	case "select":
		return x.fromInitial(t.args[0])
	case "sel":
		return x.fromInitial(t.args[0])
	case "uf":
		return strings.HasPrefix(t.name, "unbox.") && x.fromInitial(t.args[0])
	}
	return false
}

var maxLen = mustBig("1099511627776") // 2^40 elements

// wf adds what the Go type system guarantees of a value of type t.
func (x *Exec) wf(st *State, ts []*Term, t types.Type) {
	if len(ts) == 1 && (isLit(ts[0]) || isCtor(ts[0])) {
		return
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if lo, hi := intRange(t); lo != nil && !ts[0].bound {
			st.fact(and(le(bigT(lo), ts[0]), le(ts[0], bigT(hi))))
		}
		if textMode && ts[0].sort == SStr && !ts[0].bound {
			st.fact(le(strLen(ts[0]), bigT(maxLen)))
		}
	case *types.Slice:
		x.wfSlice(st, ts[0], ts[1], ts[2], ts[3])
	case *types.Map, *types.Chan:
		x.wfRef(st, ts[0])
	case *types.Pointer:
		x.wfRef(st, ts[0])
	case *types.Interface:
		x.wfVal(st, ts[0])
	case *types.Struct:
		if isReflectValue(t) {
			x.wfVal(st, ts[0])
			return
		}
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			k := len(leaves(ft))
			x.wf(st, ts[n:n+k], ft)
			n += k
		}
	}
}

func (x *Exec) wfRef(st *State, r *Term) {
	if isInt(r) || r.fresh || r.bound {
		return
	}
	b := st.alloc
	if x.fromInitial(r) {
		b = x.alloc0
	}
	st.fact(lt(r, b))
	st.fact(le(tZero, r))
}

func (x *Exec) wfSlice(st *State, ref, off, ln, cp *Term) {
	if ref.bound || isInt(ref) {
		return
	}
	x.wfRef(st, ref)
	st.fact(and(le(tZero, ln), le(ln, cp), le(cp, bigT(maxLen)), le(tZero, off)))
	st.fact(implies(eq(ref, tZero), eq(cp, tZero)))
	if x.fromInitial(off) {
		st.fact(eq(off, tZero))
	}
}

func (x *Exec) wfVal(st *State, v *Term) {
	if v.bound || isCtor(v) {
		return
	}
	if st.facts[mkN("wf", "", SBool, v).id] {
		return
	}
	st.facts[mkN("wf", "", SBool, v).id] = true
	b := st.alloc
	if x.fromInitial(v) {
		b = x.alloc0
	}
	ts := tester("vslice", v)
	f := and(le(tZero, sel("vlr", v)), lt(sel("vlr", v), b), le(tZero, sel("vll", v)), le(sel("vll", v), sel("vlc", v)), le(sel("vlc", v), bigT(maxLen)), le(tZero, sel("vlo", v)),
		implies(eq(sel("vlr", v), tZero), eq(sel("vlc", v), tZero)))
	if x.fromInitial(v) {
		f = and(f, eq(sel("vlo", v), tZero))
	}
	st.fact(implies(ts, f))
	st.fact(implies(tester("vref", v), lt(sel("vr", v), b)))
	st.fact(or(tester("vnil", v), lt(tZero, tagOf(v))))
	// integers inside interfaces have the range of their type: only the common kinds matter
	st.fact(implies(and(tester("vint", v), eq(sel("vit", v), tagTerm(types.Typ[types.Int]))),
		and(le(bigT(minInt64), sel("vi", v)), le(sel("vi", v), bigT(maxInt64)))))
}

// norm replaces slice offsets known to be 0.
func (x *Exec) norm(st *State, v Value) Value {
	switch w := v.(type) {
	case *SliceV:
		if w.off != tZero && st.facts[eq(w.off, tZero).id] {
			return &SliceV{w.ref, tZero, w.len, w.cap, w.elem}
		}
	case *IfaceV:
		n := x.norm(st, w.v)
		if n != w.v {
			return &IfaceV{w.typ, n}
		}
	}
	return v
}

// ---- solver access ----

func (x *Exec) feasible(st *State, cond *Term) bool {
	if cond == tFalse || st.dead {
		return false
	}
	if cond == tTrue {
		return true
	}
	if st.facts[cond.id] {
		return true
	}
	if st.facts[not(cond).id] {
		return false
	}
	key := cacheKey{st.pc, cond.id}
	if r, ok := x.feasCache[key]; ok {
		return r
	}
	r := x.qf.check(st.pc, []*Term{cond}, x.opt.feasTimeout) != "unsat"
	x.feasCache[key] = r
	return r
}

type cacheKey struct {
	n *pcNode
	t int
}

// proves: cheap proof attempt with all hypotheses.
func (x *Exec) proves(st *State, goal *Term, timeout time.Duration) bool {
	if goal == tTrue || st.dead || st.facts[goal.id] {
		return true
	}
	if goal == tFalse && st.pc == nil {
		return false
	}
	key := cacheKey{st.pc, goal.id}
	if r, ok := x.proveCache[key]; ok {
		return r
	}
	r := true
	for _, g := range splitGoal(goal) {
		if x.full.check(st.pc, []*Term{not(g)}, timeout) != "unsat" {
			r = false
			break
		}
	}
	x.proveCache[key] = r
	return r
}

// provesOnce retries with fresh solvers.
func (x *Exec) provesOnce(st *State, goal *Term, timeout time.Duration) bool {
	if x.proves(st, goal, x.opt.proveTimeout) {
		return true
	}
	if st.dead || goal == tFalse {
		return st.dead
	}
	key := cacheKey{st.pc, goal.id}
	if r, ok := x.onceCache[key]; ok {
		return r
	}
	t0 := time.Now()
	r := true
	for _, g := range splitGoal(goal) {
		if x.full.check(st.pc, []*Term{not(g)}, x.opt.proveTimeout) == "unsat" {
			continue
		}
		if r = once(append(st.pc.list(), not(g)), timeout, x.spec.Opts["once"] != ""); !r {
			break
		}
	}
	x.full.time += time.Since(t0)
	if os.Getenv("GVC_SLOW") != "" && time.Since(t0) > 200*time.Millisecond {
		fmt.Printf("   once %v %.1fs %s\n", r, time.Since(t0).Seconds(), clipTo(show(goal), 100))
	}
	x.onceCache[key] = r
	if r {
		x.proveCache[key] = true
	}
	return r
}

// provesQ: proof attempt without quantified hypotheses (fast).
func (x *Exec) provesQ(st *State, goal *Term) bool {
	if goal == tTrue || st.dead {
		return true
	}
	return !x.feasible(st, not(goal))
}
