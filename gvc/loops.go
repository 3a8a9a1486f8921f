package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loops struct {
	bodies map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (x *Exec) loopsOf(fn *ssa.Function) *loops {
	if l, ok := x.loopInfo[fn]; ok {
		return l
	}
	l := &loops{bodies: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l.bodies[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l.bodies[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if body[n] {
						continue
					}
					body[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	x.loopInfo[fn] = l
	return l
}

// cand is a candidate invariant: a condition on the values carried by the loop.
type cand struct {
	name string
	user bool
	f    func(st *State, v *loopVals) *Term
}

// loopVals gives the loop-carried values at one moment.
type loopVals struct {
	phi map[*ssa.Phi]Value
}

type loopCtx struct {
	body     map[*ssa.BasicBlock]bool
	checking bool
	header   *ssa.BasicBlock
	phis     []*ssa.Phi
	entry    map[*ssa.Phi]Value
	hdrVals  map[*ssa.Phi]Value
	hdrHeaps map[string]*Term
	entryHp  map[string]*Term
	hdrEvs   []*frameEvent
	evMods   *modSet // what calls known by contract write inside
	evID     int
	hdrSeen  map[string]*Term
	alloc0   *Term // frontier at loop entry
	marker   int
	hdrAlloc *Term
	cands    []*cand
	dead     map[*cand]bool
	gen      map[*ssa.Phi]bool // phis whose shape had to be generalised
	mods     map[string]*modSet
	seens    map[string]bool
	changed  bool
	allocIn  *Term
	where    string
	outer    []*Term    // references the specification declares as modified
	params   []paramVal // parameters of the function
}

type modSet struct {
	refs  []*Term
	whole bool
	class map[*Term]string
	low   *Term // frontier below which memory is untouched; nil: loop entry
}

func (x *Exec) enterLoop(fr *Frame, st *State, b, prev *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	vals := x.phiVals(fr, st, b, prev)
	lc := &loopCtx{body: body, header: b, entry: vals, alloc0: st.alloc, marker: symSeq, dead: map[*cand]bool{}, gen: map[*ssa.Phi]bool{}, mods: map[string]*modSet{}, seens: map[string]bool{}, allocIn: fr.allocIn, checking: true}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		lc.phis = append(lc.phis, p)
	}
	if ms, ok := st.ghost["mods"].([]modRef); ok {
		for _, m := range ms {
			lc.outer = append(lc.outer, m.ref)
		}
	}
	for _, p := range fr.fn.Params {
		if v, ok := fr.env[p]; ok {
			lc.params = append(lc.params, paramVal{v, p.Type()})
		}
	}
	p := x.w.prog.Fset.Position(loopPos(b))
	lc.where = fmt.Sprintf("%s:%d", strings.TrimPrefix(p.Filename, x.w.repo+"/"), p.Line)
	// ghost sets of the map iterations advanced inside
	for bb := range body {
		for _, ins := range bb.Instrs {
			if n, ok := ins.(*ssa.Next); ok {
				switch it := fr.env[n.Iter].(type) {
				case *MapIterV:
					lc.seens[it.seen] = true
				case *StrIterV:
					lc.seens[it.cell] = true
				}
			}
		}
	}
	x.record++
	saveOb := len(x.obls)
	x.genCands(fr, st, lc)
	// keep those true on entry
	v0 := &loopVals{vals}
	var kept []*cand
	for _, c := range lc.cands {
		t := x.candTerm(c, st, v0)
		if t == nil {
			continue
		}
		if x.proves(st, t, min(x.candTimeout(c), x.opt.proveTimeout/2)) || c.user && x.provesOnce(st, t, x.opt.proveTimeout/2) {
			kept = append(kept, c)
		} else if c.user && x.opt.verbose {
			fmt.Printf("  loop %s: %s not true on entry: %s\n", lc.where, c.name, show(t))
		}
	}
	lc.cands = kept
	for round := 0; ; round++ {
		if round > 40 {
			unsup("no loop invariant found at %s", lc.where)
		}
		lc.changed = false
		f2, s2 := fr.clone(), st.fork()
		x.havocLoop(f2, s2, lc)
		f2.loops[b] = lc
		if !s2.dead {
			x.runInstrs(f2, s2, b, x.firstNonPhi(b))
		}
		if !lc.changed {
			break
		}
		var alive []*cand
		for _, c := range lc.cands {
			if !lc.dead[c] {
				alive = append(alive, c)
			}
		}
		lc.cands = alive
	}
	x.obls = x.obls[:saveOb]
	x.record--
	x.havocLoop(fr, st, lc)
	for _, c := range lc.cands {
		x.loopInvKept[lc.where+" "+c.name] = true
	}
	fin := *lc
	fin.checking = false
	fr.loops[b] = &fin
	if st.dead {
		return
	}
	x.runInstrs(fr, st, b, x.firstNonPhi(b))
}

func loopPos(b *ssa.BasicBlock) token.Pos {
	for _, ins := range b.Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, ins := range s.Instrs {
			if ins.Pos().IsValid() {
				return ins.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// havocLoop replaces everything the loop changes by arbitrary values satisfying the kept candidates.
func (x *Exec) havocLoop(fr *Frame, st *State, lc *loopCtx) {
	lc.hdrVals = map[*ssa.Phi]Value{}
	na := sym("alloc", SInt)
	st.fact(le(st.alloc, na))
	st.alloc = na
	lc.hdrAlloc = na
	keys := make([]string, 0, len(lc.mods))
	for k := range lc.mods {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if x.constHeaps[k] {
			continue // a global nothing ever writes keeps its value
		}
		m := lc.mods[k]
		old, ok := st.heaps[k]
		if !ok {
			old = lc.entryHp[k]
		}
		if m.whole || strings.HasPrefix(k, "G:") {
			st.heaps[k] = sym("hv", old.sort)
			continue
		}
		low := lc.alloc0
		mk := lc.marker
		if m.low != nil {
			low = m.low
			mk = m.low.seq
		}
		st.heaps[k] = frameT(old, sym("hv", old.sort), low, mk, m.refs)
	}
	if m := lc.evMods; m != nil {
		// heaps not touched so far see the writes of the calls inside the loop
		x.eventSeq++
		low, mk := lc.alloc0, lc.marker
		if m.low != nil {
			low, mk = m.low, m.low.seq
		}
		ev := &frameEvent{id: x.eventSeq, frontier: low, marker: mk, whole: m.whole}
		for _, r := range m.refs {
			ev.mods = append(ev.mods, modRef{m.class[r], r})
		}
		symSeq++
		for k, h := range st.heaps {
			if lc.mods[k] == nil && m.whole && !strings.HasPrefix(k, "G:") && !x.constHeaps[k] {
				st.heaps[k] = x.applyEvent(h, k, ev)
			}
		}
		st.events = append(st.events[:len(st.events):len(st.events)], ev)
	}
	lc.hdrEvs = st.events
	lc.hdrHeaps = map[string]*Term{}
	for k, v := range st.heaps {
		lc.hdrHeaps[k] = v
	}
	for _, p := range lc.phis {
		v := x.havocShape(st, lc.entry[p], p.Type(), lc.gen[p], p.Name())
		lc.hdrVals[p] = v
		fr.env[p] = v
	}
	lc.hdrSeen = map[string]*Term{}
	for k := range lc.seens {
		old := st.ghost[k].(*Term)
		n := sym("seen", old.sort)
		if strings.HasPrefix(k, "seen:") {
			kk, _ := arrParts(old.sort)
			dom0 := st.ghost[k+":dom"].(*Term)
			_ = dom0
			st.fact(forallKey(kk, func(q *Term) *Term { return implies(sel2(old, q), sel2(n, q)) }))
		} else {
			st.fact(le(old, n))
			st.fact(le(n, bigT(maxLen)))
		}
		st.ghost[k] = n
		lc.hdrSeen[k] = n
	}
	v := &loopVals{lc.hdrVals}
	for _, c := range lc.cands {
		if t := x.candTerm(c, st, v); t != nil {
			if c.user && os.Getenv("GVC_INVS") != "" {
				fmt.Println("   assumed", c.name, clip(show(t), 700))
			}
			st.fact(t)
		}
	}
}

// havocShape: an arbitrary value with the structure of v.
func (x *Exec) havocShape(st *State, v Value, t types.Type, gen bool, name string) Value {
	if gen {
		return x.anyShape(st, t, name)
	}
	switch w := v.(type) {
	case *Term:
		if w.sort == SVal {
			// keep what is statically a value of unknown dynamic type
			return x.anyShape(st, t, name)
		}
		return x.anyShape(st, t, name)
	case *SliceV:
		return x.anyShape(st, t, name)
	case *IfaceV:
		return &IfaceV{w.typ, x.havocShape(st, w.v, w.typ, false, name)}
	case *StructV:
		n := &StructV{typ: w.typ}
		u := under(w.typ).(*types.Struct)
		for i := range w.f {
			n.f = append(n.f, x.havocShape(st, w.f[i], u.Field(i).Type(), false, name))
		}
		return n
	case *FuncV, *PtrV, *RTypeV, *MapIterV, *StrIterV:
		return v // optimistic: checked at the back edge
	case *RValueV:
		return x.anyShape(st, t, name)
	case *ArrV:
		return x.anyShape(st, t, name)
	case nil:
		return nil
	}
	unsup("loop-carried %T", v)
	return nil
}

func (x *Exec) anyShape(st *State, t types.Type, name string) Value {
	var ts []*Term
	for _, l := range leaves(t) {
		ts = append(ts, sym("loop."+name, l.sort))
	}
	x.wf(st, ts, t)
	if it, ok := under(t).(*types.Interface); ok && it.NumMethods() > 0 {
		st.fact(or(tester("vnil", ts[0]), x.implements(st, ts[0], types.Unalias(t))))
	}
	return x.fromTerms(ts, t)
}

// sameShape: nv fits the shape the header value hv was given.
func (x *Exec) sameShape(hv, nv Value) bool {
	switch h := hv.(type) {
	case *Term:
		switch n := nv.(type) {
		case *Term:
			return true
		case *IfaceV, *PtrV, *FuncV:
			return h.sort == SVal || h.sort == SInt
		default:
			_ = n
			return false
		}
	case *SliceV:
		_, ok := nv.(*SliceV)
		return ok
	case *IfaceV:
		n, ok := nv.(*IfaceV)
		return ok && types.Identical(h.typ, n.typ) && x.sameShape(h.v, n.v)
	case *StructV:
		n, ok := nv.(*StructV)
		if !ok {
			return false
		}
		for i := range h.f {
			if !x.sameShape(h.f[i], n.f[i]) {
				return false
			}
		}
		return true
	case *FuncV:
		n, ok := nv.(*FuncV)
		if !ok {
			return false
		}
		return h == n || h.fn == n.fn && h.intr == n.intr && len(h.bind) == 0 && len(n.bind) == 0
	case *PtrV:
		n, ok := nv.(*PtrV)
		return ok && h.kind == n.kind && h.root == n.root && h.path == n.path && h.ref == n.ref && h.idx == n.idx
	case *RTypeV, *MapIterV, *StrIterV:
		return hv == nv
	case *RValueV:
		_, ok := nv.(*RValueV)
		return ok
	case *ArrV:
		_, ok := nv.(*ArrV)
		return ok
	case nil:
		return nv == nil
	}
	return false
}

func (x *Exec) backEdge(fr *Frame, st *State, b, prev *ssa.BasicBlock, lc *loopCtx) {
	if st.dead || !lc.checking {
		return
	}
	nv := x.phiVals(fr, st, b, prev)
	for _, p := range lc.phis {
		if !x.sameShape(lc.hdrVals[p], nv[p]) {
			if lc.gen[p] {
				unsup("loop-carried value of changing shape at %s: %s %s", lc.where, describe(lc.hdrVals[p]), describe(nv[p]))
			}
			lc.gen[p] = true
			lc.changed = true
		}
	}
	x.findMods(st, lc)
	if lc.changed && len(lc.cands) == 0 {
		return
	}
	shapes := false
	for _, p := range lc.phis {
		if !x.sameShape(lc.hdrVals[p], nv[p]) {
			shapes = true
		}
	}
	if shapes {
		return
	}
	v := &loopVals{nv}
	for _, c := range lc.cands {
		if lc.dead[c] {
			continue
		}
		t := x.candTerm(c, st, v)
		if t == nil || !x.proves(st, t, x.candTimeout(c)) && !(c.user && x.provesOnce(st, t, x.opt.proveTimeout)) {
			if c.user && x.opt.verbose {
				if t != nil {
					fmt.Printf("  loop %s: %s not preserved\n", lc.where, c.name)
					if f := os.Getenv("GVC_DUMPINV"); f != "" && strings.HasPrefix(c.name, os.Getenv("GVC_INV")) {
						hyps := append(st.pc.list(), not(t))
						for i, g := range splitGoal(t) {
							r := x.proves(st, g, x.opt.proveTimeout) || once(append(st.pc.list(), not(g)), x.opt.proveTimeout, true)
							fmt.Println("   part", i, r, clip(show(g), 400))
							if !r {
								hyps = append(st.pc.list(), not(g))
								break
							}
						}
						b := ""
						for _, h := range hyps {
							b += show(h) + "\n"
						}
						newestQ = os.Getenv("GVC_NEWEST") != ""
						os.WriteFile(f, []byte(oneShot(hyps, true, "")), 0644)
						newestQ = false
						os.WriteFile(f+".txt", []byte(b), 0644)
					}
				} else {
					fmt.Printf("  loop %s: %s cannot be evaluated at the back edge\n", lc.where, c.name)
				}
			}
			lc.dead[c] = true
			lc.changed = true
		}
	}
}

// findMods adds to the set of memory the loop writes.
func (x *Exec) findMods(st *State, lc *loopCtx) {
	if len(st.events) > len(lc.hdrEvs) {
		m := lc.evMods
		if m == nil {
			m = &modSet{}
			lc.evMods = m
			lc.changed = true
		}
		before := fmt.Sprint(m.refs, m.whole, m.low)
		for _, e := range st.events[len(lc.hdrEvs):] {
			if m.whole {
				break
			}
			if e.whole {
				if x.opt.verbose {
					fmt.Printf("  loop %s: an event writes everything\n", lc.where)
				}
				m.whole = true
				break
			}
			for _, r := range e.mods {
				n0 := len(m.refs)
				x.addMod(st, lc, r.ref, m)
				if m.class == nil {
					m.class = map[*Term]string{}
				}
				for _, a := range m.refs[n0:] {
					m.class[a] = r.key
				}
				for _, a := range m.refs[:n0] {
					if a == r.ref && m.class[a] != r.key {
						m.class[a] = ""
					}
				}
				if len(m.refs) == n0 { // may have been mapped to a known reference
					for _, a := range m.refs {
						if a != r.ref && m.class[a] != r.key {
							m.class[a] = ""
						}
					}
				}
			}
			x.addModFrontier(st, lc, e.frontier, m)
		}
		if before != fmt.Sprint(m.refs, m.whole, m.low) {
			lc.changed = true
		}
	}
	for k, cur := range st.heaps {
		hdr, ok := lc.hdrHeaps[k]
		if !ok {
			hdr = x.lateHeapEv(lc.hdrEvs, st, k, cur.sort)
		}
		if cur == hdr {
			continue
		}
		m := lc.mods[k]
		if m == nil {
			m = &modSet{}
			if lc.entryHp == nil {
				lc.entryHp = map[string]*Term{}
			}
			if _, ok := lc.hdrHeaps[k]; !ok {
				lc.entryHp[k] = hdr
			}
		}
		if m.whole {
			continue
		}
		before := fmt.Sprint(m.refs, m.whole, m.low)
		if !strings.HasPrefix(k, "G:") {
			x.chainMods(st, lc, cur, hdr, m)
		}
		if lc.mods[k] == nil || before != fmt.Sprint(m.refs, m.whole, m.low) {
			lc.mods[k] = m
			lc.changed = true
		}
	}
}

// lateHeap is the content a heap had before it was first used.
func (x *Exec) lateHeap(st *State, key string, sort Sort) *Term {
	return x.lateHeapEv(st.events, st, key, sort)
}

func (x *Exec) lateHeapEv(events []*frameEvent, st *State, key string, sort Sort) *Term {
	if h, ok := x.init[key]; ok {
		for _, e := range events {
			h = x.applyEvent(h, key, e)
		}
		return h
	}
	return x.initHeap(st, key, sort)
}

// chainMods finds the references whose content differs between the memory at the header and the current one: those
// written since their nearest common origin (a second write to a reference replaces the first one in the term).
func (x *Exec) chainMods(st *State, lc *loopCtx, cur, hdr *Term, m *modSet) {
	origin := map[*Term]bool{}
	for h := hdr; ; h = h.args[0] {
		origin[h] = true
		if h.op != "store" && h.op != "frame" {
			break
		}
	}
	step := func(t *Term) *Term {
		switch t.op {
		case "store":
			x.addMod(st, lc, t.args[1], m)
		case "frame":
			for _, r := range t.args[3:] {
				x.addMod(st, lc, r, m)
			}
			x.addModFrontier(st, lc, t.args[2], m)
		}
		return t.args[0]
	}
	for !origin[cur] {
		switch cur.op {
		case "store", "frame":
			cur = step(cur)
		case "ite":
			x.chainMods(st, lc, cur.args[1], hdr, m)
			cur = cur.args[2]
		default:
			if x.opt.verbose {
				fmt.Printf("  loop %s: memory %s, header %s\n", lc.where, chainText(cur), chainText(hdr))
			}
			m.whole = true
			return
		}
		if m.whole {
			return
		}
	}
	for h := hdr; h != cur && !m.whole; {
		h = step(h)
	}
}

func (x *Exec) addModFrontier(st *State, lc *loopCtx, f *Term, m *modSet) {
	if x.provesQ(st, le(lc.alloc0, f)) {
		return
	}
	if x.provesQ(st, le(lc.allocIn, f)) {
		m.low = lc.allocIn
		return
	}
	if x.opt.verbose {
		fmt.Printf("  loop %s: frontier %s unknown\n", lc.where, clip(show(f), 200))
	}
	m.whole = true
}

func (x *Exec) addMod(st *State, lc *loopCtx, r *Term, m *modSet) {
	if r.fresh && r.seq > lc.marker {
		return
	}
	for _, o := range m.refs {
		if o == r {
			return
		}
	}
	if r.seq <= lc.marker {
		m.refs = append(m.refs, r)
		return
	}
	if x.provesQ(st, le(lc.alloc0, r)) {
		return
	}
	// one of the entry references, or allocated by the loop
	for _, e := range x.entryRefs(lc) {
		if x.provesQ(st, or(eq(r, e), le(lc.alloc0, r))) {
			for _, o := range m.refs {
				if o == e {
					return
				}
			}
			m.refs = append(m.refs, e)
			return
		}
	}
	if x.provesQ(st, le(lc.allocIn, r)) {
		if x.opt.verbose {
			fmt.Printf("  loop %s: writes memory of the function: %s\n", lc.where, clip(show(r), 200))
		}
		m.low = lc.allocIn
		return
	}
	if x.opt.verbose {
		fmt.Printf("  loop %s: writes unknown memory %s\n", lc.where, show(r))
	}
	m.whole = true
}

func (x *Exec) entryRefs(lc *loopCtx) []*Term {
	var out []*Term
	var add func(v Value, t types.Type)
	add = func(v Value, t types.Type) {
		switch w := v.(type) {
		case *SliceV:
			if w.ref != tZero {
				out = append(out, w.ref)
			}
		case *IfaceV:
			add(w.v, w.typ)
		case *Term:
			if w.sort == SVal && !isCtor(w) {
				out = append(out, sel("vlr", w), sel("vr", w))
			} else if w.sort == SInt && t != nil {
				switch under(t).(type) {
				case *types.Map, *types.Pointer:
					out = append(out, w)
				}
			}
		}
	}
	for _, p := range lc.phis {
		add(lc.entry[p], p.Type())
	}
	out = append(out, lc.outer...)
	for _, p := range lc.params {
		add(p.v, p.t)
	}
	var uniq []*Term
	for i, r := range out {
		dup := false
		for _, o := range out[:i] {
			dup = dup || o == r
		}
		if !dup && r != tZero {
			uniq = append(uniq, r)
		}
	}
	return uniq
}

type paramVal struct {
	v Value
	t types.Type
}

// ---- candidates ----

func (x *Exec) candTerm(c *cand, st *State, v *loopVals) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if x.opt.verbose {
					fmt.Println("  candidate", c.name, ":", u.why)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(st, v)
}

// refOf gives the reference part of a loop-carried value.
func refOf(v Value) *Term {
	switch w := v.(type) {
	case *SliceV:
		return w.ref
	case *IfaceV:
		return refOf(w.v)
	case *Term:
		if w.sort == SVal {
			return sel("vlr", w)
		}
		if w.sort == SInt {
			return w
		}
	}
	return nil
}

func sliceOf(v Value) *SliceV {
	switch w := v.(type) {
	case *SliceV:
		return w
	case *IfaceV:
		return sliceOf(w.v)
	}
	return nil
}

func (x *Exec) genCands(fr *Frame, st *State, lc *loopCtx) {
	add := func(name string, user bool, f func(st *State, v *loopVals) *Term) {
		lc.cands = append(lc.cands, &cand{name, user, f})
	}
	// loop-invariant integers compared inside the loop
	var bounds []*Term
	seen := map[int]bool{}
	addB := func(t *Term) {
		if t != nil && t.sort == SInt && !seen[t.id] {
			seen[t.id] = true
			bounds = append(bounds, t)
		}
	}
	inv := func(v ssa.Value) *Term {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value == nil {
				return nil
			}
			if t, ok := x.constVal(c).(*Term); ok && t.sort == SInt {
				return t
			}
			return nil
		}
		if i, ok := v.(ssa.Instruction); ok && lc.body[i.Block()] {
			// recomputed inside: len of something defined outside
			if c, ok := v.(*ssa.Call); ok {
				if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					if s, ok := fr.env[c.Call.Args[0]].(*SliceV); ok {
						if ai, ok := c.Call.Args[0].(ssa.Instruction); !ok || !lc.body[ai.Block()] {
							return s.len
						}
					}
				}
			}
			return nil
		}
		if t, ok := fr.env[v].(*Term); ok && t.sort == SInt {
			return t
		}
		return nil
	}
	for b := range lc.body {
		for _, ins := range b.Instrs {
			if bo, ok := ins.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
					if basicIsInt(bo.X.Type()) {
						addB(inv(bo.X))
						addB(inv(bo.Y))
					}
				}
			}
		}
	}
	sort.Slice(bounds, func(i, j int) bool { return bounds[i].id < bounds[j].id })
	for _, p := range lc.phis {
		p := p
		e := lc.entry[p]
		switch w := e.(type) {
		case *Term:
			if w.sort == SInt && basicIsInt(p.Type()) {
				get := func(v *loopVals) *Term { return v.phi[p].(*Term) }
				add(p.Name()+">=entry", false, func(st *State, v *loopVals) *Term { return le(w, get(v)) })
				add(p.Name()+"<=entry", false, func(st *State, v *loopVals) *Term { return le(get(v), w) })
				for _, bd := range bounds {
					bd := bd
					add(fmt.Sprintf("%s<=%s", p.Name(), show(bd)), false, func(st *State, v *loopVals) *Term { return le(get(v), bd) })
					add(fmt.Sprintf("%s<%s", p.Name(), show(bd)), false, func(st *State, v *loopVals) *Term { return lt(get(v), bd) })
					add(fmt.Sprintf("%s>=%s", p.Name(), show(bd)), false, func(st *State, v *loopVals) *Term { return le(bd, get(v)) })
				}
				for _, q := range lc.phis {
					q := q
					if q == p {
						continue
					}
					if s := sliceOf(lc.entry[q]); s != nil {
						d := subT(s.len, w)
						add(fmt.Sprintf("len(%s)-%s=entry", q.Name(), p.Name()), false, func(st *State, v *loopVals) *Term {
							if sl := sliceOf(v.phi[q]); sl != nil {
								return eq(subT(sl.len, get(v)), d)
							}
							return nil
						})
						add(fmt.Sprintf("len(%s)-%s<=entry", q.Name(), p.Name()), false, func(st *State, v *loopVals) *Term {
							if sl := sliceOf(v.phi[q]); sl != nil {
								return le(subT(sl.len, get(v)), d)
							}
							return nil
						})
					}
					if t, ok := lc.entry[q].(*Term); ok && t.sort == SInt && basicIsInt(q.Type()) && q.Name() > p.Name() {
						d := subT(t, w)
						add(fmt.Sprintf("%s-%s=entry", q.Name(), p.Name()), false, func(st *State, v *loopVals) *Term {
							return eq(subT(v.phi[q].(*Term), get(v)), d)
						})
					}
				}
			} else if w.sort == SVal {
				add("tag("+p.Name()+")", false, func(st *State, v *loopVals) *Term { return eq(tagOf(x.asVal(v.phi[p])), tagOf(w)) })
				if isCtor(w) || x.provesQ(st, tester("vslice", w)) {
					add("list("+p.Name()+")", false, func(st *State, v *loopVals) *Term { return tester("vslice", x.asVal(v.phi[p])) })
				}
				add("value "+p.Name()+" kept", false, func(st *State, v *loopVals) *Term { return eq(x.asVal(v.phi[p]), w) })
			} else {
				add(p.Name()+" kept", false, func(st *State, v *loopVals) *Term {
					if t, ok := v.phi[p].(*Term); ok {
						return eq(t, w)
					}
					return nil
				})
			}
		}
		if s := sliceOf(e); s != nil {
			get := func(v *loopVals) *SliceV { return sliceOf(v.phi[p]) }
			mk := func(name string, f func(*SliceV) *Term) {
				add(name+"("+p.Name()+")", false, func(st *State, v *loopVals) *Term {
					if g := get(v); g != nil {
						return f(g)
					}
					return nil
				})
			}
			mk("ref kept", func(g *SliceV) *Term { return eq(g.ref, s.ref) })
			mk("off kept", func(g *SliceV) *Term { return eq(g.off, s.off) })
			mk("own memory", func(g *SliceV) *Term { return or(eq(g.ref, s.ref), le(lc.alloc0, g.ref)) })
			mk("function memory", func(g *SliceV) *Term { return or(eq(g.ref, tZero), le(lc.allocIn, g.ref)) })
			mk("len grows", func(g *SliceV) *Term { return le(s.len, g.len) })
			mk("len kept", func(g *SliceV) *Term { return eq(s.len, g.len) })
			mk("cap kept", func(g *SliceV) *Term { return eq(s.cap, g.cap) })
		} else if t, ok := e.(*Term); ok && t.sort == SVal {
			add("own memory("+p.Name()+")", false, func(st *State, v *loopVals) *Term {
				g := x.asVal(v.phi[p])
				return implies(tester("vslice", g), or(eq(sel("vlr", g), sel("vlr", t)), le(lc.alloc0, sel("vlr", g))))
			})
		} else if t, ok := e.(*Term); ok && t.sort == SInt && !basicIsInt(p.Type()) {
			add("own memory("+p.Name()+")", false, func(st *State, v *loopVals) *Term {
				g, ok := v.phi[p].(*Term)
				if !ok {
					return nil
				}
				return or(eq(g, t), le(lc.alloc0, g))
			})
		}
	}
	// visited keys were keys of the map, and string positions stay inside
	for b := range lc.body {
		for _, ins := range b.Instrs {
			n, ok := ins.(*ssa.Next)
			if !ok {
				continue
			}
			switch it := fr.env[n.Iter].(type) {
			case *MapIterV:
				dom0 := st.ghost[it.seen+":dom"].(*Term)
				ks, _, _, _ := x.mapParts(it.typ)
				add("visited keys are keys", false, func(st *State, v *loopVals) *Term {
					s := st.ghost[it.seen].(*Term)
					return forallKey(ks, func(q *Term) *Term { return implies(sel2(s, q), sel2(dom0, q)) })
				})
			case *StrIterV:
				add("position in string", false, func(st *State, v *loopVals) *Term {
					return le(st.ghost[it.cell].(*Term), strLen(it.s))
				})
			}
		}
	}
	x.userCands(fr, st, lc, add)
}

func basicIsInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// userCands instantiates the invariants given by the specification over the loop-carried values.
func (x *Exec) userCands(fr *Frame, st *State, lc *loopCtx, add func(string, bool, func(*State, *loopVals) *Term)) {
	for li, f := range x.loopInvs {
		f := f
		sig := f.fn.Signature
		var options [][]hole
		okAll := true
		for i := 0; i < sig.Params().Len(); i++ {
			pt := sig.Params().At(i).Type()
			var hs []hole
			for _, p := range lc.phis {
				p := p
				if types.Identical(p.Type(), pt) || isIface(pt) && isIface(p.Type()) && types.AssignableTo(p.Type(), pt) {
					hs = append(hs, hole{p.Name(), func(st *State, v *loopVals) Value { return v.phi[p] }})
					if b, ok := under(pt).(*types.Basic); ok && b.Kind() == types.Int {
						if isRangeIndex(p) {
							hs[len(hs)-1] = hole{p.Name() + "+1", func(st *State, v *loopVals) Value { return addT(v.phi[p].(*Term), tOne) }}
						}
					}
				} else if s := sliceElem(p.Type()); s != nil && sliceElem(pt) != nil && types.Identical(s, sliceElem(pt)) {
					hs = append(hs, hole{p.Name(), func(st *State, v *loopVals) Value { return v.phi[p] }})
				} else if isIface(p.Type()) && sliceElem(pt) != nil && isIface(sliceElem(pt)) {
					// the elements of a list value
					if iv, ok := lc.entry[p].(*IfaceV); ok && sliceElem(iv.typ) != nil && types.Identical(sliceElem(iv.typ), sliceElem(pt)) {
						hs = append(hs, hole{p.Name(), func(st *State, v *loopVals) Value {
							if s := sliceOf(v.phi[p]); s != nil {
								return s
							}
							unsup("no list")
							return nil
						}})
					}
				}
			}
			if isSetType(pt) {
				for k := range lc.seens {
					if strings.HasPrefix(k, "seen:") {
						k := k
						hs = append(hs, hole{"visited", func(st *State, v *loopVals) Value { return &setV{st.ghost[k].(*Term)} }})
					}
				}
			}
			// values held in the loop's surroundings: slices, maps and lists made before the loop
			if len(hs) == 0 || isSlice(pt) {
				hs = append(hs, x.ambient(fr, lc, pt)...)
			}
			if len(hs) == 0 {
				okAll = false
				break
			}
			options = append(options, hs)
		}
		if !okAll {
			continue
		}
		total := 1
		for _, o := range options {
			total *= len(o)
		}
		if total > 200 {
			continue
		}
		for n := 0; n < total; n++ {
			var pick []hole
			m := n
			dup := false
			name := fmt.Sprintf("inv%d", li)
			used := map[string]bool{}
			for _, o := range options {
				h := o[m%len(o)]
				pick = append(pick, h)
				if used[h.name] {
					dup = true
				}
				used[h.name] = true
				name += " " + h.name
				m /= len(o)
			}
			if dup {
				continue
			}
			add(name, true, func(st *State, v *loopVals) *Term {
				var args []Value
				for _, h := range pick {
					args = append(args, h.get(st, v))
				}
				r := x.pureEval(fr, st, f, args, nil)
				t, _ := r.(*Term)
				return t
			})
		}
	}
}

func sliceElem(t types.Type) types.Type {
	if s, ok := under(t).(*types.Slice); ok {
		return s.Elem()
	}
	return nil
}

func isRangeIndex(p *ssa.Phi) bool { return p.Comment == "rangeindex" }

type hole struct {
	name string
	get  func(st *State, v *loopVals) Value
}

// ambient lists the values of the type that exist outside the loop; their content may change in it.
func (x *Exec) ambient(fr *Frame, lc *loopCtx, pt types.Type) []hole {
	var names []ssa.Value
	for v := range fr.env {
		if i, ok := v.(ssa.Instruction); ok && lc.body[i.Block()] {
			continue
		}
		names = append(names, v)
	}
	sort.Slice(names, func(i, j int) bool { return names[i].Name() < names[j].Name() })
	var out []hole
	seen := map[string]bool{}
	put := func(n ssa.Value, v Value) {
		k := describe(v)
		if !seen[k] {
			seen[k] = true
			out = append(out, hole{n.Name(), func(*State, *loopVals) Value { return v }})
		}
	}
	pe := sliceElem(pt)
	for _, n := range names {
		v := fr.env[n]
		if pe != nil {
			if s := sliceOf(v); s != nil && types.Identical(s.elem, pe) {
				put(n, s)
			} else if t, ok := v.(*Term); ok && isListIface(n.Type()) && isIface(pe) {
				// a list known only by the contract that returned it
				if !seen[describe(v)] {
					seen[describe(v)] = true
					out = append(out, hole{n.Name(), func(st *State, _ *loopVals) Value { return x.payload(st, t) }})
				}
			}
			continue
		}
		if mt, ok := under(pt).(*types.Map); ok && !isSetType(pt) {
			if nm, ok := under(n.Type()).(*types.Map); ok && types.Identical(nm, mt) {
				put(n, v)
			} else if iv, ok := v.(*IfaceV); ok {
				if nm, ok := under(iv.typ).(*types.Map); ok && types.Identical(nm, mt) {
					put(n, iv.v)
				}
			}
			continue
		}
		if types.Identical(n.Type(), pt) {
			put(n, v)
		}
	}
	return out
}

// isListIface: an interface that offers its elements as an array.
func isListIface(t types.Type) bool {
	it, ok := under(t).(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "AsArray" {
			return true
		}
	}
	return false
}

// chainText outlines the writes that make up a memory term.
func chainText(t *Term) string {
	switch t.op {
	case "store":
		return chainText(t.args[0]) + " <- " + show(t.args[1])
	case "frame":
		return chainText(t.args[0]) + " <- frame " + show(t.args[1]) + " from " + show(t.args[2])
	case "ite":
		return "(" + chainText(t.args[1]) + " or " + chainText(t.args[2]) + ")"
	}
	return show(t)
}
