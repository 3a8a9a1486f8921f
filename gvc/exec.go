package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type options struct {
	only         int // the case to verify, counted from 1; 0 for all
	feasTimeout  time.Duration
	proveTimeout time.Duration
	oblTimeout   time.Duration
	maxPaths     int
	strings      string // abstract, native
	budget       time.Duration
	eager        bool
	maxPort      int
	verbose      bool
}

// Exec verifies one contract function.
type Exec struct {
	w     *World
	hname string
	opt   options
	qf    *Live
	full  *Live

	init     map[string]*Term
	initSyms map[int]bool
	inputs   map[int]bool
	alloc0   *Term

	feasCache             map[cacheKey]bool
	proveCache, onceCache map[cacheKey]bool
	countDefs             map[string][]*Term
	global                map[int]bool // definitions that hold on every path

	spec        *Spec
	obls        []*Obligation
	record      int // obligations are recorded when 0
	pure        int // evaluating a specification closure
	paths       int
	ends        int
	endPCs      []*pcNode
	used        map[string]bool // contracts used
	inlined     map[string]bool // repository functions inlined
	extern      map[string]bool // external functions modelled
	assumed     map[string]bool // assumptions made
	deadline    time.Time
	initSt      *State
	loopInfo    map[*ssa.Function]*loops
	invs        int
	loopInvs    []*FuncV
	subjAt      *subjectCtx
	loopLog     map[string]bool
	cone        map[*ssa.Function]bool
	rangeSeq    int
	eventSeq    int
	ghostFuncs  map[int]*types.Signature
	opaqueNot   map[string]bool
	constHeaps  map[string]bool
	loopInvKept map[string]bool
	lemmaN      int
	subject     map[string]bool
	covered     map[string]bool
	specAlloc   *Term
	reachable   bool
	nport       int
}

// Obligation is one proof obligation.
type Obligation struct {
	Name    string
	Kind    string
	pc      *pcNode
	goal    *Term
	open    []*Term
	trail   string
	facts   *State
	Status  string // discharged, failed, unknown
	Backend string
	Time    time.Duration
	Raw     string
}

type subjectCtx struct {
	pre    *State
	mods   []modRef
	active bool
}

type modRef struct {
	key string // heap key prefix, "" = any
	ref *Term
}

// Frame is an activation; frames are copied when paths fork.
type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]Value
	defers    []*deferred
	caller    *Frame
	k         cont
	depth     int
	loops     map[*ssa.BasicBlock]*loopCtx
	pidx      int // index of the panic being handled by this deferred call, -1 otherwise
	deferred  bool
	unwind    int // index of the panic unwinding this frame, -1 otherwise
	assume    *assumeCtx
	spec      bool
	allocIn   *Term
	inSubject bool
	site      string
}

type deferred struct {
	fn   *FuncV
	args []Value
	call *ssa.CallCommon
}

type cont func(st *State, res Value, pan Value)

type assumeCtx struct {
	spec *Spec
	id   int
	site string
	args []Value

	branch *pcNode       // where the contract was applied
	marker int           // older symbols
	newer  map[int]*Term // meaning of "Fresh" conditions
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Value, len(fr.env)+4)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = append([]*deferred{}, fr.defers...)
	n.loops = make(map[*ssa.BasicBlock]*loopCtx, len(fr.loops))
	for k, v := range fr.loops {
		n.loops[k] = v
	}
	return &n
}

func (x *Exec) checkBudget() {
	if time.Now().After(x.deadline) {
		unsup("time budget exhausted")
	}
	if x.paths > x.opt.maxPaths {
		unsup("too many paths (%d)", x.paths)
	}
}

// ---- operands ----

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Value {
	switch w := v.(type) {
	case *ssa.Const:
		return x.constVal(w)
	case *ssa.Function:
		return &FuncV{fn: w}
	case *ssa.Global:
		return &PtrV{kind: 'g', root: w.String(), elem: deref(w.Type())}
	case *ssa.Builtin:
		return &FuncV{intr: "builtin:" + w.Name()}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn))
	}
	return r
}

func deref(t types.Type) types.Type {
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (x *Exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	r := x.val(fr, st, v)
	if t, ok := r.(*Term); ok {
		return t
	}
	ts := x.toTerms(r, v.Type())
	if len(ts) != 1 {
		unsup("term of %T", r)
	}
	return ts[0]
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch basicSort(u) {
		case SBool:
			return boolT(constant.BoolVal(c.Value))
		case SInt:
			n, ok := constant.Val(constant.ToInt(c.Value)).(*big.Int)
			if ok {
				return bigT(n)
			}
			i, _ := constant.Int64Val(constant.ToInt(c.Value))
			return intT(i)
		case SStr:
			return strT(constant.StringVal(c.Value))
		case SFlt:
			f, _ := constant.Float64Val(c.Value)
			return fltT(f)
		}
	case *types.TypeParam:
	}
	unsup("constant %s of type %s", c, t)
	return nil
}

// ---- calls ----

// callFn runs fn with the arguments.
func (x *Exec) callFn(caller *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
	fn := f.fn
	if fn.Blocks == nil {
		x.w.build(fn)
	}
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
		rec := 0
		for p := caller; p != nil; p = p.caller {
			if p.fn == fn {
				rec++
			}
		}
		if rec > 2 {
			unsup("recursive call of %s", fn)
		}
	}
	if depth > 60 {
		unsup("call depth")
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, caller: caller, k: k, depth: depth, loops: map[*ssa.BasicBlock]*loopCtx{}, pidx: -1, unwind: -1, allocIn: st.alloc, site: site}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("args of %s: %d %d", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = f.bind[i]
	}
	x.runBlock(fr, st, fn.Blocks[0], nil)
}

func (x *Exec) runBlock(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	if st.dead {
		return
	}
	x.checkBudget()
	// leaving loops
	for h, lc := range fr.loops {
		if !lc.body[b] {
			if lc.checking {
				return // only the back edges matter while invariants are being checked
			}
			delete(fr.loops, h)
		}
	}
	if prev != nil {
		li := x.loopsOf(fr.fn)
		if body := li.bodies[b]; body != nil {
			if body[prev] { // back edge
				if lc := fr.loops[b]; lc != nil {
					x.backEdge(fr, st, b, prev, lc)
					return
				}
				unsup("irreducible loop in %s", fr.fn)
			}
			x.enterLoop(fr, st, b, prev, body)
			return
		}
	}
	x.evalPhis(fr, st, b, prev)
	x.runInstrs(fr, st, b, x.firstNonPhi(b))
}

func (x *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func (x *Exec) phiVals(fr *Frame, st *State, b, prev *ssa.BasicBlock) map[*ssa.Phi]Value {
	vals := map[*ssa.Phi]Value{}
	if prev == nil {
		return vals
	}
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = x.val(fr, st, p.Edges[idx])
	}
	return vals
}

func (x *Exec) evalPhis(fr *Frame, st *State, b, prev *ssa.BasicBlock) {
	for p, v := range x.phiVals(fr, st, b, prev) {
		fr.env[p] = v
	}
}

func (x *Exec) pos(fr *Frame, ins ssa.Instruction) string {
	p := x.w.prog.Fset.Position(ins.Pos())
	f := p.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// split runs the two sides of a condition; each side receives its own state and frame.
func (x *Exec) split(fr *Frame, st *State, cond *Term, then, els func(fr *Frame, st *State)) {
	t := x.feasible(st, cond)
	e := x.feasible(st, not(cond))
	if t && e {
		x.paths++
		st2, fr2 := st.fork(), fr.clone()
		st2.assume(cond)
		then(fr2, st2)
		st.assume(not(cond))
		els(fr, st)
		return
	}
	if t {
		st.assume(cond)
		then(fr, st)
	} else if e {
		st.assume(not(cond))
		els(fr, st)
	}
}

// guard panics on the paths where ok does not hold and continues on the others.
func (x *Exec) guard(fr *Frame, st *State, ok *Term, what string, ins ssa.Instruction) bool {
	if ok == tTrue {
		return true
	}
	if x.provesQ(st, ok) {
		st.fact(ok)
		return true
	}
	if x.pure == 0 && x.proves(st, ok, x.opt.proveTimeout) {
		st.fact(ok)
		return true
	}
	st2, fr2 := st.fork(), fr.clone()
	st2.assume(not(ok))
	x.paths++
	st2.note("%s at %s", what, x.pos(fr, ins))
	x.unwind(fr2, st2, x.runtimeError(st2, what))
	st.assume(ok)
	return !st.dead
}

func (x *Exec) runtimeError(st *State, what string) Value {
	return ctor("vopq", intT(tagRuntimeError), sym("rterr", SInt))
}

// unwind starts (or continues) panicking in frame fr.
func (x *Exec) unwind(fr *Frame, st *State, pan Value) {
	if st.dead {
		return
	}
	for _, lc := range fr.loops {
		if lc.checking {
			return
		}
	}
	st.panics = append(append([]panicRec{}, st.panics...), panicRec{val: pan})
	fr.unwind = len(st.panics) - 1
	x.runDefers(fr, st, func(fr *Frame, st *State) {
		rec := st.panics[fr.unwind]
		st.panics = append([]panicRec{}, st.panics[:fr.unwind]...)
		if !rec.recovered {
			fr.k(st, nil, rec.val)
			return
		}
		fr.unwind = -1
		if fr.fn.Recover != nil {
			fr.loops = map[*ssa.BasicBlock]*loopCtx{}
			x.runInstrs(fr, st, fr.fn.Recover, 0)
			return
		}
		res := fr.fn.Signature.Results()
		var out TupleV
		for i := 0; i < res.Len(); i++ {
			out = append(out, x.zero(res.At(i).Type()))
		}
		fr.k(st, tupleOrOne(out), nil)
	})
}

func tupleOrOne(t TupleV) Value {
	switch len(t) {
	case 0:
		return nil
	case 1:
		return t[0]
	}
	return t
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*Frame, *State)) {
	if len(fr.defers) == 0 {
		k(fr, st)
		return
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	cont := func(st *State, _ Value, pan Value) {
		fr2 := fr.clone()
		if pan != nil {
			if fr2.unwind >= 0 { // a new panic replaces the current one
				st.panics = append([]panicRec{}, st.panics[:fr2.unwind]...)
			}
			x.unwind(fr2, st, pan)
			return
		}
		x.runDefers(fr2, st, k)
	}
	x.applyFunc(fr, st, d.fn, d.args, d.call, "defer", true, cont)
}

// applyFunc calls a function value.
func (x *Exec) applyFunc(fr *Frame, st *State, f *FuncV, args []Value, call *ssa.CallCommon, site string, isDefer bool, k cont) {
	if f.intr != "" {
		x.intrinsic(fr, st, f, args, call, site, k)
		return
	}
	if isDefer && len(f.fn.Blocks) > 0 && x.w.inRepo(f.fn) {
		pidx := fr.unwind
		x.callDeferred(fr, st, f, args, site, pidx, k)
		return
	}
	x.dispatch(fr, st, f, args, call, site, k)
}

func (x *Exec) callDeferred(caller *Frame, st *State, f *FuncV, args []Value, site string, pidx int, k cont) {
	fn := f.fn
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, caller: caller, k: k, depth: caller.depth + 1, loops: map[*ssa.BasicBlock]*loopCtx{}, pidx: pidx, deferred: true, unwind: -1, allocIn: st.alloc, site: site}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = f.bind[i]
	}
	x.runBlock(fr, st, fn.Blocks[0], nil)
}

// ---- instructions ----

func (x *Exec) runInstrs(fr *Frame, st *State, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		ins := b.Instrs[i]
		switch in := ins.(type) {
		case *ssa.If:
			c := x.term(fr, st, in.Cond)
			pos := x.pos(fr, ins)
			_ = pos
			x.split(fr, st, c,
				func(fr *Frame, st *State) { x.runBlock(fr, st, b.Succs[0], b) },
				func(fr *Frame, st *State) { x.runBlock(fr, st, b.Succs[1], b) })
			return
		case *ssa.Jump:
			x.runBlock(fr, st, b.Succs[0], b)
			return
		case *ssa.Return:
			var out TupleV
			for _, r := range in.Results {
				out = append(out, x.val(fr, st, r))
			}
			for _, lc := range fr.loops {
				if lc.checking {
					return
				}
			}
			fr.k(st, tupleOrOne(out), nil)
			return
		case *ssa.Panic:
			v := x.val(fr, st, in.X)
			st.note("panic at %s", x.pos(fr, ins))
			x.unwind(fr, st, v)
			return
		case *ssa.RunDefers:
			x.runDefers(fr, st, func(fr *Frame, st *State) { x.runInstrs(fr, st, b, i+1) })
			return
		case *ssa.Defer:
			f, args := x.calleeAndArgs(fr, st, &in.Call)
			fr.defers = append(fr.defers, &deferred{f, args, &in.Call})
			continue
		case *ssa.Call:
			pos := x.pos(fr, ins)
			idx := i
			x.doCall(fr, st, &in.Call, in, pos, func(st *State, res Value, pan Value) {
				fr2 := fr.clone()
				if pan != nil {
					x.unwind(fr2, st, pan)
					return
				}
				fr2.env[in] = res
				x.runInstrs(fr2, st, b, idx+1)
			})
			return
		case *ssa.TypeAssert:
			idx := i
			x.typeAssert(fr, st, in, func(fr *Frame, st *State, v Value) {
				fr.env[in] = v
				x.runInstrs(fr, st, b, idx+1)
			})
			return
		case *ssa.Next:
			idx := i
			x.next(fr, st, in, func(fr *Frame, st *State, v Value) {
				fr.env[in] = v
				x.runInstrs(fr, st, b, idx+1)
			})
			return
		case *ssa.Lookup:
			if v, ok := x.lookup(fr, st, in); ok {
				fr.env[in] = v
				continue
			}
			return
		case *ssa.Go, *ssa.Send, *ssa.Select:
			unsup("concurrency in %s", fr.fn)
		default:
			if !x.simple(fr, st, ins) {
				return
			}
		}
	}
	panic("fell off block in " + fr.fn.String())
}

// simple executes an instruction that neither branches nor calls; false when the path ended.
func (x *Exec) simple(fr *Frame, st *State, ins ssa.Instruction) bool {
	switch in := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.env[in] = x.alloc(st, deref(in.Type()), in.Comment)
	case *ssa.UnOp:
		return x.unop(fr, st, in)
	case *ssa.BinOp:
		return x.binop(fr, st, in)
	case *ssa.Store:
		p, ok := x.ptr(fr, st, in.Addr, in)
		if !ok {
			return false
		}
		x.storeTo(st, p, x.val(fr, st, in.Val))
	case *ssa.FieldAddr:
		p, ok := x.ptr(fr, st, in.X, in)
		if !ok {
			return false
		}
		fr.env[in] = &PtrV{kind: p.kind, root: p.root, path: fmt.Sprintf("%s.%d", p.path, in.Field), ref: p.ref, idx: p.idx, elem: deref(in.Type())}
	case *ssa.Field:
		s, ok := x.val(fr, st, in.X).(*StructV)
		if !ok {
			unsup("field of %T", x.val(fr, st, in.X))
		}
		fr.env[in] = s.f[in.Field]
	case *ssa.IndexAddr:
		i := x.term(fr, st, in.Index)
		if isSlice(in.X.Type()) {
			s := x.val(fr, st, in.X).(*SliceV)
			if !x.guard(fr, st, and(le(tZero, i), lt(i, s.len)), "index out of range", in) {
				return false
			}
			fr.env[in] = &PtrV{kind: 'e', root: tstr(s.elem), ref: s.ref, idx: addT(s.off, i), elem: deref(in.Type())}
		} else {
			p, ok := x.ptr(fr, st, in.X, in)
			if !ok {
				return false
			}
			a := under(p.elem).(*types.Array)
			if !x.guard(fr, st, and(le(tZero, i), lt(i, intT(a.Len()))), "index out of range", in) {
				return false
			}
			if p.kind != 'o' || p.path != "" {
				unsup("array inside a structure")
			}
			fr.env[in] = &PtrV{kind: 'e', root: tstr(a.Elem()), ref: p.ref, idx: i, elem: deref(in.Type())}
		}
	case *ssa.Index:
		i := x.term(fr, st, in.Index)
		switch v := x.val(fr, st, in.X).(type) {
		case *Term: // string
			if !x.guard(fr, st, and(le(tZero, i), lt(i, strLen(v))), "index out of range", in) {
				return false
			}
			fr.env[in] = x.byteAt(st, v, i)
		case *ArrV:
			if !x.guard(fr, st, and(le(tZero, i), lt(i, intT(v.typ.Len()))), "index out of range", in) {
				return false
			}
			var ts []*Term
			for _, r := range v.rows {
				ts = append(ts, sel2(r, i))
			}
			fr.env[in] = x.fromTerms(ts, in.Type())
		default:
			unsup("index of %T", v)
		}
	case *ssa.Extract:
		t, ok := x.val(fr, st, in.Tuple).(TupleV)
		if !ok {
			unsup("extract from %T", x.val(fr, st, in.Tuple))
		}
		fr.env[in] = t[in.Index]
	case *ssa.MakeInterface:
		v := x.val(fr, st, in.X)
		fr.env[in] = &IfaceV{types.Unalias(in.X.Type()), v}
	case *ssa.ChangeInterface:
		fr.env[in] = x.val(fr, st, in.X)
	case *ssa.ChangeType:
		fr.env[in] = x.changeType(x.val(fr, st, in.X), in.Type())
	case *ssa.Convert:
		return x.convert(fr, st, in)
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range in.Bindings {
			b = append(b, x.val(fr, st, v))
		}
		fr.env[in] = &FuncV{fn: in.Fn.(*ssa.Function), bind: b}
	case *ssa.MakeSlice:
		n, c := x.term(fr, st, in.Len), x.term(fr, st, in.Cap)
		if !x.guard(fr, st, and(le(tZero, n), le(n, c)), "makeslice: len out of range", in) {
			return false
		}
		st.fact(le(c, bigT(maxLen))) // memory is finite
		fr.env[in] = x.makeSlice(st, under(in.Type()).(*types.Slice).Elem(), n, c)
	case *ssa.MakeMap:
		fr.env[in] = x.makeMap(st, under(in.Type()).(*types.Map))
	case *ssa.MapUpdate:
		m := x.term(fr, st, in.Map)
		mt := under(in.Map.Type()).(*types.Map)
		if !x.guard(fr, st, not(eq(m, tZero)), "assignment to entry in nil map", in) {
			return false
		}
		x.mapSet(st, mt, m, x.keyTerm(x.val(fr, st, in.Key), mt), x.val(fr, st, in.Value))
	case *ssa.Slice:
		return x.slice(fr, st, in)
	case *ssa.Range:
		x.rangeOver(fr, st, in)
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert, *ssa.MakeChan:
		unsup("%T", ins)
	default:
		unsup("instruction %T", ins)
	}
	return true
}

func (x *Exec) alloc(st *State, t types.Type, what string) Value {
	r := x.newRef(st, what)
	p := &PtrV{kind: 'o', root: tstr(t), ref: r, elem: t}
	x.storeTo(st, p, x.zero(t))
	return p
}

// ptr evaluates an address operand, checking for nil.
func (x *Exec) ptr(fr *Frame, st *State, v ssa.Value, ins ssa.Instruction) (*PtrV, bool) {
	switch p := x.val(fr, st, v).(type) {
	case *PtrV:
		return p, true
	case *Term:
		if q, ok := ptrTokens[p.id]; ok {
			return q, true
		}
		if !x.guard(fr, st, not(eq(p, tZero)), "nil pointer dereference", ins) {
			return nil, false
		}
		t := deref(v.Type())
		return &PtrV{kind: 'o', root: tstr(t), ref: p, elem: t}, true
	default:
		unsup("address %T", p)
	}
	return nil, false
}

func (x *Exec) changeType(v Value, t types.Type) Value {
	switch w := v.(type) {
	case *StructV:
		return &StructV{t, w.f}
	case *SliceV:
		return &SliceV{w.ref, w.off, w.len, w.cap, under(t).(*types.Slice).Elem()}
	case *PtrV:
		if p, ok := under(t).(*types.Pointer); ok && tstr(p.Elem()) != tstr(w.elem) {
			n := *w
			n.elem = p.Elem()
			if w.path == "" && w.kind == 'o' {
				unsup("pointer conversion to %s", t)
			}
			return &n
		}
	}
	return v
}

func (x *Exec) makeSlice(st *State, elem types.Type, n, c *Term) *SliceV {
	r := x.newRef(st, "make")
	zs := x.toTerms(x.zero(elem), elem)
	for i, l := range leaves(elem) {
		k := "E:" + tstr(elem) + l.path
		h := x.heap(st, k, arr(SInt, arr(SInt, l.sort)))
		st.heaps[k] = store(h, r, constArr(arr(SInt, l.sort), zs[i]))
	}
	return &SliceV{r, tZero, n, c, elem}
}

func (x *Exec) elemHeap(st *State, elem types.Type, l leaf) (string, *Term) {
	k := "E:" + tstr(elem) + l.path
	return k, x.heap(st, k, arr(SInt, arr(SInt, l.sort)))
}

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) bool {
	var lo, hi *Term = tZero, nil
	if in.Low != nil {
		lo = x.term(fr, st, in.Low)
	}
	if in.High != nil {
		hi = x.term(fr, st, in.High)
	}
	switch v := x.val(fr, st, in.X).(type) {
	case *SliceV:
		if hi == nil {
			hi = v.len
		}
		mx := v.cap
		ok := and(le(tZero, lo), le(lo, hi), le(hi, v.cap))
		if in.Max != nil {
			mx = x.term(fr, st, in.Max)
			ok = and(le(tZero, lo), le(lo, hi), le(hi, mx), le(mx, v.cap))
		}
		if !x.guard(fr, st, ok, "slice bounds out of range", in) {
			return false
		}
		if hi != v.len && !x.provesQ(st, le(hi, v.len)) && !x.proves(st, le(hi, v.len), x.opt.proveTimeout) {
			unsup("slicing beyond the length at %s", x.pos(fr, in))
		}
		fr.env[in] = &SliceV{v.ref, addT(v.off, lo), subT(hi, lo), subT(mx, lo), v.elem}
	case *Term:
		if v.sort == SStr {
			n := strLen(v)
			st.fact(le(tZero, n))
			if hi == nil {
				hi = n
			}
			if !x.guard(fr, st, and(le(tZero, lo), le(lo, hi), le(hi, n)), "slice bounds out of range", in) {
				return false
			}
			r := strSub(v, lo, subT(hi, lo))
			if r.op == "str.substr" {
				st.fact(eq(strLen(r), subT(hi, lo)))
			}
			fr.env[in] = r
			return true
		}
		unsup("slice of pointer term")
	case *PtrV:
		a, ok := under(v.elem).(*types.Array)
		if !ok || v.kind != 'o' || v.path != "" {
			unsup("slice of %s", v.elem)
		}
		if hi == nil {
			hi = intT(a.Len())
		}
		n := intT(a.Len())
		if !x.guard(fr, st, and(le(tZero, lo), le(lo, hi), le(hi, n)), "slice bounds out of range", in) {
			return false
		}
		fr.env[in] = &SliceV{v.ref, lo, subT(hi, lo), subT(n, lo), a.Elem()}
	default:
		unsup("slice of %T", v)
	}
	return true
}

func (x *Exec) byteAt(st *State, s, i *Term) *Term {
	if s.op == "str" && isInt(i) && i.num.IsInt64() && i.num.Int64() < int64(len(s.str)) && i.num.Sign() >= 0 {
		return intT(int64(s.str[i.num.Int64()]))
	}
	c := mk("str.to_code", SInt, mk("str.at", SStr, s, i))
	if !c.bound {
		st.fact(and(le(tZero, c), le(c, intT(255))))
	}
	return c
}

func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	lo, hi := intRange(typ)
	if lo == nil || t.bound {
		return t
	}
	if isInt(t) {
		if t.num.Cmp(lo) >= 0 && t.num.Cmp(hi) <= 0 {
			return t
		}
		m := new(big.Int).Sub(hi, lo)
		m.Add(m, big.NewInt(1))
		r := new(big.Int).Sub(t.num, lo)
		r.Mod(r, m)
		return bigT(r.Add(r, lo))
	}
	in := and(le(bigT(lo), t), le(t, bigT(hi)))
	if x.provesQ(st, in) {
		return t
	}
	m := new(big.Int).Sub(hi, lo)
	m.Add(m, big.NewInt(1))
	return ite(in, t, addT(modT(subT(t, bigT(lo)), bigT(m)), bigT(lo)))
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) bool {
	switch in.Op {
	case token.MUL:
		p, ok := x.ptr(fr, st, in.X, in)
		if !ok {
			return false
		}
		if p.kind == 'g' {
			x.globalUse(st, p)
		}
		fr.env[in] = x.load(st, p)
	case token.NOT:
		fr.env[in] = not(x.term(fr, st, in.X))
	case token.SUB:
		t := x.term(fr, st, in.X)
		if t.sort == SFlt {
			fr.env[in] = mk("fp.neg", SFlt, t)
		} else {
			fr.env[in] = x.wrap(st, negT(t), in.Type())
		}
	case token.XOR:
		t := x.term(fr, st, in.X)
		lo, _ := intRange(in.Type())
		if lo.Sign() < 0 {
			fr.env[in] = subT(intT(-1), t)
		} else {
			_, hi := intRange(in.Type())
			fr.env[in] = subT(bigT(hi), t)
		}
	default:
		unsup("unary %s", in.Op)
	}
	return true
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) bool {
	a, b := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		r, ok := x.equal(fr, st, a, b, in.X.Type(), in.Y.Type(), in)
		if !ok {
			return false
		}
		if in.Op == token.NEQ {
			r = not(r)
		}
		fr.env[in] = r
		return true
	}
	p, q := a.(*Term), b.(*Term)
	if p.sort == SFlt {
		if b, ok := under(in.X.Type()).(*types.Basic); ok && b.Kind() == types.Float32 {
			unsup("float32 arithmetic")
		}
		ops := map[token.Token]string{token.ADD: "fp.add", token.SUB: "fp.sub", token.MUL: "fp.mul", token.QUO: "fp.div"}
		switch in.Op {
		case token.LSS:
			fr.env[in] = fltOp("fp.lt", p, q)
		case token.LEQ:
			fr.env[in] = fltOp("fp.leq", p, q)
		case token.GTR:
			fr.env[in] = fltOp("fp.lt", q, p)
		case token.GEQ:
			fr.env[in] = fltOp("fp.leq", q, p)
		default:
			if x.spec.Opts["floats"] == "uf" { // the operation is some function of its operands
				fr.env[in] = uf("flt"+ops[in.Op][2:], SFlt, p, q)
			} else {
				fr.env[in] = fltOp(ops[in.Op], p, q)
			}
		}
		return true
	}
	if p.sort == SStr {
		switch in.Op {
		case token.ADD:
			fr.env[in] = strCat(p, q)
		case token.LSS:
			fr.env[in] = mk("str.<", SBool, p, q)
		case token.LEQ:
			fr.env[in] = mk("str.<=", SBool, p, q)
		case token.GTR:
			fr.env[in] = mk("str.<", SBool, q, p)
		case token.GEQ:
			fr.env[in] = mk("str.<=", SBool, q, p)
		default:
			unsup("string %s", in.Op)
		}
		return true
	}
	if p.sort == SBool {
		switch in.Op {
		case token.AND:
			fr.env[in] = and(p, q)
		case token.OR:
			fr.env[in] = or(p, q)
		}
		return true
	}
	switch in.Op {
	case token.ADD:
		fr.env[in] = x.wrap(st, addT(p, q), in.Type())
	case token.SUB:
		fr.env[in] = x.wrap(st, subT(p, q), in.Type())
	case token.MUL:
		fr.env[in] = x.wrap(st, mulT(p, q), in.Type())
	case token.QUO, token.REM:
		if !x.guard(fr, st, not(eq(q, tZero)), "integer divide by zero", in) {
			return false
		}
		// truncated division from the Euclidean one
		var quo *Term
		if x.provesQ(st, le(tZero, p)) && x.provesQ(st, lt(tZero, q)) {
			quo = divT(p, q)
		} else {
			abs := func(t *Term) *Term { return ite(lt(t, tZero), negT(t), t) }
			m := divT(abs(p), abs(q))
			quo = ite(eq(lt(p, tZero), lt(q, tZero)), m, negT(m))
		}
		if in.Op == token.QUO {
			fr.env[in] = x.wrap(st, quo, in.Type())
		} else {
			fr.env[in] = subT(p, mulT(quo, q))
		}
	case token.LSS:
		fr.env[in] = lt(p, q)
	case token.LEQ:
		fr.env[in] = le(p, q)
	case token.GTR:
		fr.env[in] = lt(q, p)
	case token.GEQ:
		fr.env[in] = le(q, p)
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
		if in.Op == token.SHL || in.Op == token.SHR {
			if lo, _ := intRange(in.Y.Type()); lo != nil && lo.Sign() < 0 {
				if !x.guard(fr, st, le(tZero, q), "negative shift amount", in) {
					return false
				}
			}
		}
		name := map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot", token.SHL: "shl", token.SHR: "shr"}[in.Op]
		lo, hi := intRange(in.Type())
		t := x.bitop(name, p, q, in.Type())
		if !t.bound && t.op == "uf" {
			st.fact(and(le(bigT(lo), t), le(t, bigT(hi))))
		}
		fr.env[in] = t
	default:
		unsup("binary %s", in.Op)
	}
	return true
}

// bitop: bit operations are uninterpreted functions of the operation and the type width.
func (x *Exec) bitop(name string, p, q *Term, typ types.Type) *Term {
	lo, hi := intRange(typ)
	if isInt(p) && isInt(q) {
		r := new(big.Int)
		switch name {
		case "and":
			return bigT(r.And(p.num, q.num))
		case "or":
			return bigT(r.Or(p.num, q.num))
		case "xor":
			return bigT(r.Xor(p.num, q.num))
		case "andnot":
			return bigT(r.AndNot(p.num, q.num))
		case "shl", "shr":
			if q.num.IsInt64() && q.num.Int64() <= 64 && q.num.Sign() >= 0 {
				if name == "shr" {
					return bigT(r.Rsh(p.num, uint(q.num.Int64())))
				}
				r.Lsh(p.num, uint(q.num.Int64()))
				if r.Cmp(lo) >= 0 && r.Cmp(hi) <= 0 {
					return bigT(r)
				}
			}
		}
	}
	if name == "and" || name == "or" || name == "xor" {
		if p.id > q.id {
			p, q = q, p
		}
	}
	return uf(fmt.Sprintf("bit.%s.%d", name, hi.BitLen()), SInt, p, q)
}

// equal is Go's == on two values.
func (x *Exec) equal(fr *Frame, st *State, a, b Value, ta, tb types.Type, ins ssa.Instruction) (*Term, bool) {
	if isIface(ta) || isIface(tb) {
		// mixed comparisons do not occur in SSA: both are interfaces
		if ai, ok := a.(*IfaceV); ok {
			if bi, ok := b.(*IfaceV); ok {
				if !types.Identical(ai.typ, bi.typ) {
					return tFalse, true
				}
				if !types.Comparable(ai.typ) {
					x.guard(fr, st, tFalse, "comparing uncomparable type", ins)
					return nil, false
				}
				return x.equal(fr, st, ai.v, bi.v, ai.typ, bi.typ, ins)
			}
		}
		va, vb := x.asVal(a), x.asVal(b)
		if va == tNilV {
			return tester("vnil", vb), true
		}
		if vb == tNilV {
			return tester("vnil", va), true
		}
		// same dynamic type of an uncomparable kind: run-time panic
		bad := and(eq(tagOf(va), tagOf(vb)), or(and(tester("vslice", va), tester("vslice", vb)), and(tester("vref", va), tester("vref", vb), not(x.comparable(va))), and(tester("vopq", va), tester("vopq", vb), not(x.comparable(va))))) // a type has one representation
		if isCtor(va) && va.op != "vslice" && va.op != "vref" && va.op != "vopq" {
			bad = tFalse
		}
		if isCtor(vb) && vb.op != "vslice" && vb.op != "vref" && vb.op != "vopq" {
			bad = tFalse
		}
		if !x.guard(fr, st, not(bad), "comparing uncomparable type", ins) {
			return nil, false
		}
		return x.valEq(va, vb), true
	}
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			if pv, ok := b.(*PtrV); ok {
				if p == tZero {
					return tFalse, true
				}
				q = ptrTerm(pv)
			} else if _, ok := b.(*FuncV); ok {
				return tFalse, true // only comparisons with nil compile
			} else {
				unsup("compare %T %T", a, b)
			}
		}
		if p.sort == SFlt {
			return fltOp("fp.eq", p, q), true
		}
		return eq(p, q), true
	case *FuncV:
		return tFalse, true
	case *PtrV:
		if q, ok := b.(*Term); ok && q == tZero {
			return tFalse, true
		}
		return eq(x.toTerms(a, ta)[0], x.toTerms(b, tb)[0]), true
	case *SliceV:
		return eq(p.ref, tZero), true // only comparable with nil
	case *StructV:
		q := b.(*StructV)
		u := under(p.typ).(*types.Struct)
		r := tTrue
		for i := range p.f {
			e, ok := x.equal(fr, st, p.f[i], q.f[i], u.Field(i).Type(), u.Field(i).Type(), ins)
			if !ok {
				return nil, false
			}
			r = and(r, e)
		}
		return r, true
	}
	unsup("equality of %T", a)
	return nil, false
}

// comparable: the dynamic type of the value supports ==.
func (x *Exec) comparable(v *Term) *Term {
	t := tagOf(v)
	if isInt(t) {
		if n := t.num.Int64(); n > 0 && n < int64(len(treg.list)) {
			return boolT(types.Comparable(treg.list[n]))
		}
		return tTrue
	}
	return uf("comparable", SBool, t)
}

// valEq is == of interface values whose comparison does not panic.
func (x *Exec) valEq(a, b *Term) *Term {
	if isCtor(b) {
		a, b = b, a
	}
	if isCtor(a) {
		if a.op == "vflt" {
			return and(tester("vflt", b), eq(sel("vft", b), a.args[0]), fltOp("fp.eq", sel("vf", b), a.args[1]))
		}
		return eq(a, b)
	}
	return ite(and(tester("vflt", a), tester("vflt", b)),
		and(eq(sel("vft", a), sel("vft", b)), fltOp("fp.eq", sel("vf", a), sel("vf", b))),
		eq(a, b))
}

func (x *Exec) keyTerm(v Value, mt *types.Map) *Term {
	ts := x.toTerms(v, mt.Key())
	if len(ts) != 1 {
		unsup("map key type %s", mt.Key())
	}
	return ts[0]
}

// ---- maps ----

func mapKey(mt *types.Map) string { return tstr(mt.Key()) + "->" + tstr(mt.Elem()) }

func (x *Exec) mapParts(mt *types.Map) (ks Sort, dom, val, cnt string) {
	l := leaves(mt.Key())
	if len(l) != 1 {
		unsup("map key type %s", mt.Key())
	}
	k := mapKey(mt)
	return l[0].sort, "MD:" + k, "MV:" + k, "ML:" + k
}

func (x *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	ks, d, _, _ := x.mapParts(mt)
	return sel2(x.heap(st, d, arr(SInt, arr(ks, SBool))), m)
}

func (x *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	_, _, _, c := x.mapParts(mt)
	n := sel2(x.heap(st, c, arr(SInt, SInt)), m)
	if !n.bound {
		st.fact(and(le(tZero, n), le(n, bigT(maxLen))))
		st.fact(implies(eq(m, tZero), eq(n, tZero)))
		if !m.bound {
			x.lenFacts(st, mt, m, n)
		}
	}
	return n
}

// lenFacts ties the number of entries to the set of keys.
func (x *Exec) lenFacts(st *State, mt *types.Map, m, n *Term) {
	ks, _, _, _ := x.mapParts(mt)
	dom := x.mapDom(st, mt, m)
	key := mkN("lenfacts", "", SBool, dom, n)
	if st.facts[key.id] {
		return
	}
	st.facts[key.id] = true
	k := boundVar("k", ks)
	// empty exactly when no key is present; a witness otherwise
	st.fact(implies(eq(n, tZero), forall([]*Term{k}, not(sel2(dom, k)))))
	w := uf("somekey."+cleanName(ks), ks, dom)
	st.fact(implies(lt(tZero, n), sel2(dom, w)))
	st.fact(eq(n, cardOf(ks, dom)))
}

func (x *Exec) mapGet(st *State, mt *types.Map, m, k *Term) (has *Term, v Value) {
	_, _, vk, _ := x.mapParts(mt)
	ks, _, _, _ := x.mapParts(mt)
	has = sel2(x.mapDom(st, mt, m), k)
	if m == tZero {
		has = tFalse
	} else if !m.fresh {
		has = and(not(eq(m, tZero)), has)
	}
	var ts []*Term
	zs := x.toTerms(x.zero(mt.Elem()), mt.Elem())
	for i, l := range leaves(mt.Elem()) {
		h := x.heap(st, vk+l.path, arr(SInt, arr(ks, l.sort)))
		t := sel2(sel2(h, m), k)
		if has != tFalse {
			x.wf(st, []*Term{t}, leafType(mt.Elem(), i))
		}
		ts = append(ts, ite(has, t, zs[i]))
	}
	return has, x.fromTerms(ts, mt.Elem())
}

// leafType is used for well-formedness of single leaves; only interfaces, ints and pointers matter.
func leafType(t types.Type, i int) types.Type {
	switch under(t).(type) {
	case *types.Slice, *types.Struct:
		return types.Typ[types.Bool]
	}
	return t
}

func (x *Exec) mapSet(st *State, mt *types.Map, m, k *Term, v Value) {
	ks, d, vk, c := x.mapParts(mt)
	hd := x.heap(st, d, arr(SInt, arr(ks, SBool)))
	old := sel2(hd, m)
	has := sel2(old, k)
	hc := x.heap(st, c, arr(SInt, SInt))
	n := x.mapLen(st, mt, m)
	nd := store(old, k, tTrue)
	st.heaps[d] = store(hd, m, nd)
	nn := ite(has, n, addT(n, tOne))
	st.heaps[c] = store(hc, m, nn)
	ts := x.toTerms(v, mt.Elem())
	for i, l := range leaves(mt.Elem()) {
		key := vk + l.path
		h := x.heap(st, key, arr(SInt, arr(ks, l.sort)))
		st.heaps[key] = store(h, m, store(sel2(h, m), k, ts[i]))
	}
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m, k *Term) {
	ks, d, _, c := x.mapParts(mt)
	hd := x.heap(st, d, arr(SInt, arr(ks, SBool)))
	old := sel2(hd, m)
	has := sel2(old, k)
	hc := x.heap(st, c, arr(SInt, SInt))
	n := x.mapLen(st, mt, m)
	st.fact(implies(has, lt(tZero, n)))
	st.heaps[d] = store(hd, m, store(old, k, tFalse))
	st.heaps[c] = store(hc, m, ite(has, subT(n, tOne), n))
	x.mapLen(st, mt, m)
}

func (x *Exec) makeMap(st *State, mt *types.Map) *Term {
	m := x.newRef(st, "map")
	ks, d, _, c := x.mapParts(mt)
	st.heaps[d] = store(x.heap(st, d, arr(SInt, arr(ks, SBool))), m, constArr(arr(ks, SBool), tFalse))
	st.heaps[c] = store(x.heap(st, c, arr(SInt, SInt)), m, tZero)
	return m
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) (Value, bool) {
	if mt, ok := under(in.X.Type()).(*types.Map); ok {
		has, v := x.mapGet(st, mt, x.term(fr, st, in.X), x.keyTerm(x.val(fr, st, in.Index), mt))
		if in.CommaOk {
			return TupleV{v, has}, true
		}
		return v, true
	}
	s := x.term(fr, st, in.X)
	i := x.term(fr, st, in.Index)
	if !x.guard(fr, st, and(le(tZero, i), lt(i, strLen(s))), "index out of range", in) {
		return nil, false
	}
	return x.byteAt(st, s, i), true
}

// ---- type assertions ----

func (x *Exec) implFact(st *State) {
	// membership of the known types in the interfaces asked so far
	if st.nTags == len(treg.list) && st.nIfs == len(treg.ifaces) {
		return
	}
	for i, it := range treg.ifaces {
		for j := 1; j < len(treg.list); j++ {
			if i < st.nIfs && j < st.nTags {
				continue
			}
			f := x.implUF(it, intT(int64(j)))
			if types.Implements(treg.list[j], under(it).(*types.Interface)) {
				st.fact(f)
			} else {
				st.fact(not(f))
			}
		}
		if i >= st.nIfs {
			st.fact(not(x.implUF(it, tZero)))
			e := types.Universe.Lookup("error").Type()
			f := x.implUF(it, intT(tagRuntimeError))
			if types.Identical(it, e) {
				st.fact(f)
			} else if under(it).(*types.Interface).NumMethods() > 0 {
				st.fact(not(f))
			}
		}
	}
	st.nTags, st.nIfs = len(treg.list), len(treg.ifaces)
}

func (x *Exec) implUF(it types.Type, tag *Term) *Term {
	return uf("impl."+cleanName(tstr(it)), SBool, tag)
}

func (x *Exec) implements(st *State, v *Term, it types.Type) *Term {
	if under(it).(*types.Interface).NumMethods() == 0 {
		return not(tester("vnil", v))
	}
	tag := tagOf(v)
	if isInt(tag) {
		n := tag.num.Int64()
		if n == 0 {
			return tFalse
		}
		if n < int64(len(treg.list)) {
			return boolT(types.Implements(treg.list[n], under(it).(*types.Interface)))
		}
	}
	if n, ok := it.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		if ts := x.w.implementers(it); len(ts) > 0 {
			x.assumed["values of interface "+tstr(it)+" have one of the repository's own implementing types (closed world)"] = true
			var cs []*Term
			for _, t := range ts {
				cs = append(cs, x.isType(v, t))
			}
			return or(cs...)
		}
	}
	found := false
	for _, i := range treg.ifaces {
		found = found || types.Identical(i, it)
	}
	if !found {
		treg.ifaces = append(treg.ifaces, it)
		for _, t := range x.w.implementers(it) {
			tagID(t)
		}
	}
	x.implFact(st)
	return x.implUF(it, tag)
}

func (x *Exec) isType(v *Term, t types.Type) *Term {
	c := classOf(t)
	if isCtor(v) {
		if v.op != c {
			return tFalse
		}
		return eq(v.args[0], tagTerm(t))
	}
	return and(tester(c, v), eq(sel(ctorFields[c][0], v), tagTerm(t)))
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert, k func(*Frame, *State, Value)) {
	v := x.val(fr, st, in.X)
	at := types.Unalias(in.AssertedType)
	if t, ok := v.(*Term); ok {
		if typ, ok := st.refine[t.id]; ok {
			v = x.norm(st, &IfaceV{typ, x.unboxVal(t, typ)})
		}
	}
	yes := func(fr *Frame, st *State, r Value) {
		if in.CommaOk {
			r = TupleV{r, tTrue}
		}
		k(fr, st, r)
	}
	no := func(fr *Frame, st *State) {
		if in.CommaOk {
			k(fr, st, TupleV{x.zero(at), tFalse})
			return
		}
		st.note("type assertion to %s fails at %s", at, x.pos(fr, in))
		x.unwind(fr, st, x.runtimeError(st, "type assertion"))
	}
	if i, ok := v.(*IfaceV); ok {
		if isIface(at) {
			if types.Implements(i.typ, under(at).(*types.Interface)) || x.engineType(i) {
				yes(fr, st, v)
			} else {
				no(fr, st)
			}
		} else if types.Identical(i.typ, at) {
			yes(fr, st, i.v)
		} else {
			no(fr, st)
		}
		return
	}
	t := v.(*Term)
	if isIface(at) {
		x.split(fr, st, x.implements(st, t, at), func(fr *Frame, st *State) { yes(fr, st, t) }, no)
		return
	}
	tagID(at)
	x.implFact(st)
	x.split(fr, st, x.isType(t, at), func(fr *Frame, st *State) {
		st.refine[t.id] = at
		u := x.unboxVal(t, at)
		x.wf(st, x.toTerms(u, at), at)
		yes(fr, st, x.norm(st, u))
	}, no)
}

// engineType: values standing for library types the engine implements itself.
func (x *Exec) engineType(i *IfaceV) bool {
	switch i.v.(type) {
	case *RTypeV:
		return true
	}
	return false
}

// ---- conversions ----

func (x *Exec) convert(fr *Frame, st *State, in *ssa.Convert) bool {
	from, to := under(in.X.Type()), under(in.Type())
	v := x.val(fr, st, in.X)
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	if fok && tok {
		t := v.(*Term)
		switch {
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
			fr.env[in] = x.wrap(st, t, in.Type())
			return true
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			fr.env[in] = t
			return true
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
			fr.env[in] = x.intToFloat(st, t)
			return true
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
			fr.env[in] = x.floatToInt(st, t, in.Type())
			return true
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			if fb.Kind() == tb.Kind() {
				fr.env[in] = t
				return true
			}
			fr.env[in] = uf(fmt.Sprintf("fconv.%d.%d", fb.Kind(), tb.Kind()), SFlt, t)
			return true
		case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
			r := uf("rune2str", SStr, t)
			if !t.bound {
				st.fact(implies(and(le(tZero, t), lt(t, intT(128))), eq(r, mk("str.from_code", SStr, t))))
				st.fact(and(le(tOne, strLen(r)), le(strLen(r), intT(4))))
			}
			fr.env[in] = r
			return true
		}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if s, ok := to.(*types.Slice); ok {
			fr.env[in] = x.stringToSlice(st, v.(*Term), s.Elem())
			return true
		}
	}
	if tok && tb.Info()&types.IsString != 0 {
		if s, ok := v.(*SliceV); ok {
			fr.env[in] = x.sliceToString(st, s)
			return true
		}
	}
	unsup("conversion %s to %s", in.X.Type(), in.Type())
	return false
}

// Conversions between integers and floats are uninterpreted, with the facts IEEE 754 gives.
func (x *Exec) intToFloat(st *State, t *Term) *Term {
	if isInt(t) {
		f, _ := new(big.Float).SetInt(t.num).Float64()
		return fltT(f)
	}
	r := uf("i2f", SFlt, t)
	if !r.bound {
		st.fact(not(mk("fp.isNaN", SBool, r)))
		st.fact(not(mk("fp.isInfinite", SBool, r)))
		st.fact(eq(mk("fp.isZero", SBool, r), eq(t, tZero)))
		st.fact(implies(lt(tZero, t), not(mk("fp.isNegative", SBool, r))))
		st.fact(implies(lt(t, tZero), mk("fp.isNegative", SBool, r)))
		st.fact(implies(eq(t, tZero), eq(r, fltT(0))))
	}
	return r
}

func (x *Exec) floatToInt(st *State, t *Term, typ types.Type) *Term {
	r := uf("f2i."+cleanName(tstr(under(typ))), SInt, t)
	if !r.bound {
		lo, hi := intRange(typ)
		st.fact(and(le(bigT(lo), r), le(r, bigT(hi))))
		// inside the range of the type an integral float converts exactly
		in := x.integralInRange(t, typ)
		back := x.intToFloat(st, r)
		st.fact(implies(in, fltOp("fp.eq", back, t)))
	}
	return r
}

func (x *Exec) integralInRange(t *Term, typ types.Type) *Term {
	lo, hi := intRange(typ)
	flo, _ := new(big.Float).SetInt(lo).Float64()
	fhi, _ := new(big.Float).SetInt(new(big.Int).Add(hi, big.NewInt(1))).Float64()
	return and(fltOp("fp.leq", fltT(flo), t), fltOp("fp.lt", t, fltT(fhi)), fltOp("fp.eq", x.floor(t), t))
}

var tRTN = mkN("fltlit", "RTN", "RoundingMode")

func (x *Exec) floor(t *Term) *Term { return mk("fp.roundToIntegral", SFlt, tRTN, t) }

func (x *Exec) stringToSlice(st *State, s *Term, elem types.Type) Value {
	r := x.newRef(st, "str")
	k, h := x.elemHeap(st, elem, leaf{"", SInt})
	if b, ok := under(elem).(*types.Basic); ok && (b.Kind() == types.Uint8) {
		row := sym("bytes", arr(SInt, SInt))
		n := strLen(s)
		i := boundVar("i", SInt)
		st.fact(forall([]*Term{i}, implies(and(le(tZero, i), lt(i, n)), eq(sel2(row, i), mk("str.to_code", SInt, mk("str.at", SStr, s, i)))), sel2(row, i)))
		st.fact(eq(uf("bytes2str", SStr, row, tZero, n), s))
		st.fact(and(le(tZero, n), le(n, bigT(maxLen))))
		st.heaps[k] = store(h, r, row)
		return &SliceV{r, tZero, n, n, elem}
	}
	// runes
	row := uf("runes", arr(SInt, SInt), s)
	n := uf("runecount", SInt, s)
	st.fact(and(le(tZero, n), le(n, strLen(s)), le(n, bigT(maxLen)), eq(eq(n, tZero), eq(strLen(s), tZero))))
	st.fact(eq(uf("runes2str", SStr, row, tZero, n), uf("validutf8", SStr, s)))
	st.heaps[k] = store(h, r, row)
	return &SliceV{r, tZero, n, n, elem}
}

func (x *Exec) sliceToString(st *State, s *SliceV) Value {
	_, h := x.elemHeap(st, s.elem, leaf{"", SInt})
	row := sel2(h, s.ref)
	if b, ok := under(s.elem).(*types.Basic); ok && b.Kind() == types.Uint8 {
		r := uf("bytes2str", SStr, row, s.off, s.len)
		if !r.bound {
			st.fact(eq(strLen(r), s.len))
			i := boundVar("i", SInt)
			st.fact(forall([]*Term{i}, implies(and(le(tZero, i), lt(i, s.len)), eq(mk("str.to_code", SInt, mk("str.at", SStr, r, i)), sel2(row, addT(s.off, i)))), mk("str.at", SStr, r, i)))
		}
		return r
	}
	r := uf("runes2str", SStr, row, s.off, s.len)
	if !r.bound {
		st.fact(implies(eq(s.len, tZero), eq(r, strT(""))))
	}
	return r
}
