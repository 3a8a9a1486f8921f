package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Result of verifying one specification.
type Result struct {
	Spec        string
	Props       []string
	Contract    string
	Obligations []*OblOut
	Ends        int
	Paths       int
	Unsupported string
	Vacuous     string
	Inlined     []string
	Used        []string
	Subject     []string
	Extern      []string
	Assumed     []string
	Invariants  []string
	Wall        float64
	SolverTime  float64
	MinedInts   []string
	MinedStrs   []string
	Cone        []string
}

type OblOut struct {
	Name    string
	Kind    string
	Status  string
	Backend string
	Time    float64
	Trail   string
	Raw     string
	N       int
}

func newExec(w *World, s *Spec, opt options) *Exec {
	x := &Exec{w: w, opt: opt, spec: s, hname: "0"}
	x.init = map[string]*Term{}
	x.initSyms = map[int]bool{}
	x.inputs = map[int]bool{}
	x.feasCache = map[cacheKey]bool{}
	x.countDefs, x.global = map[string][]*Term{}, map[int]bool{}
	x.proveCache, x.onceCache = map[cacheKey]bool{}, map[cacheKey]bool{}
	x.used, x.inlined, x.extern, x.assumed = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	x.loopInfo = map[*ssa.Function]*loops{}
	x.cone = map[*ssa.Function]bool{}
	x.ghostFuncs = map[int]*types.Signature{}
	x.opaqueNot = map[string]bool{}
	x.constHeaps = map[string]bool{}
	x.loopInvKept = map[string]bool{}
	x.subject = map[string]bool{}
	x.covered = map[string]bool{}
	x.deadline = time.Now().Add(opt.budget)
	x.qf = newLive("z3-new", false, opt.strings != "native")
	x.full = newLive("z3-new", true, opt.strings != "native")
	if f := os.Getenv("GVC_LOG"); f != "" {
		l, _ := os.Create(f)
		x.full.log = l
	}
	return x
}

// verify runs one specification and discharges its obligations.
func verify(w *World, s *Spec, opt options) (res *Result) {
	resetTables(w)
	t0 := time.Now()
	textMode = false
	switch m := s.Opts["strings"]; m {
	case "":
	case "text":
		textMode = true
	default:
		opt.strings = m
	}
	x := newExec(w, s, opt)
	defer x.qf.stop()
	defer x.full.stop()
	res = &Result{Spec: s.Name, Props: s.Props, Contract: s.Contract}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					res.Unsupported = u.why
					return
				}
				res.Unsupported = fmt.Sprintf("internal: %v", r)
				if opt.verbose || os.Getenv("GVC_TRACE") != "" {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}()
		x.runSpec(s)
	}()
	// obligations the incremental solver left open
	for _, o := range x.obls {
		if o.Status == "" && res.Unsupported == "" {
			x.portfolio(o)
		}
	}
	byName := map[string]*OblOut{}
	for _, o := range x.obls {
		b := byName[o.Name]
		if b == nil {
			b = &OblOut{Name: o.Name, Kind: o.Kind, Status: "discharged", Backend: o.Backend}
			byName[o.Name] = b
			res.Obligations = append(res.Obligations, b)
		}
		b.N++
		b.Time += o.Time.Seconds()
		if o.Status != "discharged" && b.Status == "discharged" {
			b.Status, b.Trail, b.Raw = "failed", o.trail, o.Raw
		}
		if o.Backend != "" && b.Status == "discharged" && !strings.Contains(b.Backend, o.Backend) {
			b.Backend += "," + o.Backend
		}
	}
	res.Ends, res.Paths = x.ends, x.paths
	if res.Unsupported == "" {
		if x.ends == 0 {
			res.Vacuous = "no path reaches the end of the specification"
		} else if len(x.obls) == 0 {
			res.Vacuous = "no obligation was generated"
		} else if !x.reachable {
			res.Vacuous = "no path to the end of the specification could be shown feasible"
		}
	}
	res.Inlined, res.Used, res.Extern, res.Assumed, res.Invariants, res.Subject = keys(x.inlined), keys(x.used), keys(x.extern), keys(x.assumed), keys(x.loopInvKept), keys(x.subject)
	res.MinedInts, res.MinedStrs = w.mine(x.cone)
	for f := range x.cone {
		res.Cone = append(res.Cone, f.String())
	}
	sort.Strings(res.Cone)
	res.Wall = time.Since(t0).Seconds()
	res.SolverTime = (x.qf.time + x.full.time).Seconds()
	return res
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) runSpec(s *Spec) {
	fn := s.fn
	st := &State{heaps: map[string]*Term{}, facts: map[int]bool{}, refine: map[int]types.Type{}, ghost: map[string]Value{}}
	x.alloc0 = sym("alloc0", SInt)
	st.alloc = x.alloc0
	st.fact(lt(tZero, x.alloc0))
	x.specAlloc = x.alloc0
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, loops: map[*ssa.BasicBlock]*loopCtx{}, pidx: -1, unwind: -1, allocIn: st.alloc, spec: true, site: "spec"}
	type choice struct {
		p    *ssa.Parameter
		opts []Value
	}
	var choices []choice
	for _, p := range fn.Params {
		if c, ok := s.Opts["cases."+p.Name()]; ok {
			var os []Value
			for _, g := range strings.Split(c, "|") {
				os = append(os, x.globalByName(strings.TrimSpace(g)))
			}
			choices = append(choices, choice{p, os})
			continue
		}
		fr.env[p] = x.input(st, p.Type(), p.Name())
	}
	fr.k = func(st *State, res, pan Value) {
		if pan != nil {
			if st.ghost["maypanic"] != nil {
				x.ends++
				return
			}
			x.oblige(st, "no panic", "panic", tFalse)
			return
		}
		x.ends++
		if !x.reachable && x.record == 0 {
			r := x.qf.check(st.pc, nil, 5*time.Second)
			if r == "sat" || r == "unknown" {
				x.reachable = true
			}
		}
	}
	var rec func(i int, fr *Frame, st *State)
	comb := 0
	rec = func(i int, fr *Frame, st *State) {
		if i == len(choices) {
			if comb++; x.opt.only != 0 && comb != x.opt.only {
				return
			}
			x.loopInvs = nil
			x.runBlock(fr, st, fn.Blocks[0], nil)
			return
		}
		for n, o := range choices[i].opts {
			f2, s2 := fr.clone(), st.fork()
			f2.env[choices[i].p] = o
			s2.note("case %s=%d", choices[i].p.Name(), n)
			rec(i+1, f2, s2)
		}
	}
	rec(0, fr, st)
}

// caseCount is the number of combinations of the cases of a specification.
func (s *Spec) caseCount() int {
	n := 1
	for k, c := range s.Opts {
		if strings.HasPrefix(k, "cases.") {
			n *= strings.Count(c, "|") + 1
		}
	}
	return n
}

// verifyAll verifies the cases of a specification one after the other.
func verifyAll(w *World, s *Spec, opt options) *Result {
	if opt.only = s.caseCount(); opt.only == 1 {
		opt.only = 0
		return verify(w, s, opt)
	}
	n := opt.only
	var rs []*Result
	for i := 1; i <= n; i++ {
		opt.only = i
		rs = append(rs, verify(w, s, opt))
	}
	return mergeResults(rs)
}

// mergeResults puts the results of the cases of one specification together.
func mergeResults(rs []*Result) *Result {
	if len(rs) == 1 {
		return rs[0]
	}
	m := *rs[0]
	m.Obligations, m.Ends, m.Paths, m.Wall, m.SolverTime = nil, 0, 0, 0, 0
	by := map[string]*OblOut{}
	add := func(to *[]string, from []string) {
		have := map[string]bool{}
		for _, s := range *to {
			have[s] = true
		}
		for _, s := range from {
			if !have[s] {
				*to = append(*to, s)
				have[s] = true
			}
		}
		sort.Strings(*to)
	}
	for _, r := range rs {
		for _, o := range r.Obligations {
			b := by[o.Name]
			if b == nil {
				c := *o
				by[o.Name] = &c
				m.Obligations = append(m.Obligations, &c)
				continue
			}
			b.N += o.N
			b.Time += o.Time
			if b.Status == "discharged" {
				if o.Status != "discharged" {
					b.Status, b.Trail, b.Raw = o.Status, o.Trail, o.Raw
				}
				for _, k := range strings.Split(o.Backend, ",") {
					if k != "" && !strings.Contains(","+b.Backend+",", ","+k+",") {
						b.Backend = strings.TrimPrefix(b.Backend+","+k, ",")
					}
				}
			}
		}
		m.Ends += r.Ends
		m.Paths += r.Paths
		m.Wall += r.Wall
		m.SolverTime += r.SolverTime
		if m.Unsupported == "" {
			m.Unsupported = r.Unsupported
		}
		if m.Vacuous == "" {
			m.Vacuous = r.Vacuous
		}
		add(&m.Inlined, r.Inlined)
		add(&m.Used, r.Used)
		add(&m.Subject, r.Subject)
		add(&m.Extern, r.Extern)
		add(&m.Assumed, r.Assumed)
		add(&m.Invariants, r.Invariants)
		add(&m.MinedInts, r.MinedInts)
		add(&m.MinedStrs, r.MinedStrs)
		add(&m.Cone, r.Cone)
	}
	return &m
}

func (x *Exec) globalByName(n string) Value {
	i := strings.LastIndex(n, ".")
	for path, p := range x.w.allPkgs {
		if strings.HasSuffix(path, "/"+n[:i]) || path == n[:i] {
			if !strings.HasPrefix(path, modPath) {
				continue
			}
			if g, ok := p.Members[n[i+1:]].(*ssa.Global); ok {
				v, ok := x.constGlobal(g)
				if !ok {
					unsup("global %s is not constant", n)
				}
				return v
			}
		}
	}
	unsup("no global %s", n)
	return nil
}

// input is an arbitrary argument of the specification.
func (x *Exec) input(st *State, t types.Type, name string) Value {
	if sig, ok := under(t).(*types.Signature); ok {
		f := sym("fn."+name, SInt)
		x.ghostFuncs[f.id] = sig
		x.inputs[f.id] = true
		return f
	}
	var ts []*Term
	for _, l := range leaves(t) {
		s := sym("in."+name+l.path, l.sort)
		x.inputs[s.id] = true
		ts = append(ts, s)
	}
	x.wf(st, ts, t)
	if it, ok := under(t).(*types.Interface); ok && it.NumMethods() > 0 {
		st.fact(or(tester("vnil", ts[0]), x.implements(st, ts[0], types.Unalias(t))))
		x.closedWorld(st, ts[0], t)
	}
	return x.norm(st, x.fromTerms(ts, t))
}

// closedWorld: the repository's interfaces have the repository's implementing types.
func (x *Exec) closedWorld(st *State, v *Term, t types.Type) {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
		var cs []*Term
		for _, T := range x.w.implementers(types.Unalias(t)) {
			cs = append(cs, x.isType(v, T))
		}
		st.fact(or(append(cs, tester("vnil", v))...))
		x.assumed["values of interface "+tstr(t)+" have one of the repository's own implementing types (closed world)"] = true
	}
}

// ---- discharging ----

func (x *Exec) discharge(o *Obligation) {
	t0 := time.Now()
	defer func() { o.Time += time.Since(t0) }()
	if o.goal == tTrue {
		o.Status, o.Backend = "discharged", "simplifier"
		return
	}
	o.open = nil
	for _, g := range splitGoal(o.goal) {
		if x.full.check(o.pc, []*Term{not(g)}, x.opt.proveTimeout) != "unsat" {
			o.open = append(o.open, g)
		}
	}
	if len(o.open) == 0 {
		o.Status, o.Backend = "discharged", "z3-new/incremental"
		return
	}
	if x.opt.eager || os.Getenv("GVC_EAGER") != "" {
		x.portfolio(o)
	}
}

func (x *Exec) portfolio(o *Obligation) {
	for _, g := range o.open {
		if !x.portfolioPart(o, g) {
			return
		}
	}
}

// portfolioPart tries all the solvers on a conjunct of the goal.
func (x *Exec) portfolioPart(o *Obligation, g *Term) bool {
	hyps := append(o.pc.list(), not(g))
	x.nport++
	if x.nport > x.opt.maxPort {
		o.Status, o.Raw = "failed", "not attempted: too many open obligations"
		return false
	}
	r, name, raw, d := portfolio(hyps, x.opt.strings, x.opt.oblTimeout)
	o.Time += d
	if r == "unsat" {
		o.Status, o.Backend = "discharged", name
		return true
	}
	o.Status = "failed"
	o.Raw = r + " " + raw
	if os.Getenv("GVC_DUMP") != "" {
		fmt.Println("---- open:", o.Name, "trail:", o.trail)
		for _, h := range hyps {
			fmt.Println("   ", show(h))
		}
		os.WriteFile(os.Getenv("GVC_DUMP"), []byte(oneShot(hyps, true, "")), 0644)
	}
	return false
}
