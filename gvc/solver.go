package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// pcNode is one hypothesis of a path, in a persistent list.
type pcNode struct {
	parent *pcNode
	t      *Term
	depth  int
}

func (n *pcNode) list() []*Term {
	if n == nil {
		return nil
	}
	out := make([]*Term, n.depth)
	for p := n; p != nil; p = p.parent {
		out[p.depth-1] = p.t
	}
	return out
}

func hasQuant(t *Term) bool {
	if r, ok := quantCache[t.id]; ok {
		return r
	}
	r := t.op == "forall" || t.op == "exists"
	for _, a := range t.args {
		r = r || hasQuant(a)
	}
	quantCache[t.id] = r
	return r
}

var quantCache = map[int]bool{}

const preludeCommon = `
(define-sort Flt () (_ FloatingPoint 11 53))
(declare-datatypes ((Val 0)) (((vnil) (vbool (vbt Int) (vb Bool)) (vint (vit Int) (vi Int)) (vstr (vst Int) (vs String)) (vflt (vft Int) (vf Flt)) (vslice (vlt Int) (vlr Int) (vlo Int) (vll Int) (vlc Int)) (vref (vrt Int) (vr Int)) (vopq (vot Int) (vo Int)))))
(define-fun tagof ((v Val)) Int (ite ((_ is vnil) v) 0 (ite ((_ is vbool) v) (vbt v) (ite ((_ is vint) v) (vit v) (ite ((_ is vstr) v) (vst v) (ite ((_ is vflt) v) (vft v) (ite ((_ is vslice) v) (vlt v) (ite ((_ is vref) v) (vrt v) (vot v)))))))))
`

func prelude(abs bool) string {
	if !abs {
		return preludeCommon
	}
	p := "(declare-sort Str 0)\n" + strings.ReplaceAll(preludeCommon, "(vs String)", "(vs Str)")
	for op, sig := range absOps {
		p += fmt.Sprintf("(declare-fun %s %s)\n", quoteSym("a."+op), sig)
	}
	return p + absAxioms + textPrelude()
}

var absOps = map[string]string{
	"str.len.1":         "(Str) Int",
	"str.++.2":          "(Str Str) Str",
	"str.++.3":          "(Str Str Str) Str",
	"str.++.4":          "(Str Str Str Str) Str",
	"str.++.5":          "(Str Str Str Str Str) Str",
	"str.++.6":          "(Str Str Str Str Str Str) Str",
	"str.++.7":          "(Str Str Str Str Str Str Str) Str",
	"str.++.8":          "(Str Str Str Str Str Str Str Str) Str",
	"str.substr.3":      "(Str Int Int) Str",
	"str.at.2":          "(Str Int) Str",
	"str.to_code.1":     "(Str) Int",
	"str.from_code.1":   "(Int) Str",
	"str.prefixof.2":    "(Str Str) Bool",
	"str.suffixof.2":    "(Str Str) Bool",
	"str.contains.2":    "(Str Str) Bool",
	"str.indexof.3":     "(Str Str Int) Int",
	"str.last.2":        "(Str Str) Int",
	"str.replace.3":     "(Str Str Str) Str",
	"str.replace_all.3": "(Str Str Str) Str",
	"str.<.2":           "(Str Str) Bool",
	"str.<=.2":          "(Str Str) Bool",
	"str.from_int.1":    "(Int) Str",
	"str.to_int.1":      "(Str) Int",
}

const absAxioms = `
(assert (forall ((s Str)) (! (>= (|a.str.len.1| s) 0) :pattern ((|a.str.len.1| s)))))
(assert (forall ((s Str) (t Str)) (! (= (|a.str.<=.2| s t) (or (|a.str.<.2| s t) (= s t))) :pattern ((|a.str.<=.2| s t)))))
(assert (forall ((s Str) (t Str)) (! (or (|a.str.<.2| s t) (= s t) (|a.str.<.2| t s)) :pattern ((|a.str.<.2| s t)))))
(assert (forall ((s Str) (t Str)) (! (not (and (|a.str.<.2| s t) (|a.str.<.2| t s))) :pattern ((|a.str.<.2| s t)))))
(assert (forall ((s Str) (t Str) (u Str)) (! (=> (and (|a.str.<.2| s t) (|a.str.<.2| t u)) (|a.str.<.2| s u)) :pattern ((|a.str.<.2| s t) (|a.str.<.2| t u)))))
(assert (forall ((s Str)) (! (not (|a.str.<.2| s s)) :pattern ((|a.str.<.2| s s)))))
(assert (forall ((s Str) (t Str)) (! (= (|a.str.len.1| (|a.str.++.2| s t)) (+ (|a.str.len.1| s) (|a.str.len.1| t))) :pattern ((|a.str.++.2| s t)))))
`

// script accumulates declarations for one solver context.
type script struct {
	abs      bool
	declared map[string]bool
	defined  map[int]string
	lits     []*Term
	out      *strings.Builder
	axioms   []string // facts about declared symbols, not yet asserted
	noDef    bool
}

func newScript(abs bool) *script {
	return &script{abs: abs, declared: map[string]bool{}, defined: map[int]string{}, out: &strings.Builder{}}
}

func (s *script) declare(t *Term) {
	switch t.op {
	case "sym":
		if !s.declared["s"+t.name] {
			s.declared["s"+t.name] = true
			fmt.Fprintf(s.out, "(declare-fun %s () %s)\n", quoteSym(t.name), sortText(t.sort, s.abs))
		}
	case "uf":
		if !s.declared["f"+t.name] {
			s.declared["f"+t.name] = true
			d := ufs[t.name]
			as := make([]string, len(d.args))
			for i, a := range d.args {
				as[i] = sortText(a, s.abs)
			}
			fmt.Fprintf(s.out, "(declare-fun %s (%s) %s)\n", quoteSym(t.name), strings.Join(as, " "), sortText(d.ret, s.abs))
			if d.def != nil {
				s.axioms = append(s.axioms, "(assert "+s.text(expandQ(d.def))+")\n")
			}
		}
	case "str":
		if s.abs {
			n := strLitText(t, true)
			if !s.declared[n] {
				s.declared[n] = true
				fmt.Fprintf(s.out, "(declare-fun %s () Str)\n", n)
				s.axioms = append(s.axioms, fmt.Sprintf("(assert (= (|a.str.len.1| %s) %d))\n", n, len(t.str)))
				if len(s.lits) > 0 && len(s.lits) < 400 {
					var b strings.Builder
					for _, l := range s.lits {
						if len(l.str) == len(t.str) {
							fmt.Fprintf(&b, "(assert (not (= %s %s)))\n", n, strLitText(l, true))
						}
						a, c := n, strLitText(l, true)
						if l.str < t.str {
							a, c = c, a
						}
						fmt.Fprintf(&b, "(assert (|a.str.<.2| %s %s))\n", a, c)
					}
					s.axioms = append(s.axioms, b.String())
				}
				s.lits = append(s.lits, t)
			}
		}
	}
}

// text renders t, declaring and defining what it needs first.
func (s *script) text(t *Term) string {
	s.prepare(t, map[int]bool{})
	return printTerm(t, s.abs, s.ref)
}

func (s *script) ref(t *Term) string { return s.defined[t.id] }

func (s *script) prepare(t *Term, seen map[int]bool) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	if s.defined[t.id] != "" {
		return
	}
	for _, a := range t.args {
		s.prepare(a, seen)
	}
	for _, a := range t.pats {
		s.prepare(a, seen)
	}
	s.declare(t)
	if !s.noDef && !t.bound && t.size > 6 && t.op != "forall" && t.op != "exists" {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(s.out, "(define-fun %s () %s %s)\n", n, sortText(t.sort, s.abs), printTerm(t, s.abs, s.ref))
		s.defined[t.id] = n
	}
}

func (s *script) flush() string {
	r := s.out.String() + strings.Join(s.axioms, "")
	s.out.Reset()
	s.axioms = nil
	return r
}

// flush sends the pending declarations and facts at the current level of the stack.
func (l *Live) flush() {
	for _, a := range l.sc.axioms {
		l.axioms = append(l.axioms, levelAxiom{len(l.stack), a})
	}
	l.send(l.sc.flush())
}

type levelAxiom struct {
	level int
	text  string
}

// Live is an incremental solver process.
type Live struct {
	bin    string
	quants bool // keep quantified hypotheses
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	sc     *script
	stack  []*pcNode
	axioms []levelAxiom
	time   time.Duration
	calls  int
	dead   bool
	log    io.Writer
}

func newLive(bin string, quants, abs bool) *Live {
	l := &Live{bin: bin, quants: quants}
	l.start(abs)
	return l
}

func (l *Live) start(abs bool) {
	l.cmd = exec.Command(l.bin, "-in", "-smt2", "-memory:6000")
	in, _ := l.cmd.StdinPipe()
	out, _ := l.cmd.StdoutPipe()
	l.cmd.Stderr = nil
	if err := l.cmd.Start(); err != nil {
		panic(err)
	}
	l.in, l.out = in, bufio.NewReaderSize(out, 1<<16)
	l.sc = newScript(abs)
	l.stack = nil
	l.axioms = nil
	l.dead = false
	l.send("(set-option :global-declarations true)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.random_seed 7)\n" + prelude(abs))
}

func (l *Live) send(s string) {
	if l.log != nil {
		io.WriteString(l.log, s)
	}
	io.WriteString(l.in, s)
}

func (l *Live) stop() {
	if l.cmd != nil && l.cmd.Process != nil {
		l.cmd.Process.Kill()
		l.cmd.Wait()
	}
}

func (l *Live) sync(n *pcNode) {
	// common prefix
	want := []*pcNode{}
	for p := n; p != nil; p = p.parent {
		want = append(want, p)
	}
	for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
		want[i], want[j] = want[j], want[i]
	}
	common := 0
	for common < len(l.stack) && common < len(want) && l.stack[common] == want[common] {
		common++
	}
	if d := len(l.stack) - common; d > 0 {
		l.send(fmt.Sprintf("(pop %d)\n", d))
		l.stack = l.stack[:common]
		for i := range l.axioms {
			if l.axioms[i].level > common { // popped with the path: asserted again
				l.axioms[i].level = common
				l.send(l.axioms[i].text)
			}
		}
	}
	for _, p := range want[common:] {
		txt := ""
		if l.quants || !hasQuant(p.t) {
			txt = l.sc.text(expandQ(p.t))
		}
		l.flush()
		l.send("(push 1)\n")
		if txt != "" {
			l.send("(assert " + txt + ")\n")
		}
		l.stack = append(l.stack, p)
	}
}

// check returns sat, unsat or unknown for the path plus the extra hypotheses.
func (l *Live) check(n *pcNode, extra []*Term, timeout time.Duration) string {
	if l.dead {
		abs := l.sc.abs
		l.start(abs)
	}
	t0 := time.Now()
	verdict := ""
	defer func() {
		l.time += time.Since(t0)
		l.calls++
		if d := time.Since(t0); slowLog && d > 300*time.Millisecond {
			fmt.Fprintf(os.Stderr, "slow %.1f %s %v %s\n", d.Seconds(), verdict, l.quants, clipTo(show(and(extra...)), 150))
		}
	}()
	l.sync(n)
	var b strings.Builder
	for _, e := range extra {
		if !l.quants && hasQuant(e) {
			continue
		}
		b.WriteString("(assert " + l.sc.text(expandQ(e)) + ")\n")
	}
	l.flush()
	l.send("(push 1)\n" + b.String() + fmt.Sprintf("(set-option :timeout %d)\n(check-sat)\n(pop 1)\n", timeout.Milliseconds()))
	res := make(chan string, 1)
	go func() {
		for {
			line, err := l.out.ReadString('\n')
			if err != nil {
				res <- "dead"
				return
			}
			line = strings.TrimSpace(line)
			switch line {
			case "sat", "unsat", "unknown", "timeout":
				res <- line
				return
			case "":
			default:
				if strings.HasPrefix(line, "(error") {
					fmt.Fprintln(os.Stderr, "solver:", line)
					solverErrors++
				}
			}
		}
	}()
	select {
	case r := <-res:
		if r == "dead" {
			l.dead = true
			l.stack = nil
			return "unknown"
		}
		verdict = r
		return r
	case <-time.After(timeout*2 + 5*time.Second):
		l.stop()
		l.dead = true
		l.stack = nil
		<-res
		return "unknown"
	}
}

var solverErrors int

// oneShot renders a full script for the hypotheses.
func oneShot(hyps []*Term, abs bool, header string) string {
	s := newScript(abs)
	var b strings.Builder
	for _, h := range hyps {
		txt := s.text(expandQ(h))
		b.WriteString(s.flush())
		b.WriteString("(assert " + txt + ")\n")
	}
	return header + prelude(abs) + b.String() + "(check-sat)\n"
}

type backend struct {
	name   string
	bin    string
	args   []string
	header string
	abs    bool
}

func backends(mode string) []backend {
	z := "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"
	bs := []backend{}
	if mode != "native" {
		bs = append(bs,
			backend{"z3-new/abstract", "z3-new", []string{"-smt2"}, z, true},
			backend{"z3-new/abstract+auto", "z3-new", []string{"-smt2", "smt.mbqi=false"}, "", true},
			backend{"z3-new/abstract+mbqi", "z3-new", []string{"-smt2", "smt.auto_config=false", "smt.mbqi=true"}, "", true},
			backend{"z3-new/abstract+cs3", "z3-new", []string{"-smt2", "smt.case_split=3"}, z, true},
			backend{"cvc5/abstract", "cvc5", []string{"--lang=smt2", "--full-saturate-quant", "--strings-exp"}, "(set-logic ALL)\n", true},
			backend{"z3/abstract", "z3", []string{"-smt2"}, z, true})
	}
	if mode != "abstract" {
		bs = append(bs,
			backend{"z3-new", "z3-new", []string{"-smt2"}, "", false},
			backend{"cvc5", "cvc5", []string{"--lang=smt2", "--strings-exp"}, "(set-logic ALL)\n", false},
			backend{"z3", "z3", []string{"-smt2"}, z, false},
			backend{"cvc5/enum", "cvc5", []string{"--lang=smt2", "--strings-exp", "--full-saturate-quant"}, "(set-logic ALL)\n", false})
	}
	return bs
}

var workDir string

// portfolio runs the back ends in parallel; the first unsat answer wins.
func portfolio(hyps []*Term, mode string, timeout time.Duration) (string, string, string, time.Duration) {
	t0 := time.Now()
	type ans struct{ name, res, raw string }
	bs := backends(mode)
	ch := make(chan ans, len(bs))
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	dir, _ := os.MkdirTemp(workDir, "q")
	defer os.RemoveAll(dir)
	for i, b := range bs {
		file := filepath.Join(dir, fmt.Sprintf("q%d.smt2", i))
		os.WriteFile(file, []byte(oneShot(hyps, b.abs, b.header)), 0644)
		go func(b backend) {
			cmd := exec.CommandContext(ctx, b.bin, append(append([]string{}, b.args...), file)...)
			out, _ := cmd.CombinedOutput()
			o := string(out)
			r := "unknown"
			for _, line := range strings.Split(o, "\n") {
				switch strings.TrimSpace(line) {
				case "unsat":
					r = "unsat"
				case "sat":
					r = "sat"
				}
			}
			if r == "unsat" && strings.Contains(o, "(error") {
				r = "unknown"
			}
			ch <- ans{b.name, r, o}
		}(b)
	}
	raw := ""
	sat := ""
	for range bs {
		a := <-ch
		if a.res == "unsat" {
			return "unsat", a.name, "", time.Since(t0)
		}
		if a.res == "sat" && !strings.Contains(a.name, "abstract") {
			sat = a.name
			cancel()
		}
		raw += a.name + ": " + a.res + " " + firstLines(a.raw, 2) + "\n"
	}
	if sat != "" {
		return "sat", sat, raw, time.Since(t0)
	}
	return "unknown", "", raw, time.Since(t0)
}

// once asks fresh solvers: one that looks for instances in models of the quantifiers and, when auto is set, one with
// its own choice of configuration. They often decide what the incremental session cannot.
func once(hyps []*Term, timeout time.Duration, auto bool) bool {
	dir, _ := os.MkdirTemp(workDir, "q")
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "q.smt2")
	os.WriteFile(file, []byte(oneShot(hyps, true, "")), 0644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	modes := [][]string{{"-smt2", "-memory:3000", "smt.auto_config=false", "smt.mbqi=true", file}}
	if auto {
		modes = append(modes, []string{"-smt2", "-memory:3000", "smt.mbqi=false", file})
	}
	ch := make(chan bool, len(modes))
	for _, m := range modes {
		go func(args []string) {
			out, _ := exec.CommandContext(ctx, "z3-new", args...).CombinedOutput()
			ch <- strings.HasPrefix(string(out), "unsat") && !strings.Contains(string(out), "(error")
		}(m)
	}
	for range modes {
		if <-ch {
			return true
		}
	}
	return false
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	r := strings.Join(l, " / ")
	if len(r) > 300 {
		r = r[:300]
	}
	return r
}

var slowLog = os.Getenv("GVC_SLOW") != ""
