package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---- workers: processes that verify specifications one after the other ----

func workerMain(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	specs := fs.String("specs", "/verif/specs", "")
	drop := fs.String("drop", "", "")
	slow := fs.Bool("slow", false, "")
	fs.Parse(args)
	dropFiles = splitList(*drop)
	w, err := load(*repo, *specs, false)
	if err != nil {
		fmt.Println("ERR " + strings.ReplaceAll(err.Error(), "\n", " "))
		os.Exit(2)
	}
	opt := defaultOptions()
	if *slow {
		opt.proveTimeout, opt.oblTimeout, opt.budget = 8*time.Second, 30*time.Second, 400*time.Second
	}
	by := map[string]*Spec{}
	for _, s := range w.specs {
		by[s.Name] = s
	}
	sc := bufio.NewScanner(os.Stdin)
	fmt.Println("READY")
	for sc.Scan() {
		name, n, _ := strings.Cut(sc.Text(), "#")
		opt.only = 0
		fmt.Sscan(n, &opt.only)
		s := by[name]
		if s == nil {
			fmt.Println("NOSPEC")
			continue
		}
		b, _ := json.Marshal(verify(w, s, opt))
		os.Stdout.Write(append(b, '\n'))
	}
}

type pool struct {
	repo, specs, drop string
	slow              bool
	n                 int
	limit             time.Duration // per specification
	deadline          time.Time
	list              []*Spec
}

// run verifies specifications, the cases of one specification as separate pieces of work.
func (p *pool) run(specs []string) map[string]*Result {
	out := map[string]*Result{}
	var mu sync.Mutex
	var names []string
	count := map[string]int{}
	for _, s := range p.list {
		count[s.Name] = s.caseCount()
	}
	for _, n := range specs {
		if count[n] < 2 {
			names = append(names, n)
		}
		for i := 1; i <= count[n] && count[n] > 1; i++ {
			names = append(names, fmt.Sprintf("%s#%d", n, i))
		}
	}
	defer func() {
		for _, n := range specs {
			if out[n] == nil {
				var rs []*Result
				for i := 1; i <= count[n]; i++ {
					k := fmt.Sprintf("%s#%d", n, i)
					if r := out[k]; r != nil {
						r.Spec = n
						rs = append(rs, r)
					}
					delete(out, k)
				}
				if len(rs) > 0 {
					out[n] = mergeResults(rs)
				}
			}
		}
	}()
	ch := make(chan string, len(names))
	for _, n := range names {
		ch <- n
	}
	close(ch)
	var wg sync.WaitGroup
	n := p.n
	if n > len(names) {
		n = len(names)
	}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() { w.stop() }()
			for name := range ch {
				r := &Result{Spec: name, Unsupported: "out of time"}
				for try := 0; try < 2 && time.Now().Before(p.deadline); try++ {
					if w == nil {
						w = p.start()
					}
					if w == nil {
						r.Unsupported = "worker did not start"
						continue
					}
					lim := p.limit
					if d := time.Until(p.deadline); d < lim {
						lim = d
					}
					line, err := w.ask(name, lim)
					if err != nil {
						w.stop()
						w = nil
						r.Unsupported = "worker: " + err.Error()
						if err == errTime {
							break
						}
						continue
					}
					q := &Result{}
					if e := json.Unmarshal([]byte(line), q); e == nil {
						r = q
					} else {
						r.Unsupported = "worker: " + clipTo(line, 200)
					}
					break
				}
				mu.Lock()
				out[name] = r
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return out
}

type worker struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan string
}

var errTime = fmt.Errorf("out of time")

func (p *pool) start() *worker {
	self, _ := os.Executable()
	a := []string{"worker", "-repo", p.repo, "-specs", p.specs, "-drop", p.drop}
	if p.slow {
		a = append(a, "-slow")
	}
	c := exec.Command(self, a...)
	setGroup(c)
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = os.Stderr
	if c.Start() != nil {
		return nil
	}
	w := &worker{cmd: c, in: in, lines: make(chan string)}
	go func() {
		rd := bufio.NewReaderSize(out, 1<<20)
		for {
			l, err := rd.ReadString('\n')
			if err != nil {
				close(w.lines)
				return
			}
			w.lines <- strings.TrimSuffix(l, "\n")
		}
	}()
	l, err := w.read(90 * time.Second)
	if err != nil || l != "READY" {
		w.stop()
		return nil
	}
	return w
}

func (w *worker) read(lim time.Duration) (string, error) {
	select {
	case l, ok := <-w.lines:
		if !ok {
			return "", fmt.Errorf("ended")
		}
		return l, nil
	case <-time.After(lim):
		return "", errTime
	}
}

func (w *worker) ask(name string, lim time.Duration) (string, error) {
	fmt.Fprintln(w.in, name)
	return w.read(lim)
}

func (w *worker) stop() {
	if w == nil || w.cmd.Process == nil {
		return
	}
	w.in.Close()
	killGroup(w.cmd)
	go func() {
		for range w.lines {
		}
	}()
	w.cmd.Wait()
}

// ---- ledger and known findings ----

type ledgerEntry struct {
	Status      string   `json:"status"` // proved, bounded
	Why         string   `json:"why,omitempty"`
	Obligations []string `json:"obligations,omitempty"`
	Wall        float64  `json:"wall,omitempty"`
}

func readLedger(verif string) map[string]*ledgerEntry {
	l := map[string]*ledgerEntry{}
	b, err := os.ReadFile(filepath.Join(verif, "ledger.json"))
	if err == nil {
		json.Unmarshal(b, &l)
	}
	return l
}

type finding struct {
	Property string `json:"property"`
	Spec     string `json:"spec"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func readFindings(verif string) []finding {
	var fs []finding
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var doc struct {
		Known []finding `json:"known"`
	}
	json.Unmarshal(b, &doc)
	fs = doc.Known
	return fs
}

func splitList(s string) []string {
	var out []string
	for _, e := range strings.Split(s, ",") {
		if e != "" {
			out = append(out, e)
		}
	}
	return out
}

func clipTo(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- concrete runs ----

type concReport struct {
	Spec     string
	Cases    int
	Skipped  int
	Distinct int
	Samples  []string
	Failures []concFailure
	Fatal    string
	seed     int64
}

type concFailure struct {
	Case   int
	Clause string
	Args   string
}

type concCfg struct {
	Opts map[string]string
	Ints []int64
	Strs []string
}

// harness compiles the concrete runner of a package of specifications.
func harness(w *World, pkg, dir string) (string, error) {
	var specs []*Spec
	for _, s := range w.specs {
		if s.Pkg == pkg {
			specs = append(specs, s)
		}
	}
	if len(specs) == 0 {
		return "", fmt.Errorf("no specification in %s", pkg)
	}
	name := w.allPkgs[pkg].Pkg.Name()
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"testing\"\n\n\tzzrt %q\n)\n\nfunc TestZZGvc(t *testing.T) {\n\tzzrt.Main(map[string]zzrt.Spec{\n", name, rtPath)
	for _, s := range specs {
		fmt.Fprintf(&b, "\t\t%q: {F: %s},\n", s.Name, s.Func)
	}
	b.WriteString("\t})\n}\n")
	rel := strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/")
	id := strings.ReplaceAll(rel, "/", "_")
	if id == "" {
		id = "root"
	}
	test := filepath.Join(dir, id+"_run.go")
	os.WriteFile(test, []byte(b.String()), 0644)
	ov := map[string]string{}
	for r, p := range w.overlay {
		ov[r] = p
	}
	ov[filepath.Join(w.repo, rel, "zz_gvc_run_test.go")] = test
	js, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	ovf := filepath.Join(dir, id+"_overlay.json")
	os.WriteFile(ovf, js, 0644)
	bin := filepath.Join(dir, id+".test")
	c := exec.Command(filepath.Join(goBin, "go"), "test", "-c", "-vet=off", "-overlay", ovf, "-o", bin, "./"+rel)
	c.Dir = w.repo
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, clipTo(string(out), 3000))
	}
	return bin, nil
}

func runConc(bin, dir string, only []string, cfg map[string]concCfg, seed int64, count int, limit time.Duration, one int) (map[string]*concReport, string) {
	tmp, _ := os.MkdirTemp(dir, "run")
	defer os.RemoveAll(tmp)
	js, _ := json.Marshal(cfg)
	cf := filepath.Join(tmp, "cfg.json")
	os.WriteFile(cf, js, 0644)
	of := filepath.Join(tmp, "out.json")
	work := filepath.Join(tmp, "work")
	os.Mkdir(work, 0755)
	res := map[string]*concReport{}
	errs := ""
	todo := only
	for len(todo) > 0 {
		os.Remove(of)
		c := exec.Command(bin, "-test.run", "TestZZGvc$", "-test.timeout", "0")
		setGroup(c)
		c.Dir = work
		c.Env = append(os.Environ(), "GVC_CFG="+cf, "GVC_OUT="+of, "GVC_ONLY="+strings.Join(todo, ","), fmt.Sprintf("GVC_SEED=%d", seed), fmt.Sprintf("GVC_COUNT=%d", count), "GVC_LIMIT="+limit.String(), "TMPDIR="+work, "GOMAXPROCS=2", "GVC_MARK="+of+".mark")
		if one >= 0 {
			c.Env = append(c.Env, fmt.Sprintf("GVC_CASE=%d", one))
		}
		done := make(chan error, 1)
		var outp strings.Builder
		c.Stdout, c.Stderr = &outp, &outp
		if err := c.Start(); err != nil {
			return res, err.Error()
		}
		go func() { done <- c.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(limit*time.Duration(len(todo)) + 60*time.Second):
			killGroup(c)
			<-done
			err = errTime
		}
		b, _ := os.ReadFile(of)
		n := 0
		for _, l := range strings.Split(string(b), "\n") {
			r := &concReport{seed: seed}
			if l != "" && json.Unmarshal([]byte(l), r) == nil {
				res[r.Spec] = r
				n++
			}
		}
		var rest []string
		for _, t := range todo {
			if res[t] == nil {
				rest = append(rest, t)
			}
		}
		sort.Strings(rest)
		if len(rest) > 0 && n == 0 {
			// the first one took the process down
			r := &concReport{Spec: rest[0], seed: seed, Fatal: fmt.Sprintf("crash (%v): %s", err, clipTo(lastLines(outp.String()), 1500))}
			if m, e := os.ReadFile(of + ".mark"); e == nil {
				txt := strings.SplitN(strings.SplitN(string(m), "\x00", 2)[0], "\n", 2)
				if f := strings.Fields(txt[0]); len(f) == 2 && len(txt) == 2 && f[0] == r.Spec {
					k, _ := strconv.Atoi(f[1])
					r.Cases = k
					r.Failures = append(r.Failures, concFailure{k, "the process does not crash", txt[1]})
				}
			}
			res[rest[0]] = r
			errs += r.Fatal
			rest = rest[1:]
		}
		todo = rest
	}
	return res, errs
}

func lastLines(s string) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		return s[i:]
	}
	if i := strings.Index(s, "fatal error:"); i >= 0 {
		return s[i:]
	}
	return s
}

// ---- the check of one property ----

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	fs.Parse(args)
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	specsDir := filepath.Join(*verif, "specs")
	w, err := loadDropping(*repo, specsDir)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	ledger := readLedger(*verif)
	var mine []*Spec
	for _, s := range w.specs {
		for _, p := range s.Props {
			if p == *prop {
				mine = append(mine, s)
			}
		}
	}
	if len(mine) == 0 {
		fmt.Println("error: no specification for", *prop)
		return 2
	}
	dir, err := os.MkdirTemp("", "gvc")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(dir)

	// concrete runners are built while the proofs run
	pkgs := map[string]bool{}
	for _, s := range mine {
		pkgs[s.Pkg] = true
	}
	bins := map[string]string{}
	binErr := map[string]string{}
	var bmu sync.Mutex
	var bwg sync.WaitGroup
	for p := range pkgs {
		bwg.Add(1)
		go func(p string) {
			defer bwg.Done()
			b, e := harness(w, p, dir)
			bmu.Lock()
			bins[p] = b
			if e != nil {
				binErr[p] = e.Error()
			}
			bmu.Unlock()
		}(p)
	}

	var names []string
	for _, s := range mine {
		e := ledger[s.Name]
		if s.Opts["bounded"] == "" && (tier == "thorough" || e == nil || e.Status == "proved") {
			names = append(names, s.Name)
		}
	}
	sort.Slice(names, func(i, j int) bool { return wallOf(ledger, names[i]) > wallOf(ledger, names[j]) })
	drop := strings.Join(dropFiles, ",")
	budget, second := 330*time.Second, 200*time.Second
	if tier == "thorough" {
		budget, second = 1500*time.Second, 900*time.Second
	}
	p := &pool{list: w.specs, repo: *repo, specs: specsDir, drop: drop, n: 6, limit: 260 * time.Second, deadline: time.Now().Add(budget)}
	results := p.run(names)
	var again []string
	for _, n := range names {
		if e := ledger[n]; e != nil && e.Status == "proved" && !results[n].proved() {
			again = append(again, n)
		}
	}
	if len(again) > 0 { // alone and with more time before anything is said
		q := &pool{list: w.specs, repo: *repo, specs: specsDir, drop: drop, n: 2, slow: true, limit: second, deadline: time.Now().Add(second)}
		for n, r := range q.run(again) {
			if r.proved() || results[n].Unsupported != "" {
				results[n] = r
			}
		}
	}

	// concrete runs
	bwg.Wait()
	cfg := map[string]concCfg{}
	for _, s := range mine {
		c := concCfg{Opts: s.Opts}
		if r := results[s.Name]; r != nil {
			c.Strs = r.MinedStrs
			for _, i := range r.MinedInts {
				if v, e := strconv.ParseInt(i, 10, 64); e == nil {
					c.Ints = append(c.Ints, v)
				}
			}
		}
		if len(c.Strs)+len(c.Ints) == 0 {
			c.Ints, c.Strs = w.mineStatic(s)
		}
		cfg[s.Name] = c
	}
	count, limit := 4000, 6*time.Second
	if tier == "thorough" {
		count, limit = 200000, 60*time.Second
	}
	conc := map[string]*concReport{}
	var cmu sync.Mutex
	sem := make(chan bool, 8)
	var cwg sync.WaitGroup
	for _, s := range mine {
		if bins[s.Pkg] == "" || s.Opts["noconc"] != "" {
			continue
		}
		cwg.Add(1)
		go func(s *Spec) {
			defer cwg.Done()
			sem <- true
			defer func() { <-sem }()
			r, _ := runConc(bins[s.Pkg], dir, []string{s.Name}, cfg, seed, count, limit, -1)
			cmu.Lock()
			defer cmu.Unlock()
			if r[s.Name] != nil {
				conc[s.Name] = r[s.Name]
			}
		}(s)
	}
	cwg.Wait()
	// a failed proof gets a longer search for a failing input
	type job struct {
		s    *Spec
		seed int64
	}
	var jobs []job
	failedProof := map[string]string{}
	for _, s := range mine {
		e := ledger[s.Name]
		if e == nil || e.Status != "proved" {
			continue
		}
		r := results[s.Name]
		if r.proved() {
			continue
		}
		failedProof[s.Name] = r.failure(e)
		if c := conc[s.Name]; (c == nil || len(c.Failures) == 0) && bins[s.Pkg] != "" && s.Opts["noconc"] == "" {
			for k := int64(1); k <= 8; k++ {
				jobs = append(jobs, job{s, seed + 1000*k})
			}
		}
	}
	if len(jobs) > 0 {
		lim := time.Duration(120/((len(jobs)+7)/8)) * time.Second
		if lim > 30*time.Second {
			lim = 30 * time.Second
		}
		for _, j := range jobs {
			cwg.Add(1)
			go func(j job) {
				defer cwg.Done()
				sem <- true
				defer func() { <-sem }()
				cmu.Lock()
				done := conc[j.s.Name] != nil && len(conc[j.s.Name].Failures) > 0
				cmu.Unlock()
				if done {
					return
				}
				r, _ := runConc(bins[j.s.Pkg], dir, []string{j.s.Name}, cfg, j.seed, 400000, lim, -1)
				cmu.Lock()
				defer cmu.Unlock()
				if c := r[j.s.Name]; c != nil {
					if o := conc[j.s.Name]; o != nil {
						if len(o.Failures) > 0 {
							return
						}
						c.Cases += o.Cases
						c.Distinct += o.Distinct
					}
					conc[j.s.Name] = c
				}
			}(j)
		}
		cwg.Wait()
	}

	// verdict
	violations := 0
	var lines []string
	repDir := filepath.Join(*verif, "evidence", "replay")
	os.MkdirAll(repDir, 0755)
	findings := readFindings(*verif)
	knownSpec := map[string]finding{}
	for _, f := range findings {
		if f.Property == *prop {
			knownSpec[f.Spec] = f
		}
	}
	for _, s := range mine {
		c := conc[s.Name]
		known, isKnown := knownSpec[s.Name]
		switch {
		case c != nil && len(c.Failures) > 0:
			if isKnown {
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", *prop, known.What))
				continue
			}
			f := c.Failures[0]
			path := writeReplay(repDir, *prop, *verif, s, cfg[s.Name], c.seed, f.Case, f.Clause, f.Args, failedProof[s.Name])
			lines = append(lines, fmt.Sprintf("# %s: \"%s\" fails on case %d: %s", s.Name, f.Clause, f.Case, clipTo(f.Args, 300)))
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path))
			violations++
		case c != nil && c.Fatal != "" && c.Cases == 0 && strings.HasPrefix(c.Fatal, "crash"):
			path := writeReplay(repDir, *prop, *verif, s, cfg[s.Name], c.seed, -1, "no crash", c.Fatal, failedProof[s.Name])
			lines = append(lines, fmt.Sprintf("# %s: the process crashed: %s", s.Name, clipTo(c.Fatal, 300)))
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path))
			violations++
		case failedProof[s.Name] != "":
			if isKnown {
				continue
			}
			if s.Opts["helper"] != "" && w.contractLost(s) {
				continue
			}
			path := filepath.Join(repDir, *prop+"_"+s.Func+".txt")
			os.WriteFile(path, []byte(failedProof[s.Name]), 0644)
			lines = append(lines, fmt.Sprintf("# %s: %s", s.Name, clipTo(strings.SplitN(failedProof[s.Name], "\n", 2)[0], 300)))
			lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", *prop, path))
			violations++
		case isKnown:
			lines = append(lines, "# known finding no longer observed: "+known.What)
		}
	}
	for n, e := range ledger { // specifications that disappeared (their file no longer compiles)
		if e.Status != "proved" || !strings.Contains(n, ".") || !w.lost[n] || !contains(w.lostProps[n], *prop) || w.lostHelper[n] {
			continue
		}
		path := filepath.Join(repDir, *prop+"_"+n+".txt")
		os.WriteFile(path, []byte("the contract no longer fits the code:\n"+w.lostWhy), 0644)
		lines = append(lines, fmt.Sprintf("# %s: the contract no longer fits the code: %s", n, clipTo(w.lostWhy, 300)))
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", *prop, path))
		violations++
	}
	for p, e := range binErr {
		lines = append(lines, "# concrete runner of "+p+" was not built: "+clipTo(e, 600))
	}
	evidence(w, *verif, *prop, tier, seed, t0, mine, ledger, results, conc, violations)
	for _, l := range lines {
		fmt.Println(l)
	}
	var ob, dis, ev int
	for _, r := range results {
		for _, o := range r.Obligations {
			ob += o.N
			if o.Status == "discharged" {
				dis += o.N
			}
		}
	}
	for _, c := range conc {
		ev += c.Cases - c.Skipped
	}
	fmt.Printf("%s: %d specifications, %d obligations, %d discharged, %d concrete cases, %d violations, %.0f s\n", *prop, len(mine), ob, dis, ev, violations, time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	if len(binErr) > 0 {
		return 2
	}
	return 0
}

func wallOf(l map[string]*ledgerEntry, n string) float64 {
	if e := l[n]; e != nil {
		return e.Wall
	}
	return 100
}

func contains(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func (r *Result) proved() bool {
	if r == nil || r.Unsupported != "" || r.Vacuous != "" {
		return false
	}
	for _, o := range r.Obligations {
		if o.Status != "discharged" {
			return false
		}
	}
	return true
}

// failure describes why a specification is not proved.
func (r *Result) failure(e *ledgerEntry) string {
	if r == nil {
		return "not verified"
	}
	var b strings.Builder
	for _, o := range r.Obligations {
		if o.Status != "discharged" {
			fmt.Fprintf(&b, "failed obligation of %s: %s\n  path: %s\n  verifier: %s\n", r.Spec, o.Name, o.Trail, o.Raw)
		}
	}
	if r.Unsupported != "" {
		fmt.Fprintf(&b, "obligations of %s not discharged: %s\n", r.Spec, r.Unsupported)
	}
	if r.Vacuous != "" {
		fmt.Fprintf(&b, "obligations of %s lost: %s\n", r.Spec, r.Vacuous)
	}
	return b.String()
}

func writeReplay(dir, prop, verif string, s *Spec, c concCfg, seed int64, n int, clause, args, proof string) string {
	base := filepath.Join(dir, prop+"_"+s.Func)
	js, _ := json.Marshal(map[string]concCfg{s.Name: c})
	os.WriteFile(base+".cfg.json", js, 0644)
	var b strings.Builder
	fmt.Fprintf(&b, "#!/bin/sh\n# property %s, specification %s (%s)\n# violated clause: %s\n", prop, s.Name, s.File, clause)
	for _, l := range strings.Split(args, "\n") {
		fmt.Fprintf(&b, "# arguments: %s\n", l)
	}
	for _, l := range strings.Split(proof, "\n") {
		if l != "" {
			fmt.Fprintf(&b, "# proof: %s\n", l)
		}
	}
	fmt.Fprintf(&b, "# runs the specification against the code in /repo on these arguments\nexec %s/bin/gvc replay -spec %s -seed %d -case %d -cfg %s.cfg.json\n", verif, s.Name, seed, n, base)
	os.WriteFile(base+".sh", []byte(b.String()), 0755)
	return base + ".sh"
}

func replayMain(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	spec := fs.String("spec", "", "")
	seed := fs.Int64("seed", 1, "")
	one := fs.Int("case", -1, "")
	count := fs.Int("count", 4000, "")
	limit := fs.Duration("limit", 20*time.Second, "")
	cfgf := fs.String("cfg", "", "")
	fs.Parse(args)
	w, err := loadDropping(*repo, filepath.Join(*verif, "specs"))
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	dir, _ := os.MkdirTemp("", "gvc")
	defer os.RemoveAll(dir)
	cfg := map[string]concCfg{}
	if *cfgf != "" {
		b, _ := os.ReadFile(*cfgf)
		json.Unmarshal(b, &cfg)
	}
	bins := map[string]string{}
	rc := 0
	for _, s := range w.specs {
		hit := *spec == ""
		for _, o := range strings.Split(*spec, ",") {
			hit = hit || o != "" && strings.HasSuffix(s.Name, o)
		}
		if !hit || s.Opts["noconc"] != "" {
			continue
		}
		if _, ok := bins[s.Pkg]; !ok {
			b, err := harness(w, s.Pkg, dir)
			if err != nil {
				fmt.Println("error:", err)
				return 2
			}
			bins[s.Pkg] = b
		}
		if _, ok := cfg[s.Name]; !ok {
			c := concCfg{Opts: s.Opts}
			c.Ints, c.Strs = w.mineStatic(s)
			cfg[s.Name] = c
		}
		r, e := runConc(bins[s.Pkg], dir, []string{s.Name}, cfg, *seed, *count, *limit, *one)
		c := r[s.Name]
		if c == nil {
			fmt.Println(s.Name, "no result", e)
			rc = 1
			continue
		}
		fmt.Printf("%s: %d cases, %d outside the domain, %d distinct, %d failures %s\n", s.Name, c.Cases, c.Skipped, c.Distinct, len(c.Failures), c.Fatal)
		seen := map[string]int{}
		for _, f := range c.Failures {
			rc = 1
			if seen[f.Clause]++; seen[f.Clause] <= 2 {
				fmt.Printf("  case %d violates \"%s\" with %s\n", f.Case, f.Clause, f.Args)
			}
		}
		if c.Fatal != "" {
			rc = 1
		}
	}
	return rc
}

// ledgerMain verifies every specification and writes down which are proved on the current tree.
func ledgerMain(args []string) int {
	fs := flag.NewFlagSet("ledger", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "")
	n := fs.Int("n", 5, "")
	missing := fs.Bool("missing", false, "only those without an entry")
	limit := fs.Duration("limit", 200*time.Second, "")
	fs.Parse(args)
	w, err := load(*repo, filepath.Join(*verif, "specs"), false)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	l := readLedger(*verif)
	all := map[string]bool{}
	var names []string
	for _, s := range w.specs {
		all[s.Name] = true
		if s.Opts["bounded"] != "" {
			l[s.Name] = &ledgerEntry{Status: "bounded", Why: "bounded on purpose"}
			continue
		}
		hit := *only == ""
		for _, o := range strings.Split(*only, ",") {
			hit = hit || o != "" && strings.HasSuffix(s.Name, "."+o)
		}
		if *missing && l[s.Name] != nil {
			hit = false
		}
		if hit {
			names = append(names, s.Name)
		}
	}
	for k := range l {
		if !all[k] {
			delete(l, k)
		}
	}
	p := &pool{list: w.specs, repo: *repo, specs: filepath.Join(*verif, "specs"), n: *n, limit: *limit, deadline: time.Now().Add(3 * time.Hour)}
	for n, r := range p.run(names) {
		e := &ledgerEntry{Status: "proved", Wall: float64(int(r.Wall))}
		if !r.proved() {
			e.Status = "bounded"
			e.Why = strings.SplitN(r.failure(nil), "\n", 2)[0]
		}
		for _, o := range r.Obligations {
			e.Obligations = append(e.Obligations, o.Name)
		}
		sort.Strings(e.Obligations)
		l[n] = e
		fmt.Println(n, e.Status, e.Wall, clipTo(e.Why, 160))
	}
	b, _ := json.MarshalIndent(l, "", " ")
	os.WriteFile(filepath.Join(*verif, "ledger.json"), append(b, '\n'), 0644)
	return 0
}

func evidence(w *World, verif, prop, tier string, seed int64, t0 time.Time, mine []*Spec, ledger map[string]*ledgerEntry, results map[string]*Result, conc map[string]*concReport, violations int) {
	type m = map[string]interface{}
	ob, dis := 0, 0
	backends := map[string]int{}
	solver := 0.0
	assumed, extern, contracts, inlined, subjects := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	var specs []m
	evals, distinct := 0, 0
	var samples []interface{}
	var bounded []string
	for _, s := range mine {
		d := m{"spec": s.Name, "file": strings.TrimPrefix(s.File, verif+"/")}
		if s.Contract != "" {
			d["contract_of"] = strings.ReplaceAll(s.Contract, modPath, "~")
		}
		e := ledger[s.Name]
		if r := results[s.Name]; r != nil {
			n, k := 0, 0
			var open []string
			for _, o := range r.Obligations {
				n += o.N
				if o.Status == "discharged" {
					k += o.N
					for _, b := range strings.Split(o.Backend, ",") {
						backends[b]++
					}
				} else {
					open = append(open, o.Name)
				}
			}
			solver += r.SolverTime
			if r.proved() {
				d["verdict"] = "proved"
			} else {
				d["verdict"] = "not proved"
				d["open"] = open
				d["reason"] = r.Unsupported + r.Vacuous
			}
			if e == nil || e.Status == "proved" || r.proved() {
				ob += n
				dis += k
			}
			d["obligations"], d["discharged"], d["paths"], d["seconds"] = n, k, r.Paths, r.Wall
			d["invariants_found"] = len(r.Invariants)
			for _, a := range r.Assumed {
				assumed[a] = true
			}
			for _, a := range r.Extern {
				extern[a] = true
			}
			for _, a := range r.Used {
				contracts[strings.ReplaceAll(a, modPath, "~")] = true
				for _, c := range w.specs {
					if le := ledger[c.Name]; c.Contract == a && (le == nil || le.Status != "proved") {
						assumed["contract "+c.Name+" of "+strings.ReplaceAll(a, modPath, "~")+" is assumed at its call sites although it is not proved (only checked on generated inputs)"] = true
					}
				}
			}
			for _, a := range r.Inlined {
				inlined[strings.ReplaceAll(a, modPath, "~")] = true
			}
			for _, a := range r.Subject {
				subjects[strings.ReplaceAll(a, modPath, "~")] = true
			}
		} else {
			d["verdict"] = "bounded"
			if e != nil {
				d["reason"] = e.Why
			}
		}
		if d["verdict"] != "proved" {
			bounded = append(bounded, s.Name)
		}
		if c := conc[s.Name]; c != nil {
			d["concrete_cases"], d["concrete_distinct"] = c.Cases-c.Skipped, c.Distinct
			evals += c.Cases - c.Skipped
			distinct += c.Distinct
			for _, t := range c.Samples {
				if len(samples) < 6 {
					samples = append(samples, s.Name+": "+t)
				}
			}
		}
		specs = append(specs, d)
	}
	trusted := []string{"gvc (/verif/gvc): translation of go/ssa to verification conditions", "golang.org/x/tools/go/ssa and the Go compiler agree on the meaning of the program", "z3, cvc5 (an obligation counts when one of them reports unsat)"}
	for _, e := range keys(extern) {
		trusted = append(trusted, "dependency outside the repository, modelled or assumed arbitrary: "+e)
	}
	if samples == nil {
		samples = []interface{}{"no concrete run"}
	}
	assumptions := keys(assumed)
	assumptions = append(assumptions, "partial correctness: termination of the functions is not proved", "no data races: the functions are verified as sequential code")
	level := levelOf(mine, ledger)
	cov := m{
		"obligations": ob, "discharged": dis, "checker_cmd": "sh /verif/check.sh " + prop, "trusted_base": trusted,
		"backends": backends, "solver_seconds": solver, "specifications": specs,
		"functions_under_contract": keys(subjects), "contracts_assumed_of_callees_proved_by_their_own_specification": keys(contracts), "functions_inlined": keys(inlined),
		"bounded_only": bounded,
		"evaluations":  evals, "distinct_nontrivial": distinct,
		"rule":        "arguments generated from VERIF_SEED by /verif/specs/rt/run.go (constants of the code under test are mixed in); a case counts when it satisfies the preconditions and no identical case was run before",
		"samples":     samples,
		"explanation": "specifications proved by gvc for all inputs, and every specification also run on generated inputs; those listed in bounded_only are only run (bounded), never counted as proved",
	}
	ev := m{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0644)
}

// levelOf: proof only when every specification of the property is proved.
func levelOf(mine []*Spec, ledger map[string]*ledgerEntry) string {
	n := 0
	for _, s := range mine {
		if e := ledger[s.Name]; e != nil && e.Status == "proved" {
			n++
		}
	}
	switch {
	case n == len(mine):
		return "proof"
	case n == 0:
		return "exploration"
	}
	return "other"
}

// levelMain prints, per property, the level its specifications reach.
func levelMain(args []string) int {
	w, err := load("/repo", "/verif/specs", false)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	l := readLedger("/verif")
	by := map[string][]*Spec{}
	for _, s := range w.specs {
		for _, p := range s.Props {
			by[p] = append(by[p], s)
		}
	}
	out := map[string]interface{}{}
	for p, ss := range by {
		var proved, bounded []string
		for _, s := range ss {
			if e := l[s.Name]; e != nil && e.Status == "proved" {
				proved = append(proved, s.Func)
			} else {
				bounded = append(bounded, s.Func)
			}
		}
		out[p] = map[string]interface{}{"level": levelOf(ss, l), "proved": proved, "bounded": bounded}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	fmt.Println(string(b))
	return 0
}
