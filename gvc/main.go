package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func defaultOptions() options {
	return options{feasTimeout: 700 * time.Millisecond, proveTimeout: 2500 * time.Millisecond, oblTimeout: 12 * time.Second, maxPaths: 6000, strings: "abstract", budget: 200 * time.Second, maxPort: 8}
}

func main() {
	if len(os.Args) > 1 {
		switch os.Args[1] {
		case "worker":
			workerMain(os.Args[2:])
			return
		case "check":
			os.Exit(checkMain(os.Args[2:]))
		case "replay":
			os.Exit(replayMain(os.Args[2:]))
		case "ledger":
			os.Exit(ledgerMain(os.Args[2:]))
		case "level":
			os.Exit(levelMain(os.Args[2:]))
		}
	}
	repo := flag.String("repo", "/repo", "")
	specs := flag.String("specs", "/verif/specs", "")
	only := flag.String("only", "", "comma separated substrings of specification names")
	verbose := flag.Bool("v", false, "")
	jobs := flag.Int("j", 0, "verify with that many workers")
	limit := flag.Duration("limit", 200*time.Second, "")
	flag.Parse()
	w, err := load(*repo, *specs, false)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	opt := defaultOptions()
	opt.verbose = *verbose
	var names []string
	for _, s := range w.specs {
		if *only != "" {
			hit := false
			for _, o := range strings.Split(*only, ",") {
				hit = hit || strings.HasSuffix(s.Name, o)
			}
			if !hit {
				continue
			}
		}
		var r *Result
		if *jobs > 0 {
			names = append(names, s.Name)
			continue
		}
		if c := os.Getenv("GVC_CASE"); c != "" {
			fmt.Sscan(c, &opt.only)
			r = verify(w, s, opt)
		} else {
			r = verifyAll(w, s, opt)
		}
		show1(r, *verbose)
	}
	p := &pool{list: w.specs, repo: *repo, specs: *specs, n: *jobs, limit: *limit, deadline: time.Now().Add(3 * time.Hour)}
	res := p.run(names)
	for _, n := range names {
		show1(res[n], *verbose)
	}
}

func show1(r *Result, verbose bool) {
	fmt.Printf("%s  props=%v ends=%d paths=%d wall=%.1f solver=%.1f unsup=%q vacuous=%q\n", r.Spec, r.Props, r.Ends, r.Paths, r.Wall, r.SolverTime, r.Unsupported, r.Vacuous)
	for _, o := range r.Obligations {
		fmt.Printf("   %-11s %-50s n=%d %s %.1fs\n", o.Status, o.Name, o.N, o.Backend, o.Time)
		if o.Status != "discharged" {
			fmt.Printf("        trail: %s\n        %s\n", o.Trail, strings.ReplaceAll(o.Raw, "\n", "\n        "))
		}
	}
	if verbose {
		fmt.Println("   inv:", r.Invariants)
		fmt.Println("   inlined:", r.Inlined)
		fmt.Println("   assumed:", r.Assumed)
	}
}
