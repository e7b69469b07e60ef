package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv dev|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dev":
		dev(os.Args[2:])
	case "check":
		check(os.Args[2:])
	case "drive":
		drive(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// dev verifies single functions during development.
func dev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	cdir := fs.String("contracts", "/verif/contracts", "")
	pkgs := fs.String("pkgs", "", "comma separated")
	prop := fs.String("prop", "", "")
	tmo := fs.Int("t", 10000, "")
	verbose := fs.Bool("v", false, "")
	closure := fs.Bool("closure", false, "")
	fs.Parse(args)
	t0 := time.Now()
	w, err := loadWorld(*repo, *cdir, strings.Split(*pkgs, ","))
	if err != nil {
		panic(err)
	}
	for _, e := range w.loadErrs {
		fmt.Println("LOAD", e)
	}
	for _, m := range w.missing {
		fmt.Println("MISSING", m)
	}
	if len(w.loadErrs) > 0 {
		os.Exit(1)
	}
	fmt.Println("loaded", time.Since(t0))
	k := &Checker{w: w, cache: map[string]Answer{}, timeout: *tmo, verbose: *verbose}
	var roots []*Contract
	if *prop != "" {
		roots = w.roots(*prop)
	}
	for _, a := range fs.Args() {
		n := 0
		for fn, c := range w.contracts {
			if strings.Contains(fn.String(), a) {
				roots = append(roots, c)
				n++
			}
		}
		if n == 0 {
			fmt.Println("no contract for", a)
		}
	}
	if *closure || *prop != "" {
		k.closure(roots)
	} else {
		for _, c := range roots {
			k.reports = append(k.reports, w.verify(c))
		}
	}
	fmt.Println("executed", time.Since(t0))
	k.discharge()
	for _, r := range k.reports {
		n, d := 0, 0
		for _, o := range r.obls {
			n++
			if o.result == "discharged" {
				d++
			}
		}
		fmt.Printf("%s: %d/%d obligations (+%d trivial), %d loops", r.target, d, n, r.x.trivial, len(r.x.loops))
		if r.err != "" {
			fmt.Printf(" OUT OF REACH: %s", r.err)
		}
		if r.vacuous {
			fmt.Printf(" VACUOUS")
		}
		fmt.Println()
		for _, o := range r.obls {
			if o.result != "discharged" {
				fmt.Println("   FAIL", o.name(), "|", firstLine(o.out))
				if *verbose {
					fmt.Println("      goal", show(o.goal))
					for _, p := range o.pc {
						fmt.Println("        pc", show(p))
					}
				}
				if d := os.Getenv("CV_FAILQ"); d != "" {
					os.MkdirAll(d, 0o755)
					os.WriteFile(fmt.Sprintf("%s/%s_%d.smt2", d, mangle(r.target), o.id), []byte(o.query), 0o644)
				}
			}
		}
		if *verbose {
			for _, li := range r.x.loops {
				for _, c := range li.cands {
					fmt.Printf("   loop %s %s dropped=%v %s\n", li.pos, c.label, c.dropped, c.why)
				}
			}
		}
	}
	fmt.Println("solver runs", solverRuns, "time", solverMS, "ms; total", time.Since(t0))
}
