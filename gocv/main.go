package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	if f := os.Getenv("GOCV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gocv list|verify|check ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	cdir := fs.String("contracts", "/verif/contracts", "")
	prop := fs.String("p", "", "")
	fnn := fs.String("fn", "", "")
	noc := fs.String("inline", "", "")
	dbg := fs.Bool("v", false, "")
	ms := fs.Int("ms", 8000, "")
	budget := fs.Int("budget", 120, "")
	workers := fs.Int("j", 8, "")
	out := fs.String("out", "", "")
	cas := fs.Int("case", -1, "")
	nocache := fs.Bool("nocache", false, "infer the invariants of each loop on every path anew")
	tier := fs.String("tier", "quick", "")
	fs.Parse(os.Args[2:])
	cs, err := LoadContracts(*cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if b, err := os.ReadFile(*cdir + "/known_fields.txt"); err == nil {
		for _, l := range strings.Fields(string(b)) {
			knownFields[l] = true
			knownTypes[l[:strings.LastIndex(l, ".")]] = true
		}
	}
	switch cmd {
	case "list":
		p, err := load(*repo, *cdir, *prop)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for n := range p.allFns() {
			fmt.Println(n)
		}
	case "fields":
		p, err := load(*repo, *cdir, *prop)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, l := range structFields(p) {
			fmt.Println(l)
		}
	case "verify":
		p, err := load(*repo, *cdir, *prop)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		nc := map[string]bool{}
		for _, n := range strings.Split(*noc, ";") {
			if n != "" {
				nc[n] = true
			}
		}
		s := NewSolver(2)
		if *dbg {
			s = NewSolver(8)
		}
		r := verifyFn(p, cs, *prop, *fnn, nc, s, time.Duration(*budget)*time.Second, *ms, *dbg, *cas, *nocache)
		s.Close()
		if *dbg {
			fmt.Printf("%s exits=%d loops=%d inv=%d obligs=%d %.1fs queries=%d solver %.1fs\n", r.Func, r.Exits, r.Loops, r.Invariants, len(r.Obligs), r.Secs, s.Queries, r.SolverSecs)
			if r.Unsupported != "" {
				fmt.Println("UNSUPPORTED", r.Unsupported)
			}
			for _, o := range r.Obligs {
				if o.Result != "discharged" {
					fmt.Println("FAIL", o.Kind, o.Name, o.Result, o.Secs)
					if os.Getenv("GOCV_MODEL") != "" {
						fmt.Println(o.Goal)
						fmt.Println(o.Model)
					}
				}
			}
			return
		}
		json.NewEncoder(os.Stdout).Encode(r)
	case "check":
		os.Exit(runCheck(cs, *repo, *cdir, *prop, *workers, *ms, *budget, *out, *tier))
	case "lemmas":
		s := NewSolver(4)
		var ns []string
		for n := range recFns {
			ns = append(ns, n)
		}
		r := lemmaObligs(s, ns, *ms)
		s.Close()
		for _, o := range r.Obligs {
			fmt.Println(o.Result, o.Name, o.Secs)
		}
	}
}

func load(repo, cdir, prop string) (*Program, error) {
	return Load(repo, []string{"", "grammar"}, ghostFiles(cdir, prop))
}

func structFields(p *Program) []string {
	set := map[string]bool{}
	for _, tp := range p.tpkgs {
		if !strings.HasPrefix(tp.Path(), p.mod) {
			continue
		}
		for _, n := range tp.Scope().Names() {
			if tn, ok := tp.Scope().Lookup(n).(*types.TypeName); ok {
				if s, ok := tn.Type().Underlying().(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						set[tp.Name()+"."+n+"."+s.Field(i).Name()] = true
					}
					if s.NumFields() == 0 {
						set[tp.Name()+"."+n+"._"] = true
					}
				}
			}
		}
	}
	return sortedSet(set)
}
