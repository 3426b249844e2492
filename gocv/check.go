package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

func ghostFiles(cdir, prop string) map[string][]string {
	out := map[string][]string{}
	for dir, rel := range map[string]string{"ghost": "", "ghost_grammar": "grammar"} {
		if rel != "" && prop != "C24" && prop != "C27" {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(cdir, dir, "*.go"))
		sort.Strings(fs)
		if len(fs) > 0 {
			out[rel] = fs
		}
	}
	return out
}

type CheckRes struct {
	Property string            `json:"property"`
	Roots    []string          `json:"roots"`
	Fns      map[string]*FnRes `json:"fns"`
	Lemmas   *FnRes            `json:"lemmas"`
	Inlined  []string          `json:"contract_replaced_by_body"`
	OK       bool              `json:"ok"`
	Failed   []string          `json:"failed"`
	Unsup    []string          `json:"unsupported"`
	Missing  []string          `json:"missing"`
	Internal string            `json:"internal"`
}

// readerReads lists the Read methods of all types of the module that implement Reader.
func readerReads(p *Program) []string {
	x := &Exec{p: p}
	var out []string
	for n, f := range p.allFns() {
		if f.Name() == "Read" && f.Signature.Recv() != nil && x.isReaderT(f.Signature.Recv().Type()) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

func expandRoots(p *Program, cs *Contracts, prop string) []string {
	var out []string
	seen := map[string]bool{}
	for _, r := range cs.Roots[prop] {
		var l []string
		switch {
		case r == "@readers":
			l = readerReads(p)
		case strings.HasPrefix(r, "@C"):
			l = expandRoots(p, cs, r[1:])
		case strings.HasPrefix(r, "-"):
			seen[r[1:]] = true
			continue
		default:
			l = []string{r}
		}
		for _, n := range l {
			if !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	return out
}

func runCheck(cs *Contracts, repo, cdir, prop string, workers, ms, budget int, out, tier string) int {
	cr := &CheckRes{Property: prop, Fns: map[string]*FnRes{}}
	write := func() {
		b, _ := json.Marshal(cr)
		if out == "" {
			os.Stdout.Write(b)
		} else {
			os.WriteFile(out, b, 0644)
		}
	}
	p, err := load(repo, cdir, prop)
	if err != nil {
		cr.Internal = "load: " + err.Error()
		write()
		return 3
	}
	self, _ := os.Executable()
	cr.Roots = expandRoots(p, cs, prop)
	isRoot := map[string]bool{}
	for _, r := range cr.Roots {
		isRoot[r] = true
	}
	nc := map[string]bool{}
	verify1 := func(n string, cas int) *FnRes {
		var l []string
		for k := range nc {
			l = append(l, k)
		}
		sort.Strings(l)
		var r *FnRes
		for _, nocache := range []string{"false", "true"} {
			if r != nil && (!r.failed() || r.CacheHits == 0) {
				break
			}
			c := exec.Command(self, "verify", "-nocache="+nocache, "-repo", repo, "-contracts", cdir, "-p", prop, "-fn", n, "-inline", strings.Join(l, ";"),
				"-ms", strconv.Itoa(ms), "-budget", strconv.Itoa(budget), "-case", strconv.Itoa(cas))
			b, err := c.Output()
			r = &FnRes{}
			if err != nil || json.Unmarshal(b, r) != nil {
				return &FnRes{Func: n, Unsupported: fmt.Sprintf("worker failed: %v", err)}
			}
		}
		return r
	}
	sem := make(chan bool, workers)
	verify := func(n string) *FnRes {
		ct := cs.Fns[n]
		if ct == nil || len(ct.Cases) == 0 {
			sem <- true
			defer func() { <-sem }()
			return verify1(n, -1)
		}
		rs := make([]*FnRes, len(ct.Cases))
		var wg sync.WaitGroup
		for i := range rs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				sem <- true
				rs[i] = verify1(n, i)
				<-sem
			}(i)
		}
		wg.Wait()
		return mergeRes(rs)
	}
	runAll := func(start []string) {
		var mu sync.Mutex
		var wg sync.WaitGroup
		queued := map[string]bool{}
		var add func(n string)
		add = func(n string) {
			if queued[n] || cr.Fns[n] != nil {
				return
			}
			queued[n] = true
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := verify(n)
				mu.Lock()
				cr.Fns[n] = r
				for _, c := range r.Callees {
					if !nc[c] {
						add(c)
					}
				}
				mu.Unlock()
			}()
		}
		mu.Lock()
		for _, n := range start {
			add(n)
		}
		mu.Unlock()
		wg.Wait()
	}
	runAll(cr.Roots)
	// contracts of helpers that no longer hold are replaced by the helper's body
	for round := 0; round < 6; round++ {
		var bad []string
		for n, r := range cr.Fns {
			if !isRoot[n] && !r.ok() && !nc[n] {
				bad = append(bad, n)
			}
		}
		if len(bad) == 0 {
			break
		}
		for _, n := range bad {
			nc[n] = true
		}
		for n, r := range cr.Fns {
			redo := nc[n]
			for _, c := range r.Callees {
				if nc[c] {
					redo = true
				}
			}
			if redo {
				delete(cr.Fns, n)
			}
		}
		var start []string
		for _, r := range cr.Roots {
			if cr.Fns[r] == nil {
				start = append(start, r)
			}
		}
		// helpers still needed
		need := map[string]bool{}
		for _, r := range cr.Fns {
			for _, c := range r.Callees {
				if !nc[c] {
					need[c] = true
				}
			}
		}
		for n := range need {
			if cr.Fns[n] == nil {
				start = append(start, n)
			}
		}
		runAll(start)
	}
	for n := range nc {
		cr.Inlined = append(cr.Inlined, n)
	}
	sort.Strings(cr.Inlined)
	rec := map[string]bool{}
	for n, r := range cr.Fns {
		for _, f := range r.RecFns {
			rec[f] = true
		}
		switch {
		case r.Missing:
			cr.Missing = append(cr.Missing, n)
		case r.Unsupported != "":
			cr.Unsup = append(cr.Unsup, n+": "+r.Unsupported)
		}
		for _, o := range r.Obligs {
			if o.Result != "discharged" {
				cr.Failed = append(cr.Failed, n+": "+o.Kind+" "+o.Name)
			}
		}
	}
	s := NewSolver(4)
	cr.Lemmas = lemmaObligs(s, sortedSet(rec), ms)
	s.Close()
	for _, o := range cr.Lemmas.Obligs {
		if o.Result != "discharged" {
			cr.Failed = append(cr.Failed, "lemma "+o.Name)
		}
	}
	sort.Strings(cr.Failed)
	sort.Strings(cr.Unsup)
	sort.Strings(cr.Missing)
	cr.OK = len(cr.Failed)+len(cr.Unsup)+len(cr.Missing) == 0
	write()
	if cr.OK {
		return 0
	}
	return 1
}

// mergeRes combines the results of the cases of one function.
func mergeRes(rs []*FnRes) *FnRes {
	m := rs[0]
	set := func(a, b []string) []string {
		u := map[string]bool{}
		for _, s := range append(append([]string{}, a...), b...) {
			u[s] = true
		}
		return sortedSet(u)
	}
	for _, r := range rs[1:] {
		m.Obligs = append(m.Obligs, r.Obligs...)
		if m.Unsupported == "" {
			m.Unsupported = r.Unsupported
		}
		m.Missing = m.Missing || r.Missing
		m.Callees, m.Inlined, m.Used = set(m.Callees, r.Callees), set(m.Inlined, r.Inlined), set(m.Used, r.Used)
		m.Notes, m.RecFns = set(m.Notes, r.Notes), set(m.RecFns, r.RecFns)
		m.Exits += r.Exits
		m.Loops += r.Loops
		m.Invariants += r.Invariants
		m.SolverSecs += r.SolverSecs
		if r.Secs > m.Secs {
			m.Secs = r.Secs
		}
		if m.Backends == nil {
			m.Backends = map[string]int{}
		}
		for k, v := range r.Backends {
			m.Backends[k] += v
		}
	}
	return m
}

func (r *FnRes) failed() bool {
	for _, o := range r.Obligs {
		if o.Result != "discharged" {
			return true
		}
	}
	return false
}
