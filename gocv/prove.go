package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// OblRes is the outcome of one obligation.
type OblRes struct {
	Func    string  `json:"func"`
	Kind    string  `json:"kind"`
	Name    string  `json:"name"`
	Result  string  `json:"result"` // discharged | refuted | unknown
	Backend string  `json:"backend"`
	Secs    float64 `json:"secs"`
	Model   string  `json:"model,omitempty"`
	Goal    string  `json:"goal,omitempty"`
}

// FnRes is the outcome of verifying one function.
type FnRes struct {
	Func        string         `json:"func"`
	Obligs      []OblRes       `json:"obligs"`
	Unsupported string         `json:"unsupported,omitempty"`
	Missing     bool           `json:"missing,omitempty"`
	CacheHits   int            `json:"cacheHits,omitempty"`
	Trusted     bool           `json:"trusted,omitempty"`
	Callees     []string       `json:"callees,omitempty"`
	Inlined     []string       `json:"inlined,omitempty"`
	Used        []string       `json:"used,omitempty"`
	Notes       []string       `json:"notes,omitempty"`
	RecFns      []string       `json:"rec,omitempty"`
	Exits       int            `json:"exits"`
	Loops       int            `json:"loops"`
	Invariants  int            `json:"invariants"`
	Secs        float64        `json:"secs"`
	SolverSecs  float64        `json:"solver_secs"`
	Backends    map[string]int `json:"backends"`
	Clauses     int            `json:"clauses"`
}

func (r *FnRes) ok() bool {
	if r.Unsupported != "" || r.Missing {
		return false
	}
	for _, o := range r.Obligs {
		if o.Result != "discharged" {
			return false
		}
	}
	return true
}

func visFor(cs *Contracts, prop string) map[string]bool {
	v := map[string]bool{prop: true}
	for t, ps := range cs.Groups {
		for _, p := range ps {
			if p == prop || p == "*" {
				v[t] = true
			}
		}
	}
	return v
}

// contractOf is the contract of a function: its own plus, for Read methods, the one of Reader.Read.
func contractOf(p *Program, cs *Contracts, name string, fn *ssa.Function) *Contract {
	own := cs.Fns[name]
	var ic *Contract
	if fn.Name() == "Read" && fn.Signature.Recv() != nil {
		x := &Exec{p: p}
		if x.isReaderT(fn.Signature.Recv().Type()) {
			ic = cs.Fns["Reader.Read"]
		}
	}
	if ic == nil {
		return own
	}
	if own != nil && own.merged {
		return own
	}
	if own == nil {
		own = &Contract{Name: name, Params: ic.Params, Results: ic.Results, Modifies: append([]string{}, ic.Modifies...), Auto: true}
		own.Requires = ic.Requires
		own.Lets = ic.Lets
		own.Ensures = append([]*Clause{}, ic.Ensures...)
		own.Invs = append([]*Clause{}, ic.Invs...)
		own.merged = true
		return own
	}
	if fmt.Sprint(own.Params) != fmt.Sprint(ic.Params) || fmt.Sprint(own.Results) != fmt.Sprint(ic.Results) {
		panic(unsupported{"contract of " + name + " must use the parameter names of Reader.Read"})
	}
	own.merged = true
	own.Lets = append(append([]*Clause{}, own.Lets...), ic.Lets...)
	own.Requires = append(append([]*Clause{}, ic.Requires...), own.Requires...)
	own.Ensures = append(append([]*Clause{}, ic.Ensures...), own.Ensures...)
	own.Invs = append(append([]*Clause{}, own.Invs...), ic.Invs...)
	for _, m := range ic.Modifies {
		has := false
		for _, o := range own.Modifies {
			if o == m {
				has = true
			}
		}
		if !has {
			own.Modifies = append(own.Modifies, m)
		}
	}
	return own
}

func verifyFn(p *Program, cs *Contracts, prop, name string, noContract map[string]bool, solver *Solver, budget time.Duration, ms int, dbg bool, cas int, noCache bool) (res *FnRes) {
	res = &FnRes{Func: name, Backends: map[string]int{}}
	t0 := time.Now()
	fn := p.lookup(name)
	if fn == nil || len(fn.Blocks) == 0 {
		res.Missing = true
		return
	}
	vis := visFor(cs, prop)
	x := &Exec{readsAs: map[*Term]*Clause{}, readsNo: map[*Term]int{}, p: p, s: solver, cs: cs, vis: vis, rootFn: fn, deadline: t0.Add(budget), notes: map[string]bool{}, inlined: map[string]bool{},
		used: map[string]bool{}, callees: map[string]bool{}, fuel: 1, debug: dbg, noContract: noContract, termOn: vis["term"], noCache: noCache}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Unsupported = u.msg
			} else {
				res.Unsupported = fmt.Sprintf("internal: %v", r)
				if dbg {
					debug.PrintStack()
				}
			}
		}
		res.Callees, res.Inlined, res.Used, res.Notes = sortedSet(x.callees), sortedSet(x.inlined), sortedSet(x.used), sortedSet(x.notes)
		res.Secs = time.Since(t0).Seconds()
		res.SolverSecs = solver.Time.Seconds()
		res.CacheHits = x.cacheHits
		res.Exits, res.Loops, res.Invariants = x.exits, x.loopsCut, x.invKept
	}()
	for n := range cs.Fns {
		if f := p.lookup(n); f != nil && f.Name() == "Read" {
			contractOf(p, cs, n, f)
		}
	}
	ct := contractOf(p, cs, name, fn)
	if ct == nil {
		panic(unsupported{"no contract for " + name})
	}
	if ct.Trusted || trustedHere(ct, vis) {
		res.Trusted = true
		return
	}
	x.root = ct
	asciiOn = vis["C24"] || vis["C27"]
	if ct.Unfolds != nil {
		for n := range recFns {
			if strings.HasPrefix(n, "j") {
				folded[n] = true
			}
		}
		for _, f := range ct.Unfolds {
			delete(folded, strings.SplitN(f, ":", 2)[0])
		}
		for _, k := range []string{"0", "1", "2"} {
			folded["jval:"+k] = true
		}
		for _, f := range ct.Unfolds {
			delete(folded, f)
		}
	}
	st := newState()
	st.keepFresh = ct.KeepFresh
	curSt = st
	var args []Val
	for _, prm := range fn.Params {
		v := freshVal("p_"+prm.Name(), prm.Type())
		ls := leaves(prm.Type())
		for j, t := range flatten(v) {
			if kk := intKind(ls[j].typ); kk != "" {
				st.assume(inRangeT(kk, t))
			}
			switch t.Sort {
			case SRef, SSl:
				b := rblk
				if t.Sort == SSl {
					b = lblk
				}
				st.times[b(t)] = 0
				st.assume(le(b(t), cst("A0", SInt)))
			}
		}
		if pv, ok := v.(*PtrV); ok {
			st.assume(le(one, rblk(pv.ref)))
		}
		args = append(args, v)
	}
	st.assume(le(one, cst("A0", SInt)))
	x.rootArgs = args
	x.entry = st.clone()
	for _, cl := range ct.Requires {
		if x.visible(cl.Tags) {
			c := x.mkCtx(ct, fn, args, st, x.entry, nil)
			st.assume(c.t(cl.E))
		}
	}
	if cas >= 0 && cas < len(ct.Cases) {
		c := x.mkCtx(ct, fn, args, st, x.entry, nil)
		if cas == 0 {
			var ds []*Term
			for _, cl := range ct.Cases {
				ds = append(ds, c.t(cl.E))
			}
			x.exitOblige(st, "cases", "the case split is complete", or(ds...))
		}
		st.assume(c.t(ct.Cases[cas].E))
	}
	e := st.clone()
	x.entry = e
	if x.contradictory(st.pc, 1, 2000) {
		x.obligs = append(x.obligs, &Oblig{Func: name, Kind: "vacuity", Name: "precondition is satisfiable", goal: tFalse, Res: Unknown})
	}
	x.uid++
	fr := &frame{fn: fn, uid: x.uid, regs: map[ssa.Value]Val{}}
	for i, prm := range fn.Params {
		fr.regs[prm] = args[i]
	}
	st.frames = append(st.frames, fr)
	nclauses := 0
	for _, cl := range ct.Ensures {
		if x.visible(cl.Tags) {
			nclauses++
		}
	}
	res.Clauses = nclauses
	x.block(st, fn.Blocks[0], nil, func(st *State, rv []Val) {
		x.exits++
		c := x.mkCtx(ct, fn, args, st, x.entry, rv)
		for _, cl := range ct.Ensures {
			if !x.visible(cl.Tags) {
				continue
			}
			g := c.t(cl.E)
			x.exitOblige(st, "ensures", cl.Name+": "+cl.Src, g)
		}
		for _, cl := range ct.panics {
			if x.visible(cl.Tags) {
				x.exitOblige(st, "panics", "returns only if not "+cl.Src, not(x.mkCtx(ct, fn, args, x.entry, x.entry, nil).t(cl.E)))
			}
		}
		x.sortExit(st)
		x.frameObligs(st, ct, fn, args)
	})
	if x.exits == 0 {
		x.obligs = append(x.obligs, &Oblig{Func: name, Kind: "vacuity", Name: "some exit is reachable", goal: tFalse, Res: Unknown})
	}
	x.discharge(ms)
	rec := map[string]bool{}
	for _, o := range x.obligs {
		r := OblRes{Func: name, Kind: o.Kind, Name: o.Name, Backend: o.Engine, Secs: o.Dur.Seconds()}
		switch o.Res {
		case Unsat:
			r.Result = "discharged"
		case Sat:
			r.Result = "refuted"
		default:
			r.Result = "unknown"
		}
		if o.Res != Unsat {
			r.Model = o.Model
			r.Goal = trunc(o.goal.String(), 2000)
		}
		walk(append(o.pc, o.goal), map[*Term]bool{}, func(t *Term) {
			if _, ok := recFns[t.Op]; ok {
				rec[t.Op] = true
			}
		})
		res.Backends[o.Engine]++
		res.Obligs = append(res.Obligs, r)
	}
	res.RecFns = sortedSet(rec)
	return
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// exitOblige records an obligation without assuming it afterwards.
func (x *Exec) exitOblige(st *State, kind, name string, goal *Term) {
	if goal == tTrue {
		x.obligs = append(x.obligs, &Oblig{Func: x.root.Name, Name: name, Kind: kind, goal: goal, Res: Unsat, Engine: "simplifier"})
		return
	}
	x.obligs = append(x.obligs, &Oblig{Func: x.root.Name, Name: name, Kind: kind, pc: st.pc[:len(st.pc):len(st.pc)], goal: goal, Res: Unknown})
}

// frameObligs: nothing that existed at entry changes except what modifies lists.
func (x *Exec) frameObligs(st *State, ct *Contract, fn *ssa.Function, args []Val) {
	world, tworld, allpos := false, false, false
	type loc struct {
		key string
		ref *Term
	}
	var locs []loc
	type el struct {
		key string
		blk *Term
	}
	var els []el
	var keys []string
	ghosts := map[string]bool{}
	c := x.mkCtx(ct, fn, args, x.entry, x.entry, nil)
	for _, m := range ct.Modifies {
		switch {
		case m == "world":
			world, tworld = true, true
		case m == "tworld":
			tworld = true
		case m == "allpos":
			allpos = true
		case strings.HasPrefix(m, "ghost "):
			ghosts[strings.TrimSpace(m[6:])] = true
		case strings.HasPrefix(m, "key "):
			keys = append(keys, strings.TrimSpace(m[4:]))
		case strings.HasPrefix(m, "elems "):
			e, err := parseExpr(m[6:])
			if err != nil {
				serr("modifies %s", m)
			}
			v := c.tv(e)
			et := under(v.T).(*types.Slice).Elem()
			for _, l := range leaves(et) {
				els = append(els, el{cellKey(et) + l.path, lblk(v.term())})
			}
		default:
			e, err := parseExpr(m)
			if err != nil {
				serr("modifies %s", m)
			}
			p := c.lval(e)
			for _, l := range leaves(p.elem) {
				locs = append(locs, loc{p.key + l.path, p.ref})
			}
		}
	}
	if st.epoch != 0 && !world {
		x.exitOblige(st, "frame", "readers, baskets and logs unchanged", tFalse)
	}
	if st.tepoch != 0 && !tworld {
		x.exitOblige(st, "frame", "baskets unchanged", tFalse)
	}
	b, i := cst("fr_b", SInt), cst("fr_i", SInt)
	st2 := st.clone()
	for _, key := range sortedKeys(st.mem) {
		if world && (isWorldKey(key) || key == "tok.LogEntry.idx") || tworld && isTrackerKey(key) || wildKey(key) {
			continue
		}
		if allpos && key == "tok.Scanner.pos" {
			continue
		}
		if strings.HasPrefix(key, "global:") {
			continue
		}
		skip := false
		for _, k := range keys {
			if strings.HasPrefix(key, k) {
				skip = true
			}
		}
		if skip {
			continue
		}
		m := st.mem[key]
		o := m0(key)
		if m == o {
			continue
		}
		hyp := []*Term{le(one, b), le(b, cst("A0", SInt))}
		for _, l := range locs {
			if l.key == key {
				hyp = append(hyp, not(and(eq(b, rblk(l.ref)), eq(i, ridx(l.ref)))))
			}
		}
		for _, e := range els {
			if e.key == key {
				hyp = append(hyp, ne(b, e.blk))
			}
		}
		st2.times[b] = 0
		curSt = st2
		goal := eq(sel(sel(m, b), i), sel(sel(o, b), i))
		curSt = nil
		x.exitOblige(st, "frame", key, implies(and(hyp...), goal))
	}
	for g, v := range st.ghost {
		if !ghosts[g] && v != x.entry.ghostVal(g) && g != "sorted" && g != "fcalls" && g != "ffalse" && g != "fpos" && g != "fres" && g != "ferr" {
			if !x.ghostVisible(g) {
				continue
			}
			x.exitOblige(st, "frame", "ghost "+g, eq(v, x.entry.ghostVal(g)))
		}
	}
}

func (x *Exec) ghostVisible(g string) bool {
	switch g {
	case "lastUpd":
		return x.vis["C16"]
	case "mapN", "mapFrom", "mapTo", "mapF":
		return x.vis["C17"]
	}
	return true
}

func (x *Exec) discharge(ms int) {
	type job struct {
		o     *Oblig
		text  string
		text2 string
	}
	var jobs []*job
	seen := map[string]*Oblig{}
	var dups [][2]*Oblig
	var wg sync.WaitGroup
	// obligations under the same path condition are first tried together
	groups := map[string][]*Oblig{}
	var order []string
	for _, o := range x.obligs {
		if o.Res == Unsat {
			continue
		}
		var b strings.Builder
		for _, t := range o.pc {
			fmt.Fprintf(&b, "%d,", t.id)
		}
		if groups[b.String()] == nil {
			order = append(order, b.String())
		}
		groups[b.String()] = append(groups[b.String()], o)
	}
	for _, g := range order {
		os := groups[g]
		if len(os) < 2 {
			continue
		}
		var gs []*Term
		for _, o := range os {
			gs = append(gs, o.goal)
		}
		text := x.queryText(os[0].pc, []*Term{not(and(gs...))}, x.fuel)
		wg.Add(1)
		go func() {
			defer wg.Done()
			if a := x.s.Check(text, ms, false); a.res == Unsat {
				for _, o := range os {
					o.Res, o.Engine, o.Dur = Unsat, a.backend, a.dur/time.Duration(len(os))
				}
			}
		}()
	}
	wg.Wait()
	for _, o := range x.obligs {
		if o.Res == Unsat {
			continue
		}
		text := x.queryText(o.pc, []*Term{not(o.goal)}, x.fuel)
		if d, ok := seen[text]; ok {
			dups = append(dups, [2]*Oblig{o, d})
			continue
		}
		seen[text] = o
		jobs = append(jobs, &job{o: o, text: text})
	}
	// second attempt with deeper unfolding, prepared lazily below
	run := func(js []*job, f func(*job)) {
		for _, j := range js {
			j := j
			wg.Add(1)
			go func() { defer wg.Done(); f(j) }()
		}
		wg.Wait()
	}
	run(jobs, func(j *job) {
		a := x.s.Check(j.text, ms, false)
		j.o.Res, j.o.Engine, j.o.Dur = a.res, a.backend, a.dur
	})
	var retry []*job
	for _, j := range jobs {
		if j.o.Res != Unsat {
			j.text2 = x.queryText(j.o.pc, []*Term{not(j.o.goal)}, x.fuel+2)
			retry = append(retry, j)
		}
	}
	run(retry, func(j *job) {
		a := x.s.Check(j.text2, ms, true)
		j.o.Dur += a.dur
		j.o.Res, j.o.Engine = a.res, a.backend
		if a.res != Unsat {
			j.o.Model = trunc(x.s.Model(j.text, ms), 6000)
		}
	})
	for _, d := range dups {
		d[0].Res, d[0].Engine = d[1].Res, d[1].Engine
		d[0].Model = d[1].Model
	}
	if f := os.Getenv("GOCV_DUMP"); f != "" {
		n := 0
		for _, j := range jobs {
			if j.o.Res != Unsat {
				n++
				t := j.text2
				if t == "" {
					t = j.text
				}
				os.WriteFile(fmt.Sprintf("%s/%d.smt2", f, n), []byte("; "+j.o.Kind+" "+j.o.Name+"\n"+t+"(check-sat)\n(get-model)\n"), 0644)
			}
		}
	}
}

// ------------------------------------------------------------------ lemmas about the specification functions

// lemmaObligs proves, by induction, that every recursive specification function named is well founded and that
// the bounds used about it hold.
func lemmaObligs(solver *Solver, names []string, ms int) *FnRes {
	res := &FnRes{Func: "lemmas", Backends: map[string]int{}}
	x := &Exec{s: solver, fuel: 0}
	sort.Strings(names)
	for _, n := range names {
		f := recFns[n]
		if f == nil {
			continue
		}
		var a []*Term
		for i, s := range f.sorts {
			a = append(a, cst(fmt.Sprintf("lem_%s_%d", n, i), s))
		}
		d := expandMacros(f.def(a), n)
		self := app(n, f.ret, a...)
		h := tTrue
		if f.hyp != nil {
			h = f.hyp(a)
		}
		// recursive occurrences with their guards
		type occ struct {
			t     *Term
			guard []*Term
		}
		var occs []occ
		var rec func(t *Term, g []*Term)
		rec = func(t *Term, g []*Term) {
			if t.Op == n {
				occs = append(occs, occ{t, g})
			}
			switch t.Op {
			case "ite":
				rec(t.Args[0], g)
				rec(t.Args[1], append(g[:len(g):len(g)], t.Args[0]))
				rec(t.Args[2], append(g[:len(g):len(g)], not(t.Args[0])))
			case "and":
				for i, y := range t.Args {
					rec(y, append(g[:len(g):len(g)], t.Args[:i]...))
				}
			case "or":
				for i, y := range t.Args {
					gg := g[:len(g):len(g)]
					for _, z := range t.Args[:i] {
						gg = append(gg, not(z))
					}
					rec(y, gg)
				}
			default:
				for _, y := range t.Args {
					rec(y, g)
				}
			}
		}
		rec(d, nil)
		check := func(name string, pc []*Term, goal *Term) {
			t0 := time.Now()
			// no lemma instances about n itself: only the induction hypotheses given
			curSt = nil
			as := append(append([]*Term{}, pc...), not(goal))
			asciiOn = strings.HasPrefix(n, "j") || strings.HasPrefix(n, "l")
			sv := f.lemma
			f.lemma = nil
			ext := saturate(as, -1)
			f.lemma = sv
			a := solver.Check(script(append(ext, as...)), ms, true)
			r := OblRes{Func: n, Kind: "lemma", Name: name, Backend: a.backend, Secs: time.Since(t0).Seconds(), Result: "unknown"}
			if a.res == Unsat {
				r.Result = "discharged"
			}
			res.Backends[a.backend]++
			res.Obligs = append(res.Obligs, r)
		}
		_ = x
		meas := measures[n]
		for i, o := range occs {
			if meas == nil {
				check(fmt.Sprintf("%s terminates (%d)", n, i), nil, tFalse)
				continue
			}
			pc := append(o.guard[:len(o.guard):len(o.guard)], argFacts(n, a)...)
			for _, in := range occs { // uses inside the arguments: with a smaller measure, so their bounds are known by induction
				if f.lemma == nil || in.t == o.t || !occursIn(in.t, o.t) {
					continue
				}
				ih := []*Term{and(in.guard...), lt(meas(in.t.Args), meas(a))}
				if f.hyp != nil {
					ih = append(ih, f.hyp(in.t.Args))
				}
				pc = append(pc, implies(and(ih...), f.lemma(in.t.Args, in.t)))
			}
			check(fmt.Sprintf("%s terminates (%d)", n, i), pc, and(le(zero, meas(a)), lt(meas(o.t.Args), meas(a))))
		}
		if f.lemma != nil {
			pc := []*Term{h, app("=", SBool, self, d)}
			for _, o := range occs {
				oh := tTrue
				if f.hyp != nil {
					oh = f.hyp(o.t.Args)
				}
				pc = append(pc, implies(and(append(o.guard, oh)...), f.lemma(o.t.Args, o.t)))
			}
			check(n+" bounds", append(pc, argFacts(n, a)...), f.lemma(a, self))
		}
	}
	res.SolverSecs = solver.Time.Seconds()
	return res
}

// argFacts: type invariants of argument terms of the specification functions.
func argFacts(n string, a []*Term) []*Term { return nil }

var measures = map[string]func(a []*Term) *Term{}

func init() {
	end := func(p, e int) func(a []*Term) *Term { return func(a []*Term) *Term { return sub(a[e], a[p]) } }
	for _, n := range []string{"firstIn", "firstOut", "anyIn", "numEnd", "numVal"} {
		measures[n] = end(1, 2)
	}
	for _, n := range []string{"lastIn", "lastOut", "lastB", "lastF", "lineStart", "cntB"} {
		measures[n] = end(1, 2)
	}
	for _, n := range []string{"idxB", "idxF"} {
		measures[n] = func(a []*Term) *Term { return add(sub(sub(a[2], a[1]), a[5]), one) }
	}
	for _, n := range []string{"fwdR", "bwdR"} {
		measures[n] = func(a []*Term) *Term { return a[3] }
	}
	measures["sepsOk"] = func(a []*Term) *Term { return sub(a[2], a[1]) }
	measures["inRanges"] = func(a []*Term) *Term { return sub(a[5], a[4]) }
	for _, n := range []string{"preLen", "sufLen", "seqR", "anyR", "seqErr", "deepErr", "anyM"} {
		measures[n] = func(a []*Term) *Term { return sub(a[3], a[2]) }
	}
	measures["skipR"] = func(a []*Term) *Term { return sub(a[4], a[3]) }
	measures["skipErr"] = measures["skipR"]
	for _, n := range []string{"zomR", "toR", "pastR", "tailR"} {
		measures[n] = func(a []*Term) *Term { return sub(slen(a[1]), a[2]) }
	}
	measures["timesR"] = func(a []*Term) *Term { return a[1] }
	measures["timesErr"] = measures["timesR"]
	measures["segBad"] = func(a []*Term) *Term { return sub(a[4], a[3]) }
	measures["gapCnt"] = func(a []*Term) *Term { return a[3] }
	measures["onceAt"] = func(a []*Term) *Term { return sub(a[3], a[2]) }
	measures["onlyAt"] = func(a []*Term) *Term { return sub(a[3], a[2]) }
	// trees of nodes are finite: the steps from a node to its children are well-founded by assumption
	for n, l := range map[string]int{"nodesEq": 5, "treesOk": 5, "leafsCnt": 5, "leafsNo": 5} {
		i := l + 1
		if n == "nodesEq" {
			i++
		}
		measures[n] = func(a []*Term) *Term { return sub(llen(a[l]), a[i]) }
	}
	measures["rulesOk"] = func(a []*Term) *Term { return sub(a[5], a[4]) }
	measures["keepN"] = func(a []*Term) *Term { return a[2] }
}

func occursIn(a, b *Term) bool {
	found := false
	walk([]*Term{b}, map[*Term]bool{}, func(t *Term) { found = found || t == a })
	return found
}

// expandMacros replaces the macros in t (but not fn itself) by their definitions.
func expandMacros(t *Term, fn string) *Term {
	if recFns[fn].macro {
		return t // its parts are known by their own lemmas
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if len(t.Args) > 0 {
			as := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				as[i] = rec(a)
				ch = ch || as[i] != a
			}
			if f := recFns[t.Op]; f != nil && f.macro {
				r = rec(f.def(as))
			} else if ch {
				r = app(t.Op, t.Sort, as...)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func trustedHere(ct *Contract, vis map[string]bool) bool {
	for _, p := range ct.TrustedFor {
		if vis[p] {
			return true
		}
	}
	return false
}
