package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A loop whose trip count is not concrete is cut at its header: the state is
// havocked at everything the body can write, a set of candidate invariants
// (templates of the contract under verification plus generic ones) is reduced
// to an inductive subset, and the body is then executed once from the havocked
// state under that subset. Every surviving invariant is an obligation again in
// the final run (initiation and preservation), so the inference is not trusted.

const (
	modeDry = iota
	modeFinal
)

type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	mode   int
	back   func(x *Exec, st *State, prev *ssa.BasicBlock)
}

type cell struct {
	name string
	id   string // iterator
	sort string
	typ  types.Type
	get  func(st *State) *Term
}

type cand struct {
	name string
	f    func(st *State) *Term
	user bool
}

type cellWrite struct {
	key string
	ref *Term
}

type writeSet struct {
	cells  map[cellWrite]bool
	keys   map[string]bool // whole key
	keep   map[string]bool // only blocks allocated in the loop
	keep0  map[string]bool // only blocks allocated in the function
	world  bool
	tworld bool
	wild   bool
	allpos bool
	iters  map[string]bool
	ghosts map[string]bool
}

func newWS() *writeSet {
	return &writeSet{cells: map[cellWrite]bool{}, keys: map[string]bool{}, keep: map[string]bool{}, keep0: map[string]bool{}, iters: map[string]bool{}, ghosts: map[string]bool{}}
}

func (w *writeSet) size() int {
	n := len(w.cells) + len(w.keys) + len(w.keep) + len(w.keep0) + len(w.iters) + len(w.ghosts)
	if w.world {
		n++
	}
	if w.tworld {
		n++
	}
	if w.allpos {
		n++
	}
	if w.wild {
		n++
	}
	return n
}

func isWorldKey(key string) bool {
	if key == "tok.LogEntry.idx" {
		return false // rely: the index of an entry in use never changes
	}
	for _, p := range []string{"tok.Basket.", "tok.Segment.", "tok.Log.", "tok.LogEntry.", "tok.IntReader.Value", "tok.UintReader.Value", "tok.BoolReader.Value", "tok.janusEndReader.reader.str"} {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

var worldCtr int

// birth is the allocation state when the world was last forgotten: what its memory holds existed then.
type birth struct {
	tick  int
	alloc *Term
}

var worldBirth = map[int]birth{}

// worldHavoc forgets everything an opaque reader, function or tracker may change besides the scanner position.
func (st *State) worldHavoc() { st.forgetWorld(false) }

// trackerHavoc forgets what a tracker may change: baskets (assumption: trackers do not change readers and logs).
func (st *State) trackerHavoc() { st.forgetWorld(true) }

func isTrackerKey(key string) bool {
	return strings.HasPrefix(key, "tok.Basket.") || strings.HasPrefix(key, "tok.Segment.")
}

func (st *State) forgetWorld(tracker bool) {
	worldCtr++
	if tracker {
		st.tepoch = worldCtr
	} else {
		st.epoch, st.tepoch = worldCtr, worldCtr
	}
	st.havocAlloc()
	worldBirth[worldCtr] = birth{st.tick, st.alloc}
	old := map[string]*Term{}
	for k := range st.mem {
		if isWorldKey(k) && (!tracker || isTrackerKey(k)) {
			old[k] = st.mem[k]
			delete(st.mem, k)
		}
	}
	if st.keepFresh { // what the function under verification made itself is out of reach of the others
		for _, k := range sortedKeys(old) {
			curSt = st
			a := st.arr(k, memSorts[k])
			for _, b := range sortedTerms(st.freshT) {
				a = sto(a, b, sel(old[k], b))
			}
			st.mem[k] = a
		}
	}
	if tracker {
		st.log = append(st.log, write{"tworld", nil, nil})
	} else {
		st.log = append(st.log, write{"world", nil, nil})
	}
}

func sortedTerms(m map[*Term]int) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

func invariantTerm(t *Term, mark int) bool {
	ok := true
	walk([]*Term{t}, map[*Term]bool{}, func(u *Term) {
		if u.Op == "#const" && u.id >= mark {
			ok = false
		}
	})
	return ok
}

func (x *Exec) cut(st *State, b, prev *ssa.BasicBlock, lp map[*ssa.BasicBlock]bool, k cont) {
	x.phis(st, b, prev)
	x.loopsCut++
	t0, q0 := time.Now(), x.s.Queries
	phase := func(n string) {
		if x.debug {
			x.logf("  cut %s %s %.2fs %d queries", b.Parent().Name(), n, time.Since(t0).Seconds(), x.s.Queries-q0)
		}
	}
	fi := len(st.frames) - 1
	mark := termNext
	alim := st.alloc
	ws := newWS()
	pess := false

	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}

	var H *State
	var cells []*cell
	var backs []*State
	var tent []*cand // tentative freshness facts used during the write-set analysis

restart:
	for round := 0; ; round++ {
		if round > 8 {
			unsup("write-set analysis does not stabilise")
		}
		H, cells = x.mkHavoc(st, phis, ws, fi, alim)
		tent = nil
		if !pess {
			for _, c := range cells {
				c := c
				if c.sort == SSl {
					f := func(s *State) *Term {
						v := c.get(s)
						return or(eq(lcap(v), zero), lt(alim, lblk(v)))
					}
					f0 := func(s *State) *Term {
						v := c.get(s)
						return or(eq(lcap(v), zero), lt(cst("A0", SInt), lblk(v)))
					}
					if x.valid(st.pc, f(st), 1000) {
						tent = append(tent, &cand{name: "fresh(" + c.name + ")", f: f})
					} else if x.valid(st.pc, f0(st), 1000) {
						tent = append(tent, &cand{name: "fresh0(" + c.name + ")", f: f0})
					}
				}
			}
		}
		R := H.clone()
		for _, c := range tent {
			R.assume(c.f(R))
		}
		backs = nil
		n0 := ws.size()
		x.runLoop(R, b, lp, modeDry, func(x *Exec, bs *State, pv *ssa.BasicBlock) {
			x.phis(bs, b, pv)
			x.collect(bs, H, ws, mark, alim, len(st.log))
			backs = append(backs, bs)
		}, k)
		if ws.size() == n0 {
			break
		}
	}

	phase("dry")
	cands := append(append([]*cand{}, tent...), x.candidates(st, H, cells)...)
	cands = x.prune(H, cands)
	phase(fmt.Sprint("pruned ", len(cands)))
	ck := cutKey{b, fi, pess, ""}
	if fr := st.fr(); fr.fn != x.rootFn {
		for _, p := range fr.fn.Params {
			if _, ptr := fr.regs[p].(*PtrV); ptr {
				continue
			}
			for _, t := range flatten(fr.regs[p]) {
				ck.args += fmt.Sprintf("%p ", t)
			}
		}
	}
	hit := false
	for _, was := range x.invCache[ck] {
		if x.noCache || !was.covers(cands) {
			continue
		}
		kept := was.kept
		if cs := pick(cands, kept); len(cs) == len(kept) && x.invariantSet(cs, st, H, backs) {
			// the set found on an earlier path through this loop is inductive here as well
			cands, hit = cs, true
			x.cacheHits++
			break
		}
	}
	if !hit {
		all := map[string]bool{}
		for _, c := range cands {
			all[c.name] = true
		}
		// initiation
		cands = x.filter(cands, func(c *cand) ([]*Term, *Term) { return st.pc, c.eval(st) })
		// consecution
		for {
			var as []*Term
			for _, c := range cands {
				as = append(as, c.eval(H))
			}
			n0 := len(cands)
			for _, bs := range backs {
				pc := append(append([]*Term{}, bs.pc...), as...)
				cands = x.filter(cands, func(c *cand) ([]*Term, *Term) { return pc, c.eval(bs) })
			}
			if len(cands) == n0 {
				break
			}
		}
		if x.invCache == nil {
			x.invCache = map[cutKey][]kept{}
		}
		m := map[string]bool{}
		for _, c := range cands {
			m[c.name] = true
		}
		x.invCache[ck] = append(x.invCache[ck], kept{all, m})
	}
	if !pess {
		have := map[*cand]bool{}
		for _, c := range cands {
			have[c] = true
		}
		for _, c := range tent {
			if !have[c] && c.eval(H) != tTrue {
				pess = true
				ws = newWS()
				goto restart
			}
		}
	}
	phase("inferred")
	x.invKept += len(cands)
	if x.debug {
		for _, c := range cands {
			x.logf("  inv %s", c.name)
		}
	}
	var as []*Term
	for _, c := range cands {
		as = append(as, c.eval(H))
	}
	// termination measure
	var measure func(s *State) *Term
	mname := ""
	if x.termOn {
		measure, mname = x.findMeasure(st, H, cells, as, backs)
	}
	// final run; initiation and preservation are obligations
	if x.quiet == 0 {
		var gs []*Term
		for _, c := range cands {
			gs = append(gs, c.eval(st))
		}
		x.oblige(st, "invariant-init", "holds on entry to "+blockName(b), and(gs...))
	}
	F := H.clone()
	for _, a := range as {
		F.assume(a)
	}
	if !x.feasible(F) {
		return
	}
	var m0 *Term
	if measure != nil {
		m0 = measure(F)
	}
	x.runLoop(F, b, lp, modeFinal, func(x *Exec, bs *State, pv *ssa.BasicBlock) {
		if x.quiet > 0 {
			return
		}
		x.phis(bs, b, pv)
		var gs []*Term
		for _, c := range cands {
			gs = append(gs, c.eval(bs))
		}
		x.oblige(bs, "invariant", "preserved at "+blockName(b), and(gs...))
		if x.termOn {
			if measure == nil {
				x.oblige(bs, "termination", "loop at "+blockName(b), tFalse)
			} else {
				x.oblige(bs, "termination", mname, and(le(zero, m0), lt(measure(bs), m0)))
			}
		}
	}, k)
	phase("final")
}

// kept is what was found for a loop on another path: the candidates looked at and those that are invariants.
type kept struct{ all, kept map[string]bool }

func (k kept) covers(cs []*cand) bool {
	for _, c := range cs {
		if !k.all[c.name] {
			return false
		}
	}
	return true
}

type cutKey struct {
	b    *ssa.BasicBlock
	fi   int
	pess bool
	args string // of an inlined function: another call is another loop
}

func pick(cs []*cand, names map[string]bool) []*cand {
	var out []*cand
	for _, c := range cs {
		if names[c.name] {
			out = append(out, c)
		}
	}
	return out
}

// invariantSet: all candidates hold at entry and are preserved together.
func (x *Exec) invariantSet(cs []*cand, st, H *State, backs []*State) bool {
	if len(cs) == 0 {
		return false
	}
	var in, as []*Term
	for _, c := range cs {
		in = append(in, c.eval(st))
		as = append(as, c.eval(H))
	}
	if !x.valid(st.pc, and(in...), 3000) {
		return false
	}
	for _, bs := range backs {
		var gs []*Term
		for _, c := range cs {
			gs = append(gs, c.eval(bs))
		}
		if !x.valid(append(append([]*Term{}, bs.pc...), as...), and(gs...), 4000) {
			return false
		}
	}
	return true
}

// prune drops candidates that say nothing at the loop head, and duplicates.
func (x *Exec) prune(H *State, cs []*cand) []*cand {
	seen := map[*Term]bool{}
	ante := map[*Term]bool{} // antecedents that cannot hold here
	var out []*cand
	for _, c := range cs {
		t := c.eval(H)
		for t.Op == "=>" {
			if d, known := H.decide(t.Args[0]); known && !d {
				t = tTrue
			} else if known {
				t = t.Args[1]
			} else {
				dead, ok := ante[t.Args[0]]
				if !ok {
					dead = x.valid(H.pc, not(t.Args[0]), 500)
					ante[t.Args[0]] = dead
				}
				if dead {
					t = tTrue
				}
				break
			}
		}
		if t == tTrue || t == tFalse || seen[t] || H.pcs[t] {
			continue
		}
		seen[t] = true
		out = append(out, c)
	}
	return out
}

func (c *cand) eval(st *State) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				t = tFalse
				return
			}
			panic(r)
		}
	}()
	return c.f(st)
}

func blockName(b *ssa.BasicBlock) string {
	return fmt.Sprintf("loop of %s (%s)", b.Parent().Name(), b.Comment)
}

func (x *Exec) runLoop(R *State, b *ssa.BasicBlock, lp map[*ssa.BasicBlock]bool, mode int, back func(*Exec, *State, *ssa.BasicBlock), k cont) {
	fr := R.fr()
	fr.ctxs = append(fr.ctxs, &loopCtx{header: b, blocks: lp, mode: mode, back: back})
	if mode != modeFinal {
		x.quiet++
		defer func() { x.quiet-- }()
	}
	x.instrs(R, b, 0, k)
}

func (x *Exec) mkHavoc(st *State, phis []*ssa.Phi, ws *writeSet, fi int, alim *Term) (*State, []*cell) {
	H := st.clone()
	var cells []*cell
	H.havocAlloc()
	fr := H.frames[fi]
	for _, p := range phis {
		p := p
		old := flatten(fr.regs[p])
		var ls []leaf
		if _, isTup := p.Type().(*types.Tuple); isTup {
			unsup("tuple phi")
		}
		if it, ok := fr.regs[p].(*IterV); ok {
			_ = it
			unsup("iterator phi")
		}
		ls = leaves(p.Type())
		var ts []*Term
		for i, l := range ls {
			t := fresh("L_"+p.Comment+l.path, l.sort)
			if l.sort == SFunc && i < len(old) {
				// function values are kept when they cannot change
				same := true
				for _, e := range p.Edges {
					if _, isPhi := e.(*ssa.Phi); isPhi && e != ssa.Value(p) {
						same = false
					}
				}
				_ = same
			}
			ts = append(ts, t)
			if kk := intKind(l.typ); kk != "" {
				H.assume(inRangeT(kk, t))
			}
			i := i
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			cells = append(cells, &cell{name: nm + l.path, sort: l.sort, typ: l.typ, get: func(s *State) *Term {
				return flatten(s.frames[fi].regs[p])[i]
			}})
		}
		fr.regs[p] = rebuildVal(p.Type(), ts)
		for i, l := range ls {
			H.note(ts[i], l.sort)
		}
	}
	if ws.wild {
		H.wildHavoc()
	}
	if ws.world {
		H.worldHavoc()
		delete(H.snap, "call")
		delete(H.snap, "precall")
	} else if ws.tworld {
		H.trackerHavoc()
	}
	if ws.allpos {
		H.havocKeyAs("tok.Scanner.pos", SInt)
	}
	for _, key := range sortedSet(ws.keys) {
		H.havocKey(key)
	}
	for _, key := range sortedSet(ws.keep0) {
		if ws.keys[key] {
			continue
		}
		a := H.arr(key, memSorts[key])
		n := fresh("M_"+key, a.Sort)
		H.mem[key] = app("keepArr", a.Sort, a, cst("A0", SInt), n)
	}
	for _, key := range sortedSet(ws.keep) {
		if ws.keys[key] || ws.keep0[key] {
			continue
		}
		a := H.arr(key, memSorts[key])
		n := fresh("M_"+key, a.Sort)
		H.mem[key] = app("keepArr", a.Sort, a, alim, n)
	}
	var cws []cellWrite
	for c := range ws.cells {
		cws = append(cws, c)
	}
	sort.Slice(cws, func(i, j int) bool {
		if cws[i].key != cws[j].key {
			return cws[i].key < cws[j].key
		}
		return cws[i].ref.id < cws[j].ref.id
	})
	cnt := map[string]int{}
	for _, c := range cws {
		cnt[c.key]++
	}
	for _, c := range cws {
		c := c
		if ws.keys[c.key] || (isWorldKey(c.key) && ws.world) || (isTrackerKey(c.key) && ws.tworld) {
			continue
		}
		srt := memSorts[c.key]
		v := H.havocCell(c.key, srt, c.ref)
		if kk := cellIntKind(c.key); kk != "" {
			H.assume(inRangeT(kk, v))
		}
		H.note(v, srt)
		cells = append(cells, &cell{name: c.key, sort: srt, typ: keyTyp[c.key], get: func(s *State) *Term { return s.loadLeaf(c.key, srt, c.ref) }})
	}
	for _, id := range sortedSet(ws.iters) {
		id := id
		H.iters[id] = fresh("iter", SInt)
		cells = append(cells, &cell{name: "iter", id: id, sort: "iter", get: func(s *State) *Term { return s.iters[id] }})
	}
	for _, g := range sortedSet(ws.ghosts) {
		g := g
		H.ghost[g] = fresh("gh_"+g, H.ghostVal(g).Sort)
		cells = append(cells, &cell{name: "ghost " + g, sort: "ghost", get: func(s *State) *Term { return s.ghostVal(g) }})
	}
	// positions stay within their text (scanner invariant, re-established by every writer)
	return H, cells
}

func sortedSet(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var keyKinds = map[string]string{}

func cellIntKind(key string) string { return keyKinds[key] }

func (x *Exec) collect(bs, H *State, ws *writeSet, mark int, alim *Term, from int) {
	for _, w := range bs.log[from:] {
		switch {
		case w.key == "world":
			ws.world = true
		case w.key == "tworld":
			ws.tworld = true
		case w.key == "allpos":
			ws.allpos = true
		case w.key == "wild":
			ws.wild = true
		case w.blk == nil:
			ws.keys[w.key] = true
		default:
			if ws.keys[w.key] {
				continue
			}
			if invariantTerm(w.blk, mark) && invariantTerm(w.idx, mark) {
				ws.cells[cellWrite{w.key, mkRef(w.blk, w.idx)}] = true
				continue
			}
			switch {
			case x.valid(bs.pc, lt(alim, w.blk), 1000):
				ws.keep[w.key] = true
			case x.valid(bs.pc, lt(cst("A0", SInt), w.blk), 1000):
				ws.keep0[w.key] = true
			default:
				ws.keys[w.key] = true
			}
		}
	}
	for id, v := range bs.iters {
		if h, ok := H.iters[id]; ok && h != v {
			ws.iters[id] = true
		}
	}
	for g, v := range bs.ghost {
		if H.ghostVal(g) != v {
			ws.ghosts[g] = true
		}
	}
}

// filter keeps the candidates whose condition is valid.
func (x *Exec) filter(cs []*cand, q func(c *cand) ([]*Term, *Term)) []*cand {
	if len(cs) == 0 {
		return cs
	}
	var gs []*Term
	var pc []*Term
	for _, c := range cs {
		p, g := q(c)
		pc = p
		gs = append(gs, g)
	}
	if x.valid(pc, and(gs...), 1500) {
		return cs
	}
	keep := make([]bool, len(cs))
	texts := make([]string, len(cs))
	if len(cs) > 3 {
		var as []*Term
		var names []string
		var idx []int
		for i := range cs {
			if gs[i] == tTrue {
				keep[i] = true
				continue
			}
			if gs[i] == tFalse {
				continue
			}
			n := fmt.Sprintf("cand!%d", i)
			as = append(as, app("=", SBool, cst(n, SBool), gs[i]))
			names = append(names, n)
			idx = append(idx, i)
		}
		k, done := x.s.Eliminate(x.queryText(pc, as, x.fuel), names, 3000)
		var out []*cand
		for j, i := range idx {
			keep[i] = k[j]
		}
		for i, c := range cs {
			if keep[i] {
				out = append(out, c)
			}
		}
		if x.debug {
			for i, c := range cs {
				if c.user && !keep[i] {
					x.logf("   elim %s", c.name)
				}
			}
		}
		if done {
			return out
		}
		if len(out) < len(cs) {
			return x.filter(out, q) // continue one by one with what is left
		}
		keep = make([]bool, len(cs))
	}
	for i := range cs {
		if gs[i] == tTrue {
			keep[i] = true
			continue
		}
		if gs[i] == tFalse {
			continue
		}
		texts[i] = x.queryText(pc, []*Term{not(gs[i])}, x.fuel)
	}
	var wg sync.WaitGroup
	for i := range cs {
		if texts[i] == "" {
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ms := 1000
			if cs[i].user {
				ms = 4000
			}
			r := x.s.Check(texts[i], ms, cs[i].user)
			keep[i] = r.res == Unsat
			if x.debug && cs[i].user && !keep[i] {
				x.logf("   drop %s: %s", cs[i].name, r.res)
			}
		}(i)
	}
	wg.Wait()
	var out []*cand
	for i, c := range cs {
		if keep[i] {
			out = append(out, c)
		}
	}
	return out
}

// ------------------------------------------------------------------ candidates

type posExpr struct {
	name string
	f    func(st *State) *Term
}

// candidates builds the candidate invariants for a cut loop.
func (x *Exec) candidates(entry, H *State, cells []*cell) []*cand {
	var out []*cand
	addc := func(name string, f func(st *State) *Term) { out = append(out, &cand{name: name, f: f}) }
	var ints, strs, sls []*cell
	for _, c := range cells {
		switch c.sort {
		case SInt, "iter":
			ints = append(ints, c)
		case SStr:
			strs = append(strs, c)
		case SSl:
			sls = append(sls, c)
		}
	}
	F, p0 := x.rootText()
	// position expressions
	var pos []posExpr
	addp := func(name string, f func(st *State) *Term) { pos = append(pos, posExpr{name, f}) }
	off := func(t *Term) *Term {
		if F == nil {
			return t
		}
		return sub(t, soff(F))
	}
	for _, c := range ints {
		c := c
		addp(c.name, c.get)
		if p0 != nil {
			addp("p0+"+c.name, func(s *State) *Term { return add(p0, c.get(s)) })
			if c.sort != "iter" {
				addp("p0-"+c.name, func(s *State) *Term { return sub(p0, c.get(s)) })
			}
		}
		addp(c.name+"+1", func(s *State) *Term { return add(c.get(s), one) })
		if p0 != nil {
			addp("p0+"+c.name+"+1", func(s *State) *Term { return add(p0, c.get(s), one) })
		}
	}
	if F != nil {
		for _, c := range ints {
			if c.sort != "iter" {
				continue
			}
			c := c
			for _, fr := range H.frames {
				for _, v := range fr.regs {
					if it, ok := v.(*IterV); ok && it.id == c.id && soff(it.str) != soff(F) && off(soff(it.str)) != p0 {
						o := off(soff(it.str))
						addp("start+"+c.name, func(s *State) *Term { return add(o, c.get(s)) })
					}
				}
			}
		}
	}
	for _, c := range strs {
		c := c
		addp("start("+c.name+")", func(s *State) *Term { return off(soff(c.get(s))) })
		addp("end("+c.name+")", func(s *State) *Term { return off(send(c.get(s))) })
		for _, d := range ints {
			d := d
			if strings.HasPrefix(d.name, "tok.") || d.sort == SInt {
				addp("start("+c.name+")+"+d.name, func(s *State) *Term { return add(off(soff(c.get(s))), d.get(s)) })
				addp("end("+c.name+")-"+d.name, func(s *State) *Term { return sub(off(send(c.get(s))), d.get(s)) })
			}
		}
	}
	// generic candidates
	for i, c := range ints {
		c := c
		addc(c.name+">=0", func(s *State) *Term { return le(zero, c.get(s)) })
		addc(c.name+">=-1", func(s *State) *Term { return le(minus1(), c.get(s)) })
		e := c.get(entry)
		addc(c.name+"==entry", func(s *State) *Term { return eq(c.get(s), e) })
		addc(c.name+">=entry", func(s *State) *Term { return le(e, c.get(s)) })
		addc(c.name+"<=entry", func(s *State) *Term { return le(c.get(s), e) })
		for n, bnd := range x.intBounds(entry) {
			bnd := bnd
			addc(c.name+"<="+n, func(s *State) *Term { return le(c.get(s), bnd) })
			addc(c.name+"<"+n, func(s *State) *Term { return lt(c.get(s), bnd) })
			addc(c.name+">="+n, func(s *State) *Term { return le(bnd, c.get(s)) })
		}
		for j, d := range ints {
			if i == j {
				continue
			}
			d := d
			if i < j {
				addc(c.name+"=="+d.name, func(s *State) *Term { return eq(c.get(s), d.get(s)) })
				de := sub(c.get(entry), d.get(entry))
				addc(c.name+"-"+d.name+" const", func(s *State) *Term { return eq(sub(c.get(s), d.get(s)), de) })
				sm := add(c.get(entry), d.get(entry))
				addc(c.name+"+"+d.name+" const", func(s *State) *Term { return eq(add(c.get(s), d.get(s)), sm) })
			}
			addc(c.name+"<="+d.name, func(s *State) *Term { return le(c.get(s), d.get(s)) })
			addc(c.name+"<"+d.name, func(s *State) *Term { return lt(c.get(s), d.get(s)) })
		}
		for _, d := range strs {
			d := d
			addc(c.name+"<=len("+d.name+")", func(s *State) *Term { return le(c.get(s), slen(d.get(s))) })
			sm := add(c.get(entry), slen(d.get(entry)))
			addc(c.name+"+len("+d.name+") const", func(s *State) *Term { return eq(add(c.get(s), slen(d.get(s))), sm) })
		}
		for _, d := range sls {
			d := d
			addc(c.name+"==len("+d.name+")", func(s *State) *Term { return eq(c.get(s), llen(d.get(s))) })
			addc(c.name+"+1==len("+d.name+")", func(s *State) *Term { return eq(add(c.get(s), one), llen(d.get(s))) })
			addc(c.name+"<=len("+d.name+")", func(s *State) *Term { return le(c.get(s), llen(d.get(s))) })
			addc(c.name+"<len("+d.name+")", func(s *State) *Term { return lt(c.get(s), llen(d.get(s))) })
		}
	}
	for _, c := range cells {
		c := c
		e := c.get(entry)
		switch c.sort {
		case SBool:
			addc(c.name, func(s *State) *Term { return c.get(s) })
			addc("!"+c.name, func(s *State) *Term { return not(c.get(s)) })
		case SIface, SRef, SFunc, "ghost":
			addc(c.name+"==entry", func(s *State) *Term { return eq(c.get(s), e) })
			if c.sort == SIface {
				addc(c.name+"==nil", func(s *State) *Term { return eq(c.get(s), nilIface) })
				addc(c.name+"!=nil", func(s *State) *Term { return ne(c.get(s), nilIface) })
			}
		case SStr:
			addc(c.name+" same base", func(s *State) *Term { return eq(sbase(c.get(s)), sbase(e)) })
			addc(c.name+" same start", func(s *State) *Term { return eq(soff(c.get(s)), soff(e)) })
			addc(c.name+" same end", func(s *State) *Term { return eq(send(c.get(s)), send(e)) })
			addc(c.name+" start grows", func(s *State) *Term { return le(soff(e), soff(c.get(s))) })
			addc(c.name+" end shrinks", func(s *State) *Term { return le(send(c.get(s)), send(e)) })
			addc(c.name+" wf", func(s *State) *Term { return le(zero, slen(c.get(s))) })
		case SSl:
			addc(c.name+"==entry", func(s *State) *Term { return eq(c.get(s), e) })
			addc(c.name+" same block", func(s *State) *Term {
				return and(eq(lblk(c.get(s)), lblk(e)), eq(loff(c.get(s)), loff(e)), eq(lcap(c.get(s)), lcap(e)))
			})
			addc(c.name+" wf", func(s *State) *Term {
				v := c.get(s)
				return and(le(zero, llen(v)), le(llen(v), lcap(v)))
			})
			addc(c.name+" non-empty", func(s *State) *Term { return le(one, llen(c.get(s))) })
			addc(c.name+" len>=entry", func(s *State) *Term { return le(llen(e), llen(c.get(s))) })
			addc(c.name+" len<=entry", func(s *State) *Term { return le(llen(c.get(s)), llen(e)) })
			addc(c.name+" block not nil", func(s *State) *Term { return lt(zero, lblk(c.get(s))) })
			a0 := cst("A0", SInt)
			addc(c.name+" new or empty", func(s *State) *Term { return or(eq(lcap(c.get(s)), zero), lt(a0, lblk(c.get(s)))) })
		}
	}
	// different slices do not share their memory
	apart := func(a, b *Term) *Term { return or(eq(lcap(a), zero), eq(lcap(b), zero), ne(lblk(a), lblk(b))) }
	var fixed []*Term
	var made []*cell
	for _, v := range sortedRegs(entry.fr()) {
		if _, isPhi := v.(*ssa.Phi); isPhi {
			continue
		}
		if t, ok := entry.fr().regs[v].(*Term); ok && t.Sort == SSl && t.Op != "ite" {
			fixed = append(fixed, t)
			if mk, ok := v.(*ssa.MakeSlice); ok {
				// filled by index
				made = append(made, &cell{name: "made " + mk.Name(), sort: SSl, typ: mk.Type(), get: func(*State) *Term { return t }})
			}
		}
	}
	for i, c := range sls {
		c := c
		for j, d := range sls {
			d := d
			if i < j {
				addc(c.name+" apart from "+d.name, func(s *State) *Term { return apart(c.get(s), d.get(s)) })
			}
		}
		for j, t := range fixed {
			t := t
			if j < 6 {
				addc(fmt.Sprintf("%s apart from slice %d", c.name, j), func(s *State) *Term { return apart(c.get(s), t) })
			}
		}
	}
	if F != nil && p0 != nil {
		for _, p := range pos {
			p := p
			addc("0<="+p.name+"<=len", func(s *State) *Term { return and(le(zero, p.f(s)), le(p.f(s), slen(F))) })
			addc(p.name+">=p0", func(s *State) *Term { return le(p0, p.f(s)) })
			addc(p.name+"<=p0", func(s *State) *Term { return le(p.f(s), p0) })
		}
	}
	// templates of the contract under verification
	type tmpl struct {
		k   *Contract
		ctx func(*State) *specCtx
	}
	var ts []tmpl
	if x.root != nil {
		ts = append(ts, tmpl{x.root, func(s *State) *specCtx { return x.rootCtx(s, nil) }})
	}
	// and of the inlined function the loop is in
	if fr := entry.fr(); fr.ent != nil {
		k, fn, ent := x.contractOfFn(fr.fn), fr.fn, fr.ent
		var args []Val
		for _, p := range fn.Params {
			args = append(args, fr.regs[p])
		}
		ts = append(ts, tmpl{k, func(s *State) *specCtx { return x.mkCtx(k, fn, args, s, ent, nil) }})
	}
	for _, tm := range ts {
		tm := tm
		for _, cl := range tm.k.Invs {
			if !x.visible(cl.Tags) {
				continue
			}
			cl := cl
			vars := templateVars(cl.E)
			vtyp := map[string]types.Type{}
			var rec func(i int, nm string, bind map[string]func(*State) *Term)
			rec = func(i int, nm string, bind map[string]func(*State) *Term) {
				if i == len(vars) {
					b2 := map[string]func(*State) *Term{}
					for k, v := range bind {
						b2[k] = v
					}
					t2 := map[string]types.Type{}
					for k, v := range vtyp {
						t2[k] = v
					}
					name := "template " + cl.Src + " [" + nm + "]"
					f := func(s *State) *Term {
						c := tm.ctx(s)
						c.vars = map[string]*Term{}
						c.varT = t2
						for k, v := range b2 {
							c.vars[k] = v(s)
						}
						c.ent = tm.ctx(entry)
						c.ent.vars = map[string]*Term{}
						c.ent.varT = t2
						for k, v := range b2 {
							c.ent.vars[k] = v(entry)
						}
						return c.t(cl.E)
					}
					if evaluates(f, entry) {
						out = append(out, &cand{name: name, user: true, f: f})
					}
					return
				}
				v := vars[i]
				switch {
				case strings.HasPrefix(v, "V_p"):
					for _, p := range pos {
						bind[v] = p.f
						rec(i+1, nm+" "+p.name, bind)
					}
				case strings.HasPrefix(v, "V_i"):
					for _, c := range ints {
						bind[v] = c.get
						rec(i+1, nm+" "+c.name, bind)
						c := c
						bind[v] = func(s *State) *Term { return add(c.get(s), one) }
						rec(i+1, nm+" "+c.name+"+1", bind)
					}
				case strings.HasPrefix(v, "V_v"):
					for _, c := range ints {
						if c.sort == "iter" {
							continue
						}
						bind[v] = c.get
						rec(i+1, nm+" "+c.name, bind)
					}
				case strings.HasPrefix(v, "V_t"):
					for _, c := range strs {
						bind[v] = c.get
						rec(i+1, nm+" "+c.name, bind)
					}
				case strings.HasPrefix(v, "V_l"):
					for _, c := range append(sls[:len(sls):len(sls)], made...) {
						if c.typ == nil {
							continue
						}
						bind[v] = c.get
						vtyp[v] = c.typ
						rec(i+1, nm+" "+c.name, bind)
					}
				case strings.HasPrefix(v, "V_b"):
					for _, c := range cells {
						if c.sort == SBool {
							bind[v] = c.get
							rec(i+1, nm+" "+c.name, bind)
						}
					}
				case strings.HasPrefix(v, "V_q"):
					// pointers of the function the loop is in
					for _, rv := range sortedRegs(entry.fr()) {
						if p, ok := entry.fr().regs[rv].(*PtrV); ok {
							p := p
							bind[v] = func(*State) *Term { return p.ref }
							rec(i+1, nm+" "+rv.Name(), bind)
						}
					}
				case strings.HasPrefix(v, "V_e"):
					for _, c := range cells {
						if c.sort == SIface {
							bind[v] = c.get
							rec(i+1, nm+" "+c.name, bind)
						}
					}
				}
				delete(bind, v)
			}
			rec(0, "", map[string]func(*State) *Term{})
		}
	}
	return out
}

// evaluates: the template makes sense for these variables (a slice of another element type does not).
func evaluates(f func(*State) *Term, st *State) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); !is {
				panic(r)
			}
			ok = false
		}
	}()
	f(st.clone())
	return true
}

func templateVars(e ast.Expr) []string {
	set := map[string]bool{}
	ast.Inspect(e, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && strings.HasPrefix(id.Name, "V_") {
			set[id.Name] = true
		}
		return true
	})
	return sortedSet(set)
}

// rootText: text and entry position of the scanner of the function under verification.
func (x *Exec) rootText() (*Term, *Term) {
	if x.root == nil || x.rootFn == nil {
		return nil, nil
	}
	for _, a := range x.rootArgs {
		if p, ok := a.(*PtrV); ok && qual(p.elem) == "tok.Scanner" {
			F := x.entry.load(&PtrV{tStr, p.key + ".full", p.ref}).(*Term)
			q := x.entry.load(&PtrV{tInt, p.key + ".pos", p.ref}).(*Term)
			return F, q
		}
		if t, ok := a.(*Term); ok && t.Sort == SStr && x.root.TextParam {
			return t, zero
		}
	}
	return nil, nil
}

func sortedRegs(fr *frame) []ssa.Value {
	var vs []ssa.Value
	for v := range fr.regs {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	return vs
}

// intBounds: loop-invariant upper bounds worth comparing counters with.
func (x *Exec) intBounds(entry *State) map[string]*Term {
	out := map[string]*Term{}
	seen := map[*Term]bool{}
	put := func(n string, t *Term) {
		if !seen[t] {
			seen[t] = true
			out[n] = t
		}
	}
	F, p0 := x.rootText()
	if F != nil {
		put("len(F)", slen(F))
		if p0 != nil {
			put("len(F)-p0", sub(slen(F), p0))
			put("p0", p0)
		}
	}
	fr := entry.fr()
	for _, v := range sortedRegs(fr) {
		if _, isPhi := v.(*ssa.Phi); isPhi {
			continue
		}
		if t, ok := fr.regs[v].(*Term); ok {
			switch t.Sort {
			case SStr:
				put("len("+v.Name()+")", slen(t))
			case SSl:
				put("len("+v.Name()+")", llen(t))
			case SInt:
				put(v.Name(), t)
			}
		}
	}
	for i, a := range x.rootArgs {
		if t, ok := a.(*Term); ok && t.Sort == SInt {
			put(fmt.Sprintf("arg%d", i), t)
		}
	}
	// counts and lengths kept in the receiver or an argument
	for _, pr := range fr.fn.Params {
		fields := func(get func(path string, t types.Type, srt string) *Term, ty types.Type) {
			for _, l := range leaves(ty) {
				switch l.sort {
				case SInt:
					put(pr.Name()+l.path, get(l.path, l.typ, l.sort))
				case SSl:
					put("len("+pr.Name()+l.path+")", llen(get(l.path, l.typ, l.sort)))
				case SStr:
					put("len("+pr.Name()+l.path+")", slen(get(l.path, l.typ, l.sort)))
				}
			}
		}
		switch v := fr.regs[pr].(type) {
		case *PtrV:
			if _, ok := under(v.elem).(*types.Struct); ok && qual(v.elem) != "tok.Scanner" && !isBuilderT(v.elem) {
				fields(func(path string, t types.Type, srt string) *Term { return entry.loadLeaf(v.key+path, srt, v.ref) }, v.elem)
			}
		case *StructV:
			ts, ls := flatten(v), leaves(pr.Type())
			if len(ts) == len(ls) {
				i := -1
				fields(func(path string, t types.Type, srt string) *Term {
					for j, l := range ls {
						if l.path == path {
							i = j
						}
					}
					return ts[i]
				}, pr.Type())
			}
		}
	}
	if len(out) > 14 {
		n := 0
		for _, k := range sortedKeys(out) {
			n++
			if n > 14 {
				delete(out, k)
			}
		}
	}
	return out
}

// ------------------------------------------------------------------ termination

func (x *Exec) findMeasure(st, H *State, cells []*cell, as []*Term, backs []*State) (func(*State) *Term, string) {
	type ms struct {
		name string
		f    func(*State) *Term
	}
	var list []ms
	F, _ := x.rootText()
	for _, c := range cells {
		c := c
		switch c.sort {
		case SInt, "iter":
			if F != nil {
				list = append(list, ms{"len(text)-" + c.name, func(s *State) *Term { return sub(slen(F), c.get(s)) }})
			}
			for n, b := range x.intBounds(st) {
				b := b
				list = append(list, ms{n + "-" + c.name, func(s *State) *Term { return sub(b, c.get(s)) }})
			}
			for id := range H.iters {
				_ = id
			}
			list = append(list, ms{c.name, c.get})
			// strings iterated over
			for _, fr := range H.frames {
				for _, v := range fr.regs {
					if it, ok := v.(*IterV); ok && c.sort == "iter" {
						it := it
						list = append(list, ms{"len(iterated)-" + c.name, func(s *State) *Term { return sub(slen(it.str), c.get(s)) }})
					}
				}
			}
		case SStr:
			list = append(list, ms{"len(" + c.name + ")", func(s *State) *Term { return slen(c.get(s)) }})
			for _, d := range cells {
				d := d
				if d.sort == SInt {
					list = append(list, ms{"len(" + c.name + ")-" + d.name, func(s *State) *Term { return sub(slen(c.get(s)), d.get(s)) }})
				}
			}
		case SSl:
			list = append(list, ms{"len(" + c.name + ")", func(s *State) *Term { return llen(c.get(s)) }})
		}
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].name < list[j].name })
	// last round with a flag that is true at most once more
	if F != nil {
		for _, c := range cells {
			for _, b := range cells {
				c, b := c, b
				if c.sort == SInt && strings.HasSuffix(c.name, "pos") && b.sort == SBool {
					for _, pol := range []bool{true, false} {
						pol := pol
						list = append(list, ms{"len(text)-" + c.name + " and " + b.name, func(s *State) *Term {
							f := b.get(s)
							if !pol {
								f = not(f)
							}
							return add(mul(inum(2), sub(slen(F), c.get(s))), ite(f, one, zero))
						}})
					}
				}
			}
		}
	}
	limit := time.Now().Add(12 * time.Second)
	for _, m := range list {
		if time.Now().After(limit) {
			break
		}
		ok := true
		for _, bs := range backs {
			pc := append(append([]*Term{}, bs.pc...), as...)
			a := m.f(H)
			if !x.valid(pc, and(le(zero, a), lt(m.f(bs), a)), 800) {
				ok = false
				break
			}
		}
		if ok {
			return m.f, "measure " + m.name
		}
	}
	return nil, ""
}
