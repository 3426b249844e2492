package main

import (
	"fmt"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Joining of paths: where a reader is read inside of another one, what matters afterwards is whether it
// succeeded, where the scanner is and what the reader remembers. The paths through the inner reader with the
// same outcome go on as one state: the disjunction of their conditions, with new constants for the memory in
// which they differ.

type outcome struct {
	st  *State
	res []Val
}

func (x *Exec) joins(fn *ssa.Function, args []Val) bool {
	return x.vis["C27"] && fn.Name() == "Read" && len(args) == 2 && fn.Signature.Recv() != nil && x.isReaderT(fn.Signature.Recv().Type())
}

func (x *Exec) joined(st *State, r *Term, run func(st *State, k cont), k cont) {
	base := st.clone()
	x.inner++
	before := x.inner
	var ok, bad, rest []outcome
	run(st, func(s *State, res []Val) {
		o := outcome{s, res}
		e, is := res[0].(*Term)
		if !is {
			rest = append(rest, o)
			return
		}
		curSt = s
		c := eq(e, nilIface)
		if v, known := s.decide(c); known {
			c = tFalse
			if v {
				c = tTrue
			}
		}
		switch c {
		case tTrue:
			o.res = []Val{nilIface}
			ok = append(ok, o)
		case tFalse:
			bad = append(bad, o)
		default:
			rest = append(rest, o)
		}
	})
	if x.debug {
		x.logf("join %d ok %d bad %d rest", len(ok), len(bad), len(rest))
	}
	var sum *Term
	if len(rest) == 0 && r != nil && x.inner > before { // it has readers inside

		sum = x.summary(base, r, ok, bad)
	}
	for i, g := range [][]outcome{ok, bad} {
		if len(g) > 1 || len(g) == 1 && sum != nil {
			var fact func(s *State) *Term
			if sum != nil {
				fact = x.summaryFact(base, sum, i == 0)
			}
			if j := x.join(base, g, fact); j != nil {
				k(j.st, j.res)
				continue
			}
		}
		rest = append(rest, g...)
	}
	for _, o := range rest {
		k(o.st, o.res)
	}
}

type loc struct {
	key      string
	blk, idx *Term
}

// summary: one of the functions the contract names (clauses reads) that says what the outcomes are.
func (x *Exec) summary(base *State, r *Term, ok, bad []outcome) *Term {
	if x.root == nil {
		return nil
	}
	if len(ok)+len(bad) < 2 {
		return nil
	}
	known := x.readsAs[r]
	if n := x.readsNo[r]; known == nil && (n > 2 || n > 0 && len(ok)+len(bad) < 3) {
		return nil
	}
	type query struct {
		text string
		ok   bool
	}
	type cand struct {
		cl *Clause
		f  *Term
		qs []*query
	}
	var cs []*cand
	var wg sync.WaitGroup
	for _, cl := range x.root.Reads {
		if !x.visible(cl.Tags) || known != nil && cl != known {
			continue
		}
		curSt = base
		c := &cand{cl: cl, f: x.rootCtx(base, nil).t(cl.E)}
		for i, g := range [][]outcome{bad, ok} {
			fact := x.summaryFact(base, c.f, i == 1)
			for _, o := range g {
				if goal := fact(o.st); goal != tTrue {
					q := &query{text: x.queryText(o.st.pc, []*Term{not(goal)}, x.fuel)}
					c.qs = append(c.qs, q)
					wg.Add(1)
					go func() {
						defer wg.Done()
						q.ok = x.s.Check(q.text, 2000, false).res == Unsat
					}()
				}
			}
		}
		cs = append(cs, c)
	}
	wg.Wait()
	for _, c := range cs {
		fits := true
		for _, q := range c.qs {
			fits = fits && q.ok
		}
		if fits {
			x.logf("  reads %s", c.cl.Src)
			x.readsAs[r] = c.cl
			return c.f
		}
	}
	x.readsNo[r]++
	return nil
}

var sPosE, _ = parseExpr("s.pos")

func (x *Exec) summaryFact(base *State, f *Term, ok bool) func(s *State) *Term {
	curSt = base
	at := x.rootCtx(base, nil).t(sPosE)
	return func(s *State) *Term {
		curSt = s
		p := x.rootCtx(s, nil).t(sPosE)
		if ok {
			return and(eq(p, f), le(zero, f))
		}
		return and(eq(p, at), lt(f, zero))
	}
}

func (x *Exec) join(base *State, os []outcome, fact func(s *State) *Term) *outcome {
	n := base.clone()
	var conds [][]*Term
	for _, o := range os {
		if len(o.st.frames) != len(base.frames) {
			return nil
		}
		conds = append(conds, append([]*Term{}, o.st.pc[len(base.pc):]...))
		if o.st.tick > n.tick {
			n.tick = o.st.tick
		}
	}
	world, tworld, wild := false, false, false
	for _, o := range os {
		world = world || o.st.epoch != base.epoch
		wild = wild || o.st.wepoch != base.wepoch
		tworld = tworld || o.st.tepoch != base.tepoch
	}
	if world {
		return nil
	}
	if wild {
		n.wildHavoc()
	}
	if tworld {
		n.trackerHavoc()
	} else {
		n.havocAlloc()
	}
	for i, o := range os {
		conds[i] = append(conds[i], le(o.st.alloc, n.alloc))
	}
	cells := 0 // which are written
	keys := map[string]*Term{}
	for _, o := range os {
		for k, v := range o.st.mem {
			keys[k] = v
		}
	}
	for _, k := range sortedKeys(keys) {
		if tworld && isTrackerKey(k) || wild && wildKey(k) {
			continue
		}
		srt := memSorts[k]
		b := base.arr(k, srt)
		same := true
		for _, o := range os {
			same = same && o.st.arr(k, srt) == b
		}
		if same {
			n.mem[k] = b
			continue
		}
		seen := map[string]bool{}
		var locs []loc
		keep := false
		for _, o := range os {
			ls, f, ok := x.writesTo(base, o.st, b, o.st.arr(k, srt))
			if !ok {
				if x.debug {
					x.logf("  no join: %s %s", k, trunc(o.st.mem[k].String(), 300))
				}
				return nil
			}
			keep = keep || f
			for _, l := range ls {
				id := fmt.Sprint(l.blk.id, " ", l.idx.id)
				if !seen[id] {
					seen[id] = true
					locs = append(locs, l)
				}
			}
		}
		a := b
		if keep {
			a = app("keepArr", b.Sort, b, base.alloc, fresh("J_"+k, b.Sort))
			fb := fresh("J_blk", SInt)
			n.assume(lt(base.alloc, fb))
			n.log = append(n.log, write{k, fb, zero})
		}
		n.mem[k] = a
		cells += len(locs)
		for _, l := range locs {
			ref := mkRef(l.blk, l.idx)
			v := fresh("J_"+k, srt)
			n.storeLeaf(k, srt, ref, v)
			for i, o := range os {
				curSt = o.st
				conds[i] = append(conds[i], eq(v, sel(sel(o.st.arr(k, srt), l.blk), l.idx)))
			}
			n.note(v, srt)
			if kk := cellIntKind(k); kk != "" {
				n.assume(inRangeT(kk, v))
			}
		}
	}
	ghosts := map[string]*Term{}
	for _, o := range os {
		for g, v := range o.st.ghost {
			ghosts[g] = v
		}
	}
	for _, g := range sortedKeys(ghosts) {
		b := base.ghostVal(g)
		same := true
		for _, o := range os {
			same = same && o.st.ghostVal(g) == b
		}
		if same {
			continue
		}
		v := fresh("J_gh", b.Sort)
		n.ghost[g] = v
		for i, o := range os {
			conds[i] = append(conds[i], app("=", SBool, v, o.st.ghostVal(g)))
		}
	}
	res := os[0].res
	if res[0] != Val(nilIface) {
		e := fresh("J_err", SIface)
		n.assume(ne(e, nilIface))
		res = []Val{e}
		// which error it is does not matter
	}
	// conditions common to all
	in := map[*Term]int{}
	for _, c := range conds {
		for _, t := range set(c) {
			in[t]++
		}
	}
	var ds []*Term
	for i, c := range conds {
		var d []*Term
		for _, t := range c {
			if in[t] < len(conds) {
				d = append(d, t)
			} else if i == 0 {
				n.assume(t)
			}
		}
		ds = append(ds, and(d...))
	}
	if fact != nil {
		n.assume(fact(n))
	}
	if fact == nil || cells > 1 {
		n.assume(or(ds...))
	}
	return &outcome{n, res}
}

func set(ts []*Term) []*Term {
	m := map[*Term]bool{}
	var out []*Term
	for _, t := range ts {
		if !m[t] {
			m[t] = true
			out = append(out, t)
		}
	}
	return out
}

// writesTo: cells such that v and b are the same everywhere else, besides blocks that are new since base (then
// fresh is true).
func (x *Exec) writesTo(base, st *State, b, v *Term) (ls []loc, fresh, ok bool) {
	// what b is built on
	at := map[*Term][]loc{b: nil}
	var bl []loc
	for t := b; t.Op == "store"; t = t.Args[0] {
		l, ok := cellsOf(base, t)
		if !ok {
			break
		}
		bl = append(bl, l...)
		at[t.Args[0]] = bl[:len(bl):len(bl)]
	}
	for {
		if l, ok := at[v]; ok {
			return append(ls, l...), fresh, true
		}
		switch v.Op {
		case "store":
			if x.newSince(base, st, v.Args[1]) {
				fresh = true
			} else {
				l, ok := cellsOf(st, v)
				if !ok {
					return nil, false, false
				}
				ls = append(ls, l...)
			}
			v = v.Args[0]
		case "keepArr":
			if !follows(st.pc, base.alloc, v.Args[1]) && !x.valid(st.pc, le(base.alloc, v.Args[1]), 500) {
				return nil, false, false
			}
			fresh = true
			v = v.Args[0]
		default:
			return nil, false, false
		}
	}
}

// follows: a <= b by a chain of facts of pc.
func follows(pc []*Term, a, b *Term) bool {
	for i := len(pc) - 1; ; i-- {
		if d := sub(b, a); d.isInt() && d.Int.Sign() >= 0 {
			return true
		}
		for ; i >= 0; i-- {
			if f := pc[i]; f.Op == "<=" {
				if d := sub(b, f.Args[1]); d.isInt() && d.Int.Sign() >= 0 {
					b = f.Args[0]
					break
				}
			}
		}
		if i < 0 {
			return false
		}
	}
}

// cellsOf: the cells that the outermost store of t writes.
func cellsOf(st *State, t *Term) (ls []loc, ok bool) {
	sv := curSt
	curSt = st
	defer func() { curSt = sv }()
	rest, blk, row := t.Args[0], t.Args[1], t.Args[2]
	old := sel(rest, blk)
	for row != old {
		if row.Op != "store" {
			return nil, false
		}
		ls = append(ls, loc{"", blk, row.Args[1]})
		row = row.Args[0]
	}
	return ls, true
}

func (x *Exec) newSince(base, st *State, blk *Term) bool {
	if _, is := base.freshT[blk]; is {
		return false
	}
	if t, is := st.freshT[blk]; is && t > base.tick {
		return true
	}
	if d := sub(blk, base.alloc); d.isInt() {
		return d.Int.Sign() > 0
	}
	return false
}
