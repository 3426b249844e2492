package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Sorting through the library. The contract assumed of sort.Stable, sort.SliceStable and
// slices.SortStableFunc: if Len is the length of the slice, Less(i,j) is a strict weak order of the elements
// at i and j, and Swap exchanges them and nothing else, then after the call the slice is its own stable
// permutation in that order. What is proved about the code: Len, Less and Swap are that, for every i and j
// and whatever the order of the elements at that moment, with Less the order the contract names.

func (x *Exec) sortTarget(st *State) (*Term, types.Type) {
	if x.root == nil || x.root.Sorts == "" {
		unsup("sorting outside of a sorting function")
	}
	c := x.rootCtx(x.entry, nil)
	v := c.env[x.root.Sorts]
	return v.V.(*Term), under(v.T).(*types.Slice).Elem()
}

func (x *Exec) forgetElems(st *State, v *Term, et types.Type) {
	for _, l := range leaves(et) {
		key := cellKey(et) + l.path
		curSt = st
		a := st.arr(key, l.sort)
		st.mem[key] = sto(a, lblk(v), fresh("sorted_"+key, sArr(l.sort)))
		st.log = append(st.log, write{key, lblk(v), nil})
	}
}

// othersKept: nothing that existed changed, except the elements of v if allowed.
func (x *Exec) othersKept(before, after *State, v *Term, et types.Type, what string, allow bool) {
	elem := map[string]bool{}
	for _, l := range leaves(et) {
		elem[cellKey(et)+l.path] = true
	}
	blk := fresh("sort_blk", SInt)
	for _, k := range sortedKeys(after.mem) {
		a, b := after.mem[k], before.mem[k]
		if b == nil {
			b = before.arr(k, memSorts[k])
		}
		if a == b || a.Sort != b.Sort {
			continue
		}
		h := []*Term{le(zero, blk), le(blk, before.alloc)}
		if allow && elem[k] {
			h = append(h, ne(blk, lblk(v)))
		}
		curSt = nil
		x.exitOblige(after, "sort", what+" changes nothing else ("+k+")", implies(and(h...), eq(sel(a, blk), sel(b, blk))))
	}
}

func (x *Exec) sortCall(st *State, stable bool, length func(*State, cont), less func(*State, *Term, *Term, cont), swap func(*State, *Term, *Term, cont), k cont) {
	v, et := x.sortTarget(st)
	x.used["sort: given Len, Less and Swap as proved, the library sorts the slice; Stable keeps the order of equal elements"] = true
	pair := func(s *State) (*Term, *Term, []*Term, []*Term) {
		x.forgetElems(s, v, et)
		i, j := fresh("sort_i", SInt), fresh("sort_j", SInt)
		for _, t := range []*Term{i, j} {
			s.assume(le(zero, t))
			s.assume(lt(t, llen(v)))
		}
		a := s.load(&PtrV{et, cellKey(et), mkRef(lblk(v), add(loff(v), i))})
		b := s.load(&PtrV{et, cellKey(et), mkRef(lblk(v), add(loff(v), j))})
		x.extraEnv = map[string]TV{"a": {a, et}, "b": {b, et}}
		c := x.rootCtx(s, nil)
		for _, h := range x.root.SortHyp {
			s.assume(c.t(h.E))
		}
		return i, j, flatten(a), flatten(b)
	}
	depth := len(st.frames)
	if length != nil {
		q := st.clone()
		p := q.clone()
		length(q, func(s *State, rv []Val) {
			x.exitOblige(s, "sort", "Len is the number of segments", eq(rv[0].(*Term), llen(v)))
			x.othersKept(p, s, v, et, "Len", false)
		})
	}
	{
		q := st.clone()
		i, j, _, _ := pair(q)
		p := q.clone()
		less(q, i, j, func(s *State, rv []Val) {
			c := x.rootCtx(p, nil)
			want := c.t(x.root.SortLess.E)
			got := rv[0].(*Term)
			x.exitOblige(s, "sort", "the order is: "+x.root.SortLess.Src, and(implies(got, want), implies(want, got)))
			x.othersKept(p, s, v, et, "Less", false)
		})
	}
	if swap != nil {
		q := st.clone()
		i, j, a, b := pair(q)
		m := fresh("sort_m", SInt)
		p := q.clone()
		swap(q, i, j, func(s *State, rv []Val) {
			var g []*Term
			for n, l := range leaves(et) {
				key := cellKey(et) + l.path
				at := func(s *State, i *Term) *Term {
					curSt = s
					return sel(sel(s.arr(key, l.sort), lblk(v)), add(loff(v), i))
				}
				g = append(g, eq(at(s, i), b[n]), eq(at(s, j), a[n]), or(eq(m, i), eq(m, j), eq(at(s, m), at(p, m))))
			}
			x.exitOblige(s, "sort", "Swap exchanges the two elements", and(g...))
			x.othersKept(p, s, v, et, "Swap", true)
		})
	}
	x.extraEnv = nil
	if len(st.frames) != depth {
		unsup("sort frames")
	}
	x.forgetElems(st, v, et)
	st.ghost["sorted"] = boolInt(stable)
	st.snap["sorted"] = st.clone()
	k(st, nil)
}

func boolInt(b bool) *Term {
	if b {
		return one
	}
	return zero
}

// sortExit: a sorting function returns with the slice as the stable sort left it.
func (x *Exec) sortExit(st *State) {
	if x.root.Sorts == "" {
		return
	}
	v, et := x.sortTarget(st)
	ref := x.entry
	g, ok := st.ghost["sorted"]
	if ok {
		ref = st.snap["sorted"]
		x.exitOblige(st, "sort", "a stable sort of the library is used", eq(g, one))
	} else {
		for _, w := range st.log {
			for _, l := range leaves(et) {
				if w.key == cellKey(et)+l.path && (w.blk == nil || w.blk == lblk(v)) {
					unsup("sorting without the library")
				}
			}
		}
		x.exitOblige(st, "sort", "left unsorted only if there is nothing to sort", le(llen(v), one))
	}
	for _, l := range leaves(et) {
		key := cellKey(et) + l.path
		curSt = st
		now := sel(st.arr(key, l.sort), lblk(v))
		curSt = ref
		then := sel(ref.arr(key, l.sort), lblk(v))
		m := cst("any_sortm", SInt)
		curSt = st
		x.exitOblige(st, "sort", "the sorted slice is not changed afterwards ("+key+")",
			implies(and(le(zero, m), lt(m, llen(v))), eq(sel(now, add(loff(v), m)), sel(then, add(loff(v), m)))))
	}
}

// permuted: where the contract says nothing about an order, sorting only permutes the elements of the slice.
func (x *Exec) permuted(st *State, v Val, t types.Type, k cont) bool {
	if !x.vis["C18"] || x.root.Sorts != "" || t == nil {
		return false
	}
	sl, ok := v.(*Term)
	if !ok || sl.Sort != SSl {
		return false
	}
	x.used["sort: the library only permutes the elements of the slice"] = true
	et := under(t).(*types.Slice).Elem()
	before := st.clone()
	x.forgetElems(st, sl, et)
	for _, l := range leaves(et) {
		key := cellKey(et) + l.path
		curSt = st
		at := add(loff(sl), zero)
		st.assume(implies(le(llen(sl), one), app("=", SBool, sel(sel(st.arr(key, l.sort), lblk(sl)), at), sel(sel(before.arr(key, l.sort), lblk(sl)), at))))
	}
	k(st, nil)
	return true
}

// sortLib adds the sorting functions to the library contracts.
func sortLib() {
	iface := func(stable bool) libFn {
		return func(x *Exec, st *State, a []Val, k cont) {
			d := a[0].(*Term)
			if !isBox(d.Op) {
				unsup("sort of an unknown value")
			}
			t := boxType[d.Op]
			if x.permuted(st, unbox(d, t), t, k) {
				return
			}
			m := func(n string) *ssa.Function {
				fn := x.p.prog.LookupMethod(t, nil, n)
				if fn == nil {
					unsup("method %s of %s", n, t)
				}
				return fn
			}
			fl, fc, fs := m("Len"), m("Less"), m("Swap")
			x.sortCall(st, stable,
				func(s *State, k cont) { x.callFn(s, fl, []Val{unbox(d, t)}, nil, k) },
				func(s *State, i, j *Term, k cont) { x.callFn(s, fc, []Val{unbox(d, t), i, j}, nil, k) },
				func(s *State, i, j *Term, k cont) { x.callFn(s, fs, []Val{unbox(d, t), i, j}, nil, k) }, k)
		}
	}
	libFns["sort.Stable"] = iface(true)
	libFns["sort.Sort"] = iface(false)
	intBool := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "i", types.Typ[types.Int]), types.NewVar(0, nil, "j", types.Typ[types.Int])),
		types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Bool])), false)
	slice := func(stable bool) libFn {
		return func(x *Exec, st *State, a []Val, k cont) {
			d := a[0].(*Term)
			f := a[1].(*Term)
			if !isBox(d.Op) {
				unsup("sort of an unknown value")
			}
			if x.permuted(st, unbox(d, boxType[d.Op]), boxType[d.Op], k) {
				return
			}
			v, _ := x.sortTarget(st)
			sl, ok := unbox(d, boxType[d.Op]).(*Term)
			if !ok || sl.Sort != SSl {
				unsup("sort of a value that is not a slice")
			}
			x.sortCall(st, stable,
				func(s *State, k cont) {
					x.exitOblige(s, "sort", "the slice itself is sorted", and(eq(lblk(sl), lblk(v)), eq(loff(sl), loff(v))))
					k(s, []Val{llen(sl)})
				},
				func(s *State, i, j *Term, k cont) { x.callFun(s, f, intBool, []Val{i, j}, k) }, nil, k)
		}
	}
	libFns["sort.SliceStable"] = slice(true)
	libFns["sort.Slice"] = slice(false)
	cmp := func(stable bool) libFn {
		return func(x *Exec, st *State, a []Val, k cont) {
			sl, f := a[0].(*Term), a[1].(*Term)
			if x.permuted(st, sl, nil, k) {
				return
			}
			v, et := x.sortTarget(st)
			sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "a", et), types.NewVar(0, nil, "b", et)),
				types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.Int])), false)
			x.sortCall(st, stable,
				func(s *State, k cont) {
					x.exitOblige(s, "sort", "the slice itself is sorted", and(eq(lblk(sl), lblk(v)), eq(loff(sl), loff(v))))
					k(s, []Val{llen(sl)})
				},
				func(s *State, i, j *Term, k cont) {
					p, q := x.extraEnv["a"].V, x.extraEnv["b"].V
					x.callFun(s, f, sig, []Val{p, q}, func(s *State, rv []Val) { k(s, []Val{lt(rv[0].(*Term), zero)}) })
				}, nil, k)
		}
	}
	libFns["slices.SortStableFunc"] = cmp(true)
	libFns["slices.SortFunc"] = cmp(false)
}
