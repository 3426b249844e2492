package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Oblig is one verification condition: pc implies goal.
type Oblig struct {
	Func   string
	Name   string
	Kind   string
	pc     []*Term
	goal   *Term
	Res    Result
	Engine string
	Dur    time.Duration
	Model  string
	hints  string
}

type Exec struct {
	p          *Program
	s          *Solver
	cs         *Contracts
	vis        map[string]bool // visible tags
	root       *Contract       // contract being verified
	rootFn     *ssa.Function
	rootArgs   []Val
	entry      *State
	quiet      int
	obligs     []*Oblig
	uid        int
	paths      int
	exits      int
	steps      int
	depth      int
	loopsCut   int
	invKept    int
	termOn     bool
	invCache   map[cutKey][]kept
	noCache    bool
	cacheHits  int
	readsAs    map[*Term]*Clause // what the inner readers read
	inner      int               // readers followed
	readsNo    map[*Term]int     // how often nothing fit
	deadline   time.Time
	notes      map[string]bool
	inlined    map[string]bool
	used       map[string]bool
	callees    map[string]bool
	noLoopCut  bool
	fuel       int
	qms        int
	rets       []retInfo
	retNames   []string
	debug      bool
	extraEnv   map[string]TV // further names of the contract under verification
	noContract map[string]bool
}

type retInfo struct {
	st  *State
	res []Val
}

func (x *Exec) note(f string, a ...interface{}) { x.notes[fmt.Sprintf(f, a...)] = true }

// ------------------------------------------------------------------ solver access

func (x *Exec) queryText(pc []*Term, goals []*Term, fuel int) string {
	curSt = nil
	as := append(append(append([]*Term{}, pc...), x.generalise(pc, goals)...), goals...)
	ext := saturate(as, fuel)
	return script(append(append([]*Term{}, ext...), as...))
}

// generalise: for the arbitrary constants the contract declares "forall", a fact of the path condition holds
// for every value of the constant (no program state depends on it), so it is also used for the indices at
// which the query looks at an element of the same sort.
func (x *Exec) generalise(pc, goals []*Term) []*Term {
	if x.root == nil || len(x.root.ForAll) == 0 {
		return nil
	}
	all := append(append([]*Term{}, pc...), goals...)
	var out []*Term
	for _, n := range x.root.ForAll {
		j := cst("any_"+n, SInt)
		has := map[*Term]bool{}
		var hasJ func(t *Term) bool
		memo := map[*Term]int{}
		hasJ = func(t *Term) bool {
			if t == j {
				return true
			}
			if m := memo[t]; m != 0 {
				return m == 1
			}
			memo[t] = 2
			for _, a := range t.Args {
				if hasJ(a) {
					memo[t] = 1
				}
			}
			return memo[t] == 1
		}
		var facts []*Term
		for _, f := range pc {
			if hasJ(f) {
				facts = append(facts, f)
			}
		}
		if len(facts) == 0 {
			continue
		}
		offs := map[string]map[*Term]bool{}
		walk(facts, map[*Term]bool{}, func(t *Term) {
			if t.Op == "select" && !t.bound && hasJ(t.Args[1]) {
				c := sub(t.Args[1], j)
				if !hasJ(c) {
					if offs[t.Sort] == nil {
						offs[t.Sort] = map[*Term]bool{}
					}
					offs[t.Sort][c] = true
				}
			}
		})
		var cand []*Term
		walk(all, map[*Term]bool{}, func(t *Term) {
			if t.Op == "select" && !t.bound && !hasJ(t.Args[1]) {
				for _, c := range sortedKeysT(offs[t.Sort]) {
					k := sub(t.Args[1], c)
					if !has[k] && len(cand) < 16 {
						has[k] = true
						cand = append(cand, k)
					}
				}
			}
		})
		for _, k := range cand {
			for _, f := range facts {
				if g := subst(f, map[*Term]*Term{j: k}); g != tTrue {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

func sortedKeysT(m map[*Term]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, k int) bool { return ts[i].id < ts[k].id })
	return ts
}

// unsatPC reports whether the assertions are contradictory.
func (x *Exec) contradictory(as []*Term, fuel, ms int) bool {
	return x.s.Check(x.queryText(as, nil, fuel), ms, false).res == Unsat
}

// valid reports whether pc implies goal.
func (x *Exec) valid(pc []*Term, goal *Term, ms int) bool {
	if goal == tTrue {
		return true
	}
	return x.s.Check(x.queryText(pc, []*Term{not(goal)}, x.fuel), ms, false).res == Unsat
}

func (x *Exec) feasible(st *State) bool {
	if st.dead {
		return false
	}
	return !x.contradictory(st.pc, 0, 400)
}

// oblige records a verification condition and continues under its assumption.
func (x *Exec) oblige(st *State, kind, name string, goal *Term) {
	if goal == tTrue {
		if x.quiet == 0 {
			x.obligs = append(x.obligs, &Oblig{Func: x.root.Name, Name: name, Kind: kind, goal: goal, Res: Unsat, Engine: "simplifier"})
		}
		return
	}
	if x.quiet == 0 {
		x.obligs = append(x.obligs, &Oblig{Func: x.root.Name, Name: name, Kind: kind, pc: st.pc[:len(st.pc):len(st.pc)], goal: goal, Res: Unknown})
	}
	st.assume(goal)
}

func (x *Exec) check() {
	x.steps++
	if x.steps > 400000 {
		unsup("step budget exhausted")
	}
	if !x.deadline.IsZero() && time.Now().After(x.deadline) {
		unsup("time budget exhausted")
	}
}

// ------------------------------------------------------------------ values of SSA operands

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.String:
		return litStr(constant.StringVal(c.Value))
	case constant.Int:
		if scalarSort(t) != SInt {
			return cst("flt_"+sanitize(c.Value.ExactString()), "Flt")
		}
		b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return ibig(b)
	}
	return cst("flt_"+sanitize(c.Value.ExactString()), "Flt")
}

func (x *Exec) val(st *State, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return funTerm(v)
	case *ssa.Global:
		return x.globalPtr(st, v)
	case *ssa.Builtin:
		return v
	}
	r, ok := st.fr().regs[v]
	if !ok {
		unsup("undefined register %s in %s", v.Name(), st.fr().fn)
	}
	return r
}

func (x *Exec) term(st *State, v ssa.Value) *Term {
	switch r := x.val(st, v).(type) {
	case *Term:
		return r
	case *PtrV:
		return refOf(r)
	}
	unsup("scalar expected for %s", v)
	return nil
}

// globals: read-only package variables are evaluated from the package initialiser.
func (x *Exec) globalPtr(st *State, g *ssa.Global) Val {
	elem := under(g.Type()).(*types.Pointer).Elem()
	key := "global:" + g.String()
	ref := app("mkRef", SRef, cst("glob_"+sanitize(g.String()), SInt), zero)
	for _, l := range leaves(elem) {
		st.arr(key+l.path, l.sort)
	}
	if !st.pcs[cst("ginit_"+sanitize(g.String()), SBool)] {
		st.assume(cst("ginit_"+sanitize(g.String()), SBool))
		x.initGlobal(st, g, &PtrV{elem, key, ref})
	}
	return &PtrV{elem, key, ref}
}

func (x *Exec) initGlobal(st *State, g *ssa.Global, p *PtrV) {
	if g.Pkg == nil {
		return
	}
	if _, ok := x.p.pkgs[g.Pkg.Pkg.Path()]; !ok {
		return
	}
	// any store outside the initialiser makes it unknown
	for _, fn := range x.p.allFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) {
						if _, ok := in.(*ssa.UnOp); !ok {
							return
						}
					}
				}
			}
		}
	}
	ini := g.Pkg.Func("init")
	if ini == nil {
		return
	}
	// evaluate the initialiser block that stores g, straight-line only
	for _, b := range ini.Blocks {
		has := false
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
				has = true
			}
		}
		if !has {
			continue
		}
		st.frames = append(st.frames, &frame{fn: ini, uid: -1, regs: map[ssa.Value]Val{}})
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupported); !ok {
						panic(r)
					}
				}
			}()
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if og, isG := s.Addr.(*ssa.Global); isG {
						if og == g {
							st.store(p, x.val(st, s.Val))
							return
						}
						continue
					}
				}
				if v, ok := in.(ssa.Value); ok {
					func() {
						defer func() {
							if r := recover(); r != nil {
								if _, ok := r.(unsupported); !ok {
									panic(r)
								}
							}
						}()
						_ = v
						x.simple(st, in)
					}()
				} else {
					x.simple(st, in)
				}
			}
		}()
		st.frames = st.frames[:len(st.frames)-1]
	}
}

// ------------------------------------------------------------------ simple instructions

func (x *Exec) set(st *State, v ssa.Value, r Val) { st.fr().regs[v] = r }

// simple executes an instruction that neither branches nor calls; false if it is not simple.
func (x *Exec) simple(st *State, in ssa.Instruction) bool {
	curSt = st
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		elem := under(in.Type()).(*types.Pointer).Elem()
		b := st.allocObj(elem)
		x.set(st, in, &PtrV{elem, cellKey(elem), app("mkRef", SRef, b, zero)})
	case *ssa.BinOp:
		x.set(st, in, x.binop(st, in))
	case *ssa.UnOp:
		x.set(st, in, x.unop(st, in))
	case *ssa.ChangeType:
		x.set(st, in, x.val(st, in.X))
	case *ssa.ChangeInterface:
		if t, ok := x.val(st, in.X).(*Term); ok && namedOf(in.X.Type()) == "Reader" && !isBox(t.Op) && t.Op != "ite" {
			x.used["readers and grammars are not nil"] = true
			st.assume(ne(t, nilIface))
			st.assume(x.implementsT(t, in.X.Type()))
		}
		x.set(st, in, x.val(st, in.X))
	case *ssa.Convert:
		x.set(st, in, x.convert(st, in.X.Type(), in.Type(), x.val(st, in.X)))
	case *ssa.MakeInterface:
		x.set(st, in, box(in.X.Type(), x.val(st, in.X)))
	case *ssa.MakeClosure:
		var bind []Val
		for _, b := range in.Bindings {
			bind = append(bind, x.val(st, b))
		}
		x.set(st, in, closureTerm(in.Fn.(*ssa.Function), bind))
	case *ssa.MakeSlice:
		et := under(in.Type()).(*types.Slice).Elem()
		l, c := x.term(st, in.Len), x.term(st, in.Cap)
		x.oblige(st, "panic", "makeslice-size", and(le(zero, l), le(l, c)))
		b := st.allocObj(et)
		x.set(st, in, mkSl(b, zero, l, c))
	case *ssa.FieldAddr:
		p := x.val(st, in.X).(*PtrV)
		s := under(p.elem).(*types.Struct)
		f := s.Field(in.Field)
		if isBuilderT(p.elem) {
			unsup("field of strings.Builder")
		}
		x.set(st, in, &PtrV{f.Type(), p.key + "." + f.Name(), p.ref})
	case *ssa.Field:
		x.set(st, in, x.val(st, in.X).(*StructV).F[in.Field])
	case *ssa.IndexAddr:
		i := x.term(st, in.Index)
		switch u := under(in.X.Type()).(type) {
		case *types.Slice:
			s := x.term(st, in.X)
			x.oblige(st, "panic", "index-in-range", and(le(zero, i), lt(i, llen(s))))
			x.set(st, in, &PtrV{u.Elem(), cellKey(u.Elem()), mkRef(lblk(s), add(loff(s), i))})
		case *types.Pointer:
			a := under(u.Elem()).(*types.Array)
			p := x.val(st, in.X).(*PtrV)
			x.oblige(st, "panic", "index-in-range", and(le(zero, i), lt(i, inum(a.Len()))))
			if p.key != cellKey(a.Elem()) {
				unsup("array inside a struct")
			}
			x.set(st, in, &PtrV{a.Elem(), p.key, mkRef(rblk(p.ref), add(ridx(p.ref), i))})
		default:
			unsup("IndexAddr on %s", in.X.Type())
		}
	case *ssa.Index:
		if !isString(in.X.Type()) {
			unsup("index of array value")
		}
		x.set(st, in, x.strIndex(st, x.term(st, in.X), x.term(st, in.Index)))
	case *ssa.Lookup:
		if !isString(in.X.Type()) {
			unsup("map lookup")
		}
		x.set(st, in, x.strIndex(st, x.term(st, in.X), x.term(st, in.Index)))
	case *ssa.Slice:
		x.set(st, in, x.slice(st, in))
	case *ssa.Extract:
		x.set(st, in, x.val(st, in.Tuple).(TupleV)[in.Index])
	case *ssa.Store:
		p := x.val(st, in.Addr).(*PtrV)
		st.store(p, x.val(st, in.Val))
	case *ssa.TypeAssert:
		x.set(st, in, x.typeAssert(st, in))
	case *ssa.Range:
		if !isString(in.X.Type()) {
			unsup("range over %s", in.X.Type())
		}
		id := fmt.Sprintf("it%d_%s", st.fr().uid, in.Name())
		st.iters[id] = zero
		x.set(st, in, &IterV{id, x.term(st, in.X)})
	case *ssa.Next:
		it := x.val(st, in.Iter).(*IterV)
		p := st.iters[it.id]
		ok := lt(p, slen(it.str))
		r, w := decodeAt(it.str, p)
		st.iters[it.id] = ite(ok, add(p, w), p)
		if d, known := st.decide(ok); known && d {
			st.iters[it.id] = add(p, w)
		} else if known {
			st.iters[it.id] = p
		}
		x.set(st, in, TupleV{ok, ite(ok, p, zero), ite(ok, r, zero)})
		if d, known := st.decide(ok); known && d {
			x.set(st, in, TupleV{tTrue, p, r})
		}
	default:
		return false
	}
	return true
}

// decodeAt: rune and width of s at relative position p (concrete for literals).
func decodeAt(s, p *Term) (*Term, *Term) {
	if l, ok := litOf(s); ok && p.isInt() {
		i := p.Int.Int64()
		if i >= 0 && i <= int64(len(l)) {
			r, w := utf8.DecodeRuneInString(l[i:])
			return inum(int64(r)), inum(int64(w))
		}
	}
	b, a, e := sbase(s), add(soff(s), p), send(s)
	return drT(b, a, e), dwT(b, a, e)
}

func decodeLast(s *Term) (*Term, *Term) {
	if l, ok := litOf(s); ok {
		r, w := utf8.DecodeLastRuneInString(l)
		return inum(int64(r)), inum(int64(w))
	}
	b, a, e := sbase(s), soff(s), send(s)
	return rrT(b, a, e), rwT(b, a, e)
}

func (x *Exec) strIndex(st *State, s, i *Term) *Term {
	x.oblige(st, "panic", "string-index-in-range", and(le(zero, i), lt(i, slen(s))))
	return byteAt(s, i)
}

func byteAt(s, i *Term) *Term {
	if l, ok := litOf(s); ok && i.isInt() {
		k := i.Int.Int64()
		if k >= 0 && k < int64(len(l)) {
			return inum(int64(l[k]))
		}
	}
	return app("byteAt", SInt, sbase(s), add(soff(s), i))
}

func (x *Exec) slice(st *State, in *ssa.Slice) Val {
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.term(st, v)
	}
	switch u := under(in.X.Type()).(type) {
	case *types.Basic:
		s := x.term(st, in.X)
		lo, hi := opt(in.Low, zero), opt(in.High, slen(s))
		x.oblige(st, "panic", "string-slice-in-range", and(le(zero, lo), le(lo, hi), le(hi, slen(s))))
		return mkStr(sbase(s), add(soff(s), lo), sub(hi, lo))
	case *types.Slice:
		s := x.term(st, in.X)
		lo, hi := opt(in.Low, zero), opt(in.High, llen(s))
		mx := opt(in.Max, lcap(s))
		x.oblige(st, "panic", "slice-in-range", and(le(zero, lo), le(lo, hi), le(hi, mx), le(mx, lcap(s))))
		return mkSl(lblk(s), add(loff(s), lo), sub(hi, lo), sub(mx, lo))
	case *types.Pointer:
		a := under(u.Elem()).(*types.Array)
		p := x.val(st, in.X).(*PtrV)
		n := inum(a.Len())
		lo, hi := opt(in.Low, zero), opt(in.High, n)
		x.oblige(st, "panic", "slice-in-range", and(le(zero, lo), le(lo, hi), le(hi, n)))
		return mkSl(rblk(p.ref), add(ridx(p.ref), lo), sub(hi, lo), sub(n, lo))
	}
	unsup("slice of %s", in.X.Type())
	return nil
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) Val {
	v := x.term(st, in.X)
	t := in.AssertedType
	if it, ok := under(t).(*types.Interface); ok {
		var c *Term
		if isBox(v.Op) {
			c = boolT(types.Implements(boxType[v.Op], it))
		} else if v == nilIface {
			c = tFalse
		} else if it.NumMethods() == 0 || types.Identical(in.X.Type(), t) {
			// an interface to itself: the nil check of a method value
			c = ne(v, nilIface)
			if n, ok := t.(*types.Named); ok && (n.Obj().Name() == "Reader" || n.Obj().Name() == "Grammar") && x.p.isModulePkg(n.Obj().Pkg()) {
				x.used["readers and grammars are not nil"] = true
				st.assume(c)
				c = tTrue
			}
		} else {
			c = x.implementsT(v, t)
		}
		if !in.CommaOk {
			x.oblige(st, "panic", "type-assertion", c)
			return v
		}
		return TupleV{ite(c, v, nilIface), c}
	}
	c := hasType(v, t)
	if rt := x.readerType(); rt != nil && !types.Implements(t, under(rt).(*types.Interface)) {
		if d, ok := st.decide(x.implementsT(v, rt)); ok && d {
			st.assume(not(c))
			c = tFalse
		} else if c != tTrue && c != tFalse {
			st.assume(implies(c, not(x.implementsT(v, rt))))
		}
	}
	if !in.CommaOk {
		x.oblige(st, "panic", "type-assertion", c)
		return unbox(v, t)
	}
	if d, ok := st.decide(c); ok {
		c = boolT(d)
	}
	u := unbox(v, t)
	if c == tTrue {
		return TupleV{u, c}
	}
	if c == tFalse {
		return TupleV{zeroVal(t), c}
	}
	us, zs := flatten(u), flatten(zeroVal(t))
	var ts []*Term
	for i := range us {
		ts = append(ts, ite(c, us[i], zs[i]))
	}
	return TupleV{rebuildVal(t, ts), c}
}

func (x *Exec) readerType() types.Type {
	if tp := x.p.tpkgs[x.p.mod]; tp != nil {
		if o := tp.Scope().Lookup("Reader"); o != nil {
			return o.Type()
		}
	}
	return nil
}

// implementsT: the dynamic type of v implements interface type t.
func (x *Exec) implementsT(v *Term, t types.Type) *Term {
	return app("impl_"+sanitize(qual(t)), SBool, tagOf(v))
}

func wrapFor(t types.Type, v *Term) *Term {
	k := intKind(t)
	if k == "" {
		return v
	}
	return wrapT(k, v)
}

func (x *Exec) binop(st *State, in *ssa.BinOp) Val {
	a, b := x.val(st, in.X), x.val(st, in.Y)
	switch in.Op {
	case token.EQL:
		return x.goEq(st, in.X.Type(), in.Y.Type(), a, b)
	case token.NEQ:
		return not(x.goEq(st, in.X.Type(), in.Y.Type(), a, b))
	}
	p, okp := a.(*Term)
	q, okq := b.(*Term)
	if !okp || !okq {
		unsup("binop %s on %T", in.Op, a)
	}
	if isString(in.X.Type()) {
		switch in.Op {
		case token.ADD:
			return concat(p, q)
		case token.LSS:
			return app("strLess", SBool, p, q)
		case token.GTR:
			return app("strLess", SBool, q, p)
		case token.LEQ:
			return not(app("strLess", SBool, q, p))
		case token.GEQ:
			return not(app("strLess", SBool, p, q))
		}
	}
	if scalarSort(in.X.Type()) == SBool {
		switch in.Op {
		case token.AND:
			return and(p, q)
		case token.OR:
			return or(p, q)
		}
	}
	if p.Sort != SInt || q.Sort != SInt {
		unsup("binop %s on %s", in.Op, p.Sort)
	}
	switch in.Op {
	case token.LSS:
		return lt(p, q)
	case token.LEQ:
		return le(p, q)
	case token.GTR:
		return lt(q, p)
	case token.GEQ:
		return le(q, p)
	case token.ADD:
		return x.wrapS(st, in.Type(), add(p, q))
	case token.SUB:
		return x.wrapS(st, in.Type(), sub(p, q))
	case token.MUL:
		return x.wrapS(st, in.Type(), mul(p, q))
	case token.QUO:
		x.oblige(st, "panic", "division-by-zero", ne(q, zero))
		return x.wrapS(st, in.Type(), tdiv(p, q))
	case token.REM:
		x.oblige(st, "panic", "division-by-zero", ne(q, zero))
		return tmod(p, q)
	case token.SHL:
		if q.isInt() && q.Int.IsInt64() && q.Int.Int64() >= 0 && q.Int.Int64() < 64 {
			return x.wrapS(st, in.Type(), mul(ibig(new(big.Int).Lsh(big.NewInt(1), uint(q.Int.Int64()))), p))
		}
	case token.SHR:
		if q.isInt() && q.Int.IsInt64() && q.Int.Int64() >= 0 && q.Int.Int64() < 64 {
			return app("div", SInt, p, ibig(new(big.Int).Lsh(big.NewInt(1), uint(q.Int.Int64()))))
		}
	case token.AND:
		if q.isInt() && q.Int.Sign() >= 0 {
			// mask 2^k-1
			m := new(big.Int).Add(q.Int, big.NewInt(1))
			if new(big.Int).And(m, q.Int).Sign() == 0 {
				return app("mod", SInt, p, ibig(m))
			}
		}
	}
	r := app("bitop_"+map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot", token.SHL: "shl", token.SHR: "shr"}[in.Op]+"_"+intKind(in.Type()), SInt, p, q)
	st.assume(inRangeT(intKind(in.Type()), r))
	return r
}

// wrapS applies machine wrap-around, dropping it where the operands' bounds make it impossible.
func (x *Exec) wrapS(st *State, t types.Type, v *Term) *Term {
	k := intKind(t)
	if k == "" {
		unsup("arithmetic on %s", t)
	}
	if v.isInt() {
		return wrapT(k, v)
	}
	r := wraps[k]
	if lo, hi, ok := st.bounds(v, 0); ok && lo.Cmp(r[0]) >= 0 && hi.Cmp(r[1]) <= 0 {
		return v
	}
	return wrapT(k, v)
}

// bounds gives cheap interval bounds of an Int term from its shape and the path condition.
func (st *State) bounds(t *Term, d int) (*big.Int, *big.Int, bool) {
	if t.isInt() {
		return t.Int, t.Int, true
	}
	if d > 6 {
		return nil, nil, false
	}
	big47 := new(big.Int).Lsh(big.NewInt(1), 47)
	switch t.Op {
	case "sl", "so", "ll", "lo", "lc":
		return big.NewInt(0), big47, true
	case "dw", "rw":
		return big.NewInt(0), big.NewInt(4), true
	case "dr", "rr":
		return big.NewInt(0), big.NewInt(0x10FFFF), true
	case "byteAt":
		return big.NewInt(0), big.NewInt(255), true
	case "+":
		lo, hi := new(big.Int), new(big.Int)
		for _, a := range t.Args {
			l, h, ok := st.bounds(a, d+1)
			if !ok {
				return nil, nil, false
			}
			lo.Add(lo, l)
			hi.Add(hi, h)
		}
		return lo, hi, true
	case "*":
		if t.Args[0].isInt() {
			l, h, ok := st.bounds(t.Args[1], d+1)
			if !ok {
				return nil, nil, false
			}
			l, h = new(big.Int).Mul(l, t.Args[0].Int), new(big.Int).Mul(h, t.Args[0].Int)
			if l.Cmp(h) > 0 {
				l, h = h, l
			}
			return l, h, true
		}
	case "ite":
		l1, h1, ok1 := st.bounds(t.Args[1], d+1)
		l2, h2, ok2 := st.bounds(t.Args[2], d+1)
		if ok1 && ok2 {
			if l2.Cmp(l1) < 0 {
				l1 = l2
			}
			if h2.Cmp(h1) > 0 {
				h1 = h2
			}
			return l1, h1, true
		}
	}
	if strings.HasPrefix(t.Op, "wrap_") {
		r := wraps[t.Op[5:]]
		return r[0], r[1], true
	}
	// path condition: lower and upper bound literals on exactly this term
	var lo, hi *big.Int
	for _, c := range st.pc {
		if c.Op != "<=" {
			continue
		}
		a, b := c.Args[0], c.Args[1]
		if b == t {
			if l, _, ok := st.bounds(a, d+3); ok && (lo == nil || l.Cmp(lo) > 0) {
				lo = l
			}
		}
		if a == t {
			if _, h, ok := st.bounds(b, d+3); ok && (hi == nil || h.Cmp(hi) < 0) {
				hi = h
			}
		}
	}
	if lo != nil && hi != nil {
		return lo, hi, true
	}
	return nil, nil, false
}

func tdiv(p, q *Term) *Term {
	if p.isInt() && q.isInt() && q.Int.Sign() != 0 {
		return ibig(new(big.Int).Quo(p.Int, q.Int))
	}
	return app("tdiv", SInt, p, q)
}
func tmod(p, q *Term) *Term {
	if p.isInt() && q.isInt() && q.Int.Sign() != 0 {
		return ibig(new(big.Int).Rem(p.Int, q.Int))
	}
	return app("tmod", SInt, p, q)
}

func concat(a, b *Term) *Term {
	la, oka := litOf(a)
	lb, okb := litOf(b)
	if oka && okb {
		return litStr(la + lb)
	}
	if oka && la == "" {
		return b
	}
	if okb && lb == "" {
		return a
	}
	// right-nested: (x+y)+z = x+(y+z)
	if a.Op == "concat" {
		return concat(a.Args[0], concat(a.Args[1], b))
	}
	if oka && b.Op == "concat" {
		if lc, ok := litOf(b.Args[0]); ok {
			return concat(litStr(la+lc), b.Args[1])
		}
	}
	return app("concat", SStr, a, b)
}

// goEq is Go's == on values of the given types.
func (x *Exec) goEq(st *State, ta, tb types.Type, a, b Val) *Term {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			if pv, ok := b.(*PtrV); ok {
				return eq(p, refOf(pv))
			}
			unsup("comparison")
		}
		// interface against concrete
		_, ia := under(ta).(*types.Interface)
		_, ib := under(tb).(*types.Interface)
		if ia && !ib && q.Sort != SIface {
			q = box(tb, q)
		}
		if ib && !ia && p.Sort != SIface {
			p = box(ta, p)
		}
		switch p.Sort {
		case SStr:
			return strEq(p, q)
		case SSl:
			if q == nilSl {
				return eq(lblk(p), zero)
			}
			if p == nilSl {
				return eq(lblk(q), zero)
			}
			unsup("slice comparison")
		case SFunc:
			return eq(p, q)
		case SIface:
			if p == nilIface || q == nilIface {
				return eq(p, q)
			}
			if isBox(p.Op) && isBox(q.Op) && p.Op != q.Op {
				return tFalse
			}
			if isBox(p.Op) && p.Op == q.Op {
				t := boxType[p.Op]
				return x.goEq(st, t, t, rebuildVal(t, p.Args), rebuildVal(t, q.Args))
			}
			if p == q {
				return tTrue
			}
			if qual(ta) == "reflect.Type" && qual(tb) == "reflect.Type" {
				return eq(p, q) // one value per type
			}
			return app("ifaceEq", SBool, p, q)
		}
		return eq(p, q)
	case *PtrV:
		switch q := b.(type) {
		case *PtrV:
			return eq(refOf(p), refOf(q))
		case *Term:
			if q.Sort == SIface {
				return app("ifaceEq", SBool, box(ta, a), q)
			}
			return eq(refOf(p), q)
		}
	case *StructV:
		q, ok := b.(*StructV)
		if !ok {
			unsup("comparison of struct with %T", b)
		}
		var cs []*Term
		for i := range p.F {
			ft := p.T.Field(i).Type()
			cs = append(cs, x.goEq(st, ft, ft, p.F[i], q.F[i]))
		}
		return and(cs...)
	}
	unsup("comparison of %T", a)
	return nil
}

func (x *Exec) unop(st *State, in *ssa.UnOp) Val {
	switch in.Op {
	case token.MUL:
		p, ok := x.val(st, in.X).(*PtrV)
		if !ok {
			unsup("load through %T", x.val(st, in.X))
		}
		return st.load(p)
	case token.NOT:
		return not(x.term(st, in.X))
	case token.SUB:
		return x.wrapS(st, in.Type(), neg(x.term(st, in.X)))
	case token.XOR:
		return x.wrapS(st, in.Type(), sub(neg(x.term(st, in.X)), one))
	}
	unsup("unop %s", in.Op)
	return nil
}

func (x *Exec) convert(st *State, from, to types.Type, v Val) Val {
	fs, ts := scalarSort(from), scalarSort(to)
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	switch {
	case fs == SInt && ts == SInt:
		return x.wrapS(st, to, t)
	case fs == SStr && ts == SStr:
		return v
	case fs == SStr && ts == SSl:
		el := under(under(to).(*types.Slice).Elem()).(*types.Basic)
		et := under(to).(*types.Slice).Elem()
		b := st.newBlock()
		key := cellKey(et)
		if el.Kind() == types.Int32 {
			if l, ok := litOf(t); ok {
				rs := []rune(l)
				arr := constArr(SInt, zero)
				for i, r := range rs {
					arr = sto(arr, inum(int64(i)), inum(int64(r)))
				}
				st.mem[key] = sto(st.arr(key, SInt), b, arr)
				n := inum(int64(len(rs)))
				return mkSl(b, zero, n, n)
			}
			arr := app("runeArr", sArr(SInt), sbase(t), soff(t), send(t))
			n := app("runeCnt", SInt, sbase(t), soff(t), send(t))
			st.assume(and(le(zero, n), le(n, slen(t))))
			st.mem[key] = sto(st.arr(key, SInt), b, arr)
			return mkSl(b, zero, n, n)
		}
		arr := app("byteArr", sArr(SInt), sbase(t), soff(t))
		st.mem[key] = sto(st.arr(key, SInt), b, arr)
		return mkSl(b, zero, slen(t), slen(t))
	case fs == SSl && ts == SStr:
		r := fresh("strOfSlice", SStr)
		return r
	case fs == SInt && ts == SStr:
		if t.isInt() {
			return litStr(string(rune(t.Int.Int64())))
		}
		r := app("strOfRune", SStr, t)
		return r
	case fs == ts:
		return v
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

// ------------------------------------------------------------------ control flow

type cont func(st *State, res []Val)

// call runs fn with args and passes every return to k.
func (x *Exec) inline(st *State, fn *ssa.Function, args []Val, bind []Val, k cont) {
	if len(fn.Blocks) == 0 {
		unsup("function without body: %s", fn)
	}
	if len(st.frames) > 1 && x.joins(fn, args) {
		var r *Term
		if ts := flatten(args[0]); len(ts) > 0 {
			r = ts[0]
		}
		x.joined(st, r, func(st *State, k cont) { x.inline1(st, fn, args, bind, k) }, k)
		return
	}
	x.inline1(st, fn, args, bind, k)
}

func (x *Exec) inline1(st *State, fn *ssa.Function, args []Val, bind []Val, k cont) {
	// a combinator inside another one of its kind: the nesting of a reader
	// that the function itself builds is finite, so is this recursion
	again := 0
	for _, f := range st.frames {
		if f.fn != fn {
			continue
		}
		again++
		if again > 5 || fn.Signature.Recv() == nil || len(args) == 0 {
			unsup("recursive call of %s without a contract", fn)
		}
		a, ok1 := args[0].(*Term)
		b, ok2 := f.regs[fn.Params[0]].(*Term)
		if ok1 && ok2 && a == b {
			unsup("recursive call of %s without a contract", fn)
		}
	}
	if len(st.frames) > 40 {
		unsup("inline depth")
	}
	x.uid++
	fr := &frame{fn: fn, uid: x.uid, regs: map[ssa.Value]Val{}}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.regs[f] = bind[i]
	}
	if x.contractOfFn(fn) != nil {
		fr.ent = st.clone()
	}
	st.frames = append(st.frames, fr)
	depth := len(st.frames)
	x.block(st, fn.Blocks[0], nil, func(st *State, res []Val) {
		if len(st.frames) != depth {
			panic("frame depth")
		}
		st.frames = st.frames[:depth-1]
		k(st, res)
	})
}

func (x *Exec) block(st *State, b, prev *ssa.BasicBlock, k cont) {
	if st.dead {
		return
	}
	x.check()
	fr := st.fr()
	// leaving cut loops
	for len(fr.ctxs) > 0 {
		c := fr.ctxs[len(fr.ctxs)-1]
		if c.blocks[b] {
			break
		}
		if c.mode != modeFinal {
			return
		}
		fr.ctxs = fr.ctxs[:len(fr.ctxs)-1]
	}
	if lp := loopsOf(fr.fn)[b]; lp != nil {
		if prev != nil && lp[prev] {
			for _, c := range fr.ctxs {
				if c.header == b {
					c.back(x, st, prev)
					return
				}
			}
			if x.headerConcrete(st, b, prev) {
				x.enter(st, b, prev, k)
				return
			}
			x.cut(st, b, prev, lp, k)
			return
		}
		if x.headerConcrete(st, b, prev) {
			x.enter(st, b, prev, k)
			return
		}
		x.cut(st, b, prev, lp, k)
		return
	}
	x.enter(st, b, prev, k)
}

func (x *Exec) phis(st *State, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == prev {
			pi = i
			break
		}
	}
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vals = append(vals, x.val(st, ph.Edges[pi]))
	}
	for i, p := range ps {
		x.set(st, p, vals[i])
	}
}

func (x *Exec) enter(st *State, b, prev *ssa.BasicBlock, k cont) {
	x.phis(st, b, prev)
	x.instrs(st, b, 0, k)
}

func (x *Exec) instrs(st *State, b *ssa.BasicBlock, i int, k cont) {
	for ; i < len(b.Instrs); i++ {
		if st.dead {
			return
		}
		x.check()
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.term(st, in.Cond)
			if d, ok := st.decide(c); ok {
				if d {
					x.block(st, b.Succs[0], b, k)
				} else {
					x.block(st, b.Succs[1], b, k)
				}
				return
			}
			s2 := st.clone()
			st.assume(c)
			if x.feasible(st) {
				x.block(st, b.Succs[0], b, k)
			}
			s2.assume(not(c))
			if x.feasible(s2) {
				x.block(s2, b.Succs[1], b, k)
			}
			return
		case *ssa.Jump:
			x.block(st, b.Succs[0], b, k)
			return
		case *ssa.Return:
			for _, c := range st.fr().ctxs {
				if c.mode != modeFinal {
					return
				}
			}
			var res []Val
			for _, r := range in.Results {
				res = append(res, x.val(st, r))
			}
			x.paths++
			if x.paths > 20000 {
				unsup("too many paths")
			}
			k(st, res)
			return
		case *ssa.Panic:
			for _, c := range st.fr().ctxs {
				if c.mode != modeFinal {
					return
				}
			}
			x.onPanic(st, in)
			return
		case *ssa.Defer:
			for _, l := range loopsOf(st.fr().fn) {
				if l[b] {
					unsup("defer in a loop of %s", st.fr().fn)
				}
			}
			st.fr().defs = append(st.fr().defs, x.deferred(st, &in.Call))
			continue
		case *ssa.RunDefers:
			fr := st.fr()
			if n := len(fr.defs); n > 0 {
				d, at := fr.defs[n-1], i
				fr.defs = fr.defs[: n-1 : n-1]
				d(st, func(st *State, res []Val) { x.instrs(st, b, at, k) })
				return
			}
			continue
		case *ssa.Call:
			next := i + 1
			x.call(st, in, &in.Call, func(st *State, res []Val) {
				if in.Call.Signature().Results().Len() == 1 {
					x.set(st, in, res[0])
				} else if len(res) > 0 {
					x.set(st, in, TupleV(res))
				}
				x.instrs(st, b, next, k)
			})
			return
		default:
			if !x.simple(st, in) {
				unsup("instruction %T in %s", in, st.fr().fn)
			}
		}
	}
}

func (x *Exec) onPanic(st *State, in *ssa.Panic) {
	if x.root != nil && x.root.panics != nil {
		// panics allowed exactly when the clause holds
		for _, c := range x.root.panics {
			if x.visible(c.Tags) {
				x.oblige(st, "panics", c.Name, x.evalClause(st, c, nil))
			}
		}
		x.exits++
		return
	}
	x.oblige(st, "panic", "explicit-panic", tFalse)
}

// ------------------------------------------------------------------ loops of a function

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			set := res[h]
			if set == nil {
				set = map[*ssa.BasicBlock]bool{h: true}
				res[h] = set
			}
			var stack = []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				n := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if set[n] {
					continue
				}
				set[n] = true
				stack = append(stack, n.Preds...)
			}
		}
	}
	loopCache[fn] = res
	return res
}

// headerConcrete: the loop condition is decided without assumptions (the iteration can simply be executed).
func (x *Exec) headerConcrete(st *State, b, prev *ssa.BasicBlock) (res bool) {
	t := st.clone()
	x.quiet++
	defer func() {
		x.quiet--
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				res = false
				return
			}
			panic(r)
		}
	}()
	x.phis(t, b, prev)
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := x.term(t, in.Cond)
			if _, isPhi := in.Cond.(*ssa.Phi); isPhi && c == tTrue && b.Dominates(prev) {
				return false // a flag that happens to be known on this path does not bound the loop
			}
			return c == tTrue || c == tFalse
		case *ssa.Call:
			if bi, ok := in.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				x.set(t, in, x.lenOf(t, in.Call.Args[0]))
				continue
			}
			return false
		case *ssa.Jump:
			return false
		default:
			if !x.simple(t, in) {
				return false
			}
		}
	}
	return false
}

func (x *Exec) lenOf(st *State, v ssa.Value) *Term {
	t := x.val(st, v)
	switch u := t.(type) {
	case *Term:
		if u.Sort == SStr {
			return slen(u)
		}
		if u.Sort == SSl {
			return llen(u)
		}
	case *PtrV:
		if a, ok := under(u.elem).(*types.Array); ok {
			return inum(a.Len())
		}
	}
	unsup("len of %T", t)
	return nil
}

// contractOfFn is the contract of an inlined function, if it names loop invariants for the property at hand.
func (x *Exec) contractOfFn(fn *ssa.Function) *Contract {
	if x.cs == nil || fn == x.rootFn || fn.Parent() != nil || len(fn.Blocks) < 3 {
		return nil
	}
	k := x.cs.Fns[x.p.shortName(fn)]
	if k == nil {
		return nil
	}
	if len(k.Params) != len(fn.Params) {
		return nil
	}
	for _, cl := range k.Invs {
		if x.visible(cl.Tags) {
			return k
		}
	}
	return nil
}

// deferred is a call whose function and arguments are evaluated now. A panic of the function that defers
// is a failed obligation by itself, so the call is only followed on the way of a return.
func (x *Exec) deferred(st *State, c *ssa.CallCommon) func(*State, cont) {
	if _, ok := c.Value.(*ssa.Builtin); ok {
		unsup("deferred builtin in %s", st.fr().fn)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if c.IsInvoke() {
		recv := x.term(st, c.Value)
		return func(st *State, k cont) { x.invoke(st, recv, c.Value.Type(), c.Method, args, k) }
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		return func(st *State, k cont) { x.callFn(st, fn, args, nil, k) }
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		var bind []Val
		for _, b := range mc.Bindings {
			bind = append(bind, x.val(st, b))
		}
		return func(st *State, k cont) { x.callFn(st, mc.Fn.(*ssa.Function), args, bind, k) }
	}
	f := x.term(st, c.Value)
	return func(st *State, k cont) { x.callFun(st, f, c.Value.Type(), args, k) }
}
