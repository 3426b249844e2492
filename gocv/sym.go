package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------------ values

type Val interface{}

type StructV struct {
	T *types.Struct
	F []Val
}

type PtrV struct {
	elem types.Type
	key  string // leaf key prefix
	ref  *Term
}

type TupleV []Val

type IterV struct {
	id  string
	str *Term
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ------------------------------------------------------------------ types

var nilFun = cst("nilF", SFunc)

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if _, ok := t.(*types.Named); ok {
		if _, ok := under(t).(*types.Struct); ok {
			return qual(t)
		}
	}
	return "cell:" + qual(t)
}

func qual(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if strings.Contains(s, "rune") || strings.Contains(s, "byte") || strings.Contains(s, "any") {
		s = aliasRe.ReplaceAllStringFunc(s, func(m string) string { return aliasOf[m] })
	}
	return s
}

// identical types have one name
var aliasRe = regexp.MustCompile(`\b(rune|byte|any)\b`)
var aliasOf = map[string]string{"rune": "int32", "byte": "uint8", "any": "interface{}"}

// cellKey is the memory key of objects of type t; scalar cells are shared by underlying type.
func cellKey(t types.Type) string {
	t = types.Unalias(t)
	if _, ok := under(t).(*types.Struct); ok {
		return qual(t)
	}
	if a, ok := under(t).(*types.Array); ok {
		return cellKey(a.Elem())
	}
	return "cell:" + qual(under(t))
}

func intKind(t types.Type) string {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return ""
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return "s64"
	case types.Int32, types.UntypedRune:
		return "s32"
	case types.Int16:
		return "s16"
	case types.Int8:
		return "s8"
	case types.Uint, types.Uint64, types.Uintptr:
		return "u64"
	case types.Uint32:
		return "u32"
	case types.Uint16:
		return "u16"
	case types.Uint8:
		return "u8"
	}
	return ""
}

func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBuilderT(t types.Type) bool { return qual(types.Unalias(t)) == "strings.Builder" }

func scalarSort(t types.Type) string {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Kind() == types.UntypedNil:
			return SIface
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		case u.Kind() == types.UnsafePointer:
			return SRef
		}
	case *types.Slice:
		return SSl
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Interface:
		return SIface
	case *types.Signature:
		return SFunc
	}
	return ""
}

type leaf struct {
	path string
	typ  types.Type
	sort string
}

var leafCache = map[types.Type][]leaf{}

func leaves(t types.Type) []leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []leaf
	if isBuilderT(t) {
		out = []leaf{{".$sb", types.Typ[types.String], SStr}}
	} else if s, ok := under(t).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, leaf{"." + f.Name() + l.path, l.typ, l.sort})
			}
		}
	} else if a, ok := under(t).(*types.Array); ok {
		out = leaves(a.Elem())
	} else {
		s := scalarSort(t)
		if s == "" {
			unsup("type %s", t)
		}
		out = []leaf{{"", t, s}}
	}
	leafCache[t] = out
	return out
}

func zeroScalar(srt string) *Term {
	switch srt {
	case SInt:
		return zero
	case SBool:
		return tFalse
	case SStr:
		return litStr("")
	case SSl:
		return nilSl
	case SRef:
		return nilRef
	case SIface:
		return nilIface
	case SFunc:
		return nilFun
	}
	return cst("zero_"+srt, srt)
}

// build assembles a Val of type t from a leaf supplier (called in leaf order).
func mkVal(t types.Type, get func(path string, l types.Type, srt string) *Term) Val {
	return mkValAt(t, "", get)
}

func mkValAt(t types.Type, path string, get func(path string, l types.Type, srt string) *Term) Val {
	if isBuilderT(t) {
		return &StructV{nil, []Val{get(path+".$sb", types.Typ[types.String], SStr)}}
	}
	if s, ok := under(t).(*types.Struct); ok {
		v := &StructV{T: s}
		for i := 0; i < s.NumFields(); i++ {
			v.F = append(v.F, mkValAt(s.Field(i).Type(), path+"."+s.Field(i).Name(), get))
		}
		return v
	}
	if tu, ok := t.(*types.Tuple); ok {
		var tv TupleV
		for i := 0; i < tu.Len(); i++ {
			tv = append(tv, mkValAt(tu.At(i).Type(), fmt.Sprintf("%s#%d", path, i), get))
		}
		return tv
	}
	srt := scalarSort(t)
	if srt == "" {
		unsup("value of type %s", t)
	}
	return wrapVal(t, get(path, t, srt))
}

// wrapVal turns a scalar term into a Val of static type t (pointers become PtrV).
func wrapVal(t types.Type, x *Term) Val {
	if p, ok := under(t).(*types.Pointer); ok {
		return ptrFromRef(p.Elem(), x)
	}
	return x
}

func zeroVal(t types.Type) Val {
	return mkVal(t, func(_ string, _ types.Type, s string) *Term { return zeroScalar(s) })
}

func freshVal(name string, t types.Type) Val {
	return mkVal(t, func(p string, _ types.Type, s string) *Term { return fresh(name+p, s) })
}

// flatten lists the scalar leaves of v in leaf order.
func flatten(v Val) []*Term {
	switch v := v.(type) {
	case *Term:
		return []*Term{v}
	case *PtrV:
		return []*Term{refOf(v)}
	case *StructV:
		var out []*Term
		for _, f := range v.F {
			out = append(out, flatten(f)...)
		}
		return out
	case TupleV:
		var out []*Term
		for _, f := range v {
			out = append(out, flatten(f)...)
		}
		return out
	}
	unsup("flatten %T", v)
	return nil
}

func rebuildVal(t types.Type, ts []*Term) Val {
	i := 0
	return mkVal(t, func(_ string, _ types.Type, s string) *Term { i++; return ts[i-1] })
}

// interior pointers (address of a field of a struct) are interned
type interior struct {
	key string
	ref *Term
}

var interiors []interior
var interiorIdx = map[string]int{}

func refOf(p *PtrV) *Term {
	if p.key == cellKey(p.elem) {
		return p.ref
	}
	k := fmt.Sprintf("%s|%d", p.key, p.ref.id)
	i, ok := interiorIdx[k]
	if !ok {
		interiors = append(interiors, interior{p.key, p.ref})
		i = len(interiors)
		interiorIdx[k] = i
	}
	return app("mkRef", SRef, inum(int64(-i)), zero)
}

func ptrFromRef(elem types.Type, r *Term) *PtrV {
	if r.Op == "mkRef" && r.Args[0].isInt() && r.Args[0].Int.Sign() < 0 {
		in := interiors[int(-r.Args[0].Int.Int64())-1]
		return &PtrV{elem, in.key, in.ref}
	}
	return &PtrV{elem, cellKey(elem), r}
}

// ------------------------------------------------------------------ functions as values

type funInfo struct {
	fn    *ssa.Function
	bind  []Val
	recvT types.Type
}

var funTab = map[*Term]*funInfo{}
var funOf = map[*ssa.Function]*Term{}

func funTerm(fn *ssa.Function) *Term {
	if t, ok := funOf[fn]; ok {
		return t
	}
	t := fresh("fn_"+fn.Name(), SFunc)
	funOf[fn] = t
	funTab[t] = &funInfo{fn: fn}
	return t
}

func closureTerm(fn *ssa.Function, bind []Val) *Term {
	t := fresh("clo_"+fn.Name(), SFunc)
	funTab[t] = &funInfo{fn: fn, bind: bind}
	return t
}

// ------------------------------------------------------------------ boxes

var boxType = map[string]types.Type{}

func boxOp(t types.Type) string {
	op := "box_" + sanitize(qual(types.Unalias(t)))
	if _, ok := boxTag[op]; !ok {
		boxTag[op] = len(boxTag) + 1
		var ss []string
		for _, l := range leaves(t) {
			ss = append(ss, l.sort)
		}
		boxSorts[op] = ss
		boxType[op] = t
	}
	return op
}

func box(t types.Type, v Val) *Term {
	return app(boxOp(t), SIface, flatten(v)...)
}

func tagOf(x *Term) *Term {
	if isBox(x.Op) {
		return inum(int64(boxTag[x.Op]))
	}
	if x == nilIface {
		return zero
	}
	if x.Op == "ite" {
		return ite(x.Args[0], tagOf(x.Args[1]), tagOf(x.Args[2]))
	}
	return app("tag", SInt, x)
}

func hasType(x *Term, t types.Type) *Term {
	return eq(tagOf(x), inum(int64(boxTag[boxOp(t)])))
}

func unbox(x *Term, t types.Type) Val {
	op := boxOp(t)
	if x.Op == op {
		return rebuildVal(t, x.Args)
	}
	var ts []*Term
	for i, s := range boxSorts[op] {
		ts = append(ts, app(fmt.Sprintf("un%s_%d", op, i), s, x))
	}
	return rebuildVal(t, ts)
}

// ------------------------------------------------------------------ state

type write struct {
	key      string
	blk, idx *Term
}

type frame struct {
	fn   *ssa.Function
	uid  int
	regs map[ssa.Value]Val
	ctxs []*loopCtx
	defs []func(*State, cont) // deferred calls
	ent  *State               // the state at the entry of an inlined function that has loop invariants of its own
}

type State struct {
	mem    map[string]*Term
	pc     []*Term
	pcs    map[*Term]bool
	alloc  *Term
	times  map[*Term]int
	freshT map[*Term]int
	tick   int
	iters  map[string]*Term
	ghost  map[string]*Term
	frames []*frame
	log    []write
	snap   map[string]*State
	epoch  int
	wepoch int
	tepoch int
	dead   bool

	keepFresh bool
}

var curSt *State

func newState() *State {
	return &State{mem: map[string]*Term{}, pcs: map[*Term]bool{}, alloc: cst("A0", SInt), times: map[*Term]int{}, freshT: map[*Term]int{},
		iters: map[string]*Term{}, ghost: map[string]*Term{}, snap: map[string]*State{}}
}

func (st *State) clone() *State {
	n := &State{mem: map[string]*Term{}, pc: st.pc[:len(st.pc):len(st.pc)], pcs: map[*Term]bool{}, alloc: st.alloc,
		times: map[*Term]int{}, freshT: map[*Term]int{}, tick: st.tick, iters: map[string]*Term{}, ghost: map[string]*Term{},
		log: st.log[:len(st.log):len(st.log)], snap: map[string]*State{}, dead: st.dead, keepFresh: st.keepFresh, epoch: st.epoch, wepoch: st.wepoch, tepoch: st.tepoch}
	for k, v := range st.mem {
		n.mem[k] = v
	}
	for k, v := range st.pcs {
		n.pcs[k] = v
	}
	for k, v := range st.times {
		n.times[k] = v
	}
	for k, v := range st.freshT {
		n.freshT[k] = v
	}
	for k, v := range st.iters {
		n.iters[k] = v
	}
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	for k, v := range st.snap {
		n.snap[k] = v
	}
	for _, f := range st.frames {
		nf := &frame{fn: f.fn, uid: f.uid, ent: f.ent, defs: f.defs[:len(f.defs):len(f.defs)], regs: make(map[ssa.Value]Val, len(f.regs)), ctxs: f.ctxs[:len(f.ctxs):len(f.ctxs)]}
		for k, v := range f.regs {
			nf.regs[k] = v
		}
		n.frames = append(n.frames, nf)
	}
	return n
}

func (st *State) fr() *frame { return st.frames[len(st.frames)-1] }

func (st *State) assume(c *Term) {
	if c == tTrue {
		return
	}
	if c.Op == "and" {
		for _, a := range c.Args {
			st.assume(a)
		}
		return
	}
	if c == tFalse || st.pcs[not(c)] {
		st.dead = true
	}
	if st.pcs[c] {
		return
	}
	st.pcs[c] = true
	st.pc = append(st.pc, c)
}

// decide returns the truth of c if it is syntactically known.
func (st *State) decide(c *Term) (bool, bool) {
	if c == tTrue || st.pcs[c] {
		return true, true
	}
	if c == tFalse || st.pcs[not(c)] {
		return false, true
	}
	return false, false
}

var memSorts = map[string]string{}
var keyTyp = map[string]types.Type{} // Go type of the cells of a memory key

func (st *State) arr(key, srt string) *Term {
	if a, ok := st.mem[key]; ok {
		return a
	}
	memSorts[key] = srt
	n := "M0_" + sanitize(key)
	if st.wepoch > 0 && wildKey(key) {
		n = fmt.Sprintf("X%d_%s", st.wepoch, sanitize(key))
	} else if st.tepoch > 0 && isTrackerKey(key) {
		n = fmt.Sprintf("W%d_%s", st.tepoch, sanitize(key))
	} else if st.epoch > 0 && isWorldKey(key) {
		n = fmt.Sprintf("W%d_%s", st.epoch, sanitize(key))
	}
	a := cst(n, sArr(sArr(srt)))
	st.mem[key] = a
	return a
}

func m0(key string) *Term { return cst("M0_"+sanitize(key), sArr(sArr(memSorts[key]))) }

// rootArr is the base array constant below stores
func fromM0(t *Term) bool { return strings.HasPrefix(baseName(t), "M0_") }

// baseName is the name of the memory array t is read from, if there are no stores in between.
func baseName(t *Term) string {
	if t.Op != "select" {
		return ""
	}
	a := t.Args[0]
	if a.Op == "select" {
		a = a.Args[0]
	}
	if a.Op != "#const" {
		return ""
	}
	return a.Name
}

func (st *State) note(t *Term, srt string) {
	var b *Term
	switch srt {
	case SRef:
		b = rblk(t)
	case SSl:
		b = lblk(t)
	default:
		return
	}
	if b.isInt() {
		return
	}
	if _, ok := st.freshT[b]; ok {
		return
	}
	if _, ok := st.times[b]; ok {
		return
	}
	if b.Op == "ite" {
		return
	}
	if fromM0(t) {
		st.times[b] = 0
		st.assume(le(b, cst("A0", SInt)))
		return
	}
	if n := baseName(t); strings.HasPrefix(n, "W") {
		if e, err := strconv.Atoi(strings.SplitN(n[1:], "_", 2)[0]); err == nil {
			if w, ok := worldBirth[e]; ok {
				st.times[b] = w.tick
				st.assume(le(b, w.alloc))
				return
			}
		}
	}
	st.times[b] = st.tick
	st.assume(le(b, st.alloc))
}

func (st *State) loadLeaf(key, srt string, ref *Term) *Term {
	curSt = st
	v := sel(sel(st.arr(key, srt), rblk(ref)), ridx(ref))
	st.note(v, srt)
	return v
}

func (st *State) load(p *PtrV) Val {
	if a, ok := under(p.elem).(*types.Array); ok {
		_ = a
		unsup("load of array value")
	}
	var lf = func(path string, t types.Type, srt string) *Term {
		v := st.loadLeaf(p.key+path, srt, p.ref)
		if k := intKind(t); k != "" {
			keyKinds[p.key+path] = k
		}
		if k := intKind(t); k != "" && v.Op == "select" {
			st.assume(inRangeT(k, v))
		}
		return v
	}
	v := mkVal(p.elem, lf)
	st.tokensOrdered(p.elem, v)
	return v
}

// tokensOrdered: the bounds of a Token are private and it is made by MakeToken only, so a token that
// existed before this call is in order (that MakeToken orders them is an obligation of its own).
func (st *State) tokensOrdered(t types.Type, v Val) {
	sv, ok := v.(*StructV)
	s, ok2 := under(t).(*types.Struct)
	if !ok || !ok2 {
		return
	}
	if qual(t) == "tok.Token" && len(sv.F) == 2 {
		a, b := flatten(sv)[0], flatten(sv)[1]
		if baseName(a) != "" && baseName(b) != "" && baseName(a)[0] != 'X' {
			st.assume(le(zero, a))
			st.assume(le(a, b))
		}
		return
	}
	for i := range sv.F {
		st.tokensOrdered(s.Field(i).Type(), sv.F[i])
	}
}

func (st *State) storeLeaf(key, srt string, ref, v *Term) {
	curSt = st
	a := st.arr(key, srt)
	b, i := rblk(ref), ridx(ref)
	st.mem[key] = sto(a, b, sto(sel(a, b), i, v))
	st.log = append(st.log, write{key, b, i})
}

func (st *State) store(p *PtrV, v Val) {
	ls := leaves(p.elem)
	fs := flatten(v)
	if len(ls) != len(fs) {
		unsup("store arity %s", p.key)
	}
	for i, l := range ls {
		keyTyp[p.key+l.path] = l.typ
		st.storeLeaf(p.key+l.path, l.sort, p.ref, fs[i])
	}
}

// newBlock allocates a fresh block; the caller initialises it.
func (st *State) newBlock() *Term {
	st.tick++
	b := add(st.alloc, one)
	st.freshT[b] = st.tick
	st.times[b] = st.tick
	st.alloc = b
	return b
}

func constArr(srt string, v *Term) *Term { return app("constArr", sArr(srt), v) }

func shiftArr(a, o, n *Term) *Term { return app("shiftArr", a.Sort, a, o, n) }

// allocObj allocates a zeroed block for elements of type t.
func (st *State) allocObj(t types.Type) *Term {
	b := st.newBlock()
	key := cellKey(t)
	for _, l := range leaves(t) {
		curSt = st
		keyTyp[key+l.path] = l.typ
		a := st.arr(key+l.path, l.sort)
		st.mem[key+l.path] = sto(a, b, constArr(l.sort, zeroScalar(l.sort)))
	}
	return b
}

func (st *State) havocAlloc() {
	na := fresh("A", SInt)
	st.assume(le(st.alloc, na))
	st.alloc = na
	st.tick++
}

// knownFields are the fields the contracts were written against. A field added later may be
// changed by every call and is not subject to frame conditions.
var knownFields = map[string]bool{}
var knownTypes = map[string]bool{}

func wildKey(key string) bool {
	p := strings.SplitN(key, ".", 4)
	if len(p) < 3 || strings.HasPrefix(key, "cell:") {
		return false
	}
	return knownTypes[p[0]+"."+p[1]] && !knownFields[p[0]+"."+p[1]+"."+p[2]]
}

func (st *State) wildHavoc() {
	worldCtr++
	st.wepoch = worldCtr
	for k := range st.mem {
		if wildKey(k) {
			delete(st.mem, k)
		}
	}
	st.log = append(st.log, write{"wild", nil, nil})
}

// havocKey forgets the contents of a memory key.
func (st *State) havocKey(key string) {
	srt, ok := memSorts[key]
	if !ok {
		return
	}
	st.arr(key, srt)
	st.mem[key] = fresh("M_"+key, sArr(sArr(srt)))
	st.log = append(st.log, write{key, nil, nil})
}

func (st *State) havocCell(key, srt string, ref *Term) *Term {
	v := fresh("h_"+key, srt)
	st.storeLeaf(key, srt, ref, v)
	return v
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// blkDisjoint consults the current path for block identities known to differ.
func blkDisjoint(a, b *Term) bool {
	if curSt == nil {
		return false
	}
	fa, oka := curSt.freshT[a]
	fb, okb := curSt.freshT[b]
	ta, oa := curSt.times[a]
	tb, ob := curSt.times[b]
	if a == zero {
		ta, oa = 0, true
	}
	if b == zero {
		tb, ob = 0, true
	}
	if oka && okb {
		return fa != fb
	}
	if oka && ob && tb < fa {
		return true
	}
	if okb && oa && ta < fb {
		return true
	}
	return false
}

// blkKnownLE: block b existed when the allocation counter was lim.
func blkKnownLE(b, lim *Term) bool {
	d := sub(b, lim)
	if d.isInt() {
		return d.Int.Sign() <= 0
	}
	if b == zero {
		return true
	}
	if curSt == nil {
		return false
	}
	if t, ok := curSt.times[b]; ok && t == 0 {
		return true
	}
	return curSt.pcs[le(b, lim)]
}
