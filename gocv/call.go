package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) logf(f string, a ...interface{}) {
	if x.debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (st *State) havocKeyAs(key, srt string) {
	memSorts[key] = srt
	st.mem[key] = fresh("M_"+key, sArr(sArr(srt)))
	if key == "tok.Scanner.pos" {
		st.log = append(st.log, write{"allpos", nil, nil})
	}
	st.log = append(st.log, write{key, nil, nil})
}

func (x *Exec) call(st *State, in *ssa.Call, c *ssa.CallCommon, k cont) {
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		x.builtin(st, in, bi.Name(), c.Args, k)
		return
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	if c.IsInvoke() {
		x.invoke(st, x.term(st, c.Value), c.Value.Type(), c.Method, args, k)
		return
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		x.callFn(st, fn, args, nil, k)
		return
	}
	if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		var bind []Val
		for _, b := range mc.Bindings {
			bind = append(bind, x.val(st, b))
		}
		x.callFn(st, mc.Fn.(*ssa.Function), args, bind, k)
		return
	}
	x.callFun(st, x.term(st, c.Value), c.Value.Type(), args, k)
}

func (x *Exec) callFn(st *State, fn *ssa.Function, args, bind []Val, k cont) {
	if h, ok := libFns[strings.SplitN(fn.RelString(nil), "[", 2)[0]]; ok {
		h(x, st, args, k)
		return
	}
	if fn.Name() == "What" && fn.Signature.Recv() != nil && len(args) == 1 && x.isReaderT(fn.Signature.Recv().Type()) {
		if x.vis["C24"] || x.vis["C27"] {
			k(st, []Val{whatS(box(fn.Signature.Recv().Type(), args[0]))})
			return
		}
		if x.vis["C22"] && x.p.isModule(fn) && len(fn.Blocks) > 0 {
			x.inline(st, fn, args, bind, k)
			return
		}
		if x.vis["C21"] && (fn.Synthetic != "" || plainFn(x.p, fn, 4)) && x.p.isModule(fn) && len(fn.Blocks) > 0 {
			x.inline(st, fn, args, bind, k) // without loops: evaluated
			return
		}
		k(st, []Val{x.whatOf(st, fn, args[0])})
		return
	}
	if ct := x.ruleOf(st, fn, args); ct != nil {
		x.callees[ct.Name] = true
		if x.root.Rule != "" {
			_, p0 := x.rootText()
			p := args[1].(*PtrV)
			pos := st.load(&PtrV{tInt, p.key + ".pos", p.ref}).(*Term)
			x.oblige(st, "decreases", "rule "+ct.Rule+" is used by "+x.root.Rule+" behind what it read, or has a lower rank", or(lt(p0, pos), boolT(ct.Rank < x.root.Rank)))
		}
		sig := x.p.lookup(ct.Name).Signature
		x.applyContract(st, ct, sig, nil, args[1:], k)
		return
	}
	name := x.p.shortName(fn)
	if ct := x.cs.Fns[name]; ct != nil && fn.Parent() == nil && fn.Synthetic == "" && !x.noContract[name] && !isStraight(fn) && !ct.Inline && !x.inlineHere(ct) && !x.silentRead(fn, ct) {
		x.callees[name] = true
		x.applyContract(st, ct, fn.Signature, recvType(fn), args, k)
		return
	}
	if x.p.isModule(fn) && len(fn.Blocks) > 0 {
		if fn.Synthetic == "" {
			x.inlined[name] = true
		}
		x.inline(st, fn, args, bind, k)
		return
	}
	unsup("call of %s", fn)
}

// ruleOf: the contract of reading with a rule of a grammar, given by the address of the rule.
// The rule whose contract is being verified is entered once.
func (x *Exec) ruleOf(st *State, fn *ssa.Function, args []Val) *Contract {
	if fn.Name() != "Read" || len(args) != 2 || len(x.cs.Rules) == 0 || !(x.vis["C24"] || x.vis["C27"]) {
		return nil
	}
	p, ok := args[0].(*PtrV)
	if !ok || qual(p.elem) != "tok.Rule" {
		return nil
	}
	ct := x.cs.Rules[p.key]
	if ct == nil || x.noContract[ct.Name] || x.p.lookup(ct.Name) == nil {
		return nil
	}
	if ct == x.root {
		for _, f := range st.frames {
			if f.fn == fn {
				if q, ok := f.regs[fn.Params[0]].(*PtrV); ok && q.key == p.key {
					return ct
				}
			}
		}
		return nil
	}
	return ct
}

func (x *Exec) inlineHere(ct *Contract) bool {
	for _, p := range ct.InlineFor {
		if x.vis[p] {
			return true
		}
	}
	return false
}

// silentRead: a Read method whose own contract says nothing for this property is inlined instead.
func (x *Exec) silentRead(fn *ssa.Function, ct *Contract) bool {
	if fn.Name() != "Read" || fn.Signature.Recv() == nil || !x.isReaderT(fn.Signature.Recv().Type()) {
		return false
	}
	for _, cl := range ct.Ensures {
		if len(cl.Tags) > 0 && x.visible(cl.Tags) && !x.ifaceClause(cl) {
			return false
		}
	}
	return true
}

// ifaceClause: the clause is inherited from the Reader interface.
func (x *Exec) ifaceClause(cl *Clause) bool {
	if ic := x.cs.Fns["Reader.Read"]; ic != nil {
		for _, c := range ic.Ensures {
			if c == cl || c.Src == cl.Src {
				return true
			}
		}
	}
	return false
}

// isStraight: a single block that only computes; such functions are cheaper and more precise inlined.
func isStraight(fn *ssa.Function) bool {
	if len(fn.Blocks) != 1 {
		return false
	}
	for _, in := range fn.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.Call:
			if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				return false
			}
		case *ssa.Store, *ssa.MakeClosure, *ssa.Defer, *ssa.Go, *ssa.Alloc:
			return false
		}
	}
	return true
}

// plainFn: neither the function nor what it calls in the module has a loop.
func plainFn(p *Program, fn *ssa.Function, depth int) bool {
	if depth == 0 || len(loopsOf(fn)) > 0 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			g, ok := c.Call.Value.(*ssa.Function)
			if !ok || c.Call.IsInvoke() {
				continue
			}
			if p.isModule(g) && !plainFn(p, g, depth-1) {
				return false
			}
		}
	}
	return true
}

func recvType(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return r.Type()
	}
	return nil
}

func (x *Exec) isReaderT(t types.Type) bool {
	tp := x.p.tpkgs[x.p.mod]
	if tp == nil {
		return false
	}
	o := tp.Scope().Lookup("Reader")
	if o == nil {
		return false
	}
	it, ok := under(o.Type()).(*types.Interface)
	return ok && types.Implements(t, it)
}

// whatOf is the description of a reader: an uninterpreted function of the reader,
// evaluated where the What method is a plain field or constant.
func (x *Exec) whatOf(st *State, fn *ssa.Function, recv Val) Val {
	if len(fn.Blocks) == 1 {
		if v, ok := x.straight(st, fn, []Val{recv}); ok {
			return v
		}
	}
	return whatS(box(fn.Signature.Recv().Type(), recv))
}

// straight evaluates a single-block function without calls.
func (x *Exec) straight(st *State, fn *ssa.Function, args []Val) (v Val, ok bool) {
	for _, in := range fn.Blocks[0].Instrs {
		switch in.(type) {
		case *ssa.Call, *ssa.Store, *ssa.MakeClosure, *ssa.Defer, *ssa.Go, *ssa.BinOp:
			return nil, false
		}
	}
	t := st.clone()
	x.uid++
	t.frames = append(t.frames, &frame{fn: fn, uid: x.uid, regs: map[ssa.Value]Val{}})
	for i, p := range fn.Params {
		t.fr().regs[p] = args[i]
	}
	for _, in := range fn.Blocks[0].Instrs {
		if r, isR := in.(*ssa.Return); isR {
			if len(r.Results) != 1 {
				return nil, false
			}
			return x.val(t, r.Results[0]), true
		}
		if !x.simple(t, in) {
			return nil, false
		}
	}
	return nil, false
}

func namedOf(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (x *Exec) invoke(st *State, recv *Term, it types.Type, m *types.Func, args []Val, k cont) {
	if recv.Op == "ite" {
		c := recv.Args[0]
		s2 := st.clone()
		st.assume(c)
		if x.feasible(st) {
			x.invoke(st, recv.Args[1], it, m, args, k)
		}
		s2.assume(not(c))
		if x.feasible(s2) {
			x.invoke(s2, recv.Args[2], it, m, args, k)
		}
		return
	}
	if qual(it) == "reflect.Type" {
		x.reflType(st, recv, m.Name(), m.Type().(*types.Signature), args, k)
		return
	}
	if n := ifaceOfMethod(m); n == "Reader" || n == "Grammar" {
		// assumption: readers and grammars handed to the package are not nil
		x.used["readers and grammars are not nil"] = true
		st.assume(ne(recv, nilIface))
	} else {
		x.oblige(st, "panic", "nil-interface-call "+m.Name(), ne(recv, nilIface))
	}
	if st.dead {
		return
	}
	if isBox(recv.Op) {
		t := boxType[recv.Op]
		fn := x.p.prog.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil {
			unsup("method %s of %s", m.Name(), t)
		}
		x.callFn(st, fn, append([]Val{unbox(recv, t)}, args...), nil, k)
		return
	}
	if x.root != nil && m.Name() == "Read" {
		for _, n := range x.root.Dispatch {
			if t := x.moduleType(n); t != nil && x.valid(st.pc, hasType(recv, t), 2000) {
				fn := x.p.prog.LookupMethod(t, m.Pkg(), m.Name())
				if fn != nil {
					x.callFn(st, fn, append([]Val{unbox(recv, t)}, args...), nil, k)
					return
				}
			}
		}
	}
	switch m.Name() {
	case "What":
		k(st, []Val{whatS(recv)})
		return
	case "Error":
		k(st, []Val{app("errStr", SStr, recv)})
		return
	}
	// interface contract: the interface's own name or the one the method was declared in
	for _, n := range []string{namedOf(it), ifaceOfMethod(m)} {
		if ct := x.cs.Fns[n+"."+m.Name()]; ct != nil && ct.Iface {
			x.used["interface "+n+"."+m.Name()] = true
			x.applyContract(st, ct, m.Type().(*types.Signature), it, append([]Val{recv}, args...), k)
			return
		}
	}
	unsup("dynamic call %s.%s", qual(it), m.Name())
}

func ifaceOfMethod(m *types.Func) string {
	r := m.Type().(*types.Signature).Recv()
	if r == nil {
		return ""
	}
	return namedOf(r.Type())
}

func (x *Exec) callFun(st *State, f *Term, ft types.Type, args []Val, k cont) {
	if f.Op == "ite" {
		c := f.Args[0]
		s2 := st.clone()
		st.assume(c)
		if x.feasible(st) {
			x.callFun(st, f.Args[1], ft, args, k)
		}
		s2.assume(not(c))
		if x.feasible(s2) {
			x.callFun(s2, f.Args[2], ft, args, k)
		}
		return
	}
	if fi, ok := funTab[f]; ok {
		x.callFn(st, fi.fn, args, fi.bind, k)
		return
	}
	if f == nilFun {
		x.oblige(st, "panic", "nil-function-call", tFalse)
		return
	}
	sig := under(ft).(*types.Signature)
	ss := types.TypeString(sig, func(p *types.Package) string { return p.Name() })
	x.used["function value "+ss] = true
	switch {
	case sig.Params().Len() == 1 && intKind(sig.Params().At(0).Type()) == "s32" && sig.Results().Len() == 1 && scalarSort(sig.Results().At(0).Type()) == SBool:
		k(st, []Val{app("mfn", SBool, f, args[0].(*Term))})
		return
	case sig.Params().Len() == 0 && sig.Results().Len() == 1 && scalarSort(sig.Results().At(0).Type()) == SBool:
		x.opaqueScope(st, f, k)
		return
	case sig.Params().Len() == 1 && strings.HasSuffix(qual(sig.Params().At(0).Type()), "tok.Scanner") && sig.Results().Len() == 1:
		if ct := x.cs.Fns["ReadFunc.call"]; ct != nil {
			x.applyContract(st, ct, sig, ft, append([]Val{f}, args...), k)
			return
		}
	case sig.Params().Len() == 1 && qual(sig.Params().At(0).Type()) == "tok.Token" && sig.Results().Len() == 0:
		st.ghost["mapN"] = add(st.ghostVal("mapN"), one)
		tk := flatten(args[0])
		st.ghost["mapFrom"], st.ghost["mapTo"] = tk[0], tk[1]
		st.ghost["mapF"] = f
		if ct := x.cs.Fns["MapFunc.call"]; ct != nil {
			x.applyContract(st, ct, sig, ft, append([]Val{f}, args...), k)
			return
		}
	}
	unsup("call of an unknown function of type %s", ss)
}

// opaqueScope: a user function without arguments may move any scanner (within its text) and change the world.
func (x *Exec) opaqueScope(st *State, f *Term, k cont) {
	pre := st.clone()
	st.havocKeyAs("tok.Scanner.pos", SInt)
	st.wildHavoc()
	st.worldHavoc()
	st.ghost["lastUpd"] = fresh("lastUpd", SInt)
	st.havocAlloc()
	for _, a := range x.rootArgs {
		if p, ok := a.(*PtrV); ok && qual(p.elem) == "tok.Scanner" {
			c := &specCtx{x: x, cur: st, old: pre, env: map[string]TV{"s": {p, types.NewPointer(p.elem)}}}
			for _, cl := range x.cs.Fns["ScopeFunc.call"].Assumes {
				if x.visible(cl.Tags) {
					st.assume(c.t(cl.E))
				}
			}
		}
	}
	res := fresh("scopeRes", SBool)
	st.ghost["fcalls"] = add(st.ghostVal("fcalls"), one)
	st.ghost["fres"] = res
	st.ghost["ffalse"] = add(st.ghostVal("ffalse"), ite(res, zero, one))
	for _, a := range x.rootArgs {
		if p, ok := a.(*PtrV); ok && qual(p.elem) == "tok.Scanner" {
			st.ghost["fpos"] = st.load(&PtrV{tInt, p.key + ".pos", p.ref}).(*Term)
		}
	}
	st.snapCall()
	k(st, []Val{res})
}

func (st *State) snapCall() {
	c := st.clone()
	c.snap = map[string]*State{}
	st.snap["call"] = c
}

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(st *State, ct *Contract, sig *types.Signature, recvT types.Type, args []Val, k cont) {
	pre := st.clone()
	if ct.Iface && (ct.Name == "Reader.Read" || ct.Name == "ReadFunc.call") {
		c := st.clone()
		c.snap = map[string]*State{}
		st.snap["precall"] = c
	}
	for i, a := range args {
		if p, ok := a.(*PtrV); ok {
			_ = i
			if x.vis["C18"] && qual(p.elem) == "tok.Node" {
				x.notes["the node lists of a graph hold no nil pointers"] = true
				st.assume(ne(refOf(p), nilRef))
				continue
			}
			x.oblige(st, "panic", "nil pointer passed to "+ct.Name, ne(refOf(p), nilRef))
			if st.dead {
				return
			}
		}
	}
	c := x.mkCtxSig(ct, sig, recvT, args, st, pre, nil)
	for _, cl := range ct.Requires {
		if x.visible(cl.Tags) {
			x.oblige(st, "requires", ct.Name+": "+cl.Src, c.t(cl.E))
		}
	}
	for _, cl := range ct.panics {
		if x.visible(cl.Tags) {
			x.oblige(st, "panic", ct.Name+" may panic", not(c.t(cl.E)))
		}
	}
	world, tworld := false, false
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		v := freshVal("r_"+shortId(ct.Name), rt)
		ls := leaves(rt)
		for j, t := range flatten(v) {
			if kk := intKind(ls[j].typ); kk != "" {
				st.assume(inRangeT(kk, t))
			}
		}
		res = append(res, v)
	}
	// locations are evaluated in the pre-state
	pc := x.mkCtxSig(ct, sig, recvT, args, pre, pre, nil)
	type loc struct {
		key, srt string
		ref      *Term
	}
	var locs []loc
	mods := ct.Modifies
	if trustedHere(ct, x.vis) {
		x.used["trusted: "+ct.Name] = true
		mods = nil
	}
	for _, m := range mods {
		switch {
		case m == "world":
			world = true
		case m == "tworld":
			tworld = true
		case m == "allpos":
			st.havocKeyAs("tok.Scanner.pos", SInt)
		case strings.HasPrefix(m, "ghost "):
			g := strings.TrimSpace(m[6:])
			st.ghost[g] = fresh("gh_"+g, st.ghostVal(g).Sort)
		case strings.HasPrefix(m, "elems "):
			// all elements of a slice
			e, err := parseExpr(m[6:])
			if err != nil {
				serr("modifies %s", m)
			}
			v := pc.tv(e)
			et := under(v.T).(*types.Slice).Elem()
			for _, l := range leaves(et) {
				key := cellKey(et) + l.path
				a := st.arr(key, l.sort)
				curSt = st
				st.mem[key] = sto(a, lblk(v.term()), fresh("inner_"+key, sArr(l.sort)))
				st.log = append(st.log, write{key, nil, nil})
			}
		case strings.HasPrefix(m, "key "):
			p := strings.TrimSpace(m[4:])
			for kk := range memSorts {
				if strings.HasPrefix(kk, p) {
					st.havocKey(kk)
				}
			}
		default:
			e, err := parseExpr(m)
			if err != nil {
				serr("modifies %s", m)
			}
			p := pc.lval(e)
			for _, l := range leaves(p.elem) {
				locs = append(locs, loc{p.key + l.path, l.sort, p.ref})
			}
		}
	}
	st.wildHavoc()
	if world {
		st.worldHavoc()
	} else if tworld {
		st.trackerHavoc()
	}
	for _, l := range locs {
		if world && isWorldKey(l.key) || tworld && isTrackerKey(l.key) {
			continue
		}
		v := st.havocCell(l.key, l.srt, l.ref)
		if kk := cellIntKind(l.key); kk != "" {
			st.assume(inRangeT(kk, v))
		}
		st.note(v, l.srt)
	}
	st.havocAlloc()
	for _, v := range res {
		for _, t := range flatten(v) {
			st.note(t, t.Sort)
		}
	}
	c = x.mkCtxSig(ct, sig, recvT, args, st, pre, res)
	for _, cl := range ct.Assumes {
		if x.visible(cl.Tags) {
			st.assume(c.t(cl.E))
		}
	}
	for _, cl := range ct.Ensures {
		if x.visible(cl.Tags) && !usesSnap(cl.E) {
			st.assume(c.t(cl.E))
		}
	}
	if st.dead {
		return
	}
	if ct.Iface && (ct.Name == "Reader.Read" || ct.Name == "ReadFunc.call") {
		st.ghost["fcalls"] = add(st.ghostVal("fcalls"), one)
		st.ghost["ferr"] = res[0].(*Term)
		st.snapCall()
	}
	k(st, res)
}

// usesSnap: clauses about intermediate states are not visible to callers.
func usesSnap(e ast.Expr) bool {
	r := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "at" || id.Name == "reached") {
				r = true
			}
		}
		return true
	})
	return r
}

func shortId(n string) string {
	if i := strings.LastIndexAny(n, ".)"); i >= 0 {
		return n[i+1:]
	}
	return n
}

func (x *Exec) mkCtxSig(k *Contract, sig *types.Signature, recvT types.Type, args []Val, cur, old *State, res []Val) *specCtx {
	c := &specCtx{x: x, cur: cur, old: old, env: map[string]TV{}, lets: k.Lets}
	var pts []types.Type
	if recvT != nil {
		pts = append(pts, recvT)
	}
	for i := 0; i < sig.Params().Len(); i++ {
		pts = append(pts, sig.Params().At(i).Type())
	}
	if len(k.Params) != len(pts) || len(args) != len(pts) {
		serr("%s: %d parameters named, function has %d", k.Name, len(k.Params), len(pts))
	}
	for i, n := range k.Params {
		c.env[n] = TV{args[i], pts[i]}
	}
	x.bindResults(c, k, sig, res)
	return c
}

// ------------------------------------------------------------------ builtins

func (x *Exec) builtin(st *State, in *ssa.Call, name string, av []ssa.Value, k cont) {
	switch name {
	case "len":
		k(st, []Val{x.lenOf(st, av[0])})
		return
	case "cap":
		k(st, []Val{lcap(x.term(st, av[0]))})
		return
	case "append":
		x.doAppend(st, in, av, k)
		return
	case "copy":
		d, s := x.term(st, av[0]), x.term(st, av[1])
		if s.Sort != SSl {
			unsup("copy from string")
		}
		et := under(av[0].Type()).(*types.Slice).Elem()
		n := ite(le(llen(d), llen(s)), llen(d), llen(s))
		for _, l := range leaves(et) {
			key := cellKey(et) + l.path
			a := st.arr(key, l.sort)
			curSt = st
			di, si := sel(a, lblk(d)), sel(a, lblk(s))
			ni := app("spliceArr", di.Sort, di, loff(d), n, si, loff(s))
			st.mem[key] = sto(a, lblk(d), ni)
			st.log = append(st.log, write{key, nil, nil})
		}
		k(st, []Val{n})
		return
	case "min", "max":
		r := x.term(st, av[0])
		for _, a := range av[1:] {
			b := x.term(st, a)
			if name == "min" {
				r = ite(le(r, b), r, b)
			} else {
				r = ite(le(b, r), r, b)
			}
		}
		k(st, []Val{r})
		return
	case "print", "println":
		k(st, nil)
		return
	case "ssa:wrapnilchk":
		k(st, []Val{x.val(st, av[0])})
		return
	}
	unsup("builtin %s", name)
}

func (x *Exec) doAppend(st *State, in *ssa.Call, av []ssa.Value, k cont) {
	s := x.term(st, av[0])
	et := under(in.Type()).(*types.Slice).Elem()
	y := x.val(st, av[1])
	yt, ok := y.(*Term)
	if !ok {
		unsup("append argument")
	}
	if yt.Sort == SStr {
		unsup("append of a string to bytes")
	}
	n := llen(yt)
	if n == zero {
		k(st, []Val{s})
		return
	}
	curSt = st
	ls := leaves(et)
	key := cellKey(et)
	newLen := add(llen(s), n)
	src := map[string]*Term{}
	for _, l := range ls {
		src[l.path] = sel(st.arr(key+l.path, l.sort), lblk(yt))
	}
	put := func(q *State, arr *Term, at *Term, path string) *Term {
		curSt = q
		if n.isInt() && n.Int.Int64() <= 16 {
			for i := int64(0); i < n.Int.Int64(); i++ {
				arr = sto(arr, add(at, inum(i)), sel(src[path], add(loff(yt), inum(i))))
			}
			return arr
		}
		return app("spliceArr", arr.Sort, arr, at, n, src[path], loff(yt))
	}
	fits := le(newLen, lcap(s))
	grow := st.clone()
	st.assume(fits)
	if x.feasible(st) {
		at := add(loff(s), llen(s))
		for _, l := range ls {
			curSt = st
			a := st.arr(key+l.path, l.sort)
			st.mem[key+l.path] = sto(a, lblk(s), put(st, sel(a, lblk(s)), at, l.path))
			for i := int64(0); n.isInt() && i < n.Int.Int64(); i++ {
				st.log = append(st.log, write{key + l.path, lblk(s), add(at, inum(i))})
			}
			if !n.isInt() {
				st.log = append(st.log, write{key + l.path, nil, nil})
			}
		}
		k(st, []Val{mkSl(lblk(s), loff(s), newLen, lcap(s))})
	}
	grow.assume(not(fits))
	if x.feasible(grow) {
		st := grow
		b := st.newBlock()
		for _, l := range ls {
			curSt = st
			a := st.arr(key+l.path, l.sort)
			inner := shiftArr(sel(a, lblk(s)), loff(s), llen(s))
			st.mem[key+l.path] = sto(a, b, put(st, inner, llen(s), l.path))
			st.log = append(st.log, write{key + l.path, b, zero})
		}
		c := fresh("cap", SInt)
		if newLen.isInt() && ((x.vis["C24"] || x.vis["C27"]) || x.vis["C25"] || x.vis["C26"]) {
			// a list built in a constructor: its spare capacity is not observable (C09 proves the constructors for any)
			c = newLen
		}
		st.assume(and(le(newLen, c), le(c, maxLen)))
		k(st, []Val{mkSl(b, zero, newLen, c)})
	}
}

// moduleType is the type of the package under verification with this name, or nil.
func (x *Exec) moduleType(n string) types.Type {
	ptr := strings.HasPrefix(n, "*")
	for _, pk := range x.p.pkgs {
		if o, ok := pk.Pkg.Scope().Lookup(strings.TrimPrefix(n, "*")).(*types.TypeName); ok {
			if ptr {
				return types.NewPointer(o.Type())
			}
			return o.Type()
		}
	}
	return nil
}
