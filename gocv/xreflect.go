package main

import (
	"go/ast"
	"go/types"
)

// Contracts assumed of package reflect, as far as a pointer g to a struct is inspected:
//
//	T = relem(rtype(g)) is the type of the struct, rnum(T) the number of its fields,
//	rfType(T,i), rfTag(T,i) type and tag of field i, ruleAt(g,i) the address of field i if that is a Rule.
//
// Different fields have different addresses. Rules are exported fields; others need not be.

type reflV struct {
	lvl string // val (the value v), struct (what v points to), field (field i of it), addr (its address), name (its Name)
	v   *Term
	i   *Term
}

func rtypeT(v *Term) *Term {
	if isBox(v.Op) {
		return cst("rtype_"+qual(boxType[v.Op]), SIface)
	}
	return app("rtype", SIface, v)
}
func structT(v *Term) *Term     { return app("relem", SIface, rtypeT(v)) }
func ruleTypeT() *Term          { return cst("rtype_tok.Rule", SIface) }
func isRuleF(T, i *Term) *Term  { return eq(app("rfType", SIface, T, i), ruleTypeT()) }
func tagNameT(T, i *Term) *Term { return app("tagGet", SStr, app("rfTag", SStr, T, i), litStr("name")) }
func rnumT(st *State, T *Term) *Term {
	n := app("rnum", SInt, T)
	st.assume(and(le(zero, n), le(n, inum(1<<30))))
	return n
}

func exportedF(st *State, T, i *Term) *Term {
	e := app("rfExp", SBool, T, i)
	st.assume(implies(isRuleF(T, i), e))
	return e
}

// namedF: field i is a rule with a name tag.
func namedF(T, i *Term) *Term {
	return and(isRuleF(T, i), ne(slen(tagNameT(T, i)), zero))
}

func ruleAtT(st *State, g, i *Term) *Term {
	r := app("ruleAt", SRef, g, i)
	st.times[rblk(r)] = 0
	st.assume(and(eq(app("ruleIdx", SInt, r), i), lt(zero, rblk(r)), le(rblk(r), cst("A0", SInt))))
	return r
}

func (x *Exec) ruleType() types.Type {
	tp := x.p.tpkgs[x.p.mod]
	if o := tp.Scope().Lookup("Rule"); o != nil {
		return o.Type()
	}
	unsup("no type Rule")
	return nil
}

// reflType: a method of a reflect.Type.
func (x *Exec) reflType(st *State, T *Term, m string, sig *types.Signature, args []Val, k cont) {
	switch m {
	case "Elem":
		k(st, []Val{app("relem", SIface, T)})
	case "NumField":
		k(st, []Val{rnumT(st, T)})
	case "Field":
		i := args[0].(*Term)
		x.oblige(st, "panic", "field-index", and(le(zero, i), lt(i, rnumT(st, T))))
		t := sig.Results().At(0).Type()
		s := freshVal("field", t).(*StructV)
		for j := 0; j < s.T.NumFields(); j++ {
			switch s.T.Field(j).Name() {
			case "Type":
				s.F[j] = app("rfType", SIface, T, i)
			case "Tag":
				s.F[j] = app("rfTag", SStr, T, i)
			case "PkgPath": // empty iff exported
				st.assume(eq(exportedF(st, T, i), eq(slen(s.F[j].(*Term)), zero)))
			}
		}
		k(st, []Val{s})
	default:
		unsup("reflect.Type.%s", m)
	}
}

func init() {
	rv := func(v Val) *reflV {
		r, ok := v.(*reflV)
		if !ok {
			unsup("reflect.Value of unknown origin")
		}
		return r
	}
	want := func(r *reflV, lvl string) {
		if r.lvl != lvl {
			unsup("reflect.Value: %s expected, not %s", lvl, r.lvl)
		}
	}
	rule := func(x *Exec, st *State, r *reflV) *PtrV {
		return &PtrV{x.ruleType(), "tok.Rule", ruleAtT(st, r.v, r.i)}
	}
	setName := func(x *Exec, st *State, r *reflV, s *Term) {
		want(r, "name")
		x.oblige(st, "panic", "unexported-field", exportedF(st, structT(r.v), r.i))
		p := rule(x, st, r)
		st.store(&PtrV{types.Typ[types.String], p.key + ".Name", p.ref}, s)
	}
	can := func(st *State, r *reflV, k cont) {
		if r.lvl == "field" || r.lvl == "name" {
			k(st, []Val{exportedF(st, structT(r.v), r.i)})
			return
		}
		k(st, []Val{boolT(r.lvl == "struct")})
	}
	fns := map[string]libFn{
		"reflect.TypeOf":  func(x *Exec, st *State, a []Val, k cont) { k(st, []Val{rtypeT(a[0].(*Term))}) },
		"reflect.ValueOf": func(x *Exec, st *State, a []Val, k cont) { k(st, []Val{&reflV{lvl: "val", v: a[0].(*Term)}}) },
		"reflect.Indirect": func(x *Exec, st *State, a []Val, k cont) {
			r := rv(a[0])
			want(r, "val")
			k(st, []Val{&reflV{lvl: "struct", v: r.v}})
		},
		"(reflect.Value).Elem": func(x *Exec, st *State, a []Val, k cont) {
			r := rv(a[0])
			if r.lvl == "addr" {
				k(st, []Val{&reflV{lvl: "field", v: r.v, i: r.i}})
				return
			}
			want(r, "val")
			k(st, []Val{&reflV{lvl: "struct", v: r.v}})
		},
		"(reflect.Value).Type": func(x *Exec, st *State, a []Val, k cont) {
			r := rv(a[0])
			switch r.lvl {
			case "val":
				k(st, []Val{rtypeT(r.v)})
			case "struct":
				k(st, []Val{structT(r.v)})
			case "field":
				k(st, []Val{app("rfType", SIface, structT(r.v), r.i)})
			default:
				unsup("reflect.Value.Type of %s", r.lvl)
			}
		},
		"(reflect.Value).NumField": func(x *Exec, st *State, a []Val, k cont) {
			r := rv(a[0])
			want(r, "struct")
			k(st, []Val{rnumT(st, structT(r.v))})
		},
		"(reflect.Value).Field": func(x *Exec, st *State, a []Val, k cont) {
			r, i := rv(a[0]), a[1].(*Term)
			if r.lvl == "field" { // of a rule: by its position there
				rt := under(x.ruleType()).(*types.Struct)
				x.oblige(st, "panic", "field-of-rule", isRuleF(structT(r.v), r.i))
				if i.isInt() && i.Int.Int64() < int64(rt.NumFields()) && rt.Field(int(i.Int.Int64())).Name() == "Name" {
					k(st, []Val{&reflV{lvl: "name", v: r.v, i: r.i}})
					return
				}
			}
			want(r, "struct")
			x.oblige(st, "panic", "field-index", and(le(zero, i), lt(i, rnumT(st, structT(r.v)))))
			k(st, []Val{&reflV{lvl: "field", v: r.v, i: i}})
		},
		"(reflect.Value).FieldByName": func(x *Exec, st *State, a []Val, k cont) {
			r := rv(a[0])
			want(r, "field")
			n, ok := litOf(a[1].(*Term))
			if !ok || n != "Name" {
				unsup("reflect.Value.FieldByName")
			}
			x.oblige(st, "panic", "field-of-rule", isRuleF(structT(r.v), r.i))
			k(st, []Val{&reflV{lvl: "name", v: r.v, i: r.i}})
		},
		"(reflect.Value).Set": func(x *Exec, st *State, a []Val, k cont) {
			v := rv(a[1])
			want(v, "val")
			if !isBox(v.v.Op) || qual(boxType[v.v.Op]) != "string" {
				unsup("reflect.Value.Set of something else than a string")
			}
			setName(x, st, rv(a[0]), unbox(v.v, boxType[v.v.Op]).(*Term))
			k(st, nil)
		},
		"(reflect.Value).SetString": func(x *Exec, st *State, a []Val, k cont) {
			setName(x, st, rv(a[0]), a[1].(*Term))
			k(st, nil)
		},
		"(reflect.Value).CanSet": func(x *Exec, st *State, a []Val, k cont) {
			can(st, rv(a[0]), k)
		},
		"(reflect.Value).CanAddr": func(x *Exec, st *State, a []Val, k cont) {
			can(st, rv(a[0]), k)
		},
		"(reflect.Value).CanInterface": func(x *Exec, st *State, a []Val, k cont) {
			r := rv(a[0])
			if r.lvl == "val" || r.lvl == "struct" {
				k(st, []Val{tTrue})
				return
			}
			k(st, []Val{exportedF(st, structT(r.v), r.i)})
		},
		"(reflect.Value).String": func(x *Exec, st *State, a []Val, k cont) {
			r := rv(a[0])
			want(r, "name")
			p := rule(x, st, r)
			k(st, []Val{st.load(&PtrV{types.Typ[types.String], p.key + ".Name", p.ref})})
		},
		"(reflect.Value).Addr": func(x *Exec, st *State, a []Val, k cont) {
			r := rv(a[0])
			want(r, "field")
			k(st, []Val{&reflV{lvl: "addr", v: r.v, i: r.i}})
		},
		"(reflect.Value).Interface": func(x *Exec, st *State, a []Val, k cont) {
			r := rv(a[0])
			want(r, "addr")
			x.oblige(st, "panic", "unexported-field", exportedF(st, structT(r.v), r.i))
			c := isRuleF(structT(r.v), r.i)
			s2 := st.clone()
			st.assume(c)
			if x.feasible(st) {
				p := rule(x, st, r)
				k(st, []Val{box(types.NewPointer(p.elem), p)})
			}
			s2.assume(not(c))
			if x.feasible(s2) {
				o := app("fieldAddr", SIface, r.v, r.i)
				s2.assume(not(hasType(o, types.NewPointer(x.ruleType()))))
				k(s2, []Val{o})
			}
		},
		"(reflect.StructField).IsExported": func(x *Exec, st *State, a []Val, k cont) {
			s := a[0].(*StructV)
			for j := 0; j < s.T.NumFields(); j++ {
				if s.T.Field(j).Name() == "PkgPath" {
					k(st, []Val{eq(slen(s.F[j].(*Term)), zero)})
					return
				}
			}
			unsup("reflect.StructField")
		},
		"(reflect.StructTag).Get": func(x *Exec, st *State, a []Val, k cont) {
			k(st, []Val{app("tagGet", SStr, a[0].(*Term), a[1].(*Term))})
		},
		"(reflect.StructTag).Lookup": func(x *Exec, st *State, a []Val, k cont) {
			v := app("tagGet", SStr, a[0].(*Term), a[1].(*Term))
			ok := app("tagHas", SBool, a[0].(*Term), a[1].(*Term))
			st.assume(implies(not(ok), eq(slen(v), zero)))
			k(st, []Val{v, ok})
		},
	}
	for n, f := range fns {
		libFns[n] = f
	}
	specFns["nFields"] = func(c *specCtx, a []ast.Expr) TV { return iTV(rnumT(c.cur, structT(c.t(a[0])))) }
	specFns["isRuleField"] = func(c *specCtx, a []ast.Expr) TV { return bTV(isRuleF(structT(c.t(a[0])), c.t(a[1]))) }
	specFns["namedField"] = func(c *specCtx, a []ast.Expr) TV { return bTV(namedF(structT(c.t(a[0])), c.t(a[1]))) }
	specFns["nameTag"] = func(c *specCtx, a []ast.Expr) TV {
		return TV{tagNameT(structT(c.t(a[0])), c.t(a[1])), types.Typ[types.String]}
	}
	specFns["ruleField"] = func(c *specCtx, a []ast.Expr) TV { // the address of a field that is a rule
		t := c.x.ruleType()
		return TV{&PtrV{t, "tok.Rule", ruleAtT(c.cur, c.t(a[0]), c.t(a[1]))}, types.NewPointer(t)}
	}
	specFns["anyRule"] = func(c *specCtx, a []ast.Expr) TV { // some rule that existed at entry
		t := c.x.ruleType()
		ref := cst("any_rule", SRef)
		for _, st := range []*State{c.cur, c.old} {
			if st != nil {
				st.times[rblk(ref)] = 0
				st.assume(and(lt(zero, rblk(ref)), le(rblk(ref), cst("A0", SInt))))
			}
		}
		return TV{&PtrV{t, "tok.Rule", ref}, types.NewPointer(t)}
	}
	specFns["namesFieldOf"] = func(c *specCtx, a []ast.Expr) TV { // (g, p): p is a rule field of g with a name tag
		g, p := c.t(a[0]), c.tv(a[1]).V.(*PtrV)
		i := app("ruleIdx", SInt, p.ref)
		return bTV(and(eq(p.ref, app("ruleAt", SRef, g, i)), le(zero, i), lt(i, rnumT(c.cur, structT(g))), namedF(structT(g), i)))
	}
	specFns["tagsOk"] = func(c *specCtx, a []ast.Expr) TV { // (g, i): the name tags of the rules from field i on are proper names
		T := structT(c.t(a[0]))
		return bTV(app("tagsOk", SBool, T, c.t(a[1]), rnumT(c.cur, T)))
	}
	specFns["ruleCnt"] = func(c *specCtx, a []ast.Expr) TV { // (g, k): the number of rules among the first k fields
		return iTV(app("ruleCnt", SInt, structT(c.t(a[0])), c.t(a[1])))
	}
	I := SInt
	defRec(&recFn{name: "tagsOk", sorts: []string{SIface, I, I}, ret: SBool,
		def: func(a []*Term) *Term {
			T, i, n := a[0], a[1], a[2]
			return or(le(n, i), and(implies(namedF(T, i), nameOk(tagNameT(T, i))), app("tagsOk", SBool, T, add(i, one), n)))
		}})
	defRec(&recFn{name: "ruleCnt", sorts: []string{SIface, I}, ret: I,
		def: func(a []*Term) *Term {
			T, k := a[0], a[1]
			j := sub(k, one)
			return ite(le(k, zero), zero, add(app("ruleCnt", I, T, j), ite(isRuleF(T, j), one, zero)))
		},
		hyp:   func(a []*Term) *Term { return le(zero, a[1]) },
		lemma: func(a []*Term, r *Term) *Term { return and(le(zero, r), le(r, a[1])) }})
	measures["tagsOk"] = func(a []*Term) *Term { return sub(a[2], a[1]) }
	measures["ruleCnt"] = func(a []*Term) *Term { return a[1] }
}
