package main

import (
	"go/ast"
	"go/types"
)

type specFn func(c *specCtx, a []ast.Expr) TV

var specFns map[string]specFn

var tStr = types.Typ[types.String]

// rel converts an absolute result (or -1) into a position relative to F.
func rel(F, r *Term) *Term {
	if soff(F) == zero {
		return r
	}
	return ite(eq(r, minus1()), minus1(), sub(r, soff(F)))
}

func innerArr(c *specCtx, sl *Term, key, srt string) *Term {
	curSt = c.cur
	return sel(c.cur.arr(key, srt), lblk(sl))
}

func readersArr(c *specCtx, sl *Term, T types.Type) *Term {
	return innerArr(c, sl, cellKey(under(T).(*types.Slice).Elem()), SIface)
}

func init() {
	specFns = map[string]specFn{
		"imp": func(c *specCtx, a []ast.Expr) TV { return bTV(implies(c.t(a[0]), c.t(a[1]))) },
		"iff": func(c *specCtx, a []ast.Expr) TV { return bTV(eq(c.t(a[0]), c.t(a[1]))) },
		"ite": func(c *specCtx, a []ast.Expr) TV {
			p, q := c.tv(a[1]), c.tv(a[2])
			return TV{ite(c.t(a[0]), p.term(), q.term()), p.T}
		},
		"old": func(c *specCtx, a []ast.Expr) TV {
			d := *c
			d.cur = c.old
			return d.tv(a[0])
		},
		"entry": func(c *specCtx, a []ast.Expr) TV { // the value when the loop was entered
			if c.ent == nil {
				serr("entry outside of an invariant")
			}
			return c.ent.tv(a[0])
		},
		"at": func(c *specCtx, a []ast.Expr) TV {
			s, ok := c.cur.snap[a[0].(*ast.Ident).Name]
			if !ok {
				serr("no snapshot %s on this path", a[0].(*ast.Ident).Name)
			}
			d := *c
			d.cur = s
			return d.tv(a[1])
		},
		"reached": func(c *specCtx, a []ast.Expr) TV {
			_, ok := c.cur.snap[a[0].(*ast.Ident).Name]
			return bTV(boolT(ok))
		},
		"len": func(c *specCtx, a []ast.Expr) TV {
			t := c.t(a[0])
			if t.Sort == SStr {
				return iTV(slen(t))
			}
			return iTV(llen(t))
		},
		"cap":    func(c *specCtx, a []ast.Expr) TV { return iTV(lcap(c.t(a[0]))) },
		"start":  func(c *specCtx, a []ast.Expr) TV { return iTV(soff(c.t(a[0]))) },
		"finish": func(c *specCtx, a []ast.Expr) TV { return iTV(send(c.t(a[0]))) },
		"same":   func(c *specCtx, a []ast.Expr) TV { return bTV(eq(c.t(a[0]), c.t(a[1]))) },
		"blk": func(c *specCtx, a []ast.Expr) TV {
			t := c.t(a[0])
			if t.Sort == SRef {
				return iTV(rblk(t))
			}
			return iTV(lblk(t))
		},
		"offs":  func(c *specCtx, a []ast.Expr) TV { return iTV(loff(c.t(a[0]))) },
		"A0":    func(c *specCtx, a []ast.Expr) TV { return iTV(cst("A0", SInt)) },
		"alloc": func(c *specCtx, a []ast.Expr) TV { return iTV(c.cur.alloc) },
		// arbitrary constant (universally quantified over the whole proof)
		"any": func(c *specCtx, a []ast.Expr) TV {
			t := cst("any_"+a[0].(*ast.Ident).Name, SInt)
			for _, y := range anyConsts {
				if y == t {
					return iTV(t)
				}
			}
			anyConsts = append(anyConsts, t)
			return iTV(t)
		},
		"wf": func(c *specCtx, a []ast.Expr) TV { // scanner position within its text
			v := c.tv(a[0])
			p := c.field(v, "pos").term()
			F := c.field(v, "full").term()
			return bTV(and(le(zero, p), le(p, slen(F))))
		},
		// classes
		"ceq":    func(c *specCtx, a []ast.Expr) TV { return TV{cEq(c.t(a[0])), nil} },
		"cbtw":   func(c *specCtx, a []ast.Expr) TV { return TV{cBtw(c.t(a[0]), c.t(a[1])), nil} },
		"cany":   func(c *specCtx, a []ast.Expr) TV { return TV{cAny(c.t(a[0])), nil} },
		"cfn":    func(c *specCtx, a []ast.Expr) TV { return TV{cFn(c.t(a[0])), nil} },
		"choley": func(c *specCtx, a []ast.Expr) TV { return TV{cHoley(c.t(a[0]), c.t(a[1]), c.t(a[2])), nil} },
		"cor":    func(c *specCtx, a []ast.Expr) TV { return TV{cOr(c.t(a[0]), c.t(a[1])), nil} },
		"cranges": func(c *specCtx, a []ast.Expr) TV {
			mn, mx := c.t(a[0]), c.t(a[1])
			return TV{cRanges(innerArr(c, mn, "cell:int32", SInt), loff(mn), innerArr(c, mx, "cell:int32", SInt), loff(mx), llen(mn)), nil}
		},
		"inC": func(c *specCtx, a []ast.Expr) TV { return bTV(inCls(c.t(a[0]), c.t(a[1]))) },
		// runes
		"runeAt": func(c *specCtx, a []ast.Expr) TV {
			r, _ := decodeAt(c.t(a[0]), c.t(a[1]))
			return iTV(r)
		},
		"widthAt": func(c *specCtx, a []ast.Expr) TV {
			_, w := decodeAt(c.t(a[0]), c.t(a[1]))
			return iTV(w)
		},
		"runeBefore": func(c *specCtx, a []ast.Expr) TV {
			F, p := c.t(a[0]), c.t(a[1])
			return iTV(rrT(sbase(F), soff(F), add(soff(F), p)))
		},
		"widthBefore": func(c *specCtx, a []ast.Expr) TV {
			F, p := c.t(a[0]), c.t(a[1])
			return iTV(rwT(sbase(F), soff(F), add(soff(F), p)))
		},
		"hasPre": func(c *specCtx, a []ast.Expr) TV {
			F, p, s := c.t(a[0]), c.t(a[1]), c.t(a[2])
			return bTV(hasPre(sbase(F), add(soff(F), p), send(F), s))
		},
		"hasPreFold": func(c *specCtx, a []ast.Expr) TV {
			F, p, s := c.t(a[0]), c.t(a[1]), c.t(a[2])
			return bTV(and(le(slen(s), sub(slen(F), p)), eqF(sbase(F), add(soff(F), p), sbase(s), soff(s), slen(s))))
		},
		"hasSuf": func(c *specCtx, a []ast.Expr) TV {
			F, p, s := c.t(a[0]), c.t(a[1]), c.t(a[2])
			return bTV(hasSuf(sbase(F), soff(F), add(soff(F), p), s))
		},
		"hasSufFold": func(c *specCtx, a []ast.Expr) TV {
			F, p, s := c.t(a[0]), c.t(a[1]), c.t(a[2])
			return bTV(and(le(slen(s), p), eqF(sbase(F), sub(add(soff(F), p), slen(s)), sbase(s), soff(s), slen(s))))
		},
		"eqText": func(c *specCtx, a []ast.Expr) TV { return bTV(strEq(c.t(a[0]), c.t(a[1]))) },
		"rOk":    func(c *specCtx, a []ast.Expr) TV { return bTV(rOk(c.iface(a[0]), c.t(a[1]), c.t(a[2]))) },
		"rEnd":   func(c *specCtx, a []ast.Expr) TV { return iTV(rEnd(c.iface(a[0]), c.t(a[1]), c.t(a[2]))) },
		"what":   func(c *specCtx, a []ast.Expr) TV { return TV{whatS(c.iface(a[0])), tStr} },
		"hasM":   func(c *specCtx, a []ast.Expr) TV { return bTV(hasM(c.t(a[0]))) },
		"isType": func(c *specCtx, a []ast.Expr) TV {
			return bTV(hasType(c.t(a[0]), c.x.typeNamed(c, a[1])))
		},
		"isReader": func(c *specCtx, a []ast.Expr) TV {
			return bTV(c.x.implementsT(c.t(a[0]), c.x.readerType()))
		},
		"unbox": func(c *specCtx, a []ast.Expr) TV {
			t := c.x.typeNamed(c, a[1])
			return TV{unbox(c.t(a[0]), t), t}
		},
		"ghost": func(c *specCtx, a []ast.Expr) TV {
			n := a[0].(*ast.Ident).Name
			return TV{c.cur.ghostVal(n), ghostTypes[n]}
		},
	}
	fwd3 := func(name string) specFn { // (F,p,cls)
		return func(c *specCtx, a []ast.Expr) TV {
			F, p, k := c.t(a[0]), c.t(a[1]), c.t(a[2])
			return iTV(rel(F, app(name, SInt, sbase(F), add(soff(F), p), send(F), k)))
		}
	}
	bwd3 := func(name string) specFn {
		return func(c *specCtx, a []ast.Expr) TV {
			F, p, k := c.t(a[0]), c.t(a[1]), c.t(a[2])
			return iTV(rel(F, app(name, SInt, sbase(F), soff(F), add(soff(F), p), k)))
		}
	}
	specFns["firstIn"] = fwd3("firstIn")
	specFns["firstOut"] = fwd3("firstOut")
	specFns["lastIn"] = bwd3("lastIn")
	specFns["lastOut"] = bwd3("lastOut")
	specFns["fwd"] = fwd3("fwdR")
	specFns["bwd"] = bwd3("bwdR")
	idx := func(name string, back bool) specFn {
		return func(c *specCtx, a []ast.Expr) TV {
			F, p, s := c.t(a[0]), c.t(a[1]), c.t(a[2])
			lo, hi := add(soff(F), p), send(F)
			if back {
				lo, hi = soff(F), add(soff(F), p)
			}
			return iTV(rel(F, app(name, SInt, sbase(F), lo, hi, sbase(s), soff(s), slen(s))))
		}
	}
	specFns["idx"] = idx("idxB", false)
	specFns["idxFold"] = idx("idxF", false)
	specFns["lastIdx"] = idx("lastB", true)
	specFns["lastIdxFold"] = idx("lastF", true)
	lens := func(name string, back bool) specFn { // (slice, i, F, p)
		return func(c *specCtx, a []ast.Expr) TV {
			sl, i, F, p := c.t(a[0]), c.t(a[1]), c.t(a[2]), c.t(a[3])
			arr := innerArr(c, sl, "cell:string", SStr)
			lo, hi := add(soff(F), p), send(F)
			if back {
				lo, hi = soff(F), add(soff(F), p)
			}
			return iTV(app(name, SInt, arr, loff(sl), i, llen(sl), sbase(F), lo, hi))
		}
	}
	specFns["preLen"] = lens("preLen", false)
	specFns["sufLen"] = lens("sufLen", true)
	specFns["inAny"] = func(c *specCtx, a []ast.Expr) TV { // inAny(str, from, rune): rune occurs in str at or after from
		s, p, r := c.t(a[0]), c.t(a[1]), c.t(a[2])
		if p == zero {
			return bTV(inCls(cAny(s), r))
		}
		return bTV(anyIn(sbase(s), add(soff(s), p), send(s), r))
	}
	specFns["inRangesFrom"] = func(c *specCtx, a []ast.Expr) TV { // (mins, maxs, i, rune)
		mn, mx := c.t(a[0]), c.t(a[1])
		return bTV(app("inRanges", SBool, innerArr(c, mn, "cell:int32", SInt), loff(mn), innerArr(c, mx, "cell:int32", SInt), loff(mx), c.t(a[2]), llen(mn), c.t(a[3])))
	}
	rs := func(name string) specFn { // (readers slice, i, F, p)
		return func(c *specCtx, a []ast.Expr) TV {
			v := c.tv(a[0])
			sl := v.term()
			return iTV(app(name, SInt, readersArr(c, sl, v.T), loff(sl), c.t(a[1]), llen(sl), c.t(a[2]), c.t(a[3])))
		}
	}
	specFns["seqR"] = rs("seqR")
	specFns["anyR"] = rs("anyR")
	specFns["skipR"] = func(c *specCtx, a []ast.Expr) TV { // (skip, readers, i, F, p)
		v := c.tv(a[1])
		sl := v.term()
		return iTV(app("skipR", SInt, c.t(a[0]), readersArr(c, sl, v.T), loff(sl), c.t(a[2]), llen(sl), c.t(a[3]), c.t(a[4])))
	}
	specFns["anyM"] = func(c *specCtx, a []ast.Expr) TV { // (strings, i)
		sl := c.t(a[0])
		return bTV(app("anyM", SBool, innerArr(c, sl, "cell:string", SStr), loff(sl), c.t(a[1]), llen(sl)))
	}
	specFns["nameOk"] = func(c *specCtx, a []ast.Expr) TV { return bTV(nameOk(c.t(a[0]))) }
	specFns["namesSet"] = func(c *specCtx, a []ast.Expr) TV { return bTV(app("namesSet", SBool, c.t(a[0]))) }
	specFns["gRules"] = func(c *specCtx, a []ast.Expr) TV { // the rules of a grammar
		return TV{app("gRules", SSl, c.t(a[0])), types.NewSlice(types.NewPointer(c.x.typeNamed(c, &ast.Ident{Name: "Rule"})))}
	}
	specFns["rulesOk"] = func(c *specCtx, a []ast.Expr) TV { // (rules, i)
		v := c.tv(a[0])
		sl := v.term()
		curSt = c.cur
		return bTV(app("rulesOk", SBool, innerArr(c, sl, cellKey(under(v.T).(*types.Slice).Elem()), SRef),
			c.cur.arr("tok.Rule.Name", SStr), c.cur.arr("tok.Rule.Reader", SIface), loff(sl), c.t(a[1]), llen(sl)))
	}
	specFns["rErr"] = func(c *specCtx, a []ast.Expr) TV {
		return TV{rErr(c.iface(a[0]), c.t(a[1]), c.t(a[2])), ghostTypes["ferr"]}
	}
	specFns["seqErr"] = func(c *specCtx, a []ast.Expr) TV { // (readers, i, F, p)
		v := c.tv(a[0])
		sl := v.term()
		return TV{app("seqErr", SIface, readersArr(c, sl, v.T), loff(sl), c.t(a[1]), llen(sl), c.t(a[2]), c.t(a[3])), ghostTypes["ferr"]}
	}
	specFns["skipErr"] = func(c *specCtx, a []ast.Expr) TV { // (skip, readers, i, F, p)
		v := c.tv(a[1])
		sl := v.term()
		return TV{app("skipErr", SIface, c.t(a[0]), readersArr(c, sl, v.T), loff(sl), c.t(a[2]), llen(sl), c.t(a[3]), c.t(a[4])), ghostTypes["ferr"]}
	}
	specFns["timesErr"] = func(c *specCtx, a []ast.Expr) TV {
		return TV{app("timesErr", SIface, c.iface(a[0]), c.t(a[1]), c.t(a[2]), c.t(a[3])), ghostTypes["ferr"]}
	}
	specFns["deepErr"] = func(c *specCtx, a []ast.Expr) TV { // (readers, i, F, p, marker, what)
		box(c.x.typeNamed(c, &ast.Ident{Name: "ReadError"}), unbox(nilIface, c.x.typeNamed(c, &ast.Ident{Name: "ReadError"})))
		v := c.tv(a[0])
		sl := v.term()
		return TV{app("deepErr", SIface, readersArr(c, sl, v.T), loff(sl), c.t(a[1]), llen(sl), c.t(a[2]), c.t(a[3]), c.t(a[4]), c.t(a[5])), ghostTypes["ferr"]}
	}
	r1 := func(name string) specFn { // (reader, F, p)
		return func(c *specCtx, a []ast.Expr) TV { return iTV(app(name, SInt, c.iface(a[0]), c.t(a[1]), c.t(a[2]))) }
	}
	specFns["zomR"] = r1("zomR")
	specFns["toR"] = r1("toR")
	specFns["pastR"] = r1("pastR")
	specFns["tailR"] = r1("tailR")
	specFns["timesR"] = func(c *specCtx, a []ast.Expr) TV {
		return iTV(app("timesR", SInt, c.iface(a[0]), c.t(a[1]), c.t(a[2]), c.t(a[3])))
	}
	// runes of a string (as []rune(s))
	specFns["runeCnt"] = func(c *specCtx, a []ast.Expr) TV {
		s := c.t(a[0])
		return iTV(app("runeCnt", SInt, sbase(s), soff(s), send(s)))
	}
	specFns["runeNo"] = func(c *specCtx, a []ast.Expr) TV {
		s := c.t(a[0])
		return iTV(sel(app("runeArr", sArr(SInt), sbase(s), soff(s), send(s)), c.t(a[1])))
	}
	specFns["sepsOk"] = func(c *specCtx, a []ast.Expr) TV { // (str, i): every third rune from i+1 on is '-'
		s := c.t(a[0])
		return bTV(app("sepsOk", SBool, app("runeArr", sArr(SInt), sbase(s), soff(s), send(s)), c.t(a[1]), app("runeCnt", SInt, sbase(s), soff(s), send(s))))
	}
	num := func(name string) specFn { // (F, p, base, neg, min, max, v)
		return func(c *specCtx, a []ast.Expr) TV {
			F := c.t(a[0])
			r := app(name, SInt, sbase(F), add(soff(F), c.t(a[1])), send(F), c.t(a[2]), c.t(a[3]), c.t(a[4]), c.t(a[5]), c.t(a[6]))
			if name == "numEnd" {
				return iTV(sub(r, soff(F)))
			}
			return iTV(r)
		}
	}
	specFns["numEnd"] = num("numEnd")
	specFns["numVal"] = num("numVal")
	specFns["dig"] = func(c *specCtx, a []ast.Expr) TV { return iTV(digT(c.t(a[0]), c.t(a[1]))) }
	specFns["pow2"] = func(c *specCtx, a []ast.Expr) TV {
		return iTV(pow2(c.t(a[0])))
	}
	specFns["cnt"] = func(c *specCtx, a []ast.Expr) TV { // (F, p, q, byte)
		F := c.t(a[0])
		return iTV(app("cntB", SInt, sbase(F), add(soff(F), c.t(a[1])), add(soff(F), c.t(a[2])), c.t(a[3])))
	}
	specFns["lineStart"] = func(c *specCtx, a []ast.Expr) TV { // (F, q)
		F := c.t(a[0])
		return iTV(sub(app("lineStart", SInt, sbase(F), soff(F), add(soff(F), c.t(a[1]))), soff(F)))
	}
	specFns["segBad"] = func(c *specCtx, a []ast.Expr) TV { // (segments, i, cur, hi)
		sl := c.t(a[0])
		fa, ta := innerArr(c, sl, "tok.Segment.Token.from", SInt), innerArr(c, sl, "tok.Segment.Token.to", SInt)
		return iTV(app("segBad", SInt, fa, ta, loff(sl), c.t(a[1]), llen(sl), c.t(a[2]), c.t(a[3])))
	}
	specFns["gapCnt"] = func(c *specCtx, a []ast.Expr) TV { // (segments, k, lo)
		sl := c.t(a[0])
		fa, ta := innerArr(c, sl, "tok.Segment.Token.from", SInt), innerArr(c, sl, "tok.Segment.Token.to", SInt)
		return iTV(app("gapCnt", SInt, fa, ta, loff(sl), c.t(a[1]), c.t(a[2])))
	}
	specFns["onlyAt"] = func(c *specCtx, a []ast.Expr) TV { // (strings, i, s, x)
		sl := c.t(a[0])
		return bTV(app("onlyAt", SBool, innerArr(c, sl, "cell:string", SStr), loff(sl), c.t(a[1]), llen(sl), c.t(a[2]), c.t(a[3])))
	}
	specFns["alike"] = func(c *specCtx, a []ast.Expr) TV { // two readers of the same type with the same fields
		p, q := c.iface(a[0]), c.iface(a[1])
		if !isBox(q.Op) {
			p, q = q, p
		}
		if !isBox(q.Op) {
			return bTV(eq(p, q))
		}
		t := boxType[q.Op]
		cs := []*Term{hasType(p, t)}
		u, w := unbox(p, t), unbox(q, t)
		if pu, ok := u.(*PtrV); ok {
			u, w = c.cur.load(pu), c.cur.load(w.(*PtrV))
		}
		fu, fw := flatten(u), flatten(w)
		for i := range fu {
			cs = append(cs, eq(fu[i], fw[i]))
		}
		return bTV(and(cs...))
	}
	nodeMem := func(c *specCtx, t ...*Term) []*Term {
		return append([]*Term{c.cur.arr("tok.Node.Segment.Info", SStr), c.cur.arr("tok.Node.Segment.Token.from", SInt), c.cur.arr("tok.Node.Segment.Token.to", SInt),
			c.cur.arr("tok.Node.Nodes", SSl), c.cur.arr("cell:*tok.Node", SRef)}, t...)
	}
	ref := func(c *specCtx, e ast.Expr) *Term { return c.tv(e).V.(*PtrV).ref }
	specFns["nodeEq"] = func(c *specCtx, a []ast.Expr) TV {
		return bTV(app("nodeEq", SBool, nodeMem(c, ref(c, a[0]), ref(c, a[1]))...))
	}
	specFns["nodesEq"] = func(c *specCtx, a []ast.Expr) TV {
		return bTV(app("nodesEq", SBool, nodeMem(c, c.t(a[0]), c.t(a[1]), c.t(a[2]))...))
	}
	specFns["leafCnt"] = func(c *specCtx, a []ast.Expr) TV { return iTV(app("leafCnt", SInt, nodeMem(c, ref(c, a[0]))...)) }
	specFns["leafsCnt"] = func(c *specCtx, a []ast.Expr) TV {
		return iTV(app("leafsCnt", SInt, nodeMem(c, c.t(a[0]), c.t(a[1]))...))
	}
	node := func(c *specCtx, t *Term) TV {
		T := c.x.typeNamed(c, &ast.Ident{Name: "Node"})
		return TV{&PtrV{T, "tok.Node", t}, types.NewPointer(T)}
	}
	specFns["leafNo"] = func(c *specCtx, a []ast.Expr) TV {
		return node(c, app("leafNo", SRef, nodeMem(c, ref(c, a[0]), c.t(a[1]))...))
	}
	specFns["leafsNo"] = func(c *specCtx, a []ast.Expr) TV {
		return node(c, app("leafsNo", SRef, nodeMem(c, c.t(a[0]), c.t(a[1]), c.t(a[2]))...))
	}
	specFns["treeOk"] = func(c *specCtx, a []ast.Expr) TV { return bTV(app("treeOk", SBool, nodeMem(c, ref(c, a[0]))...)) }
	specFns["treesOk"] = func(c *specCtx, a []ast.Expr) TV {
		return bTV(app("treesOk", SBool, nodeMem(c, c.t(a[0]), c.t(a[1]))...))
	}
	specFns["refIs"] = func(c *specCtx, a []ast.Expr) TV { // (pointer, $q)
		return bTV(eq(c.tv(a[0]).V.(*PtrV).ref, c.t(a[1])))
	}
	specFns["onceAt"] = func(c *specCtx, a []ast.Expr) TV { // (pointers, i, p, k): from i on none is nil, and p is at most at k
		v := c.tv(a[0])
		sl := v.term()
		p := c.tv(a[2]).V.(*PtrV)
		return bTV(app("onceAt", SBool, innerArr(c, sl, cellKey(under(v.T).(*types.Slice).Elem()), SRef), loff(sl), c.t(a[1]), llen(sl), p.ref, c.t(a[3])))
	}
	specFns["anyLog"] = func(c *specCtx, a []ast.Expr) TV { // some log that existed at entry
		t := c.x.typeNamed(c, &ast.Ident{Name: "Log"})
		ref := cst("any_log", SRef)
		for _, st := range []*State{c.cur, c.old} {
			if st != nil {
				st.times[rblk(ref)] = 0
				st.assume(and(lt(zero, rblk(ref)), le(rblk(ref), cst("A0", SInt))))
			}
		}
		return TV{&PtrV{t, "tok.Log", ref}, types.NewPointer(t)}
	}
	specFns["anyCell"] = func(c *specCtx, a []ast.Expr) TV { // some cell that holds a log entry
		t := c.x.typeNamed(c, &ast.Ident{Name: "LogEntry"})
		return TV{&PtrV{t, "tok.LogEntry", cst("any_cell", SRef)}, types.NewPointer(t)}
	}
	specFns["inUse"] = func(c *specCtx, a []ast.Expr) TV { // (cell, slice): allocated, and not in the free capacity of the slice
		p, sl := c.tv(a[0]).V.(*PtrV), c.t(a[1])
		return bTV(and(le(rblk(p.ref), c.cur.alloc), or(ne(rblk(p.ref), lblk(sl)), lt(ridx(p.ref), add(loff(sl), llen(sl))))))
	}
	specFns["cellIs"] = func(c *specCtx, a []ast.Expr) TV { // (cell, slice, i)
		p, sl := c.tv(a[0]).V.(*PtrV), c.t(a[1])
		return bTV(and(eq(rblk(p.ref), lblk(sl)), eq(ridx(p.ref), add(loff(sl), c.t(a[2])))))
	}
	specFns["isNew"] = func(c *specCtx, a []ast.Expr) TV { // the slice's memory was allocated since the call
		return bTV(lt(c.old.alloc, lblk(c.t(a[0]))))
	}
	specFns["sameMem"] = func(c *specCtx, a []ast.Expr) TV { // two slices begin at the same element
		x, y := c.t(a[0]), c.t(a[1])
		return bTV(and(eq(lblk(x), lblk(y)), eq(loff(x), loff(y)), eq(lcap(x), lcap(y))))
	}
	specFns["keepN"] = func(c *specCtx, a []ast.Expr) TV { // (segments, i, m)
		sl := c.t(a[0])
		arr := innerArr(c, sl, "tok.Segment.Token.to", SInt)
		return iTV(app("keepN", SInt, arr, loff(sl), c.t(a[1]), c.t(a[2])))
	}
}

func (c *specCtx) iface(e ast.Expr) *Term {
	v := c.tv(e)
	if t, ok := v.V.(*Term); ok && t.Sort == SIface {
		return t
	}
	return box(v.T, v.V)
}

func whatS(r *Term) *Term { return app("whatS", SStr, r) }

// hasM: the string contains the invalid-reader marker.
func hasM(s *Term) *Term { return app("hasM", SBool, s) }

func pow2(n *Term) *Term {
	r := inum(0)
	for _, k := range []int64{7, 8, 15, 16, 31, 32, 63, 64} {
		r = ite(eq(n, inum(k)), mul(inum(1<<uint(k/2)), inum(1<<uint(k-k/2))), r)
	}
	return r
}

func (x *Exec) typeNamed(c *specCtx, e ast.Expr) types.Type {
	switch e := e.(type) {
	case *ast.StarExpr:
		return types.NewPointer(x.typeNamed(c, e.X))
	case *ast.ParenExpr:
		return x.typeNamed(c, e.X)
	case *ast.Ident:
		switch e.Name {
		case "string":
			return tStr
		case "rune":
			return types.Universe.Lookup("rune").Type()
		}
		for _, p := range x.p.tpkgs {
			if o := p.Scope().Lookup(e.Name); o != nil {
				return o.Type()
			}
		}
		serr("unknown type %s", e.Name)
	case *ast.SelectorExpr:
		for _, p := range x.p.tpkgs {
			if p.Name() == e.X.(*ast.Ident).Name {
				if o := p.Scope().Lookup(e.Sel.Name); o != nil {
					return o.Type()
				}
			}
		}
	}
	serr("type expression %T", e)
	return nil
}

var ghostTypes = map[string]types.Type{"fres": types.Typ[types.Bool], "ferr": types.Universe.Lookup("error").Type()}
var ghostSorts = map[string]string{"fres": SBool, "mapF": SFunc, "ferr": SIface}

func (st *State) ghostVal(n string) *Term {
	if g, ok := st.ghost[n]; ok {
		return g
	}
	srt := SInt
	if s, ok := ghostSorts[n]; ok {
		srt = s
	}
	g := cst("g0_"+n, srt)
	st.ghost[n] = g
	return g
}
