package main

import "go/ast"

// The reference grammar of C24: RFC 8259 as functions from a position of a text to the position
// behind what is read there, or -1. Texts are given by bytes b and end e.

type jtext struct{ b, e *Term }

func (t jtext) set(c, p *Term) *Term { // one rune of the class
	return ite(t.at(c, p), t.next(p), minus1())
}
func (t jtext) at(c, p *Term) *Term { return and(lt(p, t.e), inCls(c, drT(t.b, p, t.e))) }
func (t jtext) next(p *Term) *Term  { return add(p, dwT(t.b, p, t.e)) }
func (t jtext) out(p, c *Term) *Term {
	return app("firstOut", SInt, t.b, p, t.e, c)
}
func (t jtext) lit(s string, p *Term) *Term {
	l, n := litStr(s), inum(int64(len(s)))
	return ite(and(le(add(p, n), t.e), eqB(t.b, p, sbase(l), soff(l), n)), add(p, n), minus1())
}

func bad(p *Term) *Term { return lt(p, zero) }

// then continues behind p, if anything was read
func then(p *Term, f func(p *Term) *Term) *Term { return ite(bad(p), minus1(), f(p)) }

func first(ps ...*Term) *Term {
	r := ps[len(ps)-1]
	for i := len(ps) - 2; i >= 0; i-- {
		r = ite(bad(ps[i]), r, ps[i])
	}
	return r
}

func ch(r rune) *Term { return cEq(inum(int64(r))) }

var (
	jDig, jNZ, jHexC, jWSC, jPlain, jStart *Term
)

func jinit() {
	r := func(a, b rune) *Term { return cBtw(inum(int64(a)), inum(int64(b))) }
	jDig, jNZ = r('0', '9'), r('1', '9')
	jStart = cOr(cAny(litStr("{[\"-tfn")), jDig)
	jHexC = cOr(r('0', '9'), cOr(r('a', 'f'), r('A', 'F')))
	jWSC = cAny(litStr(" \r\n\t"))
	jPlain = cHoley(inum(' '), inum(0x10ffff), litStr("\"\\"))
}

func (t jtext) ws(p *Term) *Term { return t.out(p, jWSC) }
func (t jtext) digits(p *Term) *Term {
	q := t.out(p, jDig)
	return ite(lt(p, q), q, minus1())
}
func (t jtext) integer(p *Term) *Term { return t.call("jint", p) }
func (t jtext) integerDef(p *Term) *Term {
	m := ite(t.at(ch('-'), p), t.next(p), p)
	return ite(t.at(ch('0'), m), t.next(m), ite(t.at(jNZ, m), t.out(t.next(m), jDig), minus1()))
}
func (t jtext) fraction(p *Term) *Term { return t.call("jfrac", p) }
func (t jtext) fractionDef(p *Term) *Term { // optional
	q := t.digits(t.next(p))
	return ite(and(t.at(ch('.'), p), not(bad(q))), q, p)
}
func (t jtext) sign(p *Term) *Term     { return ite(t.at(cAny(litStr("+-")), p), t.next(p), p) }
func (t jtext) exponent(p *Term) *Term { return t.call("jexp", p) }
func (t jtext) exponentDef(p *Term) *Term { // optional
	q := t.digits(t.sign(t.next(p)))
	return ite(and(t.at(cAny(litStr("eE")), p), not(bad(q))), q, p)
}
func (t jtext) number(p *Term) *Term { return t.call("jnum", p) }
func (t jtext) numberDef(p *Term) *Term {
	return then(t.integer(p), func(p *Term) *Term { return t.exponent(t.fraction(p)) })
}
func (t jtext) hex(p *Term) *Term    { return t.set(jHexC, p) }
func (t jtext) escape(p *Term) *Term { return t.call("jesc", p) }
func (t jtext) escapeDef(p *Term) *Term { // behind the backslash
	u := then(t.set(ch('u'), p), t.hex)
	u = then(then(then(u, t.hex), t.hex), t.hex)
	return first(t.set(cAny(litStr("\"\\/bfnrt")), p), u)
}
func (t jtext) character(p *Term) *Term { return t.call("jchar", p) }
func (t jtext) characterDef(p *Term) *Term {
	return first(t.set(jPlain, p), then(t.set(ch('\\'), p), t.escape))
}
func (t jtext) characters(p *Term) *Term { return app("jchars", SInt, t.b, p, t.e) }
func (t jtext) str(p *Term) *Term        { return t.call("jstr", p) }
func (t jtext) strDef(p *Term) *Term {
	return then(t.set(ch('"'), p), func(p *Term) *Term { return t.set(ch('"'), t.characters(p)) })
}

func (t jtext) call(n string, p *Term) *Term { return app(n, SInt, t.b, p, t.e) }

// the recursive part: values, and what follows the first element or member of a list
func (t jtext) value(p *Term) *Term   { return app("jval", SInt, t.b, p, t.e, zero) }
func (t jtext) elemT(p *Term) *Term   { return app("jval", SInt, t.b, p, t.e, one) }
func (t jtext) memT(p *Term) *Term    { return app("jval", SInt, t.b, p, t.e, inum(2)) }
func (t jtext) element(p *Term) *Term { return t.call("jelem", p) }
func (t jtext) elementDef(p *Term) *Term {
	return then(t.value(t.ws(p)), t.ws)
}
func (t jtext) elements(p *Term) *Term    { return t.call("jelems", p) }
func (t jtext) elementsDef(p *Term) *Term { return then(t.element(p), t.elemT) }
func (t jtext) member(p *Term) *Term      { return t.call("jmem", p) }
func (t jtext) memberDef(p *Term) *Term {
	return then(t.str(t.ws(p)), func(p *Term) *Term { return then(t.set(ch(':'), t.ws(p)), t.element) })
}
func (t jtext) members(p *Term) *Term    { return t.call("jmems", p) }
func (t jtext) membersDef(p *Term) *Term { return then(t.member(p), t.memT) }
func (t jtext) array(p *Term) *Term      { return t.call("jarr", p) }
func (t jtext) arrayDef(p *Term) *Term {
	return then(t.set(ch('['), p), func(p *Term) *Term { return t.set(ch(']'), first(t.elements(p), t.ws(p))) })
}
func (t jtext) object(p *Term) *Term { return t.call("jobj", p) }
func (t jtext) objectDef(p *Term) *Term {
	return then(t.set(ch('{'), p), func(p *Term) *Term { return t.set(ch('}'), first(t.members(p), t.ws(p))) })
}

func init() {
	jinit()
	B, I := SBytes, SInt
	bounds := func(a []*Term, r *Term, min *Term) *Term { return and(le(min, r), le(r, a[2])) }
	hyp := func(a []*Term) *Term { return and(le(zero, a[1]), le(a[1], a[2])) }
	defRec(&recFn{name: "jchars", sorts: []string{B, I, I}, ret: I, hyp: hyp,
		def: func(a []*Term) *Term {
			t := jtext{a[0], a[2]}
			q := t.character(a[1])
			return ite(bad(q), a[1], t.characters(q))
		},
		lemma: func(a []*Term, r *Term) *Term { return bounds(a, r, a[1]) }})
	measures["jchars"] = func(a []*Term) *Term { return sub(a[2], a[1]) }
	defRec(&recFn{name: "jval", sorts: []string{B, I, I, I}, ret: I, hyp: hyp,
		def: func(a []*Term) *Term {
			t, p, k := jtext{a[0], a[2]}, a[1], a[3]
			more := func(item, tail func(p *Term) *Term) *Term {
				q := then(t.set(ch(','), p), item)
				return ite(bad(q), p, tail(q))
			}
			return ite(eq(k, zero),
				first(t.object(p), t.array(p), t.str(p), t.number(p), t.lit("true", p), t.lit("false", p), t.lit("null", p)),
				ite(eq(k, one), more(t.element, t.elemT), more(t.member, t.memT)))
		},
		lemma: func(a []*Term, r *Term) *Term {
			t := jtext{a[0], a[2]}
			return ite(eq(a[3], zero), or(eq(r, minus1()), and(bounds(a, r, add(a[1], one)), t.at(jStart, a[1]))), bounds(a, r, a[1]))
		}})
	measures["jval"] = measures["jchars"]

	// names for the parts: opaque where they are not unfolded. Optional parts read at least nothing, the
	// others at least one rune, which starts with one of the runes given.
	num := cOr(ch('-'), jDig)
	for _, m := range []struct {
		name  string
		def   func(t jtext, p *Term) *Term
		opt   bool
		start *Term
		ws    bool // behind white space
	}{
		{"jint", jtext.integerDef, false, num, false}, {"jfrac", jtext.fractionDef, true, nil, false}, {"jexp", jtext.exponentDef, true, nil, false},
		{"jnum", jtext.numberDef, false, num, false}, {"jesc", jtext.escapeDef, false, nil, false}, {"jchar", jtext.characterDef, false, nil, false},
		{"jstr", jtext.strDef, false, ch('"'), false}, {"jelem", jtext.elementDef, false, jStart, true}, {"jelems", jtext.elementsDef, false, jStart, true},
		{"jmem", jtext.memberDef, false, ch('"'), true}, {"jmems", jtext.membersDef, false, ch('"'), true},
		{"jarr", jtext.arrayDef, false, ch('['), false}, {"jobj", jtext.objectDef, false, ch('{'), false},
	} {
		m := m
		defRec(&recFn{name: m.name, sorts: []string{B, I, I}, ret: I, hyp: hyp, macro: true,
			def: func(a []*Term) *Term { return m.def(jtext{a[0], a[2]}, a[1]) },
			lemma: func(a []*Term, r *Term) *Term {
				if m.opt {
					return bounds(a, r, a[1])
				}
				ok := bounds(a, r, add(a[1], one))
				if m.start != nil {
					t, p := jtext{a[0], a[2]}, a[1]
					if m.ws {
						p = t.ws(p)
					}
					ok = and(ok, t.at(m.start, p))
				}
				return or(eq(r, minus1()), ok)
			}})
	}

	for n, f := range map[string]func(t jtext, p *Term) *Term{
		"jws": jtext.ws, "jdigits": jtext.digits, "jint": jtext.integer, "jfrac": jtext.fraction, "jsign": jtext.sign, "jexp": jtext.exponent,
		"jnum": jtext.number, "jhex": jtext.hex, "jesc": jtext.escape, "jchar": jtext.character, "jchars": jtext.characters, "jstr": jtext.str,
		"jval": jtext.value, "jelemT": jtext.elemT, "jmemT": jtext.memT, "jelem": jtext.element, "jelems": jtext.elements,
		"jmem": jtext.member, "jmems": jtext.members, "jarr": jtext.array, "jobj": jtext.object,
		"jbool":  func(t jtext, p *Term) *Term { return first(t.lit("true", p), t.lit("false", p)) },
		"jnull":  func(t jtext, p *Term) *Term { return t.lit("null", p) },
		"jdigit": func(t jtext, p *Term) *Term { return t.set(jDig, p) },
		"jnz":    func(t jtext, p *Term) *Term { return t.set(jNZ, p) },
	} {
		f := f
		jsonFns[n] = func(c *specCtx, a []ast.Expr) TV {
			F, p := c.t(a[0]), c.t(a[1])
			r := f(jtext{sbase(F), send(F)}, add(soff(F), p))
			return iTV(ite(bad(r), minus1(), sub(r, soff(F))))
		}
	}
}

var jsonFns = map[string]specFn{}
