package main

import "go/ast"

// The reference of C27: numerals, literal strings and comments of Lua 5.4, as functions from a position
// of a text to the position behind what is read there, or -1.

func (t jtext) many(c, p *Term) *Term { // at least one rune of the class
	q := t.out(p, c)
	return ite(lt(p, q), q, minus1())
}
func (t jtext) hexes(p *Term) *Term { return t.many(jHexC, p) }

// opt: what f reads, or nothing
func opt(p *Term, f func(p *Term) *Term) *Term { return first(f(p), p) }

func (t jtext) luaExp(letters string, p *Term) *Term {
	return then(t.set(cAny(litStr(letters)), p), func(p *Term) *Term { return t.digits(t.sign(p)) })
}
func (t jtext) luaNumber(p *Term, digits func(p *Term) *Term, letters string) *Term {
	return then(digits(p), func(p *Term) *Term {
		p = opt(p, func(p *Term) *Term { return then(t.set(ch('.'), p), digits) })
		return opt(p, func(p *Term) *Term { return t.luaExp(letters, p) })
	})
}
func (t jtext) luaHexDef(p *Term) *Term {
	return then(t.set(ch('0'), p), func(p *Term) *Term {
		return then(t.set(cAny(litStr("xX")), p), func(p *Term) *Term { return t.luaNumber(p, t.hexes, "pP") })
	})
}
func (t jtext) luaDecDef(p *Term) *Term { return t.luaNumber(p, t.digits, "eE") }
func (t jtext) luaNum(p *Term) *Term    { return first(t.call("lhex", p), t.call("ldec", p)) }

func (t jtext) luaEscDef(p *Term) *Term {
	behind := func(s string, f func(p *Term) *Term) *Term { return then(t.lit(s, p), f) }
	return first(
		then(t.set(ch('\\'), p), func(p *Term) *Term {
			return first(t.set(cAny(litStr("abfnrtvz\"'\\")), p), t.set(jDig, p))
		}),
		behind("\\x", func(p *Term) *Term { return then(t.hex(p), t.hex) }),
		behind("\\u{", func(p *Term) *Term { return then(t.hexes(p), func(p *Term) *Term { return t.lit("}", p) }) }))
}
func (t jtext) luaEsc(p *Term) *Term { return t.call("lesc", p) }

var luaQuotes = map[rune]string{'"': "\"\\", '\'': "'\\"}

func (t jtext) luaChars(r rune, p *Term) *Term {
	return app("lchars", SInt, t.b, p, t.e, inum(int64(r)))
}
func (t jtext) luaQuoted(r rune, p *Term) *Term {
	return then(t.set(ch(r), p), func(p *Term) *Term { return t.set(ch(r), t.luaChars(r, p)) })
}

// what follows the opening of a long bracket, up to the level: = ... = [
func (t jtext) luaEqs(p *Term) *Term { return t.call("leqs", p) }
func (t jtext) luaClose(p, o, n *Term) *Term {
	return app("lclose", SInt, t.b, p, t.e, o, n)
}
func (t jtext) luaLong(p *Term) *Term {
	k := t.luaEqs(p)
	return then(t.set(ch('['), k), func(q *Term) *Term { return t.luaClose(q, p, sub(k, p)) })
}
func (t jtext) luaStr(p *Term) *Term {
	return first(t.luaQuoted('"', p), t.luaQuoted('\'', p), then(t.set(ch('['), p), t.luaLong))
}
func (t jtext) luaComment(p *Term) *Term {
	line := then(t.lit("--", p), func(p *Term) *Term { q := app("firstIn", SInt, t.b, p, t.e, ch('\n')); return ite(bad(q), t.e, q) })
	return first(then(t.lit("--[", p), t.luaLong), line)
}

func init() {
	B, I := SBytes, SInt
	hyp := func(a []*Term) *Term { return and(le(zero, a[1]), le(a[1], a[2])) }
	bounds := func(a []*Term, r *Term) *Term { return and(le(a[1], r), le(r, a[2])) }
	left := func(a []*Term) *Term { return sub(a[2], a[1]) }
	fail := func(a []*Term, r *Term) *Term {
		return or(eq(r, minus1()), and(le(add(a[1], one), r), le(r, a[2])))
	}
	for n, f := range map[string]func(t jtext, p *Term) *Term{"lhex": jtext.luaHexDef, "ldec": jtext.luaDecDef, "lesc": jtext.luaEscDef} {
		f := f
		defRec(&recFn{name: n, sorts: []string{B, I, I}, ret: I, hyp: hyp, macro: true, lemma: fail,
			def: func(a []*Term) *Term { return f(jtext{a[0], a[2]}, a[1]) }})
	}
	defRec(&recFn{name: "lchars", sorts: []string{B, I, I, I}, ret: I, hyp: hyp, lemma: bounds,
		def: func(a []*Term) *Term {
			t, p := jtext{a[0], a[2]}, a[1]
			plain := func(r rune) *Term {
				return t.set(cHoley(inum(' '), inum(0x10ffff), litStr(luaQuotes[r])), p)
			}
			q := first(ite(eq(a[3], inum('"')), plain('"'), plain('\'')), t.luaEsc(p))
			return ite(bad(q), p, app("lchars", I, a[0], q, a[2], a[3]))
		}})
	measures["lchars"] = left
	defRec(&recFn{name: "leqs", sorts: []string{B, I, I}, ret: I, hyp: hyp, lemma: bounds,
		def: func(a []*Term) *Term {
			t := jtext{a[0], a[2]}
			q := t.lit("=", a[1])
			return ite(bad(q), a[1], t.luaEqs(q))
		}})
	measures["leqs"] = left
	// lclose b p e o n: behind the first ] = ... = ] from p on, with the text of length n at o between the brackets
	defRec(&recFn{name: "lclose", sorts: []string{B, I, I, I, I}, ret: I,
		hyp: func(a []*Term) *Term { return and(hyp(a), le(zero, a[4])) }, lemma: fail,
		def: func(a []*Term) *Term {
			t, p, o, n := jtext{a[0], a[2]}, a[1], a[3], a[4]
			q := then(t.set(ch(']'), p), func(p *Term) *Term {
				return ite(and(le(add(p, n), t.e), eqB(t.b, p, t.b, o, n)), t.set(ch(']'), add(p, n)), minus1())
			})
			return ite(le(t.e, p), minus1(), ite(bad(q), t.luaClose(t.next(p), o, n), q))
		}})
	measures["lclose"] = left
	fn := func(f func(t jtext, off, p *Term, a []*Term) *Term) specFn {
		return func(c *specCtx, a []ast.Expr) TV {
			F := c.t(a[0])
			var v []*Term
			for _, e := range a[2:] {
				v = append(v, c.t(e))
			}
			r := f(jtext{sbase(F), send(F)}, soff(F), add(soff(F), c.t(a[1])), v)
			return iTV(ite(bad(r), minus1(), sub(r, soff(F))))
		}
	}
	jsonFns["lnum"] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return t.luaNum(p) })
	jsonFns["lstr"] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return t.luaStr(p) })
	jsonFns["lcmt"] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return t.luaComment(p) })
	for _, n := range []string{"lhex", "ldec", "lesc"} {
		n := n
		jsonFns[n] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return t.call(n, p) })
	}
	jsonFns["lhexm"] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return t.hexes(p) })
	jsonFns["ldecm"] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return t.digits(p) })
	jsonFns["lquot"] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return t.luaQuoted(rune(a[0].Int.Int64()), p) })
	jsonFns["llong"] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return t.luaLong(p) })
	jsonFns["lbrack"] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return then(t.set(ch('['), p), t.luaLong) })
	jsonFns["lhexes"] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return t.out(p, jHexC) })
	jsonFns["leqs"] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return t.luaEqs(p) })
	jsonFns["lchars"] = fn(func(t jtext, off, p *Term, a []*Term) *Term {
		return app("lchars", SInt, t.b, p, t.e, a[0])
	})
	jsonFns["lclose"] = fn(func(t jtext, off, p *Term, a []*Term) *Term { return t.luaClose(p, add(off, a[0]), a[1]) })
}
