package main

import (
	"fmt"
	"strings"
)

// ------------------------------------------------------------------ vocabulary
//
// Bytes  : an immutable byte sequence (the backing store of Go strings)
// Str    : (base, offset, length) -- a Go string value
// dr/dw  : rune and width of the decode of base[p:e]   (utf8.DecodeRuneInString / range)
// rr/rw  : rune and width of the last rune of base[s:q] (utf8.DecodeLastRuneInString)
// eqB    : l bytes at (b1,p1) equal l bytes at (b2,p2)
// eqF    : the same under strings.EqualFold

func drT(b, p, e *Term) *Term { return app("dr", SInt, b, p, e) }
func dwT(b, p, e *Term) *Term { return app("dw", SInt, b, p, e) }
func rrT(b, s, q *Term) *Term { return app("rr", SInt, b, s, q) }
func rwT(b, s, q *Term) *Term { return app("rw", SInt, b, s, q) }

func eqB(b1, p1, b2, p2, l *Term) *Term {
	if b1 == b2 && p1 == p2 {
		return tTrue
	}
	if l == zero {
		return tTrue
	}
	return app("eqB", SBool, b1, p1, b2, p2, l)
}

func eqF(b1, p1, b2, p2, l *Term) *Term {
	return app("eqF", SBool, b1, p1, b2, p2, l)
}

// strEq is Go's == on strings.
func strEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	la, oka := litOf(a)
	lb, okb := litOf(b)
	if oka && okb {
		return boolT(la == lb)
	}
	if a.Op == "ite" {
		return ite(a.Args[0], strEq(a.Args[1], b), strEq(a.Args[2], b))
	}
	return and(eq(slen(a), slen(b)), eqB(sbase(a), soff(a), sbase(b), soff(b), slen(b)))
}

// byteIn is the byte at absolute position i of a byte sequence.
func byteIn(b, i *Term) *Term {
	if b.Op == "#const" && i.isInt() {
		if v, ok := litVals[b.Name]; ok {
			if k := i.Int.Int64(); k >= 0 && k < int64(len(v)) {
				return inum(int64(v[k]))
			}
		}
	}
	return app("byteAt", SInt, b, i)
}

// ---- string literals

var litVals = map[string]string{} // base const name -> content
var litNum = map[string]string{}

func litStr(s string) *Term {
	n, ok := litNum[s]
	if !ok {
		n = fmt.Sprintf("lit%d", len(litNum))
		litNum[s] = n
		litVals[n] = s
	}
	return app("mkStr", SStr, cst(n, SBytes), zero, inum(int64(len(s))))
}

func litOf(t *Term) (string, bool) {
	if t.Op != "mkStr" || t.Args[0].Op != "#const" {
		return "", false
	}
	s, ok := litVals[t.Args[0].Name]
	if !ok || !t.Args[1].isInt() || !t.Args[2].isInt() {
		return "", false
	}
	o, l := t.Args[1].Int.Int64(), t.Args[2].Int.Int64()
	if o < 0 || l < 0 || o+l > int64(len(s)) {
		return "", false
	}
	return s[o : o+l], true
}

// ---- rune classes: terms of sort Cls, membership expanded at generation time

func cEq(r *Term) *Term                { return app("cEq", "Cls", r) }
func cBtw(lo, hi *Term) *Term          { return app("cBtw", "Cls", lo, hi) }
func cAny(s *Term) *Term               { return app("cAny", "Cls", s) }
func cFn(f *Term) *Term                { return app("cFn", "Cls", f) }
func cHoley(lo, hi, holes *Term) *Term { return app("cHoley", "Cls", lo, hi, holes) }
func cOr(a, b *Term) *Term             { return app("cOr", "Cls", a, b) }
func cNone() *Term                     { return app("cNone", "Cls") }

// cRanges: min/max rune arrays (inner arrays), offsets, count
func cRanges(mins, mo, maxs, xo, n *Term) *Term {
	return app("cRanges", "Cls", mins, mo, maxs, xo, n)
}

func inCls(c, r *Term) *Term {
	switch c.Op {
	case "cEq":
		return eq(r, c.Args[0])
	case "cBtw":
		return and(le(c.Args[0], r), le(r, c.Args[1]))
	case "cAny":
		s := c.Args[0]
		if l, ok := litOf(s); ok {
			var cs []*Term
			for _, x := range l {
				cs = append(cs, eq(r, inum(int64(x))))
			}
			return or(cs...)
		}
		return anyIn(sbase(s), soff(s), send(s), r)
	case "cFn":
		return app("mfn", SBool, c.Args[0], r)
	case "cHoley":
		return and(le(c.Args[0], r), le(r, c.Args[1]), not(inCls(cAny(c.Args[2]), r)))
	case "cOr":
		return or(inCls(c.Args[0], r), inCls(c.Args[1], r))
	case "cNone":
		return tFalse
	case "cLam":
		return subst(c.Args[0], map[*Term]*Term{cst("cls_rune", SInt): r})
	case "cRanges":
		return app("inRanges", SBool, c.Args[0], c.Args[1], c.Args[2], c.Args[3], zero, c.Args[4], r)
	}
	return app("inCls", SBool, c, r)
}

func anyIn(b, p, e, r *Term) *Term { return app("anyIn", SBool, b, p, e, r) }

// ---- recursive specification functions
// Each is given by its unfolding; the generator instantiates the unfolding for
// every ground occurrence in a query (fuel rounds), so queries stay quantifier
// free. lemma, if present, is a fact about every application; it is itself an
// obligation, discharged by induction (see lemmaObligations).

type recFn struct {
	name  string
	sorts []string
	ret   string
	def   func(a []*Term) *Term
	lemma func(a []*Term, r *Term) *Term
	// hyp: facts about the arguments under which lemma is claimed
	hyp  func(a []*Term) *Term
	note string
	// macro: a name for its definition, which is not recursive by itself
	macro bool
	conc  []int // arguments which, if all literal, make the unfolding finite
}

var recFns = map[string]*recFn{}

func defRec(f *recFn) { recFns[f.name] = f }

// nameOk: one ASCII letter followed by ASCII letters, digits, '+', '-', '.' or '_'.
func nameOk(s *Term) *Term {
	letter := cOr(cBtw(inum('a'), inum('z')), cBtw(inum('A'), inum('Z')))
	other := cOr(letter, cOr(cBtw(inum('0'), inum('9')), cAny(litStr("+-._"))))
	b, p, e := sbase(s), soff(s), send(s)
	return and(lt(zero, slen(s)), inCls(letter, drT(b, p, e)), eq(app("firstOut", SInt, b, add(p, dwT(b, p, e)), e, other), e))
}

func minus1() *Term { return inum(-1) }

const readErrBox = "box_tok.ReadError"

// rErr is the error of a reader that fails on F at p.
func rErr(r, F, p *Term) *Term { return app("rErr", SIface, r, F, p) }

func rOk(r, F, p *Term) *Term  { return app("rOk", SBool, r, F, p) }
func rEnd(r, F, p *Term) *Term { return app("rEnd", SInt, r, F, p) }

// wAt is the width of the rune at relative position p of F.
func wAt(F, p *Term) *Term { return dwT(sbase(F), add(soff(F), p), send(F)) }

func init() {
	B, I, C := SBytes, SInt, "Cls"
	defRec(&recFn{name: "firstIn", sorts: []string{B, I, I, C}, ret: I,
		def: func(a []*Term) *Term {
			b, p, e, c := a[0], a[1], a[2], a[3]
			return ite(ge(p, e), minus1(), ite(inCls(c, drT(b, p, e)), p, app("firstIn", I, b, add(p, dwT(b, p, e)), e, c)))
		},
		hyp:   func(a []*Term) *Term { return le(zero, a[1]) },
		lemma: func(a []*Term, r *Term) *Term { return or(eq(r, minus1()), and(le(a[1], r), lt(r, a[2]))) }})
	defRec(&recFn{name: "firstOut", sorts: []string{B, I, I, C}, ret: I,
		def: func(a []*Term) *Term {
			b, p, e, c := a[0], a[1], a[2], a[3]
			return ite(ge(p, e), e, ite(inCls(c, drT(b, p, e)), app("firstOut", I, b, add(p, dwT(b, p, e)), e, c), p))
		},
		hyp:   func(a []*Term) *Term { return le(a[1], a[2]) },
		lemma: func(a []*Term, r *Term) *Term { return and(le(a[1], r), le(r, a[2])) }})
	defRec(&recFn{name: "lastIn", sorts: []string{B, I, I, C}, ret: I,
		def: func(a []*Term) *Term {
			b, s, q, c := a[0], a[1], a[2], a[3]
			return ite(le(q, s), minus1(), ite(inCls(c, rrT(b, s, q)), q, app("lastIn", I, b, s, sub(q, rwT(b, s, q)), c)))
		},
		hyp:   func(a []*Term) *Term { return le(zero, a[1]) },
		lemma: func(a []*Term, r *Term) *Term { return or(eq(r, minus1()), and(lt(a[1], r), le(r, a[2]))) }})
	defRec(&recFn{name: "lastOut", sorts: []string{B, I, I, C}, ret: I,
		def: func(a []*Term) *Term {
			b, s, q, c := a[0], a[1], a[2], a[3]
			return ite(le(q, s), s, ite(inCls(c, rrT(b, s, q)), app("lastOut", I, b, s, sub(q, rwT(b, s, q)), c), q))
		},
		hyp:   func(a []*Term) *Term { return le(a[1], a[2]) },
		lemma: func(a []*Term, r *Term) *Term { return and(le(a[1], r), le(r, a[2])) }})
	for _, v := range []string{"B", "F"} {
		v := v
		same := eqB
		if v == "F" {
			same = eqF
		}
		defRec(&recFn{name: "idx" + v, sorts: []string{B, I, I, B, I, I}, ret: I,
			def: func(a []*Term) *Term {
				b, p, e, b2, o2, l := a[0], a[1], a[2], a[3], a[4], a[5]
				return ite(gt(add(p, l), e), minus1(), ite(same(b, p, b2, o2, l), p, app("idx"+v, I, b, add(p, one), e, b2, o2, l)))
			},
			hyp: func(a []*Term) *Term { return and(le(zero, a[1]), le(zero, a[5])) },
			lemma: func(a []*Term, r *Term) *Term {
				return or(eq(r, minus1()), and(le(a[1], r), le(add(r, a[5]), a[2])))
			}})
		defRec(&recFn{name: "last" + v, sorts: []string{B, I, I, B, I, I}, ret: I,
			def: func(a []*Term) *Term {
				b, s, q, b2, o2, l := a[0], a[1], a[2], a[3], a[4], a[5]
				return ite(le(q, s), minus1(), ite(and(ge(sub(q, s), l), same(b, sub(q, l), b2, o2, l)), q,
					app("last"+v, I, b, s, sub(q, rwT(b, s, q)), b2, o2, l)))
			},
			hyp: func(a []*Term) *Term { return le(zero, a[1]) },
			lemma: func(a []*Term, r *Term) *Term {
				return or(eq(r, minus1()), and(lt(a[1], r), le(r, a[2]), ge(sub(r, a[1]), a[5])))
			}})
	}
	defRec(&recFn{name: "fwdR", sorts: []string{B, I, I, I}, ret: I,
		def: func(a []*Term) *Term {
			b, p, e, n := a[0], a[1], a[2], a[3]
			return ite(le(n, zero), p, ite(ge(p, e), minus1(), app("fwdR", I, b, add(p, dwT(b, p, e)), e, sub(n, one))))
		},
		hyp:   func(a []*Term) *Term { return and(le(zero, a[1]), le(a[1], a[2])) },
		lemma: func(a []*Term, r *Term) *Term { return or(eq(r, minus1()), and(le(a[1], r), le(r, a[2]))) }})
	defRec(&recFn{name: "bwdR", sorts: []string{B, I, I, I}, ret: I,
		def: func(a []*Term) *Term {
			b, s, q, n := a[0], a[1], a[2], a[3]
			return ite(le(n, zero), q, ite(le(q, s), minus1(), app("bwdR", I, b, s, sub(q, rwT(b, s, q)), sub(n, one))))
		},
		hyp:   func(a []*Term) *Term { return and(le(zero, a[1]), le(a[1], a[2])) },
		lemma: func(a []*Term, r *Term) *Term { return or(eq(r, minus1()), and(le(a[1], r), le(r, a[2]))) }})
	defRec(&recFn{name: "anyIn", sorts: []string{B, I, I, I}, ret: SBool,
		def: func(a []*Term) *Term {
			b, p, e, r := a[0], a[1], a[2], a[3]
			return and(lt(p, e), or(eq(drT(b, p, e), r), anyIn(b, add(p, dwT(b, p, e)), e, r)))
		}})
	defRec(&recFn{name: "inRanges", conc: []int{4, 5}, sorts: []string{sArr(I), I, sArr(I), I, I, I, I}, ret: SBool,
		def: func(a []*Term) *Term {
			mn, mo, mx, xo, i, n, r := a[0], a[1], a[2], a[3], a[4], a[5], a[6]
			return and(lt(i, n), or(and(le(sel(mn, add(mo, i)), r), le(r, sel(mx, add(xo, i)))),
				app("inRanges", SBool, mn, mo, mx, xo, add(i, one), n, r)))
		}})
	defRec(&recFn{name: "sepsOk", sorts: []string{sArr(I), I, I}, ret: SBool,
		def: func(a []*Term) *Term {
			arr, i, n := a[0], a[1], a[2]
			return or(ge(i, n), and(eq(sel(arr, add(i, one)), inum('-')), app("sepsOk", SBool, arr, add(i, inum(3)), n)))
		}})
	// length of the first string of a slice (inner array arr, offset o) that is a prefix at p / suffix at q
	defRec(&recFn{name: "preLen", conc: []int{2, 3}, sorts: []string{sArr(SStr), I, I, I, B, I, I}, ret: I,
		def: func(a []*Term) *Term {
			arr, o, i, n, b, p, e := a[0], a[1], a[2], a[3], a[4], a[5], a[6]
			s := sel(arr, add(o, i))
			return ite(ge(i, n), minus1(), ite(hasPre(b, p, e, s), slen(s), app("preLen", I, arr, o, add(i, one), n, b, p, e)))
		},
		hyp:   func(a []*Term) *Term { return le(a[5], a[6]) },
		lemma: func(a []*Term, r *Term) *Term { return and(le(minus1(), r), le(add(a[5], r), a[6])) }})
	defRec(&recFn{name: "sufLen", conc: []int{2, 3}, sorts: []string{sArr(SStr), I, I, I, B, I, I}, ret: I,
		def: func(a []*Term) *Term {
			arr, o, i, n, b, p, e := a[0], a[1], a[2], a[3], a[4], a[5], a[6]
			s := sel(arr, add(o, i))
			return ite(ge(i, n), minus1(), ite(hasSuf(b, p, e, s), slen(s), app("sufLen", I, arr, o, add(i, one), n, b, p, e)))
		},
		hyp:   func(a []*Term) *Term { return le(a[5], a[6]) },
		lemma: func(a []*Term, r *Term) *Term { return and(le(minus1(), r), le(add(a[5], r), a[6])) }})

	// start of the line that ends at q: position behind the last line feed of b[s:q]
	defRec(&recFn{name: "lineStart", sorts: []string{B, I, I}, ret: I,
		def: func(a []*Term) *Term {
			b, s, q := a[0], a[1], a[2]
			return ite(le(q, s), s, ite(eq(app("byteAt", I, b, sub(q, one)), inum(10)), q, app("lineStart", I, b, s, sub(q, one))))
		},
		hyp:   func(a []*Term) *Term { return le(a[1], a[2]) },
		lemma: func(a []*Term, r *Term) *Term { return and(le(a[1], r), le(r, a[2])) }})
	defRec(&recFn{name: "cntB", sorts: []string{B, I, I, I}, ret: I,
		def: func(a []*Term) *Term {
			b, s, q, c := a[0], a[1], a[2], a[3]
			return ite(le(q, s), zero, add(app("cntB", I, b, s, sub(q, one), c), ite(eq(app("byteAt", I, b, sub(q, one)), c), one, zero)))
		},
		hyp:   func(a []*Term) *Term { return le(a[1], a[2]) },
		lemma: func(a []*Term, r *Term) *Term { return and(le(zero, r), le(r, sub(a[2], a[1]))) }})

	// ---- reader combinators over the abstract sub-reader semantics rOk/rEnd
	seqLike := func(a []*Term, r *Term) *Term {
		return or(eq(r, minus1()), and(le(a[len(a)-1], r), le(r, slen(a[len(a)-2]))))
	}
	posHyp := func(a []*Term) *Term {
		p, F := a[len(a)-1], a[len(a)-2]
		return and(le(zero, p), le(p, slen(F)))
	}
	A := sArr(SIface)
	defRec(&recFn{name: "seqR", conc: []int{2, 3}, sorts: []string{A, I, I, I, SStr, I}, ret: I, hyp: posHyp, lemma: seqLike,
		def: func(a []*Term) *Term {
			arr, o, i, n, F, p := a[0], a[1], a[2], a[3], a[4], a[5]
			r := sel(arr, add(o, i))
			return ite(ge(i, n), p, ite(rOk(r, F, p), app("seqR", I, arr, o, add(i, one), n, F, rEnd(r, F, p)), minus1()))
		}})
	defRec(&recFn{name: "anyR", conc: []int{2, 3}, sorts: []string{A, I, I, I, SStr, I}, ret: I, hyp: posHyp, lemma: seqLike,
		def: func(a []*Term) *Term {
			arr, o, i, n, F, p := a[0], a[1], a[2], a[3], a[4], a[5]
			r := sel(arr, add(o, i))
			return ite(ge(i, n), minus1(), ite(rOk(r, F, p), rEnd(r, F, p), app("anyR", I, arr, o, add(i, one), n, F, p)))
		}})
	// after element i-1: remaining elements, each followed by skip
	defRec(&recFn{name: "skipR", conc: []int{3, 4}, sorts: []string{SIface, A, I, I, I, SStr, I}, ret: I, hyp: posHyp, lemma: seqLike,
		def: func(a []*Term) *Term {
			sk, arr, o, i, n, F, p := a[0], a[1], a[2], a[3], a[4], a[5], a[6]
			r := sel(arr, add(o, i))
			p1 := rEnd(r, F, p)
			return ite(ge(i, n), p, ite(and(rOk(r, F, p), rOk(sk, F, p1)),
				app("skipR", I, sk, arr, o, add(i, one), n, F, rEnd(sk, F, p1)), minus1()))
		}})
	defRec(&recFn{name: "zomR", sorts: []string{SIface, SStr, I}, ret: I, hyp: posHyp,
		lemma: func(a []*Term, r *Term) *Term { return and(le(a[2], r), le(r, slen(a[1]))) },
		def: func(a []*Term) *Term {
			r, F, p := a[0], a[1], a[2]
			return ite(and(rOk(r, F, p), gt(rEnd(r, F, p), p)), app("zomR", I, r, F, rEnd(r, F, p)), p)
		}})
	defRec(&recFn{name: "timesR", conc: []int{1}, sorts: []string{SIface, I, SStr, I}, ret: I, hyp: posHyp, lemma: seqLike,
		def: func(a []*Term) *Term {
			r, n, F, p := a[0], a[1], a[2], a[3]
			return ite(le(n, zero), p, ite(rOk(r, F, p), app("timesR", I, r, sub(n, one), F, rEnd(r, F, p)), minus1()))
		}})
	defRec(&recFn{name: "toR", sorts: []string{SIface, SStr, I}, ret: I, hyp: posHyp, lemma: seqLike,
		def: func(a []*Term) *Term {
			r, F, p := a[0], a[1], a[2]
			return ite(rOk(r, F, p), p, ite(ge(p, slen(F)), minus1(), app("toR", I, r, F, add(p, wAt(F, p)))))
		}})
	defRec(&recFn{name: "pastR", sorts: []string{SIface, SStr, I}, ret: I, hyp: posHyp, lemma: seqLike,
		def: func(a []*Term) *Term {
			r, F, p := a[0], a[1], a[2]
			return ite(ge(p, slen(F)), minus1(), ite(rOk(r, F, p), rEnd(r, F, p), app("pastR", I, r, F, add(p, wAt(F, p)))))
		}})
	// first position >= p (before the end of F) where tail reads
	defRec(&recFn{name: "tailR", sorts: []string{SIface, SStr, I}, ret: I, hyp: posHyp, lemma: seqLike,
		def: func(a []*Term) *Term {
			r, F, p := a[0], a[1], a[2]
			return ite(ge(p, slen(F)), minus1(), ite(rOk(r, F, p), p, app("tailR", I, r, F, add(p, wAt(F, p)))))
		}})
	// the error of the first reader that fails
	defRec(&recFn{name: "seqErr", conc: []int{2, 3}, sorts: []string{A, I, I, I, SStr, I}, ret: SIface,
		def: func(a []*Term) *Term {
			arr, o, i, n, F, p := a[0], a[1], a[2], a[3], a[4], a[5]
			r := sel(arr, add(o, i))
			return ite(ge(i, n), nilIface, ite(rOk(r, F, p), app("seqErr", SIface, arr, o, add(i, one), n, F, rEnd(r, F, p)), rErr(r, F, p)))
		}})
	defRec(&recFn{name: "skipErr", conc: []int{3, 4}, sorts: []string{SIface, A, I, I, I, SStr, I}, ret: SIface,
		def: func(a []*Term) *Term {
			sk, arr, o, i, n, F, p := a[0], a[1], a[2], a[3], a[4], a[5], a[6]
			r := sel(arr, add(o, i))
			p1 := rEnd(r, F, p)
			return ite(ge(i, n), nilIface, ite(rOk(r, F, p), ite(rOk(sk, F, p1),
				app("skipErr", SIface, sk, arr, o, add(i, one), n, F, rEnd(sk, F, p1)), rErr(sk, F, p1)), rErr(r, F, p)))
		}})
	defRec(&recFn{name: "timesErr", conc: []int{1}, sorts: []string{SIface, I, SStr, I}, ret: SIface,
		def: func(a []*Term) *Term {
			r, n, F, p := a[0], a[1], a[2], a[3]
			return ite(le(n, zero), nilIface, ite(rOk(r, F, p), app("timesErr", SIface, r, sub(n, one), F, rEnd(r, F, p)), rErr(r, F, p)))
		}})
	// the deepest of the read errors of the readers from i on and (m,w): the last one with the greatest position
	defRec(&recFn{name: "deepErr", conc: []int{2, 3}, sorts: []string{A, I, I, I, SStr, I, I, SStr}, ret: SIface,
		def: func(a []*Term) *Term {
			arr, o, i, n, F, p, m, w := a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]
			e := rErr(sel(arr, add(o, i)), F, p)
			rest := func(m, w *Term) *Term { return app("deepErr", SIface, arr, o, add(i, one), n, F, p, m, w) }
			em, ew := app("un"+readErrBox+"_0", I, e), app("un"+readErrBox+"_1", SStr, e)
			is := eq(tagOf(e), inum(int64(boxTag[readErrBox])))
			return ite(ge(i, n), app(readErrBox, SIface, m, w), ite(and(is, le(m, em)), rest(em, ew), rest(m, w)))
		}})
	// integers: remaining scan of digits; returns end position / value
	num := func(name string, val bool) {
		defRec(&recFn{name: name, sorts: []string{B, I, I, I, SBool, I, I, I}, ret: I,
			def: func(a []*Term) *Term {
				b, p, e, base, ng, mn, mx, v := a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]
				d := digT(base, drT(b, p, e))
				nv := ite(ng, sub(mul(v, base), d), add(mul(v, base), d))
				stop := p
				if val {
					stop = v
				}
				return ite(or(ge(p, e), lt(d, zero), lt(nv, mn), gt(nv, mx)), stop,
					app(name, I, b, add(p, dwT(b, p, e)), e, base, ng, mn, mx, nv))
			}})
	}
	num("numEnd", false)
	num("numVal", true)
	recFns["numEnd"].hyp = func(a []*Term) *Term { return le(a[1], a[2]) }
	recFns["numEnd"].lemma = func(a []*Term, r *Term) *Term { return and(le(a[1], r), le(r, a[2])) }
	recFns["numVal"].hyp = func(a []*Term) *Term { return and(le(a[5], a[7]), le(a[7], a[6])) }
	recFns["numVal"].lemma = func(a []*Term, r *Term) *Term { return and(le(a[5], r), le(r, a[6])) }

	// rulesOk: every rule from i on has a proper name and a reader
	defRec(&recFn{name: "rulesOk", conc: []int{4, 5}, sorts: []string{sArr(SRef), sArr(sArr(SStr)), sArr(sArr(SIface)), I, I, I}, ret: SBool,
		def: func(a []*Term) *Term {
			arr, nm, rd, o, i, n := a[0], a[1], a[2], a[3], a[4], a[5]
			r := sel(arr, add(o, i))
			name := sel(sel(nm, rblk(r)), ridx(r))
			reader := sel(sel(rd, rblk(r)), ridx(r))
			return or(le(n, i), and(nameOk(name), ne(reader, nilIface), app("rulesOk", SBool, arr, nm, rd, o, add(i, one), n)))
		}})
	// anyM: one of the strings from i on contains the marker
	defRec(&recFn{name: "anyM", conc: []int{2, 3}, sorts: []string{sArr(SStr), I, I, I}, ret: SBool,
		def: func(a []*Term) *Term {
			arr, o, i, n := a[0], a[1], a[2], a[3]
			return and(lt(i, n), or(hasM(sel(arr, add(o, i))), app("anyM", SBool, arr, o, add(i, one), n)))
		}})
	// nodeEq, nodesEq: two trees of nodes are equal; treeOk, treesOk: no node of the tree is nil
	// (the memory: info, from, to and children of the nodes, and the lists of children)
	nm := []string{sArr(sArr(SStr)), sArr(sArr(I)), sArr(sArr(I)), sArr(sArr(SSl)), sArr(sArr(SRef))}
	at := func(m, r *Term) *Term { return sel(sel(m, rblk(r)), ridx(r)) }
	child := func(m, l, i *Term) *Term { return sel(sel(m, lblk(l)), add(loff(l), i)) }
	with := func(a []*Term, t ...*Term) []*Term { return append(append([]*Term{}, a[:5]...), t...) }
	defRec(&recFn{name: "nodeEq", sorts: append(append([]string{}, nm...), SRef, SRef), ret: SBool,
		def: func(a []*Term) *Term {
			n, o := a[5], a[6]
			l, k := at(a[3], n), at(a[3], o)
			return and(strEq(at(a[0], n), at(a[0], o)), eq(at(a[1], n), at(a[1], o)), eq(at(a[2], n), at(a[2], o)),
				eq(llen(l), llen(k)), app("nodesEq", SBool, with(a, l, k, zero)...))
		}})
	defRec(&recFn{name: "nodesEq", sorts: append(append([]string{}, nm...), SSl, SSl, I), ret: SBool,
		def: func(a []*Term) *Term {
			l, k, i := a[5], a[6], a[7]
			return or(le(llen(l), i), and(app("nodeEq", SBool, with(a, child(a[4], l, i), child(a[4], k, i))...), app("nodesEq", SBool, with(a, l, k, add(i, one))...)))
		}})
	// the number of childless nodes of a tree, and the j-th of them
	defRec(&recFn{name: "leafCnt", sorts: append(append([]string{}, nm...), SRef), ret: I,
		def: func(a []*Term) *Term {
			l := at(a[3], a[5])
			return ite(eq(llen(l), zero), one, app("leafsCnt", I, with(a, l, zero)...))
		}})
	defRec(&recFn{name: "leafsCnt", sorts: append(append([]string{}, nm...), SSl, I), ret: I,
		def: func(a []*Term) *Term {
			l, i := a[5], a[6]
			return ite(le(llen(l), i), zero, add(app("leafCnt", I, with(a, child(a[4], l, i))...), app("leafsCnt", I, with(a, l, add(i, one))...)))
		}})
	defRec(&recFn{name: "leafNo", sorts: append(append([]string{}, nm...), SRef, I), ret: SRef,
		def: func(a []*Term) *Term {
			l := at(a[3], a[5])
			return ite(eq(llen(l), zero), a[5], app("leafsNo", SRef, with(a, l, zero, a[6])...))
		}})
	defRec(&recFn{name: "leafsNo", sorts: append(append([]string{}, nm...), SSl, I, I), ret: SRef,
		def: func(a []*Term) *Term {
			l, i, j := a[5], a[6], a[7]
			c := child(a[4], l, i)
			n := app("leafCnt", I, with(a, c)...)
			return ite(le(llen(l), i), nilRef, ite(lt(j, n), app("leafNo", SRef, with(a, c, j)...), app("leafsNo", SRef, with(a, l, add(i, one), sub(j, n))...)))
		}})
	defRec(&recFn{name: "treeOk", sorts: append(append([]string{}, nm...), SRef), ret: SBool,
		def: func(a []*Term) *Term {
			return and(ne(a[5], nilRef), app("treesOk", SBool, with(a, at(a[3], a[5]), zero)...))
		}})
	defRec(&recFn{name: "treesOk", sorts: append(append([]string{}, nm...), SSl, I), ret: SBool,
		def: func(a []*Term) *Term {
			l, i := a[5], a[6]
			return or(le(llen(l), i), and(app("treeOk", SBool, with(a, child(a[4], l, i))...), app("treesOk", SBool, with(a, l, add(i, one))...)))
		}})
	// onlyAt: s occurs among the strings from i on at most at index x
	defRec(&recFn{name: "onlyAt", sorts: []string{sArr(SStr), I, I, I, SStr, I}, ret: SBool,
		def: func(a []*Term) *Term {
			arr, o, i, n, s, x := a[0], a[1], a[2], a[3], a[4], a[5]
			return or(le(n, i), and(or(not(strEq(sel(arr, add(o, i)), s)), eq(i, x)), app("onlyAt", SBool, arr, o, add(i, one), n, s, x)))
		}})
	// onceAt: none of the pointers from i on is nil, and p is at most the one at index x
	defRec(&recFn{name: "onceAt", sorts: []string{sArr(SRef), I, I, I, SRef, I}, ret: SBool,
		def: func(a []*Term) *Term {
			arr, o, i, n, p, x := a[0], a[1], a[2], a[3], a[4], a[5]
			e := sel(arr, add(o, i))
			return or(le(n, i), and(ne(e, nilRef), or(ne(e, p), eq(i, x)), app("onceAt", SBool, arr, o, add(i, one), n, p, x)))
		}})
	// Segmentate: the first of the segments from i on that does not lie inside [cur,hi) as it is left, or n
	defRec(&recFn{name: "segBad", sorts: []string{sArr(I), sArr(I), I, I, I, I, I}, ret: I,
		def: func(a []*Term) *Term {
			fa, ta, o, i, n, cur, hi := a[0], a[1], a[2], a[3], a[4], a[5], a[6]
			f, t := sel(fa, add(o, i)), sel(ta, add(o, i))
			return ite(le(n, i), n, ite(and(le(cur, f), le(t, hi)), app("segBad", I, fa, ta, o, add(i, one), n, t, hi), i))
		},
		hyp:   func(a []*Term) *Term { return le(a[3], a[4]) },
		lemma: func(a []*Term, r *Term) *Term { return and(le(a[3], r), le(r, a[4])) }})
	// the number of non-empty gaps before the first k segments
	defRec(&recFn{name: "gapCnt", sorts: []string{sArr(I), sArr(I), I, I, I}, ret: I,
		def: func(a []*Term) *Term {
			fa, ta, o, k, lo := a[0], a[1], a[2], a[3], a[4]
			j := sub(k, one)
			prev := ite(le(j, zero), lo, sel(ta, add(o, sub(j, one))))
			return ite(le(k, zero), zero, add(app("gapCnt", I, fa, ta, o, j, lo), ite(lt(prev, sel(fa, add(o, j))), one, zero)))
		},
		hyp:   func(a []*Term) *Term { return le(zero, a[3]) },
		lemma: func(a []*Term, r *Term) *Term { return and(le(zero, r), le(r, a[3])) }})

	// Basket.Update: number of retained segments among the first i, ends array
	defRec(&recFn{name: "keepN", sorts: []string{sArr(I), I, I, I}, ret: I,
		def: func(a []*Term) *Term {
			arr, o, i, m := a[0], a[1], a[2], a[3]
			return ite(le(i, zero), zero, ite(le(sel(arr, add(o, sub(i, one))), m), i, app("keepN", I, arr, o, sub(i, one), m)))
		},
		hyp:   func(a []*Term) *Term { return le(zero, a[2]) },
		lemma: func(a []*Term, r *Term) *Term { return and(le(zero, r), le(r, a[2])) }})
}

// digT is the value of rune r as a digit in base (8, 10 or 16), -1 if it is none.
func digT(base, r *Term) *Term {
	rng := func(lo, hi int64) *Term { return and(le(inum(lo), r), le(r, inum(hi))) }
	return ite(and(rng('0', '9'), lt(sub(r, inum('0')), base)), sub(r, inum('0')),
		ite(and(eq(base, inum(16)), rng('a', 'f')), sub(r, inum('a'-10)),
			ite(and(eq(base, inum(16)), rng('A', 'F')), sub(r, inum('A'-10)), minus1())))
}

func hasPre(b, p, e, s *Term) *Term {
	return and(le(slen(s), sub(e, p)), eqB(b, p, sbase(s), soff(s), slen(s)))
}
func hasSuf(b, p, e, s *Term) *Term {
	return and(le(slen(s), sub(e, p)), eqB(b, sub(e, slen(s)), sbase(s), soff(s), slen(s)))
}

var maxLen = inum(1 << 47)

// runeLen is utf8.RuneLen.
func runeLenT(r *Term) *Term {
	return ite(lt(r, zero), minus1(), ite(le(r, inum(0x7F)), one, ite(le(r, inum(0x7FF)), inum(2),
		ite(and(le(inum(0xD800), r), le(r, inum(0xDFFF))), minus1(),
			ite(le(r, inum(0xFFFF)), inum(3), ite(le(r, inum(0x10FFFF)), inum(4), minus1()))))))
}

func decodeFacts(r, w, nonEmpty, avail *Term) *Term {
	return and(
		implies(nonEmpty, and(le(one, w), le(w, inum(4)), le(w, avail), le(zero, r), le(r, inum(0x10FFFF)),
			not(and(le(inum(0xD800), r), le(r, inum(0xDFFF)))))),
		implies(not(nonEmpty), and(eq(w, zero), eq(r, inum(0xFFFD)))),
		implies(and(nonEmpty, not(and(eq(r, inum(0xFFFD)), eq(w, one)))), eq(w, runeLenT(r))),
	)
}

var asciiOn bool // relate bytes and runes

// anyConsts are the arbitrary-element constants of the contracts.
var anyConsts []*Term

// instances returns ground axiom instances triggered by term t.
func instances(t *Term) []*Term {
	if t.bound {
		return nil
	}
	var out []*Term
	switch t.Op {
	case "dr", "dw":
		b, p, e := t.Args[0], t.Args[1], t.Args[2]
		r, w := drT(b, p, e), dwT(b, p, e)
		out = append(out, decodeFacts(r, w, lt(p, e), sub(e, p)))
		if asciiOn { // an ASCII byte is a rune by itself, and only those are ASCII runes
			c := byteIn(b, p)
			out = append(out, implies(lt(p, e), and(eq(lt(c, inum(128)), lt(r, inum(128))), implies(lt(c, inum(128)), eq(r, c)))))
		}
	case "rr", "rw":
		b, s, q := t.Args[0], t.Args[1], t.Args[2]
		r, w := rrT(b, s, q), rwT(b, s, q)
		out = append(out, decodeFacts(r, w, lt(s, q), sub(q, s)))
	case "byteAt":
		out = append(out, and(le(zero, t), le(t, inum(255))))
	case "rOk", "rEnd":
		r, F, p := t.Args[0], t.Args[1], t.Args[2]
		out = append(out, implies(rOk(r, F, p), and(le(p, rEnd(r, F, p)), le(rEnd(r, F, p), slen(F)))))
	case "eqB", "eqF":
		out = append(out, implies(eq(t.Args[4], zero), t))
		out = append(out, app("=", SBool, t, app(t.Op, SBool, t.Args[2], t.Args[3], t.Args[0], t.Args[1], t.Args[4])))
		if t.Op == "eqB" && t.Args[4].isInt() && t.Args[4].Int.Int64() <= 32 && t.Args[3].isInt() && t.Args[2].Op == "#const" {
			if v, ok := litVals[t.Args[2].Name]; ok {
				var cs []*Term
				o, n := t.Args[3].Int.Int64(), t.Args[4].Int.Int64()
				for k := int64(0); k < n && o+k < int64(len(v)); k++ {
					cs = append(cs, eq(byteIn(t.Args[0], add(t.Args[1], inum(k))), inum(int64(v[o+k]))))
				}
				out = append(out, app("=", SBool, t, and(cs...)))
			}
		}
		if t.Op == "eqB" {
			out = append(out, implies(and(eq(t.Args[0], t.Args[2]), eq(t.Args[1], t.Args[3])), t))
		}
	case "fmtErr":
		out = append(out, not(app("=", SBool, t, nilIface)), app("=", SBool, app("tag", SInt, t), inum(tagFmtErr)))
	case "concat":
		a, b := t.Args[0], t.Args[1]
		out = append(out, eq(slen(t), add(slen(a), slen(b))))
		out = append(out, implies(or(hasM(a), hasM(b)), hasM(t)))
	case "join":
		inner, o, n := t.Args[0], t.Args[1], t.Args[2]
		at := []*Term{zero}
		for _, j := range anyConsts {
			at = append(at, j, add(j, one))
		}
		for _, j := range at {
			out = append(out, implies(and(le(zero, j), lt(j, n), hasM(sel(inner, add(o, j)))), hasM(t)))
		}
		if n.isInt() && n.Int.Int64() <= 8 {
			for j := int64(0); j < n.Int.Int64(); j++ {
				out = append(out, implies(hasM(sel(inner, add(o, inum(j)))), hasM(t)))
			}
		}
	case "hasM":
		if l, ok := litOf(t.Args[0]); ok {
			out = append(out, app("=", SBool, t, boolT(strings.Contains(l, markerText))))
		}
	case "fmt_v", "fmt_s":
		// a formatted value
	}
	if t.Sort == SStr && t.Op != "mkStr" && t.Op != "ite" {
		o, l := app("so", SInt, t), app("sl", SInt, t)
		out = append(out, and(le(zero, o), le(zero, l), le(add(o, l), maxLen)))
	}
	if t.Sort == SSl && t.Op != "mkSl" && t.Op != "ite" {
		out = append(out, and(le(zero, lblk(t)), le(zero, loff(t)), le(zero, llen(t)), le(llen(t), lcap(t)), le(add(loff(t), lcap(t)), maxLen),
			implies(eq(lblk(t), zero), eq(lcap(t), zero))))
	}
	if t.Sort == SRef && t.Op != "mkRef" && t.Op != "ite" {
		out = append(out, and(le(zero, rblk(t)), le(zero, ridx(t)), implies(eq(rblk(t), zero), eq(ridx(t), zero))))
	}
	if t.Sort == SIface && !isBox(t.Op) && t != nilIface && t.Op != "ite" {
		tg := app("tag", SInt, t)
		out = append(out, app("=", SBool, eq(tg, zero), eq(t, nilIface)), le(zero, tg))
	}
	if isBox(t.Op) {
		out = append(out, not(app("=", SBool, t, nilIface)), app("=", SBool, app("tag", SInt, t), inum(int64(boxTag[t.Op]))))
		for i, a := range t.Args {
			out = append(out, app("=", SBool, app(fmt.Sprintf("un%s_%d", t.Op, i), a.Sort, t), a))
		}
	}
	if strings.HasPrefix(t.Op, "unbox_") && !isBox(t.Args[0].Op) {
		bx := boxOfUnbox(t)
		if bx != nil {
			out = append(out, implies(eq(app("tag", SInt, t.Args[0]), inum(int64(boxTag[bx.Op]))), app("=", SBool, t.Args[0], bx)))
		}
	}
	return out
}

// folded: specification functions (or, with ":k", those with this last argument) that the contract
// under verification does not need unfolded
var folded = map[string]bool{}

func lastLit(t *Term) string {
	if n := len(t.Args); n > 0 && t.Args[n-1].isInt() {
		return t.Args[n-1].Int.String()
	}
	return ""
}

// recursive unfoldings (one level) triggered by t
func unfold(t *Term) *Term {
	f, ok := recFns[t.Op]
	if !ok || t.bound || folded[t.Op] || folded[t.Op+":"+lastLit(t)] {
		return nil
	}
	out := app("=", SBool, t, f.def(t.Args))
	if t.Sort == SBool {
		out = app("=", SBool, t, f.def(t.Args))
	}
	return out
}

// concrete: unfolding t ends after a number of steps given by its literal arguments.
func concrete(t *Term) bool {
	f, ok := recFns[t.Op]
	if !ok || f.conc == nil {
		return false
	}
	for _, i := range f.conc {
		if !t.Args[i].isInt() {
			return false
		}
	}
	d := t.Args[f.conc[len(f.conc)-1]].Int.Int64()
	if len(f.conc) == 2 {
		d -= t.Args[f.conc[0]].Int.Int64()
	}
	return d <= 24
}

func recLemma(t *Term) *Term {
	f, ok := recFns[t.Op]
	if !ok || t.bound || f.lemma == nil {
		return nil
	}
	h := tTrue
	if f.hyp != nil {
		h = f.hyp(t.Args)
	}
	return implies(h, f.lemma(t.Args, t))
}

// boxes

var boxTag = map[string]int{}
var boxSorts = map[string][]string{}

func boxOfUnbox(t *Term) *Term {
	n := t.Op[2:] // box_X_i
	k := strings.LastIndex(n, "_")
	op := n[:k]
	ss, ok := boxSorts[op]
	if !ok {
		return nil
	}
	var args []*Term
	for i, s := range ss {
		args = append(args, app(fmt.Sprintf("un%s_%d", op, i), s, t.Args[0]))
	}
	return app(op, SIface, args...)
}

// saturate adds axiom instances for all ground terms of the assertions.
func saturate(as []*Term, fuel int) []*Term {
	seen := map[*Term]bool{}
	done := map[*Term]bool{}
	var extra []*Term
	cur := as
	for round := 0; ; round++ {
		var next []*Term
		walk(cur, seen, func(t *Term) {
			for _, x := range instances(t) {
				if x != tTrue && !done[x] {
					done[x] = true
					next = append(next, x)
				}
			}
			if x := recLemma(t); x != nil && x != tTrue && !done[x] {
				done[x] = true
				next = append(next, x)
			}
			if round <= fuel || concrete(t) {
				if x := unfold(t); x != nil && !done[x] {
					done[x] = true
					next = append(next, x)
				}
			}
		})
		if len(next) == 0 {
			break
		}
		extra = append(extra, next...)
		cur = next
		if round > fuel+40 {
			break
		}
	}
	return extra
}
