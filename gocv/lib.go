package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Contracts assumed for the standard library. Each is listed as an assumption
// in the evidence of every check that uses it.

type libFn func(x *Exec, st *State, a []Val, k cont)

var libFns map[string]libFn

func relTo(s, r *Term) *Term { return ite(eq(r, minus1()), minus1(), sub(r, soff(s))) }

func idxT(s, t *Term) *Term {
	if a, ok := litOf(s); ok {
		if b, ok := litOf(t); ok {
			return inum(int64(strings.Index(a, b)))
		}
	}
	r := relTo(s, app("idxB", SInt, sbase(s), soff(s), send(s), sbase(t), soff(t), slen(t)))
	if l, ok := litOf(t); ok && l == markerText && curSt != nil {
		curSt.assume(app("=", SBool, hasM(s), ne(r, minus1())))
	}
	return r
}

func foldEq(a, b *Term) *Term {
	la, oka := litOf(a)
	lb, okb := litOf(b)
	if oka && okb {
		return boolT(strings.EqualFold(la, lb))
	}
	return ite(eq(slen(a), slen(b)), eqF(sbase(a), soff(a), sbase(b), soff(b), slen(b)), app("foldEq", SBool, a, b))
}

// itoaT renders an integer.
func itoaT(t *Term) *Term {
	if t.isInt() {
		return litStr(t.Int.String())
	}
	return app("itoa", SStr, t)
}

// fmtOne renders one formatted operand.
func fmtOne(verb byte, v *Term) *Term {
	if isBox(v.Op) {
		t := boxType[v.Op]
		u := unbox(v, t)
		if ut, ok := u.(*Term); ok {
			switch {
			case ut.Sort == SStr && (verb == 's' || verb == 'v') && namedOf(t) == "":
				return ut
			case ut.Sort == SInt && (verb == 'd' || verb == 'v'):
				return itoaT(ut)
			}
		}
		return app("fmt_"+string(verb), SStr, v)
	}
	if verb == 'v' || verb == 's' {
		return app("errStr", SStr, v)
	}
	return app("fmt_"+string(verb), SStr, v)
}

// ifaceElems lists the elements of a concrete-length []interface{}.
func (x *Exec) ifaceElems(st *State, sl *Term) []*Term {
	n := llen(sl)
	if !n.isInt() {
		return nil
	}
	var out []*Term
	for i := int64(0); i < n.Int.Int64(); i++ {
		out = append(out, st.loadLeaf("cell:interface{}", SIface, mkRef(lblk(sl), add(loff(sl), inum(i)))))
	}
	return out
}

func (x *Exec) sprintf(st *State, format, sl *Term) *Term {
	f, ok := litOf(format)
	if !ok || (!llen(sl).isInt()) {
		return app("sprintf", SStr, format, sl)
	}
	args := x.ifaceElems(st, sl)
	res := litStr("")
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			res = concat(res, litStr(f[i:i+j]))
			i += j - 1
			continue
		}
		i++
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			res = concat(res, litStr("%"))
			continue
		}
		if c := f[i] | 32; c < 'a' || c > 'z' { // flags, width, precision: not modelled
			return app("sprintf", SStr, append([]*Term{format}, args...)...)
		}
		if ai < len(args) {
			res = concat(res, fmtOne(f[i], args[ai]))
			ai++
		} else {
			res = concat(res, litStr("%!"+string(f[i])+"(MISSING)"))
		}
	}
	return res
}

func fmtErrT(msg *Term) *Term { return app("fmtErr", SIface, msg) }

const tagFmtErr = 900001

func init() {
	str := func(v Val) *Term { return v.(*Term) }
	pure := func(f func(x *Exec, st *State, a []Val) Val) libFn {
		return func(x *Exec, st *State, a []Val, k cont) { k(st, []Val{f(x, st, a)}) }
	}
	op1 := func(name string, srt string) libFn {
		return pure(func(x *Exec, st *State, a []Val) Val { return app(name, srt, flattenAll(a)...) })
	}
	libFns = map[string]libFn{
		"strings.HasPrefix": pure(func(x *Exec, st *State, a []Val) Val {
			s, t := str(a[0]), str(a[1])
			return hasPre(sbase(s), soff(s), send(s), t)
		}),
		"strings.HasSuffix": pure(func(x *Exec, st *State, a []Val) Val {
			s, t := str(a[0]), str(a[1])
			return hasSuf(sbase(s), soff(s), send(s), t)
		}),
		"strings.TrimPrefix": pure(func(x *Exec, st *State, a []Val) Val {
			s, t := str(a[0]), str(a[1])
			return ite(hasPre(sbase(s), soff(s), send(s), t), mkStr(sbase(s), add(soff(s), slen(t)), sub(slen(s), slen(t))), s)
		}),
		"strings.TrimSuffix": pure(func(x *Exec, st *State, a []Val) Val {
			s, t := str(a[0]), str(a[1])
			return ite(hasSuf(sbase(s), soff(s), send(s), t), mkStr(sbase(s), soff(s), sub(slen(s), slen(t))), s)
		}),
		"strings.Index": pure(func(x *Exec, st *State, a []Val) Val {
			curSt = st
			return idxT(str(a[0]), str(a[1]))
		}),
		"strings.IndexAny": pure(func(x *Exec, st *State, a []Val) Val {
			s := str(a[0])
			return relTo(s, app("firstIn", SInt, sbase(s), soff(s), send(s), cAny(str(a[1]))))
		}),
		"strings.IndexRune": pure(func(x *Exec, st *State, a []Val) Val {
			s := str(a[0])
			return relTo(s, app("firstIn", SInt, sbase(s), soff(s), send(s), cEq(str(a[1]))))
		}),
		"strings.IndexFunc": pure(func(x *Exec, st *State, a []Val) Val {
			s := str(a[0])
			if _, known := funTab[str(a[1])]; known {
				return relTo(s, app("firstIn", SInt, sbase(s), soff(s), send(s), x.classOf(st, str(a[1]))))
			}
			return relTo(s, app("firstIn", SInt, sbase(s), soff(s), send(s), cFn(str(a[1]))))
		}),
		"strings.IndexByte": pure(func(x *Exec, st *State, a []Val) Val {
			s, c := str(a[0]), str(a[1])
			if c.isInt() && c.Int.Int64() < 128 {
				return relTo(s, app("firstIn", SInt, sbase(s), soff(s), send(s), cEq(c)))
			}
			return x.someIndex(st, s)
		}),
		"strings.LastIndexByte": pure(func(x *Exec, st *State, a []Val) Val {
			s, c := str(a[0]), str(a[1])
			if c.isInt() && c.Int.Int64() == 10 {
				return sub(sub(app("lineStart", SInt, sbase(s), soff(s), send(s)), soff(s)), one)
			}
			return x.someIndex(st, s)
		}),
		"strings.LastIndex": pure(func(x *Exec, st *State, a []Val) Val {
			s := str(a[0])
			if l, ok := litOf(str(a[1])); ok && l == "\n" {
				return sub(sub(app("lineStart", SInt, sbase(s), soff(s), send(s)), soff(s)), one)
			}
			t := str(a[1])
			r := x.someIndex(st, s)
			st.assume(implies(ne(r, minus1()), and(le(add(r, slen(t)), slen(s)), eqB(sbase(s), add(soff(s), r), sbase(t), soff(t), slen(t)))))
			return r
		}),
		"strings.ContainsRune": pure(func(x *Exec, st *State, a []Val) Val { return inCls(cAny(str(a[0])), str(a[1])) }),
		"strings.Contains": pure(func(x *Exec, st *State, a []Val) Val {
			s := str(a[0])
			if l, ok := litOf(str(a[1])); ok && l == markerText {
				return hasM(s)
			}
			return ne(idxT(s, str(a[1])), minus1())
		}),
		"strings.ContainsAny": pure(func(x *Exec, st *State, a []Val) Val {
			s := str(a[0])
			return ne(app("firstIn", SInt, sbase(s), soff(s), send(s), cAny(str(a[1]))), minus1())
		}),
		"strings.EqualFold": pure(func(x *Exec, st *State, a []Val) Val { return foldEq(str(a[0]), str(a[1])) }),
		"strings.Count": pure(func(x *Exec, st *State, a []Val) Val {
			s := str(a[0])
			if l, ok := litOf(str(a[1])); ok && len(l) == 1 {
				if s.Op == "crlf" && l != "\r" {
					s = s.Args[0] // ReplaceAll("\r\n" -> "\n") only removes CR bytes
				}
				return cntB(s, int64(l[0]))
			}
			r := app("strCount", SInt, s, str(a[1]))
			st.assume(le(zero, r))
			return r
		}),
		"strings.ReplaceAll": pure(func(x *Exec, st *State, a []Val) Val {
			o, okO := litOf(str(a[1]))
			n, okN := litOf(str(a[2]))
			if okO && okN && o == "\r\n" && n == "\n" {
				return app("crlf", SStr, str(a[0]))
			}
			return app("replaceAll", SStr, flattenAll(a)...)
		}),
		"strings.Split": func(x *Exec, st *State, a []Val, k cont) {
			s := str(a[0])
			sep, ok := litOf(str(a[1]))
			b := st.newBlock()
			key := "cell:string"
			curSt = st
			inner := app("splitArr", sArr(SStr), s, str(a[1]))
			st.mem[key] = sto(st.arr(key, SStr), b, inner)
			n := fresh("splitN", SInt)
			st.assume(le(one, n))
			if ok && sep == "\n" {
				src := s
				if s.Op == "crlf" {
					src = s.Args[0]
				}
				st.assume(eq(n, add(cntB(src, 10), one)))
				// the last piece is the text behind the last line feed; removing CR before LF does not touch it
				st.assume(eq(app("select", SStr, inner, sub(n, one)), lastLine(src)))
			}
			st.assume(le(n, maxLen))
			k(st, []Val{mkSl(b, zero, n, n)})
		},
		"strings.Join": pure(func(x *Exec, st *State, a []Val) Val {
			sl := str(a[0])
			curSt = st
			inner := sel(st.arr("cell:string", SStr), lblk(sl))
			return joinT(inner, loff(sl), llen(sl), str(a[1]))
		}),
		"strings.Repeat": func(x *Exec, st *State, a []Val, k cont) {
			x.oblige(st, "panic", "strings.Repeat count", le(zero, str(a[1])))
			k(st, []Val{app("repeat", SStr, flattenAll(a)...)})
		},
		"strings.Trim":               op1("strTrim", SStr),
		"strings.TrimSpace":          op1("strTrimSpace", SStr),
		"strings.ToLower":            op1("strLower", SStr),
		"strings.ToUpper":            op1("strUpper", SStr),
		"strconv.Quote":              op1("quote", SStr),
		"strconv.QuoteToGraphic":     op1("quoteG", SStr),
		"strconv.QuoteRuneToGraphic": op1("quoteRG", SStr),
		"strconv.QuoteRune":          op1("quoteR", SStr),
		"strconv.Itoa":               pure(func(x *Exec, st *State, a []Val) Val { return itoaT(str(a[0])) }),
		"unicode/utf8.DecodeRuneInString": func(x *Exec, st *State, a []Val, k cont) {
			r, w := decodeAt(str(a[0]), zero)
			k(st, []Val{r, w})
		},
		"unicode/utf8.DecodeLastRuneInString": func(x *Exec, st *State, a []Val, k cont) {
			r, w := decodeLast(str(a[0]))
			k(st, []Val{r, w})
		},
		"unicode/utf8.RuneLen": pure(func(x *Exec, st *State, a []Val) Val { return runeLenT(str(a[0])) }),
		"unicode/utf8.RuneCountInString": pure(func(x *Exec, st *State, a []Val) Val {
			s := str(a[0])
			if l, ok := litOf(s); ok {
				return inum(int64(utf8.RuneCountInString(l)))
			}
			n := app("runeCnt", SInt, sbase(s), soff(s), send(s))
			st.assume(and(le(zero, n), le(n, slen(s))))
			return n
		}),
		"unicode/utf8.ValidString": op1("validStr", SBool),
		"unicode/utf8.ValidRune":   pure(func(x *Exec, st *State, a []Val) Val { return le(one, runeLenT(str(a[0]))) }),
		"fmt.Sprintf":              pure(func(x *Exec, st *State, a []Val) Val { return x.sprintf(st, str(a[0]), str(a[1])) }),
		"fmt.Errorf":               pure(func(x *Exec, st *State, a []Val) Val { return fmtErrT(x.sprintf(st, str(a[0]), str(a[1]))) }),
		"errors.New":               pure(func(x *Exec, st *State, a []Val) Val { return fmtErrT(str(a[0])) }),
		"fmt.Println":              func(x *Exec, st *State, a []Val, k cont) { k(st, []Val{fresh("n", SInt), fresh("e", SIface)}) },
		"(*strings.Builder).WriteString": func(x *Exec, st *State, a []Val, k cont) {
			sbApp(st, a[0], str(a[1]))
			k(st, []Val{slen(str(a[1])), nilIface})
		},
		"(*strings.Builder).WriteRune": func(x *Exec, st *State, a []Val, k cont) {
			r := str(a[1])
			t := app("strOfRune", SStr, r)
			if r.isInt() {
				t = litStr(string(rune(r.Int.Int64())))
			}
			sbApp(st, a[0], t)
			k(st, []Val{slen(t), nilIface})
		},
		"(*strings.Builder).WriteByte": func(x *Exec, st *State, a []Val, k cont) {
			r := str(a[1])
			t := app("strOfByte", SStr, r)
			if r.isInt() {
				t = litStr(string([]byte{byte(r.Int.Int64())}))
			}
			sbApp(st, a[0], t)
			k(st, []Val{nilIface})
		},
		"(*strings.Builder).String": pure(func(x *Exec, st *State, a []Val) Val { return sbGet(st, a[0]) }),
		"(*strings.Builder).Len":    pure(func(x *Exec, st *State, a []Val) Val { return slen(sbGet(st, a[0])) }),
	}
	for n := range libFns {
		_ = n
	}
}

// markerText is the value of the package constant InvalidReaderMarker.
var markerText = "::INVALID-READER::"

func flattenAll(a []Val) []*Term {
	var out []*Term
	for _, v := range a {
		out = append(out, flatten(v)...)
	}
	return out
}

func sbPtr(v Val) *PtrV {
	p := v.(*PtrV)
	return &PtrV{types.Typ[types.String], p.key + ".$sb", p.ref}
}
func sbGet(st *State, v Val) *Term {
	p := sbPtr(v)
	return st.loadLeaf(p.key, SStr, p.ref)
}
func sbApp(st *State, v Val, s *Term) {
	p := sbPtr(v)
	st.storeLeaf(p.key, SStr, p.ref, concat(sbGet(st, v), s))
}

func (x *Exec) someIndex(st *State, s *Term) *Term {
	r := fresh("index", SInt)
	st.assume(and(le(minus1(), r), or(eq(r, minus1()), lt(r, slen(s)), eq(r, slen(s)))))
	return r
}

// cntB is the number of bytes c in s.
func cntB(s *Term, c int64) *Term {
	if l, ok := litOf(s); ok {
		return inum(int64(strings.Count(l, string([]byte{byte(c)}))))
	}
	return app("cntB", SInt, sbase(s), soff(s), send(s), inum(c))
}

func lastLine(s *Term) *Term {
	ls := app("lineStart", SInt, sbase(s), soff(s), send(s))
	return mkStr(sbase(s), ls, sub(send(s), ls))
}

func joinT(inner, o, n, sep *Term) *Term { return app("join", SStr, inner, o, n, sep) }

// classOf describes a known predicate closure as a rune class by evaluating it on a symbolic rune.
func (x *Exec) classOf(st *State, f *Term) *Term {
	fi := funTab[f]
	if len(fi.fn.Params) != 1 {
		unsup("predicate with %d parameters", len(fi.fn.Params))
	}
	r := cst("cls_rune", SInt)
	var cond []*Term
	t := st.clone()
	n0 := len(t.pc)
	x.quiet++
	defer func() { x.quiet-- }()
	x.inline(t, fi.fn, []Val{r}, fi.bind, func(s *State, res []Val) {
		cond = append(cond, and(append(append([]*Term{}, s.pc[n0:]...), res[0].(*Term))...))
	})
	return app("cLam", "Cls", or(cond...))
}

var _ = strconv.Itoa
var _ = fmt.Sprint

func init() { sortLib() }
