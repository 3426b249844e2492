package main

import (
	"errors"
	"fmt"
	"math/big"
	"strings"
	"unicode"
	"unicode/utf8"

	. "github.com/aiq/tok"
)

// experr describes an expected error.
type experr struct {
	read  bool
	pos   int
	what  string // "*" if not specified
	plain string
	any   bool // nothing is specified
}

// node is a reader together with its meaning: a function of text and position.
type node struct {
	r    Reader
	name string
	ref  func(text string, p int) (bool, int)
	err  func(text string, p int) experr // for a failing read
	inv  bool                            // contains an invalid reader
}

func leafErr(r Reader) func(string, int) experr {
	w := r.What()
	return func(text string, p int) experr { return experr{read: true, pos: p, what: w} }
}

func clsNode(r Reader, name string, in func(rune) bool) node {
	return node{r: r, name: name, ref: func(text string, p int) (bool, int) { return refFwd(text, p, "If", in) }, err: leafErr(r)}
}

func litNode(w string) node {
	r := Lit(w)
	return node{r: r, name: fmt.Sprintf("Lit(%q)", w), err: leafErr(r), ref: func(text string, p int) (bool, int) {
		if hasPrefix(text[p:], w) {
			return true, p + len(w)
		}
		return false, p
	}}
}

func foldNode(w string) node {
	r := Fold(w)
	return node{r: r, name: fmt.Sprintf("Fold(%q)", w), err: leafErr(r), ref: func(text string, p int) (bool, int) {
		if hasPrefixFold(text[p:], w) {
			return true, p + len(w)
		}
		return false, p
	}}
}

var errPlain = errors.New("plain error")

// custom readers that keep the promise of readers: never backward, restored on error.
func customNode(k int) node {
	step := func(text string, p int) (bool, int) {
		switch (p*7 + len(text)*3 + k) % 4 {
		case 0:
			return false, p
		case 1:
			return true, p
		case 2:
			if q, ok := refRunes(text, p, 1); ok {
				return true, q
			}
			return false, p
		}
		if q, ok := refRunes(text, p, 2); ok {
			return true, q
		}
		return false, p
	}
	name := fmt.Sprintf("custom%d", k)
	r := Wrap(name, func(s *Scanner) error {
		text := s.Head() + s.Tail()
		p := int(s.Mark())
		ok, q := step(text, p)
		if !ok {
			if k%2 == 0 {
				return errPlain
			}
			return ReadError{Marker: Marker(p + k), What: name}
		}
		s.ToMarker(Marker(q))
		return nil
	})
	return node{r: r, name: name, ref: step, err: func(text string, p int) experr {
		if k%2 == 0 {
			return experr{plain: errPlain.Error()}
		}
		return experr{read: true, pos: p + k, what: name}
	}}
}

func inRangesRef(mm []rune, singles string) func(r rune) bool {
	return func(r rune) bool {
		for i := 0; i+1 < len(mm); i += 2 {
			if mm[i] <= r && r <= mm[i+1] {
				return true
			}
		}
		for _, x := range singles {
			if x == r {
				return true
			}
		}
		return false
	}
}

func invalidNode(r Reader, name string) node {
	return node{r: r, name: name, inv: true, ref: func(text string, p int) (bool, int) { return false, p }, err: func(string, int) experr { return experr{any: true} }}
}

func (s *S) leaf(text string, inv bool) node {
	if inv && s.Intn(4) == 0 {
		switch s.Intn(4) {
		case 0:
			return invalidNode(InvalidReader("broken %d", 3), "InvalidReader")
		case 1:
			return invalidNode(BetweenAny("a-"), `BetweenAny("a-")`)
		case 2:
			return invalidNode(BetweenAny("a+z"), `BetweenAny("a+z")`)
		}
		return invalidNode(Seq("a", 3.5), `Seq("a", 3.5)`)
	}
	switch s.Intn(17) {
	case 0, 1, 2:
		return litNode(s.word(text))
	case 3:
		return foldNode(s.word(text))
	case 4:
		r := s.rune(text)
		return clsNode(Rune(r), fmt.Sprintf("Rune(%q)", r), func(x rune) bool { return x == r })
	case 5:
		w := s.word(text)
		return clsNode(AnyRune(w), fmt.Sprintf("AnyRune(%q)", w), inRangesRef(nil, w))
	case 6:
		a, b := s.rune(text), s.rune(text)
		return clsNode(Between(a, b), fmt.Sprintf("Between(%q,%q)", a, b), func(x rune) bool { return a <= x && x <= b })
	case 7:
		r := AtEnd()
		return node{r: r, name: "AtEnd()", err: leafErr(r), ref: func(text string, p int) (bool, int) { return p == len(text), p }}
	case 8:
		return clsNode(Match("letter", unicode.IsLetter), "Match(IsLetter)", unicode.IsLetter)
	case 9:
		a, b, h := s.rune(text), s.rune(text), s.word(text)
		if a > b {
			a, b = b, a
		}
		hole := inRangesRef(nil, h)
		return clsNode(Holey(a, b, h), fmt.Sprintf("Holey(%q,%q,%q)", a, b, h), func(x rune) bool { return a <= x && x <= b && !hole(x) })
	case 10:
		n := s.Intn(3)
		var mm []rune
		str := ""
		for i := 0; i < n; i++ {
			a, b := s.rune(text), s.rune(text)
			mm = append(mm, a, b)
			str += string(a) + "-" + string(b)
		}
		switch s.Intn(3) {
		case 0:
			return clsNode(BetweenAny(str), fmt.Sprintf("BetweenAny(%q)", str), inRangesRef(mm, ""))
		case 1:
			return clsNode(BuildBetweenAny(mm...), fmt.Sprintf("BuildBetweenAny(%q)", mm), inRangesRef(mm, ""))
		}
		w := s.word(text)
		return clsNode(Set(str, w), fmt.Sprintf("Set(%q,%q)", str, w), inRangesRef(mm, w))
	case 11:
		switch s.Intn(4) {
		case 0:
			return clsNode(Digit(), "Digit()", func(r rune) bool { return r >= '0' && r <= '9' })
		case 1:
			return clsNode(HexDigit(), "HexDigit()", func(r rune) bool { return strings.ContainsRune("0123456789abcdefABCDEF", r) && r < 128 })
		case 2:
			return clsNode(WS(), "WS()", func(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' })
		}
		return node{r: NL(), name: "NL()", err: func(string, int) experr { return experr{any: true} }, ref: func(text string, p int) (bool, int) {
			if hasPrefix(text[p:], "\n") {
				return true, p + 1
			}
			if hasPrefix(text[p:], "\r\n") {
				return true, p + 2
			}
			return false, p
		}}
	case 12:
		l := s.strs(text)
		return node{r: AnyFold(l...), name: fmt.Sprintf("AnyFold(%q)", l), err: func(string, int) experr { return experr{any: true} }, ref: func(text string, p int) (bool, int) {
			for _, w := range l {
				if hasPrefixFold(text[p:], w) {
					return true, p + len(w)
				}
			}
			return false, p
		}}
	case 13:
		b, n := []int{8, 10, 16}[s.Intn(3)], []int{8, 16, 32, 64}[s.Intn(4)]
		if s.Intn(2) == 0 {
			return node{r: Int(b, n), name: fmt.Sprintf("Int(%d,%d)", b, n), err: func(text string, p int) experr { return experr{read: true, pos: p, what: "*"} }, ref: func(text string, p int) (bool, int) {
				ok, q, _ := refInt(text, p, b, n, true)
				return ok, q
			}}
		}
		return node{r: Uint(b, n), name: fmt.Sprintf("Uint(%d,%d)", b, n), err: func(text string, p int) experr { return experr{read: true, pos: p, what: "*"} }, ref: func(text string, p int) (bool, int) {
			ok, q, _ := refInt(text, p, b, n, false)
			return ok, q
		}}
	case 14:
		f := []string{"l", "U", "Cc", "*", ""}[s.Intn(5)]
		return node{r: Bool(f), name: fmt.Sprintf("Bool(%q)", f), err: func(text string, p int) experr { return experr{read: true, pos: p, what: "*"} }, ref: func(text string, p int) (bool, int) {
			ok, q, _ := refBool(text, p, f)
			return ok, q
		}}
	}
	return customNode(s.Intn(8))
}

// spec of the combinators

func (s *S) tree(text string, depth int, inv bool) node {
	if depth == 0 || s.Intn(4) == 0 {
		return s.leaf(text, inv)
	}
	sub := func() node { return s.tree(text, depth-1, inv) }
	list := func() ([]node, []interface{}, string, bool) {
		var ns []node
		var is []interface{}
		var nm []string
		iv := false
		for k := s.Intn(4); k > 0; k-- {
			n := sub()
			ns = append(ns, n)
			is = append(is, n.r)
			nm = append(nm, n.name)
			iv = iv || n.inv
		}
		return ns, is, strings.Join(nm, ","), iv
	}
	own := func(r Reader) func(string, int) experr { return leafErr(r) }
	switch s.Intn(18) {
	case 0, 1:
		ns, is, nm, iv := list()
		return node{r: Seq(is...), name: "Seq(" + nm + ")", inv: iv, ref: func(t string, p int) (bool, int) { return refSeq(ns, t, p) }, err: func(t string, p int) experr {
			q := p
			for _, n := range ns {
				ok, e := n.ref(t, q)
				if !ok {
					return n.err(t, q)
				}
				q = e
			}
			return experr{any: true}
		}}
	case 2, 3:
		ns, is, nm, iv := list()
		return node{r: Any(is...), name: "Any(" + nm + ")", inv: iv, ref: func(t string, p int) (bool, int) {
			for _, n := range ns {
				if ok, q := n.ref(t, p); ok {
					return true, q
				}
			}
			return false, p
		}, err: func(t string, p int) experr {
			best := experr{read: true, pos: 0, what: ""}
			for _, n := range ns {
				e := n.err(t, p)
				if e.any {
					return e
				}
				if e.read && e.pos >= best.pos {
					best = e
				}
			}
			return best
		}}
	case 4:
		n := sub()
		return node{r: Opt(n.r), name: "Opt(" + n.name + ")", inv: n.inv, ref: func(t string, p int) (bool, int) {
			if ok, q := n.ref(t, p); ok {
				return true, q
			}
			return true, p
		}, err: func(string, int) experr { return experr{any: true} }}
	case 5, 6:
		n := sub()
		return node{r: Zom(n.r), name: "Zom(" + n.name + ")", inv: n.inv, ref: func(t string, p int) (bool, int) { return true, refZom(n, t, p) }, err: func(string, int) experr { return experr{any: true} }}
	case 7:
		n := sub()
		r := Many(n.r)
		return node{r: r, name: "Many(" + n.name + ")", inv: n.inv, ref: func(t string, p int) (bool, int) {
			q := refZom(n, t, p)
			return q > p, q
		}, err: own(r)}
	case 8:
		n := sub()
		k := s.Intn(5) - 1
		return node{r: Times(k, n.r), name: fmt.Sprintf("Times(%d,%s)", k, n.name), inv: n.inv, ref: func(t string, p int) (bool, int) {
			q := p
			for i := 0; i < k; i++ {
				ok, e := n.ref(t, q)
				if !ok {
					return false, p
				}
				q = e
			}
			return true, q
		}, err: func(t string, p int) experr {
			q := p
			for i := 0; i < k; i++ {
				ok, e := n.ref(t, q)
				if !ok {
					return n.err(t, q)
				}
				q = e
			}
			return experr{any: true}
		}}
	case 9:
		n := sub()
		ns, is, nm, iv := list()
		all := []node{n}
		for _, x := range ns {
			all = append(all, x, n)
		}
		return node{r: SkipSeq(n.r, is...), name: "SkipSeq(" + n.name + ";" + nm + ")", inv: iv || n.inv, ref: func(t string, p int) (bool, int) { return refSeq(all, t, p) }, err: func(t string, p int) experr {
			q := p
			for _, n := range all {
				ok, e := n.ref(t, q)
				if !ok {
					return n.err(t, q)
				}
				q = e
			}
			return experr{any: true}
		}}
	case 10:
		n := sub()
		return node{r: At(n.r), name: "At(" + n.name + ")", inv: n.inv, ref: func(t string, p int) (bool, int) {
			ok, _ := n.ref(t, p)
			return ok, p
		}, err: n.err}
	case 11:
		n := sub()
		r := Not(n.r)
		return node{r: r, name: "Not(" + n.name + ")", inv: n.inv, ref: func(t string, p int) (bool, int) {
			if ok, _ := n.ref(t, p); ok || p == len(t) {
				return false, p
			}
			q, _ := refRunes(t, p, 1)
			return true, q
		}, err: func(t string, p int) experr { return experr{read: true, pos: p, what: "*"} }}
	case 12:
		n := sub()
		r := To(n.r)
		return node{r: r, name: "To(" + n.name + ")", inv: n.inv, ref: func(t string, p int) (bool, int) {
			q, ok := p, true
			for ok {
				if m, _ := n.ref(t, q); m {
					return true, q
				}
				q, ok = refRunes(t, q, 1)
			}
			return false, p
		}, err: own(r)}
	case 13:
		n := sub()
		r := Past(n.r)
		return node{r: r, name: "Past(" + n.name + ")", inv: n.inv, ref: func(t string, p int) (bool, int) {
			for q := p; q < len(t); q, _ = refRunes(t, q, 1) {
				if m, e := n.ref(t, q); m {
					return true, e
				}
			}
			return false, p
		}, err: own(r)}
	case 14, 15:
		b, n := sub(), sub()
		bt := s.Intn(2) == 0
		r, nm := Body(b.r, n.r), "Body("
		if bt {
			r, nm = BodyTail(b.r, n.r), "BodyTail("
		}
		return node{r: r, name: nm + b.name + "," + n.name + ")", inv: n.inv || b.inv, ref: func(t string, p int) (bool, int) {
			for q := p; q < len(t); q, _ = refRunes(t, q, 1) {
				if m, e := n.ref(t, q); m {
					ok, z := b.ref(t[p:q], 0)
					if !ok || z != q-p {
						return false, p
					}
					if bt {
						return true, e
					}
					return true, q
				}
			}
			return false, p
		}, err: own(r)}
	case 16:
		n := sub()
		if n.inv {
			return n
		}
		return node{r: Named("nm", n.r), name: "Named(" + n.name + ")", ref: n.ref, err: n.err}
	}
	n := sub()
	switch s.Intn(4) {
	case 0:
		return node{r: Map(n.r, func(Token) {}), name: "Map(" + n.name + ")", ref: n.ref, err: n.err, inv: n.inv}
	case 1:
		return node{r: Monitor(n.r, &Log{}, "i"), name: "Monitor(" + n.name + ")", ref: n.ref, err: n.err, inv: n.inv}
	case 2:
		return node{r: Pick(n.r, &Basket{}, "i"), name: "Pick(" + n.name + ")", ref: n.ref, err: n.err, inv: n.inv}
	}
	if n.inv {
		return n
	}
	return node{r: &Rule{Name: "rule", Reader: n.r}, name: "Rule(" + n.name + ")", ref: n.ref, err: n.err}
}

func refSeq(ns []node, t string, p int) (bool, int) {
	q := p
	for _, n := range ns {
		ok, e := n.ref(t, q)
		if !ok {
			return false, p
		}
		q = e
	}
	return true, q
}

func refZom(n node, t string, p int) int {
	for {
		ok, q := n.ref(t, p)
		if !ok || q == p {
			return p
		}
		p = q
	}
}

func (s *S) treeText() string {
	if s.Intn(3) == 0 {
		return strings.Repeat("a", s.Intn(3)) + strings.Repeat("b", s.Intn(3)) + strings.Repeat("1", s.Intn(3)) + s.text(3)
	}
	return s.text(8)
}

func (s *S) trees(depth int, inv bool, f func(text string, p int, n node)) {
	for !s.over() {
		text := s.treeText()
		d := 1 + s.Intn(depth)
		n := s.tree(text, d, inv)
		s.each(text, 1, func(p int) { f(text, p, n) })
	}
}

func descNode(text string, p int, n node) func() string {
	return func() string { return fmt.Sprintf("text %q position %d: %s", text, p, n.name) }
}

func searchC07(s *S) {
	s.trees(3, true, func(text string, p int, n node) {
		s.do(descNode(text, p, n), func() {
			sc := at(text, p)
			err := n.r.Read(sc)
			q := s.intact(sc, text)
			if err != nil && q != p {
				s.bad("fails and leaves the scanner at %d", q)
			}
			if q < p {
				s.bad("moves backward to %d", q)
			}
		})
	})
}

func searchC08(s *S) {
	s.trees(3, true, func(text string, p int, n node) {
		s.do(descNode(text, p, n), func() {
			sc := at(text, p)
			err := n.r.Read(sc)
			ok, q := n.ref(text, p)
			if !ok {
				q = p
			}
			s.expect(sc, text, err == nil, ok, q)
		})
	})
}

func searchC12(s *S) {
	for !s.over() {
		text := s.treeText()
		if s.Intn(2) == 0 {
			text = s.text(12)
		}
		n := s.tree(text, 1+s.Intn(3), true)
		s.each(text, 1, func(p int) {
			s.do(descNode(text, p, n), func() { n.r.Read(at(text, p)) })
			name, f := s.op(text)
			s.do(func() string { return fmt.Sprintf("text %q position %d: %s", text, p, name) }, func() { f(at(text, p)) })
		})
	}
}

func searchC09(s *S) {
	s.texts(2, func(text string) {
		for i := 0; i < 6; i++ {
			n := s.leaf(text, true)
			if strings.HasPrefix(n.name, "custom") {
				continue
			}
			s.each(text, 1, func(p int) {
				s.do(descNode(text, p, n), func() {
					sc := at(text, p)
					err := n.r.Read(sc)
					ok, q := n.ref(text, p)
					if !ok {
						q = p
					}
					s.expect(sc, text, err == nil, ok, q)
				})
			})
		}
		// constructors with odd arguments
		str := s.word(text)
		rs := []rune(str)
		good := len(rs)%3 == 0
		var mm []rune
		for i := 0; good && i < len(rs); i += 3 {
			if rs[i+1] != '-' {
				good = false
			}
			mm = append(mm, rs[i], rs[i+2])
		}
		in := inRangesRef(mm, "")
		if !good {
			in = func(rune) bool { return false }
		}
		w := s.word(text)
		inS := inRangesRef(mm, w)
		if !good {
			inS = in
		}
		odd := append(append([]rune{}, mm...), 'x')
		bads := []struct {
			n string
			r Reader
		}{
			{fmt.Sprintf("BuildBetweenAny(%q)", odd), BuildBetweenAny(odd...)},
			{"Any(Lit(w), 1)", Any(Lit(w), 1)}, {"Any(true)", Any(true)}, {"Seq(Lit(w), []byte)", Seq(Lit(w), []byte{1})}, {"Many(1.5)", Many(1.5)},
			{"Zom(nil)", Zom(nil)}, {"Opt(7)", Opt(7)}, {"To(7)", To(7)}, {"Past(byte)", Past(byte('a'))},
			{"SkipSeq(Lit, 3)", SkipSeq(Lit(""), 3)}, {"SkipWSSeq(3)", SkipWSSeq("", 3)},
		}
		p := s.pos(text)
		for _, b := range bads {
			b := b
			n := invalidNode(b.r, b.n)
			s.do(descNode(text, p, n), func() {
				sc := at(text, p)
				err := n.r.Read(sc)
				s.expect(sc, text, err == nil, false, p)
			})
		}
		for _, n := range []node{clsNode(BetweenAny(str), fmt.Sprintf("BetweenAny(%q)", str), in), clsNode(Set(str, w), fmt.Sprintf("Set(%q,%q)", str, w), inS)} {
			n := n
			s.do(descNode(text, p, n), func() {
				sc := at(text, p)
				err := n.r.Read(sc)
				ok, q := n.ref(text, p)
				s.expect(sc, text, err == nil, ok, q)
			})
		}
		// arguments of any supported type
		r := s.rune(text)
		for _, n := range []node{
			{r: Seq(r, w), name: fmt.Sprintf("Seq(%q,%q)", r, w), ref: func(t string, p int) (bool, int) {
				ok, q := refFwd(t, p, "If", func(x rune) bool { return x == r })
				if ok && hasPrefix(t[q:], w) {
					return true, q + len(w)
				}
				return false, p
			}},
			{r: Any(w, r), name: fmt.Sprintf("Any(%q,%q)", w, r), ref: func(t string, p int) (bool, int) {
				if hasPrefix(t[p:], w) {
					return true, p + len(w)
				}
				return refFwd(t, p, "If", func(x rune) bool { return x == r })
			}},
		} {
			n := n
			s.do(descNode(text, p, n), func() {
				sc := at(text, p)
				err := n.r.Read(sc)
				ok, q := n.ref(text, p)
				s.expect(sc, text, err == nil, ok, q)
			})
		}
	})
}

func digVal(b byte) int {
	switch {
	case b >= '0' && b <= '9':
		return int(b - '0')
	case b >= 'a' && b <= 'f':
		return int(b-'a') + 10
	case b >= 'A' && b <= 'F':
		return int(b-'A') + 10
	}
	return 99
}

func refInt(text string, p, base, bits int, signed bool) (bool, int, *big.Int) {
	v := new(big.Int)
	if (base != 8 && base != 10 && base != 16) || (bits != 8 && bits != 16 && bits != 32 && bits != 64) {
		return false, p, v
	}
	min, max := new(big.Int), new(big.Int)
	neg := false
	q := p
	if signed {
		max.Lsh(big.NewInt(1), uint(bits-1))
		min.Neg(max)
		max.Sub(max, big.NewInt(1))
		if q < len(text) && (text[q] == '-' || text[q] == '+') {
			neg = text[q] == '-'
			q++
		}
	} else {
		max.Lsh(big.NewInt(1), uint(bits))
		max.Sub(max, big.NewInt(1))
	}
	st := q
	for q < len(text) {
		d := digVal(text[q])
		if d >= base {
			break
		}
		n := new(big.Int).Mul(v, big.NewInt(int64(base)))
		if neg {
			n.Sub(n, big.NewInt(int64(d)))
		} else {
			n.Add(n, big.NewInt(int64(d)))
		}
		if n.Cmp(min) < 0 || n.Cmp(max) > 0 {
			break
		}
		v = n
		q++
	}
	if q == st {
		return false, p, v
	}
	return true, q, v
}

func (s *S) numText() string {
	var b strings.Builder
	b.WriteString([]string{"", "", "-", "+", "--", "x", " "}[s.Intn(7)])
	lim := []string{"127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "4294967295", "4294967296",
		"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "7f", "80", "ff", "100", "7fff", "8000", "ffff", "10000",
		"7fffffff", "80000000", "ffffffff", "7fffffffffffffff", "8000000000000000", "ffffffffffffffff", "177", "200", "377", "400", "77777", "100000", "177777", "200000",
		"777777777777777777777", "1000000000000000000000", "1777777777777777777777", "2000000000000000000000", "17777777777", "20000000000", "37777777777", "40000000000"}
	switch s.Intn(4) {
	case 0:
		for k := s.Intn(25); k > 0; k-- {
			b.WriteByte("0123456789abcdefABCDEF"[s.Intn(22)])
		}
	case 1:
		n := new(big.Int).SetBit(new(big.Int), s.Intn(66), 1)
		n.Add(n, big.NewInt(int64(s.Intn(5)-2)))
		b.WriteString(strings.TrimPrefix(n.Text([]int{8, 10, 16}[s.Intn(3)]), "-"))
	case 2:
		b.WriteString(strings.Repeat("0", s.Intn(3)))
		l := lim[s.Intn(len(lim))]
		b.WriteString(l)
	case 3:
		l := []byte(lim[s.Intn(len(lim))])
		l[s.Intn(len(l))] = "0123456789abcdefABCDEF"[s.Intn(22)]
		b.Write(l)
	}
	b.WriteString([]string{"", "0", "9", "f", "g", "8", ".", "é", "\x80", "7"}[s.Intn(10)])
	return b.String()
}

func searchC10(s *S) {
	for !s.over() {
		pre := []string{"", "a", "1"}[s.Intn(3)]
		text := pre
		if s.Intn(5) == 0 {
			text += []string{"-", "+", "--", "-+", "+-", " ", "-0", "+0", "0x", "00"}[s.Intn(10)]
		}
		text += s.numText()
		p := len(pre)
		base := []int{8, 10, 16, 8, 10, 16, 8, 10, 16, 2, 0, -1, 36}[s.Intn(13)]
		bits := []int{8, 16, 32, 64, 8, 16, 32, 64, 8, 16, 32, 64, 0, 7, 128, -8}[s.Intn(16)]
		for _, signed := range []bool{true, false} {
			signed := signed
			name := map[bool]string{true: "ReadInt", false: "ReadUint"}[signed]
			for _, rd := range []bool{false, true} {
				rd := rd
				s.do(func() string {
					return fmt.Sprintf("text %q position %d: %s(%d,%d) reader=%v", text, p, name, base, bits, rd)
				}, func() {
					sc := at(text, p)
					ok, to, v := refInt(text, p, base, bits, signed)
					var err error
					got := new(big.Int)
					switch {
					case signed && rd:
						r := Int(base, bits)
						err = r.Read(sc)
						got.SetInt64(r.Value)
					case signed:
						var x int64
						x, err = sc.ReadInt(base, bits)
						got.SetInt64(x)
					case rd:
						r := Uint(base, bits)
						err = r.Read(sc)
						got.SetUint64(r.Value)
					default:
						var x uint64
						x, err = sc.ReadUint(base, bits)
						got.SetUint64(x)
					}
					s.expect(sc, text, err == nil, ok, to)
					if ok && got.Cmp(v) != 0 {
						s.bad("returns %v, expected %v", got, v)
					}
				})
			}
		}
	}
}

func refBool(text string, p int, f string) (bool, int, bool) {
	sp := map[string][]string{"l": {"true", "false"}, "U": {"TRUE", "FALSE"}, "Cc": {"True", "False"}}
	var use [][]string
	if f == "*" || f == "" {
		use = [][]string{sp["l"], sp["U"], sp["Cc"]}
	} else if x, ok := sp[f]; ok {
		use = [][]string{x}
	}
	for _, u := range use {
		for i, w := range u {
			if hasPrefix(text[p:], w) {
				return true, p + len(w), i == 0
			}
		}
	}
	return false, p, false
}

func searchC11(s *S) {
	words := []string{"true", "false", "TRUE", "FALSE", "True", "False", "tRUE", "fALSE", "tru", "fals", "truefalse", "FALSe", "t", "", "Tr", "TRue"}
	pres := []string{"", "a", "é", "\x80"}
	posts := []string{"", "x", "e", "\x80"}
	formats := []string{"l", "U", "Cc", "*", "", "L", "u", "cC", "x", "ll", " ", "Ccc", "lU"}
	for _, pre := range pres {
		for _, w := range words {
			for _, post := range posts {
				for _, f := range formats {
					for _, rd := range []bool{false, true} {
						text, p, f, rd := pre+w+post, len(pre), f, rd
						s.do(func() string { return fmt.Sprintf("text %q position %d: ReadBool(%q) reader=%v", text, p, f, rd) }, func() {
							sc := at(text, p)
							ok, to, v := refBool(text, p, f)
							var got bool
							var err error
							if rd {
								r := Bool(f)
								err = r.Read(sc)
								got = r.Value
							} else {
								got, err = sc.ReadBool(f)
							}
							s.expect(sc, text, err == nil, ok, to)
							if ok && got != v {
								s.bad("returns %v, expected %v", got, v)
							}
						})
					}
				}
			}
		}
	}
	s.exhaust = true
}

func (s *S) sameErr(err error, e experr) {
	if e.any {
		return
	}
	re, isRead := err.(ReadError)
	if e.read != isRead {
		s.bad("returns error %#v, expected a ReadError: %v", err, e.read)
	}
	if !e.read {
		if err.Error() != e.plain {
			s.bad("returns error %q, expected %q", err, e.plain)
		}
		return
	}
	if int(re.Marker) != e.pos || (e.what != "*" && re.What != e.what) {
		s.bad("returns error %#v, expected position %d and %q", err, e.pos, e.what)
	}
}

func searchC21(s *S) {
	s.trees(3, true, func(text string, p int, n node) {
		s.do(descNode(text, p, n), func() {
			sc := at(text, p)
			err := n.r.Read(sc)
			if ok, _ := n.ref(text, p); !ok && err != nil {
				s.sameErr(err, n.err(text, p))
			}
		})
		if s.Intn(20) == 0 {
			b := s.Intn(2) == 0
			nm := s.word(text)
			s.do(func() string {
				return fmt.Sprintf("text %q position %d: ErrorIfFalse(%v,%q), ErrorFor", text, p, b, nm)
			}, func() {
				sc := at(text, p)
				e := sc.ErrorIfFalse(b, nm)
				if b && e != nil {
					s.bad("returns %v", e)
				}
				if !b {
					s.sameErr(e, experr{read: true, pos: p, what: nm})
				}
				s.sameErr(sc.ErrorFor(nm), experr{read: true, pos: p, what: nm})
			})
		}
	})
}

func searchC22(s *S) {
	const marker = "::INVALID-READER::"
	for !s.over() {
		text := s.text(3)
		n := s.tree(text, 1+s.Intn(3), true)
		s.do(func() string { return n.name + ".What()" }, func() {
			w := n.r.What()
			if n.inv && !strings.Contains(w, marker) {
				s.bad("contains an invalid reader, but the description is %q", w)
			}
			if HasInvalidReader(w) != strings.Contains(w, marker) {
				s.bad("HasInvalidReader(%q) is %v", w, HasInvalidReader(w))
			}
			if n.inv {
				r := &Rule{Name: "x", Reader: n.r}
				if !HasInvalidReader(r.Rule()) {
					s.bad("the rule line is %q", r.Rule())
				}
				if l := GrammarLines([]*Rule{{Name: "a", Reader: Lit("a")}, r}); !AnyHasInvalidReader(l) {
					s.bad("the grammar lines are %q", l)
				}
				jb, _ := Janus("j", n.r)
				if !HasInvalidReader(jb.What()) {
					s.bad("the janus description is %q", jb.What())
				}
			}
		})
		l := s.strs(text)
		want := false
		for i := range l {
			if s.Intn(4) == 0 {
				l[i] += []string{marker, marker[:len(marker)-1], marker[1:], ":" + marker + "x"}[s.Intn(4)]
			}
			want = want || strings.Contains(l[i], marker)
		}
		s.do(func() string { return fmt.Sprintf("AnyHasInvalidReader(%q)", l) }, func() {
			if AnyHasInvalidReader(l) != want {
				s.bad("returns %v", !want)
			}
			for _, x := range l {
				if HasInvalidReader(x) != strings.Contains(x, marker) {
					s.bad("HasInvalidReader(%q) is wrong", x)
				}
			}
		})
	}
}

func searchC06(s *S) {
	s.texts(3, func(text string) {
		for i := 0; i < 4; i++ {
			p, q, b := s.pos(text), s.pos(text), s.Intn(2) == 0
			lo, hi := p, q
			if lo > hi {
				lo, hi = hi, lo
			}
			want := p
			if b {
				want = q
			}
			part := text[lo:hi]
			myErr := fmt.Errorf("my error")
			calls := 0
			chk := func(name string, f func(sc *Scanner, rd Reader, rf ReadFunc, sf func() bool)) {
				s.do(func() string {
					return fmt.Sprintf("text %q position %d: %s of a function that moves to %d and returns success=%v", text, p, name, q, b)
				}, func() {
					calls = 0
					sc := at(text, p)
					rf := func(x *Scanner) error {
						calls++
						x.ToMarker(Marker(q))
						if b {
							return nil
						}
						return myErr
					}
					f(sc, Wrap("w", rf), rf, func() bool { calls++; sc.ToMarker(Marker(q)); return b })
					if s.intact(sc, text) != want {
						s.bad("leaves the scanner at %d, expected %d", sc.Mark(), want)
					}
					if calls != 1 {
						s.bad("calls the function %d times", calls)
					}
				})
			}
			res := func(ok bool) {
				if ok != b {
					s.bad("returns %v", ok)
				}
			}
			eres := func(err error) {
				if (err == nil) != b || (!b && err != myErr) {
					s.bad("returns %v", err)
				}
			}
			str := func(x string) {
				if b && x != part {
					s.bad("returns %q, expected %q", x, part)
				}
			}
			tk := func(t Token) {
				if x, y := tokOf(t); b && (x != lo || y != hi) {
					s.bad("returns token %d-%d, expected %d-%d", x, y, lo, hi)
				}
			}
			k := s.Intn(4)
			s.do(func() string {
				return fmt.Sprintf("text %q position %d: While of a function that returns true %d times, then moves to %d and returns false", text, p, k, q)
			}, func() {
				sc := at(text, p)
				n := 0
				ok := sc.While(func() bool {
					n++
					if n > k {
						sc.ToMarker(Marker(q))
						return n > k+1
					}
					return true
				})
				if n != k+1 || int(sc.Mark()) != q || ok != (p < q) {
					s.bad("calls it %d times, leaves the scanner at %d and returns %v", n, sc.Mark(), ok)
				}
			})
			chk("Scope", func(sc *Scanner, rd Reader, rf ReadFunc, sf func() bool) { res(sc.Scope(sf)) })
			chk("Trace", func(sc *Scanner, rd Reader, rf ReadFunc, sf func() bool) { x, ok := sc.Trace(sf); res(ok); str(x) })
			chk("Capture", func(sc *Scanner, rd Reader, rf ReadFunc, sf func() bool) { x, ok := sc.Capture(sf); res(ok); str(x) })
			chk("Tokenize", func(sc *Scanner, rd Reader, rf ReadFunc, sf func() bool) { x, ok := sc.Tokenize(sf); res(ok); tk(x) })
			chk("Use", func(sc *Scanner, rd Reader, rf ReadFunc, sf func() bool) { eres(sc.Use(rd)) })
			chk("UseFunc", func(sc *Scanner, rd Reader, rf ReadFunc, sf func() bool) { eres(sc.UseFunc(rf)) })
			chk("TraceUse", func(sc *Scanner, rd Reader, rf ReadFunc, sf func() bool) { x, e := sc.TraceUse(rd); eres(e); str(x) })
			chk("TraceUseFunc", func(sc *Scanner, rd Reader, rf ReadFunc, sf func() bool) {
				x, e := sc.TraceUseFunc(rf)
				eres(e)
				str(x)
			})
			chk("TokenizeUse", func(sc *Scanner, rd Reader, rf ReadFunc, sf func() bool) { x, e := sc.TokenizeUse(rd); eres(e); tk(x) })
			chk("CaptureUse", func(sc *Scanner, rd Reader, rf ReadFunc, sf func() bool) { x, e := sc.CaptureUse(rd); eres(e); str(x) })
			s.do(func() string { return fmt.Sprintf("text %q position %d: Since(%d), Get(%d-%d)", text, p, q, lo, hi) }, func() {
				sc := at(text, p)
				if x := sc.Since(Marker(q)); x != part {
					s.bad("Since returns %q, expected %q", x, part)
				}
				if x := sc.Get(tok(q, p)); x != part {
					s.bad("Get returns %q, expected %q", x, part)
				}
				if s.intact(sc, text) != p {
					s.bad("the scanner moved to %d", sc.Mark())
				}
			})
		}
	})
}

func searchC20(s *S) {
	for !s.over() {
		text := s.text(6)
		n := s.tree(text, 1+s.Intn(2), false)
		type step struct {
			begin bool
			p     int
		}
		var steps []step
		for k := 1 + s.Intn(5); k > 0; k-- {
			steps = append(steps, step{s.Intn(2) == 0, s.pos(text)})
		}
		s.do(func() string {
			return fmt.Sprintf("text %q Janus(%s), (begin?,position) steps %v", text, n.name, steps)
		}, func() {
			beg, end := Janus("j", n.r)
			want := ""
			for i, st := range steps {
				sc := at(text, st.p)
				if st.begin {
					err := beg.Read(sc)
					ok, q := n.ref(text, st.p)
					if !ok {
						q = st.p
					}
					s.expect(sc, text, err == nil, ok, q)
					if ok {
						want = text[st.p:q]
					}
					// the end reader expects exactly that text
					continue
				}
				err := end.Read(sc)
				ok := hasPrefix(text[st.p:], want)
				q := st.p
				if ok {
					q += len(want)
				}
				if p := s.intact(sc, text); (err == nil) != ok || p != q {
					s.bad("step %d: the end reader should expect %q: ok %v at %d, got %v at %d", i, want, ok, q, err == nil, p)
				}
				if ok {
					want = ""
				}
			}
		})
	}
}

func init() {
	for k, f := range map[string]func(*S){"C06": searchC06, "C07": searchC07, "C08": searchC08, "C09": searchC09, "C10": searchC10, "C11": searchC11, "C12": searchC12, "C20": searchC20, "C21": searchC21, "C22": searchC22} {
		searches[k] = f
	}
}

var _ = utf8.RuneError
