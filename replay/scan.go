package main

import (
	"fmt"
	"math"
	"strings"
	"unicode"
	"unicode/utf8"

	. "github.com/aiq/tok"
)

type cls struct {
	name   string
	in     func(r rune) bool
	set    string
	r      rune
	lo, hi rune
	kind   int // 0 rune, 1 set, 2 range, 3 predicate
}

func (s *S) cls(text string) cls {
	switch s.Intn(4) {
	case 0:
		r := s.rune(text)
		return cls{name: fmt.Sprintf("rune %q", r), r: r, in: func(x rune) bool { return x == r }}
	case 1:
		set := s.word(text)
		if s.Intn(2) == 0 {
			set += s.word(text)
		}
		return cls{name: fmt.Sprintf("set %q", set), kind: 1, set: set, in: func(x rune) bool {
			for _, y := range set {
				if x == y {
					return true
				}
			}
			return false
		}}
	case 2:
		a, b := s.rune(text), s.rune(text)
		if a > b && s.Intn(8) > 0 {
			a, b = b, a
		}
		return cls{name: fmt.Sprintf("range %q..%q", a, b), kind: 2, lo: a, hi: b, in: func(x rune) bool { return a <= x && x <= b }}
	}
	fs := []cls{
		{name: "predicate letter", in: unicode.IsLetter},
		{name: "predicate digit", in: unicode.IsDigit},
		{name: "predicate true", in: func(rune) bool { return true }},
		{name: "predicate false", in: func(rune) bool { return false }},
		{name: "predicate U+FFFD", in: func(r rune) bool { return r == 0xfffd }},
	}
	c := fs[s.Intn(len(fs))]
	c.kind = 3
	return c
}

func callCls(sc *Scanner, fn string, c cls) bool {
	switch fn {
	case "If":
		switch c.kind {
		case 0:
			return sc.IfRune(c.r)
		case 1:
			return sc.IfAnyRune(c.set)
		case 2:
			return sc.IfBetween(c.lo, c.hi)
		}
		return sc.IfMatch(c.in)
	case "To":
		switch c.kind {
		case 0:
			return sc.ToRune(c.r)
		case 1:
			return sc.ToAnyRune(c.set)
		case 2:
			return sc.ToBetween(c.lo, c.hi)
		}
		return sc.ToMatch(c.in)
	case "While":
		switch c.kind {
		case 0:
			return sc.WhileRune(c.r)
		case 1:
			return sc.WhileAnyRune(c.set)
		case 2:
			return sc.WhileBetween(c.lo, c.hi)
		}
		return sc.WhileMatch(c.in)
	case "RevIf":
		switch c.kind {
		case 0:
			return sc.RevIfRune(c.r)
		case 1:
			return sc.RevIfAnyRune(c.set)
		case 2:
			return sc.RevIfBetween(c.lo, c.hi)
		}
		return sc.RevIfMatch(c.in)
	case "RevTo":
		switch c.kind {
		case 0:
			return sc.RevToRune(c.r)
		case 1:
			return sc.RevToAnyRune(c.set)
		case 2:
			return sc.RevToBetween(c.lo, c.hi)
		}
		return sc.RevToMatch(c.in)
	}
	switch c.kind {
	case 0:
		return sc.RevWhileRune(c.r)
	case 1:
		return sc.RevWhileAnyRune(c.set)
	case 2:
		return sc.RevWhileBetween(c.lo, c.hi)
	}
	return sc.RevWhileMatch(c.in)
}

func refFwd(text string, p int, fn string, in func(rune) bool) (bool, int) {
	switch fn {
	case "If":
		if p < len(text) {
			r, w := utf8.DecodeRuneInString(text[p:])
			if in(r) {
				return true, p + w
			}
		}
		return false, p
	case "To":
		for q := p; q < len(text); {
			r, w := utf8.DecodeRuneInString(text[q:])
			if in(r) {
				return true, q
			}
			q += w
		}
		return false, p
	}
	q := p
	for q < len(text) {
		r, w := utf8.DecodeRuneInString(text[q:])
		if !in(r) {
			break
		}
		q += w
	}
	return q > p, q
}

func refRev(text string, p int, fn string, in func(rune) bool) (bool, int) {
	switch fn {
	case "RevIf":
		if p > 0 {
			r, w := utf8.DecodeLastRuneInString(text[:p])
			if in(r) {
				return true, p - w
			}
		}
		return false, p
	case "RevTo":
		for q := p; q > 0; {
			r, w := utf8.DecodeLastRuneInString(text[:q])
			if in(r) {
				return true, q
			}
			q -= w
		}
		return false, p
	}
	q := p
	for q > 0 {
		r, w := utf8.DecodeLastRuneInString(text[:q])
		if !in(r) {
			break
		}
		q -= w
	}
	return q < p, q
}

func (s *S) strs(text string) []string {
	n := s.Intn(4)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, s.word(text))
	}
	return l
}

func (s *S) each(text string, k int, f func(p int)) {
	if len(text) <= 8 {
		for p := 0; p <= len(text); p++ {
			for i := 0; i < k; i++ {
				f(p)
			}
		}
		return
	}
	for i := 0; i < 4; i++ {
		f(s.pos(text))
	}
}

func searchC02(s *S) {
	s.texts(3, func(text string) {
		s.each(text, 3, func(p int) {
			w := s.word(text)
			if s.Intn(2) == 0 && p < len(text) {
				e := p + s.Intn(len(text)-p+1)
				w = text[p:e]
				if s.Intn(2) == 0 {
					w = swapCase(w)
				}
			}
			rest := text[p:]
			c := func(name string, ok bool, to int, f func(sc *Scanner) bool) {
				s.do(func() string { return fmt.Sprintf("text %q position %d: %s(%q)", text, p, name, w) }, func() {
					sc := at(text, p)
					got := f(sc)
					s.expect(sc, text, got, ok, to)
				})
			}
			end := func(ok bool) int {
				if ok {
					return p + len(w)
				}
				return p
			}
			ok := hasPrefix(rest, w)
			c("If", ok, end(ok), func(sc *Scanner) bool { return sc.If(w) })
			ok = hasPrefixFold(rest, w)
			c("IfFold", ok, end(ok), func(sc *Scanner) bool { return sc.IfFold(w) })
			find := func(m func(t, w string) bool) (bool, int) {
				for q := p; q <= len(text); q++ {
					if m(text[q:], w) {
						return true, q
					}
				}
				return false, p
			}
			ok, to := find(hasPrefix)
			c("To", ok, to, func(sc *Scanner) bool { return sc.To(w) })
			ok, to = find(hasPrefixFold)
			c("ToFold", ok, to, func(sc *Scanner) bool { return sc.ToFold(w) })
			l := s.strs(text)
			if s.Intn(2) == 0 {
				l = append(l, w)
			}
			ok, to = false, p
			for _, x := range l {
				if hasPrefix(rest, x) {
					ok, to = true, p+len(x)
					break
				}
			}
			s.do(func() string { return fmt.Sprintf("text %q position %d: IfAny(%q)", text, p, l) }, func() {
				sc := at(text, p)
				s.expect(sc, text, sc.IfAny(l...), ok, to)
			})
		})
	})
}

func searchC03(s *S) {
	s.texts(3, func(text string) {
		s.each(text, 4, func(p int) {
			c := s.cls(text)
			for _, fn := range []string{"If", "To", "While"} {
				fn := fn
				ok, to := refFwd(text, p, fn, c.in)
				s.do(func() string { return fmt.Sprintf("text %q position %d: %s %s", text, p, fn, c.name) }, func() {
					sc := at(text, p)
					got := callCls(sc, fn, c)
					if fn == "While" && c.kind == 1 && p < len(text) && to == len(text) && got && int(sc.Mark()) == p {
						return // known finding
					}
					s.expect(sc, text, got, ok, to)
				})
			}
		})
	})
}

func searchC04(s *S) {
	s.texts(3, func(text string) {
		s.each(text, 3, func(p int) {
			w := s.word(text)
			if s.Intn(2) == 0 && p > 0 {
				w = text[s.Intn(p):p]
				if s.Intn(2) == 0 {
					w = swapCase(w)
				}
			}
			head := text[:p]
			c := func(name string, ok bool, to int, f func(sc *Scanner) bool) {
				s.do(func() string { return fmt.Sprintf("text %q position %d: %s(%q)", text, p, name, w) }, func() {
					sc := at(text, p)
					got := f(sc)
					s.expect(sc, text, got, ok, to)
				})
			}
			end := func(ok bool) int {
				if ok {
					return p - len(w)
				}
				return p
			}
			ok := hasSuffix(head, w)
			c("RevIf", ok, end(ok), func(sc *Scanner) bool { return sc.RevIf(w) })
			ok = hasSuffixFold(head, w)
			c("RevIfFold", ok, end(ok), func(sc *Scanner) bool { return sc.RevIfFold(w) })
			find := func(m func(t, w string) bool) (bool, int) {
				for q := p; ; {
					if m(text[:q], w) {
						return true, q
					}
					if q == 0 {
						return false, p
					}
					_, n := utf8.DecodeLastRuneInString(text[:q])
					q -= n
				}
			}
			if p > 0 || w != "" {
				{
					ok, to := find(hasSuffix)
					c("RevTo", ok, to, func(sc *Scanner) bool { return sc.RevTo(w) })
					ok, to = find(hasSuffixFold)
					c("RevToFold", ok, to, func(sc *Scanner) bool { return sc.RevToFold(w) })
				}
			}
			l := s.strs(text)
			if s.Intn(2) == 0 {
				l = append(l, w)
			}
			ok2, to2 := false, p
			for _, x := range l {
				if hasSuffix(head, x) {
					ok2, to2 = true, p-len(x)
					break
				}
			}
			s.do(func() string { return fmt.Sprintf("text %q position %d: RevIfAny(%q)", text, p, l) }, func() {
				sc := at(text, p)
				s.expect(sc, text, sc.RevIfAny(l), ok2, to2)
			})
			k := s.cls(text)
			for _, fn := range []string{"RevIf", "RevTo", "RevWhile"} {
				fn := fn
				ok, to := refRev(text, p, fn, k.in)
				s.do(func() string { return fmt.Sprintf("text %q position %d: %s %s", text, p, fn, k.name) }, func() {
					sc := at(text, p)
					got := callCls(sc, fn, k)
					s.expect(sc, text, got, ok, to)
				})
			}
		})
	})
}

func refRunes(text string, p, n int) (int, bool) {
	for ; n > 0; n-- {
		if p >= len(text) {
			return 0, false
		}
		_, w := utf8.DecodeRuneInString(text[p:])
		p += w
	}
	for ; n < 0; n++ {
		if p <= 0 {
			return 0, false
		}
		_, w := utf8.DecodeLastRuneInString(text[:p])
		p -= w
	}
	return p, true
}

func searchC05(s *S) {
	s.texts(4, func(text string) {
		s.each(text, 2, func(p int) {
			n := s.Intn(2*len(text)+5) - len(text) - 2
			s.do(func() string { return fmt.Sprintf("text %q position %d: MoveRunes(%d)", text, p, n) }, func() {
				sc := at(text, p)
				to, ok := refRunes(text, p, n)
				if !ok {
					to = p
				}
				s.expect(sc, text, sc.MoveRunes(n), ok, to)
			})
			s.do(func() string { return fmt.Sprintf("text %q position %d: ScanString(%d)", text, p, n) }, func() {
				sc := at(text, p)
				to, ok := refRunes(text, p, n)
				if n < 0 || !ok {
					ok, to = false, p
				}
				str, got := sc.ScanString(n)
				s.expect(sc, text, got, ok, to)
				if ok && str != text[p:to] {
					s.bad("returns %q, expected %q", str, text[p:to])
				}
			})
			s.do(func() string { return fmt.Sprintf("text %q position %d: ReadRune()", text, p) }, func() {
				sc := at(text, p)
				r, err := sc.ReadRune()
				w, n := utf8.DecodeRuneInString(text[p:])
				ok := n > 0 && !(w == utf8.RuneError && n == 1)
				to := p
				if ok {
					to = p + n
				}
				s.expect(sc, text, err == nil, ok, to)
				if ok && r != w {
					s.bad("returns %q, expected %q", r, w)
				}
			})
			s.do(func() string { return fmt.Sprintf("text %q position %d: RevReadRune()", text, p) }, func() {
				sc := at(text, p)
				r, err := sc.RevReadRune()
				w, n := utf8.DecodeLastRuneInString(text[:p])
				ok := n > 0 && !(w == utf8.RuneError && n == 1)
				to := p
				if ok {
					to = p - n
				}
				s.expect(sc, text, err == nil, ok, to)
				if ok && r != w {
					s.bad("returns %q, expected %q", r, w)
				}
			})
		})
	})
}

// ops: every scanner operation, with arguments drawn for text; the name describes the call.
func (s *S) op(text string) (string, func(sc *Scanner)) {
	w := s.word(text)
	l := s.strs(text)
	c := s.cls(text)
	n := s.Intn(2*len(text)+7) - len(text) - 3
	big := []int{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, math.MaxInt32, math.MinInt32, n, n, n, n}[s.Intn(10)]
	b := s.Intn(2) == 0
	q := s.pos(text)
	fns := []string{"If", "To", "While", "RevIf", "RevTo", "RevWhile"}
	fn := fns[s.Intn(len(fns))]
	base := []int{8, 10, 16, 7, 0}[s.Intn(5)]
	bits := []int{8, 16, 32, 64, 0, 9}[s.Intn(6)]
	list := []struct {
		name string
		f    func(sc *Scanner)
	}{
		{fmt.Sprintf("Move(%d)", big), func(sc *Scanner) { sc.Move(big) }},
		{fmt.Sprintf("ToMarker(%d)", big), func(sc *Scanner) { sc.ToMarker(Marker(big)) }},
		{"ToEnd()", func(sc *Scanner) { sc.ToEnd() }},
		{"ToStart()", func(sc *Scanner) { sc.ToStart() }},
		{fmt.Sprintf("MoveRunes(%d)", n), func(sc *Scanner) { sc.MoveRunes(n) }},
		{fmt.Sprintf("ScanString(%d)", n), func(sc *Scanner) { sc.ScanString(n) }},
		{fmt.Sprintf("If(%q)", w), func(sc *Scanner) { sc.If(w) }},
		{fmt.Sprintf("IfAny(%q)", l), func(sc *Scanner) { sc.IfAny(l...) }},
		{fmt.Sprintf("IfFold(%q)", w), func(sc *Scanner) { sc.IfFold(w) }},
		{fmt.Sprintf("To(%q)", w), func(sc *Scanner) { sc.To(w) }},
		{fmt.Sprintf("ToFold(%q)", w), func(sc *Scanner) { sc.ToFold(w) }},
		{fmt.Sprintf("RevIf(%q)", w), func(sc *Scanner) { sc.RevIf(w) }},
		{fmt.Sprintf("RevIfAny(%q)", l), func(sc *Scanner) { sc.RevIfAny(l) }},
		{fmt.Sprintf("RevIfFold(%q)", w), func(sc *Scanner) { sc.RevIfFold(w) }},
		{fmt.Sprintf("RevTo(%q)", w), func(sc *Scanner) { sc.RevTo(w) }},
		{fmt.Sprintf("RevToFold(%q)", w), func(sc *Scanner) { sc.RevToFold(w) }},
		{fn + " " + c.name, func(sc *Scanner) { callCls(sc, fn, c) }},
		{fn + " " + c.name, func(sc *Scanner) { callCls(sc, fn, c) }},
		{fn + " " + c.name, func(sc *Scanner) { callCls(sc, fn, c) }},
		{"ReadRune()", func(sc *Scanner) { sc.ReadRune() }},
		{"RevReadRune()", func(sc *Scanner) { sc.RevReadRune() }},
		{fmt.Sprintf("ReadInt(%d,%d)", base, bits), func(sc *Scanner) { sc.ReadInt(base, bits) }},
		{fmt.Sprintf("ReadUint(%d,%d)", base, bits), func(sc *Scanner) { sc.ReadUint(base, bits) }},
		{"ReadBool(*)", func(sc *Scanner) { sc.ReadBool("*") }},
		{"LineCol(4)", func(sc *Scanner) { sc.LineCol(4) }},
		{fmt.Sprintf("Since(%d)", q), func(sc *Scanner) { sc.Since(Marker(q)) }},
		{fmt.Sprintf("Get(%d,%d)", q/2, q), func(sc *Scanner) { sc.Get(tok(q/2, q)) }},
		{fmt.Sprintf("Scope(%v)", b), func(sc *Scanner) { sc.Scope(func() bool { sc.MoveRunes(n); return b }) }},
		{fmt.Sprintf("Trace(%v)", b), func(sc *Scanner) { sc.Trace(func() bool { sc.MoveRunes(n); return b }) }},
		{fmt.Sprintf("Tokenize(%v)", b), func(sc *Scanner) { sc.Tokenize(func() bool { sc.MoveRunes(n); return b }) }},
		{fmt.Sprintf("Capture(%v)", b), func(sc *Scanner) { sc.Capture(func() bool { sc.MoveRunes(n); return b }) }},
		{fmt.Sprintf("While(If %q)", w), func(sc *Scanner) { k := 0; sc.While(func() bool { k++; return k < 50 && sc.If(w) }) }},
		{fmt.Sprintf("Use(Lit(%q))", w), func(sc *Scanner) { sc.Use(Lit(w)) }},
		{fmt.Sprintf("TraceUse(Zom(Lit(%q)))", w), func(sc *Scanner) { sc.TraceUse(Zom(w)) }},
		{fmt.Sprintf("TokenizeUse(To(Lit(%q)))", w), func(sc *Scanner) { sc.TokenizeUse(To(w)) }},
		{fmt.Sprintf("CaptureUse(Past(Lit(%q)))", w), func(sc *Scanner) { sc.CaptureUse(Past(w)) }},
		{"UseFunc", func(sc *Scanner) {
			sc.UseFunc(func(x *Scanner) error { x.MoveRunes(n); return x.ErrorIfFalse(b, "f") })
		}},
		{"TraceUseFunc", func(sc *Scanner) {
			sc.TraceUseFunc(func(x *Scanner) error { x.MoveRunes(n); return x.ErrorIfFalse(b, "f") })
		}},
	}
	o := list[s.Intn(len(list))]
	return o.name, o.f
}

func searchC01(s *S) {
	s.texts(3, func(text string) {
		for i := 0; i < 6; i++ {
			p := s.pos(text)
			var names []string
			var fs []func(sc *Scanner)
			for k := s.Intn(5); k >= 0; k-- {
				n, f := s.op(text)
				names = append(names, n)
				fs = append(fs, f)
			}
			rev := s.Intn(6) == 0
			s.do(func() string { return fmt.Sprintf("text %q position %d: %s", text, p, strings.Join(names, "; ")) }, func() {
				sc := at(text, p)
				if rev {
					sc = NewRevScanner(text)
					if int(sc.Mark()) != len(text) {
						s.bad("NewRevScanner starts at %d", sc.Mark())
					}
				}
				for _, f := range fs {
					f(sc)
					s.intact(sc, text)
				}
			})
			n := []int{math.MaxInt64, math.MinInt64, -p, -p - 1, len(text) - p, len(text) - p + 1, s.Intn(9) - 4}[s.Intn(7)]
			in := n >= -p && n <= len(text)-p
			s.do(func() string { return fmt.Sprintf("text %q position %d: Move(%d)", text, p, n) }, func() {
				sc := at(text, p)
				to := p
				if in {
					to = p + n
				}
				s.expect(sc, text, sc.Move(n), in, to)
			})
			m := []int{math.MaxInt64, math.MinInt64, -1, len(text) + 1, len(text), 0, s.pos(text)}[s.Intn(7)]
			s.do(func() string { return fmt.Sprintf("text %q position %d: ToMarker(%d)", text, p, m) }, func() {
				sc := at(text, p)
				in := m >= 0 && m <= len(text)
				to := p
				if in {
					to = m
				}
				s.expect(sc, text, sc.ToMarker(Marker(m)), in, to)
			})
			s.do(func() string { return fmt.Sprintf("text %q position %d: ToEnd(), ToStart(), AtEnd, AtStart", text, p) }, func() {
				sc := at(text, p)
				if sc.AtEnd() != (p == len(text)) || sc.AtStart() != (p == 0) {
					s.bad("AtEnd %v AtStart %v", sc.AtEnd(), sc.AtStart())
				}
				sc.ToEnd()
				if s.intact(sc, text) != len(text) {
					s.bad("ToEnd goes to %d", sc.Mark())
				}
				sc.ToStart()
				if s.intact(sc, text) != 0 {
					s.bad("ToStart goes to %d", sc.Mark())
				}
			})
		}
	})
}

func searchC23(s *S) {
	s.texts(3, func(text string) {
		if s.Intn(2) == 0 {
			var b strings.Builder
			for k := s.Intn(9); k > 0; k-- {
				b.WriteString([]string{"\n", "\r\n", "\r", "\t", "a", "é", "\x80", "ab", "\n\n", "\n\r"}[s.Intn(10)])
			}
			text = b.String()
		}
		for p := 0; p <= len(text); p++ {
			tab := []int{0, 1, 2, 3, 4, 8, 100, 32767}[s.Intn(8)]
			s.do(func() string { return fmt.Sprintf("text %q position %d: LineCol(%d)", text, p, tab) }, func() {
				sc := at(text, p)
				line, col := sc.LineCol(tab)
				wl, wc := 1, 1
				for i := 0; i < p; i++ {
					switch text[i] {
					case '\n':
						wl++
						wc = 1
					case '\t':
						wc += tab
					default:
						wc++
					}
				}
				if line != wl || col != wc {
					s.bad("returns %d:%d, expected %d:%d", line, col, wl, wc)
				}
				if s.intact(sc, text) != p {
					s.bad("moves the scanner to %d", sc.Mark())
				}
			})
		}
	})
}

func init() {
	searches["C01"], searches["C02"], searches["C03"], searches["C04"], searches["C05"], searches["C23"] = searchC01, searchC02, searchC03, searchC04, searchC05, searchC23
}
