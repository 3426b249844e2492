package main

import (
	"fmt"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"

	. "github.com/aiq/tok"
)

var pieces = []string{"a", "b", "A", "k", "K", "\u212a", "ſ", "s", "S", "é", "É", "ß", "1", "9", "0", "-", "\n", "\r", "\t", " ",
	"\x80", "\xff", "\xc3", "\xe2\x82", "€", "\uFFFD", "𝄞", "\x00", "İ", "i", "σ", "ς", "Σ", "c", "ab", "aa", "\xed\xa0\x80"}

var small = []string{"a", "b", "A", "é", "\x80", "\uFFFD", "\n"}

// texts calls f with every concatenation of at most n pieces of the small pool, then with random texts until the deadline.
func (s *S) texts(n int, f func(text string)) {
	var rec func(p string, n int)
	done := true
	rec = func(p string, n int) {
		if s.over() {
			done = false
			return
		}
		f(p)
		if n == 0 {
			return
		}
		for _, x := range small {
			rec(p+x, n-1)
		}
	}
	rec("", n)
	s.exhaust = done
	for !s.over() {
		f(s.text(10))
	}
}

func (s *S) text(n int) string {
	var b strings.Builder
	k := s.Intn(n + 1)
	pool := pieces
	if s.Intn(3) == 0 {
		pool = small
	}
	if s.Intn(4) == 0 { // few letters, many repetitions
		pool = []string{pieces[s.Intn(len(pieces))], pieces[s.Intn(len(pieces))]}
	}
	for i := 0; i < k; i++ {
		b.WriteString(pool[s.Intn(len(pool))])
	}
	return b.String()
}

func (s *S) pos(text string) int { return s.Intn(len(text) + 1) }

// word: a string that has a chance to occur in text.
func (s *S) word(text string) string {
	switch s.Intn(8) {
	case 0:
		return s.text(3)
	case 1:
		return pieces[s.Intn(len(pieces))]
	case 2:
		return ""
	}
	if len(text) == 0 {
		return s.text(2)
	}
	a := s.Intn(len(text))
	b := a + s.Intn(4)
	if b > len(text) {
		b = len(text)
	}
	w := text[a:b]
	switch s.Intn(6) {
	case 0:
		return swapCase(w)
	case 1:
		return w + pieces[s.Intn(len(pieces))]
	case 2:
		return text[a:]
	}
	return w
}

func swapCase(w string) string {
	if !utf8.ValidString(w) {
		return w
	}
	return strings.Map(func(r rune) rune {
		n := unicode.SimpleFold(r)
		return n
	}, w)
}

func (s *S) rune(text string) rune {
	rs := []rune(text)
	if len(rs) > 0 && s.Intn(3) > 0 {
		return rs[s.Intn(len(rs))]
	}
	rs = []rune(pieces[s.Intn(len(pieces))])
	return rs[0]
}

func at(text string, p int) *Scanner {
	sc := NewScanner(text)
	sc.ToMarker(Marker(p))
	if int(sc.Mark()) != p {
		sc.ToStart()
		sc.Move(p)
	}
	if int(sc.Mark()) != p || sc.Head()+sc.Tail() != text {
		panic(found{fmt.Sprintf("scanner on %q cannot be placed at %d (is at %d, head %q tail %q)", text, p, sc.Mark(), sc.Head(), sc.Tail())})
	}
	return sc
}

// intact: the text has not changed and the position is within it.
func (s *S) intact(sc *Scanner, text string) int {
	p := int(sc.Mark())
	if p < 0 || p > len(text) {
		s.bad("the position is %d, the text has %d bytes", p, len(text))
	}
	if sc.Head()+sc.Tail() != text {
		s.bad("the text changed to %q", sc.Head()+sc.Tail())
	}
	if sc.Head() != text[:p] {
		s.bad("the position is %d but the head is %q", p, sc.Head())
	}
	return p
}

func (s *S) expect(sc *Scanner, text string, gotOk bool, wantOk bool, want int) {
	p := s.intact(sc, text)
	if gotOk != wantOk || p != want {
		s.bad("returns %v at position %d, expected %v at %d", gotOk, p, wantOk, want)
	}
}

func hasPrefix(t, w string) bool { return len(t) >= len(w) && t[:len(w)] == w }
func hasSuffix(t, w string) bool { return len(t) >= len(w) && t[len(t)-len(w):] == w }
func hasPrefixFold(t, w string) bool {
	return len(t) >= len(w) && strings.EqualFold(t[:len(w)], w)
}
func hasSuffixFold(t, w string) bool {
	return len(t) >= len(w) && strings.EqualFold(t[len(t)-len(w):], w)
}

func tokOf(t Token) (int, int) {
	v := reflect.ValueOf(t)
	if f, g := v.FieldByName("from"), v.FieldByName("to"); f.IsValid() && g.IsValid() && f.Kind() == reflect.Int && g.Kind() == reflect.Int {
		return int(f.Int()), int(g.Int())
	}
	var a, b int
	fmt.Sscanf(t.String(), "[%d-%d)", &a, &b)
	return a, b
}

func tok(a, b int) Token { return MakeToken(Marker(a), Marker(b)) }

type rng struct{ a, b int }

func (s *S) rng(n int) rng {
	a, b := s.Intn(n+1), s.Intn(n+1)
	if a > b {
		a, b = b, a
	}
	return rng{a, b}
}
func (r rng) tok() Token { return tok(r.a, r.b) }

func clash(x, y rng) bool {
	dis := x.b <= y.a || y.b <= x.a
	cov := (x.a <= y.a && y.b <= x.b) || (y.a <= x.a && x.b <= y.b)
	return !dis && !cov
}

func seg(info string, r rng) Segment { return Segment{Info: info, Token: r.tok()} }

func segStr(x Segment) string {
	a, b := tokOf(x.Token)
	return fmt.Sprintf("%s[%d-%d)", x.Info, a, b)
}

func segsStr(xs []Segment) string {
	var o []string
	for _, x := range xs {
		o = append(o, segStr(x))
	}
	return strings.Join(o, " ")
}
