package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	. "github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

// The oracle of C27, written independently of the contracts: each function returns the position behind what it
// reads at p, or -1.

func luaRun(text string, p int, set string) int {
	for p < len(text) && strings.IndexByte(set, text[p]) >= 0 {
		p++
	}
	return p
}

const luaDec, luaHex = "0123456789", "0123456789abcdefABCDEF"

func luaNumber(text string, p int, digits, exp string) int {
	q := luaRun(text, p, digits)
	if q == p {
		return -1
	}
	if q < len(text) && text[q] == '.' {
		if r := luaRun(text, q+1, digits); r > q+1 {
			q = r
		}
	}
	if q < len(text) && strings.IndexByte(exp, text[q]) >= 0 {
		r := q + 1
		if r < len(text) && (text[r] == '+' || text[r] == '-') {
			r++
		}
		if e := luaRun(text, r, luaDec); e > r {
			q = e
		}
	}
	return q
}

func luaNumeral(text string, p int) int {
	if strings.HasPrefix(text[p:], "0x") || strings.HasPrefix(text[p:], "0X") {
		if q := luaNumber(text, p+2, luaHex, "pP"); q >= 0 {
			return q
		}
	}
	return luaNumber(text, p, luaDec, "eE")
}

func luaEscape(text string, p int) int { // behind the backslash
	if p >= len(text) {
		return -1
	}
	switch c := text[p]; {
	case strings.IndexByte("abfnrtvz\"'\\"+luaDec, c) >= 0:
		return p + 1
	case c == 'x':
		if q := luaRun(text, p+1, luaHex); q >= p+3 {
			return p + 3
		}
	case strings.HasPrefix(text[p:], "u{"):
		if q := luaRun(text, p+2, luaHex); q > p+2 && q < len(text) && text[q] == '}' {
			return q + 1
		}
	}
	return -1
}

func luaLong(text string, p int) int { // behind the first [
	q := luaRun(text, p, "=")
	if q == len(text) || text[q] != '[' {
		return -1
	}
	end := "]" + text[p:q] + "]"
	i := strings.Index(text[q+1:], end)
	if i < 0 {
		return -1
	}
	return q + 1 + i + len(end)
}

func luaString(text string, p int) int {
	if p == len(text) {
		return -1
	}
	switch quote := text[p]; quote {
	case '[':
		return luaLong(text, p+1)
	case '"', '\'':
		for p++; p < len(text); {
			r, n := utf8.DecodeRuneInString(text[p:])
			switch {
			case r == rune(quote):
				return p + 1
			case r == '\\':
				if p = luaEscape(text, p+1); p < 0 {
					return -1
				}
			case r < ' ':
				return -1
			default:
				p += n
			}
		}
	}
	return -1
}

func luaComment(text string, p int) int {
	if !strings.HasPrefix(text[p:], "--") {
		return -1
	}
	p += 2
	if p < len(text) && text[p] == '[' {
		if q := luaLong(text, p+1); q >= 0 {
			return q
		}
	}
	if i := strings.IndexByte(text[p:], '\n'); i >= 0 {
		return p + i
	}
	return len(text)
}

var luaParts = [][]string{
	{"0", "1", "9", "7", "x", "X", "0x", "a", "F", "f", "g", ".", ".", "e", "E", "p", "P", "+", "-", " ", "é", "\x80", "_"},
	{"\"", "'", "a", " ", "\\", "\\n", "\\\"", "\\'", "\\z", "\\q", "\\1", "\\999", "\\x4", "\\x4a", "\\xG1", "\\u{", "\\u{1F}", "\\u{}", "}", "\n", "\x1f", "\x7f", "é", "\x80", "\uFFFD", "\U0010FFFF", "\\a\\b\\f\\r\\t\\v"},
	{"[", "]", "=", "[[", "]]", "[=[", "]=]", "[==[", "]==]", "a", "]=", "\n", "é", "\x80", "-", "\\", "\""},
	{"--", "-", "[", "[[", "]]", "[=[", "]=]", "]=", "=", "a", "\n", "é", "\x80", "\r"},
}

func (s *S) luaText(k int) string {
	var b strings.Builder
	switch k {
	case 1:
		b.WriteString([]string{"\"", "'", ""}[s.Intn(3)])
	case 2:
		b.WriteString([]string{"[[", "[=[", "[==[", "[", ""}[s.Intn(5)])
	case 3:
		b.WriteString([]string{"--", "--[[", "--[=[", "--[", "-"}[s.Intn(5)])
	}
	ps := luaParts[k]
	if s.Intn(3) == 0 { // a small part of the alphabet
		ps = []string{ps[s.Intn(len(ps))], ps[s.Intn(len(ps))], ps[s.Intn(len(ps))]}
	}
	for n := s.Intn(9); n > 0; n-- {
		b.WriteString(ps[s.Intn(len(ps))])
	}
	return b.String()
}

func searchC27(s *S) {
	num, str, cmt := grammar.LuaNumeral(), grammar.LuaString(), grammar.LuaComment()
	lua := grammar.Lua()
	kinds := []struct {
		name string
		rs   []Reader
		ref  func(string, int) int
	}{
		{"numeral", []Reader{num, &lua.Numeral}, luaNumeral},
		{"string", []Reader{str, &lua.LiteralString}, luaString},
		{"comment", []Reader{cmt, &lua.Comment}, luaComment},
	}
	one := func(k, which int, text string, p int) {
		c := kinds[k]
		s.do(func() string { return fmt.Sprintf("Lua %s text %q position %d", c.name, text, p) }, func() {
			sc := at(text, p)
			err := c.rs[which].Read(sc)
			q := c.ref(text, p)
			to := q
			if q < 0 {
				to = p
			}
			s.expect(sc, text, err == nil, q >= 0, to)
		})
	}
	for c := 0; c < 256; c++ {
		b := string([]byte{byte(c)})
		for k, texts := range [][]string{
			{b, "0" + b, "0x" + b, "1." + b, "1e" + b, "1e+" + b, "0xf." + b, "0xfp" + b, "0xfp-" + b, "12" + b + "5"},
			{b + "a'", "'" + b + "'", "\"" + b + "\"", "'\\" + b + "'", "'\\x" + b + "f'", "'\\xf" + b + "'", "'\\u{" + b + "}'", "'\\u{f" + b + "'", "[" + b + "]]", "[[" + b + "]]", "[=[]=" + b + "]=]", "[[]" + b},
			{"-" + b, "--" + b, "--[" + b + "]]\n", "--[[" + b + "]]", "--[=[]=" + b + "]=]", "--a" + b + "c"},
		} {
			for _, t := range texts {
				one(k, 0, t, 0)
			}
		}
	}
	s.exhaust = true
	for !s.over() {
		k := s.Intn(4)
		text := s.luaText(k)
		p := 0
		if s.Intn(4) == 0 {
			p = s.pos(text)
		}
		for i := range kinds {
			if s.Intn(4) == 0 || i == []int{0, 1, 1, 2}[k] {
				one(i, s.Intn(2), text, p)
			}
		}
	}
}

func init() { searches["C27"] = searchC27 }
