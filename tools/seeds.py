# One planted bug per entry: id, property, file, [(old,new)], what it needs, what it breaks, demonstration (body of main).
seed("S01","C02","scanner.go",[("	i := strings.Index(s.Tail(), str)\n	if i != -1 {\n		return s.Move(i)","	i := strings.Index(s.Tail(), str)\n	if i != -1 && (i > 0 || str != \"\") {\n		return s.Move(i)")],
 "an empty argument","To(\"\") reports that the empty text does not occur",
 '''s := tok.NewScanner("abc"); s.Move(3); if !s.To("") || s.Mark() != 3 { fail("To", s.Mark()) }''')
seed("S02","C03","scanner.go",[('''	for i, v := range s.Tail() {
		if inRange(min, v, max) {
			return s.Move(i)
		}
	}
	return false
}

// Moves s to the first rune in Tail() that is < min or > max.''','''	for i, v := range s.Tail() {
		if inRange(min, v, max) && i+utf8.RuneLen(v) <= len(s.Tail()) {
			return s.Move(i)
		}
	}
	return false
}

// Moves s to the first rune in Tail() that is < min or > max.''')],
 "an invalid byte within the last two bytes of the text and a range that contains U+FFFD","ToBetween does not find the rune of an invalid byte at the end of the text",
 '''s := tok.NewScanner("abc\\xff"); if !s.ToBetween(0x80, 0x10FFFF) || s.Mark() != 3 { fail("ToBetween did not find the last rune") }''')
seed("S03","C04","scanner_rev.go",[("""	for itr.next() {
		if inRange(min, itr.Val, max) {
			return s.Move(-itr.pos())
		}
	}
	return false""","""	for itr.next() {
		if inRange(min, itr.Val, max) && itr.Val != utf8.RuneError {
			return s.Move(-itr.pos())
		}
	}
	return false""")],
 "U+FFFD or an invalid byte before the position and a range that contains it","RevToBetween passes over U+FFFD",
 '''s := tok.NewRevScanner("z\\uFFFDab"); if !s.RevToBetween(0x80, 0x10FFFF) || s.Mark() != 4 { fail(s.Mark()) }''')
seed("S04","C05","read.go",[("	return r, s.ErrorIfFalse(s.Move(-i), \"rune\")","	if i > 3 {\n		i = 3\n	}\n	return r, s.ErrorIfFalse(s.Move(-i), \"rune\")"),("	r, i := utf8.DecodeLastRuneInString(s.Head())","	head := s.Head()\n	r, i := utf8.DecodeLastRuneInString(head)")],
 "a rune of four bytes directly before the position","RevReadRune moves three bytes back over a four byte rune",
 '''s := tok.NewRevScanner("a\\U0001F600"); r, e := s.RevReadRune(); if e != nil || r != 0x1F600 || s.Mark() != 1 { fail(r, e, s.Mark()) }''')
seed("S05","C06","token.go",[('''	b := s.Mark()
	if !res {
		s.ToMarker(a)
	}
	return MakeToken(a, b), res''','''	b := s.Mark()
	if !res && a < b {
		s.ToMarker(a)
	}
	return MakeToken(a, b), res''')],
 "a function that moves the scanner backward and then fails","Tokenize and Capture do not restore the position after a failing function that moved backward",
 '''s := tok.NewScanner("abcdef"); s.Move(4); _, ok := s.Tokenize(func() bool { s.Move(-2); return false }); if ok || s.Mark() != 4 { fail("not restored", s.Mark()) }''')
seed("S06","C07","reader.go",[('''	m := s.Mark()
	err := r.skip.Read(s)
	for _, sub := range r.readers {
		if err != nil {
			break
		}''','''	err := r.skip.Read(s)
	m := s.Mark()
	for _, sub := range r.readers {
		if err != nil {
			break
		}''')],
 "a SkipSeq that fails after the leading skip part consumed something","SkipSeq leaves the scanner behind the skipped part when it fails",
 '''s := tok.NewScanner("  ax"); if e := tok.SkipWSSeq("a", "b").Read(s); e == nil || s.Mark() != 0 { fail("not restored", s.Mark()) }''')
seed("S07","C08","reader.go",[('''			sub := NewScanner(s.Get(MakeToken(m, t)))
			e = sub.Use(r.body)
			if e != nil || !sub.AtEnd() {
				break
			}
			s.ToMarker(t)
			return nil''','''			sub := NewScanner(s.Get(MakeToken(m, t)))
			e = sub.Use(r.body)
			if e != nil && !sub.AtEnd() {
				break
			}
			s.ToMarker(t)
			return nil''')],
 "a Body whose body reader reads only a part of the text before the tail","Body accepts text before the tail that body does not read completely",
 '''s := tok.NewScanner("ab;"); if e := tok.Body(tok.Rune('a'), tok.Rune(';')).Read(s); e == nil { fail("Body accepted text that body does not read", s.Mark()) }''')
seed("S08","C09","reader.go",[("for i := 0; i < len(minMax); i += 2 {","for i := 0; i+2 < len(minMax) || i == 0 && len(minMax) > 0; i += 2 {")],
 "BuildBetweenAny with at least two ranges and a rune of the last range","the last range of BuildBetweenAny (and of HexDigit) is ignored",
 '''s := tok.NewScanner("z"); if e := tok.BuildBetweenAny('0', '9', 'x', 'z').Read(s); e != nil { fail(e) }''')
seed("S09","C10","read.go",[("	} else if s.IfRune('+') {","	}\n	if s.IfRune('+') && !neg {")],
 "a minus directly followed by a plus","ReadInt consumes two signs",
 '''s := tok.NewScanner("-+5"); v, e := s.ReadInt(10, 16); if e == nil { fail(v, e) }''')
seed("S10","C11","read.go",[('''		} else if s.IfAny("false", "False", "FALSE") {''','''		} else if s.IfFold("false") {''')],
 "format * and a mixed case spelling like fAlse","ReadBool accepts spellings outside of the format",
 '''s := tok.NewScanner("fALSE"); if v, e := s.ReadBool("*"); e == nil { fail("accepted", v) }''')
seed("S11","C12","reader.go",[("for ok := true; ok; ok = s.MoveRunes(1) {","for ok := true; ok; ok = s.Move(1) || s.AtEnd() && m == 0 {")],
 "a To reader that starts at position 0 and finds no match","To never returns when its reader does not match anywhere",
 '''s := tok.NewScanner("abc"); done := make(chan bool); go func() { tok.To("x").Read(s); done <- true }(); select { case <-done: case <-time.After(5 * time.Second): fail("To does not return") }''',("fmt","os","time"))
seed("S12","C13","token.go",[("return !t.Before(oth) && !t.After(oth) && !t.Covers(oth) && !oth.Covers(t)","return !t.Before(oth) && !t.After(oth) && t.from != oth.from && t.to != oth.to && !(t.from < oth.from && t.to > oth.to) && !(oth.from < t.from && oth.to > t.to) || t.Len() == 0 && oth.from < t.from && t.from < oth.to")],
 "an empty token strictly inside another one","an empty token inside another one is reported as clash although it is covered",
 '''if tok.MakeToken(3, 3).Clashes(tok.MakeToken(1, 5)) { fail("clash") }''')
seed("S13","C14","segment.go",[("left, rest = rest.Split(seg)\n\t\tif left.Len() > 0 {","left, rest = rest.Split(seg)\n\t\tif left.Len() > 0 && seg.Len() > 0 {")],
 "an empty segment after a gap","Segmentate loses the gap before an empty segment",
 '''seg := func(i string, a, b int) tok.Segment { return tok.Segment{Info: i, Token: tok.MakeToken(tok.Marker(a), tok.Marker(b))} }
res, e := seg("t", 0, 6).Segmentate([]tok.Segment{seg("x", 3, 3)}); n := 0; for _, r := range res { n += r.Len() }; if e != nil || n != 6 { fail("not covered", res, e) }''')
seed("S14","C15","segment.go",[("ai, bi := -1, -1","ai, bi := len(order), len(order)")],
 "SortSegmentsByOrder with equal tokens and an info that is not listed","unlisted infos are sorted behind listed ones",
 '''seg := func(i string, a, b int) tok.Segment { return tok.Segment{Info: i, Token: tok.MakeToken(tok.Marker(a), tok.Marker(b))} }
v := []tok.Segment{seg("a", 0, 2), seg("zz", 0, 2)}; tok.SortSegmentsByOrder(v, []string{"a", "b"}); if v[0].Info != "zz" { fail(v) }''')
seed("S15","C16","tracker.go",[("		if seg.to <= m {","		if seg.to <= m || seg.from <= m && seg.to == m+1 {")],
 "a segment that ends one byte after the position the scanner went back to","the basket keeps a segment that ends beyond the position",
 '''s := tok.NewScanner("abcdef"); b := s.NewBasket(); tok.Pick(tok.Lit("abc"), b, "x").Read(s); s.ToMarker(2); if len(b.Picked()) != 0 { fail(b) }''')
seed("S16","C17","tracker.go",[("""		r.basket.Add(Segment{
			Info:  r.info,
			Token: t,
		})""","""		seg := Segment{r.info, t}
		if n := len(r.basket.segments); n == 0 || r.basket.segments[n-1] != seg {
			r.basket.Add(seg)
		}""")],
 "the same range read twice in a row by a picking reader (nested Pick, or At followed by a read)","a successful read is not reported if the last segment is equal to it",
 '''s := tok.NewScanner("ab"); b := &tok.Basket{}; p := tok.Pick(tok.Lit("a"), b, "x"); tok.Seq(tok.At(p), p).Read(s); if len(b.Picked()) != 2 { fail(b) }''')
seed("S17","C18","graph.go",[("	if !ok {\n		g.Root.Token = bkp","	if !ok && seg.from < bkp.from {\n		g.Root.Token = bkp")],
 "a refused segment that ends behind the graph and does not start before it","a refused Append leaves the range of the root changed",
 '''seg := func(i string, a, b int) tok.Segment { return tok.Segment{Info: i, Token: tok.MakeToken(tok.Marker(a), tok.Marker(b))} }
g := tok.BuildGraph("r", []tok.Segment{seg("a", 4, 6), seg("b", 7, 9)}); g.Append(seg("c", 8, 12)); if g.Root.Token != tok.MakeToken(4, 9) { fail(g.FlameStack()) }''')
seed("S18","C19","monitor.go",[('''	err := r.sub.Read(s)
	r.log.Exit(entry, s.pos, err)
	return err''','''	err := r.sub.Read(s)
	if err == nil || s.pos != entry.EnterAt {
		r.log.Exit(entry, s.pos, err)
	} else {
		r.log.level--
	}
	return err''')],
 "a monitored read that fails","the error and exit position of a failed read are missing in the log",
 '''l := &tok.Log{}; s := tok.NewScanner("xabc"); s.Move(1); tok.Monitor(tok.Lit("b"), l, "r").Read(s); if l.Entries[0].Error == nil || l.Entries[0].ExitAt != 1 { fail(l.Entries) }''')
seed("S19","C20","reader.go",[('''	err := r.reader.Read(s)
	if err == nil {
		r.reader.str = ""
	}
	return err''','''	err := r.reader.Read(s)
	if err == nil || s.AtEnd() {
		r.reader.str = ""
	}
	return err''')],
 "an end reader that fails at the end of the text and is tried again","a failed end reader forgets the expected text",
 '''b, e := tok.Janus("q", tok.Many(tok.Rune('"'))); s := tok.NewScanner("\\"\\"\\"a"); b.Read(s); s.ToEnd(); e.Read(s); s.ToStart(); if x := e.Read(s); x != nil || s.Mark() != 3 { fail(x, s.Mark()) }''')
seed("S20","C21","error.go",[("return e.Marker >= oth.Marker","return e.Marker > oth.Marker || oth.What == \"\"")],
 "an Any whose readers all fail at the same position","Any reports the first instead of the last of the deepest errors",
 '''s := tok.NewScanner("x"); e := tok.Any("a", "b").Read(s); re, ok := e.(tok.ReadError); if !ok || re.What != "\\"b\\"" { fail(e) }''')
seed("S21","C22","reader.go",[('''func (r *timesReader) What() string {
	return fmt.Sprintf("%d*%s", r.n, r.sub.What())''','''func (r *timesReader) What() string {
	return fmt.Sprintf("%d*%.40s", r.n, r.sub.What())''')],
 "an invalid reader behind a long description inside of Times","the description of Times cuts the invalid-reader marker off",
 '''r := tok.Times(2, tok.Seq("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", tok.Opt(3.5))); if !tok.HasInvalidReader(r.What()) { fail(r.What()) }''')
seed("S22","C23","scanner.go",[("n := (len(last) - tabs) + tabs*tab","n := utf8.RuneCountInString(last) - tabs + tabs*tab")],
 "a rune of more than one byte in the current line","the column counts runes instead of bytes",
 '''s := tok.NewScanner("a\\u00e9b"); s.ToEnd(); if _, c := s.LineCol(4); c != 5 { fail(c) }''')
seed("S23","C24","grammar/json.go",[("g.Fraction.Reader = Opt(Seq('.', &g.Digits))","g.Fraction.Reader = Opt(Seq('.', Zom(&g.Digit)))")],
 "a number with a dot and no digit behind it","the JSON grammar accepts 1.",
 '''s := tok.NewScanner("[1.]"); if e := grammar.JSON().Read(s); e == nil { fail("accepted") }''')
seed("S24","C25","grammar.go",[("""		if e := CheckRuleName(r.Name); e != nil {
			return e
		}
		if r.Reader == nil {""","""		e := CheckRuleName(r.Name)
		if e != nil && r.Reader == nil {
			return e
		}
		if r.Reader == nil {""")],
 "a rule with a reader and an invalid name","CheckRules accepts a rule with an invalid name if it has a reader",
 '''type gr struct { rs []*tok.Rule }
func (g *gr) Read(s *tok.Scanner) error { return nil }
func (g *gr) What() string { return "" }
func (g *gr) Grammar() []*tok.Rule { return g.rs }
func main() { if tok.CheckRules(&gr{[]*tok.Rule{&tok.Rule{Name: "1a", Reader: tok.WS()}}}) == nil { fail("accepted") } }''')
seed("S25","C01","scanner.go",[("if 0 > npos || npos > len(s.full) {","if 0 > npos || npos > len(s.full) && n != 1 {")],
 "Move(1) at the end of the text","Move(1) at the end of the text leaves the text",
 '''s := tok.NewScanner("abc"); s.ToEnd(); if s.Move(1) || s.Mark() != 3 { fail("moved", s.Mark()) }''')
seed("S26","C26","grammar.go",[("		ptr, ok := i.(*Rule)\n		if !ok {","		ptr, ok := i.(*Rule)\n		if !ok || v.Type().Field(len(rules)).Anonymous {")],
 "a grammar struct that embeds a Rule","CollectRules leaves out an embedded rule",
 '''type G struct {
	tok.Rule
	B tok.Rule
}
func (g *G) Grammar() []*tok.Rule { return tok.CollectRules(g) }
func main() {
	g := &G{}
	if l := g.Grammar(); len(l) != 2 || l[0] != &g.Rule || l[1] != &g.B { fail(len(l)) }
}''')
seed("S27","C26","grammar.go",[('		rule := v.Field(i)\n		ruleName := rule.FieldByName("Name")\n','		ruleName := v.Field(i).FieldByName("Name")\n		if ruleName.Len() > len(name) {\n			continue\n		}\n')],
 "a rule that already has a name that is longer than its tag","SetRuleNames keeps the old name of a tagged rule",
 '''type G struct {
	A tok.Rule `name:"a"`
	tok.Reader
}
func (g *G) Grammar() []*tok.Rule { return tok.CollectRules(g) }
func main() {
	g := &G{A: tok.Rule{Name: "old"}}
	if e := tok.SetRuleNames(g); e != nil || g.A.Name != "a" { fail(e, g.A.Name) }
}''')
seed("S28","C17","tracker.go",[("	for _, r := range rules {\n		r.Pick(b)\n	}","	for i, r := range rules {\n		if i > 0 && r.Name == rules[i-1].Name {\n			continue\n		}\n		r.Pick(b)\n	}")],
 "two neighbouring rules with the same name","PickWith does not pick with the second of two rules of the same name",
 '''a, b := &tok.Rule{Name: "x", Reader: tok.Lit("a")}, &tok.Rule{Name: "x", Reader: tok.Lit("b")}
s := tok.NewScanner("ab"); bk := s.NewBasket(); bk.PickWith(a, b)
s.Use(a); s.Use(b)
if len(bk.Picked()) != 2 { fail(bk) }''')
seed("S29","C19","monitor.go",[("	for _, r := range readers {\n		r.Monitor(l)","	for _, r := range readers {\n		if m, ok := r.Reader.(*monitorReader); !ok || m.info != r.Name {\n			r.Monitor(l)\n		}")],
 "rules that are monitored by another log already","a second log does not get the entries of rules that another log monitors",
 '''r := &tok.Rule{Name: "x", Reader: tok.Lit("a")}
l, k := &tok.Log{}, &tok.Log{}
l.Monitor(r); k.Monitor(r)
tok.NewScanner("a").Use(r)
if len(l.Entries) != 1 || len(k.Entries) != 1 { fail(len(l.Entries), len(k.Entries)) }''')
seed("S30","C18","graph.go",[("		c := a.Nodes[i]\n		if b.Covers(c.Token) {\n","		c := a.Nodes[i]\n		if c.Segment == b.Segment && len(c.Nodes) > 0 {\n			return true\n		} else if b.Covers(c.Token) {\n")],
 "a segment with the same info and range as one that has children","the segment is not added although Append reports success",
 '''at := func(i string, a, b int) tok.Segment { return tok.Segment{Info: i, Token: tok.MakeToken(tok.Marker(a), tok.Marker(b))} }
g := tok.BuildGraph("root", []tok.Segment{at("x", 0, 4), at("y", 1, 2), at("x", 0, 4), at("z", 5, 6)})
n := 0
var f func(n *tok.Node)
f = func(m *tok.Node) { n++; for _, c := range m.Nodes { f(c) } }
f(g.Root)
if n != 5 { fail(n) }''')
seed("S32","C10","read.go",[("		tmp = (u64 * uint64(base)) + uint64(v)\n		if u64 > (max-uint64(v))/uint64(base) {","		tmp = uint64(v) + u64*uint64(base)\n		if u64 > max/uint64(base) || tmp > max {")],
 "bitSize 64 and a number between 2^64 and 2^64+3 in base 10","ReadUint accepts a number that does not fit and returns a wrapped value",
 '''s := tok.NewScanner("18446744073709551617"); v, e := s.ReadUint(10, 64)
if e != nil || v != 1844674407370955161 || s.Mark() != 19 { fail(v, e, s.Mark()) }''')
seed("S33","C21","reader.go",[("		if e := r.sub.Read(s); e != nil {\n			s.ToMarker(m)\n			return e\n		}\n	}\n	return nil","		at := s.Mark()\n		if e := r.sub.Read(s); e != nil {\n			s.ToMarker(m)\n			if re, ok := e.(ReadError); ok && re.Marker == at {\n				return s.ErrorFor(re.What)\n			}\n			return e\n		}\n	}\n	return nil")],
 "Times fails in a later repetition, directly at its start","the error of Times has the position of the first repetition",
 '''e := tok.NewScanner("aab").Use(tok.Times(3, tok.Lit("a")))
re, ok := e.(tok.ReadError); if !ok || re.Marker != 2 { fail(e) }''')
seed("S36","C24","grammar/json.go",[("	g.Exponent.Reader = Opt(Seq(AnyRune(\"eE\"), &g.Sign, &g.Digits))","	g.Exponent.Reader = Opt(Seq(AnyRune(\"eE\"), &g.Sign, Any(&g.Digits, At(AnyRune(\"]}\")))))")],
 "a number with an empty exponent directly before the end of an array or object","the JSON grammar accepts [1e]",
 '''for _, t := range []string{"[1e]", "{\\"a\\":1E+}"} { s := tok.NewScanner(t); if s.Use(grammar.JSON()) == nil { fail(t) } }''')
seed("S37","C16","scanner.go",[("	s.pos = int(m)\n	if s.Tracker != nil {","	back := int(m) < s.pos\n	s.pos = int(m)\n	if s.Tracker != nil && (back || m == 0) {")],
 "a tracker and ToMarker or ToEnd to a later position","the tracker is not told about a move forward",
 '''s := tok.NewScanner("abc"); tr := &T{}; s.Tracker = tr; s.ToEnd(); if tr.m != 3 { fail(tr.m) }
}
type T struct{ m tok.Marker }
func (t *T) Update(m tok.Marker) { t.m = m''')
seed("S38","C09","reader.go",[("	val, i := utf8.DecodeRuneInString(s.Tail())\n	if i != 0 && inRange(r.min, val, r.max) && !strings.ContainsRune(r.holes, val) {","	t := s.Tail()\n	val, i := utf8.DecodeRuneInString(t)\n	if i != 0 && inRange(r.min, val, r.max) && !strings.Contains(r.holes, t[:i]) {")],
 "an invalid byte in the text and U+FFFD among the holes (or the reverse)","Holey does not see a hole that is written in another way",
 '''s := tok.NewScanner("\\xff"); if s.Use(tok.Holey(0, 0x10FFFF, "\\uFFFD")) == nil { fail(s.Mark()) }''')
seed("S39","C20","reader.go",[("	if err == nil {\n		r.end.reader.str = s.Get(t)\n	}","	if err == nil && t.Len() > 0 {\n		r.end.reader.str = s.Get(t)\n	}")],
 "a begin that matched before without an end and then matches the empty text","the end still expects the earlier text",
 '''b, e := tok.Janus("x", tok.Zom('a')); s := tok.NewScanner("aab")
s.Use(b); s.Use(b)
if err := s.Use(e); err != nil || s.Mark() != 2 { fail(err, s.Mark()) }''')
seed("S41","C27","grammar/lua.go",[("Many(HexDigit()), Opt(Seq('.', Many(HexDigit()))), Opt(hexExponent))","Many(HexDigit()), Opt(Seq('.', Zom(HexDigit()))), Opt(hexExponent))")],
 "a hexadecimal numeral directly followed by a dot and no digit","the numeral 0x1 takes the first dot of 0x1..s",
 '''s := tok.NewScanner("0x1..s"); e := grammar.LuaNumeral().Read(s); if e != nil || s.Mark() != 3 { fail(e, s.Mark()) }''')
seed("S42","C27","grammar/lua.go",[("charString := Seq('\\'', Zom(Any(Holey(' ', utf8.MaxRune, `'\\`), escapeSequence)), '\\'')","charString := Seq('\\'', Zom(Any(Holey(' ', utf8.RuneError, `'\\`), escapeSequence)), '\\'')")],
 "a single quoted string with a rune above U+FFFD","LuaString refuses runes outside the basic plane between single quotes",
 '''s := tok.NewScanner("'\\U0001F600'"); e := grammar.LuaString().Read(s); if e != nil || s.Mark() != 6 { fail(e, s.Mark()) }''')
seed("S43","C27","grammar/lua.go",[("	hexEscape := Seq(\"\\\\x\", Times(2, HexDigit()))","	hexEscape := Seq(\"\\\\x\", Many(HexDigit()))")],
 "a hexadecimal escape with one digit","LuaString accepts an escape with one hexadecimal digit",
 '''s := tok.NewScanner("'\\\\x4'"); e := grammar.LuaString().Read(s); if e == nil || s.Mark() != 0 { fail(e, s.Mark()) }''')
seed("S44","C15","segment.go",[("			return a.Token != b.Token && sortsBefore(a.Token, b.Token)\n		},\n	}\n	sort.Stable(sorter)","			return a.Token != b.Token && sortsBefore(a.Token, b.Token)\n		},\n	}\n	sort.Sort(sorter)")],
 "more than twelve segments, several of them with equal tokens","SortSegments does not keep the order of segments with equal tokens",
 '''for n := 13; n < 200; n++ {
	var v []tok.Segment
	for i := 0; i < n; i++ { v = append(v, tok.Segment{Info: string(rune('A' + i)), Token: tok.MakeToken(tok.Marker(4 * ((n - i) % 3)), tok.Marker(4 * ((n - i) % 3) + 2))}) }
	tok.SortSegments(v)
	for i := 1; i < n; i++ { if v[i-1].Token == v[i].Token && []rune(v[i-1].Info)[0] > []rune(v[i].Info)[0] { fail(n, v[i-1], v[i]) } }
}''')
seed("S45","C22","reader.go",[("	for _, str := range strs {\n		if HasInvalidReader(str) {\n			return true\n		}\n	}\n	return false","	for _, str := range strs {\n		if str == \"\" {\n			return false\n		} else if HasInvalidReader(str) {\n			return true\n		}\n	}\n	return false")],
 "an empty string before the one with the marker","AnyHasInvalidReader stops at the first empty string",
 '''if !tok.AnyHasInvalidReader([]string{"a", "", "b" + tok.InvalidReaderMarker}) { fail() }''')
