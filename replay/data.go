package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	. "github.com/aiq/tok"
	"github.com/aiq/tok/grammar"
)

func searchC13(s *S) {
	eqT := func(name string, t Token, a, b int) {
		if x, y := tokOf(t); x != a || y != b {
			s.bad("%s is %d-%d, expected %d-%d", name, x, y, a, b)
		}
	}
	check := func(x, y rng) {
		s.do(func() string { return fmt.Sprintf("tokens [%d-%d) and [%d-%d)", x.a, x.b, y.a, y.b) }, func() {
			t, u := tok(x.b, x.a), tok(y.a, y.b)
			eqT("MakeToken(b,a)", t, x.a, x.b)
			eqT("MakeToken(a,b)", tok(x.a, x.b), x.a, x.b)
			if t.Len() != x.b-x.a {
				s.bad("Len is %d", t.Len())
			}
			cov := x.a <= y.a && y.b <= x.b
			if t.Covers(u) != cov {
				s.bad("Covers is %v", !cov)
			}
			if t.Before(u) != (x.b <= y.a) {
				s.bad("Before is %v", t.Before(u))
			}
			if t.After(u) != (x.a >= y.b) {
				s.bad("After is %v", t.After(u))
			}
			if t.Clashes(u) != clash(x, y) {
				s.bad("Clashes is %v", t.Clashes(u))
			}
			a, b := x.a, x.b
			if y.a < a {
				a = y.a
			}
			if y.b > b {
				b = y.b
			}
			eqT("Merge", t.Merge(u), a, b)
			if cov {
				l, r := t.Split(u)
				eqT("Split left", l, x.a, y.a)
				eqT("Split right", r, y.b, x.b)
				sl, sr := (Segment{Info: "i", Token: t}).Split(Segment{Info: "j", Token: u})
				eqT("Segment.Split left", sl.Token, x.a, y.a)
				eqT("Segment.Split right", sr.Token, y.b, x.b)
				if sl.Info != "i" || sr.Info != "i" {
					s.bad("Segment.Split infos are %q %q", sl.Info, sr.Info)
				}
			}
		})
	}
	const n = 7
	for a := 0; a <= n; a++ {
		for b := a; b <= n; b++ {
			for c := 0; c <= n; c++ {
				for d := c; d <= n; d++ {
					check(rng{a, b}, rng{c, d})
				}
			}
		}
	}
	s.exhaust = true
	for i := 0; i < 200000 && !s.over(); i++ {
		m := 1 << uint(s.Intn(40))
		check(s.rng(m), s.rng(m))
	}
}

func searchC14(s *S) {
	for !s.over() {
		full := s.rng(12)
		var in []Segment
		var inR []rng
		p := full.a
		for k := s.Intn(5); k > 0; k-- {
			r := s.rng(12)
			if s.Intn(5) > 0 { // mostly well placed
				a := p + s.Intn(3)
				r = rng{a, a + s.Intn(3)}
			}
			in = append(in, seg(fmt.Sprint("s", len(in)), r))
			inR = append(inR, r)
			p = r.b
		}
		scan := s.Intn(2) == 0
		if scan {
			full.a = 0
		}
		info := "x"
		if scan {
			info = ""
		}
		s.do(func() string {
			return fmt.Sprintf("segment %s[%d-%d) (whole scanner text: %v) Segmentate %s", info, full.a, full.b, scan, segsStr(in))
		}, func() {
			var want []string
			rest := full.a
			ok := true
			for i, r := range inR {
				if !(rest <= r.a && r.b <= full.b) {
					ok = false
					break
				}
				if r.a > rest {
					want = append(want, fmt.Sprintf("%s[%d-%d)", info, rest, r.a))
				}
				want = append(want, segStr(in[i]))
				rest = r.b
			}
			if ok && rest < full.b {
				want = append(want, fmt.Sprintf("%s[%d-%d)", info, rest, full.b))
			}
			before := segsStr(in)
			var got []Segment
			var err error
			if scan {
				got, err = NewScanner(strings.Repeat("z", full.b)).Segmentate(in)
			} else {
				got, err = Segment{Info: "x", Token: full.tok()}.Segmentate(in)
			}
			if (err == nil) != ok {
				s.bad("returns error %v", err)
			}
			if segsStr(got) != strings.Join(want, " ") {
				s.bad("returns %s, expected %s", segsStr(got), strings.Join(want, " "))
			}
			if segsStr(in) != before {
				s.bad("changes its argument to %s", segsStr(in))
			}
		})
	}
}

// nonClashing draws segments that do not clash pairwise.
func (s *S) nonClashing(n, k int) []rng {
	var rs []rng
next:
	for try := 0; try < 6*k && len(rs) < k; try++ {
		r := s.rng(n)
		if len(rs) > 0 && s.Intn(4) == 0 {
			r = rs[s.Intn(len(rs))]
		}
		for _, x := range rs {
			if clash(x, r) {
				continue next
			}
		}
		rs = append(rs, r)
	}
	return rs
}

func searchC15(s *S) {
	for !s.over() {
		k := s.Intn(7)
		if s.Intn(10) == 0 {
			k = 15 + s.Intn(20) // beyond the insertion sort blocks
		}
		rs := s.nonClashing(3+s.Intn(25), k)
		var in []Segment
		infos := []string{"a", "b", "c", "d", "e"}
		for i, r := range rs {
			if k > 10 || s.Intn(2) == 0 {
				in = append(in, seg(fmt.Sprint(i), r))
			} else {
				in = append(in, seg(infos[s.Intn(5)], r))
			}
		}
		var order []string
		for _, i := range s.Perm(5)[:s.Intn(6)] {
			order = append(order, infos[i])
		}
		byOrder := s.Intn(2) == 0
		pos := func(x string) int {
			for i, o := range order {
				if o == x {
					return i
				}
			}
			return -1
		}
		want := append([]Segment{}, in...)
		sort.SliceStable(want, func(i, j int) bool {
			a, b := tokOf(want[i].Token)
			c, d := tokOf(want[j].Token)
			if a != c {
				return a < c
			}
			if b != d {
				return b > d
			}
			return byOrder && pos(want[i].Info) < pos(want[j].Info)
		})
		before := segsStr(in)
		s.do(func() string {
			if byOrder {
				return fmt.Sprintf("SortSegmentsByOrder(%s; %q)", before, order)
			}
			return "SortSegments(" + before + ")"
		}, func() {
			got := append([]Segment{}, in...)
			if byOrder {
				SortSegmentsByOrder(got, order)
			} else {
				SortSegments(got)
			}
			if segsStr(got) != segsStr(want) {
				s.bad("gives %s, expected %s", segsStr(got), segsStr(want))
			}
		})
	}
}

type rec struct{ ms []int }

func (r *rec) Update(m Marker) { r.ms = append(r.ms, int(m)) }

func searchC16(s *S) {
	for !s.over() {
		text := s.text(8)
		p := s.pos(text)
		var name string
		var f func(sc *Scanner)
		if s.Intn(3) == 0 {
			n := s.tree(text, 1+s.Intn(2), true)
			name, f = n.name, func(sc *Scanner) { n.r.Read(sc) }
		} else {
			name, f = s.op(text)
		}
		s.do(func() string { return fmt.Sprintf("text %q position %d with tracker: %s", text, p, name) }, func() {
			sc := at(text, p)
			t := &rec{}
			sc.Tracker = t
			f(sc)
			q := s.intact(sc, text)
			if q != p && (len(t.ms) == 0 || t.ms[len(t.ms)-1] != q) {
				s.bad("the scanner is at %d, the tracker was told %v", q, t.ms)
			}
			if q == p && len(t.ms) > 0 && t.ms[len(t.ms)-1] != q {
				s.bad("the scanner is back at %d, the tracker was told %v", q, t.ms)
			}
		})
		// basket
		type act struct {
			add bool
			r   rng
		}
		var acts []act
		for k := s.Intn(8); k > 0; k-- {
			acts = append(acts, act{s.Intn(3) > 0, s.rng(6)})
		}
		s.do(func() string { return fmt.Sprintf("basket, (add?, {segment} or {_ position}) steps %v", acts) }, func() {
			sc := NewScanner(text)
			b := sc.NewBasket()
			if len(b.Picked()) != 0 {
				s.bad("a new basket is not empty")
			}
			var m []Segment
			for i, a := range acts {
				if a.add {
					x := seg(fmt.Sprint("i", i), a.r)
					b.Add(x)
					m = append(m[:len(m):len(m)], x)
				} else {
					b.Update(Marker(a.r.b))
					for len(m) > 0 {
						if _, e := tokOf(m[len(m)-1].Token); e <= a.r.b {
							break
						}
						m = m[:len(m)-1]
					}
				}
				if segsStr(b.Picked()) != segsStr(m) {
					s.bad("after step %d the basket holds %s, expected %s", i, segsStr(b.Picked()), segsStr(m))
				}
			}
		})
		s.do(func() string { return fmt.Sprintf("text %q: NewBasket is the tracker", text) }, func() {
			sc := NewScanner(text)
			b := sc.NewBasket()
			b.Add(seg("x", rng{0, len(text) + 1}))
			sc.ToEnd()
			if len(text) > 0 && len(b.Picked()) != 0 {
				s.bad("the basket was not updated: %s", segsStr(b.Picked()))
			}
		})
	}
}

type listGrammar struct {
	Reader
	list []*Rule
}

func (g *listGrammar) Grammar() []*Rule { return g.list }

// ruleLists: PickWith, NewBasketFor, Log.Monitor and MonitorGrammar instrument each rule of the list
func ruleLists(s *S, log bool) {
	n, how, lit := s.Intn(5), s.Intn(2), s.Intn(2)
	text := "ab"
	s.do(func() string {
		return fmt.Sprintf("a list of %d rules, %s", n, [][]string{{"PickWith", "NewBasketFor"}, {"Log.Monitor", "MonitorGrammar"}}[map[bool]int{true: 1}[log]][how])
	}, func() {
		var rules []*Rule
		for i := 0; i < n; i++ {
			w := "ab"
			if i == lit {
				w = "x"
			}
			rules = append(rules, &Rule{Name: []string{"", "r", fmt.Sprint("r", i)}[s.Intn(3)], Reader: Lit(w)})
			if s.Intn(4) == 0 { // watched by others already
				rules[i].Monitor(&Log{})
			}
			if s.Intn(4) == 0 {
				rules[i].Pick(&Basket{})
			}
		}
		g := &listGrammar{Lit(""), rules}
		sc := NewScanner(text)
		b, l := &Basket{}, &Log{}
		switch {
		case log && how == 0:
			l.Monitor(rules...)
		case log:
			if l = MonitorGrammar(g); l == nil {
				s.bad("there is no log")
			}
			if len(l.Entries) != 0 {
				s.bad("the new log is not empty")
			}
		case how == 0:
			b.PickWith(rules...)
		default:
			if b = sc.NewBasketFor(g); b == nil {
				s.bad("there is no basket")
			}
			if t, ok := sc.Tracker.(*Basket); !ok || t != b || len(b.Picked()) != 0 {
				s.bad("the new basket is not empty or not the tracker of the scanner")
			}
		}
		for i, r := range rules {
			if !log && how == 1 {
				sc.ToStart()
				b.Update(0) // forgets what was read behind the start
			} else {
				sc = NewScanner(text)
			}
			k := len(b.Picked())
			err := r.Read(sc)
			if (err == nil) != (i != lit) {
				s.bad("rule %d returns %v", i, err)
			}
			if log {
				if len(l.Entries) != i+1 || l.Entries[i].Info != r.Name {
					s.bad("the log after the read of rule %d: %v", i, l.Entries)
				}
				continue
			}
			ps := b.Picked()
			if err != nil {
				if len(ps) != k {
					s.bad("the basket after the failing read of rule %d: %s", i, segsStr(ps))
				}
				continue
			}
			if len(ps) == 0 || segStr(ps[len(ps)-1]) != fmt.Sprintf("%s[0-2)", r.Name) || len(ps) != k+1 {
				s.bad("the basket after the read of rule %d: %s", i, segsStr(ps))
			}
		}
	})
}

func searchC17(s *S) {
	for i := 0; i < 100; i++ {
		ruleLists(s, false)
	}
	for !s.over() {
		text := s.treeText()
		n := s.tree(text, 1+s.Intn(2), false)
		rule := s.Intn(2) == 0
		s.each(text, 1, func(p int) {
			s.do(descNode(text, p, node{name: fmt.Sprintf("Pick/Map (rule: %v) of %s", rule, n.name)}), func() {
				ok, q := n.ref(text, p)
				if !ok {
					q = p
				}
				var toks []string
				f := func(t Token) { a, b := tokOf(t); toks = append(toks, fmt.Sprintf("[%d-%d)", a, b)) }
				b := &Basket{}
				pre := seg("pre", rng{0, p})
				b.Add(pre)
				pr, mr := Pick(n.r, b, "info"), Map(n.r, f)
				if rule {
					r1, r2 := &Rule{Name: "info", Reader: n.r}, &Rule{Name: "info", Reader: n.r}
					r1.Pick(b)
					r2.Map(f)
					pr, mr = r1, r2
				}
				want := segStr(pre)
				if s.Intn(3) == 0 {
					x := seg("info", rng{p, q})
					b.Add(x)
					want += " " + segStr(x)
				}
				var sc *Scanner
				var err error
				for k := s.Intn(3); k >= 0; k-- { // the same reader again
					sc = at(text, p)
					err = pr.Read(sc)
					s.expect(sc, text, err == nil, ok, q)
					if ok {
						want += fmt.Sprintf(" info[%d-%d)", p, q)
					}
				}
				if segsStr(b.Picked()) != want {
					s.bad("the basket holds %s, expected %s", segsStr(b.Picked()), want)
				}
				sc = at(text, p)
				err = mr.Read(sc)
				s.expect(sc, text, err == nil, ok, q)
				want = "[]"
				if ok {
					want = fmt.Sprintf("[[%d-%d)]", p, q)
				}
				if fmt.Sprint(toks) != want {
					s.bad("the function got %v, expected %s", toks, want)
				}
			})
		})
	}
}

func nodeStr(n *Node) string {
	x := segStr(n.Segment)
	if len(n.Nodes) == 0 {
		return x
	}
	var o []string
	for _, c := range n.Nodes {
		o = append(o, nodeStr(c))
	}
	return x + "(" + strings.Join(o, " ") + ")"
}

func all(n *Node, out *[]Segment) {
	for _, c := range n.Nodes {
		*out = append(*out, c.Segment)
		all(c, out)
	}
}

func searchC18(s *S) {
	var prev *Graph
	check := func(rs []rng) {
		infos := make([]string, len(rs))
		mode := s.Intn(3)
		for i := range infos {
			infos[i] = fmt.Sprint("s", i)
			if mode == 1 {
				infos[i] = "x"
			} else if mode == 2 {
				infos[i] = []string{"", "x", "root"}[s.Intn(3)]
			}
		}
		s.do(func() string { return fmt.Sprintf("graph: append %v with the infos %q", rs, infos) }, func() {
			g := NewGraph("root")
			if nodeStr(g.Root) != "root[0-0)" || segsStr(g.Leafs()) != "root[0-0)" {
				s.bad("a new graph is %s with the leafs %s", nodeStr(g.Root), segsStr(g.Leafs()))
			}
			var have []rng
			var names []string
			for i, r := range rs {
				ok := true
				for _, x := range have {
					if clash(x, r) {
						ok = false
					}
				}
				// the root spans what has been appended
				before := nodeStr(g.Root)
				nm := infos[i]
				h, got := g.Append(seg(nm, r))
				if h != g {
					s.bad("Append returns another graph")
				}
				if got != ok {
					s.bad("appending [%d-%d) to %s returns %v", r.a, r.b, before, got)
				}
				if !ok {
					if nodeStr(g.Root) != before {
						s.bad("the failing append of [%d-%d) changes %s to %s", r.a, r.b, before, nodeStr(g.Root))
					}
					continue
				}
				have = append(have, r)
				names = append(names, segStr(seg(nm, r)))
				var segs []Segment
				all(g.Root, &segs)
				var gs []string
				for _, x := range segs {
					gs = append(gs, segStr(x))
				}
				ws := append([]string{}, names...)
				sort.Strings(gs)
				sort.Strings(ws)
				if fmt.Sprint(gs) != fmt.Sprint(ws) {
					s.bad("after appending %s to %s the graph is %s", nm, before, nodeStr(g.Root))
				}
				var inv func(n *Node)
				inv = func(n *Node) {
					a, b := tokOf(n.Token)
					last := a
					for i, c := range n.Nodes {
						x, y := tokOf(c.Token)
						if x < a || y > b {
							s.bad("%s lies outside its parent in %s", segStr(c.Segment), nodeStr(g.Root))
						}
						if x < last {
							s.bad("children out of order or overlapping at %d in %s", i, nodeStr(g.Root))
						}
						last = y
						inv(c)
					}
				}
				inv(g.Root)
				// the nesting follows from the ranges; of equal ones the later is the outer
				ord := make([]int, 0, len(have))
				for i := range have {
					ord = append(ord, i)
				}
				sort.SliceStable(ord, func(x, y int) bool {
					p, q := have[ord[x]], have[ord[y]]
					if p.a != q.a {
						return p.a < q.a
					}
					if p.b != q.b {
						return p.b > q.b
					}
					return ord[x] > ord[y]
				})
				var nest func(hi int) string
				nest = func(hi int) string {
					var o []string
					for len(ord) > 0 && have[ord[0]].b <= hi {
						i := ord[0]
						ord = ord[1:]
						x := names[i]
						if sub := nest(have[i].b); sub != "" {
							x += "(" + sub + ")"
						}
						o = append(o, x)
					}
					return strings.Join(o, " ")
				}
				wantTree := nest(1 << 30)
				var kids []string
				for _, c := range g.Root.Nodes {
					kids = append(kids, nodeStr(c))
				}
				if strings.Join(kids, " ") != wantTree {
					s.bad("after appending %s to %s the graph is %s, expected below the root: %s", nm, before, nodeStr(g.Root), wantTree)
				}
				var leafs []string
				var lf func(n *Node)
				lf = func(n *Node) {
					if len(n.Nodes) == 0 {
						leafs = append(leafs, segStr(n.Segment))
					}
					for _, c := range n.Nodes {
						lf(c)
					}
				}
				lf(g.Root)
				if segsStr(g.Leafs()) != strings.Join(leafs, " ") {
					s.bad("Leafs of %s are %s", nodeStr(g.Root), segsStr(g.Leafs()))
				}
			}
			var segs []Segment
			for i, r := range rs {
				segs = append(segs, seg(infos[i], r))
			}
			b := BuildGraph("root", segs)
			if nodeStr(b.Root) != nodeStr(g.Root) {
				s.bad("BuildGraph gives %s, appending gives %s", nodeStr(b.Root), nodeStr(g.Root))
			}
			for _, o := range []*Graph{g, b, prev} {
				if o == nil {
					continue
				}
				if same := nodeStr(o.Root) == nodeStr(g.Root); g.Equal(o) != same || o.Equal(g) != same || g.Root.Equal(o.Root) != same {
					s.bad("Equal of %s and %s", nodeStr(g.Root), nodeStr(o.Root))
				}
			}
			if s.Intn(4) == 0 {
				prev = g
			}
		})
	}
	random := func() {
		n := 4 + s.Intn(8)
		var rs []rng
		k := s.Intn(6)
		if s.Intn(3) == 0 {
			n, k = 12+s.Intn(20), s.Intn(20)
		}
		for i := 0; i < k; i++ {
			r := s.rng(n)
			if r.a == r.b {
				r.b++
			}
			rs = append(rs, r)
		}
		if s.Intn(2) == 0 {
			rs = s.nonClashing(n, k)
			for i := range rs {
				if rs[i].a == rs[i].b {
					rs[i] = rng{0, n}
				}
			}
		}
		check(rs)
	}
	for i := 0; i < 3000 && !s.over(); i++ {
		random()
	}
	// every sequence of at most k non-empty segments of a text of length n
	for _, d := range [][2]int{{4, 3}, {3, 4}, {5, 3}, {2, 5}, {4, 4}} {
		n, k := d[0], d[1]
		var segs []rng
		for a := 0; a < n; a++ {
			for b := a + 1; b <= n; b++ {
				segs = append(segs, rng{a, b})
			}
		}
		var rec func(rs []rng)
		rec = func(rs []rng) {
			if len(rs) == k {
				check(append([]rng{}, rs...))
				return
			}
			for _, x := range segs {
				if s.over() {
					return
				}
				rec(append(rs[:len(rs):len(rs)], x))
			}
		}
		rec(nil)
	}
	for !s.over() {
		random()
	}
}

func searchC19(s *S) {
	type want struct {
		info      string
		in, out   int
		level     int
		ok        bool
		err       error
		completed bool
	}
	for i := 0; i < 100; i++ {
		ruleLists(s, true)
	}
	for !s.over() {
		text := s.text(5)
		// a tree of monitored readers whose leaves move or fail; written as a script
		var build func(d int) (Reader, string, func(lv int, p int, out *[]*want) (bool, int))
		ctr := 0
		l := &Log{}
		build = func(d int) (Reader, string, func(lv int, p int, out *[]*want) (bool, int)) {
			ctr++
			info := fmt.Sprint("m", ctr)
			if d == 0 || s.Intn(3) == 0 {
				n := s.leaf(text, false)
				return Monitor(n.r, l, info), info + ":" + n.name, func(lv int, p int, out *[]*want) (bool, int) {
					w := &want{info: info, in: p, level: lv + 1}
					*out = append(*out, w)
					ok, q := n.ref(text, p)
					if !ok {
						q = p
					}
					w.out, w.ok = q, ok
					return ok, q
				}
			}
			var rs []interface{}
			var nm []string
			var fs []func(lv int, p int, out *[]*want) (bool, int)
			for k := 1 + s.Intn(4); k > 0; k-- {
				r, n, f := build(d - 1)
				rs = append(rs, r)
				nm = append(nm, n)
				fs = append(fs, f)
			}
			seq := s.Intn(2) == 0
			r, kind := Any(rs...), "Any"
			if seq {
				r, kind = Seq(rs...), "Seq"
			}
			return Monitor(r, l, info), info + ":" + kind + "(" + strings.Join(nm, ",") + ")", func(lv int, p int, out *[]*want) (bool, int) {
				w := &want{info: info, in: p, level: lv + 1}
				*out = append(*out, w)
				q := p
				ok := seq
				for _, f := range fs {
					o, e := f(lv+1, q, out)
					if seq && !o {
						ok, q = false, p
						break
					}
					if !seq && o {
						ok, q = true, e
						break
					}
					if seq {
						q = e
					}
				}
				w.out, w.ok = q, ok
				return ok, q
			}
		}
		r, name, sim := build(s.Intn(4))
		p := s.pos(text)
		times := 1 + s.Intn(3)
		s.do(func() string {
			return fmt.Sprintf("text %q position %d: %d monitored reads of %s", text, p, times, name)
		}, func() {
			l.Reset()
			if len(l.Entries) != 0 {
				s.bad("Reset leaves %d entries", len(l.Entries))
			}
			var ws []*want
			for i := 0; i < times; i++ {
				sc := at(text, p)
				k := len(ws)
				ok, q := sim(0, p, &ws)
				err := r.Read(sc)
				s.expect(sc, text, err == nil, ok, q)
				if len(l.Entries) == len(ws) && l.Entries[k].Error != err {
					s.bad("read %d returns %v, the entry has %v", i, err, l.Entries[k].Error)
				}
			}
			if len(l.Entries) != len(ws) {
				s.bad("the log has %d entries, expected %d", len(l.Entries), len(ws))
			}
			for i, w := range ws {
				e := l.Entries[i]
				if e.Info != w.info || e.EnterAt != w.in || e.ExitAt != w.out || e.Level != w.level || (e.Error == nil) != w.ok {
					s.bad("entry %d is %+v, expected %+v", i, e, *w)
				}
			}
		})
	}
}

// ------------------------------------------------------------------ JSON

// jsonEnd: the position behind the element at p, or -1.
func jsonWS(t string, p int) int {
	for p < len(t) && strings.IndexByte(" \t\r\n", t[p]) >= 0 {
		p++
	}
	return p
}

func jsonElem(t string, p int) int {
	if p = jsonVal(t, jsonWS(t, p)); p < 0 {
		return -1
	}
	return jsonWS(t, p)
}

func jsonList(t string, p int, closer byte, item func(p int) int) int {
	// p behind the opening
	q := item(p)
	if q >= 0 {
		for q < len(t) && t[q] == ',' {
			n := item(q + 1)
			if n < 0 {
				break
			}
			q = n
		}
	} else {
		q = jsonWS(t, p)
	}
	if q < len(t) && t[q] == closer {
		return q + 1
	}
	return -1
}

func jsonStr(t string, p int) int {
	if p >= len(t) || t[p] != '"' {
		return -1
	}
	p++
	for p < len(t) {
		switch c := t[p]; {
		case c == '"':
			return p + 1
		case c == '\\':
			if p+1 >= len(t) {
				return -1
			}
			if strings.IndexByte(`"\/bfnrt`, t[p+1]) >= 0 {
				p += 2
				continue
			}
			if t[p+1] != 'u' || p+6 > len(t) {
				return -1
			}
			for _, h := range []byte(t[p+2 : p+6]) {
				if digVal(h) > 15 {
					return -1
				}
			}
			p += 6
		case c < 0x20:
			return -1
		default:
			_, w := utf8.DecodeRuneInString(t[p:])
			p += w
		}
	}
	return -1
}

func jsonDigits(t string, p int) int {
	for p < len(t) && t[p] >= '0' && t[p] <= '9' {
		p++
	}
	return p
}

func jsonNum(t string, p int) int {
	if p < len(t) && t[p] == '-' {
		p++
	}
	q := jsonDigits(t, p)
	if q == p {
		return -1
	}
	if t[p] == '0' {
		q = p + 1
	}
	if q < len(t) && t[q] == '.' {
		if e := jsonDigits(t, q+1); e > q+1 {
			q = e
		}
	}
	if q < len(t) && (t[q] == 'e' || t[q] == 'E') {
		x := q + 1
		if x < len(t) && (t[x] == '+' || t[x] == '-') {
			x++
		}
		if e := jsonDigits(t, x); e > x {
			q = e
		}
	}
	return q
}

func jsonVal(t string, p int) int {
	if p >= len(t) {
		return -1
	}
	switch t[p] {
	case '{':
		return jsonList(t, p+1, '}', func(p int) int {
			q := jsonStr(t, jsonWS(t, p))
			if q < 0 {
				return -1
			}
			q = jsonWS(t, q)
			if q >= len(t) || t[q] != ':' {
				return -1
			}
			return jsonElem(t, q+1)
		})
	case '[':
		return jsonList(t, p+1, ']', func(p int) int { return jsonElem(t, p) })
	case '"':
		return jsonStr(t, p)
	}
	for _, w := range []string{"true", "false", "null"} {
		if hasPrefix(t[p:], w) {
			return p + len(w)
		}
	}
	return jsonNum(t, p)
}

func (s *S) jsonText(d int) string {
	ws := func() string { return []string{"", "", "", " ", "\n", "\t\r "}[s.Intn(6)] }
	var v string
	switch k := s.Intn(10); {
	case k < 2 && d > 0:
		var o []string
		for i := s.Intn(4); i > 0; i-- {
			o = append(o, s.jsonText(d-1))
		}
		v = "[" + strings.Join(o, ",") + ws() + "]"
	case k < 4 && d > 0:
		var o []string
		for i := s.Intn(3); i > 0; i-- {
			o = append(o, ws()+s.jsonStrText()+ws()+":"+s.jsonText(d-1))
		}
		v = "{" + strings.Join(o, ",") + ws() + "}"
	case k < 6:
		v = s.jsonStrText()
	case k < 8:
		v = []string{"", "-"}[s.Intn(2)] + []string{"0", "1", "12", "00", "01", "9876543210", ""}[s.Intn(7)] + []string{"", "", ".5", ".", ".00", ".e1"}[s.Intn(6)] + []string{"", "", "e1", "E+2", "e-0", "e", "e+"}[s.Intn(7)]
	default:
		v = []string{"true", "false", "null", "True", "nul"}[s.Intn(5)]
	}
	return ws() + v + ws()
}

func (s *S) jsonStrText() string {
	var b strings.Builder
	b.WriteByte('"')
	for i := s.Intn(4); i > 0; i-- {
		b.WriteString([]string{"a", "é", "\x7f", "\x1f", "\x80", "\uFFFD", "𝄞", `\n`, `\"`, `\\`, `\/`, `\u00e9`, `\uD834`, `\u12g4`, `\x`, `\u123`, "'", " ", "\n", `\`, `\b\f\r\t`, "\U0010FFFF", "\x00"}[s.Intn(23)])
	}
	if s.Intn(15) > 0 {
		b.WriteByte('"')
	}
	return b.String()
}

func searchC24(s *S) {
	g := grammar.JSON()
	for !s.over() {
		text := s.jsonText(s.Intn(4))
		if len(text) > 0 && s.Intn(3) == 0 { // mutate
			i := s.Intn(len(text))
			switch s.Intn(3) {
			case 0:
				text = text[:i] + text[i+1:]
			case 1:
				text = text[:i] + []string{",", "]", "}", ":", `"`, "0", " ", "\x80", "[", "{", "e", "-", "."}[s.Intn(13)] + text[i:]
			case 2:
				text = text[:i] + string(text[s.Intn(len(text))]) + text[i+1:]
			}
		}
		p := 0
		if s.Intn(4) == 0 {
			p = s.pos(text)
		}
		s.do(func() string { return fmt.Sprintf("JSON text %q position %d", text, p) }, func() {
			sc := at(text, p)
			err := g.Read(sc)
			q := jsonElem(text, p)
			to := q
			if q < 0 {
				to = p
			}
			s.expect(sc, text, err == nil, q >= 0, to)
			if v := json.Valid([]byte(text[p:])); v != (q == len(text)) {
				s.bad("oracle disagreement: json.Valid %v", v)
			}
		})
	}
}

type gr struct{ rules []*Rule }

func (g *gr) Read(*Scanner) error { return nil }
func (g *gr) What() string        { return "gr" }
func (g *gr) Grammar() []*Rule    { return g.rules }

func refName(n string) bool {
	let := func(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	if n == "" || !let(n[0]) {
		return false
	}
	for i := 1; i < len(n); i++ {
		c := n[i]
		if !let(c) && !(c >= '0' && c <= '9') && strings.IndexByte("+-._", c) < 0 {
			return false
		}
	}
	return true
}

func searchC25(s *S) {
	name := func() string {
		var b strings.Builder
		for k := s.Intn(6); k > 0; k-- {
			b.WriteString([]string{"a", "z", "A", "Z", "m", "0", "9", "+", "-", ".", "_", " ", "é", "@", "[", "`", "{", "/", ":", "\x80", ",", "5", "q", "X"}[s.Intn(24)])
		}
		return b.String()
	}
	chk := func(n string) {
		s.do(func() string { return fmt.Sprintf("CheckRuleName(%q)", n) }, func() {
			if err := CheckRuleName(n); (err == nil) != refName(n) {
				s.bad("returns %v", err)
			}
		})
	}
	for c := 0; c < 256; c++ {
		chk(string([]byte{byte(c)}))
		chk(string([]byte{'a', byte(c)}))
		chk(string([]byte{'Q', byte(c), 'x'}))
	}
	s.exhaust = true
	for !s.over() {
		chk(name())
		g := &gr{}
		ok := true
		var d []string
		for k := s.Intn(5); k > 0; k-- {
			n := []string{"abc", "x1", name()}[s.Intn(3)]
			r := &Rule{Name: n, Reader: Lit("a")}
			if s.Intn(6) == 0 {
				r.Reader = nil
			}
			ok = ok && refName(n) && r.Reader != nil
			d = append(d, fmt.Sprintf("%q reader=%v", n, r.Reader != nil))
			g.rules = append(g.rules, r)
		}
		s.do(func() string { return fmt.Sprintf("CheckRules of %v", d) }, func() {
			if err := CheckRules(g); (err == nil) != ok {
				s.bad("returns %v", err)
			}
			p := func() (p bool) {
				defer func() { p = recover() != nil }()
				MustCheckRules(g)
				return
			}()
			if p == ok {
				s.bad("MustCheckRules panics: %v", p)
			}
		})
	}
}

func init() {
	for k, f := range map[string]func(*S){"C13": searchC13, "C14": searchC14, "C15": searchC15, "C16": searchC16, "C17": searchC17, "C18": searchC18, "C19": searchC19, "C24": searchC24, "C25": searchC25, "C26": searchC26} {
		searches[k] = f
	}
}

type other struct {
	Name   string
	Reader Reader
}

type rg struct{}

func (rg) Read(*Scanner) error { return nil }
func (rg) What() string        { return "" }
func (rg) Grammar() []*Rule    { return nil }

type g26a struct {
	rg
	A Rule   `name:"a-name"`
	B Rule   `name:"b"`
	S string `name:"s"`
	C Rule
	D *Rule `name:"d"`
	E Rule  `name:"e.1"`
	O other `name:"o"`
	F Rule  `other:"x" name:"f"`
	G Rule  `other:"name"`
	H Rule  `name:""`
	I Rule  `name:"i_+"`
}

type g26b struct {
	rg
	A Rule `name:"a"`
	B Rule `name:"1b"`
	C Rule `name:"c"`
}

type g26c struct {
	rg
	N int
	A Rule `name:"one"`
}

type g26d struct {
	rg
	Rule `name:"embedded"`
	A    Rule `name:"a b"`
}

func (g *g26d) Read(*Scanner) error { return nil }
func (g *g26d) What() string        { return "" }

type g26e struct{ rg }

type g26f struct {
	rg
	S string `name:"no good"`
	O other  `name:"?"`
	A Rule   `name:"fine"`
}

func searchC26(s *S) {
	rules := func(g Grammar) ([]*Rule, []string) {
		switch g := g.(type) {
		case *g26a:
			return []*Rule{&g.A, &g.B, &g.C, &g.E, &g.F, &g.G, &g.H, &g.I}, []string{"a-name", "b", "", "e.1", "f", "", "", "i_+"}
		case *g26b:
			return []*Rule{&g.A, &g.B, &g.C}, []string{"a", "1b", "c"}
		case *g26c:
			return []*Rule{&g.A}, []string{"one"}
		case *g26d:
			return []*Rule{&g.Rule, &g.A}, []string{"embedded", "a b"}
		case *g26f:
			return []*Rule{&g.A}, []string{"fine"}
		}
		return nil, nil
	}
	s.exhaust = true
	for !s.over() {
		gs := []Grammar{&g26a{S: "keep", O: other{Name: "keep"}}, &g26b{}, &g26c{N: 3}, &g26d{}, &g26e{}, &g26f{S: "keep"}}
		g := gs[s.Intn(len(gs))]
		rs, tags := rules(g)
		pre := make([]string, len(rs))
		rd := make([]Reader, len(rs))
		for i, r := range rs {
			if s.Intn(2) == 0 {
				pre[i] = []string{"old", "x", "b"}[s.Intn(3)]
				r.Name = pre[i]
			}
			if s.Intn(2) == 0 {
				rd[i] = Lit("q")
				r.Reader = rd[i]
			}
		}
		s.do(func() string { return fmt.Sprintf("CollectRules and SetRuleNames of %T with names %q", g, pre) }, func() {
			l := CollectRules(g)
			if len(l) != len(rs) {
				s.bad("CollectRules returns %d rules", len(l))
				return
			}
			for i := range l {
				if l[i] != rs[i] {
					s.bad("CollectRules returns another rule at %d", i)
				}
			}
			want := true
			for _, t := range tags {
				want = want && (t == "" || refName(t))
			}
			err := SetRuleNames(g)
			if (err == nil) != want {
				s.bad("SetRuleNames returns %v", err)
			}
			for i, r := range rs {
				if err == nil && tags[i] != "" && r.Name != tags[i] {
					s.bad("rule %d got the name %q", i, r.Name)
				}
				if (tags[i] == "" || !refName(tags[i])) && r.Name != pre[i] {
					s.bad("the name of rule %d was changed to %q", i, r.Name)
				}
				if r.Reader != rd[i] {
					s.bad("the reader of rule %d was changed", i)
				}
			}
			if a, ok := g.(*g26a); ok && (a.S != "keep" || a.O.Name != "keep" || a.D != nil) {
				s.bad("another field was changed")
			}
		})
	}
}
