package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term.
type Term struct {
	Op   string // operator, "#int" constant, "#const" declared constant, "#bound" bound variable
	Args []*Term
	Sort string
	Name string // for #const / #bound, and quantifier bodies
	Int  *big.Int
	id   int
	// quantifiers
	Vars  []*Term
	Pats  [][]*Term
	bound bool // contains a bound variable
}

const (
	SInt   = "Int"
	SBool  = "Bool"
	SStr   = "Str"
	SSl    = "Sl"
	SRef   = "Ref"
	SIface = "Iface"
	SBytes = "Bytes"
	SFunc  = "Fun"
)

func sArr(s string) string { return "(Array Int " + s + ")" }

var (
	termTab  = map[string]*Term{}
	termNext = 1
)

func mk(op, srt, name string, args []*Term, iv *big.Int, vars []*Term, pats [][]*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(srt)
	b.WriteByte('|')
	b.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	if iv != nil {
		b.WriteString(iv.String())
	}
	for _, v := range vars {
		fmt.Fprintf(&b, ";%d", v.id)
	}
	for _, p := range pats {
		b.WriteString("!")
		for _, a := range p {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{Op: op, Args: args, Sort: srt, Name: name, Int: iv, Vars: vars, Pats: pats, id: termNext}
	termNext++
	if op == "#bound" {
		t.bound = true
	}
	for _, a := range args {
		if a.bound {
			t.bound = true
		}
	}
	if len(vars) > 0 {
		// closed if the only bound variables are our own
		own := map[*Term]bool{}
		for _, v := range vars {
			own[v] = true
		}
		t.bound = hasFree(args[0], own)
	}
	termTab[k] = t
	return t
}

func hasFree(t *Term, own map[*Term]bool) bool {
	if !t.bound {
		return false
	}
	if t.Op == "#bound" {
		return !own[t]
	}
	if len(t.Vars) > 0 {
		o2 := map[*Term]bool{}
		for k := range own {
			o2[k] = true
		}
		for _, v := range t.Vars {
			o2[v] = true
		}
		return hasFree(t.Args[0], o2)
	}
	for _, a := range t.Args {
		if hasFree(a, own) {
			return true
		}
	}
	return false
}

func app(op, srt string, args ...*Term) *Term { return mk(op, srt, "", args, nil, nil, nil) }

func cst(name, srt string) *Term { return mk("#const", srt, name, nil, nil, nil, nil) }

var freshCtr = map[string]int{}

func fresh(prefix, srt string) *Term {
	freshCtr[prefix]++
	return cst(fmt.Sprintf("%s!%d", sanitize(prefix), freshCtr[prefix]), srt)
}

func bvar(name, srt string) *Term { return mk("#bound", srt, name, nil, nil, nil, nil) }

func freshBound(prefix, srt string) *Term {
	freshCtr["?"+prefix]++
	return bvar(fmt.Sprintf("?%s_%d", sanitize(prefix), freshCtr["?"+prefix]), srt)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$', r == '!', r == '?':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("$p")
		case r == '[':
			b.WriteString("$l")
		case r == ']':
			b.WriteString("$r")
		case r == '/':
			b.WriteString("$s")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

func ibig(v *big.Int) *Term { return mk("#int", SInt, "", nil, v, nil, nil) }
func inum(v int64) *Term    { return ibig(big.NewInt(v)) }

var (
	tTrue  = mk("true", SBool, "", nil, nil, nil, nil)
	tFalse = mk("false", SBool, "", nil, nil, nil, nil)
	zero   = inum(0)
	one    = inum(1)
)

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isInt() bool { return t.Op == "#int" }

// ---------------------------------------------------------------- linear arithmetic

// linear decomposes t into constant + sum coef*atom.
func linear(t *Term, k *big.Int, acc map[*Term]*big.Int, c *big.Int) {
	switch t.Op {
	case "#int":
		c.Add(c, new(big.Int).Mul(k, t.Int))
	case "+":
		for _, a := range t.Args {
			linear(a, k, acc, c)
		}
	case "*":
		if len(t.Args) == 2 && t.Args[0].isInt() {
			linear(t.Args[1], new(big.Int).Mul(k, t.Args[0].Int), acc, c)
			return
		}
		addAtom(acc, t, k)
	default:
		addAtom(acc, t, k)
	}
}

func addAtom(acc map[*Term]*big.Int, t *Term, k *big.Int) {
	if v, ok := acc[t]; ok {
		acc[t] = new(big.Int).Add(v, k)
	} else {
		acc[t] = new(big.Int).Set(k)
	}
}

func fromLinear(acc map[*Term]*big.Int, c *big.Int) *Term {
	var atoms []*Term
	for a, k := range acc {
		if k.Sign() != 0 {
			atoms = append(atoms, a)
		}
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var parts []*Term
	for _, a := range atoms {
		k := acc[a]
		if k.Cmp(big.NewInt(1)) == 0 {
			parts = append(parts, a)
		} else {
			parts = append(parts, app("*", SInt, ibig(new(big.Int).Set(k)), a))
		}
	}
	if c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, ibig(new(big.Int).Set(c)))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return app("+", SInt, parts...)
}

func add(ts ...*Term) *Term {
	acc := map[*Term]*big.Int{}
	c := new(big.Int)
	for _, t := range ts {
		linear(t, big.NewInt(1), acc, c)
	}
	return fromLinear(acc, c)
}

func sub(a, b *Term) *Term {
	acc := map[*Term]*big.Int{}
	c := new(big.Int)
	linear(a, big.NewInt(1), acc, c)
	linear(b, big.NewInt(-1), acc, c)
	return fromLinear(acc, c)
}

func neg(a *Term) *Term { return sub(zero, a) }

func mul(a, b *Term) *Term {
	if a.isInt() {
		acc := map[*Term]*big.Int{}
		c := new(big.Int)
		linear(b, a.Int, acc, c)
		return fromLinear(acc, c)
	}
	if b.isInt() {
		return mul(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("*", SInt, a, b)
}

// ---------------------------------------------------------------- booleans

func not(a *Term) *Term {
	switch a.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return a.Args[0]
	case "<=": // not a<=b  ==> b+1 <= a
		return le(add(a.Args[1], one), a.Args[0])
	}
	return app("not", SBool, a)
}

func and(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t.Op == "and" {
			for _, a := range t.Args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if t == tTrue || seen[t] {
			return true
		}
		if t == tFalse || seen[not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !rec(t) {
			return tFalse
		}
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("and", SBool, out...)
}

func or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		var list []*Term
		if t.Op == "or" {
			list = t.Args
		} else {
			list = []*Term{t}
		}
		for _, t := range list {
			if t == tFalse || seen[t] {
				continue
			}
			if t == tTrue || seen[not(t)] {
				return tTrue
			}
			seen[t] = true
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return app("or", SBool, out...)
}

func implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue || a == b {
		return tTrue
	}
	if b == tFalse {
		return not(a)
	}
	return app("=>", SBool, a, b)
}

func le(a, b *Term) *Term {
	// normalise to  a - b <= 0 -> compare constants
	d := sub(a, b)
	if d.isInt() {
		return boolT(d.Int.Sign() <= 0)
	}
	return app("<=", SBool, a, b)
}
func lt(a, b *Term) *Term { return le(add(a, one), b) }
func ge(a, b *Term) *Term { return le(b, a) }
func gt(a, b *Term) *Term { return lt(b, a) }

func isCtor(op string) bool {
	return op == "mkStr" || op == "mkSl" || op == "mkRef"
}

func eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq: sort mismatch %s:%s vs %s:%s", a, a.Sort, b, b.Sort))
	}
	if a.Sort == SInt {
		d := sub(a, b)
		if d.isInt() {
			return boolT(d.Int.Sign() == 0)
		}
	}
	if a.Sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return not(b)
		}
		if b == tFalse {
			return not(a)
		}
	}
	if a.Sort == SFunc && (a == nilFun && funTab[b] != nil || b == nilFun && funTab[a] != nil) {
		return tFalse // a function of the program is not nil
	}
	if isCtor(a.Op) && a.Op == b.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, eq(a.Args[i], b.Args[i]))
		}
		return and(cs...)
	}
	if isBox(a.Op) && isBox(b.Op) && a.Op != b.Op {
		return tFalse
	}
	if isBox(a.Op) && a.Op == b.Op {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, eq(a.Args[i], b.Args[i]))
		}
		return and(cs...)
	}
	if ((isBox(a.Op) || a.Op == "fmtErr") && b == nilIface) || ((isBox(b.Op) || b.Op == "fmtErr") && a == nilIface) {
		return tFalse
	}
	if a.Op == "ite" && (b == a.Args[1] || b == a.Args[2]) && a.Args[1].isInt() && a.Args[2].isInt() {
		if b == a.Args[1] {
			return a.Args[0]
		}
		return not(a.Args[0])
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("=", SBool, a, b)
}

func ne(a, b *Term) *Term { return not(eq(a, b)) }

func ite(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.Sort == SBool {
		if a == tTrue {
			return or(c, b)
		}
		if a == tFalse {
			return and(not(c), b)
		}
		if b == tTrue {
			return or(not(c), a)
		}
		if b == tFalse {
			return and(c, a)
		}
	}
	return app("ite", a.Sort, c, a, b)
}

func isBox(op string) bool { return strings.HasPrefix(op, "box_") }

var nilIface = cst("nilI", SIface)

// ---------------------------------------------------------------- datatypes

func mkStr(b, o, l *Term) *Term {
	if b.Op == "sb" && o.Op == "so" && l.Op == "sl" && b.Args[0] == o.Args[0] && o.Args[0] == l.Args[0] {
		return b.Args[0]
	}
	return app("mkStr", SStr, b, o, l)
}

func acc(op, srt, ctor string, i int, t *Term) *Term {
	if t.Op == ctor {
		return t.Args[i]
	}
	if t.Op == "ite" {
		return ite(t.Args[0], acc(op, srt, ctor, i, t.Args[1]), acc(op, srt, ctor, i, t.Args[2]))
	}
	return app(op, srt, t)
}
func sbase(t *Term) *Term { return acc("sb", SBytes, "mkStr", 0, t) }
func soff(t *Term) *Term  { return acc("so", SInt, "mkStr", 1, t) }
func slen(t *Term) *Term  { return acc("sl", SInt, "mkStr", 2, t) }
func send(t *Term) *Term  { return add(soff(t), slen(t)) }

func mkSl(b, o, l, c *Term) *Term {
	if b.Op == "lb" && o.Op == "lo" && l.Op == "ll" && c.Op == "lc" &&
		b.Args[0] == o.Args[0] && o.Args[0] == l.Args[0] && l.Args[0] == c.Args[0] {
		return b.Args[0]
	}
	return app("mkSl", SSl, b, o, l, c)
}
func lblk(t *Term) *Term { return acc("lb", SInt, "mkSl", 0, t) }
func loff(t *Term) *Term { return acc("lo", SInt, "mkSl", 1, t) }
func llen(t *Term) *Term { return acc("ll", SInt, "mkSl", 2, t) }
func lcap(t *Term) *Term { return acc("lc", SInt, "mkSl", 3, t) }

func mkRef(b, i *Term) *Term {
	if b.Op == "rb" && i.Op == "ri" && b.Args[0] == i.Args[0] {
		return b.Args[0]
	}
	return app("mkRef", SRef, b, i)
}
func rblk(t *Term) *Term { return acc("rb", SInt, "mkRef", 0, t) }
func ridx(t *Term) *Term { return acc("ri", SInt, "mkRef", 1, t) }

var nilRef = app("mkRef", SRef, zero, zero)
var nilSl = app("mkSl", SSl, zero, zero, zero, zero)

func elemSort(arr string) string { // "(Array Int X)" -> X
	return strings.TrimSuffix(strings.TrimPrefix(arr, "(Array Int "), ")")
}

// disjoint tells whether two Int terms are syntactically known to differ.
func disjoint(a, b *Term) bool {
	d := sub(a, b)
	return d.isInt() && d.Int.Sign() != 0
}

func sel(a, i *Term) *Term {
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if sub(a.Args[1], i) == zero {
				return a.Args[2]
			}
			if disjoint(a.Args[1], i) || blkDisjoint(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
			return ite(eq(a.Args[1], i), a.Args[2], sel(a.Args[0], i))
		}
		break
	}
	switch a.Op {
	case "ite":
		return ite(a.Args[0], sel(a.Args[1], i), sel(a.Args[2], i))
	case "constArr":
		return a.Args[0]
	case "keepArr":
		old, lim, nw := a.Args[0], a.Args[1], a.Args[2]
		if blkKnownLE(i, lim) {
			return sel(old, i)
		}
		return ite(le(i, lim), sel(old, i), sel(nw, i))
	case "spliceArr": // dst with n elements of src (from so) at position at
		dst, at, n, src, so := a.Args[0], a.Args[1], a.Args[2], a.Args[3], a.Args[4]
		return ite(and(le(at, i), lt(i, add(at, n))), sel(src, add(so, sub(i, at))), sel(dst, i))
	case "shiftArr":
		src, o, n := a.Args[0], a.Args[1], a.Args[2]
		return ite(and(le(zero, i), lt(i, n)), sel(src, add(o, i)), app("junk_"+sanitize(elemSort(a.Sort)), elemSort(a.Sort), a, i))
	}
	return app("select", elemSort(a.Sort), a, i)
}

func sto(a, i, v *Term) *Term {
	if a.Op == "store" && sub(a.Args[1], i) == zero {
		return app("store", a.Sort, a.Args[0], i, v)
	}
	return app("store", a.Sort, a, i, v)
}

// ---------------------------------------------------------------- wrap-around

var wraps = map[string][2]*big.Int{}

func init() {
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	for _, w := range []uint{8, 16, 32, 64} {
		wraps[fmt.Sprintf("s%d", w)] = [2]*big.Int{new(big.Int).Neg(p(w - 1)), new(big.Int).Sub(p(w-1), big.NewInt(1))}
		wraps[fmt.Sprintf("u%d", w)] = [2]*big.Int{big.NewInt(0), new(big.Int).Sub(p(w), big.NewInt(1))}
	}
}

// wrapT reduces t into the range of kind k (e.g. "s64").
func wrapT(k string, t *Term) *Term {
	r := wraps[k]
	if t.isInt() {
		m := new(big.Int).Sub(r[1], r[0])
		m.Add(m, big.NewInt(1))
		v := new(big.Int).Sub(t.Int, r[0])
		v.Mod(v, m)
		v.Add(v, r[0])
		return ibig(v)
	}
	return app("wrap_"+k, SInt, t)
}

func inRangeT(k string, t *Term) *Term {
	r := wraps[k]
	return and(le(ibig(r[0]), t), le(t, ibig(r[1])))
}

// ---------------------------------------------------------------- quantifiers / substitution

func forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == tTrue {
		return tTrue
	}
	return mk("forall", SBool, "", []*Term{body}, nil, vars, pats)
}

func exists(vars []*Term, body *Term) *Term {
	return mk("exists", SBool, "", []*Term{body}, nil, vars, nil)
}

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term, rec func(*Term) *Term) *Term {
	switch t.Op {
	case "+":
		return add(args...)
	case "*":
		return mul(args[0], args[1])
	case "and":
		return and(args...)
	case "or":
		return or(args...)
	case "not":
		return not(args[0])
	case "=>":
		return implies(args[0], args[1])
	case "<=":
		return le(args[0], args[1])
	case "=":
		return eq(args[0], args[1])
	case "ite":
		return ite(args[0], args[1], args[2])
	case "select":
		return sel(args[0], args[1])
	case "store":
		return sto(args[0], args[1], args[2])
	case "sb":
		return sbase(args[0])
	case "so":
		return soff(args[0])
	case "sl":
		return slen(args[0])
	case "lb":
		return lblk(args[0])
	case "lo":
		return loff(args[0])
	case "ll":
		return llen(args[0])
	case "lc":
		return lcap(args[0])
	case "rb":
		return rblk(args[0])
	case "ri":
		return ridx(args[0])
	case "mkStr":
		return mkStr(args[0], args[1], args[2])
	case "mkSl":
		return mkSl(args[0], args[1], args[2], args[3])
	case "mkRef":
		return mkRef(args[0], args[1])
	case "forall", "exists":
		pats := make([][]*Term, len(t.Pats))
		for i, p := range t.Pats {
			for _, x := range p {
				pats[i] = append(pats[i], rec(x))
			}
		}
		return mk(t.Op, SBool, "", args, nil, t.Vars, pats)
	}
	if strings.HasPrefix(t.Op, "wrap_") {
		return wrapT(t.Op[5:], args[0])
	}
	return mk(t.Op, t.Sort, t.Name, args, t.Int, t.Vars, t.Pats)
}

func (t *Term) String() string { return t.smt(nil) }

// smt prints t; named maps terms to names of already emitted definitions.
func (t *Term) smt(named map[*Term]string) string {
	var b strings.Builder
	t.write(&b, named, true)
	return b.String()
}

func (t *Term) write(b *strings.Builder, named map[*Term]string, top bool) {
	if named != nil {
		if n, ok := named[t]; ok {
			b.WriteString(n)
			return
		}
	}
	switch t.Op {
	case "#int":
		if t.Int.Sign() < 0 {
			b.WriteString("(- ")
			b.WriteString(new(big.Int).Neg(t.Int).String())
			b.WriteString(")")
		} else {
			b.WriteString(t.Int.String())
		}
		return
	case "#const", "#bound":
		b.WriteString(t.Name)
		return
	case "true", "false":
		b.WriteString(t.Op)
		return
	case "forall", "exists":
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			b.WriteString("(" + v.Name + " " + v.Sort + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		t.Args[0].write(b, named, false)
		for _, p := range t.Pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteString(" ")
				}
				x.write(b, named, false)
			}
			b.WriteString(")")
		}
		if len(t.Pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	}
	if len(t.Args) == 0 {
		b.WriteString(t.Op)
		return
	}
	b.WriteString("(")
	b.WriteString(smtName(t))
	for _, a := range t.Args {
		b.WriteString(" ")
		a.write(b, named, false)
	}
	b.WriteString(")")
}

// walk visits every distinct subterm once.
func walk(ts []*Term, seen map[*Term]bool, f func(*Term)) {
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			rec(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				rec(x)
			}
		}
		f(t)
	}
	for _, t := range ts {
		rec(t)
	}
}
