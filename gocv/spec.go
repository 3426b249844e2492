package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Clause is one line of a contract.
type Clause struct {
	Kind string
	Name string
	Tags []string
	Src  string
	E    ast.Expr
}

// Contract is the specification of one function (or interface method).
type Contract struct {
	Name       string // ssa short name, or Iface.Method
	Iface      bool
	Params     []string // receiver first
	Results    []string
	Requires   []*Clause
	Ensures    []*Clause
	Assumes    []*Clause // definitional: assumed at calls, not an obligation
	Modifies   []string
	Invs       []*Clause
	Reads      []*Clause // what an inner reader may do: the position behind what it reads, or -1
	Decr       []*Clause
	Hints      []*Clause
	Cases      []*Clause // case split: verified separately, the disjunction is an obligation
	Lets       []*Clause
	panics     []*Clause
	Trusted    bool
	TrustedFor []string // in these properties without verification and without effects (another property shows them)
	Inline     bool     // callers use the body
	Rule       string   // the contract is that of Read of this rule (package.Type.Field)
	Rank       int64    // a rule uses rules of a lower rank, or others only behind what it has read
	Unfolds    []string // of the reference grammar, only these functions are unfolded
	InlineFor  []string // callers use the body in the checks of these properties
	Auto       bool
	merged     bool
	TextParam  bool
	ForAll     []string // arbitrary constants whose facts are also used at the other indices of a query
	Dispatch   []string // types an unknown reader is shown to have, to follow the call
	KeepFresh  bool     // what the function allocates is out of reach of the readers and functions it is given
	Sorts      string   // the slice parameter the function sorts
	SortHyp    []*Clause
	SortLess   *Clause
	File       string
}

type Contracts struct {
	Fns    map[string]*Contract
	Groups map[string][]string // tag -> properties it is visible for
	Roots  map[string][]string // property -> functions
	Rec    map[string]bool
	Rules  map[string]*Contract
	Order  []string
}

var headRe = regexp.MustCompile(`^(?:\((\w+) (\*?)([\w.]+)\) )?([\w.]+)\(([^)]*)\)(?: \(([^)]*)\))?$`)

func splitTop(s, sep string) []string {
	var out []string
	d := 0
	last := 0
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			if c == '\\' {
				i++
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		switch c {
		case '"', '\'', '`':
			inStr = c
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		default:
			if d == 0 && strings.HasPrefix(s[i:], sep) {
				out = append(out, s[last:i])
				last = i + len(sep)
				i += len(sep) - 1
			}
		}
	}
	return append(out, s[last:])
}

// convImp rewrites ==> and <==> into calls.
func convImp(s string) string {
	// commas separate arguments
	if ps := splitTop(s, ","); len(ps) > 1 {
		for i := range ps {
			ps[i] = convImp(ps[i])
		}
		return strings.Join(ps, ",")
	}
	if ps := splitTop(s, "<==>"); len(ps) == 2 {
		return "iff(" + convImp(ps[0]) + "," + convImp(ps[1]) + ")"
	}
	if ps := splitTop(s, "==>"); len(ps) > 1 {
		return "imp(" + convImp(ps[0]) + "," + convImp(strings.Join(ps[1:], "==>")) + ")"
	}
	// descend into parentheses
	var b strings.Builder
	inStr := byte(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr != 0 {
			b.WriteByte(c)
			if c == '\\' && i+1 < len(s) {
				i++
				b.WriteByte(s[i])
			} else if c == inStr {
				inStr = 0
			}
			continue
		}
		if c == '"' || c == '\'' || c == '`' {
			inStr = c
			b.WriteByte(c)
			continue
		}
		if c == '(' {
			d := 0
			j := i
			q := byte(0)
			for ; j < len(s); j++ {
				if q != 0 {
					if s[j] == '\\' {
						j++
					} else if s[j] == q {
						q = 0
					}
					continue
				}
				if s[j] == '"' || s[j] == '\'' || s[j] == '`' {
					q = s[j]
				} else if s[j] == '(' {
					d++
				} else if s[j] == ')' {
					d--
					if d == 0 {
						break
					}
				}
			}
			b.WriteByte('(')
			b.WriteString(convImp(s[i+1 : j]))
			b.WriteByte(')')
			i = j
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

func parseExpr(src string) (ast.Expr, error) {
	t := strings.ReplaceAll(convImp(src), "$", "V_")
	return parser.ParseExpr(t)
}

var clauseRe = regexp.MustCompile(`^(?:\[([^\]]*)\]\s*)?(?:([A-Za-z][\w-]*):\s+)?(.*)$`)

func parseClause(kind, rest string) (*Clause, error) {
	m := clauseRe.FindStringSubmatch(rest)
	c := &Clause{Kind: kind, Name: m[2], Src: m[3]}
	if m[1] != "" {
		c.Tags = strings.Fields(strings.ReplaceAll(m[1], ",", " "))
	}
	var err error
	c.E, err = parseExpr(m[3])
	if err != nil {
		return nil, fmt.Errorf("%s: %v", rest, err)
	}
	return c, nil
}

// LoadContracts reads the //@ lines of every file of dir.
func LoadContracts(dir string) (*Contracts, error) {
	cs := &Contracts{Rules: map[string]*Contract{}, Fns: map[string]*Contract{}, Groups: map[string][]string{}, Roots: map[string][]string{}}
	macros := map[string]*Contract{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var cur *Contract
		var lines []string
		for _, l := range strings.Split(string(b), "\n") {
			t := strings.TrimSpace(l)
			if !strings.HasPrefix(t, "//@") {
				continue
			}
			t = strings.TrimPrefix(t, "//@")
			if k := strings.Index(t, " // "); k >= 0 {
				t = t[:k]
			}
			// continuation: deeper indentation marked with a leading "|"
			tt := strings.TrimSpace(t)
			if strings.HasPrefix(tt, "|") && len(lines) > 0 {
				lines[len(lines)-1] += " " + strings.TrimSpace(tt[1:])
				continue
			}
			lines = append(lines, tt)
		}
		for _, l := range lines {
			if l == "" {
				continue
			}
			kw, rest := l, ""
			if k := strings.IndexByte(l, ' '); k >= 0 {
				kw, rest = l[:k], strings.TrimSpace(l[k+1:])
			}
			fail := func(e error) error { return fmt.Errorf("%s: %s: %v", filepath.Base(f), l, e) }
			switch kw {
			case "group":
				p := strings.SplitN(rest, "=", 2)
				cs.Groups[strings.TrimSpace(p[0])] = strings.Fields(p[1])
			case "roots":
				p := strings.SplitN(rest, ":", 2)
				n := strings.TrimSpace(p[0])
				for _, r := range splitTop(p[1], " ") {
					if r = strings.TrimSpace(r); r != "" {
						cs.Roots[n] = append(cs.Roots[n], r)
					}
				}
			case "macro":
				cur = &Contract{Name: rest}
				macros[rest] = cur
			case "use":
				for _, n := range strings.Fields(rest) {
					m := macros[n]
					if m == nil {
						return nil, fail(fmt.Errorf("unknown macro"))
					}
					cur.Requires = append(cur.Requires, m.Requires...)
					cur.Ensures = append(cur.Ensures, m.Ensures...)
					cur.Assumes = append(cur.Assumes, m.Assumes...)
					cur.Modifies = append(cur.Modifies, m.Modifies...)
					cur.Invs = append(cur.Invs, m.Invs...)
					cur.Lets = append(cur.Lets, m.Lets...)
					cur.SortHyp = append(cur.SortHyp, m.SortHyp...)
					cur.Dispatch = append(cur.Dispatch, m.Dispatch...)
					cur.KeepFresh = cur.KeepFresh || m.KeepFresh
					cur.ForAll = append(cur.ForAll, m.ForAll...)
					if m.Sorts != "" {
						cur.Sorts = m.Sorts
					}
				}
			case "func", "iface":
				m := headRe.FindStringSubmatch(rest)
				if m == nil {
					return nil, fail(fmt.Errorf("bad header"))
				}
				c := &Contract{File: filepath.Base(f), Iface: kw == "iface"}
				if m[3] != "" {
					pre := ""
					typ := m[3]
					if k := strings.LastIndexByte(typ, '.'); k >= 0 && kw == "func" {
						pre, typ = typ[:k+1], typ[k+1:]
					}
					if kw == "iface" {
						c.Name = m[3] + "." + m[4]
					} else {
						c.Name = "(" + m[2] + pre + typ + ")." + m[4]
					}
					c.Params = append(c.Params, m[1])
				} else {
					c.Name = m[4]
				}
				names := func(s string) []string {
					var out []string
					for _, p := range strings.Split(s, ",") {
						if p = strings.TrimSpace(p); p != "" {
							out = append(out, strings.Fields(p)[0])
						}
					}
					return out
				}
				c.Params = append(c.Params, names(m[5])...)
				c.Results = names(m[6])
				if d, dup := cs.Fns[c.Name]; dup { // further clauses of the same contract
					if strings.Join(d.Params, ",") != strings.Join(c.Params, ",") || strings.Join(d.Results, ",") != strings.Join(c.Results, ",") {
						return nil, fail(fmt.Errorf("contract repeated with other names"))
					}
					cur = d
					continue
				}
				cs.Fns[c.Name] = c
				cs.Order = append(cs.Order, c.Name)
				cur = c
			case "trusted":
				cur.Trusted = rest == ""
				cur.TrustedFor = append(cur.TrustedFor, strings.Fields(rest)...)
			case "inline":
				if rest == "" {
					cur.Inline = true
				}
				cur.InlineFor = append(cur.InlineFor, strings.Fields(rest)...)
			case "rule":
				fs := strings.Fields(rest)
				if len(fs) != 2 {
					return nil, fail(fmt.Errorf("rule NAME RANK"))
				}
				cur.Rule = fs[0]
				if _, err := fmt.Sscan(fs[1], &cur.Rank); err != nil {
					return nil, fail(err)
				}
				cs.Rules[fs[0]] = cur
			case "unfolds":
				cur.Unfolds = append(cur.Unfolds, strings.Fields(rest)...)
			case "text":
				cur.TextParam = true
			case "modifies":
				for _, p := range splitTop(rest, ",") {
					cur.Modifies = append(cur.Modifies, strings.TrimSpace(p))
				}
			case "let":
				p := strings.SplitN(rest, "=", 2)
				e, err := parseExpr(strings.TrimSpace(p[1]))
				if err != nil {
					return nil, fail(err)
				}
				cur.Lets = append(cur.Lets, &Clause{Kind: "let", Name: strings.TrimSpace(p[0]), E: e})
			case "cases":
				for _, p := range splitTop(rest, ";") {
					c, err := parseClause(kw, strings.TrimSpace(p))
					if err != nil {
						return nil, fail(err)
					}
					cur.Cases = append(cur.Cases, c)
				}
			case "dispatch":
				cur.Dispatch = append(cur.Dispatch, strings.Fields(rest)...)
			case "keepfresh":
				cur.KeepFresh = true
			case "forall":
				cur.ForAll = append(cur.ForAll, strings.Fields(rest)...)
			case "sorts":
				cur.Sorts = rest
			case "requires", "ensures", "assumes", "inv", "reads", "decreases", "hint", "panics", "sorthyp", "sortless":
				c, err := parseClause(kw, rest)
				if err != nil {
					return nil, fail(err)
				}
				switch kw {
				case "requires":
					cur.Requires = append(cur.Requires, c)
				case "ensures":
					if c.Name == "" {
						c.Name = fmt.Sprintf("ensures%d", len(cur.Ensures)+1)
					}
					cur.Ensures = append(cur.Ensures, c)
				case "reads":
					cur.Reads = append(cur.Reads, c)
				case "assumes":
					cur.Assumes = append(cur.Assumes, c)
				case "inv":
					cur.Invs = append(cur.Invs, c)
				case "decreases":
					cur.Decr = append(cur.Decr, c)
				case "sorthyp":
					cur.SortHyp = append(cur.SortHyp, c)
				case "sortless":
					cur.SortLess = c
				case "hint":
					cur.Hints = append(cur.Hints, c)
				case "panics":
					cur.panics = append(cur.panics, c)
				}
			default:
				return nil, fail(fmt.Errorf("unknown keyword %q", kw))
			}
		}
	}
	return cs, nil
}

// visible: a clause without tags is always visible; otherwise one of its tags must be.
func (x *Exec) visible(tags []string) bool {
	if len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if x.vis[t] {
			return true
		}
	}
	return false
}

// ------------------------------------------------------------------ evaluation

type TV struct {
	V Val
	T types.Type
}

type specCtx struct {
	x    *Exec
	cur  *State
	old  *State
	env  map[string]TV
	vars map[string]*Term
	varT map[string]types.Type
	lets []*Clause
	letD int
	ent  *specCtx // the same at loop entry
}

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(unsupported{"contract: " + fmt.Sprintf(f, a...)}) }

var tInt = types.Typ[types.Int]

func iTV(t *Term) TV { return TV{t, tInt} }
func bTV(t *Term) TV { return TV{t, types.Typ[types.Bool]} }

func (c *specCtx) t(e ast.Expr) *Term { return c.tv(e).term() }

func (v TV) term() *Term {
	switch y := v.V.(type) {
	case *Term:
		return y
	case *PtrV:
		return refOf(y)
	}
	serr("scalar expected, got %T", v.V)
	return nil
}

func (c *specCtx) tv(e ast.Expr) TV {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.tv(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			b, _ := new(big.Int).SetString(strings.ReplaceAll(e.Value, "_", ""), 0)
			return iTV(ibig(b))
		case token.CHAR:
			r, _, _, err := strconv.UnquoteChar(e.Value[1:len(e.Value)-1], '\'')
			if err != nil {
				serr("char %s", e.Value)
			}
			return iTV(inum(int64(r)))
		case token.STRING:
			s, _ := strconv.Unquote(e.Value)
			return TV{litStr(s), types.Typ[types.String]}
		}
	case *ast.Ident:
		switch e.Name {
		case "true":
			return bTV(tTrue)
		case "false":
			return bTV(tFalse)
		case "nil":
			return TV{nil, nil}
		}
		if strings.HasPrefix(e.Name, "V_") {
			if t, ok := c.vars[e.Name]; ok {
				ty := types.Type(tInt)
				if t.Sort == SStr {
					ty = types.Typ[types.String]
				}
				if vt, ok := c.varT[e.Name]; ok {
					ty = vt
				}
				return TV{t, ty}
			}
			serr("unbound template variable %s", e.Name)
		}
		if v, ok := c.env[e.Name]; ok {
			return v
		}
		for _, l := range c.lets {
			if l.Name == e.Name {
				c.letD++
				if c.letD > 20 {
					serr("let recursion %s", e.Name)
				}
				v := c.tv(l.E)
				c.letD--
				return v
			}
		}
		if g, ok := c.cur.ghost[e.Name]; ok {
			return TV{g, tInt}
		}
		serr("unknown name %s", e.Name)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return bTV(not(c.t(e.X)))
		case token.SUB:
			return iTV(neg(c.t(e.X)))
		}
	case *ast.StarExpr:
		v := c.tv(e.X)
		p := v.V.(*PtrV)
		return TV{c.cur.load(p), p.elem}
	case *ast.BinaryExpr:
		switch e.Op {
		case token.LAND:
			return bTV(and(c.t(e.X), c.t(e.Y)))
		case token.LOR:
			return bTV(or(c.t(e.X), c.t(e.Y)))
		case token.EQL:
			return bTV(c.eq(c.tv(e.X), c.tv(e.Y)))
		case token.NEQ:
			return bTV(not(c.eq(c.tv(e.X), c.tv(e.Y))))
		}
		a, b := c.t(e.X), c.t(e.Y)
		switch e.Op {
		case token.LSS:
			return bTV(lt(a, b))
		case token.LEQ:
			return bTV(le(a, b))
		case token.GTR:
			return bTV(lt(b, a))
		case token.GEQ:
			return bTV(le(b, a))
		case token.ADD:
			if a.Sort == SStr {
				return TV{concat(a, b), types.Typ[types.String]}
			}
			return iTV(add(a, b))
		case token.SUB:
			return iTV(sub(a, b))
		case token.MUL:
			return iTV(mul(a, b))
		case token.QUO:
			return iTV(tdiv(a, b))
		case token.REM:
			return iTV(tmod(a, b))
		}
	case *ast.SelectorExpr:
		return c.field(c.tv(e.X), e.Sel.Name)
	case *ast.IndexExpr:
		v := c.tv(e.X)
		i := c.t(e.Index)
		if v.term().Sort == SStr {
			return iTV(byteAt(v.term(), i))
		}
		sl := v.term()
		et := under(v.T).(*types.Slice).Elem()
		return TV{c.cur.load(&PtrV{et, cellKey(et), mkRef(lblk(sl), add(loff(sl), i))}), et}
	case *ast.SliceExpr:
		v := c.t(e.X)
		lo, hi := zero, slen(v)
		if e.Low != nil {
			lo = c.t(e.Low)
		}
		if e.High != nil {
			hi = c.t(e.High)
		}
		return TV{mkStr(sbase(v), add(soff(v), lo), sub(hi, lo)), types.Typ[types.String]}
	case *ast.CallExpr:
		id, ok := e.Fun.(*ast.Ident)
		if !ok {
			serr("call %v", e.Fun)
		}
		f, ok := specFns[id.Name]
		if !ok {
			f, ok = jsonFns[id.Name]
		}
		if ok {
			return f(c, e.Args)
		}
		serr("unknown spec function %s", id.Name)
	}
	serr("expression %T", e)
	return TV{}
}

func (c *specCtx) field(v TV, name string) TV {
	if s, ok := v.V.(*StructV); ok {
		for i := 0; i < s.T.NumFields(); i++ {
			if s.T.Field(i).Name() == name {
				return TV{s.F[i], s.T.Field(i).Type()}
			}
		}
		for i := 0; i < s.T.NumFields(); i++ {
			if s.T.Field(i).Embedded() {
				if sv, ok := s.F[i].(*StructV); ok {
					for j := 0; j < sv.T.NumFields(); j++ {
						if sv.T.Field(j).Name() == name {
							return TV{sv.F[j], sv.T.Field(j).Type()}
						}
					}
				}
			}
		}
		serr("no field %s", name)
	}
	p, ok := v.V.(*PtrV)
	if !ok {
		serr("field %s of %T", name, v.V)
	}
	q := fieldPtr(p, name)
	if q == nil {
		serr("no field %s in %s", name, p.elem)
	}
	return TV{c.cur.load(q), q.elem}
}

func fieldPtr(p *PtrV, name string) *PtrV {
	s, ok := under(p.elem).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return &PtrV{s.Field(i).Type(), p.key + "." + name, p.ref}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if q := fieldPtr(&PtrV{s.Field(i).Type(), p.key + "." + s.Field(i).Name(), p.ref}, name); q != nil {
				return q
			}
		}
	}
	return nil
}

// lval evaluates an lvalue expression to a pointer.
func (c *specCtx) lval(e ast.Expr) *PtrV {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return c.lval(e.X)
	case *ast.SelectorExpr:
		var p *PtrV
		if id, ok := e.X.(*ast.Ident); ok {
			v := c.tv(id)
			pp, ok := v.V.(*PtrV)
			if !ok {
				serr("lvalue %s", e.Sel.Name)
			}
			p = pp
		} else {
			b := c.lval(e.X)
			if _, isPtr := under(b.elem).(*types.Pointer); isPtr {
				p = c.cur.load(b).(*PtrV)
			} else {
				p = b
			}
		}
		q := fieldPtr(p, e.Sel.Name)
		if q == nil {
			serr("no field %s", e.Sel.Name)
		}
		return q
	case *ast.StarExpr:
		return c.tv(e.X).V.(*PtrV)
	}
	serr("lvalue %T", e)
	return nil
}

func (c *specCtx) eq(a, b TV) *Term {
	if a.T == nil && a.V == nil {
		a, b = b, a
	}
	if b.T == nil && b.V == nil {
		if sv, ok := a.V.(*Term); ok {
			switch sv.Sort {
			case SIface:
				return eq(sv, nilIface)
			case SFunc:
				return eq(sv, nilFun)
			case SSl:
				return eq(lblk(sv), zero)
			case SRef:
				return eq(sv, nilRef)
			}
		}
		if p, ok := a.V.(*PtrV); ok {
			return eq(refOf(p), nilRef)
		}
		serr("nil comparison")
	}
	if at, ok := a.V.(*Term); ok {
		if bt, ok := b.V.(*Term); ok {
			if at.Sort == SStr {
				return strEq(at, bt)
			}
			return eq(at, bt)
		}
	}
	return c.x.goEq(c.cur, a.T, b.T, a.V, b.V)
}

// evalClause evaluates a clause of the root contract in state st with results res.
func (x *Exec) evalClause(st *State, cl *Clause, res []Val) *Term {
	c := x.rootCtx(st, res)
	return c.t(cl.E)
}

func (x *Exec) rootCtx(st *State, res []Val) *specCtx {
	c := x.mkCtx(x.root, x.rootFn, x.rootArgs, st, x.entry, res)
	for k, v := range x.extraEnv {
		c.env[k] = v
	}
	return c
}

func (x *Exec) mkCtx(k *Contract, fn *ssa.Function, args []Val, cur, old *State, res []Val) *specCtx {
	return x.mkCtxSig(k, fn.Signature, recvType(fn), args, cur, old, res)
}

func (x *Exec) bindResults(c *specCtx, k *Contract, sig *types.Signature, res []Val) {
	if res == nil {
		return
	}
	if len(k.Results) != sig.Results().Len() {
		serr("%s: %d results named, function has %d", k.Name, len(k.Results), sig.Results().Len())
	}
	for i, n := range k.Results {
		c.env[n] = TV{res[i], sig.Results().At(i).Type()}
	}
}
