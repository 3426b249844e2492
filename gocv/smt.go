package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

const prelude = `(declare-sort Bytes 0)
(declare-sort Iface 0)
(declare-sort Fun 0)
(declare-datatypes ((Str 0)) (((mkStr (sb Bytes) (so Int) (sl Int)))))
(declare-datatypes ((Sl 0)) (((mkSl (lb Int) (lo Int) (ll Int) (lc Int)))))
(declare-datatypes ((Ref 0)) (((mkRef (rb Int) (ri Int)))))
(declare-sort Cls 0)
(define-fun tdiv ((x Int) (y Int)) Int (ite (>= x 0) (div x y) (- (div (- x) y))))
(define-fun tmod ((x Int) (y Int)) Int (- x (* y (tdiv x y))))
`

func wrapDefs() string {
	var b strings.Builder
	var ks []string
	for k := range wraps {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		r := wraps[k]
		lo, hi := ibig(r[0]).String(), ibig(r[1]).String()
		m := fmt.Sprintf("(+ 1 (- %s %s))", hi, lo)
		fmt.Fprintf(&b, "(define-fun wrap_%s ((x Int)) Int (ite (and (<= %s x) (<= x %s)) x (+ (mod (- x %s) %s) %s)))\n", k, lo, hi, lo, m, lo)
	}
	return b.String()
}

var builtinOps = map[string]bool{"+": true, "*": true, "and": true, "or": true, "not": true, "=>": true, "<=": true, "=": true,
	"ite": true, "select": true, "store": true, "true": true, "false": true, "forall": true, "exists": true,
	"mkStr": true, "sb": true, "so": true, "sl": true, "mkSl": true, "lb": true, "lo": true, "ll": true, "lc": true,
	"mkRef": true, "rb": true, "ri": true, "tdiv": true, "tmod": true, "div": true, "mod": true, "#int": true, "#const": true, "#bound": true, "distinct": true}

// script renders assertions as an SMT-LIB script (without check-sat).
func script(as []*Term) string {
	var decl, defs strings.Builder
	uses := map[*Term]int{}
	var order []*Term
	seen := map[*Term]bool{}
	walk(as, seen, func(t *Term) {
		order = append(order, t)
		for _, a := range t.Args {
			uses[a]++
		}
	})
	declared := map[string]bool{}
	named := map[*Term]string{}
	lits := []string{}
	for _, t := range order {
		switch {
		case t.Op == "#const":
			if !declared[t.Name] {
				declared[t.Name] = true
				fmt.Fprintf(&decl, "(declare-fun %s () %s)\n", t.Name, t.Sort)
				if _, ok := litVals[t.Name]; ok {
					lits = append(lits, t.Name)
				}
			}
		case builtinOps[t.Op] || strings.HasPrefix(t.Op, "wrap_"):
		default:
			if nm := smtName(t); !declared[nm] {
				declared[nm] = true
				var ss []string
				for _, a := range t.Args {
					ss = append(ss, a.Sort)
				}
				fmt.Fprintf(&decl, "(declare-fun %s (%s) %s)\n", nm, strings.Join(ss, " "), t.Sort)
			}
		}
		if !t.bound && len(t.Args) > 0 && uses[t] > 1 && t.Op != "forall" && t.Op != "exists" {
			n := fmt.Sprintf("d!%d", t.id)
			fmt.Fprintf(&defs, "(define-fun %s () %s %s)\n", n, t.Sort, t.smt(named))
			named[t] = n
		}
	}
	var b strings.Builder
	b.WriteString(prelude)
	b.WriteString(wrapDefs())
	b.WriteString(decl.String())
	if len(lits) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	b.WriteString(defs.String())
	for _, a := range as {
		fmt.Fprintf(&b, "(assert %s)\n", a.smt(named))
	}
	return b.String()
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return []string{"unsat", "sat", "unknown"}[r] }

type answer struct {
	res     Result
	backend string
	dur     time.Duration
	model   string
}

type Solver struct {
	mu    sync.Mutex
	cache map[[32]byte]answer
	pool  chan *proc
	// statistics
	Queries  int
	Time     time.Duration
	ByEngine map[string]int
}

type proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startZ3() *proc {
	c := exec.Command(z3Path, "-in", "-smt2", "-memory:3000")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	c.Stderr = nil
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start z3:", err)
		os.Exit(2)
	}
	return &proc{c, in, bufio.NewReader(out)}
}

var z3Path = "z3-new"

func NewSolver(n int) *Solver {
	s := &Solver{cache: map[[32]byte]answer{}, pool: make(chan *proc, n), ByEngine: map[string]int{}}
	for i := 0; i < n; i++ {
		s.pool <- nil
	}
	return s
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func (s *Solver) runZ3(text string, ms int, wantModel bool) (Result, string, time.Duration) {
	p := <-s.pool
	t0 := time.Now()
	if p == nil {
		p = startZ3()
	}
	opts := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n(set-option :smt.random_seed 7)\n", ms)
	if wantModel {
		opts += "(set-option :produce-models true)\n"
	}
	io.WriteString(p.in, opts+text+"(check-sat)\n")
	type rd struct {
		s   string
		err error
	}
	ch := make(chan rd, 1)
	go func() {
		for {
			l, err := p.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" || err != nil {
				ch <- rd{l, err}
				return
			}
			if strings.HasPrefix(l, "(error") {
				if !strings.Contains(l, "model is not available") {
					fmt.Fprintln(os.Stderr, "z3:", l)
					if os.Getenv("GOCV_DUMPERR") != "" {
						os.WriteFile("/tmp/gocv_err.smt2", []byte(text), 0644)
					}
					ch <- rd{"unknown", fmt.Errorf("%s", l)}
					return
				}
			}
		}
	}()
	var r rd
	select {
	case r = <-ch:
	case <-time.After(time.Duration(ms)*time.Millisecond*2 + 3*time.Second):
		r = rd{"unknown", fmt.Errorf("hard timeout")}
	}
	if r.err != nil {
		p.kill()
		s.pool <- nil
		return Unknown, "", time.Since(t0)
	}
	model := ""
	if r.s == "sat" && wantModel {
		io.WriteString(p.in, "(get-model)\n(echo \"END-MODEL\")\n")
		var b strings.Builder
		for {
			l, err := p.out.ReadString('\n')
			if err != nil || strings.Contains(l, "END-MODEL") {
				break
			}
			b.WriteString(l)
		}
		model = b.String()
	}
	s.pool <- p
	switch r.s {
	case "sat":
		return Sat, model, time.Since(t0)
	case "unsat":
		return Unsat, "", time.Since(t0)
	}
	return Unknown, "", time.Since(t0)
}

func runCVC5(text string, ms int) Result {
	c := exec.Command("cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--full-saturate-quant", "-")
	c.Stdin = strings.NewReader("(set-logic ALL)\n" + text + "(check-sat)\n")
	out, _ := c.Output()
	switch strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0]) {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}

// Check decides satisfiability of the script.
func (s *Solver) Check(text string, ms int, fallback bool) answer {
	key := sha256.Sum256([]byte(text))
	s.mu.Lock()
	if a, ok := s.cache[key]; ok {
		s.mu.Unlock()
		return a
	}
	s.mu.Unlock()
	r, _, dur := s.runZ3(text, ms, false)
	be := "z3"
	if r == Unknown && fallback {
		t0 := time.Now()
		r = runCVC5(text, ms*2)
		dur += time.Since(t0)
		be = "cvc5"
	}
	a := answer{res: r, backend: be, dur: dur}
	s.mu.Lock()
	s.cache[key] = a
	s.Queries++
	s.Time += a.dur
	s.ByEngine[be]++
	s.mu.Unlock()
	return a
}

func (s *Solver) Model(text string, ms int) string {
	_, m, _ := s.runZ3(text, ms, true)
	return m
}

func (s *Solver) Close() {
	for i := 0; i < cap(s.pool); i++ {
		p := <-s.pool
		if p != nil {
			p.kill()
		}
	}
}

// smtName is the SMT symbol of an application; array constructors are named by sort
// (reads through them are expanded at generation time, so they stay uninterpreted).
func smtName(t *Term) string {
	switch t.Op {
	case "constArr", "shiftArr", "keepArr", "spliceArr":
		return t.Op + "_" + sanitize(t.Sort)
	}
	return t.Op
}

// Eliminate returns which of the goals g (names of Bool constants defined in text) are implied together
// by text: every model of a violation removes all goals it falsifies. ok is false if the solver gave up.
func (s *Solver) Eliminate(text string, names []string, ms int) (keep []bool, ok bool) {
	keep = make([]bool, len(names))
	for i := range keep {
		keep[i] = true
	}
	p := <-s.pool
	if p == nil {
		p = startZ3()
	}
	t0 := time.Now()
	n := 0
	defer func() {
		s.mu.Lock()
		s.Queries += n
		s.Time += time.Since(t0)
		s.ByEngine["z3"] += n
		s.mu.Unlock()
	}()
	fail := func() ([]bool, bool) {
		p.kill()
		s.pool <- nil
		return keep, false
	}
	io.WriteString(p.in, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n(set-option :smt.random_seed 7)\n(set-option :produce-models true)\n", ms)+text)
	readTo := func(mark string) (string, bool) {
		ch := make(chan string, 1)
		go func() {
			var b strings.Builder
			for {
				l, err := p.out.ReadString('\n')
				if err != nil {
					ch <- "(error eof"
					return
				}
				if strings.Contains(l, mark) {
					ch <- b.String()
					return
				}
				b.WriteString(l)
			}
		}()
		select {
		case r := <-ch:
			return r, !strings.Contains(r, "(error")
		case <-time.After(time.Duration(ms)*time.Millisecond*2 + 5*time.Second):
			return "", false
		}
	}
	for {
		var cur []string
		for i, k := range keep {
			if k {
				cur = append(cur, names[i])
			}
		}
		if len(cur) == 0 {
			break
		}
		n++
		io.WriteString(p.in, "(push)\n(assert (not (and true "+strings.Join(cur, " ")+")))\n(check-sat)\n(echo \"MARK1\")\n")
		r, good := readTo("MARK1")
		if !good {
			return fail()
		}
		r = strings.TrimSpace(r)
		if r == "unsat" {
			io.WriteString(p.in, "(pop)\n")
			break
		}
		if r != "sat" {
			return fail()
		}
		io.WriteString(p.in, "(get-value ("+strings.Join(cur, " ")+"))\n(echo \"MARK2\")\n(pop)\n")
		r, good = readTo("MARK2")
		if !good {
			return fail()
		}
		vals := map[string]bool{}
		for _, f := range strings.Split(strings.NewReplacer("(", " ", ")", "\n").Replace(r), "\n") {
			w := strings.Fields(f)
			if len(w) == 2 {
				vals[w[0]] = w[1] == "true"
			}
		}
		dropped := false
		for i, k := range keep {
			if v, have := vals[names[i]]; k && have && !v {
				keep[i] = false
				dropped = true
			}
		}
		if !dropped {
			return fail()
		}
	}
	s.pool <- p
	return keep, true
}
