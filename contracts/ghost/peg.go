//go:build verif

// Ghost clients: they exist only for the verifier (type-checked together with the package, never
// compiled into it) and let a contract speak about what a constructor's reader does without naming
// any private type or field.
package tok

func lemma_At(r Reader, s *Scanner) error              { return At(r).Read(s) }
func lemma_Not(r Reader, s *Scanner) error             { return Not(r).Read(s) }
func lemma_Opt(r Reader, s *Scanner) error             { return Opt(r).Read(s) }
func lemma_Zom(r Reader, s *Scanner) error             { return Zom(r).Read(s) }
func lemma_Many(r Reader, s *Scanner) error            { return Many(r).Read(s) }
func lemma_Times(n int, r Reader, s *Scanner) error    { return Times(n, r).Read(s) }
func lemma_To(r Reader, s *Scanner) error              { return To(r).Read(s) }
func lemma_Past(r Reader, s *Scanner) error            { return Past(r).Read(s) }
func lemma_Body(b, t Reader, s *Scanner) error         { return Body(b, t).Read(s) }
func lemma_BodyTail(b, t Reader, s *Scanner) error     { return BodyTail(b, t).Read(s) }
func lemma_Named(n string, r Reader, s *Scanner) error { return Named(n, r).Read(s) }
func lemma_Map(r Reader, f MapFunc, s *Scanner) error  { return Map(r, f).Read(s) }
func lemma_Pick(r Reader, b *Basket, i string, s *Scanner) error {
	return Pick(r, b, i).Read(s)
}
func lemma_Monitor(r Reader, l *Log, i string, s *Scanner) error {
	return Monitor(r, l, i).Read(s)
}
func lemma_Rule(n string, r Reader, s *Scanner) error {
	return (&Rule{Name: n, Reader: r}).Read(s)
}
func lemma_RuleMap(n string, r Reader, f MapFunc, s *Scanner) error {
	x := &Rule{Name: n, Reader: r}
	x.Map(f)
	return x.Read(s)
}
func lemma_RulePick(n string, r Reader, b *Basket, s *Scanner) error {
	x := &Rule{Name: n, Reader: r}
	x.Pick(b)
	return x.Read(s)
}
func lemma_RuleMonitor(n string, r Reader, l *Log, s *Scanner) error {
	x := &Rule{Name: n, Reader: r}
	x.Monitor(l)
	return x.Read(s)
}
func lemma_Seq0(s *Scanner) error                     { return Seq().Read(s) }
func lemma_Seq1(a Reader, s *Scanner) error           { return Seq(a).Read(s) }
func lemma_Seq2(a, b Reader, s *Scanner) error        { return Seq(a, b).Read(s) }
func lemma_Seq3(a, b, c Reader, s *Scanner) error     { return Seq(a, b, c).Read(s) }
func lemma_Any0(s *Scanner) error                     { return Any().Read(s) }
func lemma_Any1(a Reader, s *Scanner) error           { return Any(a).Read(s) }
func lemma_Any2(a, b Reader, s *Scanner) error        { return Any(a, b).Read(s) }
func lemma_Any3(a, b, c Reader, s *Scanner) error     { return Any(a, b, c).Read(s) }
func lemma_SkipSeq0(k Reader, s *Scanner) error       { return SkipSeq(k).Read(s) }
func lemma_SkipSeq2(k, a, b Reader, s *Scanner) error { return SkipSeq(k, a, b).Read(s) }
