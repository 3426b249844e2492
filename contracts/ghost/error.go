//go:build verif

package tok

// A reader's error together with its description.
func readWhat(r Reader, s *Scanner) (error, string) {
	err := r.Read(s)
	return err, r.What()
}

func lemma_eLit(str string, s *Scanner) (error, string)     { return readWhat(Lit(str), s) }
func lemma_eFold(str string, s *Scanner) (error, string)    { return readWhat(Fold(str), s) }
func lemma_eRune(r rune, s *Scanner) (error, string)        { return readWhat(Rune(r), s) }
func lemma_eAnyRune(str string, s *Scanner) (error, string) { return readWhat(AnyRune(str), s) }
func lemma_eBetween(a, b rune, s *Scanner) (error, string)  { return readWhat(Between(a, b), s) }
func lemma_eHoley(a, b rune, h string, s *Scanner) (error, string) {
	return readWhat(Holey(a, b, h), s)
}
func lemma_eMatch(n string, f MatchFunc, s *Scanner) (error, string) {
	return readWhat(Match(n, f), s)
}
func lemma_eAtEnd(s *Scanner) (error, string)                 { return readWhat(AtEnd(), s) }
func lemma_eHexDigit(s *Scanner) (error, string)              { return readWhat(HexDigit(), s) }
func lemma_eTo(r Reader, s *Scanner) (error, string)          { return readWhat(To(r), s) }
func lemma_ePast(r Reader, s *Scanner) (error, string)        { return readWhat(Past(r), s) }
func lemma_eBody(b, t Reader, s *Scanner) (error, string)     { return readWhat(Body(b, t), s) }
func lemma_eBodyTail(b, t Reader, s *Scanner) (error, string) { return readWhat(BodyTail(b, t), s) }
func lemma_eMany(r Reader, s *Scanner) (error, string)        { return readWhat(Many(r), s) }
func lemma_eNot(r Reader, s *Scanner) (error, string)         { return readWhat(Not(r), s) }
func lemma_eInt(base, bits int, s *Scanner) error             { return Int(base, bits).Read(s) }
func lemma_eUint(base, bits int, s *Scanner) error            { return Uint(base, bits).Read(s) }
func lemma_eBool(format string, s *Scanner) error             { return Bool(format).Read(s) }
func lemma_eJanus(n string, r Reader, s *Scanner) error       { b, _ := Janus(n, r); return b.Read(s) }
func lemma_eWrap(n string, f ReadFunc, s *Scanner) error      { return Wrap(n, f).Read(s) }
