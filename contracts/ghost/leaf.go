//go:build verif

package tok

func lemma_Lit(str string, s *Scanner) error                 { return Lit(str).Read(s) }
func lemma_Fold(str string, s *Scanner) error                { return Fold(str).Read(s) }
func lemma_Rune(r rune, s *Scanner) error                    { return Rune(r).Read(s) }
func lemma_AnyRune(str string, s *Scanner) error             { return AnyRune(str).Read(s) }
func lemma_Between(min, max rune, s *Scanner) error          { return Between(min, max).Read(s) }
func lemma_Match(what string, f MatchFunc, s *Scanner) error { return Match(what, f).Read(s) }
func lemma_Holey(min, max rune, holes string, s *Scanner) error {
	return Holey(min, max, holes).Read(s)
}
func lemma_Digit(s *Scanner) error                               { return Digit().Read(s) }
func lemma_HexDigit(s *Scanner) error                            { return HexDigit().Read(s) }
func lemma_WS(s *Scanner) error                                  { return WS().Read(s) }
func lemma_AtEnd(s *Scanner) error                               { return AtEnd().Read(s) }
func lemma_NL(s *Scanner) error                                  { return NL().Read(s) }
func lemma_AnyFold0(s *Scanner) error                            { return AnyFold().Read(s) }
func lemma_AnyFold2(a, b string, s *Scanner) error               { return AnyFold(a, b).Read(s) }
func lemma_Invalid(msg string, s *Scanner) error                 { return InvalidReader(msg).Read(s) }
func lemma_SeqStr(str string, s *Scanner) error                  { return Seq(str).Read(s) }
func lemma_AnyStr(str string, s *Scanner) error                  { return Any(str).Read(s) }
func lemma_SeqRune(r rune, s *Scanner) error                     { return Seq(r).Read(s) }
func lemma_AnyRuneArg(r rune, s *Scanner) error                  { return Any(r).Read(s) }
func lemma_OptStr(str string, s *Scanner) error                  { return Opt(str).Read(s) }
func lemma_OptRune(r rune, s *Scanner) error                     { return Opt(r).Read(s) }
func lemma_ManyBad(i interface{}, s *Scanner) error              { return Many(i).Read(s) }
func lemma_OptBad(i interface{}, s *Scanner) error               { return Opt(i).Read(s) }
func lemma_ZomBad(i interface{}, s *Scanner) error               { return Zom(i).Read(s) }
func lemma_ToBad(i interface{}, s *Scanner) error                { return To(i).Read(s) }
func lemma_PastBad(i interface{}, s *Scanner) error              { return Past(i).Read(s) }
func lemma_SeqBad(a Reader, i interface{}, s *Scanner) error     { return Seq(a, i).Read(s) }
func lemma_AnyBad(a Reader, i interface{}, s *Scanner) error     { return Any(a, i).Read(s) }
func lemma_SkipSeqBad(k Reader, i interface{}, s *Scanner) error { return SkipSeq(k, i).Read(s) }
