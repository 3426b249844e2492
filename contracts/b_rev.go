//go:build verif

// Contracts of the scanner (backward). Comment-only: read by gocv, never compiled.
package contracts

//@ macro bwdonly
//@ use moved
//@ ensures [dir] not-forward: s.pos <= p0

//@ func (s *Scanner) RevIf(str) (ok)
//@ use scan bwdonly
//@ ensures [rev] iff-suffix: ok <==> hasSuf(F,p0,str)
//@ ensures [rev] over-it: ok ==> s.pos == p0-len(str)

//@ func (s *Scanner) RevIfAny(strs) (ok)
//@ use scan bwdonly
//@ ensures [rev] iff-some-suffix: ok <==> sufLen(strs,0,F,p0) >= 0
//@ ensures [rev] over-first: ok ==> s.pos == p0-sufLen(strs,0,F,p0)
//@ inv [rev] sufLen(strs,$i,F,p0) == sufLen(strs,0,F,p0)

//@ func (s *Scanner) RevTo(str) (ok)
//@ use scan bwdonly
//@ ensures [rev] iff-occurs: ok <==> lastIdx(F,p0,str) >= 0
//@ ensures [rev] closest: ok ==> s.pos == lastIdx(F,p0,str)
//@ inv [rev] lastIdx(F,$p,str) == lastIdx(F,p0,str)

//@ func (s *Scanner) RevIfFold(str) (ok)
//@ use scan bwdonly
//@ ensures [rev] iff-suffix: ok <==> hasSufFold(F,p0,str)
//@ ensures [rev] over-it: ok ==> s.pos == p0-len(str)

//@ func (s *Scanner) RevToFold(str) (ok)
//@ use scan bwdonly
//@ ensures [rev] iff-occurs: ok <==> lastIdxFold(F,p0,str) >= 0
//@ ensures [rev] closest: ok ==> s.pos == lastIdxFold(F,p0,str)
//@ inv [rev] lastIdxFold(F,$p,str) == lastIdxFold(F,p0,str)

//@ macro revifc
//@ use scan bwdonly
//@ ensures [rev] iff-last-in-class: ok <==> p0 > 0 && inC(c, runeBefore(F,p0))
//@ ensures [rev] over-the-rune: ok ==> s.pos == p0-widthBefore(F,p0)

//@ macro revtoc
//@ use scan bwdonly
//@ ensures [rev] iff-some-in-class: ok <==> lastIn(F,p0,c) >= 0
//@ ensures [rev] closest: ok ==> s.pos == lastIn(F,p0,c)
//@ inv [rev] lastIn(F,$p,c) == lastIn(F,p0,c)

//@ macro revwhilec
//@ use scan bwdonly
//@ ensures [rev] longest-run: s.pos == lastOut(F,p0,c)
//@ ensures [rev] iff-moved: ok <==> s.pos < p0
//@ inv [rev] lastOut(F,$p,c) == lastOut(F,p0,c)

//@ func (s *Scanner) RevIfRune(r) (ok)
//@ let c = ceq(r)
//@ use revifc

//@ func (s *Scanner) RevToRune(r) (ok)
//@ let c = ceq(r)
//@ use revtoc

//@ func (s *Scanner) RevWhileRune(r) (ok)
//@ let c = ceq(r)
//@ use revwhilec

//@ func (s *Scanner) RevIfAnyRune(str) (ok)
//@ let c = cany(str)
//@ use revifc
//@ inv [rev] p0 > 0 ==> (inAny(str,$i,runeBefore(F,p0)) == inAny(str,0,runeBefore(F,p0)))

//@ func (s *Scanner) RevToAnyRune(str) (ok)
//@ let c = cany(str)
//@ use revtoc

//@ func (s *Scanner) RevWhileAnyRune(str) (ok)
//@ let c = cany(str)
//@ use revwhilec

//@ func (s *Scanner) RevIfBetween(min, max) (ok)
//@ let c = cbtw(min,max)
//@ use revifc

//@ func (s *Scanner) RevToBetween(min, max) (ok)
//@ let c = cbtw(min,max)
//@ use revtoc

//@ func (s *Scanner) RevWhileBetween(min, max) (ok)
//@ let c = cbtw(min,max)
//@ use revwhilec

//@ func (s *Scanner) RevIfMatch(check) (ok)
//@ let c = cfn(check)
//@ use revifc

//@ func (s *Scanner) RevToMatch(check) (ok)
//@ let c = cfn(check)
//@ use revtoc

//@ func (s *Scanner) RevWhileMatch(check) (ok)
//@ let c = cfn(check)
//@ use revwhilec

//@ roots C04: (*Scanner).RevIf (*Scanner).RevIfAny (*Scanner).RevTo (*Scanner).RevIfFold (*Scanner).RevToFold (*Scanner).RevIfRune (*Scanner).RevToRune (*Scanner).RevWhileRune (*Scanner).RevIfAnyRune (*Scanner).RevToAnyRune (*Scanner).RevWhileAnyRune (*Scanner).RevIfBetween (*Scanner).RevToBetween (*Scanner).RevWhileBetween (*Scanner).RevIfMatch (*Scanner).RevToMatch (*Scanner).RevWhileMatch
//@ roots C01: (*Scanner).RevIf (*Scanner).RevIfAny (*Scanner).RevTo (*Scanner).RevIfFold (*Scanner).RevToFold (*Scanner).RevIfRune (*Scanner).RevToRune (*Scanner).RevWhileRune (*Scanner).RevIfAnyRune (*Scanner).RevToAnyRune (*Scanner).RevWhileAnyRune (*Scanner).RevIfBetween (*Scanner).RevToBetween (*Scanner).RevWhileBetween (*Scanner).RevIfMatch (*Scanner).RevToMatch (*Scanner).RevWhileMatch
