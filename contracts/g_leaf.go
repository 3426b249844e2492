//go:build verif

// Contracts of the leaf readers and their constructors. Comment-only: read by gocv, never compiled.
package contracts

//@ macro leafC
//@ use peg
//@ ensures [C09] iff-next-in-class: err == nil <==> p0 < len(F) && inC(c, runeAt(F,p0))
//@ ensures [C09] over-exactly-it: s.pos == ite(err == nil,p0+widthAt(F,p0),p0)

//@ macro failsC
//@ use peg
//@ ensures [C09] always-fails: err != nil
//@ ensures [C09] stays: s.pos == p0

//@ func lemma_Lit(str, s) (err)
//@ use peg
//@ ensures [C09] iff-prefix: err == nil <==> hasPre(F,p0,str)
//@ ensures [C09] over-exactly-it: s.pos == ite(err == nil,p0+len(str),p0)

//@ func lemma_Fold(str, s) (err)
//@ use peg
//@ ensures [C09] iff-prefix: err == nil <==> hasPreFold(F,p0,str)
//@ ensures [C09] over-exactly-it: s.pos == ite(err == nil,p0+len(str),p0)

//@ func lemma_Rune(r, s) (err)
//@ let c = ceq(r)
//@ use leafC

//@ func lemma_AnyRune(str, s) (err)
//@ let c = cany(str)
//@ use leafC

//@ func lemma_Between(min, max, s) (err)
//@ let c = cbtw(min,max)
//@ use leafC

//@ func lemma_Match(what, f, s) (err)
//@ let c = cfn(f)
//@ use leafC

//@ func lemma_Holey(min, max, holes, s) (err)
//@ let c = choley(min,max,holes)
//@ use leafC

//@ func lemma_Digit(s) (err)
//@ let c = cbtw('0','9')
//@ use leafC

//@ func lemma_HexDigit(s) (err)
//@ let c = cor(cbtw('0','9'),cor(cbtw('a','f'),cbtw('A','F')))
//@ use leafC

//@ func lemma_WS(s) (err)
//@ let c = cany(" \n\r\t")
//@ use leafC

//@ func lemma_AtEnd(s) (err)
//@ use peg
//@ ensures [C09] iff-at-end: err == nil <==> p0 == len(F)
//@ ensures [C09] stays: s.pos == p0

//@ func lemma_NL(s) (err)
//@ use peg
//@ let one = hasPre(F,p0,"\n")
//@ let two = hasPre(F,p0,"\r\n")
//@ ensures [C09] iff-line-break: err == nil <==> one || two
//@ ensures [C09] over-exactly-it: s.pos == ite(one,p0+1,ite(two,p0+2,p0))

//@ func lemma_AnyFold0(s) (err)
//@ use failsC
//@ func lemma_AnyFold2(a, b, s) (err)
//@ use peg
//@ ensures [C09] iff-one-prefix: err == nil <==> hasPreFold(F,p0,a) || hasPreFold(F,p0,b)
//@ ensures [C09] over-the-first: s.pos == ite(hasPreFold(F,p0,a),p0+len(a),ite(hasPreFold(F,p0,b),p0+len(b),p0))

//@ func lemma_Invalid(msg, s) (err)
//@ use failsC

// a rune or string given to a combinator stands for Rune and Lit
//@ macro litArg
//@ use peg
//@ ensures [C09] like-lit: err == nil <==> hasPre(F,p0,str)
//@ ensures [C09] over-exactly-it: s.pos == ite(err == nil,p0+len(str),p0)
//@ func lemma_SeqStr(str, s) (err)
//@ use litArg
//@ func lemma_AnyStr(str, s) (err)
//@ use litArg
//@ func lemma_SeqRune(r, s) (err)
//@ let c = ceq(r)
//@ use leafC
//@ func lemma_AnyRuneArg(r, s) (err)
//@ let c = ceq(r)
//@ use leafC
//@ func lemma_OptStr(str, s) (err)
//@ use peg
//@ ensures [C09] optional-lit: err == nil && s.pos == ite(hasPre(F,p0,str),p0+len(str),p0)
//@ func lemma_OptRune(r, s) (err)
//@ use peg
//@ ensures [C09] optional-rune: err == nil && s.pos == ite(p0 < len(F) && runeAt(F,p0) == r,p0+widthAt(F,p0),p0)

// anything else yields a reader that always fails
//@ macro badArg
//@ requires !isReader(i) && !isType(i,rune) && !isType(i,string)
//@ use failsC
//@ func lemma_ManyBad(i, s) (err)
//@ use badArg
//@ func lemma_OptBad(i, s) (err)
//@ use badArg
//@ func lemma_ZomBad(i, s) (err)
//@ use badArg
//@ func lemma_ToBad(i, s) (err)
//@ use badArg
//@ func lemma_PastBad(i, s) (err)
//@ use badArg
//@ func lemma_SeqBad(a, i, s) (err)
//@ use badArg
//@ func lemma_AnyBad(a, i, s) (err)
//@ use badArg
//@ func lemma_SkipSeqBad(k, i, s) (err)
//@ use badArg

// Ranges: membership in the ranges stored, and what the constructors store.

//@ func (r *betweenAnyReader) Read(s) (err)
//@ let c = cor(cranges(r.min,r.max),cany(r.singles))
//@ ensures [C09] iff-next-in-class: err == nil <==> p0 < len(F) && inC(c, runeAt(F,p0))
//@ ensures [C09] over-exactly-it: s.pos == ite(err == nil,p0+widthAt(F,p0),p0)
//@ inv [C09] p0 < len(F) ==> (inRangesFrom(r.min,r.max,$i,runeAt(F,p0)) == inRangesFrom(r.min,r.max,0,runeAt(F,p0)))

//@ macro barOf
//@ let bar = unbox(r,*betweenAnyReader)
//@ let same2 = len(bar.min) == len(bar.max)

// J ranges over all indices, str over all range descriptions
//@ macro rangesOf
//@ use barOf
//@ let n = runeCnt(str)
//@ let J = any(J)
//@ ensures [C09] invalid-iff-malformed: isType(r,invalidReader) <==> n%3 != 0 || !sepsOk(str,0)
//@ ensures [C09] ranges-otherwise: isType(r,invalidReader) || isType(r,*betweenAnyReader)
//@ ensures [C09] count: isType(r,*betweenAnyReader) ==> same2 && 3*len(bar.min) == n
//@ ensures [C09] faithful: isType(r,*betweenAnyReader) && 0 <= J && J < len(bar.min) ==> bar.min[J] == runeNo(str,3*J) && bar.max[J] == runeNo(str,3*J+2)

//@ func BetweenAny(str) (r)
//@ use rangesOf
//@ ensures [C09] no-singles: isType(r,*betweenAnyReader) ==> len(bar.singles) == 0
//@ ensures [C09] new: isType(r,*betweenAnyReader) ==> blk(bar) > old(alloc())
//@ inv [C09] sepsOk(str,$i) == sepsOk(str,0)
//@ inv [C09] 3*len($l) == $i
//@ inv [C09] 3*len($l) == 2*$i
//@ inv [C09] 0 <= any(J) && 2*any(J)+1 < len($l) ==> $l[2*any(J)] == runeNo(str,3*any(J)) && $l[2*any(J)+1] == runeNo(str,3*any(J)+2)
//@ inv [C09] 0 <= any(J) && any(J) < len($l) ==> $l[any(J)] == runeNo(str,3*any(J))
//@ inv [C09] 0 <= any(J) && any(J) < len($l) ==> $l[any(J)] == runeNo(str,3*any(J)+2)

//@ func Set(str, singles) (r)
//@ use rangesOf
//@ ensures [C09] singles: isType(r,*betweenAnyReader) ==> eqText(bar.singles,singles)

//@ func BuildBetweenAny(list) (r)
//@ inline
//@ use barOf
//@ let n = len(list)
//@ let J = any(J)
//@ ensures [C09] invalid-iff-odd: isType(r,invalidReader) <==> n%2 != 0
//@ ensures [C09] ranges-otherwise: isType(r,invalidReader) || isType(r,*betweenAnyReader)
//@ ensures [C09] count: isType(r,*betweenAnyReader) ==> same2 && 2*len(bar.min) == n
//@ ensures [C09] faithful: isType(r,*betweenAnyReader) && 0 <= J && J < len(bar.min) ==> bar.min[J] == list[2*J] && bar.max[J] == list[2*J+1]
//@ ensures [C09] no-singles: isType(r,*betweenAnyReader) ==> len(bar.singles) == 0
//@ inv [C09] 2*len($l) == $i
//@ inv [C09] 0 <= any(J) && any(J) < len($l) ==> $l[any(J)] == list[2*any(J)]
//@ inv [C09] 0 <= any(J) && any(J) < len($l) ==> $l[any(J)] == list[2*any(J)+1]

// lists with an unusable element (an arbitrary one, at J) are refused
//@ macro badlist
//@ let e = list[any(J)]
//@ let inJ = 0 <= any(J) && any(J) < len(list)
//@ let bad = !isReader(e) && !isType(e,rune) && !isType(e,string)
//@ ensures [C09] unusable-refused: inJ && bad ==> isType(r,invalidReader)
//@ inv [C09] 0 <= any(J) && any(J) < $i ==> !bad

//@ func Seq(list) (r)
//@ use badlist
//@ func Any(list) (r)
//@ use badlist
//@ func SkipSeq(skip, list) (r)
//@ use badlist

//@ roots C09: lemma_Lit lemma_Fold lemma_Rune lemma_AnyRune lemma_Between lemma_Match lemma_Holey lemma_Digit lemma_HexDigit lemma_WS
//@ | lemma_AtEnd lemma_NL lemma_AnyFold0 lemma_AnyFold2 lemma_Invalid lemma_SeqStr lemma_AnyStr lemma_SeqRune lemma_AnyRuneArg lemma_OptStr lemma_OptRune
//@ | lemma_ManyBad lemma_OptBad lemma_ZomBad lemma_ToBad lemma_PastBad lemma_SeqBad lemma_AnyBad lemma_SkipSeqBad
//@ | (*betweenAnyReader).Read BetweenAny Set BuildBetweenAny Seq Any SkipSeq

// ------------------------------------------------------------------ termination
// Every loop of these functions (and of what they call) has a measure that decreases and is bounded below.

//@ group term = C12
//@ roots C12: -(*Scanner).While @C01 @readers lemma_Zom lemma_Many lemma_Times lemma_To lemma_Past lemma_Body lemma_BodyTail
