//go:build verif

// Contracts of the combinators. Comment-only: read by gocv, never compiled.
package contracts

//@ macro peg
//@ requires wf(s)
//@ modifies s.pos, world, ghost lastUpd
//@ let F = s.full
//@ let p0 = old(s.pos)
//@ inv wf(s)
//@ inv s.pos >= p0
//@ inv s.pos == p0

// reads exactly like r
//@ macro likeR
//@ use peg
//@ ensures [C08] iff: err == nil <==> rOk(r,F,p0)
//@ ensures [C08] end: s.pos == ite(rOk(r,F,p0),rEnd(r,F,p0),p0)

//@ func lemma_At(r, s) (err)
//@ use peg
//@ ensures [C08] iff: err == nil <==> rOk(r,F,p0)
//@ ensures [C08] stays: s.pos == p0

//@ func lemma_Not(r, s) (err)
//@ use peg
//@ ensures [C08] iff: err == nil <==> !rOk(r,F,p0) && p0 < len(F)
//@ ensures [C08] one-rune: s.pos == ite(err == nil,p0+widthAt(F,p0),p0)

//@ func lemma_Opt(r, s) (err)
//@ use peg
//@ ensures [C08] succeeds: err == nil
//@ ensures [C08] end: s.pos == ite(rOk(r,F,p0),rEnd(r,F,p0),p0)

//@ func lemma_Zom(r, s) (err)
//@ use peg
//@ ensures [C08] succeeds: err == nil
//@ ensures [C08] greedy: s.pos == zomR(r,F,p0)
//@ inv [C08] zomR(r,F,s.pos) == zomR(r,F,p0)

//@ func lemma_Many(r, s) (err)
//@ use peg
//@ ensures [C08] needs-progress: err == nil <==> zomR(r,F,p0) > p0
//@ ensures [C08] greedy: s.pos == zomR(r,F,p0)
//@ inv [C08] zomR(r,F,s.pos) == zomR(r,F,p0)

//@ func lemma_Times(n, r, s) (err)
//@ use peg
//@ ensures [C08] iff-n-successes: err == nil <==> timesR(r,n,F,p0) >= 0
//@ ensures [C08] end: s.pos == ite(err == nil,timesR(r,n,F,p0),p0)
//@ inv [C08] timesR(r,n-$i,F,s.pos) == timesR(r,n,F,p0)
//@ inv [C08] timesR(r,$i,F,s.pos) == timesR(r,n,F,p0)
//@ inv [C08] timesR(r,n+1-$i,F,s.pos) == timesR(r,n,F,p0)

//@ func lemma_To(r, s) (err)
//@ use peg
//@ ensures [C08] iff-somewhere: err == nil <==> toR(r,F,p0) >= 0
//@ ensures [C08] before-first: s.pos == ite(err == nil,toR(r,F,p0),p0)
//@ inv [C08] toR(r,F,s.pos) == toR(r,F,p0)
//@ inv [C08] !$b ==> toR(r,F,p0) < 0
//@ inv [C08] $b ==> toR(r,F,p0) < 0

//@ func lemma_Past(r, s) (err)
//@ use peg
//@ ensures [C08] iff-somewhere: err == nil <==> pastR(r,F,p0) >= 0
//@ ensures [C08] behind-first: s.pos == ite(err == nil,pastR(r,F,p0),p0)
//@ inv [C08] pastR(r,F,s.pos) == pastR(r,F,p0)
//@ inv [C08] !$b ==> pastR(r,F,p0) < 0
//@ inv [C08] $b ==> pastR(r,F,p0) < 0

//@ macro body
//@ use peg
//@ let q = tailR(t,F,p0)
//@ let good = q >= 0 && rOk(b,F[p0:q],0) && rEnd(b,F[p0:q],0) == q-p0
//@ inv [C08] tailR(t,F,s.pos) == tailR(t,F,p0)
//@ inv [C08] !$b ==> tailR(t,F,p0) < 0
//@ inv [C08] $b ==> tailR(t,F,p0) < 0

//@ func lemma_Body(b, t, s) (err)
//@ use body
//@ ensures [C08] iff: err == nil <==> good
//@ ensures [C08] before-tail: s.pos == ite(err == nil,q,p0)

//@ func lemma_BodyTail(b, t, s) (err)
//@ use body
//@ ensures [C08] iff: err == nil <==> good
//@ ensures [C08] behind-tail: s.pos == ite(err == nil,rEnd(t,F,q),p0)

//@ func lemma_Named(n, r, s) (err)
//@ use likeR
//@ func lemma_Map(r, f, s) (err)
//@ use likeR
//@ func lemma_Pick(r, b, i, s) (err)
//@ use likeR
//@ func lemma_Monitor(r, l, i, s) (err)
//@ use likeR
//@ func lemma_Rule(n, r, s) (err)
//@ use likeR
//@ func lemma_RuleMap(n, r, f, s) (err)
//@ use likeR
//@ func lemma_RulePick(n, r, b, s) (err)
//@ use likeR
//@ func lemma_RuleMonitor(n, r, l, s) (err)
//@ use likeR

//@ func lemma_Seq0(s) (err)
//@ use peg
//@ ensures [C08] succeeds: err == nil && s.pos == p0
//@ func lemma_Seq1(a, s) (err)
//@ use peg
//@ ensures [C08] iff: err == nil <==> rOk(a,F,p0)
//@ ensures [C08] end: s.pos == ite(err == nil,rEnd(a,F,p0),p0)
//@ func lemma_Seq2(a, b, s) (err)
//@ use peg
//@ let p1 = rEnd(a,F,p0)
//@ ensures [C08] iff: err == nil <==> rOk(a,F,p0) && rOk(b,F,p1)
//@ ensures [C08] end: s.pos == ite(err == nil,rEnd(b,F,p1),p0)
//@ func lemma_Seq3(a, b, c, s) (err)
//@ use peg
//@ let p1 = rEnd(a,F,p0)
//@ let p2 = rEnd(b,F,p1)
//@ ensures [C08] iff: err == nil <==> rOk(a,F,p0) && rOk(b,F,p1) && rOk(c,F,p2)
//@ ensures [C08] end: s.pos == ite(err == nil,rEnd(c,F,p2),p0)
//@ func lemma_Any0(s) (err)
//@ use peg
//@ ensures [C08] fails: err != nil && s.pos == p0
//@ func lemma_Any1(a, s) (err)
//@ use peg
//@ ensures [C08] iff: err == nil <==> rOk(a,F,p0)
//@ ensures [C08] end: s.pos == ite(err == nil,rEnd(a,F,p0),p0)
//@ func lemma_Any2(a, b, s) (err)
//@ use peg
//@ ensures [C08] iff: err == nil <==> rOk(a,F,p0) || rOk(b,F,p0)
//@ ensures [C08] first: s.pos == ite(rOk(a,F,p0),rEnd(a,F,p0),ite(rOk(b,F,p0),rEnd(b,F,p0),p0))
//@ func lemma_Any3(a, b, c, s) (err)
//@ use peg
//@ ensures [C08] iff: err == nil <==> rOk(a,F,p0) || rOk(b,F,p0) || rOk(c,F,p0)
//@ ensures [C08] first: s.pos == ite(rOk(a,F,p0),rEnd(a,F,p0),ite(rOk(b,F,p0),rEnd(b,F,p0),ite(rOk(c,F,p0),rEnd(c,F,p0),p0)))
//@ func lemma_SkipSeq0(k, s) (err)
//@ use peg
//@ ensures [C08] iff: err == nil <==> rOk(k,F,p0)
//@ ensures [C08] end: s.pos == ite(err == nil,rEnd(k,F,p0),p0)
//@ func lemma_SkipSeq2(k, a, b, s) (err)
//@ use peg
//@ let p1 = rEnd(k,F,p0)
//@ let p2 = rEnd(a,F,p1)
//@ let p3 = rEnd(k,F,p2)
//@ let p4 = rEnd(b,F,p3)
//@ ensures [C08] iff: err == nil <==> rOk(k,F,p0) && rOk(a,F,p1) && rOk(k,F,p2) && rOk(b,F,p3) && rOk(k,F,p4)
//@ ensures [C08] end: s.pos == ite(err == nil,rEnd(k,F,p4),p0)

//@ roots C08: lemma_At lemma_Not lemma_Opt lemma_Zom lemma_Many lemma_Times lemma_To lemma_Past lemma_Body lemma_BodyTail
//@ | lemma_Named lemma_Map lemma_Pick lemma_Monitor lemma_Rule lemma_RuleMap lemma_RulePick lemma_RuleMonitor
//@ | lemma_Seq0 lemma_Seq1 lemma_Seq2 lemma_Seq3 lemma_Any0 lemma_Any1 lemma_Any2 lemma_Any3 lemma_SkipSeq0 lemma_SkipSeq2

// Lists of any length: the Read methods over the readers stored, and the constructors pointwise
// (element J, for an arbitrary J, is the J-th argument).

//@ func (r *seqReader) Read(s) (err)
//@ let q = seqR(r.readers,0,F,p0)
//@ ensures [C08] iff-all: err == nil <==> q >= 0
//@ ensures [C08] end: s.pos == ite(err == nil,q,p0)
//@ inv [C08] seqR(r.readers,$i,F,s.pos) == seqR(r.readers,0,F,p0)
//@ inv [C08] 0 <= $i && $i <= len(r.readers)

//@ func (r *anyReader) Read(s) (err)
//@ let q = anyR(r.readers,0,F,p0)
//@ ensures [C08] iff-one: err == nil <==> q >= 0
//@ ensures [C08] end: s.pos == ite(err == nil,q,p0)
//@ inv [C08] anyR(r.readers,$i,F,s.pos) == anyR(r.readers,0,F,p0)
//@ inv [C08] 0 <= $i && $i <= len(r.readers)

//@ func (r *skipSeqReader) Read(s) (err)
//@ let q = skipR(r.skip,r.readers,0,F,rEnd(r.skip,F,p0))
//@ ensures [C08] iff-all: err == nil <==> rOk(r.skip,F,p0) && q >= 0
//@ ensures [C08] end: s.pos == ite(err == nil,q,p0)
//@ inv [C08] $e == nil ==> rOk(r.skip,F,p0) && skipR(r.skip,r.readers,$i,F,s.pos) == skipR(r.skip,r.readers,0,F,rEnd(r.skip,F,p0))
//@ inv [C08] rOk(r.skip,F,p0)
//@ inv [C08] skipR(r.skip,r.readers,$i,F,s.pos) == skipR(r.skip,r.readers,0,F,rEnd(r.skip,F,p0))
//@ inv [C08] $e != nil ==> !rOk(r.skip,F,p0) || skipR(r.skip,r.readers,0,F,rEnd(r.skip,F,p0)) < 0
//@ inv [C08] 0 <= $i && $i <= len(r.readers)

//@ macro listctor
//@ inv [C08] isReader(list[any(J)]) && 0 <= any(J) && any(J) < len($l) ==> same($l[any(J)],list[any(J)])

//@ func Seq(list) (r)
//@ inline
//@ use listctor
//@ let x = unbox(r,*seqReader)
//@ ensures [C08] faithful: isType(r,*seqReader) ==> len(x.readers) == len(list) && (0 <= any(J) && any(J) < len(list) && isReader(list[any(J)]) ==> same(x.readers[any(J)],list[any(J)]))

//@ func Any(list) (r)
//@ inline
//@ use listctor
//@ let x = unbox(r,*anyReader)
//@ ensures [C08] faithful: isType(r,*anyReader) ==> len(x.readers) == len(list) && (0 <= any(J) && any(J) < len(list) && isReader(list[any(J)]) ==> same(x.readers[any(J)],list[any(J)]))

//@ func SkipSeq(skip, list) (r)
//@ inline
//@ use listctor
//@ let x = unbox(r,*skipSeqReader)
//@ ensures [C08] faithful: isType(r,*skipSeqReader) ==> same(x.skip,skip) && len(x.readers) == len(list) && (0 <= any(J) && any(J) < len(list) && isReader(list[any(J)]) ==> same(x.readers[any(J)],list[any(J)]))

//@ roots C08: (*seqReader).Read (*anyReader).Read (*skipSeqReader).Read Seq Any SkipSeq
