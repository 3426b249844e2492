//go:build verif

// Contracts about descriptions: a part whose description has the invalid-reader marker shows in the whole.
// Comment-only: read by gocv, never compiled.
package contracts

//@ func lemma_wInvalid(msg) (w)
//@ ensures [C22] marked: hasM(w)

//@ macro shows
//@ ensures [C22] part-shows: hasM(what(r)) ==> hasM(w)
//@ func lemma_wAt(r) (w)
//@ use shows
//@ func lemma_wNot(r) (w)
//@ use shows
//@ func lemma_wOpt(r) (w)
//@ use shows
//@ func lemma_wZom(r) (w)
//@ use shows
//@ func lemma_wMany(r) (w)
//@ use shows
//@ func lemma_wTo(r) (w)
//@ use shows
//@ func lemma_wPast(r) (w)
//@ use shows
//@ func lemma_wTimes(n, r) (w)
//@ use shows
//@ func lemma_wMap(r, f) (w)
//@ use shows
//@ func lemma_wPick(r, b, i) (w)
//@ use shows
//@ func lemma_wMonitor(r, l, i) (w)
//@ use shows
//@ func lemma_wJanus(n, r) (w)
//@ use shows
//@ func lemma_wRule(n, r) (w)
//@ use shows
//@ func lemma_wBody(a, b) (w)
//@ ensures [C22] parts-show: hasM(what(a)) || hasM(what(b)) ==> hasM(w)
//@ func lemma_wBodyTail(a, b) (w)
//@ ensures [C22] parts-show: hasM(what(a)) || hasM(what(b)) ==> hasM(w)
//@ func lemma_wSeq2(a, b) (w)
//@ ensures [C22] parts-show: hasM(what(a)) || hasM(what(b)) ==> hasM(w)
//@ func lemma_wSeq3(a, b, r) (w)
//@ use shows
//@ ensures [C22] parts-show: hasM(what(a)) || hasM(what(b)) ==> hasM(w)
//@ func lemma_wAny2(a, b) (w)
//@ ensures [C22] parts-show: hasM(what(a)) || hasM(what(b)) ==> hasM(w)
//@ func lemma_wAny3(a, b, r) (w)
//@ use shows
//@ ensures [C22] parts-show: hasM(what(a)) || hasM(what(b)) ==> hasM(w)
//@ func lemma_wSkipSeq(a, b, r) (w)
//@ use shows
//@ ensures [C22] parts-show: hasM(what(a)) || hasM(what(b)) ==> hasM(w)
//@ func lemma_wSkipWSSeq(a, b) (w)
//@ ensures [C22] parts-show: hasM(what(a)) || hasM(what(b)) ==> hasM(w)

// something that is neither a reader, a rune nor a string makes the whole invalid
//@ macro wbad
//@ requires !isReader(i) && !isType(i,rune) && !isType(i,string)
//@ ensures [C22] marked: hasM(w)
//@ func lemma_wOptBad(i) (w)
//@ use wbad
//@ func lemma_wZomBad(i) (w)
//@ use wbad
//@ func lemma_wManyBad(i) (w)
//@ use wbad
//@ func lemma_wToBad(i) (w)
//@ use wbad
//@ func lemma_wPastBad(i) (w)
//@ use wbad
//@ func lemma_wSeqBad(a, i) (w)
//@ use wbad
//@ func lemma_wAnyBad(a, i) (w)
//@ use wbad
//@ func lemma_wSkipSeqBad(a, i) (w)
//@ use wbad

// lists of any length: the description over the readers stored (Seq, Any and SkipSeq store what they are given: C08)
//@ macro wlist
//@ let J = any(J)
//@ ensures [C22] parts-show: 0 <= J && J < len(r.readers) && hasM(what(r.readers[J])) ==> hasM(w)
//@ inv [C22] 0 <= J && J < $i && J < len(r.readers) && hasM(what(r.readers[J])) ==> J < len($l) && hasM($l[J])
//@ inv [C22] 0 <= J && J < $i && J < len(r.readers) && hasM(what(r.readers[J])) ==> J+1 < len($l) && hasM($l[J+1])
//@ inv [C22] 0 <= J && J < $i && J < len(r.readers) && hasM(what(r.readers[J])) ==> hasM($t)
//@ inv [C22] 0 <= $i && $i <= len(r.readers)
//@ inv [C22] len($l) == $i
//@ inv [C22] len($l) == $i+1
//@ func (r *seqReader) What() (w)
//@ use wlist
//@ func (r *anyReader) What() (w)
//@ use wlist
//@ func (r *skipSeqReader) What() (w)
//@ use wlist
//@ ensures [C22] skip-shows: hasM(what(r.skip)) ==> hasM(w)
//@ inv [C22] hasM(what(r.skip)) ==> len($l) > 0 && hasM($l[0])
//@ inv [C22] hasM(what(r.skip)) ==> hasM($t)

//@ func GrammarLines(g) (l)
//@ let J = any(J)
//@ ensures [C22] one-per-rule: len(l) == len(g)
//@ ensures [C22] readers-show: 0 <= J && J < len(g) && hasM(what(g[J].Reader)) ==> hasM(l[J])
//@ inv [C22] 0 <= J && J < $i && J < len(g) && hasM(what(g[J].Reader)) ==> J < len($l) && hasM($l[J])
//@ inv [C22] 0 <= $i && $i <= len(g)
//@ inv [C22] len($l) == $i
//@ inv [C22] len($l) == $i+1

//@ func HasInvalidReader(str) (ok)
//@ inline
//@ ensures [C22] exactly: ok == hasM(str)

//@ func AnyHasInvalidReader(strs) (ok)
//@ ensures [C22] exactly: ok == anyM(strs,0)
//@ inv [C22] anyM(strs,$i) == anyM(strs,0)
//@ inv [C22] $b == anyM(strs,0)

//@ roots C22: lemma_wInvalid lemma_wAt lemma_wNot lemma_wOpt lemma_wZom lemma_wMany lemma_wTo lemma_wPast lemma_wTimes lemma_wMap lemma_wPick lemma_wMonitor lemma_wJanus lemma_wRule lemma_wBody lemma_wBodyTail lemma_wSeq2 lemma_wSeq3 lemma_wAny2 lemma_wAny3 lemma_wSkipSeq lemma_wSkipWSSeq lemma_wOptBad lemma_wZomBad lemma_wManyBad lemma_wToBad lemma_wPastBad lemma_wSeqBad lemma_wAnyBad lemma_wSkipSeqBad (*seqReader).What (*anyReader).What (*skipSeqReader).What GrammarLines HasInvalidReader AnyHasInvalidReader
