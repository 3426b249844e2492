//go:build verif

// Contracts about the errors readers return. Comment-only: read by gocv, never compiled.
package contracts

//@ func (s *Scanner) ErrorFor(name) (err)
//@ inline
//@ ensures [C21] read-error: isType(err,ReadError) && unbox(err,ReadError).Marker == s.pos && eqText(unbox(err,ReadError).What,name)

//@ func (s *Scanner) ErrorIfFalse(ok, name) (err)
//@ inline
//@ ensures [C21] only-if-false: err == nil <==> ok
//@ ensures [C21] read-error: !ok ==> isType(err,ReadError) && unbox(err,ReadError).Marker == s.pos && eqText(unbox(err,ReadError).What,name)

//@ iface (r Reader) Read(s) (err)
//@ assumes [C21] err != nil ==> same(err,rErr(r,F,p0))

//@ macro ownErr
//@ use peg
//@ ensures [C21] read-error-at-position: err != nil ==> isType(err,ReadError) && unbox(err,ReadError).Marker == s.pos
//@ ensures [C21] description: err != nil ==> eqText(unbox(err,ReadError).What,w)

//@ func lemma_eLit(str, s) (err, w)
//@ use ownErr
//@ func lemma_eFold(str, s) (err, w)
//@ use ownErr
//@ func lemma_eRune(r, s) (err, w)
//@ use ownErr
//@ func lemma_eAnyRune(str, s) (err, w)
//@ use ownErr
//@ func lemma_eBetween(a, b, s) (err, w)
//@ use ownErr
//@ func lemma_eHoley(a, b, h, s) (err, w)
//@ use ownErr
//@ func lemma_eMatch(n, f, s) (err, w)
//@ use ownErr
//@ func lemma_eAtEnd(s) (err, w)
//@ use ownErr
//@ func lemma_eHexDigit(s) (err, w)
//@ use ownErr
//@ func lemma_eTo(r, s) (err, w)
//@ use ownErr
//@ func lemma_ePast(r, s) (err, w)
//@ use ownErr
//@ func lemma_eBody(b, t, s) (err, w)
//@ use ownErr
//@ func lemma_eBodyTail(b, t, s) (err, w)
//@ use ownErr
//@ func lemma_eMany(r, s) (err, w)
//@ use ownErr

// Not names its reader if that one matched, otherwise itself.
//@ func lemma_eNot(r, s) (err, w)
//@ use peg
//@ ensures [C21] read-error-at-position: err != nil ==> isType(err,ReadError) && unbox(err,ReadError).Marker == s.pos
//@ ensures [C21] description: err != nil ==> eqText(unbox(err,ReadError).What,ite(rOk(r,F,p0),what(r),w))

//@ func (r *betweenAnyReader) Read(s) (err)
//@ ensures [C21] read-error-at-position: err != nil ==> isType(err,ReadError) && unbox(err,ReadError).Marker == s.pos
//@ ensures [C21] description: err != nil ==> eqText(unbox(err,ReadError).What,what(r))

//@ macro readErr
//@ ensures [C21] read-error-at-position: err != nil && valid ==> isType(err,ReadError) && unbox(err,ReadError).Marker == s.pos && eqText(unbox(err,ReadError).What,name)

//@ func (s *Scanner) ReadInt(base, bitSize) (v, err)
//@ let valid = (base == 8 || base == 10 || base == 16) && (bitSize == 8 || bitSize == 16 || bitSize == 32 || bitSize == 64)
//@ let name = "integer"
//@ use readErr
//@ func (s *Scanner) ReadUint(base, bitSize) (v, err)
//@ let valid = (base == 8 || base == 10 || base == 16) && (bitSize == 8 || bitSize == 16 || bitSize == 32 || bitSize == 64)
//@ let name = "unsigned integer"
//@ use readErr
//@ func (s *Scanner) ReadBool(format) (b, err)
//@ let valid = eqText(format,"") || eqText(format,"l") || eqText(format,"U") || eqText(format,"Cc") || eqText(format,"*")
//@ let name = "bool"
//@ use readErr

//@ func lemma_eInt(base, bitSize, s) (err)
//@ use peg
//@ let valid = (base == 8 || base == 10 || base == 16) && (bitSize == 8 || bitSize == 16 || bitSize == 32 || bitSize == 64)
//@ let name = "integer"
//@ use readErr
//@ func lemma_eUint(base, bitSize, s) (err)
//@ use peg
//@ let valid = (base == 8 || base == 10 || base == 16) && (bitSize == 8 || bitSize == 16 || bitSize == 32 || bitSize == 64)
//@ let name = "unsigned integer"
//@ use readErr
//@ func lemma_eBool(format, s) (err)
//@ use peg
//@ let valid = eqText(format,"") || eqText(format,"l") || eqText(format,"U") || eqText(format,"Cc") || eqText(format,"*")
//@ let name = "bool"
//@ use readErr

//@ func Int(base, bitSize) (r)
//@ inline C21
//@ func Uint(base, bitSize) (r)
//@ inline C21
//@ func Bool(format) (r)
//@ inline C21

// the error of the reader that failed

//@ macro subErr
//@ use peg
//@ ensures [C21] error-of-reader: err != nil ==> same(err,rErr(r,F,p0))
//@ func lemma_At(r, s) (err)
//@ use subErr
//@ func lemma_Named(n, r, s) (err)
//@ use subErr
//@ func lemma_Map(r, f, s) (err)
//@ use subErr
//@ func lemma_Pick(r, b, i, s) (err)
//@ use subErr
//@ func lemma_Monitor(r, l, i, s) (err)
//@ use subErr
//@ func lemma_Rule(n, r, s) (err)
//@ use subErr
//@ func lemma_eJanus(n, r, s) (err)
//@ use subErr
//@ func lemma_Times(n, r, s) (err)
//@ ensures [C21] error-of-reader: err != nil ==> same(err,timesErr(r,n,F,p0))
//@ inv [C21] same(timesErr(r,n-$i,F,s.pos),timesErr(r,n,F,p0))
//@ inv [C21] same(timesErr(r,$i,F,s.pos),timesErr(r,n,F,p0))
//@ inv [C21] same(timesErr(r,n+1-$i,F,s.pos),timesErr(r,n,F,p0))

//@ func lemma_eWrap(n, f, s) (err)
//@ use peg
//@ ensures [C21] error-of-function: same(err,ghost(ferr))

//@ func (r *seqReader) Read(s) (err)
//@ ensures [C21] error-of-reader: err != nil ==> same(err,seqErr(r.readers,0,F,p0))
//@ inv [C21] same(seqErr(r.readers,$i,F,s.pos),seqErr(r.readers,0,F,p0))
//@ inv [C21] 0 <= $i && $i <= len(r.readers)

//@ func (r *skipSeqReader) Read(s) (err)
//@ let first = ite(rOk(r.skip,F,p0),skipErr(r.skip,r.readers,0,F,rEnd(r.skip,F,p0)),rErr(r.skip,F,p0))
//@ ensures [C21] error-of-reader: err != nil ==> same(err,first)
//@ inv [C21] $e == nil ==> rOk(r.skip,F,p0) && same(skipErr(r.skip,r.readers,$i,F,s.pos),skipErr(r.skip,r.readers,0,F,rEnd(r.skip,F,p0)))
//@ inv [C21] rOk(r.skip,F,p0)
//@ inv [C21] same(skipErr(r.skip,r.readers,$i,F,s.pos),skipErr(r.skip,r.readers,0,F,rEnd(r.skip,F,p0)))
//@ inv [C21] $e != nil ==> same($e,first)
//@ inv [C21] 0 <= $i && $i <= len(r.readers)

// the deepest

//@ func (r *anyReader) Read(s) (err)
//@ forall J
//@ let J = any(J)
//@ ensures [C21] deepest: err != nil ==> same(err,deepErr(r.readers,0,F,p0,0,""))
//@ inv [C21] 0 <= $i && $i <= len(r.readers)
//@ inv [C21] 0 <= J && J < $i ==> same($l[J],rErr(r.readers[J],F,p0))
//@ inv [C21] same(deepErr(r.readers,$i,F,p0,$v,$t),deepErr(r.readers,0,F,p0,0,""))
//@ inv [C21] isType($e,ReadError) && same(deepErr(r.readers,$i,F,p0,unbox($e,ReadError).Marker,unbox($e,ReadError).What),deepErr(r.readers,0,F,p0,0,""))

//@ roots C21: (*Scanner).ErrorFor (*Scanner).ErrorIfFalse lemma_eLit lemma_eFold lemma_eRune lemma_eAnyRune lemma_eBetween lemma_eHoley lemma_eMatch lemma_eAtEnd lemma_eHexDigit
//@ | lemma_eTo lemma_ePast lemma_eBody lemma_eBodyTail lemma_eMany lemma_eNot (*betweenAnyReader).Read (*Scanner).ReadInt (*Scanner).ReadUint (*Scanner).ReadBool lemma_eInt lemma_eUint lemma_eBool
//@ | lemma_At lemma_Named lemma_Map lemma_Pick lemma_Monitor lemma_Rule lemma_eJanus lemma_Times lemma_eWrap (*seqReader).Read (*skipSeqReader).Read (*anyReader).Read
