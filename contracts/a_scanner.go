//go:build verif

// Contracts of the scanner (forward). Comment-only: read by gocv, never compiled.
package contracts

// Scanner invariant: the position lies within the text. The frame (modifies)
// says that nothing else that existed before the call changes, the text included.

//@ macro scan
//@ requires wf(s)
//@ modifies s.pos, tworld, ghost lastUpd
//@ let F = s.full
//@ let p0 = old(s.pos)
//@ ensures wf: wf(s)
//@ ensures [C16] last-update: s.Tracker != nil ==> ghost(lastUpd) == s.pos || (s.pos == p0 && ghost(lastUpd) == old(ghost(lastUpd)))
//@ ensures [C16] no-tracker: s.Tracker == nil ==> ghost(lastUpd) == old(ghost(lastUpd))
//@ inv [C16] s.Tracker == nil ==> ghost(lastUpd) == old(ghost(lastUpd))
//@ inv wf(s)
//@ inv [C16] s.Tracker != nil ==> ghost(lastUpd) == s.pos || (s.pos == p0 && ghost(lastUpd) == old(ghost(lastUpd)))

//@ macro moved
//@ ensures [dir] stays-on-false: !ok ==> s.pos == p0
//@ inv [dir] s.pos == p0

//@ macro fwdonly
//@ use moved
//@ ensures [dir] not-backward: s.pos >= p0

//@ group dir = C01 C02 C03 C04 C05 C07 C08 C09 C10 C11 C12 C20 C24 C27 C25 C26 C21
//@ group exact = C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C20 C21 C24 C27 C25 C26 C16 C17 C19
//@ group lit = C02 C09 C11 C20 C24 C27 C25 C26
//@ group fold = C02 C09
//@ group to = C02
//@ group cls = C03 C09 C10 C24 C27 C25 C26
//@ group tocls = C03
//@ group while = C03
//@ group rev = C04
//@ group runes = C01 C05 C08 C12 C24 C27

//@ func (s *Scanner) Move(n) (ok)
//@ use scan
//@ ensures [exact] in-range: ok <==> 0 <= p0+n && p0+n <= len(F)
//@ ensures [exact] target: s.pos == ite(ok, p0+n, p0)

//@ func (s *Scanner) ToMarker(m) (ok)
//@ inline C17 C19 C20
//@ use scan
//@ ensures [exact] in-range: ok <==> 0 <= m && m <= len(F)
//@ ensures [exact] target: s.pos == ite(ok, m, p0)

//@ func (s *Scanner) ToEnd() (ok)
//@ use scan
//@ ensures [exact] target: ok && s.pos == len(F)

//@ func (s *Scanner) ToStart() (ok)
//@ use scan
//@ ensures [exact] target: ok && s.pos == 0

//@ func (s *Scanner) MoveRunes(n) (ok)
//@ use scan
//@ ensures [dir] stays-on-false: !ok ==> s.pos == p0
//@ ensures [dir] direction: (n >= 0 ==> s.pos >= p0) && (n <= 0 ==> s.pos <= p0)
//@ ensures [runes] forward: n > 0 ==> (ok <==> fwd(F,p0,n) >= 0) && (ok ==> s.pos == fwd(F,p0,n))
//@ ensures [runes] backward: n < 0 ==> (ok <==> bwd(F,p0,-n) >= 0) && (ok ==> s.pos == bwd(F,p0,-n))
//@ ensures [runes] zero: n == 0 ==> ok && s.pos == p0
//@ inv s.pos == p0
//@ inv [runes] n > 0 ==> fwd(F,$p,n-$i) == fwd(F,p0,n)
//@ inv [runes] n < 0 ==> bwd(F,$p,$i-n) == bwd(F,p0,-n)
//@ inv [runes] n > 0 ==> $i < n
//@ inv [runes] n < 0 ==> $i > n

//@ func (s *Scanner) ScanString(n) (str, ok)
//@ use scan moved
//@ ensures [C05] found: ok <==> n >= 0 && fwd(F,p0,n) >= 0
//@ ensures [C05] exact: ok ==> s.pos == fwd(F,p0,n) && same(str, F[p0:s.pos])
//@ inv [C05] n >= 0 ==> fwd(F,$p,n-$i) == fwd(F,p0,n)
//@ inv [C05] n >= 0 ==> $i <= n

//@ func (s *Scanner) AtEnd() (ok)
//@ requires wf(s)
//@ ensures [exact] at-end: ok <==> s.pos == len(s.full)

//@ func (s *Scanner) AtStart() (ok)
//@ requires wf(s)
//@ ensures [exact] at-start: ok <==> s.pos == 0

//@ func (s *Scanner) Mark() (m)
//@ ensures [exact] position: m == s.pos

//@ func (s *Scanner) Tail() (str)
//@ requires wf(s)
//@ ensures [exact] rest: same(str, s.full[s.pos:])

//@ func (s *Scanner) Head() (str)
//@ requires wf(s)
//@ ensures [exact] front: same(str, s.full[:s.pos])

// ------------------------------------------------------------------ strings

//@ func (s *Scanner) If(str) (ok)
//@ use scan fwdonly
//@ ensures [lit] iff-prefix: ok <==> hasPre(F,p0,str)
//@ ensures [lit] over-it: ok ==> s.pos == p0+len(str)

//@ func (s *Scanner) IfAny(strs) (ok)
//@ use scan fwdonly
//@ ensures [lit] iff-some-prefix: ok <==> preLen(strs,0,F,p0) >= 0
//@ ensures [lit] over-first: ok ==> s.pos == p0+preLen(strs,0,F,p0)
//@ inv [lit] preLen(strs,$i,F,p0) == preLen(strs,0,F,p0)

//@ func (s *Scanner) To(str) (ok)
//@ use scan fwdonly
//@ ensures [to] iff-occurs: ok <==> idx(F,p0,str) >= 0
//@ ensures [to] first: ok ==> s.pos == idx(F,p0,str)
//@ inv [to] idx(F,$p,str) == idx(F,p0,str)

//@ func (s *Scanner) IfFold(str) (ok)
//@ use scan fwdonly
//@ ensures [fold] iff-prefix: ok <==> hasPreFold(F,p0,str)
//@ ensures [fold] over-it: ok ==> s.pos == p0+len(str)

//@ func (s *Scanner) ToFold(str) (ok)
//@ use scan fwdonly
//@ ensures [to] iff-occurs: ok <==> idxFold(F,p0,str) >= 0
//@ ensures [to] first: ok ==> s.pos == idxFold(F,p0,str)
//@ inv [to] idxFold(F,$p,str) == idxFold(F,p0,str)

// ------------------------------------------------------------------ rune classes

//@ macro ifc
//@ use scan fwdonly
//@ ensures [cls] iff-next-in-class: ok <==> p0 < len(F) && inC(c, runeAt(F,p0))
//@ ensures [cls] over-the-rune: ok ==> s.pos == p0+widthAt(F,p0)

//@ macro toc
//@ use scan fwdonly
//@ ensures [tocls] iff-some-in-class: ok <==> firstIn(F,p0,c) >= 0
//@ ensures [tocls] first: ok ==> s.pos == firstIn(F,p0,c)
//@ inv [tocls] firstIn(F,$p,c) == firstIn(F,p0,c)

//@ macro whilec
//@ use scan fwdonly
//@ ensures [while] longest-run: s.pos == firstOut(F,p0,c)
//@ ensures [while] iff-moved: ok <==> s.pos > p0
//@ inv [while] firstOut(F,$p,c) == firstOut(F,p0,c)

//@ func (s *Scanner) IfRune(r) (ok)
//@ let c = ceq(r)
//@ use ifc

//@ func (s *Scanner) ToRune(r) (ok)
//@ let c = ceq(r)
//@ use toc

//@ func (s *Scanner) WhileRune(r) (ok)
//@ let c = ceq(r)
//@ use whilec

//@ func (s *Scanner) IfAnyRune(str) (ok)
//@ let c = cany(str)
//@ use ifc
//@ inv [cls] p0 < len(F) ==> (inAny(str,$i,runeAt(F,p0)) == inAny(str,0,runeAt(F,p0)))

//@ func (s *Scanner) ToAnyRune(str) (ok)
//@ let c = cany(str)
//@ use toc

// Known finding (C03): when every remaining rune is in the set the scanner stays and true is returned.
//@ func (s *Scanner) WhileAnyRune(str) (ok)
//@ let c = cany(str)
//@ let q = firstOut(F,p0,c)
//@ use scan
//@ ensures [dir] stays-on-false: !ok ==> s.pos == p0
//@ ensures [dir] not-backward: s.pos >= p0
//@ ensures [while] longest-run: q < len(F) ==> s.pos == q && (ok <==> s.pos > p0)
//@ ensures [while] at-end: p0 == len(F) ==> !ok && s.pos == p0
//@ ensures [while] all-match: p0 < len(F) && q == len(F) ==> ok && (s.pos == p0 || s.pos == q)
//@ inv s.pos == p0
//@ inv [while] firstOut(F,$p,c) == firstOut(F,p0,c)

//@ func (s *Scanner) IfBetween(min, max) (ok)
//@ let c = cbtw(min,max)
//@ use ifc

//@ func (s *Scanner) ToBetween(min, max) (ok)
//@ let c = cbtw(min,max)
//@ use toc

//@ func (s *Scanner) WhileBetween(min, max) (ok)
//@ let c = cbtw(min,max)
//@ use whilec

//@ func (s *Scanner) IfMatch(check) (ok)
//@ let c = cfn(check)
//@ use ifc

//@ func (s *Scanner) ToMatch(check) (ok)
//@ let c = cfn(check)
//@ use toc

//@ func (s *Scanner) WhileMatch(check) (ok)
//@ let c = cfn(check)
//@ use whilec

// ------------------------------------------------------------------ line and column

//@ func (s *Scanner) LineCol(tab) (line, col)
//@ requires wf(s)
//@ requires 0 <= tab && tab <= 32767
//@ let h = s.full
//@ let ls = lineStart(h,s.pos)
//@ let tabs = cnt(h,ls,s.pos,'\t')
//@ ensures [C23] line: line == 1+cnt(h,0,s.pos,'\n')
//@ ensures [C23] column: col == 1+(s.pos-ls-tabs)+tabs*tab

// ------------------------------------------------------------------ opaque callees

//@ iface (t Tracker) Update(m)
//@ modifies tworld, ghost lastUpd
//@ assumes [C16] ghost(lastUpd) == m

//@ iface (f ScopeFunc) call() (ok)
//@ assumes [C16] s.Tracker == nil ==> ghost(lastUpd) == old(ghost(lastUpd))
//@ assumes wf(s)
//@ assumes [C16] s.Tracker != nil ==> ghost(lastUpd) == s.pos || (s.pos == old(s.pos) && ghost(lastUpd) == old(ghost(lastUpd)))

//@ roots C01: (*Scanner).Move (*Scanner).ToMarker (*Scanner).ToEnd (*Scanner).ToStart (*Scanner).MoveRunes (*Scanner).ScanString
//@ | (*Scanner).AtEnd (*Scanner).AtStart (*Scanner).Mark (*Scanner).Tail (*Scanner).Head
//@ | (*Scanner).If (*Scanner).IfAny (*Scanner).To (*Scanner).IfFold (*Scanner).ToFold
//@ | (*Scanner).IfRune (*Scanner).ToRune (*Scanner).WhileRune (*Scanner).IfAnyRune (*Scanner).ToAnyRune (*Scanner).WhileAnyRune
//@ | (*Scanner).IfBetween (*Scanner).ToBetween (*Scanner).WhileBetween (*Scanner).IfMatch (*Scanner).ToMatch (*Scanner).WhileMatch
//@ | (*Scanner).LineCol
//@ roots C02: (*Scanner).If (*Scanner).IfAny (*Scanner).To (*Scanner).IfFold (*Scanner).ToFold
//@ roots C03: (*Scanner).IfRune (*Scanner).ToRune (*Scanner).WhileRune (*Scanner).IfAnyRune (*Scanner).ToAnyRune (*Scanner).WhileAnyRune
//@ | (*Scanner).IfBetween (*Scanner).ToBetween (*Scanner).WhileBetween (*Scanner).IfMatch (*Scanner).ToMatch (*Scanner).WhileMatch
//@ roots C23: (*Scanner).LineCol
//@ roots C05: (*Scanner).MoveRunes (*Scanner).ScanString
