//go:build verif

// Contracts of tokens and scoped use. Comment-only: read by gocv, never compiled.
package contracts

//@ func MakeToken(a, b) (t)
//@ ensures ordered: t.from == ite(a <= b,a,b) && t.to == ite(a <= b,b,a)

//@ group seg = C14

//@ macro tok2
//@ requires 0 <= t.from && t.from <= t.to
//@ requires 0 <= oth.from && oth.from <= oth.to

//@ func (t Token) After(oth) (ok)
//@ use tok2
//@ ensures [C13 C15 C18] starts-at-or-after-end: ok <==> t.from >= oth.to

//@ func (t Token) Before(oth) (ok)
//@ use tok2
//@ ensures [C13 C15 C18] ends-at-or-before-start: ok <==> t.to <= oth.from

//@ func (t Token) Covers(oth) (ok)
//@ use tok2
//@ ensures [C13 C15 C18 seg] contains: ok <==> t.from <= oth.from && oth.to <= t.to

//@ func (t Token) Clashes(oth) (ok)
//@ use tok2
//@ let disjoint = t.to <= oth.from || oth.to <= t.from
//@ let contains = (t.from <= oth.from && oth.to <= t.to) || (oth.from <= t.from && t.to <= oth.to)
//@ ensures [C13 C18] overlaps-without-containing: ok <==> !disjoint && !contains

//@ func (t Token) Len() (n)
//@ requires 0 <= t.from && t.from <= t.to
//@ ensures [C13 seg] length: n == t.to-t.from

//@ func (t Token) Merge(oth) (m)
//@ use tok2
//@ ensures [C13 C18] smallest-cover: m.from == ite(t.from <= oth.from,t.from,oth.from) && m.to == ite(t.to >= oth.to,t.to,oth.to)

//@ func (t Token) Split(sep) (l, r)
//@ requires 0 <= t.from && t.from <= t.to
//@ requires t.from <= sep.from && sep.from <= sep.to && sep.to <= t.to
//@ ensures [C13 seg] before-part: l.from == t.from && l.to == sep.from
//@ ensures [C13 seg] after-part: r.from == sep.to && r.to == t.to

//@ roots C13: MakeToken (Token).After (Token).Before (Token).Covers (Token).Clashes (Token).Len (Token).Merge (Token).Split (Segment).Split

//@ func (s *Scanner) Get(t) (str)
//@ requires wf(s)
//@ requires 0 <= t.from && t.from <= t.to && t.to <= len(s.full)
//@ ensures [C06 C08 C12 C17 C20 C24 C27 C25 C26] range: same(str, s.full[t.from:t.to])

//@ func (s *Scanner) Since(m) (str)
//@ requires wf(s)
//@ requires 0 <= m && m <= len(s.full)
//@ ensures [C06] range: same(str, s.full[ite(m <= s.pos,m,s.pos):ite(m <= s.pos,s.pos,m)])

// The function or reader passed in may move the scanner anywhere within its text.

//@ macro scope
//@ requires wf(s)
//@ modifies allpos, world, ghost lastUpd
//@ let F = s.full
//@ let p0 = old(s.pos)
//@ let p1 = at(call,s.pos)
//@ ensures [C16] last-update: s.Tracker != nil ==> ghost(lastUpd) == s.pos || (s.pos == p0 && ghost(lastUpd) == old(ghost(lastUpd)))
//@ ensures [C16] no-tracker: s.Tracker == nil ==> ghost(lastUpd) == old(ghost(lastUpd))
//@ ensures wf: wf(s)

//@ func (s *Scanner) Scope(f) (ok)
//@ use scope
//@ ensures [C06] called-once: ghost(fcalls) == old(ghost(fcalls))+1 && reached(call)
//@ ensures [C06] result: ok <==> ghost(fres)
//@ ensures [C06] restored: !ok ==> s.pos == p0
//@ ensures [C06] kept: ok ==> s.pos == p1

// fpos: the position the last call left the scanner at; ffalse: how many calls returned false
//@ func (s *Scanner) While(f) (ok)
//@ requires wf(s)
//@ modifies allpos, world, ghost lastUpd
//@ let p0 = old(s.pos)
//@ inv wf(s)
//@ inv [C16] s.Tracker != nil ==> ghost(lastUpd) == s.pos || (s.pos == p0 && ghost(lastUpd) == old(ghost(lastUpd)))
//@ inv [C16] s.Tracker == nil ==> ghost(lastUpd) == old(ghost(lastUpd))
//@ inv [C06] ghost(ffalse) == old(ghost(ffalse))
//@ inv [C06] ghost(ffalse) == old(ghost(ffalse))+ite($b,0,1)
//@ inv [C06] ghost(ffalse) == old(ghost(ffalse))+ite($b,1,0)
//@ inv [C06] $b == ghost(fres)
//@ inv [C06] s.pos == ghost(fpos)
//@ ensures [C16] last-update: s.Tracker != nil ==> ghost(lastUpd) == s.pos || (s.pos == p0 && ghost(lastUpd) == old(ghost(lastUpd)))
//@ ensures [C16] no-tracker: s.Tracker == nil ==> ghost(lastUpd) == old(ghost(lastUpd))
//@ ensures [C06] until-first-false: ghost(ffalse) == old(ghost(ffalse))+1 && !ghost(fres)
//@ ensures [C06] position: s.pos == ghost(fpos)
//@ ensures [C06] whether-moved: ok <==> p0 < s.pos
//@ ensures wf: wf(s)

//@ func (s *Scanner) Trace(f) (str, ok)
//@ use scope
//@ ensures [C06] called-once: ghost(fcalls) == old(ghost(fcalls))+1 && reached(call)
//@ ensures [C06] result: ok <==> ghost(fres)
//@ ensures [C06] restored: !ok ==> s.pos == p0
//@ ensures [C06] kept: ok ==> s.pos == p1
//@ ensures [C06] text: ok ==> same(str, F[ite(p0 <= p1,p0,p1):ite(p0 <= p1,p1,p0)])

//@ func (s *Scanner) Tokenize(f) (t, ok)
//@ inline
//@ use scope
//@ ensures [C06] called-once: ghost(fcalls) == old(ghost(fcalls))+1 && reached(call)
//@ ensures [C06] result: ok <==> ghost(fres)
//@ ensures [C06] restored: !ok ==> s.pos == p0
//@ ensures [C06] kept: ok ==> s.pos == p1
//@ ensures [C06] token: ok ==> t.from == ite(p0 <= p1,p0,p1) && t.to == ite(p0 <= p1,p1,p0)

//@ func (s *Scanner) Capture(f) (str, ok)
//@ use scope
//@ ensures [C06] called-once: ghost(fcalls) == old(ghost(fcalls))+1 && reached(call)
//@ ensures [C06] result: ok <==> ghost(fres)
//@ ensures [C06] restored: !ok ==> s.pos == p0
//@ ensures [C06] kept: ok ==> s.pos == p1
//@ ensures [C06] text: ok ==> same(str, F[ite(p0 <= p1,p0,p1):ite(p0 <= p1,p1,p0)])


//@ macro scopeR
//@ use scope
//@ ensures [C06] called-once: ghost(fcalls) == old(ghost(fcalls))+1 && reached(call)
//@ ensures [C06] result: same(err, ghost(ferr))
//@ ensures [C06] restored: err != nil ==> s.pos == p0
//@ ensures [C06] kept: err == nil ==> s.pos == p1

//@ func (s *Scanner) Use(r) (err)
//@ inline
//@ use scopeR

//@ func (s *Scanner) UseFunc(f) (err)
//@ inline
//@ use scopeR

//@ func (s *Scanner) TraceUse(r) (str, err)
//@ inline
//@ use scopeR
//@ ensures [C06] text: err == nil ==> same(str, F[ite(p0 <= p1,p0,p1):ite(p0 <= p1,p1,p0)])

//@ func (s *Scanner) TraceUseFunc(f) (str, err)
//@ inline
//@ use scopeR
//@ ensures [C06] text: err == nil ==> same(str, F[ite(p0 <= p1,p0,p1):ite(p0 <= p1,p1,p0)])

//@ func (s *Scanner) TokenizeUse(r) (t, err)
//@ inline
//@ use scopeR
//@ ensures [C06] token: err == nil ==> t.from == ite(p0 <= p1,p0,p1) && t.to == ite(p0 <= p1,p1,p0)

//@ func (s *Scanner) CaptureUse(r) (str, err)
//@ inline
//@ use scopeR
//@ ensures [C06] text: err == nil ==> same(str, F[ite(p0 <= p1,p0,p1):ite(p0 <= p1,p1,p0)])

//@ roots C06: (*Scanner).Get (*Scanner).Since (*Scanner).Scope (*Scanner).While (*Scanner).Trace (*Scanner).Tokenize (*Scanner).Capture
//@ | (*Scanner).Use (*Scanner).UseFunc (*Scanner).TraceUse (*Scanner).TraceUseFunc (*Scanner).TokenizeUse (*Scanner).CaptureUse
//@ roots C01: (*Scanner).Get (*Scanner).Since (*Scanner).Scope (*Scanner).While (*Scanner).Trace (*Scanner).Tokenize (*Scanner).Capture
//@ | (*Scanner).Use (*Scanner).UseFunc (*Scanner).TraceUse (*Scanner).TraceUseFunc (*Scanner).TokenizeUse (*Scanner).CaptureUse

//@ func (v Segment) Split(sep) (l, r)
//@ requires 0 <= v.from && v.from <= v.to
//@ requires v.from <= sep.from && sep.from <= sep.to && sep.to <= v.to
//@ ensures [C13 seg] before-part: l.from == v.from && l.to == sep.from && same(l.Info,v.Info)
//@ ensures [C13 seg] after-part: r.from == sep.to && r.to == v.to && same(r.Info,v.Info)
