//go:build verif

// Contracts of Janus. Comment-only: read by gocv, never compiled.
// The reader given to Janus does not use the pair it is part of.
package contracts

//@ macro janus
//@ keepfresh
//@ modifies allpos, world, ghost lastUpd

//@ func lemma_JanusNoBegin(n, r, t) (e)
//@ use janus
//@ requires wf(t)
//@ ensures [C20] expects-empty: e == nil && t.pos == old(t.pos)

//@ func lemma_JanusTwice(n, r, t, u) (e1, e2)
//@ use janus
//@ requires wf(t) && wf(u) && t != u
//@ ensures [C20] expects-empty: e1 == nil && t.pos == old(t.pos)
//@ ensures [C20] still-empty: e2 == nil && u.pos == old(u.pos)

//@ func lemma_JanusBegin(n, r, s) (e)
//@ use janus
//@ requires wf(s)
//@ ensures [C20] reads-like-reader: same(e,ghost(ferr)) && ghost(fcalls) == old(ghost(fcalls))+1 && s.pos == ite(e == nil,at(call,s.pos),old(s.pos))

//@ func lemma_JanusEnd(n, r, s, t) (e1, e2)
//@ use janus
//@ requires wf(s) && wf(t) && s != t
//@ let E = s.full[old(s.pos):s.pos]
//@ let q = old(t.pos)
//@ ensures [C20] accepts-exactly-it: e1 == nil ==> (e2 == nil <==> hasPre(t.full,q,E)) && t.pos == ite(e2 == nil,q+len(E),q)
//@ ensures [C20] failed-begin: e1 != nil ==> e2 == nil && t.pos == q

//@ func lemma_JanusSame(n, r, s) (e1, m, e2)
//@ use janus
//@ requires wf(s)
//@ let E = s.full[old(s.pos):m]
//@ ensures [C20] accepts-exactly-it: e1 == nil ==> (e2 == nil <==> hasPre(s.full,m,E)) && s.pos == ite(e2 == nil,m+len(E),m)
//@ ensures [C20] failed-begin: e1 != nil ==> e2 == nil && s.pos == m

//@ func lemma_JanusEndEnd(n, r, s, t, u) (e1, e2, e3)
//@ use janus
//@ requires wf(s) && wf(t) && wf(u) && s != t && s != u && t != u
//@ let E = s.full[old(s.pos):s.pos]
//@ let q = old(u.pos)
//@ ensures [C20] failed-end-keeps: e1 == nil && e2 != nil ==> (e3 == nil <==> hasPre(u.full,q,E)) && u.pos == ite(e3 == nil,q+len(E),q)
//@ ensures [C20] accepted-end-forgets: e1 == nil && e2 == nil ==> e3 == nil && u.pos == q

//@ func lemma_JanusBeginBegin(n, r, s, t, u) (e1, e2, e3)
//@ use janus
//@ requires wf(s) && wf(t) && wf(u) && s != t && s != u && t != u
//@ let E = s.full[old(s.pos):s.pos]
//@ let G = t.full[old(t.pos):t.pos]
//@ let q = old(u.pos)
//@ ensures [C20] failed-begin-keeps: e1 == nil && e2 != nil ==> (e3 == nil <==> hasPre(u.full,q,E)) && u.pos == ite(e3 == nil,q+len(E),q)
//@ ensures [C20] last-begin-counts: e2 == nil ==> (e3 == nil <==> hasPre(u.full,q,G)) && u.pos == ite(e3 == nil,q+len(G),q)

// The same for every state of the pair: any history of begins and ends.

//@ func (r *janusBeginReader) Read(s) (err)
//@ inline
//@ ensures [C20] expects-what-was-read: err == nil ==> eqText(r.end.reader.str,F[p0:s.pos])
//@ ensures [C20] kept-on-error: err != nil ==> same(r.end.reader.str,at(call,r.end.reader.str))

//@ func (r *janusEndReader) Read(s) (err)
//@ inline
//@ let X = old(r.reader.str)
//@ ensures [C20] accepts-exactly-it: (err == nil <==> hasPre(F,p0,X)) && s.pos == ite(err == nil,p0+len(X),p0)
//@ ensures [C20] forgets: err == nil ==> len(r.reader.str) == 0
//@ ensures [C20] kept-on-error: err != nil ==> same(r.reader.str,X)

//@ roots C20: lemma_JanusNoBegin lemma_JanusTwice lemma_JanusBegin lemma_JanusEnd lemma_JanusSame lemma_JanusEndEnd lemma_JanusBeginBegin
//@ | (*janusBeginReader).Read (*janusEndReader).Read
