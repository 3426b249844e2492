//go:build verif

// Contracts of Pick and Map. Comment-only: read by gocv, never compiled.
// The state "call" is the one right after the wrapped reader returned.
package contracts

//@ macro likeSub
//@ requires wf(s)
//@ modifies s.pos, world, ghost lastUpd, s.Tracker
//@ let F = s.full
//@ let p0 = old(s.pos)
//@ ensures [C17] result: same(err, ghost(ferr)) && ghost(fcalls) == old(ghost(fcalls))+1
//@ ensures [C17] position: s.pos == ite(err == nil,at(call,s.pos),p0)

//@ macro picks
//@ use likeSub
//@ let n = at(call,len(b.segments))
//@ let J = any(J)
//@ ensures [C17] adds-one: err == nil ==> len(b.segments) == n+1
//@ ensures [C17] exact-segment: err == nil ==> eqText(b.segments[n].Info,info) && b.segments[n].from == p0 && b.segments[n].to == s.pos
//@ ensures [C17] others-kept: err == nil && 0 <= J && J < n ==> same(b.segments[J].Info,at(call,b.segments[J].Info)) && b.segments[J].from == at(call,b.segments[J].from) && b.segments[J].to == at(call,b.segments[J].to)

//@ macro onB
//@ modifies b.segments, elems b.segments

//@ macro pickFree
//@ use picks
//@ ensures [C17] nothing-on-error: err != nil ==> len(b.segments) == n && (0 <= J && J < n ==> same(b.segments[J].Info,at(call,b.segments[J].Info)) && b.segments[J].from == at(call,b.segments[J].from) && b.segments[J].to == at(call,b.segments[J].to))

//@ macro pickTracked
//@ use picks
//@ let k = at(call,keepN(b.segments,len(b.segments),p0))
//@ ensures [C17] nothing-on-error: err != nil ==> len(b.segments) == k && (0 <= J && J < k ==> same(b.segments[J].Info,at(call,b.segments[J].Info)) && b.segments[J].from == at(call,b.segments[J].from) && b.segments[J].to == at(call,b.segments[J].to))

//@ func lemma_PickFree(r, b, info, s) (err)
//@ use onB
//@ use pickFree
//@ func lemma_PickTracked(r, b, info, s) (err)
//@ use onB
//@ use pickTracked
//@ func lemma_RulePickFree(info, r, b, s) (err)
//@ use onB
//@ use pickFree
//@ func lemma_RulePickTracked(info, r, b, s) (err)
//@ use onB
//@ use pickTracked
//@ func lemma_PickWith(info, r, b, s) (err)
//@ use onB
//@ use pickFree

// Lists of rules of any length: x is one of them, at K, and only there.
//@ macro oneRule
//@ dispatch *pickReader
//@ let K = any(K)
//@ requires x != nil && 0 <= K && K < len(rules) && rules[K] == x && onceAt(rules,0,x,K)
//@ inv [C17 C19] onceAt(rules,$i,x,K)
//@ inv [C17 C19] 0 <= $i && $i <= len(rules)
//@ inv [C17 C19] $i <= K ==> same(x.Reader,old(x.Reader))

//@ macro picking
//@ modifies key tok.Rule.Reader
//@ inv [C17] K < $i ==> isType(x.Reader,*pickReader)
//@ inv [C17] K < $i ==> blk(unbox(x.Reader,*pickReader)) <= alloc()
//@ inv [C17] K < $i ==> same(unbox(x.Reader,*pickReader).sub,old(x.Reader)) && same(unbox(x.Reader,*pickReader).info,old(x.Name))
//@ inv [C17] K < $i ==> refIs(unbox(x.Reader,*pickReader).basket,$q)

//@ func lemma_PickWithList(rules, b, x, s) (err)
//@ use onB
//@ use oneRule
//@ use picking
//@ let info = old(x.Name)
//@ use pickFree

//@ func lemma_NewBasketFor(r, rules, x, s) (b, err)
//@ use oneRule
//@ use picking
//@ let info = old(x.Name)
//@ use pickTracked

//@ macro newBasket
//@ requires wf(s)
//@ modifies s.Tracker, world, ghost lastUpd
//@ ensures [C17] empty-and-coupled: n == 0 && isType(s.Tracker,*Basket) && unbox(s.Tracker,*Basket) == b && s.pos == old(s.pos)
//@ func lemma_NewBasketForEmpty(r, rules, x, s) (b, n)
//@ use oneRule
//@ use picking
//@ use newBasket

//@ macro maps
//@ modifies ghost mapN, ghost mapFrom, ghost mapTo, ghost mapF
//@ ensures [C17] result: same(err, ghost(ferr)) && ghost(fcalls) == old(ghost(fcalls))+1
//@ ensures [C17] position: s.pos == ite(err == nil,at(call,s.pos),p0)
//@ ensures [C17] called-once: err == nil ==> ghost(mapN) == at(call,ghost(mapN))+1
//@ ensures [C17] exact-token: err == nil ==> ghost(mapFrom) == p0 && ghost(mapTo) == s.pos && same(ghost(mapF),f)
//@ ensures [C17] not-on-error: err != nil ==> ghost(mapN) == at(call,ghost(mapN))

//@ func lemma_Map(r, f, s) (err)
//@ use maps
//@ func lemma_RuleMap(n, r, f, s) (err)
//@ use maps

//@ roots C17: lemma_PickFree lemma_PickTracked lemma_RulePickFree lemma_RulePickTracked lemma_PickWith lemma_PickWithList lemma_NewBasketFor lemma_NewBasketForEmpty lemma_Map lemma_RuleMap
