//go:build verif

// Contracts of trackers and baskets. Comment-only: read by gocv, never compiled.
package contracts

//@ group bask = C16 C17

//@ func (b *Basket) Update(m) ()
//@ modifies b.segments
//@ let n0 = old(len(b.segments))
//@ let k = old(keepN(b.segments,len(b.segments),m))
//@ let J = any(J)
//@ ensures [bask] drops-trailing-run: len(b.segments) == k
//@ ensures [bask] keeps-the-others: 0 <= J && J < k ==> same(b.segments[J].Info,old(b.segments[J].Info)) && b.segments[J].from == old(b.segments[J].from) && b.segments[J].to == old(b.segments[J].to)
//@ inv [bask] old(keepN(b.segments,$i,m)) == old(keepN(b.segments,len(b.segments),m))

//@ func (b *Basket) Add(seg) ()
//@ inline
//@ modifies b.segments, elems b.segments
//@ let n0 = old(len(b.segments))
//@ let J = any(J)
//@ ensures [bask] appends-one: len(b.segments) == n0+1
//@ ensures [bask] appends-it: same(b.segments[n0].Info,seg.Info) && b.segments[n0].from == seg.from && b.segments[n0].to == seg.to
//@ ensures [bask] keeps-the-others: 0 <= J && J < n0 ==> same(b.segments[J].Info,old(b.segments[J].Info)) && b.segments[J].from == old(b.segments[J].from) && b.segments[J].to == old(b.segments[J].to)

//@ func (b *Basket) Picked() (l)
//@ let J = any(J)
//@ ensures [bask] all-of-them: len(l) == len(b.segments)
//@ ensures [bask] in-order: 0 <= J && J < len(b.segments) ==> same(l[J].Info,b.segments[J].Info) && l[J].from == b.segments[J].from && l[J].to == b.segments[J].to

//@ func (s *Scanner) NewBasket() (b)
//@ modifies s.Tracker
//@ ensures [C16] empty: b != nil && len(b.segments) == 0
//@ ensures [C16] attached: isType(s.Tracker,*Basket) && unbox(s.Tracker,*Basket) == b

//@ roots C16: @C01 @readers (*Basket).Update (*Basket).Add (*Basket).Picked (*Scanner).NewBasket
