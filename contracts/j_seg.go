//go:build verif

// Contracts of Segmentate. Comment-only: read by gocv, never compiled.
// K is the number of segments that lie inside what is left when their turn comes; the J-th of them is the
// element J+gapCnt(J+1) of the result, after a piece for the gap before it if that is not empty.
package contracts

//@ macro segmentate
//@ requires 0 <= lo && lo <= hi
//@ let K = segBad(segments,0,lo,hi)
//@ let J = any(J)
//@ let I = any(I)
//@ let at = J+gapCnt(segments,J+1,lo)
//@ let prev = ite(J == 0,lo,segments[J-1].to)
//@ let end = ite(K == 0,lo,segments[K-1].to)
//@ let gap = segments[J].from > prev
//@ ensures [seg] error-iff: err == nil <==> K == len(segments)
//@ ensures [seg] length: len(res) == K+gapCnt(segments,K,lo)+ite(err == nil && end < hi,1,0)
//@ ensures [seg] given: 0 <= J && J < K ==> 0 <= at && at < len(res) && same(res[at].Info,segments[J].Info) && res[at].from == segments[J].from && res[at].to == segments[J].to
//@ ensures [seg] gap: 0 <= J && J < K && gap ==> 0 <= at-1 && eqText(res[at-1].Info,info) && res[at-1].from == prev && res[at-1].to == segments[J].from
//@ ensures [seg] last: err == nil && end < hi ==> len(res) > 0 && eqText(res[len(res)-1].Info,info) && res[len(res)-1].from == end && res[len(res)-1].to == hi
//@ ensures [seg] touching: 0 <= I && I+1 < len(res) ==> res[I].to == res[I+1].from
//@ ensures [seg] covers: len(res) > 0 ==> res[0].from == lo && (err == nil ==> res[len(res)-1].to == hi)
//@ ensures [seg] covers-empty: len(res) == 0 && err == nil ==> lo == hi
//@ inv [seg] segBad(segments,$i,$v,hi) == K
//@ inv [seg] 0 <= $i && $i <= len(segments)
//@ inv [seg] $v == ite($i == 0,lo,segments[$i-1].to)
//@ inv [seg] lo <= $v && $v <= hi
//@ inv [seg] len($l) == $i+gapCnt(segments,$i,lo)
//@ inv [seg] 0 <= J && J < $i ==> 0 <= at && at < len($l) && same($l[at].Info,segments[J].Info) && $l[at].from == segments[J].from && $l[at].to == segments[J].to
//@ inv [seg] 0 <= J && J < $i && gap ==> 0 <= at-1 && eqText($l[at-1].Info,info) && $l[at-1].from == prev && $l[at-1].to == segments[J].from
//@ inv [seg] 0 <= I && I+1 < len($l) ==> $l[I].to == $l[I+1].from
//@ inv [seg] len($l) > 0 ==> $l[0].from == lo && $l[len($l)-1].to == $v
//@ inv [seg] len($l) == 0 ==> $v == lo

//@ func (s Segment) Segmentate(segments) (res, err)
//@ let lo = s.from
//@ let hi = s.to
//@ let info = s.Info
//@ use segmentate

//@ func (s *Scanner) Segmentate(segments) (res, err)
//@ requires wf(s)
//@ let lo = 0
//@ let hi = len(s.full)
//@ let info = ""
//@ use segmentate

//@ roots C14: (Segment).Segmentate (*Scanner).Segmentate MakeToken

// Sorting: two segments a and b of the slice do not clash. For SortSegmentsByOrder the infos listed are
// distinct: A and B are the positions of the infos of a and b (-1: not listed), the only ones they occur at.

//@ macro sorting
//@ sorts values
//@ modifies elems values
//@ sorthyp 0 <= a.from && a.from <= a.to && 0 <= b.from && b.from <= b.to
//@ sorthyp a.to <= b.from || b.to <= a.from || (a.from <= b.from && b.to <= a.to) || (b.from <= a.from && a.to <= b.to)

//@ func SortSegments(values) ()
//@ use sorting
//@ sortless a.from < b.from || (a.from == b.from && a.to > b.to)

//@ func SortSegmentsByOrder(values, order) ()
//@ use sorting
//@ let A = any(A)
//@ let B = any(B)
//@ sorthyp -1 <= A && A < len(order) && -1 <= B && B < len(order)
//@ sorthyp (A >= 0 ==> eqText(order[A],a.Info)) && (B >= 0 ==> eqText(order[B],b.Info))
//@ sorthyp onlyAt(order,0,a.Info,A) && onlyAt(order,0,b.Info,B)
//@ sorthyp eqText(a.Info,b.Info) ==> A == B
//@ inv [C15] onlyAt(order,$i,a.Info,A)
//@ inv [C15] onlyAt(order,$i,b.Info,B)
//@ inv [C15] $v == ite(0 <= A && A < $i,A,-1)
//@ inv [C15] $v == ite(0 <= B && B < $i,B,-1)
//@ inv [C15] $v == ite(0 <= B && B < $i && A != B,B,-1)
//@ inv [C15] $v == ite(0 <= A && A < $i && A != B,A,-1)
//@ inv [C15] 0 <= $i && $i <= len(order)
//@ inv [C15] $i <= A || A == -1
//@ inv [C15] $i <= B || B == -1
//@ sortless a.from < b.from || (a.from == b.from && (a.to > b.to || (a.to == b.to && A < B)))

//@ roots C15: SortSegments SortSegmentsByOrder
