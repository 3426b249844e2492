//go:build verif

// Contracts of the typed read functions. Comment-only: read by gocv, never compiled.
package contracts

//@ group num = C10
//@ group bool = C11
//@ group rd = C05

//@ macro rdonly
//@ ensures [dir] stays-on-error: err != nil ==> s.pos == p0
//@ inv [dir] s.pos == p0

//@ func (s *Scanner) ReadRune() (r, err)
//@ use scan rdonly
//@ ensures [dir] not-backward: s.pos >= p0
//@ let bad = p0 == len(F) || (runeAt(F,p0) == 65533 && widthAt(F,p0) == 1)
//@ ensures [rd] iff-valid-rune: err == nil <==> !bad
//@ ensures [rd] the-rune: err == nil ==> r == runeAt(F,p0) && s.pos == p0+widthAt(F,p0)

//@ func (s *Scanner) RevReadRune() (r, err)
//@ use scan rdonly
//@ ensures [dir] not-forward: s.pos <= p0
//@ let bad = p0 == 0 || (runeBefore(F,p0) == 65533 && widthBefore(F,p0) == 1)
//@ ensures [rd] iff-valid-rune: err == nil <==> !bad
//@ ensures [rd] the-rune: err == nil ==> r == runeBefore(F,p0) && s.pos == p0-widthBefore(F,p0)

//@ macro boolspec
//@ let all = eqText(format,"") || eqText(format,"*")
//@ let isT = ((all || eqText(format,"l")) && hasPre(F,p0,"true")) || ((all || eqText(format,"U")) && hasPre(F,p0,"TRUE")) || ((all || eqText(format,"Cc")) && hasPre(F,p0,"True"))
//@ let isF = ((all || eqText(format,"l")) && hasPre(F,p0,"false")) || ((all || eqText(format,"U")) && hasPre(F,p0,"FALSE")) || ((all || eqText(format,"Cc")) && hasPre(F,p0,"False"))

//@ func (s *Scanner) ReadBool(format) (b, err)
//@ use scan rdonly boolspec
//@ ensures [dir] not-backward: s.pos >= p0
//@ ensures [bool] iff-spelled: err == nil <==> isT || isF
//@ ensures [bool] true-value: err == nil && isT ==> b && s.pos == p0+4
//@ ensures [bool] false-value: err == nil && !isT ==> !b && s.pos == p0+5

//@ macro intspec
//@ let okArgs = (base == 8 || base == 10 || base == 16) && (bitSize == 8 || bitSize == 16 || bitSize == 32 || bitSize == 64)
//@ let sg = p0 < len(F) && runeAt(F,p0) == '-'
//@ let pl = p0 < len(F) && runeAt(F,p0) == '+'
//@ let q = p0+ite(sg || pl,1,0)
//@ let mn = -pow2(bitSize-1)
//@ let mx = pow2(bitSize-1)-1

//@ func (s *Scanner) ReadInt(base, bitSize) (v, err)
//@ use scan intspec
//@ cases base == 8; base == 10; base == 16; base != 8 && base != 10 && base != 16
//@ ensures [dir] stays-on-error: err != nil ==> s.pos == p0
//@ ensures [dir] not-backward: s.pos >= p0
//@ ensures [num] iff-some-digit-fits: err == nil <==> okArgs && numEnd(F,q,base,sg,mn,mx,0) > q
//@ ensures [num] longest-prefix: err == nil ==> s.pos == numEnd(F,q,base,sg,mn,mx,0)
//@ ensures [num] exact-value: err == nil ==> v == numVal(F,q,base,sg,mn,mx,0)
//@ inv [num] numEnd(F,$p,base,sg,mn,mx,$v) == numEnd(F,q,base,sg,mn,mx,0) && numVal(F,$p,base,sg,mn,mx,$v) == numVal(F,q,base,sg,mn,mx,0)
//@ inv [num] mn <= $v && $v <= mx
//@ inv [dir num] s.pos == q

//@ macro uintspec
//@ let okArgs = (base == 8 || base == 10 || base == 16) && (bitSize == 8 || bitSize == 16 || bitSize == 32 || bitSize == 64)
//@ let mx = pow2(bitSize)-1

//@ func (s *Scanner) ReadUint(base, bitSize) (v, err)
//@ use scan rdonly uintspec
//@ cases base == 8; base == 10; base == 16; base != 8 && base != 10 && base != 16
//@ ensures [dir] not-backward: s.pos >= p0
//@ ensures [num] iff-some-digit-fits: err == nil <==> okArgs && numEnd(F,p0,base,false,0,mx,0) > p0
//@ ensures [num] longest-prefix: err == nil ==> s.pos == numEnd(F,p0,base,false,0,mx,0)
//@ ensures [num] exact-value: err == nil ==> v == numVal(F,p0,base,false,0,mx,0)
//@ inv [num] numEnd(F,$p,base,false,0,mx,$v) == numEnd(F,p0,base,false,0,mx,0) && numVal(F,$p,base,false,0,mx,$v) == numVal(F,p0,base,false,0,mx,0)
//@ inv [num] 0 <= $v && $v <= mx

//@ roots C05: (*Scanner).ReadRune (*Scanner).RevReadRune
//@ roots C01: (*Scanner).ReadRune (*Scanner).RevReadRune (*Scanner).ReadBool (*Scanner).ReadInt (*Scanner).ReadUint
//@ roots C10: (*Scanner).ReadInt (*Scanner).ReadUint (*IntReader).Read (*UintReader).Read
//@ roots C11: (*Scanner).ReadBool (*BoolReader).Read

//@ func (r *IntReader) Read(s) (err)
//@ use intspec
//@ let base = old(r.Base)
//@ let bitSize = old(r.BitSize)
//@ ensures [num] iff-some-digit-fits: err == nil <==> okArgs && numEnd(F,q,base,sg,mn,mx,0) > q
//@ ensures [num] longest-prefix: err == nil ==> s.pos == numEnd(F,q,base,sg,mn,mx,0)
//@ ensures [num] exact-value: err == nil ==> r.Value == numVal(F,q,base,sg,mn,mx,0)

//@ func (r *UintReader) Read(s) (err)
//@ use uintspec
//@ let base = old(r.Base)
//@ let bitSize = old(r.BitSize)
//@ ensures [num] iff-some-digit-fits: err == nil <==> okArgs && numEnd(F,p0,base,false,0,mx,0) > p0
//@ ensures [num] longest-prefix: err == nil ==> s.pos == numEnd(F,p0,base,false,0,mx,0)
//@ ensures [num] exact-value: err == nil ==> r.Value == numVal(F,p0,base,false,0,mx,0)

//@ func (r *BoolReader) Read(s) (err)
//@ use boolspec
//@ let format = old(r.Format)
//@ ensures [bool] iff-spelled: err == nil <==> isT || isF
//@ ensures [bool] true-value: err == nil && isT ==> r.Value && s.pos == p0+4
//@ ensures [bool] false-value: err == nil && !isT ==> !r.Value && s.pos == p0+5

//@ func Int(base, bitSize) (r)
//@ ensures [num] faithful: r != nil && r.Base == base && r.BitSize == bitSize

//@ func Uint(base, bitSize) (r)
//@ ensures [num] faithful: r != nil && r.Base == base && r.BitSize == bitSize

//@ func Bool(format) (r)
//@ ensures [bool] faithful: r != nil && same(r.Format,format)

//@ roots C10: Int Uint
//@ roots C11: Bool
