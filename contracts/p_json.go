//go:build verif

// Contracts of the JSON grammar. Comment-only: read by gocv, never compiled.
//
// j...(F,p) is the reference grammar (RFC 8259): the position behind what is read at p, or -1.
// The contract of a rule is verified on the reader that JSON() stores in it; there, and in the
// other rules, reading with a rule is judged by the contract of that rule. The rules are mutually
// recursive: a rule uses rules of lower rank, or others only behind what it has read.
package contracts

//@ macro json
//@ requires wf(s)
//@ modifies s.pos, tworld, ghost lastUpd
//@ let F = s.full
//@ let p0 = old(s.pos)
//@ inv wf(s)
//@ inv [C24] s.pos >= p0

//@ macro j_ws
//@ inv [C24] jws(F,$p) == entry(jws(F,$p))

//@ macro j_dig
//@ inv [C24] firstOut(F,$p,cbtw('0','9')) == entry(firstOut(F,$p,cbtw('0','9')))

//@ macro j_chars
//@ inv [C24] jchars(F,$p) == entry(jchars(F,$p))

//@ macro j_elemT
//@ inv [C24] jelemT(F,$p) == entry(jelemT(F,$p))

//@ macro j_memT
//@ inv [C24] jmemT(F,$p) == entry(jmemT(F,$p))

// (what a failed choice reports is C21; here it only has to be an error)
//@ func getDeepest(errs) (err)
//@ inline C01 C07 C08 C09 C10 C11 C12 C16 C17 C19 C20 C21 C22 C25 C26
//@ ensures [C24 C27] is-error: err != nil

//@ func grammar.lemma_JSON(s) (err)
//@ unfolds jelem
//@ use json
//@ let q = jelem(F,p0)
//@ ensures [C24] iff-json: err == nil <==> q >= 0
//@ ensures [C24] exactly-behind-it: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_WS(s) (err)
//@ rule grammar.JSONReader.WS 10
//@ use json
//@ use j_ws
//@ let q = jws(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Null(s) (err)
//@ rule grammar.JSONReader.Null 10
//@ use json
//@ let q = jnull(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Bool(s) (err)
//@ rule grammar.JSONReader.Bool 10
//@ use json
//@ let q = jbool(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Sign(s) (err)
//@ rule grammar.JSONReader.Sign 10
//@ use json
//@ let q = jsign(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_OneNine(s) (err)
//@ rule grammar.JSONReader.OneNine 10
//@ use json
//@ let q = jnz(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Digit(s) (err)
//@ rule grammar.JSONReader.Digit 10
//@ use json
//@ let q = jdigit(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Digits(s) (err)
//@ rule grammar.JSONReader.Digits 20
//@ use json
//@ use j_dig
//@ let q = jdigits(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Exponent(s) (err)
//@ unfolds jexp
//@ rule grammar.JSONReader.Exponent 30
//@ use json
//@ use j_dig
//@ let q = jexp(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Fraction(s) (err)
//@ unfolds jfrac
//@ rule grammar.JSONReader.Fraction 30
//@ use json
//@ use j_dig
//@ let q = jfrac(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Integer(s) (err)
//@ unfolds jint
//@ rule grammar.JSONReader.Integer 30
//@ use json
//@ use j_dig
//@ let q = jint(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Number(s) (err)
//@ unfolds jnum jint jfrac jexp
//@ rule grammar.JSONReader.Number 40
//@ use json
//@ use j_dig
//@ let q = jnum(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Hex(s) (err)
//@ rule grammar.JSONReader.Hex 10
//@ use json
//@ let q = jhex(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Escape(s) (err)
//@ unfolds jesc
//@ rule grammar.JSONReader.Escape 20
//@ use json
//@ let q = jesc(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Character(s) (err)
//@ unfolds jchar jesc
//@ rule grammar.JSONReader.Character 30
//@ use json
//@ let q = jchar(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Characters(s) (err)
//@ unfolds jchars jchar
//@ rule grammar.JSONReader.Characters 40
//@ use json
//@ use j_chars
//@ let q = jchars(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_String(s) (err)
//@ unfolds jstr jchars
//@ rule grammar.JSONReader.String 50
//@ use json
//@ use j_chars
//@ let q = jstr(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Key(s) (err)
//@ unfolds jstr jchars
//@ rule grammar.JSONReader.Key 60
//@ use json
//@ use j_chars
//@ let q = jstr(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Element(s) (err)
//@ unfolds jelem jval:0
//@ rule grammar.JSONReader.Element 110
//@ use json
//@ use j_ws
//@ let q = jelem(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Elements(s) (err)
//@ unfolds jelems jval:1
//@ rule grammar.JSONReader.Elements 120
//@ use json
//@ use j_elemT
//@ let q = jelems(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Array(s) (err)
//@ unfolds jarr
//@ rule grammar.JSONReader.Array 90
//@ use json
//@ use j_elemT
//@ let q = jarr(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Member(s) (err)
//@ unfolds jmem
//@ rule grammar.JSONReader.Member 120
//@ use json
//@ use j_ws
//@ let q = jmem(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Members(s) (err)
//@ unfolds jmems jval:2
//@ rule grammar.JSONReader.Members 130
//@ use json
//@ use j_memT
//@ let q = jmems(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Object(s) (err)
//@ unfolds jobj
//@ rule grammar.JSONReader.Object 90
//@ use json
//@ use j_memT
//@ let q = jobj(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_JSON_Value(s) (err)
//@ unfolds jval:0
//@ rule grammar.JSONReader.Value 100
//@ use json
//@ use j_dig
//@ use j_chars
//@ use j_elemT
//@ use j_memT
//@ let q = jval(F,p0)
//@ ensures [C24] iff: err == nil <==> q >= 0
//@ ensures [C24] end: s.pos == ite(q >= 0,q,p0)

//@ roots C24: grammar.lemma_JSON grammar.lemma_JSON_Element grammar.lemma_JSON_Value
