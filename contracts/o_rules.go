//go:build verif

// Contracts of the checks on rules. Comment-only: read by gocv, never compiled.
package contracts

//@ group tags = C25 C26

// (the scanner it makes has no tracker; modifies tworld says nothing about baskets)
//@ func CheckRuleName(name) (err)
//@ modifies tworld, ghost lastUpd
//@ let letter = cor(cbtw('a','z'),cbtw('A','Z'))
//@ let other = cor(letter,cor(cbtw('0','9'),cany("+-._")))
//@ ensures [tags] exactly-the-names: err == nil <==> nameOk(name)
//@ inv [tags] $p <= len(name)
//@ inv [tags] firstOut(name,$p,other) == firstOut(name,widthAt(name,0),other)

// Grammar returns the same rules whenever it is called, and changes nothing
//@ iface (g Grammar) Grammar() (l)
//@ assumes [C25] same(l,gRules(g))

//@ func CheckRules(g) (err)
//@ modifies tworld, ghost lastUpd
//@ let L = gRules(g)
//@ ensures [C25] iff-all-complete: err == nil <==> rulesOk(L,0)
//@ inv [C25] rulesOk(L,$i) == rulesOk(L,0)
//@ inv [C25] 0 <= $i && $i <= len(L)

//@ func MustCheckRules(g) ()
//@ modifies tworld, ghost lastUpd
//@ panics [C25] iff-incomplete: !rulesOk(gRules(g),0)

// J is an arbitrary field of the struct g points to, P an arbitrary rule.
// (in C24 it is called with a grammar just created: it changes names only, which do not matter there)
//@ func SetRuleNames(g) (err)
//@ trusted C24 C27
//@ modifies tworld, ghost lastUpd, key tok.Rule.Name
//@ let N = nFields(g)
//@ let J = any(J)
//@ let P = anyRule()
//@ ensures [tags] refused-iff-invalid: err == nil <==> tagsOk(g,0)
//@ ensures [C26] named: err == nil && 0 <= J && J < N && namedField(g,J) ==> eqText(ruleField(g,J).Name,nameTag(g,J))
//@ ensures [C26] nothing-else: !namesFieldOf(g,P) ==> same(P.Name,old(P.Name))
//@ inv [tags] 0 <= $i && $i <= N
//@ inv [tags] tagsOk(g,$i) == tagsOk(g,0)
//@ inv [C26] 0 <= J && J < $i && namedField(g,J) ==> eqText(ruleField(g,J).Name,nameTag(g,J))
//@ inv [C26] !namesFieldOf(g,P) ==> same(P.Name,old(P.Name))

//@ func CollectRules(g) (l)
//@ let N = nFields(g)
//@ let J = any(J)
//@ ensures [C26] all-rules: len(l) == ruleCnt(g,N)
//@ ensures [C26] in-order: 0 <= J && J < N && isRuleField(g,J) ==> 0 <= ruleCnt(g,J) && ruleCnt(g,J) < len(l) && l[ruleCnt(g,J)] == ruleField(g,J)
//@ inv [C26] 0 <= $i && $i <= N
//@ inv [C26] len($l) == ruleCnt(g,$i)
//@ inv [C26] 0 <= J && J < $i && isRuleField(g,J) ==> 0 <= ruleCnt(g,J) && ruleCnt(g,J) < len($l) && $l[ruleCnt(g,J)] == ruleField(g,J)

//@ func MustSetRuleNames(g) ()
//@ modifies tworld, ghost lastUpd, key tok.Rule.Name
//@ panics [C25] iff-refused: !tagsOk(g,0)

//@ func BetweenAny(str) (r)
//@ inline C25 C26 C24 C27
//@ func Set(str, singles) (r)
//@ inline C25 C26 C24 C27

//@ roots C25: CheckRuleName CheckRules MustCheckRules MustSetRuleNames

//@ roots C26: SetRuleNames CollectRules
