//go:build verif

// Contracts of the lexical readers of the Lua grammar. Comment-only: read by gocv, never compiled.
// l...(F,p) is the reference: the position behind what is read at p, or -1.
package contracts

//@ macro lua
//@ requires wf(s)
//@ modifies s.pos, tworld, ghost lastUpd
//@ let F = s.full
//@ let p0 = old(s.pos)
//@ inv wf(s)
//@ inv [C27] s.pos >= p0

//@ macro l_digs
//@ inv [C27] firstOut(F,s.pos,cbtw('0','9')) == entry(firstOut(F,s.pos,cbtw('0','9')))
//@ inv [C27] lhexes(F,s.pos) == entry(lhexes(F,s.pos))

//@ func grammar.lemma_LuaNumeral(s) (err)
//@ use lua
//@ use l_digs
//@ let q = lnum(F,p0)
//@ ensures [C27] iff-numeral: err == nil <==> q >= 0
//@ ensures [C27] exactly-behind-it: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_LuaString(s) (err)
//@ use lua
//@ use l_digs
//@ let q = lstr(F,p0)
//@ let k = leqs(F,p0+1)
//@ reads [C27] lhexm(F,s.pos)
//@ reads [C27] lesc(F,s.pos)
//@ reads [C27] lquot(F,s.pos,'"')
//@ reads [C27] lquot(F,s.pos,'\'')
//@ reads [C27] llong(F,s.pos)
//@ reads [C27] lbrack(F,s.pos)
//@ inv [C27] lchars(F,s.pos,'"') == entry(lchars(F,s.pos,'"'))
//@ inv [C27] lchars(F,s.pos,'\'') == entry(lchars(F,s.pos,'\''))
//@ inv [C27] leqs(F,s.pos) == entry(leqs(F,s.pos))
//@ inv [C27] lclose(F,s.pos,p0+1,k-p0-1) == entry(lclose(F,s.pos,p0+1,k-p0-1))
//@ ensures [C27] iff-string: err == nil <==> q >= 0
//@ ensures [C27] exactly-behind-it: s.pos == ite(q >= 0,q,p0)

//@ func grammar.lemma_LuaComment(s) (err)
//@ use lua
//@ let q = lcmt(F,p0)
//@ let k = leqs(F,p0+3)
//@ inv [C27] leqs(F,s.pos) == entry(leqs(F,s.pos))
//@ inv [C27] lclose(F,s.pos,p0+3,k-p0-3) == entry(lclose(F,s.pos,p0+3,k-p0-3))
//@ inv [C27] firstIn(F,s.pos,ceq('\n')) == entry(firstIn(F,s.pos,ceq('\n')))
//@ ensures [C27] iff-comment: err == nil <==> q >= 0
//@ ensures [C27] exactly-behind-it: s.pos == ite(q >= 0,q,p0)

//@ roots C27: grammar.lemma_LuaNumeral grammar.lemma_LuaString grammar.lemma_LuaComment
