//go:build verif

// Ghost clients of the lexical readers of the Lua grammar.
package grammar

import "github.com/aiq/tok"

func lemma_LuaNumeral(s *tok.Scanner) error { return LuaNumeral().Read(s) }
func lemma_LuaString(s *tok.Scanner) error { return LuaString().Read(s) }
func lemma_LuaComment(s *tok.Scanner) error { return LuaComment().Read(s) }
