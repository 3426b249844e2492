//go:build verif

// Ghost clients of the JSON grammar: one for every rule.
package grammar

import "github.com/aiq/tok"

func lemma_JSON(s *tok.Scanner) error { return JSON().Read(s) }
func lemma_JSON_WS(s *tok.Scanner) error { g := JSON(); return g.WS.Read(s) }
func lemma_JSON_Null(s *tok.Scanner) error { g := JSON(); return g.Null.Read(s) }
func lemma_JSON_Bool(s *tok.Scanner) error { g := JSON(); return g.Bool.Read(s) }
func lemma_JSON_Sign(s *tok.Scanner) error { g := JSON(); return g.Sign.Read(s) }
func lemma_JSON_OneNine(s *tok.Scanner) error { g := JSON(); return g.OneNine.Read(s) }
func lemma_JSON_Digit(s *tok.Scanner) error { g := JSON(); return g.Digit.Read(s) }
func lemma_JSON_Digits(s *tok.Scanner) error { g := JSON(); return g.Digits.Read(s) }
func lemma_JSON_Exponent(s *tok.Scanner) error { g := JSON(); return g.Exponent.Read(s) }
func lemma_JSON_Fraction(s *tok.Scanner) error { g := JSON(); return g.Fraction.Read(s) }
func lemma_JSON_Integer(s *tok.Scanner) error { g := JSON(); return g.Integer.Read(s) }
func lemma_JSON_Number(s *tok.Scanner) error { g := JSON(); return g.Number.Read(s) }
func lemma_JSON_Hex(s *tok.Scanner) error { g := JSON(); return g.Hex.Read(s) }
func lemma_JSON_Escape(s *tok.Scanner) error { g := JSON(); return g.Escape.Read(s) }
func lemma_JSON_Character(s *tok.Scanner) error { g := JSON(); return g.Character.Read(s) }
func lemma_JSON_Characters(s *tok.Scanner) error { g := JSON(); return g.Characters.Read(s) }
func lemma_JSON_String(s *tok.Scanner) error { g := JSON(); return g.String.Read(s) }
func lemma_JSON_Key(s *tok.Scanner) error { g := JSON(); return g.Key.Read(s) }
func lemma_JSON_Element(s *tok.Scanner) error { g := JSON(); return g.Element.Read(s) }
func lemma_JSON_Elements(s *tok.Scanner) error { g := JSON(); return g.Elements.Read(s) }
func lemma_JSON_Array(s *tok.Scanner) error { g := JSON(); return g.Array.Read(s) }
func lemma_JSON_Member(s *tok.Scanner) error { g := JSON(); return g.Member.Read(s) }
func lemma_JSON_Members(s *tok.Scanner) error { g := JSON(); return g.Members.Read(s) }
func lemma_JSON_Object(s *tok.Scanner) error { g := JSON(); return g.Object.Read(s) }
func lemma_JSON_Value(s *tok.Scanner) error { g := JSON(); return g.Value.Read(s) }
