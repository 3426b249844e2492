//go:build verif

package tok

// the basket is the scanner's tracker as well
func lemma_PickTracked(r Reader, b *Basket, info string, s *Scanner) error {
	s.Tracker = b
	return Pick(r, b, info).Read(s)
}
func lemma_PickFree(r Reader, b *Basket, info string, s *Scanner) error {
	s.Tracker = nil
	return Pick(r, b, info).Read(s)
}
func lemma_RulePickFree(n string, r Reader, b *Basket, s *Scanner) error {
	s.Tracker = nil
	x := &Rule{Name: n, Reader: r}
	x.Pick(b)
	return x.Read(s)
}
func lemma_RulePickTracked(n string, r Reader, b *Basket, s *Scanner) error {
	s.Tracker = b
	x := &Rule{Name: n, Reader: r}
	x.Pick(b)
	return x.Read(s)
}
func lemma_PickWith(n string, r Reader, b *Basket, s *Scanner) error {
	s.Tracker = nil
	x := &Rule{Name: n, Reader: r}
	b.PickWith(x)
	return x.Read(s)
}

// a grammar with any list of rules
type ghostGrammar struct {
	Reader
	list []*Rule
}

func (g *ghostGrammar) Grammar() []*Rule { return g.list }

func lemma_PickWithList(rules []*Rule, b *Basket, x *Rule, s *Scanner) error {
	s.Tracker = nil
	b.PickWith(rules...)
	return x.Read(s)
}
func lemma_NewBasketFor(r Reader, rules []*Rule, x *Rule, s *Scanner) (*Basket, error) {
	b := s.NewBasketFor(&ghostGrammar{r, rules})
	return b, x.Read(s)
}
func lemma_NewBasketForEmpty(r Reader, rules []*Rule, x *Rule, s *Scanner) (b *Basket, n int) {
	b = s.NewBasketFor(&ghostGrammar{r, rules})
	return b, len(b.Picked())
}
