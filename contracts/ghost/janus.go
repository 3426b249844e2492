//go:build verif

package tok

func lemma_JanusNoBegin(n string, r Reader, t *Scanner) error {
	_, end := Janus(n, r)
	return end.Read(t)
}
func lemma_JanusTwice(n string, r Reader, t, u *Scanner) (error, error) {
	_, end := Janus(n, r)
	a := end.Read(t)
	return a, end.Read(u)
}
func lemma_JanusBegin(n string, r Reader, s *Scanner) error {
	beg, _ := Janus(n, r)
	return beg.Read(s)
}
func lemma_JanusEnd(n string, r Reader, s, t *Scanner) (error, error) {
	beg, end := Janus(n, r)
	a := beg.Read(s)
	return a, end.Read(t)
}
func lemma_JanusSame(n string, r Reader, s *Scanner) (error, int, error) {
	beg, end := Janus(n, r)
	a := beg.Read(s)
	m := s.pos
	return a, m, end.Read(s)
}
func lemma_JanusEndEnd(n string, r Reader, s, t, u *Scanner) (error, error, error) {
	beg, end := Janus(n, r)
	a := beg.Read(s)
	b := end.Read(t)
	return a, b, end.Read(u)
}
func lemma_JanusBeginBegin(n string, r Reader, s, t, u *Scanner) (error, error, error) {
	beg, end := Janus(n, r)
	a := beg.Read(s)
	b := beg.Read(t)
	return a, b, end.Read(u)
}
