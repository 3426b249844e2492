//go:build verif

package tok

func lemma_Log(r Reader, l *Log, info string, s *Scanner) error {
	return Monitor(r, l, info).Read(s)
}
func lemma_RuleLog(info string, r Reader, l *Log, s *Scanner) error {
	x := &Rule{Name: info, Reader: r}
	x.Monitor(l)
	return x.Read(s)
}
func lemma_LogMonitor(info string, r Reader, l *Log, s *Scanner) error {
	x, y := &Rule{Name: info, Reader: r}, &Rule{Name: "other", Reader: r}
	l.Monitor(y, x)
	return x.Read(s)
}
func lemma_LogReset(l *Log) int {
	l.Reset()
	return len(l.Entries)
}
func lemma_LogResetLevel(l *Log) int {
	l.Reset()
	return l.Enter("", 0).Level
}

// rules of any number; what Monitor itself does is in lemma_Log
func lemma_LogMonitorList(rules []*Rule, l *Log, x *Rule) (a, b Reader) {
	r, n := x.Reader, x.Name
	l.Monitor(rules...)
	return x.Reader, Monitor(r, l, n)
}
func lemma_MonitorGrammar(g Reader, rules []*Rule, x *Rule) (l *Log, a, b Reader) {
	r, n := x.Reader, x.Name
	l = MonitorGrammar(&ghostGrammar{g, rules})
	return l, x.Reader, Monitor(r, l, n)
}
