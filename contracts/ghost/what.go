//go:build verif

package tok

func lemma_wInvalid(msg string) string                 { return InvalidReader(msg).What() }
func lemma_wAt(r Reader) string                        { return At(r).What() }
func lemma_wNot(r Reader) string                       { return Not(r).What() }
func lemma_wOpt(r Reader) string                       { return Opt(r).What() }
func lemma_wZom(r Reader) string                       { return Zom(r).What() }
func lemma_wMany(r Reader) string                      { return Many(r).What() }
func lemma_wTo(r Reader) string                        { return To(r).What() }
func lemma_wPast(r Reader) string                      { return Past(r).What() }
func lemma_wTimes(n int, r Reader) string              { return Times(n, r).What() }
func lemma_wMap(r Reader, f MapFunc) string            { return Map(r, f).What() }
func lemma_wPick(r Reader, b *Basket, i string) string { return Pick(r, b, i).What() }
func lemma_wMonitor(r Reader, l *Log, i string) string { return Monitor(r, l, i).What() }
func lemma_wJanus(n string, r Reader) string           { b, _ := Janus(n, r); return b.What() }
func lemma_wRule(n string, r Reader) string            { return (&Rule{Name: n, Reader: r}).Rule() }
func lemma_wBody(a, b Reader) string                   { return Body(a, b).What() }
func lemma_wBodyTail(a, b Reader) string               { return BodyTail(a, b).What() }
func lemma_wSeq2(a, b Reader) string                   { return Seq(a, b).What() }
func lemma_wSeq3(a, b, r Reader) string                { return Seq(a, b, r).What() }
func lemma_wAny2(a, b Reader) string                   { return Any(a, b).What() }
func lemma_wAny3(a, b, r Reader) string                { return Any(a, b, r).What() }
func lemma_wSkipSeq(a, b, r Reader) string             { return SkipSeq(a, b, r).What() }
func lemma_wSkipWSSeq(a, b Reader) string              { return SkipWSSeq(a, b).What() }
func lemma_wOptBad(i interface{}) string               { return Opt(i).What() }
func lemma_wZomBad(i interface{}) string               { return Zom(i).What() }
func lemma_wManyBad(i interface{}) string              { return Many(i).What() }
func lemma_wToBad(i interface{}) string                { return To(i).What() }
func lemma_wPastBad(i interface{}) string              { return Past(i).What() }
func lemma_wSeqBad(a Reader, i interface{}) string     { return Seq(a, i).What() }
func lemma_wAnyBad(a Reader, i interface{}) string     { return Any(a, i).What() }
func lemma_wSkipSeqBad(a Reader, i interface{}) string { return SkipSeq(a, i).What() }
