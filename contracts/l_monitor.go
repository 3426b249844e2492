//go:build verif

// Contracts of monitored readers. Comment-only: read by gocv, never compiled.
// L is an arbitrary log, J an arbitrary index and C an arbitrary cell of memory that holds a log entry: what is
// shown of them holds for all. Functions given to Map change a log only through monitored readers.
package contracts

//@ macro entryKept
//@ ensures [C19] log-grows: len(L.Entries) >= old(len(L.Entries)) && L.level == old(L.level)
//@ ensures [C19] log-entries-kept: 0 <= J && J < old(len(L.Entries)) ==> L.Entries[J].EnterAt == old(L.Entries[J].EnterAt) && L.Entries[J].Level == old(L.Entries[J].Level) && L.Entries[J].ExitAt == old(L.Entries[J].ExitAt) && same(L.Entries[J].Info,old(L.Entries[J].Info)) && same(L.Entries[J].Error,old(L.Entries[J].Error))
//@ ensures [C19] log-memory: sameMem(L.Entries,old(L.Entries)) || isNew(L.Entries)
//@ ensures [C19] log-cells-kept: old(inUse(C,L.Entries)) ==> inUse(C,L.Entries) && C.EnterAt == old(C.EnterAt) && C.Level == old(C.Level) && C.ExitAt == old(C.ExitAt) && same(C.Info,old(C.Info)) && same(C.Error,old(C.Error))
//@ inv [C19] len(L.Entries) >= old(len(L.Entries)) && L.level == old(L.level)
//@ inv [C19] 0 <= J && J < old(len(L.Entries)) ==> L.Entries[J].EnterAt == old(L.Entries[J].EnterAt) && L.Entries[J].Level == old(L.Entries[J].Level) && L.Entries[J].ExitAt == old(L.Entries[J].ExitAt) && same(L.Entries[J].Info,old(L.Entries[J].Info)) && same(L.Entries[J].Error,old(L.Entries[J].Error))
//@ inv [C19] sameMem(L.Entries,old(L.Entries)) || isNew(L.Entries)
//@ inv [C19] old(inUse(C,L.Entries)) ==> inUse(C,L.Entries) && C.EnterAt == old(C.EnterAt) && C.Level == old(C.Level) && C.ExitAt == old(C.ExitAt) && same(C.Info,old(C.Info)) && same(C.Error,old(C.Error))

//@ iface (r Reader) Read(s) (err)
//@ let L = anyLog()
//@ let J = any(J)
//@ let C = anyCell()
//@ use entryKept

//@ iface (f ReadFunc) call(s) (err)
//@ let L = anyLog()
//@ let J = any(J)
//@ let C = anyCell()
//@ use entryKept

//@ iface (f MapFunc) call(t) ()
//@ modifies world
//@ let L = anyLog()
//@ let J = any(J)
//@ let C = anyCell()
//@ use entryKept

// Entries of different logs do not share memory, so the log of a monitored reader is the one looked at.

//@ func (r *monitorReader) Read(s) (err)
//@ requires r.log == anyLog()
//@ requires r.log.level < 4611686018427387904

//@ macro logged
//@ requires wf(s)
//@ requires l == anyLog()
//@ requires l.level < 4611686018427387904
//@ modifies s.pos, world, ghost lastUpd
//@ let p0 = old(s.pos)
//@ let J = any(J)
//@ let n = old(len(l.Entries))
//@ let C = anyCell()
//@ let own = cellIs(C,at(precall,l.Entries),n)
//@ ensures [C19] result: same(err,ghost(ferr)) && ghost(fcalls) == old(ghost(fcalls))+1 && s.pos == at(call,s.pos)
//@ ensures [C19] one-entry: at(call,len(l.Entries)) >= n+1 && len(l.Entries) == at(call,len(l.Entries))
//@ ensures [C19] entered: J == n && own ==> l.Entries[J].EnterAt == p0 && eqText(l.Entries[J].Info,info) && l.Entries[J].Level == old(l.level)+1
//@ ensures [C19] exited: J == n && own ==> l.Entries[J].ExitAt == s.pos && same(l.Entries[J].Error,err)
//@ ensures [C19] level: l.level == old(l.level) && at(call,l.level) == old(l.level)+1
//@ ensures [C19] earlier-entries: 0 <= J && J < n ==> l.Entries[J].EnterAt == old(l.Entries[J].EnterAt) && l.Entries[J].Level == old(l.Entries[J].Level) && l.Entries[J].ExitAt == old(l.Entries[J].ExitAt) && same(l.Entries[J].Info,old(l.Entries[J].Info)) && same(l.Entries[J].Error,old(l.Entries[J].Error))
//@ ensures [C19] inner-entries: n < J && J < len(l.Entries) ==> l.Entries[J].EnterAt == at(call,l.Entries[J].EnterAt) && l.Entries[J].Level == at(call,l.Entries[J].Level) && l.Entries[J].ExitAt == at(call,l.Entries[J].ExitAt) && same(l.Entries[J].Info,at(call,l.Entries[J].Info)) && same(l.Entries[J].Error,at(call,l.Entries[J].Error))

//@ func lemma_Log(r, l, info, s) (err)
//@ use logged
//@ func lemma_RuleLog(info, r, l, s) (err)
//@ use logged
//@ func lemma_LogMonitor(info, r, l, s) (err)
//@ use logged

// Lists of rules of any length: x is one of them, at K, and only there. It becomes what Monitor makes of its reader.
//@ macro watching
//@ use oneRule
//@ modifies key tok.Rule.Reader, world, ghost lastUpd
//@ inv [C19] K < $i ==> isType(x.Reader,*monitorReader)
//@ inv [C19] K < $i ==> blk(unbox(x.Reader,*monitorReader)) <= alloc()
//@ inv [C19] K < $i ==> same(unbox(x.Reader,*monitorReader).sub,old(x.Reader)) && same(unbox(x.Reader,*monitorReader).info,old(x.Name))
//@ inv [C19] K < $i ==> refIs(unbox(x.Reader,*monitorReader).log,$q)
//@ ensures [C19] monitored: alike(a,b)

//@ func lemma_LogMonitorList(rules, l, x) (a, b)
//@ use watching
//@ func lemma_MonitorGrammar(g, rules, x) (l, a, b)
//@ use watching
//@ ensures [C19] empty: len(l.Entries) == 0 && l.level == 0

//@ func lemma_LogReset(l) (n)
//@ modifies l.Entries, l.level
//@ ensures [C19] empty: n == 0
//@ func lemma_LogResetLevel(l) (n)
//@ modifies l.Entries, l.level
//@ ensures [C19] level: n == 1

//@ roots C19: lemma_Log lemma_RuleLog lemma_LogMonitor lemma_LogMonitorList lemma_MonitorGrammar lemma_LogReset lemma_LogResetLevel @readers
