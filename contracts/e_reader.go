//go:build verif

// Contract of the Reader interface (every Read method of the module is verified against it)
// and of the readers of the package. Comment-only: read by gocv, never compiled.
package contracts

//@ group peg = C08 C21 C24 C27 C25 C26
//@ group rdir = C07 C08 C09 C10 C11 C12 C20 C21 C24 C27 C25 C26 C17

//@ iface (r Reader) Read(s) (err)
//@ requires wf(s)
//@ modifies s.pos, world, ghost lastUpd
//@ let F = s.full
//@ let p0 = old(s.pos)
//@ ensures wf: wf(s)
//@ ensures [rdir] restored-on-error: err != nil ==> s.pos == p0
//@ ensures [rdir] not-backward: s.pos >= p0
//@ assumes [peg] err == nil <==> rOk(r,F,p0)
//@ assumes [peg] err == nil ==> s.pos == rEnd(r,F,p0)
//@ ensures [C16] last-update: s.Tracker != nil ==> ghost(lastUpd) == s.pos || (s.pos == p0 && ghost(lastUpd) == old(ghost(lastUpd)))
//@ ensures [C16] no-tracker: s.Tracker == nil ==> ghost(lastUpd) == old(ghost(lastUpd))
//@ inv [C16] s.Tracker == nil ==> ghost(lastUpd) == old(ghost(lastUpd))
//@ inv wf(s)
//@ inv [C16] s.Tracker != nil ==> ghost(lastUpd) == s.pos || (s.pos == p0 && ghost(lastUpd) == old(ghost(lastUpd)))
//@ inv [rdir] s.pos >= p0
//@ inv [rdir] s.pos == p0

//@ iface (f ReadFunc) call(s) (err)
//@ requires wf(s)
//@ modifies s.pos, world, ghost lastUpd
//@ let F = s.full
//@ let p0 = old(s.pos)
//@ ensures wf: wf(s)
//@ assumes [rdir] err != nil ==> s.pos == p0
//@ assumes [rdir] s.pos >= p0
//@ assumes [C16] s.Tracker != nil ==> ghost(lastUpd) == s.pos || (s.pos == p0 && ghost(lastUpd) == old(ghost(lastUpd)))
//@ assumes [C16] s.Tracker == nil ==> ghost(lastUpd) == old(ghost(lastUpd))

// Ranges are kept as two slices of equal length (established by the constructors, see C09).

//@ func (r *betweenAnyReader) Read(s) (err)
//@ requires len(r.min) == len(r.max)

// Pick and Monitor are given a basket and a log (not nil).

//@ func (r *pickReader) Read(s) (err)
//@ requires r.basket != nil
//@ func (r *monitorReader) Read(s) (err)
//@ requires r.log != nil

//@ roots C07: @readers
