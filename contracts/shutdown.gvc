package core/node
import core github.com/pojol/braid/core
import sync sync
import time time
import context context
import signal os/signal
import addressbook github.com/pojol/braid/core/addressbook
import trdredis github.com/pojol/braid/3rd/redis

// ---- P39: shutting down ----
ghost accn int
func Acceptor.Exit(acceptor)
  requires acceptor: acceptor != nil && acceptor.server != nil
  modifies gracefuln, abruptn
  ensures once [P39]: gracefuln + abruptn == old(gracefuln) + old(abruptn) + 1

func NormalSystem.Actors(sys) (r)
  requires node: sys != nil
  ensures all [P39]: all(k, string, has(sys.actoridmap, k) ==> ex(i, int, 0 <= i && i < len(r) && r[i] == sys.actoridmap[k]))
  ensures only [P39]: all(i, int, 0 <= i && i < len(r) ==> ex(k, string, has(sys.actoridmap, k) && r[i] == sys.actoridmap[k]))
  loop(_l []core.IActor): all(k, string, visited()[k] ==> ex(i, int, 0 <= i && i < len(_l) && _l[i] == sys.actoridmap[k]))
  loop(_l []core.IActor): all(i, int, 0 <= i && i < len(_l) ==> ex(k, string, visited()[k] && _l[i] == sys.actoridmap[k]))

// the node's actors when it was told to exit, by a name: acts[0] .. acts[actn-1]
ghost acts [int]val
ghost actn int
ghost gotActs int
// goroutines started; work counted and marked done by the main goroutine
ghost gon int
ghost wadd int
ghost wdone int
ghost clearn int
// what this goroutine has done
threadghost toldIt bool
threadghost doneIt bool

func NormalSystem.Exit(sys, wait)
  maypanic
  mayrtpanic
  threadmaypanic
  requires actors: all(k, string, has(sys.actoridmap, k) ==> sys.actoridmap[k] != nil)
  requires node: sys != nil && wait != nil && sys.addressbook != nil && sys.addressbook.IDMap != nil && trdredis.client != nil && fieldsOk(sys.addressbook.NodeID) && (sys.acceptor != nil ==> sys.acceptor.server != nil)
  modifies all, accn, gotActs, actn, gon, wadd, wdone, clearn, toldIt, doneIt, stn, gracefuln, abruptn, rn, rname, rret, rval, rdn, nxn, nxkey, nxval, nxexp, nxcmd, clk, cheld, cval, hex, hval, smem, pcur, phex, phval, psmem, pwr, execn, execok, execerr
  start cheld := false
  start toldIt := false
  start doneIt := false
  at Acceptor.Exit(c) ours [P39]: c == sys.acceptor && !inthread() && gotActs == old(gotActs)
  at Acceptor.Exit(c) set accn := accn + 1
  at after NormalSystem.Actors(s) (r) set gotActs := gotActs + 1
  at after NormalSystem.Actors(s) (r) set actn := len(r)
  at after NormalSystem.Actors(s) (r) assume named: all(i, int, 0 <= i && i < len(r) ==> acts[i] == r[i])
  at NormalSystem.Actors(s) once [P39]: s == sys && gotActs == old(gotActs)
  at NormalSystem.Actors(s) acceptorFirst [P39]: sys.nodePort != 0 && sys.acceptor != nil ==> accn == old(accn) + 1
  // each is told in a goroutine of its own, counted before it starts
  at "go"() counted [P39]: wadd - old(wadd) - (wdone - old(wdone)) == gon - old(gon) + 1
  at "go"() set gon := gon + 1
  at sync.WaitGroup.Add(w, d) here [P39]: w == wait && !inthread()
  at sync.WaitGroup.Add(w, d) set wadd := wadd + d
  at sync.WaitGroup.Done(w) counted [P39]: w == wait && (inthread() ==> toldIt && !doneIt) && (!inthread() ==> accn == old(accn) + ite(sys.acceptor != nil, 1, 0))
  at sync.WaitGroup.Done(w) set wdone := ite(inthread(), wdone, wdone + 1)
  at sync.WaitGroup.Done(w) set doneIt := inthread()
  at core.IActor.Exit(a) told [P39]: inthread() && !toldIt && 0 < gon - old(gon) && gon - old(gon) <= actn && a == acts[gon - old(gon) - 1]
  at core.IActor.Exit(a) set toldIt := true
  threadend waited [P39]: toldIt && doneIt
  at addressbook.AddressBook.Clear(b, c) ours [P39]: b == sys.addressbook && clearn == old(clearn)
  at addressbook.AddressBook.Clear(b, c) set clearn := clearn + 1
  ensures all [P39]: gotActs == old(gotActs) + 1 && gon == old(gon) + actn
  ensures counted [P39]: wadd - old(wadd) - (wdone - old(wdone)) == actn
  ensures forgotten [P39]: clearn == old(clearn) + 1
  loop(_k index): gon == old(gon) + _k
  loop(): wadd - old(wadd) - (wdone - old(wdone)) == gon - old(gon)

// ---- the process: from the signal to the end ----
ghost exitn int
ghost exitw int
// the context that ends the wait
ghost limc int
ghost sigseen bool
ghost sawDone bool
ghost sawLimit bool
threadghost knExited bool
threadghost knAllDone bool
ghost chAll [int]bool
iface core.ISystem.Exit(s, w)
  modifies all
  set exitn := exitn + 1
  set exitw := ref(w)
extern signal.Notify(c, sig)

stable process.sys process.p : core/node.BuildProcessWithOption
func process.WaitClose(pn)
  requires process: pn != nil && pn.sys != nil
  modifies all, exitn, exitw, limc, sigseen, sawDone, sawLimit, knExited, knAllDone, chAll
  start limc := 0
  start sigseen := false
  start sawDone := false
  start sawLimit := false
  start knExited := false
  start knAllDone := false
  start chAll := constarr("[int]bool", false)
  at "chan.recv os.Signal"(c) (v, ok) set sigseen := true
  at after context.WithTimeout(p, d) (c, f) set limc := ite(d == 30000000000, ctxdone(c), limc)
  at core.ISystem.Exit(s, w) onSignal [P39]: s == pn.sys && sigseen && exitn == old(exitn) && limc != 0 && inthread()
  at after core.ISystem.Exit(s, w) set knExited := true
  at after sync.WaitGroup.Wait(w) set knAllDone := knAllDone || knExited && ref(w) == exitw
  at chan.close(c) set chAll[ref(c)] := knAllDone
  at chan.send(c, v) set chAll[ref(c)] := knAllDone
  at chan.recv(c) join ours: sigseen && ref(c) != limc
  at after chan.recv(c) (v, ok) set sawDone := sawDone || chAll[ref(c)]
  at after chan.recv(c) (v, ok) set sawLimit := sawLimit || ref(c) == limc
  at chan.wait() watchesLimit [P39]: inthread() || !sigseen || waiting(limc)
  ensures over [P39]: sawDone || sawLimit
  final told [P39]: exitn == old(exitn) + 1
