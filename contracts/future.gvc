package core/actor

// ---- P06: futures ----
chan signal Future.done
stable Future.done :
monitor Future.mutex guards result callbacks done! [P06,P32]

// continuations started (called, or started as a goroutine): which, with what,
// and which channels were closed by then
ghost cn int
ghost cf [int]int
ghost cm [int]int
ghost cclosed [int][int]bool
// calls of Complete and Then made by the function at hand
ghost ccn int
ghost ccf [int]int
ghost ccm [int]int
ghost ccAt [int]int
ghost ccerr [int]val
ghost ccres [int]int
ghost tn int
ghost tf [int]int
ghost tcb [int]int
ghost tret [int]val

functype "func(*router/msg.Wrapper)" (w)
  maypanic
  modifies all
  set cf[cn] := self
  set cm[cn] := w
  set cclosed[cn] := closedmap()
  set cn := cn + 1

define okf(f) = f != nil && f.done != nil
define fl() = "core/actor.Future.mutex"

func NewFuture() (f)
  ensures pending [P06]: f != nil && fresh(f) && f.done != nil && fresh(f.done) && !closed(f.done) && len(f.callbacks) == 0 && f.result == nil

func Future.IsCompleted(f) (c)
  inline
  noblock
  requires future: okf(f)
  ensures completed [P06]: c <==> closed(f.done)

func Future.Complete(f, result)
  concurrent
  requires future: okf(f)
  modifies f.result, f.callbacks, elems(f.callbacks), chanstate(f.done), cn, cf, cm, cclosed
  // the log of calls callers speak about
  set ccf[ccn] := ref(f)
  set ccm[ccn] := ref(result)
  set ccerr[ccn] := ite(result == nil, nil, result.Err)
  set ccres[ccn] := ite(result == nil, 0, ref(result.Res))
  set ccAt[ccn] := cn
  set ccn := ccn + 1
  ensures completed [P06]: closed(f.done)
  ensures firstWins [P06]: acq("core/actor.Future.mutex", closed(f.done)) ==> rel("core/actor.Future.mutex", f.result) == acq("core/actor.Future.mutex", f.result) && rel("core/actor.Future.mutex", f.callbacks) == acq("core/actor.Future.mutex", f.callbacks) && cn == old(cn)
  ensures result [P06]: !acq("core/actor.Future.mutex", closed(f.done)) ==> rel("core/actor.Future.mutex", f.result) == result && rel("core/actor.Future.mutex", closed(f.done)) && len(rel("core/actor.Future.mutex", f.callbacks)) == 0
  ensures allOnce [P06]: !acq("core/actor.Future.mutex", closed(f.done)) ==> cn == old(cn) + len(acq("core/actor.Future.mutex", f.callbacks)) && all(i, int, old(cn) <= i && i < cn ==> cf[i] == ref(acq("core/actor.Future.mutex", f.callbacks[i - old(cn)])) && cm[i] == ref(result))
  ensures notBefore [P06]: all(i, int, old(cn) <= i && i < cn ==> cclosed[i][ref(f.done)])
  loop(_k int): cn == old(cn) + _k
  loop(_k int): all(i, int, old(cn) <= i && i < old(cn) + _k ==> cf[i] == ref(acq("core/actor.Future.mutex", f.callbacks[i - old(cn)])) && cm[i] == ref(result))
  loop(): all(i, int, old(cn) <= i && i < cn ==> cclosed[i][ref(f.done)])

func Future.Then(f, callback) (r)
  concurrent
  noblock
  threadmaypanic
  applymaypanic
  requires future: okf(f)
  requires continuation: callback != nil
  modifies f.result, chanstate(f.done), f.callbacks, elems(f.callbacks), cn, cf, cm, cclosed, ccn, ccf, ccm, ccAt, ccerr, ccres
  set tf[tn] := ref(f)
  set tcb[tn] := ref(callback)
  set tret[tn] := r
  set tn := tn + 1
  ensures chained [P06]: typeis(r, *Future) && unbox(r, *Future) != nil && fresh(unbox(r, *Future)) && unbox(r, *Future).done != nil && !closed(unbox(r, *Future).done)
  ensures kept [P06]: rel("core/actor.Future.mutex", f.result) == acq("core/actor.Future.mutex", f.result) && rel("core/actor.Future.mutex", closed(f.done)) == acq("core/actor.Future.mutex", closed(f.done))
  ensures notYet [P06]: cn == old(cn) && ccn == old(ccn) && ccf == old(ccf) && ccm == old(ccm) && ccerr == old(ccerr) && ccres == old(ccres)
  ensures queued [P06]: !acq("core/actor.Future.mutex", closed(f.done)) ==> len(rel("core/actor.Future.mutex", f.callbacks)) == len(acq("core/actor.Future.mutex", f.callbacks)) + 1 && all(i, int, 0 <= i && i < len(acq("core/actor.Future.mutex", f.callbacks)) ==> rel("core/actor.Future.mutex", f.callbacks[i]) == acq("core/actor.Future.mutex", f.callbacks[i]))
  ensures notQueued [P06]: acq("core/actor.Future.mutex", closed(f.done)) ==> rel("core/actor.Future.mutex", f.callbacks) == acq("core/actor.Future.mutex", f.callbacks)
  // completed before: started by itself
  final started [P06]: acq("core/actor.Future.mutex", closed(f.done)) ==> cn == old(cn) + 1 && cf[old(cn)] == ref(callback) && cm[old(cn)] == ref(acq("core/actor.Future.mutex", f.result))
  final notBefore [P06]: acq("core/actor.Future.mutex", closed(f.done)) ==> cclosed[old(cn)][ref(f.done)]
  final passedOn [P06]: acq("core/actor.Future.mutex", closed(f.done)) ==> ccn == old(ccn) + 1 && ccf[old(ccn)] == ref(unbox(r, *Future)) && ccm[old(ccn)] == cm[old(cn)] && ccAt[old(ccn)] == old(cn) + 1
  final pending [P06]: !acq("core/actor.Future.mutex", closed(f.done)) ==> cn == old(cn) && ccn == old(ccn)
  // pending: what was queued does the same once it is started
  apply g(w) is f.callbacks[len(f.callbacks) - 1] when !closed(f.done)
  applied started [P06]: cn == old(cn) + 1 && cf[old(cn)] == ref(callback) && cm[old(cn)] == ref(w)
  applied passedOn [P06]: ccn == old(ccn) + 1 && ccf[old(ccn)] == ref(unbox(r, *Future)) && ccm[old(ccn)] == ref(w) && ccAt[old(ccn)] == old(cn) + 1
