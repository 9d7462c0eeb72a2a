package core/actor
import core github.com/pojol/braid/core
import sync sync
import msg github.com/pojol/braid/router/msg
import mpsc github.com/pojol/braid/lib/mpsc
import wg github.com/pojol/braid/lib/warpwaitgroup

// ---- P04: the actor's loop ----
// queued messages taken, and those of them with a handler chain; the one taken last
ghost wpn int
ghost wexp int
ghost curm int
ghost curc val
ghost curwg int
// chains executed, messages marked complete
ghost exn int
ghost dnn int
// reentrant results taken and applied; the one taken last
ghost rpn int
ghost rrn int
ghost cura int
ghost curam val
// timer triggers taken and run
ghost curt val
ghost timerOn bool
ghost openNow bool

// shutting down: queues last seen empty, and whether the limit has passed
ghost sawEmpty [int]bool
ghost limitOver bool
ghost closing bool
ghost noMore bool
ghost quiet bool

iface core.IChain.Execute(c, m) (err)
  maypanic
  modifies all
  ensures keepsCounter: m.Ctx != nil && wgOf2(m) == old(wgOf2(m))
  panics keepsCounter: m.Ctx != nil && wgOf2(m) == old(wgOf2(m))
define wgOf2(m) = ctxval(m.Ctx, box(zero(msg.WaitGroupKey), msg.WaitGroupKey))
iface core.ITimer.IsActive(t) (r)
  requires timer: t != nil
iface core.ITimer.Execute(t) (err)
  maypanic
  modifies all
functype "core/actor.RecoveryFunc" (r)

define wrapped(v) = unbox(v, *msg.Wrapper)
define reent(v) = unbox(v, *reenterMessage)
define chainOf(a, v) = a.chains[wrapped(v).Req.Header.Event]
define hasChain(a, v) = has(a.chains, wrapped(v).Req.Header.Event)
define paired() = wpn - old(wpn) == dnn - old(dnn) && exn - old(exn) == wexp - old(wexp) && rpn - old(rpn) == rrn - old(rrn)

func Runtime.update(a)
  requires receiver: a != nil && a.q != nil && a.q.C != nil && a.reenterQueue != nil && a.reenterQueue.C != nil && a.q != a.reenterQueue && a.q.C != a.reenterQueue.C && a.closeCh != nil && a.shutdownCh != nil && a.closeCh != a.shutdownCh && a.recovery != nil && a.actorCtx != nil
  modifies all, wpn, wexp, curm, curc, curwg, exn, dnn, rpn, rrn, cura, curam, curt, timerOn, openNow, sawEmpty, limitOver, closing, noMore, quiet, popn, popq, popv, evn, evf, evm, everr, recvd, afd, tkrun, tkper, tkmade, cbn, cbf, cba, cbr
  at after chan.recv(c) (v, ok) set recvd[ref(c)] := recvd[ref(c)] + 1
  // what the queues hold
  at after mpsc.Queue.Pop(q) (v) assume wellFormed: typeis(v, *msg.Wrapper) ==> okmsg(wrapped(v)) && counted(wrapped(v))
  at after mpsc.Queue.Pop(q) (v) assume wellFormedResult: ref(q) == ref(a.reenterQueue) && typeis(v, *reenterMessage) ==> reent(v) != nil && reent(v).action != nil && typeis(reent(v).msg, *msg.Wrapper)
  at mpsc.Queue.Pop(q) allDone [P04]: inthread() || paired()
  at after mpsc.Queue.Pop(q) (v) set wpn := ite(ref(q) == ref(a.q) && typeis(v, *msg.Wrapper), wpn + 1, wpn)
  at after mpsc.Queue.Pop(q) (v) set wexp := ite(ref(q) == ref(a.q) && typeis(v, *msg.Wrapper) && hasChain(a, v) && chainOf(a, v) != nil, wexp + 1, wexp)
  at after mpsc.Queue.Pop(q) (v) set curm := ite(ref(q) == ref(a.q) && typeis(v, *msg.Wrapper), ref(wrapped(v)), curm)
  at after mpsc.Queue.Pop(q) (v) set curc := ite(ref(q) == ref(a.q) && typeis(v, *msg.Wrapper) && hasChain(a, v), chainOf(a, v), curc)
  at after mpsc.Queue.Pop(q) (v) set curwg := ite(ref(q) == ref(a.q) && typeis(v, *msg.Wrapper), ref(wgp(wrapped(v))), curwg)
  at after mpsc.Queue.Pop(q) (v) set rpn := ite(ref(q) == ref(a.reenterQueue) && typeis(v, *reenterMessage), rpn + 1, rpn)
  at after mpsc.Queue.Pop(q) (v) set cura := ite(ref(q) == ref(a.reenterQueue) && typeis(v, *reenterMessage), ref(reent(v).action), cura)
  at after mpsc.Queue.Pop(q) (v) set curam := ite(ref(q) == ref(a.reenterQueue) && typeis(v, *reenterMessage), reent(v).msg, curam)
  // a queued message: its event's chain, once
  at core.IChain.Execute(c, m) inLoop [P04]: !inthread()
  at core.IChain.Execute(c, m) dispatched [P04]: exn - old(exn) + 1 == wexp - old(wexp) && c == curc && ref(m) == curm && wpn - old(wpn) == dnn - old(dnn) + 1
  at core.IChain.Execute(c, m) set exn := exn + 1
  // and marked complete, once, whatever the handler did
  at sync.WaitGroup.Done(w) assume outstanding: cast(curwg, *wg.WrapWaitGroup).wg > 0
  at sync.WaitGroup.Done(w) completed [P04]: !inthread() && ref(w) == addr(cast(curwg, *wg.WrapWaitGroup).wg) && dnn - old(dnn) + 1 == wpn - old(wpn) && exn - old(exn) == wexp - old(wexp)
  at sync.WaitGroup.Done(w) set dnn := dnn + 1
  at sync.WaitGroup.Add(w, d) notAdded [P04]: false
  // a reentrant result: applied once, in the loop
  at "core/actor.EventHandler"(w) applied [P04,P07]: !inthread() && self == cura && box(w, *msg.Wrapper) == curam && rrn - old(rrn) + 1 == rpn - old(rpn)
  at "core/actor.EventHandler"(w) set rrn := rrn + 1
  at "core/actor.EventHandler"(w) nopanic the results' actions recover from panics (ReenterCall)
  // timers: only active ones, while the actor is open
  at after "chan.recv core.ITimer"(c) (v, ok) assume timer: v != nil
  at after "chan.recv core.ITimer"(c) (v, ok) set curt := v
  at after chan.recv(c) (v, ok) set timerOn := false
  at after chan.recv(c) (v, ok) set openNow := false
  at after core.ITimer.IsActive(t) (r) set timerOn := r && t == curt
  at after sync/atomic.LoadInt32(p) (r) set openNow := r == 0 && ref(p) == addr(a.closed)
  at core.ITimer.Execute(t) active [P28]: !inthread() && t == curt && timerOn && openNow
  // shutting down: the loop is ended once, by whoever moves from closing to closed: the loop
  // itself, between two messages, when nothing more is accepted (closed was left 0 behind, and
  // after that no Received was seen under way) and both queues were then seen empty;
  // or the goroutine that waited for the limit
  at after chan.recv(c) (v, ok) set noMore := false
  at after chan.recv(c) (v, ok) set quiet := false
  at after chan.recv(c) (v, ok) set sawEmpty := constarr("[int]bool", false)
  at after chan.recv(c) (v, ok) set limitOver := inthread() && afd[ref(c)] == 10000000000
  at after sync/atomic.CompareAndSwapInt32(p, o, n) (r) set noMore := noMore || ref(p) == addr(a.closed) && o == 0 && n == 1
  at after sync/atomic.LoadInt32(p) (r) set noMore := noMore || ref(p) == addr(a.closed) && r != 0
  at after sync/atomic.LoadInt32(p) (r) set quiet := quiet || noMore && ref(p) == addr(a.receiving) && r == 0
  at after mpsc.Queue.Empty(q) (e) set sawEmpty[ref(q)] := e && quiet
  at after sync/atomic.CompareAndSwapInt32(p, o, n) (r) set closing := ref(p) == addr(a.closed) && o == 1 && n == 2 && r
  at after sync/atomic.CompareAndSwapInt32(p, o, n) (r) assume closedOnce: ref(p) == addr(a.closed) && n == 2 && r ==> !closed(a.closeCh)
  at chan.close(c) drained [P39]: ref(c) == ref(a.closeCh) && closing && (!inthread() && paired() && sawEmpty[ref(a.q)] && sawEmpty[ref(a.reenterQueue)] || limitOver)
  // nothing is left half done when the loop waits again
  at chan.wait() allDone [P04]: inthread() || paired()
  ensures allDone [P04]: paired()
  ensures untilClosed [P04]: recvd[ref(a.closeCh)] > old(recvd[ref(a.closeCh)])
  loop(): wpn - old(wpn) == dnn - old(dnn)
  loop(): exn - old(exn) == wexp - old(wexp)
  loop(): rpn - old(rpn) == rrn - old(rrn)
  loop(): recvd[ref(a.closeCh)] >= old(recvd[ref(a.closeCh)])

func Runtime.Init(a, ctx)
  requires receiver: a != nil && ctx != nil
  modifies a.q, a.reenterQueue, a.closed, a.closeCh, a.shutdownCh, a.chains, a.recovery, a.actorCtx, a.timers, a.timerChan
  ensures ready [P04]: okq(a.q) && okq(a.reenterQueue) && a.q != a.reenterQueue && a.q.C != a.reenterQueue.C && a.closeCh != nil && a.shutdownCh != nil && a.closeCh != a.shutdownCh && a.recovery != nil && a.actorCtx != nil
  ensures open [P03,P04]: a.closed == 0 && !closed(a.closeCh) && !closed(a.shutdownCh)
  ensures noHandlers [P05]: a.chains != nil && all(k, string, !has(a.chains, k))
  ensures noTimers [P28]: a.timers != nil && a.timerChan != nil && all(k, core.ITimer, !has(a.timers, k))
