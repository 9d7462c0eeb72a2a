package core/actor
import core github.com/pojol/braid/core
import time time

// ---- P28: timers ----
atomic TimerInfo.active
stable TimerInfo.ID TimerInfo.ticker TimerInfo.dueTime TimerInfo.callback TimerInfo.args : core/actor.NewTimerInfo
// the library's tickers: whether one runs, and its period
ghost tkrun [int]bool
ghost tkper [int]int
ghost tkmade [int]bool
extern time.NewTicker(d) (t)
  requires positive [P28]: d > 0
  ensures made: t != nil && fresh(t)
  set tkrun[ref(t)] := true
  set tkper[ref(t)] := d
  set tkmade[ref(t)] := true
extern time.Ticker.Stop(t)
  requires ticker [P28]: t != nil && tkmade[ref(t)]
  set tkrun[ref(t)] := false
extern time.Ticker.Reset(t, d)
  requires ticker [P28]: t != nil && tkmade[ref(t)]
  requires positive [P28]: d > 0
  set tkrun[ref(t)] := true
  set tkper[ref(t)] := d
// callbacks run: which, with what, returning what
ghost cbn int
ghost cbf [int]int
ghost cba [int]val
ghost cbr [int]val
functype "func(any) error" (v) (err)
  maypanic
  modifies all
  set cbf[cbn] := self
  set cba[cbn] := v
  set cbr[cbn] := err
  set cbn := cbn + 1

define oktimer(t) = t != nil && t.ticker != nil && tkmade[ref(t.ticker)]
define on(t) = t.active != 0

func NewTimerInfo(dueTime, interval, callback, args) (t)
  modifies tkrun, tkper, tkmade
  ensures new [P28]: oktimer(t) && fresh(t) && fresh(t.ticker) && on(t)
  ensures given [P28]: t.dueTime == dueTime && t.interval == interval && t.callback == callback && t.args == args
  ensures notRunning [P28]: !tkrun[ref(t.ticker)]

func TimerInfo.Stop(t) (r)
  requires timer: oktimer(t)
  modifies t.active, tkrun
  ensures inactive [P28]: !on(t)
  ensures wasActive [P28]: r <==> old(on(t))
  ensures ticker [P28]: tkrun[ref(t.ticker)] == ite(r, false, old(tkrun)[ref(t.ticker)])

func TimerInfo.Stop@concurrent(t) (r)
  concurrent
  requires timer: oktimer(t)
  modifies t.active, tkrun
  ensures stoppedIt [P28]: delta(t.active) == ite(r, 0 - 1, 0)

func TimerInfo.Reset(t, d) (r)
  requires timer: oktimer(t)
  modifies t.active, t.interval, t.nextTick, tkrun, tkper
  ensures refused [P28]: d <= 0 && old(t.interval) <= 0 ==> !r && on(t) == old(on(t)) && t.interval == old(t.interval) && tkrun == old(tkrun) && tkper == old(tkper)
  ensures done [P28]: d > 0 || old(t.interval) > 0 ==> r && on(t) && t.interval == ite(d > 0, d, old(t.interval))
  ensures running [P28]: r && !(old(on(t)) && d == old(t.interval)) ==> tkrun[ref(t.ticker)] && tkper[ref(t.ticker)] == t.interval
  ensures stillRunning [P28]: tkrun[ref(t.ticker)] || !old(tkrun)[ref(t.ticker)]

func TimerInfo.IsActive(t) (r)
  inline
  requires timer: t != nil
  ensures def [P28]: r <==> on(t)
func TimerInfo.Interval(t) (d)
  requires timer: t != nil
  ensures def [P28]: d == t.interval
func TimerInfo.Execute(t) (err)
  maypanic
  requires timer: t != nil && t.callback != nil
  modifies all, cbn, cbf, cba, cbr
  ensures once [P28]: cbn == old(cbn) + 1 && cbf[old(cbn)] == old(ref(t.callback)) && cba[old(cbn)] == old(t.args)
  ensures result [P28]: err == cbr[old(cbn)]

// ---- starting and cancelling ----
// channels of time.After: how long they take
ghost afd [int]int
extern time.After(d) (c)
  ensures made: c != nil && fresh(c)
  set afd[ref(c)] := d
// whether the last look at a flag, since anything was received, found it set; receipts, those
// of a timer's due time, and triggers
ghost sawOn [int]bool
ghost duen int
ghost rcn int
ghost firen int

define dueNs(d) = d * 1000000
define trig1(v) = unbox(v, *TimerInfo)

func Runtime.OnTimer(a, dueTime, interval, f, args) (t)
  noblock
  requires receiver: a != nil && a.timers != nil && a.timerChan != nil && a.shutdownCh != nil && f != nil && ref(a.timerChan) != ref(a.shutdownCh)
  modifies entries(a.timers), tkrun, tkper, tkmade, afd, sawOn, duen, rcn, firen
  ensures registered [P28]: typeis(t, *TimerInfo) && has(a.timers, t)
  ensures others [P28]: all(k, core.ITimer, k != t ==> (has(a.timers, k) <==> old(has(a.timers, k))))
  ensures new [P28]: oktimer(unbox(t, *TimerInfo)) && fresh(unbox(t, *TimerInfo)) && on(unbox(t, *TimerInfo))
  ensures given [P28]: unbox(t, *TimerInfo).dueTime == dueNs(dueTime) && unbox(t, *TimerInfo).interval == dueNs(interval) && unbox(t, *TimerInfo).callback == f && unbox(t, *TimerInfo).args == args
  at after sync/atomic.Bool.Load(p) (r) set sawOn[ref(p)] := r
  at after chan.recv(c) (v, ok) set sawOn := constarr("[int]bool", false)
  at after chan.recv(c) (v, ok) set duen := ite(fresh(c) && afd[ref(c)] == dueNs(dueTime), duen + 1, duen)
  at after chan.recv(c) (v, ok) set rcn := rcn + 1
  at chan.send(c, v) onlyThis [P28]: ref(c) == ref(a.timerChan) && typeis(v, *TimerInfo) && fresh(trig1(v)) && trig1(v).callback == f && trig1(v).args == args
  at chan.send(c, v) active [P28]: sawOn[addr(trig1(v).active)]
  at chan.send(c, v) dueTime [P28]: dueTime > 0 ==> duen > old(duen)
  at chan.send(c, v) paced [P28]: firen - old(firen) < rcn - old(rcn) + ite(dueTime <= 0, 1, 0)
  at after chan.send(c, v) set firen := firen + 1
  at chan.wait() untilShutdown [P28]: waiting(ref(a.shutdownCh))
  loop(): firen - old(firen) <= rcn - old(rcn) + ite(dueTime <= 0, 1, 0)
  loop(): dueTime > 0 ==> duen > old(duen)

// stops asked for, by timer
ghost stopped [val]bool
iface core.ITimer.Stop(t) (r)
  requires timer: t != nil
  modifies heap(TimerInfo, active), tkrun
  set stopped[t] := true

func Runtime.CancelTimer(a, t)
  requires receiver: a != nil && a.timers != nil
  modifies entries(a.timers), heap(TimerInfo, active), tkrun, stopped
  ensures none [P28]: t == nil ==> stopped == old(stopped)
  ensures stopped [P28]: t != nil ==> stopped == store(old(stopped), t, true)
  ensures forgotten [P28]: t != nil ==> !has(a.timers, t)
  ensures others [P28]: all(k, core.ITimer, k != t ==> (has(a.timers, k) <==> old(has(a.timers, k))))

func Runtime.Exit(a)
  requires receiver: a != nil && a.timers != nil && a.q != nil && a.shutdownCh != nil && a.closeCh != nil && !closed(a.shutdownCh) && !has(a.timers, nil)
  modifies entries(a.timers), heap(TimerInfo, active), tkrun, stopped, chanstate(a.shutdownCh)
  ensures stopped [P28]: all(k, core.ITimer, old(has(a.timers, k)) ==> stopped[k])
  ensures cleared [P28]: all(k, core.ITimer, !has(a.timers, k))
  at chan.wait() asked [P39]: closed(a.shutdownCh) && waiting(ref(a.closeCh))
  loop(): all(k, core.ITimer, visited()[k] ==> stopped[k] && !has(a.timers, k))
  loop(): all(k, core.ITimer, old(has(a.timers, k)) ==> stopped[k] || has(a.timers, k))
  loop(): all(k, core.ITimer, has(a.timers, k) ==> old(has(a.timers, k)))
