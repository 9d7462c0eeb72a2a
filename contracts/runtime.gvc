package core/actor
import pubsub github.com/pojol/braid/lib/pubsub
import thdredis github.com/pojol/braid/3rd/redis
import msg github.com/pojol/braid/router/msg
import mpsc github.com/pojol/braid/lib/mpsc
import node github.com/pojol/braid/core/node
import core github.com/pojol/braid/core
import wg github.com/pojol/braid/lib/warpwaitgroup

import context context
import time time

atomic Runtime.closed Runtime.receiving
stable Runtime.q Runtime.reenterQueue Runtime.shutdownCh Runtime.closeCh Runtime.timerChan Runtime.chains Runtime.recovery Runtime.actorCtx Runtime.timers : core/actor.Runtime.Init
stable Runtime.Sys Runtime.Id Runtime.Ty :
stable reenterMessage.action reenterMessage.msg :

// ---- P05: event registration ----
ghost mkn int
ghost mkf [int]int
ghost mkctx [int]val
ghost mkres [int]val
functype "func(core.ActorContext) core.IChain" (ctx) (c)
  maypanic
  set mkf[mkn] := self
  set mkctx[mkn] := ctx
  set mkres[mkn] := c
  set mkn := mkn + 1

func Runtime.OnEvent(a, ev, chainFunc) (err)
  maypanic
  requires receiver: a != nil && a.chains != nil && chainFunc != nil
  modifies entries(a.chains), mkn, mkf, mkctx, mkres
  ensures refused [P05]: old(has(a.chains, ev)) ==> err != nil && mkn == old(mkn) && all(k, string, has(a.chains, k) <==> old(has(a.chains, k))) && all(k, string, has(a.chains, k) ==> a.chains[k] == old(a.chains[k]))
  ensures built [P05]: !old(has(a.chains, ev)) ==> err == nil && mkn == old(mkn) + 1 && mkf[old(mkn)] == ref(chainFunc) && mkctx[old(mkn)] == box(a.actorCtx, *actorContext)
  ensures installed [P05]: !old(has(a.chains, ev)) ==> has(a.chains, ev) && a.chains[ev] == mkres[old(mkn)]
  ensures others [P05]: all(k, string, k != ev ==> (has(a.chains, k) <==> old(has(a.chains, k))) && (has(a.chains, k) ==> a.chains[k] == old(a.chains[k])))
  panics unchanged [P05]: all(k, string, has(a.chains, k) <==> old(has(a.chains, k))) && all(k, string, has(a.chains, k) ==> a.chains[k] == old(a.chains[k]))

// ---- P10: calls of one actor to another ----
ghost scn int
ghost scs [int]val
ghost scid [int]string
ghost scty [int]string
ghost scev [int]string
ghost scm [int]int
ghost scverd [int]val
iface core.ISystem.Call(s, id, ty, ev, mw) (err)
  maypanic
  modifies all
  set scs[scn] := s
  set scid[scn] := id
  set scty[scn] := ty
  set scev[scn] := ev
  set scm[scn] := ref(mw)
  set scverd[scn] := err
  set scn := scn + 1

define okmsg(w) = w != nil && w.Req != nil && w.Req.Header != nil
func Runtime.Call(a, id, ty, ev, mw) (err)
  maypanic
  requires receiver: a != nil && a.Sys != nil && okmsg(mw)
  modifies all, scn, scs, scid, scty, scev, scm, scverd
  at core.ISystem.Call(s, i, t, e, m) originKept [P10]: old(mw.Req.Header.OrgActorID) != "" ==> mw.Req.Header.OrgActorID == old(mw.Req.Header.OrgActorID) && mw.Req.Header.OrgActorType == old(mw.Req.Header.OrgActorType)
  at core.ISystem.Call(s, i, t, e, m) originSet [P10]: old(mw.Req.Header.OrgActorID) == "" ==> mw.Req.Header.OrgActorID == old(a.Id) && mw.Req.Header.OrgActorType == old(a.Ty)
  at core.ISystem.Call(s, i, t, e, m) latestHop [P10]: mw.Req.Header.PrevActorType == old(a.Ty)
  at core.ISystem.Call(s, i, t, e, m) restKept [P10]: mw.Req == old(mw.Req) && mw.Res == old(mw.Res) && mw.Ctx == old(mw.Ctx) && mw.Req.Header == old(mw.Req.Header) && mw.Req.Body == old(mw.Req.Body) && sameExcept(mw.Req.Header, OrgActorID, OrgActorType, PrevActorType)
  ensures once [P10]: scn == old(scn) + 1 && scs[old(scn)] == old(a.Sys) && scid[old(scn)] == id && scty[old(scn)] == ty && scev[old(scn)] == ev && scm[old(scn)] == ref(mw)
  ensures result [P10]: err == scverd[old(scn)]

// ---- P03: delivery to the mailbox ----
global extern selfcall: node.ErrSelfCall != nil
define wgp(w) = unbox(ctxval(w.Ctx, box(zero(msg.WaitGroupKey), msg.WaitGroupKey)), *wg.WrapWaitGroup)
define counted(w) = w.Ctx != nil && typeis(ctxval(w.Ctx, box(zero(msg.WaitGroupKey), msg.WaitGroupKey)), *wg.WrapWaitGroup) && wgp(w) != nil
define refuse(a, w) = w.Req.Header.OrgActorID != "" && w.Req.Header.OrgActorID == a.Id || a.closed != 0

ghost admitted bool
func Runtime.Received(a, mw) (err)
  noblock
  requires receiver: a != nil && okq(a.q) && okmsg(mw) && counted(mw) && wgp(mw).wg >= 0
  modifies admitted, a.receiving, wgp(mw).counter, wgp(mw).wg, a.q.head, a.q.count, chanstate(a.q.C), heap(mpsc.node, next), pn, pq, pv
  ensures refused [P03]: refuse(old(a), old(mw)) ==> err != nil && pn == old(pn) && wgp(mw).counter == old(wgp(mw).counter) && wgp(mw).wg == old(wgp(mw).wg)
  ensures selfCall [P03]: mw.Req.Header.OrgActorID != "" && mw.Req.Header.OrgActorID == a.Id ==> err == node.ErrSelfCall
  ensures accepted [P03]: !refuse(old(a), old(mw)) ==> err == nil && pn == old(pn) + 1 && pq[old(pn)] == ref(a.q) && pv[old(pn)] == box(mw, *msg.Wrapper) && wgp(mw).counter == old(wgp(mw).counter) + 1 && wgp(mw).wg == old(wgp(mw).wg) + 1
  // a closing actor waits for those that found it open
  ensures counted [P39]: a.receiving == old(a.receiving)
  ensures closedRefuses [P39]: old(a.closed) != 0 ==> err != nil && pn == old(pn)
  at after sync/atomic.LoadInt32(p) (r) set admitted := ref(p) == addr(a.closed) && r == 0 && a.receiving == old(a.receiving) + 1
  at mpsc.Queue.Push(q, x) announced [P39]: admitted && a.receiving == old(a.receiving) + 1
  at mpsc.Queue.Push(q, x) workFirst [P03]: wgp(mw).counter == old(wgp(mw).counter) + 1 && wgp(mw).wg == old(wgp(mw).wg) + 1

// ---- P07: reentrant calls ----
// receives made so far, per channel
ghost recvd [int]int
ufun ctxerr(val) val
// a context whose end was noticed has an error, and keeps it
iface context.Context.Done(c) (ch)
  ensures def: ref(ch) == ctxdone(c)
iface context.Context.Err(c) (e)
  ensures ended: recvd[ctxdone(c)] > 0 ==> e == ctxerr(c) && ctxerr(c) != nil
iface context.Context.Deadline(c) (d, ok)
extern context.WithTimeout(parent, d) (c, cancel)
  requires parent: parent != nil
  ensures derived: c != nil && cancel != nil && ctxvals(c) == ctxvals(parent) && ctxdone(c) != 0 && allocated(ctxdone(c))
functype "context.CancelFunc" ()

define callFut() = tf[old(tn)]
define resFut(r) = ref(unbox(r, *Future))
define ended(c) = recvd[ctxdone(c)] > old(recvd[ctxdone(c)])
define outcome(i) = ccf[i] == callFut() && ccm[i] != 0 && (scverd[old(scn)] != nil ==> ccerr[i] == scverd[old(scn)]) && (scverd[old(scn)] == nil ==> ccm[i] == scm[old(scn)])
define ctxEnd(i, r, c) = ended(c) && ccf[i] == resFut(r) && ccerr[i] == ctxerr(c)

func Runtime.ReenterCall(a, id, ty, ev, rmw) (r)
  noblock
  threadmaypanic
  requires receiver: a != nil && a.Sys != nil && okq(a.reenterQueue) && okmsg(rmw) && rmw.Ctx != nil
  requires receives: recvd[ctxdone(rmw.Ctx)] >= 0 && allocated(ctxdone(rmw.Ctx))
  modifies all, scn, scs, scid, scty, scev, scm, scverd, cn, cf, cm, cclosed, ccn, ccf, ccm, ccAt, ccerr, ccres, tn, tf, tcb, tret, pn, pq, pv, recvd
  keeps rmw.Ctx, rmw.Req, rmw.Req.Header, rmw.Req.Header.OrgActorID, rmw.Req.Header.OrgActorType, rmw.Req.Header.PrevActorType
  at after chan.recv(c) (v, ok) set recvd[ref(c)] := recvd[ref(c)] + 1
  // P10: the header rule
  at core.ISystem.Call(s, i, t, e, m) originKept [P10]: old(rmw.Req.Header.OrgActorID) != "" ==> m.Req.Header.OrgActorID == old(rmw.Req.Header.OrgActorID) && m.Req.Header.OrgActorType == old(rmw.Req.Header.OrgActorType)
  at core.ISystem.Call(s, i, t, e, m) originSet [P10]: old(rmw.Req.Header.OrgActorID) == "" ==> m.Req.Header.OrgActorID == old(a.Id) && m.Req.Header.OrgActorType == old(a.Ty)
  at core.ISystem.Call(s, i, t, e, m) latestHop [P10]: m.Req.Header.PrevActorType == old(a.Ty)
  // one call, of the request given, with a work counter of its own
  at core.ISystem.Call(s, i, t, e, m) request [P07]: m != nil && m.Req == old(rmw.Req) && m.Ctx != nil && ctxdone(m.Ctx) == ctxdone(old(rmw.Ctx))
  at core.ISystem.Call(s, i, t, e, m) ownCounter [P07]: m != rmw && counted(m) && fresh(wgp(m)) && wgp(m).counter == 0 && wgp(m).wg == 0
  ensures notYet [P07]: scn == old(scn)
  ensures future [P07]: typeis(r, *Future) && resFut(r) != 0 && fresh(unbox(r, *Future)) && unbox(r, *Future).done != nil && !closed(unbox(r, *Future).done)
  ensures attached [P07]: tn == old(tn) + 1 && callFut() != resFut(r)
  ensures header [P10]: rmw.Req.Header.PrevActorType == old(a.Ty) && rmw.Req.Header.OrgActorID == ite(old(rmw.Req.Header.OrgActorID) == "", old(a.Id), old(rmw.Req.Header.OrgActorID))
  final once [P07,P10]: scn == old(scn) + 1 && scs[old(scn)] == old(a.Sys) && scid[old(scn)] == id && scty[old(scn)] == ty && scev[old(scn)] == ev
  final outcome [P07]: ccn == old(ccn) + 1 && outcome(old(ccn)) || ccn == old(ccn) + 2 && (outcome(old(ccn)) && ctxEnd(old(ccn) + 1, r, rmw.Ctx) || ctxEnd(old(ccn), r, rmw.Ctx) && outcome(old(ccn) + 1))
  final endNoticed [P07]: ended(rmw.Ctx) ==> ccn == old(ccn) + 2
  final watched [P07]: ended(rmw.Ctx) || recvd[ref(cast(callFut(), *Future).done)] > old(recvd)[ref(cast(callFut(), *Future).done)] || recvd[ref(unbox(r, *Future).done)] > old(recvd)[ref(unbox(r, *Future).done)]
  at chan.wait() watchesContext [P07]: waiting(ctxdone(old(rmw.Ctx)))
  // when the call is over, its outcome goes to the actor's loop
  apply cb(ret) is cast(tcb[old(tn)], func(*msg.Wrapper))
  given ready: okq(a.reenterQueue)
  applied queued [P07]: pn == old(pn) + 1 && pq[old(pn)] == ref(a.reenterQueue) && typeis(pv[old(pn)], *reenterMessage) && unbox(pv[old(pn)], *reenterMessage).msg == box(ret, *msg.Wrapper)
  applied notApplied [P07]: ccn == old(ccn)
  // and is applied there
  apply act(w) after cb is unbox(pv[pn - 1], *reenterMessage).action
  applied failed [P07]: old(w.Err) != nil ==> rmw.Err == old(w.Err)
  applied succeeded [P07]: old(w.Err) == nil ==> rmw.Res == old(w.Res)
  applied resolved [P07]: ccn == old(ccn) + 1 && ccf[old(ccn)] == resFut(r) && ccm[old(ccn)] == ref(rmw) && (old(w.Err) != nil ==> ccerr[old(ccn)] == old(w.Err)) && (old(w.Err) == nil ==> ccres[old(ccn)] == ref(old(w.Res)))

// ---- P19: an actor's subscription ----
ghost ssn int
ghost ssc int
ghost sserr val
ghost arn int
ghost oen int
iface core.ISystem.Sub(s, topic, channel, opts) (ch, err)
  maypanic
  modifies all
  set ssn := ssn + 1
  set ssc := ref(ch)
  set sserr := err
  ensures made: err == nil ==> ch != nil && ch.msgCh != nil && ch.msgCh.c != nil && thdredis.client != nil
func Runtime.Sub(a, topic, channel, cb, opts) (err)
  maypanic
  requires actor: a != nil && a.Sys != nil && a.q != nil && a.q.C != nil && a.chains != nil && cb != nil
  modifies all, ssn, ssc, sserr, arn, oen, mkn, mkf, mkctx, mkres, rn, rname, rret, rval, pcur, phex, phval, psmem, pwr, hex, hval, smem, execn, execok, execerr, pn, pq, pv, gotv, pushed, acked, dropd, applied, hns
  start ssn := 0
  start arn := 0
  start oen := 0
  at core.ISystem.Sub(s, t, c, o) asks [P19]: s == a.Sys && t == topic && c == channel && o == opts && ssn == 0
  at pubsub.Channel.Arrived(c, q) own [P19]: ssn == 1 && sserr == nil && ref(c) == ssc && q == a.q && arn == 0
  at after pubsub.Channel.Arrived(c, q) set arn := arn + 1
  at Runtime.OnEvent(r, e, f) handler [P19]: r == a && e == channel && f == cb && arn == 1 && oen == 0
  at after Runtime.OnEvent(r, e, f) set oen := oen + 1
  ensures subscribed [P19]: err == nil <==> sserr == nil
  ensures once [P19]: ssn == 1 && (err == nil ==> arn == 1 && oen == 1) && (err != nil ==> arn == 0 && oen == 0)
