package core/node
import core github.com/pojol/braid/core
import msg github.com/pojol/braid/router/msg
import router github.com/pojol/braid/router
import wg github.com/pojol/braid/lib/warpwaitgroup
import sync sync
import time time
import context context
import addressbook github.com/pojol/braid/core/addressbook
import tracer github.com/pojol/braid/lib/tracer
import grpc github.com/pojol/braid/lib/grpc
import trdredis github.com/pojol/braid/3rd/redis
import pubsub github.com/pojol/braid/lib/pubsub
import def github.com/pojol/braid/def

stable NormalSystem.actoridmap NormalSystem.registering NormalSystem.addressbook NormalSystem.client NormalSystem.factory NormalSystem.loader NormalSystem.ps NormalSystem.acceptor NormalSystem.trac NormalSystem.nodeID NormalSystem.nodeIP NormalSystem.nodePort NormalSystem.callTimeout : core/node.buildSystemWithOption

monitor NormalSystem.RWMutex guards actoridmap registering [P32]

// ---- P08, P09: messages handed to actors: to which, which, with what verdict ----
ghost dvn int
ghost dva [int]val
ghost dvm [int]int
ghost dverr [int]val
iface core.IActor.Received(a, m) (err)
  maypanic
  requires message: m != nil
  modifies all
  set dva[dvn] := a
  set dvm[dvn] := ref(m)
  set dverr[dvn] := err
  set dvn := dvn + 1

// what the running goroutine knows: that the target has taken the message; that the work
// counted for it was seen finished after that. Closing or sending on a channel passes it on.
threadghost knTaken bool
threadghost knDrained bool
ghost chTaken [int]bool
ghost chDrained [int]bool
// the channel the call's timeout fires on
ghost tmo int
ghost tmoFired bool

define wgq(w) = unbox(ctxval(w.Ctx, box(zero(msg.WaitGroupKey), msg.WaitGroupKey)), *wg.WrapWaitGroup)
define countedq(w) = w.Ctx != nil && typeis(ctxval(w.Ctx, box(zero(msg.WaitGroupKey), msg.WaitGroupKey)), *wg.WrapWaitGroup) && wgq(w) != nil
define okmsgq(w) = w != nil && w.Req != nil && w.Req.Header != nil
define rootmsg(mw) = old(wgq(mw).counter) == 0
define took(mw, a) = dvn == old(dvn) + 1 && dva[old(dvn)] == a && dvm[old(dvn)] == ref(mw)

func NormalSystem.localCall(sys, actorp, mw) (err)
  maypanic
  requires call: sys != nil && actorp != nil && okmsgq(mw) && countedq(mw)
  requires context: allocated(ctxdone(mw.Ctx))
  start knTaken := false
  start knDrained := false
  start tmo := 0
  start tmoFired := false
  requires receives: recvd[ctxdone(mw.Ctx)] >= 0
  modifies all, dvn, dva, dvm, dverr, knTaken, knDrained, chTaken, chDrained, tmo, tmoFired, recvd, afd
  keeps mw.Ctx, mw.Req, mw.Req.Header, mw.Done
  at after core.IActor.Received(a, m) (e) set knTaken := true
  at after sync.WaitGroup.Wait(w) set knDrained := knDrained || knTaken && ref(w) == addr(wgq(mw).wg)
  at chan.close(c) set chTaken[ref(c)] := knTaken
  at chan.close(c) set chDrained[ref(c)] := knDrained
  at chan.send(c, v) set chTaken[ref(c)] := knTaken
  at chan.send(c, v) set chDrained[ref(c)] := knDrained
  at after chan.recv(c) (v, ok) set knTaken := knTaken || chTaken[ref(c)]
  at after chan.recv(c) (v, ok) set knDrained := knDrained || chDrained[ref(c)]
  at after chan.recv(c) (v, ok) set tmoFired := tmoFired || ref(c) == tmo
  at after chan.recv(c) (v, ok) set recvd[ref(c)] := recvd[ref(c)] + 1
  at after time.After(d) (c) set tmo := ite(d == sys.callTimeout, ref(c), tmo)
  at chan.recv(c) join ours: fresh(c) && ref(c) != tmo
  at chan.close(c) assume onlyHere: ref(c) == ref(mw.Done) ==> !closed(c)
  // handed over once
  at core.IActor.Received(a, m) handed [P08,P09]: a == actorp && m == mw && dvn == old(dvn) && !inthread()
  ensures handed [P08,P09]: took(mw, actorp)
  // the verdict of the target
  ensures nested [P08]: !rootmsg(mw) ==> err == dverr[old(dvn)]
  ensures refused [P08]: rootmsg(mw) && dverr[old(dvn)] != nil ==> err != nil
  // success only when the work is done
  ensures success [P08]: rootmsg(mw) && err == nil ==> knDrained
  ensures contextEnded [P08]: rootmsg(mw) && recvd[ctxdone(mw.Ctx)] > old(recvd[ctxdone(mw.Ctx)]) ==> err != nil
  ensures timedOut [P08]: tmoFired ==> err != nil
  at chan.wait() watchesContext [P08]: inthread() || waiting(ctxdone(mw.Ctx))
  at chan.wait() watchesLimit [P08]: inthread() && knTaken ==> waiting(tmo)
  final finished [P08]: rootmsg(mw) ==> closed(mw.Done)

// ---- P09: routing ----
global selfCallError [P09]: ErrSelfCall != nil
// what the address book answered last, if it was asked
ghost asked bool
ghost pickId string
ghost pickIp string
ghost pickPort int
ghost pickErr val
// records taken out of the address book; the verdict of a local call
ghost aun int
ghost lcerr val
ghost rrep val
// spans begun and ended
ghost sbn int
ghost sen int
ufun atype(val) string
iface core.IActor.Type(a) (t)
  ensures def: t == atype(a)
iface tracer.ITracer.GetSpan(t, s) (sp, err)
  ensures made: err == nil ==> sp != nil
iface tracer.ISpan.Begin(s, ctx) (c)
  set sbn := sbn + 1
  ensures derived: c != nil && ctxdone(c) == ctxdone(ctx) && ctxval(c, box(zero(msg.WaitGroupKey), msg.WaitGroupKey)) == ctxval(ctx, box(zero(msg.WaitGroupKey), msg.WaitGroupKey))
iface tracer.ISpan.SetTag(s, k, v)
iface tracer.ISpan.End(s, ctx)
  set sen := sen + 1
iface core.IActorFactory.Get(f, ty) (c)
  ensures def: ref(c) == facget(f, ty)
ufun facget(val, string) int
define declared(sys, ty) = ite(facget(sys.factory, ty) == 0, 0, cast(facget(sys.factory, ty), *core.ActorConstructor).Weight)

define okNode(sys) = sys != nil && sys.addressbook != nil && sys.addressbook.IDMap != nil && trdredis.client != nil && sys.client != nil && sys.factory != nil && !has(sys.actoridmap, "") && all(k, string, has(sys.actoridmap, k) ==> sys.actoridmap[k] != nil)
define isLocal(sys, k) = has(sys.actoridmap, k)
define noneOfType(sys, ty) = all(k, string, has(sys.actoridmap, k) ==> atype(sys.actoridmap[k]) != ty)
define ownAddr(sys) = pickIp == sys.nodeIP && pickPort == sys.nodePort
// the local actor a message for id goes to
define goesTo(sys, id, ty, a) = ite(id == def.SymbolWildcard, asked && pickErr == nil && isLocal(sys, pickId) && a == sys.actoridmap[pickId], ite(id == def.SymbolLocalFirst, ex(k, string, has(sys.actoridmap, k) && sys.actoridmap[k] == a && atype(a) == ty), isLocal(sys, id) && a == sys.actoridmap[id]))
// ... and when there is none
define notHere(sys, id, ty) = ite(id == def.SymbolWildcard, !isLocal(sys, pickId), ite(id == def.SymbolLocalFirst, noneOfType(sys, ty), !isLocal(sys, id)))
define headerSet(m, id, ty, ev) = m.Req.Header.Event == ev && m.Req.Header.TargetActorID == id && m.Req.Header.TargetActorType == ty
define sentN() = dvn - old(dvn) + ivn - old(ivn)
define nothing() = dvn == old(dvn) && ivn == old(ivn)

func NormalSystem.Call(sys, id, ty, ev, mw) (err)
  maypanic
  requires node: okNode(sys)
  requires message: okmsgq(mw) && countedq(mw) && allocated(ctxdone(mw.Ctx)) && recvd[ctxdone(mw.Ctx)] >= 0
  modifies all, dvn, dva, dvm, dverr, knTaken, knDrained, chTaken, chDrained, tmo, tmoFired, recvd, afd, asked, pickId, pickIp, pickPort, pickErr, aun, lcerr, rrep, sbn, sen, ldm, ldk, dln, dla, ivn, ivc, ivm, iva, ivr, ive, rn, rname, rret, rval, rfail, sampled, hex, hval, smem, pcur, phex, phval, psmem, pwr, execn, execok, execerr
  start asked := false
  at after addressbook.AddressBook.GetWildcardActor(b, c, t) (i, e) set asked := true
  at after addressbook.AddressBook.GetWildcardActor(b, c, t) (i, e) set pickId := i.ActorId
  at after addressbook.AddressBook.GetWildcardActor(b, c, t) (i, e) set pickIp := i.Ip
  at after addressbook.AddressBook.GetWildcardActor(b, c, t) (i, e) set pickPort := i.Port
  at after addressbook.AddressBook.GetWildcardActor(b, c, t) (i, e) set pickErr := e
  at after addressbook.AddressBook.GetByID(b, c, k) (i, e) set asked := true
  at after addressbook.AddressBook.GetByID(b, c, k) (i, e) set pickId := i.ActorId
  at after addressbook.AddressBook.GetByID(b, c, k) (i, e) set pickIp := i.Ip
  at after addressbook.AddressBook.GetByID(b, c, k) (i, e) set pickPort := i.Port
  at after addressbook.AddressBook.GetByID(b, c, k) (i, e) set pickErr := e
  // the address book is asked for what is not resolved here
  at addressbook.AddressBook.GetWildcardActor(b, c, t) asks [P09]: b == sys.addressbook && t == ty && !asked && (id == def.SymbolWildcard || id == def.SymbolLocalFirst && noneOfType(sys, ty))
  at addressbook.AddressBook.GetByID(b, c, k) asks [P09]: b == sys.addressbook && k == id && !asked && id != def.SymbolWildcard && id != def.SymbolLocalFirst && !isLocal(sys, id)
  // one local actor ...
  at NormalSystem.localCall(s, a, m) local [P09]: s == sys && m == mw && nothing() && id != "" && goesTo(sys, id, ty, a)
  at NormalSystem.localCall(s, a, m) header [P09]: headerSet(m, id, ty, ev) && m.Req == old(mw.Req)
  at after NormalSystem.localCall(s, a, m) (e) set lcerr := e
  // ... or the node the address book names
  at grpc.Client.CallWait(c, x, a, method, args, reply, o) remote [P09]: c == sys.client && nothing() && id != "" && asked && pickErr == nil && notHere(sys, id, ty) && !ownAddr(sys)
  at grpc.Client.CallWait(c, x, a, method, args, reply, o) address [P09]: a == cat(pickIp, ":", itoa(pickPort)) && method == "/router.Acceptor/routing"
  at grpc.Client.CallWait(c, x, a, method, args, reply, o) request [P09]: typeis(args, *router.RouteReq) && unbox(args, *router.RouteReq).Msg == mw.Req && mw.Req == old(mw.Req) && headerSet(mw, id, ty, ev) && typeis(reply, *router.RouteRes)
  at after grpc.Client.CallWait(c, x, a, method, args, reply, o) (e) set rrep := reply
  // a record of this node for an actor that is not here
  at addressbook.AddressBook.Unregister(b, c, i, w) stale [P09]: b == sys.addressbook && asked && pickErr == nil && ownAddr(sys) && notHere(sys, id, ty) && i == pickId && w == declared(sys, ty)
  at after addressbook.AddressBook.Unregister(b, c, i, w) (e) set aun := aun + 1
  ensures empty [P09]: id == "" ==> err != nil && nothing() && !asked && aun == old(aun)
  ensures once [P09]: sentN() <= 1 && (err == nil ==> sentN() == 1)
  ensures unresolved [P09]: asked && pickErr != nil ==> err != nil && nothing() && aun == old(aun)
  ensures stale [P09]: asked && pickErr == nil && ownAddr(sys) && dvn == old(dvn) ==> err == ErrSelfCall && nothing() && aun == old(aun) + 1
  ensures notStale [P09]: aun > old(aun) ==> err == ErrSelfCall && nothing() && aun == old(aun) + 1
  ensures verdict [P08,P09]: dvn == old(dvn) + 1 ==> err == lcerr
  ensures response [P09]: dvn == old(dvn) && err == nil ==> mw.Res == unbox(rrep, *router.RouteRes).Msg
  ensures spans [P31]: sbn - old(sbn) == sen - old(sen)
  panics spans [P31]: sbn - old(sbn) == sen - old(sen)
  loop(): all(k, string, visited()[k] ==> atype(sys.actoridmap[k]) != ty)

func NormalSystem.Send(sys, id, ty, ev, mw) (err)
  maypanic
  requires node: okNode(sys)
  requires message: okmsgq(mw) && countedq(mw) && allocated(ctxdone(mw.Ctx))
  modifies all, dvn, dva, dvm, dverr, asked, pickId, pickIp, pickPort, pickErr, aun, sbn, sen, ldm, ldk, dln, dla, ivn, ivc, ivm, iva, ivr, ive, rn, rname, rret, rval, rfail, sampled, hex, hval, smem, pcur, phex, phval, psmem, pwr, execn, execok, execerr
  start asked := false
  at after addressbook.AddressBook.GetWildcardActor(b, c, t) (i, e) set asked := true
  at after addressbook.AddressBook.GetWildcardActor(b, c, t) (i, e) set pickId := i.ActorId
  at after addressbook.AddressBook.GetWildcardActor(b, c, t) (i, e) set pickIp := i.Ip
  at after addressbook.AddressBook.GetWildcardActor(b, c, t) (i, e) set pickPort := i.Port
  at after addressbook.AddressBook.GetWildcardActor(b, c, t) (i, e) set pickErr := e
  at after addressbook.AddressBook.GetByID(b, c, k) (i, e) set asked := true
  at after addressbook.AddressBook.GetByID(b, c, k) (i, e) set pickId := i.ActorId
  at after addressbook.AddressBook.GetByID(b, c, k) (i, e) set pickIp := i.Ip
  at after addressbook.AddressBook.GetByID(b, c, k) (i, e) set pickPort := i.Port
  at after addressbook.AddressBook.GetByID(b, c, k) (i, e) set pickErr := e
  // the address book is asked for what is not resolved here
  at addressbook.AddressBook.GetWildcardActor(b, c, t) asks [P09]: b == sys.addressbook && t == ty && !asked && (id == def.SymbolWildcard || id == def.SymbolLocalFirst && noneOfType(sys, ty))
  at addressbook.AddressBook.GetByID(b, c, k) asks [P09]: b == sys.addressbook && k == id && !asked && id != def.SymbolWildcard && id != def.SymbolLocalFirst && !isLocal(sys, id)
  // one local actor ...
  at core.IActor.Received(a, m) local [P09]: m == mw && nothing() && id != "" && goesTo(sys, id, ty, a)
  at core.IActor.Received(a, m) header [P09]: headerSet(m, id, ty, ev) && m.Req == old(mw.Req)
  // ... or the node the address book names
  at grpc.Client.CallWait(c, x, a, method, args, reply, o) remote [P09]: c == sys.client && nothing() && id != "" && asked && pickErr == nil && notHere(sys, id, ty) && !ownAddr(sys)
  at grpc.Client.CallWait(c, x, a, method, args, reply, o) address [P09]: a == cat(pickIp, ":", itoa(pickPort)) && method == "/router.Acceptor/routing"
  at grpc.Client.CallWait(c, x, a, method, args, reply, o) request [P09]: typeis(args, *router.RouteReq) && unbox(args, *router.RouteReq).Msg == mw.Req && mw.Req == old(mw.Req) && headerSet(mw, id, ty, ev) && typeis(reply, *router.RouteRes)
  // a record of this node for an actor that is not here
  at addressbook.AddressBook.Unregister(b, c, i, w) stale [P09]: b == sys.addressbook && asked && pickErr == nil && ownAddr(sys) && notHere(sys, id, ty) && i == pickId && w == declared(sys, ty)
  at after addressbook.AddressBook.Unregister(b, c, i, w) (e) set aun := aun + 1
  ensures empty [P09]: id == "" ==> err != nil && nothing() && !asked && aun == old(aun)
  ensures once [P09]: sentN() <= 1 && (err == nil ==> sentN() == 1)
  ensures unresolved [P09]: asked && pickErr != nil ==> err != nil && nothing() && aun == old(aun)
  ensures stale [P09]: asked && pickErr == nil && ownAddr(sys) && dvn == old(dvn) ==> err == ErrSelfCall && nothing() && aun == old(aun) + 1
  ensures notStale [P09]: aun > old(aun) ==> err == ErrSelfCall && nothing() && aun == old(aun) + 1
  ensures verdict [P09]: dvn == old(dvn) + 1 ==> err == dverr[old(dvn)]
  ensures spans [P31]: sbn - old(sbn) == sen - old(sen)
  panics spans [P31]: sbn - old(sbn) == sen - old(sen)
  loop(): all(k, string, visited()[k] ==> atype(sys.actoridmap[k]) != ty)

// ---- P11: the RPC entry point ----
ghost resAt int
func listen.Routing(s, ctx, req) (res, err)
  maypanic
  requires request: s != nil && s.sys != nil && ctx != nil && req != nil && req.Msg != nil && req.Msg.Header != nil
  modifies all, scn, scs, scid, scty, scev, scm, scverd, resAt
  keeps req.Msg, req.Msg.Header
  at after core.ISystem.Call(y, i, t, e, m) (r) set resAt := ref(m.Res)
  at core.ISystem.Call(y, i, t, e, m) addressed [P11]: y == s.sys && i == req.Msg.Header.TargetActorID && t == req.Msg.Header.TargetActorType && e == req.Msg.Header.Event
  at core.ISystem.Call(y, i, t, e, m) message [P11]: m != nil && m.Req == old(req.Msg) && m.Req.Header == old(req.Msg.Header) && m.Req.Body == old(req.Msg.Body) && sameExcept(req.Msg.Header, PrevActorType)
  at core.ISystem.Call(y, i, t, e, m) ready [P11]: countedq(m) && fresh(wgq(m)) && wgq(m).counter == 0 && wgq(m).wg == 0 && ctxdone(m.Ctx) == ctxdone(ctx) && m.Res != nil && m.Err == nil && scn == old(scn)
  ensures once [P11]: scn == old(scn) + 1
  ensures failed [P11]: scverd[old(scn)] != nil ==> err == scverd[old(scn)]
  ensures answered [P11]: scverd[old(scn)] == nil ==> err == nil && res != nil && ref(res.Msg) == resAt

// ---- P15: registering actors ----
ufun bldId(val) string
ufun bldTy(val) string
ufun bldWeight(val) int
ufun bldUnique(val) bool
ufun bldLimit(val) int
ufun bldCon(val) int
iface core.IActorBuilder.GetID(b) (r)
  ensures def: r == bldId(b)
iface core.IActorBuilder.GetType(b) (r)
  ensures def: r == bldTy(b)
iface core.IActorBuilder.GetWeight(b) (r)
  ensures def: r == bldWeight(b)
iface core.IActorBuilder.GetNodeUnique(b) (r)
  ensures def: r <==> bldUnique(b)
iface core.IActorBuilder.GetGlobalQuantityLimit(b) (r)
  ensures def: r == bldLimit(b)
iface core.IActorBuilder.GetConstructor(b) (r)
  ensures def: ref(r) == bldCon(b)
// actors constructed, initialised, stopped
ghost cnn int
ghost cnr [int]val
functype "core.CreateFunc" (b) (a)
  maypanic
  modifies all
  set cnr[cnn] := a
  set cnn := cnn + 1
  ensures made: a != nil
ghost inn int
iface core.IActor.Init(a, ctx)
  maypanic
  modifies all
  set inn := inn + 1
ghost stn int
iface core.IActor.Exit(a)
  maypanic
  modifies all
  set stn := stn + 1
iface core.IActor.ID(a) (id)
// what the address book said
ghost cntAsked bool
ghost cntSeen int
ghost cntErr val
ghost told int
ghost toldErr val
define tooMany(b) = bldLimit(b) != 0 && (cntErr != nil || cntSeen >= bldLimit(b))
define taken(sys, b) = has(sys.actoridmap, bldId(b)) || has(sys.registering, bldId(b)) || bldUnique(b) && (ex(k, string, has(sys.actoridmap, k) && atype(sys.actoridmap[k]) == bldTy(b)) || ex(k, string, has(sys.registering, k) && sys.registering[k] == bldTy(b)))

func NormalSystem.Register(sys, ctx, b) (a, err)
  maypanic
  requires node: sys != nil && sys.addressbook != nil && sys.addressbook.IDMap != nil && trdredis.client != nil && sys.actoridmap != nil && sys.registering != nil && all(k, string, has(sys.actoridmap, k) ==> sys.actoridmap[k] != nil)
  requires builder: b != nil && bldCon(b) != 0
  modifies all, cnn, cnr, inn, cntAsked, cntSeen, cntErr, told, toldErr, rn, rname, rret, rval, hex, hval, smem, pcur, phex, phval, psmem, pwr, execn, execok, execerr
  start cntAsked := false
  start told := 0
  at addressbook.AddressBook.GetActorTypeCount(k, c, t) counts [P15]: k == sys.addressbook && t == bldTy(b)
  at after addressbook.AddressBook.GetActorTypeCount(k, c, t) (n, e) set cntAsked := true
  at after addressbook.AddressBook.GetActorTypeCount(k, c, t) (n, e) set cntSeen := n
  at after addressbook.AddressBook.GetActorTypeCount(k, c, t) (n, e) set cntErr := e
  at addressbook.AddressBook.Register(k, c, t, i, w) tellsFirst [P15]: k == sys.addressbook && t == bldTy(b) && i == bldId(b) && w == bldWeight(b) && told == 0 && cnn == old(cnn)
  at addressbook.AddressBook.Register(k, c, t, i, w) allowed [P15]: bldId(b) != "" && bldTy(b) != "" && !old(taken(sys, b)) && (bldLimit(b) != 0 ==> cntAsked && cntErr == nil && cntSeen < bldLimit(b))
  at addressbook.AddressBook.Register(k, c, t, i, w) reserved [P15]: has(sys.registering, bldId(b)) && sys.registering[bldId(b)] == bldTy(b)
  at after addressbook.AddressBook.Register(k, c, t, i, w) (e) set told := told + 1
  at after addressbook.AddressBook.Register(k, c, t, i, w) (e) set toldErr := e
  at "core.CreateFunc"(bb) constructs [P15]: ref(self) == bldCon(b) && bb == b && told == 1 && toldErr == nil && cnn == old(cnn)
  at core.IActor.Init(x, c) initialises [P15]: x == cnr[old(cnn)] && cnn == old(cnn) + 1 && inn == old(inn)
  ensures refused [P15]: bldId(b) == "" || bldTy(b) == "" || old(taken(sys, b)) || cntAsked && tooMany(b) || told > 0 && toldErr != nil ==> err != nil
  ensures unchanged [P15]: err != nil ==> cnn == old(cnn) && inn == old(inn) && (told == 0 || toldErr != nil) && dom(sys.actoridmap) == old(dom(sys.actoridmap)) && vals(sys.actoridmap) == old(vals(sys.actoridmap)) && dom(sys.registering) == old(dom(sys.registering))
  ensures done [P15]: err == nil ==> told == 1 && cnn == old(cnn) + 1 && inn == old(inn) + 1 && a == cnr[old(cnn)] && has(sys.actoridmap, bldId(b)) && sys.actoridmap[bldId(b)] == a
  ensures released [P15]: err == nil ==> !has(sys.registering, bldId(b))
  panics released [P15]: told > 0 ==> !has(sys.registering, bldId(b))
  loop(): all(k, string, visited()[k] ==> atype(sys.actoridmap[k]) != bldTy(b))
  loop(): all(k, string, visited()[k] ==> sys.registering[k] != bldTy(b))

// the check and the reservation are one step, whatever other goroutines do
define nl() = "core/node.NormalSystem.RWMutex"
func NormalSystem.reserve@concurrent(sys, b) (err)
  maypanic
  mayrtpanic
  concurrent
  requires node: sys != nil && b != nil && sys.actoridmap != nil && sys.registering != nil
  modifies all
  at core.IActor.Type(a) assume present: a != nil
  ensures refused [P15]: acq("core/node.NormalSystem.RWMutex", taken(sys, b)) ==> err != nil
  ensures accepted [P15]: !acq("core/node.NormalSystem.RWMutex", taken(sys, b)) ==> err == nil && rel("core/node.NormalSystem.RWMutex", has(sys.registering, bldId(b)) && sys.registering[bldId(b)] == bldTy(b))
  ensures othersKept [P15]: rel("core/node.NormalSystem.RWMutex", dom(sys.actoridmap)) == acq("core/node.NormalSystem.RWMutex", dom(sys.actoridmap))
  loop(): all(k, string, visited()[k] ==> atype(sys.actoridmap[k]) != bldTy(b))
  loop(): all(k, string, visited()[k] ==> sys.registering[k] != bldTy(b))

func NormalSystem.FindActor(sys, ctx, id) (a, err)
  requires node: sys != nil
  ensures found [P15,P16]: err == nil ==> has(sys.actoridmap, id) && a == sys.actoridmap[id]
  ensures missing [P15,P16]: !has(sys.actoridmap, id) ==> err != nil && a == nil
  ensures present [P15]: has(sys.actoridmap, id) ==> err == nil

// ---- P16: taking actors out ----
// the table when the actor had been stopped
ghost tab [string]bool
ghost tabv [string]val
ghost unn int
func NormalSystem.Unregister(sys, id, ty) (err)
  maypanic
  requires node: sys != nil && sys.addressbook != nil && sys.addressbook.IDMap != nil && trdredis.client != nil && sys.factory != nil && (has(sys.actoridmap, id) ==> sys.actoridmap[id] != nil)
  modifies all, stn, unn, tab, tabv, rn, rname, rret, rval, hex, hval, smem, pcur, phex, phval, psmem, pwr, execn, execok, execerr
  start tab := dom(sys.actoridmap)
  start tabv := vals(sys.actoridmap)
  at core.IActor.Exit(a) stops [P16]: old(has(sys.actoridmap, id)) && has(sys.actoridmap, id) && a == sys.actoridmap[id] && stn == old(stn)
  at after core.IActor.Exit(a) set tab := dom(sys.actoridmap)
  at after core.IActor.Exit(a) set tabv := vals(sys.actoridmap)
  at after core.IActor.Exit(a) assume bookStays: sys.addressbook.IDMap != nil && trdredis.client != nil
  at addressbook.AddressBook.Unregister(b, c, i, w) record [P16]: b == sys.addressbook && i == id && facget(sys.factory, ty) != 0 && w == declared(sys, ty) && unn == old(unn)
  at after addressbook.AddressBook.Unregister(b, c, i, w) (e) set unn := unn + 1
  ensures once [P16]: stn == old(stn) + ite(old(has(sys.actoridmap, id)), 1, 0)
  ensures forgotten [P16]: dom(sys.actoridmap) == store(tab, id, false) || !old(has(sys.actoridmap, id)) && dom(sys.actoridmap) == tab
  ensures others [P16]: all(k, string, k != id ==> vals(sys.actoridmap)[k] == tabv[k])
  ensures record [P16]: unn == old(unn) + ite(facget(sys.factory, ty) != 0, 1, 0)
  ensures unknown [P16]: facget(sys.factory, ty) == 0 ==> err != nil
  ensures done [P16]: facget(sys.factory, ty) != 0 ==> err == nil

// ---- P18, P19, P37: topics of this node ----
ghost tpn int
ghost tperr val
ghost tpc int
func NormalSystem.Pub(sys, topic, event, body) (err)
  maypanic
  requires node: sys != nil && okps(sys.ps) && sys.ps.topicMap != nil && trdredis.client != nil
  modifies entries(sys.ps.topicMap), rn, rname, rret, xan, xar, xstreams, xset, xready, optn, optf, optp, hex, hval, smem, tpn, tperr
  start tpn := 0
  at pubsub.Pubsub.GetOrCreateTopic(p, n, o) own [P18]: p == sys.ps && n == topic
  at pubsub.Topic.Pub(t, c, e, b) own [P18]: t.topic == topic && e == event && b == body && tpn == 0
  at after pubsub.Topic.Pub(t, c, e, b) (r) set tpn := tpn + 1
  at after pubsub.Topic.Pub(t, c, e, b) (r) set tperr := r
  ensures once [P18]: tpn == 1
  ensures verdict [P18]: err == tperr
func NormalSystem.Sub(sys, topic, channel, opts) (ch, err)
  maypanic
  mayrtpanic
  requires node: sys != nil && okps(sys.ps) && sys.ps.topicMap != nil && trdredis.client != nil
  modifies all, rn, rname, rret, xan, xar, xstreams, xset, xready, optn, optf, optp, hex, hval, smem, xcmd, xput, xused, grpn, grpr, lps, tpn, tperr, tpc
  keeps trdredis.client
  start tpn := 0
  at pubsub.Pubsub.GetOrCreateTopic(p, n, o) own [P37]: p == sys.ps && n == topic && o == opts
  at pubsub.Topic.Sub(t, x, c, o) own [P19]: t.topic == topic && c == channel && tpn == 0
  at after pubsub.Topic.Sub(t, x, c, o) (r, e) set tpn := tpn + 1
  at after pubsub.Topic.Sub(t, x, c, o) (r, e) set tperr := e
  at after pubsub.Topic.Sub(t, x, c, o) (r, e) set tpc := ref(r)
  ensures once [P19]: tpn == 1
  ensures verdict [P19]: err == tperr && ref(ch) == tpc
