package lib/pubsub
import thdredis github.com/pojol/braid/3rd/redis
import redis github.com/redis/go-redis/v9
import mpsc github.com/pojol/braid/lib/mpsc
import unbounded github.com/pojol/braid/lib/unbounded
import router github.com/pojol/braid/router
import msg github.com/pojol/braid/router/msg
import wg github.com/pojol/braid/lib/warpwaitgroup
import context context
import uuid github.com/google/uuid

stable Topic.topic Topic.ps Topic.channelMap : lib/pubsub.newTopic
stable Pubsub.topicMap : lib/pubsub.BuildWithOption
stable Channel.topic Channel.channel Channel.consumer Channel.msgCh : lib/pubsub.newChannel
monitor Pubsub.RWMutex guards topicMap [P32]
monitor Topic.RWMutex guards channelMap [P32]

// ---- P18: publishing ----
// the fields of an entry, given as text pairs or as a map
define pairs(v, m, e) = len(v) == 4 && (v[0] == "msg" && v[1] == m && v[2] == "event" && v[3] == e || v[2] == "msg" && v[3] == m && v[0] == "event" && v[1] == e)
define anyOf(x, s) = typeis(x, string) && unbox(x, string) == s || typeis(x, []byte) && str(unbox(x, []byte)) == s
define entry(v, m, e) = typeis(v, []string) && pairs(unbox(v, []string), m, e) || typeis(v, map[string]interface{}) && all(k, string, has(unbox(v, map[string]interface{}), k) <==> k == "msg" || k == "event") && anyOf(unbox(v, map[string]interface{})["msg"], m) && anyOf(unbox(v, map[string]interface{})["event"], e)
define plain(a) = !a.NoMkStream && a.MaxLen == 0 && a.MinID == ""
// appends made and the reply to the last one
ghost xan int
ghost xar int
ghost xaid string

func Topic.Pub(rt, ctx, event, body) (err)
  requires store: rt != nil && thdredis.client != nil
  modifies rn, rname, rret, xan, xar
  at redis.cmdable.XAdd(c, x, a) appends [P18]: a != nil && a.Stream == rt.topic && plain(a) && (a.ID == "*" || a.ID == "") && entry(a.Values, str(body), event) && event != "" && xan == old(xan)
  at after redis.cmdable.XAdd(c, x, a) (r) set xan := xan + 1
  at after redis.cmdable.XAdd(c, x, a) (r) set xar := ref(r)
  ensures noEvent [P18]: event == "" ==> err != nil && rn == old(rn)
  ensures once [P18]: event != "" ==> xan == old(xan) + 1 && rn == old(rn) + 1
  ensures failed [P18]: event != "" ==> (err == nil <==> scerr(xar) == nil)
  ensures cause [P18]: event != "" && scerr(xar) != nil ==> err == scerr(xar)

// ---- P37: topics ----
define okps(ps) = ps != nil && all(k, string, has(ps.topicMap, k) ==> ps.topicMap[k] != nil && ps.topicMap[k].topic == k && ps.topicMap[k].channelMap != nil)

functype "lib/pubsub.Option" (p)
  modifies fields(p)
functype "lib/pubsub.TopicOption" (p)
  modifies fields(p)
  set optf[optn] := self
  set optp[optn] := ref(p)
  set optn := optn + 1

func BuildWithOption(opts) (ps)
  maypanic
  mayrtpanic
  ensures empty [P37]: ps != nil && fresh(ps) && ps.topicMap != nil && all(k, string, !has(ps.topicMap, k))

func Pubsub.GetTopic(nps, name) (t)
  requires node: nps != nil
  ensures found [P37]: has(nps.topicMap, name) ==> t == nps.topicMap[name]
  ensures missing [P37]: !has(nps.topicMap, name) ==> t == nil

// what the store said about the stream, and the lifetime asked for
ghost xstreams int
ghost xset int
ghost xready bool
define initEntry(v) = typeis(v, []string) && len(unbox(v, []string)) == 4 || typeis(v, map[string]interface{}) && has(unbox(v, map[string]interface{}), "msg") && has(unbox(v, map[string]interface{}), "event")

func newTopic(name, mgr, opts) (t)
  maypanic
  mayrtpanic
  requires store: thdredis.client != nil
  modifies rn, rname, rret, xan, xar, xstreams, xset, xready, optn, optf, optp, hex, hval, smem
  start xready := false
  start xan := 0
  start xset := 0
  at after redis.cmdable.Exists(c, x, ks) (r) set xready := true
  at after redis.cmdable.Exists(c, x, ks) (r) set xstreams := icval(ref(r))
  at redis.cmdable.Exists(c, x, ks) asks [P37]: len(ks) == 1 && ks[0] == name
  at redis.cmdable.XAdd(c, x, a) once [P37]: xan == 0 && xready && xstreams == 0 && a.Stream == name && plain(a) && initEntry(a.Values)
  at after redis.cmdable.XAdd(c, x, a) (r) set xan := xan + 1
  at after redis.cmdable.XAdd(c, x, a) (r) set xar := ref(r)
  at redis.cmdable.XDel(c, x, k, is) own [P37]: xan == 1 && scerr(xar) == nil && k == name && len(is) == 1 && is[0] == cmdstr(xar)
  at redis.cmdable.Expire(c, x, k, d) lifetime [P37]: xan == 1 && xset == 0 && k == name && len(opts) > 0 && d == cast(optp[old(optn)], *topicOptions).ttl && d > 0 && optn == old(optn) + len(opts)
  at after redis.cmdable.Expire(c, x, k, d) (r) set xset := xset + 1
  at redis.cmdable.SAdd(c, x, k, vs) listed [P37]: k == BraidPubsubTopic && len(vs) == 1 && vs[0] == box(name, string)
  ensures made [P37]: t != nil && fresh(t) && t.topic == name && t.ps == mgr && t.channelMap != nil && all(k, string, !has(t.channelMap, k))
  ensures optionsRead [P37]: xan == 1 && scerr(xar) == nil ==> optn == old(optn) + len(opts) && all(i, int, 0 <= i && i < len(opts) ==> optf[old(optn) + i] == opts[i] && optp[old(optn) + i] == optp[old(optn)])
  ensures lifetime [P37]: xan == 1 && scerr(xar) == nil && len(opts) > 0 && cast(optp[old(optn)], *topicOptions).ttl > 0 ==> xset == 1
  ensures only [P37]: all(i, int, old(rn) <= i && i < rn ==> rname[i] == "Exists" || rname[i] == "XAdd" || rname[i] == "XDel" || rname[i] == "Expire" || rname[i] == "SAdd")
  loop(_k int): optn == old(optn) + _k && _k <= len(opts)
  loop(_k int, _q *topicOptions): all(i, int, 0 <= i && i < _k ==> optf[old(optn) + i] == opts[i] && optp[old(optn) + i] == ref(_q))
  loop(_k int, _q *topicOptions): _k == 0 ==> _q.ttl == 0

define others(ps, name) = all(k, string, k != name ==> (has(ps.topicMap, k) <==> old(has(ps.topicMap, k))) && ps.topicMap[k] == old(ps.topicMap[k]))
func Pubsub.CreateTopic(nps, name, opts) (t)
  maypanic
  requires node: okps(nps) && nps.topicMap != nil && thdredis.client != nil
  modifies entries(nps.topicMap), rn, rname, rret, xan, xar, xstreams, xset, xready, optn, optf, optp, hex, hval, smem
  at newTopic(n, m, o) new [P37]: n == name && m == nps && o == opts && !old(has(nps.topicMap, name))
  ensures valid [P37]: okps(nps)
  ensures result [P37]: has(nps.topicMap, name) && t == nps.topicMap[name] && t.topic == name
  ensures same [P37]: old(has(nps.topicMap, name)) ==> t == old(nps.topicMap[name]) && rn == old(rn)
  ensures others [P37]: others(nps, name)

define pl() = "lib/pubsub.Pubsub.RWMutex"
func Pubsub.CreateTopic@concurrent(nps, name, opts) (t)
  maypanic
  mayrtpanic
  concurrent
  requires node: nps != nil && thdredis.client != nil
  modifies all, rn, rname, rret, xan, xar, xstreams, xset, xready, optn, optf, optp, hex, hval, smem
  ensures kept [P37]: all(k, string, acq("lib/pubsub.Pubsub.RWMutex", has(nps.topicMap, k)) ==> rel("lib/pubsub.Pubsub.RWMutex", has(nps.topicMap, k) && nps.topicMap[k] == acq("lib/pubsub.Pubsub.RWMutex", nps.topicMap[k])))
  ensures others [P37]: all(k, string, k != name && !acq("lib/pubsub.Pubsub.RWMutex", has(nps.topicMap, k)) ==> !rel("lib/pubsub.Pubsub.RWMutex", has(nps.topicMap, k)))
  ensures result [P37]: rel("lib/pubsub.Pubsub.RWMutex", has(nps.topicMap, name) && nps.topicMap[name] == t)

func Pubsub.GetOrCreateTopic(nps, name, opts) (t)
  maypanic
  requires node: okps(nps) && nps.topicMap != nil && thdredis.client != nil
  modifies entries(nps.topicMap), rn, rname, rret, xan, xar, xstreams, xset, xready, optn, optf, optp, hex, hval, smem
  at Pubsub.CreateTopic(m, n, o) new [P37]: m == nps && n == name && o == opts
  ensures valid [P37]: okps(nps)
  ensures result [P37]: has(nps.topicMap, name) && t == nps.topicMap[name] && t.topic == name
  ensures same [P37]: old(has(nps.topicMap, name)) ==> t == old(nps.topicMap[name]) && rn == old(rn)
  ensures others [P37]: others(nps, name)

func Pubsub.GetOrCreateTopic@concurrent(nps, name, opts) (t)
  maypanic
  mayrtpanic
  concurrent
  requires node: nps != nil && thdredis.client != nil
  modifies all, rn, rname, rret, xan, xar, xstreams, xset, xready, optn, optf, optp, hex, hval, smem
  at Pubsub.CreateTopic(m, n, o) assume wellFormed: okps(nps) && nps.topicMap != nil && thdredis.client != nil
  ensures kept [P37]: locked("lib/pubsub.Pubsub.RWMutex") ==> all(k, string, acq("lib/pubsub.Pubsub.RWMutex", has(nps.topicMap, k)) ==> rel("lib/pubsub.Pubsub.RWMutex", has(nps.topicMap, k) && nps.topicMap[k] == acq("lib/pubsub.Pubsub.RWMutex", nps.topicMap[k])))
  ensures result [P37]: locked("lib/pubsub.Pubsub.RWMutex") ==> rel("lib/pubsub.Pubsub.RWMutex", has(nps.topicMap, name) && nps.topicMap[name] == t)

// ---- P19: subscribers ----
// the entries a reply to a group read holds
ufun xcount(int) int
ufun xid(int, int) string
ufun xev(int, int) string
ufun xmsg(int, int) string
define xfields(m, c, i) = m.ID == xid(c, i) && has(m.Values, "msg") && m.Values["msg"] == box(xmsg(c, i), string) && has(m.Values, "event") && m.Values["event"] == box(xev(c, i), string)
define xreply(v, c) = len(v) <= 1 && xcount(c) >= 0 && (len(v) == 0 ==> xcount(c) == 0) && (len(v) == 1 ==> len(v[0].Messages) == xcount(c) && all(i, int, 0 <= i && i < xcount(c) ==> xfields(v[0].Messages[i], c, i)))
extern redis.XStreamSliceCmd.Val(cm) (v)
  ensures one: xreply(v, ref(cm))
extern redis.XStreamSliceCmd.Result(cm) (v, e)
  ensures one: xreply(v, ref(cm))
// the reply being handed on, how many of its entries have been
ghost xcmd int
ghost xput int
// message objects handed on before
ghost xused [int]bool
define asMsg(t) = unbox(t, *router.Message)

func Channel.loop(c)
  fastloops
  requires channel: c != nil && c.msgCh != nil && c.msgCh.c != nil && chcap(c.msgCh.c) >= 1 && !closed(c.msgCh.c) && thdredis.client != nil
  modifies all, rn, rname, rret, xcmd, xput, xused
  keeps thdredis.client
  start xcmd := 0
  start xput := 0
  start xused := constarr("[int]bool", false)
  at redis.cmdable.XReadGroup(cl, x, a) asks [P19]: a.Group == c.channel && a.Consumer == c.consumer && !a.NoAck && len(a.Streams) == 2 && a.Streams[0] == c.topic && a.Streams[1] == ">"
  at redis.cmdable.XReadGroup(cl, x, a) all [P19]: xcmd != 0 ==> xput == xcount(xcmd)
  at after redis.cmdable.XReadGroup(cl, x, a) (r) set xcmd := ref(r)
  at after redis.cmdable.XReadGroup(cl, x, a) (r) set xput := 0
  at unbounded.Unbounded.Put(b, t) assume open: ok(b)
  at unbounded.Unbounded.Put(b, t) order [P19]: b == c.msgCh && xcmd != 0 && xput < xcount(xcmd) && typeis(t, *router.Message) && asMsg(t) != nil && asMsg(t).Header != nil && asMsg(t).Header.ID == xid(xcmd, xput) && asMsg(t).Header.Event == xev(xcmd, xput) && str(asMsg(t).Body) == xmsg(xcmd, xput)
  at unbounded.Unbounded.Put(b, t) own [P19]: !xused[ref(asMsg(t))] && !xused[ref(asMsg(t).Header)]
  at after unbounded.Unbounded.Put(b, t) set xput := xput + 1
  at after unbounded.Unbounded.Put(b, t) set xused[ref(asMsg(t))] := true
  at after unbounded.Unbounded.Put(b, t) set xused[ref(asMsg(t).Header)] := true
  loop(_k index): xput == _k
  loop(_k index): xput == ite(_k == 0, 0, xcount(xcmd))
  loop(): xcmd != 0 ==> xput == xcount(xcmd)
  loop(): xcmd != 0
  loop(): all(i, int, xused[i] ==> allocated(i))

// what was taken off the channel's buffer last, and what has been done about it
ghost gotv val
ghost pushed int
ghost acked int
ghost dropd int
ghost applied int
define got() = unbox(gotv, *router.Message)
define wgc(w) = unbox(ctxval(w.Ctx, box(zero(msg.WaitGroupKey), msg.WaitGroupKey)), *wg.WrapWaitGroup)
define wraps(w, m) = w != nil && w.Req != nil && w.Req.Header != nil && w.Req.Header.ID == m.Header.ID && w.Req.Header.Event == m.Header.Event && str(w.Req.Body) == str(m.Body) && w.Err == nil
define onework(w) = w.Ctx != nil && typeis(ctxval(w.Ctx, box(zero(msg.WaitGroupKey), msg.WaitGroupKey)), *wg.WrapWaitGroup) && wgc(w) != nil && wgc(w).counter == 1 && wgc(w).wg == 1
extern context.TODO() (c)
  ensures some: c != nil && ctxvals(c) == constarr("[val]val", nil)
iface redis.StreamCmdable.XAck(p, c, s, g, is) (r)
iface redis.StreamCmdable.XDel(p, c, s, is) (r)

func Channel.addHandlers(c, queue)
  fastloops
  requires channel: c != nil && c.msgCh != nil && c.msgCh.c != nil && queue != nil && queue.C != nil && thdredis.client != nil
  modifies all, rn, rname, rret, rval, pcur, phex, phval, psmem, pwr, hex, hval, smem, execn, execok, execerr, pn, pq, pv, gotv, pushed, acked, dropd, applied
  keeps thdredis.client
  start gotv := nil
  start pushed := 0
  start acked := 0
  start dropd := 0
  start applied := 0
  // the previous entry has been dealt with
  at chan.recv(ch) settled [P19]: typeis(gotv, *router.Message) ==> pushed == 1 && acked == 1 && dropd == 1 && applied == 1
  at chan.recv(ch) from [P19]: ref(ch) == ref(c.msgCh.c)
  at after chan.recv(ch) (v, k) set gotv := ite(k, v, nil)
  at after chan.recv(ch) (v, k) set pushed := 0
  at after chan.recv(ch) (v, k) set acked := 0
  at after chan.recv(ch) (v, k) set dropd := 0
  at after chan.recv(ch) (v, k) set applied := 0
  at after chan.recv(ch) (v, k) assume made: typeis(v, *router.Message) ==> unbox(v, *router.Message) != nil && unbox(v, *router.Message).Header != nil && allocated(ref(unbox(v, *router.Message)))
  at unbounded.Unbounded.Load(b) assume open: ok(b)
  at unbounded.Unbounded.Load(b) same [P20]: b == c.msgCh
  at mpsc.Queue.Push(q, x) once [P19]: q == queue && pushed == 0 && typeis(gotv, *router.Message) && acked == 0 && dropd == 0 && applied == 0
  at mpsc.Queue.Push(q, x) entry [P19]: typeis(x, *msg.Wrapper) && wraps(unbox(x, *msg.Wrapper), got())
  at mpsc.Queue.Push(q, x) counted [P19]: onework(unbox(x, *msg.Wrapper))
  at mpsc.Queue.Push(q, x) assume queue: okq(q)
  at after mpsc.Queue.Push(q, x) set pushed := pushed + 1
  at redis.StreamCmdable.XAck(p, x, s, g, is) after [P19]: pushed == 1 && acked == 0 && p == pcur && s == c.topic && g == c.channel && len(is) == 1 && is[0] == got().Header.ID
  at after redis.StreamCmdable.XAck(p, x, s, g, is) (r) set acked := acked + 1
  at redis.StreamCmdable.XDel(p, x, s, is) after [P19]: pushed == 1 && dropd == 0 && p == pcur && s == c.topic && len(is) == 1 && is[0] == got().Header.ID
  at after redis.StreamCmdable.XDel(p, x, s, is) (r) set dropd := dropd + 1
  at redis.Pipeliner.Exec(p, x) sends [P19]: pushed == 1
  at after redis.Pipeliner.Exec(p, x) (r, e) set applied := applied + 1
  loop(): typeis(gotv, *router.Message) ==> pushed == 1 && acked == 1 && dropd == 1 && applied == 1

// subscribing: handlers started, with what
ghost hns int
func Channel.Arrived(c, queue)
  requires channel: c != nil && c.msgCh != nil && c.msgCh.c != nil && queue != nil && queue.C != nil && thdredis.client != nil
  modifies all, rn, rname, rret, rval, pcur, phex, phval, psmem, pwr, hex, hval, smem, execn, execok, execerr, pn, pq, pv, gotv, pushed, acked, dropd, applied, hns
  start hns := 0
  at Channel.addHandlers(h, q) given [P19]: h == c && q == queue && hns == 0
  at after Channel.addHandlers(h, q) set hns := hns + 1
  ensures started [P19]: hns == 1

ghost grpn int
ghost grpr int
ghost lps int
functype "lib/pubsub.ChannelOption" (p)
  modifies fields(p)
  set optf[optn] := self
  set optp[optn] := ref(p)
  set optn := optn + 1
ufun stres(int) string
ufun sterr(int) val
extern redis.StatusCmd.Result(c) (r, e)
  ensures reply: r == stres(ref(c)) && e == sterr(ref(c))

func newChannel(ctx, topic, channel, p) (c, err)
  requires store: thdredis.client != nil
  modifies all, rn, rname, rret, xcmd, xput, xused, grpn, grpr, lps
  keeps thdredis.client
  start grpn := 0
  start lps := 0
  at redis.cmdable.XGroupCreate(r, x, k, g, s) group [P19]: k == topic && g == channel && s == p.ReadMode && grpn == 0
  at after redis.cmdable.XGroupCreate(r, x, k, g, s) (rep) set grpn := grpn + 1
  at after redis.cmdable.XGroupCreate(r, x, k, g, s) (rep) set grpr := ref(rep)
  at Channel.loop(ch) ready [P19]: lps == 0 && grpn == 1 && ch.topic == topic && ch.channel == channel && fresh(ch) && fresh(ch.msgCh) && chlen(ch.msgCh.c) == 0 && len(ch.msgCh.backlog) == 0
  at after Channel.loop(ch) set lps := lps + 1
  ensures made [P19]: err == nil ==> c != nil && fresh(c) && c.topic == topic && c.channel == channel && c.msgCh != nil && c.msgCh.c != nil && lps == 1 && grpn == 1
  ensures failed [P19]: err != nil ==> c == nil && err == sterr(grpr) && lps == 0
  ensures grouped [P19]: sterr(grpr) == nil ==> err == nil

func Topic.getOrCreateChannel(rt, ctx, name, p) (c, err)
  locked rt.RWMutex
  requires topic: rt != nil && rt.channelMap != nil && thdredis.client != nil
  modifies all, rn, rname, rret, xcmd, xput, xused, grpn, grpr, lps
  keeps thdredis.client
  at newChannel(x, t, n, q) which [P19]: t == rt.topic && n == name && q == p
  ensures made [P19]: err == nil ==> c != nil && fresh(c) && c.topic == rt.topic && c.channel == name && c.msgCh != nil && c.msgCh.c != nil
  ensures failed [P19]: err != nil ==> c == nil

func Topic.Sub(rt, ctx, channel, opts) (c, err)
  maypanic
  mayrtpanic
  requires topic: rt != nil && rt.channelMap != nil && thdredis.client != nil
  modifies all, rn, rname, rret, xcmd, xput, xused, grpn, grpr, lps, optn, optf, optp
  keeps thdredis.client
  at Topic.getOrCreateChannel(t, x, n, p) which [P19]: t == rt && n == channel
  at Topic.getOrCreateChannel(t, x, n, p) latest [P19]: optn == old(optn) ==> p.ReadMode == "$"
  ensures made [P19]: err == nil ==> c != nil && fresh(c) && c.topic == rt.topic && c.channel == channel && c.msgCh != nil && c.msgCh.c != nil
  ensures failed [P19]: err != nil ==> c == nil
  loop(): optn >= old(optn)
  loop(_p *ChannelParm): optn == old(optn) ==> _p.ReadMode == "$"
