package core/addressbook
import trdredis github.com/pojol/braid/3rd/redis
import redis github.com/redis/go-redis/v9
import core github.com/pojol/braid/core
import def github.com/pojol/braid/def
import dismutex github.com/pojol/braid/lib/dismutex

// ---- P12, P13, P14, P17: the address book ----
// records are texts; what they say
monitor AddressBook.RWMutex guards IDMap [P32]

define recOk(j) = jok(core.AddressInfo, j)
define recNode(j) = jfield(core.AddressInfo, ".Node", j)
define recId(j) = jfield(core.AddressInfo, ".ActorId", j)
define recTy(j) = jfield(core.AddressInfo, ".ActorTy", j)
define recIp(j) = jfield(core.AddressInfo, ".Ip", j)
define recPort(j) = jfield(core.AddressInfo, ".Port", j)
define decoded(a, j) = a.Node == recNode(j) && a.ActorId == recId(j) && a.ActorTy == recTy(j) && a.Ip == recIp(j) && a.Port == recPort(j)
// where they are kept
define idKey() = def.RedisAddressbookIDField
define nodesKey() = def.RedisAddressbookNodesField
define tyKey(t) = cat(def.RedisAddressbookTyField, t)
define nodeKey(n) = cat("{node:", n, "}")
define tyField(t) = cat("actor:", t)
define isRec(j, ab, id, ty) = recOk(j) && recNode(j) == ab.NodeID && recId(j) == id && recTy(j) == ty && recIp(j) == ab.Ip && recPort(j) == ab.Port
// the numbers: a field that is not there counts as nothing
define wt(n, f) = ite(hex[nodeKey(n)][f], rnum(hval[nodeKey(n)][f]), 0)
define storeSame() = hex == old(hex) && hval == old(hval) && smem == old(smem)
define sameHash(k) = hex[k] == old(hex)[k] && hval[k] == old(hval)[k]
define viewSame(ab) = all(k, string, has(ab.IDMap, k) <==> old(has(ab.IDMap, k)))

global unknown [P12]: ErrUnknownActor != nil && allocated(payload(ErrUnknownActor))
func New(info) (ab)
  ensures empty [P12]: ab != nil && fresh(ab) && ab.IDMap != nil && all(k, string, !has(ab.IDMap, k))
  ensures node [P12]: ab.NodeID == info.Node && ab.Ip == info.Ip && ab.Port == info.Port

func AddressBook.Register(ab, ctx, ty, id, weight) (err)
  requires book: ab != nil && ab.IDMap != nil && trdredis.client != nil
  modifies entries(ab.IDMap), rn, rname, rret, rval, hex, hval, smem, pcur, phex, phval, psmem, pwr, execn, execok, execerr
  ensures refused [P12]: id == "" || ty == "" || old(has(ab.IDMap, id)) ==> err != nil && execn == old(execn)
  ensures failed [P12,P13]: err != nil ==> viewSame(ab) && (execn == old(execn) || execn == old(execn) + 1 && !execok)
  ensures untouched [P12,P13]: execn == old(execn) ==> storeSame()
  ensures once [P12,P13]: err == nil ==> execn == old(execn) + 1 && execok, execerr
  ensures view [P12]: err == nil ==> all(k, string, has(ab.IDMap, k) <==> k == id || old(has(ab.IDMap, k)))
  ensures byId [P12]: err == nil ==> hex[idKey()] == store(old(hex)[idKey()], id, true) && isRec(hval[idKey()][id], ab, id, ty)
  ensures otherIds [P12]: err == nil ==> hval[idKey()] == store(old(hval)[idKey()], id, hval[idKey()][id])
  ensures byType [P12]: err == nil ==> smem == store(old(smem), tyKey(ty), store(old(smem)[tyKey(ty)], hval[idKey()][id], true))
  ensures node [P12,P14]: err == nil ==> hex[nodesKey()] == store(old(hex)[nodesKey()], ab.NodeID, true) && hval[nodesKey()] == store(old(hval)[nodesKey()], ab.NodeID, hval[nodesKey()][ab.NodeID]) && isRec(hval[nodesKey()][ab.NodeID], ab, "", "")
  ensures otherRecords [P12]: err == nil ==> all(k, string, k != idKey() && k != nodesKey() && k != nodeKey(ab.NodeID) ==> sameHash(k))
  ensures total [P13]: err == nil ==> wt(ab.NodeID, "total_weight") == old(wt(ab.NodeID, "total_weight")) + weight
  ensures perType [P13]: err == nil ==> wt(ab.NodeID, tyField(ty)) == old(wt(ab.NodeID, tyField(ty))) + weight
  ensures counted [P13,P14,P17]: err == nil ==> hex[nodeKey(ab.NodeID)] == store(store(old(hex)[nodeKey(ab.NodeID)], tyField(ty), true), "total_weight", true)
  ensures otherWeights [P13]: err == nil ==> all(f, string, f != tyField(ty) && f != "total_weight" ==> wt(ab.NodeID, f) == old(wt(ab.NodeID, f))) && all(n, string, n != ab.NodeID ==> sameHash(nodeKey(n)))

// the record an id has, before
define oldRec(id) = old(hval)[idKey()][id]

func AddressBook.Unregister(ab, ctx, id, weight) (err)
  requires book: ab != nil && ab.IDMap != nil && trdredis.client != nil
  modifies entries(ab.IDMap), rn, rname, rret, rval, hex, hval, smem, pcur, phex, phval, psmem, pwr, execn, execok, execerr
  ensures refused [P12]: id == "" || !old(hex)[idKey()][id] ==> err != nil && execn == old(execn)
  ensures failed [P12,P13]: err != nil ==> viewSame(ab) && (execn == old(execn) || execn == old(execn) + 1 && !execok)
  ensures untouched [P12,P13]: execn == old(execn) ==> storeSame()
  ensures once [P12,P13]: err == nil ==> execn == old(execn) + 1 && execok
  ensures view [P12]: err == nil ==> all(k, string, has(ab.IDMap, k) <==> k != id && old(has(ab.IDMap, k)))
  ensures byId [P12]: err == nil ==> hex[idKey()] == store(old(hex)[idKey()], id, false) && hval[idKey()] == old(hval)[idKey()]
  ensures byType [P12]: err == nil ==> smem == store(old(smem), tyKey(recTy(oldRec(id))), store(old(smem)[tyKey(recTy(oldRec(id)))], oldRec(id), false))
  ensures otherRecords [P12]: err == nil ==> all(k, string, k != idKey() && k != nodeKey(recNode(oldRec(id))) ==> sameHash(k))
  ensures total [P13]: err == nil ==> wt(recNode(oldRec(id)), "total_weight") == old(wt(recNode(hval[idKey()][id]), "total_weight")) - weight
  ensures perType [P13]: err == nil ==> wt(recNode(oldRec(id)), tyField(recTy(oldRec(id)))) == old(wt(recNode(hval[idKey()][id]), tyField(recTy(hval[idKey()][id])))) - weight
  ensures otherWeights [P13]: err == nil ==> all(f, string, f != tyField(recTy(oldRec(id))) && f != "total_weight" ==> wt(recNode(oldRec(id)), f) == old(wt(recNode(hval[idKey()][id]), f))) && all(n, string, n != recNode(oldRec(id)) ==> sameHash(nodeKey(n)))

func AddressBook.GetByID(ab, ctx, id) (a, err)
  requires book: ab != nil && ab.IDMap != nil && trdredis.client != nil
  modifies rn, rname, rret
  ensures empty [P12]: id == "" ==> err != nil
  ensures local [P12]: id != "" && has(ab.IDMap, id) ==> err == nil && a.Node == ab.NodeID && a.Ip == ab.Ip && a.Port == ab.Port && a.ActorId == id
  ensures found [P12]: err == nil && !has(ab.IDMap, id) ==> hex[idKey()][id] && decoded(a, hval[idKey()][id])
  ensures unknown [P12]: err == ErrUnknownActor ==> !hex[idKey()][id]
  ensures reported [P12]: id != "" && !has(ab.IDMap, id) && scerr(rret[old(rn)]) == nilReply() ==> err == ErrUnknownActor
  ensures asked [P12]: id != "" && !has(ab.IDMap, id) ==> rn == old(rn) + 1

func AddressBook.GetByType(ab, ctx, ty) (as, err)
  requires book: ab != nil && trdredis.client != nil
  modifies rn, rname, rret
  ensures each [P12]: err == nil ==> len(as) == sllen(rret[old(rn)]) && all(i, int, 0 <= i && i < len(as) ==> decoded(as[i], slitem(rret[old(rn)], i)) && smem[tyKey(ty)][slitem(rret[old(rn)], i)])
  ensures every [P12]: err == nil ==> all(m, string, smem[tyKey(ty)][m] ==> 0 <= slix(rret[old(rn)], m) && slix(rret[old(rn)], m) < len(as) && decoded(as[slix(rret[old(rn)], m)], m))
  ensures failed [P12]: err != nil ==> slerr(rret[old(rn)]) != nil || ex(i, int, 0 <= i && i < sllen(rret[old(rn)]) && !recOk(slitem(rret[old(rn)], i)))
  loop(_k int, _s []core.AddressInfo): len(_s) == _k
  loop(_k int, _s []core.AddressInfo): all(i, int, 0 <= i && i < _k ==> decoded(_s[i], slitem(rret[old(rn)], i)))

func AddressBook.GetActorTypeCount(ab, ctx, ty) (n, err)
  requires book: ab != nil && trdredis.client != nil
  modifies rn, rname, rret
  ensures count [P12,P15]: err == nil ==> n == scard(smem[tyKey(ty)]) || n == 0 && icerr(rret[old(rn)]) == nilReply()
  ensures asked [P15]: rn == old(rn) + 1
  ensures failed [P15]: err != nil ==> icerr(rret[old(rn)]) != nil

// how often a node's weight could not be read, by where it is kept
ghost rfail [string]int
define weighs(n) = rnum(hval[nodeKey(n)]["total_weight"])
define readable(n) = rfail[nodeKey(n)] <= old(rfail)[nodeKey(n)]
ghost sampled int
define cand(i) = slitem(sampled, i)
define candOk(i) = recOk(cand(i)) && readable(recNode(cand(i))) && weighs(recNode(cand(i))) < 9223372036854775807

func AddressBook.GetWildcardActor(ab, ctx, ty) (a, err)
  requires book: ab != nil && trdredis.client != nil
  modifies rn, rname, rret, rfail, sampled
  at after redis.StringCmd.Int(c) (v, e) set rfail[cmdkey(ref(c))] := rfail[cmdkey(ref(c))] + ite(e != nil, 1, 0)
  at after redis.cmdable.SRandMemberN(c, x, k, n) (r) set sampled := ref(r)
  at redis.cmdable.SRandMemberN(c, x, k, n) sampled [P14]: k == tyKey(ty) && n > 0
  ensures candidate [P14]: err == nil ==> ex(i, int, 0 <= i && i < sllen(sampled) && decoded(a, cand(i)) && smem[tyKey(ty)][cand(i)], trig(slitem(sampled, i)))
  ensures hasWeight [P14]: err == nil ==> hex[nodeKey(a.Node)]["total_weight"]
  ensures lightest [P14]: err == nil ==> all(i, int, 0 <= i && i < sllen(sampled) && candOk(i) ==> weighs(a.Node) <= weighs(recNode(cand(i))))
  ensures nobody [P09]: err != nil ==> a.ActorId == ""
  ensures noneFailed [P14]: err != nil ==> slerr(sampled) != nil || all(i, int, 0 <= i && i < sllen(sampled) ==> !candOk(i))
  loop(): all(k, string, rfail[k] >= old(rfail)[k])
  loop(_w accum, _a core.AddressInfo): _w < 9223372036854775807 ==> ex(i, int, 0 <= i && i < sllen(sampled) && decoded(_a, cand(i)), trig(slitem(sampled, i)))
  loop(_w accum, _a core.AddressInfo): _w < 9223372036854775807 ==> _w == weighs(_a.Node) && hex[nodeKey(_a.Node)]["total_weight"]
  loop(_k index, _w accum): all(i, int, 0 <= i && i < _k && candOk(i) ==> _w <= weighs(recNode(cand(i))))

// the nodes' records name the node they are kept under
define nodesOk() = all(k, string, hex[nodesKey()][k] ==> recOk(hval[nodesKey()][k]) && recNode(hval[nodesKey()][k]) == k && k != "")
define candN(k) = hex[nodesKey()][k] && readable(k) && weighs(k) < 9223372036854775807
ghost listed int

func AddressBook.GetLowWeightNodeForActor(ab, ctx, ty) (a, err)
  requires book: ab != nil && trdredis.client != nil
  modifies rn, rname, rret, rval, rfail, listed, hex, hval, smem, pcur, phex, phval, psmem, pwr, execn, execok, execerr
  at after redis.StringCmd.Int(c) (v, e) set rfail[cmdkey(ref(c))] := rfail[cmdkey(ref(c))] + ite(e != nil, 1, 0)
  at after redis.cmdable.HGetAll(c, x, k) (r) set listed := ref(r)
  ensures lookup [P13,P14]: storeSame()
  ensures registered [P14]: err == nil && nodesOk() ==> hex[nodesKey()][a.Node] && decoded(a, hval[nodesKey()][a.Node])
  ensures hasWeight [P14]: err == nil && nodesOk() ==> hex[nodeKey(a.Node)]["total_weight"]
  ensures lightest [P14]: err == nil && nodesOk() ==> all(k, string, candN(k) ==> weighs(a.Node) <= weighs(k))
  ensures noneFailed [P14]: err != nil && nodesOk() ==> mserr(listed) != nil || execerr != nil && execerr != nilReply() || all(k, string, !candN(k))
  loop(): all(k, string, rfail[k] >= old(rfail)[k])
  loop(_m map[string]*redis.StringCmd): all(k, string, visited()[k] ==> has(_m, k) && _m[k] != nil && cmdkey(ref(_m[k])) == nodeKey(k) && (scerr(ref(_m[k])) == nil ==> hex[nodeKey(k)]["total_weight"] && cmdstr(ref(_m[k])) == hval[nodeKey(k)]["total_weight"]))
  loop(_w accum): nodesOk() ==> all(k, string, visited()[k] && candN(k) ==> _w <= weighs(k))
  loop(_w accum, _a core.AddressInfo): _w < 9223372036854775807 && nodesOk() ==> hex[nodesKey()][_a.Node] && decoded(_a, hval[nodesKey()][_a.Node]) && _w == weighs(_a.Node) && hex[nodeKey(_a.Node)]["total_weight"]
  loop(_w accum, _a core.AddressInfo): _w >= 9223372036854775807 ==> _a.Node == ""

// the records agree with each other, as far as a node's own are concerned
define idRec(x) = hval[idKey()][x]
define ofNode(m, n) = recOk(m) && recNode(m) == n
define bookOk(n) = all(x, string, hex[idKey()][x] ==> recOk(idRec(x)) && recId(idRec(x)) == x && smem[tyKey(recTy(idRec(x)))][idRec(x)]) && all(t, string, all(m, string, smem[tyKey(t)][m] && ofNode(m, n) ==> recTy(m) == t && hex[idKey()][recId(m)] && idRec(recId(m)) == m)) && all(x, string, hex[idKey()][x] && recNode(idRec(x)) == n ==> hex[nodeKey(n)][tyField(recTy(idRec(x)))])
// and a node's hash holds nothing but weights
define fieldsOk(n) = all(f, string, hex[nodeKey(n)][f] && f != "total_weight" ==> len(f) >= 6 && f == tyField(f[6:]))
ghost clk int
ghost cheld bool
ghost cval string

func AddressBook.Clear(ab, ctx) (err)
  requires book: ab != nil && ab.IDMap != nil && trdredis.client != nil && !cheld
  requires fields: fieldsOk(ab.NodeID)
  modifies ab.IDMap, rn, rname, rret, rval, rdn, nxn, nxkey, nxval, nxexp, nxcmd, clk, cheld, cval, hex, hval, smem, pcur, phex, phval, psmem, pwr, execn, execok, execerr
  at dismutex.Lock(c, k) node [P17]: k == ab.NodeID && !cheld
  at after dismutex.Lock(c, k) (v, e) set cheld := e == nil
  at after dismutex.Lock(c, k) (v, e) set cval := v
  at dismutex.Unlock(c, k, v) own [P17]: k == ab.NodeID && cheld && v == cval
  at after dismutex.Unlock(c, k, v) set cheld := false
  at redis.Pipeliner.Exec(p, c) locked [P17]: cheld
  ensures released [P17]: !cheld
  ensures failed [P17]: err != nil ==> viewSame(ab) && (execn == old(execn) || execn == old(execn) + 1 && !execok)
  ensures untouched [P17]: execn == old(execn) ==> storeSame()
  ensures once [P17]: err == nil ==> execn == old(execn) + 1 && execok
  ensures view [P17]: err == nil ==> ab.IDMap != nil && all(k, string, !has(ab.IDMap, k))
  ensures node [P17]: err == nil ==> hex[nodesKey()] == store(old(hex)[nodesKey()], ab.NodeID, false) && all(f, string, !hex[nodeKey(ab.NodeID)][f])
  ensures others [P17]: err == nil ==> all(k, string, k != idKey() && k != nodesKey() && k != nodeKey(ab.NodeID) ==> sameHash(k))
  loop(): storeSame()
  loop(): all(k, string, k != idKey() ==> phex[k] == hex[k])

// ... and of a book whose records agree, exactly the node's own are taken out
func AddressBook.Clear@kept(ab, ctx) (err)
  requires book: ab != nil && ab.IDMap != nil && trdredis.client != nil
  requires agree: bookOk(ab.NodeID)
  requires fields: fieldsOk(ab.NodeID)
  modifies ab.IDMap, rn, rname, rret, rval, rdn, nxn, nxkey, nxval, nxexp, nxcmd, hex, hval, smem, pcur, phex, phval, psmem, pwr, execn, execok, execerr
  ensures ids [P17]: err == nil ==> all(x, string, hex[idKey()][x] <==> old(hex[idKey()][x] && recNode(idRec(x)) != ab.NodeID)) && hval[idKey()] == old(hval)[idKey()]
  ensures types [P17]: err == nil ==> all(t, string, all(m, string, smem[tyKey(t)][m] <==> old(smem[tyKey(t)][m] && !ofNode(m, ab.NodeID))))
  loop(): storeSame()
  loop(): all(k, string, k != idKey() ==> phex[k] == hex[k])
  loop(): all(t, string, all(m, string, psmem[tyKey(t)][m] ==> smem[tyKey(t)][m]))
  loop(): all(t, string, all(m, string, smem[tyKey(t)][m] && !ofNode(m, ab.NodeID) ==> psmem[tyKey(t)][m]))
  loop(): all(x, string, phex[idKey()][x] ==> hex[idKey()][x])
  loop(): all(x, string, hex[idKey()][x] && recNode(idRec(x)) != ab.NodeID ==> phex[idKey()][x])
  loop(): all(t, string, all(m, string, visited()[tyField(t)] && ofNode(m, ab.NodeID) ==> !psmem[tyKey(t)][m]))
  loop(): all(x, string, hex[idKey()][x] && visited()[tyField(recTy(idRec(x)))] && recNode(idRec(x)) == ab.NodeID ==> !phex[idKey()][x])
  loop(_f key): all(t, string, all(m, string, visited()[tyField(t)] && tyField(t) != _f && ofNode(m, ab.NodeID) ==> !psmem[tyKey(t)][m]))
  loop(_f key): all(x, string, hex[idKey()][x] && visited()[tyField(recTy(idRec(x)))] && tyField(recTy(idRec(x))) != _f && recNode(idRec(x)) == ab.NodeID ==> !phex[idKey()][x])
  loop(_k index, _f key, _l []string): all(i, int, 0 <= i && i < _k && ofNode(_l[i], ab.NodeID) ==> !psmem[tyKey(_f[6:])][_l[i]] && !phex[idKey()][recId(_l[i])])
