package lib/dismutex
import trdredis github.com/pojol/braid/3rd/redis
import redis github.com/redis/go-redis/v9
import crand crypto/rand
import b64 encoding/base64

// ---- P27: the distributed lock ----
// attempts to create an entry: key, value, expiry, and the reply
ghost nxn int
ghost nxkey [int]string
ghost nxval [int]val
ghost nxexp [int]int
ghost nxcmd [int]int
// random bytes drawn
ghost rdn int
ufun rndbytes(int) string
ufun b64e(string) string

extern crand.Read(b) (n, err)
  modifies elems(b), bytesof(b)
  set rdn := rdn + 1
  ensures drawn: err == nil ==> n == len(b) && len(b) == old(len(b)) && str(b) == rndbytes(old(rdn))
extern b64.Encoding.EncodeToString(e, b) (s)
  ensures def: s == b64e(str(b)) && (len(b) > 0 ==> s != "")

ufun cmdbl(int) bool
ufun cmdint(int) int
extern redis.BoolCmd.Result(c) (v, e)
  ensures def: v == cmdbl(ref(c)) && e == cmderr(addr(c.baseCmd))
extern redis.BoolCmd.Val(c) (v)
  ensures def: v == cmdbl(ref(c))
extern redis.Cmd.Int(c) (v, e)
  ensures def: v == cmdint(ref(c)) && e == cmderr(addr(c.baseCmd))

define created(i) = cmdbl(nxcmd[i]) && cmderr(addr(cast(nxcmd[i], *redis.BoolCmd).baseCmd)) == nil

global failed [P27]: ErrFailed != nil
global script [P27]: delScript != nil
extern redis.NewScript(src) (s)
  ensures script: s != nil

func Lock(ctx, token) (v, err)
  requires store: trdredis.client != nil
  modifies rn, rname, rret, rdn, nxn, nxkey, nxval, nxexp, nxcmd
  at crand.Read(b) unique [P27]: len(b) >= 16
  at redis.cmdable.SetNX(c, x, k, val, e) entry [P27]: k == token && token != "" && e == Expiry && e > 0
  at redis.cmdable.SetNX(c, x, k, val, e) freshOwner [P27]: rdn == old(rdn) + 1 && val == box(b64e(rndbytes(old(rdn))), string)
  at after redis.cmdable.SetNX(c, x, k, val, e) (r) set nxkey[nxn] := k
  at after redis.cmdable.SetNX(c, x, k, val, e) (r) set nxval[nxn] := val
  at after redis.cmdable.SetNX(c, x, k, val, e) (r) set nxexp[nxn] := e
  at after redis.cmdable.SetNX(c, x, k, val, e) (r) set nxcmd[nxn] := ref(r)
  at after redis.cmdable.SetNX(c, x, k, val, e) (r) set nxn := nxn + 1
  ensures granted [P27]: err == nil ==> nxn > old(nxn) && created(nxn - 1) && box(v, string) == nxval[nxn - 1] && v != ""
  ensures firstGrant [P27]: all(i, int, old(nxn) <= i && i < nxn - 1 ==> !created(i))
  ensures refused [P27]: err != nil ==> v == "" && all(i, int, old(nxn) <= i && i < nxn ==> !created(i))
  ensures bounded [P27]: nxn <= old(nxn) + Tries
  ensures nothingElse [P27]: rn - old(rn) == nxn - old(nxn)
  loop(_k int): nxn == old(nxn) + _k
  loop(_k int): nxn == old(nxn) + _k - 1
  loop(_k int): nxn == old(nxn) + Tries - _k
  loop(_k int): 0 <= _k && _k <= Tries
  loop(): rn - old(rn) == nxn - old(nxn)
  loop(): all(i, int, old(nxn) <= i && i < nxn ==> !created(i))
  loop(): rdn == old(rdn) + 1

func Unlock(ctx, token, value) (ok)
  requires store: trdredis.client != nil
  modifies rn, rname, rret
  at redis.Script.Run(s, x, c, keys, args) owner [P27]: s == delScript && len(keys) == 1 && keys[0] == token && len(args) == 1 && args[0] == box(value, string) && c == box(trdredis.client, *redis.Client)
  ensures noValue [P27]: value == "" ==> !ok && rn == old(rn)
  ensures atomically [P27]: value != "" ==> rn == old(rn) + 1 && rname[old(rn)] == "ScriptRun"
  ensures released [P27]: value != "" ==> (ok <==> cmdint(rret[old(rn)]) != 0 && cmderr(addr(cast(rret[old(rn)], *redis.Cmd).baseCmd)) == nil)
