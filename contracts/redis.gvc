package 3rd/redis
import redis github.com/redis/go-redis/v9
import context context
import proto github.com/redis/go-redis/v9/internal/proto

// ---- P30: the commands issued, in order: name and reply ----
ghost rn int
ghost rname [int]string
ghost rret [int]int

extern redis.cmdable.Get(c, x0, x1) (r)
  set rname[rn] := "Get"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.Set(c, x0, x1, x2, x3) (r)
  set rname[rn] := "Set"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.Del(c, x0, x1) (r)
  modifies hex, hval, smem
  set rname[rn] := "Del"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.SetEx(c, x0, x1, x2, x3) (r)
  set rname[rn] := "SetEx"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.SetNX(c, x0, x1, x2, x3) (r)
  set rname[rn] := "SetNX"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.SAdd(c, x0, x1, x2) (r)
  modifies hex, hval, smem
  set rname[rn] := "SAdd"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.SIsMember(c, x0, x1, x2) (r)
  set rname[rn] := "SIsMember"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.SMembers(c, x0, x1) (r)
  ensures members: slerr(ref(r)) == nil ==> all(i, int, 0 <= i && i < sllen(ref(r)) ==> smem[x1][slitem(ref(r), i)])
  ensures complete: slerr(ref(r)) == nil ==> all(m, string, smem[x1][m] ==> 0 <= slix(ref(r), m) && slix(ref(r), m) < sllen(ref(r)) && slitem(ref(r), slix(ref(r), m)) == m)
  set rname[rn] := "SMembers"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.SRandMember(c, x0, x1) (r)
  set rname[rn] := "SRandMember"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.SRandMemberN(c, x0, x1, x2) (r)
  ensures members: slerr(ref(r)) == nil ==> all(i, int, 0 <= i && i < sllen(ref(r)) ==> smem[x1][slitem(ref(r), i)])
  ensures some: slerr(ref(r)) == nil && x2 > 0 ==> all(m, string, smem[x1][m] ==> sllen(ref(r)) > 0)
  set rname[rn] := "SRandMemberN"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.SPop(c, x0, x1) (r)
  modifies hex, hval, smem
  set rname[rn] := "SPop"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.SCard(c, x0, x1) (r)
  ensures count: icerr(ref(r)) == nil ==> icval(ref(r)) == scard(smem[x1])
  set rname[rn] := "SCard"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.ZScore(c, x0, x1, x2) (r)
  set rname[rn] := "ZScore"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.ZAdd(c, x0, x1, x2) (r)
  set rname[rn] := "ZAdd"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.ZRevRank(c, x0, x1, x2) (r)
  set rname[rn] := "ZRevRank"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.ZRevRange(c, x0, x1, x2, x3) (r)
  set rname[rn] := "ZRevRange"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.ZCard(c, x0, x1) (r)
  set rname[rn] := "ZCard"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.ZRangeByScore(c, x0, x1, x2) (r)
  set rname[rn] := "ZRangeByScore"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.ZRem(c, x0, x1, x2) (r)
  set rname[rn] := "ZRem"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.HGet(c, x0, x1, x2) (r)
  ensures keyed: cmdkey(ref(r)) == x1
  ensures present: scerr(ref(r)) == nil ==> hex[x1][x2] && cmdstr(ref(r)) == hval[x1][x2]
  ensures absent: scerr(ref(r)) == nilReply() ==> !hex[x1][x2]
  set rname[rn] := "HGet"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.HGetAll(c, x0, x1) (r)
  ensures holds: mserr(ref(r)) == nil ==> msdom(ref(r)) == hex[x1] && all(k, string, hex[x1][k] ==> msval(ref(r))[k] == hval[x1][k])
  set rname[rn] := "HGetAll"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.HSet(c, x0, x1, x2) (r)
  modifies hex, hval, smem
  set rname[rn] := "HSet"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.HDel(c, x0, x1, x2) (r)
  modifies hex, hval, smem
  set rname[rn] := "HDel"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.HLen(c, x0, x1) (r)
  set rname[rn] := "HLen"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.HIncrBy(c, x0, x1, x2, x3) (r)
  modifies hex, hval, smem
  set rname[rn] := "HIncrBy"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.HKeys(c, x0, x1) (r)
  set rname[rn] := "HKeys"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.Exists(c, x0, x1) (r)
  set rname[rn] := "Exists"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.HExists(c, x0, x1, x2) (r)
  set rname[rn] := "HExists"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.XInfoGroups(c, x0, x1) (r)
  set rname[rn] := "XInfoGroups"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.XGroupCreate(c, x0, x1, x2, x3) (r)
  set rname[rn] := "XGroupCreate"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.XGroupDelConsumer(c, x0, x1, x2, x3) (r)
  set rname[rn] := "XGroupDelConsumer"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.XInfoConsumers(c, x0, x1, x2) (r)
  set rname[rn] := "XInfoConsumers"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.XReadGroup(c, x0, x1) (r)
  set rname[rn] := "XReadGroup"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.XGroupDestroy(c, x0, x1, x2) (r)
  set rname[rn] := "XGroupDestroy"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.XLen(c, x0, x1) (r)
  set rname[rn] := "XLen"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.XDel(c, x0, x1, x2) (r)
  set rname[rn] := "XDel"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.LRange(c, x0, x1, x2, x3) (r)
  set rname[rn] := "LRange"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.Expire(c, x0, x1, x2) (r)
  modifies hex, hval, smem
  set rname[rn] := "Expire"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.RPush(c, x0, x1, x2) (r)
  set rname[rn] := "RPush"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.FlushDB(c, x0) (r)
  modifies hex, hval, smem
  set rname[rn] := "FlushDB"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.FlushAll(c, x0) (r)
  modifies hex, hval, smem
  set rname[rn] := "FlushAll"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.XAdd(c, x0, x1) (r)
  set rname[rn] := "XAdd"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.Incr(c, x0, x1) (r)
  set rname[rn] := "Incr"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

extern redis.cmdable.Keys(c, x0, x1) (r)
  set rname[rn] := "Keys"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil

func Get(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.Get(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "Get"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func Set(ctx, key, val) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.Set(c, x0, x1, x2, x3) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && typeis(x2, string) && unbox(x2, string) == val && x3 == 0
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "Set"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func Del(ctx, keys) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret, hex, hval, smem
  at redis.cmdable.Del(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && len(x1) == len(keys) && all(i, int, 0 <= i && i < len(keys) ==> x1[i] == keys[i])
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "Del"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func SetEx(ctx, key, value, expiration) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.SetEx(c, x0, x1, x2, x3) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == value && x3 == expiration
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "SetEx"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func SetNx(ctx, key, value, expiration) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.SetNX(c, x0, x1, x2, x3) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == value && x3 == expiration
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "SetNX"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func SAdd(ctx, key, members) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret, hex, hval, smem
  at redis.cmdable.SAdd(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && len(x2) == len(members) && all(i, int, 0 <= i && i < len(members) ==> x2[i] == members[i])
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "SAdd"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func SIsMember(ctx, key, member) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.SIsMember(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == member
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "SIsMember"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func SMembers(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.SMembers(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "SMembers"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func SRandMember(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.SRandMember(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "SRandMember"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func SRandMemberN(ctx, key, count) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.SRandMemberN(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == count
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "SRandMemberN"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func SPop(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret, hex, hval, smem
  at redis.cmdable.SPop(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "SPop"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func SCard(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.SCard(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "SCard"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func ZScore(ctx, key, member) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.ZScore(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == member
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "ZScore"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func ZAdd(ctx, key, members) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.ZAdd(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && len(x2) == len(members) && all(i, int, 0 <= i && i < len(members) ==> x2[i] == members[i])
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "ZAdd"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func ZRevRank(ctx, key, member) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.ZRevRank(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == member
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "ZRevRank"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func ZRevRange(ctx, key, start, stop) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.ZRevRange(c, x0, x1, x2, x3) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == start && x3 == stop
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "ZRevRange"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func ZCard(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.ZCard(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "ZCard"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func ZRangeByScore(ctx, key, opt) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.ZRangeByScore(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && deref(x2) == opt
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "ZRangeByScore"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func ZRem(ctx, key, members) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.ZRem(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && len(x2) == len(members) && all(i, int, 0 <= i && i < len(members) ==> x2[i] == members[i])
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "ZRem"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func HGet(ctx, key, field) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.HGet(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == field
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "HGet"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func HGetAll(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.HGetAll(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "HGetAll"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func HSet(ctx, key, values) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret, hex, hval, smem
  at redis.cmdable.HSet(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && len(x2) == len(values) && all(i, int, 0 <= i && i < len(values) ==> x2[i] == values[i])
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "HSet"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func HDel(ctx, key, fields) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret, hex, hval, smem
  at redis.cmdable.HDel(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && len(x2) == len(fields) && all(i, int, 0 <= i && i < len(fields) ==> x2[i] == fields[i])
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "HDel"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func HLen(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.HLen(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "HLen"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func HIncrBy(ctx, key, field, incr) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret, hex, hval, smem
  at redis.cmdable.HIncrBy(c, x0, x1, x2, x3) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == field && x3 == incr
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "HIncrBy"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func HKeys(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.HKeys(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "HKeys"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func Exists(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.Exists(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && len(x1) == 1 && x1[0] == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "Exists"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func HExists(ctx, key, field) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.HExists(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == field
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "HExists"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func XInfoGroups(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.XInfoGroups(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "XInfoGroups"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func XGroupCreate(ctx, key, group, start) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.XGroupCreate(c, x0, x1, x2, x3) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == group && x3 == start
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "XGroupCreate"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func XGroupDelConsumer(ctx, key, group, consumer) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.XGroupDelConsumer(c, x0, x1, x2, x3) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == group && x3 == consumer
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "XGroupDelConsumer"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func XInfoConsumers(ctx, key, group) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.XInfoConsumers(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == group
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "XInfoConsumers"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func XReadGroup(ctx, a) (r)
  inline
  requires store: client != nil && a != nil && len(a.Streams) > 0
  modifies rn, rname, rret
  at redis.cmdable.XReadGroup(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == a
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "XReadGroup"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func XGroupDestroy(ctx, key, group) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.XGroupDestroy(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == group
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "XGroupDestroy"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func XLen(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.XLen(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "XLen"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func XDel(ctx, key, id) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.XDel(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && len(x2) == 1 && x2[0] == id
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "XDel"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func LRange(ctx, key, start, stop) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.LRange(c, x0, x1, x2, x3) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == start && x3 == stop
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "LRange"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func Expire(ctx, key, expiration) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret, hex, hval, smem
  at redis.cmdable.Expire(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && x2 == expiration
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "Expire"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func RPush(ctx, key, values) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.RPush(c, x0, x1, x2) args [P30]: c == client.cmdable && x0 == ctx && x1 == key && len(x2) == len(values) && all(i, int, 0 <= i && i < len(values) ==> x2[i] == values[i])
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "RPush"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func FlushDB(ctx) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret, hex, hval, smem
  at redis.cmdable.FlushDB(c, x0) args [P30]: c == client.cmdable && x0 == ctx
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "FlushDB"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func FlushAll(ctx) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret, hex, hval, smem
  at redis.cmdable.FlushAll(c, x0) args [P30]: c == client.cmdable && x0 == ctx
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "FlushAll"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func XAdd(ctx, a) (r)
  inline
  requires store: client != nil && a != nil
  modifies rn, rname, rret
  at redis.cmdable.XAdd(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == a
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "XAdd"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func Incr(ctx, key) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.Incr(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == key
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "Incr"
  ensures reply [P30]: ref(r) == rret[old(rn)]

func Keys(ctx, pattern) (r)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.cmdable.Keys(c, x0, x1) args [P30]: c == client.cmdable && x0 == ctx && x1 == pattern
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "Keys"
  ensures reply [P30]: ref(r) == rret[old(rn)]

// any other method of the client is not the command named
unlisted rn rname rret : redis.cmdable redis.Client redis.Conn redis.baseClient redis.Script redis.statefulCmdable

extern redis.Client.TxPipelined(c, x0, x1) (r, e)
  maypanic
  modifies all
  set rname[rn] := "TxPipelined"
  set rret[rn] := ref(r)
  set rerr[rn] := e
  set rn := rn + 1
extern redis.Client.Pipelined(c, x0, x1) (r, e)
  maypanic
  modifies all
  set rname[rn] := "Pipelined"
  set rret[rn] := ref(r)
  set rerr[rn] := e
  set rn := rn + 1
extern redis.Client.Pipeline(c) (p)
  ensures made: p != nil
  set pcur := p
  set phex := hex
  set phval := hval
  set psmem := smem
  set pwr := false
  set rname[rn] := "Pipeline"
  set rval[rn] := p
  set rn := rn + 1
extern redis.Client.PoolStats(c) (p)
  set rname[rn] := "PoolStats"
  set rret[rn] := ref(p)
  set rn := rn + 1
extern redis.Client.Do(c, x0, x1) (r)
  set rname[rn] := "Do"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil
extern redis.Script.Run(c, x0, x1, x2, x3) (r)
  set rname[rn] := "ScriptRun"
  set rret[rn] := ref(r)
  set rn := rn + 1
  ensures reply: r != nil
ghost rerr [int]val
ghost rval [int]val

// ---- the part of the store made of hashes and sets: fields present, their text, members ----
ghost hex [string][string]bool
ghost hval [string][string]string
ghost smem [string][string]bool
// the number a text holds, the text of a number; how many members
ufun rnum(string) int
ufun rfmt(int) string
ufun scard([string]bool) int
// the hash a reply was asked from
ufun cmdkey(int) string
ufun msdom(int) [string]bool
ufun msval(int) [string]string
ufun sllen(int) int
ufun slitem(int, int) string
ufun slix(int, string) int
ufun icval(int) int
define nilReply() = box(redis.Nil, proto.RedisError)
define mserr(i) = cmderr(addr(cast(i, *redis.MapStringStringCmd).baseCmd))
define slerr(i) = cmderr(addr(cast(i, *redis.StringSliceCmd).baseCmd))
define icerr(i) = cmderr(addr(cast(i, *redis.IntCmd).baseCmd))
extern redis.MapStringStringCmd.Result(c) (v, e)
  ensures def: e == mserr(ref(c)) && (e == nil ==> v != nil && fresh(v) && dom(v) == msdom(ref(c)) && all(k, string, msdom(ref(c))[k] ==> v[k] == msval(ref(c))[k]))
extern redis.StringSliceCmd.Result(c) (v, e)
  ensures def: e == slerr(ref(c)) && (e == nil ==> len(v) == sllen(ref(c)) && all(i, int, 0 <= i && i < sllen(ref(c)) ==> v[i] == slitem(ref(c), i)))
extern redis.IntCmd.Result(c) (v, e)
  ensures def: v == icval(ref(c)) && e == icerr(ref(c))
extern redis.StringCmd.Int(c) (v, e)
  ensures def: e == nil ==> scerr(ref(c)) == nil && v == rnum(cmdstr(ref(c)))

// a pipeline: the store as it will be once the queued commands ran
ghost phex [string][string]bool
ghost phval [string][string]string
ghost psmem [string][string]bool
ghost pwr bool
ghost pcur val
// executions, and whether the last one was reported to succeed
ghost execn int
ghost execok bool
ghost execerr val
define txt(v) = ite(typeis(v, string), unbox(v, string), str(unbox(v, []byte)))
define istxt(v) = typeis(v, string) || typeis(v, []byte)
iface redis.HashCmdable.HSet(p, c, k, vs) (r)
  requires modelled: p == pcur && len(vs) == 2 && istxt(vs[0]) && istxt(vs[1])
  set phval[k] := store(phval[k], txt(vs[0]), txt(vs[1]))
  set phex[k] := store(phex[k], txt(vs[0]), true)
  set pwr := true
iface redis.HashCmdable.HDel(p, c, k, fs) (r)
  requires modelled: p == pcur && len(fs) == 1
  set phex[k] := store(phex[k], fs[0], false)
  set pwr := true
iface redis.GenericCmdable.Del(p, c, ks) (r)
  requires modelled: p == pcur && len(ks) == 1
  set phex[ks[0]] := constarr("[string]bool", false)
  set psmem[ks[0]] := constarr("[string]bool", false)
  set pwr := true
iface redis.SetCmdable.SAdd(p, c, k, vs) (r)
  requires modelled: p == pcur && len(vs) == 1 && istxt(vs[0])
  set psmem[k] := store(psmem[k], txt(vs[0]), true)
  set pwr := true
iface redis.SetCmdable.SRem(p, c, k, vs) (r)
  requires modelled: p == pcur && len(vs) == 1 && istxt(vs[0])
  set psmem[k] := store(psmem[k], txt(vs[0]), false)
  set pwr := true
iface redis.HashCmdable.HIncrBy(p, c, k, f, n) (r)
  requires modelled: p == pcur
  set phval[k] := store(phval[k], f, rfmt(ite(phex[k][f], rnum(phval[k][f]), 0) + n))
  set phex[k] := store(phex[k], f, true)
  set pwr := true
  ensures number: rnum(rfmt(old(ite(phex[k][f], rnum(phval[k][f]), 0)) + n)) == old(ite(phex[k][f], rnum(phval[k][f]), 0)) + n
iface redis.HashCmdable.HGet(p, c, k, f) (r)
  requires modelled: p == pcur
  ensures keyed: cmdkey(ref(r)) == k
  ensures reply: r != nil
  ensures present: scerr(ref(r)) == nil ==> phex[k][f] && cmdstr(ref(r)) == phval[k][f]
  ensures absent: scerr(ref(r)) == nilReply() ==> !phex[k][f]
iface redis.Pipeliner.Exec(p, c) (r, e)
  requires modelled: p == pcur
  modifies hex, hval, smem
  set execn := execn + 1
  set execok := e == nil
  set execerr := e
  set pcur := nil
  ensures done: e == nil ==> hex == old(phex) && hval == old(phval) && smem == old(psmem)
  ensures readOnly: !old(pwr) ==> hex == old(hex) && hval == old(hval) && smem == old(smem)

// what a reply holds
ufun cmdval(int) val
ufun cmderr(int) val
ufun cmdstr(int) string
ufun cmdbool(int) bool
ufun cmdbytes(int) int
ufun cmdints(int) int
define scerr(i) = cmderr(addr(cast(i, *redis.StringCmd).baseCmd))
define cderr(i) = cmderr(addr(cast(i, *redis.Cmd).baseCmd))
extern redis.Cmd.Result(c) (v, e)
  ensures def: v == cmdval(ref(c)) && e == cderr(ref(c))
extern redis.Cmd.Int64Slice(c) (v, e)
  ensures def: ref(v) == cmdints(ref(c)) && e == cderr(ref(c))
extern redis.Cmd.Bool(c) (v, e)
  ensures def: v == cmdbool(ref(c)) && e == cderr(ref(c))
extern redis.StringCmd.Val(c) (v)
  ensures def: v == cmdstr(ref(c))
extern redis.baseCmd.Err(c) (e)
  ensures def: e == cmderr(ref(c))
extern redis.StringCmd.Bytes(c) (v, e)
  ensures def: ref(v) == cmdbytes(ref(c)) && e == scerr(ref(c))
extern redis.StringCmd.Result(c) (v, e)
  ensures def: v == cmdstr(ref(c)) && e == scerr(ref(c))
extern redis.Cmd.Val(c) (v)
  ensures def: v == cmdval(ref(c))

func TxPipelined(ctx, from, fn) (r, e)
  inline
  maypanic
  requires store: client != nil
  modifies all, rn, rname, rret, rerr
  at redis.Client.TxPipelined(c, x0, x1) args [P30]: c == client && x0 == ctx && ref(x1) == ref(fn)
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "TxPipelined"
  ensures reply [P30]: ref(r) == rret[old(rn)] && e == rerr[old(rn)]
func Pipelined(ctx, from, fn) (r, e)
  inline
  maypanic
  requires store: client != nil
  modifies all, rn, rname, rret, rerr
  at redis.Client.Pipelined(c, x0, x1) args [P30]: c == client && x0 == ctx && ref(x1) == ref(fn)
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "Pipelined"
  ensures reply [P30]: ref(r) == rret[old(rn)] && e == rerr[old(rn)]
func Pipeline() (p)
  inline
  requires store: client != nil
  modifies rn, rname, rval, pcur, phex, phval, psmem, pwr
  at redis.Client.Pipeline(c) args [P30]: c == client
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "Pipeline" && p == rval[old(rn)]
func PoolStats(ctx) (p)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.Client.PoolStats(c) args [P30]: c == client
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "PoolStats" && ref(p) == rret[old(rn)]

func ConnHGet(conn, ctx, key, field) (s, e)
  inline
  modifies rn, rname, rret
  at redis.cmdable.HGet(c, x0, x1, x2) args [P30]: c == conn.cmdable && x1 == key && x2 == field
  ensures noConnection [P30]: conn == nil ==> rn == old(rn) && e != nil
  ensures once [P30]: conn != nil ==> rn == old(rn) + 1 && rname[old(rn)] == "HGet" && s == cmdstr(rret[old(rn)]) && e == scerr(rret[old(rn)])
func ScriptRun(ctx, script, keys, args) (v, e)
  inline
  requires store: client != nil && script != nil
  modifies rn, rname, rret
  at redis.Script.Run(s, x0, x1, x2, x3) args [P30]: s == script && x0 == ctx && x1 == box(client, *redis.Client)
  at redis.Script.Run(s, x0, x1, x2, x3) keys [P30]: len(x2) == len(keys) && all(i, int, 0 <= i && i < len(keys) ==> x2[i] == keys[i])
  at redis.Script.Run(s, x0, x1, x2, x3) values [P30]: len(x3) == len(args) && all(i, int, 0 <= i && i < len(args) ==> x3[i] == args[i])
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "ScriptRun"
  ensures reply [P30]: v == cmdval(rret[old(rn)]) && e == cderr(rret[old(rn)])
func ScriptRunInt64s(ctx, script, keys, args) (v, e)
  inline
  requires store: client != nil && script != nil
  modifies rn, rname, rret
  at redis.Script.Run(s, x0, x1, x2, x3) args [P30]: s == script && x0 == ctx && x1 == box(client, *redis.Client)
  at redis.Script.Run(s, x0, x1, x2, x3) keys [P30]: len(x2) == len(keys) && all(i, int, 0 <= i && i < len(keys) ==> x2[i] == keys[i])
  at redis.Script.Run(s, x0, x1, x2, x3) values [P30]: len(x3) == len(args) && all(i, int, 0 <= i && i < len(args) ==> x3[i] == args[i])
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "ScriptRun"
  ensures reply [P30]: ref(v) == cmdints(rret[old(rn)]) && e == cderr(rret[old(rn)])
func CAD(ctx, key, field) (ok)
  inline
  requires store: client != nil
  modifies rn, rname, rret
  at redis.Client.Do(c, x0, x1) args [P30]: c == client && x0 == ctx && len(x1) == 3 && x1[0] == box("CAD", string) && x1[1] == box(key, string) && x1[2] == box(field, string)
  ensures once [P30]: rn == old(rn) + 1 && rname[old(rn)] == "Do" && ok == cmdbool(rret[old(rn)])

define strcmd(v) = unbox(v, *redis.StringCmd)
define bytesOf(v) = cmdbytes(ref(strcmd(v)))
define errOf(v) = scerr(ref(strcmd(v)))
func GetCmdsByteSlice(cmds) (bts, err)
  inline
  requires replies: all(i, int, 0 <= i && i < len(cmds) ==> typeis(cmds[i], *redis.StringCmd) && strcmd(cmds[i]) != nil)
  ensures all [P30]: err == nil ==> len(bts) == len(cmds) && all(i, int, 0 <= i && i < len(cmds) ==> ref(bts[i]) == bytesOf(cmds[i]) && errOf(cmds[i]) == nil)
  ensures failed [P30]: err != nil ==> ex(i, int, 0 <= i && i < len(cmds) && err == errOf(cmds[i]))
  loop(_k int, _s [][]byte): len(_s) == _k
  loop(_k int, _s [][]byte): all(i, int, 0 <= i && i < _k ==> ref(_s[i]) == bytesOf(cmds[i]))
  loop(_k int): all(i, int, 0 <= i && i < _k ==> errOf(cmds[i]) == nil)
