// pkg: 3rd/redis
package redis

import (
	"context"
	"errors"
	"fmt"
	"net"
	"reflect"
	"testing"
	"time"

	"github.com/redis/go-redis/v9"
)

type vhook struct {
	cmds []redis.Cmder
	err  error
	set  func(redis.Cmder)
}

func (h *vhook) DialHook(next redis.DialHook) redis.DialHook {
	return func(ctx context.Context, network, addr string) (net.Conn, error) {
		return nil, errors.New("no network")
	}
}
func (h *vhook) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		if ctx == nil || ctx.Value("k") != "v" {
			h.cmds = append(h.cmds, nil)
		}
		h.cmds = append(h.cmds, cmd)
		if h.set != nil {
			h.set(cmd)
		}
		cmd.SetErr(h.err)
		return h.err
	}
}
func (h *vhook) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		h.cmds = append(h.cmds, cmds...)
		return h.err
	}
}

func TestVerifP30Commands(t *testing.T) {
	old := client
	defer func() { client = old }()
	h := &vhook{}
	client = redis.NewClient(&redis.Options{Addr: "127.0.0.1:1"})
	client.AddHook(h)
	ctx := context.WithValue(context.Background(), "k", "v")
	type C struct {
		name string
		f    func() redis.Cmder
		want []interface{}
	}
	L := func(a ...interface{}) []interface{} { return a }
	cs := []C{
		{"Get", func() redis.Cmder { return Get(ctx, "k") }, L("get", "k")},
		{"Set", func() redis.Cmder { return Set(ctx, "k", "v") }, L("set", "k", "v")},
		{"Del", func() redis.Cmder { return Del(ctx, "a", "b", "c") }, L("del", "a", "b", "c")},
		{"SetEx", func() redis.Cmder { return SetEx(ctx, "k", 7, 3*time.Second) }, L("setex", "k", int64(3), 7)},
		{"SetNx", func() redis.Cmder { return SetNx(ctx, "k", "v", 3*time.Second) }, L("set", "k", "v", "ex", int64(3), "nx")},
		{"SAdd", func() redis.Cmder { return SAdd(ctx, "k", "a", 2) }, L("sadd", "k", "a", 2)},
		{"SIsMember", func() redis.Cmder { return SIsMember(ctx, "k", "a") }, L("sismember", "k", "a")},
		{"SMembers", func() redis.Cmder { return SMembers(ctx, "k") }, L("smembers", "k")},
		{"SRandMember", func() redis.Cmder { return SRandMember(ctx, "k") }, L("srandmember", "k")},
		{"SRandMemberN", func() redis.Cmder { return SRandMemberN(ctx, "k", 4) }, L("srandmember", "k", int64(4))},
		{"SPop", func() redis.Cmder { return SPop(ctx, "k") }, L("spop", "k")},
		{"SCard", func() redis.Cmder { return SCard(ctx, "k") }, L("scard", "k")},
		{"ZScore", func() redis.Cmder { return ZScore(ctx, "k", "m") }, L("zscore", "k", "m")},
		{"ZAdd", func() redis.Cmder {
			return ZAdd(ctx, "k", redis.Z{Score: 1.5, Member: "a"}, redis.Z{Score: 2, Member: "b"})
		}, L("zadd", "k", 1.5, "a", 2.0, "b")},
		{"ZRevRank", func() redis.Cmder { return ZRevRank(ctx, "k", "m") }, L("zrevrank", "k", "m")},
		{"ZRevRange", func() redis.Cmder { return ZRevRange(ctx, "k", 1, 9) }, L("zrevrange", "k", int64(1), int64(9))},
		{"ZCard", func() redis.Cmder { return ZCard(ctx, "k") }, L("zcard", "k")},
		{"ZRangeByScore", func() redis.Cmder {
			return ZRangeByScore(ctx, "k", redis.ZRangeBy{Min: "1", Max: "5", Offset: 2, Count: 3})
		}, L("zrangebyscore", "k", "1", "5", "limit", int64(2), int64(3))},
		{"ZRem", func() redis.Cmder { return ZRem(ctx, "k", "a", "b") }, L("zrem", "k", "a", "b")},
		{"HGet", func() redis.Cmder { return HGet(ctx, "k", "f") }, L("hget", "k", "f")},
		{"HGetAll", func() redis.Cmder { return HGetAll(ctx, "k") }, L("hgetall", "k")},
		{"HSet", func() redis.Cmder { return HSet(ctx, "k", "a", 1, "b", 2) }, L("hset", "k", "a", 1, "b", 2)},
		{"HDel", func() redis.Cmder { return HDel(ctx, "k", "a", "b") }, L("hdel", "k", "a", "b")},
		{"HLen", func() redis.Cmder { return HLen(ctx, "k") }, L("hlen", "k")},
		{"HIncrBy", func() redis.Cmder { return HIncrBy(ctx, "k", "f", -3) }, L("hincrby", "k", "f", int64(-3))},
		{"HKeys", func() redis.Cmder { return HKeys(ctx, "k") }, L("hkeys", "k")},
		{"Exists", func() redis.Cmder { return Exists(ctx, "k") }, L("exists", "k")},
		{"HExists", func() redis.Cmder { return HExists(ctx, "k", "f") }, L("hexists", "k", "f")},
		{"XInfoGroups", func() redis.Cmder { return XInfoGroups(ctx, "k") }, L("xinfo", "groups", "k")},
		{"XGroupCreate", func() redis.Cmder { return XGroupCreate(ctx, "k", "g", "0") }, L("xgroup", "create", "k", "g", "0")},
		{"XGroupDelConsumer", func() redis.Cmder { return XGroupDelConsumer(ctx, "k", "g", "c") }, L("xgroup", "delconsumer", "k", "g", "c")},
		{"XInfoConsumers", func() redis.Cmder { return XInfoConsumers(ctx, "k", "g") }, L("xinfo", "consumers", "k", "g")},
		{"XReadGroup", func() redis.Cmder {
			return XReadGroup(ctx, &redis.XReadGroupArgs{Group: "g", Consumer: "c", Streams: []string{"s", ">"}, Count: 2, Block: -1})
		}, L("xreadgroup", "group", "g", "c", "count", int64(2), "streams", "s", ">")},
		{"XGroupDestroy", func() redis.Cmder { return XGroupDestroy(ctx, "k", "g") }, L("xgroup", "destroy", "k", "g")},
		{"XLen", func() redis.Cmder { return XLen(ctx, "k") }, L("xlen", "k")},
		{"XDel", func() redis.Cmder { return XDel(ctx, "k", "1-1") }, L("xdel", "k", "1-1")},
		{"LRange", func() redis.Cmder { return LRange(ctx, "k", 1, 9) }, L("lrange", "k", int64(1), int64(9))},
		{"Expire", func() redis.Cmder { return Expire(ctx, "k", 3*time.Second) }, L("expire", "k", int64(3))},
		{"RPush", func() redis.Cmder { return RPush(ctx, "k", "a", "b") }, L("rpush", "k", "a", "b")},
		{"FlushDB", func() redis.Cmder { return FlushDB(ctx) }, L("flushdb")},
		{"FlushAll", func() redis.Cmder { return FlushAll(ctx) }, L("flushall")},
		{"XAdd", func() redis.Cmder { return XAdd(ctx, &redis.XAddArgs{Stream: "s", Values: []string{"a", "b"}}) }, L("xadd", "s", "*", "a", "b")},
		{"Incr", func() redis.Cmder { return Incr(ctx, "k") }, L("incr", "k")},
		{"Keys", func() redis.Cmder { return Keys(ctx, "p*") }, L("keys", "p*")},
	}
	for _, e := range []error{nil, redis.Nil, errors.New("failed")} {
		for _, c := range cs {
			h.cmds, h.err = nil, e
			got := c.f()
			if len(h.cmds) != 1 || h.cmds[0] == nil {
				t.Fatalf("%s: %d commands issued (or without the caller's context)", c.name, len(h.cmds))
			}
			if got != h.cmds[0] || got.Err() != e {
				t.Fatalf("%s: not the command's own reply", c.name)
			}
			if fmt.Sprintf("%#v", got.Args()) != fmt.Sprintf("%#v", c.want) {
				t.Fatalf("%s: issued %#v, want %#v", c.name, got.Args(), c.want)
			}
		}
		// others
		h.cmds = nil
		h.set = func(c redis.Cmder) {
			if x, ok := c.(*redis.Cmd); ok {
				x.SetVal([]interface{}{int64(1), int64(2)})
			}
		}
		sc := redis.NewScript("return 1")
		v, err := ScriptRun(ctx, sc, []string{"a", "b"}, 1, "x")
		want := L("evalsha", sc.Hash(), 2, "a", "b", 1, "x")
		if len(h.cmds) != 1 || fmt.Sprintf("%#v", h.cmds[0].Args()) != fmt.Sprintf("%#v", want) || err != e || e == nil && !reflect.DeepEqual(v, []interface{}{int64(1), int64(2)}) {
			t.Fatalf("ScriptRun: %v %v %v", h.cmds, v, err)
		}
		h.cmds = nil
		is, err := ScriptRunInt64s(ctx, sc, []string{"a", "b"}, 1, "x")
		if len(h.cmds) != 1 || fmt.Sprintf("%#v", h.cmds[0].Args()) != fmt.Sprintf("%#v", want) || err != e || e == nil && !reflect.DeepEqual(is, []int64{1, 2}) {
			t.Fatalf("ScriptRunInt64s: %v %v %v", h.cmds, is, err)
		}
		for _, b := range []int64{0, 1} {
			h.cmds = nil
			h.set = func(c redis.Cmder) {
				if x, ok := c.(*redis.Cmd); ok {
					x.SetVal(b)
				}
			}
			ok := CAD(ctx, "k", "f")
			if len(h.cmds) != 1 || fmt.Sprintf("%#v", h.cmds[0].Args()) != fmt.Sprintf("%#v", L("CAD", "k", "f")) || e == nil && ok != (b == 1) || e != nil && ok {
				t.Fatalf("CAD: %v %v", h.cmds, ok)
			}
		}
		h.set = nil
		h.cmds = nil
		fn := func(p redis.Pipeliner) error { p.Get(ctx, "a"); p.Get(ctx, "b"); return nil }
		cmds, err := Pipelined(ctx, "x", fn)
		if len(cmds) != 2 || err != e || len(h.cmds) != 2 {
			t.Fatalf("Pipelined: %v %v", cmds, err)
		}
		h.cmds = nil
		cmds, err = TxPipelined(ctx, "x", fn)
		if len(h.cmds) != 4 || err != e || fmt.Sprint(h.cmds[0].Args()) != "[multi]" {
			t.Fatalf("TxPipelined: %v %v %v", cmds, err, h.cmds)
		}
		if _, err := Pipelined(ctx, "x", func(redis.Pipeliner) error { return errors.New("own") }); err == nil {
			t.Fatalf("Pipelined drops the function's error")
		}
	}
	if s, err := ConnHGet(nil, ctx, "k", "f"); s != "" || err == nil {
		t.Fatalf("ConnHGet without a connection")
	}
	if PoolStats(ctx) == nil || Pipeline() == nil {
		t.Fatalf("no pool stats or pipeline")
	}
}

func TestVerifP30Batch(t *testing.T) {
	bad := errors.New("bad")
	for n := 0; n < 5; n++ {
		for f := -1; f < n; f++ {
			var cmds []redis.Cmder
			for i := 0; i < n; i++ {
				c := redis.NewStringCmd(context.Background(), "get")
				c.SetVal(fmt.Sprint("v", i))
				if i == f {
					c.SetErr(bad)
				}
				cmds = append(cmds, c)
			}
			bts, err := GetCmdsByteSlice(cmds)
			if f >= 0 {
				if err != bad {
					t.Fatalf("%d of %d failed: error %v", f, n, err)
				}
				continue
			}
			if err != nil || len(bts) != n {
				t.Fatalf("%d replies: %d %v", n, len(bts), err)
			}
			for i := range bts {
				if string(bts[i]) != fmt.Sprint("v", i) {
					t.Fatalf("reply %d is %s", i, bts[i])
				}
			}
		}
	}
}
