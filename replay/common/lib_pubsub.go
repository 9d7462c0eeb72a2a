package pubsub

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/lib/log"
	"github.com/redis/go-redis/v9"
	"go.uber.org/zap"
)

func vstore(t *testing.T) *miniredis.Miniredis {
	log.ExportSLog(zap.NewNop(), "")
	mr := miniredis.NewMiniRedis()
	if err := mr.Start(); err != nil {
		t.Skip("no loopback")
	}
	trdredis.MockClient(redis.NewClient(&redis.Options{Addr: mr.Addr(), MaxRetries: -1}))
	return mr
}

// ventries: the entries of a stream, as field maps
func ventries(t *testing.T, mr *miniredis.Miniredis, k string) []map[string]string {
	if !mr.Exists(k) {
		return nil
	}
	es, err := mr.Stream(k)
	if err != nil {
		t.Fatal(err)
	}
	var out []map[string]string
	for _, e := range es {
		m := map[string]string{}
		for i := 0; i+1 < len(e.Values); i += 2 {
			m[e.Values[i]] = e.Values[i+1]
		}
		if len(m)*2 != len(e.Values) {
			m["?"] = fmt.Sprint(e.Values)
		}
		out = append(out, m)
	}
	return out
}

func vbody(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(60))
	r.Read(b)
	switch r.Intn(4) {
	case 0:
		return []byte(" spaces \n\t ")
	case 1:
		return []byte(fmt.Sprint("消息 ", r.Intn(100)))
	}
	return b
}

func vsoon(f func() bool) bool {
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}
