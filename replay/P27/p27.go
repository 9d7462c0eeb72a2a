// pkg: lib/dismutex
// bounded: the effect of the release script (Lua text run by the store) on every combination of held value, given value and other entries of a small set, against miniredis
package dismutex

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/redis/go-redis/v9"
)

func p27(t *testing.T) *miniredis.Miniredis {
	mr := miniredis.NewMiniRedis()
	if err := mr.Start(); err != nil {
		t.Skip("no loopback")
	}
	trdredis.MockClient(redis.NewClient(&redis.Options{Addr: mr.Addr()}))
	return mr
}

// the release script
func TestVerifP27Unlock(t *testing.T) {
	mr := p27(t)
	defer mr.Close()
	ctx := context.Background()
	vals := []string{"", "a", "b", "a ", "aa"}
	for _, held := range append(vals, "-") {
		for _, given := range vals {
			mr.FlushAll()
			mr.Set("other", given)
			mr.Set("", given)
			if held != "-" {
				mr.Set("tok", held)
				mr.SetTTL("tok", 7*time.Second)
			}
			ok := Unlock(ctx, "tok", given)
			want := held == given && given != "" && held != "-"
			if ok != want {
				t.Fatalf("held %q released with %q: %v", held, given, ok)
			}
			if v, err := mr.Get("tok"); held != "-" && !want && (err != nil || v != held || mr.TTL("tok") != 7*time.Second) || want && err == nil {
				t.Fatalf("held %q released with %q: entry is now %q %v", held, given, v, err)
			}
			if v, _ := mr.Get("other"); v != given {
				t.Fatalf("another entry changed")
			}
			if v, _ := mr.Get(""); v != given {
				t.Fatalf("another entry changed")
			}
		}
	}
	mr.SetError("down")
	if Unlock(ctx, "tok", "a") {
		t.Fatalf("released without the store")
	}
}

func TestVerifP27Lock(t *testing.T) {
	mr := p27(t)
	defer mr.Close()
	ctx := context.Background()
	var wg sync.WaitGroup
	seen := map[string]bool{}
	for i := 0; i < 50; i++ {
		k := fmt.Sprint("free", i)
		v, err := Lock(ctx, k)
		if err != nil || v == "" || seen[v] || len(v) < 20 {
			t.Fatalf("free lock: %q %v", v, err)
		}
		seen[v] = true
		if h, _ := mr.Get(k); h != v || mr.TTL(k) != Expiry || Expiry <= 0 {
			t.Fatalf("entry %q ttl %v, want %q %v", h, mr.TTL(k), v, Expiry)
		}
	}
	if v, err := Lock(ctx, ""); err == nil || v != "" {
		t.Fatalf("empty name locked")
	}
	// held all the time
	mr.Set("held", "me")
	mr.SetTTL("held", 9*time.Second)
	// contended
	var mu sync.Mutex
	got := map[string]int{}
	for i := 0; i < 8; i++ {
		for _, k := range []string{"held", "contended"} {
			wg.Add(1)
			go func(k string) {
				defer wg.Done()
				v, err := Lock(ctx, k)
				mu.Lock()
				defer mu.Unlock()
				if err == nil {
					got[k]++
					if h, _ := mr.Get(k); h != v {
						t.Errorf("lock granted with %q while %q holds it", v, h)
					}
				} else if v != "" {
					t.Errorf("failed with a value")
				}
			}(k)
		}
	}
	wg.Wait()
	if got["held"] != 0 || got["contended"] != 1 {
		t.Fatalf("granted %v", got)
	}
	if v, _ := mr.Get("held"); v != "me" || mr.TTL("held") != 9*time.Second {
		t.Fatalf("the holder's entry changed")
	}
	// released while waiting: granted on a later attempt, with this attempt's value
	mr.Set("later", "other")
	go func() { time.Sleep(400 * time.Millisecond); mr.Del("later") }()
	v, err := Lock(ctx, "later")
	if h, _ := mr.Get("later"); err != nil || v == "" || h != v || mr.TTL("later") != Expiry {
		t.Fatalf("granted later: %q %v, entry %q", v, err, h)
	}
	mr.SetError("down")
	if v, err := Lock(ctx, "x"); err == nil || v != "" {
		t.Fatalf("locked without the store")
	}
}
