// pkg: lib/pubsub
package pubsub

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"
)

func TestVerifP37Same(t *testing.T) {
	mr := vstore(t)
	defer mr.Close()
	r := rand.New(rand.NewSource(3))
	ps := BuildWithOption()
	seen := map[string]*Topic{}
	ttl := map[string]time.Duration{}
	for i := 0; i < 120; i++ {
		n := fmt.Sprint("t", r.Intn(6))
		d := []time.Duration{0, time.Minute, 90 * time.Second, 26 * time.Hour}[r.Intn(4)]
		var opts []TopicOption
		if d != 0 {
			opts = append(opts, WithTTL(d))
		}
		if r.Intn(3) == 0 {
			opts = append([]TopicOption{WithSubSuccCallback(func() {})}, opts...)
		}
		old := seen[n]
		if g := ps.GetTopic(n); g != old {
			t.Fatalf("topic %s: have %p, found %p", n, old, g)
		}
		var tp *Topic
		if r.Intn(2) == 0 {
			tp = ps.CreateTopic(n, opts...)
		} else {
			tp = ps.GetOrCreateTopic(n, opts...)
		}
		if tp == nil || tp.topic != n || old != nil && tp != old {
			t.Fatalf("topic %s: have %p, got %p", n, old, tp)
		}
		if old == nil {
			ttl[n] = d
		}
		seen[n] = tp
		if len(ps.topicMap) != len(seen) {
			t.Fatal("topics known:", ps.topicMap)
		}
		for k, v := range seen {
			if ps.GetTopic(k) != v {
				t.Fatal("asking for", n, "changed", k)
			}
			if mr.TTL(k) != ttl[k] {
				t.Fatalf("lifetime of %s is %v, asked for %v", k, mr.TTL(k), ttl[k])
			}
			if len(ventries(t, mr, k)) != 0 {
				t.Fatal("a new topic holds entries", k, ventries(t, mr, k))
			}
		}
	}
}

// a stream another node made is not made again
func TestVerifP37Existing(t *testing.T) {
	mr := vstore(t)
	defer mr.Close()
	a, b := BuildWithOption(), BuildWithOption()
	ta := a.GetOrCreateTopic("x", WithTTL(time.Hour))
	if err := ta.Pub(context.Background(), "e", []byte("1")); err != nil {
		t.Fatal(err)
	}
	b.GetOrCreateTopic("x", WithTTL(time.Second))
	if len(ventries(t, mr, "x")) != 1 || mr.TTL("x") != time.Hour {
		t.Fatal("an existing stream was initialised again:", ventries(t, mr, "x"), mr.TTL("x"))
	}
}

func TestVerifP37Together(t *testing.T) {
	mr := vstore(t)
	defer mr.Close()
	for round := 0; round < 30; round++ {
		ps := BuildWithOption()
		var wg sync.WaitGroup
		got := make([][4]*Topic, 8)
		for i := range got {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k := range got[i] {
					n := fmt.Sprint("r", round, "-", (k+i)%4)
					got[i][(k+i)%4] = ps.GetOrCreateTopic(n)
				}
			}(i)
		}
		wg.Wait()
		for i := range got {
			if got[i] != got[0] {
				t.Fatal("two topics of one name:", got[i], got[0])
			}
		}
		if len(ps.topicMap) != 4 {
			t.Fatal(ps.topicMap)
		}
	}
}
