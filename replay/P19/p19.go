// pkg: lib/pubsub
package pubsub

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2/server"
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/router/msg"
)

// vbox: a mailbox with its reader
type vbox struct {
	mu  sync.Mutex
	q   *mpsc.Queue
	got []*msg.Wrapper
	bad []string
}

func (b *vbox) drain() {
	b.mu.Lock()
	defer b.mu.Unlock()
	for {
		x, ok := b.q.Pop().(*msg.Wrapper)
		if !ok || x == nil {
			return
		}
		if c := x.GetWg().Count(); c != 1 {
			b.bad = append(b.bad, fmt.Sprint("pending work of a delivered entry: ", c))
		}
		b.got = append(b.got, x)
	}
}

func (b *vbox) has(id string) bool {
	b.drain()
	b.mu.Lock()
	defer b.mu.Unlock()
	for _, m := range b.got {
		if m.Req.Header.ID == id {
			return true
		}
	}
	return false
}

func TestVerifP19Deliver(t *testing.T) {
	for seed := int64(1); seed <= 3; seed++ {
		r := rand.New(rand.NewSource(seed))
		mr := vstore(t)
		ps := BuildWithOption()
		ctx := context.Background()
		// readers of earlier rounds never stop: they must not see this one's entries
		name := fmt.Sprint("topic", seed)
		tp := ps.GetOrCreateTopic(name)
		other := ps.GetOrCreateTopic("other")
		if err := other.Pub(ctx, "keep", []byte("me")); err != nil {
			t.Fatal(err)
		}
		ch, err := tp.Sub(ctx, "group")
		if err != nil {
			t.Fatal(err)
		}
		b := &vbox{q: mpsc.New()}
		var removed []string
		mr.Server().SetPreHook(func(c *server.Peer, cmd string, args ...string) bool {
			switch strings.ToUpper(cmd) {
			case "XACK", "XDEL":
				id := args[len(args)-1]
				if args[0] != name {
					break
				}
				ok := b.has(id)
				b.mu.Lock()
				if !ok {
					b.bad = append(b.bad, cmd+" of "+id+" which is not in the mailbox")
				}
				if strings.ToUpper(cmd) == "XACK" {
					removed = append(removed, id)
				}
				b.mu.Unlock()
			}
			return false
		})
		type ent struct{ ev, body string }
		var want []ent
		late := r.Intn(2) == 0
		if !late {
			ch.Arrived(b.q)
		}
		n := 35
		for i := 0; i < n; i++ {
			e := ent{fmt.Sprint("e", r.Intn(4)), fmt.Sprint(i, string(vbody(r)))}
			want = append(want, e)
			if err := tp.Pub(ctx, e.ev, []byte(e.body)); err != nil {
				t.Fatal(err)
			}
			if r.Intn(6) == 0 {
				time.Sleep(15 * time.Millisecond)
			}
		}
		if late {
			ch.Arrived(b.q)
		}
		if !vsoon(func() bool { b.drain(); b.mu.Lock(); defer b.mu.Unlock(); return len(b.got) >= n }) {
			t.Fatalf("%d of %d entries delivered", len(b.got), n)
		}
		time.Sleep(40 * time.Millisecond)
		b.drain()
		b.mu.Lock()
		if len(b.bad) > 0 {
			t.Fatal(b.bad)
		}
		if len(b.got) != n {
			t.Fatalf("%d entries published, %d delivered", n, len(b.got))
		}
		ids := map[string]bool{}
		for i, m := range b.got {
			if m.Req.Header.Event != want[i].ev || string(m.Req.Body) != want[i].body {
				t.Fatalf("entry %d is %q %q, published %q %q", i, m.Req.Header.Event, m.Req.Body, want[i].ev, want[i].body)
			}
			if ids[m.Req.Header.ID] {
				t.Fatal("two messages share an id", m.Req.Header.ID)
			}
			ids[m.Req.Header.ID] = true
		}
		b.mu.Unlock()
		if !vsoon(func() bool { return len(ventries(t, mr, name)) == 0 }) {
			t.Fatal("delivered entries stay in the stream:", len(ventries(t, mr, name)))
		}
		if len(ventries(t, mr, "other")) != 1 {
			t.Fatal("another topic lost entries")
		}
		b.mu.Lock()
		for _, id := range removed {
			if !ids[id] {
				t.Fatal("acknowledged", id, "which was not delivered")
			}
		}
		b.mu.Unlock()
		mr.Server().SetPreHook(nil)
	}
}

// subscribing reports the store's refusal, and accepts a group that exists
func TestVerifP19Group(t *testing.T) {
	mr := vstore(t)
	ps := BuildWithOption()
	ctx := context.Background()
	tp := ps.GetOrCreateTopic("topic")
	if _, err := tp.Sub(ctx, "g"); err != nil {
		t.Fatal(err)
	}
	if c, err := tp.Sub(ctx, "g"); err != nil || c == nil || c.topic != "topic" || c.channel != "g" {
		t.Fatal("a second subscriber of the group:", c, err)
	}
	mr.SetError("down")
	c, err := tp.Sub(ctx, "h")
	mr.SetError("")
	if err == nil || c != nil {
		t.Fatal("subscribed without a store:", c, err)
	}
}
