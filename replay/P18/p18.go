// pkg: lib/pubsub
package pubsub

import (
	"context"
	"fmt"
	"math/rand"
	"testing"
)

func TestVerifP18History(t *testing.T) {
	for seed := int64(1); seed <= 5; seed++ {
		r := rand.New(rand.NewSource(seed))
		mr := vstore(t)
		ps := BuildWithOption()
		want := map[string][]map[string]string{}
		ctx := context.Background()
		for i := 0; i < 80; i++ {
			name := fmt.Sprint("topic", r.Intn(3))
			tp := ps.GetOrCreateTopic(name)
			if r.Intn(15) == 0 {
				// a group that exists makes no difference
				mr.DB(0)
				_ = tp
			}
			ev := []string{"", "ev", "e v", "msg", "event"}[r.Intn(5)]
			body := vbody(r)
			down := r.Intn(10) == 0
			if down {
				mr.SetError("down")
			}
			err := tp.Pub(ctx, ev, body)
			mr.SetError("")
			if (err != nil) != (ev == "" || down) {
				t.Fatalf("publishing %q, store down %v: %v", ev, down, err)
			}
			if err == nil {
				want[name] = append(want[name], map[string]string{"msg": string(body), "event": ev})
			}
			for n, w := range want {
				if g := ventries(t, mr, n); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", w) {
					t.Fatalf("after publishing %q %q to %s, topic %s holds\n%q\nwant\n%q", ev, body, name, n, g, w)
				}
			}
		}
		mr.Close()
	}
}

func TestVerifP18Forms(t *testing.T) {
	mr := vstore(t)
	defer mr.Close()
	ctx := context.Background()
	ps := BuildWithOption()
	tp := ps.GetOrCreateTopic("a")
	for i, b := range [][]byte{nil, {}, []byte("x"), {0, 255, 10}, make([]byte, 70000)} {
		if err := tp.Pub(ctx, fmt.Sprint("e", i), b); err != nil {
			t.Fatal(err)
		}
		es := ventries(t, mr, "a")
		if len(es) != i+1 || es[i]["msg"] != string(b) || es[i]["event"] != fmt.Sprint("e", i) || len(es[i]) != 2 {
			t.Fatalf("publishing %d bytes appended %q", len(b), es[i:])
		}
	}
	// the stream is gone: publishing still works
	mr.Del("a")
	if err := tp.Pub(ctx, "e", []byte("y")); err != nil || len(ventries(t, mr, "a")) != 1 {
		t.Fatal("publishing to a topic whose stream was removed:", err, ventries(t, mr, "a"))
	}
}
