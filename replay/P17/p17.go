// pkg: core/addressbook
package addressbook

import (
	"context"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/alicebob/miniredis/v2/server"
	"github.com/pojol/braid/def"
)

// what is left when node nd's records are taken away
func p17without(w *vworld, nd string) map[string]string {
	out := map[string]string{}
	for k, v := range vdump(w.mr) {
		p := strings.Split(k, "\x00")
		switch {
		case p[0] == "h" && p[1] == def.RedisAddressbookIDField && vrecord(v).Node == nd:
		case p[0] == "h" && p[1] == def.RedisAddressbookNodesField && p[2] == nd:
		case p[0] == "s" && vrecord(p[2]).Node == nd:
		case p[0] == "h" && p[1] == makeNodeKey(nd):
		default:
			out[k] = v
		}
	}
	return out
}

func TestVerifP17History(t *testing.T) {
	ctx := context.Background()
	for seed := int64(1); seed <= 8; seed++ {
		w := vnew(t)
		rnd := rand.New(rand.NewSource(seed))
		for i := 0; i < 6; i++ {
			w.some(rnd, 12, func() {})
			b := w.books[rnd.Intn(len(w.books))]
			want := p17without(w, b.NodeID)
			w.log = append(w.log, b.NodeID+".Clear()")
			if err := b.Clear(ctx); err != nil {
				w.fail("%v", err)
			}
			if d := vsame(want, vdump(w.mr)); d != "" {
				w.fail("wanted and found differ at %s", d)
			}
			if len(b.IDMap) != 0 || b.IDMap == nil {
				w.fail("the view is %v", b.IDMap)
			}
			for id, r := range w.recs {
				if r.node == b.NodeID {
					delete(w.recs, id)
				}
			}
			w.wt[b.NodeID] = map[string]int{}
			w.seen[b.NodeID] = false
			w.check()
			w.weights()
		}
		w.mr.Close()
	}
}

// the lock: not obtained, and released whatever fails
func TestVerifP17Lock(t *testing.T) {
	w := vnew(t)
	defer w.mr.Close()
	b := w.books[0]
	w.register(b, "a", "1", 1)
	w.register(b, "b", "2", 1)
	w.register(w.books[1], "b", "3", 1)
	view := fmt.Sprint(b.IDMap)
	clean := vdump(w.mr)
	// commands fail one after the other
	for n := 0; n < 12; n++ {
		var seen []string
		cnt := 0
		w.mr.Server().SetPreHook(func(c *server.Peer, cmd string, args ...string) bool {
			up := strings.ToUpper(cmd)
			if up == "HELLO" || up == "CLIENT" || up == "EVALSHA" || up == "EVAL" || up == "SCRIPT" || up == "SET" || up == "SETNX" || up == "GET" || up == "DEL" && args[0] == b.NodeID {
				return false
			}
			seen = append(seen, up)
			cnt++
			if up == "MULTI" || cnt == n+1 {
				c.WriteError("ERR down")
				return true
			}
			return false
		})
		err := b.Clear(context.Background())
		w.mr.Server().SetPreHook(nil)
		after := vdump(w.mr)
		if err == nil {
			if cnt > n {
				t.Fatalf("no error though %v failed", seen)
			}
			break
		}
		if fmt.Sprint(b.IDMap) != view {
			t.Fatalf("failed, yet the view is %v", b.IDMap)
		}
		for k := range after {
			if strings.HasPrefix(k, "v\x00") {
				t.Fatalf("the lock %q is still held after %v", k, err)
			}
		}
		w.mr.FlushAll()
		for k, v := range clean {
			p := strings.Split(k, "\x00")
			if p[0] == "h" {
				w.mr.HSet(p[1], p[2], v)
			} else {
				w.mr.SAdd(p[1], p[2])
			}
		}
	}
	// another node holds it
	w.mr.FlushAll()
	if err := b.Register(context.Background(), "a", "1", 1); err != nil && len(b.IDMap) == 0 {
		t.Fatal(err)
	}
	view = fmt.Sprint(b.IDMap)
	w.mr.Set(b.NodeID, "somebody")
	before := vdump(w.mr)
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	if err := b.Clear(ctx); err == nil {
		t.Fatal("cleared without the lock")
	}
	if d := vsame(before, vdump(w.mr)); d != "" || fmt.Sprint(b.IDMap) != view {
		t.Fatal("changed without the lock:", d)
	}
	if v, _ := w.mr.Get(b.NodeID); v != "somebody" {
		t.Fatal("the lock of somebody else is", v)
	}
}
