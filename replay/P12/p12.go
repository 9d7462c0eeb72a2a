// pkg: core/addressbook
package addressbook

import (
	"context"
	"fmt"
	"math/rand"
	"testing"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/def"
)

func TestVerifP12History(t *testing.T) {
	for seed := int64(1); seed <= 6; seed++ {
		w := vnew(t)
		w.some(rand.New(rand.NewSource(seed)), 40, w.check)
		w.mr.Close()
	}
}

// a store that refuses
func TestVerifP12Faults(t *testing.T) {
	w := vnew(t)
	defer w.mr.Close()
	ctx := context.Background()
	b := w.books[0]
	w.register(b, "a", "1", 2)
	w.register(b, "b", "2", 2)
	view := fmt.Sprint(b.IDMap)
	keep := vdump(w.mr)
	w.mr.SetError("down")
	if err := b.Register(ctx, "a", "3", 1); err == nil {
		t.Fatal("registered without a store")
	}
	if err := b.Unregister(ctx, "1", 2); err == nil {
		t.Fatal("removed without a store")
	}
	if _, err := b.GetByID(ctx, "nobody"); err == nil || err == ErrUnknownActor {
		t.Fatal("lookup without a store:", err)
	}
	if _, err := b.GetByType(ctx, "a"); err == nil {
		t.Fatal("lookup by type without a store")
	}
	w.mr.SetError("")
	if fmt.Sprint(b.IDMap) != view || vsame(keep, vdump(w.mr)) != "" {
		t.Fatal("a failed operation changed the book:", b.IDMap)
	}
	// one command of the transaction fails
	for _, f := range []string{"total_weight", "actor:a"} {
		old := w.mr.HGet(makeNodeKey("n1"), f)
		w.mr.HSet(makeNodeKey("n1"), f, "junk")
		if err := b.Register(ctx, "a", "4", 1); err == nil {
			t.Fatal("registered though a command failed")
		}
		if err := b.Unregister(ctx, "1", 2); err == nil {
			t.Fatal("removed though a command failed")
		}
		if fmt.Sprint(b.IDMap) != view {
			t.Fatal("a failed operation changed the node's view:", b.IDMap)
		}
		w.mr.HSet(makeNodeKey("n1"), f, old)
		for k := range vdump(w.mr) {
			_ = k
		}
		w.mr.FlushAll()
		b.IDMap = map[string]bool{}
		w.recs = map[string]vrec{}
		w.register(b, "a", "1", 2)
		w.register(b, "b", "2", 2)
	}
	// records that cannot be read
	w.mr.HSet(def.RedisAddressbookIDField, "broken", "{")
	if a, err := b.GetByID(ctx, "broken"); err == nil || err == ErrUnknownActor {
		t.Fatal("unreadable record:", a, err)
	}
	w.mr.SAdd(def.RedisAddressbookTyField+"a", "{")
	if as, err := b.GetByType(ctx, "a"); err == nil {
		t.Fatal("unreadable record:", as)
	}
	if _, err := b.GetByID(ctx, ""); err == nil {
		t.Fatal("empty id")
	}
}

func TestVerifP12New(t *testing.T) {
	b := New(core.AddressInfo{Node: "n", Ip: "i", Port: 3})
	if b.NodeID != "n" || b.Ip != "i" || b.Port != 3 || len(b.IDMap) != 0 || b.IDMap == nil {
		t.Fatal(b)
	}
}
