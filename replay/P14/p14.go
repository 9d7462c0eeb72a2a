// pkg: core/addressbook
package addressbook

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"testing"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/def"
)

func p14weight(w *vworld, nd string) (int, bool) {
	v, err := strconv.Atoi(w.mr.HGet(makeNodeKey(nd), "total_weight"))
	return v, err == nil
}

func TestVerifP14Pick(t *testing.T) {
	ctx := context.Background()
	vals := []string{"-", "junk", "", "0", "5", "-3", "7", "100", strconv.Itoa(math.MaxInt64 - 1), strconv.Itoa(math.MinInt64), "9223372036854775808"}
	rnd := rand.New(rand.NewSource(1))
	for round := 0; round < 150; round++ {
		w := vnew(t)
		for i, id := range w.ids {
			if rnd.Intn(3) > 0 {
				w.register(w.books[rnd.Intn(len(w.books))], w.tys[rnd.Intn(2)], id, i)
			}
		}
		for _, b := range w.books {
			v := vals[rnd.Intn(len(vals))]
			w.log = append(w.log, fmt.Sprintf("weight(%s)=%s", b.NodeID, v))
			if v == "-" {
				w.mr.HDel(makeNodeKey(b.NodeID), "total_weight")
			} else {
				w.mr.HSet(makeNodeKey(b.NodeID), "total_weight", v)
			}
		}
		if rnd.Intn(3) == 0 {
			w.mr.SAdd(def.RedisAddressbookTyField+"a", "{")
		}
		best, some := 0, false
		for _, r := range w.recs {
			if v, ok := p14weight(w, r.node); ok && r.ty == "a" && v < math.MaxInt64 && (!some || v < best) {
				best, some = v, true
			}
		}
		a, err := w.books[0].GetWildcardActor(ctx, "a")
		if (err == nil) != some {
			w.fail("picked %v, %v", a, err)
		}
		if err == nil {
			r, ok := w.recs[a.ActorId]
			v, ok2 := p14weight(w, a.Node)
			if !ok || !ok2 || r.ty != "a" || r.node != a.Node || a.Ip != w.book(r.node).Ip || a.Port != w.book(r.node).Port || v != best {
				w.fail("picked %v of weight %d, least is %d", a, v, best)
			}
		}
		best, some = 0, false
		for nd := range w.seen {
			if v, ok := p14weight(w, nd); ok && v < math.MaxInt64 && (!some || v < best) {
				best, some = v, true
			}
		}
		a, err = w.books[0].GetLowWeightNodeForActor(ctx, "a")
		if (err == nil) != some {
			w.fail("placed on %v, %v", a, err)
		}
		if err == nil {
			v, ok := p14weight(w, a.Node)
			if b := w.book(a.Node); b == nil || !ok || !w.seen[a.Node] || v != best || a.Ip != b.Ip || a.Port != b.Port {
				w.fail("placed on %v of weight %d, least is %d", a, v, best)
			}
		}
		w.mr.SetError("down")
		if a, err := w.books[0].GetWildcardActor(ctx, "a"); err == nil {
			w.fail("picked %v without a store", a)
		}
		if a, err := w.books[0].GetLowWeightNodeForActor(ctx, "a"); err == nil {
			w.fail("placed on %v without a store", a)
		}
		w.mr.Close()
	}
}

// many candidates: the sample is at least the first few
func TestVerifP14Many(t *testing.T) {
	ctx := context.Background()
	w := vnew(t)
	defer w.mr.Close()
	for i := 0; i < 30; i++ {
		b := New(core.AddressInfo{Node: fmt.Sprint("m", i), Ip: "x", Port: i})
		if err := b.Register(ctx, "a", fmt.Sprint("id", i), 30-i); err != nil {
			t.Fatal(err)
		}
	}
	for i := 0; i < 50; i++ {
		a, err := w.books[0].GetWildcardActor(ctx, "a")
		if err != nil || a.ActorTy != "a" || "m"+a.ActorId[2:] != a.Node {
			t.Fatal(a, err)
		}
	}
	if a, err := w.books[0].GetLowWeightNodeForActor(ctx, "a"); err != nil || a.Node != "m29" {
		t.Fatal(a, err)
	}
}
