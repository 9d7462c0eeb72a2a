package addressbook

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"testing"

	"github.com/alicebob/miniredis/v2"
	trdredis "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/def"
	"github.com/redis/go-redis/v9"
)

func vstore(t *testing.T) *miniredis.Miniredis {
	mr := miniredis.NewMiniRedis()
	if err := mr.Start(); err != nil {
		t.Skip("no loopback")
	}
	trdredis.MockClient(redis.NewClient(&redis.Options{Addr: mr.Addr(), MaxRetries: -1}))
	return mr
}

// vdump: everything the store holds
func vdump(mr *miniredis.Miniredis) map[string]string {
	out := map[string]string{}
	for _, k := range mr.Keys() {
		switch mr.Type(k) {
		case "hash":
			fs, _ := mr.HKeys(k)
			for _, f := range fs {
				out["h\x00"+k+"\x00"+f] = mr.HGet(k, f)
			}
		case "set":
			ms, _ := mr.Members(k)
			for _, m := range ms {
				out["s\x00"+k+"\x00"+m] = ""
			}
		case "string":
			v, _ := mr.Get(k)
			out["v\x00"+k] = v
		default:
			out["?\x00"+k] = ""
		}
	}
	return out
}

func vsame(a, b map[string]string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok1 := a[k]
		y, ok2 := b[k]
		if ok1 != ok2 || x != y {
			return fmt.Sprintf("%q: %q (%v) and %q (%v)", k, x, ok1, y, ok2)
		}
	}
	return ""
}

type vrec struct {
	node, ty string
	w        int
}

type vworld struct {
	t     *testing.T
	mr    *miniredis.Miniredis
	books []*AddressBook
	recs  map[string]vrec           // by id
	wt    map[string]map[string]int // node -> field -> weight
	seen  map[string]bool           // nodes that have a record
	tys   []string
	ids   []string
	log   []string
}

func vnew(t *testing.T) *vworld {
	w := &vworld{t: t, mr: vstore(t), recs: map[string]vrec{}, wt: map[string]map[string]int{}, seen: map[string]bool{}}
	for i, n := range []string{"n1", "n2", "n1}:x", "node, with \"quotes\""} {
		w.books = append(w.books, New(core.AddressInfo{Node: n, Ip: fmt.Sprintf("10.0.0.%d", i), Port: 1000 + i}))
		w.wt[n] = map[string]int{}
	}
	w.tys = []string{"a", "b", "actor:a", "total", "ü <&>"}
	w.ids = []string{"1", "2", "3", "a b", "id\"q\"", "<é>", "7", "8", "9"}
	return w
}

func (w *vworld) fail(f string, a ...interface{}) {
	w.t.Helper()
	w.t.Fatalf("after %v: %s", w.log, fmt.Sprintf(f, a...))
}

// vrecord: what a record says, however its members are ordered
func vrecord(s string) (r core.AddressInfo) {
	json.Unmarshal([]byte(s), &r)
	return
}

func (w *vworld) book(n string) *AddressBook {
	for _, b := range w.books {
		if b.NodeID == n {
			return b
		}
	}
	return nil
}

// check compares the store with what was registered
func (w *vworld) check() {
	w.t.Helper()
	ctx := context.Background()
	ids, _ := w.mr.HKeys(def.RedisAddressbookIDField)
	if len(ids) != len(w.recs) {
		w.fail("the store knows ids %q, registered are %v", ids, w.recs)
	}
	n := 0
	for id, r := range w.recs {
		b := w.book(r.node)
		want := core.AddressInfo{Node: r.node, ActorId: id, ActorTy: r.ty, Ip: b.Ip, Port: b.Port}
		if got := vrecord(w.mr.HGet(def.RedisAddressbookIDField, id)); got != want {
			w.fail("the record of %q is %v", id, got)
		}
		for _, o := range w.books {
			a, err := o.GetByID(ctx, id)
			if err != nil || a.Node != r.node || a.Ip != b.Ip || a.Port != b.Port || a.ActorId != id || o != b && a.ActorTy != r.ty {
				w.fail("%q found by %s at %v, %v", id, o.NodeID, a, err)
			}
			o.RLock()
			_, has := o.IDMap[id]
			o.RUnlock()
			if has != (o == b) {
				w.fail("%s holds %q: %v", o.NodeID, id, has)
			}
		}
	}
	for _, ty := range w.tys {
		as, err := w.books[0].GetByType(ctx, ty)
		if err != nil {
			w.fail("type %q: %v", ty, err)
		}
		n += len(as)
		for _, a := range as {
			if r, ok := w.recs[a.ActorId]; !ok || r.ty != ty || r.node != a.Node || a.Ip != w.book(r.node).Ip || a.Port != w.book(r.node).Port {
				w.fail("among type %q is %v", ty, a)
			}
		}
		if c, err := w.books[0].GetActorTypeCount(ctx, ty); err != nil || int(c) != len(as) {
			w.fail("count of %q is %d, %v", ty, c, err)
		}
	}
	if n != len(w.recs) {
		w.fail("%d records under types, %d registered", n, len(w.recs))
	}
	for _, id := range w.ids {
		if _, ok := w.recs[id]; !ok {
			if _, err := w.books[0].GetByID(ctx, id); err != ErrUnknownActor {
				w.fail("unknown id %q: %v", id, err)
			}
		}
	}
	for nd := range w.wt {
		if !w.seen[nd] {
			if w.mr.Exists(makeNodeKey(nd)) || w.mr.HGet(def.RedisAddressbookNodesField, nd) != "" {
				w.fail("node %q has records", nd)
			}
			continue
		}
		b := w.book(nd)
		if got := vrecord(w.mr.HGet(def.RedisAddressbookNodesField, nd)); got != (core.AddressInfo{Node: nd, Ip: b.Ip, Port: b.Port}) {
			w.fail("the node record of %q is %v", nd, got)
		}
	}
}

// weights compares the recorded weights with the registered ones
func (w *vworld) weights() {
	w.t.Helper()
	for nd, fs := range w.wt {
		key := makeNodeKey(nd)
		got, _ := w.mr.HKeys(key)
		for _, f := range got {
			v, err := strconv.Atoi(w.mr.HGet(key, f))
			if err != nil || v != fs[f] {
				w.fail("weight %q of %q is %q, not %d", f, nd, w.mr.HGet(key, f), fs[f])
			}
		}
		for f, v := range fs {
			if v != 0 && w.mr.HGet(key, f) != strconv.Itoa(v) {
				w.fail("weight %q of %q is %q, not %d", f, nd, w.mr.HGet(key, f), v)
			}
		}
	}
}

func (w *vworld) add(nd, ty string, by int) {
	w.wt[nd]["actor:"+ty] += by
	w.wt[nd]["total_weight"] += by
}

func (w *vworld) register(b *AddressBook, ty, id string, wt int) {
	w.t.Helper()
	ctx := context.Background()
	w.log = append(w.log, fmt.Sprintf("%s.Register(%q,%q,%d)", b.NodeID, ty, id, wt))
	_, dup := w.recs[id]
	dup = dup && w.recs[id].node == b.NodeID
	before := vdump(w.mr)
	view := fmt.Sprint(b.IDMap)
	err := b.Register(ctx, ty, id, wt)
	if id == "" || ty == "" || dup {
		if err == nil {
			w.fail("accepted")
		}
		if d := vsame(before, vdump(w.mr)); d != "" || fmt.Sprint(b.IDMap) != view {
			w.fail("a refused registration changed %s", d)
		}
		return
	}
	if err != nil {
		w.fail("refused: %v", err)
	}
	w.recs[id] = vrec{b.NodeID, ty, wt}
	w.seen[b.NodeID] = true
	w.add(b.NodeID, ty, wt)
}

func (w *vworld) unregister(b *AddressBook, id string) {
	w.t.Helper()
	w.log = append(w.log, fmt.Sprintf("%s.Unregister(%q)", b.NodeID, id))
	r, ok := w.recs[id]
	before := vdump(w.mr)
	view := fmt.Sprint(b.IDMap)
	err := b.Unregister(context.Background(), id, r.w)
	if !ok {
		if err == nil {
			w.fail("accepted")
		}
		if d := vsame(before, vdump(w.mr)); d != "" || fmt.Sprint(b.IDMap) != view {
			w.fail("a refused removal changed %s", d)
		}
		return
	}
	if err != nil {
		w.fail("refused: %v", err)
	}
	delete(w.recs, id)
	w.add(r.node, r.ty, -r.w)
	if o := w.book(r.node); o != b {
		o.Lock()
		delete(o.IDMap, id) // the holder learns of it on its own
		o.Unlock()
	}
}

func (w *vworld) free(id string) bool { _, ok := w.recs[id]; return !ok }

func (w *vworld) some(rnd *rand.Rand, n int, after func()) {
	for i := 0; i < n; i++ {
		b := w.books[rnd.Intn(len(w.books))]
		id := w.ids[rnd.Intn(len(w.ids))]
		switch r := rnd.Intn(10); {
		case r < 6:
			if r, ok := w.recs[id]; ok {
				b = w.book(r.node) // an id another node holds is P40's matter
			}
			w.register(b, w.tys[rnd.Intn(len(w.tys))], id, rnd.Intn(7))
		case r == 6:
			w.register(b, "", id, 1)
			w.register(b, w.tys[0], "", 1)
		default:
			w.unregister(b, id)
		}
		after()
	}
}
