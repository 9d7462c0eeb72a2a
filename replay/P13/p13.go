// pkg: core/addressbook
package addressbook

import (
	"context"
	"math/rand"
	"testing"
)

func TestVerifP13History(t *testing.T) {
	for seed := int64(1); seed <= 6; seed++ {
		w := vnew(t)
		w.some(rand.New(rand.NewSource(seed)), 40, func() {
			w.weights()
			before := vdump(w.mr)
			ctx := context.Background()
			w.books[0].GetWildcardActor(ctx, "a")
			w.books[1].GetLowWeightNodeForActor(ctx, "a")
			w.books[1].GetByID(ctx, "1")
			w.books[1].GetByType(ctx, "a")
			w.books[1].GetActorTypeCount(ctx, "a")
			if d := vsame(before, vdump(w.mr)); d != "" {
				w.fail("a lookup changed %s", d)
			}
		})
		w.mr.Close()
	}
}

func TestVerifP13Refused(t *testing.T) {
	w := vnew(t)
	defer w.mr.Close()
	ctx := context.Background()
	b := w.books[0]
	w.register(b, "a", "1", 5)
	w.register(w.books[1], "a", "2", 7)
	for _, f := range []func() error{
		func() error { return b.Register(ctx, "a", "1", 3) },
		func() error { return b.Register(ctx, "", "9", 3) },
		func() error { return b.Register(ctx, "a", "", 3) },
		func() error { return b.Unregister(ctx, "", 3) },
		func() error { return b.Unregister(ctx, "nobody", 3) },
	} {
		if f() == nil {
			t.Fatal("accepted")
		}
		w.weights()
	}
	// a removal asked of another node
	w.unregister(b, "2")
	w.weights()
	w.check()
}
