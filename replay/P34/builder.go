// pkg: core/actor
package actor

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"github.com/pojol/braid/core"
)

type p34Loader struct {
	core.IActorLoader
	picked core.IActorBuilder
	err    error
}

func (l *p34Loader) Pick(_ context.Context, b core.IActorBuilder) error { l.picked = b; return l.err }

func TestVerifP34(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 3000; k++ {
		var tmpl map[string]string
		if r.Intn(3) > 0 {
			tmpl = map[string]string{}
			for i := r.Intn(3); i > 0; i-- {
				tmpl[fmt.Sprint("k", r.Intn(3))] = fmt.Sprint("t", r.Intn(9))
			}
		}
		con := core.ActorConstructor{Name: "ty", Weight: 3, GlobalQuantityLimit: 4, NodeUnique: true, Options: tmpl}
		tcopy := map[string]string{}
		for a, b := range tmpl {
			tcopy[a] = b
		}
		bs := []*ActorLoaderBuilder{}
		models := []map[string]string{}
		n := 1 + r.Intn(3)
		for i := 0; i < n; i++ {
			bs = append(bs, &ActorLoaderBuilder{ActorConstructor: con})
			m := map[string]string{}
			for a, b := range tmpl {
				m[a] = b
			}
			models = append(models, m)
		}
		var log string
		for op := r.Intn(8); op > 0; op-- {
			i, key, v := r.Intn(n), fmt.Sprint("k", r.Intn(4)), fmt.Sprint("v", r.Intn(9))
			if r.Intn(8) == 0 {
				v = ""
			}
			log += fmt.Sprintf(" b%d[%s]=%s", i, key, v)
			if ret := bs[i].WithOpt(key, v); ret != core.IActorBuilder(bs[i]) {
				t.Fatalf("WithOpt returns another builder")
			}
			models[i][key] = v
			for j := range bs {
				for q := 0; q < 4; q++ {
					kk := fmt.Sprint("k", q)
					if got := bs[j].GetOpt(kk); got != models[j][kk] {
						t.Fatalf("template %v,%s: builder %d option %s is %q, want %q", tcopy, log, j, kk, got, models[j][kk])
					}
					_, has := bs[j].GetOptions()[kk]
					_, want := models[j][kk]
					if has != want {
						t.Fatalf("template %v,%s: builder %d option %s present %v, want %v", tcopy, log, j, kk, has, want)
					}
				}
				if len(bs[j].GetOptions()) != len(models[j]) {
					t.Fatalf("template %v,%s: builder %d has %v, want %v", tcopy, log, j, bs[j].GetOptions(), models[j])
				}
			}
			if len(tmpl) != len(tcopy) {
				t.Fatalf("template changed to %v by%s", tmpl, log)
			}
			for a, b := range tcopy {
				if tmpl[a] != b {
					t.Fatalf("template %v changed to %v by%s", tcopy, tmpl, log)
				}
			}
		}
		b := bs[0]
		if b.WithID("id1") != core.IActorBuilder(b) || b.GetID() != "id1" || b.WithType("tt") != core.IActorBuilder(b) || b.GetType() != "tt" || b.GetWeight() != 3 || b.GetGlobalQuantityLimit() != 4 || !b.GetNodeUnique() {
			t.Fatalf("builder getters: %v %v %v %v %v", b.GetID(), b.GetType(), b.GetWeight(), b.GetGlobalQuantityLimit(), b.GetNodeUnique())
		}
	}
	ld := &p34Loader{err: fmt.Errorf("picked")}
	b := &ActorLoaderBuilder{IActorLoader: ld}
	if err := b.Picker(context.Background()); err != ld.err || ld.picked != core.IActorBuilder(b) {
		t.Fatalf("Picker: %v", err)
	}
	func() {
		defer func() {
			if recover() == nil {
				t.Fatal("WithID(\"\") accepted")
			}
		}()
		(&ActorLoaderBuilder{}).WithID("")
	}()
	// concurrent options of one template
	shared := core.ActorConstructor{Options: map[string]string{"a": "b"}}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			b := &ActorLoaderBuilder{ActorConstructor: shared}
			for i := 0; i < 500; i++ {
				b.WithOpt("a", fmt.Sprint(g))
				if b.GetOpt("a") != fmt.Sprint(g) {
					t.Errorf("builder %d reads %q", g, b.GetOpt("a"))
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
