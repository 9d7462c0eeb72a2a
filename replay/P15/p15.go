// pkg: core/node
package node

import (
	"context"
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"github.com/pojol/braid/core"
)

func TestVerifP15Register(t *testing.T) {
	ctx := context.Background()
	rnd := rand.New(rand.NewSource(1))
	ids := []string{"", "x", "y", "z"}
	tys := []string{"", "a", "b"}
	for round := 0; round < 60; round++ {
		mr := vstore(t)
		s, other := vsystem("n1", 0), vsystem("n2", 0)
		if rnd.Intn(2) == 0 {
			vadd(t, other, "o", "a", 1)
		}
		here := map[string]*vact{}
		var log []string
		for step := 0; step < 14; step++ {
			b := &vbld{id: ids[rnd.Intn(4)], ty: tys[rnd.Intn(3)], w: rnd.Intn(4), limit: rnd.Intn(4), unique: rnd.Intn(3) == 0}
			var made []*vact
			var told bool
			b.con = func(core.IActorBuilder) core.IActor {
				a := &vact{id: b.id, ty: b.ty}
				made = append(made, a)
				_, e := other.addressbook.GetByID(ctx, b.id)
				told = e == nil
				return a
			}
			down := rnd.Intn(6) == 0
			total, mine := 0, 0
			for _, bk := range []*NormalSystem{s, other} {
				for _, a := range bk.actoridmap {
					if a.Type() == b.ty {
						total++
						if bk == s {
							mine++
						}
					}
				}
			}
			_, present := here[b.id]
			ok := b.id != "" && b.ty != "" && !present && !(b.unique && mine > 0) && !(b.limit != 0 && total >= b.limit) && !down
			if down {
				mr.SetError("down")
			}
			log = append(log, fmt.Sprintf("%+v down=%v", *b, down))
			n := len(s.actoridmap)
			a, err := s.Register(ctx, b)
			mr.SetError("")
			if (err == nil) != ok {
				t.Fatalf("%v: expected success %v, got %v", log, ok, err)
			}
			if err != nil {
				if len(made) != 0 || len(s.actoridmap) != n || len(s.registering) != 0 {
					t.Fatalf("%v: a failed registration left something: %v made, table %v, claims %v", log, len(made), s.actoridmap, s.registering)
				}
				continue
			}
			if len(made) != 1 || made[0].inits != 1 || a != core.IActor(made[0]) || !told || len(s.registering) != 0 {
				t.Fatalf("%v: constructed %v times, recorded before %v, claims %v", log, len(made), told, s.registering)
			}
			here[b.id] = made[0]
			for id, x := range here {
				if got, err := s.FindActor(ctx, id); err != nil || got != core.IActor(x) {
					t.Fatalf("%v: %v is %v, %v", log, id, got, err)
				}
			}
			if _, err := s.FindActor(ctx, "nobody"); err == nil {
				t.Fatal("found nobody")
			}
		}
		mr.Close()
	}
}

// registrations of one id, or of one-per-node actors, at the same time
func TestVerifP15Together(t *testing.T) {
	for round := 0; round < 60; round++ {
		mr := vstore(t)
		s := vsystem("n1", 0)
		var wg sync.WaitGroup
		var mu sync.Mutex
		made, ok := 0, 0
		for i := 0; i < 8; i++ {
			id := "x"
			if round%2 == 0 {
				id = fmt.Sprint("x", i)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				_, err := s.Register(context.Background(), &vbld{id: id, ty: "a", unique: true, con: func(core.IActorBuilder) core.IActor {
					mu.Lock()
					made++
					mu.Unlock()
					return &vact{id: id, ty: "a"}
				}})
				if err == nil {
					mu.Lock()
					ok++
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if made != 1 || ok != 1 {
			t.Fatalf("round %v: %v constructed, %v registrations succeeded", round, made, ok)
		}
		mr.Close()
	}
}
