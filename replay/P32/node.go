// pkg: core/node
// race
package node

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
)

// registrations, removals, lookups, calls and listings from many goroutines
func TestVerifP32Node(t *testing.T) {
	mr := vstore(t)
	defer mr.Close()
	s := vsystem("n1", 0)
	var wg sync.WaitGroup
	ctx := context.Background()
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 25; i++ {
				id := fmt.Sprint("x", g, "-", i%3)
				a := &vact{id: id, ty: "a"}
				_, _ = s.Register(ctx, &vbld{id: id, ty: "a", w: 1, con: func(core.IActorBuilder) core.IActor { return a }})
				_, _ = s.FindActor(ctx, id)
				_ = s.Actors()
				m := msg.NewBuilder(ctx).WithReqHeader(&router.Header{}).Build()
				_ = s.Send(id, "a", "e", m)
				_ = s.Send("?", "a", "e", msg.NewBuilder(ctx).WithReqHeader(&router.Header{}).Build())
				_ = s.Send("~", "a", "e", msg.NewBuilder(ctx).WithReqHeader(&router.Header{}).Build())
				_ = s.Unregister(id, "a")
			}
		}(g)
	}
	if !vsoon(60*time.Second, wg.Wait) {
		t.Fatal("the node's table is locked for good")
	}
	if !vsoon(10*time.Second, func() { s.Lock(); s.Unlock() }) {
		t.Fatal("a lock of the node's table is never released")
	}
}
