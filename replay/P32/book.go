// pkg: core/addressbook
// race
package addressbook

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/core"
)

func TestVerifP32Book(t *testing.T) {
	mr := vstore(t)
	defer mr.Close()
	b := New(core.AddressInfo{Node: "n1", Ip: "127.0.0.1", Port: 1})
	ctx := context.Background()
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 25; i++ {
				id := fmt.Sprint("x", g, "-", i%3)
				_ = b.Register(ctx, "a", id, 1)
				_ = b.Register(ctx, "a", id, 1)
				_, _ = b.GetByID(ctx, id)
				_, _ = b.GetByType(ctx, "a")
				_, _ = b.GetWildcardActor(ctx, "a")
				if g == 0 && i%10 == 9 {
					_ = b.Clear(ctx)
				}
				_ = b.Unregister(ctx, id, 1)
				_ = b.Unregister(ctx, id, 1)
			}
		}(g)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); b.Lock(); b.Unlock(); close(done) }()
	select {
	case <-done:
	case <-time.After(90 * time.Second):
		t.Fatal("a lock of the address book is never released")
	}
}
