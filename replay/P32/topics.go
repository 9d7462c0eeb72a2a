// pkg: lib/pubsub
// race
package pubsub

import (
	"context"
	"fmt"
	"sync"
	"testing"
	"time"
)

func TestVerifP32Topics(t *testing.T) {
	mr := vstore(t)
	defer mr.Close()
	ps := BuildWithOption()
	ctx := context.Background()
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 12; i++ {
				n := fmt.Sprint("t", (g+i)%4)
				ps.GetTopic(n)
				ps.CreateTopic(n)
				tp := ps.GetOrCreateTopic(n)
				if i == 3 {
					_, _ = tp.Sub(ctx, fmt.Sprint("c", g))
				}
				if i == 5 && g == 0 {
					mr.SetError("down")
					_, _ = tp.Sub(ctx, "refused")
					mr.SetError("")
				}
			}
		}(g)
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		ps.Lock()
		ps.Unlock()
		for _, tp := range ps.topicMap {
			tp.Lock()
			tp.Unlock()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("a lock of a topic table is never released")
	}
}
