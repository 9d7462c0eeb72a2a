// pkg: core/actor
// race
package actor

import (
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/router/msg"
)

func TestVerifP32Future(t *testing.T) {
	for round := 0; round < 100; round++ {
		f := NewFuture()
		var wg, cb sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(2)
			cb.Add(2)
			go func() {
				defer wg.Done()
				f.Then(func(*msg.Wrapper) { cb.Done() }).Then(func(*msg.Wrapper) { cb.Done() })
				f.IsCompleted()
			}()
			go func() { defer wg.Done(); f.Complete(&msg.Wrapper{}) }()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); cb.Wait(); f.mutex.Lock(); f.mutex.Unlock(); close(done) }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			t.Fatal("the future's lock is never released, or a callback is lost")
		}
	}
}
