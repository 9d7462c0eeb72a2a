// pkg: core/actor
package actor

import (
	"context"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/lib/warpwaitgroup"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
)

type v39chain struct{ f func() }

func (c *v39chain) Execute(*msg.Wrapper) error { c.f(); return nil }

func v39msg() *msg.Wrapper {
	ctx := context.WithValue(context.Background(), msg.WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
	return msg.NewBuilder(ctx).WithReqHeader(&router.Header{Event: "e"}).Build()
}

func TestVerifP39Drain(t *testing.T) {
	for trial := 0; trial < 60; trial++ {
		a, _ := vactor("a", "t")
		var done, taken int32
		pause := time.Duration(trial%4) * time.Millisecond
		a.OnEvent("e", func(core.ActorContext) core.IChain {
			return &v39chain{func() { time.Sleep(pause); atomic.AddInt32(&done, 1) }}
		})
		var wg sync.WaitGroup
		stop := make(chan struct{})
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; ; i++ {
					if a.Received(v39msg()) == nil {
						atomic.AddInt32(&taken, 1)
					}
					if pause > 0 && i%8 == 7 {
						time.Sleep(pause)
					}
					select {
					case <-stop:
						return
					default:
					}
					if atomic.LoadInt32(&taken) > 400 {
						return
					}
				}
			}()
		}
		time.Sleep(time.Duration(trial%5) * time.Millisecond)
		if !vsoon39(8*time.Second, a.Exit) {
			t.Fatalf("trial %d: Exit did not return although every message takes at most %v", trial, pause)
		}
		close(stop)
		n := atomic.LoadInt32(&done)
		wg.Wait()
		if k := atomic.LoadInt32(&taken); n != k {
			t.Fatalf("trial %d: %d messages were accepted, %d were finished when Exit returned", trial, k, n)
		}
		if a.Received(v39msg()) == nil {
			t.Fatalf("trial %d: the actor accepts a message after it has exited", trial)
		}
	}
}

// one slow message only
func TestVerifP39Slow(t *testing.T) {
	for _, n := range []int{1, 2, 3} {
		a, _ := vactor("a", "t")
		var done int32
		a.OnEvent("e", func(core.ActorContext) core.IChain {
			return &v39chain{func() { time.Sleep(150 * time.Millisecond); atomic.AddInt32(&done, 1) }}
		})
		for i := 0; i < n; i++ {
			if err := a.Received(v39msg()); err != nil {
				t.Fatal(err)
			}
		}
		time.Sleep(20 * time.Millisecond)
		a.Exit()
		if atomic.LoadInt32(&done) != int32(n) {
			t.Fatalf("Exit returned when %d of %d accepted messages were finished", done, n)
		}
	}
}

// a handler that never ends does not keep the actor open past the limit
func TestVerifP39Limit(t *testing.T) {
	a, _ := vactor("a", "t")
	block := make(chan struct{})
	defer close(block)
	a.OnEvent("e", func(core.ActorContext) core.IChain { return &v39chain{func() { <-block }} })
	a.Received(v39msg())
	a.Received(v39msg())
	begin := time.Now()
	time.Sleep(10 * time.Millisecond)
	go func() { time.Sleep(50 * time.Millisecond); block <- struct{}{} }()
	if vsoon39(3*time.Second, a.Exit) {
		t.Fatalf("Exit returned after %v with a message unfinished", time.Since(begin))
	}
}

func vsoon39(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}
