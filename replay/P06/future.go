// pkg: core/actor
// race
package actor

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
)

func p06mw() *msg.Wrapper { return &msg.Wrapper{Ctx: context.Background()} }

// every sequence of up to 7 operations on a future and on a future chained to it
func TestVerifP06Sequences(t *testing.T) {
	for n := 1; n <= 7; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= 3
		}
		for s := 0; s < total; s++ {
			p06seq(t, n, s)
		}
	}
}

func p06seq(t *testing.T, n, s int) {
	f := NewFuture()
	if f.IsCompleted() {
		t.Fatalf("a new future is completed")
	}
	var first *msg.Wrapper
	completed := false
	type cb struct {
		mu  sync.Mutex
		got []*msg.Wrapper
	}
	var cbs []*cb
	var chained []core.IFuture
	var early int32
	var doneFlag int32
	name := ""
	for i, x := 0, s; i < n; i, x = i+1, x/3 {
		switch x % 3 {
		case 0, 1:
			name += "T"
			c := &cb{}
			cbs = append(cbs, c)
			chained = append(chained, f.Then(func(mw *msg.Wrapper) {
				if atomic.LoadInt32(&doneFlag) == 0 {
					atomic.AddInt32(&early, 1)
				}
				c.mu.Lock()
				c.got = append(c.got, mw)
				c.mu.Unlock()
			}))
		case 2:
			name += "C"
			var mw *msg.Wrapper
			if i != 1 {
				mw = p06mw()
			}
			if !completed {
				first = mw
				completed = true
				atomic.StoreInt32(&doneFlag, 1)
			}
			f.Complete(mw)
		}
		if f.IsCompleted() != completed {
			t.Fatalf("%s: completed %v", name, f.IsCompleted())
		}
	}
	if !completed {
		time.Sleep(20 * time.Microsecond)
	}
	ok := vwait(3*time.Second, func() bool {
		for i, c := range cbs {
			c.mu.Lock()
			l := len(c.got)
			c.mu.Unlock()
			if completed && l == 0 || completed && !chained[i].IsCompleted() {
				return false
			}
		}
		return true
	})
	if !ok {
		t.Fatalf("%s: a continuation did not run, or its future did not complete", name)
	}
	for i, c := range cbs {
		c.mu.Lock()
		l := len(c.got)
		if completed && (l != 1 || c.got[0] != first) || !completed && l != 0 {
			t.Fatalf("%s: continuation %d ran %d times with %v, want %v", name, i, l, c.got, first)
		}
		c.mu.Unlock()
		if !completed {
			if chained[i].IsCompleted() {
				t.Fatalf("%s: chained future %d completed early", name, i)
			}
			continue
		}
		if fu := chained[i].(*Future); fu.result != first {
			t.Fatalf("%s: chained future %d has result %v", name, i, fu.result)
		}
	}
	if early > 0 {
		t.Fatalf("%s: a continuation ran before completion", name)
	}
}

// the future of Then completes only after the continuation has run, chains pass the result on
func TestVerifP06Order(t *testing.T) {
	for k := 0; k < 300; k++ {
		f := NewFuture()
		mw := p06mw()
		if k%2 == 0 {
			f.Complete(mw)
		}
		release := make(chan bool)
		var ran int32
		g := f.Then(func(m *msg.Wrapper) {
			<-release
			atomic.StoreInt32(&ran, 1)
		})
		got := make(chan *msg.Wrapper, 2)
		var late int32
		g.Then(func(m *msg.Wrapper) {
			atomic.StoreInt32(&late, 1-atomic.LoadInt32(&ran))
			got <- m
		})
		if k%2 == 1 {
			f.Complete(mw)
		}
		f.Complete(p06mw())
		if k < 5 {
			time.Sleep(5 * time.Millisecond)
		}
		if g.IsCompleted() {
			t.Fatalf("the chained future completed before the continuation had run")
		}
		close(release)
		select {
		case m := <-got:
			if m != mw || late != 0 {
				t.Fatalf("chained continuation got %v (late %d)", m, late)
			}
		case <-time.After(3 * time.Second):
			t.Fatalf("the chained continuation never ran")
		}
	}
}

// concurrent completions and attachments
func TestVerifP06Race(t *testing.T) {
	for k := 0; k < 6000; k++ {
		f := NewFuture()
		const nc, nt = 3, 4
		var mws [nc]*msg.Wrapper
		for i := range mws {
			mws[i] = p06mw()
			mws[i].Err = fmt.Errorf("%d", i)
		}
		var ran [nt]int32
		var got [nt]atomic.Value
		var futs [nt]core.IFuture
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := 0; i < nc; i++ {
			i := i
			wg.Add(1)
			go func() { defer wg.Done(); <-start; f.Complete(mws[i]) }()
		}
		for i := 0; i < nt; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				futs[i] = f.Then(func(m *msg.Wrapper) {
					if !f.IsCompleted() {
						t.Errorf("continuation before completion")
					}
					got[i].Store(m)
					atomic.AddInt32(&ran[i], 1)
				})
			}()
		}
		close(start)
		wg.Wait()
		if !vwait(3*time.Second, func() bool {
			for i := range futs {
				if !futs[i].IsCompleted() {
					return false
				}
			}
			return true
		}) {
			t.Fatalf("a continuation never ran: %v", ran)
		}
		for i := range futs {
			if ran[i] != 1 || got[i].Load().(*msg.Wrapper) != got[0].Load().(*msg.Wrapper) {
				t.Fatalf("continuation %d ran %d times, with %v and %v", i, ran[i], got[i].Load(), got[0].Load())
			}
		}
	}
}
