// pkg: core/actor
package actor

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
)

// random histories of messages, reentrant results, timers and stray queue items
func TestVerifP04Histories(t *testing.T) {
	for seed := int64(0); seed < 30; seed++ {
		r := rand.New(rand.NewSource(seed))
		a, sys := vactor("a", "ty")
		sys.fn = func(id, ty, ev string, mw *msg.Wrapper) error {
			if ev == "fails" {
				return errors.New("remote failure")
			}
			return nil
		}
		var mu sync.Mutex
		runs := map[*msg.Wrapper][]string{}
		var busy atomic.Int32
		enter := func() func() {
			if busy.Add(1) != 1 {
				t.Error("two handlers at once")
			}
			return func() { busy.Add(-1) }
		}
		mk := func(ev string, do func(*msg.Wrapper) error) {
			a.OnEvent(ev, von(func(mw *msg.Wrapper) error {
				defer enter()()
				mu.Lock()
				runs[mw] = append(runs[mw], ev)
				mu.Unlock()
				if mw.GetWg().Count() < 1 {
					t.Errorf("seed %d: %s runs with %d pending", seed, ev, mw.GetWg().Count())
				}
				return do(mw)
			}))
		}
		mk("ok", func(*msg.Wrapper) error { return nil })
		mk("err", func(*msg.Wrapper) error { return errors.New("x") })
		mk("panic", func(*msg.Wrapper) error { panic("x") })
		mk("panicerr", func(*msg.Wrapper) error { panic(fmt.Errorf("x")) })
		mk("nilhdr", func(mw *msg.Wrapper) error { mw.Req.Header = nil; return errors.New("x") })
		mk("slow", func(*msg.Wrapper) error { time.Sleep(2 * time.Millisecond); return nil })
		a.chains["nilchain"] = nil
		a.OnTimer(0, 1, func(interface{}) error { defer enter()(); panic("timer") }, nil)
		evs := []string{"ok", "err", "panic", "panicerr", "nilhdr", "slow", "none", "", "nilchain", "OK"}
		var sent []*msg.Wrapper
		var want []string
		var resolved atomic.Int32
		calls := int32(0)
		for i := 0; i < 80; i++ {
			switch r.Intn(8) {
			case 0:
				a.q.Push([]interface{}{nil, 7, "stray", errors.New("stray")}[r.Intn(4)])
			case 1:
				rw := msg.NewBuilder(context.Background()).WithReqHeader(&router.Header{Event: "z"}).Build()
				calls++
				f := a.ReenterCall("b", "ty", []string{"fine", "fails"}[r.Intn(2)], rw)
				f.Then(func(w *msg.Wrapper) { resolved.Add(1) })
			default:
				ev := evs[r.Intn(len(evs))]
				mw := msg.NewBuilder(context.Background()).WithReqHeader(&router.Header{ID: fmt.Sprint(i), Event: ev}).Build()
				if err := a.Received(mw); err != nil {
					t.Fatal(err)
				}
				sent = append(sent, mw)
				want = append(want, ev)
			}
		}
		for i, mw := range sent {
			mw := mw
			if !vwait(5*time.Second, func() bool { return mw.GetWg().Count() == 0 }) {
				t.Fatalf("seed %d: message %d (%q) never completed", seed, i, want[i])
			}
		}
		if !vwait(5*time.Second, func() bool { return resolved.Load() == calls }) {
			t.Fatalf("seed %d: %d of %d reentrant results applied", seed, resolved.Load(), calls)
		}
		mu.Lock()
		for i, mw := range sent {
			_, reg := a.chains[want[i]]
			n := 1
			if !reg || want[i] == "nilchain" {
				n = 0
			}
			if len(runs[mw]) != n || n == 1 && runs[mw][0] != want[i] {
				t.Errorf("seed %d: message %d for %q ran %v", seed, i, want[i], runs[mw])
			}
			if mw.GetWg().Count() != 0 {
				t.Errorf("seed %d: message %d has %d pending", seed, i, mw.GetWg().Count())
			}
		}
		mu.Unlock()
		a.Exit()
	}
}

var _ core.IChain = (*vchain)(nil)
