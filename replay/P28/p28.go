// pkg: core/actor
package actor

import (
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
)

// every order of operations on a timer
func TestVerifP28State(t *testing.T) {
	for _, due := range []time.Duration{-1, 0, time.Hour} {
		for _, iv := range []time.Duration{-1, 0, time.Hour} {
			for ops := 0; ops < 4*4*4*4; ops++ {
				e := errors.New("callback result")
				var got interface{}
				ti := NewTimerInfo(due, iv, func(v interface{}) error { got = v; return e }, 42)
				on, cur := true, iv
				name := fmt.Sprintf("due %v interval %v ops", due, iv)
				if !ti.IsActive() || ti.Interval() != iv {
					t.Fatalf("%s: new timer", name)
				}
				for k, o := 0, ops; k < 4; k, o = k+1, o/4 {
					switch o % 4 {
					case 0:
						name += " stop"
						if r := ti.Stop(); r != on {
							t.Fatalf("%s: reported %v", name, r)
						}
						on = false
					default:
						d := []time.Duration{0, -time.Second, 2 * time.Hour}[o%4-1]
						name += fmt.Sprintf(" reset(%v)", d)
						want := d > 0 || cur > 0
						if d > 0 {
							cur = d
						}
						on = on || want
						if r := ti.Reset(d); r != want {
							t.Fatalf("%s: reported %v", name, r)
						}
					}
					if ti.IsActive() != on || ti.Interval() != cur {
						t.Fatalf("%s: active %v interval %v, want %v %v", name, ti.IsActive(), ti.Interval(), on, cur)
					}
				}
				if err := ti.Execute(); err != e || got != 42 {
					t.Fatalf("%s: result %v argument %v", name, err, got)
				}
				ti.Stop()
			}
		}
	}
}

// a reset makes it tick with the new interval
func TestVerifP28Ticks(t *testing.T) {
	ti := NewTimerInfo(0, time.Hour, func(interface{}) error { return nil }, nil)
	for _, stop := range []bool{false, true} {
		if stop {
			ti.Stop()
			select {
			case <-ti.ticker.C:
			default:
			}
			select {
			case <-ti.ticker.C:
				t.Fatal("a stopped timer ticks")
			case <-time.After(50 * time.Millisecond):
			}
		}
		ti.Reset(5 * time.Millisecond)
		select {
		case <-ti.ticker.C:
		case <-time.After(5 * time.Second):
			t.Fatal("no tick after reset")
		}
	}
	ti.Stop()
}

// only one of many concurrent stops reports true
func TestVerifP28StopOnce(t *testing.T) {
	for i := 0; i < 300; i++ {
		ti := NewTimerInfo(0, time.Hour, func(interface{}) error { return nil }, nil)
		var n atomic.Int32
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if ti.Stop() {
					n.Add(1)
				}
			}()
		}
		close(start)
		wg.Wait()
		if n.Load() != 1 {
			t.Fatalf("%d of 8 stops reported true", n.Load())
		}
	}
}

// timers of a running actor
func TestVerifP28Actor(t *testing.T) {
	a, _ := vactor("a", "ty")
	var mu sync.Mutex
	log := map[string]int{}
	cb := func(v interface{}) error {
		mu.Lock()
		defer mu.Unlock()
		log[v.(string)]++
		if v == "panics" {
			panic("timer")
		}
		return errors.New("ignored")
	}
	cnt := func(k string) int {
		mu.Lock()
		defer mu.Unlock()
		return log[k]
	}
	a.OnTimer(0, 0, cb, "once")
	a.OnTimer(20, 0, cb, "onceLater")
	a.OnTimer(-5, -5, cb, "negative")
	a.OnTimer(0, 5, cb, "every")
	a.OnTimer(5, 5, cb, "panics")
	late := a.OnTimer(300, 5, cb, "late")
	never := a.OnTimer(100, 5, cb, "never")
	stopped := a.OnTimer(0, 1000000, cb, "stopped")
	never.Stop()
	a.CancelTimer(stopped)
	a.CancelTimer(stopped)
	a.CancelTimer(nil)
	if stopped.IsActive() || late.(*TimerInfo).dueTime != 300*time.Millisecond || late.Interval() != 5*time.Millisecond {
		t.Error("cancelled timer is active, or wrong times")
	}
	if _, ok := a.timers[stopped]; ok || len(a.timers) != 7 {
		t.Errorf("%d timers", len(a.timers))
	}
	stopped.Reset(time.Hour)
	stopped.Stop()
	time.Sleep(150 * time.Millisecond)
	if cnt("late") != 0 {
		t.Error("fired before its due time")
	}
	if !vwait(5*time.Second, func() bool {
		return cnt("every") > 3 && cnt("panics") > 3 && cnt("once") > 0 && cnt("onceLater") > 0 && cnt("negative") > 0 && cnt("late") > 1
	}) {
		t.Errorf("fired: %v", log)
	}
	if cnt("once") != 1 || cnt("onceLater") != 1 || cnt("negative") != 1 || cnt("never") != 0 || cnt("stopped") != 0 {
		t.Errorf("fired: %v", log)
	}
	a.Exit()
	if len(a.timers) != 0 {
		t.Error("timers left after exit")
	}
	time.Sleep(30 * time.Millisecond)
	n := cnt("every")
	time.Sleep(60 * time.Millisecond)
	if cnt("every") != n {
		t.Error("fires after exit")
	}
}

// triggers waiting when the timer is stopped, or the actor closes, do not run
func TestVerifP28Stale(t *testing.T) {
	a, _ := vactor("a", "ty")
	gate := make(chan struct{})
	var n atomic.Int32
	a.OnEvent("block", func(core.ActorContext) core.IChain {
		return &vchain{f: func(*msg.Wrapper) error { <-gate; return nil }}
	})
	mw := msg.NewBuilder(a.actorCtx.ctx).Build()
	mw.Req.Header.Event = "block"
	if err := a.Received(mw); err != nil {
		t.Fatal(err)
	}
	ti := a.OnTimer(0, 2, func(interface{}) error { n.Add(1); return nil }, nil)
	vwait(time.Second, func() bool { return len(a.timerChan) > 3 })
	m := n.Load()
	ti.Stop()
	close(gate)
	vwait(time.Second, func() bool { return len(a.timerChan) == 0 })
	time.Sleep(20 * time.Millisecond)
	if n.Load() > m {
		t.Errorf("a stopped timer ran %d times", n.Load()-m)
	}
	a.Exit()
}
