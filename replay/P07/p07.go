// pkg: core/actor
package actor

import (
	"context"
	"errors"
	"testing"
	"time"

	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
)

// every outcome of the call, sooner or later than the return, with the context ending or not
func TestVerifP07Outcomes(t *testing.T) {
	for _, fail := range []error{nil, errors.New("failed")} {
		for _, pre := range []error{nil, errors.New("earlier")} {
			for mode := 0; mode < 6; mode++ {
				runP07(t, fail, pre, mode)
			}
		}
	}
}

func runP07(t *testing.T, fail, pre error, mode int) {
	a, s := vactor("caller", "cty")
	defer close(a.closeCh)
	type k struct{}
	ctx, cancel := context.WithCancel(context.WithValue(context.Background(), k{}, "v"))
	defer cancel()
	if mode == 5 { // with a deadline that passes
		c2, cancel2 := context.WithTimeout(ctx, 30*time.Millisecond)
		defer cancel2()
		ctx = c2
	}
	mw := msg.NewBuilder(ctx).WithReqHeader(&router.Header{ID: "m1", Event: "e0", Token: "tok"}).WithReqBody([]byte("body")).Build()
	mw.Err = pre
	mw.GetWg().Add(1)
	release := make(chan struct{})
	entered := make(chan *msg.Wrapper, 4)
	s.fn = func(id, ty, ev string, m *msg.Wrapper) error {
		n := m.GetWg().Count()
		if m == mw || n != 0 {
			t.Errorf("mode %d: the call shares the caller's work counter (%d)", mode, n)
		}
		m.GetWg().Add(1)
		entered <- m
		<-release
		m.GetWg().Done()
		if fail == nil {
			m.Res = &router.Message{Header: &router.Header{Event: "answer"}, Body: []byte("result")}
		}
		return fail
	}
	if mode == 2 { // the context ended before the call is made
		cancel()
	}
	if mode == 0 {
		close(release)
	}
	// the actor's loop is busy while the call completes
	busy, entry := make(chan struct{}), make(chan struct{})
	if mode == 3 {
		a.OnEvent("busy", von(func(*msg.Wrapper) error { close(entry); <-busy; return nil }))
		b := msg.NewBuilder(context.Background()).WithReqHeader(&router.Header{Event: "busy"}).Build()
		if err := a.Received(b); err != nil {
			t.Fatal(err)
		}
		<-entry
	}
	ret := make(chan *Future, 1)
	go func() { f, _ := a.ReenterCall("target", "tty", "ev", mw).(*Future); ret <- f }()
	var f *Future
	select {
	case f = <-ret:
	case <-time.After(3 * time.Second):
		t.Fatalf("mode %d: the caller is blocked", mode)
	}
	if f == nil {
		t.Fatalf("mode %d: no future", mode)
	}
	got := make(chan *msg.Wrapper, 4)
	f.Then(func(w *msg.Wrapper) { got <- w })
	var m *msg.Wrapper
	select {
	case m = <-entered:
	case <-time.After(3 * time.Second):
		t.Fatalf("mode %d: no call is made", mode)
	}
	if mw.GetWg().Count() != 1 {
		t.Fatalf("mode %d: the caller's own work counter changed", mode)
	}
	if m.Req != mw.Req || string(m.Req.Body) != "body" || m.Req.Header.Token != "tok" || m.Ctx.Value(k{}) != "v" {
		t.Fatalf("mode %d: another request is sent", mode)
	}
	cancelled := mode == 2 || mode == 4 || mode == 5
	if mode == 4 {
		time.Sleep(5 * time.Millisecond)
		cancel()
	}
	if !cancelled {
		d := 10 * time.Millisecond
		if mode == 0 {
			d = 3 * time.Second
		}
		select {
		case <-got:
			if mode != 0 {
				t.Fatalf("mode %d: resolved before the call was over", mode)
			}
		case <-time.After(d):
			if mode == 0 {
				t.Fatalf("mode %d: not resolved", mode)
			}
		}
	} else {
		var w *msg.Wrapper
		select {
		case w = <-got:
		case <-time.After(3 * time.Second):
			t.Fatalf("mode %d: the context ended and the future does not resolve", mode)
		}
		if w.Err == nil || w.Err != ctx.Err() {
			t.Fatalf("mode %d: resolved with %v, want the context's error %v", mode, w.Err, ctx.Err())
		}
	}
	if mode != 0 {
		close(release)
	}
	if mode == 3 {
		time.Sleep(20 * time.Millisecond)
		if f.IsCompleted() || mw.Res != nil && string(mw.Res.Body) == "result" {
			t.Fatalf("the outcome is applied outside the actor's loop")
		}
		close(busy)
	}
	if !vwait(3*time.Second, f.IsCompleted) {
		t.Fatalf("mode %d: never completed", mode)
	}
	if mode == 1 || mode == 3 {
		w := <-got
		if w != mw {
			t.Fatalf("mode %d: resolved with another wrapper", mode)
		}
		if fail != nil && w.Err != fail {
			t.Fatalf("mode %d: error %v, want %v", mode, w.Err, fail)
		}
		if fail == nil && string(w.Res.Body) != "result" {
			t.Fatalf("mode %d: the response is lost", mode)
		}
		if fail == nil && w.Err != pre {
			t.Fatalf("mode %d: error %v on success", mode, w.Err)
		}
	}
	time.Sleep(2 * time.Millisecond)
	if s.count() != 1 {
		t.Fatalf("mode %d: %d calls", mode, s.count())
	}
	c := s.calls[0]
	if c.id != "target" || c.ty != "tty" || c.ev != "ev" {
		t.Fatalf("mode %d: called %v %v %v", mode, c.id, c.ty, c.ev)
	}
	if a.Id != "caller" || mw.GetWg().Count() != 1 {
		t.Fatalf("mode %d: the caller's own work counter changed", mode)
	}
}
