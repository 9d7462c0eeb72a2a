package actor

import (
	"context"
	"sync"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
)

type vcall struct {
	id, ty, ev string
	mw         *msg.Wrapper
}

// a system that records the calls made to it
type vsys struct {
	core.ISystem
	mu    sync.Mutex
	calls []vcall
	fn    func(id, ty, ev string, mw *msg.Wrapper) error
}

func (s *vsys) Call(id, ty, ev string, mw *msg.Wrapper) error {
	s.mu.Lock()
	s.calls = append(s.calls, vcall{id, ty, ev, mw})
	f := s.fn
	s.mu.Unlock()
	if f != nil {
		return f(id, ty, ev, mw)
	}
	return nil
}

func (s *vsys) count() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.calls)
}

func vactor(id, ty string) (*Runtime, *vsys) {
	s := &vsys{}
	a := &Runtime{Id: id, Ty: ty, Sys: s}
	a.Init(context.Background())
	return a, s
}

func vwait(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for time.Now().Before(end) {
		if cond() {
			return true
		}
		time.Sleep(time.Millisecond)
	}
	return cond()
}

type vchain struct {
	f func(*msg.Wrapper) error
}

func (c *vchain) Execute(mw *msg.Wrapper) error { return c.f(mw) }

func von(f func(*msg.Wrapper) error) func(core.ActorContext) core.IChain {
	return func(core.ActorContext) core.IChain { return &vchain{f} }
}
