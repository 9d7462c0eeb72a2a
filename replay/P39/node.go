// pkg: core/node
package node

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/pojol/braid/core"
)

type v39sys struct {
	core.ISystem
	n   int32
	run func(*sync.WaitGroup)
}

func (s *v39sys) Exit(w *sync.WaitGroup) { atomic.AddInt32(&s.n, 1); s.run(w) }

func v39wait(s core.ISystem) (ended chan struct{}) {
	ended = make(chan struct{})
	go func() { (&process{sys: s}).WaitClose(); close(ended) }()
	time.Sleep(50 * time.Millisecond)
	return
}

func TestVerifP39Exit(t *testing.T) {
	for _, ids := range [][]string{{}, {"x"}, {"x", "y", "z"}, {"a", "b", "c", "d", "e", "f", "g", "h"}} {
		vstore(t)
		s := vsystem("n1", 0)
		acts := map[string]*vact{}
		release := make(chan struct{})
		for _, id := range ids {
			acts[id] = vadd(t, s, id, "a", 3)
			acts[id].onExit = func() { <-release }
		}
		var wg sync.WaitGroup
		if !vsoon(5*time.Second, func() { s.Exit(&wg) }) {
			t.Fatalf("%v: Exit waits for the actors one after the other", ids)
		}
		if len(ids) > 0 && vsoon(50*time.Millisecond, wg.Wait) {
			t.Fatalf("%v: counted as finished before the actors had exited", ids)
		}
		close(release)
		if !vsoon(5*time.Second, wg.Wait) {
			t.Fatalf("%v: not counted as finished after the actors had exited", ids)
		}
		for id, a := range acts {
			if a.exits != 1 {
				t.Fatalf("%v: actor %v was told to exit %d times", ids, id, a.exits)
			}
		}
	}
}

// the acceptor stops first
func TestVerifP39Acceptor(t *testing.T) {
	vstore(t)
	port := vport(t)
	s := vsystem("n1", port)
	a := vadd(t, s, "x", "a", 3)
	var open int32
	a.onExit = func() {
		if l, err := vdial(port); err == nil {
			l()
			atomic.StoreInt32(&open, 1)
		}
	}
	var wg sync.WaitGroup
	s.Exit(&wg)
	wg.Wait()
	if a.exits != 1 || atomic.LoadInt32(&open) != 0 {
		t.Fatalf("exits %d; the node still accepts connections when its actors are told to exit: %v", a.exits, open)
	}
}

func TestVerifP39WaitClose(t *testing.T) {
	release := make(chan struct{})
	s := &v39sys{run: func(w *sync.WaitGroup) {
		for i := 0; i < 3; i++ {
			w.Add(1)
			go func() { <-release; w.Done() }()
		}
	}}
	ended := v39wait(s)
	stuck := &v39sys{run: func(*sync.WaitGroup) { select {} }}
	ended2 := v39wait(stuck)
	if atomic.LoadInt32(&s.n) != 0 {
		t.Fatal("told to exit before the signal")
	}
	begin := time.Now()
	syscall.Kill(syscall.Getpid(), syscall.SIGTERM)
	select {
	case <-ended:
		t.Fatal("WaitClose returned before the actors had finished")
	case <-time.After(200 * time.Millisecond):
	}
	close(release)
	select {
	case <-ended:
	case <-time.After(5 * time.Second):
		t.Fatal("WaitClose did not return after the actors had finished")
	}
	if atomic.LoadInt32(&s.n) != 1 {
		t.Fatalf("told to exit %d times", s.n)
	}
	select {
	case <-ended2:
		if d := time.Since(begin); d < 25*time.Second {
			t.Fatalf("the limit passed after %v", d)
		}
	case <-time.After(35 * time.Second):
		t.Fatal("WaitClose outlasts the shutdown limit")
	}
}

func vdial(port int) (func(), error) {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
	if err != nil {
		return nil, err
	}
	return func() { c.Close() }, nil
}
