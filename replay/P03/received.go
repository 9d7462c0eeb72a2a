// pkg: core/actor
// race
package actor

import (
	"context"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
)

// a mailbox nobody reads, so that its content can be looked at
func p03actor(id string, closed int32) *Runtime {
	a := &Runtime{Id: id, Ty: "ty", q: mpsc.New(), reenterQueue: mpsc.New()}
	a.closed = closed
	return a
}

func TestVerifP03Received(t *testing.T) {
	for _, id := range []string{"a", "", "actor-1", "ACTOR-1"} {
		for _, org := range []string{"", "a", "b", "actor-1", "Actor-1", "actor-10"} {
			for _, orgty := range []string{"", "ty", "other"} {
				for closed := int32(0); closed <= 3; closed++ {
					for pend := 0; pend < 3; pend++ {
						a := p03actor(id, closed)
						mw := msg.NewBuilder(context.Background()).WithReqHeader(&router.Header{OrgActorID: org, OrgActorType: orgty, Event: "ev"}).Build()
						for i := 0; i < pend; i++ {
							mw.GetWg().Add(1)
						}
						// a failed call before does not matter
						if pend == 2 {
							mw.Err = fmt.Errorf("earlier")
						}
						name := fmt.Sprintf("id %q org %q/%q closed %d pending %d", id, org, orgty, closed, pend)
						err := a.Received(mw)
						self := org != "" && org == id
						if self || closed != 0 {
							if err == nil {
								t.Fatalf("%s: accepted", name)
							}
							if self && err != node.ErrSelfCall {
								t.Fatalf("%s: error %v", name, err)
							}
							if mw.GetWg().Count() != int32(pend) || !a.q.Empty() {
								t.Fatalf("%s: refused with an effect: pending %d", name, mw.GetWg().Count())
							}
							continue
						}
						if err != nil {
							t.Fatalf("%s: refused: %v", name, err)
						}
						if mw.GetWg().Count() != int32(pend)+1 {
							t.Fatalf("%s: pending work %d", name, mw.GetWg().Count())
						}
						if v := a.q.Pop(); v != interface{}(mw) {
							t.Fatalf("%s: queued %v", name, v)
						}
						if !a.q.Empty() || a.q.Pop() != nil {
							t.Fatalf("%s: queued more than once", name)
						}
					}
				}
			}
		}
	}
}

// the work is registered before the consumer can see the message
func TestVerifP03WorkFirst(t *testing.T) {
	a := p03actor("a", 0)
	const n = 30000
	var early int32
	done := make(chan bool)
	go func() {
		defer close(done)
		for got := 0; got < n; {
			v := a.q.Pop()
			if v == nil {
				continue
			}
			got++
			mw := v.(*msg.Wrapper)
			if c := mw.GetWg().Count(); c < 1 {
				atomic.AddInt32(&early, 1)
			} else {
				mw.GetWg().Done()
			}
		}
	}()
	var wg sync.WaitGroup
	for p := 0; p < 3; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n/3; i++ {
				a.Received(msg.NewBuilder(context.Background()).WithReqHeader(&router.Header{Event: "ev"}).Build())
			}
		}()
	}
	wg.Wait()
	<-done
	if early > 0 {
		t.Fatalf("%d messages were visible before their work was registered", early)
	}
}
