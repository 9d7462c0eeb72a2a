// pkg: core/node
package node

import (
	"context"
	"errors"
	"fmt"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pojol/braid/router/msg"
)

// one call: the target takes (or refuses) the message, registers work and completes it later
func TestVerifP08Call(t *testing.T) {
	mr := vstore(t)
	defer mr.Close()
	for _, work := range []int{0, 1, 2} {
		for _, refuse := range []bool{false, true} {
			for _, dur := range []int{0, 40, 400} { // 400: longer than the limit
				for _, limit := range []int{0, 20} { // the caller's context
					for _, nested := range []bool{false, true} {
						name := fmt.Sprintf("work=%v refuse=%v after=%vms context=%vms nested=%v", work, refuse, dur, limit, nested)
						s := vsystem("n1", 0)
						s.callTimeout = 150 * time.Millisecond
						a := vadd(t, s, "x", "a", 1)
						defer s.Unregister("x", "a")
						var left int32 = int32(work)
						bad := errors.New("refused")
						a.onRecv = func(m *msg.Wrapper) error {
							m.GetWg().Add(work)
							for i := 0; i < work; i++ {
								go func() {
									time.Sleep(time.Duration(dur) * time.Millisecond)
									atomic.AddInt32(&left, -1)
									m.GetWg().Done()
								}()
							}
							if refuse {
								return bad
							}
							return nil
						}
						ctx, cancel := context.Background(), context.CancelFunc(func() {})
						if limit > 0 {
							ctx, cancel = context.WithTimeout(ctx, time.Duration(limit)*time.Millisecond)
						}
						m := vmsg(ctx)
						if nested {
							m.GetWg().Add(1)
						}
						var err error
						start := time.Now()
						if !vsoon(3*time.Second, func() { err = s.Call("x", "a", "ev", m) }) {
							t.Fatalf("%v: the call never returned", name)
						}
						took := time.Since(start)
						l := atomic.LoadInt32(&left)
						cancel()
						if len(a.got) != 1 || a.got[0] != m {
							t.Fatalf("%v: handed over %v times", name, len(a.got))
						}
						if nested {
							if refuse && err != bad || !refuse && err != nil {
								t.Fatalf("%v: %v", name, err)
							}
							continue
						}
						switch {
						case refuse && err == nil:
							t.Fatalf("%v: success though the target refused", name)
						case err == nil && l != 0:
							t.Fatalf("%v: success with %v pieces of work open", name, l)
						case !refuse && work > 0 && dur > limit+100 && err == nil:
							t.Fatalf("%v: success after %v", name, took)
						case !refuse && (work == 0 || dur < 100) && limit == 0 && err != nil:
							t.Fatalf("%v: %v", name, err)
						}
					}
				}
			}
		}
	}
}
