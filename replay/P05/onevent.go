// pkg: core/actor
package actor

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router/msg"
)

func TestVerifP05OnEvent(t *testing.T) {
	names := []string{"", "a", "A", " a", "a ", "ab", "event", "Event", "event.1", "event:1"}
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 600; k++ {
		a, _ := vactor("id", "ty")
		have := map[string]core.IChain{}
		for i := 0; i < 1+k%14; i++ {
			ev := names[r.Intn(len(names))]
			calls := 0
			ch := &vchain{f: func(*msg.Wrapper) error { return nil }}
			bad := r.Intn(12) == 0
			var err error
			func() {
				defer func() {
					if x := recover(); (x != nil) != (bad && have[ev] == nil) {
						t.Fatalf("OnEvent(%q): panic %v", ev, x)
					}
				}()
				err = a.OnEvent(ev, func(ctx core.ActorContext) core.IChain {
					calls++
					if ctx != core.ActorContext(a.actorCtx) {
						t.Fatalf("constructor for %q got context %v", ev, ctx)
					}
					if bad {
						panic("constructor failed")
					}
					return ch
				})
			}()
			if have[ev] != nil {
				if err == nil || calls != 0 {
					t.Fatalf("second handler for %q: err %v, constructor calls %d", ev, err, calls)
				}
			} else {
				if err != nil || calls != 1 {
					t.Fatalf("handler for %q: err %v, constructor calls %d", ev, err, calls)
				}
				if !bad {
					have[ev] = ch
				}
			}
			if len(a.chains) != len(have) {
				t.Fatalf("after %q: %d registrations, want %d", ev, len(a.chains), len(have))
			}
			for e, c := range have {
				if a.chains[e] != c {
					t.Fatalf("after %q: the handler of %q changed (%s)", ev, e, fmt.Sprint(a.chains[e] == nil))
				}
			}
		}
		close(a.closeCh)
	}
}
