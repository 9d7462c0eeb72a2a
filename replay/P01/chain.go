// pkg: core/actor
package actor

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"github.com/pojol/braid/router/msg"
)

// all chains up to 4 before, 4 after handlers, every failing handler, every second failing handler
func TestVerifP01Chain(t *testing.T) {
	for nb := 0; nb <= 4; nb++ {
		for na := 0; na <= 4; na++ {
			n := nb + 1 + na
			for f1 := -1; f1 < n; f1++ {
				for f2 := -1; f2 < n; f2++ {
					for _, preErr := range []bool{false, true} {
						runP01(t, nb, na, f1, f2, preErr)
					}
				}
			}
		}
	}
}

func runP01(t *testing.T, nb, na, f1, f2 int, preErr bool) {
	mw := msg.NewBuilder(context.Background()).Build()
	if preErr {
		mw.Err = errors.New("earlier")
	}
	var trace []int
	fails := map[int]error{}
	n := nb + 1 + na
	mk := func(i int) EventHandler {
		return func(m *msg.Wrapper) error {
			if m != mw {
				t.Fatalf("handler %d of %d/%d got another message", i, nb, na)
			}
			trace = append(trace, i)
			if i == f1 || i == f2 {
				e := fmt.Errorf("handler %d failed", i)
				fails[i] = e
				return e
			}
			return nil
		}
	}
	c := &DefaultChain{}
	for i := 0; i < nb; i++ {
		c.Before = append(c.Before, mk(i))
	}
	c.Handler = mk(nb)
	for i := 0; i < na; i++ {
		c.After = append(c.After, mk(nb+1+i))
	}
	err := c.Execute(mw)
	stop := n - 1
	for i := 0; i < n; i++ {
		if i == f1 || i == f2 {
			stop = i
			break
		}
	}
	want := []int{}
	for i := 0; i <= stop; i++ {
		want = append(want, i)
	}
	if fmt.Sprint(trace) != fmt.Sprint(want) {
		t.Fatalf("before=%d after=%d failing=%d,%d: handlers ran %v, want %v", nb, na, f1, f2, trace, want)
	}
	if err != fails[stop] {
		t.Fatalf("before=%d after=%d failing=%d,%d: result %v, want %v", nb, na, f1, f2, err, fails[stop])
	}
}
