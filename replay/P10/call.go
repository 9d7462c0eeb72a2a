// pkg: core/actor
package actor

import (
	"context"
	"errors"
	"reflect"
	"testing"
	"time"

	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
)

// the header rule for plain, reentrant and context calls, over one or two hops
func TestVerifP10Headers(t *testing.T) {
	ids := []string{"", "x", "caller", "CALLER"}
	for _, org := range ids {
		for _, orgty := range []string{"", "oty", "cty"} {
			for _, prev := range []string{"", "pty", "cty"} {
				for _, ret := range []error{nil, errors.New("failed")} {
					for mode := 0; mode < 4; mode++ {
						for _, pre := range []error{nil, errors.New("earlier")} {
							runP10(t, org, orgty, prev, ret, mode, pre)
						}
					}
				}
			}
		}
	}
}

func runP10(t *testing.T, org, orgty, prev string, ret error, mode int, pre error) {
	a, s := vactor("caller", "cty")
	defer close(a.closeCh)
	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Second)
	defer cancel()
	mw := msg.NewBuilder(ctx).WithReqHeader(&router.Header{
		ID: "m1", Event: "e0", OrgActorID: org, OrgActorType: orgty, PrevActorType: prev, Token: "tok",
	}).WithReqBody([]byte("body")).Build()
	mw.Err = pre
	res := mw.Res
	var at router.Header
	var body string
	s.fn = func(id, ty, ev string, m *msg.Wrapper) error {
		h := m.Req.Header
		at = router.Header{ID: h.ID, Event: h.Event, OrgActorID: h.OrgActorID, OrgActorType: h.OrgActorType, PrevActorType: h.PrevActorType, Token: h.Token}
		body = string(m.Req.Body)
		return ret
	}
	var err error
	switch mode {
	case 0:
		err = a.Call("target", "tty", "ev", mw)
	case 1:
		err = a.Context().Call("target", "tty", "ev", mw)
	default:
		got := make(chan error, 1)
		if mode == 2 {
			a.ReenterCall("target", "tty", "ev", mw).Then(func(m *msg.Wrapper) { got <- m.Err })
		} else {
			a.Context().ReenterCall("target", "tty", "ev", mw).Then(func(m *msg.Wrapper) { got <- m.Err })
		}
		select {
		case err = <-got:
		case <-time.After(3 * time.Second):
			t.Fatalf("the reentrant call does not resolve")
		}
	}
	if mode < 2 && err != ret || mode >= 2 && ret != nil && err != ret {
		t.Fatalf("mode %d: result %v, want %v", mode, err, ret)
	}
	if s.count() != 1 {
		t.Fatalf("mode %d: passed on %d times", mode, s.count())
	}
	c := s.calls[0]
	if c.id != "target" || c.ty != "tty" || c.ev != "ev" || mode < 2 && c.mw != mw {
		t.Fatalf("mode %d: passed on as %v %v %v", mode, c.id, c.ty, c.ev)
	}
	want := router.Header{ID: at.ID, Event: "e0", OrgActorID: org, OrgActorType: orgty, PrevActorType: "cty", Token: "tok"}
	if mode < 2 {
		want.ID = "m1"
	}
	if org == "" {
		want.OrgActorID, want.OrgActorType = "caller", "cty"
	}
	if !reflect.DeepEqual(at, want) || body != "body" {
		t.Fatalf("mode %d origin %q/%q prev %q: passed on with %+v body %q, want %+v", mode, org, orgty, prev, at, body, want)
	}
	if mode < 2 && mw.Res != res {
		t.Fatalf("mode %d: response replaced", mode)
	}
}
