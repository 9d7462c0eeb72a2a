// pkg: core/node
package node

import (
	"bytes"
	"context"
	"errors"
	"testing"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"
)

type p11sys struct {
	core.ISystem
	n          int
	id, ty, ev string
	m          *msg.Wrapper
	res        *router.Message
	err        error
	cnt        int32
}

func (s *p11sys) Call(id, ty, ev string, m *msg.Wrapper) error {
	s.n++
	s.id, s.ty, s.ev, s.m, s.cnt = id, ty, ev, m, m.GetWg().Count()
	if s.res != nil {
		m.Res = s.res
	}
	m.Res.Header.Event = "answer"
	return s.err
}

type p11key struct{}

func TestVerifP11Routing(t *testing.T) {
	for _, own := range []bool{false, true} {
		for _, fail := range []error{nil, errors.New("no")} {
			for _, body := range [][]byte{nil, {}, {0, 1, 255}} {
				s := &p11sys{err: fail}
				if own {
					s.res = &router.Message{Header: &router.Header{}, Body: []byte("r")}
				}
				req := &router.Message{Header: &router.Header{ID: "i", Event: "e", OrgActorID: "o", OrgActorType: "ot", PrevActorType: "x", TargetActorID: "t", TargetActorType: "tt", Token: "k", Custom: []byte("c")}, Body: body}
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), p11key{}, 7))
				res, err := (&listen{sys: s}).Routing(ctx, &router.RouteReq{Msg: req})
				if s.n != 1 || s.id != "t" || s.ty != "tt" || s.ev != "e" {
					t.Fatalf("%v calls, last to %q of type %q event %q", s.n, s.id, s.ty, s.ev)
				}
				h := s.m.Req.Header
				if s.m.Req != req || h.ID != "i" || h.OrgActorID != "o" || h.OrgActorType != "ot" || h.Token != "k" || string(h.Custom) != "c" || !bytes.Equal(s.m.Req.Body, body) || s.cnt != 0 || s.m.Ctx.Value(p11key{}) != 7 {
					t.Fatalf("the call carries %v, work %v", s.m.Req, s.cnt)
				}
				if s.m.Ctx.Err() != nil {
					t.Fatal("the call's context had ended")
				}
				cancel()
				if s.m.Ctx.Err() == nil {
					t.Fatal("the call does not end with the request")
				}
				if (err == nil) != (fail == nil) {
					t.Fatalf("call: %v, routing: %v", fail, err)
				}
				if err == nil && (res == nil || res.Msg != s.m.Res || own && res.Msg != s.res) {
					t.Fatalf("answer %v", res)
				}
			}
		}
	}
}
