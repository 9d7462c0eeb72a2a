// pkg: router/msg
package msg

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"github.com/pojol/braid/lib/warpwaitgroup"
	"github.com/pojol/braid/router"
)

type p23Key struct{}

func p23copy(h *router.Header) *router.Header {
	if h == nil {
		return nil
	}
	c := *h
	return &c
}

func TestVerifP23(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	s := func() string { return []string{"", "a", "b", fmt.Sprint(r.Intn(99))}[r.Intn(4)] }
	hdr := func() *router.Header {
		h := &router.Header{ID: s(), Event: s(), OrgActorID: s(), OrgActorType: s(), Token: s(), PrevActorType: s(), TargetActorID: s(), TargetActorType: s(), Timestamp: int64(r.Intn(3)) - 1}
		if r.Intn(2) == 0 {
			h.Custom = []byte(s())
		}
		return h
	}
	for k := 0; k < 3000; k++ {
		wc := &warpwaitgroup.WrapWaitGroup{}
		base := context.WithValue(context.Background(), p23Key{}, k)
		ctx := base
		withWg := r.Intn(2) == 0
		if withWg {
			wc.Add(1)
			ctx = context.WithValue(base, WaitGroupKey{}, wc)
		}
		ctx, cancel := context.WithCancel(ctx)
		b := NewBuilder(ctx)
		w := b.Build()
		if w == nil || w.Req == nil || w.Res == nil || w.Req == w.Res || w.Req.Header == nil || w.Res.Header == nil || w.Req.Header == w.Res.Header || w.Err != nil || w.Ctx.Value(p23Key{}) != k {
			t.Fatalf("new message %+v", w)
		}
		g := w.GetWg()
		if g == nil || withWg && g != wc || !withWg && (g == wc || g.Count() != 0) {
			t.Fatalf("withWg=%v: counter %p, given %p", withWg, g, wc)
		}
		if !withWg && NewBuilder(ctx).Build().GetWg() == g {
			t.Fatalf("two messages share a counter")
		}
		if w.ToBuilder().Build() != w || (*Wrapper)(nil).ToBuilder().Build() == nil {
			t.Fatalf("ToBuilder")
		}
		h, old := hdr(), hdr()
		if r.Intn(5) == 0 {
			h = nil
		}
		if r.Intn(5) == 0 {
			old = nil
		}
		w.Req.Header = old
		want := p23copy(h)
		oldDesc := fmt.Sprint(old)
		if b.WithReqHeader(h) != b {
			t.Fatalf("builder")
		}
		if h == nil && w.Req.Header != nil || h != nil && (!reflect.DeepEqual(w.Req.Header, want) || !reflect.DeepEqual(h, want)) {
			t.Fatalf("header %v over %v gives %v", want, oldDesc, w.Req.Header)
		}
		body, rbody, rh := []byte(s()), []byte(s()), hdr()
		q := w.Res.Header
		if b.WithReqBody(body) != b || !bytes.Equal(w.Req.Body, body) || w.Res.Header != q || w.Res.Body != nil {
			t.Fatalf("request body %v, want %v", w.Req.Body, body)
		}
		if b.WithResBody(rbody) != b || !bytes.Equal(w.Res.Body, rbody) || !bytes.Equal(w.Req.Body, body) || w.Res.Header != q {
			t.Fatalf("response body %v, want %v", w.Res.Body, rbody)
		}
		rhc := p23copy(rh)
		if b.WithResHeader(rh) != b || !reflect.DeepEqual(w.Res.Header, rhc) || !bytes.Equal(w.Res.Body, rbody) || h != nil && !reflect.DeepEqual(w.Req.Header, want) {
			t.Fatalf("response header %v, want %v", w.Res.Header, rhc)
		}
		w.Err = fmt.Errorf("x")
		c := Swap(w)
		cg := c.GetWg()
		if c == w || c.Req != w.Req || c.Res != w.Res || c.parm != w.parm || c.Err != nil || cg == nil || cg == w.GetWg() || cg.Count() != 0 || c.Ctx.Value(p23Key{}) != k || c.Done == nil {
			t.Fatalf("copy %+v of %+v", c, w)
		}
		cancel()
		if w.Ctx.Err() == nil || c.Ctx.Err() == nil {
			t.Fatalf("cancellation lost")
		}
	}
}
