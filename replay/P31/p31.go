// pkg: lib/span
package span

import (
	"context"
	"errors"
	"reflect"
	"testing"

	"github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/mocktracer"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
)

type vtracer struct {
	*mocktracer.MockTracer
	inj, ext error
	started  int
}

func (v *vtracer) StartSpan(n string, o ...opentracing.StartSpanOption) opentracing.Span {
	v.started++
	return v.MockTracer.StartSpan(n, o...)
}
func (v *vtracer) Inject(sm opentracing.SpanContext, format interface{}, carrier interface{}) error {
	if v.inj != nil {
		return v.inj
	}
	return v.MockTracer.Inject(sm, format, carrier)
}
func (v *vtracer) Extract(format interface{}, carrier interface{}) (opentracing.SpanContext, error) {
	if v.ext != nil {
		return nil, v.ext
	}
	return v.MockTracer.Extract(format, carrier)
}

func (v *vtracer) balanced(t *testing.T, what string) {
	seen := map[int]int{}
	for _, s := range v.FinishedSpans() {
		seen[s.SpanContext.SpanID]++
		if seen[s.SpanContext.SpanID] > 1 {
			t.Fatalf("%s: a span is finished twice", what)
		}
	}
	if len(seen) != v.started {
		t.Fatalf("%s: %d spans started, %d finished", what, v.started, len(seen))
	}
}

type k31 struct{}

func TestVerifP31Interceptors(t *testing.T) {
	for _, inj := range []error{nil, errors.New("inject"), opentracing.ErrSpanContextNotFound} {
		for _, ret := range []error{nil, errors.New("failed")} {
			for mode := 0; mode < 8; mode++ {
				v := &vtracer{MockTracer: mocktracer.New(), inj: inj, ext: inj}
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), k31{}, "v"))
				if mode&1 != 0 {
					md := metadata.Pairs("a", "1", "a", "2")
					ctx = metadata.NewIncomingContext(metadata.NewOutgoingContext(ctx, md), md)
				}
				if mode&2 != 0 {
					p := mocktracer.New().StartSpan("parent")
					ctx = opentracing.ContextWithSpan(ctx, p)
				}
				pan := mode&4 != 0
				n := 0
				cc := &grpc.ClientConn{}
				req, rep := new(int), new(string)
				opts := []grpc.CallOption{grpc.WaitForReady(true), grpc.MaxCallRecvMsgSize(3)}
				var pv interface{}
				var err error
				func() {
					defer func() { pv = recover() }()
					err = ClientInterceptor(v)(ctx, "/m", req, rep, cc, func(c context.Context, m string, r, p interface{}, conn *grpc.ClientConn, o ...grpc.CallOption) error {
						n++
						md, _ := metadata.FromOutgoingContext(c)
						if m != "/m" || r != req || p != rep || conn != cc || !reflect.DeepEqual(o, opts) || c.Value(k31{}) != "v" || mode&1 != 0 && !reflect.DeepEqual(md.Get("a"), []string{"1", "2"}) {
							t.Errorf("client: invoked with %v %v %v %v", m, r, p, o)
						}
						cancel()
						if c.Err() == nil {
							t.Errorf("client: another context")
						}
						if pan {
							panic("boom")
						}
						return ret
					}, opts...)
				}()
				if n != 1 || !pan && (err != ret || pv != nil) || pan && pv != "boom" {
					t.Fatalf("client mode %d inject %v: %d invocations, result %v, panic %v", mode, inj, n, err, pv)
				}
				v.balanced(t, "client")
				n, pv = 0, nil
				v = &vtracer{MockTracer: mocktracer.New(), inj: inj, ext: inj}
				var res interface{}
				func() {
					defer func() { pv = recover() }()
					res, err = ServerInterceptor(v)(ctx, req, &grpc.UnaryServerInfo{FullMethod: "/m"}, func(c context.Context, r interface{}) (interface{}, error) {
						n++
						if r != req || c.Value(k31{}) != "v" || c.Err() == nil {
							t.Errorf("server: invoked with %v", r)
						}
						if pan {
							panic("boom")
						}
						return rep, ret
					})
				}()
				if n != 1 || !pan && (err != ret || res != rep || pv != nil) || pan && pv != "boom" {
					t.Fatalf("server mode %d extract %v: %d invocations, result %v, panic %v", mode, inj, n, err, pv)
				}
				v.balanced(t, "server")
			}
		}
	}
}

func TestVerifP31CallSpan(t *testing.T) {
	f := CreateCallSpan(WithNodeID("n"))
	if s, err := f(7); err == nil {
		t.Fatalf("span %v without a tracer", s)
	}
	if _, err := f(nil); err == nil {
		t.Fatalf("span without a tracer")
	}
	ctx := context.WithValue(context.Background(), k31{}, "v")
	for _, c := range []interface{}{nil, 7, "x", ctx, opentracing.ContextWithSpan(ctx, mocktracer.New().StartSpan("p"))} {
		v := &vtracer{MockTracer: mocktracer.New()}
		s, err := f(v)
		if err != nil {
			t.Fatal(err)
		}
		s.SetTag("a", 1)
		s.GetID()
		s.End(c) // never started
		if len(v.FinishedSpans()) != 0 {
			t.Fatalf("finished before it started")
		}
		got := s.Begin(c)
		if got == nil {
			t.Fatalf("no context")
		}
		_, ok := c.(context.Context)
		if ok && (got.Value(k31{}) != "v" || v.started != 1) || !ok && v.started != 0 {
			t.Fatalf("Begin(%v): %d started", c, v.started)
		}
		s.SetTag("a", 1)
		s.GetID()
		s.End(got)
		v.balanced(t, "call")
	}
}
