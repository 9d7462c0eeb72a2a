// pkg: lib/grpc
package grpc

import (
	"context"
	"errors"
	"fmt"
	"net"
	"sync/atomic"
	"testing"
	"time"

	"github.com/pojol/braid/lib/grpc/mock"
	"google.golang.org/grpc"
	"google.golang.org/grpc/metadata"
	"google.golang.org/grpc/test/bufconn"
)

type p26svc struct {
	mock.MockServiceServer
	calls atomic.Int32
	now   atomic.Int32
	max   atomic.Int32
	fail  atomic.Bool
	gate  chan struct{}
	last  atomic.Value
}

func (s *p26svc) Process(ctx context.Context, req *mock.MockRequest) (*mock.MockResponse, error) {
	s.calls.Add(1)
	if n := s.now.Add(1); n > s.max.Load() {
		s.max.Store(n)
	}
	defer s.now.Add(-1)
	s.last.Store(req.Message)
	if s.gate != nil {
		<-s.gate
	}
	grpc.SetHeader(ctx, metadata.Pairs("who", "p26"))
	if s.fail.Load() {
		return nil, errors.New("p26 failure")
	}
	return &mock.MockResponse{Message: "re:" + req.Message}, nil
}

func p26client(t *testing.T, n int, s *p26svc, addrs ...string) (*Client, func()) {
	lis := bufconn.Listen(1 << 20)
	srv := grpc.NewServer()
	mock.RegisterMockServiceServer(srv, s)
	go srv.Serve(lis)
	c := BuildClientWithOption(WithMaxConcurrentCalls(n), WithClientConns(addrs),
		WithDialOptions(grpc.WithContextDialer(func(context.Context, string) (net.Conn, error) { return lis.Dial() })))
	if err := c.Init(); err != nil {
		t.Fatal(err)
	}
	return c, srv.Stop
}

const p26m = "/mock.MockService/Process"

// every outcome gives its slot back; errors are reported; one invocation per call
func TestVerifP26Slots(t *testing.T) {
	s := &p26svc{}
	c, stop := p26client(t, 2, s, "passthrough:///a")
	defer stop()
	for i := 0; i < 6; i++ {
		want := s.calls.Load()
		ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
		rep := &mock.MockResponse{}
		var err error
		fails, runs := true, int32(0)
		var md metadata.MD
		switch i % 6 {
		case 0:
			err = c.Call(ctx, "passthrough:///a", p26m, &mock.MockRequest{Message: fmt.Sprint(i)}, rep, grpc.Header(&md))
			fails, runs = false, 1
			if rep.Message != "re:"+fmt.Sprint(i) {
				t.Errorf("reply %q", rep.Message)
			}
			if err == nil && len(md.Get("who")) != 1 {
				t.Error("the call option was not used")
			}
		case 1:
			err = c.Call(ctx, "nowhere", p26m, &mock.MockRequest{}, rep)
		case 2:
			err = c.Call(ctx, "passthrough:///a", p26m, &mock.MockRequest{}, rep, 42)
		case 3:
			s.fail.Store(true)
			err = c.Call(ctx, "passthrough:///a", p26m, &mock.MockRequest{}, rep)
			s.fail.Store(false)
			runs = 1
		case 4:
			err = c.Call(ctx, "passthrough:///a", "/no.Such/Method", &mock.MockRequest{}, rep)
		case 5:
			cancel()
			err = c.Call(ctx, "passthrough:///a", p26m, &mock.MockRequest{}, rep)
		}
		cancel()
		if fails != (err != nil) {
			t.Errorf("case %d: error %v", i, err)
		}
		if n := s.calls.Load() - want; n != runs && i != 5 {
			t.Errorf("case %d: %d invocations, want %d", i, n, runs)
		}
		if len(c.workers) != 0 {
			t.Fatalf("case %d: %d slots still taken", i, len(c.workers))
		}
	}
}

// no more than the configured number at once; a call without a slot does nothing
func TestVerifP26Bound(t *testing.T) {
	s := &p26svc{gate: make(chan struct{})}
	c, stop := p26client(t, 2, s, "passthrough:///a")
	defer stop()
	done := make(chan error, 4)
	for i := 0; i < 4; i++ {
		go func() {
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
			defer cancel()
			done <- c.Call(ctx, "passthrough:///a", p26m, &mock.MockRequest{}, &mock.MockResponse{})
		}()
	}
	time.Sleep(200 * time.Millisecond)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	if err := c.Call(ctx, "passthrough:///a", p26m, &mock.MockRequest{}, &mock.MockResponse{}); err == nil {
		t.Error("call without a slot succeeded")
	}
	close(s.gate)
	for i := 0; i < 4; i++ {
		if err := <-done; err != nil {
			t.Error(err)
		}
	}
	if s.max.Load() > 2 || s.calls.Load() != 4 {
		t.Errorf("at most 2 slots, but %d at once; %d calls", s.max.Load(), s.calls.Load())
	}
}

// the waiting call: connects where needed, once
func TestVerifP26Wait(t *testing.T) {
	s := &p26svc{}
	c, stop := p26client(t, 2, s)
	defer stop()
	for i := 0; i < 3; i++ {
		rep := &mock.MockResponse{}
		ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
		var md metadata.MD
		if err := c.CallWait(ctx, "passthrough:///b", p26m, &mock.MockRequest{Message: fmt.Sprint(i)}, rep, grpc.Header(&md)); err != nil {
			t.Fatal(err)
		}
		cancel()
		if rep.Message != "re:"+fmt.Sprint(i) || s.calls.Load() != int32(i+1) {
			t.Errorf("reply %q after %d invocations", rep.Message, s.calls.Load())
		}
		if len(md.Get("who")) != 1 {
			t.Error("the call option was not used")
		}
	}
	s.fail.Store(true)
	if err := c.CallWait(context.Background(), "passthrough:///b", p26m, &mock.MockRequest{}, &mock.MockResponse{}); err == nil || s.calls.Load() != 4 {
		t.Errorf("failed invocation reported as %v after %d", err, s.calls.Load())
	}
}
