// pkg: lib/grpc
package grpc

import (
	"context"
	"fmt"
	g "google.golang.org/grpc"
	"reflect"
	"testing"
	"time"
)

// setsOnly applies f to a parameter block and checks that exactly the named
// fields changed, to the given values, starting from several blocks.
func setsOnly[P any](t *testing.T, what string, fill func(p *P, k int), f func(*P), want func(p *P)) {
	for k := 0; k < 3; k++ {
		var got, exp P
		fill(&got, k)
		fill(&exp, k)
		f(&got)
		want(&exp)
		if g, e := describe(reflect.ValueOf(&got).Elem()), describe(reflect.ValueOf(&exp).Elem()); g != e {
			t.Fatalf("%s on block %d:\n got %s\nwant %s", what, k, g, e)
		}
	}
}

func describe(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += v.Type().Field(i).Name + ":" + describe(v.Field(i)) + " "
		}
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += describe(v.Index(i)) + ","
		}
		return s + "]"
	case reflect.Func, reflect.Pointer, reflect.Chan, reflect.Map:
		return fmt.Sprintf("%x", v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + describe(v.Elem())
	}
	return fmt.Sprintf("%v", v)
}

func TestVerifP35Grpc(t *testing.T) {
	ui := []g.UnaryClientInterceptor{
		func(context.Context, string, interface{}, interface{}, *g.ClientConn, g.UnaryInvoker, ...g.CallOption) error {
			return nil
		},
		func(context.Context, string, interface{}, interface{}, *g.ClientConn, g.UnaryInvoker, ...g.CallOption) error {
			return fmt.Errorf("x")
		},
	}
	si := []g.StreamClientInterceptor{
		func(context.Context, *g.StreamDesc, *g.ClientConn, string, g.Streamer, ...g.CallOption) (g.ClientStream, error) {
			return nil, nil
		},
		func(context.Context, *g.StreamDesc, *g.ClientConn, string, g.Streamer, ...g.CallOption) (g.ClientStream, error) {
			return nil, fmt.Errorf("x")
		},
	}
	d1, d2, d3 := g.WithBlock(), g.WithInsecure(), g.WithUserAgent("u")
	fill := func(p *ClientParm, k int) {
		if k > 0 {
			*p = ClientParm{PoolInitNum: 1, PoolCapacity: 2, PoolIdle: 3, MaxConcurrentCalls: 4, CallTimeout: 5, AddressLst: []string{"a", "b"}, dialOptions: []g.DialOption{d1}, UnaryInterceptors: []g.UnaryClientInterceptor{ui[0]}, StreamInterceptors: []g.StreamClientInterceptor{si[0]}}
		}
		if k == 2 {
			// spare capacity behind every list
			p.AddressLst = append(make([]string, 0, 8), "a")
			p.dialOptions = append(make([]g.DialOption, 0, 8), d1)
			p.UnaryInterceptors = append(make([]g.UnaryClientInterceptor, 0, 8), ui[0])
			p.StreamInterceptors = append(make([]g.StreamClientInterceptor, 0, 8), si[0])
		}
	}
	for _, n := range []int{-1, 0, 1, 100} {
		n := n
		setsOnly(t, "PoolInitNum", fill, WithClientPoolInitNum(n), func(p *ClientParm) { p.PoolInitNum = n })
		setsOnly(t, "PoolCapacity", fill, WithClientPoolCapacity(n), func(p *ClientParm) { p.PoolCapacity = n })
		setsOnly(t, "PoolIdle", fill, WithClientPoolIdle(n), func(p *ClientParm) { p.PoolIdle = time.Duration(n) * time.Second })
		setsOnly(t, "MaxConcurrentCalls", fill, WithMaxConcurrentCalls(n), func(p *ClientParm) { p.MaxConcurrentCalls = n })
		setsOnly(t, "CallTimeout", fill, WithCallTimeout(time.Duration(n)), func(p *ClientParm) { p.CallTimeout = time.Duration(n) })
	}
	for _, lst := range [][]string{nil, {"x"}, {"b", "a", "b"}} {
		lst := lst
		setsOnly(t, "AddressLst", fill, WithClientConns(lst), func(p *ClientParm) { p.AddressLst = append(append([]string{}, p.AddressLst...), lst...) })
	}
	for _, ds := range [][]g.DialOption{nil, {d2}, {d3, d2, d3}} {
		ds := ds
		setsOnly(t, "DialOptions", fill, WithDialOptions(ds...), func(p *ClientParm) { p.dialOptions = append(append([]g.DialOption{}, p.dialOptions...), ds...) })
	}
	setsOnly(t, "UnaryInterceptors", fill, ClientAppendUnaryInterceptors(ui[1], ui[0]), func(p *ClientParm) { p.UnaryInterceptors = append(p.UnaryInterceptors, ui[1], ui[0]) })
	setsOnly(t, "StreamInterceptors", fill, ClientAppendStreamInterceptors(si[1]), func(p *ClientParm) { p.StreamInterceptors = append(p.StreamInterceptors, si[1]) })

	us := []g.UnaryServerInterceptor{
		func(context.Context, interface{}, *g.UnaryServerInfo, g.UnaryHandler) (interface{}, error) {
			return nil, nil
		},
		func(context.Context, interface{}, *g.UnaryServerInfo, g.UnaryHandler) (interface{}, error) {
			return nil, fmt.Errorf("x")
		},
	}
	ss := []g.StreamServerInterceptor{
		func(interface{}, g.ServerStream, *g.StreamServerInfo, g.StreamHandler) error { return nil },
		func(interface{}, g.ServerStream, *g.StreamServerInfo, g.StreamHandler) error { return fmt.Errorf("x") },
	}
	h0, h1 := func(*g.Server) {}, func(s *g.Server) { s.Stop() }
	sfill := func(p *ServerParm, k int) {
		if k > 0 {
			*p = ServerParm{ListenAddr: ":1", UnaryInterceptors: []g.UnaryServerInterceptor{us[0]}, StreamInterceptors: []g.StreamServerInterceptor{ss[0]}, Handler: h0, GracefulStop: k == 2}
		}
	}
	for _, a := range []string{"", ":0", "x:1"} {
		a := a
		setsOnly(t, "ListenAddr", sfill, WithServerListen(a), func(p *ServerParm) { p.ListenAddr = a })
	}
	setsOnly(t, "GracefulStop", sfill, WithServerGracefulStop(), func(p *ServerParm) { p.GracefulStop = true })
	setsOnly(t, "ServerUnary", sfill, ServerAppendUnaryInterceptors(us[1], us[0]), func(p *ServerParm) { p.UnaryInterceptors = append(p.UnaryInterceptors, us[1], us[0]) })
	setsOnly(t, "ServerStream", sfill, ServerAppendStreamInterceptors(ss[1]), func(p *ServerParm) { p.StreamInterceptors = append(p.StreamInterceptors, ss[1]) })
	setsOnly(t, "Handler", sfill, ServerRegisterHandler(h1), func(p *ServerParm) { p.Handler = h1 })
}

func TestVerifP35Build(t *testing.T) {
	def := ClientParm{PoolInitNum: 8, PoolCapacity: 64, MaxConcurrentCalls: 1024, CallTimeout: 10 * time.Second, PoolIdle: 100 * time.Second}
	same := func(what string, got, want ClientParm) {
		if a, b := describe(reflect.ValueOf(&got).Elem()), describe(reflect.ValueOf(&want).Elem()); a != b {
			t.Fatalf("%s:\n got %s\nwant %s", what, a, b)
		}
	}
	same("default client", BuildClientWithOption().parm, def)
	// options of one client never reach another
	w := def
	w.PoolInitNum, w.AddressLst, w.MaxConcurrentCalls = 3, []string{"x", "y", "z"}, 5
	c := BuildClientWithOption(WithClientPoolInitNum(9), WithClientConns([]string{"x"}), WithMaxConcurrentCalls(5), WithClientPoolInitNum(3), WithClientConns([]string{"y", "z"}))
	same("client", c.parm, w)
	if cap(c.workers) != 5 {
		t.Fatalf("client bound %d, want 5", cap(c.workers))
	}
	same("default client afterwards", BuildClientWithOption().parm, def)
	same("defaults", DefaultClientParm, def)

	h := func(*g.Server) {}
	var order []int
	s := BuildServerWithOption(ServerRegisterHandler(h), WithServerListen(":9"), func(p *ServerParm) { order = append(order, 1) }, func(p *ServerParm) { order = append(order, 2) }, WithServerListen(":7"))
	if s.parm.ListenAddr != ":7" || s.parm.GracefulStop || len(order) != 2 || order[0] != 1 || s.parm.Handler == nil {
		t.Fatalf("server: %+v order %v", s.parm, order)
	}
	if s2 := BuildServerWithOption(ServerRegisterHandler(h), WithServerGracefulStop()); !s2.parm.GracefulStop || s2.parm.ListenAddr == ":7" {
		t.Fatalf("second server: %+v", s2.parm)
	}
}
