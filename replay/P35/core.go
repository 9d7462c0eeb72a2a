// pkg: core
package core

import (
	"fmt"
	"github.com/pojol/braid/lib/tracer"
	"reflect"
	"testing"
)

// setsOnly applies f to a parameter block and checks that exactly the named
// fields changed, to the given values, starting from several blocks.
func setsOnly[P any](t *testing.T, what string, fill func(p *P, k int), f func(*P), want func(p *P)) {
	for k := 0; k < 3; k++ {
		var got, exp P
		fill(&got, k)
		fill(&exp, k)
		f(&got)
		want(&exp)
		if g, e := describe(reflect.ValueOf(&got).Elem()), describe(reflect.ValueOf(&exp).Elem()); g != e {
			t.Fatalf("%s on block %d:\n got %s\nwant %s", what, k, g, e)
		}
	}
}

func describe(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += v.Type().Field(i).Name + ":" + describe(v.Field(i)) + " "
		}
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += describe(v.Index(i)) + ","
		}
		return s + "]"
	case reflect.Func, reflect.Pointer, reflect.Chan, reflect.Map:
		return fmt.Sprintf("%x", v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + describe(v.Elem())
	}
	return fmt.Sprintf("%v", v)
}

type p35Loader struct {
	IActorLoader
	n int
}
type p35Factory struct {
	IActorFactory
	n int
}
type p35Tracer struct {
	tracer.ITracer
	n int
}

func TestVerifP35Node(t *testing.T) {
	l0, f0, t0 := &p35Loader{n: 1}, &p35Factory{n: 1}, &p35Tracer{n: 1}
	fill := func(p *NodeParm, k int) {
		if k > 0 {
			*p = NodeParm{ID: "id", Weight: 3, Ip: "1.2.3.4", Port: 77, Tracer: t0, Loader: l0, Factory: f0}
		}
	}
	l, f, tr := &p35Loader{n: 2}, &p35Factory{n: 2}, &p35Tracer{n: 2}
	for _, n := range []int{-1, 0, 1, 8, 65536} {
		n := n
		s := fmt.Sprint("s", n)
		if n == 0 {
			s = ""
		}
		setsOnly(t, "NodeWithServiceInfo", fill, NodeWithServiceInfo(s, n), func(p *NodeParm) { p.Ip, p.Port = s, n })
		setsOnly(t, "NodeWithID", fill, NodeWithID(s), func(p *NodeParm) { p.ID = s })
		setsOnly(t, "NodeWithWeight", fill, NodeWithWeight(n), func(p *NodeParm) { p.Weight = n })
		setsOnly(t, "NodeWithIP", fill, NodeWithIP(s), func(p *NodeParm) { p.Ip = s })
		setsOnly(t, "NodeWithPort", fill, NodeWithPort(n), func(p *NodeParm) { p.Port = n })
	}
	setsOnly(t, "NodeWithLoader", fill, NodeWithLoader(l), func(p *NodeParm) { p.Loader = l })
	setsOnly(t, "NodeWithFactory", fill, NodeWithFactory(f), func(p *NodeParm) { p.Factory = f })
	setsOnly(t, "NodeWithTracer", fill, NodeWithTracer(tr), func(p *NodeParm) { p.Tracer = tr })
	setsOnly(t, "NodeWithLoader(nil)", fill, NodeWithLoader(nil), func(p *NodeParm) { p.Loader = nil })
}
