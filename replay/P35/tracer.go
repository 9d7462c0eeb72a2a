// pkg: lib/tracer
package tracer

import (
	"fmt"
	"reflect"
	"testing"
	"time"
)

// setsOnly applies f to a parameter block and checks that exactly the named
// fields changed, to the given values, starting from several blocks.
func setsOnly[P any](t *testing.T, what string, fill func(p *P, k int), f func(*P), want func(p *P)) {
	for k := 0; k < 3; k++ {
		var got, exp P
		fill(&got, k)
		fill(&exp, k)
		f(&got)
		want(&exp)
		if g, e := describe(reflect.ValueOf(&got).Elem()), describe(reflect.ValueOf(&exp).Elem()); g != e {
			t.Fatalf("%s on block %d:\n got %s\nwant %s", what, k, g, e)
		}
	}
}

func describe(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += v.Type().Field(i).Name + ":" + describe(v.Field(i)) + " "
		}
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += describe(v.Index(i)) + ","
		}
		return s + "]"
	case reflect.Func, reflect.Pointer, reflect.Chan, reflect.Map:
		return fmt.Sprintf("%x", v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + describe(v.Elem())
	}
	return fmt.Sprintf("%v", v)
}

func TestVerifP35Tracer(t *testing.T) {
	sf := []SpanFactory{
		func(interface{}) (ISpan, error) { return nil, nil },
		func(interface{}) (ISpan, error) { return nil, fmt.Errorf("x") },
	}
	fill := func(p *Parm, k int) {
		if k > 0 {
			*p = Parm{Name: "n", CollectorEndpoint: "c", LocalAgentHostPort: "l", Probabilistic: .5, SamplerType: "s", SlowRequest: 3, SlowSpan: 4, ImportFactory: []TracerFactory{{"a", sf[0]}}}
		}
		if k == 2 {
			p.ImportFactory = append(make([]TracerFactory, 0, 8), TracerFactory{"a", sf[0]})
		}
	}
	for _, s := range []string{"", "x"} {
		s := s
		setsOnly(t, "WithServiceName", fill, WithServiceName(s), func(p *Parm) { p.Name = s })
		setsOnly(t, "WithSamplerType", fill, WithSamplerType(s), func(p *Parm) { p.SamplerType = s })
		setsOnly(t, "WithHTTP", fill, WithHTTP(s), func(p *Parm) { p.CollectorEndpoint = s })
		setsOnly(t, "WithUDP", fill, WithUDP(s), func(p *Parm) { p.LocalAgentHostPort = s })
	}
	for _, n := range []int{-1, 0, 1, 2500} {
		n := n
		setsOnly(t, "WithProbabilistic", fill, WithProbabilistic(float64(n)/3), func(p *Parm) { p.Probabilistic = float64(n) / 3 })
		setsOnly(t, "WithSlowRequest", fill, WithSlowRequest(n), func(p *Parm) { p.SlowRequest = time.Duration(n) * time.Millisecond })
		setsOnly(t, "WithSlowSpan", fill, WithSlowSpan(n), func(p *Parm) { p.SlowSpan = time.Duration(n) * time.Millisecond })
	}
	for _, fs := range [][]TracerFactory{nil, {{"b", sf[1]}}, {{"b", sf[1]}, {"c", sf[0]}, {"a", sf[1]}}} {
		fs := fs
		setsOnly(t, "WithSpanFactory", fill, WithSpanFactory(fs...), func(p *Parm) { p.ImportFactory = append(append([]TracerFactory{}, p.ImportFactory...), fs...) })
	}
}
