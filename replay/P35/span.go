// pkg: lib/span
package span

import (
	"fmt"
	"reflect"
	"testing"
)

// setsOnly applies f to a parameter block and checks that exactly the named
// fields changed, to the given values, starting from several blocks.
func setsOnly[P any](t *testing.T, what string, fill func(p *P, k int), f func(*P), want func(p *P)) {
	for k := 0; k < 3; k++ {
		var got, exp P
		fill(&got, k)
		fill(&exp, k)
		f(&got)
		want(&exp)
		if g, e := describe(reflect.ValueOf(&got).Elem()), describe(reflect.ValueOf(&exp).Elem()); g != e {
			t.Fatalf("%s on block %d:\n got %s\nwant %s", what, k, g, e)
		}
	}
}

func describe(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += v.Type().Field(i).Name + ":" + describe(v.Field(i)) + " "
		}
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += describe(v.Index(i)) + ","
		}
		return s + "]"
	case reflect.Func, reflect.Pointer, reflect.Chan, reflect.Map:
		return fmt.Sprintf("%x", v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return v.Elem().Type().String() + describe(v.Elem())
	}
	return fmt.Sprintf("%v", v)
}

func TestVerifP35Span(t *testing.T) {
	fill := func(p *SpanParm, k int) {
		if k > 0 {
			p.nodeID = "old"
		}
	}
	for _, s := range []string{"", "n"} {
		s := s
		setsOnly(t, "WithNodeID", fill, WithNodeID(s), func(p *SpanParm) { p.nodeID = s })
	}
}
