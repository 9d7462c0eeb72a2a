// pkg: router/msg
package msg

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"testing"
)

func p22one[T any](t *testing.T, text []byte, key string) {
	for _, isReq := range []bool{true, false} {
		w := NewBuilder(context.Background()).Build()
		h := w.Res.Header
		if isReq {
			h = w.Req.Header
		}
		h.Custom = append([]byte{}, text...)
		var zero, want, got T
		var data map[string]any
		if len(text) > 0 && json.Unmarshal(text, &data) == nil {
			if v, ok := data[key]; ok {
				if tv, ok := v.(T); ok {
					want = tv
				} else if f, ok := v.(float64); ok {
					rt := reflect.TypeOf(zero)
					if rt != nil {
						switch rt.Kind() {
						case reflect.Int, reflect.Uint, reflect.Int8, reflect.Uint8, reflect.Int16, reflect.Uint16, reflect.Int32, reflect.Uint32, reflect.Int64, reflect.Uint64, reflect.Float32:
							want = reflect.ValueOf(f).Convert(rt).Interface().(T)
						}
					}
				}
			}
		}
		desc := fmt.Sprintf("req=%v custom %q key %q as %T", isReq, text, key, zero)
		func() {
			defer func() {
				if p := recover(); p != nil {
					t.Fatalf("%s: panic %v", desc, p)
				}
			}()
			if isReq {
				got = GetReqCustomField[T](w, key)
			} else {
				got = GetResCustomField[T](w, key)
			}
		}()
		if !reflect.DeepEqual(got, want) {
			t.Fatalf("%s: got %v, want %v", desc, got, want)
		}
		if !bytes.Equal(h.Custom, text) || w.Err != nil {
			t.Fatalf("%s: message changed", desc)
		}
	}
}

func TestVerifP22(t *testing.T) {
	texts := [][]byte{nil, []byte("null"), []byte("{"), []byte("[1]"), []byte("7"), []byte("\x00"), []byte(`{}`), []byte(`{"":3}`)}
	vals := []any{0, 1, -1, 3, 7.5, 100, 127, 200, 255, 300, 65535, -128, -300, 40000, 1 << 30, 1 << 31, 1 << 40, -(1 << 40), "s", "", "7", true, false, nil, []int{1}, map[string]any{"a": 1}, math.MaxInt32, 0.1}
	for _, v := range vals {
		b, _ := json.Marshal(map[string]any{"a": v, "b": "x"})
		texts = append(texts, b)
	}
	for _, s := range texts {
		for _, k := range []string{"a", "b", "c", ""} {
			p22one[int](t, s, k)
			p22one[float32](t, s, k)
			p22one[float64](t, s, k)
			p22one[string](t, s, k)
			p22one[bool](t, s, k)
			p22one[int64](t, s, k)
			// conversions out of the type's range have no defined result
			var m map[string]any
			json.Unmarshal(s, &m)
			f, _ := m[k].(float64)
			fits := func(lo, hi float64) bool { return math.Trunc(f) >= lo && math.Trunc(f) <= hi }
			if fits(-128, 127) {
				p22one[int8](t, s, k)
			}
			if fits(0, 255) {
				p22one[uint8](t, s, k)
			}
			if fits(-32768, 32767) {
				p22one[int16](t, s, k)
			}
			if fits(0, 65535) {
				p22one[uint16](t, s, k)
			}
			if fits(math.MinInt32, math.MaxInt32) {
				p22one[int32](t, s, k)
			}
			if fits(0, math.MaxUint32) {
				p22one[uint32](t, s, k)
			}
			if f >= 0 {
				p22one[uint](t, s, k)
				p22one[uint64](t, s, k)
			}
			p22one[map[string]any](t, s, k)
			p22one[[]any](t, s, k)
		}
	}
	for _, s := range texts {
		w := NewBuilder(context.Background()).Build()
		w.Req.Header.Custom, w.Res.Header.Custom = s, s
		var want map[string]any
		werr := json.Unmarshal(s, &want)
		for i, get := range []func() (map[string]any, error){w.GetReqCustomMap, w.GetResCustomMap} {
			got, err := get()
			if (err == nil) != (len(s) > 0 && werr == nil) || err == nil && !reflect.DeepEqual(got, want) {
				t.Fatalf("map %d of %q: %v, %v", i, s, got, err)
			}
		}
	}
}
