// pkg: router/msg
package msg

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"github.com/pojol/braid/router"
	"github.com/vmihailenco/msgpack/v5"
)

func p21norm(v any) (any, bool) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, false
	}
	var o any
	json.Unmarshal(b, &o)
	return o, true
}

func p21copy(m *router.Message) *router.Message {
	c, h := *m, *m.Header
	c.Header = &h
	return &c
}

func TestVerifP21(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	vals := []any{1, -7, int64(1 << 40), uint8(3), 2.5, "s", "", true, nil, []int{1, 2}, map[string]int{"q": 1}, make(chan int), struct{ A int }{4}, map[string]any{"x": nil}}
	for k := 0; k < 6000; k++ {
		isReq := r.Intn(2) == 0
		b := NewBuilder(context.Background())
		for _, m := range []*router.Message{b.wrapper.Req, b.wrapper.Res} {
			m.Body = []byte{1, 2}
			m.Header.Event, m.Header.Token, m.Header.TargetActorID = "e", "t", "id"
			m.Header.OrgActorID, m.Header.OrgActorType, m.Header.PrevActorType, m.Header.TargetActorType, m.Header.Timestamp = "o", "ot", "pt", "tt", 5
			m.Header.Custom = []byte("other")
		}
		me := b.wrapper.Res
		if isReq {
			me = b.wrapper.Req
		}
		var prev []byte
		before := map[string]any{}
		readable := true
		switch r.Intn(6) {
		case 0:
		case 1:
			prev = []byte("null")
		case 2:
			prev, readable = []byte([]string{"{", "[1]", "7", "{}x", "\x81"}[r.Intn(5)]), false
		default:
			for i := r.Intn(4); i > 0; i-- {
				before[fmt.Sprint("k", r.Intn(4))], _ = p21norm(vals[r.Intn(11)])
			}
			prev, _ = json.Marshal(before)
		}
		me.Header.Custom = append([]byte{}, prev...)
		attrs := []Attr{}
		for i := r.Intn(5); i > 0; i-- {
			attrs = append(attrs, Attr{Key: fmt.Sprint("k", r.Intn(5)), Value: vals[r.Intn(len(vals))]})
		}
		want := map[string]any{}
		ok := readable
		final := map[string]any{}
		for _, a := range attrs {
			final[a.Key] = a.Value
		}
		for a, v := range before {
			want[a] = v
		}
		for a, v := range final {
			n, good := p21norm(v)
			want[a] = n
			ok = ok && good
		}
		var olderr error
		if r.Intn(4) == 0 {
			olderr = fmt.Errorf("old")
			b.wrapper.Err = olderr
		}
		w := b.wrapper
		q, s := p21copy(w.Req), p21copy(w.Res)
		var ret *MsgBuilder
		if isReq {
			ret = b.WithReqCustomFields(attrs...)
		} else {
			ret = b.WithResCustomFields(attrs...)
		}
		desc := fmt.Sprintf("req=%v custom=%q attrs=%v", isReq, prev, attrs)
		if ret != b || b.wrapper != w {
			t.Fatalf("%s: returns another builder", desc)
		}
		if ok {
			if w.Err != olderr {
				t.Fatalf("%s: err %v", desc, w.Err)
			}
			var got map[string]any
			if e := json.Unmarshal(me.Header.Custom, &got); e != nil || got == nil || !reflect.DeepEqual(got, want) {
				t.Fatalf("%s: custom %q (%v), want %v", desc, me.Header.Custom, e, want)
			}
		} else {
			if w.Err == nil || w.Err == olderr {
				t.Fatalf("%s: err %v", desc, w.Err)
			}
			if !bytes.Equal(me.Header.Custom, prev) {
				t.Fatalf("%s: custom changed to %q", desc, me.Header.Custom)
			}
		}
		me.Header.Custom = nil
		if isReq {
			q.Header.Custom = nil
		} else {
			s.Header.Custom = nil
		}
		if !reflect.DeepEqual(q, w.Req) || !reflect.DeepEqual(s, w.Res) {
			t.Fatalf("%s: other fields changed: %v %v", desc, w.Req, w.Res)
		}
		// the map and object setters
		me.Header.Custom = append([]byte{}, prev...)
		w.Err = nil
		data := map[string]any{}
		dok := true
		for i := r.Intn(3); i > 0; i-- {
			v := vals[r.Intn(len(vals))]
			data[fmt.Sprint(i)] = v
			_, g := p21norm(v)
			dok = dok && g
		}
		if r.Intn(2) == 0 {
			if isReq {
				b.WithReqCustomFieldsMap(data)
			} else {
				b.WithResCustomFieldsMap(data)
			}
			enc, _ := json.Marshal(data)
			if dok && (w.Err != nil || !bytes.Equal(enc, me.Header.Custom)) || !dok && (w.Err == nil || !bytes.Equal(prev, me.Header.Custom)) {
				t.Fatalf("map %v over %q: custom %q err %v", data, prev, me.Header.Custom, w.Err)
			}
		} else {
			v := vals[r.Intn(len(vals))]
			enc, e := msgpack.Marshal(v)
			if isReq {
				b.WithReqCustomObject(v)
			} else {
				b.WithResCustomObject(v)
			}
			if e == nil && (w.Err != nil || !bytes.Equal(enc, me.Header.Custom)) || e != nil && (w.Err == nil || !bytes.Equal(prev, me.Header.Custom)) {
				t.Fatalf("object %v over %q: custom %q err %v", v, prev, me.Header.Custom, w.Err)
			}
		}
		me.Header.Custom = nil
		if !reflect.DeepEqual(q, w.Req) || !reflect.DeepEqual(s, w.Res) {
			t.Fatalf("setters changed other fields: %v %v", w.Req, w.Res)
		}
	}
}
