// pkg: core/node
package node

import (
	"context"
	"fmt"
	"testing"
)

func TestVerifP16Unregister(t *testing.T) {
	ctx := context.Background()
	for _, ids := range [][]string{{"x"}, {"x", "y"}, {"y", "z"}, {}} {
		for _, ty := range []string{"a", "b", "unknown"} {
			for _, down := range []bool{false, true} {
				name := fmt.Sprintf("on the node %v, unregister x of type %v, store down %v", ids, ty, down)
				mr := vstore(t)
				s, other := vsystem("n1", 0), vsystem("n2", 0)
				acts := map[string]*vact{}
				for _, id := range ids {
					rt := ty
					if ty == "unknown" {
						rt = "a"
					}
					acts[id] = vadd(t, s, id, rt, 7)
				}
				vadd(t, other, "far", "a", 7)
				seen := false
				if a := acts["x"]; a != nil {
					a.onExit = func() { _, e := s.FindActor(ctx, "x"); seen = e == nil }
				}
				if down {
					mr.SetError("down")
				}
				err := s.Unregister("x", ty)
				mr.SetError("")
				if (err != nil) != (ty == "unknown") {
					t.Fatalf("%v: %v", name, err)
				}
				for id, a := range acts {
					want := 0
					if id == "x" {
						want = 1
						if !seen {
							t.Fatalf("%v: removed before it had stopped", name)
						}
					}
					if a.exits != want {
						t.Fatalf("%v: %v stopped %v times", name, id, a.exits)
					}
					if _, e := s.FindActor(ctx, id); (e == nil) != (id != "x") {
						t.Fatalf("%v: %v on the node: %v", name, id, e)
					}
					if id != "x" {
						if _, e := other.addressbook.GetByID(ctx, id); e != nil {
							t.Fatalf("%v: the record of %v is gone", name, id)
						}
					}
				}
				if _, e := other.addressbook.GetByID(ctx, "x"); !down && ty != "unknown" && e == nil {
					t.Fatalf("%v: the record is still there", name)
				}
				if _, e := s.addressbook.GetByID(ctx, "far"); e != nil {
					t.Fatalf("%v: another node's record is gone", name)
				}
				if acts["x"] != nil && !down && ty != "unknown" {
					w := 7 * len(ids)
					if ty == "a" {
						w -= 3
					} else {
						w -= 5
					}
					if got := mr.HGet("{node:n1}", "total_weight"); got != fmt.Sprint(w) {
						t.Fatalf("%v: weight %v, expected %v", name, got, w)
					}
				}
				mr.Close()
			}
		}
	}
}
