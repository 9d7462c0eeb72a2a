// pkg: core/node
package node

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"github.com/pojol/braid/def"
	"github.com/pojol/braid/router/msg"
)

type p09world struct {
	t      *testing.T
	s, r   *NormalSystem
	acts   map[string]*vact // on s
	far    map[string]*vact // on r
	counts map[string]int
}

func (w *p09world) delivered() (n int, id string, m *msg.Wrapper) {
	for _, as := range []map[string]*vact{w.acts, w.far} {
		for k, a := range as {
			if d := len(a.got) - w.counts[k]; d > 0 {
				n, id, m = n+d, k, a.got[len(a.got)-1]
			}
			w.counts[k] = len(a.got)
		}
	}
	return
}

// targets local, remote, stale and unknown, named and by symbol
func TestVerifP09Route(t *testing.T) {
	for _, locals := range [][]string{{}, {"x:a"}, {"x:a", "y:b"}, {"x:a", "z:a"}} {
		for _, remotes := range [][]string{{}, {"p:a"}, {"p:a", "q:b"}} {
			for _, stale := range []string{"", "g:a", "g:b", "g:c"} {
				mr := vstore(t)
				w := &p09world{t: t, s: vsystem("n1", vport(t)), r: vsystem("n2", vport(t)), acts: map[string]*vact{}, far: map[string]*vact{}, counts: map[string]int{}}
				for _, k := range locals {
					w.acts[k[:1]] = vadd(t, w.s, k[:1], k[2:], 1)
				}
				for _, k := range remotes {
					w.far[k[:1]] = vadd(t, w.r, k[:1], k[2:], 1)
				}
				if stale != "" {
					if err := w.s.addressbook.Register(context.Background(), stale[2:], stale[:1], 0); err != nil {
						t.Fatal(err)
					}
				}
				// stale records last: they are removed
				for _, id := range []string{"", "x", "y", "z", "p", "q", "nobody", def.SymbolLocalFirst, def.SymbolWildcard, "g"} {
					for _, ty := range []string{"a", "b", "c", "none"} {
						for _, send := range []bool{false, true} {
							name := fmt.Sprintf("local %v remote %v stale %q: %q of type %v, send %v", locals, remotes, stale, id, ty, send)
							m := vmsg(context.Background())
							req := m.Req
							var err error
							_, there := w.r.addressbook.GetByID(context.Background(), "g")
							if send {
								err = w.s.Send(id, ty, "ev", m)
							} else {
								err = w.s.Call(id, ty, "ev", m)
							}
							n, to, got := w.delivered()
							_, here := w.acts[to]
							if n > 1 || (err == nil) != (n == 1) {
								t.Fatalf("%v: %v deliveries, %v", name, n, err)
							}
							if m.Req != req || m.Req.Header.Event != "ev" || m.Req.Header.TargetActorID != id || m.Req.Header.TargetActorType != ty {
								t.Fatalf("%v: header %v", name, m.Req.Header)
							}
							if n == 1 && (here && id != def.SymbolWildcard && got != m || got.Req.Header.ID != req.Header.ID) {
								t.Fatalf("%v: another message", name)
							}
							var byTy = func(as map[string]*vact) (r bool) {
								for _, a := range as {
									r = r || a.ty == ty
								}
								return
							}
							switch id {
							case "", "nobody":
								if n != 0 || err == nil {
									t.Fatalf("%v: delivered to %q, %v", name, to, err)
								}
							case def.SymbolLocalFirst:
								if byTy(w.acts) != (n == 1 && here) || n == 1 && here && w.acts[to].ty != ty {
									t.Fatalf("%v: delivered to %q, %v", name, to, err)
								}
							case def.SymbolWildcard:
								if n == 1 && (here && w.acts[to].ty != ty || !here && w.far[to].ty != ty) || !byTy(w.acts) && !byTy(w.far) && err == nil {
									t.Fatalf("%v: delivered to %q, %v", name, to, err)
								}
							default:
								_, l := w.acts[id]
								_, f := w.far[id]
								if (n == 1) != (l || f) || n == 1 && to != id {
									t.Fatalf("%v: delivered to %q, %v", name, to, err)
								}
								if id == "g" && there == nil && !errors.Is(err, ErrSelfCall) {
									t.Fatalf("%v: %v", name, err)
								}
							}
							if errors.Is(err, ErrSelfCall) {
								if _, e := w.s.addressbook.GetByID(context.Background(), stale[:1]); e == nil {
									t.Fatalf("%v: the stale record is still there", name)
								}
							}
						}
					}
				}
				w.s.acceptor.Exit()
				w.r.acceptor.Exit()
				mr.Close()
			}
		}
	}
}
