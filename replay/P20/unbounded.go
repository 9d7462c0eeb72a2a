// pkg: lib/unbounded
// race
package unbounded

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"
)

// every sequence of up to 10 operations: put, read(+load)
func TestVerifP20Sequential(t *testing.T) {
	for n := 1; n <= 10; n++ {
		for m := 0; m < 1<<n; m++ {
			b := NewUnbounded()
			next, read := 0, 0
			for i := 0; i < n; i++ {
				if m>>i&1 == 0 {
					done := make(chan bool)
					go func() { b.Put(next); close(done) }()
					select {
					case <-done:
					case <-time.After(5 * time.Second):
						t.Fatalf("put blocked after ops %b", m)
					}
					next++
					continue
				}
				select {
				case v := <-b.Get():
					if read >= next || v != read {
						t.Fatalf("ops %b (n=%d): read %v, want %d of %d put", m, n, v, read, next)
					}
					read++
					b.Load()
				default:
					if read < next {
						t.Fatalf("ops %b (n=%d): %d items stored, none readable", m, n, next-read)
					}
				}
				if b.Len() < 0 || b.Len() > next-read {
					t.Fatalf("ops %b (n=%d): Len %d with %d stored", m, n, b.Len(), next-read)
				}
			}
			for read < next {
				select {
				case v := <-b.Get():
					if v != read {
						t.Fatalf("ops %b: drained %v, want %d", m, v, read)
					}
					read++
					b.Load()
				default:
					t.Fatalf("ops %b: %d of %d items lost", m, next-read, next)
				}
			}
			select {
			case v := <-b.Get():
				t.Fatalf("ops %b: extra item %v", m, v)
			default:
			}
		}
	}
}

// repeated Load calls are harmless
func TestVerifP20Loads(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 2000; k++ {
		b := NewUnbounded()
		put, read := 0, 0
		for i := 0; i < 30; i++ {
			switch r.Intn(3) {
			case 0:
				b.Put(put)
				put++
			case 1:
				b.Load()
			case 2:
				select {
				case v := <-b.Get():
					if v != read {
						t.Fatalf("run %d: read %v, want %d", k, v, read)
					}
					read++
					b.Load()
				default:
					if read < put {
						t.Fatalf("run %d: %d stored, none readable", k, put-read)
					}
				}
			}
		}
	}
}

func TestVerifP20Concurrent(t *testing.T) {
	for round := 0; round < 30; round++ {
		b := NewUnbounded()
		const producers, each = 8, 300
		var wg sync.WaitGroup
		for p := 0; p < producers; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				for i := 0; i < each; i++ {
					b.Put([2]int{p, i})
					if i%16 == 0 {
						_ = b.Len()
					}
				}
			}(p)
		}
		last := map[int]int{}
		for i := 0; i < producers; i++ {
			last[i] = -1
		}
		for got := 0; got < producers*each; got++ {
			select {
			case v := <-b.Get():
				x := v.([2]int)
				if x[1] != last[x[0]]+1 {
					t.Fatalf("producer %d: item %d after %d", x[0], x[1], last[x[0]])
				}
				last[x[0]] = x[1]
				b.Load()
			case <-time.After(10 * time.Second):
				t.Fatal(fmt.Sprintf("stuck after %d of %d items", got, producers*each))
			}
		}
		wg.Wait()
	}
}
