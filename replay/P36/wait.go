// pkg: lib/warpwaitgroup
// race
package warpwaitgroup

import (
	"runtime"
	"sync"
	"testing"
	"time"
)

func TestVerifP36Sequential(t *testing.T) {
	for n := 1; n <= 12; n++ {
		for m := 0; m < 1<<n; m++ {
			w := &WrapWaitGroup{}
			c := int32(0)
			for i := 0; i < n; i++ {
				if m>>i&1 == 0 {
					d := i%3 + 1
					w.Add(d)
					c += int32(d)
				} else if c > 0 {
					if i%2 == 0 {
						w.Done()
					} else {
						w.Add(-1)
					}
					c--
				}
				if w.Count() != c {
					t.Fatalf("ops %b (n=%d): count %d, want %d", m, n, w.Count(), c)
				}
			}
			waited := make(chan bool)
			go func() { w.Wait(); close(waited) }()
			if c > 0 && m%512 == 0 {
				select {
				case <-waited:
					t.Fatalf("ops %b: Wait returned with %d outstanding", m, c)
				case <-time.After(2 * time.Millisecond):
				}
			}
			for ; c > 0; c-- {
				w.Done()
			}
			select {
			case <-waited:
			case <-time.After(5 * time.Second):
				t.Fatalf("ops %b: Wait does not return at zero", m)
			}
		}
	}
}

// whoever is released by Wait must see a zero count
func TestVerifP36Released(t *testing.T) {
	for k := 0; k < 20000; k++ {
		w := &WrapWaitGroup{}
		w.Add(1)
		res := make(chan int32, 1)
		go func() { w.Wait(); res <- w.Count() }()
		if k%2 == 0 {
			runtime.Gosched()
		}
		w.Done()
		if c := <-res; c != 0 {
			t.Fatalf("Wait returned with count %d", c)
		}
	}
}

func TestVerifP36Concurrent(t *testing.T) {
	for k := 0; k < 200; k++ {
		w := &WrapWaitGroup{}
		w.Add(1)
		var wg sync.WaitGroup
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 50; i++ {
					w.Add(2)
					w.Done()
					w.Done()
				}
			}()
		}
		wg.Wait()
		if w.Count() != 1 {
			t.Fatalf("count %d after balanced work, want 1", w.Count())
		}
		w.Done()
		w.Wait()
		if w.Count() != 0 {
			t.Fatalf("count %d at the end", w.Count())
		}
	}
}
