// pkg: core
package core

import (
	"errors"
	"math/rand"
	"testing"
)

func checkP29(t *testing.T, vers []int) {
	verList = nil
	errs := []error{}
	for _, v := range vers {
		e := errors.New("fn")
		errs = append(errs, e)
		RegisterVersionStrategy(VerStrategy{Version: v, Reason: "r", Func: func(interface{}) error { return e }})
	}
	for q := -3; q <= 8; q++ {
		want := q
		for _, v := range vers {
			if v > q && (want == q || v < want) {
				want = v
			}
		}
		if got := GetNextVersion(q); got != want {
			t.Fatalf("registered %v: GetNextVersion(%d) = %d, want %d", vers, q, got, want)
		}
		first := -1
		for i, v := range vers {
			if v == q {
				first = i
				break
			}
		}
		s, err := GetVerStrategy(q)
		if first < 0 {
			if err != ErrNotfoundVersion || err == nil {
				t.Fatalf("registered %v: GetVerStrategy(%d) error %v", vers, q, err)
			}
			continue
		}
		if err != nil || s.Version != q || s.Reason != "r" || s.Func(nil) != errs[first] {
			t.Fatalf("registered %v: GetVerStrategy(%d) is not the first one registered (%v)", vers, q, err)
		}
	}
}

func TestVerifP29(t *testing.T) {
	var gen func(pre []int, n int)
	gen = func(pre []int, n int) {
		checkP29(t, pre)
		if n == 0 {
			return
		}
		for v := -1; v <= 4; v++ {
			gen(append(append([]int{}, pre...), v), n-1)
		}
	}
	gen(nil, 4)
	r := rand.New(rand.NewSource(1))
	for k := 0; k < 500; k++ {
		var vs []int
		for i := r.Intn(20); i > 0; i-- {
			vs = append(vs, r.Intn(12)-4)
		}
		checkP29(t, vs)
	}
}
