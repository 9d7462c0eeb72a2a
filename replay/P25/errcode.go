// pkg: lib/errcode
package errcode

import (
	stderr "errors"
	"fmt"
	"testing"

	"github.com/pkg/errors"
)

type otherCodes struct {
	n int
	s string
}

func (o otherCodes) Error() string      { return o.s }
func (o otherCodes) Code() int          { return o.n }
func (o otherCodes) Message() string    { return o.s }
func (o otherCodes) Details() string    { return "" }
func (o otherCodes) Equal(e error) bool { return EqualError(o, e) }

func TestVerifP25(t *testing.T) {
	var all []Codes
	nums := []int{-5, -1, 0, 1, 2, 7, 100, 1 << 30}
	for _, n := range nums {
		for _, s := range []string{"", "a", "b"} {
			c := Add(n, s)
			if c.Code() != n || c.Message() != s || c.Error() != s {
				t.Fatalf("Add(%d,%q) = %d %q %q", n, s, c.Code(), c.Message(), c.Error())
			}
			all = append(all, c, otherCodes{n, s})
		}
		func() {
			defer func() {
				r := recover()
				if (r != nil) != (n <= 0) {
					t.Fatalf("New(%d): panic %v", n, r)
				}
			}()
			c := New(n, "m")
			if c.Code() != n || c.Message() != "m" {
				t.Fatalf("New(%d,m) = %d %q", n, c.Code(), c.Message())
			}
		}()
	}
	code := func(c Codes) int {
		if c == nil {
			return 0
		}
		return c.Code()
	}
	if OK.Code() != 0 {
		t.Fatalf("OK has code %d", OK.Code())
	}
	withNil := append([]Codes{nil}, all...)
	for _, a := range withNil {
		for _, b := range withNil {
			if Equal(a, b) != (code(a) == code(b)) {
				t.Fatalf("Equal(%v,%v) = %v", a, b, Equal(a, b))
			}
		}
	}
	if Cause(nil).Code() != 0 {
		t.Fatalf("Cause(nil) has code %d", Cause(nil).Code())
	}
	for _, a := range all {
		e := a.(error)
		for _, w := range []error{e, errors.Wrap(e, "x"), errors.Wrap(errors.Wrapf(e, "x %d", 1), "y"), errors.WithStack(e), errors.WithMessage(e, "")} {
			if Cause(w).Code() != a.Code() || Cause(w).Message() != a.Message() {
				t.Fatalf("Cause(%T %v) = %d %q, want %d", w, w, Cause(w).Code(), Cause(w).Message(), a.Code())
			}
			for _, b := range all {
				if EqualError(b, w) != (a.Code() == b.Code()) {
					t.Fatalf("EqualError(%d, wraps %d) = %v", b.Code(), a.Code(), EqualError(b, w))
				}
				if b.Equal(w) != (a.Code() == b.Code()) {
					t.Fatalf("%T %d.Equal(wraps %d) = %v", b, b.Code(), a.Code(), b.Equal(w))
				}
			}
		}
	}
	for _, s := range []string{"", "boom", "a b"} {
		for _, e := range []error{stderr.New(s), errors.Wrap(stderr.New(s), ""), fmt.Errorf("%s", s), stderr.New("12")} {
			c := Cause(e)
			if c.Code() != -1 {
				t.Fatalf("Cause(%T %q) has code %d, want -1", e, e.Error(), c.Code())
			}
			if c.Error() != e.Error() || c.Message() != e.Error() {
				t.Fatalf("Cause(%T %q) has text %q", e, e.Error(), c.Error())
			}
			for _, b := range all {
				if EqualError(b, e) != (b.Code() == -1) {
					t.Fatalf("EqualError(%d, plain) = %v", b.Code(), EqualError(b, e))
				}
			}
		}
	}
	for _, b := range all {
		if EqualError(b, nil) != (b.Code() == 0) {
			t.Fatalf("EqualError(%d, nil) = %v", b.Code(), EqualError(b, nil))
		}
	}
	if c := String(""); c.Code() != 0 {
		t.Fatalf("String(\"\") has code %d", c.Code())
	}
	if c := String("e"); c.Code() != -1 || c.Error() != "e" {
		t.Fatalf("String(e) = %d %q", c.Code(), c.Error())
	}
	if c := Unknow(1, "x"); c.Code() != -1 {
		t.Fatalf("Unknow() has code %d", c.Code())
	}
}
