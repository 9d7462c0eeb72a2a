// pkg: utils/file
package file

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

func TestVerifP33(t *testing.T) {
	dir := t.TempDir()
	contents := [][]byte{nil, {}, []byte("x"), []byte("{\"a\":1}"), bytes.Repeat([]byte("abc"), 5000), {0, 255, 10, 13}}
	for i, before := range contents {
		for j, dat := range contents {
			for _, exists := range []bool{false, true} {
				for k, w := range []func(string, []byte) error{
					func(p string, b []byte) error { WriteJSON(p, b); return nil },
					func(p string, b []byte) error { return SaveFile(b, p) },
				} {
					p := filepath.Join(dir, "f")
					os.Remove(p)
					if exists {
						os.WriteFile(p, before, 0644)
					}
					if Exist(p) != exists {
						t.Fatalf("Exist before writing: %v", Exist(p))
					}
					arg := append([]byte(nil), dat...)
					if err := w(p, arg); err != nil {
						t.Fatalf("write failed: %v", err)
					}
					got, err := os.ReadFile(p)
					if err != nil || !bytes.Equal(got, dat) {
						t.Fatalf("writer %d, old content %d (present %v), new content %d: file holds %d bytes (%v), want %d", k, i, exists, j, len(got), err, len(dat))
					}
					got, err = ReadFile(p)
					if err != nil || !bytes.Equal(got, dat) {
						t.Fatalf("ReadFile: %d bytes, %v, want %d", len(got), err, len(dat))
					}
				}
			}
		}
	}
	if err := SaveFile([]byte("x"), filepath.Join(dir, "no", "such", "dir")); err == nil {
		t.Fatal("SaveFile into a missing directory reports success")
	}
	if b, err := ReadFile(filepath.Join(dir, "nofile")); err == nil {
		t.Fatalf("ReadFile of a missing file: %v", b)
	}
	alpha := "a./\\"
	var rec func(s string, n int)
	rec = func(s string, n int) {
		ext, real := "", ""
		if i := strings.LastIndex(s, "."); i >= 0 {
			ext, real = s[i:], s[:i]
		}
		if GetFileExt(s) != ext || GetFileRealName(s) != real {
			t.Fatalf("%q: ext %q real %q, want %q %q", s, GetFileExt(s), GetFileRealName(s), ext, real)
		}
		if n > 0 {
			for _, c := range alpha {
				rec(s+string(c), n-1)
			}
		}
	}
	rec("", 6)
	rec("日本.語", 2)
}
