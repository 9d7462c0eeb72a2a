// pkg: lib/token
package token

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"math/rand"
	"strings"
	"testing"

	"github.com/golang-jwt/jwt"
)

func TestVerifP24(t *testing.T) {
	ids := []string{"a", "111", "id with space", "日本語", "\"quoted\"", "<&>", "null", strings.Repeat("x", 5000), "\u2028", ".", "a.b.c", " "}
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 300; i++ {
		n := 1 + r.Intn(12)
		var sb strings.Builder
		for j := 0; j < n; j++ {
			sb.WriteRune(rune(1 + r.Intn(0xd000)))
		}
		ids = append(ids, sb.String())
	}
	toks := []string{}
	for _, id := range ids {
		s, err := Create(id)
		if err != nil || s == "" {
			t.Fatalf("Create(%q) = %q, %v", id, s, err)
		}
		got, err := Parse(s)
		if err != nil || got != id {
			t.Fatalf("Parse(Create(%q)) = %q, %v", id, got, err)
		}
		toks = append(toks, s)
	}
	if s, err := Create(""); err == nil || s != "" {
		t.Fatalf("Create(\"\") = %q, %v", s, err)
	}
	reject := func(what, s string) {
		if id, err := Parse(s); err == nil || id != "" {
			t.Fatalf("%s accepted: Parse(%q) = %q, %v", what, s, id, err)
		}
	}
	reject("empty text", "")
	reject("garbage", "a.b.c")
	enc := base64.RawURLEncoding
	sign := func(h, p, key string) string {
		m := hmac.New(sha256.New, []byte(key))
		in := enc.EncodeToString([]byte(h)) + "." + enc.EncodeToString([]byte(p))
		m.Write([]byte(in))
		return in + "." + enc.EncodeToString(m.Sum(nil))
	}
	hs := `{"alg":"HS256","typ":"JWT"}`
	reject("foreign key", sign(hs, `{"EntityID":"x"}`, "other"))
	reject("empty identity", sign(hs, `{"EntityID":""}`, "token"))
	reject("missing identity", sign(hs, `{}`, "token"))
	reject("unsigned", enc.EncodeToString([]byte(`{"alg":"none","typ":"JWT"}`))+"."+enc.EncodeToString([]byte(`{"EntityID":"x"}`))+".")
	reject("unsigned, signature kept", enc.EncodeToString([]byte(`{"alg":"none","typ":"JWT"}`))+"."+strings.SplitN(toks[0], ".", 2)[1])
	for _, m := range []jwt.SigningMethod{jwt.SigningMethodHS256} {
		s, _ := jwt.NewWithClaims(m, jwt.MapClaims{"EntityID": "who"}).SignedString([]byte("token"))
		if id, err := Parse(s); err != nil || id != "who" {
			t.Fatalf("valid token rejected: %q %v", id, err)
		}
	}
	// any changed payload or signature byte
	for i := 0; i < 400; i++ {
		s := []byte(toks[r.Intn(12)%len(toks)])
		if len(s) > 400 {
			continue
		}
		dot := strings.IndexByte(string(s), '.')
		last := strings.LastIndexByte(string(s), '.')
		k := dot + 1 + r.Intn(len(s)-dot-2) // not the very last character: its low bits may be padding
		if k == last || k == last-1 {
			continue
		}
		c := byte('A')
		if s[k] == 'A' {
			c = 'B'
		}
		s[k] = c
		reject("altered token", string(s))
	}
}
