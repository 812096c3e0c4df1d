package jsonm

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"testing"
)

type raw []byte

func (r raw) MarshalJSON() ([]byte, error) { return r, nil }

type sink struct{ got []byte }

func (s *sink) UnmarshalJSON(b []byte) error { s.got = append([]byte{}, b...); return nil }

func TestModel(t *testing.T) {
	rand.Seed(1)
	pieces := []string{"a", "Z", "%", "&", "<", "\"", "\\", "\\n", "\\u00", "4", "1", "\\ud83d", "\\ude00", "\n", "\x7f", "\x80", "é", "\u2028", "😀", "\xff", " ", "/", "\\/", "'", "\\'", "\x00", "u", "{", "null", "\xed\xa0\x80", "\xc3"}
	for n := 0; n < 400000; n++ {
		s := ""
		for k := rand.Intn(6); k > 0; k-- {
			s += pieces[rand.Intn(len(pieces))]
		}
		w, err := json.Marshal(s)
		if err != nil || !bytes.Equal(w, EncodeString(s)) {
			t.Fatalf("encode %q: %q %q", s, w, EncodeString(s))
		}
		for _, d := range []string{`"` + s + `"`, " \"" + s + "\"\n", s} {
			var v string = "?"
			err := json.Unmarshal([]byte(d), &v)
			g, k := DecodeString([]byte(d))
			if (err != nil) != (k == 0) || (k == 1 && g != v) || (k == 2 && v != "?") {
				t.Fatalf("decode %q: %q %v; model %q %d", d, v, err, g, k)
			}
			if k != 0 {
				b, ok := TrimDoc([]byte(d))
				var sk sink
				if err := json.Unmarshal([]byte(d), &sk); (err == nil) != ok || !bytes.Equal(sk.got, b) {
					t.Fatalf("trim %q: %q %v; model %q", d, sk.got, err, b)
				}
				w, err := json.Marshal(raw(d))
				c, e2 := Compact([]byte(d))
				if (err != nil) != (e2 != nil) || !bytes.Equal(w, c) {
					t.Fatalf("compact %q: %q %v; model %q", d, w, err, c)
				}
			}
		}
	}
}
