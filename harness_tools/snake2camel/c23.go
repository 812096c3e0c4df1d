package snake2camel

import (
	"strings"

	"vh/vx"
)

// C23: snake2camel joins snake-case words and nothing else

func vxLower(c byte) bool { return c >= 'a' && c <= 'z' }
func vxDigit(c byte) bool { return c >= '0' && c <= '9' }
func vxAlnum(c byte) bool { return vxLower(c) || vxDigit(c) || c >= 'A' && c <= 'Z' }

// vxJoint says whether there is an underscore to take at k
func vxJoint(s []byte, k int) bool {
	if s[k] != '_' || k+1 >= len(s) || !vxAlnum(s[k+1]) {
		return false
	}
	j := k - 1
	for j >= 0 && vxDigit(s[j]) {
		j--
	}
	return j >= 0 && vxLower(s[j])
}

// vxLine rewrites one line
func vxLine(s []byte) []byte {
	for {
		k := len(s) - 1
		for k >= 0 && !vxJoint(s, k) {
			k--
		}
		if k < 0 {
			return s
		}
		c := s[k+1]
		if vxLower(c) {
			c -= 32
		}
		t := append([]byte(nil), s[:k]...)
		t = append(t, c)
		s = append(t, s[k+2:]...)
	}
}

func vxOracle(s []byte) []byte {
	var out []byte
	i := 0
	for j := 0; j <= len(s); j++ {
		if j == len(s) || s[j] == '\n' {
			out = append(out, vxLine(s[i:j])...)
			if j < len(s) {
				out = append(out, '\n')
			}
			i = j + 1
		}
	}
	return out
}

func vxC23(b []byte) {
	in := string(b)
	vx.Apart(true)
	r := snake2camel(b)
	vx.Apart(false)
	w := vxOracle([]byte(in))
	if len(w) < len(in) {
		vx.Reach("text with words to join")
	}
	vx.Assert(string(r) == string(w), "another text than with its words joined")
	vx.Apart(true)
	again := snake2camel(w)
	vx.Apart(false)
	vx.Assert(string(again) == string(w), "something is left to join")
}

func vxCat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// vxText: n ASCII characters
func vxText(n int) []byte {
	b := vx.BytesMin(n, n)
	for i := 0; i < n; i++ {
		vx.Assume(b[i] < 0x80)
	}
	return b
}

// vxMany: more words than any fixed number of rounds would join
func vxMany(n int) []byte {
	var r []byte
	for i := 0; i < n; i++ {
		r = append(r, 'a'+byte(i%26), '_')
	}
	return r
}

func C23_short() { vxC23(vxText(vx.Bound(6, 8))[:vx.Fork(vx.Int(0, vx.Bound(6, 8)))]) }
func C23_bytes() { vxC23(vxCat([]byte("a_b"), vx.Bytes(2))) }
func C23_mid()   { vxC23(vxCat([]byte("a"), vx.BytesMin(2, 2), []byte("_b\xc3\xa9_c"))) }
func C23_word()  { vxC23(vxCat([]byte("a_"), vxText(vx.Bound(6, 8)))) }
func C23_digits() {
	vxC23(vxCat([]byte("s1"), vxText(vx.Bound(4, 5)), []byte("_2"), vxText(2)))
}
func C23_lines() {
	vxC23(vxCat([]byte("a_b"), vxText(vx.Bound(4, 5)), []byte("c_d"), vxText(vx.Bound(1, 2))))
}
func C23_code() {
	vxC23(vxCat([]byte("goto st_case_"), vxText(vx.Bound(3, 4)), []byte("\n\tgoto _test_eof"), vxText(2)))
}
func C23_many() {
	vxC23(vxCat(vxMany(vx.Bound(20, 40)), vxText(2), vxMany(4)))
}
func C23_many_lines() {
	var b []byte
	for i := 0; i < vx.Bound(8, 16); i++ {
		b = append(b, "x1_yz\n"...)
	}
	vxC23(vxCat(b, vxText(2), []byte("_0\r\nq_")))
}

// a line longer than the buffers of line readers
func C23_long() {
	vx.Steps(10000000)
	vxC23(vxCat([]byte("a_b "), []byte(strings.Repeat("z9 +A=; ", 66000/8)), vxText(1), []byte("_c\nd"), vxText(1), []byte("e")))
}
