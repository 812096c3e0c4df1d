package removecomments

import (
	"strings"

	"vh/vx"
)

// C22: removecomments deletes line directives and nothing else

func vxSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r' }

const vxWord = "//line"

// vxOracle keeps the text line by line: what begins a line is either blank space, "//line" and the rest of that line,
// or kept up to the end of the first line which is not blank.
func vxOracle(s []byte) []byte {
	var out []byte
	for i := 0; i < len(s); {
		j := i
		for j < len(s) && vxSpace(s[j]) {
			j++
		}
		k := 0
		for k < len(vxWord) && j+k < len(s) && s[j+k] == vxWord[k] {
			k++
		}
		e := j
		for e < len(s) && s[e] != '\n' {
			e++
		}
		if e < len(s) {
			e++
		}
		if k < len(vxWord) {
			out = append(out, s[i:e]...)
		}
		i = e
	}
	return out
}

func vxC22(b []byte) {
	in := string(b)
	r := removeComments(b)
	w := vxOracle([]byte(in))
	if len(w) < len(in) {
		vx.Reach("text with line directives")
	} else {
		vx.Reach("text without line directives")
	}
	vx.Assert(string(r) == string(w), "another text than without its line directives")
	vx.Assert(string(removeComments(w)) == string(w), "something is left to remove")
}

func vxCat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func C22_short() { vxC22(vx.Bytes(vx.Bound(8, 10))) }
func C22_line() {
	vxC22(vxCat(vx.BytesMin(3, 3), []byte("//line"), vx.Bytes(vx.Bound(4, 6))))
}
func C22_word() {
	vxC22(vxCat([]byte("x\n\t/"), vx.BytesMin(5, 5), vx.Bytes(vx.Bound(4, 6))))
}
func C22_two() {
	vxC22(vxCat(vx.BytesMin(1, 1), []byte("//line a"), vx.BytesMin(2, 2), []byte("//line b"), vx.BytesMin(2, 2), []byte("c\n"), vx.Bytes(vx.Bound(1, 2))))
}
func C22_mid() {
	vxC22(vxCat([]byte("package x\n\nfunc f() {\n"), vx.BytesMin(3, 3), []byte("//line \"a.rl\":12"), vx.BytesMin(2, 2), []byte("\ty()\n}\n")))
}
func C22_tail() {
	vxC22(vxCat([]byte("x()\n"), vx.BytesMin(2, 2), []byte("\n"), vx.BytesMin(1, 1), []byte("//line"), vx.Bytes(vx.Bound(3, 5))))
}

// a line longer than the buffers of line readers
func C22_long() {
	vx.Steps(10000000)
	var b []byte
	b = append(b, "x //line\n"...)
	b = append(b, strings.Repeat("z/ /lin\t", 66000/8)...)
	b = append(b, "\n"...)
	vxC22(vxCat(b, vx.Bytes(2), []byte("//line\nu")))
}

// spacing of the sizes buffers and windows have, before what may be a directive and after it
func C22_blanks() {
	vx.Steps(10000000)
	n := 1<<vx.Fork(vx.Int(4, 12)) - 2
	vxC22(vxCat(vx.BytesMin(1, 1), []byte(strings.Repeat(" ", n)), vx.BytesMin(2, 2), []byte("//line b\n"), []byte(strings.Repeat(" \t", n/2)), vx.BytesMin(1, 1), []byte("//line c\nd")))
}
