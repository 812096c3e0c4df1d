package commands

import (
	"gen/removecomments"
	"gen/snake2camel"

	"vh/vx"
)

// C26: the build tools rewrite the file they are given, and say when they cannot

type command struct {
	main func()
	want func([]byte) []byte
	// the matcher has many ways to match
	apart bool
}

var commands = []command{
	{removecomments.VxMain, removecomments.VxWant, false},
	{snake2camel.VxMain, snake2camel.VxWant, true},
}

// text: ASCII
func text(pre string, n int, post string) []byte {
	b := vx.BytesMin(n, n)
	for i := 0; i < n; i++ {
		vx.Assume(b[i] < 0x80)
	}
	return append(append([]byte(pre), b...), post...)
}

// upTo: at most n characters
func upTo(n int) []byte {
	b := vx.Bytes(n)
	for i := range b {
		vx.Assume(b[i] < 0x80)
	}
	return b
}

func rewrites(c command, b []byte) {
	in := string(b)
	p, other := vx.File(b), vx.File([]byte("//line x\na_b\n"))
	mode := vx.Mode(p)
	vx.Apart(c.apart)
	code, msg := vx.RunMain(c.main, p)
	vx.Apart(false)
	got, ok := vx.Content(p)
	want := string(c.want([]byte(in)))
	vx.Reach("rewritten")
	vx.Assert(code == 0 && !msg, "a command reports a failure though there is none")
	vx.Assert(ok && got == want, "the file does not hold what was in it, rewritten")
	vx.Assert(vx.Mode(p) == mode, "the permissions of the file are others")
	got, _ = vx.Content(other)
	vx.Assert(got == "//line x\na_b\n", "another file is changed")
	vx.Assert(vx.Files() == 2, "a command leaves files behind")
}

func C26_remove() {
	rewrites(commands[0], text("//line a\n", vx.Bound(8, 10), "//line b\nc\xc3\xa9\n\xff"))
}
func C26_remove2()    { rewrites(commands[0], upTo(vx.Bound(10, 12))) }
func C26_removeonly() { rewrites(commands[0], append(text("", 2, "//line b"), upTo(4)...)) }
func C26_join()       { rewrites(commands[1], text("x ", vx.Bound(4, 5), "_c\nd\xc3\xa9 e_f1_gh\n\xff")) }
func C26_join2()      { rewrites(commands[1], upTo(vx.Bound(5, 6))) }

func refuses(c command, what string, paths []string, args ...string) {
	var before []string
	n := vx.Files()
	for _, p := range paths {
		s, _ := vx.Content(p)
		before = append(before, s)
	}
	code, msg := vx.RunMain(c.main, args...)
	vx.Reach(what)
	vx.Assert(code != 0, "a command does not report a failure: "+what)
	vx.Assert(msg, "a command does not say what failed: "+what)
	for i, p := range paths {
		s, ok := vx.Content(p)
		vx.Assert(ok && s == before[i], "a file is changed though the command failed: "+what)
	}
	vx.Assert(vx.Files() == n, "a command leaves files behind: "+what)
}

func C26_noargument() { refuses(commands[vx.Fork(vx.Int(0, 1))], "no argument", nil) }
func C26_arguments() {
	b := text("//line x\na_b\n", 2, "")
	p, q, r := vx.File(b), vx.File(b), vx.File(b)
	c := commands[vx.Fork(vx.Int(0, 1))]
	if vx.Fork(vx.Int(0, 1)) == 0 {
		refuses(c, "two arguments", []string{p, q, r}, p, q)
	} else {
		refuses(c, "three arguments", []string{p, q, r}, p, q, r)
	}
}
func C26_nofile() {
	p := vx.File(text("//line x\na_b\n", 2, ""))
	refuses(commands[vx.Fork(vx.Int(0, 1))], "no such file", []string{p}, vx.NoFile())
}
func C26_fulldisk() {
	p := vx.File([]byte("x\n//line x\na_b\n"))
	vx.FullDisk()
	code, msg := vx.RunMain(commands[vx.Fork(vx.Int(0, 1))].main, p)
	vx.Reach("nothing can be written")
	vx.Assert(code != 0, "a command does not report that it could not write")
	vx.Assert(msg, "a command does not say that it could not write")
}
