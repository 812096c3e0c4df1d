// Package vx is the vocabulary of the harnesses. The engine gives these functions a symbolic meaning; this file is
// their native meaning, used to replay the models of the solver on the real code.
package vx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"regexp"
	"strconv"
	"sync"
	"syscall"
)

// Input of one vx call in a model
type Input struct {
	Bytes []byte `json:"bytes"`
	Int   int    `json:"int"`
	Kind  string `json:"kind"`
}

var inputs []Input
var next int
var mu sync.Mutex

func init() {
	f := os.Getenv("VX_MODEL")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &inputs); err != nil {
		var r struct{ Model []Input }
		if json.Unmarshal(b, &r) != nil {
			panic(err)
		}
		inputs = r.Model
	}
}

func in(kind string) Input {
	if next >= len(inputs) {
		fmt.Println("VX-EXHAUSTED")
		os.Exit(5)
	}
	i := inputs[next]
	next++
	if i.Kind != kind {
		fmt.Println("VX-MISMATCH")
		os.Exit(5)
	}
	return i
}

// SetInputs replaces the inputs (native tests of the harness itself)
func SetInputs(is []Input) { inputs, next = is, 0 }

// Bytes gives a fresh slice of at most max arbitrary bytes.
func Bytes(max int) []byte { return fresh(in("bytes").Bytes) }

// BytesMin gives a fresh slice of min to max arbitrary bytes.
func BytesMin(min, max int) []byte { return fresh(in("bytes").Bytes) }

func fresh(b []byte) []byte {
	r := make([]byte, len(b))
	copy(r, b)
	return r[:len(b):len(b)]
}

func Byte() byte         { return byte(in("int").Int) }
func Int(lo, hi int) int { return in("int").Int }
func Bool() bool         { return in("int").Int != 0 }

// Fork explores every value of i separately.
func Fork(i int) int { return i }

// ForkStr explores every extent of s separately.
func ForkStr(s string) string { return s }

// Apart makes the engine explore every path by itself from here on, or no longer.
func Apart(on bool) {}

func Assume(c bool) {
	if !c {
		fmt.Println("VX-ASSUME")
		os.Exit(4)
	}
}

func Assert(c bool, msg string) {
	if !c {
		fmt.Println("VX-FAIL " + msg)
		os.Exit(3)
	}
}

// AssertKnown is Assert, except that a failure where known holds is the documented finding id.
func AssertKnown(c, known bool, id, msg string) {
	if c {
		return
	}
	if known {
		fmt.Println("VX-KNOWN " + id + " " + msg)
		os.Exit(6)
	}
	Assert(false, msg)
}

// Feasible is c; the engine asks the solver at once whether c can hold, to leave code alone which no input reaches.
func Feasible(c bool) bool { return c }

// Cut is a; the engine goes on with b, which the harness expects to be the same but simpler, if the solver shows that
// the two are always equal.
func Cut(a, b string) string { return a }

// Reach marks a point which some input must reach.
func Reach(msg string) { fmt.Println("VX-REACH " + msg) }

var maps [][]byte

// ReadOnly gives a copy of b, ending where a page ends, in memory which cannot be written.
func ReadOnly(b []byte) []byte {
	const pg = 4096
	n := (len(b) + pg) / pg * pg
	m, err := syscall.Mmap(-1, 0, n+pg, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	o := n - len(b)
	copy(m[o:], b)
	if err := syscall.Mprotect(m[:n], syscall.PROT_READ); err != nil {
		panic(err)
	}
	if err := syscall.Mprotect(m[n:], syscall.PROT_NONE); err != nil {
		panic(err)
	}
	maps = append(maps, m)
	return m[o:n:n]
}

// Writable makes slices given by ReadOnly writable again.
func Writable(b []byte) []byte {
	for _, m := range maps {
		n := len(m) - 4096
		if err := syscall.Mprotect(m[:n], syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
			panic(err)
		}
	}
	return b
}

// Shared declares that whatever v reaches is used by several concurrent calls.
func Shared(v interface{}) {}

// Concurrent runs f as one of many concurrent calls: natively several goroutines do so at once (under the race detector).
func Concurrent(f func()) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for k := 0; k < 20; k++ {
				f()
			}
		}()
	}
	close(start)
	wg.Wait()
}

func Bound(quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	} else if os.Getenv("VERIF_TIER") == "small" {
		return (quick + 1) / 2
	}
	return quick
}

// Files: the harnesses have files in memory, and run the main function of a command; natively these are a scratch
// directory and a process of its own (the same program, which comes to the same RunMain again and runs it).

var files int
var full bool
var runs int

func dir() string {
	d := os.Getenv("VX_DIR")
	if d == "" {
		w, err := os.Getwd()
		if err == nil {
			d, err = os.MkdirTemp(w, "vxfiles")
		}
		if err != nil {
			panic(err)
		}
		os.Setenv("VX_DIR", d)
	}
	return d
}

// File gives the path of a new file.
func File(content []byte) string {
	p := fmt.Sprintf("%s/f%d", dir(), files)
	files++
	if os.Getenv("VX_RUN") == "" {
		if err := os.WriteFile(p, content, 0640); err != nil {
			panic(err)
		}
	}
	return p
}

// NoFile gives a path where there is no file.
func NoFile() string { return dir() + "/none" }

// Content gives what is in a file, and whether there is one.
func Content(path string) (string, bool) {
	b, err := os.ReadFile(path)
	return string(b), err == nil
}

// Mode gives the permissions of a file, -1 when there is none.
func Mode(path string) int {
	i, err := os.Stat(path)
	if err != nil {
		return -1
	}
	return int(i.Mode().Perm())
}

// Files gives the number of files.
func Files() int {
	es, err := os.ReadDir(dir())
	if err != nil {
		panic(err)
	}
	return len(es)
}

// FullDisk makes the writes of commands fail.
func FullDisk() { full = true }

// RunMain runs a command with these arguments; it gives its exit status and whether it wrote to its standard error.
func RunMain(f func(), args ...string) (int, bool) {
	runs++
	me := strconv.Itoa(runs)
	if r := os.Getenv("VX_RUN"); r == me {
		os.Args = append([]string{"tool"}, args...)
		if full {
			signal.Ignore(syscall.SIGXFSZ)
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 0, Max: 0}); err != nil {
				panic(err)
			}
		}
		f()
		os.Exit(0)
	} else if r != "" {
		return 0, false // an earlier one
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VX_DIR="+dir(), "VX_RUN="+me)
	var e bytes.Buffer
	cmd.Stderr = &e
	err := cmd.Run()
	if err != nil && cmd.ProcessState == nil {
		panic(err)
	}
	return cmd.ProcessState.ExitCode(), e.Len() > 0
}

// Steps sets the number of steps (basic blocks entered on a path) beyond which the engine reports that a path does not end
func Steps(n int) {}

func Note(s string) {}

var colRe = regexp.MustCompile(`^(.*)\[col (-?\d+)\]$`)

// ErrInfo splits the message of an error into its class (the message without the column) and the column.
func ErrInfo(err error) (string, int) {
	if err == nil {
		return "", -1
	}
	m := colRe.FindStringSubmatch(err.Error())
	if m == nil {
		return err.Error(), -2
	}
	n, _ := strconv.Atoi(m[2])
	return m[1] + "[col %d]", n
}

// Same tells whether two error values are the same one.
func Same(a, b error) bool { return a == b }
