// Package osm is what the engine executes instead of the parts of package os which reach the operating system: files
// which are in memory, and a process which ends. Natively nothing of it is used.
package osm

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"time"
)

type node struct {
	name string
	data []byte
	mode fs.FileMode
}

type handle struct {
	f    *os.File
	n    *node
	pos  int
	flag int
	shut bool
}

var nodes []*node
var handles []*handle
var full bool
var stderr []byte
var temps int

var errNot = errors.New("no such file or directory")
var errExists = errors.New("file exists")
var errSpace = errors.New("no space left on device")
var errClosed = errors.New("file already closed")
var errInvalid = errors.New("invalid argument")

func failed(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func find(name string) *node {
	for _, n := range nodes {
		if n.name == name {
			return n
		}
	}
	return nil
}

func of(f *os.File) *handle {
	for _, h := range handles {
		if h.f == f {
			return h
		}
	}
	return nil
}

// what the harnesses ask for

func NewFile(content []byte) string {
	name := "/scratch/f" + string(rune('0'+len(nodes)))
	nodes = append(nodes, &node{name: name, data: append([]byte(nil), content...), mode: 0640})
	return name
}

func NoFile() string { return "/scratch/none" }

func FullDisk() { full = true }

func Content(name string) (string, bool) {
	n := find(name)
	if n == nil {
		return "", false
	}
	return string(n.data), true
}

func Mode(name string) int {
	n := find(name)
	if n == nil {
		return -1
	}
	return int(n.mode)
}

func Files() int { return len(nodes) }

type exit struct{ code int }

func RunMain(f func(), args ...string) (code int, msg bool) {
	os.Args = append([]string{"/scratch/tool"}, args...)
	os.Stdout, os.Stderr, os.Stdin = new(os.File), new(os.File), new(os.File)
	defer func() {
		r := recover()
		if e, ok := r.(exit); ok {
			code = e.code & 0xff
		} else if r != nil {
			code = 2 // a panic
			msg = true
			return
		}
		msg = len(stderr) > 0
	}()
	f()
	return 0, false
}

// package os

func Exit(code int) { panic(exit{code}) }

func LogPrint() { stderr = append(stderr, '!') }

func LogFatal() {
	LogPrint()
	Exit(1)
}

func ReadFile(name string) ([]byte, error) {
	n := find(name)
	if n == nil {
		return nil, failed("open", name, errNot)
	}
	return append([]byte{}, n.data...), nil
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, data)
	return err
}

func Open(name string) (*os.File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func Create(name string) (*os.File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func OpenFile(name string, flag int, perm fs.FileMode) (*os.File, error) {
	n := find(name)
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, failed("open", name, errNot)
		}
		n = &node{name: name, mode: perm &^ 022}
		nodes = append(nodes, n)
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, failed("open", name, errExists)
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	h := &handle{f: new(os.File), n: n, flag: flag}
	handles = append(handles, h)
	return h.f, nil
}

func CreateTemp(dir, pattern string) (*os.File, error) {
	temps++
	return OpenFile(dir+"/"+pattern+string(rune('0'+temps)), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func Rename(a, b string) error {
	n := find(a)
	if n == nil {
		return failed("rename", a, errNot)
	}
	if a != b {
		Remove(b)
		n.name = b
	}
	return nil
}

func Remove(name string) error {
	for i, n := range nodes {
		if n.name == name {
			var r []*node
			r = append(r, nodes[:i]...)
			nodes = append(r, nodes[i+1:]...)
			return nil
		}
	}
	return failed("remove", name, errNot)
}

func Chmod(name string, mode fs.FileMode) error {
	n := find(name)
	if n == nil {
		return failed("chmod", name, errNot)
	}
	n.mode = mode
	return nil
}

func Truncate(name string, size int64) error {
	n := find(name)
	if n == nil {
		return failed("truncate", name, errNot)
	}
	return truncate(n, size)
}

func truncate(n *node, size int64) error {
	for int64(len(n.data)) < size {
		n.data = append(n.data, 0)
	}
	n.data = n.data[:size:size]
	return nil
}

type info struct {
	name string
	size int64
	mode fs.FileMode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

func Stat(name string) (fs.FileInfo, error) {
	n := find(name)
	if n == nil {
		return nil, failed("stat", name, errNot)
	}
	return info{name, int64(len(n.data)), n.mode}, nil
}

// methods of *os.File

func FileStat(f *os.File) (fs.FileInfo, error) {
	h := of(f)
	if h == nil || h.shut {
		return nil, errClosed
	}
	return info{h.n.name, int64(len(h.n.data)), h.n.mode}, nil
}

func FileName(f *os.File) string {
	if h := of(f); h != nil {
		return h.n.name
	}
	return ""
}

func FileRead(f *os.File, b []byte) (int, error) {
	h := of(f)
	if h == nil || h.shut || h.flag&(os.O_WRONLY|os.O_RDWR) == os.O_WRONLY {
		return 0, errClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.pos >= len(h.n.data) {
		return 0, io.EOF
	}
	k := copy(b, h.n.data[h.pos:])
	h.pos += k
	return k, nil
}

func FileWrite(f *os.File, b []byte) (int, error) {
	if f == os.Stderr {
		stderr = append(stderr, b...)
		return len(b), nil
	}
	if f == os.Stdout {
		return len(b), nil
	}
	h := of(f)
	if h == nil || h.shut || h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, errClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	if full {
		return 0, failed("write", h.n.name, errSpace)
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = len(h.n.data)
	}
	var r []byte
	r = append(r, h.n.data...)
	for len(r) < h.pos {
		r = append(r, 0)
	}
	r = append(r[:h.pos:h.pos], b...)
	if len(r) < len(h.n.data) {
		r = append(r, h.n.data[len(r):]...)
	}
	h.n.data = r
	h.pos += len(b)
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileSeek(f *os.File, offset int64, whence int) (int64, error) {
	h := of(f)
	if h == nil || h.shut {
		return 0, errClosed
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		offset += int64(h.pos)
	default:
		offset += int64(len(h.n.data))
	}
	if offset < 0 {
		return 0, errInvalid
	}
	h.pos = int(offset)
	return offset, nil
}

func FileTruncate(f *os.File, size int64) error {
	h := of(f)
	if h == nil || h.shut || h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return errClosed
	}
	return truncate(h.n, size)
}

func FileClose(f *os.File) error {
	h := of(f)
	if h == nil || h.shut {
		return errClosed
	}
	h.shut = true
	return nil
}

func FileSync(f *os.File) error { return nil }

func FileChmod(f *os.File, mode fs.FileMode) error {
	h := of(f)
	if h == nil || h.shut {
		return errClosed
	}
	h.n.mode = mode
	return nil
}
