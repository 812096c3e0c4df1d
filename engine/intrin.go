package main

import (
	"fmt"
	"go/types"
	"os"
	"regexp"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrFn func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret

var intrCache = map[*ssa.Function]intrFn{}
var intrSeen = map[*ssa.Function]bool{}

// stubNames: library functions replaced by a model, for the evidence
var stubUsed = map[string]int{}

func (x *Exec) intrinsic(fn *ssa.Function) intrFn {
	if !intrSeen[fn] {
		intrSeen[fn] = true
		intrCache[fn] = x.findIntrinsic(fn)
	}
	f := intrCache[fn]
	if f != nil {
		stubUsed[fn.String()]++
	}
	return f
}

func (x *Exec) findIntrinsic(fn *ssa.Function) intrFn {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f, ok := intrTable[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "vh/vx.") {
		if f, ok := vxTable[strings.TrimPrefix(name, "vh/vx.")]; ok {
			return f
		}
	}
	if strings.HasPrefix(name, "sync/atomic.") && fn.Blocks == nil {
		return atomicFn(strings.TrimPrefix(name, "sync/atomic."))
	}
	if strings.HasPrefix(name, "internal/runtime/atomic.") && fn.Blocks == nil {
		return nil
	}
	if fn.Pkg != nil {
		switch p := fn.Pkg.Pkg.Path(); p {
		case "log", "runtime/debug", "testing":
			return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
				x.fail("call of %s", fn.String())
				return nil
			}
		case "runtime":
			switch fn.Name() {
			case "KeepAlive", "GC", "Gosched":
				return nop
			}
		}
	}
	return nil
}

func nop(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return one(fs.st, nil)
	case 1:
		return one(fs.st, zeroValue(res.At(0).Type()))
	}
	return one(fs.st, zeroValue(res))
}

// nested calls from an intrinsic; held values stay valid during the call
func (x *Exec) nested(fr *frame, fs *fstate, st State, fn *ssa.Function, args []Value, held ...Value) []ret {
	f2 := fs.clone()
	f2.st = st
	fr2 := *fr
	fr2.roots = append(append([]Value(nil), fr.roots...), held...)
	return x.callValue(&fr2, f2, fn, nil, args, nil)
}

// then continues each normal result
func then(rs []ret, k func(st State, v Value) []ret) []ret {
	var out []ret
	for _, r := range rs {
		if r.pan != nil {
			out = append(out, r)
			continue
		}
		out = append(out, k(r.st, r.val)...)
	}
	return out
}

func (x *Exec) iface(st *State, v Value) Iface {
	i, ok := v.(Iface)
	if !ok {
		x.fail("expected an interface value, got %T", v)
	}
	return i
}

func (x *Exec) str(v Value) *Str {
	s, ok := v.(*Str)
	if !ok {
		x.fail("expected a string, got %T", v)
	}
	return s
}

// strOrBytes gives the alternatives of a string or byte slice argument
func (x *Exec) strOrBytes(st *State, v Value) *Str {
	switch y := v.(type) {
	case *Str:
		return y
	case Slice:
		return x.bytesToStr(st, y)
	}
	x.fail("expected text, got %T", v)
	return nil
}

// foreachAlt builds a value of width w from every alternative
func (x *Exec) selAlts(st *State, s *Str, w uint8, f func(a strAlt) *Term) *Term {
	var gs, ts []*Term
	for _, a := range x.plain(st, s) {
		gs = append(gs, a.g)
		ts = append(ts, f(a))
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return guardedTerms(gs, ts)
}

func (x *Exec) selAlts2(st *State, s, t *Str, f func(a, b strAlt) *Term) *Term {
	var gs, ts []*Term
	pb := x.plain(st, t)
	for _, a := range x.plain(st, s) {
		da := st.pc.dom.under(a.g, len(pb))
		if da == nil {
			continue
		}
		for _, b := range pb {
			if da.eval(b.g) == 0 {
				continue
			}
			g := mkAnd(a.g, b.g)
			if st.pc.dom.eval(g) == 0 {
				continue
			}
			gs = append(gs, g)
			ts = append(ts, f(a, b))
		}
	}
	if len(ts) == 0 {
		x.fail("no string alternatives")
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return guardedTerms(gs, ts)
}

// firstIndex: smallest i with conds[i], else -1
func firstIndex(conds []*Term, idx []int) *Term {
	var ls []leafG
	rest := True
	for k, c := range conds {
		if c == False {
			continue
		}
		ls = append(ls, leafG{mkInt(idx[k]), mkAnd(rest, c)})
		rest = mkAnd(rest, mkNot(c))
		if rest == False {
			break
		}
	}
	if rest != False {
		ls = append(ls, leafG{mkInt(-1), rest})
	}
	return mkSel(64, ls)
}

func matchAt(a strAlt, i int, b strAlt) *Term {
	if i+b.n > a.n {
		return False
	}
	var as []*Term
	for k := 0; k < b.n; k++ {
		e := mkEq(a.at(i+k), b.at(k))
		if e == False {
			return False
		}
		as = append(as, e)
	}
	return mkAnd(as...)
}

func (x *Exec) indexOf(st *State, s, sub *Str, last bool) *Term {
	return x.selAlts2(st, s, sub, func(a, b strAlt) *Term {
		var cs []*Term
		var is []int
		for i := 0; i+b.n <= a.n; i++ {
			cs = append(cs, matchAt(a, i, b))
			is = append(is, i)
		}
		if last {
			for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
				cs[i], cs[j] = cs[j], cs[i]
				is[i], is[j] = is[j], is[i]
			}
		}
		return firstIndex(cs, is)
	})
}

func (x *Exec) indexByte(st *State, s *Str, c *Term, last bool) *Term {
	return x.selAlts(st, s, 64, func(a strAlt) *Term {
		var cs []*Term
		var is []int
		for k := 0; k < a.n; k++ {
			i := k
			if last {
				i = a.n - 1 - k
			}
			cs = append(cs, mkEq(a.at(i), c))
			is = append(is, i)
		}
		return firstIndex(cs, is)
	})
}

func lowerByte(t *Term) *Term {
	up := mkAnd(mkNot(mkUlt(t, mkConst(8, 'A'))), mkUlt(t, mkConst(8, 'Z'+1)))
	return mkIte(up, mkAdd(t, mkConst(8, 32)), t)
}

func upperByte(t *Term) *Term {
	lo := mkAnd(mkNot(mkUlt(t, mkConst(8, 'a'))), mkUlt(t, mkConst(8, 'z'+1)))
	return mkIte(lo, mkSub(t, mkConst(8, 32)), t)
}

// asciiStr splits off the states where the string has a non-ASCII byte
func (x *Exec) asciiStr(st *State, s *Str, what string) bool {
	var bad []*Term
	for _, a := range x.plain(st, s) {
		var cs []*Term
		for i := 0; i < a.n; i++ {
			c := mkUlt(a.at(i), mkConst(8, 128))
			if st.pc.dom.eval(c) == 1 {
				continue
			}
			cs = append(cs, mkNot(c))
		}
		if len(cs) > 0 {
			bad = append(bad, mkAnd(a.g, mkOr(cs...)))
		}
	}
	if len(bad) == 0 {
		return true
	}
	b := mkOr(bad...)
	s2 := *st
	if pc := st.pc.add(b); pc != nil {
		s2.pc = pc
		x.obl("unsupported", s2, True, "non-ASCII text in "+what)
	}
	pc := st.pc.add(mkNot(b))
	if pc == nil {
		return false
	}
	st.pc = pc
	return true
}

func (x *Exec) mapBytes(st *State, s *Str, f func(*Term) *Term) *Str {
	type seg struct {
		v *Vec
	}
	cache := map[*Vec]*Vec{}
	var alts []strAlt
	for _, a := range x.plain(st, s) {
		nv, ok := cache[a.vec]
		if !ok {
			b := make([]*Term, len(a.vec.b))
			for i, t := range a.vec.b {
				if t == nil {
					continue
				}
				b[i] = f(t)
			}
			nv = internVec(b)
			cache[a.vec] = nv
		}
		b := a
		b.vec = nv
		alts = append(alts, b)
	}
	return normAlts(alts)
}

func caseIntrinsic(f func(*Term) *Term, what string) intrFn {
	return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
		st := fs.st
		if s, ok := args[0].(*Str); ok {
			if !x.asciiStr(&st, s, what) {
				return nil
			}
			return one(st, x.mapBytes(&st, s, f))
		}
		s := x.strOrBytes(&st, args[0])
		if !x.asciiStr(&st, s, what) {
			return nil
		}
		return one(st, x.strToBytes(&st, x.mapBytes(&st, s, f)))
	}
}

// inMap: strings.Map and bytes.Map with a function of its argument alone which keeps ASCII characters ASCII
func inMap(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	st := fs.st
	tab := x.runeTable(fr, fs, args[0])
	if tab == nil {
		return x.callBody(fr, fs, fn, args)
	}
	f := func(t *Term) *Term {
		if t.op == OConst {
			return mkConst(8, tab[t.val&127])
		}
		if t.op == OTab {
			return mkTabV(t.v, 8, func(k int) uint64 { return tab[t.tab[k]&127] })
		}
		r := t
		for b := 0; b < 128; {
			d := tab[b] - uint64(b)
			e := b
			for e+1 < 128 && tab[e+1]-uint64(e+1) == d {
				e++
			}
			if d != 0 {
				r = mkIte(rangeT(t, b, e), mkAdd(t, mkConst(8, d&255)), r)
			}
			b = e + 1
		}
		return r
	}
	if s, ok := args[1].(*Str); ok {
		if !x.asciiStr(&st, s, "Map") {
			return nil
		}
		return one(st, x.mapBytes(&st, s, f))
	}
	s := x.strOrBytes(&st, args[1])
	if !x.asciiStr(&st, s, "Map") {
		return nil
	}
	return one(st, x.strToBytes(&st, x.mapBytes(&st, s, f)))
}

// runeTable runs a function from characters to characters on the ASCII ones; nil if it may do anything but return an
// ASCII character
func (x *Exec) runeTable(fr *frame, fs *fstate, v Value) []uint64 {
	f, ok := v.(Func)
	if !ok || f.fn == nil || !pureFn(f.fn, 0) {
		return nil
	}
	r := make([]uint64, 128)
	for b := range r {
		rs := x.callValue(fr, fs, f.fn, f.binds, []Value{mkConst(32, uint64(b))}, nil)
		if len(rs) != 1 || rs[0].pan != nil {
			return nil
		}
		t, ok := rs[0].val.(*Term)
		if !ok || t.op != OConst || t.val >= 128 {
			return nil
		}
		r[b] = t.val
	}
	return r
}

// pureFn says whether a function neither writes memory nor allocates any
func pureFn(f *ssa.Function, depth int) bool {
	if f.Blocks == nil || depth > 4 {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch y := i.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeChan, *ssa.MakeInterface, *ssa.Range, *ssa.Select:
				return false
			case *ssa.Call:
				if _, ok := y.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				c := y.Call.StaticCallee()
				if c == nil || !pureFn(c, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

// asciiNoKS: concrete ASCII text without the letters which fold to non-ASCII ones
func asciiNoKS(s *Str) bool {
	t, ok := s.concrete()
	if !ok {
		return false
	}
	for i := 0; i < len(t); i++ {
		if t[i] >= 128 || strings.IndexByte("kKsS", t[i]) >= 0 {
			return false
		}
	}
	return true
}

func inEqualFold(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	st := fs.st
	a, b := x.strOrBytes(&st, args[0]), x.strOrBytes(&st, args[1])
	if !asciiNoKS(a) && !asciiNoKS(b) {
		if !x.asciiStr(&st, a, "EqualFold") || !x.asciiStr(&st, b, "EqualFold") {
			return nil
		}
	}
	return one(st, x.strEq(&st, x.mapBytes(&st, a, lowerByte), x.mapBytes(&st, b, lowerByte)))
}

func intrStr1(f func(x *Exec, st *State, s *Str, args []Value) Value) intrFn {
	return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
		st := fs.st
		return one(st, f(x, &st, x.strOrBytes(&st, args[0]), args))
	}
}

var intrTable map[string]intrFn

func init() {
	idx := func(last bool) intrFn {
		return intrStr1(func(x *Exec, st *State, s *Str, args []Value) Value {
			return x.indexOf(st, s, x.strOrBytes(st, args[1]), last)
		})
	}
	idxB := func(last bool) intrFn {
		return intrStr1(func(x *Exec, st *State, s *Str, args []Value) Value {
			return x.indexByte(st, s, args[1].(*Term), last)
		})
	}
	cntB := intrStr1(func(x *Exec, st *State, s *Str, args []Value) Value {
		return x.selAlts(st, s, 64, func(a strAlt) *Term {
			r := zInt
			for i := 0; i < a.n; i++ {
				r = mkAdd(r, mkIte(mkEq(a.at(i), args[1].(*Term)), mkInt(1), zInt))
			}
			return r
		})
	})
	cmp := intrStr1(func(x *Exec, st *State, s *Str, args []Value) Value {
		t := x.strOrBytes(st, args[1])
		return x.selAlts2(st, s, t, func(a, b strAlt) *Term {
			return mkIte(bytesLess(a, b), mkInt(-1), mkIte(x.altEq(st, a, b), zInt, mkInt(1)))
		})
	})
	intrTable = map[string]intrFn{
		"strings.ToLower":   caseIntrinsic(lowerByte, "ToLower"),
		"strings.ToUpper":   caseIntrinsic(upperByte, "ToUpper"),
		"bytes.ToLower":     caseIntrinsic(lowerByte, "ToLower"),
		"bytes.ToUpper":     caseIntrinsic(upperByte, "ToUpper"),
		"strings.Map":       inMap,
		"bytes.Map":         inMap,
		"strings.EqualFold": inEqualFold,
		"bytes.EqualFold":   inEqualFold,
		"strings.Index":     idx(false),
		"strings.LastIndex": idx(true),
		"bytes.Index":       idx(false),
		"bytes.LastIndex":   idx(true),

		"strings.IndexByte":                    idxB(false),
		"strings.LastIndexByte":                idxB(true),
		"bytes.IndexByte":                      idxB(false),
		"bytes.LastIndexByte":                  idxB(true),
		"internal/bytealg.IndexByte":           idxB(false),
		"internal/bytealg.IndexByteString":     idxB(false),
		"internal/bytealg.LastIndexByte":       idxB(true),
		"internal/bytealg.LastIndexByteString": idxB(true),
		"internal/bytealg.Index":               idx(false),
		"internal/bytealg.IndexString":         idx(false),
		"internal/bytealg.Count":               cntB,
		"internal/bytealg.CountString":         cntB,
		"internal/bytealg.Compare":             cmp,
		"internal/bytealg.CompareString":       cmp,
		"internal/bytealg.MakeNoZero": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			n := st.pc.dom.simp(args[0].(*Term))
			max := 0
			for _, c := range x.choices(&st, n, "buffer size") {
				if int(c.leaf.val) > max {
					max = int(c.leaf.val)
				}
			}
			if max > 1<<20 {
				x.fail("huge buffer")
			}
			b := make([]*Term, max)
			for i := range b {
				b[i] = mkConst(8, 0)
			}
			return one(st, Slice{x.allocBytes(&st, b), zInt, n, n})
		},
		"bytes.Equal": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			return one(st, x.strEq(&st, x.strOrBytes(&st, args[0]), x.strOrBytes(&st, args[1])))
		},
		"bytes.Compare":                cmp,
		"strings.Compare":              cmp,
		"(*strings.Builder).copyCheck": nop,
		"internal/stringslite.Clone":   intrStr1(func(x *Exec, st *State, s *Str, a []Value) Value { return x.bytesToStr(st, x.strToBytes(st, s)) }),
		"strings.Clone":                intrStr1(func(x *Exec, st *State, s *Str, a []Value) Value { return x.bytesToStr(st, x.strToBytes(st, s)) }),
		"internal/race.ReadObjectPC":   nop,
		"strconv.Itoa": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			return one(st, x.itoa(&st, args[0].(*Term), true))
		},
		"(*sync.Mutex).Lock":      lockFn(1),
		"(*sync.Mutex).Unlock":    lockFn(-1),
		"(*sync.RWMutex).Lock":    lockFn(1),
		"(*sync.RWMutex).Unlock":  lockFn(-1),
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.Pool).Get":        inPoolGet,
		"(*sync.Pool).Put":        inPoolPut,
		"fmt.Errorf":              inErrorf,
		"fmt.Sprintf":             inSprintf,
		"fmt.Sprint":              inSprint(false),
		"fmt.Sprintln":            inSprint(true),
		"fmt.Println":             nop,
		"fmt.Printf":              nop,
		"fmt.Print":               nop,
		"fmt.Fprintf":             inFprint("printf"),
		"fmt.Fprintln":            inFprint("println"),
		"fmt.Fprint":              inFprint("print"),
		"errors.Is":               inErrorsIs,
		"encoding/json.Marshal":   inMarshal,
		"encoding/json.Unmarshal": inUnmarshal,
		"encoding/json.Valid":     inValid,
		"os.Exit":                 osm("Exit"), "os.ReadFile": osm("ReadFile"), "os.WriteFile": osm("WriteFile"), "os.Open": osm("Open"), "os.Create": osm("Create"),
		"os.OpenFile": osm("OpenFile"), "os.CreateTemp": osm("CreateTemp"), "os.Rename": osm("Rename"), "os.Remove": osm("Remove"), "os.Chmod": osm("Chmod"),
		"os.Truncate": osm("Truncate"), "os.Stat": osm("Stat"), "os.Lstat": osm("Stat"), "log.SetFlags": nop,
		"log.SetPrefix": nop,
		"log.Print":     osm("LogPrint"),
		"log.Printf":    osm("LogPrint"),
		"log.Println":   osm("LogPrint"),
		"log.Fatal":     osm("LogFatal"), "log.Fatalf": osm("LogFatal"), "log.Fatalln": osm("LogFatal"),
		"io/ioutil.ReadFile": osm("ReadFile"), "io/ioutil.WriteFile": osm("WriteFile"),
		"(*os.File).Read": osm("FileRead"), "(*os.File).Write": osm("FileWrite"), "(*os.File).WriteString": osm("FileWriteString"), "(*os.File).Seek": osm("FileSeek"),
		"(*os.File).Truncate": osm("FileTruncate"), "(*os.File).Close": osm("FileClose"), "(*os.File).Sync": osm("FileSync"), "(*os.File).Chmod": osm("FileChmod"),
		"(*os.File).Stat": osm("FileStat"), "(*os.File).Name": osm("FileName"),
		"regexp.MustCompile":         inRegexpCompile(true),
		"regexp.Compile":             inRegexpCompile(false),
		"(*regexp.Regexp).doExecute": inDoExecute,
		"(*regexp.Regexp).find":      inDoExecute,
		"(*regexp.Regexp).String":    inRegexpString,
		"(*regexp.Regexp).NumSubexp": inRegexpNumSubexp,
		"os.Getenv": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			return one(fs.st, litStr(""))
		},
		"reflect.DeepEqual": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			x.fail("reflect.DeepEqual")
			return nil
		},
	}
	for _, w := range []string{"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		intrTable[w] = nop
	}
}

func lockFn(d int) intrFn {
	return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
		st := fs.st
		st.lock += d
		return one(st, nil)
	}
}

func atomicFn(name string) intrFn {
	typOf := func(fn *ssa.Function) types.Type { return deref(fn.Signature.Params().At(0).Type()) }
	raw := func(x *Exec, st *State, p Ptr, v Value, t types.Type) {
		st.lock++
		x.store(st, p, v, t)
		st.lock--
	}
	fix := func(x *Exec, v Value) Ptr {
		p, ok := v.(Ptr)
		if !ok {
			x.fail("atomic operation on %T", v)
		}
		if p.off == nil {
			p.off = zInt
		}
		return p
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			return one(st, x.load(&st, fix(x, args[0]), typOf(fn)))
		}
	case strings.HasPrefix(name, "Store"):
		return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			raw(x, &st, fix(x, args[0]), args[1], typOf(fn))
			return one(st, nil)
		}
	case strings.HasPrefix(name, "Add"):
		return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			p := fix(x, args[0])
			v := mkAdd(x.load(&st, p, typOf(fn)).(*Term), args[1].(*Term))
			raw(x, &st, p, v, typOf(fn))
			return one(st, v)
		}
	case strings.HasPrefix(name, "Swap"):
		return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			p := fix(x, args[0])
			v := x.load(&st, p, typOf(fn))
			raw(x, &st, p, args[1], typOf(fn))
			return one(st, v)
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			p := fix(x, args[0])
			c := x.eqVals(&st, x.load(&st, p, typOf(fn)), args[1], typOf(fn))
			var out []ret
			if pc := st.pc.add(c); pc != nil {
				s1 := st
				s1.pc = pc
				raw(x, &s1, p, args[2], typOf(fn))
				out = append(out, ret{st: s1, val: True})
			}
			if pc := st.pc.add(mkNot(c)); pc != nil {
				s1 := st
				s1.pc = pc
				out = append(out, ret{st: s1, val: False})
			}
			return out
		}
	}
	return nil
}

// sync.Pool: behaves as in a single goroutine without garbage collection: the last object put is handed out again
func inPoolGet(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	st := fs.st
	p := args[0].(Ptr)
	o := x.obj(&st, p.obj)
	base := int(p.off.val)
	pt := deref(fn.Signature.Recv().Type())
	s := pt.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "local" {
			if v, ok := o.slots[base+fieldOff(s, i)].(Iface); ok && v.typ != nil {
				st.lock++
				no := *o
				no.slots = append([]Value(nil), o.slots...)
				no.slots[base+fieldOff(s, i)] = Ptr{}
				x.setObj(&st, p.obj, &no)
				st.lock--
				return one(st, v)
			}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "New" {
			f, _ := o.slots[base+fieldOff(s, i)].(Func)
			if f.fn == nil {
				return one(st, Iface{})
			}
			f2 := fs.clone()
			f2.st = st
			return x.callValue(fr, f2, f.fn, f.binds, nil, nil)
		}
	}
	x.fail("sync.Pool layout")
	return nil
}

func inPoolPut(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	st := fs.st
	p := args[0].(Ptr)
	o := x.obj(&st, p.obj)
	base := int(p.off.val)
	s := deref(fn.Signature.Recv().Type()).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "local" {
			no := *o
			no.slots = append([]Value(nil), o.slots...)
			no.slots[base+fieldOff(s, i)] = args[1]
			x.setObj(&st, p.obj, &no)
			return one(st, nil)
		}
	}
	x.fail("sync.Pool layout")
	return nil
}

// ---------- formatting

type fmtPart struct {
	lit  string
	s    *Str
	n    *Term
	sign bool
}

func (x *Exec) itoa(st *State, t *Term, signed bool) *Str {
	var ss []*Str
	var gs []*Term
	for _, c := range x.choices(st, t, "number to format") {
		var s string
		if signed {
			s = strconv.FormatInt(sext(c.leaf.val, t.w), 10)
		} else {
			s = strconv.FormatUint(c.leaf.val, 10)
		}
		ss = append(ss, litStr(s))
		gs = append(gs, c.g)
	}
	if len(ss) == 1 {
		return ss[0]
	}
	return guardedStrs(gs, ss)
}

func (x *Exec) expandFmt(st *State, f *FmtAlt) *Str {
	r := litStr("")
	for _, p := range f.parts {
		var s *Str
		switch {
		case p.n != nil:
			s = x.itoa(st, p.n, p.sign)
		case p.s != nil:
			s = p.s
		default:
			s = litStr(p.lit)
		}
		r = x.strConcat(st, r, s)
	}
	return r
}

func strKey(s *Str) string {
	var sb strings.Builder
	for _, a := range s.alts {
		fmt.Fprintf(&sb, "%d?%s;", a.g.id, altKey(a))
	}
	return sb.String()
}

// formatArgs evaluates a format call into parts; k receives them
func (x *Exec) formatTo(fr *frame, fs *fstate, format *Str, va Value, k func(st State, f *FmtAlt, werr Value) []ret) []ret {
	st := fs.st
	fstr, ok := format.concrete()
	if !ok {
		// several possible formats: fork
		al := x.plain(&st, format)
		var out []ret
		for _, a := range al {
			pc := st.pc.add(a.g)
			if pc == nil {
				continue
			}
			b := a
			b.g = True
			one := &Str{alts: []strAlt{b}}
			f2 := fs.clone()
			f2.st = st
			f2.st.pc = pc
			if _, ok := one.concrete(); !ok {
				// symbolic bytes which are not '%' stand for themselves
				var pct []*Term
				var sb strings.Builder
				for i := 0; i < a.n; {
					if c := f2.st.pc.dom.simp(a.at(i)); c.op == OConst {
						sb.WriteByte(byte(c.val))
						i++
						continue
					}
					if i > 0 && strings.HasSuffix(strings.ReplaceAll(sb.String(), "%%", ""), "%") {
						x.fail("symbolic verb in a format string")
					}
					var run []*Term
					for ; i < a.n; i++ {
						c := f2.st.pc.dom.simp(a.at(i))
						if c.op == OConst {
							break
						}
						run = append(run, c)
						pct = append(pct, mkEq(c, mkConst(8, '%')))
					}
					sb.WriteString("%\x00" + strconv.Itoa(len(x.fmtRuns)) + "\x00")
					x.fmtRuns = append(x.fmtRuns, vecStr(run))
				}
				if p := mkOr(pct...); p != False {
					s2 := f2.st
					if pc := s2.pc.add(p); pc != nil {
						s2.pc = pc
						x.obl("unsupported", s2, True, "a format string with %% in its symbolic part")
					}
					pc := f2.st.pc.add(mkNot(p))
					if pc == nil {
						continue
					}
					f2.st.pc = pc
				}
				one = litStr(sb.String())
			}
			out = append(out, x.formatTo(fr, f2, one, va, k)...)
		}
		return out
	}
	var args []Value
	if sl, ok := va.(Slice); ok && sl.obj != 0 {
		if sl.len.op != OConst || sl.off.op != OConst {
			x.fail("symbolic argument count of a formatting call")
		}
		o := x.obj(&st, sl.obj)
		for i := 0; i < int(sl.len.val); i++ {
			args = append(args, o.slots[int(sl.off.val)+i])
		}
	}
	return x.fmtSteps(fr, fs, st, fstr, args, 0, nil, "", nil, k)
}

func (x *Exec) fmtSteps(fr *frame, fs *fstate, st State, f string, args []Value, ai int, parts []fmtPart, shown string, werr Value, k func(State, *FmtAlt, Value) []ret) []ret {
	lit := func(s string) {
		if s == "" {
			return
		}
		if n := len(parts); n > 0 && parts[n-1].n == nil && parts[n-1].s == nil {
			np := append([]fmtPart(nil), parts...)
			np[n-1].lit += s
			parts = np
			return
		}
		parts = append(append([]fmtPart(nil), parts...), fmtPart{lit: s})
	}
	for {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			lit(f)
			break
		}
		lit(f[:i])
		if i+1 >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		verb := f[i+1]
		rest := f[i+2:]
		if verb == '%' {
			lit("%")
			f = rest
			continue
		}
		if verb == 0 {
			j := strings.IndexByte(rest, 0)
			if j < 0 {
				x.fail("formatting verb %%%c", verb)
			}
			n, err := strconv.Atoi(rest[:j])
			if err != nil || n >= len(x.fmtRuns) {
				x.fail("formatting verb %%%c", verb)
			}
			parts = append(append([]fmtPart(nil), parts...), fmtPart{s: x.fmtRuns[n]})
			f = rest[j+1:]
			continue
		}
		if strings.HasPrefix(f[i+1:], "02x") || strings.HasPrefix(f[i+1:], "02X") || verb == 'x' || verb == 'X' {
			// two digits of a byte; the bytes of a text
			padded := verb == '0'
			if padded {
				verb = f[i+3]
				rest = f[i+4:]
			}
			if ai < len(args) {
				if a, ok := args[ai].(Iface); ok && a.typ != nil && x.method(a.typ, "Error") == nil && x.method(a.typ, "String") == nil {
					var bs []*Term
					var s *Str
					switch v := a.val.(type) {
					case *Term:
						if padded && v.w == 8 {
							bs = []*Term{v}
							s = vecStr(bs)
						}
					case *Str:
						s = &Str{alts: x.snapshot(&st, v)}
					case Slice:
						if w, _, _ := basicWidth(sliceElem(a.typ)); w == 8 {
							s = x.bytesToStr(&st, v)
						}
					}
					if s != nil {
						var gs []*Term
						var ss []*Str
						for _, al := range x.plain(&st, s) {
							var b []*Term
							for i := 0; i < al.n; i++ {
								b = append(b, hexDigit(mkBin(OLshr, al.at(i), mkConst(8, 4)), verb), hexDigit(mkBin(OBAnd, al.at(i), mkConst(8, 15)), verb))
							}
							gs = append(gs, al.g)
							ss = append(ss, vecStr(b))
						}
						parts = append(append([]fmtPart(nil), parts...), fmtPart{s: guardedStrs(gs, ss)})
						ai++
						f = rest
						continue
					}
				}
			}
		}
		if strings.IndexByte("dsvqwct", verb) < 0 {
			x.fail("formatting verb %%%c", verb)
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			f = rest
			continue
		}
		a, ok := args[ai].(Iface)
		if !ok {
			x.fail("formatting %T", args[ai])
		}
		f0 := rest
		if a.typ == nil {
			if verb == 'v' {
				lit("<nil>")
			} else {
				lit("%!" + string(verb) + "(<nil>)")
			}
			ai++
			f = f0
			continue
		}
		if verb == 'w' {
			werr = a
		}
		cont := func(st State, p fmtPart) []ret {
			np := append(append([]fmtPart(nil), parts...), p)
			return x.fmtSteps(fr, fs, st, f0, args, ai+1, np, "", werr, k)
		}
		if verb != 'd' && verb != 'c' && verb != 't' {
			for _, mname := range []string{"Error", "String"} {
				if m := x.method(a.typ, mname); m != nil {
					held := append([]Value{}, args...)
					for _, p := range parts {
						if p.s != nil {
							held = append(held, p.s)
						}
					}
					return then(x.nested(fr, fs, st, m, []Value{a.val}, held...), func(st State, v Value) []ret {
						s := &Str{alts: x.snapshot(&st, x.str(v))}
						if verb == 'q' {
							s = x.quote(&st, s)
						}
						return cont(st, fmtPart{s: s})
					})
				}
			}
		}
		switch v := a.val.(type) {
		case *Str:
			s := &Str{alts: x.snapshot(&st, v)}
			if verb == 'q' {
				s = x.quote(&st, s)
			} else if verb != 's' && verb != 'v' {
				x.fail("formatting a string with %%%c", verb)
			}
			return cont(st, fmtPart{s: s})
		case *Term:
			w, signed, _ := basicWidth(a.typ)
			switch {
			case w == 0 && (verb == 'v' || verb == 't'):
				return cont(st, fmtPart{s: guardedStrs([]*Term{v, mkNot(v)}, []*Str{litStr("true"), litStr("false")})})
			case verb == 'd' || verb == 'v':
				t := st.pc.dom.simp(v)
				return cont(st, fmtPart{n: t, sign: signed})
			case verb == 'c':
				t := v
				if w > 8 {
					if !x.asciiOnly(&st, []*Term{t}, "%c") {
						return nil
					}
					t = mkUn(OTrunc, t, 8)
				} else if !x.asciiOnly(&st, []*Term{t}, "%c") {
					return nil
				}
				return cont(st, fmtPart{s: vecStr([]*Term{t})})
			}
		case Slice:
			if w, _, _ := basicWidth(sliceElem(a.typ)); w == 8 && (verb == 's' || verb == 'q') {
				s := x.bytesToStr(&st, v)
				if verb == 'q' {
					s = x.quote(&st, s)
				}
				return cont(st, fmtPart{s: s})
			}
		}
		x.fail("formatting %s with %%%c", a.typ, verb)
	}
	if ai < len(args) {
		x.fail("extra arguments in a formatting call")
	}
	return k(st, newFmt(parts), werr)
}

func hexDigit(t *Term, verb byte) *Term {
	a := uint64('a' - 10)
	if verb == 'X' {
		a = 'A' - 10
	}
	return mkIte(mkUlt(t, mkConst(8, 10)), mkAdd(t, mkConst(8, '0')), mkAdd(t, mkConst(8, a)))
}

func newFmt(parts []fmtPart) *FmtAlt {
	fa := &FmtAlt{parts: parts}
	var sb, sh strings.Builder
	for _, p := range parts {
		switch {
		case p.n != nil:
			fmt.Fprintf(&sb, "%%d<%d>", p.n.id)
			fmt.Fprintf(&sh, "%%d<%v%d>", p.sign, p.n.w)
			fa.format += "%d"
		case p.s != nil:
			sb.WriteString("%s<" + strKey(p.s) + ">")
			sh.WriteString("%s<>")
			fa.format += "%s"
		default:
			sb.WriteString(strconv.Quote(p.lit))
			sh.WriteString(strconv.Quote(p.lit))
			fa.format += p.lit
		}
	}
	fa.key = sb.String()
	fa.shape = sh.String()
	return fa
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Invalid]
}

// snapshot: content of a string now, formats kept
func (x *Exec) snapshot(st *State, s *Str) []strAlt {
	live := false
	for _, a := range s.alts {
		if a.kind == 'l' {
			live = true
		}
	}
	if !live {
		return s.alts
	}
	return x.plain(st, s)
}

func (x *Exec) quote(st *State, s *Str) *Str {
	// printable ASCII without quotes and backslashes only
	var bad []*Term
	for _, a := range x.plain(st, s) {
		for i := 0; i < a.n; i++ {
			t := a.at(i)
			ok := mkAnd(mkNot(mkUlt(t, mkConst(8, 32))), mkUlt(t, mkConst(8, 127)), mkNot(mkEq(t, mkConst(8, '"'))), mkNot(mkEq(t, mkConst(8, '\\'))))
			if st.pc.dom.eval(ok) != 1 {
				bad = append(bad, mkAnd(a.g, mkNot(ok)))
			}
		}
	}
	if b := mkOr(bad...); b != False {
		s2 := *st
		if pc := st.pc.add(b); pc != nil {
			s2.pc = pc
			x.obl("unsupported", s2, True, "quoting of special characters")
		}
		pc := st.pc.add(mkNot(b))
		if pc == nil {
			x.fail("quoting")
		}
		st.pc = pc
	}
	return x.strConcat(st, x.strConcat(st, litStr(`"`), s), litStr(`"`))
}

func (x *Exec) fmtStr(st *State, f *FmtAlt) *Str {
	// plain text when nothing numeric is involved
	num := false
	for _, p := range f.parts {
		if p.n != nil {
			num = true
		}
	}
	if !num && len(f.parts) <= 1 {
		return x.expandFmt(st, f)
	}
	return &Str{alts: []strAlt{{g: True, kind: 'f', fmt: f}}}
}

func inSprintf(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	return x.formatTo(fr, fs, x.str(args[0]), args[1], func(st State, f *FmtAlt, _ Value) []ret {
		num := false
		for _, p := range f.parts {
			if p.n != nil {
				num = true
			}
		}
		if !num {
			return one(st, x.expandFmt(&st, f))
		}
		return one(st, x.fmtStr(&st, f))
	})
}

// sprintFormat: the format which does what Sprint or Sprintln does with these operands
func (x *Exec) sprintFormat(st *State, va Value, ln bool) string {
	sl := va.(Slice)
	n := 0
	if sl.obj != 0 {
		if !sl.len.isConst() || !sl.off.isConst() {
			x.fail("Sprint of a symbolic number of values")
		}
		n = int(sl.len.val)
	}
	f := ""
	str := true
	for i := 0; i < n; i++ {
		was := str
		if !ln && n > 1 {
			v := x.iface(st, x.obj(st, sl.obj).slots[int(sl.off.val)+i])
			b, isB := v.typ.(*types.Basic)
			str = isB && b.Kind() == types.String
		}
		if i > 0 && (ln || !was && !str) {
			f += " "
		}
		f += "%v"
	}
	if ln {
		f += "\n"
	}
	return f
}

// inFprint: fmt.Fprint, Fprintln, Fprintf: what is formatted goes to the Write method of the writer
func inFprint(kind string) intrFn {
	return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
		w := x.iface(&fs.st, args[0])
		if w.typ == nil {
			x.fail("fmt.F%s to a nil writer", kind)
		}
		m := x.method(w.typ, "Write")
		var format *Str
		va := args[1]
		if kind == "printf" {
			format, va = x.str(args[1]), args[2]
		} else {
			format = litStr(x.sprintFormat(&fs.st, va, kind == "println"))
		}
		return x.formatTo(fr, fs, format, va, func(st State, f *FmtAlt, _ Value) []ret {
			return x.nested(fr, fs, st, m, []Value{w.val, x.strToBytes(&st, x.fmtStr(&st, f))})
		})
	}
}

func inSprint(ln bool) intrFn {
	return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
		f := x.sprintFormat(&fs.st, args[0], ln)
		return x.formatTo(fr, fs, litStr(f), args[0], func(st State, f *FmtAlt, _ Value) []ret { return one(st, x.fmtStr(&st, f)) })
	}
}

func (x *Exec) namedType(pkg, name string) types.Type {
	p := x.prog.ImportedPackage(pkg)
	if p == nil {
		x.fail("package %s is not loaded", pkg)
	}
	t := p.Type(name)
	if t == nil {
		x.fail("no type %s.%s", pkg, name)
	}
	return t.Type()
}

func inErrorf(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	return x.formatTo(fr, fs, x.str(args[0]), args[1], func(st State, f *FmtAlt, werr Value) []ret {
		msg := x.fmtStr(&st, f)
		if werr != nil {
			t := x.namedType("fmt", "wrapError")
			p := x.allocType(&st, t)
			x.store(&st, p, Agg{[]Value{msg, werr}}, t)
			return one(st, Iface{types.NewPointer(t), p})
		}
		t := x.namedType("errors", "errorString")
		p := x.allocType(&st, t)
		x.store(&st, p, Agg{[]Value{msg}}, t)
		return one(st, Iface{types.NewPointer(t), p})
	})
}

func inErrorsIs(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	st := fs.st
	a, b := x.iface(&st, args[0]), x.iface(&st, args[1])
	if a.typ == nil || b.typ == nil {
		return one(st, mkBool(a.typ == nil && b.typ == nil))
	}
	c := x.eqVals(&st, a, b, nil)
	if c == True {
		return one(st, True)
	}
	if m := x.method(a.typ, "Unwrap"); m != nil && m.Signature.Results().Len() == 1 {
		if _, isI := m.Signature.Results().At(0).Type().Underlying().(*types.Interface); isI {
			return then(x.nested(fr, fs, st, m, []Value{a.val}, args...), func(st State, v Value) []ret {
				f2 := fs.clone()
				f2.st = st
				return then(inErrorsIs(x, fr, f2, fn, []Value{v, args[1]}), func(st State, r Value) []ret { return one(st, mkOr(c, r.(*Term))) })
			})
		}
	}
	return one(st, c)
}

// method of a dynamic type, nil when missing
func (x *Exec) method(t types.Type, name string) *ssa.Function {
	ms := x.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name && ms.At(i).Obj().Exported() {
			return x.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// osm: the function of the model in vh/osm does what this one does
func osm(name string) intrFn {
	return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
		f := x.lookupFn("vh/osm", name)
		if f == nil {
			x.fail("call of %s", fn.String())
		}
		return x.nested(fr, fs, fs.st, f, args[:len(f.Params)])
	}
}

// ---------- encoding/json, on top of the model in vh/jsonm

func (x *Exec) modelFn(name string) *ssa.Function {
	f := x.lookupFn("vh/jsonm", name)
	if f == nil {
		x.fail("vh/jsonm.%s is not loaded", name)
	}
	return f
}

func newErr(x *Exec, st *State, msg string) Iface {
	t := x.namedType("errors", "errorString")
	p := x.allocType(st, t)
	x.store(st, p, Agg{[]Value{litStr(msg)}}, t)
	return Iface{types.NewPointer(t), p}
}

func (x *Exec) wrapErr(fr *frame, fs *fstate, st State, msg string, err Value) []ret {
	t := x.namedType("fmt", "wrapError")
	p := x.allocType(&st, t)
	x.store(&st, p, Agg{[]Value{litStr(msg), err}}, t)
	return one(st, Agg{[]Value{Slice{0, zInt, zInt, zInt}, Iface{types.NewPointer(t), p}}})
}

func inMarshal(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	st := fs.st
	v := x.iface(&st, args[0])
	nilE := Iface{}
	bs := func(st *State, s string) Value { return x.strToBytes(st, litStr(s)) }
	if v.typ == nil {
		return one(st, Agg{[]Value{bs(&st, "null"), nilE}})
	}
	if m := x.method(v.typ, "MarshalJSON"); m != nil {
		if p, ok := v.val.(Ptr); ok && p.obj == 0 {
			return one(st, Agg{[]Value{bs(&st, "null"), nilE}})
		}
		return then(x.nested(fr, fs, st, m, []Value{v.val}), func(st State, r Value) []ret {
			a := r.(Agg)
			e := a.f[1].(Iface)
			if e.typ != nil {
				return x.wrapErr(fr, fs, st, "json: error calling MarshalJSON", e)
			}
			return x.nested(fr, fs, st, x.modelFn("Compact"), []Value{a.f[0]})
		})
	}
	if p, ok := v.val.(Ptr); ok {
		if p.obj == 0 {
			return one(st, Agg{[]Value{bs(&st, "null"), nilE}})
		}
		et := deref(v.typ)
		f2 := fs.clone()
		f2.st = st
		return inMarshal(x, fr, f2, fn, []Value{Iface{et, x.load(&st, p, et)}})
	}
	switch y := v.val.(type) {
	case *Str:
		return then(x.nested(fr, fs, st, x.modelFn("EncodeString"), []Value{y}), func(st State, r Value) []ret {
			return one(st, Agg{[]Value{r, nilE}})
		})
	case *Term:
		if w, signed, ok := basicWidth(v.typ); ok && w > 0 {
			return one(st, Agg{[]Value{x.strToBytes(&st, x.itoa(&st, y, signed)), nilE}})
		}
	}
	x.fail("json.Marshal of %s", v.typ)
	return nil
}

func inValid(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	x.fail("json.Valid")
	return nil
}

func inUnmarshal(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	st := fs.st
	v := x.iface(&st, args[1])
	p, isP := v.val.(Ptr)
	if v.typ == nil || !isP || p.obj == 0 {
		return one(st, newErr(x, &st, "json: Unmarshal(non-pointer or nil)"))
	}
	if p.off == nil {
		p.off = zInt
	}
	if m := x.method(v.typ, "UnmarshalJSON"); m != nil {
		return then(x.nested(fr, fs, st, x.modelFn("TrimDoc"), []Value{args[0]}, v), func(st State, r Value) []ret {
			a := r.(Agg)
			ok := a.f[1].(*Term)
			var out []ret
			if pc := st.pc.add(mkNot(ok)); pc != nil {
				s1 := st
				s1.pc = pc
				out = append(out, ret{st: s1, val: newErr(x, &s1, "json: syntax error")})
			}
			if pc := st.pc.add(ok); pc != nil {
				s1 := st
				s1.pc = pc
				out = append(out, x.nested(fr, fs, s1, m, []Value{p, a.f[0]})...)
			}
			return out
		})
	}
	et := deref(v.typ)
	if !isString(et) {
		x.fail("json.Unmarshal into %s", v.typ)
	}
	return then(x.nested(fr, fs, st, x.modelFn("DecodeString"), []Value{args[0]}, v), func(st State, r Value) []ret {
		a := r.(Agg) // string, kind: 0 error, 1 string, 2 null
		k := a.f[1].(*Term)
		var out []ret
		for c := 0; c < 3; c++ {
			pc := st.pc.add(mkEq(k, mkInt(c)))
			if pc == nil {
				continue
			}
			s1 := st
			s1.pc = pc
			switch c {
			case 0:
				out = append(out, ret{st: s1, val: newErr(x, &s1, "json: error")})
			case 1:
				x.store(&s1, p, a.f[0], et)
				out = append(out, ret{st: s1, val: Iface{}})
			case 2:
				out = append(out, ret{st: s1, val: Iface{}})
			}
		}
		return out
	})
}

// ---------- vx

var colRe = regexp.MustCompile(`^(.*)\[col (-?\d+)\]$`)

func (x *Exec) freshName(st *State, what string) string {
	return fmt.Sprintf("in%d%s", x.inputDepth(st), what)
}

func (x *Exec) inputDepth(st *State) int {
	n := 0
	for r := st.inputs; r != nil; r = r.parent {
		n++
	}
	return n
}

func cInt(x *Exec, v Value) int {
	t, ok := v.(*Term)
	if !ok || t.op != OConst {
		x.fail("harness: constant expected")
	}
	return int(int64(t.val))
}

func (x *Exec) symBytes(st *State, min, max int) (Value, *inputRec) {
	k := x.inputDepth(st)
	if min == max {
		x.bound("input %d: %d arbitrary bytes", k, max)
	} else {
		x.bound("input %d: %d to %d arbitrary bytes", k, min, max)
	}
	var lt *Term
	if min == max {
		lt = mkInt(max)
	} else {
		lv := namedVar(fmt.Sprintf("in%d.len", k), max-min+1, 'i')
		lt = mkTabV(lv, 64, func(i int) uint64 { return uint64(min + i) })
	}
	b := make([]*Term, max)
	for i := range b {
		b[i] = varTerm(namedVar(fmt.Sprintf("in%d.b%d", k, i), 256, 'b'), 8)
	}
	rec := internInput(st.inputs, "bytes", lt, b, nil, 0)
	st.inputs = rec
	if max == 0 {
		return Slice{x.allocBytes(st, nil), zInt, zInt, zInt}, rec
	}
	id := x.allocBytes(st, b)
	return Slice{id, zInt, lt, lt}, rec
}

var vxTable map[string]intrFn

func init() {
	vxTable = map[string]intrFn{
		"Bytes": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			v, _ := x.symBytes(&st, 0, cInt(x, args[0]))
			return one(st, v)
		},
		"BytesMin": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			v, _ := x.symBytes(&st, cInt(x, args[0]), cInt(x, args[1]))
			return one(st, v)
		},
		"Byte": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			v := varTerm(namedVar(fmt.Sprintf("in%d.byte", x.inputDepth(&st)), 256, 'b'), 8)
			st.inputs = internInput(st.inputs, "int", nil, nil, v, 0)
			return one(st, v)
		},
		"Int": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			lo, hi := cInt(x, args[0]), cInt(x, args[1])
			x.bound("input %d: any integer from %d to %d", x.inputDepth(&st), lo, hi)
			v := namedVar(fmt.Sprintf("in%d.int%d", x.inputDepth(&st), lo), hi-lo+1, 'i')
			t := mkTabV(v, 64, func(i int) uint64 { return uint64(int64(lo + i)) })
			if hi == lo {
				t = mkInt(lo)
			}
			st.inputs = internInput(st.inputs, "int", nil, nil, t, 0)
			return one(st, t)
		},
		"Bool": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			v := namedVar(fmt.Sprintf("in%d.bool", x.inputDepth(&st)), 2, 'i')
			st.inputs = internInput(st.inputs, "int", nil, nil, varTerm(v, 8), 0)
			return one(st, varIs(v, 1))
		},
		// from here on (or no longer) every path is explored by itself
		"Apart": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			st.apart = args[0].(*Term) == True
			if !st.apart {
				x.apartN++
				st.group = x.apartN
			}
			return one(st, nil)
		},
		"File": osm("NewFile"), "NoFile": osm("NoFile"), "Content": osm("Content"), "Mode": osm("Mode"), "Files": osm("Files"), "FullDisk": osm("FullDisk"), "RunMain": osm("RunMain"),
		"Fork": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			var out []ret
			for _, c := range x.choices(&st, args[0].(*Term), "fork") {
				if pc := st.pc.add(c.g); pc != nil {
					s1 := st
					s1.pc = pc
					s1.inputs = internInput(st.inputs, "fork", nil, nil, nil, int64(c.leaf.val))
					out = append(out, ret{st: s1, val: c.leaf})
				}
			}
			return out
		},
		"ForkStr": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			var out []ret
			for _, a := range x.plain(&st, x.str(args[0])) {
				if pc := st.pc.add(a.g); pc != nil {
					s1 := st
					s1.pc = pc
					a.g = True
					out = append(out, ret{st: s1, val: &Str{alts: []strAlt{a}}})
				}
			}
			return out
		},
		"Assume": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			pc := st.pc.add(st.pc.dom.simp(args[0].(*Term)))
			if pc == nil {
				return nil
			}
			st.pc = pc
			return one(st, nil)
		},
		// the condition, as False where the solver shows that it cannot hold here
		"Feasible": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			c := fs.st.pc.dom.simp(args[0].(*Term))
			if c != False && fs.st.pc.dom.eval(c) != 0 {
				if r, _ := solve(desel(mkAnd(fs.st.pc.full(), c)), 20*time.Second); r == Unsat {
					if c == True {
						return nil // no input gets here
					}
					c = False
				}
			}
			return one(fs.st, c)
		},
		// the second string, if the solver shows that it is always equal to the first, else the first
		"Cut": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			a, b := x.str(args[0]), x.str(args[1])
			c := mkNot(st.pc.dom.simp(x.strEq(&st, a, b)))
			if c != False {
				r, _ := solve(desel(mkAnd(st.pc.full(), c)), 60*time.Second)
				if debug {
					fmt.Fprintln(os.Stderr, "cut", r)
				}
				if r != Unsat {
					return one(st, a)
				}
			}
			return one(st, b)
		},
		"Assert": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			return x.vxAssert(fs, args[0].(*Term), False, args[1], "assert")
		},
		"AssertKnown": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			// cond, known, id, msg
			id, _ := x.str(args[2]).concrete()
			return x.vxAssert(fs, args[0].(*Term), args[1].(*Term), args[3], id)
		},
		"Reach": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			msg, _ := x.str(args[0]).concrete()
			x.obl("reach", fs.st, True, msg)
			return one(fs.st, nil)
		},
		"ReadOnly": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			x.flagReach(&st, args[0], fReadOnly)
			return one(st, args[0])
		},
		"Writable": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			x.unflag(&st, args[0], fReadOnly)
			return one(st, args[0])
		},
		"Shared": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			x.flagReach(&st, args[0], fShared)
			return one(st, nil)
		},
		"Concurrent": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			st.noGlobal = true
			f := args[0].(Func)
			f2 := fs.clone()
			f2.st = st
			return then(x.callValue(fr, f2, f.fn, f.binds, nil, nil), func(st State, v Value) []ret {
				st.noGlobal = false
				return one(st, nil)
			})
		},
		"Bound": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			n := cInt(x, args[0])
			if x.tier == "thorough" {
				n = cInt(x, args[1])
			} else if x.tier == "small" {
				n = (n + 1) / 2
			}
			return one(fs.st, mkInt(n))
		},
		"Note": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			s, _ := x.str(args[0]).concrete()
			x.bound("%s", s)
			return one(fs.st, nil)
		},
		"Steps": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			if t := args[0].(*Term); t.op == OConst && int(t.val) > x.maxSteps {
				x.maxSteps = int(t.val)
				x.bound("steps of a path: %d", x.maxSteps)
			}
			return one(fs.st, nil)
		},
		"ErrInfo": inErrInfo,
		"Same": func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
			st := fs.st
			return one(st, x.eqVals(&st, args[0], args[1], nil))
		},
	}
}

func (x *Exec) bound(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	for _, b := range x.bounds {
		if b == s {
			return
		}
	}
	x.bounds = append(x.bounds, s)
}

func (x *Exec) vxAssert(fs *fstate, c, known *Term, msgV Value, kind string) []ret {
	st := fs.st
	msg, _ := x.str(msgV).concrete()
	c = st.pc.dom.simp(c)
	known = st.pc.dom.simp(known)
	if c == True {
		x.trivial++
		return one(st, nil)
	}
	bad := mkNot(c)
	if known != False {
		x.obl("known:"+kind, st, mkAnd(bad, known), msg)
	}
	if b := mkAnd(bad, mkNot(known)); b != False {
		x.obl("assert", st, b, msg)
	}
	pc := st.pc.add(c)
	if pc == nil {
		return nil
	}
	st.pc = pc
	return one(st, nil)
}

func (x *Exec) reachable(st *State, v Value, seen map[int]bool) {
	switch y := v.(type) {
	case Ptr:
		x.reachObj(st, y.obj, seen)
	case Slice:
		x.reachObj(st, y.obj, seen)
	case MapV:
		x.reachObj(st, y.obj, seen)
	case Iface:
		x.reachable(st, y.val, seen)
	case Agg:
		for _, f := range y.f {
			x.reachable(st, f, seen)
		}
	case Func:
		for _, f := range y.binds {
			x.reachable(st, f, seen)
		}
	case *Str:
		for _, a := range y.alts {
			if a.kind == 'l' {
				x.reachObj(st, a.obj, seen)
			}
		}
	}
}

func (x *Exec) reachObj(st *State, id int, seen map[int]bool) {
	if id == 0 || seen[id] {
		return
	}
	seen[id] = true
	for _, s := range x.obj(st, id).slots {
		x.reachable(st, s, seen)
	}
}

func (x *Exec) flagReach(st *State, v Value, f uint8) {
	seen := map[int]bool{}
	x.reachable(st, v, seen)
	for id := range seen {
		o := *x.obj(st, id)
		if o.flags&fGlobal != 0 {
			continue
		}
		o.flags |= f
		x.setObj(st, id, &o)
	}
}

func (x *Exec) unflag(st *State, v Value, f uint8) {
	seen := map[int]bool{}
	x.reachable(st, v, seen)
	for id := range seen {
		o := *x.obj(st, id)
		if o.flags&f != 0 {
			o.flags &^= f
			x.setObj(st, id, &o)
		}
	}
}

func colSplit(s string) (string, int) {
	m := colRe.FindStringSubmatch(s)
	if m == nil {
		return s, -2
	}
	n, err := strconv.Atoi(m[2])
	if err != nil {
		return s, -2
	}
	return m[1] + "[col %d]", n
}

// inErrInfo: error -> (class, column); ("", -1) for nil
func inErrInfo(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	st := fs.st
	e := x.iface(&st, args[0])
	if e.typ == nil {
		return one(st, Agg{[]Value{litStr(""), mkInt(-1)}})
	}
	m := x.method(e.typ, "Error")
	return then(x.nested(fr, fs, st, m, []Value{e.val}), func(st State, v Value) []ret {
		s := x.str(v)
		var gs []*Term
		var cls []*Str
		var cols []*Term
		put := func(g *Term, c string, n *Term) {
			gs = append(gs, g)
			cls = append(cls, litStr(c))
			cols = append(cols, n)
		}
		for _, a := range s.alts {
			if st.pc.dom.eval(a.g) == 0 {
				continue
			}
			if a.kind == 'f' {
				p := a.fmt.parts
				if len(p) == 3 && p[1].n != nil && p[1].n.w == 64 && p[0].n == nil && p[0].s == nil && p[2].n == nil && p[2].s == nil && strings.HasSuffix(p[0].lit, "[col ") && p[2].lit == "]" {
					put(a.g, p[0].lit+"%d]", p[1].n)
					continue
				}
			}
			one := &Str{alts: []strAlt{a}}
			for _, b := range x.plain(&st, one) {
				c := b
				c.g = True
				txt, ok := (&Str{alts: []strAlt{c}}).concrete()
				if !ok {
					x.fail("error message which depends on the input text")
				}
				k, n := colSplit(txt)
				put(mkAnd(a.g, b.g), k, mkInt(n))
			}
		}
		if len(gs) == 1 {
			return one(st, Agg{[]Value{cls[0], cols[0]}})
		}
		return one(st, Agg{[]Value{guardedStrs(gs, cls), guardedTerms(gs, cols)}})
	})
}
