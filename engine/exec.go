package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	heap      *Heap
	pc        *PC
	steps     int
	nvar      int
	lock      int
	noGlobal  bool // writes to package-level state are violations
	inputs    *inputRec
	physObj   int // list being ranged over, see glist.go
	physRI    *rangeInfo
	physDepth int
	apart     bool // paths are explored one by one, without merging
	group     int  // paths are only merged within their group
}

// inputRec: the symbolic inputs created on a path, innermost last (interned: pointer equality is identity)
type inputRec struct {
	id     int
	parent *inputRec
	kind   string
	lenT   *Term
	bytes  []*Term
	val    *Term
	base   int64
}

func (r *inputRec) ident() int {
	if r == nil {
		return 0
	}
	return r.id
}

var inputRecs = map[string]*inputRec{}

func internInput(parent *inputRec, kind string, lenT *Term, bytes []*Term, val *Term, base int64) *inputRec {
	k := fmt.Sprintf("%d %s %d", parent.ident(), kind, base)
	if lenT != nil {
		k += fmt.Sprintf(" l%d", lenT.id)
	}
	if val != nil {
		k += fmt.Sprintf(" v%d", val.id)
	}
	if len(bytes) > 0 {
		k += fmt.Sprintf(" b%d,%d", bytes[0].id, len(bytes))
	}
	if r, ok := inputRecs[k]; ok {
		return r
	}
	r := &inputRec{id: len(inputRecs) + 1, parent: parent, kind: kind, lenT: lenT, bytes: bytes, val: val, base: base}
	inputRecs[k] = r
	return r
}

type Obligation struct {
	kind string // assert panic write unsupported bound reach
	pc   *PC
	cond *Term // violating condition (conjoined with pc)
	msg  string
	in   *inputRec
}

type panicInfo struct {
	val Value
	msg string
}

type deferred struct {
	fn   Value // Func or nil for invoke
	inv  *ssa.CallCommon
	args []Value
	key  string
}

type fstate struct {
	st     State
	regs   map[ssa.Value]Value
	defers []deferred
	pan    *panicInfo // panicking (while running defers)
	rec    bool       // recovered
}

func (f *fstate) clone() *fstate {
	n := &fstate{st: f.st, regs: make(map[ssa.Value]Value, len(f.regs)+4), defers: f.defers, pan: f.pan, rec: f.rec}
	for k, v := range f.regs {
		n.regs[k] = v
	}
	return n
}

type Outcome struct {
	st   State
	vals []Value
	pan  *panicInfo
	pfs  *fstate
}

type Exec struct {
	apartN                            int
	fmtRuns                           []*Str // symbolic parts of format strings
	prog                              *ssa.Program
	base                              map[int]*Object
	globals                           map[*ssa.Global]int
	inited                            map[*ssa.Package]bool
	nextObj                           int
	obls                              []*Obligation
	infos                             map[*ssa.Function]*fnInfo
	fnUsed                            map[string]int
	progF                             map[string]bool
	looseF                            map[string]bool // integer fields which decide no branch
	states, transitions, merges, selN int
	maxSteps                          int
	trivial                           int
	unsupported                       map[string]int
	tier                              string
	harnessPkg                        string
	panicFrames                       []*panicHolder
	bounds                            []string
	stubs                             map[string]bool
	deadline                          func() bool
	ranges                            map[*ssa.If]*rangeInfo
	aborted                           string
}

type panicHolder struct {
	pan       *panicInfo
	recovered bool
}

type unsup struct{ why string }

func (x *Exec) fail(why string, a ...interface{}) {
	panic(unsup{fmt.Sprintf(why, a...)})
}

// ---------- function info

type fnInfo struct {
	fn      *ssa.Function
	liveIn  []map[ssa.Value]bool
	liveL   [][]ssa.Value
	lastUse []map[ssa.Value]int
	liveOut []map[ssa.Value]bool
	rpo     []int
	join    []bool
	prog    []progPhi
	num     map[ssa.Value]int
}

type progPhi struct {
	phi  *ssa.Phi
	sign int64
	rpo  int
}

func isReg(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return v != nil
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	in := &fnInfo{fn: fn}
	nb := len(fn.Blocks)
	in.liveIn = make([]map[ssa.Value]bool, nb)
	in.liveOut = make([]map[ssa.Value]bool, nb)
	in.liveL = make([][]ssa.Value, nb)
	in.lastUse = make([]map[ssa.Value]int, nb)
	in.rpo = make([]int, nb)
	in.join = make([]bool, nb)
	in.num = map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		in.num[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		in.num[p] = n
		n++
	}
	use := make([]map[ssa.Value]bool, nb)
	def := make([]map[ssa.Value]bool, nb)
	for bi, b := range fn.Blocks {
		use[bi] = map[ssa.Value]bool{}
		def[bi] = map[ssa.Value]bool{}
		in.liveIn[bi] = map[ssa.Value]bool{}
		in.liveOut[bi] = map[ssa.Value]bool{}
		in.lastUse[bi] = map[ssa.Value]int{}
		in.join[bi] = len(b.Preds) > 1
		for ii, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				in.num[v] = n
				n++
			}
			if _, ok := ins.(*ssa.Phi); ok {
				def[bi][ins.(ssa.Value)] = true
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op != nil && isReg(*op) {
					in.lastUse[bi][*op] = ii
					if !def[bi][*op] {
						use[bi][*op] = true
					}
				}
			}
			if v, ok := ins.(ssa.Value); ok {
				def[bi][v] = true
			}
		}
	}
	// named results may be read by the recover block
	var extra map[ssa.Value]bool
	if fn.Recover != nil {
		extra = map[ssa.Value]bool{}
		for _, ins := range fn.Recover.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op != nil && isReg(*op) {
					extra[*op] = true
				}
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fn.Blocks[bi]
			lo := in.liveOut[bi]
			for _, s := range b.Succs {
				for v := range in.liveIn[s.Index] {
					if !lo[v] {
						lo[v] = true
						ch = true
					}
				}
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
						for _, ins := range s.Instrs {
							ph, ok := ins.(*ssa.Phi)
							if !ok {
								break
							}
							if e := ph.Edges[pi]; isReg(e) && !lo[e] {
								lo[e] = true
								ch = true
							}
						}
					}
				}
			}
			li := in.liveIn[bi]
			for v := range use[bi] {
				if !li[v] {
					li[v] = true
					ch = true
				}
			}
			for v := range lo {
				if !def[bi][v] && !li[v] {
					li[v] = true
					ch = true
				}
			}
		}
	}
	for v := range extra {
		for bi := range fn.Blocks {
			in.liveIn[bi][v] = true
			in.liveOut[bi][v] = true
		}
	}
	for bi := range fn.Blocks {
		m := map[ssa.Value]bool{}
		for v := range in.liveIn[bi] {
			m[v] = true
		}
		for _, ins := range fn.Blocks[bi].Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				m[ph] = true
			}
		}
		for v := range m {
			in.liveL[bi] = append(in.liveL[bi], v)
		}
		l := in.liveL[bi]
		sort.Slice(l, func(i, j int) bool { return in.num[l[i]] < in.num[l[j]] })
	}
	// reverse postorder
	seen := make([]bool, nb)
	cnt := nb
	type fr struct{ b, i int }
	if nb > 0 {
		st := []fr{{0, 0}}
		seen[0] = true
		for len(st) > 0 {
			f := &st[len(st)-1]
			b := fn.Blocks[f.b]
			if f.i < len(b.Succs) {
				s := b.Succs[f.i]
				f.i++
				if !seen[s.Index] {
					seen[s.Index] = true
					st = append(st, fr{s.Index, 0})
				}
				continue
			}
			cnt--
			in.rpo[f.b] = cnt
			st = st[:len(st)-1]
		}
	}
	// progress phis
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if _, _, ok := basicWidth(ph.Type()); !ok {
				continue
			}
			sign := int64(0)
			vis := map[ssa.Value]bool{}
			var walk func(v ssa.Value, d int) int64
			walk = func(v ssa.Value, d int) int64 {
				if vis[v] || d > 12 {
					return 0
				}
				vis[v] = true
				switch y := v.(type) {
				case *ssa.BinOp:
					if y.Op == token.ADD || y.Op == token.SUB {
						if reaches(y.X, ph, 6) {
							s := int64(1)
							if c, ok := y.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) < 0 {
								s = -1
							}
							if y.Op == token.SUB {
								s = -s
							}
							return s
						}
					}
				case *ssa.Phi:
					for _, e := range y.Edges {
						if s := walk(e, d+1); s != 0 {
							return s
						}
					}
				}
				return 0
			}
			for _, e := range ph.Edges {
				if s := walk(e, 0); s != 0 {
					sign = s
				}
			}
			if sign != 0 {
				in.prog = append(in.prog, progPhi{ph, sign, in.rpo[b.Index]})
			}
		}
	}
	sort.SliceStable(in.prog, func(i, j int) bool { return in.prog[i].rpo < in.prog[j].rpo })
	x.infos[fn] = in
	return in
}

func reaches(v ssa.Value, ph *ssa.Phi, d int) bool {
	if v == ph {
		return true
	}
	if d == 0 {
		return false
	}
	switch y := v.(type) {
	case *ssa.Phi:
		for _, e := range y.Edges {
			if reaches(e, ph, d-1) {
				return true
			}
		}
	case *ssa.BinOp:
		if _, ok := y.Y.(*ssa.Const); ok {
			return reaches(y.X, ph, d-1)
		}
	}
	return false
}

// findLooseFields: integer fields of user structs which reach no comparison and no index, so that states which differ
// in them only are worth merging
func (x *Exec) findLooseFields(pkgs []*ssa.Package) {
	x.looseF = map[string]bool{}
	keyed := map[string]bool{}
	all := map[string]bool{}
	feeds := map[string][]string{} // field -> fields it is stored into
	fieldOf := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				return fmt.Sprintf("%s.%d", deref(fa.X.Type()).String(), fa.Field)
			}
		}
		if f, ok := v.(*ssa.Field); ok {
			return fmt.Sprintf("%s.%d", f.X.Type().String(), f.Field)
		}
		return ""
	}
	srcs := func(v ssa.Value) []string {
		var out []string
		seen := map[ssa.Value]bool{}
		var walk func(v ssa.Value)
		walk = func(v ssa.Value) {
			if seen[v] {
				return
			}
			seen[v] = true
			if f := fieldOf(v); f != "" {
				out = append(out, f)
				return
			}
			switch y := v.(type) {
			case *ssa.BinOp:
				walk(y.X)
				walk(y.Y)
			case *ssa.Phi:
				for _, e := range y.Edges {
					walk(e)
				}
			case *ssa.Convert:
				walk(y.X)
			case *ssa.ChangeType:
				walk(y.X)
			case *ssa.UnOp:
				if y.Op != token.MUL {
					walk(y.X)
				}
			}
		}
		walk(v)
		return out
	}
	use := func(v ssa.Value) {
		for _, f := range srcs(v) {
			keyed[f] = true
		}
	}
	x.eachFn(pkgs, func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch y := ins.(type) {
				case *ssa.BinOp:
					switch y.Op {
					case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
						use(y.X)
						use(y.Y)
					}
				case *ssa.IndexAddr:
					use(y.Index)
				case *ssa.Index:
					use(y.Index)
				case *ssa.Lookup:
					use(y.Index)
				case *ssa.Call:
					if _, bi := y.Call.Value.(*ssa.Builtin); !bi {
						for _, a := range y.Call.Args {
							use(a)
						}
					}
				case *ssa.Return:
					for _, a := range y.Results {
						use(a)
					}
				case *ssa.Store:
					if fa, ok := y.Addr.(*ssa.FieldAddr); ok {
						k := fmt.Sprintf("%s.%d", deref(fa.X.Type()).String(), fa.Field)
						all[k] = true
						for _, f := range srcs(y.Val) {
							feeds[f] = append(feeds[f], k)
						}
					} else {
						use(y.Val)
					}
				}
			}
		}
	})
	for ch := true; ch; {
		ch = false
		for f, ks := range feeds {
			for _, k := range ks {
				if keyed[k] && !keyed[f] {
					keyed[f] = true
					ch = true
				}
			}
		}
	}
	for k := range all {
		if !keyed[k] && !x.progF[k] {
			x.looseF[k] = true
		}
	}
}

func (x *Exec) eachFn(pkgs []*ssa.Package, f func(*ssa.Function)) {
	var doFn func(fn *ssa.Function)
	doFn = func(fn *ssa.Function) {
		f(fn)
		for _, a := range fn.AnonFuncs {
			doFn(a)
		}
	}
	for _, p := range pkgs {
		for _, m := range p.Members {
			switch y := m.(type) {
			case *ssa.Function:
				doFn(y)
			case *ssa.Type:
				for _, t := range []types.Type{y.Type(), types.NewPointer(y.Type())} {
					ms := x.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := x.prog.MethodValue(ms.At(i)); f != nil {
							doFn(f)
						}
					}
				}
			}
		}
	}
}

// progress fields: integer struct fields incremented by a constant somewhere
func (x *Exec) findProgressFields(pkgs []*ssa.Package) {
	x.progF = map[string]bool{}
	var doFn func(fn *ssa.Function)
	doFn = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				bo, ok := st.Val.(*ssa.BinOp)
				if !ok || bo.Op != token.ADD {
					continue
				}
				ld, ok := bo.X.(*ssa.UnOp)
				if !ok {
					continue
				}
				f2, ok := ld.X.(*ssa.FieldAddr)
				if !ok || f2.Field != fa.Field {
					continue
				}
				x.progF[fmt.Sprintf("%s.%d", deref(fa.X.Type()).String(), fa.Field)] = true
			}
		}
		for _, a := range fn.AnonFuncs {
			doFn(a)
		}
	}
	for _, p := range pkgs {
		for _, m := range p.Members {
			switch y := m.(type) {
			case *ssa.Function:
				doFn(y)
			case *ssa.Type:
				for _, t := range []types.Type{y.Type(), types.NewPointer(y.Type())} {
					ms := x.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := x.prog.MethodValue(ms.At(i)); f != nil {
							doFn(f)
						}
					}
				}
			}
		}
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ---------- frames

type item struct {
	blk    *ssa.BasicBlock
	key    string
	states []*fstate
	orders [][]int
	prio   []int64
	rpo    int
	idx    int
}

type pq []*item

func (q pq) Len() int { return len(q) }
func (q pq) Less(i, j int) bool {
	a, b := q[i], q[j]
	for k := 0; k < len(a.prio) && k < len(b.prio); k++ {
		if a.prio[k] != b.prio[k] {
			return a.prio[k] < b.prio[k]
		}
	}
	return a.rpo < b.rpo
}
func (q pq) Swap(i, j int) { q[i], q[j] = q[j], q[i]; q[i].idx = i; q[j].idx = j }
func (q *pq) Push(v interface{}) {
	it := v.(*item)
	it.idx = len(*q)
	*q = append(*q, it)
}
func (q *pq) Pop() interface{} {
	o := *q
	v := o[len(o)-1]
	*q = o[:len(o)-1]
	return v
}

type task struct {
	fs  *fstate
	blk *ssa.BasicBlock
	i   int
}

type frame struct {
	fn      *ssa.Function
	in      *fnInfo
	roots   []Value
	depth   int
	tasks   []task
	queue   pq
	pending map[string]*item
	outs    []Outcome
	holder  *panicHolder
	trace   bool
}

const maxDepth = 60

func (x *Exec) callFn(st State, fn *ssa.Function, args []Value, binds []Value, roots []Value, depth int, holder *panicHolder) []Outcome {
	if fn.Blocks == nil {
		x.fail("no body: %s", fn.String())
	}
	if depth > maxDepth {
		x.obl("bound", st, True, "call depth exceeded in "+fn.String())
		return nil
	}
	x.fnUsed[fn.String()]++
	fr := &frame{fn: fn, in: x.info(fn), roots: roots, depth: depth, pending: map[string]*item{}, holder: holder}
	fs := &fstate{st: st, regs: map[ssa.Value]Value{}}
	for i, p := range fn.Params {
		fs.regs[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fs.regs[p] = binds[i]
	}
	fr.tasks = append(fr.tasks, task{fs, fn.Blocks[0], 0})
	for {
		if len(fr.tasks) > 0 {
			t := fr.tasks[len(fr.tasks)-1]
			fr.tasks = fr.tasks[:len(fr.tasks)-1]
			x.runTask(fr, t)
			continue
		}
		if len(fr.queue) == 0 {
			break
		}
		it := heap.Pop(&fr.queue).(*item)
		delete(fr.pending, it.key)
		fs := x.merge(fr, it)
		fr.tasks = append(fr.tasks, task{fs, it.blk, -1})
	}
	return x.mergeOuts(fr)
}

func (x *Exec) runTask(fr *frame, t task) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsup); ok {
				x.unsupported[u.why]++
				x.obl("unsupported", t.fs.st, True, u.why+" in "+fr.fn.String())
				return
			}
			panic(r)
		}
	}()
	x.run(fr, &t)
}

func (x *Exec) obl(kind string, st State, cond *Term, msg string) {
	if os.Getenv("VX_OBL") != "" {
		fmt.Fprintf(os.Stderr, "obl %s %s dom=%v\n", kind, msg, domString(st.pc.dom))
	}
	x.obls = append(x.obls, &Obligation{kind: kind, pc: st.pc, cond: cond, msg: msg, in: st.inputs})
}

func domString(d *Dom) string {
	var p []string
	for _, v := range TT.vars {
		if v.kind == 's' {
			continue
		}
		if t := d.get(v); t != nil {
			s := ""
			n := 0
			for i := 0; i < v.D; i++ {
				if t.tabAt(i) != 0 {
					n++
					if n <= 12 {
						if v.kind == 'b' {
							s += strconv.QuoteRune(rune(i))
						} else {
							s += fmt.Sprint(i, ",")
						}
					}
				}
			}
			p = append(p, fmt.Sprintf("%s:%d{%s}", v.name, n, s))
		}
	}
	return strings.Join(p, " ")
}

// prune keeps the registers used after instruction i of the block
func (x *Exec) prune(fr *frame, fs *fstate, b *ssa.BasicBlock, i int) {
	lo := fr.in.liveOut[b.Index]
	lu := fr.in.lastUse[b.Index]
	for v := range fs.regs {
		if !lo[v] {
			if u, ok := lu[v]; !ok || u <= i {
				delete(fs.regs, v)
			}
		}
	}
}

func (x *Exec) sortedRegs(fr *frame, fs *fstate) []Value {
	ks := make([]ssa.Value, 0, len(fs.regs))
	for v := range fs.regs {
		ks = append(ks, v)
	}
	sort.Slice(ks, func(i, j int) bool { return fr.in.num[ks[i]] < fr.in.num[ks[j]] })
	out := make([]Value, 0, len(ks))
	for _, k := range ks {
		out = append(out, fs.regs[k])
	}
	for _, d := range fs.defers {
		out = append(out, d.fn)
		out = append(out, d.args...)
	}
	if fs.pan != nil {
		out = append(out, fs.pan.val)
	}
	return out
}

func (x *Exec) goTo(fr *frame, t *task, succIdx int) bool {
	b := t.blk
	s := b.Succs[succIdx]
	x.transitions++
	fs := t.fs
	if fs.st.physObj != 0 && fs.st.physDepth == fr.depth && !fs.st.physRI.body[s] {
		fs.st.physObj, fs.st.physRI = 0, nil
	}
	// phis
	pi := -1
	// a block may be the target of both edges of an If: find the matching predecessor occurrence
	occ := 0
	for k := 0; k < succIdx; k++ {
		if b.Succs[k] == s {
			occ++
		}
	}
	for k, p := range s.Preds {
		if p == b {
			if occ == 0 {
				pi = k
				break
			}
			occ--
		}
	}
	nr := map[ssa.Value]Value{}
	li := fr.in.liveIn[s.Index]
	for v, val := range fs.regs {
		if li[v] {
			nr[v] = val
		}
	}
	for _, ins := range s.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		nr[ph] = x.val(fs, ph.Edges[pi])
	}
	fs.regs = nr
	if !fr.in.join[s.Index] {
		t.blk = s
		t.i = -1
		return true
	}
	x.enqueue(fr, fs, s)
	return false
}

func (x *Exec) enqueue(fr *frame, fs *fstate, s *ssa.BasicBlock) {
	fs.st.steps++
	if fs.st.steps > x.maxSteps {
		x.obl("bound", fs.st, True, fmt.Sprintf("step bound %d exceeded in %s", x.maxSteps, fr.fn.String()))
		return
	}
	if x.deadline != nil && x.transitions%256 == 0 && x.deadline() {
		if x.aborted == "" {
			x.aborted = "time budget exhausted in " + fr.fn.String()
		}
		return
	}
	if x.aborted != "" {
		return
	}
	c := newCanon(x, fs.st.heap)
	c.sb.WriteString(strconv.Itoa(s.Index))
	for _, r := range fr.roots {
		c.visit(r, false)
	}
	c.drain()
	c.sb.WriteByte('|')
	for _, v := range fr.in.liveL[s.Index] {
		val, ok := fs.regs[v]
		if !ok {
			c.sb.WriteByte('-')
			continue
		}
		c.visit(val, true)
	}
	for _, d := range fs.defers {
		c.sb.WriteString("D" + d.key)
		c.visit(d.fn, true)
		for _, a := range d.args {
			c.visit(a, false)
		}
	}
	if fs.pan != nil {
		c.sb.WriteString("P")
		c.visit(fs.pan.val, true)
	}
	c.drain()
	fmt.Fprintf(&c.sb, "|%d,%d", fs.st.lock, fs.st.inputs.ident())
	if fs.st.group != 0 {
		fmt.Fprintf(&c.sb, "|g%d", fs.st.group)
	}
	if fs.st.apart {
		x.apartN++
		fmt.Fprintf(&c.sb, "|a%d", x.apartN)
	}
	if fs.st.physObj != 0 {
		fmt.Fprintf(&c.sb, "L%d,%d", fs.st.physRI.head.Index, fs.st.physDepth)
		fmt.Fprintf(&c.sb, ",%p", fs.st.heap.get(fs.st.physObj))
		c.ref(fs.st.physObj)
	}
	key := c.sb.String()
	it := fr.pending[key]
	if it == nil {
		it = &item{blk: s, key: key, rpo: fr.in.rpo[s.Index]}
		it.prio = append(it.prio, c.prog...)
		for _, p := range fr.in.prog {
			pv := int64(math.MaxInt64)
			if v, ok := fs.regs[p.phi]; ok {
				if t, ok := v.(*Term); ok && t.op == OConst {
					pv = sext(t.val, t.w) * p.sign
				} else {
					pv = math.MinInt64
				}
			} else if x.phiStillRelevant(fr, p.phi, s) {
				pv = math.MinInt64
			}
			it.prio = append(it.prio, pv)
		}
		fr.pending[key] = it
		heap.Push(&fr.queue, it)
	}
	it.states = append(it.states, fs)
	it.orders = append(it.orders, c.order)
}

func (x *Exec) phiStillRelevant(fr *frame, ph *ssa.Phi, s *ssa.BasicBlock) bool { return false }

// ---------- canonical form / keys

type canon struct {
	x     *Exec
	h     *Heap
	sb    strings.Builder
	order []int
	idx   map[int]int
	todo  int
	prog  []int64
}

func newCanon(x *Exec, h *Heap) *canon {
	c := &canon{x: x, h: h, idx: map[int]int{}}
	// written package-level objects are always reachable
	for i, o := range h.objs {
		if o.flags&fGlobal != 0 {
			c.sb.WriteByte('G')
			c.sb.WriteString(strconv.Itoa(h.ids[i]))
			c.ref(h.ids[i])
		}
	}
	return c
}

func (c *canon) ref(id int) {
	if id == 0 {
		c.sb.WriteByte('n')
		return
	}
	o := c.h.get(id)
	if o == nil {
		// base object, unmodified
		c.sb.WriteByte('B')
		c.sb.WriteString(strconv.Itoa(id))
		return
	}
	k, ok := c.idx[id]
	if !ok {
		k = len(c.order)
		c.idx[id] = k
		c.order = append(c.order, id)
	}
	c.sb.WriteByte('p')
	c.sb.WriteString(strconv.Itoa(k))
}

func (c *canon) visit(v Value, keyed bool) {
	switch y := v.(type) {
	case *Term:
		if keyed && y.op == OConst && (y.w == 0 || y.w >= 16) {
			c.sb.WriteByte('c')
			c.sb.WriteString(strconv.FormatUint(y.val, 36))
			return
		}
		c.sb.WriteByte('T')
	case *Str:
		c.sb.WriteByte('S')
		for _, a := range y.alts {
			if a.kind == 'l' {
				c.ref(a.obj)
				c.sb.WriteString("L")
			}
		}
	case Ptr:
		c.ref(y.obj)
		if y.obj != 0 {
			if y.off.op == OConst {
				c.sb.WriteByte('+')
				c.sb.WriteString(strconv.FormatUint(y.off.val, 36))
			} else {
				c.sb.WriteByte('*')
			}
		}
	case Slice:
		c.sb.WriteByte('s')
		c.ref(y.obj)
	case Iface:
		if y.typ == nil {
			c.sb.WriteByte('0')
			return
		}
		c.sb.WriteByte('i')
		c.sb.WriteString(typeKey(y.typ))
		c.visit(y.val, keyed)
	case Func:
		if y.fn != nil {
			c.sb.WriteString("f" + y.fn.String())
			for _, b := range y.binds {
				c.visit(b, keyed)
			}
		} else {
			c.sb.WriteByte('0')
		}
	case Agg:
		c.sb.WriteByte('{')
		for _, f := range y.f {
			c.visit(f, keyed)
		}
		c.sb.WriteByte('}')
	case MapV:
		c.sb.WriteByte('m')
		c.ref(y.obj)
	case Poison:
		c.sb.WriteByte('X')
	case nil:
		c.sb.WriteByte('_')
	default:
		panic(fmt.Sprintf("canon %T", v))
	}
}

var typeKeys = map[types.Type]string{}

func typeKey(t types.Type) string {
	if s, ok := typeKeys[t]; ok {
		return s
	}
	s := t.String()
	typeKeys[t] = s
	return s
}

func hasRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs(u.Elem())
	}
	return true
}

func (c *canon) drain() {
	for ; c.todo < len(c.order); c.todo++ {
		o := c.h.get(c.order[c.todo])
		c.sb.WriteByte('#')
		c.sb.WriteString(typeKey(o.typ))
		c.sb.WriteByte('0' + o.flags)
		if o.array {
			if hasRefs(o.typ) {
				c.sb.WriteString(strconv.Itoa(len(o.slots)))
				for _, s := range o.slots {
					c.visit(s, false)
				}
			} else if listy(o) {
				c.sb.WriteByte('L')
			} else {
				c.sb.WriteByte('A')
			}
			continue
		}
		_, isStruct := o.typ.Underlying().(*types.Struct)
		_, isArr := o.typ.Underlying().(*types.Array)
		var loose map[int]bool
		if isStruct {
			st := o.typ.Underlying().(*types.Struct)
			off := 0
			tn := typeKey(o.typ)
			for i := 0; i < st.NumFields(); i++ {
				n := nslots(st.Field(i).Type())
				if n == 1 {
					fk := tn + "." + strconv.Itoa(i)
					if t, ok := o.slots[off].(*Term); ok && t.op == OConst && t.w > 8 && c.x.progF[fk] {
						c.prog = append(c.prog, sext(t.val, t.w))
					}
					if c.x.looseF[fk] {
						if loose == nil {
							loose = map[int]bool{}
						}
						loose[off] = true
					}
				}
				off += n
			}
		}
		for i, s := range o.slots {
			c.visit(s, !isArr && !loose[i])
		}
	}
}

// ---------- merging

func (x *Exec) merge(fr *frame, it *item) *fstate {
	x.states++
	if debug {
		blkCount[fr.fn.String()+fmt.Sprintf("#%d", it.blk.Index)]++
		if os.Getenv("VX_KEYS") == fr.fn.Name()+fmt.Sprintf("#%d", it.blk.Index) {
			fmt.Fprintln(os.Stderr, "KEY", it.key, len(it.states), domString(it.states[0].st.pc.dom))
		}
	}
	if len(it.states) == 1 {
		fs := it.states[0]
		x.gc(&fs.st, it.orders[0])
		return fs
	}
	x.merges++
	n := len(it.states)
	pcs := make([]*PC, n)
	for i, s := range it.states {
		pcs[i] = s.st.pc
	}
	mg := newMerger(x, n, it.orders)
	s0 := it.states[0]
	out := &fstate{st: s0.st, regs: map[ssa.Value]Value{}, defers: s0.defers, pan: s0.pan, rec: s0.rec}
	vals := make([]Value, n)
	for _, v := range fr.in.liveL[it.blk.Index] {
		if _, ok := s0.regs[v]; !ok {
			continue
		}
		for i, s := range it.states {
			vals[i] = s.regs[v]
		}
		out.regs[v] = mg.value(vals)
	}
	heaps := make([]*Heap, n)
	for i, s := range it.states {
		heaps[i] = s.st.heap
		if s.st.steps > out.st.steps {
			out.st.steps = s.st.steps
		}
	}
	if len(s0.defers) > 0 {
		out.defers = append([]deferred(nil), s0.defers...)
		for d := range out.defers {
			out.defers[d].args = append([]Value(nil), s0.defers[d].args...)
			for a := range out.defers[d].args {
				for i, s := range it.states {
					vals[i] = s.defers[d].args[a]
				}
				out.defers[d].args[a] = mg.value(vals)
			}
		}
	}
	out.st.heap = mg.heap(heaps, it.orders)
	out.st.pc = mg.pc(pcs)
	return out
}

func (x *Exec) gc(st *State, order []int) {
	if len(order) == len(st.heap.ids) {
		return
	}
	h := &Heap{}
	ids := append([]int(nil), order...)
	sort.Ints(ids)
	for _, id := range ids {
		h.ids = append(h.ids, id)
		h.objs = append(h.objs, st.heap.get(id))
	}
	st.heap = h
}

type merger struct {
	x   *Exec
	n   int
	sel *Var
	is  []*Term

	orders [][]int // the objects of each variant, corresponding ones at the same place
	ids    []map[int]int
}

func newMerger(x *Exec, n int, orders [][]int) *merger { return &merger{x: x, n: n, orders: orders} }

// own gives s, live memory of variant i, in terms of the objects of the merged heap
func (m *merger) own(i int, s *Str) *Str {
	if i == 0 || m.orders == nil {
		return s
	}
	var alts []strAlt
	for j, a := range s.alts {
		if a.kind != 'l' {
			continue
		}
		if m.ids == nil {
			m.ids = make([]map[int]int, m.n)
		}
		if m.ids[i] == nil {
			m.ids[i] = map[int]int{}
			for k, id := range m.orders[i] {
				m.ids[i][id] = m.orders[0][k]
			}
		}
		if id, ok := m.ids[i][a.obj]; ok && id != a.obj {
			if alts == nil {
				alts = append([]strAlt(nil), s.alts...)
			}
			alts[j].obj = id
		}
	}
	if alts == nil {
		return s
	}
	return &Str{alts: alts}
}

func (m *merger) guards() []*Term {
	if m.sel == nil {
		m.x.selN++
		m.sel = newVar(fmt.Sprintf("sel%d", m.x.selN), m.n, 's')
		m.is = make([]*Term, m.n)
		for i := range m.is {
			m.is[i] = varIs(m.sel, i)
		}
	}
	return m.is
}

func (m *merger) value(vals []Value) Value {
	switch v0 := vals[0].(type) {
	case *Term:
		same := true
		for _, v := range vals[1:] {
			if v != Value(v0) {
				same = false
				break
			}
		}
		if same {
			return v0
		}
		ts := make([]*Term, len(vals))
		for i, v := range vals {
			t, ok := v.(*Term)
			if !ok {
				return Poison{"merge of different kinds"}
			}
			ts[i] = t
		}
		return guardedTerms(m.guards(), ts)
	case *Str:
		same := true
		for _, v := range vals[1:] {
			if v != Value(v0) {
				same = false
				break
			}
		}
		if same && !v0.live() {
			return v0
		}
		ss := make([]*Str, len(vals))
		for i, v := range vals {
			s, ok := v.(*Str)
			if !ok {
				return Poison{"merge of different kinds"}
			}
			ss[i] = m.own(i, s)
		}
		if strsEqual(ss) {
			return v0
		}
		return guardedStrs(m.guards(), ss)
	case Slice:
		o, l, c := make([]Value, len(vals)), make([]Value, len(vals)), make([]Value, len(vals))
		for i, v := range vals {
			s, ok := v.(Slice)
			if !ok {
				return Poison{"merge of different kinds"}
			}
			o[i], l[i], c[i] = s.off, s.len, s.cap
		}
		return Slice{v0.obj, m.value(o).(*Term), m.value(l).(*Term), m.value(c).(*Term)}
	case Ptr:
		if v0.obj == 0 {
			return v0
		}
		o := make([]Value, len(vals))
		for i, v := range vals {
			p, ok := v.(Ptr)
			if !ok {
				return Poison{"merge of different kinds"}
			}
			o[i] = p.off
		}
		return Ptr{v0.obj, m.value(o).(*Term)}
	case Iface:
		if v0.typ == nil {
			return v0
		}
		o := make([]Value, len(vals))
		for i, v := range vals {
			o[i] = v.(Iface).val
		}
		return Iface{v0.typ, m.value(o)}
	case Agg:
		r := Agg{f: make([]Value, len(v0.f))}
		o := make([]Value, len(vals))
		for k := range v0.f {
			for i, v := range vals {
				a, ok := v.(Agg)
				if !ok {
					return Poison{"merge of different kinds"}
				}
				o[i] = a.f[k]
			}
			r.f[k] = m.value(o)
		}
		return r
	case Func:
		r := Func{fn: v0.fn, bi: v0.bi}
		o := make([]Value, len(vals))
		for k := range v0.binds {
			for i, v := range vals {
				o[i] = v.(Func).binds[k]
			}
			r.binds = append(r.binds, m.value(o))
		}
		return r
	case MapV, nil:
		return v0
	case Poison:
		return v0
	}
	panic(fmt.Sprintf("merge %T", vals[0]))
}

func guardedTerms(g []*Term, ts []*Term) *Term {
	w := ts[0].w
	if w == 0 {
		var ors []*Term
		// group equal terms
		grp := map[int][]int{}
		var keys []int
		for i, t := range ts {
			if _, ok := grp[t.id]; !ok {
				keys = append(keys, t.id)
			}
			grp[t.id] = append(grp[t.id], i)
		}
		for _, k := range keys {
			var gs []*Term
			for _, i := range grp[k] {
				gs = append(gs, g[i])
			}
			ors = append(ors, mkAnd(mkOr(gs...), ts[grp[k][0]]))
		}
		return mkOr(ors...)
	}
	var ls []leafG
	grp := map[int][]*Term{}
	var keys []*Term
	for i, t := range ts {
		if _, ok := grp[t.id]; !ok {
			keys = append(keys, t)
		}
		grp[t.id] = append(grp[t.id], g[i])
	}
	if len(keys) == 1 {
		return keys[0]
	}
	generic := false
	for _, t := range keys {
		gg := mkOr(grp[t.id]...)
		l := leaves(t)
		if l == nil {
			generic = true
			break
		}
		for _, y := range l {
			ls = append(ls, leafG{y.leaf, mkAnd(gg, y.g)})
		}
	}
	if generic {
		r := keys[len(keys)-1]
		for i := len(keys) - 2; i >= 0; i-- {
			r = mkIte(mkOr(grp[keys[i].id]...), keys[i], r)
		}
		return r
	}
	return mkSel(w, ls)
}

func altKey(a strAlt) string {
	switch a.kind {
	case 'v':
		if a.n == 0 {
			return "e"
		}
		return fmt.Sprintf("v%d,%d,%d", a.vec.id, a.off, a.n)
	case 'l':
		return fmt.Sprintf("l%d,%d,%d", a.obj, a.off, a.n)
	}
	return "f" + a.fmt.key
}

func strsEqual(ss []*Str) bool {
	for _, s := range ss[1:] {
		if len(s.alts) != len(ss[0].alts) {
			return false
		}
		for i, a := range s.alts {
			b := ss[0].alts[i]
			if a.g != b.g || altKey(a) != altKey(b) {
				return false
			}
		}
	}
	return true
}

func guardedStrs(g []*Term, ss []*Str) *Str {
	var alts []strAlt
	m := map[string]int{}
	for i, s := range ss {
		for _, a := range s.alts {
			gg := mkAnd(g[i], a.g)
			if gg == False {
				continue
			}
			k := altKey(a)
			if j, ok := m[k]; ok {
				alts[j].g = mkOr(alts[j].g, gg)
				continue
			}
			m[k] = len(alts)
			b := a
			b.g = gg
			alts = append(alts, b)
		}
	}
	alts = joinFmts(alts)
	if len(alts) == 1 {
		alts[0].g = True
	}
	if len(alts) == 0 {
		return litStr("")
	}
	return &Str{alts: alts}
}

// joinFmts merges formatted alternatives of the same format
func joinFmts(alts []strAlt) []strAlt {
	nf := 0
	for _, a := range alts {
		if a.kind == 'f' {
			nf++
		}
	}
	if nf < 2 {
		return alts
	}
	var out []strAlt
	var shapes []string
	by := map[string][]strAlt{}
	for _, a := range alts {
		if a.kind != 'f' {
			out = append(out, a)
			continue
		}
		if len(by[a.fmt.shape]) == 0 {
			shapes = append(shapes, a.fmt.shape)
		}
		by[a.fmt.shape] = append(by[a.fmt.shape], a)
	}
	for _, s := range shapes {
		l := by[s]
		if len(l) == 1 {
			out = append(out, l[0])
			continue
		}
		gs := make([]*Term, len(l))
		for i, a := range l {
			gs[i] = a.g
		}
		parts := make([]fmtPart, len(l[0].fmt.parts))
		for k := range parts {
			parts[k] = l[0].fmt.parts[k]
			if parts[k].n != nil {
				ts := make([]*Term, len(l))
				for i, a := range l {
					ts[i] = a.fmt.parts[k].n
				}
				parts[k].n = guardedTerms(gs, ts)
			} else if parts[k].s != nil {
				ss := make([]*Str, len(l))
				for i, a := range l {
					ss[i] = a.fmt.parts[k].s
				}
				if strsEqual(ss) {
					continue
				}
				parts[k].s = guardedStrs(gs, ss)
			}
		}
		out = append(out, strAlt{g: mkOr(gs...), kind: 'f', fmt: newFmt(parts)})
	}
	return out
}

func (m *merger) heap(hs []*Heap, orders [][]int) *Heap {
	n := len(hs)
	type ent struct {
		id int
		o  *Object
	}
	var es []ent
	objs := make([]*Object, n)
	for k, id := range orders[0] {
		same := true
		for i := range hs {
			objs[i] = hs[i].get(orders[i][k])
			if objs[i] != objs[0] {
				same = false
			}
		}
		if same {
			es = append(es, ent{id, objs[0]})
			continue
		}
		if ml := m.mergeLists(objs); ml != nil {
			es = append(es, ent{id, ml})
			continue
		}
		o := &Object{typ: objs[0].typ, array: objs[0].array, flags: objs[0].flags, name: objs[0].name}
		if listy(objs[0]) {
			o.lenT = objs[0].lenT
		}
		max := 0
		for _, y := range objs {
			if len(y.slots) > max {
				max = len(y.slots)
			}
		}
		o.slots = make([]Value, max)
		vals := make([]Value, n)
		for s := 0; s < max; s++ {
			for i, y := range objs {
				if s < len(y.slots) {
					vals[i] = y.slots[s]
				} else {
					vals[i] = nil
				}
			}
			// padding: take any present value
			var pv Value
			for _, v := range vals {
				if v != nil {
					pv = v
					break
				}
			}
			for i := range vals {
				if vals[i] == nil {
					vals[i] = pv
				}
			}
			o.slots[s] = m.value(vals)
		}
		es = append(es, ent{id, o})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].id < es[j].id })
	h := &Heap{}
	for _, e := range es {
		h.ids = append(h.ids, e.id)
		h.objs = append(h.objs, e.o)
	}
	return h
}

func (m *merger) pc(pcs []*PC) *PC {
	// trie over the parent chains up to the lowest common ancestor
	n := len(pcs)
	min := pcs[0].depth
	for _, p := range pcs {
		if p.depth < min {
			min = p.depth
		}
	}
	cur := make([]*PC, n)
	for i, p := range pcs {
		for p.depth > min {
			p = p.parent
		}
		cur[i] = p
	}
	for {
		same := true
		for _, c := range cur {
			if c != cur[0] {
				same = false
				break
			}
		}
		if same {
			break
		}
		for i := range cur {
			cur[i] = cur[i].parent
		}
	}
	lca := cur[0]
	children := map[*PC][]*PC{}
	leaf := map[*PC][]int{}
	seen := map[*PC]bool{}
	for i, p := range pcs {
		leaf[p] = append(leaf[p], i)
		for q := p; q != lca; q = q.parent {
			if seen[q] {
				break
			}
			seen[q] = true
			children[q.parent] = append(children[q.parent], q)
		}
	}
	var T func(p *PC) *Term
	T = func(p *PC) *Term {
		// follow unary chains iteratively
		var chain []*Term
		for {
			if p != lca {
				chain = append(chain, p.cond)
			}
			ch := children[p]
			if len(ch) == 1 && len(leaf[p]) == 0 {
				p = ch[0]
				continue
			}
			var ors []*Term
			for _, i := range leaf[p] {
				if m.sel != nil {
					ors = append(ors, m.is[i])
				} else {
					ors = append(ors, True)
				}
			}
			for _, c := range ch {
				ors = append(ors, T(c))
			}
			r := mkOr(ors...)
			for i := len(chain) - 1; i >= 0; i-- {
				r = mkAnd(chain[i], r)
			}
			return r
		}
	}
	t := T(lca)
	dom := pcs[0].dom
	for _, p := range pcs[1:] {
		dom = dom.union(p.dom)
	}
	if m.sel != nil {
		m.sel.def = t
		m.sel.rels = selRels(lca, pcs, leaf, children)
	}
	if dom == nil {
		dom = &Dom{}
	}
	// domain facts shared by all branches are kept in dom
	return &PC{parent: lca, cond: t, depth: lca.depth + 1, dom: dom}
}

// selRels: the conditions, relative to lca, under which each of the merged states is the one reached. They exclude each
// other because the program is deterministic; nil when two states have the same path condition.
func selRels(lca *PC, pcs []*PC, leaf map[*PC][]int, children map[*PC][]*PC) []*Term {
	for p, l := range leaf {
		if len(l) > 1 || len(children[p]) > 0 {
			return nil
		}
	}
	memo := map[*PC]*Term{lca: True}
	rels := make([]*Term, len(pcs))
	for i, p := range pcs {
		var st []*PC
		q := p
		for memo[q] == nil {
			st = append(st, q)
			q = q.parent
		}
		for k := len(st) - 1; k >= 0; k-- {
			memo[st[k]] = andRaw(memo[st[k].parent], st[k].cond)
		}
		rels[i] = memo[p]
	}
	return rels
}

func (x *Exec) mergeOuts(fr *frame) []Outcome {
	if len(fr.outs) <= 1 {
		return fr.outs
	}
	type grp struct {
		outs   []Outcome
		orders [][]int
	}
	groups := map[string]*grp{}
	var keys []string
	var res []Outcome
	all := strings.HasSuffix(fr.fn.Name(), "_mergeall")
	for _, o := range fr.outs {
		if o.pan != nil {
			res = append(res, o)
			continue
		}
		c := newCanon(x, o.st.heap)
		for _, r := range fr.roots {
			c.visit(r, false)
		}
		c.drain()
		c.sb.WriteByte('|')
		for _, v := range o.vals {
			c.visit(v, !all)
		}
		c.drain()
		fmt.Fprintf(&c.sb, "|%d,%d", o.st.lock, o.st.inputs.ident())
		if o.st.group != 0 {
			fmt.Fprintf(&c.sb, "|g%d", o.st.group)
		}
		if o.st.apart {
			x.apartN++
			fmt.Fprintf(&c.sb, "|a%d", x.apartN)
		}
		k := c.sb.String()
		g := groups[k]
		if debug && os.Getenv("VX_OUTS") == fr.fn.Name() {
			fmt.Fprintln(os.Stderr, "OUT", k)
		}
		if g == nil {
			g = &grp{}
			groups[k] = g
			keys = append(keys, k)
		}
		g.outs = append(g.outs, o)
		g.orders = append(g.orders, c.order)
	}
	for _, k := range keys {
		g := groups[k]
		x.states++
		if len(g.outs) == 1 {
			o := g.outs[0]
			x.gc(&o.st, g.orders[0])
			res = append(res, o)
			continue
		}
		x.merges++
		n := len(g.outs)
		mg := newMerger(x, n, g.orders)
		out := g.outs[0]
		out.vals = make([]Value, len(g.outs[0].vals))
		vals := make([]Value, n)
		for k := range out.vals {
			for i, o := range g.outs {
				vals[i] = o.vals[k]
			}
			out.vals[k] = mg.value(vals)
		}
		hs := make([]*Heap, n)
		pcs := make([]*PC, n)
		for i, o := range g.outs {
			hs[i] = o.st.heap
			pcs[i] = o.st.pc
			if o.st.steps > out.st.steps {
				out.st.steps = o.st.steps
			}
		}
		out.st.heap = mg.heap(hs, g.orders)
		out.st.pc = mg.pc(pcs)
		res = append(res, out)
	}
	return res
}

var blkCount = map[string]int{}

func dumpCounts() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range blkCount {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i := 0; i < len(l) && i < 25; i++ {
		fmt.Fprintf(os.Stderr, "  %7d %s\n", l[i].n, l[i].k)
	}
}
