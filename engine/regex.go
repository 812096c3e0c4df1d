package main

import (
	"fmt"
	"go/types"
	"regexp/syntax"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Model of the matcher of package regexp: the pattern found in the code is compiled with regexp/syntax and its
// leftmost-first semantics is unfolded over symbolic text. Everything around the matcher (FindAll..., Replace...)
// is the real library code.

type reProg struct {
	prog  *syntax.Prog
	ncap  int
	names []string
	class map[*syntax.Inst]*reClass
}

type reClass struct {
	ascii [2]uint64
	high  int // 0 none, 1 all, 2 mixed
}

var reProgs = map[string]*reProg{}

func getProg(expr string) (*reProg, error) {
	if p, ok := reProgs[expr]; ok {
		return p, nil
	}
	re, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	names := re.CapNames()
	nc := re.MaxCap()
	re = re.Simplify()
	pr, err := syntax.Compile(re)
	if err != nil {
		return nil, err
	}
	p := &reProg{prog: pr, ncap: nc, names: names, class: map[*syntax.Inst]*reClass{}}
	reProgs[expr] = p
	return p, nil
}

func (p *reProg) cls(i *syntax.Inst) *reClass {
	if c, ok := p.class[i]; ok {
		return c
	}
	m := func(r rune) bool {
		switch i.Op {
		case syntax.InstRuneAny:
			return true
		case syntax.InstRuneAnyNotNL:
			return r != '\n'
		case syntax.InstRune1:
			return r == i.Rune[0]
		}
		return i.MatchRune(r)
	}
	c := &reClass{}
	for r := rune(0); r < 128; r++ {
		if m(r) {
			c.ascii[r/64] |= 1 << (uint(r) % 64)
		}
	}
	n := 0
	for r := rune(128); r <= unicode.MaxRune; r++ {
		if m(r) {
			n++
		}
	}
	switch n {
	case 0:
	case int(unicode.MaxRune) - 127:
		c.high = 1
	default:
		c.high = 2
	}
	p.class[i] = c
	return c
}

func fieldIndex(t types.Type, name string) (off int, ft types.Type) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldOff(s, i), s.Field(i).Type()
		}
	}
	panic(unsup{"no field " + name + " in " + t.String()})
}

func inRegexpCompile(must bool) intrFn {
	return func(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
		st := fs.st
		expr, ok := x.str(args[0]).concrete()
		if !ok {
			x.fail("symbolic regular expression")
		}
		p, err := getProg(expr)
		if err != nil {
			if must {
				return []ret{{st: st, pan: mkPanic("regexp: Compile")}}
			}
			x.fail("bad regular expression")
		}
		rt := x.namedType("regexp", "Regexp")
		ptr := x.allocType(&st, rt)
		set := func(name string, v Value) {
			off, ft := fieldIndex(rt, name)
			x.store(&st, Ptr{ptr.obj, mkInt(off)}, v, ft)
		}
		pt := x.namedType("regexp/syntax", "Prog")
		pp := x.allocType(&st, pt)
		off, ft := fieldIndex(pt, "NumCap")
		x.store(&st, Ptr{pp.obj, mkInt(off)}, mkInt(p.prog.NumCap), ft)
		set("expr", litStr(expr))
		set("prog", pp)
		set("numSubexp", mkInt(p.ncap))
		set("matchcap", mkInt(p.prog.NumCap))
		if must {
			return one(st, ptr)
		}
		return one(st, Agg{[]Value{ptr, Iface{}}})
	}
}

func (x *Exec) reOf(st *State, v Value) (*reProg, string) {
	p, ok := v.(Ptr)
	if !ok || p.obj == 0 {
		x.fail("regular expression value")
	}
	rt := x.namedType("regexp", "Regexp")
	off, ft := fieldIndex(rt, "expr")
	e, ok := x.load(st, Ptr{p.obj, mkInt(off)}, ft).(*Str).concrete()
	if !ok {
		x.fail("symbolic regular expression")
	}
	pr, err := getProg(e)
	if err != nil {
		x.fail("bad regular expression")
	}
	return pr, e
}

func inRegexpString(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	st := fs.st
	_, e := x.reOf(&st, args[0])
	return one(st, litStr(e))
}

func inRegexpNumSubexp(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	st := fs.st
	p, _ := x.reOf(&st, args[0])
	return one(st, mkInt(p.ncap))
}

type reOut struct {
	g    *Term
	caps []int
}

type reRun struct {
	x    *Exec
	p    *reProg
	dom  *Dom
	t    []*Term // bytes
	in   []*Term // in[i]: position i is inside the text
	memo map[[2]int][]reOut
	busy map[[2]int]bool
	n    int
}

func rangeT(t *Term, lo, hi int) *Term {
	r := True
	if lo > 0 {
		r = mkNot(mkUlt(t, mkConst(8, uint64(lo))))
	}
	if hi < 255 {
		r = mkAnd(r, mkUlt(t, mkConst(8, uint64(hi+1))))
	}
	return r
}

// high gives the conditions for a non-ASCII rune of 1 (invalid byte) to 4 bytes at position i
func (r *reRun) high(i int) []struct {
	g *Term
	w int
} {
	type gw = struct {
		g *Term
		w int
	}
	t := r.t
	nonA := mkAnd(r.in[i], rangeT(t[i], 128, 255))
	nonA = r.dom.simp(nonA)
	if nonA == False {
		return nil
	}
	cont := func(k, lo, hi int) *Term {
		if i+k >= len(t) {
			return False
		}
		return mkAnd(r.in[i+k], rangeT(t[i+k], lo, hi))
	}
	w2 := mkAnd(rangeT(t[i], 0xC2, 0xDF), cont(1, 0x80, 0xBF))
	w3 := mkAnd(mkOr(
		mkAnd(mkEq(t[i], mkConst(8, 0xE0)), cont(1, 0xA0, 0xBF)),
		mkAnd(mkEq(t[i], mkConst(8, 0xED)), cont(1, 0x80, 0x9F)),
		mkAnd(mkOr(rangeT(t[i], 0xE1, 0xEC), rangeT(t[i], 0xEE, 0xEF)), cont(1, 0x80, 0xBF))), cont(2, 0x80, 0xBF))
	w4 := mkAnd(mkOr(
		mkAnd(mkEq(t[i], mkConst(8, 0xF0)), cont(1, 0x90, 0xBF)),
		mkAnd(mkEq(t[i], mkConst(8, 0xF4)), cont(1, 0x80, 0x8F)),
		mkAnd(rangeT(t[i], 0xF1, 0xF3), cont(1, 0x80, 0xBF))), cont(2, 0x80, 0xBF), cont(3, 0x80, 0xBF))
	w1 := mkAnd(nonA, mkNot(w2), mkNot(w3), mkNot(w4))
	var out []gw
	for _, o := range []gw{{w1, 1}, {mkAnd(r.in[i], w2), 2}, {mkAnd(r.in[i], w3), 3}, {mkAnd(r.in[i], w4), 4}} {
		if r.dom.eval(o.g) != 0 {
			out = append(out, o)
		}
	}
	return out
}

func (r *reRun) isEnd(i int) *Term {
	if i >= len(r.t) {
		return True
	}
	return mkNot(r.in[i])
}

func (r *reRun) word(i int) *Term {
	if i < 0 || i >= len(r.t) {
		return False
	}
	t := r.t[i]
	return mkAnd(r.in[i], mkOr(rangeT(t, '0', '9'), rangeT(t, 'a', 'z'), rangeT(t, 'A', 'Z'), mkEq(t, mkConst(8, '_'))))
}

func (r *reRun) empty(op syntax.EmptyOp, i int) *Term {
	c := True
	nl := mkConst(8, '\n')
	if op&syntax.EmptyBeginLine != 0 && i > 0 {
		c = mkAnd(c, mkEq(r.t[i-1], nl))
	}
	if op&syntax.EmptyEndLine != 0 {
		e := r.isEnd(i)
		if i < len(r.t) {
			e = mkOr(e, mkAnd(r.in[i], mkEq(r.t[i], nl)))
		}
		c = mkAnd(c, e)
	}
	if op&syntax.EmptyBeginText != 0 && i > 0 {
		return False
	}
	if op&syntax.EmptyEndText != 0 {
		c = mkAnd(c, r.isEnd(i))
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		a, b := r.word(i-1), r.word(i)
		d := mkNot(mkEq(a, b))
		if op&syntax.EmptyWordBoundary != 0 {
			c = mkAnd(c, d)
		} else {
			c = mkAnd(c, mkNot(d))
		}
	}
	return c
}

func addOut(m map[string]int, outs *[]reOut, o reOut) {
	if o.g == False {
		return
	}
	k := fmt.Sprint(o.caps)
	if i, ok := m[k]; ok {
		(*outs)[i].g = mkOr((*outs)[i].g, o.g)
		return
	}
	m[k] = len(*outs)
	*outs = append(*outs, o)
}

func (r *reRun) m(pc, pos int) []reOut {
	k := [2]int{pc, pos}
	if o, ok := r.memo[k]; ok {
		return o
	}
	if r.busy[k] {
		r.x.fail("regular expression with an empty loop")
	}
	r.busy[k] = true
	r.n++
	i := &r.p.prog.Inst[pc]
	var outs []reOut
	m := map[string]int{}
	with := func(g *Term, os []reOut) {
		for _, o := range os {
			ng := mkAnd(g, o.g)
			if r.dom.eval(ng) == 0 {
				continue
			}
			addOut(m, &outs, reOut{ng, o.caps})
		}
	}
	switch i.Op {
	case syntax.InstFail:
	case syntax.InstMatch:
		caps := make([]int, 2*(r.p.ncap+1))
		for k := range caps {
			caps[k] = -1
		}
		caps[1] = pos
		outs = append(outs, reOut{True, caps})
	case syntax.InstNop:
		outs = r.m(int(i.Out), pos)
	case syntax.InstCapture:
		for _, o := range r.m(int(i.Out), pos) {
			if c := int(i.Arg); c < len(o.caps) && o.caps[c] == -1 {
				nc := append([]int(nil), o.caps...)
				nc[c] = pos
				o.caps = nc
			}
			addOut(m, &outs, o)
		}
	case syntax.InstEmptyWidth:
		c := r.empty(syntax.EmptyOp(i.Arg), pos)
		if c != False {
			with(c, r.m(int(i.Out), pos))
		}
	case syntax.InstAlt, syntax.InstAltMatch:
		a := r.m(int(i.Out), pos)
		var any []*Term
		for _, o := range a {
			any = append(any, o.g)
			addOut(m, &outs, o)
		}
		none := mkNot(mkOr(any...))
		if r.dom.eval(none) != 0 {
			with(none, r.m(int(i.Arg), pos))
		}
	default:
		if pos >= len(r.t) {
			break
		}
		c := r.p.cls(i)
		t := r.t[pos]
		g := c.ascTerm(t)
		g = mkAnd(r.in[pos], g)
		if r.dom.eval(g) != 0 {
			with(g, r.m(int(i.Out), pos+1))
		}
		if c.high == 2 {
			for _, h := range r.high(pos) {
				_ = h
				r.x.fail("regular expression class which separates non-ASCII characters")
			}
		}
		if c.high == 1 {
			for _, h := range r.high(pos) {
				with(h.g, r.m(int(i.Out), pos+h.w))
			}
		}
	}
	delete(r.busy, k)
	r.memo[k] = outs
	return outs
}

// inDoExecute models (re *Regexp) doExecute(r io.RuneReader, b []byte, s string, pos int, ncap int, dstCap []int) []int
func inDoExecute(x *Exec, fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	st := fs.st
	if len(args) != 7 {
		x.fail("regexp.doExecute has an unexpected signature")
	}
	p, _ := x.reOf(&st, args[0])
	if x.iface(&st, args[1]).typ != nil {
		x.fail("matching of a RuneReader")
	}
	var sl Slice
	b := args[2].(Slice)
	if b.obj != 0 {
		sl = b
	} else {
		sl = x.strToBytes(&st, x.str(args[3]))
	}
	ncap := cInt(x, args[5])
	dst := args[6].(Slice)
	if dst.obj != 0 && dst.len != zInt && st.pc.dom.simp(dst.len) != zInt {
		x.fail("doExecute with a non-empty destination")
	}
	var out []ret
	for _, pc := range x.choices(&st, args[4].(*Term), "match position") {
		npc := st.pc.add(pc.g)
		if npc == nil {
			continue
		}
		s1 := st
		s1.pc = npc
		out = append(out, x.reExec(s1, p, sl, int(int64(pc.leaf.val)), ncap)...)
	}
	return out
}

func (x *Exec) reExec(st State, p *reProg, sl Slice, start, ncap int) []ret {
	r := &reRun{x: x, p: p, dom: st.pc.dom, memo: map[[2]int][]reOut{}, busy: map[[2]int]bool{}}
	if sl.obj != 0 {
		o := x.obj(&st, sl.obj)
		off := st.pc.dom.simp(sl.off)
		if off.op != OConst {
			x.fail("matching at a symbolic slice offset")
		}
		max := 0
		for _, c := range x.choices(&st, sl.len, "text length") {
			if n := int(c.leaf.val); n > max {
				max = n
			}
		}
		for i := 0; i < max; i++ {
			r.t = append(r.t, o.slots[int(off.val)+i].(*Term))
			r.in = append(r.in, st.pc.dom.simp(mkSlt(mkInt(i), sl.len)))
		}
	}
	if st.apart {
		return x.reApart(st, r, sl, start, ncap)
	}
	var outs []reOut
	m := map[string]int{}
	rest := True
	for s := start; s <= len(r.t); s++ {
		g := rest
		if s > 0 {
			g = mkAnd(g, r.in[s-1]) // s <= len
		}
		if r.dom.eval(g) == 0 {
			break
		}
		var any []*Term
		for _, o := range r.m(p.prog.Start, s) {
			any = append(any, o.g)
			c := append([]int(nil), o.caps...)
			c[0] = s
			addOut(m, &outs, reOut{mkAnd(g, o.g), c})
		}
		rest = mkAnd(rest, mkNot(mkOr(any...)))
		// starts beyond the first are only tried at rune boundaries
		if s < len(r.t) {
			for _, h := range r.high(s) {
				if h.w > 1 {
					// skipping into the middle of a rune only matters when something can match there
					for k := 1; k < h.w; k++ {
						for _, o := range r.m(p.prog.Start, s+k) {
							if r.dom.eval(mkAnd(rest, h.g, o.g)) != 0 && o.caps[1] == s+k {
								x.fail("match start inside a multi-byte character")
							}
						}
					}
				}
			}
		}
	}
	// no match: the text is in every case exhausted
	var res []ret
	if pc := st.pc.add(mkNot(mkOr(guardsOf(outs)...))); pc != nil {
		s1 := st
		s1.pc = pc
		res = append(res, ret{st: s1, val: Slice{0, zInt, zInt, zInt}})
	}
	if len(outs) > 3000 {
		x.fail("too many matches")
	}
	for _, o := range outs {
		pc := st.pc.add(o.g)
		if pc == nil {
			continue
		}
		s1 := st
		s1.pc = pc
		obj := &Object{typ: types.Typ[types.Int], array: true}
		for i := 0; i < ncap; i++ {
			v := -1
			if i < len(o.caps) {
				v = o.caps[i]
			}
			obj.slots = append(obj.slots, mkInt(v))
		}
		if ncap == 0 {
			obj.slots = append(obj.slots, mkInt(0))
		}
		id := x.alloc(&s1, obj)
		res = append(res, ret{st: s1, val: Slice{id, zInt, mkInt(ncap), mkInt(len(obj.slots))}})
	}
	return res
}

func guardsOf(os []reOut) []*Term {
	var r []*Term
	for _, o := range os {
		r = append(r, o.g)
	}
	return r
}

// reApart matches with one state for every way the classes of the characters decide the matcher's tests: the
// backtracking matcher is run again and again, splitting the path where a test can go both ways.
func (x *Exec) reApart(st State, r *reRun, sl Slice, start, ncap int) []ret {
	var work []*PC
	var lens []int
	if sl.obj == 0 {
		work, lens = []*PC{st.pc}, []int{0}
	} else {
		for _, c := range x.choices(&st, sl.len, "text length") {
			if pc := st.pc.add(c.g); pc != nil {
				work = append(work, pc)
				lens = append(lens, int(c.leaf.val))
			}
		}
	}
	all := r.t
	var res []ret
	for len(work) > 0 {
		if x.deadline != nil && x.deadline() {
			x.fail("time budget exhausted in matching")
		}
		pc, n := work[len(work)-1], lens[len(lens)-1]
		work, lens = work[:len(work)-1], lens[:len(lens)-1]
		r.dom = pc.dom
		r.t = all[:n]
		r.in = make([]*Term, n)
		for i := range r.in {
			r.in[i] = True
		}
		b := &reBack{r: r, seen: map[[2]int]bool{}, caps: make([]int, 2*(r.p.ncap+1))}
		ok := b.search(start)
		if b.need != nil {
			for _, g := range []*Term{mkNot(b.need), b.need} {
				if p2 := pc.add(g); p2 != nil {
					work = append(work, p2)
					lens = append(lens, n)
				}
			}
			continue
		}
		s1 := st
		s1.pc = pc
		if !ok {
			res = append(res, ret{st: s1, val: Slice{0, zInt, zInt, zInt}})
			continue
		}
		obj := &Object{typ: types.Typ[types.Int], array: true}
		for i := 0; i < ncap; i++ {
			v := -1
			if i < len(b.caps) {
				v = b.caps[i]
			}
			obj.slots = append(obj.slots, mkInt(v))
		}
		if ncap == 0 {
			obj.slots = append(obj.slots, mkInt(0))
		}
		id := x.alloc(&s1, obj)
		res = append(res, ret{st: s1, val: Slice{id, zInt, mkInt(ncap), mkInt(len(obj.slots))}})
	}
	return res
}

// reBack is the backtracking matcher; need is the test which could not be decided.
type reBack struct {
	r    *reRun
	seen map[[2]int]bool
	caps []int
	need *Term
}

func (b *reBack) decide(g *Term) bool {
	if b.need != nil {
		return false
	}
	v, u := b.leaf(b.r.dom.simp(g))
	b.need = u
	return v
}

// leaf decides a test, or finds an undecided part of it: a test of several characters is decided one character at a
// time, so that the path always learns from it
func (b *reBack) leaf(g *Term) (bool, *Term) {
	switch g.op {
	case ONot:
		v, u := b.leaf(g.args[0])
		return !v, u
	case OAnd:
		var und *Term
		for _, a := range g.args {
			v, u := b.leaf(a)
			switch {
			case u != nil && und == nil:
				und = u
			case u == nil && !v:
				return false, nil
			}
		}
		return und == nil, und
	}
	switch b.r.dom.eval(g) {
	case 0:
		return false, nil
	case 1:
		return true, nil
	}
	if g.op != OTab {
		b.r.x.fail("test of several characters at once")
	}
	return false, g
}

// width of the character at i, 0 for ASCII
func (b *reBack) width(i int) int {
	if !b.decide(rangeT(b.r.t[i], 128, 255)) {
		return 0
	}
	for _, h := range b.r.high(i) {
		if b.decide(h.g) {
			return h.w
		}
	}
	if b.need == nil {
		b.r.x.fail("character of no width")
	}
	return 1
}

func (b *reBack) search(start int) bool {
	for s := start; s <= len(b.r.t); {
		for k := range b.caps {
			b.caps[k] = -1
		}
		if b.m(b.r.p.prog.Start, s) {
			b.caps[0] = s
			return true
		}
		if b.need != nil || s == len(b.r.t) {
			return false
		}
		w := b.width(s)
		if w == 0 {
			w = 1
		}
		s += w
	}
	return false
}

func (b *reBack) m(pc, pos int) bool {
	if b.need != nil {
		return false
	}
	k := [2]int{pc, pos}
	if b.seen[k] {
		return false
	}
	b.seen[k] = true
	i := &b.r.p.prog.Inst[pc]
	switch i.Op {
	case syntax.InstFail:
		return false
	case syntax.InstMatch:
		b.caps[1] = pos
		return true
	case syntax.InstNop:
		return b.m(int(i.Out), pos)
	case syntax.InstCapture:
		c := int(i.Arg)
		if c >= len(b.caps) {
			return b.m(int(i.Out), pos)
		}
		old := b.caps[c]
		b.caps[c] = pos
		if b.m(int(i.Out), pos) {
			return true
		}
		b.caps[c] = old
		return false
	case syntax.InstEmptyWidth:
		return b.decide(b.r.empty(syntax.EmptyOp(i.Arg), pos)) && b.m(int(i.Out), pos)
	case syntax.InstAlt, syntax.InstAltMatch:
		return b.m(int(i.Out), pos) || b.m(int(i.Arg), pos)
	}
	if pos >= len(b.r.t) {
		return false
	}
	c := b.r.p.cls(i)
	w := b.width(pos)
	if b.need != nil {
		return false
	}
	if w > 0 {
		if c.high == 2 {
			b.r.x.fail("regular expression class which separates non-ASCII characters")
		}
		return c.high == 1 && b.m(int(i.Out), pos+w)
	}
	return b.decide(c.ascTerm(b.r.t[pos])) && b.m(int(i.Out), pos+1)
}

// ascTerm says that the byte t is an ASCII character of the class
func (c *reClass) ascTerm(t *Term) *Term {
	if t.op == OConst {
		return mkBool(t.val < 128 && c.ascii[t.val/64]>>(t.val%64)&1 != 0)
	}
	if t.op == OTab {
		return tabBFunc(t.v, func(k int) bool { b := t.tab[k]; return b < 128 && c.ascii[b/64]>>(b%64)&1 != 0 })
	}
	var ors []*Term
	for b := 0; b < 128; b++ {
		if c.ascii[b/64]>>(uint(b)%64)&1 != 0 {
			e := b
			for e+1 < 128 && c.ascii[(e+1)/64]>>(uint(e+1)%64)&1 != 0 {
				e++
			}
			ors = append(ors, rangeT(t, b, e))
			b = e
		}
	}
	return mkOr(ors...)
}
