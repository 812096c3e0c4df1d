package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) newID() int { x.nextObj++; return x.nextObj }

func (x *Exec) obj(st *State, id int) *Object {
	if o := st.heap.get(id); o != nil {
		if o.gl != nil {
			o = x.plainList(st, id, o)
			st.heap = st.heap.with(id, o)
		}
		return o
	}
	if o := x.base[id]; o != nil {
		return o
	}
	panic(fmt.Sprintf("no object %d", id))
}

func (x *Exec) alloc(st *State, o *Object) int {
	id := x.newID()
	st.heap = st.heap.with(id, o)
	return id
}

func (x *Exec) allocType(st *State, t types.Type) Ptr {
	o := &Object{typ: t, slots: flatten(zeroValue(t), t, nil)}
	return Ptr{x.alloc(st, o), zInt}
}

func (x *Exec) allocBytes(st *State, b []*Term) int {
	o := &Object{typ: types.Typ[types.Uint8], array: true, slots: make([]Value, len(b))}
	for i, t := range b {
		o.slots[i] = t
	}
	return x.alloc(st, o)
}

// choices enumerates the constant values of an index term under the path condition
func (x *Exec) choices(st *State, t *Term, what string) []leafG {
	t = st.pc.dom.simp(t)
	if t.op == OConst {
		return []leafG{{t, True}}
	}
	cs, ok := constLeaves(t, st.pc.dom, 1200)
	if !ok {
		x.fail("symbolic %s without a small set of values", what)
	}
	return cs
}

// smallIndex makes an index known to be less than n one of n constants
func (x *Exec) smallIndex(st *State, i *Term, n int) *Term {
	i = st.pc.dom.simp(i)
	if i.op == OConst || n > 300 {
		return i
	}
	if _, ok := constLeaves(i, st.pc.dom, 1200); ok {
		return i
	}
	r := mkInt(0)
	for k := n - 1; k > 0; k-- {
		r = mkIte(mkEq(i, mkInt(k)), mkInt(k), r)
	}
	return r
}

func (x *Exec) sliceIndex(st *State, i, n *Term) *Term {
	i = st.pc.dom.simp(i)
	if n = st.pc.dom.simp(n); n.op == OConst {
		return x.smallIndex(st, i, int(n.val))
	}
	return i
}

func (x *Exec) guardedValues(gs []*Term, vs []Value) Value {
	m := &merger{x: x, n: len(gs), sel: &Var{}, is: gs}
	// shapes must agree
	for _, v := range vs[1:] {
		if !sameShape(vs[0], v) {
			x.fail("choice between values of different shape")
		}
	}
	return m.value(vs)
}

func sameShape(a, b Value) bool {
	switch y := a.(type) {
	case *Term:
		z, ok := b.(*Term)
		return ok && z.w == y.w
	case *Str:
		_, ok := b.(*Str)
		return ok
	case Slice:
		z, ok := b.(Slice)
		return ok && z.obj == y.obj
	case Ptr:
		z, ok := b.(Ptr)
		return ok && z.obj == y.obj
	case MapV:
		z, ok := b.(MapV)
		return ok && z.obj == y.obj
	case Iface:
		z, ok := b.(Iface)
		if !ok || (z.typ == nil) != (y.typ == nil) {
			return false
		}
		return y.typ == nil || (types.Identical(y.typ, z.typ) && sameShape(y.val, z.val))
	case Func:
		z, ok := b.(Func)
		return ok && z.fn == y.fn && len(z.binds) == 0 && len(y.binds) == 0
	case Agg:
		z, ok := b.(Agg)
		if !ok || len(z.f) != len(y.f) {
			return false
		}
		for i := range y.f {
			if !sameShape(y.f[i], z.f[i]) {
				return false
			}
		}
		return true
	case Poison:
		_, ok := b.(Poison)
		return ok
	}
	return false
}

func (x *Exec) load(st *State, p Ptr, t types.Type) Value {
	var o *Object
	if st.physObj == p.obj && p.obj != 0 {
		o = st.heap.get(p.obj) // the address comes from a loop over the list
	} else {
		o = x.obj(st, p.obj)
	}
	n := nslots(t)
	off := st.pc.dom.simp(p.off)
	get := func(k int) Value {
		if n == 0 {
			v, _ := unflatten(nil, t)
			return v
		}
		if k+n > len(o.slots) || k < 0 {
			return nil
		}
		v, _ := unflatten(o.slots[k:k+n], t)
		return v
	}
	var v Value
	if off.op == OConst {
		v = get(int(off.val))
		if v == nil {
			x.fail("load outside the object")
		}
	} else {
		cs := x.choices(st, off, "address")
		var gs []*Term
		var vs []Value
		for _, c := range cs {
			y := get(int(c.leaf.val))
			if y == nil {
				continue
			}
			gs = append(gs, c.g)
			vs = append(vs, y)
		}
		if len(vs) == 0 {
			x.fail("load outside the object")
		}
		if len(vs) == 1 {
			v = vs[0]
		} else {
			v = x.guardedValues(gs, vs)
		}
	}
	// reinterpretation of slice and string headers
	if s, ok := v.(Slice); ok && isString(t) {
		return x.liveStr(st, s)
	}
	if s, ok := v.(*Str); ok {
		if _, isSl := t.Underlying().(*types.Slice); isSl {
			return x.strBytesRO(st, s)
		}
	}
	if po, ok := v.(Poison); ok {
		x.fail("poison value: %s", po.why)
	}
	return v
}

func (x *Exec) noteWrite(st *State, id int, o *Object) {
	if o.flags&fReadOnly != 0 {
		x.obl("write", *st, True, "write to the caller's input")
	}
	if o.flags&fString != 0 {
		x.obl("write", *st, True, "write to the memory of a string")
	}
	if st.lock == 0 {
		if o.flags&fShared != 0 {
			x.obl("write", *st, True, "write to an argument shared between concurrent calls")
		}
		if st.noGlobal && (o.flags&fGlobal != 0) {
			x.obl("write", *st, True, "write to package-level state "+o.name)
		}
	}
}

func (x *Exec) setObj(st *State, id int, o *Object) {
	st.heap = st.heap.with(id, o)
}

func (x *Exec) store(st *State, p Ptr, v Value, t types.Type) {
	o := x.obj(st, p.obj)
	x.noteWrite(st, p.obj, o)
	n := nslots(t)
	if n == 0 {
		return
	}
	off := st.pc.dom.simp(p.off)
	no := &Object{typ: o.typ, array: o.array, flags: o.flags, name: o.name, slots: append([]Value(nil), o.slots...)}
	fl := flatten(v, t, nil)
	if off.op == OConst {
		k := int(off.val)
		if k+n > len(no.slots) || k < 0 {
			x.fail("store outside the object")
		}
		copy(no.slots[k:], fl)
	} else {
		for _, c := range x.choices(st, off, "address") {
			k := int(c.leaf.val)
			if k < 0 || k+n > len(no.slots) {
				continue
			}
			for i := 0; i < n; i++ {
				no.slots[k+i] = x.iteV(c.g, fl[i], no.slots[k+i])
			}
		}
	}
	x.setObj(st, p.obj, no)
}

func (x *Exec) iteV(c *Term, a, b Value) Value {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if ta, ok := a.(*Term); ok {
		if tb, ok := b.(*Term); ok {
			return mkIte(c, ta, tb)
		}
	}
	if a == nil || b == nil {
		x.fail("conditional write of an unset slot")
	}
	return x.guardedValues([]*Term{c, mkNot(c)}, []Value{a, b})
}

// vecOf returns the interned content of a byte array object
func (x *Exec) vecOf(st *State, id int) *Vec {
	o := x.obj(st, id)
	if o.vec != nil {
		return o.vec
	}
	b := make([]*Term, len(o.slots))
	for i, s := range o.slots {
		t, ok := s.(*Term)
		if !ok {
			x.fail("bytes of a non-byte object")
		}
		b[i] = t
	}
	o.vec = internVec(b)
	return o.vec
}

// sliceAlts enumerates (off,len) alternatives of a slice
type span struct {
	g      *Term
	off, n int
}

func (x *Exec) spans(st *State, s Slice) []span {
	if s.obj == 0 {
		return []span{{True, 0, 0}}
	}
	os := x.choices(st, s.off, "slice offset")
	ls := x.choices(st, s.len, "slice length")
	var r []span
	for _, o := range os {
		for _, l := range ls {
			g := mkAnd(o.g, l.g)
			if st.pc.dom.eval(g) == 0 {
				continue
			}
			r = append(r, span{g, int(int64(o.leaf.val)), int(int64(l.leaf.val))})
		}
	}
	if len(r) > 20000 {
		x.fail("too many slice alternatives")
	}
	return r
}

func normAlts(alts []strAlt) *Str {
	if len(alts) == 1 {
		alts[0].g = True
	}
	return &Str{alts: alts}
}

// bytesToStr: string(b)
func (x *Exec) bytesToStr(st *State, s Slice) *Str {
	if s.obj == 0 {
		return litStr("")
	}
	sp := x.spans(st, s)
	v := x.vecOf(st, s.obj)
	var alts []strAlt
	var empty *Term = False
	for _, p := range sp {
		if p.n == 0 {
			empty = mkOr(empty, p.g)
			continue
		}
		if p.n < 0 || p.off < 0 || p.off+p.n > len(v.b) {
			continue
		}
		alts = append(alts, strAlt{g: p.g, kind: 'v', vec: v, off: p.off, n: p.n})
	}
	if empty != False {
		alts = append(alts, strAlt{g: empty, kind: 'v', vec: internVec(nil)})
	}
	if len(alts) == 0 {
		return litStr("")
	}
	return normAlts(alts)
}

func (x *Exec) liveStr(st *State, s Slice) *Str {
	if s.obj == 0 {
		return litStr("")
	}
	var alts []strAlt
	for _, p := range x.spans(st, s) {
		if p.n == 0 {
			alts = append(alts, strAlt{g: p.g, kind: 'v', vec: internVec(nil)})
			continue
		}
		alts = append(alts, strAlt{g: p.g, kind: 'l', obj: s.obj, off: p.off, n: p.n})
	}
	return normAlts(alts)
}

// plain returns the alternatives of a string as immutable vectors (current content for live ones, expanded formats)
func (x *Exec) plain(st *State, s *Str) []strAlt {
	all := true
	for _, a := range s.alts {
		if a.kind != 'v' {
			all = false
		}
	}
	d := st.pc.dom
	var r []strAlt
	if all {
		if len(s.alts) == 1 {
			return s.alts
		}
		for _, a := range s.alts {
			switch d.eval(a.g) {
			case 0:
				continue
			case 1:
				b := a
				b.g = True
				return []strAlt{b}
			}
			r = append(r, a)
		}
		if len(r) == 0 {
			r = append(r, s.alts[0])
		}
		if len(r) == 1 {
			r = []strAlt{r[0]}
			r[0].g = True
		}
		return r
	}
	for _, a := range s.alts {
		if d.eval(a.g) == 0 {
			continue
		}
		switch a.kind {
		case 'v':
			r = append(r, a)
		case 'l':
			r = append(r, strAlt{g: a.g, kind: 'v', vec: x.vecOf(st, a.obj), off: a.off, n: a.n})
		case 'f':
			for _, b := range x.plain(st, x.expandFmt(st, a.fmt)) {
				g := mkAnd(a.g, b.g)
				if g == False {
					continue
				}
				b.g = g
				r = append(r, b)
			}
		}
	}
	if len(r) == 1 {
		r[0].g = True
	}
	return r
}

func (a strAlt) at(i int) *Term { return a.vec.b[a.off+i] }

func (x *Exec) strLen(st *State, s *Str) *Term {
	var ls []leafG
	for _, a := range x.plain(st, s) {
		ls = append(ls, leafG{mkInt(a.n), a.g})
	}
	return mkSel(64, ls)
}

// strAt: byte at index, assumed in range
func (x *Exec) strAt(st *State, s *Str, idx *Term) *Term {
	cs := x.choices(st, idx, "string index")
	var ls []leafG
	al := x.plain(st, s)
	var gen *Term
	for _, c := range cs {
		i := int(int64(c.leaf.val))
		for _, a := range al {
			if i < 0 || i >= a.n {
				continue
			}
			g := mkAnd(c.g, a.g)
			if g == False {
				continue
			}
			t := a.at(i)
			l := leaves(t)
			if l == nil {
				if gen == nil {
					gen = t
				} else {
					gen = mkIte(g, t, gen)
				}
				continue
			}
			for _, y := range l {
				ls = append(ls, leafG{y.leaf, mkAnd(g, y.g)})
			}
		}
	}
	if gen != nil {
		r := gen
		for _, l := range ls {
			r = mkIte(l.g, l.leaf, r)
		}
		return r
	}
	if len(ls) == 0 {
		return mkConst(8, 0)
	}
	return mkSel(8, ls)
}

func (x *Exec) strSlice(st *State, s *Str, lo, hi *Term) *Str {
	los := []leafG{{zInt, True}}
	if lo != nil {
		los = x.choices(st, lo, "string slice bound")
	}
	var his []leafG
	if hi != nil {
		his = x.choices(st, hi, "string slice bound")
	}
	var alts []strAlt
	m := map[string]int{}
	for _, a := range s.alts {
		if a.kind == 'f' {
			for _, b := range x.plain(st, x.expandFmt(st, a.fmt)) {
				b.g = mkAnd(a.g, b.g)
				x.sliceAlt(st, b, los, his, &alts, m)
			}
			continue
		}
		x.sliceAlt(st, a, los, his, &alts, m)
	}
	if len(alts) == 0 {
		return litStr("")
	}
	if len(alts) > 5000 {
		x.fail("too many string alternatives")
	}
	return normAlts(alts)
}

func (x *Exec) sliceAlt(st *State, a strAlt, los, his []leafG, alts *[]strAlt, m map[string]int) {
	if st.pc.dom.eval(a.g) == 0 {
		return
	}
	hs := his
	if hs == nil {
		hs = []leafG{{mkInt(a.n), True}}
	}
	da := st.pc.dom.under(a.g, len(los)*len(hs))
	if da == nil {
		return
	}
	for _, l := range los {
		dl := da.under(l.g, len(hs))
		if dl == nil {
			continue
		}
		for _, h := range hs {
			i, j := int(int64(l.leaf.val)), int(int64(h.leaf.val))
			if i < 0 || j < i || j > a.n {
				continue
			}
			if dl.eval(h.g) == 0 {
				continue
			}
			g := mkAnd(a.g, l.g, h.g)
			if st.pc.dom.eval(g) == 0 {
				continue
			}
			b := a
			b.g = g
			b.off += i
			b.n = j - i
			if b.n == 0 {
				b = strAlt{g: g, kind: 'v', vec: internVec(nil)}
			}
			k := altKey(b)
			if q, ok := m[k]; ok {
				(*alts)[q].g = mkOr((*alts)[q].g, g)
				continue
			}
			m[k] = len(*alts)
			*alts = append(*alts, b)
		}
	}
}

// extendView: p followed by the literal q (or q preceded by the literal p) as one view, when the bytes there are known
// to be those of the literal.
func extendView(d *Dom, p, q strAlt) (strAlt, bool) {
	const most = 8
	lit := func(a strAlt) bool {
		for i := 0; i < a.n; i++ {
			if a.at(i).op != OConst {
				return false
			}
		}
		return true
	}
	if p.n == 0 || q.n == 0 {
		return strAlt{}, false
	}
	if q.n <= most && lit(q) && !lit(p) {
		if p.off+p.n+q.n > len(p.vec.b) {
			return strAlt{}, false
		}
		for i := 0; i < q.n; i++ {
			if t := p.vec.b[p.off+p.n+i]; t == nil || d.simp(t) != q.at(i) {
				return strAlt{}, false
			}
		}
		return strAlt{kind: 'v', vec: p.vec, off: p.off, n: p.n + q.n}, true
	}
	if p.n <= most && lit(p) && !lit(q) {
		if q.off < p.n {
			return strAlt{}, false
		}
		d = d.under(q.g, most)
		if d == nil {
			return strAlt{}, false
		}
		for i := 0; i < p.n; i++ {
			if t := q.vec.b[q.off-p.n+i]; t == nil || d.simp(t) != p.at(i) {
				return strAlt{}, false
			}
		}
		return strAlt{kind: 'v', vec: q.vec, off: q.off - p.n, n: p.n + q.n}, true
	}
	return strAlt{}, false
}

func (x *Exec) strConcat(st *State, a, b *Str) *Str {
	if s, ok := a.concrete(); ok && s == "" {
		return b
	}
	if s, ok := b.concrete(); ok && s == "" {
		return a
	}
	pa, pb := x.plain(st, a), x.plain(st, b)
	var alts []strAlt
	m := map[string]int{}
	for _, p := range pa {
		dp := st.pc.dom.under(p.g, len(pb))
		if dp == nil {
			continue
		}
		for _, q := range pb {
			if dp.eval(q.g) == 0 {
				continue
			}
			g := mkAnd(p.g, q.g)
			if st.pc.dom.eval(g) == 0 {
				continue
			}
			var c strAlt
			if p.n > 0 && q.n > 0 && p.vec == q.vec && p.off+p.n == q.off {
				c = strAlt{g: g, kind: 'v', vec: p.vec, off: p.off, n: p.n + q.n}
			} else if y, ok := extendView(dp, p, q); ok {
				y.g = g
				c = y
			} else {
				bs := make([]*Term, 0, p.n+q.n)
				bs = append(bs, p.vec.b[p.off:p.off+p.n]...)
				bs = append(bs, q.vec.b[q.off:q.off+q.n]...)
				c = strAlt{g: g, kind: 'v', vec: internVec(bs), n: len(bs)}
			}
			k := altKey(c)
			if i, ok := m[k]; ok {
				alts[i].g = mkOr(alts[i].g, g)
				continue
			}
			m[k] = len(alts)
			alts = append(alts, c)
			if len(alts) > maxAlts {
				if ca, cb := collapse(pa), collapse(pb); len(ca) < len(pa) || len(cb) < len(pb) {
					return x.strConcat(st, normAlts(ca), normAlts(cb))
				}
				if len(alts) > 5000 {
					x.fail("too many string alternatives")
				}
			}
		}
	}
	if len(alts) == 0 {
		return litStr("")
	}
	return normAlts(alts)
}

const maxAlts = 400

// collapse gives the alternatives of a string by length only: one sequence of bytes, each a selection among those of
// the alternatives.
func collapse(al []strAlt) []strAlt {
	max := 0
	by := map[int][]*Term{}
	var lens []int
	for _, a := range al {
		if a.n > max {
			max = a.n
		}
		if by[a.n] == nil {
			lens = append(lens, a.n)
		}
		by[a.n] = append(by[a.n], a.g)
	}
	if len(lens) == len(al) {
		return al
	}
	b := make([]*Term, max)
	for i := range b {
		var gs, ts []*Term
		for _, a := range al {
			if i < a.n {
				gs = append(gs, a.g)
				ts = append(ts, a.at(i))
			}
		}
		b[i] = guardedTerms(gs, ts)
	}
	v := internVec(b)
	sort.Ints(lens)
	r := make([]strAlt, 0, len(lens))
	for _, n := range lens {
		if n == 0 {
			r = append(r, strAlt{g: mkOr(by[n]...), kind: 'v', vec: internVec(nil)})
			continue
		}
		r = append(r, strAlt{g: mkOr(by[n]...), kind: 'v', vec: v, n: n})
	}
	return r
}

func (x *Exec) strEq(st *State, a, b *Str) *Term {
	if a == b {
		return True
	}
	// formatted strings with the same format
	if len(a.alts) == 1 && len(b.alts) == 1 && a.alts[0].kind == 'f' && b.alts[0].kind == 'f' && a.alts[0].fmt.key == b.alts[0].fmt.key {
		return True
	}
	pa, pb := x.plain(st, a), x.plain(st, b)
	var ors []*Term
	by := map[int][]strAlt{}
	for _, q := range pb {
		by[q.n] = append(by[q.n], q)
	}
	for _, p := range pa {
		dp := st.pc.dom.under(p.g, len(by[p.n]))
		if dp == nil {
			continue
		}
		for _, q := range by[p.n] {
			if dp.eval(q.g) == 0 {
				continue
			}
			g := mkAnd(p.g, q.g)
			if st.pc.dom.eval(g) == 0 {
				continue
			}
			e := x.altEq(st, p, q)
			if e == False {
				continue
			}
			ors = append(ors, mkAnd(g, e))
		}
	}
	return mkOr(ors...)
}

var altEqCache = map[[6]int]*Term{}

func (x *Exec) altEq(st *State, p, q strAlt) *Term {
	if p.n != q.n {
		return False
	}
	if p.n == 0 || (p.vec == q.vec && p.off == q.off) {
		return True
	}
	k := [6]int{p.vec.id, p.off, p.n, q.vec.id, q.off, q.n}
	if t, ok := altEqCache[k]; ok {
		return t
	}
	var as []*Term
	r := True
	for i := 0; i < p.n; i++ {
		e := mkEq(p.at(i), q.at(i))
		if e == False {
			r = False
			break
		}
		if e != True {
			as = append(as, e)
		}
	}
	if r == True {
		r = mkAnd(as...)
	}
	altEqCache[k] = r
	return r
}

func (x *Exec) strLess(st *State, a, b *Str) *Term {
	var ors []*Term
	for _, p := range x.plain(st, a) {
		for _, q := range x.plain(st, b) {
			g := mkAnd(p.g, q.g)
			if g == False {
				continue
			}
			ors = append(ors, mkAnd(g, bytesLess(p, q)))
		}
	}
	return mkOr(ors...)
}

func bytesLess(p, q strAlt) *Term {
	n := p.n
	if q.n < n {
		n = q.n
	}
	r := mkBool(p.n < q.n)
	for i := n - 1; i >= 0; i-- {
		r = mkOr(mkUlt(p.at(i), q.at(i)), mkAnd(mkEq(p.at(i), q.at(i)), r))
	}
	return r
}

// strToBytes: []byte(s), a fresh array
func (x *Exec) strToBytes(st *State, s *Str) Slice {
	al := x.plain(st, s)
	max := 0
	for _, a := range al {
		if a.n > max {
			max = a.n
		}
	}
	b := make([]*Term, max)
	for i := range b {
		var gs []*Term
		var ts []*Term
		for _, a := range al {
			if i < a.n {
				gs = append(gs, a.g)
				ts = append(ts, a.at(i))
			}
		}
		if len(ts) == 1 {
			b[i] = ts[0]
		} else {
			b[i] = guardedTerms(gs, ts)
		}
	}
	id := x.allocBytes(st, b)
	l := x.strLen(st, s)
	return Slice{id, zInt, l, l}
}

// strBytesRO: the memory of a string, for unsafe reinterpretations
func (x *Exec) strBytesRO(st *State, s *Str) Slice {
	if len(s.alts) == 1 && s.alts[0].kind == 'l' {
		a := s.alts[0]
		return Slice{a.obj, mkInt(a.off), mkInt(a.n), mkInt(a.n)}
	}
	sl := x.strToBytes(st, s)
	o := *x.obj(st, sl.obj)
	o.flags |= fString
	x.setObj(st, sl.obj, &o)
	return sl
}

// elemAt loads element i (a term) of a slice, assumed in range
func (x *Exec) elemPtr(st *State, s Slice, i *Term, es int) Ptr {
	if es != 1 {
		i = mkBin(OMul, i, mkInt(es))
	}
	return Ptr{s.obj, mkAdd(s.off, i)}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(old, need, esize int) int {
	nc := old
	if need > 2*old {
		nc = need
	} else if old < 256 {
		nc = 2 * old
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc == 0 {
		nc = need
	}
	if esize == 0 {
		return nc
	}
	by := nc * esize
	for _, c := range sizeClasses {
		if by <= c {
			return c / esize
		}
	}
	pg := 8192
	return (by + pg - 1) / pg * pg / esize
}

var stdSizes = types.SizesFor("gc", "amd64")

// appendVals implements append(s, elems...) for nElems given as term n and getter
func (x *Exec) appendSlice(st State, s Slice, et types.Type, n *Term, get func(st *State, i int) Value, others func() int) []ret {
	es := nslots(et)
	list := false
	if listElem(et) && n.op == OConst {
		if s.obj == 0 {
			list = true
		} else if o := st.heap.get(s.obj); o != nil {
			if o.gl != nil {
				if r, ok := x.appendList(st, s, et, int(n.val), get, others()); ok {
					return []ret{r}
				}
			} else if o.lenT != nil && s.off == zInt && o.lenT.op == OConst && st.pc.dom.simp(s.len) == o.lenT {
				list = true
			}
		}
	}
	newLen := mkAdd(s.len, n)
	newLen = st.pc.dom.simp(newLen)
	fits := mkNot(mkSlt(s.cap, newLen))
	ns := x.choices(&st, n, "append count")
	maxN := 0
	for _, c := range ns {
		if int(c.leaf.val) > maxN {
			maxN = int(c.leaf.val)
		}
	}
	var out []ret
	write := func(st *State, sl Slice) {
		if maxN == 0 {
			return
		}
		vals := make([]Value, maxN)
		for i := range vals {
			vals[i] = get(st, i)
		}
		sure := 0 // as many values are written on every path
		for sure < maxN && (n.op == OConst || st.pc.dom.simp(mkSlt(mkInt(sure), n)) == True) {
			sure++
		}
		first := 0
		if p := x.elemPtr(st, sl, s.len, es); sure > 0 && es > 0 {
			if off := st.pc.dom.simp(p.off); off.op == OConst {
				o := x.obj(st, p.obj)
				k := int(off.val)
				if k >= 0 && k+sure*es <= len(o.slots) {
					x.noteWrite(st, p.obj, o)
					no := &Object{typ: o.typ, array: o.array, flags: o.flags, name: o.name, slots: append([]Value(nil), o.slots...)}
					for i, v := range vals[:sure] {
						if t, ok := v.(*Term); ok && es == 1 {
							no.slots[k+i] = t
							continue
						}
						copy(no.slots[k+i*es:], flatten(v, et, nil))
					}
					x.setObj(st, p.obj, no)
					first = sure
				}
			}
		}
		for i := first; i < maxN; i++ {
			p := x.elemPtr(st, sl, mkAdd(s.len, mkInt(i)), es)
			in := mkSlt(mkInt(i), n)
			in = st.pc.dom.simp(in)
			v := vals[i]
			if in == True {
				x.store(st, p, v, et)
				continue
			}
			if in == False {
				continue
			}
			// conditional store
			o := x.obj(st, p.obj)
			x.noteWrite(st, p.obj, o)
			no := &Object{typ: o.typ, array: o.array, flags: o.flags, name: o.name, slots: append([]Value(nil), o.slots...)}
			fl := flatten(v, et, nil)
			for _, c := range x.choices(st, p.off, "append index") {
				k := int(int64(c.leaf.val))
				if k < 0 || k+es > len(no.slots) {
					continue
				}
				g := mkAnd(in, c.g)
				for q := 0; q < es; q++ {
					if no.slots[k+q] == nil {
						no.slots[k+q] = fl[q]
					} else {
						no.slots[k+q] = x.iteV(g, fl[q], no.slots[k+q])
					}
				}
			}
			x.setObj(st, p.obj, no)
		}
	}
	fit := st.pc.dom.eval(fits)
	if s.obj != 0 && fit != 0 {
		s1 := st
		pc := st.pc.add(fits)
		if pc != nil {
			s1.pc = pc
			ns := Slice{s.obj, s.off, newLen, s.cap}
			write(&s1, ns)
			if list && newLen.op == OConst {
				no := *x.obj(&s1, s.obj)
				no.lenT = newLen
				x.setObj(&s1, s.obj, &no)
			}
			out = append(out, ret{st: s1, val: ns})
		}
	}
	if s.obj == 0 || fit != 1 {
		s2 := st
		var pc *PC
		if s.obj == 0 {
			pc = st.pc
			// nil slice: appending nothing gives nil
			if st.pc.dom.eval(mkEq(n, zInt)) == 1 {
				return []ret{{st: st, val: s}}
			}
		} else {
			pc = st.pc.add(mkNot(fits))
		}
		if pc != nil {
			s2.pc = pc
			esz := int(stdSizes.Sizeof(et))
			var ls []leafG
			maxCap := 0
			for _, c := range x.choices(&s2, s.cap, "capacity") {
				for _, l := range x.choices(&s2, newLen, "length") {
					g := mkAnd(c.g, l.g)
					if s2.pc.dom.eval(g) == 0 {
						continue
					}
					oc, nl := int(c.leaf.val), int(l.leaf.val)
					if nl <= oc && s.obj != 0 {
						continue
					}
					nc := growCap(oc, nl, esz)
					if nc > maxCap {
						maxCap = nc
					}
					ls = append(ls, leafG{mkInt(nc), g})
				}
			}
			if len(ls) == 0 {
				return out
			}
			o := &Object{typ: et, array: true, slots: make([]Value, maxCap*es)}
			z := flatten(zeroValue(et), et, nil)
			for i := range o.slots {
				o.slots[i] = z[i%len(z)]
			}
			if s.obj != 0 {
				old := x.obj(&s2, s.obj)
				for _, oc := range x.choices(&s2, s.off, "offset") {
					off := int(oc.leaf.val)
					for i := 0; off+i < len(old.slots) && i < len(o.slots); i++ {
						if oc.g == True {
							o.slots[i] = old.slots[off+i]
						} else {
							o.slots[i] = x.iteV(oc.g, old.slots[off+i], o.slots[i])
						}
					}
				}
			}
			id := x.alloc(&s2, o)
			ns := Slice{id, zInt, newLen, mkSel(64, ls)}
			write(&s2, ns)
			if list && newLen.op == OConst {
				no := *x.obj(&s2, id)
				no.lenT = newLen
				x.setObj(&s2, id, &no)
			}
			out = append(out, ret{st: s2, val: ns})
		}
	}
	return out
}

type ret struct {
	st  State
	val Value
	pan *panicInfo
}

// copySlice implements copy(dst, src) with a getter for the source elements
func (x *Exec) copySlice(st *State, d Slice, et types.Type, srcLen *Term, get func(i int) Value, maxSrc int) *Term {
	es := nslots(et)
	n := mkIte(mkSlt(srcLen, d.len), srcLen, d.len)
	n = st.pc.dom.simp(n)
	if d.obj == 0 {
		return zInt
	}
	max := 0
	for _, c := range x.choices(st, n, "copy count") {
		if int(c.leaf.val) > max {
			max = int(c.leaf.val)
		}
	}
	if max > maxSrc {
		max = maxSrc
	}
	vals := make([]Value, max)
	for i := range vals {
		vals[i] = get(i)
	}
	if max == 0 {
		return n
	}
	o := x.obj(st, d.obj)
	x.noteWrite(st, d.obj, o)
	no := &Object{typ: o.typ, array: o.array, flags: o.flags, name: o.name, slots: append([]Value(nil), o.slots...)}
	for _, oc := range x.choices(st, d.off, "offset") {
		off := int(int64(oc.leaf.val))
		for i := 0; i < max; i++ {
			in := st.pc.dom.simp(mkSlt(mkInt(i), n))
			g := mkAnd(in, oc.g)
			if g == False {
				continue
			}
			fl := flatten(vals[i], et, nil)
			for q := 0; q < es; q++ {
				k := off + i*es + q
				if k < 0 || k >= len(no.slots) {
					continue
				}
				no.slots[k] = x.iteV(g, fl[q], no.slots[k])
			}
		}
	}
	x.setObj(st, d.obj, no)
	return n
}

// ---------- globals

func (x *Exec) globalPtr(g *ssa.Global) Ptr {
	id, ok := x.globals[g]
	if !ok {
		t := deref(g.Type())
		id = x.newID()
		x.globals[g] = id
		o := &Object{typ: t, slots: flatten(zeroValue(t), t, nil), flags: fGlobal, name: g.String()}
		x.base[id] = o
	}
	x.initPkg(g.Pkg)
	return Ptr{id, zInt}
}

func (x *Exec) initPkg(p *ssa.Package) {
	if p == nil || x.inited[p] {
		return
	}
	x.inited[p] = true
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	// every global gets an object first
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, has := x.globals[g]; !has {
				x.globalPtr(g)
			}
		}
	}
	nObl := len(x.obls)
	st := State{heap: &Heap{}, pc: rootPC}
	saveMax, saveA := x.maxSteps, x.aborted
	x.maxSteps = 1 << 30
	save := x.fnUsed
	x.fnUsed = map[string]int{}
	su := x.unsupported
	x.unsupported = map[string]int{}
	outs := x.callInit(st, fn)
	x.unsupported = su
	x.fnUsed = save
	x.maxSteps, x.aborted = saveMax, saveA
	x.obls = x.obls[:nObl]
	for _, o := range outs {
		for i, id := range o.st.heap.ids {
			ob := *o.st.heap.objs[i]
			ob.flags |= fGlobal
			if ob.name == "" {
				ob.name = "(initialised by " + p.Pkg.Path() + ")"
			}
			x.base[id] = &ob
		}
	}
	if len(outs) != 1 {
		if debug {
			fmt.Println("init of", p.Pkg.Path(), "gave", len(outs), "outcomes")
		}
	}
}

// callInit runs a package initialiser instruction by instruction; what cannot be executed leaves poison behind.
func (x *Exec) callInit(st State, fn *ssa.Function) (outs []Outcome) {
	fr := &frame{fn: fn, in: x.info(fn), pending: map[string]*item{}}
	fs := &fstate{st: st, regs: map[ssa.Value]Value{}}
	b := fn.Blocks[0]
	visited := 0
	for {
		visited++
		if visited > 100000 {
			break
		}
		next := (*ssa.BasicBlock)(nil)
		done := false
		for i := 0; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			switch y := ins.(type) {
			case *ssa.Phi:
				continue
			case *ssa.If:
				c, ok := x.valSafe(fs, y.Cond)
				if t, isT := c.(*Term); ok && isT && t.op == OConst {
					if t.val != 0 {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				} else {
					done = true
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				return []Outcome{{st: fs.st}}
			case *ssa.Store:
				if g, ok := y.Addr.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "init$guard") {
					continue
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							u, ok := r.(unsup)
							if !ok {
								panic(r)
							}
							if g, ok := y.Addr.(*ssa.Global); ok {
								x.setObj(&fs.st, x.globals[g], poisonObj(deref(g.Type()), "initialiser of "+g.String()+": "+u.why))
							}
						}
					}()
					v, ok := x.valSafe(fs, y.Val)
					if !ok {
						x.fail("value")
					}
					p, ok := x.valSafe(fs, y.Addr)
					if !ok {
						return
					}
					x.store(&fs.st, p.(Ptr), v, y.Val.Type())
				}()
			default:
				if c, ok := ins.(*ssa.Call); ok {
					if f := c.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != fn.Pkg {
						continue // imports are initialised lazily
					}
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(unsup); !ok {
								panic(r)
							}
						}
					}()
					res := x.instr(fr, fs, b, i, ins)
					if len(res) == 1 && res[0].pan == nil {
						fs.st = res[0].st
						if v, ok := ins.(ssa.Value); ok {
							fs.regs[v] = res[0].val
						}
					}
				}()
			}
			if next != nil || done {
				break
			}
		}
		if next == nil {
			break
		}
		// phis
		nr := map[ssa.Value]Value{}
		for k, p := range next.Preds {
			if p == b {
				for _, ins := range next.Instrs {
					if ph, ok := ins.(*ssa.Phi); ok {
						if v, ok := x.valSafe(fs, ph.Edges[k]); ok {
							nr[ph] = v
						}
					}
				}
				break
			}
		}
		for k, v := range nr {
			fs.regs[k] = v
		}
		b = next
	}
	return []Outcome{{st: fs.st}}
}

func poisonObj(t types.Type, why string) *Object {
	n := nslots(t)
	o := &Object{typ: t, slots: make([]Value, n)}
	for i := range o.slots {
		o.slots[i] = Poison{why}
	}
	return o
}

func (x *Exec) valSafe(fs *fstate, v ssa.Value) (r Value, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(unsup); is {
				r, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	r = x.val(fs, v)
	return r, r != nil
}
