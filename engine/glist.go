package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Guarded lists. A slice of integers grown by append on some paths only merges into a list whose items are present
// under a guard: item k exists iff gl[k]. The logical length is lenT. Loops which range over such a list visit the
// physical items and skip the absent ones; any other access turns the list into plain slots first.

func listy(o *Object) bool { return o.array && o.lenT != nil }

func listElem(t types.Type) bool {
	w, _, ok := basicWidth(t)
	return ok && w > 8
}

type litem struct {
	v Value
	g *Term
}

func (o *Object) items() []litem {
	if o.gl != nil {
		r := make([]litem, len(o.gl))
		for i := range r {
			r[i] = litem{o.slots[i], o.gl[i]}
		}
		return r
	}
	n := int(o.lenT.val)
	r := make([]litem, n)
	for i := range r {
		r[i] = litem{o.slots[i], True}
	}
	return r
}

// mergeLists: nil when the objects are not all lists
func (m *merger) mergeLists(objs []*Object) *Object {
	same := true
	for _, o := range objs {
		if !listy(o) || (o.gl == nil && o.lenT.op != OConst) {
			return nil
		}
		if o.gl != nil || objs[0].gl != nil || o.lenT != objs[0].lenT {
			same = false
		}
	}
	if same {
		n := int(objs[0].lenT.val)
		for _, o := range objs {
			for i := 0; i < n; i++ {
				if o.slots[i] != objs[0].slots[i] {
					same = false
				}
			}
		}
		if same {
			return nil // ordinary merging
		}
	}
	g := m.guards()
	type acc struct {
		v  Value
		by []*Term // presence in each variant
	}
	var l []acc
	for k, o := range objs {
		its := o.items()
		// longest common subsequence of the values, after the common beginning
		pre := 0
		for pre < len(l) && pre < len(its) && l[pre].v == its[pre].v {
			l[pre].by[k] = its[pre].g
			pre++
		}
		done := l[:pre:pre]
		l, its = l[pre:], its[pre:]
		a, b := len(l), len(its)
		t := make([][]int, a+1)
		for i := range t {
			t[i] = make([]int, b+1)
		}
		for i := a - 1; i >= 0; i-- {
			for j := b - 1; j >= 0; j-- {
				if l[i].v == its[j].v {
					t[i][j] = t[i+1][j+1] + 1
				} else if t[i+1][j] >= t[i][j+1] {
					t[i][j] = t[i+1][j]
				} else {
					t[i][j] = t[i][j+1]
				}
			}
		}
		r := done
		i, j := 0, 0
		add := func(it litem) {
			n := acc{it.v, make([]*Term, len(objs))}
			n.by[k] = it.g
			r = append(r, n)
		}
		for i < a || j < b {
			switch {
			case i < a && j < b && l[i].v == its[j].v:
				l[i].by[k] = its[j].g
				r = append(r, l[i])
				i++
				j++
			case j == b:
				r = append(r, l[i])
				i++
			case i == a:
				add(its[j])
				j++
			case constLess(l[i].v, its[j].v) && t[i+1][j] == t[i][j]:
				r = append(r, l[i])
				i++
			case constLess(its[j].v, l[i].v) && t[i][j+1] == t[i][j]:
				add(its[j])
				j++
			case t[i+1][j] >= t[i][j+1]:
				r = append(r, l[i])
				i++
			default:
				add(its[j])
				j++
			}
		}
		l = r
	}
	o := &Object{typ: objs[0].typ, array: true, flags: objs[0].flags, name: objs[0].name}
	for _, y := range objs {
		if y.pad > o.pad {
			o.pad = y.pad
		}
		if len(y.slots) > o.pad {
			o.pad = len(y.slots)
		}
	}
	o.gl = make([]*Term, len(l))
	o.slots = make([]Value, len(l))
	for i, it := range l {
		o.slots[i] = it.v
		all := true
		for _, y := range it.by {
			if y != it.by[0] || y == nil {
				all = false
				break
			}
		}
		if all {
			o.gl[i] = it.by[0]
			continue
		}
		var ors []*Term
		for k, y := range it.by {
			if y != nil {
				ors = append(ors, mkAnd(g[k], y))
			}
		}
		o.gl[i] = mkOr(ors...)
	}
	lens := make([]Value, len(objs))
	for k, y := range objs {
		lens[k] = y.lenT
	}
	o.lenT = m.value(lens).(*Term)
	return o
}

func constLess(a, b Value) bool {
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	return ok1 && ok2 && x.op == OConst && y.op == OConst && sext(x.val, x.w) < sext(y.val, y.w)
}

// plainList gives the plain form of a guarded list
func (x *Exec) plainList(st *State, id int, o *Object) *Object {
	if st.physObj == id {
		x.fail("access to a list while ranging over it")
	}
	n := len(o.gl)
	tot := n
	if o.pad > tot {
		tot = o.pad
	}
	no := &Object{typ: o.typ, array: true, flags: o.flags, name: o.name, slots: make([]Value, tot)}
	z := zeroValue(o.typ).(*Term)
	// cnt[k]: exactly k items present so far
	cnt := make([]*Term, n+1)
	for i := range cnt {
		cnt[i] = False
	}
	cnt[0] = True
	alts := make([][]leafG, n)
	for j := 0; j < n; j++ {
		g := st.pc.dom.simp(o.gl[j])
		for k := 0; k <= j; k++ {
			if c := mkAnd(cnt[k], g); c != False {
				alts[k] = append(alts[k], leafG{o.slots[j].(*Term), c})
			}
		}
		for k := j + 1; k > 0; k-- {
			cnt[k] = mkOr(mkAnd(cnt[k], mkNot(g)), mkAnd(cnt[k-1], g))
		}
		cnt[0] = mkAnd(cnt[0], mkNot(g))
	}
	for k := range no.slots {
		r := z
		if k < n && len(alts[k]) > 0 {
			gs := make([]*Term, len(alts[k]))
			ts := make([]*Term, len(alts[k]))
			for i, a := range alts[k] {
				gs[i], ts[i] = a.g, a.leaf
			}
			rest := mkNot(mkOr(gs...))
			if rest != False {
				gs = append(gs, rest)
				ts = append(ts, z)
			}
			r = guardedTerms(gs, ts)
		}
		no.slots[k] = r
	}
	return no
}

type rangeInfo struct {
	head  *ssa.BasicBlock
	phi   *ssa.Phi
	s     ssa.Value // the slice
	skip  ssa.Value // value of the phi after skipping an item, nil: index+1
	reads map[ssa.Instruction]bool
	body  map[*ssa.BasicBlock]bool
}

// rangeLoop recognises `for i < len(s)` headed by the block, where i serves to read s only
func (x *Exec) rangeLoop(fn *ssa.Function, y *ssa.If) *rangeInfo {
	if r, ok := x.ranges[y]; ok {
		return r
	}
	r := x.findRange(y)
	x.ranges[y] = r
	return r
}

func (x *Exec) findRange(y *ssa.If) *rangeInfo {
	b := y.Block()
	c, ok := y.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS || c.Block() != b {
		return nil
	}
	ln, ok := c.Y.(*ssa.Call)
	if !ok {
		return nil
	}
	bi, ok := ln.Call.Value.(*ssa.Builtin)
	if !ok || bi.Name() != "len" {
		return nil
	}
	s := ln.Call.Args[0]
	sl, ok := s.Type().Underlying().(*types.Slice)
	if !ok || !listElem(sl.Elem()) {
		return nil
	}
	r := &rangeInfo{head: b, s: s, reads: map[ssa.Instruction]bool{}}
	plus1 := func(v ssa.Value) (*ssa.Phi, bool) {
		o, ok := v.(*ssa.BinOp)
		if !ok || o.Op != token.ADD {
			return nil, false
		}
		k, ok := o.Y.(*ssa.Const)
		if !ok || k.Value == nil || k.Int64() != 1 {
			return nil, false
		}
		p, ok := o.X.(*ssa.Phi)
		return p, ok
	}
	var idx ssa.Value = c.X
	var inc ssa.Value
	if p, ok := idx.(*ssa.Phi); ok {
		r.phi = p
	} else if p, ok := plus1(idx); ok {
		r.phi = p
		inc = idx
		r.skip = idx
	} else {
		return nil
	}
	if r.phi.Block() != b {
		return nil
	}
	for _, e := range r.phi.Edges {
		if _, isC := e.(*ssa.Const); isC {
			continue
		}
		if p, ok := plus1(e); ok && p == r.phi && (inc == nil || inc == e) {
			inc = e
			continue
		}
		return nil
	}
	okUse := func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch q := u.(type) {
			case *ssa.DebugRef:
			case *ssa.IndexAddr:
				if q.X != s || q.Index != v || v != idx {
					return false
				}
				// the element is read only
				for _, w := range *q.Referrers() {
					if l, ok := w.(*ssa.UnOp); !ok || l.Op != token.MUL {
						return false
					}
				}
				r.reads[q] = true
			case *ssa.Phi:
				if q != r.phi {
					return false
				}
			case *ssa.BinOp:
				if ssa.Value(q) != ssa.Value(c) && ssa.Value(q) != inc {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	if !okUse(r.phi) || (inc != nil && !okUse(inc)) {
		return nil
	}
	// loop body: blocks dominated by the head from which it is reached
	r.body = map[*ssa.BasicBlock]bool{b: true}
	var back func(q *ssa.BasicBlock)
	back = func(q *ssa.BasicBlock) {
		if r.body[q] || !b.Dominates(q) {
			return
		}
		r.body[q] = true
		for _, p := range q.Preds {
			back(p)
		}
	}
	for _, p := range b.Preds {
		if b.Dominates(p) {
			back(p)
		}
	}
	if !r.body[b.Succs[0]] {
		return nil
	}
	return r
}

// rangeStep runs the loop test of a range over a guarded list; false when the state has to be treated as usual
func (x *Exec) rangeStep(fr *frame, t *task, y *ssa.If) bool {
	r := x.rangeLoop(fr.fn, y)
	if r == nil {
		return false
	}
	fs := t.fs
	sv, ok := fs.regs[r.s].(Slice)
	if !ok || sv.obj == 0 {
		return false
	}
	o := fs.st.heap.get(sv.obj)
	if o == nil || o.gl == nil {
		return false
	}
	if fs.st.physObj != 0 && !(fs.st.physObj == sv.obj && fs.st.physRI == r && fs.st.physDepth == fr.depth) {
		return false
	}
	d := fs.st.pc.dom
	if fs.st.physObj == 0 && (d.simp(sv.len) != d.simp(o.lenT) || sv.off != zInt) {
		return false
	}
	iv, ok := x.val(fs, y.Cond.(*ssa.BinOp).X).(*Term)
	if !ok || iv.op != OConst {
		return false
	}
	j := int(int64(iv.val))
	if fs.st.physObj == 0 && j != 0 {
		return false
	}
	for _, ins := range r.head.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok && ph != r.phi {
			if _, has := fs.regs[ph]; !has {
				return false
			}
		}
	}
	if j >= len(o.gl) {
		fs.st.physObj, fs.st.physRI = 0, nil
		if x.goTo(fr, t, 1) {
			x.skipPhis(t)
			fr.tasks = append(fr.tasks, *t)
		}
		return true
	}
	g := d.simp(o.gl[j])
	if p0 := fs.st.pc.add(mkNot(g)); p0 != nil {
		f2 := fs.clone()
		f2.st.pc = p0
		f2.st.physObj, f2.st.physRI, f2.st.physDepth = sv.obj, r, fr.depth
		nr := map[ssa.Value]Value{}
		li := fr.in.liveIn[r.head.Index]
		for v, val := range f2.regs {
			if li[v] {
				nr[v] = val
			}
		}
		for _, ins := range r.head.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			nr[ph] = f2.regs[ph]
		}
		if r.skip != nil {
			nr[r.phi] = iv
		} else {
			nr[r.phi] = mkAdd(iv, mkConst(iv.w, 1))
		}
		f2.regs = nr
		x.transitions++
		x.enqueue(fr, f2, r.head)
	}
	if p1 := fs.st.pc.add(g); p1 != nil {
		fs.st.pc = p1
		fs.st.physObj, fs.st.physRI, fs.st.physDepth = sv.obj, r, fr.depth
		if x.goTo(fr, t, 0) {
			x.skipPhis(t)
			fr.tasks = append(fr.tasks, *t)
		}
	}
	return true
}

// appendList appends to a guarded list in place of appendSlice
func (x *Exec) appendList(st State, s Slice, et types.Type, n int, get func(st *State, i int) Value, others int) (ret, bool) {
	o := st.heap.get(s.obj)
	if o == nil || o.gl == nil || st.physObj == s.obj || others > 0 || o.flags != 0 {
		return ret{}, false
	}
	d := st.pc.dom
	if d.simp(s.len) != d.simp(o.lenT) || s.off != zInt {
		return ret{}, false
	}
	no := &Object{typ: o.typ, array: true, name: o.name}
	no.slots = append([]Value(nil), o.slots...)
	no.gl = append([]*Term(nil), o.gl...)
	for i := 0; i < n; i++ {
		no.slots = append(no.slots, get(&st, i))
		no.gl = append(no.gl, True)
	}
	no.pad = o.pad
	no.lenT = st.pc.dom.simp(mkAdd(o.lenT, mkInt(n)))
	id := x.alloc(&st, no)
	return ret{st: st, val: Slice{id, zInt, no.lenT, no.lenT}}, true
}

// otherHeaders counts the slice headers of an object which differ from s
func (x *Exec) otherHeaders(fr *frame, fs *fstate, s Slice) int {
	n := 0
	var visit func(v Value)
	visit = func(v Value) {
		switch y := v.(type) {
		case Slice:
			if y.obj == s.obj && (y.len != s.len || y.off != s.off) {
				n++
			}
		case Ptr:
			if y.obj == s.obj {
				n++
			}
		case Agg:
			for _, f := range y.f {
				visit(f)
			}
		case Iface:
			visit(y.val)
		case Func:
			for _, f := range y.binds {
				visit(f)
			}
		}
	}
	for _, o := range fs.st.heap.objs {
		for _, v := range o.slots {
			if _, isT := v.(*Term); !isT {
				visit(v)
			}
		}
	}
	for _, v := range fs.regs {
		visit(v)
	}
	for _, v := range fr.roots {
		visit(v)
	}
	return n
}

var _ = fmt.Sprint
