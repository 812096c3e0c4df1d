package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var debug bool

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	if w, _, ok := basicWidth(t); ok {
		if w == 0 {
			return mkBool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkConst(w, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return mkConst(w, u)
	}
	if isString(t) {
		return litStr(constant.StringVal(c.Value))
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return zeroValue(t)
	}
	return Poison{"constant of type " + t.String()}
}

func (x *Exec) val(fs *fstate, v ssa.Value) Value {
	switch y := v.(type) {
	case *ssa.Const:
		return x.constVal(y)
	case *ssa.Global:
		return x.globalPtr(y)
	case *ssa.Function:
		return Func{fn: y}
	case *ssa.Builtin:
		return Func{bi: y}
	}
	r, ok := fs.regs[v]
	if !ok {
		x.fail("unset register %s (%s)", v.Name(), v.String())
	}
	return r
}

func (x *Exec) term(fs *fstate, v ssa.Value) *Term {
	r := x.val(fs, v)
	t, ok := r.(*Term)
	if !ok {
		if p, is := r.(Poison); is {
			x.fail("poison: %s", p.why)
		}
		x.fail("expected a scalar, got %T", r)
	}
	return fs.st.pc.dom.simp(t)
}

func mkPanic(msg string) *panicInfo { return &panicInfo{msg: msg, val: Iface{}} }

// check adds an alternative which panics when cond does not hold
func (x *Exec) check(st State, ok *Term, msg string, out *[]ret) (State, bool) {
	switch st.pc.dom.eval(ok) {
	case 1:
		return st, true
	case 0:
		*out = append(*out, ret{st: st, pan: mkPanic(msg)})
		return st, false
	}
	bad := st
	if pc := st.pc.add(mkNot(ok)); pc != nil {
		bad.pc = pc
		*out = append(*out, ret{st: bad, pan: mkPanic(msg)})
	}
	pc := st.pc.add(ok)
	if pc == nil {
		return st, false
	}
	st.pc = pc
	return st, true
}

func (x *Exec) run(fr *frame, t *task) {
	if t.i < 0 {
		// skip phis
		t.i = 0
		for t.i < len(t.blk.Instrs) {
			if _, ok := t.blk.Instrs[t.i].(*ssa.Phi); !ok {
				break
			}
			t.i++
		}
	}
	for {
		fs := t.fs
		b := t.blk
		ins := b.Instrs[t.i]
		switch y := ins.(type) {
		case *ssa.DebugRef:
			t.i++
			continue
		case *ssa.Jump:
			if !x.goTo(fr, t, 0) {
				return
			}
			x.skipPhis(t)
			continue
		case *ssa.If:
			if x.rangeStep(fr, t, y) {
				return
			}
			c := x.term(fs, y.Cond)
			p1 := fs.st.pc.add(c)
			p0 := fs.st.pc.add(mkNot(c))
			if p1 != nil && p0 != nil {
				f2 := fs.clone()
				f2.st.pc = p0
				t2 := task{f2, b, t.i}
				if x.goTo(fr, &t2, 1) {
					x.skipPhis(&t2)
					fr.tasks = append(fr.tasks, t2)
				}
				fs.st.pc = p1
				if !x.goTo(fr, t, 0) {
					return
				}
				x.skipPhis(t)
				continue
			}
			if p1 != nil {
				fs.st.pc = p1
				if !x.goTo(fr, t, 0) {
					return
				}
			} else if p0 != nil {
				fs.st.pc = p0
				if !x.goTo(fr, t, 1) {
					return
				}
			} else {
				return
			}
			x.skipPhis(t)
			continue
		case *ssa.Return:
			var vals []Value
			for _, r := range y.Results {
				vals = append(vals, x.val(fs, r))
			}
			if fs.st.physObj != 0 && fs.st.physDepth == fr.depth {
				fs.st.physObj, fs.st.physRI = 0, nil
			}
			fr.outs = append(fr.outs, Outcome{st: fs.st, vals: vals})
			return
		case *ssa.Panic:
			v := x.val(fs, y.X)
			x.doPanic(fr, fs, &panicInfo{val: v, msg: "explicit panic"})
			return
		case *ssa.RunDefers:
			sts := x.runDefers(fr, fs, t.blk, t.i)
			for k, f := range sts {
				if k == len(sts)-1 {
					t.fs = f
				} else {
					fr.tasks = append(fr.tasks, task{f, b, t.i + 1})
				}
			}
			if len(sts) == 0 {
				return
			}
			t.i++
			continue
		}
		rs := x.instr(fr, fs, b, t.i, ins)
		// continue with every alternative
		var conts []ret
		for _, r := range rs {
			if r.pan != nil {
				f2 := fs.clone()
				f2.st = r.st
				x.doPanic(fr, f2, r.pan)
				continue
			}
			conts = append(conts, r)
		}
		if len(conts) == 0 {
			return
		}
		for k := 1; k < len(conts); k++ {
			f2 := fs.clone()
			f2.st = conts[k].st
			if v, ok := ins.(ssa.Value); ok {
				f2.regs[v] = conts[k].val
			}
			fr.tasks = append(fr.tasks, task{f2, b, t.i + 1})
		}
		fs.st = conts[0].st
		if v, ok := ins.(ssa.Value); ok {
			fs.regs[v] = conts[0].val
		}
		t.i++
	}
}

func (x *Exec) skipPhis(t *task) {
	t.i = 0
	for t.i < len(t.blk.Instrs) {
		if _, ok := t.blk.Instrs[t.i].(*ssa.Phi); !ok {
			break
		}
		t.i++
	}
}

// runDefers runs the deferred calls in the normal (non panicking) case
func (x *Exec) runDefers(fr *frame, fs *fstate, b *ssa.BasicBlock, i int) []*fstate {
	work := []*fstate{fs}
	var done []*fstate
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if len(f.defers) == 0 {
			if f.pan != nil {
				x.finishPanic(fr, f)
				continue
			}
			done = append(done, f)
			continue
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		h := &panicHolder{pan: f.pan}
		for _, r := range x.invokeValue(fr, f, d.fn, d.inv, d.args, h) {
			g := f.clone()
			g.st = r.st
			if h.recovered {
				g.pan = nil
				g.rec = true
			}
			if r.pan != nil {
				g.pan = r.pan
				g.rec = false
			}
			work = append(work, g)
		}
	}
	return done
}

func (x *Exec) doPanic(fr *frame, fs *fstate, p *panicInfo) {
	fs.pan = p
	if len(fs.defers) == 0 {
		x.finishPanic(fr, fs)
		return
	}
	for _, f := range x.runDefers(fr, fs, nil, 0) {
		// recovered
		if fr.fn.Recover != nil {
			fr.tasks = append(fr.tasks, task{f, fr.fn.Recover, 0})
		} else {
			var vals []Value
			res := fr.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				vals = append(vals, zeroValue(res.At(i).Type()))
			}
			fr.outs = append(fr.outs, Outcome{st: f.st, vals: vals})
		}
	}
}

func (x *Exec) finishPanic(fr *frame, fs *fstate) {
	fr.outs = append(fr.outs, Outcome{st: fs.st, pan: fs.pan})
}

func one(st State, v Value) []ret { return []ret{{st: st, val: v}} }

func (x *Exec) instr(fr *frame, fs *fstate, b *ssa.BasicBlock, idx int, ins ssa.Instruction) []ret {
	st := fs.st
	switch y := ins.(type) {
	case *ssa.Alloc:
		p := x.allocType(&st, deref(y.Type()))
		return one(st, p)
	case *ssa.Call:
		x.prune(fr, fs, b, idx-1)
		return x.doCall(fr, fs, b, idx, &y.Call)
	case *ssa.Defer:
		d := deferred{key: fmt.Sprintf("%d.%d", b.Index, idx)}
		if y.Call.IsInvoke() {
			d.inv = &y.Call
			d.args = append(d.args, x.val(fs, y.Call.Value))
		} else {
			d.fn = x.val(fs, y.Call.Value)
		}
		for _, a := range y.Call.Args {
			d.args = append(d.args, x.val(fs, a))
		}
		fs.defers = append(append([]deferred(nil), fs.defers...), d)
		return one(st, nil)
	case *ssa.BinOp:
		return x.binop(fs, y)
	case *ssa.UnOp:
		return x.unop(fs, y)
	case *ssa.ChangeType:
		return one(st, x.val(fs, y.X))
	case *ssa.ChangeInterface:
		return one(st, x.val(fs, y.X))
	case *ssa.MakeInterface:
		return one(st, Iface{y.X.Type(), x.val(fs, y.X)})
	case *ssa.Convert:
		return x.convert(fs, y.X, y.Type())
	case *ssa.MultiConvert:
		return x.convert(fs, y.X, y.Type())
	case *ssa.SliceToArrayPointer:
		s := x.val(fs, y.X).(Slice)
		at := deref(y.Type()).Underlying().(*types.Array)
		var out []ret
		st, ok := x.check(st, mkNot(mkSlt(s.len, mkInt(int(at.Len())))), "slice to array conversion", &out)
		if ok {
			out = append(out, ret{st: st, val: Ptr{s.obj, s.off}})
		}
		return out
	case *ssa.MakeClosure:
		f := Func{fn: y.Fn.(*ssa.Function)}
		for _, b := range y.Bindings {
			f.binds = append(f.binds, x.val(fs, b))
		}
		return one(st, f)
	case *ssa.MakeSlice:
		et := y.Type().Underlying().(*types.Slice).Elem()
		l, c := x.term(fs, y.Len), x.term(fs, y.Cap)
		l, c = x.toInt(l, y.Len.Type()), x.toInt(c, y.Cap.Type())
		var out []ret
		st, ok := x.check(st, mkAnd(mkNot(mkSlt(l, zInt)), mkNot(mkSlt(c, l)), mkSlt(c, mkInt(1<<20))), "makeslice: len or cap out of range", &out)
		if !ok {
			return out
		}
		max := 0
		for _, k := range x.choices(&st, c, "capacity") {
			if int(k.leaf.val) > max {
				max = int(k.leaf.val)
			}
		}
		if max > 100000 {
			x.fail("huge slice")
		}
		es := nslots(et)
		z := flatten(zeroValue(et), et, nil)
		o := &Object{typ: et, array: true, slots: make([]Value, max*es)}
		for i := range o.slots {
			o.slots[i] = z[i%len(z)]
		}
		if l == zInt && listElem(et) {
			o.lenT = zInt
		}
		id := x.alloc(&st, o)
		return append(out, ret{st: st, val: Slice{id, zInt, l, c}})
	case *ssa.MakeMap:
		o := &Object{typ: y.Type(), array: true, name: "map"}
		return one(st, MapV{x.alloc(&st, o)})
	case *ssa.Slice:
		return x.sliceOp(fs, y)
	case *ssa.FieldAddr:
		p := x.ptr(fs, y.X)
		var out []ret
		if p.obj == 0 {
			return append(out, ret{st: st, pan: mkPanic("nil pointer dereference")})
		}
		s := deref(y.X.Type()).Underlying().(*types.Struct)
		return one(st, Ptr{p.obj, mkAdd(p.off, mkInt(fieldOff(s, y.Field)))})
	case *ssa.Field:
		a, ok := x.val(fs, y.X).(Agg)
		if !ok {
			x.fail("field of a non-struct value")
		}
		return one(st, a.f[y.Field])
	case *ssa.IndexAddr:
		i := x.toInt(x.term(fs, y.Index), y.Index.Type())
		var out []ret
		switch t := y.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.slice(fs, y.X)
			if st.physObj != 0 && st.physObj == s.obj {
				if fr.depth != st.physDepth || !st.physRI.reads[y] {
					x.fail("access to a list while ranging over it")
				}
				return one(st, x.elemPtr(&st, s, i, 1))
			}
			st, ok := x.check(st, mkUlt(i, s.len), "index out of range", &out)
			if ok {
				if s.obj == 0 {
					return out
				}
				out = append(out, ret{st: st, val: x.elemPtr(&st, s, x.sliceIndex(&st, i, s.len), nslots(t.Elem()))})
			}
			return out
		case *types.Pointer:
			at := t.Elem().Underlying().(*types.Array)
			p := x.ptr(fs, y.X)
			if p.obj == 0 {
				return []ret{{st: st, pan: mkPanic("nil pointer dereference")}}
			}
			st, ok := x.check(st, mkUlt(i, mkInt(int(at.Len()))), "index out of range", &out)
			if ok {
				i = x.smallIndex(&st, i, int(at.Len()))
				es := nslots(at.Elem())
				if es != 1 {
					i = mkBin(OMul, i, mkInt(es))
				}
				out = append(out, ret{st: st, val: Ptr{p.obj, mkAdd(p.off, i)}})
			}
			return out
		}
		x.fail("IndexAddr on %s", y.X.Type())
	case *ssa.Index:
		i := x.toInt(x.term(fs, y.Index), y.Index.Type())
		var out []ret
		xv := x.val(fs, y.X)
		if s, ok := xv.(*Str); ok {
			st, ok := x.check(st, mkUlt(i, x.strLen(&st, s)), "string index out of range", &out)
			if ok {
				out = append(out, ret{st: st, val: x.strAt(&st, s, i)})
			}
			return out
		}
		a, ok := xv.(Agg)
		if !ok {
			x.fail("index of %T", xv)
		}
		st, ok2 := x.check(st, mkUlt(i, mkInt(len(a.f))), "index out of range", &out)
		if ok2 {
			var gs []*Term
			var vs []Value
			for _, c := range x.choices(&st, x.smallIndex(&st, i, len(a.f)), "index") {
				if k := int(c.leaf.val); k >= 0 && k < len(a.f) {
					gs = append(gs, c.g)
					vs = append(vs, a.f[k])
				}
			}
			if len(vs) == 1 {
				out = append(out, ret{st: st, val: vs[0]})
			} else if len(vs) > 0 {
				out = append(out, ret{st: st, val: x.guardedValues(gs, vs)})
			}
		}
		return out
	case *ssa.Lookup:
		if s, ok := x.val(fs, y.X).(*Str); ok {
			i := x.toInt(x.term(fs, y.Index), y.Index.Type())
			var out []ret
			st, ok := x.check(st, mkUlt(i, x.strLen(&st, s)), "string index out of range", &out)
			if ok {
				out = append(out, ret{st: st, val: x.strAt(&st, s, i)})
			}
			return out
		}
		return x.mapLookup(fs, y)
	case *ssa.MapUpdate:
		return x.mapUpdate(fs, y)
	case *ssa.Extract:
		a, ok := x.val(fs, y.Tuple).(Agg)
		if !ok {
			x.fail("extract from %T", x.val(fs, y.Tuple))
		}
		return one(st, a.f[y.Index])
	case *ssa.Store:
		p := x.ptr(fs, y.Addr)
		if p.obj == 0 {
			return []ret{{st: st, pan: mkPanic("nil pointer dereference")}}
		}
		x.store(&st, p, x.val(fs, y.Val), y.Val.Type())
		return one(st, nil)
	case *ssa.TypeAssert:
		return x.typeAssert(fs, y)
	case *ssa.Range:
		return x.rangeOp(fs, y)
	case *ssa.Next:
		return x.nextOp(fr, fs, y)
	}
	x.fail("instruction %T", ins)
	return nil
}

func (x *Exec) ptr(fs *fstate, v ssa.Value) Ptr {
	r := x.val(fs, v)
	p, ok := r.(Ptr)
	if !ok {
		if po, is := r.(Poison); is {
			x.fail("poison: %s", po.why)
		}
		x.fail("expected a pointer, got %T", r)
	}
	if p.off == nil {
		p.off = zInt
	}
	return p
}

func (x *Exec) slice(fs *fstate, v ssa.Value) Slice {
	r := x.val(fs, v)
	s, ok := r.(Slice)
	if !ok {
		x.fail("expected a slice, got %T", r)
	}
	return s
}

// toInt widens an integer index to 64 bits
func (x *Exec) toInt(t *Term, ty types.Type) *Term {
	w, signed, ok := basicWidth(ty)
	if !ok || w == 64 {
		return t
	}
	if signed {
		return mkUn(OSext, t, 64)
	}
	return mkUn(OZext, t, 64)
}

func (x *Exec) sliceOp(fs *fstate, y *ssa.Slice) []ret {
	st := fs.st
	var lo, hi, max *Term
	g := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.toInt(x.term(fs, v), v.Type())
	}
	lo, hi, max = g(y.Low), g(y.High), g(y.Max)
	var out []ret
	if lo == nil {
		lo = zInt
	}
	xv := x.val(fs, y.X)
	if s, ok := xv.(*Str); ok {
		n := x.strLen(&st, s)
		var ok bool
		h := hi
		if h == nil {
			h = n
		}
		st, ok = x.check(st, mkAnd(mkNot(mkUlt(n, h)), mkNot(mkUlt(h, lo))), "slice bounds out of range", &out)
		if !ok {
			return out
		}
		return append(out, ret{st: st, val: x.strSlice(&st, s, lo, hi)})
	}
	var s Slice
	es := 1
	switch t := y.X.Type().Underlying().(type) {
	case *types.Slice:
		s = xv.(Slice)
		es = nslots(t.Elem())
	case *types.Pointer:
		p := x.ptr(fs, y.X)
		if p.obj == 0 {
			return []ret{{st: st, pan: mkPanic("nil pointer dereference")}}
		}
		at := t.Elem().Underlying().(*types.Array)
		es = nslots(at.Elem())
		n := mkInt(int(at.Len()))
		s = Slice{p.obj, p.off, n, n}
		if at.Len() == 0 {
			// an empty array of the element type, like any other slice
			eo := &Object{typ: at.Elem(), array: true}
			if listElem(at.Elem()) {
				eo.lenT = zInt
			}
			s = Slice{x.alloc(&st, eo), zInt, n, n}
		}
	default:
		x.fail("slice of %s", y.X.Type())
	}
	c := s.cap
	if max != nil {
		c = max
	}
	h := hi
	if h == nil {
		h = s.len
	}
	cond := mkAnd(mkNot(mkUlt(c, h)), mkNot(mkUlt(h, lo)))
	if max != nil {
		cond = mkAnd(cond, mkNot(mkUlt(s.cap, max)))
	}
	var ok bool
	st, ok = x.check(st, cond, "slice bounds out of range", &out)
	if !ok {
		return out
	}
	d := st.pc.dom
	if s.obj == 0 {
		return append(out, ret{st: st, val: s})
	}
	off := lo
	if es != 1 {
		off = mkBin(OMul, lo, mkInt(es))
	}
	r := Slice{s.obj, d.simp(mkAdd(s.off, off)), d.simp(mkSub(h, lo)), d.simp(mkSub(c, lo))}
	return append(out, ret{st: st, val: r})
}

func (x *Exec) eqVals(st *State, a, b Value, t types.Type) *Term {
	switch p := a.(type) {
	case *Term:
		q, ok := b.(*Term)
		if !ok {
			x.fail("comparison with %T", b)
		}
		return mkEq(p, q)
	case *Str:
		return x.strEq(st, p, b.(*Str))
	case Ptr:
		q, ok := b.(Ptr)
		if !ok {
			x.fail("comparison of pointer with %T", b)
		}
		if p.obj != q.obj {
			return False
		}
		if p.obj == 0 {
			return True
		}
		return mkEq(p.off, q.off)
	case Slice:
		q := b.(Slice)
		if p.obj == 0 || q.obj == 0 { // comparison with nil
			return mkBool(p.obj == q.obj)
		}
		x.fail("slice comparison")
	case MapV:
		return mkBool(p.obj == b.(MapV).obj)
	case Func:
		q := b.(Func)
		return mkBool(p.fn == q.fn)
	case Iface:
		q, ok := b.(Iface)
		if !ok {
			x.fail("interface comparison with %T", b)
		}
		if p.typ == nil || q.typ == nil {
			return mkBool(p.typ == nil && q.typ == nil)
		}
		if !types.Identical(p.typ, q.typ) {
			return False
		}
		return x.eqVals(st, p.val, q.val, p.typ)
	case Agg:
		q := b.(Agg)
		var as []*Term
		for i := range p.f {
			as = append(as, x.eqVals(st, p.f[i], q.f[i], nil))
		}
		return mkAnd(as...)
	case Poison:
		x.fail("poison: %s", p.why)
	}
	x.fail("comparison of %T", a)
	return nil
}

func (x *Exec) binop(fs *fstate, y *ssa.BinOp) []ret {
	st := fs.st
	a, b := x.val(fs, y.X), x.val(fs, y.Y)
	switch y.Op {
	case token.EQL, token.NEQ:
		// interface against concrete
		ai, aok := a.(Iface)
		bi, bok := b.(Iface)
		if aok && !bok {
			b = Iface{y.Y.Type(), b}
		} else if bok && !aok {
			a = Iface{y.X.Type(), a}
		}
		_, _ = ai, bi
		r := x.eqVals(&st, a, b, y.X.Type())
		if y.Op == token.NEQ {
			r = mkNot(r)
		}
		return one(st, r)
	}
	if sa, ok := a.(*Str); ok {
		sb := b.(*Str)
		switch y.Op {
		case token.ADD:
			return one(st, x.strConcat(&st, sa, sb))
		case token.LSS:
			return one(st, x.strLess(&st, sa, sb))
		case token.GTR:
			return one(st, x.strLess(&st, sb, sa))
		case token.LEQ:
			return one(st, mkNot(x.strLess(&st, sb, sa)))
		case token.GEQ:
			return one(st, mkNot(x.strLess(&st, sa, sb)))
		}
	}
	ta, tb := x.term(fs, y.X), x.term(fs, y.Y)
	w, signed, ok := basicWidth(y.X.Type())
	if !ok {
		x.fail("arithmetic on %s", y.X.Type())
	}
	var out []ret
	if w == 0 {
		switch y.Op {
		case token.AND, token.LAND:
			return one(st, mkAnd(ta, tb))
		case token.OR, token.LOR:
			return one(st, mkOr(ta, tb))
		case token.XOR:
			return one(st, mkNot(mkEq(ta, tb)))
		}
		x.fail("boolean operator %s", y.Op)
	}
	cmp := OUlt
	if signed {
		cmp = OSlt
	}
	switch y.Op {
	case token.ADD:
		return one(st, mkBin(OAdd, ta, tb))
	case token.SUB:
		return one(st, mkBin(OSub, ta, tb))
	case token.MUL:
		return one(st, mkBin(OMul, ta, tb))
	case token.AND:
		return one(st, mkBin(OBAnd, ta, tb))
	case token.OR:
		return one(st, mkBin(OBOr, ta, tb))
	case token.XOR:
		return one(st, mkBin(OBXor, ta, tb))
	case token.AND_NOT:
		return one(st, mkBin(OBAnd, ta, mkBin(OBXor, tb, mkConst(w, mask(w)))))
	case token.LSS:
		return one(st, mkBin(cmp, ta, tb))
	case token.GTR:
		return one(st, mkBin(cmp, tb, ta))
	case token.LEQ:
		return one(st, mkNot(mkBin(cmp, tb, ta)))
	case token.GEQ:
		return one(st, mkNot(mkBin(cmp, ta, tb)))
	case token.QUO, token.REM:
		st, ok := x.check(st, mkNot(mkEq(tb, mkConst(w, 0))), "integer divide by zero", &out)
		if !ok {
			return out
		}
		op := OUdiv
		switch {
		case y.Op == token.QUO && signed:
			op = OSdiv
		case y.Op == token.REM && signed:
			op = OSrem
		case y.Op == token.REM:
			op = OUrem
		}
		return append(out, ret{st: st, val: mkBin(op, ta, tb)})
	case token.SHL, token.SHR:
		wb, sb, _ := basicWidth(y.Y.Type())
		if sb {
			var ok bool
			st, ok = x.check(st, mkNot(mkSlt(tb, mkConst(wb, 0))), "negative shift amount", &out)
			if !ok {
				return out
			}
		}
		// bring the amount to width w, saturating
		amt := tb
		if wb > w {
			big := mkNot(mkUlt(tb, mkConst(wb, uint64(w))))
			amt = mkIte(big, mkConst(w, uint64(w)), mkUn(OTrunc, tb, w))
			if w == 8 {
				// width 8 still represents the amount 8
				amt = mkIte(big, mkConst(8, 8), mkUn(OTrunc, tb, 8))
			}
		} else if wb < w {
			amt = mkUn(OZext, tb, w)
		}
		op := OShl
		if y.Op == token.SHR {
			op = OLshr
			if signed {
				op = OAshr
			}
		}
		return append(out, ret{st: st, val: mkBin(op, ta, amt)})
	}
	x.fail("operator %s", y.Op)
	return nil
}

func (x *Exec) unop(fs *fstate, y *ssa.UnOp) []ret {
	st := fs.st
	switch y.Op {
	case token.MUL:
		p := x.ptr(fs, y.X)
		if p.obj == 0 {
			return []ret{{st: st, pan: mkPanic("nil pointer dereference")}}
		}
		return one(st, x.load(&st, p, deref(y.X.Type())))
	case token.NOT:
		return one(st, mkNot(x.term(fs, y.X)))
	case token.SUB:
		t := x.term(fs, y.X)
		return one(st, mkSub(mkConst(t.w, 0), t))
	case token.XOR:
		t := x.term(fs, y.X)
		return one(st, mkBin(OBXor, t, mkConst(t.w, mask(t.w))))
	}
	x.fail("unary %s", y.Op)
	return nil
}

func (x *Exec) convert(fs *fstate, v ssa.Value, to types.Type) []ret {
	st := fs.st
	from := v.Type()
	xv := x.val(fs, v)
	wt, _, okt := basicWidth(to)
	wf, sf, okf := basicWidth(from)
	if okt && okf && wt > 0 && wf > 0 {
		t := x.term(fs, v)
		if wt <= wf {
			return one(st, mkUn(OTrunc, t, wt))
		}
		if sf {
			return one(st, mkUn(OSext, t, wt))
		}
		return one(st, mkUn(OZext, t, wt))
	}
	if isString(to) {
		switch y := xv.(type) {
		case *Str:
			return one(st, y)
		case Slice:
			et := from.Underlying().(*types.Slice).Elem()
			if w, _, _ := basicWidth(et); w == 8 {
				return one(st, x.bytesToStr(&st, y))
			}
			// []rune, ASCII only
			return x.runesToStr(st, y)
		case *Term:
			w := y.w
			asc := mkAnd(mkUlt(y, mkConst(w, 128)))
			if st.pc.dom.eval(asc) != 1 {
				bad := st
				if pc := st.pc.add(mkNot(asc)); pc != nil {
					bad.pc = pc
					x.obl("unsupported", bad, True, "conversion of a non-ASCII rune to a string")
				}
				pc := st.pc.add(asc)
				if pc == nil {
					return nil
				}
				st.pc = pc
			}
			return one(st, vecStr([]*Term{mkUn(OTrunc, y, 8)}))
		}
	}
	if s, ok := xv.(*Str); ok {
		if sl, is := to.Underlying().(*types.Slice); is {
			if w, _, _ := basicWidth(sl.Elem()); w == 8 {
				r := x.strToBytes(&st, s)
				return one(st, r)
			}
			return x.strToRunes(st, s, sl.Elem())
		}
	}
	switch xv.(type) {
	case Ptr, Slice:
		return one(st, xv)
	}
	x.fail("conversion %s to %s", from, to)
	return nil
}

// asciiOnly splits off the paths with a non-ASCII byte as unsupported
func (x *Exec) asciiOnly(st *State, ts []*Term, what string) bool {
	for _, t := range ts {
		asc := mkUlt(t, mkConst(t.w, 128))
		if st.pc.dom.eval(asc) == 1 {
			continue
		}
		bad := *st
		if pc := st.pc.add(mkNot(asc)); pc != nil {
			bad.pc = pc
			x.obl("unsupported", bad, True, "non-ASCII text in "+what)
		}
		pc := st.pc.add(asc)
		if pc == nil {
			return false
		}
		st.pc = pc
	}
	return true
}

func (x *Exec) strToRunes(st State, s *Str, et types.Type) []ret {
	sl := x.strToBytes(&st, s)
	o := x.obj(&st, sl.obj)
	var ts []*Term
	for _, v := range o.slots {
		ts = append(ts, v.(*Term))
	}
	if !x.asciiOnly(&st, ts, "[]rune conversion") {
		return nil
	}
	no := &Object{typ: et, array: true, slots: make([]Value, len(ts))}
	for i, t := range ts {
		no.slots[i] = mkUn(OZext, t, 32)
	}
	id := x.alloc(&st, no)
	return one(st, Slice{id, zInt, sl.len, sl.len})
}

func (x *Exec) runesToStr(st State, s Slice) []ret {
	if s.obj == 0 {
		return one(st, litStr(""))
	}
	o := x.obj(&st, s.obj)
	var ts []*Term
	b := make([]*Term, len(o.slots))
	for i, v := range o.slots {
		ts = append(ts, v.(*Term))
		b[i] = mkUn(OTrunc, v.(*Term), 8)
	}
	if !x.asciiOnly(&st, ts, "[]rune to string conversion") {
		return nil
	}
	v := internVec(b)
	var alts []strAlt
	for _, p := range x.spans(&st, s) {
		if p.n < 0 || p.off+p.n > len(b) {
			continue
		}
		alts = append(alts, strAlt{g: p.g, kind: 'v', vec: v, off: p.off, n: p.n})
	}
	return one(st, normAlts(alts))
}

func (x *Exec) typeAssert(fs *fstate, y *ssa.TypeAssert) []ret {
	st := fs.st
	i, ok := x.val(fs, y.X).(Iface)
	if !ok {
		x.fail("type assertion on %T", x.val(fs, y.X))
	}
	match := false
	if i.typ != nil {
		if it, isI := y.AssertedType.Underlying().(*types.Interface); isI {
			match = types.Implements(i.typ, it)
		} else {
			match = types.Identical(i.typ, y.AssertedType)
		}
	}
	_, toI := y.AssertedType.Underlying().(*types.Interface)
	var v Value
	if match {
		if toI {
			v = i
		} else {
			v = i.val
		}
	} else {
		v = zeroValue(y.AssertedType)
	}
	if y.CommaOk {
		return one(st, Agg{[]Value{v, mkBool(match)}})
	}
	if !match {
		return []ret{{st: st, pan: mkPanic("interface conversion")}}
	}
	return one(st, v)
}

// ---------- maps: association lists; key and value slots alternate as single values

type mapEnt struct{ k, v Value }

func (x *Exec) mapEnts(st *State, m MapV) []mapEnt {
	if m.obj == 0 {
		return nil
	}
	o := x.obj(st, m.obj)
	var r []mapEnt
	for i := 0; i+1 < len(o.slots); i += 2 {
		r = append(r, mapEnt{o.slots[i], o.slots[i+1]})
	}
	return r
}

func (x *Exec) mapLookup(fs *fstate, y *ssa.Lookup) []ret {
	st := fs.st
	m, ok := x.val(fs, y.X).(MapV)
	if !ok {
		x.fail("lookup in %T", x.val(fs, y.X))
	}
	mt := y.X.Type().Underlying().(*types.Map)
	key := x.val(fs, y.Index)
	var out []ret
	fin := func(st State, v Value, ok bool) {
		if y.CommaOk {
			out = append(out, ret{st: st, val: Agg{[]Value{v, mkBool(ok)}}})
		} else {
			out = append(out, ret{st: st, val: v})
		}
	}
	for _, e := range x.mapEnts(&st, m) {
		c := x.eqVals(&st, key, e.k, mt.Key())
		if pc := st.pc.add(c); pc != nil {
			s1 := st
			s1.pc = pc
			fin(s1, e.v, true)
		}
		pc := st.pc.add(mkNot(c))
		if pc == nil {
			return out
		}
		st.pc = pc
	}
	fin(st, zeroValue(mt.Elem()), false)
	return out
}

func (x *Exec) mapUpdate(fs *fstate, y *ssa.MapUpdate) []ret {
	st := fs.st
	m := x.val(fs, y.Map).(MapV)
	if m.obj == 0 {
		return []ret{{st: st, pan: mkPanic("assignment to entry in nil map")}}
	}
	key, v := x.val(fs, y.Key), x.val(fs, y.Value)
	var out []ret
	o := x.obj(&st, m.obj)
	x.noteWrite(&st, m.obj, o)
	for i := 0; i+1 < len(o.slots); i += 2 {
		c := x.eqVals(&st, key, o.slots[i], nil)
		if pc := st.pc.add(c); pc != nil {
			s1 := st
			s1.pc = pc
			no := *o
			no.slots = append([]Value(nil), o.slots...)
			no.slots[i+1] = v
			x.setObj(&s1, m.obj, &no)
			out = append(out, ret{st: s1})
		}
		pc := st.pc.add(mkNot(c))
		if pc == nil {
			return out
		}
		st.pc = pc
	}
	no := *o
	no.slots = append(append([]Value(nil), o.slots...), key, v)
	x.setObj(&st, m.obj, &no)
	return append(out, ret{st: st})
}

// ---------- range over strings and maps: an iterator object {string or map, position}

func (x *Exec) rangeOp(fs *fstate, y *ssa.Range) []ret {
	st := fs.st
	o := &Object{typ: types.NewStruct([]*types.Var{types.NewField(token.NoPos, nil, "pos", types.Typ[types.Int], false)}, nil), slots: []Value{zInt}}
	id := x.alloc(&st, o)
	return one(st, Agg{[]Value{Ptr{id, zInt}, x.val(fs, y.X)}})
}

func (x *Exec) nextOp(fr *frame, fs *fstate, y *ssa.Next) []ret {
	st := fs.st
	it := x.val(fs, y.Iter).(Agg)
	p := it.f[0].(Ptr)
	pos := x.load(&st, p, types.Typ[types.Int]).(*Term)
	if !y.IsString {
		m := it.f[1].(MapV)
		es := x.mapEnts(&st, m)
		k := int(pos.val)
		tt := y.Type().(*types.Tuple)
		if k >= len(es) {
			return one(st, Agg{[]Value{False, zeroValue(tt.At(1).Type()), zeroValue(tt.At(2).Type())}})
		}
		x.store(&st, p, mkInt(k+1), types.Typ[types.Int])
		return one(st, Agg{[]Value{True, es[k].k, es[k].v}})
	}
	s := it.f[1].(*Str)
	n := x.strLen(&st, s)
	more := mkSlt(pos, n)
	var out []ret
	if pc := st.pc.add(mkNot(more)); pc != nil {
		s1 := st
		s1.pc = pc
		out = append(out, ret{st: s1, val: Agg{[]Value{False, zInt, mkConst(32, 0)}}})
	}
	if pc := st.pc.add(more); pc != nil {
		s1 := st
		s1.pc = pc
		c := x.strAt(&s1, s, pos)
		asc := mkUlt(c, mkConst(8, 128))
		if pc := s1.pc.add(asc); pc != nil {
			s2 := s1
			s2.pc = pc
			x.store(&s2, p, mkAdd(pos, mkInt(1)), types.Typ[types.Int])
			out = append(out, ret{st: s2, val: Agg{[]Value{True, pos, mkUn(OZext, s2.pc.dom.simp(c), 32)}}})
		}
		if pc := s1.pc.add(mkNot(asc)); pc != nil {
			s3 := s1
			s3.pc = pc
			// decode with the library function
			fn := x.lookupFn("unicode/utf8", "DecodeRuneInString")
			if fn == nil {
				x.obl("unsupported", s3, True, "non-ASCII rune iteration")
			} else {
				rest := x.strSlice(&s3, s, pos, nil)
				roots := append(append([]Value(nil), fr.roots...), x.sortedRegs(fr, fs)...)
				for _, o := range x.callFn(s3, fn, []Value{rest}, nil, roots, fr.depth+1, nil) {
					if o.pan != nil {
						continue
					}
					s4 := o.st
					sz := o.vals[1].(*Term)
					x.store(&s4, p, mkAdd(pos, sz), types.Typ[types.Int])
					out = append(out, ret{st: s4, val: Agg{[]Value{True, pos, o.vals[0]}}})
				}
			}
		}
	}
	return out
}

func (x *Exec) lookupFn(pkg, name string) *ssa.Function {
	p := x.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	f := p.Func(name)
	if f == nil || f.Blocks == nil {
		return nil
	}
	return f
}

// ---------- calls

func (x *Exec) doCall(fr *frame, fs *fstate, b *ssa.BasicBlock, idx int, c *ssa.CallCommon) []ret {
	args := make([]Value, 0, len(c.Args)+1)
	if c.IsInvoke() {
		recv := x.val(fs, c.Value)
		args = append(args, recv)
		for _, a := range c.Args {
			args = append(args, x.val(fs, a))
		}
		x.prune(fr, fs, b, idx)
		return x.invokeValue(fr, fs, nil, c, args, nil)
	}
	fn := x.val(fs, c.Value)
	for _, a := range c.Args {
		args = append(args, x.val(fs, a))
	}
	f, ok := fn.(Func)
	if !ok {
		x.fail("call of %T", fn)
	}
	if f.bi != nil {
		return x.builtin(fr, fs, f.bi.Name(), c, args)
	}
	// what the call alone uses need not survive it
	x.prune(fr, fs, b, idx)
	return x.invokeValue(fr, fs, f, c, args, fr.holderFor(fs))
}

func (fr *frame) holderFor(fs *fstate) *panicHolder { return nil }

func (x *Exec) invokeValue(fr *frame, fs *fstate, fv Value, c *ssa.CallCommon, args []Value, h *panicHolder) []ret {
	st := fs.st
	var fn *ssa.Function
	var binds []Value
	if fv == nil {
		// interface method
		i, ok := args[0].(Iface)
		if !ok {
			x.fail("invoke on %T", args[0])
		}
		if i.typ == nil {
			return []ret{{st: st, pan: mkPanic("nil pointer dereference (method call on nil interface)")}}
		}
		m := x.prog.LookupMethod(i.typ, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			x.fail("no method %s on %s", c.Method.Name(), i.typ)
		}
		fn = m
		args = append([]Value{i.val}, args[1:]...)
	} else {
		f, ok := fv.(Func)
		if !ok {
			x.fail("call of %T", fv)
		}
		if f.bi != nil {
			return x.builtin(fr, fs, f.bi.Name(), c, args)
		}
		if f.fn == nil {
			return []ret{{st: st, pan: mkPanic("call of nil function")}}
		}
		fn, binds = f.fn, f.binds
	}
	return x.callValue(fr, fs, fn, binds, args, h)
}

func (x *Exec) callValue(fr *frame, fs *fstate, fn *ssa.Function, binds, args []Value, h *panicHolder) []ret {
	if in := x.intrinsic(fn); in != nil {
		return in(x, fr, fs, fn, args)
	}
	return x.body(fr, fs, fn, binds, args, h)
}

// callBody runs the code of a function which has a model, where the model does not apply
func (x *Exec) callBody(fr *frame, fs *fstate, fn *ssa.Function, args []Value) []ret {
	return x.body(fr, fs, fn, nil, args, nil)
}

func (x *Exec) body(fr *frame, fs *fstate, fn *ssa.Function, binds, args []Value, h *panicHolder) []ret {
	st := fs.st
	if fn.Blocks == nil {
		x.fail("function without a body: %s", fn.String())
	}
	roots := append(append([]Value(nil), fr.roots...), x.sortedRegs(fr, fs)...)
	outs := x.callFn(st, fn, args, binds, roots, fr.depth+1, h)
	var rs []ret
	for _, o := range outs {
		if o.pan != nil {
			rs = append(rs, ret{st: o.st, pan: o.pan})
			continue
		}
		var v Value
		if len(o.vals) == 1 {
			v = o.vals[0]
		} else {
			v = Agg{o.vals}
		}
		rs = append(rs, ret{st: o.st, val: v})
	}
	return rs
}

func (x *Exec) builtin(fr *frame, fs *fstate, name string, c *ssa.CallCommon, args []Value) []ret {
	st := fs.st
	switch name {
	case "len", "cap":
		switch y := args[0].(type) {
		case *Str:
			return one(st, x.strLen(&st, y))
		case Slice:
			if name == "len" {
				return one(st, y.len)
			}
			return one(st, y.cap)
		case MapV:
			return one(st, mkInt(len(x.mapEnts(&st, y))))
		case Agg:
			return one(st, mkInt(len(y.f)))
		case Ptr:
			if a, ok := deref(c.Args[0].Type()).Underlying().(*types.Array); ok {
				return one(st, mkInt(int(a.Len())))
			}
		}
	case "append":
		s := args[0].(Slice)
		sl := c.Args[0].Type().Underlying().(*types.Slice)
		switch y := args[1].(type) {
		case Slice:
			es := nslots(sl.Elem())
			src := st
			return x.appendSlice(st, s, sl.Elem(), y.len, func(st *State, i int) Value {
				// elements are read before any write: use the state at the call
				return x.load(&src, Ptr{y.obj, mkAdd(y.off, mkInt(i*es))}, sl.Elem())
			}, func() int { return x.otherHeaders(fr, fs, s) })
		case *Str:
			n := x.strLen(&st, y)
			src := st
			return x.appendSlice(st, s, sl.Elem(), n, func(st *State, i int) Value { return x.strAt(&src, y, mkInt(i)) }, func() int { return 1 })
		}
	case "copy":
		d := args[0].(Slice)
		sl := c.Args[0].Type().Underlying().(*types.Slice)
		es := nslots(sl.Elem())
		switch y := args[1].(type) {
		case Slice:
			if y.obj == 0 {
				return one(st, zInt)
			}
			o := x.obj(&st, y.obj)
			src := st
			n := x.copySlice(&st, d, sl.Elem(), y.len, func(i int) Value {
				return x.load(&src, Ptr{y.obj, mkAdd(y.off, mkInt(i*es))}, sl.Elem())
			}, len(o.slots))
			return one(st, n)
		case *Str:
			src := st
			n := x.copySlice(&st, d, sl.Elem(), x.strLen(&st, y), func(i int) Value { return x.strAt(&src, y, mkInt(i)) }, 1<<20)
			return one(st, n)
		}
	case "min", "max":
		r := args[0]
		w, signed, ok := basicWidth(c.Args[0].Type())
		if !ok || w == 0 {
			x.fail("min/max on %s", c.Args[0].Type())
		}
		op := OUlt
		if signed {
			op = OSlt
		}
		for _, a := range args[1:] {
			lt := mkBin(op, a.(*Term), r.(*Term))
			if name == "max" {
				lt = mkBin(op, r.(*Term), a.(*Term))
			}
			r = mkIte(lt, a.(*Term), r.(*Term))
		}
		return one(st, r)
	case "delete":
		m := args[0].(MapV)
		if m.obj == 0 {
			return one(st, nil)
		}
		o := x.obj(&st, m.obj)
		x.noteWrite(&st, m.obj, o)
		var out []ret
		for i := 0; i+1 < len(o.slots); i += 2 {
			cnd := x.eqVals(&st, args[1], o.slots[i], nil)
			if pc := st.pc.add(cnd); pc != nil {
				s1 := st
				s1.pc = pc
				no := *o
				no.slots = append(append([]Value(nil), o.slots[:i]...), o.slots[i+2:]...)
				x.setObj(&s1, m.obj, &no)
				out = append(out, ret{st: s1})
			}
			pc := st.pc.add(mkNot(cnd))
			if pc == nil {
				return out
			}
			st.pc = pc
		}
		return append(out, ret{st: st})
	case "clear":
		switch y := args[0].(type) {
		case MapV:
			if y.obj != 0 {
				o := x.obj(&st, y.obj)
				x.noteWrite(&st, y.obj, o)
				no := *o
				no.slots = nil
				x.setObj(&st, y.obj, &no)
			}
			return one(st, nil)
		}
	case "print", "println":
		return one(st, nil)
	case "recover":
		// handled by holder: the frame running is the deferred function itself
		if fr.holder != nil && fr.holder.pan != nil && !fr.holder.recovered {
			fr.holder.recovered = true
			v := fr.holder.pan.val
			if i, ok := v.(Iface); ok && i.typ == nil {
				v = Iface{types.Typ[types.String], litStr(fr.holder.pan.msg)}
			}
			return one(st, v)
		}
		return one(st, Iface{})
	case "String": // unsafe.String
		p, n := args[0].(Ptr), x.toInt(args[1].(*Term), c.Args[1].Type())
		if p.obj == 0 {
			return one(st, litStr(""))
		}
		return one(st, x.liveStr(&st, Slice{p.obj, p.off, n, n}))
	case "StringData":
		s := args[0].(*Str)
		sl := x.strBytesRO(&st, s)
		return one(st, Ptr{sl.obj, sl.off})
	case "SliceData":
		s := args[0].(Slice)
		return one(st, Ptr{s.obj, s.off})
	case "Slice":
		p, n := args[0].(Ptr), x.toInt(args[1].(*Term), c.Args[1].Type())
		return one(st, Slice{p.obj, p.off, n, n})
	case "ssa:wrapnilchk":
		p, ok := args[0].(Ptr)
		if ok && p.obj == 0 {
			return []ret{{st: st, pan: mkPanic("value method called using nil pointer")}}
		}
		return one(st, args[0])
	}
	x.fail("builtin %s", name)
	return nil
}
