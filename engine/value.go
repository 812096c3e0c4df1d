package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Ptr struct {
	obj int
	off *Term // in slots
}
type Slice struct {
	obj           int
	off, len, cap *Term // off in slots of the object, len and cap in elements
}
type Iface struct {
	typ types.Type
	val Value
}
type Func struct {
	fn    *ssa.Function
	binds []Value
	bi    *ssa.Builtin
}
type Agg struct{ f []Value }
type MapV struct{ obj int }
type Poison struct{ why string }

// Vec: interned immutable byte sequence
type Vec struct {
	id int
	b  []*Term
}

type strAlt struct {
	g    *Term
	kind byte // 'v' vec, 'l' live memory, 'f' formatted
	vec  *Vec
	obj  int
	off  int
	n    int
	fmt  *FmtAlt
}

// FmtAlt: the outcome of a formatting call which was not expanded
type FmtAlt struct {
	format string
	parts  []fmtPart
	key    string
	shape  string // the key without the values
}

type Str struct{ alts []strAlt }

func (s *Str) live() bool {
	for _, a := range s.alts {
		if a.kind == 'l' {
			return true
		}
	}
	return false
}

var vecs = map[uint64][]*Vec{}
var nvecs int

func internVec(b []*Term) *Vec {
	h := uint64(len(b)) * 31
	for _, t := range b {
		h = mix(h, uint64(t.id))
	}
outer:
	for _, v := range vecs[h] {
		if len(v.b) != len(b) {
			continue
		}
		for i := range b {
			if v.b[i] != b[i] {
				continue outer
			}
		}
		return v
	}
	nvecs++
	v := &Vec{id: nvecs, b: append([]*Term(nil), b...)}
	vecs[h] = append(vecs[h], v)
	return v
}

var litCache = map[string]*Str{}

func litStr(s string) *Str {
	if r, ok := litCache[s]; ok {
		return r
	}
	b := make([]*Term, len(s))
	for i := range b {
		b[i] = mkConst(8, uint64(s[i]))
	}
	r := &Str{alts: []strAlt{{g: True, kind: 'v', vec: internVec(b), n: len(s)}}}
	litCache[s] = r
	return r
}

func vecStr(b []*Term) *Str {
	return &Str{alts: []strAlt{{g: True, kind: 'v', vec: internVec(b), n: len(b)}}}
}

// concreteStr returns the Go string if fully concrete
func (s *Str) concrete() (string, bool) {
	if len(s.alts) != 1 || s.alts[0].kind != 'v' {
		return "", false
	}
	a := s.alts[0]
	var sb strings.Builder
	for i := 0; i < a.n; i++ {
		t := a.vec.b[a.off+i]
		if t.op != OConst {
			return "", false
		}
		sb.WriteByte(byte(t.val))
	}
	return sb.String(), true
}

// type layout
type layout struct {
	n int
}

var layCache = map[types.Type]int{}

func nslots(t types.Type) int {
	if n, ok := layCache[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += nslots(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * nslots(u.Elem())
	case *types.Tuple:
		n = 0
		for i := 0; i < u.Len(); i++ {
			n += nslots(u.At(i).Type())
		}
	}
	layCache[t] = n
	return n
}

func fieldOff(s *types.Struct, i int) int {
	o := 0
	for k := 0; k < i; k++ {
		o += nslots(s.Field(k).Type())
	}
	return o
}

func basicWidth(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

var zInt = mkInt(0)

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(t); ok {
			return mkConst(w, 0)
		}
		if u.Info()&types.IsString != 0 {
			return litStr("")
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return Ptr{}
		}
		return Poison{"zero of " + t.String()}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{0, zInt, zInt, zInt}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return Func{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return Ptr{}
	case *types.Struct:
		a := Agg{}
		for i := 0; i < u.NumFields(); i++ {
			a.f = append(a.f, zeroValue(u.Field(i).Type()))
		}
		return a
	case *types.Array:
		a := Agg{}
		z := zeroValue(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			a.f = append(a.f, z)
		}
		return a
	case *types.Tuple:
		a := Agg{}
		for i := 0; i < u.Len(); i++ {
			a.f = append(a.f, zeroValue(u.At(i).Type()))
		}
		return a
	}
	return Poison{"zero of " + t.String()}
}

func flatten(v Value, t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a, ok := v.(Agg)
		for i := 0; i < u.NumFields(); i++ {
			if !ok {
				out = flatten(v, u.Field(i).Type(), out)
				continue
			}
			out = flatten(a.f[i], u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		a, ok := v.(Agg)
		for i := 0; i < int(u.Len()); i++ {
			if !ok {
				out = flatten(v, u.Elem(), out)
				continue
			}
			out = flatten(a.f[i], u.Elem(), out)
		}
		return out
	}
	return append(out, v)
}

func unflatten(s []Value, t types.Type) (Value, []Value) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		a := Agg{}
		for i := 0; i < u.NumFields(); i++ {
			var v Value
			v, s = unflatten(s, u.Field(i).Type())
			a.f = append(a.f, v)
		}
		return a, s
	case *types.Array:
		a := Agg{}
		for i := int64(0); i < u.Len(); i++ {
			var v Value
			v, s = unflatten(s, u.Elem())
			a.f = append(a.f, v)
		}
		return a, s
	}
	return s[0], s[1:]
}

// Objects
type Object struct {
	typ   types.Type // type of the whole object or of one element for arrays
	array bool       // variable-size array of typ
	slots []Value
	flags uint8
	vec   *Vec // cached interned content (byte arrays)
	// maps: slots hold key,value pairs
	name string
	gl   []*Term // guarded list: presence of each slot
	pad  int     // least number of slots of the plain form
	lenT *Term   // length of a list grown by append, see glist.go
}

const (
	fReadOnly uint8 = 1
	fShared   uint8 = 2
	fGlobal   uint8 = 4
	fString   uint8 = 8 // memory of a string constant
)

type Heap struct {
	ids  []int
	objs []*Object
}

func (h *Heap) find(id int) int {
	lo, hi := 0, len(h.ids)
	for lo < hi {
		m := (lo + hi) / 2
		if h.ids[m] < id {
			lo = m + 1
		} else {
			hi = m
		}
	}
	if lo < len(h.ids) && h.ids[lo] == id {
		return lo
	}
	return -1 - lo
}

func (h *Heap) get(id int) *Object {
	i := h.find(id)
	if i < 0 {
		return nil
	}
	return h.objs[i]
}

func (h *Heap) with(id int, o *Object) *Heap {
	i := h.find(id)
	if i >= 0 {
		n := &Heap{ids: h.ids, objs: append([]*Object(nil), h.objs...)}
		n.objs[i] = o
		return n
	}
	i = -1 - i
	n := &Heap{ids: make([]int, len(h.ids)+1), objs: make([]*Object, len(h.ids)+1)}
	copy(n.ids, h.ids[:i])
	copy(n.objs, h.objs[:i])
	n.ids[i] = id
	n.objs[i] = o
	copy(n.ids[i+1:], h.ids[i:])
	copy(n.objs[i+1:], h.objs[i:])
	return n
}

// Path conditions
type PC struct {
	parent *PC
	cond   *Term
	depth  int
	dom    *Dom
	term   *Term
}

var rootPC *PC

func init() { rootPC = &PC{cond: True, dom: &Dom{}, term: True} }

func (p *PC) full() *Term {
	// iterative to avoid deep recursion
	var st []*PC
	q := p
	for q.term == nil {
		st = append(st, q)
		q = q.parent
	}
	for i := len(st) - 1; i >= 0; i-- {
		st[i].term = mkAnd(st[i].parent.term, st[i].cond)
	}
	return p.term
}

// add returns nil if the condition is infeasible by the domains
func (p *PC) add(c *Term) *PC {
	switch p.dom.eval(c) {
	case 0:
		return nil
	case 1:
		if c.op == OConst || c.op == OTab {
			return p
		}
	}
	if c.op == OAnd {
		for _, a := range c.args {
			p = p.add(a)
			if p == nil {
				return nil
			}
		}
		return p
	}
	n := &PC{parent: p, cond: c, depth: p.depth + 1, dom: p.dom}
	d := p.dom.learn(c)
	if d == nil {
		return nil
	}
	n.dom = d
	return n
}

func (d *Dom) learn(c *Term) *Dom {
	if c.op == OTab {
		o := d.get(c.v)
		nt := c
		if o != nil {
			nt = tabInter(o, c)
			if nt == False {
				return nil
			}
			if nt == o {
				return d
			}
		}
		d = d.set(c.v, nt)
		if c.v.def != nil {
			budget := 3000
			return d.learnDef(c.v.def, &budget)
		}
		return d
	}
	if c.op == ONot && c.args[0].op == OAnd {
		budget := 200
		return d.learnDef(c, &budget)
	}
	return d
}

// learnDef: extract domain facts of a formula known to hold
func (d *Dom) learnDef(t *Term, n *int) *Dom {
	*n--
	if *n < 0 || d == nil {
		return d
	}
	switch t.op {
	case OConst:
		if t == False {
			return nil
		}
	case OTab:
		if t.w == 0 {
			return d.learn(t)
		}
	case OAnd:
		for _, a := range t.args {
			d = d.learnDef(a, n)
			if d == nil {
				return nil
			}
		}
	case ONot:
		a := t.args[0]
		if a.op == OAnd {
			// disjunction of the negations
			var only *Term
			cnt := 0
			for _, x := range a.args {
				e := d.evalN(x, n)
				if e == 0 {
					return d // a disjunct holds
				}
				if e == 2 {
					cnt++
					only = x
				}
			}
			if cnt == 0 {
				return nil
			}
			if cnt == 1 {
				return d.learnDef(mkNot(only), n)
			}
		}
	}
	return d
}

func valString(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case *Term:
		return x.String()
	case *Str:
		if s, ok := x.concrete(); ok {
			return fmt.Sprintf("%q", s)
		}
		return fmt.Sprintf("str[%d alts]", len(x.alts))
	case Ptr:
		return fmt.Sprintf("ptr(%d+%v)", x.obj, x.off)
	case Slice:
		return fmt.Sprintf("slice(%d+%v,%v,%v)", x.obj, x.off, x.len, x.cap)
	case Iface:
		if x.typ == nil {
			return "iface(nil)"
		}
		return "iface(" + x.typ.String() + " " + valString(x.val) + ")"
	case Func:
		if x.fn != nil {
			return x.fn.String()
		}
		return "func"
	case Agg:
		var p []string
		for _, f := range x.f {
			p = append(p, valString(f))
		}
		return "{" + strings.Join(p, ",") + "}"
	case Poison:
		return "poison:" + x.why
	}
	return fmt.Sprintf("%T", v)
}

// under gives the domains where g holds as well, nil when it cannot hold; n is the number of uses the result will have.
func (d *Dom) under(g *Term, n int) *Dom {
	if n < 4 {
		if d.eval(g) == 0 {
			return nil
		}
		return d
	}
	b := 3000
	return d.learnDef(g, &b)
}
