package main

import (
	"fmt"
	"math/bits"
	"os"
	"sort"
	"strconv"
	"strings"
)

// Terms: hash-consed booleans (w==0) and bit-vectors over "small variables" (finite domain 0..D-1).
// Any term depending on a single small variable through foldable operations is kept as a canonical table (OTab).
// OSel is a guarded choice between leaves (constants or tables); guards are mutually exclusive and exhaustive under
// the path condition the term lives in.

type Op uint8

const (
	OConst Op = iota
	OTab
	OAnd
	ONot
	OSel
	OIte
	OEq
	OUlt
	OSlt
	OAdd
	OSub
	OMul
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OUdiv
	OUrem
	OSdiv
	OSrem
	OZext
	OSext
	OTrunc
)

var opSMT = map[Op]string{OEq: "=", OUlt: "bvult", OSlt: "bvslt", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem"}

type Var struct {
	id   int
	D    int
	name string
	kind byte // 'b' byte, 'i' int, 's' selector
	base int64
	def  *Term   // selectors: the term which defines them
	rels []*Term // selectors: when each value is taken, in terms of the inputs and earlier selectors
}

type Term struct {
	id   int
	hash uint64
	op   Op
	w    uint8
	val  uint64
	v    *Var
	tab  []uint64 // bool: bitset; bv: values
	args []*Term  // OSel: leaves then guards
}

type TermTab struct {
	buckets map[uint64][]*Term
	n       int
	vars    []*Var
	strict  map[string]*Var
}

var TT = &TermTab{buckets: map[uint64][]*Term{}, strict: map[string]*Var{}}

var True, False *Term

func init() {
	True = intern(&Term{op: OConst, w: 0, val: 1})
	False = intern(&Term{op: OConst, w: 0, val: 0})
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func intern(t *Term) *Term {
	h := mix(uint64(t.op)<<8|uint64(t.w), t.val)
	if t.v != nil {
		h = mix(h, uint64(t.v.id)+77)
	}
	for _, x := range t.tab {
		h = mix(h, x)
	}
	for _, a := range t.args {
		h = mix(h, uint64(a.id))
	}
	t.hash = h
outer:
	for _, o := range TT.buckets[h] {
		if o.op != t.op || o.w != t.w || o.val != t.val || o.v != t.v || len(o.tab) != len(t.tab) || len(o.args) != len(t.args) {
			continue
		}
		for i := range o.tab {
			if o.tab[i] != t.tab[i] {
				continue outer
			}
		}
		for i := range o.args {
			if o.args[i] != t.args[i] {
				continue outer
			}
		}
		return o
	}
	TT.n++
	t.id = TT.n
	TT.buckets[h] = append(TT.buckets[h], t)
	return t
}

func newVar(name string, D int, kind byte) *Var {
	v := &Var{id: len(TT.vars), D: D, name: name, kind: kind}
	TT.vars = append(TT.vars, v)
	return v
}

func namedVar(name string, D int, kind byte) *Var {
	k := fmt.Sprintf("%s/%d/%c", name, D, kind)
	if v, ok := TT.strict[k]; ok {
		return v
	}
	v := newVar(k, D, kind)
	TT.strict[k] = v
	return v
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func mkConst(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return True
		}
		return False
	}
	return intern(&Term{op: OConst, w: w, val: v & mask(w)})
}

func mkInt(v int) *Term { return mkConst(64, uint64(int64(v))) }

func mkBool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func (t *Term) isConst() bool { return t.op == OConst }

func words(D int) int { return (D + 63) / 64 }

// mkTabB: boolean table over v
func mkTabB(v *Var, b []uint64) *Term {
	n := 0
	for i := range b {
		if i == len(b)-1 && v.D%64 != 0 {
			b[i] &= 1<<(uint(v.D)%64) - 1
		}
		n += bits.OnesCount64(b[i])
	}
	if n == 0 {
		return False
	}
	if n == v.D {
		return True
	}
	return intern(&Term{op: OTab, w: 0, v: v, tab: b})
}

func tabBFunc(v *Var, f func(int) bool) *Term {
	b := make([]uint64, words(v.D))
	for i := 0; i < v.D; i++ {
		if f(i) {
			b[i/64] |= 1 << (uint(i) % 64)
		}
	}
	return mkTabB(v, b)
}

func mkTabV(v *Var, w uint8, f func(int) uint64) *Term {
	if w == 0 {
		return tabBFunc(v, func(i int) bool { return f(i) != 0 })
	}
	vals := make([]uint64, v.D)
	same := true
	for i := range vals {
		vals[i] = f(i) & mask(w)
		if vals[i] != vals[0] {
			same = false
		}
	}
	if same {
		return mkConst(w, vals[0])
	}
	return intern(&Term{op: OTab, w: w, v: v, tab: vals})
}

func (t *Term) tabAt(i int) uint64 {
	if t.w == 0 {
		return t.tab[i/64] >> (uint(i) % 64) & 1
	}
	return t.tab[i]
}

func varTerm(v *Var, w uint8) *Term { return mkTabV(v, w, func(i int) uint64 { return uint64(i) }) }

func varIs(v *Var, i int) *Term {
	b := make([]uint64, words(v.D))
	b[i/64] |= 1 << (uint(i) % 64)
	return mkTabB(v, b)
}

func mkNot(t *Term) *Term {
	switch t.op {
	case OConst:
		return mkBool(t.val == 0)
	case ONot:
		return t.args[0]
	case OTab:
		b := make([]uint64, len(t.tab))
		for i := range b {
			b[i] = ^t.tab[i]
		}
		return mkTabB(t.v, b)
	}
	return intern(&Term{op: ONot, args: []*Term{t}})
}

const flattenMax = 12

func mkAnd(as ...*Term) *Term {
	if len(as) == 2 { // fast path
		a, b := as[0], as[1]
		if a == b {
			return a
		}
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False || b == False {
			return False
		}
		if a.op == OTab && b.op == OTab {
			if a.v == b.v {
				return tabInter(a, b)
			}
			if a.id > b.id {
				a, b = b, a
			}
			return intern(&Term{op: OAnd, args: []*Term{a, b}})
		}
	}
	var lits []*Term
	seen := map[int]bool{}
	neg := map[int]bool{}
	tabs := map[*Var]*Term{}
	var order []*Var
	ok := true
	var add func(t *Term, d int)
	add = func(t *Term, d int) {
		if !ok || t == True {
			return
		}
		if t == False {
			ok = false
			return
		}
		if t.op == OAnd && (len(t.args) <= flattenMax && d < 3) {
			for _, a := range t.args {
				add(a, d+1)
			}
			return
		}
		if t.op == OTab {
			if o, has := tabs[t.v]; has {
				n := tabInter(o, t)
				if n == False {
					ok = false
				}
				tabs[t.v] = n
			} else {
				tabs[t.v] = t
				order = append(order, t.v)
			}
			return
		}
		if seen[t.id] {
			return
		}
		if t.op == ONot {
			if seen[t.args[0].id] {
				ok = false
				return
			}
			neg[t.args[0].id] = true
		} else if neg[t.id] {
			ok = false
			return
		}
		seen[t.id] = true
		lits = append(lits, t)
	}
	for _, a := range as {
		add(a, 0)
	}
	if !ok {
		return False
	}
	// one-level simplification of disjunctions ONot(OAnd(...)) by the literals and tables
	changed := false
	for i, l := range lits {
		if l.op == ONot && l.args[0].op == OAnd && len(l.args[0].args) <= flattenMax {
			in := l.args[0].args
			drop := false
			var keep []*Term
			mod := false
			for _, x := range in { // l = or(not x)
				if x.op == OTab {
					if t, has := tabs[x.v]; has {
						it := tabInter(x, t)
						if it == False { // not x certainly true
							drop = true
							break
						}
						if it == t { // not x certainly false
							mod = true
							continue
						}
					}
				} else {
					if neg[x.id] || (x.op == ONot && seen[x.args[0].id] && x.args[0] != l) {
						drop = true
						break
					}
					if seen[x.id] && x != l {
						mod = true
						continue
					}
				}
				keep = append(keep, x)
			}
			if drop {
				lits[i] = True
				changed = true
			} else if mod {
				lits[i] = mkNot(mkAnd(keep...))
				changed = true
			}
		}
	}
	if changed {
		var all []*Term
		for _, v := range order {
			all = append(all, tabs[v])
		}
		all = append(all, lits...)
		return mkAnd(all...)
	}
	for _, v := range order {
		lits = append(lits, tabs[v])
	}
	if len(lits) == 0 {
		return True
	}
	if len(lits) == 1 {
		return lits[0]
	}
	sort.Slice(lits, func(i, j int) bool { return lits[i].id < lits[j].id })
	return intern(&Term{op: OAnd, args: lits})
}

func tabInter(a, b *Term) *Term {
	r := make([]uint64, len(a.tab))
	for i := range r {
		r[i] = a.tab[i] & b.tab[i]
	}
	return mkTabB(a.v, r)
}

func mkOr(as ...*Term) *Term {
	if len(as) == 2 {
		if as[0] == as[1] {
			return as[0]
		}
	}
	n := make([]*Term, len(as))
	for i, a := range as {
		if a == True {
			return True
		}
		n[i] = mkNot(a)
	}
	return mkNot(mkAnd(n...))
}

func mkImplies(a, b *Term) *Term { return mkOr(mkNot(a), b) }

func mkIteB(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b))
}

func (t *Term) isLeaf() bool { return t.op == OConst || t.op == OTab }

// sel building
type leafG struct {
	leaf, g *Term
}

func leaves(t *Term) []leafG {
	switch t.op {
	case OConst, OTab:
		return []leafG{{t, True}}
	case OSel:
		n := len(t.args) / 2
		r := make([]leafG, n)
		for i := range r {
			r[i] = leafG{t.args[i], t.args[n+i]}
		}
		return r
	}
	return nil
}

// constLeaves expands tables to constants too (guards are then tables). max caps the number.
func constLeaves(t *Term, dom *Dom, max int) ([]leafG, bool) {
	ls := leaves(t)
	if ls == nil {
		return nil, false
	}
	m := map[uint64]int{}
	var r []leafG
	put := func(c *Term, g *Term) bool {
		if g == False {
			return true
		}
		if i, ok := m[c.val]; ok {
			r[i].g = mkOr(r[i].g, g)
			return true
		}
		if len(r) >= max {
			return false
		}
		m[c.val] = len(r)
		r = append(r, leafG{c, g})
		return true
	}
	for _, l := range ls {
		if dom != nil && l.g.op == OTab && dom.eval(l.g) == 0 {
			continue
		}
		if l.leaf.op == OConst {
			if !put(l.leaf, l.g) {
				return nil, false
			}
			continue
		}
		v := l.leaf.v
		by := map[uint64][]uint64{}
		var keys []uint64
		for i := 0; i < v.D; i++ {
			if dom != nil && !dom.has(v, i) {
				continue
			}
			x := l.leaf.tab[i]
			b, ok := by[x]
			if !ok {
				b = make([]uint64, words(v.D))
				by[x] = b
				keys = append(keys, x)
				if len(keys) > max {
					return nil, false
				}
			}
			b[i/64] |= 1 << (uint(i) % 64)
		}
		for _, x := range keys {
			g := l.g
			if len(keys) > 1 || true {
				g = mkAnd(l.g, mkTabB(v, by[x]))
			}
			if len(keys) == 1 {
				g = l.g
			}
			if !put(mkConst(t.w, x), g) {
				return nil, false
			}
		}
	}
	return r, true
}

func mkSel(w uint8, ls []leafG) *Term {
	// merge equal leaves
	var r []leafG
	if len(ls) > 8 {
		m := map[int]int{}
		for _, l := range ls {
			if l.g == False {
				continue
			}
			if i, ok := m[l.leaf.id]; ok {
				r[i].g = mkOr(r[i].g, l.g)
			} else {
				m[l.leaf.id] = len(r)
				r = append(r, l)
			}
		}
	} else {
	outer:
		for _, l := range ls {
			if l.g == False {
				continue
			}
			for i := range r {
				if r[i].leaf == l.leaf {
					r[i].g = mkOr(r[i].g, l.g)
					continue outer
				}
			}
			r = append(r, l)
		}
	}
	if len(r) == 0 {
		// unreachable value
		return mkConst(w, 0)
	}
	for _, l := range r {
		if l.g == True {
			return l.leaf
		}
	}
	if len(r) == 1 {
		return r[0].leaf
	}
	// all guards tables over one variable?
	var v *Var
	one := true
	for _, l := range r {
		if l.g.op != OTab || (v != nil && l.g.v != v) || (l.leaf.op == OTab && l.leaf.v != l.g.v) {
			one = false
			break
		}
		v = l.g.v
	}
	if one {
		return mkTabV(v, w, func(i int) uint64 {
			for _, l := range r {
				if l.g.tabAt(i) != 0 {
					if l.leaf.op == OConst {
						return l.leaf.val
					}
					return l.leaf.tab[i]
				}
			}
			if r[0].leaf.op == OConst {
				return r[0].leaf.val
			}
			return r[0].leaf.tab[i]
		})
	}
	sort.Slice(r, func(i, j int) bool { return r[i].leaf.id < r[j].leaf.id })
	args := make([]*Term, 2*len(r))
	for i, l := range r {
		args[i] = l.leaf
		args[len(r)+i] = l.g
	}
	return intern(&Term{op: OSel, w: w, args: args})
}

func mkIte(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		return mkIteB(c, a, b)
	}
	la, lb := leaves(a), leaves(b)
	if la != nil && lb != nil {
		if len(la)+len(lb) <= maxSel {
			nc := mkNot(c)
			var r []leafG
			for _, l := range la {
				r = append(r, leafG{l.leaf, mkAnd(c, l.g)})
			}
			for _, l := range lb {
				r = append(r, leafG{l.leaf, mkAnd(nc, l.g)})
			}
			return mkSel(a.w, r)
		}
	}
	return intern(&Term{op: OIte, w: a.w, args: []*Term{c, a, b}})
}

const maxSel = 4096

var maxEqSel = func() int {
	if n, err := strconv.Atoi(os.Getenv("VX_EQSEL")); err == nil {
		return n
	}
	return 16
}()

func bvop(op Op, w uint8, x, y uint64) uint64 {
	switch op {
	case OEq:
		return b2u(x == y)
	case OUlt:
		return b2u(x < y)
	case OSlt:
		return b2u(sext(x, w) < sext(y, w))
	case OAdd:
		return (x + y) & mask(w)
	case OSub:
		return (x - y) & mask(w)
	case OMul:
		return (x * y) & mask(w)
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & mask(w)
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & mask(w)
	case OUdiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		if y == 0 {
			if sext(x, w) < 0 {
				return 1
			}
			return mask(w)
		}
		if sext(y, w) == -1 {
			return (-x) & mask(w)
		}
		return uint64(sext(x, w)/sext(y, w)) & mask(w)
	case OSrem:
		if y == 0 {
			return x
		}
		if sext(y, w) == -1 {
			return 0
		}
		return uint64(sext(x, w)%sext(y, w)) & mask(w)
	}
	panic("bvop")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func isCmp(op Op) bool { return op == OEq || op == OUlt || op == OSlt }

// mkBin: both operands of width w>0 (shift amounts must be brought to the same width by the caller)
func mkBin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch op %d: %d %d", op, a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		r := bvop(op, w, a.val, b.val)
		if isCmp(op) {
			return mkBool(r != 0)
		}
		return mkConst(w, r)
	}
	if a == b {
		switch op {
		case OEq:
			return True
		case OUlt, OSlt:
			return False
		case OSub, OBXor:
			return mkConst(w, 0)
		}
	}
	rw := w
	if isCmp(op) {
		rw = 0
	}
	// leaf-leaf on the same variable
	if a.isLeaf() && b.isLeaf() {
		if a.op == OConst {
			return mkTabV(b.v, rw, func(i int) uint64 { return bvop(op, w, a.val, b.tab[i]) })
		}
		if b.op == OConst {
			return mkTabV(a.v, rw, func(i int) uint64 { return bvop(op, w, a.tab[i], b.val) })
		}
		if a.v == b.v {
			return mkTabV(a.v, rw, func(i int) uint64 { return bvop(op, w, a.tab[i], b.tab[i]) })
		}
	}
	// two leaves over different variables: when both have few distinct values expand to constants
	la, lb := leaves(a), leaves(b)
	if la != nil && lb != nil {
		if len(la)*len(lb) == 1 { // two tables of different vars
			if fewValues(a) && fewValues(b) {
				ca, ok1 := constLeaves(a, nil, 48)
				cb, ok2 := constLeaves(b, nil, 48)
				if ok1 && ok2 {
					return combine(op, w, rw, ca, cb)
				}
			}
		} else if op == OEq && w == 8 && len(la)*len(lb) > maxEqSel && len(la) > 1 && len(lb) > 1 {
			// left to the solver
		} else if len(la)*len(lb) <= maxSel {
			return combine(op, w, rw, la, lb)
		}
	}
	if op == OEq || op == OAdd || op == OMul || op == OBAnd || op == OBOr || op == OBXor {
		if a.id > b.id {
			a, b = b, a
		}
	}
	// push through generic ite
	if a.op == OIte && b.isConst() {
		return mkIte(a.args[0], mkBin(op, a.args[1], b), mkBin(op, a.args[2], b))
	}
	if b.op == OIte && a.isConst() {
		return mkIte(b.args[0], mkBin(op, a, b.args[1]), mkBin(op, a, b.args[2]))
	}
	return intern(&Term{op: op, w: rw, args: []*Term{a, b}, val: 0})
}

var fewMemo = map[int]bool{}

// fewValues: a leaf with at most 48 values
func fewValues(t *Term) bool {
	if t.op != OTab {
		return true
	}
	if r, ok := fewMemo[t.id]; ok {
		return r
	}
	vals := map[uint64]bool{}
	for _, x := range t.tab {
		vals[x] = true
		if len(vals) > 48 {
			break
		}
	}
	r := len(vals) <= 48
	fewMemo[t.id] = r
	return r
}

func combine(op Op, w, rw uint8, la, lb []leafG) *Term {
	if rw == 0 {
		var ors []*Term
		// eq fast path by constant
		for _, x := range la {
			for _, y := range lb {
				r := mkBin(op, x.leaf, y.leaf)
				if r == False {
					continue
				}
				ors = append(ors, mkAnd(x.g, y.g, r))
			}
		}
		return mkOr(ors...)
	}
	var r []leafG
	for _, x := range la {
		for _, y := range lb {
			g := mkAnd(x.g, y.g)
			if g == False {
				continue
			}
			t := mkBin(op, x.leaf, y.leaf)
			for _, l := range leavesOr(t) {
				if l.leaf == nil {
					// generic leaf, give up
					return genericCombine(op, w, la, lb)
				}
				r = append(r, leafG{l.leaf, mkAnd(g, l.g)})
			}
		}
	}
	return mkSel(rw, r)
}

func leavesOr(t *Term) []leafG {
	l := leaves(t)
	if l == nil {
		return []leafG{{nil, True}}
	}
	return l
}

func genericCombine(op Op, w uint8, la, lb []leafG) *Term {
	mk := func(ls []leafG) *Term { return mkSel(w, ls) }
	return intern(&Term{op: op, w: w, args: []*Term{mk(la), mk(lb)}})
}

func mkUn(op Op, t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	f := func(x uint64) uint64 {
		switch op {
		case OZext, OTrunc:
			return x & mask(w)
		case OSext:
			return uint64(sext(x, t.w)) & mask(w)
		}
		panic("mkUn")
	}
	switch t.op {
	case OConst:
		return mkConst(w, f(t.val))
	case OTab:
		return mkTabV(t.v, w, func(i int) uint64 { return f(t.tab[i]) })
	case OSel:
		ls := leaves(t)
		r := make([]leafG, len(ls))
		for i, l := range ls {
			r[i] = leafG{mkUn(op, l.leaf, w), l.g}
		}
		return mkSel(w, r)
	case OIte:
		return mkIte(t.args[0], mkUn(op, t.args[1], w), mkUn(op, t.args[2], w))
	}
	return intern(&Term{op: op, w: w, args: []*Term{t}})
}

func mkEq(a, b *Term) *Term {
	if a.w == 0 {
		if a == b {
			return True
		}
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return mkNot(b)
		}
		if b == False {
			return mkNot(a)
		}
		if a.op == OTab && b.op == OTab && a.v == b.v {
			r := make([]uint64, len(a.tab))
			for i := range r {
				r[i] = ^(a.tab[i] ^ b.tab[i])
			}
			return mkTabB(a.v, r)
		}
		return mkOr(mkAnd(a, b), mkAnd(mkNot(a), mkNot(b)))
	}
	return mkBin(OEq, a, b)
}

func mkUlt(a, b *Term) *Term { return mkBin(OUlt, a, b) }
func mkSlt(a, b *Term) *Term { return mkBin(OSlt, a, b) }
func mkSle(a, b *Term) *Term { return mkNot(mkBin(OSlt, b, a)) }
func mkAdd(a, b *Term) *Term { return mkBin(OAdd, a, b) }
func mkSub(a, b *Term) *Term { return mkBin(OSub, a, b) }

// Dom: per-variable domains implied by a path condition (persistent, copy on write).
type Dom struct {
	m map[int]*Term // var id -> bool table
}

func (d *Dom) get(v *Var) *Term {
	if d == nil {
		return nil
	}
	return d.m[v.id]
}

func (d *Dom) has(v *Var, i int) bool {
	t := d.get(v)
	return t == nil || t.tabAt(i) != 0
}

// eval: 0 false, 1 true, 2 unknown
func (d *Dom) eval(t *Term) int {
	switch t.op {
	case OConst:
		return int(t.val)
	case OTab:
		if t.w != 0 {
			return 2
		}
		o := d.get(t.v)
		if o == nil {
			return 2
		}
		sub, dis := true, true
		for i := range t.tab {
			if o.tab[i]&^t.tab[i] != 0 {
				sub = false
			}
			if o.tab[i]&t.tab[i] != 0 {
				dis = false
			}
		}
		if dis {
			return 0
		}
		if sub {
			return 1
		}
		return 2
	}
	n := 60
	return d.evalN(t, &n)
}

func (d *Dom) evalN(t *Term, n *int) int {
	switch t.op {
	case OConst, OTab:
		return d.eval(t)
	case ONot:
		r := d.evalN(t.args[0], n)
		if r == 2 {
			return 2
		}
		return 1 - r
	case OAnd:
		*n--
		if *n < 0 {
			return 2
		}
		res := 1
		for _, a := range t.args {
			switch d.evalN(a, n) {
			case 0:
				return 0
			case 2:
				res = 2
			}
		}
		return res
	}
	return 2
}

func (d *Dom) set(v *Var, t *Term) *Dom {
	n := &Dom{m: make(map[int]*Term, 8)}
	if d != nil {
		for k, x := range d.m {
			n.m[k] = x
		}
	}
	n.m[v.id] = t
	return n
}

func (d *Dom) union(o *Dom) *Dom {
	if d == nil || o == nil {
		return nil
	}
	if d == o {
		return d
	}
	n := &Dom{m: make(map[int]*Term, len(d.m))}
	for k, a := range d.m {
		if b, ok := o.m[k]; ok {
			if a == b {
				n.m[k] = a
				continue
			}
			r := make([]uint64, len(a.tab))
			for i := range r {
				r[i] = a.tab[i] | b.tab[i]
			}
			u := mkTabB(a.v, r)
			if u.op == OTab {
				n.m[k] = u
			}
		}
	}
	return n
}

// simp simplifies an integer or boolean term under the domains (shallow)
func (d *Dom) simp(t *Term) *Term {
	if d == nil || t.op == OConst {
		return t
	}
	if t.w == 0 {
		switch d.eval(t) {
		case 0:
			return False
		case 1:
			return True
		}
		return t
	}
	switch t.op {
	case OTab:
		o := d.get(t.v)
		if o == nil {
			return t
		}
		first := true
		var c uint64
		for i := 0; i < t.v.D; i++ {
			if o.tabAt(i) != 0 {
				if first {
					c = t.tab[i]
					first = false
				} else if t.tab[i] != c {
					return t
				}
			}
		}
		return mkConst(t.w, c)
	case OSel:
		ls := leaves(t)
		var r []leafG
		ch := false
		for _, l := range ls {
			switch d.eval(l.g) {
			case 0:
				ch = true
				continue
			case 1:
				return d.simp(l.leaf)
			}
			r = append(r, l)
		}
		if !ch {
			return t
		}
		if len(r) == 1 {
			return d.simp(r[0].leaf)
		}
		return mkSel(t.w, r)
	}
	return t
}

// evaluation under a model (var id -> value)
func evalTerm(t *Term, m map[int]int, memo map[int]uint64) uint64 {
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r uint64
	switch t.op {
	case OConst:
		return t.val
	case OTab:
		return t.tabAt(m[t.v.id])
	case OAnd:
		r = 1
		for _, a := range t.args {
			if evalTerm(a, m, memo) == 0 {
				r = 0
				break
			}
		}
	case ONot:
		r = 1 - evalTerm(t.args[0], m, memo)
	case OSel:
		n := len(t.args) / 2
		for i := 0; i < n; i++ {
			if evalTerm(t.args[n+i], m, memo) != 0 {
				r = evalTerm(t.args[i], m, memo)
				break
			}
		}
	case OIte:
		if evalTerm(t.args[0], m, memo) != 0 {
			r = evalTerm(t.args[1], m, memo)
		} else {
			r = evalTerm(t.args[2], m, memo)
		}
	case OZext, OTrunc:
		r = evalTerm(t.args[0], m, memo) & mask(t.w)
	case OSext:
		r = uint64(sext(evalTerm(t.args[0], m, memo), t.args[0].w)) & mask(t.w)
	default:
		r = bvop(t.op, t.args[0].w, evalTerm(t.args[0], m, memo), evalTerm(t.args[1], m, memo))
	}
	memo[t.id] = r
	return r
}

func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val != 0)
		}
		return fmt.Sprint(sext(t.val, t.w))
	case OTab:
		if t.w == 0 {
			n := 0
			for _, x := range t.tab {
				n += bits.OnesCount64(x)
			}
			return fmt.Sprintf("%s∈[%d]", t.v.name, n)
		}
		return fmt.Sprintf("tab(%s)", t.v.name)
	}
	if d == 0 {
		return "…"
	}
	var p []string
	for _, a := range t.args {
		p = append(p, a.str(d-1))
		if len(p) > 6 {
			p = append(p, "...")
			break
		}
	}
	return fmt.Sprintf("(op%d %s)", t.op, strings.Join(p, " "))
}

// andRaw is mkAnd without its simplifications
func andRaw(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a == False {
			return False
		}
		if a == True {
			continue
		}
		dup := false
		for i, o := range out {
			if o == a {
				dup = true
			} else if a.op == OTab && o.op == OTab && a.v == o.v {
				dup = true
				out[i] = tabInter(o, a)
				if out[i] == False {
					return False
				}
			}
		}
		if !dup {
			out = append(out, a)
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return intern(&Term{op: OAnd, args: out})
}

func notRaw(t *Term) *Term {
	switch {
	case t == True:
		return False
	case t == False:
		return True
	case t.op == ONot:
		return t.args[0]
	case t.op == OTab:
		return mkNot(t)
	}
	return intern(&Term{op: ONot, args: []*Term{t}})
}

func orRaw(as ...*Term) *Term {
	for i, a := range as {
		as[i] = notRaw(a)
	}
	return notRaw(andRaw(as...))
}

// deselection is an alternative encoding, used to cross-check
var noDesel = os.Getenv("VX_DESEL") == ""

var deselMemo = map[int]*Term{}

// desel replaces the selectors of merges by the conditions under which they take their values, so that the term
// becomes a function of the inputs.
func desel(root *Term) *Term {
	if noDesel {
		return root
	}
	deps := func(t *Term) []*Term {
		if t.op == OTab {
			if t.v.kind == 's' && t.v.rels != nil {
				return t.v.rels
			}
			return nil
		}
		return t.args
	}
	type fr struct {
		t *Term
		i int
		d []*Term
	}
	st := []fr{{t: root, d: deps(root)}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if _, ok := deselMemo[f.t.id]; ok {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.d) {
			a := f.d[f.i]
			f.i++
			if _, ok := deselMemo[a.id]; !ok {
				st = append(st, fr{t: a, d: deps(a)})
			}
			continue
		}
		deselMemo[f.t.id] = desel1(f.t)
		st = st[:len(st)-1]
	}
	return deselMemo[root.id]
}

func desel1(t *Term) *Term {
	get := func(a *Term) *Term { return deselMemo[a.id] }
	switch t.op {
	case OConst:
		return t
	case OTab:
		if t.v.kind != 's' || t.v.rels == nil {
			return t
		}
		if t.w == 0 {
			var ors []*Term
			for i, r := range t.v.rels {
				if t.tabAt(i) != 0 {
					ors = append(ors, get(r))
				}
			}
			return orRaw(ors...)
		}
		var ls, gs []*Term
		for i, r := range t.v.rels {
			ls = append(ls, mkConst(t.w, t.tabAt(i)))
			gs = append(gs, get(r))
		}
		return selRaw(t.w, ls, gs)
	}
	args := make([]*Term, len(t.args))
	same := true
	for i, a := range t.args {
		args[i] = get(a)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	switch t.op {
	case OAnd:
		return andRaw(args...)
	case ONot:
		return notRaw(args[0])
	case OSel:
		n := len(args) / 2
		return selRaw(t.w, args[:n], args[n:])
	}
	return intern(&Term{op: t.op, w: t.w, val: t.val, v: t.v, tab: t.tab, args: args})
}

func selRaw(w uint8, ls, gs []*Term) *Term {
	var l2, g2 []*Term
	for i, g := range gs {
		if g == False {
			continue
		}
		l2 = append(l2, ls[i])
		g2 = append(g2, g)
		if g == True {
			break
		}
	}
	if len(l2) == 0 {
		return mkConst(w, 0)
	}
	if len(l2) == 1 {
		return l2[0]
	}
	return intern(&Term{op: OSel, w: w, args: append(l2, g2...)})
}
