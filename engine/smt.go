package main

import (
	"bytes"
	"context"
	"fmt"
	"math/bits"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"
)

// SMT-LIB2 emission. Every variable which is only observed through boolean tables is encoded by its classes (the
// coarsest partition of its domain all those tables respect); other variables by their value.

type emitter struct {
	sb       strings.Builder
	done     map[int]string
	vars     map[*Var]*venc
	order    []*Var
	nodes    int
	rootName string
}

type venc struct {
	v     *Var
	raw   bool
	tabs  map[int]*Term
	tl    []*Term
	cls   []int // value -> class
	rep   []int // class -> representative
	k     int
	width int
	name  string
}

func (en *venc) lit(c int) string { return fmt.Sprintf("%s_%d", en.name, c) }

func collect(roots []*Term, f func(*Term)) {
	seen := map[int]bool{}
	var st []*Term
	for _, r := range roots {
		st = append(st, r)
	}
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t.id] {
			continue
		}
		seen[t.id] = true
		f(t)
		st = append(st, t.args...)
	}
}

func bitsFor(n int) int {
	if n <= 2 {
		return 1
	}
	return bits.Len(uint(n - 1))
}

func bvlit(v uint64, w int) string {
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func emitQuery(root *Term, classes bool) (string, *emitter) {
	e := &emitter{done: map[int]string{}, vars: map[*Var]*venc{}}
	collect([]*Term{root}, func(t *Term) {
		e.nodes++
		if t.op == OTab {
			en := e.vars[t.v]
			if en == nil {
				en = &venc{v: t.v, tabs: map[int]*Term{}, name: fmt.Sprintf("v%d", t.v.id)}
				e.vars[t.v] = en
				e.order = append(e.order, t.v)
			}
			if _, ok := en.tabs[t.id]; !ok {
				en.tabs[t.id] = t
				en.tl = append(en.tl, t)
			}
			if t.w != 0 || !classes {
				en.raw = true
			}
		}
	})
	e.sb.WriteString("(set-option :print-success false)\n")
	for _, v := range e.order {
		en := e.vars[v]
		if en.raw {
			en.width = bitsFor(v.D)
			fmt.Fprintf(&e.sb, "(declare-const %s (_ BitVec %d))\n", en.name, en.width)
			if v.D != 1<<en.width {
				fmt.Fprintf(&e.sb, "(assert (bvult %s %s))\n", en.name, bvlit(uint64(v.D), en.width))
			}
			continue
		}
		// classes
		en.cls = make([]int, v.D)
		cur := make([]int, v.D)
		n := 1
		for _, t := range en.tl {
			m := map[[2]int]int{}
			nn := 0
			for i := 0; i < v.D; i++ {
				k := [2]int{cur[i], int(t.tabAt(i))}
				c, ok := m[k]
				if !ok {
					c = nn
					nn++
					m[k] = c
				}
				cur[i] = c
			}
			n = nn
		}
		en.cls = cur
		en.k = n
		en.rep = make([]int, n)
		for i := range en.rep {
			en.rep[i] = -1
		}
		for i := 0; i < v.D; i++ {
			c := cur[i]
			if en.rep[c] < 0 || nicer(v, i, en.rep[c]) {
				en.rep[c] = i
			}
		}
		// one boolean per class, exactly one of them true
		for i := 0; i < n; i++ {
			fmt.Fprintf(&e.sb, "(declare-const %s Bool)\n", en.lit(i))
		}
		if n > 1 {
			e.sb.WriteString("(assert (or")
			for i := 0; i < n; i++ {
				e.sb.WriteString(" " + en.lit(i))
			}
			e.sb.WriteString("))\n")
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					fmt.Fprintf(&e.sb, "(assert (or (not %s) (not %s)))\n", en.lit(i), en.lit(j))
				}
			}
		}
	}
	e.rootName = e.emit(root)
	fmt.Fprintf(&e.sb, "(assert %s)\n", e.rootName)
	return e.sb.String(), e
}

// nicer: prefer printable letters as representatives
func nicer(v *Var, a, b int) bool {
	if v.kind != 'b' {
		return a < b
	}
	s := func(c int) int {
		switch {
		case c >= 'a' && c <= 'z':
			return 0
		case c >= '0' && c <= '9', c >= 'A' && c <= 'Z':
			return 1
		case c > 32 && c < 127:
			return 2
		}
		return 3
	}
	return s(a) < s(b)
}

func (e *emitter) emit(root *Term) string {
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		t := f.t
		if _, ok := e.done[t.id]; ok {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(t.args) {
			a := t.args[f.i]
			f.i++
			if _, ok := e.done[a.id]; !ok {
				st = append(st, fr{a, 0})
			}
			continue
		}
		e.done[t.id] = e.node(t)
		st = st[:len(st)-1]
	}
	return e.done[root.id]
}

func (e *emitter) node(t *Term) string {
	sort := "Bool"
	if t.w > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	a := func(i int) string { return e.done[t.args[i].id] }
	var body string
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return bvlit(t.val, int(t.w))
	case OTab:
		en := e.vars[t.v]
		if t.w == 0 {
			body = e.tabBool(en, t)
		} else {
			body = e.tabVal(en, t)
		}
	case OAnd:
		var sb strings.Builder
		sb.WriteString("(and")
		for i := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(a(i))
		}
		sb.WriteByte(')')
		body = sb.String()
	case ONot:
		return "(not " + a(0) + ")"
	case OSel:
		n := len(t.args) / 2
		var sb strings.Builder
		for i := 0; i < n-1; i++ {
			fmt.Fprintf(&sb, "(ite %s %s ", a(n+i), a(i))
		}
		sb.WriteString(a(n - 1))
		sb.WriteString(strings.Repeat(")", n-1))
		body = sb.String()
	case OIte:
		body = fmt.Sprintf("(ite %s %s %s)", a(0), a(1), a(2))
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OTrunc:
		body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, a(0))
	default:
		body = fmt.Sprintf("(%s %s %s)", opSMT[t.op], a(0), a(1))
	}
	name := fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&e.sb, "(define-fun %s () %s %s)\n", name, sort, body)
	return name
}

func (e *emitter) tabBool(en *venc, t *Term) string {
	v := t.v
	if !en.raw {
		var pos, neg []int
		seen := make([]bool, en.k)
		for i := 0; i < v.D; i++ {
			c := en.cls[i]
			if seen[c] {
				continue
			}
			seen[c] = true
			if t.tabAt(i) != 0 {
				pos = append(pos, c)
			} else {
				neg = append(neg, c)
			}
		}
		mk := func(cs []int) string {
			if len(cs) == 1 {
				return en.lit(cs[0])
			}
			var sb strings.Builder
			sb.WriteString("(or")
			for _, c := range cs {
				sb.WriteString(" " + en.lit(c))
			}
			sb.WriteString(")")
			return sb.String()
		}
		if len(pos) <= len(neg) {
			return mk(pos)
		}
		return "(not " + mk(neg) + ")"
	}
	var parts []string
	for i := 0; i < v.D; {
		if t.tabAt(i) == 0 {
			i++
			continue
		}
		j := i
		for j+1 < v.D && t.tabAt(j+1) != 0 {
			j++
		}
		parts = append(parts, rangeCond(en, i, j))
		i = j + 1
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

func rangeCond(en *venc, i, j int) string {
	switch {
	case i == j:
		return fmt.Sprintf("(= %s %s)", en.name, bvlit(uint64(i), en.width))
	case i == 0:
		return fmt.Sprintf("(bvule %s %s)", en.name, bvlit(uint64(j), en.width))
	case j == 1<<en.width-1:
		return fmt.Sprintf("(bvuge %s %s)", en.name, bvlit(uint64(i), en.width))
	}
	return fmt.Sprintf("(and (bvuge %s %s) (bvule %s %s))", en.name, bvlit(uint64(i), en.width), en.name, bvlit(uint64(j), en.width))
}

func (e *emitter) tabVal(en *venc, t *Term) string {
	// pieces of constant offset or constant value
	v := t.v
	w := int(t.w)
	base := en.name
	if w > en.width {
		base = fmt.Sprintf("((_ zero_extend %d) %s)", w-en.width, en.name)
	} else if w < en.width {
		base = fmt.Sprintf("((_ extract %d 0) %s)", w-1, en.name)
	}
	type pc struct {
		i, j int
		off  uint64
		cst  bool
	}
	var ps []pc
	for i := 0; i < v.D; {
		off := (t.tab[i] - uint64(i)) & mask(t.w)
		j := i
		for j+1 < v.D && (t.tab[j+1]-uint64(j+1))&mask(t.w) == off {
			j++
		}
		k := i
		for k+1 < v.D && t.tab[k+1] == t.tab[i] {
			k++
		}
		if k > j {
			ps = append(ps, pc{i, k, t.tab[i], true})
			i = k + 1
		} else {
			ps = append(ps, pc{i, j, off, false})
			i = j + 1
		}
	}
	var sb strings.Builder
	for n, p := range ps {
		var val string
		if p.cst || p.i == p.j {
			val = bvlit(t.tab[p.i], w)
		} else if p.off == 0 {
			val = base
		} else {
			val = fmt.Sprintf("(bvadd %s %s)", base, bvlit(p.off, w))
		}
		if n == len(ps)-1 {
			sb.WriteString(val)
		} else {
			fmt.Fprintf(&sb, "(ite %s %s ", rangeCond(en, p.i, p.j), val)
		}
	}
	sb.WriteString(strings.Repeat(")", len(ps)-1))
	return sb.String()
}

// results
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	mu      sync.Mutex
	Queries int
	Unsat   int
	Sat     int
	Unknown int
	Seconds float64
	MaxSec  float64
	Nodes   int
}

var SS SolverStats

var solverSem = make(chan bool, solverPar())
var solveDeadline time.Time

func solverPar() int {
	if n, err := strconv.Atoi(os.Getenv("VX_PAR")); err == nil && n > 0 {
		return n
	}
	return 8
}

func runSolver(script string, bin []string, timeout time.Duration) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin[0], bin[1:]...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	err := cmd.Run()
	return out.String(), err
}

// solve decides the satisfiability of root and gives a model on the variables of root.
func solve(root *Term, timeout time.Duration) (Result, map[int]int) {
	if root == False {
		return Unsat, nil
	}
	solverSem <- true
	defer func() { <-solverSem }()
	t0 := time.Now()
	res, model, nodes := solve1(root, timeout)
	dt := time.Since(t0).Seconds()
	SS.mu.Lock()
	SS.Queries++
	SS.Seconds += dt
	if dt > SS.MaxSec {
		SS.MaxSec = dt
	}
	SS.Nodes += nodes
	switch res {
	case Unsat:
		SS.Unsat++
	case Sat:
		SS.Sat++
	default:
		SS.Unknown++
	}
	SS.mu.Unlock()
	return res, model
}

var crossCheck = os.Getenv("VX_CROSS") != ""

func solve1(root *Term, timeout time.Duration) (Result, map[int]int, int) {
	script, e := emitQuery(root, true)
	var sb strings.Builder
	sb.WriteString(script)
	get := ""
	if len(e.order) > 0 {
		var g strings.Builder
		g.WriteString("(get-value (")
		for _, v := range e.order {
			if en := e.vars[v]; en.raw {
				g.WriteString(en.name + " ")
			} else {
				for i := 0; i < en.k; i++ {
					g.WriteString(en.lit(i) + " ")
				}
			}
		}
		g.WriteString("))\n")
		get = g.String()
	}
	if d := os.Getenv("VX_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, root.id), []byte(sb.String()), 0644)
	}
	if !solveDeadline.IsZero() {
		if left := time.Until(solveDeadline); left < timeout {
			timeout = left
		}
		if timeout < time.Second {
			return Unknown, nil, e.nodes
		}
	}
	half := timeout * 2 / 3
	// bit-blasting at once is many times faster here than z3's default strategy
	out, _ := runSolver(sb.String()+"(check-sat-using (then simplify bit-blast sat))\n"+get, []string{"z3-new", "-in", fmt.Sprintf("-t:%d", half.Milliseconds())}, half)
	r := parseRes(out)
	if r == Unknown {
		half = timeout / 3
		out, _ = runSolver("(set-logic QF_BV)\n(set-option :produce-models true)\n"+sb.String()+"(check-sat)\n"+get, []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", half.Milliseconds())}, half)
		r = parseRes(out)
	}
	if crossCheck && r != Unknown {
		o2, _ := runSolver("(set-logic QF_BV)\n(set-option :produce-models true)\n"+sb.String()+"(check-sat)\n", []string{"cvc5", "--lang=smt2", "--tlimit=60000"}, 60*time.Second)
		if r2 := parseRes(o2); r2 != Unknown && r2 != r {
			fmt.Fprintf(os.Stderr, "SOLVER DISAGREEMENT z3=%v cvc5=%v\n", r, r2)
			return Unknown, nil, e.nodes
		}
	}
	if r != Sat {
		return r, nil, e.nodes
	}
	m := map[int]int{}
	// ((v1 #b01) (v2 #x1f) ...)
	i := strings.Index(out, "((")
	if i >= 0 {
		toks := strings.FieldsFunc(out[i:], func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
		for k := 0; k+1 < len(toks); {
			name := toks[k]
			val := toks[k+1]
			k += 2
			if u := strings.IndexByte(name, '_'); u >= 0 {
				id, err := strconv.Atoi(strings.TrimPrefix(name[:u], "v"))
				c, err2 := strconv.Atoi(name[u+1:])
				if err == nil && err2 == nil && val == "true" {
					m[id] = e.vars[TT.vars[id]].rep[c]
				}
				continue
			}
			var n uint64
			switch {
			case strings.HasPrefix(val, "#b"):
				n, _ = strconv.ParseUint(val[2:], 2, 64)
			case strings.HasPrefix(val, "#x"):
				n, _ = strconv.ParseUint(val[2:], 16, 64)
			case val == "_":
				n, _ = strconv.ParseUint(strings.TrimPrefix(toks[k], "bv"), 10, 64)
				k += 2
			}
			id, err := strconv.Atoi(strings.TrimPrefix(name, "v"))
			if err != nil {
				continue
			}
			en := e.vars[TT.vars[id]]
			if en.raw {
				m[id] = int(n)
			} else if int(n) < en.k {
				m[id] = en.rep[n]
			}
		}
	}
	// sanity: the model must satisfy the term in our own semantics
	if evalTerm(root, m, map[int]uint64{}) == 0 {
		fmt.Fprintln(os.Stderr, "MODEL MISMATCH: solver model does not satisfy the term")
		return Unknown, nil, e.nodes
	}
	return Sat, m, e.nodes
}

func parseRes(out string) Result {
	if strings.Contains(out, "(error") {
		// get-value after unsat gives an error line; only accept it in that position
		l := strings.SplitN(out, "\n", 2)
		if strings.TrimSpace(l[0]) == "unsat" {
			return Unsat
		}
		fmt.Fprintln(os.Stderr, "solver error:", firstLines(out, 3))
		return Unknown
	}
	l := strings.TrimSpace(strings.SplitN(out, "\n", 2)[0])
	switch l {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
