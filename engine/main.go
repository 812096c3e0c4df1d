package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	rdebug "runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"runtime/pprof"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ModelInput is one vx call of a model (see vh/vx)
type ModelInput struct {
	Kind  string `json:"kind"`
	Bytes []byte `json:"bytes"`
	Int   int    `json:"int"`
}

// OblResult: the verdict on one group of obligations
type OblResult struct {
	Kind    string       `json:"kind"`
	Msg     string       `json:"msg"`
	Count   int          `json:"count"`
	Verdict string       `json:"verdict"`
	Model   []ModelInput `json:"model"`
	Sec     float64      `json:"sec"`
}

// FnReport: the outcome of one harness function
type FnReport struct {
	Fn          string         `json:"fn"`
	Tier        string         `json:"-"`
	Results     []OblResult    `json:"results"`
	Functions   map[string]int `json:"functions"`
	Stubs       map[string]int `json:"stubs"`
	Bounds      []string       `json:"bounds"`
	States      int            `json:"states"`
	Transitions int            `json:"transitions"`
	Merges      int            `json:"merges"`
	Trivial     int            `json:"trivial"`
	Queries     int            `json:"queries"`
	QUnsat      int            `json:"unsat"`
	QSat        int            `json:"sat"`
	QUnknown    int            `json:"unknown"`
	SolverSec   float64        `json:"solver_s"`
	MaxSec      float64        `json:"max_query_s"`
	Nodes       int            `json:"nodes"`
	EncodeSec   float64        `json:"encode_s"`
	WallSec     float64        `json:"wall_s"`
	MaxSteps    int            `json:"max_steps"`
	Aborted     string         `json:"aborted"`
}

var ballast []byte

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	var (
		dir    = flag.String("dir", "/verif/harness", "module directory")
		pkg    = flag.String("pkg", "vh", "package of the harness")
		fnName = flag.String("fn", "", "harness function")
		tier   = flag.String("tier", "quick", "quick or thorough")
		out    = flag.String("out", "", "report file")
		budget = flag.Duration("budget", 10*time.Minute, "time for the encoding")
		qt     = flag.Duration("qt", 120*time.Second, "time for one query")
		steps  = flag.Int("steps", 20000, "step bound of one path")
		dump   = flag.Bool("ssa", false, "print the SSA form")
	)
	prof := flag.String("cpuprofile", "", "write a profile of the encoding")
	flag.DurationVar(&totalTime, "total", 0, "time for everything (overrides budget and qt)")
	flag.BoolVar(&debug_, "debug", false, "debug output")
	flag.Parse()
	rdebug.SetGCPercent(200)
	ballast = make([]byte, 256<<20) // never touched: fewer collections of small heaps
	if totalTime > 0 {
		*budget = totalTime * 6 / 10
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		go func() { time.Sleep(*budget); pprof.StopCPUProfile() }()
	}
	r, err := runHarness(*dir, *pkg, *fnName, *tier, *budget, *qt, *steps, *dump)
	if err != nil {
		fmt.Fprintln(os.Stderr, "engine:", err)
		os.Exit(2)
	}
	b, _ := json.MarshalIndent(r, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0644)
	} else {
		os.Stdout.Write(b)
		fmt.Println()
	}
}

var debug_ bool
var totalTime time.Duration

func goEnv() []string {
	e := os.Environ()
	return append(e, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

func runHarness(dir, pkg, fnName, tier string, budget, qt time.Duration, steps int, dump bool) (*FnReport, error) {
	t0 := time.Now()
	debug = debug_
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: goEnv(), Tests: false}
	pats := []string{pkg}
	if pkg != "." {
		pats = append(pats, "vh/jsonm", "vh/osm")
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 5 {
				fmt.Fprintln(os.Stderr, e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d errors while loading", nerr)
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	hp := sp[0]
	fn := hp.Func(fnName)
	if fn == nil {
		return nil, fmt.Errorf("no function %s in %s", fnName, hp.Pkg.Path())
	}
	if dump {
		fn.WriteTo(os.Stdout)
	}
	x := &Exec{
		prog: prog, base: map[int]*Object{}, globals: map[*ssa.Global]int{}, inited: map[*ssa.Package]bool{},
		infos: map[*ssa.Function]*fnInfo{}, fnUsed: map[string]int{}, maxSteps: steps, unsupported: map[string]int{},
		tier: tier, harnessPkg: hp.Pkg.Path(), stubs: map[string]bool{}, ranges: map[*ssa.If]*rangeInfo{},
	}
	x.deadline = func() bool { return time.Since(t0) > budget }
	var upkgs []*ssa.Package
	for _, p := range prog.AllPackages() {
		pp := p.Pkg.Path()
		if strings.HasPrefix(pp, "github.com/leodido/go-urn") || strings.HasPrefix(pp, "vh") || strings.HasPrefix(pp, "gen") || p == hp {
			upkgs = append(upkgs, p)
		}
	}
	sort.Slice(upkgs, func(i, j int) bool { return upkgs[i].Pkg.Path() < upkgs[j].Pkg.Path() })
	x.findProgressFields(upkgs)
	x.findLooseFields(upkgs)
	if debug {
		fmt.Fprintln(os.Stderr, "loose", x.looseF)
	}
	x.initPkg(hp)
	st := State{heap: &Heap{}, pc: rootPC}
	outs := func() (o []Outcome) {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsup); ok {
					x.obl("unsupported", st, True, u.why)
					return
				}
				panic(r)
			}
		}()
		return x.callFn(st, fn, nil, nil, nil, 0, nil)
	}()
	for _, o := range outs {
		if o.pan != nil {
			x.obl("panic", o.st, True, o.pan.msg)
		}
	}
	r := &FnReport{Fn: fnName, Functions: map[string]int{}, Stubs: stubUsed, Bounds: x.bounds, States: x.states, Transitions: x.transitions,
		Merges: x.merges, Trivial: x.trivial, MaxSteps: steps, Aborted: x.aborted}
	for f, n := range x.fnUsed {
		r.Functions[f] = n
	}
	r.EncodeSec = time.Since(t0).Seconds()
	if debug {
		fmt.Fprintf(os.Stderr, "%s: encoded in %.1fs, %d states %d transitions %d merges, %d obligations, %d terms\n", fnName, r.EncodeSec, x.states, x.transitions, x.merges, len(x.obls), TT.n)
	}
	if debug {
		dumpCounts()
	}
	if totalTime > 0 {
		// the queries go to the solver in rounds; a query which z3 gives up is given to cvc5
		rounds := (len(x.obls)/cap(solverSem) + 1)
		if rounds > 2 {
			rounds = 2
		}
		qt = (totalTime - time.Since(t0) - 2*time.Second) / time.Duration(rounds)
		solveDeadline = t0.Add(totalTime - 2*time.Second)
	}
	x.discharge(r, qt)
	r.WallSec = time.Since(t0).Seconds()
	return r, nil
}

func (x *Exec) discharge(r *FnReport, qt time.Duration) {
	type group struct {
		kind, msg string
		obls      []*Obligation
	}
	var gs []*group
	idx := map[string]*group{}
	for _, o := range x.obls {
		k := o.kind + "\x00" + o.msg
		if o.kind != "reach" {
			// every explored fork is a query of its own
			for q := o.in; q != nil; q = q.parent {
				if q.kind == "fork" {
					k += fmt.Sprintf(" %d", q.base)
				}
			}
		}
		g := idx[k]
		if g == nil {
			g = &group{kind: o.kind, msg: o.msg}
			idx[k] = g
			gs = append(gs, g)
		}
		g.obls = append(g.obls, o)
	}
	res := make([]OblResult, len(gs))
	// the terms are built sequentially, the solvers run in parallel
	type job struct {
		i    int
		root *Term
	}
	var jobs []job
	for i, g := range gs {
		var ors []*Term
		for _, o := range g.obls {
			ors = append(ors, mkAnd(o.pc.full(), o.cond))
		}
		root := desel(mkOr(ors...))
		// definitions of the selection variables are part of pc chains already
		res[i] = OblResult{Kind: g.kind, Msg: g.msg, Count: len(g.obls)}
		jobs = append(jobs, job{i, root})
	}
	var wg sync.WaitGroup
	models := make([]map[int]int, len(gs))
	for _, j := range jobs {
		wg.Add(1)
		go func(j job) {
			defer wg.Done()
			t0 := time.Now()
			v, m := solve(j.root, qt)
			res[j.i].Verdict = v.String()
			res[j.i].Sec = time.Since(t0).Seconds()
			models[j.i] = m
		}(j)
	}
	wg.Wait()
	for i, g := range gs {
		if res[i].Verdict != "sat" {
			continue
		}
		memo := map[int]uint64{}
		for _, o := range g.obls {
			if evalTerm(desel(o.pc.full()), models[i], memo) != 0 && evalTerm(desel(o.cond), models[i], memo) != 0 {
				res[i].Model = modelInputs(o.in, models[i], memo)
				break
			}
		}
	}
	r.Results = res
	r.Queries, r.QUnsat, r.QSat, r.QUnknown = SS.Queries, SS.Unsat, SS.Sat, SS.Unknown
	r.SolverSec, r.MaxSec, r.Nodes = SS.Seconds, SS.MaxSec, SS.Nodes
}

func modelInputs(rec *inputRec, m map[int]int, memo map[int]uint64) []ModelInput {
	var chain []*inputRec
	for q := rec; q != nil; q = q.parent {
		chain = append(chain, q)
	}
	out := []ModelInput{}
	for i := len(chain) - 1; i >= 0; i-- {
		q := chain[i]
		switch q.kind {
		case "fork":
		case "bytes":
			n := int(int64(evalTerm(desel(q.lenT), m, memo)))
			b := make([]byte, n)
			for k := range b {
				b[k] = byte(evalTerm(desel(q.bytes[k]), m, memo))
			}
			out = append(out, ModelInput{Kind: "bytes", Bytes: b})
		default:
			w := q.val.w
			v := evalTerm(desel(q.val), m, memo)
			n := int(int64(v))
			if w == 8 {
				n = int(v & 0xff)
			}
			out = append(out, ModelInput{Kind: "int", Int: n})
		}
	}
	return out
}

func mustAbs(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		panic(err)
	}
	return a
}
