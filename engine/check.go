package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The driver of one check: the harness functions of the property are encoded from the current sources and decided by
// the solver, one process per function; every model of the solver is replayed on the real code, natively.

type checkCtx struct {
	id, tier   string
	seed       int
	verif      string // /verif
	repo       string // /repo
	tmp        string // scratch module
	self       string
	pkg        string // package of the harness functions
	dir        string // directory with their sources
	bin        string // native replay program
	race       bool
	skip       string // why nothing can be decided
	deadline   time.Time
	mu         sync.Mutex
	violations []string
	known      map[string]string
	ctx        context.Context
	cancel     context.CancelFunc
	nrep       int
}

type traceRec struct {
	Fn     string   `json:"harness"`
	Point  string   `json:"point"`
	Inputs []string `json:"inputs"`
	Native string   `json:"native"`
}

type replayFile struct {
	Property string       `json:"property"`
	Harness  string       `json:"harness"`
	Kind     string       `json:"kind"`
	Msg      string       `json:"msg"`
	Inputs   []string     `json:"inputs"`
	Native   string       `json:"native"`
	How      string       `json:"how"`
	Model    []ModelInput `json:"model"`
}

var modelCheckers = map[string]bool{}

func checkMain(args []string) int {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: engine check ID")
		return 2
	}
	c := &checkCtx{id: args[0], tier: os.Getenv("VERIF_TIER"), verif: os.Getenv("VERIF_DIR"), repo: os.Getenv("VERIF_REPO"), pkg: "vh"}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	if c.verif == "" {
		c.verif = "/verif"
	}
	if c.repo == "" {
		c.repo = "/repo"
	}
	t0 := time.Now()
	total := 480 * time.Second
	if c.tier == "thorough" {
		total = 800 * time.Second
	}
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			total = d
		}
	}
	c.deadline = t0.Add(total)
	var err error
	c.self, err = os.Executable()
	if err == nil {
		err = c.run(t0)
	}
	if c.tmp != "" {
		os.RemoveAll(c.tmp)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "check:", err)
		return 2
	}
	if len(c.violations) > 0 {
		return 1
	}
	return 0
}

func (c *checkCtx) run(t0 time.Time) error {
	os.Setenv("VERIF_TIER", c.tier)
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
	if err := c.prepare(); err != nil {
		return err
	}
	if c.skip != "" {
		return c.notDecided(t0)
	}
	fns, err := c.functions()
	if err != nil {
		return err
	}
	if len(fns) == 0 {
		return fmt.Errorf("no harness function for %s", c.id)
	}
	if err := c.buildReplay(fns); err != nil {
		return err
	}
	c.loadKnown()
	c.ctx, c.cancel = context.WithCancel(context.Background())
	defer c.cancel()
	par := runtime.NumCPU() / 2
	if par < 1 {
		par = 1
	}
	if len(fns) < par {
		par = len(fns)
	}
	// what is nearly concrete comes first
	sort.SliceStable(fns, func(i, j int) bool { return nearlyConcrete(fns[i]) && !nearlyConcrete(fns[j]) })
	type job struct {
		fn, tier string
	}
	var jobs []job
	var reports []*FnReport
	var notes []string
	var traces [][]traceRec
	var undecided [][]string
	pass := func(js []job, share float64) {
		at := len(jobs)
		jobs = append(jobs, js...)
		reports = append(reports, make([]*FnReport, len(js))...)
		notes = append(notes, make([]string, len(js))...)
		traces = append(traces, make([][]traceRec, len(js))...)
		undecided = append(undecided, make([][]string, len(js))...)
		next := make(chan int, len(js))
		for i := range js {
			next <- at + i
		}
		close(next)
		var wg sync.WaitGroup
		for w := 0; w < par; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range next {
					if c.ctx.Err() != nil {
						notes[i] = "not run: a violation was found before"
						continue
					}
					r, note := c.engine(jobs[i].fn, jobs[i].tier, share)
					reports[i], notes[i] = r, note
					if r != nil {
						r.Tier = jobs[i].tier
						traces[i], undecided[i] = c.replayAll(r)
					}
				}
			}()
		}
		wg.Wait()
	}
	var js []job
	for _, f := range fns {
		js = append(js, job{f, c.tier})
	}
	share := 0.35
	smaller := "small"
	if c.tier == "thorough" {
		share = 0.5
		smaller = "quick"
	}
	if len(js) <= par {
		share = 0.7
	}
	pass(js, share)
	// smaller bounds where the encoding or the solver did not come to an end
	js = nil
	for i, j := range jobs {
		if c.ctx.Err() == nil && (reports[i] == nil || reports[i].Aborted != "" || reports[i].QUnknown > 0) {
			js = append(js, job{j.fn, smaller})
		}
	}
	if len(js) > 0 && time.Until(c.deadline) > 15*time.Second {
		pass(js, 0.6)
	}

	// evidence
	type fnEv struct {
		Harness   string   `json:"harness"`
		Bounds    []string `json:"inputs"`
		States    int      `json:"states"`
		Trans     int      `json:"transitions"`
		Merges    int      `json:"merges"`
		Asserts   []string `json:"obligations"`
		Queries   int      `json:"queries"`
		Unsat     int      `json:"unsat"`
		Sat       int      `json:"sat"`
		Unknown   int      `json:"unknown"`
		SolverSec float64  `json:"solver_s"`
		MaxSec    float64  `json:"max_query_s"`
		EncodeSec float64  `json:"encode_s"`
		Wall      float64  `json:"wall_s"`
		Undecided []string `json:"undecided,omitempty"`
		Note      string   `json:"note,omitempty"`
	}
	var evs []fnEv
	states, trans, queries, unsat, sat, unknown, nundec, ntr, trivial := 0, 0, 0, 0, 0, 0, 0, 0, 0
	solver, maxq := 0.0, 0.0
	funcs, stubs := map[string]bool{}, map[string]bool{}
	var samples []traceRec
	for i, j := range jobs {
		e := fnEv{Harness: j.fn, Note: notes[i], Undecided: undecided[i]}
		if j.tier != c.tier {
			e.Harness += " (smaller bounds)"
		}
		if r := reports[i]; r != nil {
			e.Bounds, e.States, e.Trans, e.Merges = uniq(r.Bounds), r.States, r.Transitions, r.Merges
			e.Queries, e.Unsat, e.Sat, e.Unknown, e.SolverSec, e.MaxSec, e.EncodeSec, e.Wall = r.Queries, r.QUnsat, r.QSat, r.QUnknown, round2(r.SolverSec), round2(r.MaxSec), round2(r.EncodeSec), round2(r.WallSec)
			for _, q := range r.Results {
				e.Asserts = append(e.Asserts, fmt.Sprintf("%s: %s (%d places): %s", q.Kind, q.Msg, q.Count, q.Verdict))
			}
			states += r.States
			trivial += r.Trivial
			trans += r.Transitions
			queries += r.Queries
			unsat += r.QUnsat
			sat += r.QSat
			unknown += r.QUnknown
			solver += r.SolverSec
			if r.MaxSec > maxq {
				maxq = r.MaxSec
			}
			for k := range r.Functions {
				funcs[k] = true
			}
			for k := range r.Stubs {
				stubs[k] = true
			}
		} else {
			e.Undecided = append(e.Undecided, "not decided: "+notes[i])
		}
		nundec += len(e.Undecided)
		for _, t := range traces[i] {
			if t.Native == "reached" {
				ntr++
			}
			if len(samples) < 12 {
				samples = append(samples, t)
			}
		}
		evs = append(evs, e)
	}
	if len(samples) == 0 {
		samples = append(samples, traceRec{Fn: fns[0], Point: "none"})
	}
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": ntr, "samples": samples,
		"functions_encoded": keys(funcs), "engine_models_of_library_functions": keys(stubs), "harnesses": evs,
		"obligations_decided_by_constant_folding": trivial,
		"queries": queries, "queries_unsat": unsat, "queries_sat": sat, "queries_undecided": unknown,
		"solver_s": round2(solver), "max_query_s": round2(maxq), "undecided": nundec, "exhaustive": false,
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{
			"the symbolic executor gives the Go SSA form its meaning (every model it reports is replayed natively; the reach points of every harness are replayed on the real code as a check of it)",
			"z3 (and cvc5 where z3 gives up) answers unsat only when it is",
			"inputs outside the stated sizes and surroundings are not covered",
		},
		"wall_s": round2(time.Since(t0).Seconds()), "violations": len(c.violations),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), append(b, '\n'), 0644); err != nil {
		return err
	}
	fmt.Printf("%s %s: %d harnesses, %d states, %d transitions, %d queries (%d unsat, %d sat, %d undecided), solver %.1f s, wall %.1f s; %d traces replayed, %d undecided\n",
		c.id, c.tier, len(fns), states, trans, queries, unsat, sat, unknown, solver, time.Since(t0).Seconds(), ntr, nundec)
	for _, e := range evs {
		for _, u := range e.Undecided {
			fmt.Printf("  undecided: %s: %s\n", e.Harness, u)
		}
	}
	return nil
}

// notDecided reports that nothing could be compared
func (c *checkCtx) notDecided(t0 time.Time) error {
	fmt.Printf("%s %s: not decided: %s\n", c.id, c.tier, c.skip)
	b, err := json.MarshalIndent(map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
			"samples": []traceRec{{Fn: "none", Point: c.skip}}, "undecided": 1, "exhaustive": false},
		"assumptions": []string{"nothing was decided: " + c.skip},
		"wall_s":      round2(time.Since(t0).Seconds()), "violations": 0,
	}, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(c.verif, "evidence", c.id+".json"), append(b, '\n'), 0644)
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func uniq(s []string) []string {
	m := map[string]bool{}
	r := []string{}
	for _, x := range s {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	return r
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// prepare makes the scratch module: it joins the harness with the sources of the repository as they are now.
func (c *checkCtx) prepare() error {
	var err error
	c.tmp, err = os.MkdirTemp("", "vxcheck")
	if err != nil {
		return err
	}
	mod := fmt.Sprintf("module gen\n\ngo 1.18\n\nrequire (\n\tgithub.com/leodido/go-urn v0.0.0\n\tvh v0.0.0\n)\n\nreplace (\n\tgithub.com/leodido/go-urn => %s\n\tvh => %s/harness\n)\n", c.repo, c.verif)
	if err := os.WriteFile(filepath.Join(c.tmp, "go.mod"), []byte(mod), 0644); err != nil {
		return err
	}
	if b, err := os.ReadFile(filepath.Join(c.verif, "harness", "go.sum")); err == nil {
		os.WriteFile(filepath.Join(c.tmp, "go.sum"), b, 0644)
	}
	c.dir = filepath.Join(c.verif, "harness")
	c.race = c.id == "C21"
	switch c.id {
	case "C22":
		return c.prepareTool("removecomments")
	case "C23":
		return c.prepareTool("snake2camel")
	case "C24":
		return c.prepareGen()
	case "C26":
		for _, t := range []string{"removecomments", "snake2camel"} {
			if err := c.prepareTool(t); err != nil {
				return err
			}
		}
		return c.join("commands")
	}
	return nil
}

func goSources(dir string) ([]string, error) {
	es, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var r []string
	for _, e := range es {
		if n := e.Name(); strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") && !e.IsDir() {
			r = append(r, n)
		}
	}
	return r, nil
}

var pkgMain = regexp.MustCompile(`(?m)^package\s+main\b`)

// prepareTool: the sources of a command become a package which the harness joins
func (c *checkCtx) prepareTool(name string) error {
	src := filepath.Join(c.repo, "tools", name)
	dst := filepath.Join(c.tmp, name)
	if err := os.MkdirAll(dst, 0755); err != nil {
		return err
	}
	fs, err := goSources(src)
	if err != nil {
		return err
	}
	for _, f := range fs {
		b, err := os.ReadFile(filepath.Join(src, f))
		if err != nil {
			return err
		}
		b = pkgMain.ReplaceAll(b, []byte("package "+name))
		if err := os.WriteFile(filepath.Join(dst, f), b, 0644); err != nil {
			return err
		}
	}
	hs := filepath.Join(c.verif, "harness_tools", name)
	fs, err = goSources(hs)
	if err != nil {
		return err
	}
	for _, f := range fs {
		b, err := os.ReadFile(filepath.Join(hs, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, "vx_"+f), b, 0644); err != nil {
			return err
		}
	}
	c.pkg, c.dir = "gen/"+name, dst
	return nil
}

// prepareGen: the parser generated afresh from the grammar, as the makefile does
func (c *checkCtx) prepareGen() error {
	src := c.repo
	dst := filepath.Join(c.tmp, "fresh")
	if err := os.MkdirAll(dst, 0755); err != nil {
		return err
	}
	fs, err := goSources(src)
	if err != nil {
		return err
	}
	for _, f := range append(fs, "machine.go.rl") {
		if f == "machine.go" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, f), b, 0644); err != nil {
			return err
		}
	}
	sh := func(dir string, name string, args ...string) error {
		cmd := exec.Command(name, args...)
		cmd.Dir = dir
		cmd.Env = goEnv()
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("%s: %v\n%s", name, err, out)
		}
		return nil
	}
	if err := sh(dst, "ragel", "-Z", "-G1", "-e", "-o", "machine.go", "machine.go.rl"); err != nil {
		return err
	}
	for _, t := range []string{"removecomments", "snake2camel"} {
		b := filepath.Join(c.tmp, "bin."+t)
		if err := sh(filepath.Join(c.repo, "tools", t), "go", "build", "-mod=readonly", "-o", b, "."); err != nil {
			return err
		}
		if err := sh(dst, b, "machine.go"); err != nil {
			return err
		}
	}
	if err := sh(dst, "go", "build", "."); err != nil {
		c.skip = "the generated parser does not go with the other sources: " + err.Error()
		return nil
	}
	return c.join("fresh")
}

// join adds a harness package to the scratch module
func (c *checkCtx) join(name string) error {
	hs := filepath.Join(c.verif, "harness_tools", name)
	hd := filepath.Join(c.tmp, "cmp"+name)
	if err := os.MkdirAll(hd, 0755); err != nil {
		return err
	}
	fs, err := goSources(hs)
	if err != nil {
		return err
	}
	for _, f := range fs {
		b, err := os.ReadFile(filepath.Join(hs, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(hd, f), b, 0644); err != nil {
			return err
		}
	}
	c.pkg, c.dir = "gen/cmp"+name, hd
	return nil
}

var harnessRe = regexp.MustCompile(`(?m)^func (C\d+_\w+)\(\)`)

func (c *checkCtx) functions() ([]string, error) {
	fs, err := goSources(c.dir)
	if err != nil {
		return nil, err
	}
	only := os.Getenv("VERIF_ONLY")
	var r []string
	for _, f := range fs {
		b, err := os.ReadFile(filepath.Join(c.dir, f))
		if err != nil {
			return nil, err
		}
		for _, m := range harnessRe.FindAllStringSubmatch(string(b), -1) {
			if !strings.HasPrefix(m[1], c.id+"_") || c.tier == "quick" && strings.HasSuffix(m[1], "_thorough") {
				continue
			}
			if only != "" && !strings.Contains(m[1], only) {
				continue
			}
			r = append(r, m[1])
		}
	}
	return r, nil
}

func (c *checkCtx) buildReplay(fns []string) error {
	d := filepath.Join(c.tmp, "replay")
	if err := os.MkdirAll(d, 0755); err != nil {
		return err
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\n\th %q\n)\n\nvar reg = map[string]func(){\n", c.pkg)
	for _, f := range fns {
		fmt.Fprintf(&sb, "\t%q: h.%s,\n", f, f)
	}
	sb.WriteString("}\n\nfunc main() {\n\treg[os.Args[1]]()\n\tfmt.Println(\"VX-DONE\")\n}\n")
	if err := os.WriteFile(filepath.Join(d, "main.go"), []byte(sb.String()), 0644); err != nil {
		return err
	}
	c.bin = filepath.Join(c.tmp, "replay.bin")
	args := []string{"build", "-o", c.bin}
	env := goEnv()
	if c.race {
		args = append(args, "-race")
		env = append(env, "CGO_ENABLED=1")
	}
	cmd := exec.Command("go", append(args, "gen/replay")...)
	cmd.Dir = c.tmp
	cmd.Env = env
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go build of the replay program: %v\n%s", err, out)
	}
	return nil
}

// engine runs one harness function in a process of its own
func (c *checkCtx) engine(fn, tier string, share float64) (*FnReport, string) {
	left := time.Until(c.deadline)
	if left < 5*time.Second {
		return nil, "no time left"
	}
	// leave time for the others
	if left > 20*time.Second {
		left = 10*time.Second + time.Duration(share*float64(left-10*time.Second))
	}
	out := filepath.Join(c.tmp, "report."+fn+"."+tier+".json")
	args := []string{"-dir", c.tmp, "-pkg", c.pkg, "-fn", fn, "-tier", tier, "-out", out,
		"-total", (left - 3*time.Second).String()}
	ctx, cancel := context.WithTimeout(c.ctx, left)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.self, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	var eb bytes.Buffer
	cmd.Stderr = &eb
	err := cmd.Run()
	if err != nil {
		if c.ctx.Err() != nil {
			return nil, "stopped: a violation was found meanwhile"
		}
		s := strings.TrimSpace(eb.String())
		if len(s) > 2000 {
			s = s[:2000]
		}
		return nil, fmt.Sprintf("engine: %v: %s", err, s)
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return nil, err.Error()
	}
	r := &FnReport{}
	if err := json.Unmarshal(b, r); err != nil {
		return nil, err.Error()
	}
	note := r.Aborted
	if s := strings.TrimSpace(eb.String()); s != "" {
		if len(s) > 500 {
			s = s[:500]
		}
		note += " " + s
	}
	return r, strings.TrimSpace(note)
}

func nearlyConcrete(fn string) bool {
	for _, s := range []string{"huge", "sizes", "many", "long", "hist"} {
		if strings.Contains(fn, s) {
			return true
		}
	}
	return false
}

func showInputs(m []ModelInput) []string {
	r := []string{}
	for _, i := range m {
		if i.Kind == "bytes" {
			r = append(r, fmt.Sprintf("%q", i.Bytes))
		} else {
			r = append(r, strconv.Itoa(i.Int))
		}
	}
	return r
}

// native runs the harness function on a model; the outcome is one of ok, fail, panic, race, hang, known, mismatch
func (c *checkCtx) native(fn, tier string, m []ModelInput) (outcome, output string) {
	c.mu.Lock()
	c.nrep++
	f := filepath.Join(c.tmp, fmt.Sprintf("model.%d.json", c.nrep))
	c.mu.Unlock()
	b, _ := json.Marshal(m)
	if err := os.WriteFile(f, b, 0644); err != nil {
		return "mismatch", err.Error()
	}
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	lim := "ulimit -v 6000000; exec "
	if c.race {
		lim = "exec "
	}
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", lim+"\"$0\" \"$1\"", c.bin, fn)
	cmd.Env = append(os.Environ(), "VX_MODEL="+f, "VERIF_TIER="+tier, "GOTRACEBACK=single")
	cmd.Dir = c.tmp
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 2 * time.Second
	err := cmd.Run()
	out := ob.String()
	if len(out) > 3000 {
		out = out[:3000]
	}
	if ctx.Err() != nil {
		return "hang", out
	}
	if err == nil {
		if strings.Contains(out, "VX-DONE") {
			return "ok", out
		}
		return "mismatch", out
	}
	switch cmd.ProcessState.ExitCode() {
	case 3:
		return "fail", out
	case 66:
		return "race", out
	case 6:
		return "known", out
	case 2:
		return "panic", out
	}
	return "mismatch", out
}

func (c *checkCtx) replayAll(r *FnReport) (tr []traceRec, undecided []string) {
	if r.Aborted != "" {
		undecided = append(undecided, "encoding not finished: "+r.Aborted)
	}
	for _, q := range r.Results {
		switch q.Verdict {
		case "unsat":
			if q.Kind == "reach" && r.Tier == c.tier {
				undecided = append(undecided, "no input reaches: "+q.Msg)
			}
			continue
		case "unknown":
			undecided = append(undecided, q.Kind+": "+q.Msg+": the solver gave no answer")
			continue
		}
		out, txt := c.native(r.Fn, r.Tier, q.Model)
		switch out {
		case "fail", "panic", "race", "hang":
			if c.violation(r.Fn, q, out, txt) {
				return
			}
		case "known":
			id := strings.Fields(strings.SplitN(txt, "VX-KNOWN ", 2)[1])[0]
			if _, ok := c.known[id]; !ok {
				if c.violation(r.Fn, q, out, txt) {
					return
				}
				continue
			}
			c.mu.Lock()
			if c.known[id] != "" {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, c.known[id])
				c.known[id] = ""
			}
			c.mu.Unlock()
		case "ok", "mismatch":
			if q.Kind == "reach" {
				t := traceRec{Fn: r.Fn, Point: q.Msg, Inputs: showInputs(q.Model), Native: "NOT reached"}
				if strings.Contains(txt, "VX-REACH "+q.Msg) {
					t.Native = "reached"
				} else {
					undecided = append(undecided, "reach point not reached natively: "+q.Msg+" "+strings.Join(t.Inputs, " "))
				}
				tr = append(tr, t)
				continue
			}
			undecided = append(undecided, fmt.Sprintf("%s: %s: not reproduced by the real code (%s) on %s", q.Kind, q.Msg, out, strings.Join(showInputs(q.Model), " ")))
		}
	}
	return
}

func (c *checkCtx) violation(fn string, q OblResult, out, txt string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.violations) > 0 {
		return true
	}
	d := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(d, 0755)
	p := filepath.Join(d, c.id+".json")
	how := "VX_MODEL=<this file> with the harness function of the same name in /verif (see DESIGN.md, replay): the harness calls the real code with these inputs"
	b, _ := json.MarshalIndent(replayFile{c.id, fn, q.Kind, q.Msg, showInputs(q.Model), out + ": " + txt, how, q.Model}, "", " ")
	os.WriteFile(p, b, 0644)
	c.violations = append(c.violations, p)
	msg := firstLines(txt, 6)
	fmt.Printf("%s: %s: %s; inputs %s; native outcome: %s\n%s\n", fn, q.Kind, q.Msg, strings.Join(showInputs(q.Model), " "), out, strings.TrimSpace(msg))
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, p)
	c.cancel()
	return true
}

// known findings: lines "known: property=<id> id=<name> <text>" (fixed entries suppress nothing)
func (c *checkCtx) loadKnown() {
	c.known = map[string]string{}
	b, err := os.ReadFile(filepath.Join(c.verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return
	}
	re := regexp.MustCompile(`^known: property=(\w+) id=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil && m[1] == c.id {
			c.known[m[2]] = m[3]
		}
	}
}
