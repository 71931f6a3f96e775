package run

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"verif/env"
	"verif/expr"
	"verif/mt"
	"verif/smt"
	"verif/sx"
)

// TaskSpec is one harness instance: a function of package vh and the values
// of its integer parameters (kinds, sizes).
type TaskSpec struct {
	Fn      string   `json:"fn"`
	Args    []int    `json:"args"`
	Limit   float64  `json:"limit"` // seconds
	Solvers []string `json:"solvers,omitempty"`
	Samples int      `json:"samples"`
	Seed    int64    `json:"seed"`
	Dump    string   `json:"dump,omitempty"`
	Race    bool     `json:"race,omitempty"`
}

func (t TaskSpec) Name() string {
	s := make([]string, len(t.Args))
	for i, a := range t.Args {
		s[i] = fmt.Sprint(a)
	}
	return t.Fn + "(" + strings.Join(s, ",") + ")"
}

// TaskResult is what a task established.
type TaskResult struct {
	Spec      TaskSpec          `json:"spec"`
	Status    string            `json:"status"` // holds, violation, inconclusive
	Msg       string            `json:"msg,omitempty"`
	Job       *Job              `json:"job,omitempty"` // replayed counterexample
	States    int               `json:"states"`
	Trans     int               `json:"transitions"`
	Merges    int               `json:"merges"`
	Queries   []Query           `json:"queries"`
	Funcs     map[string]int    `json:"funcs"`
	Summaries map[string]int    `json:"summaries"`
	Domain    int               `json:"domain"`
	Nodes     int               `json:"nodes"`
	Asserts   int               `json:"asserts"`
	Obl       int               `json:"obligations"`
	Validated int               `json:"validated"`
	Samples   []string          `json:"samples,omitempty"`
	Witness   map[string]string `json:"witness,omitempty"`
	ExecS     float64           `json:"exec_s"`
	WallS     float64           `json:"wall_s"`
	SolverS   float64           `json:"solver_s"`
	Restarts  int               `json:"restarts"`
	Complete  string            `json:"complete,omitempty"` // the solver's answer: the explored paths cover every input
	Elided    []string          `json:"elided,omitempty"`   // allocating operations that the compiler removes
}

type Query struct {
	What   string  `json:"what"`
	Status string  `json:"status"`
	Solver string  `json:"solver"`
	S      float64 `json:"s"`
	Size   int     `json:"size"`
}

type Worker struct {
	Cfg     Config
	P       *Program
	Refs    [][]env.Range
	Native  string
	RaceRun func(Job) (string, error) // runs a job concurrently under the race detector
	Log     bool
	Ctx     context.Context
	m0      *sx.Machine
	specs   map[string]*env.Spec
}

type task struct {
	w         *Worker
	spec      TaskSpec
	m         *sx.Machine
	en        *env.Env
	outs      []sx.Outcome
	asserts   int
	sampleJob *Job // a validation run that fails natively
	sampleMsg string
	dropped   []*expr.E // inputs left out by assumptions
	res       *TaskResult
	start     time.Time
}

// base is a machine after the package initialisers have run.
func (w *Worker) base() (*sx.Machine, error) {
	if w.m0 == nil {
		m := sx.NewMachine(expr.New(), w.P.Prog)
		m.RepoPath = Module
		m.HarnPath = Module + "/internal/vh"
		m.Helpers = map[string]*ssa.Function{}
		for _, n := range []string{"RuneString", "RunesString", "Runes"} {
			m.Helpers[n] = w.P.Prog.ImportedPackage(Module + "/internal/vsym").Func(n)
		}
		if err := m.InitPackages(w.P.VH); err != nil {
			return nil, err
		}
		w.m0 = m
	}
	return w.m0, nil
}

// spec is the input domain to start from: what earlier tasks with the same
// harness and first parameter needed.
func (w *Worker) spec(t TaskSpec) *env.Spec {
	k := t.Fn
	if len(t.Args) > 0 {
		k += fmt.Sprint("/", t.Args[0])
	}
	if w.specs == nil {
		w.specs = map[string]*env.Spec{}
	}
	if w.specs[k] == nil {
		w.specs[k] = env.NewSpec(w.Refs)
	}
	return w.specs[k]
}

func (w *Worker) logf(f string, a ...any) {
	if w.Log {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (w *Worker) ctx() context.Context {
	if w.Ctx == nil {
		return context.Background()
	}
	return w.Ctx
}

func (w *Worker) Run(spec TaskSpec) (res TaskResult) {
	res.Spec = spec
	t := &task{w: w, spec: spec, res: &res, start: time.Now()}
	res.Status = "inconclusive"
	defer func() {
		res.WallS = time.Since(t.start).Seconds()
		defer func() {
			if res.Status != "violation" && t.sampleJob != nil {
				// it fails on the real build, whatever the encoding says
				res.Status, res.Job, res.Msg = "violation", t.sampleJob, t.sampleMsg+" (found while validating the encoding; "+res.Msg+")"
			}
		}()
		if r := recover(); r != nil {
			switch x := r.(type) {
			case sx.Unsupported:
				res.Msg = x.Error()
			case sx.Budget:
				res.Msg = "stopped: " + x.Msg
			default:
				res.Msg = fmt.Sprintf("internal error: %v", r)
				if w.Log {
					fmt.Fprintln(os.Stderr, string(debug.Stack()))
				}
			}
			if res.Status == "violation" {
				return
			}
			res.Status = "inconclusive"
		}
	}()
	s := w.spec(spec)
	s.Restarts = 0
	for {
		if t.exec(s) {
			break
		}
		if s.Restarts++; s.Restarts > 60 {
			res.Msg = "too many domain refinements"
			return
		}
	}
	res.Restarts = s.Restarts
	m := t.m
	res.ExecS = time.Since(t.start).Seconds()
	res.States, res.Trans, res.Merges = m.Stats.States, m.Stats.Blocks, m.Stats.Merges
	res.Funcs, res.Summaries = m.Stats.Funcs, m.Stats.Summary
	res.Domain = t.en.Class.Size
	res.Nodes = m.C.NumNodes()
	res.Asserts = t.asserts
	res.Obl = len(m.Vios)
	w.logf("%s: domain %d, states %d, merges %d, nodes %d, vios %d, %.2fs, restarts %d", spec.Name(), res.Domain, res.States, res.Merges, res.Nodes, len(m.Vios), res.ExecS, s.Restarts)
	res.Witness = map[string]string{}
	t.validate()
	t.decide()
	return
}

// exec runs the harness symbolically; false: the domain was refined, run again.
func (t *task) exec(s *env.Spec) (ok bool) {
	m0, err := t.w.base()
	if err != nil {
		panic(sx.Unsupported{Msg: err.Error()})
	}
	m := m0.Clone()
	c := m.C
	en := env.Build(s, c)
	m.Trace = os.Getenv("VF_TRACE") != ""
	if os.Getenv("VF_BLOCKS") != "" {
		m.BlockCnt = map[string]int{}
		defer func() {
			var ks []string
			for k := range m.BlockCnt {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return m.BlockCnt[ks[i]] > m.BlockCnt[ks[j]] })
			for i, k := range ks {
				if i < 400 {
					fmt.Fprintln(os.Stderr, "   ", k, m.BlockCnt[k])
				}
			}
		}()
	}
	t.m, t.en = m, en
	t.asserts = 0
	t.dropped = nil
	defer func() {
		if r := recover(); r != nil {
			if d, is := r.(env.Demand); is {
				t.w.logf("  refine: %s (domain %d)", d.What, en.Class.Size)
				ok = false
				return
			}
			panic(r)
		}
	}()
	t.register(m, en)
	m.Input = en
	dl := t.start.Add(time.Duration(t.spec.Limit * float64(time.Second)))
	m.Deadline = func() bool {
		return t.spec.Limit > 0 && time.Now().After(dl) || t.w.ctx().Err() != nil || m.C.NumNodes() > 250_000 && shed()
	}
	checks := 0
	m.HangCheck = func(pc *expr.E) bool {
		if checks++; checks > 200 {
			return true
		}
		st, _ := t.query("path", pc, false)
		return st != "unsat"
	}
	fn := t.w.P.VH.Func(t.spec.Fn)
	if fn == nil {
		panic(sx.Unsupported{Msg: "no harness " + t.spec.Fn})
	}
	var args []sx.Value
	for _, a := range t.spec.Args {
		args = append(args, c.K(uint64(int64(a)), 64))
	}
	t.outs = m.Call(fn, args, m.NewState())
	for _, o := range t.outs {
		if o.Panic != "" {
			m.Vios = append(m.Vios, sx.Vio{Cond: m.PCExpr(o.St), Kind: "panic", Msg: o.Panic})
		}
	}
	return true
}

var memWatch sync.Once
var memHigh atomic.Bool

// shed tells a task with a large encoding to stop because memory runs low.
func shed() bool {
	memWatch.Do(func() {
		lim := uint64(20 << 30)
		if s := os.Getenv("VF_MEM_GB"); s != "" {
			if n, err := strconv.Atoi(s); err == nil {
				lim = uint64(n) << 30
			}
		}
		go func() {
			sm := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
			for {
				metrics.Read(sm)
				memHigh.Store(sm[0].Value.Uint64() > lim)
				time.Sleep(300 * time.Millisecond)
			}
		}()
	})
	return memHigh.Load()
}

func (t *task) solvers() []string {
	if len(t.spec.Solvers) > 0 {
		return t.spec.Solvers
	}
	return []string{"z3-new"}
}

func (t *task) left() time.Duration {
	if t.spec.Limit <= 0 {
		return time.Hour
	}
	d := t.spec.Limit - time.Since(t.start).Seconds()
	if d < 2 {
		d = 2
	}
	return time.Duration(d * float64(time.Second))
}

// query decides goal under the domain constraints. exact adds the exact link
// between the characters and the bytes and returns the input of a model.
func (t *task) query(what string, goal *expr.E, exact bool) (string, *Job) {
	c := t.m.C
	if goal == c.F {
		t.res.Queries = append(t.res.Queries, Query{What: what, Status: "unsat", Solver: "folded"})
		return "unsat", nil
	}
	em := smt.NewEmitter(c)
	em.Collect(goal)
	em.Collect(t.en.Base...)
	em.Declare()
	for _, b := range t.en.Base {
		em.Assert(b)
	}
	em.Assert(goal)
	var vals []string
	if exact {
		vals = t.link(em)
	}
	vals = append(vals, em.BitNames()...)
	if t.spec.Dump != "" {
		os.WriteFile(fmt.Sprintf("%s.%d.smt2", t.spec.Dump, len(t.res.Queries)), []byte(em.Text()+"(check-sat)\n"), 0o644)
	}
	r := smt.Solve(t.w.ctx(), em.Text(), vals, t.solvers(), t.left())
	t.res.Queries = append(t.res.Queries, Query{what, r.Status, r.Solver, r.Time.Seconds(), em.Nodes()})
	t.res.SolverS += r.Time.Seconds()
	t.w.logf("  query %s exact=%v: %s %s %.2fs, %d definitions, %d bytes %s", what, exact, r.Status, r.Solver, r.Time.Seconds(), em.Nodes(), len(em.Text()), r.Err)
	if r.Status != "sat" {
		return r.Status, nil
	}
	// the variables' blocks
	elem := map[*expr.Var]int{}
	for _, e := range em.Encs() {
		elem[e.V] = e.Rep[e.Of(r.Model)]
	}
	j := &Job{Harness: t.spec.Fn, Args: t.spec.Args, Bytes: map[string][]byte{}, Ints: map[string]int{}}
	for n, in := range t.en.Inputs {
		b := make([]byte, len(in.Vars))
		for i, v := range in.Vars {
			if exact {
				b[i] = byte(r.Model[byteName(n, i)])
			} else if el, ok := elem[v]; ok {
				b[i] = t.en.Wins[el][0]
			} else {
				b[i] = 'x'
			}
		}
		j.Bytes[n] = b
	}
	for n, v := range t.en.Ints {
		j.Ints[n] = v.Lo + elem[v.V]
	}
	return "sat", j
}

func byteName(n string, i int) string { return fmt.Sprintf("B_%s_%d", n, i) }

// link states exactly which domain element each window of bytes is.
func (t *task) link(em *smt.Emitter) []string {
	var names []string
	var ns []string
	for n := range t.en.Inputs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	encOf := map[*expr.Var]*smt.VarEnc{}
	for _, e := range em.Encs() {
		encOf[e.V] = e
	}
	mm := t.en.S.MT
	mapped := map[string]int32{}
	for _, n := range ns {
		in := t.en.Inputs[n]
		for i := range in.Vars {
			em.Raw(fmt.Sprintf("(declare-const %s (_ BitVec 8))\n", byteName(n, i)))
			for b := 0; b < 8; b++ {
				em.Raw(fmt.Sprintf("(define-fun %s_%d () Bool (= ((_ extract %d %d) %s) #b1))\n", byteName(n, i), b, b, b, byteName(n, i)))
			}
			names = append(names, byteName(n, i))
		}
		for i, v := range in.Vars {
			e := encOf[v]
			if e == nil {
				continue
			}
			k := fmt.Sprint(e.Block)
			root, ok := mapped[k]
			if !ok {
				root = mm.Apply1(t.en.D, func(x uint64) uint64 { return uint64(e.Block[x]) })
				mapped[k] = root
			}
			// one circuit per selector bit
			for bit := 0; bit < e.Bits; bit++ {
				br := mm.Apply1(root, func(x uint64) uint64 { return x >> uint(bit) & 1 })
				s := t.circuit(em, mm, br, n, i, len(in.Vars))
				em.AssertS(fmt.Sprintf("(= v%d_%d %s)", v.ID, bit, s))
			}
		}
	}
	return names
}

func (t *task) circuit(em *smt.Emitter, mm *mt.M, root int32, name string, pos, n int) string {
	memo := map[int32]string{}
	var rec func(x int32) string
	rec = func(x int32) string {
		if s, ok := memo[x]; ok {
			return s
		}
		v, lo, hi, val, term := mm.Node(x)
		var s string
		if term {
			s = "false"
			if val == 1 {
				s = "true"
			}
		} else {
			bi := pos + int(v)/8
			if bi >= n {
				s = rec(lo)
			} else {
				l, h := rec(lo), rec(hi)
				if l == h {
					s = l
				} else {
					s = em.Def(fmt.Sprintf("(ite %s_%d %s %s)", byteName(name, bi), 7-v%8, h, l))
				}
			}
		}
		memo[x] = s
		return s
	}
	return rec(root)
}

func (t *task) kinds() string {
	s := ""
	for _, v := range t.m.Vios {
		s += v.Kind + " "
	}
	return s
}

// decide asks the solver for a violation and replays what it finds.
func (t *task) decide() {
	c := t.m.C
	goal := c.F
	for _, v := range t.m.Vios {
		goal = c.Or(goal, v.Cond)
	}
	bad := func(goal *expr.E, what string) string {
		st, _ := t.query(what, goal, false)
		if st == "unsat" {
			return "holds"
		}
		var j *Job
		st2, j := t.query(what+" (exact bytes)", goal, true)
		switch st2 {
		case "unsat":
			return "holds"
		case "sat":
		default:
			return "unknown"
		}
		rs, err := RunNative(t.w.Cfg, t.w.Native, []Job{*j})
		if err != nil {
			t.res.Msg = err.Error()
			return "unknown"
		}
		r := rs[0]
		if r.Status == "ok" && t.w.RaceRun != nil && strings.Contains(t.kinds(), "write") {
			if m, err := t.w.RaceRun(*j); err != nil {
				t.res.Msg = err.Error()
				return "unknown"
			} else if m != "" {
				t.res.Job = j
				t.res.Job.Race = true
				t.res.Msg = m
				return "violation"
			}
		}
		if r.Status == "ok" || r.Status == "assume" {
			t.res.Msg = fmt.Sprintf("the solver's counterexample does not reproduce natively: %s %v", r.Status, describe(*j))
			return "mismatch"
		}
		t.res.Job = j
		t.res.Msg = r.Status + ": " + r.Msg
		return "violation"
	}
	switch s := bad(goal, "violation"); s {
	case "holds":
		t.res.Status = "holds"
	case "violation":
		t.res.Status = "violation"
		return
	default:
		// try the obligations one by one
		if s == "mismatch" {
			for i, v := range t.m.Vios {
				if time.Since(t.start).Seconds() > t.spec.Limit {
					break
				}
				if bad(v.Cond, fmt.Sprintf("obligation %d %s", i, v.Msg)) == "violation" {
					t.res.Status = "violation"
					return
				}
			}
		}
		t.res.Status = "inconclusive"
		if t.res.Msg == "" {
			t.res.Msg = "solver gave no answer"
		}
		return
	}
	// allocating operations: run an input that reaches each
	var sites []string
	for s := range t.m.AllocSites {
		sites = append(sites, s)
	}
	sort.Strings(sites)
	for _, s := range sites {
		switch bad(t.m.AllocSites[s], "allocation: "+s) {
		case "violation":
			t.res.Status = "violation"
			return
		case "holds":
		case "mismatch":
			t.res.Msg = ""
			t.res.Elided = append(t.res.Elided, s)
		default:
			t.res.Status = "inconclusive"
			t.res.Msg = "no answer whether " + s + " is reached"
			return
		}
	}
	// completeness of the exploration: every input takes an explored path, so
	// that no path was dropped wrongly
	left := c.T
	cover := func(e *expr.E) { left = c.And(left, c.Not(e)) }
	for _, o := range t.outs {
		cover(t.m.PCExpr(o.St))
	}
	for _, v := range t.m.Vios {
		cover(v.Cond)
	}
	for _, d := range t.dropped {
		cover(d)
	}
	switch st, j := t.query("inputs on no explored path", left, false); st {
	case "unsat":
		t.res.Complete = "yes"
	case "sat":
		if st, j = t.query("inputs on no explored path (exact bytes)", left, true); st == "unsat" {
			t.res.Complete = "yes"
		} else if st == "sat" {
			t.res.Status = "inconclusive"
			t.res.Complete = "no: " + describe(*j)
			t.res.Msg = "the exploration misses " + describe(*j)
			return
		}
	}
	// vacuity: every marked point must be reachable
	var names []string
	for n := range t.m.Reached {
		names = append(names, n)
	}
	sort.Strings(names)
	if len(names) == 0 {
		t.res.Status = "inconclusive"
		t.res.Msg = "no path reaches the end of the harness"
	}
	for _, n := range names {
		if t.res.Witness[n] != "" {
			continue
		}
		st, j := t.query("reach "+n, t.m.Reached[n], true)
		if st != "sat" {
			t.res.Witness[n] = st
			if st == "unsat" {
				t.res.Status = "inconclusive"
				t.res.Msg = "vacuous: " + n + " is unreachable"
			}
			continue
		}
		rs, err := RunNative(t.w.Cfg, t.w.Native, []Job{*j})
		if err != nil {
			t.res.Witness[n] = err.Error()
			continue
		}
		got := false
		for _, x := range rs[0].Reached {
			got = got || x == n
		}
		t.res.Witness[n] = describe(*j)
		if !got {
			t.res.Witness[n] += " NOT REACHED NATIVELY: " + rs[0].Status + " " + rs[0].Msg
			t.res.Status = "inconclusive"
			t.res.Msg = "witness of " + n + " not confirmed natively"
		} else {
			t.res.Validated++
		}
	}
}

func describe(j Job) string {
	var s []string
	var ns []string
	for n := range j.Bytes {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		s = append(s, fmt.Sprintf("%s=%q", n, j.Bytes[n]))
	}
	ns = nil
	for n := range j.Ints {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		s = append(s, fmt.Sprintf("%s=%d", n, j.Ints[n]))
	}
	return strings.Join(s, " ")
}

// validate compares the encoding with native runs on sample inputs.
func (t *task) validate() {
	if t.spec.Samples <= 0 {
		return
	}
	rng := rand.New(rand.NewSource(t.spec.Seed))
	var jobs []Job
	for k := 0; k < t.spec.Samples; k++ {
		j := Job{Harness: t.spec.Fn, Args: t.spec.Args, Bytes: map[string][]byte{}, Ints: map[string]int{}}
		for _, n := range t.en.Order {
			if in, ok := t.en.Inputs[n]; ok {
				j.Bytes[n] = t.sampleText(rng, len(in.Vars))
			} else {
				v := t.en.Ints[n]
				j.Ints[n] = v.Lo + rng.Intn(v.Hi-v.Lo+1)
			}
		}
		jobs = append(jobs, j)
	}
	rs, err := RunNative(t.w.Cfg, t.w.Native, jobs)
	if err != nil {
		panic(sx.Unsupported{Msg: err.Error()})
	}
	for k, r := range rs {
		j := jobs[k]
		elem := map[*expr.Var]int{}
		for n, in := range t.en.Inputs {
			for i, v := range in.Vars {
				elem[v] = t.en.Element(j.Bytes[n], i)
			}
		}
		for n, v := range t.en.Ints {
			elem[v.V] = j.Ints[n] - v.Lo
		}
		memo := map[*expr.E]uint64{}
		fd := func(v *expr.Var) int { return elem[v] }
		for _, b := range t.en.Base {
			if expr.Eval(b, fd, nil, memo) != 1 {
				panic(sx.Unsupported{Msg: "domain constraint false on " + describe(j)})
			}
		}
		vio := ""
		for _, v := range t.m.Vios {
			if expr.Eval(v.Cond, fd, nil, memo) == 1 {
				vio = v.Kind + ": " + v.Msg
			}
		}
		var got map[string]*expr.E
		n := 0
		for _, o := range t.outs {
			if o.Panic == "" && expr.Eval(t.m.PCExpr(o.St), fd, nil, memo) == 1 {
				got = o.St.Outs()
				n++
			}
		}
		bad := ""
		switch r.Status {
		case "ok":
			if n != 1 || vio != "" {
				bad = fmt.Sprintf("native run is ok, encoding has %d outcomes, violation %q", n, vio)
				break
			}
			for nm, x := range r.Outs {
				e, ok := got[nm]
				if !ok || int(int64(expr.Eval(e, fd, nil, memo))) != x {
					bad = fmt.Sprintf("output %s is %d natively", nm, x)
				}
			}
		case "assume":
			if n != 0 {
				bad = "native run is outside the assumptions, the encoding is not"
			}
		default:
			if vio == "" {
				t.w.logf("  the encoding misses a native failure on %s", describe(j))
			}
			if t.sampleJob == nil {
				t.sampleJob, t.sampleMsg = &j, r.Status+": "+r.Msg
			}
		}
		if bad != "" {
			panic(sx.Unsupported{Msg: "encoding disagrees with the real run: " + bad + " on " + describe(j)})
		}
		t.res.Validated++
		if r.Status == "ok" {
			for _, nm := range r.Reached {
				if t.res.Witness[nm] == "" && t.m.Reached[nm] != nil && expr.Eval(t.m.Reached[nm], fd, nil, memo) == 1 {
					t.res.Witness[nm] = describe(j)
				}
			}
		}
		if len(t.res.Samples) < 3 && r.Status == "ok" {
			t.res.Samples = append(t.res.Samples, fmt.Sprintf("%s %s outs=%v", t.spec.Name(), describe(j), r.Outs))
		}
	}
}

// sampleText makes a valid text of n bytes most of the time.
func (t *task) sampleText(rng *rand.Rand, n int) []byte {
	var b []byte
	mode := rng.Intn(4)
	for len(b) < n {
		w := t.en.Wins[rng.Intn(len(t.en.Wins))]
		l := 1
		switch {
		case w[0] >= 0xF0:
			l = 4
		case w[0] >= 0xE0:
			l = 3
		case w[0] >= 0xC2:
			l = 2
		}
		if mode != 0 { // valid
			if w[0] >= 0x80 {
				r := []rune(string(w))
				if len(r) == 0 || r[0] == 0xFFFD || len(b)+l > n {
					continue
				}
			} else if len(b)+1 > n {
				continue
			} else if mode == 1 && w[0] < 0x80 && rng.Intn(4) > 0 {
				continue
			}
		}
		b = append(b, w[:l]...)
	}
	return b[:n]
}
