package run

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// CheckOpts are the settings of a check.
type CheckOpts struct {
	Cfg     Config
	Prop    string
	Tier    string
	Seed    int64
	Soft    float64 // seconds after which no new task starts
	Hard    float64 // seconds after which running tasks are stopped
	Workers int
	Only    string // run only harnesses with this prefix (development)
	Verbose bool
}

// Finding is a known defect: a job that fails on the real build.
type Finding struct {
	Prop string
	Job  Job
	What string
}

// Findings reads the known-findings file. Its lines are
//
//	finding: property=<id> job=<json> <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// and comments. Only the first kind has an effect, and only on the report: it
// suppresses nothing that the harness does not leave out itself.
func Findings(path string) ([]Finding, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var r []Finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l, ok := strings.CutPrefix(sc.Text(), "finding: property=")
		if !ok {
			continue
		}
		prop, l, _ := strings.Cut(l, " job=")
		d := json.NewDecoder(strings.NewReader(l))
		var j Job
		if err := d.Decode(&j); err != nil {
			return nil, fmt.Errorf("%s: %v", path, err)
		}
		r = append(r, Finding{prop, j, strings.TrimSpace(l[d.InputOffset():])})
	}
	return r, sc.Err()
}

// queue hands out tasks; a worker prefers tasks that share their input domain
// (harness and first parameter) with its last one.
type queue struct {
	mu     sync.Mutex
	groups []*group
}

type group struct {
	key   string
	tasks []TaskSpec
	held  int
}

func newQueue(ts []TaskSpec) *queue {
	q := &queue{}
	m := map[string]*group{}
	for _, t := range ts {
		k := t.Key()
		g := m[k]
		if g == nil {
			g = &group{key: k}
			m[k] = g
			q.groups = append(q.groups, g)
		}
		g.tasks = append(g.tasks, t)
	}
	return q
}

func (q *queue) next(cur *group) (*group, *TaskSpec) {
	q.mu.Lock()
	defer q.mu.Unlock()
	if cur != nil {
		cur.held--
	}
	if cur == nil || len(cur.tasks) == 0 {
		cur = nil
		for _, g := range q.groups {
			if len(g.tasks) == 0 {
				continue
			}
			if cur == nil || g.held < cur.held || g.held == cur.held && g.held > 0 && len(g.tasks) > len(cur.tasks) {
				cur = g
			}
		}
	}
	if cur == nil {
		return nil, nil
	}
	t := cur.tasks[0]
	cur.tasks = cur.tasks[1:]
	cur.held++
	return cur, &t
}

func (q *queue) left() []TaskSpec {
	var r []TaskSpec
	for _, g := range q.groups {
		r = append(r, g.tasks...)
	}
	return r
}

// Check decides a property; it returns the exit code.
func Check(o CheckOpts) int {
	o.Cfg.Cost = o.Prop == "P27"
	t0 := time.Now()
	tmp, err := os.MkdirTemp("", "vf-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	nat := filepath.Join(tmp, "native")
	natErr := make(chan error, 1)
	go func() { natErr <- BuildNative(o.Cfg, nat, false) }()
	prog, err := Load(o.Cfg)
	if e := <-natErr; e != nil {
		err = e
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot build the code under test with the harnesses:", err)
		return 2
	}
	refs, err := LoadRefs(filepath.Join(o.Cfg.Verif, "data", "ref.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	finds, err := Findings(filepath.Join(o.Cfg.Verif, "known-findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	consts := Consts(prog)
	plan, err := MakePlan(o.Prop, o.Tier, consts)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	build := time.Since(t0).Seconds()

	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	hard := time.AfterFunc(time.Duration(o.Hard*float64(time.Second)), cancel)
	defer hard.Stop()
	var tasks []TaskSpec
	for i, t := range plan.Tasks {
		if o.Only != "" && !strings.HasPrefix(t.Name(), o.Only) {
			continue
		}
		t.Seed = o.Seed*1000003 + int64(i)
		tasks = append(tasks, t)
	}
	q := newQueue(tasks)
	var mu sync.Mutex
	var results []TaskResult
	var vio *TaskResult
	var raceOnce sync.Once
	var raceErr error
	raceBin := filepath.Join(tmp, "race")
	raceRun := func(j Job) (string, error) {
		raceOnce.Do(func() { raceErr = BuildNative(o.Cfg, raceBin, true) })
		if raceErr != nil {
			return "", raceErr
		}
		return RunRace(o.Cfg, raceBin, j)
	}
	nw := o.Workers
	if nw == 0 {
		nw = min(8, max(2, runtime.NumCPU()))
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &Worker{Cfg: o.Cfg, P: prog, Refs: refs, Native: nat, Ctx: ctx, RaceRun: raceRun, Log: os.Getenv("VF_LOG") != ""}
			var g *group
			for ctx.Err() == nil && time.Since(t0).Seconds() < o.Soft {
				var t *TaskSpec
				if g, t = q.next(g); t == nil {
					return
				}
				r := w.Run(*t)
				if ctx.Err() != nil && r.Status != "violation" {
					if r.Status == "inconclusive" {
						r.Msg = "stopped: " + r.Msg
					}
				}
				mu.Lock()
				results = append(results, r)
				if r.Status == "violation" && vio == nil {
					vio = &r
					cancel()
				}
				if o.Verbose {
					fmt.Printf("%6.1f %s: %s %s (%.1fs, solver %.1fs)\n", time.Since(t0).Seconds(), t.Name(), r.Status, r.Msg, r.WallS, r.SolverS)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()

	// known findings, and the replay of a violation
	var known []string
	for _, f := range finds {
		if f.Prop != o.Prop {
			continue
		}
		rs, err := RunNative(o.Cfg, nat, []Job{f.Job})
		if err == nil && rs[0].Status != "ok" && rs[0].Status != "assume" {
			known = append(known, fmt.Sprintf("KNOWN-FINDING: property=%s %s", o.Prop, f.What))
		}
	}
	ev := evidence(o, results, q.left(), plan, consts, build)
	ev.Wall = time.Since(t0).Seconds()
	os.MkdirAll(filepath.Join(o.Cfg.Verif, "evidence"), 0o755)
	replay := filepath.Join("evidence", "replay-"+o.Prop+".json")
	os.Remove(filepath.Join(o.Cfg.Verif, replay))
	if vio != nil {
		ev.Violations = 1
		b, _ := json.MarshalIndent(map[string]any{"property": o.Prop, "job": vio.Job, "what": vio.Msg, "input": describe(*vio.Job), "harness": vio.Spec.Name(), "replay": "bin/vf replay " + replay}, "", " ")
		os.WriteFile(filepath.Join(o.Cfg.Verif, replay), append(b, '\n'), 0o644)
	}
	ev.Known = known
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(o.Cfg.Verif, "evidence", o.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, k := range known {
		fmt.Println(k)
	}
	c := ev.Coverage
	fmt.Printf("%s %s: %d instances hold, %d without an answer, %d not started; %d states, %d queries, solver %.1fs, wall %.1fs\n", o.Prop, o.Tier, c.Held, len(c.Inconclusive), c.NotStarted, c.States, c.Queries.Total, c.Queries.SolverS, ev.Wall)
	if vio != nil {
		fmt.Printf("%s fails on %s: %s\n", vio.Spec.Name(), describe(*vio.Job), vio.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.Prop, replay)
		return 1
	}
	return 0
}

// Key names the tasks that share an input domain.
func (t TaskSpec) Key() string {
	k := t.Fn
	if len(t.Args) > 0 {
		k += fmt.Sprint("/", t.Args[0])
	}
	return k
}

// Evidence is the evidence file.
type Evidence struct {
	Property    string   `json:"property"`
	Tier        string   `json:"tier"`
	Seed        int64    `json:"seed"`
	Level       string   `json:"level"`
	Coverage    Coverage `json:"coverage"`
	Assumptions []string `json:"assumptions"`
	Wall        float64  `json:"wall_s"`
	Violations  int      `json:"violations"`
	Known       []string `json:"known_findings,omitempty"`
}

type Coverage struct {
	States      int      `json:"states"`
	Transitions int      `json:"transitions"`
	Validated   int      `json:"traces_validated_against_impl"`
	Samples     []string `json:"samples"`
	Merges      int      `json:"merged_states"`
	Planned     int      `json:"instances_planned"`
	Held        int      `json:"instances_held"`
	NotStarted  int      `json:"instances_not_started"`
	Harnesses   []string `json:"instances"`
	Obligations int      `json:"obligations"`
	Asserts     int      `json:"assertions_evaluated"`
	Queries     struct {
		Total    int            `json:"total"`
		ByStatus map[string]int `json:"by_status"`
		Folded   int            `json:"decided_by_simplification"`
		Complete int            `json:"instances_whose_paths_the_solver_showed_to_cover_all_inputs"`
		Reached  int            `json:"reachability_witnesses_confirmed_natively"`
		SolverS  float64        `json:"solver_s"`
		Slowest  string         `json:"slowest"`
		Solver   string         `json:"solver"`
	} `json:"queries"`
	Functions    map[string]int `json:"functions_encoded"`
	Summaries    map[string]int `json:"functions_encoded_as_tables"`
	Domain       int            `json:"largest_input_alphabet"`
	Bounds       []string       `json:"bounds"`
	Sizes        []int          `json:"sizes_found_in_the_code"`
	Inconclusive []string       `json:"inconclusive"`
	BuildS       float64        `json:"build_s"`
	ExecS        float64        `json:"symbolic_execution_s"`
}

func evidence(o CheckOpts, rs []TaskResult, left []TaskSpec, plan Plan, sizes map[string][]int, build float64) *Evidence {
	ev := &Evidence{Property: o.Prop, Tier: o.Tier, Seed: o.Seed, Level: "model_checking"}
	ev.Assumptions = []string{
		"Go's compiler and runtime, go/ssa's translation, and the solver are trusted; every counterexample is replayed and every instance is validated on sample runs of the real build",
		"utf8.DecodeRune(InString), byte searches and bytes.Equal are modelled by their documented meaning; everything else, bufio and errors included, is executed from source",
		"the reference classes (data/ref.txt) are those of Unicode 17",
	}
	c := &ev.Coverage
	c.Planned = len(rs) + len(left)
	c.NotStarted = len(left)
	c.Bounds = plan.Bounds
	all := map[int]bool{}
	for _, s := range sizes {
		for _, n := range s {
			all[n] = true
		}
	}
	c.Sizes = sorted(all)
	if c.Sizes == nil {
		c.Sizes = []int{}
	}
	c.BuildS = build
	c.Functions = map[string]int{}
	c.Summaries = map[string]int{}
	c.Queries.ByStatus = map[string]int{}
	c.Queries.Solver = "z3-new"
	c.Inconclusive = []string{}
	c.Harnesses = []string{}
	slow := 0.0
	sort.Slice(rs, func(i, j int) bool { return rs[i].Spec.Name() < rs[j].Spec.Name() })
	for _, r := range rs {
		c.States += r.States
		c.Transitions += r.Trans
		c.Merges += r.Merges
		c.Validated += r.Validated
		c.Obligations += r.Obl
		c.Asserts += r.Asserts
		c.ExecS += r.ExecS
		c.Queries.SolverS += r.SolverS
		c.Domain = max(c.Domain, r.Domain)
		for f, n := range r.Funcs {
			c.Functions[f] += n
		}
		for f, n := range r.Summaries {
			c.Summaries[f] += n
		}
		for _, q := range r.Queries {
			if q.Solver == "folded" {
				c.Queries.Folded++
				continue
			}
			c.Queries.Total++
			c.Queries.ByStatus[q.Status]++
			if q.S > slow {
				slow = q.S
				c.Queries.Slowest = fmt.Sprintf("%s %s: %s in %.1fs, %d definitions", r.Spec.Name(), q.What, q.Status, q.S, q.Size)
			}
		}
		if r.Complete == "yes" {
			c.Queries.Complete++
		}
		for _, w := range r.Witness {
			if w != "unknown" && w != "unsat" && !strings.Contains(w, "NOT REACHED") {
				c.Queries.Reached++
			}
		}
		if r.Status == "holds" {
			c.Held++
			c.Harnesses = append(c.Harnesses, r.Spec.Name())
		} else if r.Status == "inconclusive" {
			c.Inconclusive = append(c.Inconclusive, r.Spec.Name()+": "+r.Msg)
		}
		if len(r.Samples) > 0 && len(c.Samples) < 6 {
			c.Samples = append(c.Samples, r.Samples[0])
		}
	}
	for _, r := range rs {
		if r.Status == "violation" {
			c.Samples = append(c.Samples, "violation: "+r.Spec.Name()+" "+describe(*r.Job)+" "+r.Msg)
		}
	}
	if len(c.Samples) == 0 {
		c.Samples = []string{"no sample run"}
	}
	return ev
}

// Replay runs the job of a replay file on the real build.
func Replay(c Config, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property string `json:"property"`
		Job      Job    `json:"job"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.Cost = f.Property == "P27"
	tmp, err := os.MkdirTemp("", "vf-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "native")
	if err := BuildNative(c, bin, f.Job.Race); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Println(f.Job.Harness, f.Job.Args, describe(f.Job))
	if f.Job.Race {
		m, err := RunRace(c, bin, f.Job)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		fmt.Println("race run:", m)
		if m != "" {
			return 1
		}
		return 0
	}
	rs, err := RunNative(c, bin, []Job{f.Job})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Println(rs[0].Status, rs[0].Msg)
	if rs[0].Status == "ok" || rs[0].Status == "assume" {
		return 0
	}
	return 1
}
