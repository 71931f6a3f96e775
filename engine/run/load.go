// Package run drives the checker: it loads the code under test with the
// harnesses, executes a harness symbolically, asks the solver, and replays
// counterexamples against the real build.
package run

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	"verif/env"
)

const Module = "github.com/clipperhouse/uax29/v2"

type Config struct {
	Repo  string // /repo
	Verif string // /verif
	Cost  bool   // count steps
}

// overlay maps harness files into the module.
func (c Config) overlay() (map[string]string, error) {
	m := map[string]string{}
	for _, d := range []string{"vsym", "vcost", "vh", "vhmain"} {
		fs, err := filepath.Glob(filepath.Join(c.Verif, "harness", d, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			m[filepath.Join(c.Repo, "internal", d, filepath.Base(f))] = f
		}
	}
	return m, nil
}

func goEnv() []string {
	e := os.Environ()
	return append(e, "GOFLAGS=-mod=mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED=0")
}

type Program struct {
	Prog *ssa.Program
	Pkgs []*ssa.Package
	VH   *ssa.Package
	Time time.Duration
}

func Load(c Config) (*Program, error) {
	t0 := time.Now()
	ov, err := c.overlay()
	if err != nil {
		return nil, err
	}
	o := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		o[k] = b
	}
	if c.Cost {
		in, err := c.instrumented()
		if err != nil {
			return nil, err
		}
		for k, v := range in {
			o[k] = v
		}
	}
	cfg := &packages.Config{Dir: c.Repo, Mode: packages.LoadAllSyntax, Overlay: o, Env: goEnv()}
	pk, err := packages.Load(cfg, "./internal/vh")
	if err != nil {
		return nil, err
	}
	for _, p := range pk {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("loading: %v", e)
		}
	}
	prog, ps := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	return &Program{prog, prog.AllPackages(), ps[0], time.Since(t0)}, nil
}

// BuildNative builds the native replay runner from the current source.
func BuildNative(c Config, out string, race bool) error {
	ov, err := c.overlay()
	if err != nil {
		return err
	}
	if c.Cost {
		in, err := c.instrumented()
		if err != nil {
			return err
		}
		d, err := os.MkdirTemp("", "vf-cost-")
		if err != nil {
			return err
		}
		defer os.RemoveAll(d)
		for k, v := range in {
			f := filepath.Join(d, strconv.Itoa(len(ov))+".go")
			if err := os.WriteFile(f, v, 0o644); err != nil {
				return err
			}
			ov[k] = f
		}
	}
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	f := out + ".overlay.json"
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return err
	}
	defer os.Remove(f)
	args := []string{"build", "-overlay", f, "-o", out}
	ev := goEnv()
	if race {
		args = append(args, "-race")
		ev = append(ev, "CGO_ENABLED=1")
	}
	cmd := exec.Command("go", append(args, "./internal/vhmain")...)
	cmd.Dir = c.Repo
	cmd.Env = ev
	if o, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("building the native runner: %v\n%s", err, o)
	}
	return nil
}

// LoadRefs reads the reference classes.
func LoadRefs(path string) ([][]env.Range, error) {
	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	r := make([][]env.Range, 16)
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) != 4 {
			return nil, fmt.Errorf("bad line in %s", path)
		}
		k, _ := strconv.Atoi(w[0])
		lo, _ := strconv.ParseInt(w[1], 16, 32)
		hi, _ := strconv.ParseInt(w[2], 16, 32)
		c, _ := strconv.Atoi(w[3])
		r[k] = append(r[k], env.Range{Lo: rune(lo), Hi: rune(hi), Class: uint8(c)})
	}
	return r, sc.Err()
}

// Job is a native run.
type Job struct {
	Harness string            `json:"harness"`
	Args    []int             `json:"args"`
	Bytes   map[string][]byte `json:"bytes"`
	Ints    map[string]int    `json:"ints"`
	Race    bool              `json:"race,omitempty"` // run concurrently under the race detector
}

type JobResult struct {
	Status  string         `json:"status"`
	Msg     string         `json:"msg"`
	Outs    map[string]int `json:"outs"`
	Reached []string       `json:"reached"`
}

// RunNative runs jobs on the real build.
func RunNative(c Config, bin string, jobs []Job) ([]JobResult, error) {
	var res []JobResult
	for len(res) < len(jobs) {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, j := range jobs[len(res):] {
			enc.Encode(j)
		}
		cmd := exec.Command(bin)
		cmd.Stdin = &in
		cmd.Env = append(os.Environ(), "VSYM_REF="+filepath.Join(c.Verif, "data", "ref.txt"), "GOMEMLIMIT=2GiB")
		var errb bytes.Buffer
		cmd.Stderr = &errb
		out, err := cmd.Output()
		n := len(res)
		d := json.NewDecoder(bytes.NewReader(out))
		for d.More() {
			var r JobResult
			if e := d.Decode(&r); e != nil {
				break
			}
			res = append(res, r)
		}
		if len(res) == len(jobs) {
			break
		}
		if err != nil && len(res) < len(jobs) {
			// the process died on job len(res): a crash the runner cannot catch
			s := errb.String()
			if strings.Contains(s, "ref.txt") || strings.Contains(s, "invalid") {
				return nil, fmt.Errorf("native runner: %s", s)
			}
			if i := strings.Index(s, "\n"); i > 0 {
				s = s[:i]
			}
			res = append(res, JobResult{Status: "crash", Msg: s})
			continue
		}
		if len(res) == n {
			return nil, fmt.Errorf("native runner gave no answer: %v %s", err, errb.String())
		}
	}
	return res, nil
}

// RunRace runs a job in several goroutines under the race detector; it returns
// the detector's report, or "".
func RunRace(c Config, bin string, j Job) (string, error) {
	j.Race = true
	b, _ := json.Marshal(j)
	cmd := exec.Command(bin)
	cmd.Stdin = bytes.NewReader(b)
	cmd.Env = append(os.Environ(), "VSYM_REF="+filepath.Join(c.Verif, "data", "ref.txt"), "GORACE=exitcode=66 halt_on_error=1")
	var errb bytes.Buffer
	cmd.Stderr = &errb
	err := cmd.Run()
	s := errb.String()
	if strings.Contains(s, "WARNING: DATA RACE") {
		var fr []string
		for _, l := range strings.Split(s, "\n") {
			if l = strings.TrimSpace(l); strings.Contains(l, Module) && strings.Contains(l, "(") && !strings.Contains(l, "internal/v") {
				fr = append(fr, l)
			}
		}
		if len(fr) > 2 {
			fr = fr[:2]
		}
		return "data race: " + strings.Join(fr, " / "), nil
	}
	if err != nil {
		return "", fmt.Errorf("race run: %v %s", err, s)
	}
	return "", nil
}
