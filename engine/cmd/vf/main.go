// Command vf is the checker.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"

	"verif/run"
)

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) > 1 && os.Args[1] == "task" {
		one(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "ssa" {
		ssaDump(os.Args[2])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(check(os.Args[2:]))
	}
	if len(os.Args) > 1 && os.Args[1] == "ucd" {
		os.Exit(run.UCD(config()))
	}
	if len(os.Args) > 2 && os.Args[1] == "replay" {
		os.Exit(run.Replay(config(), os.Args[2]))
	}
	fmt.Fprintln(os.Stderr, "usage: vf check -prop P01 [-tier quick|thorough] | vf replay FILE | vf task Fn args...")
	os.Exit(2)
}

// config finds /verif (two levels above the binary's directory, or VERIF_DIR)
// and the code under test.
func config() run.Config {
	c := run.Config{Repo: "/repo", Verif: "/verif", Cost: os.Getenv("VF_COST") != ""}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		c.Verif = d
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		c.Repo = d
	}
	return c
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "")
	soft := fs.Float64("soft", 0, "")
	hard := fs.Float64("hard", 0, "")
	only := fs.String("only", "", "")
	workers := fs.Int("workers", 0, "")
	v := fs.Bool("v", false, "")
	fs.Parse(args)
	o := run.CheckOpts{Cfg: config(), Prop: *prop, Tier: "quick", Seed: 1, Soft: 520, Hard: 640, Only: *only, Verbose: *v, Workers: *workers}
	if *tier == "thorough" {
		o.Tier, o.Soft, o.Hard = "thorough", 3000, 4200
	}
	if n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		o.Seed = n
	}
	if *soft > 0 {
		o.Soft = *soft
	}
	if *hard > 0 {
		o.Hard = *hard
	}
	return run.Check(o)
}

func one(args []string) {
	fs := flag.NewFlagSet("task", flag.ExitOnError)
	lim := fs.Float64("limit", 300, "")
	samples := fs.Int("samples", 20, "")
	solv := fs.String("solvers", "z3-new", "")
	dump := fs.String("dump", "", "")
	prof := fs.String("prof", "", "")
	fs.Parse(args)
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	args = fs.Args()
	cfg := config()
	p, err := run.Load(cfg)
	die(err)
	refs, err := run.LoadRefs("/verif/data/ref.txt")
	die(err)
	nat := "/tmp/vf.native"
	die(run.BuildNative(cfg, nat, false))
	w := &run.Worker{Cfg: cfg, P: p, Refs: refs, Native: nat, Log: true}
	sp := run.TaskSpec{Fn: args[0], Limit: *lim, Samples: *samples, Seed: 1, Dump: *dump, Solvers: strings.Split(*solv, ",")}
	for _, a := range args[1:] {
		n, err := strconv.Atoi(a)
		die(err)
		sp.Args = append(sp.Args, n)
	}
	r := w.Run(sp)
	r.Funcs = nil
	b, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(b))
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
