// Package vsym is the interface between the harnesses and the checker.
//
// The symbolic executor interprets these functions itself (symbolic inputs,
// assumptions, assertions). The bodies below are the native meaning, used to
// replay a counterexample or validate a trace against the real build: inputs
// come from a tape.
package vsym

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// RefNone is the class of a position where no complete valid character starts.
const RefNone = 255

// Tape holds the inputs of a native run.
type Tape struct {
	Bytes map[string][]byte
	Ints  map[string]int
}

type Stop struct{ Why string } // Why: "assume" or "violation: ..."

var (
	T       Tape
	Outs    map[string]int
	Reached map[string]bool
	frozen  [][2][]byte
	held    []kept
	Quiet   bool   // record nothing (concurrent runs)
	Job     []byte // what this process was asked to run
	alone   = -1   // the Alone call to answer, in a process started for that
	nAlone  int
)

func init() {
	if s := os.Getenv("VSYM_ALONE"); s != "" {
		alone, _ = strconv.Atoi(s)
	}
}

func Start(t Tape) {
	T = t
	Outs = map[string]int{}
	Reached = map[string]bool{}
	frozen = nil
	held = nil
	nAlone = 0
}

// Finish checks what can only be checked at the end of a run.
func Finish() string {
	for _, f := range frozen {
		if !bytes.Equal(f[0], f[1]) {
			return "write to the caller's bytes"
		}
	}
	for _, k := range held {
		if fmt.Sprintf("%#v", k.v) != k.was {
			return "write to the caller's data"
		}
	}
	return ""
}

type kept struct {
	v   any
	was string
}

// Bytes is a text of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := T.Bytes[name]
	r := make([]byte, n)
	copy(r, b)
	return r[:n:n]
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v, ok := T.Ints[name]
	if !ok || v < lo || v > hi {
		return lo
	}
	return v
}

// Bool is an arbitrary boolean.
func Bool(name string) bool { return T.Ints[name] != 0 }

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(Stop{"assume"})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Stop{"violation: " + msg})
	}
}

// Reach marks a point that some input must reach.
func Reach(name string) {
	if !Quiet {
		Reached[name] = true
	}
}

// Out records an observable result, compared between the encoding and the real run.
func Out(name string, v int) {
	if !Quiet {
		Outs[name] = v
	}
}

// Freeze marks bytes the code under test must not modify.
func Freeze(b []byte) {
	if !Quiet {
		frozen = append(frozen, [2][]byte{b, append([]byte(nil), b...)})
	}
}

// FreezeData marks what a pointer or slice refers to as data that the code
// under test must not modify.
func FreezeData(v any) {
	if !Quiet {
		held = append(held, kept{v, fmt.Sprintf("%#v", v)})
	}
}

// Alone runs f with all package variables as they are initially (natively: in
// a process of its own) and undoes what it does to them. It comes before
// anything else but inputs in a harness.
func Alone(f func() []int) []int {
	if Quiet {
		return f()
	}
	k := nAlone
	nAlone++
	if k == alone {
		b, _ := json.Marshal(f())
		fmt.Println(string(b))
		os.Exit(0)
	}
	if alone >= 0 {
		return nil
	}
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(exe)
	c.Env = append(os.Environ(), "VSYM_ALONE="+strconv.Itoa(k))
	c.Stdin = bytes.NewReader(Job)
	out, _ := c.Output()
	var r []int
	if err := json.Unmarshal(out, &r); err != nil {
		var s struct{ Status, Msg string }
		json.Unmarshal(out, &s)
		if s.Status == "violation" {
			panic(Stop{s.Msg})
		}
		panic(fmt.Sprintf("run alone: %s %s", s.Status, s.Msg))
	}
	return r
}

// FreezeGlobals forbids writes to package variables.
func FreezeGlobals() {}

// Class is the reference class (of the given kind) and the width of the
// complete valid character at data[off:]; RefNone and 0 if there is none.
func Class(kind int, data []byte, off int) (uint8, int) {
	if off >= len(data) {
		return RefNone, 0
	}
	r, n := utf8.DecodeRune(data[off:])
	if r == utf8.RuneError && n <= 1 {
		return RefNone, 0
	}
	return lookup(kind, r), n
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(Stop); ok {
				panic(s)
			}
			p = true
		}
	}()
	f()
	return false
}

type rng struct {
	lo, hi rune
	c      uint8
}

var refs [16][]rng

func lookup(kind int, r rune) uint8 {
	t := refs[kind]
	i := sort.Search(len(t), func(i int) bool { return t[i].hi >= r })
	if i < len(t) && t[i].lo <= r {
		return t[i].c
	}
	return 0
}

// LoadRefs reads data/ref.txt.
func LoadRefs(path string) error {
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		k, _ := strconv.Atoi(w[0])
		lo, _ := strconv.ParseInt(w[1], 16, 32)
		hi, _ := strconv.ParseInt(w[2], 16, 32)
		c, err := strconv.Atoi(w[3])
		if err != nil {
			return fmt.Errorf("ref.txt: %v", err)
		}
		refs[k] = append(refs[k], rng{rune(lo), rune(hi), uint8(c)})
	}
	return sc.Err()
}

// Rune is the character at data[off:], 0xFFFD if it is malformed.
func Rune(data []byte, off int) rune {
	r, _ := utf8.DecodeRune(data[off:])
	return r
}

// NoAlloc: after prepare, run allocates nothing. Natively the allocations are
// counted (the least of a few runs: others may allocate meanwhile).
func NoAlloc(prepare, run func()) {
	least := ^uint64(0)
	for i := 0; i < 6; i++ {
		prepare()
		var a, b runtime.MemStats
		if !Quiet {
			runtime.ReadMemStats(&a)
		}
		run()
		if !Quiet {
			runtime.ReadMemStats(&b)
		}
		if n := b.Mallocs - a.Mallocs; i > 0 && n < least {
			least = n
		}
	}
	if least > 0 {
		panic(Stop{fmt.Sprintf("violation: %d allocations during iteration", least)})
	}
}

// The checker runs these for conversions of symbolic runes and strings.

// RuneString is string(r).
func RuneString(r rune) string { return string(utf8.AppendRune(nil, r)) }

// RunesString is string(r).
func RunesString(r []rune) string {
	b := make([]byte, 0, 4*len(r))
	for _, c := range r {
		b = utf8.AppendRune(b, c)
	}
	return string(b)
}

// Runes is []rune(s).
func Runes(s string) []rune {
	r := make([]rune, 0, len(s))
	for _, c := range s {
		r = append(r, c)
	}
	return r
}
