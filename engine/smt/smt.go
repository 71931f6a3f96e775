// Package smt turns expressions into SMT-LIB (QF_BV) queries and runs solvers.
package smt

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/bits"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/expr"
)

// Block is one class of domain elements a query cannot tell apart.
type VarEnc struct {
	V      *expr.Var
	Block  []int // element -> block
	N      int
	Bits   int
	Rep    []int // block -> one element
	memo   map[string]string
	keepEl bool
}

type Emitter struct {
	C    *expr.C
	buf  bytes.Buffer
	name map[*expr.E]string
	enc  map[*expr.Var]*VarEnc
	vars []*VarEnc
	n    int
	bvs  map[string]uint8
	sel  map[string]string
	uses map[*expr.Var]map[int]*expr.Tab
}

func NewEmitter(c *expr.C) *Emitter {
	return &Emitter{C: c, name: map[*expr.E]string{}, enc: map[*expr.Var]*VarEnc{}, bvs: map[string]uint8{}, sel: map[string]string{}, uses: map[*expr.Var]map[int]*expr.Tab{}}
}

// Collect records the tables a root uses; call for every root before Assert.
func (em *Emitter) Collect(roots ...*expr.E) {
	seen := map[*expr.E]bool{}
	stack := append([]*expr.E(nil), roots...)
	for len(stack) > 0 {
		e := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[e] {
			continue
		}
		seen[e] = true
		if e.Op == expr.Fn {
			u := em.uses[e.V]
			if u == nil {
				u = map[int]*expr.Tab{}
				em.uses[e.V] = u
			}
			u[e.T.ID] = e.T
		}
		if e.Op == expr.BV {
			em.bvs[e.Name] = e.W
		}
		stack = append(stack, e.Args()...)
	}
}

// Declare fixes the variable encodings and writes the declarations.
func (em *Emitter) Declare() {
	em.buf.WriteString("(set-logic QF_BV)\n")
	var vs []*expr.Var
	for v := range em.uses {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
	for _, v := range vs {
		var ids []int
		for id := range em.uses[v] {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		enc := &VarEnc{V: v, Block: make([]int, v.Class.Size), memo: map[string]string{}}
		// iterative refinement
		cur := enc.Block
		n := 1
		for _, id := range ids {
			t := em.uses[v][id]
			next := map[[2]uint64]int{}
			for i := range cur {
				k := [2]uint64{uint64(cur[i]), t.Vals[i]}
				b, ok := next[k]
				if !ok {
					b = len(next)
					next[k] = b
				}
				cur[i] = b
			}
			n = len(next)
		}
		enc.N = n
		enc.Rep = make([]int, n)
		for i := len(cur) - 1; i >= 0; i-- {
			enc.Rep[cur[i]] = i
		}
		enc.Bits = bits.Len(uint(n - 1))
		em.enc[v] = enc
		em.vars = append(em.vars, enc)
		for b := 0; b < enc.Bits; b++ {
			fmt.Fprintf(&em.buf, "(declare-const v%d_%d Bool)\n", v.ID, b)
		}
		if n < 1<<enc.Bits {
			// range constraint
			ok := make([]uint64, 1<<enc.Bits)
			for i := 0; i < n; i++ {
				ok[i] = 1
			}
			fmt.Fprintf(&em.buf, "(assert %s)\n", em.tree(enc, ok, 0, enc.Bits-1))
		}
	}
	var names []string
	for n := range em.bvs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&em.buf, "(declare-const %s (_ BitVec %d))\n", n, em.bvs[n])
	}
}

func konst(v uint64, w uint8) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

// tree builds the function vals of the variable's selector bits.
func (em *Emitter) tree(enc *VarEnc, vals []uint64, w uint8, bit int) string {
	same := true
	for _, x := range vals {
		if x != vals[0] {
			same = false
			break
		}
	}
	if same {
		return konst(vals[0], w)
	}
	kb := make([]byte, 0, len(vals)*8+2)
	kb = append(kb, w, byte(bit))
	for _, v := range vals {
		kb = binary.LittleEndian.AppendUint64(kb, v)
	}
	if s, ok := enc.memo[string(kb)]; ok {
		return s
	}
	h := len(vals) / 2
	lo := em.tree(enc, vals[:h], w, bit-1)
	hi := em.tree(enc, vals[h:], w, bit-1)
	bn := fmt.Sprintf("v%d_%d", enc.V.ID, bit)
	var s string
	switch {
	case w == 0 && hi == "true" && lo == "false":
		s = bn
	case w == 0 && hi == "false" && lo == "true":
		s = "(not " + bn + ")"
	default:
		s = em.def(fmt.Sprintf("(ite %s %s %s)", bn, hi, lo), w)
	}
	enc.memo[string(kb)] = s
	return s
}

func (em *Emitter) def(body string, w uint8) string {
	em.n++
	nm := "n" + strconv.Itoa(em.n)
	if w == 0 {
		fmt.Fprintf(&em.buf, "(define-fun %s () Bool %s)\n", nm, body)
	} else {
		fmt.Fprintf(&em.buf, "(define-fun %s () (_ BitVec %d) %s)\n", nm, w, body)
	}
	return nm
}

func (em *Emitter) fn(v *expr.Var, t *expr.Tab, w uint8) string {
	enc := em.enc[v]
	vals := make([]uint64, 1<<enc.Bits)
	for b := 0; b < enc.N; b++ {
		vals[b] = t.Vals[enc.Rep[b]]
	}
	for b := enc.N; b < len(vals); b++ {
		vals[b] = vals[enc.N-1]
	}
	return em.tree(enc, vals, w, enc.Bits-1)
}

// Expr emits an expression and returns its name.
func (em *Emitter) Expr(e *expr.E) string {
	if s, ok := em.name[e]; ok {
		return s
	}
	// iterative post-order
	stack := []*expr.E{e}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if _, ok := em.name[x]; ok {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, a := range x.Args() {
			if _, ok := em.name[a]; !ok {
				stack = append(stack, a)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		em.name[x] = em.emit1(x)
	}
	return em.name[e]
}

func (em *Emitter) emit1(x *expr.E) string {
	a := func(i int) string { return em.name[x.A[i]] }
	switch x.Op {
	case expr.Const:
		return konst(x.C, x.W)
	case expr.BV:
		return x.Name
	case expr.Fn:
		return em.fn(x.V, x.T, x.W)
	case expr.Not:
		return em.def("(not "+a(0)+")", 0)
	case expr.Ite:
		return em.def("(ite "+a(0)+" "+a(1)+" "+a(2)+")", x.W)
	case expr.Zext:
		if x.A[0].W == 0 {
			return em.def("(ite "+a(0)+" "+konst(1, x.W)+" "+konst(0, x.W)+")", x.W)
		}
		return em.def(fmt.Sprintf("((_ zero_extend %d) %s)", x.W-x.A[0].W, a(0)), x.W)
	case expr.Sext:
		return em.def(fmt.Sprintf("((_ sign_extend %d) %s)", x.W-x.A[0].W, a(0)), x.W)
	case expr.Trunc:
		return em.def(fmt.Sprintf("((_ extract %d 0) %s)", x.W-1, a(0)), x.W)
	case expr.Select:
		return em.selectTab(x.Tbl, x.A[0], a(0))
	default:
		return em.def("("+x.Op.String()+" "+a(0)+" "+a(1)+")", x.W)
	}
}

func (em *Emitter) selectTab(t *expr.Table, idx *expr.E, in string) string {
	nb := bits.Len(uint(len(t.Vals) - 1))
	if nb > int(idx.W) {
		nb = int(idx.W)
	}
	bitn := make([]string, nb)
	for i := range bitn {
		bitn[i] = em.def(fmt.Sprintf("(= ((_ extract %d %d) %s) #b1)", i, i, in), 0)
	}
	vals := make([]uint64, 1<<nb)
	copy(vals, t.Vals)
	memo := map[string]string{}
	var rec func(v []uint64, b int) string
	rec = func(v []uint64, b int) string {
		same := true
		for _, x := range v {
			if x != v[0] {
				same = false
				break
			}
		}
		if same {
			return konst(v[0], t.W)
		}
		kb := []byte{byte(b)}
		for _, x := range v {
			kb = binary.LittleEndian.AppendUint64(kb, x)
		}
		if s, ok := memo[string(kb)]; ok {
			return s
		}
		h := len(v) / 2
		lo, hi := rec(v[:h], b-1), rec(v[h:], b-1)
		s := em.def("(ite "+bitn[b]+" "+hi+" "+lo+")", t.W)
		memo[string(kb)] = s
		return s
	}
	return rec(vals, nb-1)
}

// Raw appends text.
func (em *Emitter) Raw(s string)        { em.buf.WriteString(s) }
func (em *Emitter) Assert(e *expr.E)    { s := em.Expr(e); fmt.Fprintf(&em.buf, "(assert %s)\n", s) }
func (em *Emitter) AssertS(s string)    { fmt.Fprintf(&em.buf, "(assert %s)\n", s) }
func (em *Emitter) Def(b string) string { return em.def(b, 0) }
func (em *Emitter) Text() string        { return em.buf.String() }
func (em *Emitter) Nodes() int          { return em.n }
func (em *Emitter) Encs() []*VarEnc     { return em.vars }

type Result struct {
	Status string // sat, unsat, unknown
	Model  map[string]uint64
	Solver string
	Time   time.Duration
	Err    string
}

// Solve runs the query on the given solvers in parallel; first answer wins.
func Solve(base context.Context, text string, getVals []string, solvers []string, timeout time.Duration) Result {
	full := text + "(check-sat)\n"
	if len(getVals) > 0 {
		full += "(get-value (" + strings.Join(getVals, " ") + "))\n"
	}
	ctx, cancel := context.WithTimeout(base, timeout)
	defer cancel()
	ch := make(chan Result, len(solvers))
	start := time.Now()
	for _, s := range solvers {
		go func(s string) { ch <- run1(ctx, s, full, start) }(s)
	}
	res := Result{Status: "unknown", Time: 0}
	for range solvers {
		r := <-ch
		if r.Status == "sat" || r.Status == "unsat" {
			return r
		}
		if r.Err != "" {
			res.Err += r.Solver + ": " + r.Err + "; "
		}
		res.Time = time.Since(start)
	}
	return res
}

func run1(ctx context.Context, solver, text string, start time.Time) Result {
	var cmd *exec.Cmd
	switch solver {
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang", "smt2", "--produce-models", "-")
	case "bitwuzla":
		cmd = exec.CommandContext(ctx, "bitwuzla")
	default:
		cmd = exec.CommandContext(ctx, solver, "-in")
	}
	cmd.Stdin = strings.NewReader(text)
	out, err := cmd.Output()
	r := Result{Status: "unknown", Solver: solver, Time: time.Since(start)}
	sc := bufio.NewReader(bytes.NewReader(out))
	line, _ := sc.ReadString('\n')
	line = strings.TrimSpace(line)
	if line == "sat" || line == "unsat" {
		r.Status = line
	} else {
		if ctx.Err() != nil {
			r.Err = "timeout"
		} else {
			r.Err = strings.TrimSpace(line)
			if err != nil {
				r.Err += " " + err.Error()
			}
		}
		return r
	}
	if line == "unsat" {
		return r
	}
	rest := strings.TrimPrefix(strings.TrimSpace(string(out)), "sat")
	r.Model = parseModel(rest)
	return r
}

func parseModel(s string) map[string]uint64 {
	m := map[string]uint64{}
	s = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s)
	f := strings.Fields(s)
	for i := 0; i+2 < len(f); i++ {
		if f[i] == "(" && f[i+1] != "(" && f[i+1] != "_" {
			name := f[i+1]
			v := f[i+2]
			switch {
			case v == "true":
				m[name] = 1
			case v == "false":
				m[name] = 0
			case strings.HasPrefix(v, "#b"):
				x, _ := strconv.ParseUint(v[2:], 2, 64)
				m[name] = x
			case strings.HasPrefix(v, "#x"):
				x, _ := strconv.ParseUint(v[2:], 16, 64)
				m[name] = x
			case v == "(" && i+4 < len(f) && f[i+3] == "_":
				x, _ := strconv.ParseUint(strings.TrimPrefix(f[i+4], "bv"), 10, 64)
				m[name] = x
			}
		}
	}
	return m
}

// Block gives the block of a variable in a model.
func (enc *VarEnc) Of(model map[string]uint64) int {
	b := 0
	for i := 0; i < enc.Bits; i++ {
		if model[fmt.Sprintf("v%d_%d", enc.V.ID, i)] == 1 {
			b |= 1 << i
		}
	}
	return b
}

// BitNames lists the solver variables of the encodings.
func (em *Emitter) BitNames() []string {
	var r []string
	for _, e := range em.vars {
		for i := 0; i < e.Bits; i++ {
			r = append(r, fmt.Sprintf("v%d_%d", e.V.ID, i))
		}
	}
	return r
}
