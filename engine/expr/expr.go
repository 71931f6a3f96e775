// Package expr is the hash-consed expression DAG the symbolic executor builds.
//
// Values are booleans (W==0) or bit-vectors (W = 1..64). Symbolic inputs are
// finite-domain variables (Var); a function of one variable is kept in normal
// form as a table (op Fn), so that every test the code makes on one input
// character folds to a set of domain elements. Everything else stays a DAG and
// is decided by the SMT solver.
package expr

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/bits"
)

type Op uint8

const (
	Const Op = iota
	BV       // plain bit-vector variable (used to summarise byte-window functions)
	Fn       // table function of a finite-domain variable
	Ite
	Not
	And
	Eq
	Ult
	Slt
	Add
	Sub
	Mul
	Udiv
	Urem
	Sdiv
	Srem
	BAnd
	BOr
	BXor
	Shl
	Lshr
	Ashr
	Zext
	Sext
	Trunc
	Select // constant table indexed by expression
)

var opNames = map[Op]string{Const: "const", BV: "bv", Fn: "fn", Ite: "ite", Not: "not", And: "and", Eq: "=", Ult: "bvult", Slt: "bvslt", Add: "bvadd", Sub: "bvsub", Mul: "bvmul", Udiv: "bvudiv", Urem: "bvurem", Sdiv: "bvsdiv", Srem: "bvsrem", BAnd: "bvand", BOr: "bvor", BXor: "bvxor", Shl: "bvshl", Lshr: "bvlshr", Ashr: "bvashr", Zext: "zext", Sext: "sext", Trunc: "trunc", Select: "select"}

func (o Op) String() string { return opNames[o] }

// Class is a finite domain shared by variables.
type Class struct {
	Name string
	Size int
	// Data is whatever the owner needs to interpret elements.
	Data any
}

// Var is a finite-domain variable.
type Var struct {
	ID    int
	Name  string
	Class *Class
}

// Tab is an interned table.
type Tab struct {
	ID   int
	Vals []uint64
	// Rune marks a table of representatives, of a function of a decoded rune:
	// only what the domain is known to distinguish may be asked of it.
	Rune *RuneFn
	or   uint64
}

// RuneFn is a function of a decoded rune; the name tells which one.
type RuneFn struct {
	Name  string // "" for the rune itself
	Src   string // how it was decoded
	Mixed bool   // some elements of the table hold other, exact values
	F     func(rune uint64) uint64
}

// Table is a constant lookup table (a read-only array of the program).
type Table struct {
	Name string
	Vals []uint64
	W    uint8
}

type E struct {
	ID   int
	Op   Op
	W    uint8
	C    uint64
	Name string
	V    *Var
	T    *Tab
	Tbl  *Table
	A    [3]*E
	N    uint8
	leaf bool
	ap   bool // has values that are representatives
	may  uint64
}

func (e *E) IsConst() bool { return e.Op == Const }
func (e *E) Args() []*E    { return e.A[:e.N] }

type key struct {
	op         Op
	w          uint8
	c          uint64
	a0, a1, a2 int
	p          any
}

type opkey struct {
	op   Op
	a, b int
	w    uint8
}

// C is an expression context. Not safe for concurrent use.
type C struct {
	nodes  map[key]*E
	n      int
	tabs   map[string]*Tab
	tabOps map[opkey]*Tab
	memo   map[opkey]*E
	vars   []*Var
	T, F   *E
	// OnApprox is called for an operation on an approximate table; it returns
	// if the operation is exact nevertheless, and panics otherwise.
	OnApprox func(op Op, k *E)
	// Derive introduces a function of a rune. For a predicate (w=0) it returns nil
	// if the domain decides it, and panics with a demand otherwise.
	Derive func(f RuneFn, w uint8) *RuneFn
}

func New() *C {
	c := &C{nodes: map[key]*E{}, tabs: map[string]*Tab{}, tabOps: map[opkey]*Tab{}, memo: map[opkey]*E{}}
	c.T = c.mk(E{Op: Const, C: 1})
	c.F = c.mk(E{Op: Const, C: 0})
	return c
}

// Fork gives a new context that shares the constants of c.
func (c *C) Fork() *C {
	n := &C{nodes: map[key]*E{}, n: c.n, tabs: map[string]*Tab{}, tabOps: map[opkey]*Tab{}, memo: map[opkey]*E{}, T: c.T, F: c.F}
	for k, e := range c.nodes {
		if e.Op == Const {
			n.nodes[k] = e
		}
	}
	return n
}

func (c *C) NumNodes() int { return c.n }
func (c *C) Vars() []*Var  { return c.vars }

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sx(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

// SInt is the signed value of a constant.
func (e *E) SInt() int64 { return sx(e.C, e.W) }

func (c *C) mk(e E) *E {
	k := key{op: e.Op, w: e.W, c: e.C}
	if e.N > 0 {
		k.a0 = e.A[0].ID
	}
	if e.N > 1 {
		k.a1 = e.A[1].ID
	}
	if e.N > 2 {
		k.a2 = e.A[2].ID
	}
	switch e.Op {
	case Fn:
		k.p = e.V
		k.c = uint64(e.T.ID)
	case BV:
		k.p = e.Name
	case Select:
		k.p = e.Tbl
	}
	if x, ok := c.nodes[k]; ok {
		return x
	}
	c.n++
	e.ID = c.n
	x := &e
	switch e.Op {
	case Const:
		x.leaf, x.may = true, e.C
	case Fn:
		x.leaf, x.may = true, e.T.or
		if e.T.Rune != nil {
			x.ap, x.may = true, mask(e.W)
		}
	case Ite:
		x.leaf = e.A[1].leaf && e.A[2].leaf
		x.ap = e.A[1].ap || e.A[2].ap
		x.may = e.A[1].may | e.A[2].may
	case BOr, BXor:
		x.may = e.A[0].may | e.A[1].may
	case BAnd:
		x.may = e.A[0].may & e.A[1].may
	case Zext:
		x.may = e.A[0].may
	case Trunc:
		x.may = e.A[0].may & mask(e.W)
	case Select:
		x.may = tableMay(e.Tbl)
	default:
		x.may = mask(e.W)
	}
	c.nodes[k] = x
	return x
}

func tableMay(t *Table) uint64 {
	var o uint64
	for _, v := range t.Vals {
		o |= v
	}
	return o
}

func (c *C) Bool(b bool) *E {
	if b {
		return c.T
	}
	return c.F
}

func (c *C) K(v uint64, w uint8) *E { return c.mk(E{Op: Const, W: w, C: v & mask(w)}) }

func (c *C) BVVar(name string, w uint8) *E { return c.mk(E{Op: BV, W: w, Name: name}) }

func (c *C) NewVar(name string, cl *Class) *Var {
	v := &Var{ID: len(c.vars), Name: name, Class: cl}
	c.vars = append(c.vars, v)
	return v
}

func (c *C) tab(vals []uint64) *Tab { return c.tabA(vals, nil) }

func (c *C) tabA(vals []uint64, rf *RuneFn) *Tab {
	b := make([]byte, 8*len(vals), 8*len(vals)+1)
	var o uint64
	for i, v := range vals {
		binary.LittleEndian.PutUint64(b[8*i:], v)
		o |= v
	}
	if rf != nil {
		b = append(append(append(append(b, 1), rf.Name...), 0), rf.Src...)
		if rf.Mixed {
			b = append(b, 1)
		}
	}
	s := string(b)
	if t, ok := c.tabs[s]; ok {
		return t
	}
	t := &Tab{ID: len(c.tabs) + 1, Vals: vals, or: o, Rune: rf}
	c.tabs[s] = t
	return t
}

// MkFn builds the table function vals(v) of width w.
func (c *C) MkFn(v *Var, vals []uint64, w uint8) *E {
	if len(vals) != v.Class.Size {
		panic("MkFn: size mismatch")
	}
	same := true
	for _, x := range vals {
		if x != vals[0] {
			same = false
			break
		}
	}
	if same {
		return c.K(vals[0], w)
	}
	return c.mkFnTab(v, c.tab(vals), w)
}

// MkApprox is MkFn for a table of representatives. It is never folded to a constant.
func (c *C) MkApprox(v *Var, vals []uint64, w uint8, rf *RuneFn) *E {
	return c.mkFnTab(v, c.tabA(vals, rf), w)
}

func (e *E) approx() bool { return e.Op == Fn && e.T.Rune != nil }

// derive applies f to a table of representatives.
func (c *C) derive(x *E, name string, f func(uint64) uint64, w uint8) *E {
	g := x.T.Rune
	n := *g
	n.Name = g.Name + ";" + name
	n.F = func(r uint64) uint64 { return f(g.F(r)) }
	return c.derived(x.V, n, w, func(i int) uint64 { return f(x.T.Vals[i]) })
}

func (c *C) derived(v *Var, n RuneFn, w uint8, at func(i int) uint64) *E {
	rf := c.Derive(n, w)
	vals := make([]uint64, v.Class.Size)
	for i := range vals {
		vals[i] = at(i)
	}
	return c.fnFromTab(v, c.tabA(vals, rf), w)
}

// MapRune applies a function, known by a name, to the values of an if-then-else of tables.
func (c *C) MapRune(e *E, name string, w uint8, f func(uint64) uint64) (*E, bool) {
	if e.Op == Ite {
		a, ok := c.MapRune(e.A[1], name, w, f)
		if !ok {
			return nil, false
		}
		b, ok := c.MapRune(e.A[2], name, w, f)
		if !ok {
			return nil, false
		}
		return c.Ite(e.A[0], a, b), true
	}
	if e.approx() {
		return c.derive(e, name, f, w), true
	}
	return c.MapLeaves(e, w, f)
}

// MapLeaves applies f to the leaf values of an if-then-else of tables.
func (c *C) MapLeaves(e *E, w uint8, f func(uint64) uint64) (*E, bool) {
	switch e.Op {
	case Const:
		return c.K(f(e.C), w), true
	case Fn:
		vals := make([]uint64, len(e.T.Vals))
		for i, v := range e.T.Vals {
			vals[i] = f(v)
		}
		return c.MkFn(e.V, vals, w), true
	case Ite:
		a, ok := c.MapLeaves(e.A[1], w, f)
		if !ok {
			return nil, false
		}
		b, ok := c.MapLeaves(e.A[2], w, f)
		if !ok {
			return nil, false
		}
		return c.Ite(e.A[0], a, b), true
	}
	return nil, false
}

func (c *C) mkFnTab(v *Var, t *Tab, w uint8) *E {
	return c.mk(E{Op: Fn, W: w, V: v, T: t})
}

func (c *C) fnFromTab(v *Var, t *Tab, w uint8) *E {
	same := t.Rune == nil
	for _, x := range t.Vals {
		if x != t.Vals[0] {
			same = false
			break
		}
	}
	if same {
		return c.K(t.Vals[0], w)
	}
	return c.mkFnTab(v, t, w)
}

// Eval of a scalar operation on constants. aw is operand width.
func evalOp(op Op, a, b uint64, aw, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case And:
		return a & b, true
	case Not:
		return a ^ 1, true
	case Eq:
		return b2u(a == b), true
	case Ult:
		return b2u(a < b), true
	case Slt:
		return b2u(sx(a, aw) < sx(b, aw)), true
	case Add:
		return (a + b) & m, true
	case Sub:
		return (a - b) & m, true
	case Mul:
		return (a * b) & m, true
	case Udiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case Urem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case Sdiv:
		if b == 0 {
			return 0, false
		}
		return uint64(sx(a, aw)/sx(b, aw)) & m, true
	case Srem:
		if b == 0 {
			return 0, false
		}
		return uint64(sx(a, aw)%sx(b, aw)) & m, true
	case BAnd:
		return a & b, true
	case BOr:
		return a | b, true
	case BXor:
		return a ^ b, true
	case Shl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case Lshr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case Ashr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, aw)>>b) & m, true
	}
	panic("evalOp " + op.String())
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *C) tabUn(op Op, t *Tab, from, to uint8) *Tab {
	k := opkey{op, t.ID, int(from), to}
	if r, ok := c.tabOps[k]; ok {
		return r
	}
	vals := make([]uint64, len(t.Vals))
	for i, v := range t.Vals {
		vals[i] = evalUn(op, v, from, to)
	}
	r := c.tabA(vals, t.Rune)
	c.tabOps[k] = r
	return r
}

func evalUn(op Op, v uint64, from, to uint8) uint64 {
	switch op {
	case Zext:
		return v
	case Sext:
		return uint64(sx(v, from)) & mask(to)
	case Trunc:
		return v & mask(to)
	case Not:
		return v ^ 1
	}
	panic("evalUn")
}

func commutative(op Op) bool {
	switch op {
	case And, Eq, Add, Mul, BAnd, BOr, BXor:
		return true
	}
	return false
}

// leafValues are the values an expression of constants and exact tables takes, if few.
func leafValues(e *E, max int) ([]uint64, bool) {
	seen := map[uint64]bool{}
	var vs []uint64
	done := map[*E]bool{}
	var walk func(e *E) bool
	walk = func(e *E) bool {
		if done[e] {
			return true
		}
		done[e] = true
		add := func(v uint64) {
			if !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		}
		switch e.Op {
		case Const:
			add(e.C)
		case Fn:
			if e.T.Rune != nil {
				return false
			}
			for _, v := range e.T.Vals[:e.V.Class.Size] {
				add(v)
			}
		case Ite:
			return walk(e.A[1]) && walk(e.A[2])
		default:
			return false
		}
		return len(vs) <= max
	}
	if !e.leaf || !walk(e) {
		return nil, false
	}
	return vs, true
}

// Bin builds a binary operation.
func (c *C) Bin(op Op, a, b *E) *E {
	switch op {
	case And:
		return c.And(a, b)
	}
	if a.W != b.W {
		panic(fmt.Sprintf("width mismatch %v: %d %d", op, a.W, b.W))
	}
	w := a.W
	if op == Eq || op == Ult || op == Slt {
		w = 0
	}
	if commutative(op) && (a.IsConst() || (!b.IsConst() && a.ID > b.ID)) {
		a, b = b, a
	}
	if a.IsConst() && b.IsConst() {
		if v, ok := evalOp(op, a.C, b.C, a.W, w); ok {
			return c.K(v, w)
		}
	}
	mk := opkey{op, a.ID, b.ID, w}
	if r, ok := c.memo[mk]; ok {
		return r
	}
	r := c.bin(op, a, b, w)
	c.memo[mk] = r
	return r
}

func (c *C) bin(op Op, a, b *E, w uint8) *E {
	if a != b && (a.ap || b.ap) {
		if r := c.binApprox(op, a, b, w); r != nil {
			return r
		}
	}
	// functions of the same variable
	if a.Op == Fn && b.Op == Const || a.Op == Const && b.Op == Fn || a.Op == Fn && b.Op == Fn && a.V == b.V {
		v := a.V
		if v == nil {
			v = b.V
		}
		vals := make([]uint64, v.Class.Size)
		ok := true
		for i := range vals {
			x, y := a.C, b.C
			if a.Op == Fn {
				x = a.T.Vals[i]
			}
			if b.Op == Fn {
				y = b.T.Vals[i]
			}
			var o bool
			vals[i], o = evalOp(op, x, y, a.W, w)
			ok = ok && o
		}
		if ok {
			return c.fnFromTab(v, c.tab(vals), w)
		}
	}
	if a == b {
		switch op {
		case Eq:
			return c.T
		case Ult, Slt:
			return c.F
		case BAnd, BOr:
			return a
		case BXor, Sub:
			return c.K(0, w)
		}
	}
	if op == Eq && a.W == 0 {
		// boolean equality
		if b.IsConst() {
			if b.C == 1 {
				return a
			}
			return c.Not(a)
		}
		return c.Ite(a, b, c.Not(b))
	}
	if b.IsConst() {
		switch op {
		case BAnd:
			if b.C == 0 || a.may&b.C == 0 {
				return c.K(0, w)
			}
			if a.may&^b.C == 0 {
				return a
			}
			if a.Op == BOr || a.Op == BAnd || a.Op == BXor {
				return c.Bin(a.Op, c.Bin(BAnd, a.A[0], b), c.Bin(BAnd, a.A[1], b))
			}
		case BOr, BXor:
			if b.C == 0 {
				return a
			}
		case Add, Sub, Shl, Lshr, Ashr:
			if b.C == 0 {
				return a
			}
			if op == Add && a.Op == Add && a.A[1].IsConst() {
				return c.Bin(Add, a.A[0], c.K(a.A[1].C+b.C, w))
			}
		case Mul:
			if b.C == 1 {
				return a
			}
			if b.C == 0 {
				return b
			}
		case Eq:
			if b.C&^a.may != 0 {
				return c.F
			}
			if b.C == 0 {
				switch a.Op {
				case BOr:
					return c.And(c.Bin(Eq, a.A[0], b), c.Bin(Eq, a.A[1], b))
				case BAnd:
					m := a.A[0].may & a.A[1].may
					if !a.A[0].IsConst() && !a.A[1].IsConst() && bits.OnesCount64(m) == 1 {
						k := c.K(m, a.W)
						return c.Not(c.And(c.Not(c.Bin(Eq, c.Bin(BAnd, a.A[0], k), b)), c.Not(c.Bin(Eq, c.Bin(BAnd, a.A[1], k), b))))
					}
				}
			}
			if a.Op == Zext {
				if b.C > mask(a.A[0].W) {
					return c.F
				}
				return c.Bin(Eq, a.A[0], c.K(b.C, a.A[0].W))
			}
		case Ult:
			if b.C == 0 {
				return c.F
			}
			if a.Op == Zext {
				if b.C > mask(a.A[0].W) {
					return c.T
				}
				return c.Bin(Ult, a.A[0], c.K(b.C, a.A[0].W))
			}
		}
		if a.Op == Ite && a.leaf {
			return c.Ite(a.A[0], c.Bin(op, a.A[1], b), c.Bin(op, a.A[2], b))
		}
	}
	if a.IsConst() && b.Op == Ite && b.leaf {
		return c.Ite(b.A[0], c.Bin(op, a, b.A[1]), c.Bin(op, a, b.A[2]))
	}
	return c.mk(E{Op: op, W: w, A: [3]*E{a, b}, N: 2})
}

// binApprox is bin for tables of representatives; nil if bin itself is right.
func (c *C) binApprox(op Op, a, b *E, w uint8) *E {
	if c.Derive == nil {
		panic("operation on approximate table")
	}
	cmp := op == Eq || op == Ult || op == Slt
	eval := func(x, y uint64) uint64 {
		v, ok := evalOp(op, x, y, a.W, w)
		if !ok {
			c.OnApprox(op, nil)
		}
		return v
	}
	switch {
	case a.approx() && b.IsConst():
		if cmp && a.T.Rune.Name == "" {
			c.OnApprox(op, b)
			return nil
		}
		return c.derive(a, fmt.Sprintf("%v/%d %#x", op, a.W, b.C), func(x uint64) uint64 { return eval(x, b.C) }, w)
	case b.approx() && a.IsConst():
		if cmp && b.T.Rune.Name == "" {
			c.OnApprox(op, a)
			return nil
		}
		return c.derive(b, fmt.Sprintf("%#x %v/%d", a.C, op, a.W), func(x uint64) uint64 { return eval(a.C, x) }, w)
	case a.approx() && b.approx() && a.V == b.V:
		x, y := a.T.Rune, b.T.Rune
		if x.Src != y.Src || x.Mixed || y.Mixed {
			c.OnApprox(op, nil)
		}
		n := RuneFn{Name: fmt.Sprintf("(%s) %v/%d (%s)", x.Name, op, a.W, y.Name), Src: x.Src, F: func(r uint64) uint64 { return eval(x.F(r), y.F(r)) }}
		return c.derived(a.V, n, w, func(i int) uint64 { return eval(a.T.Vals[i], b.T.Vals[i]) })
	case a.Op == Ite && a.leaf && b.IsConst(), b.Op == Ite && b.leaf && a.IsConst():
		return nil // distributed over the branches
	}
	for i, y := range []*E{b, a} {
		x := a
		if i == 1 {
			x = b
		}
		if y.ap || !x.leaf {
			continue
		}
		vs, ok := leafValues(y, 64)
		if !ok {
			continue
		}
		var r *E
		for j, v := range vs {
			k := c.K(v, a.W)
			t := c.Bin(op, x, k)
			if i == 1 {
				t = c.Bin(op, k, x)
			}
			if j == 0 {
				r = t
			} else {
				r = c.Ite(c.Bin(Eq, y, k), t, r)
			}
		}
		return r
	}
	// a branch at a time
	if a.Op == Ite && a.leaf && a.ap {
		return c.Ite(a.A[0], c.Bin(op, a.A[1], b), c.Bin(op, a.A[2], b))
	}
	if b.Op == Ite && b.leaf && b.ap {
		return c.Ite(b.A[0], c.Bin(op, a, b.A[1]), c.Bin(op, a, b.A[2]))
	}
	c.OnApprox(op, nil)
	return nil
}

func (c *C) Not(a *E) *E {
	switch a.Op {
	case Const:
		return c.Bool(a.C == 0)
	case Not:
		return a.A[0]
	case Fn:
		return c.mkFnTab(a.V, c.tabUn(Not, a.T, 0, 0), 0)
	}
	return c.mk(E{Op: Not, A: [3]*E{a}, N: 1})
}

func compl(a, b *E) bool {
	return a.Op == Not && a.A[0] == b || b.Op == Not && b.A[0] == a
}

func (c *C) And(a, b *E) *E {
	if a == b {
		return a
	}
	if a.IsConst() {
		if a.C == 0 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.C == 0 {
			return b
		}
		return a
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	mk := opkey{And, a.ID, b.ID, 0}
	if r, ok := c.memo[mk]; ok {
		return r
	}
	r := c.and(a, b)
	c.memo[mk] = r
	return r
}

func (c *C) and(a, b *E) *E {
	if compl(a, b) {
		return c.F
	}
	if a.Op == Fn && b.Op == Fn && a.V == b.V {
		vals := make([]uint64, len(a.T.Vals))
		for i := range vals {
			vals[i] = a.T.Vals[i] & b.T.Vals[i]
		}
		return c.fnFromTab(a.V, c.tab(vals), 0)
	}
	for i := 0; i < 2; i++ {
		x, y := a, b
		if i == 1 {
			x, y = b, a
		}
		if y.Op == And {
			if y.A[0] == x || y.A[1] == x {
				return y
			}
			if compl(y.A[0], x) || compl(y.A[1], x) {
				return c.F
			}
			if x.Op == Fn {
				for j := 0; j < 2; j++ {
					if y.A[j].Op == Fn && y.A[j].V == x.V {
						return c.And(c.And(y.A[j], x), y.A[1-j])
					}
				}
			}
		}
		if y.Op == Not && y.A[0].Op == And {
			z := y.A[0]
			for j := 0; j < 2; j++ {
				if z.A[j] == x { // x & !(x & q) = x & !q
					return c.And(x, c.Not(z.A[1-j]))
				}
				if compl(z.A[j], x) { // x & !(!x & q) = x
					return x
				}
				if x.Op == Fn && z.A[j].Op == Fn && x.V == z.A[j].V {
					// x and z_j are sets of the same variable
					d := c.And(x, z.A[j])
					if d == c.F {
						return x
					}
					if d == x { // x implies z_j
						return c.And(x, c.Not(z.A[1-j]))
					}
				}
			}
		}
	}
	// !(x&y) & !(x&!y) = !x
	if a.Op == Not && b.Op == Not && a.A[0].Op == And && b.A[0].Op == And {
		p, q := a.A[0], b.A[0]
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if p.A[i] == q.A[j] && compl(p.A[1-i], q.A[1-j]) {
					return c.Not(p.A[i])
				}
			}
		}
		for i := 0; i < 2; i++ {
			for j := 0; j < 2; j++ {
				if p.A[i] == q.A[j] { // !(x&y) & !(x&z) = !(x & (y|z))
					return c.Not(c.And(p.A[i], c.Or(p.A[1-i], q.A[1-j])))
				}
			}
		}
	}
	return c.mk(E{Op: And, A: [3]*E{a, b}, N: 2})
}

func (c *C) Or(a, b *E) *E { return c.Not(c.And(c.Not(a), c.Not(b))) }

func (c *C) Ite(g, t, e *E) *E {
	if t.W != e.W {
		panic("ite width")
	}
	if g.IsConst() {
		if g.C == 1 {
			return t
		}
		return e
	}
	if t == e {
		return t
	}
	if g.Op == Not {
		g, t, e = g.A[0], e, t
	}
	if t.W == 0 {
		if t.IsConst() {
			if t.C == 1 {
				return c.Or(g, e)
			}
			return c.And(c.Not(g), e)
		}
		if e.IsConst() {
			if e.C == 1 {
				return c.Or(c.Not(g), t)
			}
			return c.And(g, t)
		}
		if t == g {
			return c.Or(g, e)
		}
		if e == g {
			return c.And(g, t)
		}
		if compl(t, e) && t.Op != Not {
			// xnor kept as ite
		}
	}
	if t.Op == Ite && t.A[0] == g {
		t = t.A[1]
	}
	if e.Op == Ite && e.A[0] == g {
		e = e.A[2]
	}
	if t == e {
		return t
	}
	if g.Op == Fn {
		vt := t.Op == Const || t.Op == Fn && t.V == g.V
		ve := e.Op == Const || e.Op == Fn && e.V == g.V
		ap, ok := mixed(t, e)
		if vt && ve && ok {
			vals := make([]uint64, len(g.T.Vals))
			for i, gv := range g.T.Vals {
				x := e
				if gv == 1 {
					x = t
				}
				if x.Op == Fn {
					vals[i] = x.T.Vals[i]
				} else {
					vals[i] = x.C
				}
			}
			return c.fnFromTab(g.V, c.tabA(vals, ap), t.W)
		}
	}
	return c.mk(E{Op: Ite, W: t.W, A: [3]*E{g, t, e}, N: 3})
}

// mixed is the rune function of an if-then-else of two tables, if there is one.
func mixed(t, e *E) (*RuneFn, bool) {
	var x, y *RuneFn
	if t.Op == Fn {
		x = t.T.Rune
	}
	if e.Op == Fn {
		y = e.T.Rune
	}
	switch {
	case x == nil && y == nil:
		return nil, true
	case x != nil && y != nil:
		if x.Name != y.Name || x.Src != y.Src {
			return nil, false
		}
		if y.Mixed {
			x = y
		}
		return x, true
	case x == nil:
		x = y
	}
	n := *x
	n.Mixed = true
	return &n, true
}

func (c *C) un(op Op, a *E, w uint8) *E {
	if a.W == w {
		return a
	}
	switch a.Op {
	case Const:
		return c.K(evalUn(op, a.C, a.W, w), w)
	case Fn:
		if a.approx() && (op == Trunc || op == Sext && a.T.Rune.Name != "") {
			return c.derive(a, fmt.Sprintf("%v %d-%d", op, a.W, w), func(x uint64) uint64 { return evalUn(op, x, a.W, w) }, w)
		}
		return c.fnFromTab(a.V, c.tabUn(op, a.T, a.W, w), w)
	case Ite:
		if a.leaf {
			mk := opkey{op, a.ID, 0, w}
			if r, ok := c.memo[mk]; ok {
				return r
			}
			r := c.Ite(a.A[0], c.un(op, a.A[1], w), c.un(op, a.A[2], w))
			c.memo[mk] = r
			return r
		}
	case Zext:
		if op == Zext {
			return c.un(Zext, a.A[0], w)
		}
		if op == Trunc {
			if a.A[0].W == w {
				return a.A[0]
			}
			if a.A[0].W < w {
				return c.un(Zext, a.A[0], w)
			}
			return c.un(Trunc, a.A[0], w)
		}
	}
	if a.ap {
		c.OnApprox(op, nil)
	}
	return c.mk(E{Op: op, W: w, A: [3]*E{a}, N: 1})
}

func (c *C) Zext(a *E, w uint8) *E  { return c.un(Zext, a, w) }
func (c *C) Sext(a *E, w uint8) *E  { return c.un(Sext, a, w) }
func (c *C) Trunc(a *E, w uint8) *E { return c.un(Trunc, a, w) }

// Select indexes a constant table. The caller guarantees idx is in range.
func (c *C) Select(t *Table, idx *E) *E {
	switch idx.Op {
	case Const:
		if idx.C < uint64(len(t.Vals)) {
			return c.K(t.Vals[idx.C], t.W)
		}
		return c.K(0, t.W)
	case Fn:
		if idx.approx() {
			h := fnv.New64a()
			for _, v := range t.Vals {
				binary.Write(h, binary.LittleEndian, v)
			}
			return c.derive(idx, fmt.Sprintf("table %d %x", len(t.Vals), h.Sum64()), func(x uint64) uint64 {
				if x < uint64(len(t.Vals)) {
					return t.Vals[x]
				}
				return 0
			}, t.W)
		}
		vals := make([]uint64, len(idx.T.Vals))
		for i, v := range idx.T.Vals {
			if v < uint64(len(t.Vals)) {
				vals[i] = t.Vals[v]
			}
		}
		return c.fnFromTab(idx.V, c.tab(vals), t.W)
	case Ite:
		if idx.leaf {
			return c.Ite(idx.A[0], c.Select(t, idx.A[1]), c.Select(t, idx.A[2]))
		}
	}
	if idx.ap {
		c.OnApprox(Select, nil)
	}
	return c.mk(E{Op: Select, W: t.W, Tbl: t, A: [3]*E{idx}, N: 1})
}

// Dom restricts variables to subsets of their class (nil = unrestricted).
type Dom map[int][]uint64

// May lists the values an expression may take under dom, up to limit;
// ok=false if it cannot be bounded cheaply.
func (c *C) May(e *E, dom func(*Var) []bool, limit int) (vals []uint64, ok bool) {
	set := map[uint64]bool{}
	seen := map[*E]bool{}
	ok = true
	var rec func(e *E)
	rec = func(e *E) {
		if !ok || seen[e] {
			return
		}
		seen[e] = true
		switch e.Op {
		case Const:
			set[e.C] = true
		case Fn:
			d := dom(e.V)
			for i, v := range e.T.Vals {
				if d == nil || d[i] {
					set[v] = true
				}
			}
		case Ite:
			rec(e.A[1])
			rec(e.A[2])
		default:
			if e.N == 2 && e.Op != And && e.Op >= Add && e.Op <= Ashr {
				a, ok1 := c.May(e.A[0], dom, limit)
				b, ok2 := c.May(e.A[1], dom, limit)
				if !ok1 || !ok2 || len(a)*len(b) > 4*limit {
					ok = false
					return
				}
				for _, x := range a {
					for _, y := range b {
						v, o := evalOp(e.Op, x, y, e.A[0].W, e.W)
						if !o {
							ok = false
							return
						}
						set[v] = true
					}
				}
			} else if e.Op == Zext || e.Op == Sext || e.Op == Trunc {
				a, ok1 := c.May(e.A[0], dom, limit)
				if !ok1 {
					ok = false
					return
				}
				for _, x := range a {
					set[evalUn(e.Op, x, e.A[0].W, e.W)] = true
				}
			} else if e.Op == Select {
				a, ok1 := c.May(e.A[0], dom, limit)
				if !ok1 {
					ok = false
					return
				}
				for _, x := range a {
					if x < uint64(len(e.Tbl.Vals)) {
						set[e.Tbl.Vals[x]] = true
					}
				}
			} else {
				ok = false
			}
		}
		if len(set) > limit {
			ok = false
		}
	}
	rec(e)
	if !ok {
		return nil, false
	}
	for v := range set {
		vals = append(vals, v)
	}
	for i := 1; i < len(vals); i++ {
		for j := i; j > 0 && vals[j] < vals[j-1]; j-- {
			vals[j], vals[j-1] = vals[j-1], vals[j]
		}
	}
	return vals, true
}

// Eval evaluates e under an assignment.
func Eval(e *E, fd func(*Var) int, bv func(string) uint64, memo map[*E]uint64) uint64 {
	if r, ok := memo[e]; ok {
		return r
	}
	var r uint64
	switch e.Op {
	case Const:
		r = e.C
	case BV:
		r = bv(e.Name) & mask(e.W)
	case Fn:
		r = e.T.Vals[fd(e.V)]
	case Ite:
		if Eval(e.A[0], fd, bv, memo) == 1 {
			r = Eval(e.A[1], fd, bv, memo)
		} else {
			r = Eval(e.A[2], fd, bv, memo)
		}
	case Not:
		r = Eval(e.A[0], fd, bv, memo) ^ 1
	case Zext, Sext, Trunc:
		r = evalUn(e.Op, Eval(e.A[0], fd, bv, memo), e.A[0].W, e.W)
	case Select:
		i := Eval(e.A[0], fd, bv, memo)
		if i < uint64(len(e.Tbl.Vals)) {
			r = e.Tbl.Vals[i]
		}
	default:
		x := Eval(e.A[0], fd, bv, memo)
		y := Eval(e.A[1], fd, bv, memo)
		r, _ = evalOp(e.Op, x, y, e.A[0].W, e.W)
	}
	memo[e] = r
	return r
}

// EvalOp exposes constant folding for other back ends.
func EvalOp(op Op, a, b uint64, aw, w uint8) (uint64, bool) { return evalOp(op, a, b, aw, w) }

// EvalUn exposes constant folding of width changes.
func EvalUn(op Op, v uint64, from, to uint8) uint64 { return evalUn(op, v, from, to) }

// Mask is the all-ones value of width w.
func Mask(w uint8) uint64 { return mask(w) }

func (e *E) String() string {
	switch e.Op {
	case Const:
		if e.W == 0 {
			return fmt.Sprint(e.C == 1)
		}
		return fmt.Sprintf("%d:%d", e.C, e.W)
	case Fn:
		return fmt.Sprintf("fn%d(%s)", e.T.ID, e.V.Name)
	case BV:
		return e.Name
	}
	s := "(" + e.Op.String()
	for _, a := range e.Args() {
		s += fmt.Sprintf(" #%d", a.ID)
	}
	return s + ")"
}
