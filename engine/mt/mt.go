// Package mt implements multi-terminal binary decision diagrams over the bits
// of a short byte window (byte 0 most significant bit first). They are used to
// compute the finite domain of input characters: the partition of all byte
// windows by what the program's own lookup functions and the reference data
// say about them.
package mt

import "verif/expr"

const term = int32(1 << 20)

type node struct {
	v      int32 // bit index, or term
	lo, hi int32
	val    uint64
}

type M struct {
	nodes []node
	uniq  map[node]int32
	Bits  int
}

func New(bytes int) *M {
	return &M{uniq: map[node]int32{}, Bits: bytes * 8}
}

func (m *M) put(n node) int32 {
	if id, ok := m.uniq[n]; ok {
		return id
	}
	id := int32(len(m.nodes))
	m.nodes = append(m.nodes, n)
	m.uniq[n] = id
	return id
}

func (m *M) Const(v uint64) int32 { return m.put(node{v: term, val: v}) }

func (m *M) Mk(v int32, lo, hi int32) int32 {
	if lo == hi {
		return lo
	}
	return m.put(node{v: v, lo: lo, hi: hi})
}

func (m *M) Node(id int32) (v int32, lo, hi int32, val uint64, isTerm bool) {
	n := m.nodes[id]
	return n.v, n.lo, n.hi, n.val, n.v == term
}

func (m *M) Size() int { return len(m.nodes) }

// Byte is the MTBDD whose value is byte i of the window.
func (m *M) Byte(i int) int32 {
	vals := make([]int32, 256)
	for k := range vals {
		vals[k] = m.Const(uint64(k))
	}
	return m.FromByte(i, vals)
}

// FromByte branches on byte i: child k for value k.
func (m *M) FromByte(i int, child []int32) int32 {
	cur := append([]int32(nil), child...)
	for b := 7; b >= 0; b-- {
		nx := make([]int32, len(cur)/2)
		for k := range nx {
			nx[k] = m.Mk(int32(i*8+b), cur[2*k], cur[2*k+1])
		}
		cur = nx
	}
	return cur[0]
}

func (m *M) Apply1(a int32, f func(uint64) uint64) int32 {
	memo := map[int32]int32{}
	var rec func(int32) int32
	rec = func(x int32) int32 {
		if r, ok := memo[x]; ok {
			return r
		}
		n := m.nodes[x]
		var r int32
		if n.v == term {
			r = m.Const(f(n.val))
		} else {
			r = m.Mk(n.v, rec(n.lo), rec(n.hi))
		}
		memo[x] = r
		return r
	}
	return rec(a)
}

func (m *M) Apply2(a, b int32, f func(x, y uint64) uint64) int32 {
	memo := map[[2]int32]int32{}
	var rec func(a, b int32) int32
	rec = func(a, b int32) int32 {
		k := [2]int32{a, b}
		if r, ok := memo[k]; ok {
			return r
		}
		x, y := m.nodes[a], m.nodes[b]
		var r int32
		switch {
		case x.v == term && y.v == term:
			r = m.Const(f(x.val, y.val))
		case x.v == y.v:
			r = m.Mk(x.v, rec(x.lo, y.lo), rec(x.hi, y.hi))
		case x.v < y.v:
			r = m.Mk(x.v, rec(x.lo, b), rec(x.hi, b))
		default:
			r = m.Mk(y.v, rec(a, y.lo), rec(a, y.hi))
		}
		memo[k] = r
		return r
	}
	return rec(a, b)
}

func (m *M) Ite(c, t, e int32) int32 {
	memo := map[[3]int32]int32{}
	var rec func(c, t, e int32) int32
	rec = func(c, t, e int32) int32 {
		x := m.nodes[c]
		if x.v == term {
			if x.val == 1 {
				return t
			}
			return e
		}
		if t == e {
			return t
		}
		k := [3]int32{c, t, e}
		if r, ok := memo[k]; ok {
			return r
		}
		y, z := m.nodes[t], m.nodes[e]
		v := min(x.v, y.v, z.v)
		co := func(id int32, n node) (int32, int32) {
			if n.v == v {
				return n.lo, n.hi
			}
			return id, id
		}
		cl, ch := co(c, x)
		tl, th := co(t, y)
		el, eh := co(e, z)
		r := m.Mk(v, rec(cl, tl, el), rec(ch, th, eh))
		memo[k] = r
		return r
	}
	return rec(c, t, e)
}

// FromExpr converts an expression over BV8 variables named by bytes to an MTBDD.
// ok=false if it contains finite-domain variables or unknown names.
func (m *M) FromExpr(e *expr.E, byteOf func(name string) int, memo map[*expr.E]int32) (id int32, ok bool) {
	ok = true
	var rec func(e *expr.E) int32
	rec = func(e *expr.E) int32 {
		if !ok {
			return 0
		}
		if r, o := memo[e]; o {
			return r
		}
		var r int32
		switch e.Op {
		case expr.Const:
			r = m.Const(e.C)
		case expr.BV:
			i := byteOf(e.Name)
			if i < 0 || i*8 >= m.Bits || e.W != 8 {
				ok = false
				return 0
			}
			r = m.Byte(i)
		case expr.Ite:
			r = m.Ite(rec(e.A[0]), rec(e.A[1]), rec(e.A[2]))
		case expr.Not:
			r = m.Apply1(rec(e.A[0]), func(x uint64) uint64 { return x ^ 1 })
		case expr.Zext, expr.Sext, expr.Trunc:
			r = m.Apply1(rec(e.A[0]), func(x uint64) uint64 { return expr.EvalUn(e.Op, x, e.A[0].W, e.W) })
		case expr.Select:
			t := e.Tbl.Vals
			r = m.Apply1(rec(e.A[0]), func(x uint64) uint64 {
				if x < uint64(len(t)) {
					return t[x]
				}
				return 0
			})
		case expr.Fn:
			ok = false
			return 0
		default:
			a, b := rec(e.A[0]), rec(e.A[1])
			if !ok {
				return 0
			}
			r = m.Apply2(a, b, func(x, y uint64) uint64 { v, _ := expr.EvalOp(e.Op, x, y, e.A[0].W, e.W); return v })
		}
		if ok {
			memo[e] = r
		}
		return r
	}
	id = rec(e)
	return id, ok
}

// Terminals lists, for every terminal reachable from a, its value and one
// window (bits not on the path are zero) leading to it.
func (m *M) Terminals(a int32) (vals []uint64, windows [][]byte) {
	seen := map[int32]bool{}
	path := make([]byte, m.Bits/8)
	var rec func(int32)
	rec = func(x int32) {
		if seen[x] {
			return
		}
		seen[x] = true
		n := m.nodes[x]
		if n.v == term {
			vals = append(vals, n.val)
			windows = append(windows, append([]byte(nil), path...))
			return
		}
		rec(n.lo)
		by, bi := n.v/8, 7-n.v%8
		path[by] |= 1 << uint(bi)
		rec(n.hi)
		path[by] &^= 1 << uint(bi)
	}
	rec(a)
	return
}

func (m *M) Eval(a int32, w []byte) uint64 {
	for {
		n := m.nodes[a]
		if n.v == term {
			return n.val
		}
		if w[n.v/8]>>(7-uint(n.v%8))&1 == 1 {
			a = n.hi
		} else {
			a = n.lo
		}
	}
}

// Cut replaces every decision on a bit at or after the given one by a constant.
func (m *M) Cut(a int32, bit int, v uint64) int32 {
	memo := map[int32]int32{}
	c := m.Const(v)
	var rec func(int32) int32
	rec = func(x int32) int32 {
		if r, ok := memo[x]; ok {
			return r
		}
		n := m.nodes[x]
		r := x
		if n.v != term {
			if int(n.v) >= bit {
				r = c
			} else {
				r = m.Mk(n.v, rec(n.lo), rec(n.hi))
			}
		}
		memo[x] = r
		return r
	}
	return rec(a)
}
