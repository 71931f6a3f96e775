// Package env is the input domain of the symbolic executor: texts of symbolic
// bytes, the finite domain of their characters, reference Unicode classes, and
// the environment functions (decoders, predicates) that depend on characters.
//
// Each input byte position has one finite-domain variable. Its domain is the
// coarsest partition of all 4-byte windows (the byte at the position and the
// three after it) that decides: the value of the first byte, how many UTF-8
// continuation bytes follow it, what every lookup-like function of the code
// under test returns there (computed by executing that function symbolically),
// and the reference class. Nothing is sampled: the partition is computed on
// decision diagrams over all 2^32 windows.
package env

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/expr"
	"verif/mt"
	"verif/sx"
)

const RefNone = 255 // class of a position that starts no complete valid character

// Demand is panicked when the input domain must be refined; the caller
// rebuilds with the enlarged environment and restarts.
type Demand struct{ What string }

// Spec holds what survives restarts: what the domain must distinguish.
type Spec struct {
	MT       *mt.M
	Roots    []int32
	RootName []string
	have     map[int32]bool
	Consts   map[uint32]bool
	Preds    map[string]func(uint64) uint64 // predicates of runes that the domain decides
	bits     map[string][]uint64
	refs     [][]Range // per kind
	rcache   map[string]int32
	exprMemo map[int32]int32
	Restarts int
	built    *built
	sums     map[string]*summary
}

// built is the domain of a number of roots.
type built struct {
	n    int
	D    int32
	Wins [][]byte
	tabs map[int32][]uint64
}

type Range struct {
	Lo, Hi rune
	Class  uint8
}

func NewSpec(refs [][]Range) *Spec {
	s := &Spec{MT: mt.New(4), have: map[int32]bool{}, Consts: map[uint32]bool{}, Preds: map[string]func(uint64) uint64{}, bits: map[string][]uint64{}, refs: refs, rcache: map[string]int32{}, sums: map[string]*summary{}}
	for _, k := range []uint32{0x80, 0xFFFD, 0x110000} {
		s.Consts[k] = true
	}
	s.add("byte0", s.MT.Byte(0))
	s.add("shape", s.shape())
	return s
}

func (s *Spec) add(name string, root int32) {
	if !s.have[root] {
		s.have[root] = true
		s.Roots = append(s.Roots, root)
		s.RootName = append(s.RootName, name)
	}
}

// shape: number of continuation bytes following a lead byte (>= 0xC0), at most 3.
func (s *Spec) shape() int32 {
	m := s.MT
	cont := func(i int, yes, no int32) int32 {
		ch := make([]int32, 256)
		for b := range ch {
			if b >= 0x80 && b < 0xC0 {
				ch[b] = yes
			} else {
				ch[b] = no
			}
		}
		return m.FromByte(i, ch)
	}
	c0, c1, c2, c3 := m.Const(0), m.Const(1), m.Const(2), m.Const(3)
	t := cont(1, cont(2, cont(3, c3, c2), c1), c0)
	ch := make([]int32, 256)
	for b := range ch {
		if b >= 0xC0 {
			ch[b] = t
		} else {
			ch[b] = c0
		}
	}
	return m.FromByte(0, ch)
}

// FromCP builds the function of a window that is f(r) if the window starts with
// the complete valid encoding of r within rem bytes, and inval otherwise.
func (s *Spec) FromCP(f func(r rune) uint64, inval uint64, rem int) int32 {
	m := s.MT
	iv := m.Const(inval)
	leaf := func(r rune) int32 { return m.Const(f(r)) }
	ch := make([]int32, 256)
	sub := func(i int, g func(b int) int32) int32 {
		c := make([]int32, 256)
		for b := range c {
			if b >= 0x80 && b < 0xC0 {
				c[b] = g(b)
			} else {
				c[b] = iv
			}
		}
		return m.FromByte(i, c)
	}
	for b := range ch {
		ch[b] = iv
		switch {
		case b < 0x80:
			ch[b] = leaf(rune(b))
		case b >= 0xC2 && b < 0xE0 && rem >= 2:
			ch[b] = sub(1, func(c int) int32 { return leaf(rune(b&31)<<6 | rune(c&63)) })
		case b >= 0xE0 && b < 0xF0 && rem >= 3:
			ch[b] = sub(1, func(c int) int32 {
				if b == 0xE0 && c < 0xA0 || b == 0xED && c >= 0xA0 {
					return iv
				}
				return sub(2, func(d int) int32 { return leaf(rune(b&15)<<12 | rune(c&63)<<6 | rune(d&63)) })
			})
		case b >= 0xF0 && b < 0xF5 && rem >= 4:
			ch[b] = sub(1, func(c int) int32 {
				if b == 0xF0 && c < 0x90 || b == 0xF4 && c >= 0x90 {
					return iv
				}
				return sub(2, func(d int) int32 {
					return sub(3, func(e int) int32 {
						return leaf(rune(b&7)<<18 | rune(c&63)<<12 | rune(d&63)<<6 | rune(e&63))
					})
				})
			})
		}
	}
	return m.FromByte(0, ch)
}

func (s *Spec) cached(name string, mk func() int32) int32 {
	if r, ok := s.rcache[name]; ok {
		return r
	}
	r := mk()
	s.rcache[name] = r
	return r
}

// RefClass looks up the reference class of a code point.
func (s *Spec) RefClass(kind int, r rune) uint8 {
	t := s.refs[kind]
	i := sort.Search(len(t), func(i int) bool { return t[i].Hi >= r })
	if i < len(t) && t[i].Lo <= r {
		return t[i].Class
	}
	return 0
}

func (s *Spec) refRoot(kind, rem int) int32 {
	rem = min(rem, 4)
	return s.cached(fmt.Sprintf("ref%d/%d", kind, rem), func() int32 {
		t := s.refs[kind]
		i := 0
		last := rune(-1)
		return s.FromCP(func(r rune) uint64 {
			if r < last {
				i = 0
			}
			last = r
			for i < len(t) && t[i].Hi < r {
				i++
			}
			if i < len(t) && t[i].Lo <= r {
				return uint64(t[i].Class)
			}
			return 0
		}, RefNone, rem)
	})
}

func (s *Spec) widthRoot(rem int) int32 {
	rem = min(rem, 4)
	return s.cached(fmt.Sprintf("width/%d", rem), func() int32 {
		return s.FromCP(func(r rune) uint64 { return uint64(utf8.RuneLen(r)) }, 0, rem)
	})
}

var predFuncs = map[string]func(rune) bool{
	"unicode.IsLetter": unicode.IsLetter, "unicode.IsNumber": unicode.IsNumber, "unicode.IsDigit": unicode.IsDigit,
	"unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower,
	"unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl, "unicode.IsGraphic": unicode.IsGraphic,
	"unicode.IsMark": unicode.IsMark, "unicode.IsPrint": unicode.IsPrint, "unicode.IsSymbol": unicode.IsSymbol, "unicode.IsTitle": unicode.IsTitle,
}

// predBits is a predicate for every code point.
func (s *Spec) predBits(p string) []uint64 {
	b, ok := s.bits[p]
	if !ok {
		f := s.Preds[p]
		b = make([]uint64, (utf8.MaxRune+64)/64)
		for r := uint64(0); r <= utf8.MaxRune; r++ {
			b[r/64] |= (f(r) & 1) << (r % 64)
		}
		s.bits[p] = b
	}
	return b
}

// runeRoot: the representative of the class of runes (by known constants and
// predicates) of the decoded rune; the decoder gives U+FFFD for malformed bytes.
func (s *Spec) runeRoot(rem int) int32 {
	rem = min(rem, 4)
	var ks []uint32
	for k := range s.Consts {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var ps []string
	for p := range s.Preds {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	key := fmt.Sprint("rune/", rem, ks, ps)
	return s.cached(key, func() int32 {
		type ck struct {
			iv   int
			bits string
		}
		rep := map[ck]uint64{}
		var bs [][]uint64
		for _, p := range ps {
			bs = append(bs, s.predBits(p))
		}
		kb := make([]byte, (len(ps)+7)/8)
		f := func(r rune) uint64 {
			i := sort.Search(len(ks), func(i int) bool { return ks[i] > uint32(r) }) // ks[i-1] <= r < ks[i]
			iv := 2 * i
			if i > 0 && ks[i-1] == uint32(r) {
				iv--
			}
			clear(kb)
			for j, b := range bs {
				kb[j/8] |= byte(b[r/64]>>(r%64)&1) << (j % 8)
			}
			k := ck{iv, string(kb)}
			if _, ok := rep[k]; !ok {
				rep[k] = uint64(r)
			}
			return rep[k]
		}
		return s.FromCP(f, uint64(utf8.RuneError), rem)
	})
}

// Env is one built domain.
type Env struct {
	S      *Spec
	C      *expr.C
	Class  *expr.Class
	D      int32 // MTBDD: window -> domain element
	Wins   [][]byte
	tabs   map[int32][]uint64
	cells  map[*expr.E]Cell
	Inputs map[string]*Input
	Ints   map[string]*IntVar
	Order  []string
	Base   []*expr.E // constraints between variables
	bad    map[[2]int32][]uint64
	b0     *expr.Tab
	kinds  map[int32]bool
}

type Cell struct {
	In *Input
	I  int
}

type Input struct {
	Name string
	Vars []*expr.Var
	B    []*expr.E
}

type IntVar struct {
	Name   string
	Lo, Hi int
	V      *expr.Var
	E      *expr.E
	Bool   bool
}

type pr struct{ a, b uint64 }

func Build(s *Spec, c *expr.C) *Env {
	e := &Env{S: s, C: c, tabs: map[int32][]uint64{}, cells: map[*expr.E]Cell{}, Inputs: map[string]*Input{}, Ints: map[string]*IntVar{}, bad: map[[2]int32][]uint64{}}
	if s.built == nil || s.built.n != len(s.Roots) {
		s.build()
	}
	e.D, e.Wins = s.built.D, s.built.Wins
	e.Class = &expr.Class{Name: "char", Size: len(e.Wins)}
	for r, t := range s.built.tabs {
		e.tabs[r] = t
	}
	c.OnApprox = func(op expr.Op, k *expr.E) {
		if k != nil && (op == expr.Eq || op == expr.Ult || op == expr.Slt) {
			v := k.SInt()
			if op != expr.Ult && v < 0 || s.Consts[uint32(v)] || v > 0x110000 {
				return
			}
			if op != expr.Eq && s.Consts[uint32(v)] {
				return
			}
			s.Consts[uint32(v)] = true
			panic(Demand{fmt.Sprintf("rune constant %#x", v)})
		}
		panic(sx.Unsupported{Msg: "computation with a decoded rune: " + op.String()})
	}
	c.Derive = func(f expr.RuneFn, w uint8) *expr.RuneFn {
		if w != 0 {
			if len(f.Name) > 2000 {
				panic(sx.Unsupported{Msg: "long computation with a decoded rune"})
			}
			return &f
		}
		if s.Preds[f.Name] == nil {
			if len(s.Preds) > 400 {
				panic(sx.Unsupported{Msg: "too many predicates of decoded runes"})
			}
			s.Preds[f.Name] = f.F
			panic(Demand{"rune predicate " + f.Name})
		}
		return nil
	}
	return e
}

func (s *Spec) build() {
	m := s.MT
	bt := &built{n: len(s.Roots), tabs: map[int32][]uint64{}}
	acc, from := s.Roots[0], 1
	if s.built != nil {
		acc, from = s.built.D, s.built.n
	}
	for _, r := range s.Roots[from:] {
		ids := map[pr]uint64{}
		acc = m.Apply2(acc, r, func(x, y uint64) uint64 {
			k := pr{x, y}
			id, ok := ids[k]
			if !ok {
				id = uint64(len(ids))
				ids[k] = id
			}
			return id
		})
	}
	vals, wins := m.Terminals(acc)
	ren := map[uint64]uint64{}
	for i, v := range vals {
		ren[v] = uint64(i)
	}
	bt.D = m.Apply1(acc, func(x uint64) uint64 { return ren[x] })
	bt.Wins = wins
	for _, r := range s.Roots {
		t := make([]uint64, len(wins))
		for i, w := range wins {
			t[i] = m.Eval(r, w)
		}
		bt.tabs[r] = t
	}
	s.built = bt
}

// Tab gives the table of a root over the domain; it demands a refinement if
// the domain does not decide it.
func (e *Env) Tab(name string, root int32) []uint64 {
	if t, ok := e.tabs[root]; ok {
		return t
	}
	// does the domain decide it already?
	m := e.S.MT
	of := make([]uint64, len(e.Wins))
	seen := make([]bool, len(e.Wins))
	ok := true
	m.Apply2(e.D, root, func(x, y uint64) uint64 {
		if seen[x] && of[x] != y {
			ok = false
		}
		seen[x], of[x] = true, y
		return 0
	})
	if ok {
		e.tabs[root] = of
		e.S.built.tabs[root] = of
		return of
	}
	e.S.add(name, root)
	panic(Demand{name})
}

// NewBytes creates a text of n symbolic bytes.
func (e *Env) NewBytes(name string, n int) *Input {
	if in, ok := e.Inputs[name]; ok {
		if len(in.Vars) != n {
			panic("input " + name + " redeclared with another size")
		}
		return in
	}
	in := &Input{Name: name}
	shape := e.tabs[e.S.Roots[1]]
	b0 := e.tabs[e.S.Roots[0]]
	for i := 0; i < n; i++ {
		v := e.C.NewVar(fmt.Sprintf("%s[%d]", name, i), e.Class)
		in.Vars = append(in.Vars, v)
		b := e.C.MkFn(v, b0, 8)
		in.B = append(in.B, b)
		e.cells[b] = Cell{in, i}
	}
	for i := 0; i < n; i++ {
		for k := 1; k <= 3; k++ {
			// shape >= k  <=>  bytes i+1..i+k are continuation bytes (for a lead byte)
			ge := make([]uint64, len(shape))
			for j := range ge {
				if shape[j] >= uint64(k) {
					ge[j] = 1
				}
			}
			g := e.C.MkFn(in.Vars[i], ge, 0)
			if i+k >= n {
				e.Base = append(e.Base, e.C.Not(g))
				continue
			}
			prev := make([]uint64, len(shape)) // lead byte with shape >= k-1
			for j := range prev {
				if b0[j] >= 0xC0 && shape[j] >= uint64(k-1) {
					prev[j] = 1
				}
			}
			pv := e.C.MkFn(in.Vars[i], prev, 0)
			ct := e.isCont(in.Vars[i+k])
			e.Base = append(e.Base, e.C.Or(e.C.Not(pv), e.C.Not(e.C.Or(e.C.And(g, e.C.Not(ct)), e.C.And(e.C.Not(g), ct)))))
		}
	}
	e.Inputs[name] = in
	e.Order = append(e.Order, name)
	return in
}

func (e *Env) isCont(v *expr.Var) *expr.E {
	b0 := e.tabs[e.S.Roots[0]]
	t := make([]uint64, len(b0))
	for j, b := range b0 {
		if b >= 0x80 && b < 0xC0 {
			t[j] = 1
		}
	}
	return e.C.MkFn(v, t, 0)
}

// NewInt creates an integer variable in [lo,hi].
func (e *Env) NewInt(name string, lo, hi int) *IntVar {
	if v, ok := e.Ints[name]; ok {
		return v
	}
	n := hi - lo + 1
	v := &IntVar{Name: name, Lo: lo, Hi: hi}
	v.V = e.C.NewVar(name, &expr.Class{Name: "int", Size: n})
	t := make([]uint64, n)
	for i := range t {
		t[i] = uint64(int64(lo + i))
	}
	v.E = e.C.MkFn(v.V, t, 64)
	e.Ints[name] = v
	e.Order = append(e.Order, name)
	return v
}

func (e *Env) NewBool(name string) *IntVar {
	if v, ok := e.Ints[name]; ok {
		return v
	}
	v := &IntVar{Name: name, Hi: 1, Bool: true}
	v.V = e.C.NewVar(name, &expr.Class{Name: "bool", Size: 2})
	v.E = e.C.MkFn(v.V, []uint64{0, 1}, 0)
	e.Ints[name] = v
	e.Order = append(e.Order, name)
	return v
}

// window describes the bytes at a position: how many of them are consecutive
// symbolic input bytes.
func (e *Env) window(cells []sx.Value) (Cell, int, bool) {
	if len(cells) == 0 {
		return Cell{}, 0, false
	}
	x, ok := cells[0].(*expr.E)
	if !ok {
		return Cell{}, 0, false
	}
	c, ok := e.cells[x]
	if !ok {
		return Cell{}, 0, false
	}
	n := 1
	for n < len(cells) && n < 4 {
		y, ok := cells[n].(*expr.E)
		if !ok || c.I+n >= len(c.In.B) || c.In.B[c.I+n] != y {
			break
		}
		n++
	}
	return c, n, true
}

func constBytes(cells []sx.Value) ([]byte, bool) {
	var b []byte
	for _, c := range cells {
		x, ok := c.(*expr.E)
		if !ok || !x.IsConst() {
			break
		}
		b = append(b, byte(x.C))
		if len(b) == 4 {
			break
		}
	}
	return b, len(b) > 0
}

// fnAt gives the table function of a window root at the given cells, if the
// window there is made of symbolic input bytes. rem is the number of bytes
// available. valid roots (FromCP) only look at the bytes of a complete character.
func (e *Env) fnAt(dom Dom, cells []sx.Value, name string, root func(rem int) int32, conc func(b []byte) uint64, w uint8, approx bool) *expr.E {
	raw := func(n int) *expr.RuneFn {
		return &expr.RuneFn{Src: fmt.Sprint(name, "/", n), F: func(r uint64) uint64 { return r }}
	}
	if c, n, ok := e.window(cells); ok {
		if n < 4 && n < len(cells) {
			// a seam: the bytes after it are not the window's and must not matter
			rt := root(4)
			if !e.indep(rt, n, dom(c.In.Vars[c.I])) {
				panic(sx.Unsupported{Msg: "character across a seam"})
			}
			t := e.Tab(name+"/4", rt)
			if approx {
				return e.C.MkApprox(c.In.Vars[c.I], t, w, raw(4))
			}
			return e.C.MkFn(c.In.Vars[c.I], t, w)
		}
		t := e.Tab(fmt.Sprintf("%s/%d", name, min(n, 4)), root(n))
		if approx {
			return e.C.MkApprox(c.In.Vars[c.I], t, w, raw(min(n, 4)))
		}
		return e.C.MkFn(c.In.Vars[c.I], t, w)
	}
	if b, ok := constBytes(cells); ok {
		if len(b) < min(4, len(cells)) && !utf8.FullRune(b) {
			panic(sx.Unsupported{Msg: "character partly concrete"})
		}
		return e.C.K(conc(b), w)
	}
	panic(sx.Unsupported{Msg: "window over mixed bytes"})
}

type Dom = func(*expr.Var) []bool

const bot = 1 << 62

// indep reports whether the function root of a window depends on the first n
// bytes only, for every window whose element is allowed by dom.
func (e *Env) indep(root int32, n int, dom []bool) bool {
	k := [2]int32{root, int32(n)}
	bad, ok := e.bad[k]
	if !ok {
		m := e.S.MT
		i := m.Cut(root, n*8, bot)
		bad = make([]uint64, len(e.Wins))
		m.Apply2(e.D, i, func(x, y uint64) uint64 {
			if y == bot {
				bad[x] = 1
			}
			return 0
		})
		e.bad[k] = bad
	}
	for el, b := range bad {
		if b == 1 && (dom == nil || dom[el]) {
			return false
		}
	}
	return true
}

// Decode is unicode/utf8.DecodeRune on symbolic bytes.
func (e *Env) Decode(dom Dom, cells []sx.Value) (r, w *expr.E) {
	dec := func(b []byte) (rune, int) { return utf8.DecodeRune(b) }
	w0 := e.fnAt(dom, cells, "width", e.S.widthRoot, func(b []byte) uint64 {
		_, n := dec(b)
		return uint64(n)
	}, 64, false)
	// an invalid sequence has width 1
	w, _ = e.C.MapLeaves(w0, 64, func(x uint64) uint64 {
		if x == 0 {
			return 1
		}
		return x
	})
	r = e.fnAt(dom, cells, "rune", e.S.runeRoot, func(b []byte) uint64 { x, _ := dec(b); return uint64(uint32(x)) }, 32, true)
	return r, w
}

// Ref is the reference class and width (0: no complete valid character).
func (e *Env) Ref(dom Dom, kind int, cells []sx.Value) (c, w *expr.E) {
	val := func(b []byte) (uint64, uint64) {
		r, n := utf8.DecodeRune(b)
		if r == utf8.RuneError && n <= 1 {
			return RefNone, 0
		}
		return uint64(e.S.RefClass(kind, r)), uint64(n)
	}
	c = e.fnAt(dom, cells, fmt.Sprintf("ref%d", kind), func(rem int) int32 { return e.S.refRoot(kind, rem) }, func(b []byte) uint64 { x, _ := val(b); return x }, 64, false)
	w = e.fnAt(dom, cells, "width", e.S.widthRoot, func(b []byte) uint64 { _, n := val(b); return n }, 64, false)
	return
}

// ---- window-function summaries ----

type summary struct {
	ok    bool
	off   int // window offset in the argument
	roots []int32
	res   []types.Type
	pan   int32 // root: 1 if it panics
	canP  bool
	panS  string
	vals  []*uint64 // constant results
	konst bool      // all results are constant
}

func byteSeq(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		b, ok := u.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	return false
}

func scalarT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}

var xNames, bNames [24]string

func init() {
	for i := range xNames {
		xNames[i] = fmt.Sprintf("x%d", i)
		bNames[i] = fmt.Sprintf("b%d", i)
	}
}

// Summarise implements sx.Env: calls of loop-free functions of a few bytes are
// replaced by their exact function of the window.
func (e *Env) Summarise(m *sx.Machine, fn *ssa.Function, args []sx.Value, st *sx.State) ([]sx.Outcome, bool) {
	if !m.WindowFn(fn) {
		return nil, false
	}
	seq := -1
	key := fn.String()
	for i, p := range fn.Params {
		if byteSeq(p.Type()) {
			seq = i
			continue
		}
		x, ok := args[i].(*expr.E)
		if !ok || !x.IsConst() {
			return nil, false
		}
		key += fmt.Sprintf("/%d", x.C)
	}
	cells := m.SeqCells(st, args[seq])
	konst := true
	for i := 0; i < len(cells) && i < 8 && konst; i++ {
		x, ok := cells[i].(*expr.E)
		konst = ok && x.IsConst()
	}
	if konst {
		return nil, false // concrete: just run it
	}
	head := min(len(cells), 24)
	pat := make([]sx.Value, head, len(cells))
	var kb strings.Builder
	kb.WriteString(key)
	fmt.Fprintf(&kb, "/%d:", len(cells))
	var first *Cell
	fi := 0
	for i, c := range cells[:head] {
		x, ok := c.(*expr.E)
		if !ok {
			return nil, false
		}
		if x.IsConst() && first == nil {
			fmt.Fprintf(&kb, ",%d", x.C)
			pat[i] = x
			continue
		}
		cl, ok := e.cells[x]
		if !ok && !(x.IsConst() && first != nil) {
			kb.WriteByte('?')
			pat[i] = e.C.BVVar(xNames[i], 8) // must not matter
			continue
		}
		if first == nil {
			f := cl
			first = &f
			fi = i
		}
		if i-fi < 8 {
			kb.WriteByte('s')
			pat[i] = e.C.BVVar(bNames[i], 8)
		} else {
			kb.WriteByte('?')
			pat[i] = e.C.BVVar(xNames[i], 8)
		}
	}
	key = kb.String()
	if first == nil {
		return nil, false // concrete: just run it
	}
	s, ok := e.S.sums[key]
	if !ok {
		rest := e.C.BVVar(xNames[0], 8)
		for len(pat) < len(cells) {
			pat = append(pat, rest)
		}
		s = e.summarise(m, fn, args, seq, pat)
		e.S.sums[key] = s
	}
	if !s.ok {
		return nil, false
	}
	var v *expr.Var
	if !s.konst {
		cl, n, ok := e.window(cells[s.off:])
		if !ok {
			return nil, false
		}
		v = cl.In.Vars[cl.I]
		if n < 4 && s.off+n < len(cells) {
			dom := m.DomOf(st)(v)
			for i, r := range s.roots {
				if s.vals[i] == nil && !e.indep(r, n, dom) {
					return nil, false
				}
			}
			if s.canP && !e.indep(s.pan, n, dom) {
				return nil, false
			}
		}
	}
	m.Stats.Summary[fn.String()]++
	var vals []*expr.E
	for i, r := range s.roots {
		w, _, _ := sx.Scalar(s.res[i])
		if s.vals[i] != nil {
			vals = append(vals, e.C.K(*s.vals[i], w))
			continue
		}
		vals = append(vals, e.C.MkFn(v, e.Tab(fmt.Sprintf("%s#%d/%d", fn, i, len(cells)-s.off), r), w))
	}
	var outs []sx.Outcome
	if s.canP {
		pc := e.C.MkFn(v, e.Tab(fmt.Sprintf("%s#panic", fn), s.pan), 0)
		st2 := m.Fork(st)
		if m.Assume(st2, pc) {
			outs = append(outs, sx.Outcome{St: st2, Panic: s.panS})
		}
		if !m.Assume(st, e.C.Not(pc)) {
			return outs, true
		}
	}
	return append(outs, m.SplitInts(st, vals)...), true
}

func (e *Env) summarise(m *sx.Machine, fn *ssa.Function, args []sx.Value, seq int, pat []sx.Value) *summary {
	s := &summary{}
	outs, ok := m.RunDetached(fn, args, seq, pat)
	if !ok {
		return s
	}
	nres := fn.Signature.Results().Len()
	for i := 0; i < nres; i++ {
		s.res = append(s.res, fn.Signature.Results().At(i).Type())
	}
	res := make([]*expr.E, nres)
	pan := e.C.F
	for _, o := range outs {
		if o.Panic != "" {
			pan = e.C.Or(pan, o.PC)
			s.panS = o.Panic
			continue
		}
		for i := range res {
			x, ok := o.Vals[i].(*expr.E)
			if !ok {
				return s
			}
			if res[i] == nil {
				res[i] = x
			} else {
				res[i] = e.C.Ite(o.PC, x, res[i])
			}
		}
	}
	// support
	lo, hi := len(pat), -1
	bad := false
	seen := map[*expr.E]bool{}
	var walk func(x *expr.E)
	walk = func(x *expr.E) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.Op == expr.BV {
			var i int
			if n, _ := fmt.Sscanf(x.Name, "b%d", &i); n == 1 {
				lo, hi = min(lo, i), max(hi, i)
			} else {
				bad = true
			}
		}
		if x.Op == expr.Fn {
			bad = true
		}
		for _, a := range x.Args() {
			walk(a)
		}
	}
	for _, x := range res {
		if x == nil { // always panics
			return s
		}
		walk(x)
	}
	walk(pan)
	if bad || hi-lo > 3 {
		return s
	}
	if hi < 0 {
		lo = 0
		s.konst = true
	}
	s.off = lo
	byteOf := func(name string) int {
		var i int
		if n, _ := fmt.Sscanf(name, "b%d", &i); n == 1 {
			return i - lo
		}
		return -1
	}
	memo := map[*expr.E]int32{}
	for _, x := range res {
		if x.IsConst() {
			k := x.C
			s.vals = append(s.vals, &k)
			s.roots = append(s.roots, 0)
			continue
		}
		r, ok := e.S.MT.FromExpr(x, byteOf, memo)
		if !ok {
			return s
		}
		s.vals = append(s.vals, nil)
		s.roots = append(s.roots, r)
	}
	if pan != e.C.F {
		r, ok := e.S.MT.FromExpr(pan, byteOf, memo)
		if !ok {
			return s
		}
		s.pan = r
		s.canP = r != e.S.MT.Const(0)
	}
	s.ok = true
	return s
}

// PredNames are the modelled predicates of runes.
func PredNames() map[string]func(rune) bool { return predFuncs }

// Element is the domain element of the window at position i of a concrete text.
func (e *Env) Element(b []byte, i int) int {
	var w [4]byte
	copy(w[:], b[i:])
	return int(e.S.MT.Eval(e.D, w[:]))
}
