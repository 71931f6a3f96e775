package sx

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/expr"
)

// PC is a path condition: a persistent list of conjuncts.
type PC struct {
	up    *PC
	lit   *expr.E
	depth int
}

func depth(p *PC) int {
	if p == nil {
		return 0
	}
	return p.depth
}

type allocKey struct {
	site any
	ctx  int
	k    int
}

// State is one (merged) execution state.
type State struct {
	pc     *PC
	dom    []*expr.E // per variable: restriction implied by pc (nil: none)
	heap   map[ObjID]*Obj
	tok    *int
	allocs map[any]int
	outs   map[string]*expr.E
	locks  int    // mutexes held
	pan    string // the panic that the deferred function at hand is called for
}

func (s *State) fork() *State {
	n := &State{pc: s.pc, locks: s.locks, pan: s.pan, dom: append([]*expr.E(nil), s.dom...), tok: new(int)}
	s.tok = new(int)
	n.heap = make(map[ObjID]*Obj, len(s.heap)+4)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.allocs = make(map[any]int, len(s.allocs))
	for k, v := range s.allocs {
		n.allocs[k] = v
	}
	if s.outs != nil {
		n.outs = make(map[string]*expr.E, len(s.outs))
		for k, v := range s.outs {
			n.outs[k] = v
		}
	}
	return n
}

type ownedObj struct{}

func (m *Machine) obj(s *State, id ObjID) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	if o, ok := m.base[id]; ok {
		return o
	}
	panic("sx: dangling object")
}

// wobj returns an object this state may modify.
func (m *Machine) wobj(s *State, id ObjID) *Obj {
	o := m.obj(s, id)
	if o.tok == s.tok && s.tok != nil {
		return o
	}
	n := *o
	n.Cells = append([]Value(nil), o.Cells...)
	n.Keys = append([]Value(nil), o.Keys...)
	n.tables = nil
	n.tok = s.tok
	s.heap[id] = &n
	return &n
}

func (m *Machine) alloc(s *State, site any, cells []Value, hasPtr bool, name string) ObjID {
	k := s.allocs[site]
	s.allocs[site] = k + 1
	key := allocKey{site, m.ctxHash(), k}
	id, ok := m.allocIDs[key]
	if !ok {
		m.nextObj++
		id = ObjID(m.nextObj)
		m.allocIDs[key] = id
	}
	s.heap[id] = &Obj{Cells: cells, HasPtr: hasPtr, Name: name, tok: s.tok}
	return id
}

// ctxHash distinguishes allocation sites by nothing but the site: allocation
// counters live in the state, so equal histories give equal identities.
func (m *Machine) ctxHash() int { return 0 }

// eval3 decides a condition under the state's domains: 1 true, 0 false, -1 unknown.
func (m *Machine) eval3(s *State, e *expr.E) int {
	r := m.ev3(s, e, 8)
	if r >= 0 || e.Op == expr.Fn {
		return r
	}
	if e.Op == expr.And && s.pc != nil {
		a := m.eval3(s, e.A[0])
		if a == 0 {
			return 0
		}
		if b := m.eval3(s, e.A[1]); b == 0 || a == 1 {
			return b
		}
	}
	ne := m.C.Not(e)
	n := 0
	for p := s.pc; p != nil && n < 400; p = p.up {
		if p.lit == e {
			return 1
		}
		if p.lit == ne {
			return 0
		}
		n++
	}
	return -1
}

func (m *Machine) ev3(s *State, e *expr.E, d int) int {
	switch e.Op {
	case expr.Const:
		return int(e.C)
	case expr.Fn:
		if e.V.ID < len(s.dom) {
			if dm := s.dom[e.V.ID]; dm != nil {
				if m.C.And(e, dm) == m.C.F {
					return 0
				}
				if m.C.And(m.C.Not(e), dm) == m.C.F {
					return 1
				}
			}
		}
		return -1
	}
	if d == 0 {
		return -1
	}
	switch e.Op {
	case expr.Not:
		if r := m.ev3(s, e.A[0], d-1); r >= 0 {
			return 1 - r
		}
	case expr.And:
		a := m.ev3(s, e.A[0], d-1)
		if a == 0 {
			return 0
		}
		b := m.ev3(s, e.A[1], d-1)
		if b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case expr.Ite:
		if g := m.ev3(s, e.A[0], d-1); g >= 0 && e.W == 0 {
			if g == 1 {
				return m.ev3(s, e.A[1], d-1)
			}
			return m.ev3(s, e.A[2], d-1)
		}
	}
	return -1
}

// assume adds cond to the state's path condition; false if it cannot hold.
func (m *Machine) assume(s *State, cond *expr.E) bool {
	switch m.eval3(s, cond) {
	case 1:
		return true
	case 0:
		return false
	}
	return m.push(s, cond)
}

func (m *Machine) push(s *State, cond *expr.E) bool {
	if cond == m.C.T {
		return true
	}
	if cond == m.C.F {
		return false
	}
	if cond.Op == expr.And {
		return m.push(s, cond.A[0]) && m.push(s, cond.A[1])
	}
	if cond.Op == expr.Fn {
		id := cond.V.ID
		for len(s.dom) <= id {
			s.dom = append(s.dom, nil)
		}
		if s.dom[id] == nil {
			s.dom[id] = cond
		} else {
			n := m.C.And(s.dom[id], cond)
			if n == m.C.F {
				return false
			}
			if n == s.dom[id] {
				return true
			}
			s.dom[id] = n
		}
	}
	s.pc = &PC{s.pc, cond, depth(s.pc) + 1}
	return true
}

// restrict simplifies an expression under the state's domains (top levels only).
func (m *Machine) restrictIte(s *State, e *expr.E) *expr.E {
	for e.Op == expr.Ite {
		switch m.eval3(s, e.A[0]) {
		case 1:
			e = e.A[1]
		case 0:
			e = e.A[2]
		default:
			return e
		}
	}
	return e
}

func (m *Machine) pcExpr(p *PC, upto *PC) *expr.E {
	e := m.C.T
	for ; p != upto; p = p.up {
		e = m.C.And(p.lit, e)
	}
	return e
}

func lca(a, b *PC) *PC {
	for depth(a) > depth(b) {
		a = a.up
	}
	for depth(b) > depth(a) {
		b = b.up
	}
	for a != b {
		a, b = a.up, b.up
	}
	return a
}

// PCExpr is the whole path condition as one expression.
func (m *Machine) PCExpr(s *State) *expr.E { return m.pcExpr(s.pc, nil) }

// ---- merging ----

type merger struct {
	m       *Machine
	a, b    *State
	g       *expr.E // guard selecting a
	keyInts bool
	ok      bool
	dry     bool
}

// val merges two values; in dry mode only decides whether it is possible.
func (g *merger) val(x, y Value, keyInt bool) Value {
	if !g.ok {
		return nil
	}
	switch xv := x.(type) {
	case nil:
		if y == nil {
			return nil
		}
	case *expr.E:
		yv, ok := y.(*expr.E)
		if ok && xv == yv {
			return xv
		}
		if ok && xv.W == yv.W {
			if xv.W == 64 && keyInt && (xv.IsConst() || yv.IsConst()) {
				break
			}
			if g.dry {
				return nil
			}
			return g.m.C.Ite(g.g, xv, yv)
		}
	case Ptr:
		if yv, ok := y.(Ptr); ok && xv == yv {
			return x
		}
	case Slice:
		if yv, ok := y.(Slice); ok && xv == yv {
			return x
		}
	case Str:
		if yv, ok := y.(Str); ok {
			if xv == yv || xv.Len == 0 && yv.Len == 0 {
				return x
			}
		}
	case *Iface:
		if yv, ok := y.(*Iface); ok {
			if xv == yv {
				return x
			}
			if xv != nil && yv != nil && types.Identical(xv.T, yv.T) {
				v := g.val(xv.V, yv.V, keyInt)
				if g.ok {
					return &Iface{xv.T, v}
				}
			}
		}
	case *Closure:
		if yv, ok := y.(*Closure); ok {
			if xv == yv {
				return x
			}
			if xv != nil && yv != nil && xv.Fn == yv.Fn && xv.Bi == yv.Bi && len(xv.Binds) == len(yv.Binds) {
				n := &Closure{Fn: xv.Fn, Bi: xv.Bi}
				for i := range xv.Binds {
					n.Binds = append(n.Binds, g.val(xv.Binds[i], yv.Binds[i], keyInt))
				}
				if g.ok {
					return n
				}
			}
		}
	case Agg:
		if yv, ok := y.(Agg); ok && len(xv.C) == len(yv.C) {
			if g.dry {
				for i := range xv.C {
					g.val(xv.C[i], yv.C[i], keyInt)
				}
				return nil
			}
			n := Agg{make([]Value, len(xv.C))}
			for i := range xv.C {
				n.C[i] = g.val(xv.C[i], yv.C[i], keyInt)
			}
			return n
		}
	case Tuple:
		if yv, ok := y.(Tuple); ok && len(xv) == len(yv) {
			n := make(Tuple, len(xv))
			for i := range xv {
				n[i] = g.val(xv[i], yv[i], keyInt)
			}
			return n
		}
	case MapRef:
		if yv, ok := y.(MapRef); ok && xv == yv {
			return x
		}
	case RangeIter:
		if yv, ok := y.(RangeIter); ok && xv == yv {
			return x
		}
	case floatVal:
		if yv, ok := y.(floatVal); ok && xv == yv {
			return x
		}
	}
	g.ok = false
	return nil
}

func (m *Machine) reach(s *State, roots []Value, seen map[ObjID]bool) {
	var rec func(v Value)
	var vis func(id ObjID)
	vis = func(id ObjID) {
		if id == 0 || seen[id] {
			return
		}
		if _, ok := s.heap[id]; !ok {
			// untouched base object: it can only reach base objects, but those
			// may have been overwritten in this state
			seen[id] = true
			if o := m.base[id]; o != nil && o.HasPtr {
				for _, c := range o.Cells {
					rec(c)
				}
			}
			return
		}
		seen[id] = true
		o := s.heap[id]
		if o.HasPtr {
			for _, c := range o.Cells {
				rec(c)
			}
			for _, c := range o.Keys {
				rec(c)
			}
		}
	}
	rec = func(v Value) {
		switch x := v.(type) {
		case Ptr:
			vis(x.O)
		case Slice:
			vis(x.O)
		case Str:
			vis(x.O)
		case MapRef:
			vis(x.O)
		case RangeIter:
			vis(x.S.O)
		case SymPtr:
			vis(x.O)
		case *Iface:
			if x != nil {
				rec(x.V)
			}
		case *Closure:
			if x != nil {
				for _, b := range x.Binds {
					rec(b)
				}
			}
		case Agg:
			for _, c := range x.C {
				rec(c)
			}
		case Tuple:
			for _, c := range x {
				rec(c)
			}
		}
	}
	for _, r := range roots {
		rec(r)
	}
}

type mergeIn struct {
	regsA, regsB []Value
	live         []int
	intKey       func(reg int) bool // whether the register's integers must agree
	heapInts     bool               // whether heap integers must agree
}

// merge tries to merge state b into a. It returns the merged state and registers.
func (m *Machine) merge(a, b *State, in mergeIn) (*State, []Value, bool) {
	g := &merger{m: m, a: a, b: b, ok: true, dry: true}
	for _, r := range in.live {
		if in.regsA[r] == nil && in.regsB[r] == nil {
			continue
		}
		g.val(in.regsA[r], in.regsB[r], in.intKey(r))
		if !g.ok {
			return nil, nil, false
		}
	}
	if a.locks != b.locks || a.pan != b.pan {
		return nil, nil, false
	}
	// reachable objects
	roots := make([]Value, 0, 64)
	for _, r := range in.live {
		roots = append(roots, in.regsA[r], in.regsB[r])
	}
	for _, rs := range m.rootStack {
		roots = append(roots, rs...)
	}
	for id, o := range a.heap {
		if o.Base { // package variables written to
			roots = append(roots, Ptr{id, 0})
		}
	}
	for id, o := range b.heap {
		if o.Base {
			roots = append(roots, Ptr{id, 0})
		}
	}
	seen := map[ObjID]bool{}
	m.reach(a, roots, seen)
	seenB := map[ObjID]bool{}
	m.reach(b, roots, seenB)
	for id := range seenB {
		seen[id] = true
	}
	type pair struct {
		id     ObjID
		oa, ob *Obj
	}
	var diff []pair
	for id := range seen {
		oa, ob := a.heap[id], b.heap[id]
		if oa == ob {
			continue
		}
		if oa == nil {
			if o := m.base[id]; o != nil {
				oa = o
			}
		}
		if ob == nil {
			if o := m.base[id]; o != nil {
				ob = o
			}
		}
		if oa == nil || ob == nil {
			continue // exists on one side only
		}
		if len(oa.Cells) != len(ob.Cells) || len(oa.Keys) != len(ob.Keys) || oa.Frozen != ob.Frozen {
			return nil, nil, false
		}
		for i := range oa.Cells {
			if !same(oa.Cells[i], ob.Cells[i]) {
				g.val(oa.Cells[i], ob.Cells[i], in.heapInts)
				if !g.ok {
					return nil, nil, false
				}
			}
		}
		for i := range oa.Keys {
			if !same(oa.Keys[i], ob.Keys[i]) {
				return nil, nil, false
			}
		}
		diff = append(diff, pair{id, oa, ob})
	}
	// do it
	l := lca(a.pc, b.pc)
	ga := m.pcExpr(a.pc, l)
	gb := m.pcExpr(b.pc, l)
	g.g = ga
	g.dry = false
	n := &State{tok: new(int), locks: a.locks, pan: a.pan}
	n.pc = l
	or := m.C.Or(ga, gb)
	nd := max(len(a.dom), len(b.dom))
	n.dom = make([]*expr.E, nd)
	for i := 0; i < nd; i++ {
		if i < len(a.dom) && i < len(b.dom) && a.dom[i] != nil && b.dom[i] != nil {
			d := m.C.Or(a.dom[i], b.dom[i])
			if d != m.C.T {
				n.dom[i] = d
			}
		}
	}
	if or != m.C.T {
		for _, lit := range m.conjuncts(or) {
			n.pc = &PC{n.pc, lit, depth(n.pc) + 1}
		}
	}
	n.heap = make(map[ObjID]*Obj, len(a.heap))
	for id, o := range a.heap {
		n.heap[id] = o
	}
	for id, o := range b.heap {
		if _, ok := n.heap[id]; !ok {
			n.heap[id] = o
		}
	}
	for _, p := range diff {
		o := *p.oa
		o.tok = n.tok
		o.tables = nil
		o.Cells = make([]Value, len(p.oa.Cells))
		for i := range o.Cells {
			if same(p.oa.Cells[i], p.ob.Cells[i]) {
				o.Cells[i] = p.oa.Cells[i]
			} else {
				o.Cells[i] = g.val(p.oa.Cells[i], p.ob.Cells[i], in.heapInts)
			}
		}
		n.heap[p.id] = &o
	}
	n.allocs = make(map[any]int, len(a.allocs))
	for k, v := range a.allocs {
		n.allocs[k] = v
	}
	for k, v := range b.allocs {
		if v > n.allocs[k] {
			n.allocs[k] = v
		}
	}
	if a.outs != nil || b.outs != nil {
		n.outs = map[string]*expr.E{}
		for k, v := range a.outs {
			n.outs[k] = v
		}
		for k, v := range b.outs {
			if x, ok := n.outs[k]; ok {
				n.outs[k] = m.C.Ite(ga, x, v)
			} else {
				n.outs[k] = v
			}
		}
	}
	regs := make([]Value, len(in.regsA))
	for _, r := range in.live {
		regs[r] = g.val(in.regsA[r], in.regsB[r], in.intKey(r))
	}
	m.Stats.Merges++
	return n, regs, true
}

func (m *Machine) conjuncts(e *expr.E) []*expr.E {
	if e.Op == expr.And {
		return append(m.conjuncts(e.A[0]), m.conjuncts(e.A[1])...)
	}
	return []*expr.E{e}
}

func same(x, y Value) bool {
	switch xv := x.(type) {
	case *expr.E:
		yv, ok := y.(*expr.E)
		return ok && xv == yv
	case nil:
		return y == nil
	case Ptr:
		yv, ok := y.(Ptr)
		return ok && xv == yv
	case Slice:
		yv, ok := y.(Slice)
		return ok && xv == yv
	case Str:
		yv, ok := y.(Str)
		return ok && xv == yv
	case *Iface:
		yv, ok := y.(*Iface)
		return ok && xv == yv
	case *Closure:
		yv, ok := y.(*Closure)
		return ok && xv == yv
	case MapRef:
		yv, ok := y.(MapRef)
		return ok && xv == yv
	}
	return false
}

var _ = ssa.NaiveForm
