package sx

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/expr"
)

func Scalar(t types.Type) (uint8, bool, bool) { return scalar(t) }

func (m *Machine) Fork(st *State) *State                   { return st.fork() }
func (m *Machine) Assume(st *State, c *expr.E) bool        { return m.assume(st, c) }
func (m *Machine) Eval3(st *State, c *expr.E) int          { return m.eval3(st, c) }
func (m *Machine) ObjCells(st *State, id ObjID) []Value    { return m.obj(st, id).Cells }
func (m *Machine) DomOf(st *State) func(*expr.Var) []bool  { return m.domOf(st) }
func (m *Machine) Str(s string) Str                        { return m.str(s) }
func (m *Machine) ConcStr(st *State, s Str) (string, bool) { return m.concreteStr(st, s) }

// NewBytes allocates a byte slice with the given cells.
func (m *Machine) NewBytes(st *State, site any, cells []Value) Slice {
	id := m.alloc(st, site, cells, false, "bytes")
	return Slice{id, 0, len(cells), len(cells), 1}
}

// SeqCells returns the byte cells of a string or byte slice.
func (m *Machine) SeqCells(st *State, v Value) []Value {
	switch s := v.(type) {
	case Str:
		if s.Len == 0 {
			return nil
		}
		return m.obj(st, s.O).Cells[s.Off : s.Off+s.Len]
	case Slice:
		if s.Len == 0 {
			return nil
		}
		return m.obj(st, s.O).Cells[s.Off : s.Off+s.Len]
	}
	unsup("bytes of %T", v)
	return nil
}

// ElemCells are the cells of a slice of structs.
func (m *Machine) ElemCells(st *State, v Value) []Value {
	s, ok := v.(Slice)
	if !ok || s.Len == 0 {
		return nil
	}
	return m.obj(st, s.O).Cells[s.Off : s.Off+s.Len*s.Esz]
}

// Cells are n cells that a pointer points to.
func (m *Machine) Cells(st *State, v Value, n int) []Value {
	p, ok := v.(Ptr)
	if !ok {
		unsup("cells of %T", v)
	}
	return m.obj(st, p.O).Cells[p.Off:][:n]
}

// SetFrozen marks the bytes of a value as caller-owned.
func (m *Machine) SetFrozen(st *State, v Value) {
	if s, ok := v.(Slice); ok && s.O != 0 {
		m.wobj(st, s.O).Frozen = true
	}
	if p, ok := v.(Ptr); ok && p.O != 0 {
		m.wobj(st, p.O).Frozen = true
	}
}

// WindowFn reports whether fn may be summarised as a function of a few bytes:
// one string or byte-slice parameter, other parameters and results scalar, no
// loops over characters, no writes, only calls of functions without such a parameter, and it
// reads at least one table.
func (m *Machine) WindowFn(fn *ssa.Function) bool {
	if r, ok := m.winOK[fn]; ok {
		return r == 1
	}
	m.winOK[fn] = 0
	seqs := 0
	for _, p := range fn.Params {
		if isSeq(p.Type()) {
			seqs++
		} else if _, _, ok := scalar(p.Type()); !ok {
			return false
		}
	}
	if seqs != 1 || len(fn.FreeVars) > 0 || fn.Signature.Results().Len() == 0 {
		return false
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if _, _, ok := scalar(fn.Signature.Results().At(i).Type()); !ok {
			return false
		}
	}
	tables := 0
	if !m.pureLeaf(fn, &tables, 0) || tables == 0 {
		return false
	}
	m.winOK[fn] = 1
	return true
}

func (m *Machine) pureLeaf(fn *ssa.Function, tables *int, d int) bool {
	if d > 4 || fn.Blocks == nil {
		return false
	}
	fi := m.info(fn)
	loops, seqCalls, own := false, false, *tables
	for _, b := range fn.Blocks {
		if fi.loops[b.Index] != nil {
			loops = true
		}
		for _, i := range b.Instrs {
			switch v := i.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.MakeMap, *ssa.MakeClosure, *ssa.MakeSlice, *ssa.Select, *ssa.Panic, *ssa.Range:
				return false
			case *ssa.Alloc:
				return false
			case *ssa.Call:
				if bi, ok := v.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "len" || bi.Name() == "min" || bi.Name() == "max" {
						continue
					}
					return false
				}
				f := v.Call.StaticCallee()
				if f == nil || v.Call.IsInvoke() {
					return false
				}
				if _, ok := m.Intrins[FullName(f)]; ok {
					return false
				}
				for _, p := range f.Params {
					if isSeq(p.Type()) {
						seqCalls = true
					}
				}
				n := *tables
				if !m.pureLeaf(f, tables, d+1) {
					return false
				}
				own += *tables - n
			}
			var ops [12]*ssa.Value
			for _, o := range i.Operands(ops[:0]) {
				if *o == nil {
					continue
				}
				if g, ok := (*o).(*ssa.Global); ok {
					switch g.Type().Underlying().(*types.Pointer).Elem().Underlying().(type) {
					case *types.Array, *types.Slice:
						*tables++
					case *types.Basic:
						*tables++
					}
				}
			}
		}
	}
	// a loop over the bytes of one character, as opposed to one over characters
	return !loops || !seqCalls && *tables > own
}

// Detached is one outcome of a detached run.
type Detached struct {
	PC    *expr.E
	Vals  []Value
	Panic string
}

// RunDetached executes fn on a fresh heap with the given byte cells for its
// sequence argument.
func (m *Machine) RunDetached(fn *ssa.Function, args []Value, seq int, cells []Value) (res []Detached, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(Unsupported); is {
				res, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	st := m.NewState()
	m.nextObj++
	id := ObjID(m.nextObj)
	st.heap[id] = &Obj{Cells: cells, Name: "window"}
	a := append([]Value(nil), args...)
	switch args[seq].(type) {
	case Str:
		a[seq] = Str{id, 0, len(cells)}
	default:
		a[seq] = Slice{id, 0, len(cells), len(cells), 1}
	}
	saveIn, saveRoots, saveStack, saveVios := m.Input, m.rootStack, m.stack, len(m.Vios)
	m.Input, m.rootStack = nil, nil
	depth := len(saveStack)
	defer func() {
		m.Input, m.rootStack, m.stack = saveIn, saveRoots, m.stack[:depth]
	}()
	outs := m.Call(fn, a, st)
	if len(m.Vios) != saveVios {
		return nil, false
	}
	for _, o := range outs {
		d := Detached{PC: m.PCExpr(o.St), Panic: o.Panic}
		if t, isT := o.Val.(Tuple); isT {
			d.Vals = t
		} else {
			d.Vals = []Value{o.Val}
		}
		res = append(res, d)
	}
	return res, true
}

// SplitInts returns outcomes in which every 64-bit value is concrete.
func (m *Machine) SplitInts(st *State, vals []*expr.E) []Outcome {
	for i, v := range vals {
		if v.W == 64 && !v.IsConst() {
			var outs []Outcome
			may, ok := m.C.May(v, m.domOf(st), 64)
			if !ok || len(may) > 16 {
				break
			}
			for k, x := range may {
				s := st
				if k < len(may)-1 {
					s = st.fork()
				}
				kv := m.C.K(x, 64)
				if !m.assume(s, m.C.Bin(expr.Eq, v, kv)) {
					continue
				}
				nv := append([]*expr.E(nil), vals...)
				nv[i] = kv
				outs = append(outs, m.SplitInts(s, nv)...)
			}
			return outs
		}
	}
	if len(vals) == 1 {
		return []Outcome{{St: st, Val: vals[0]}}
	}
	t := make(Tuple, len(vals))
	for i, v := range vals {
		t[i] = v
	}
	return []Outcome{{St: st, Val: t}}
}

func (m *Machine) decode(st *State, o ObjID, off, n int) (r, w *expr.E) {
	return m.Input.Decode(m.domOf(st), m.obj(st, o).Cells[off:off+n])
}

// SetOut records an observable result of the path.
func (s *State) SetOut(name string, e *expr.E) {
	n := make(map[string]*expr.E, len(s.outs)+1)
	for k, v := range s.outs {
		n[k] = v
	}
	n[name] = e
	s.outs = n
}

func (s *State) Outs() map[string]*expr.E { return s.outs }

// CallValue calls a function value.
func (m *Machine) CallClosure(fr *Frame, st *State, f Value, args []Value, call ssa.CallInstruction) []Outcome {
	cl, ok := f.(*Closure)
	if !ok || cl == nil {
		return []Outcome{{St: st, Panic: "nil function call"}}
	}
	if len(cl.Binds) > 0 {
		args = append(append([]Value(nil), args...), cl.Binds...)
	}
	return m.callFn(fr, st, cl.Fn, args, call)
}

// AddVio records a potential violation on the path of st.
func (m *Machine) AddVio(st *State, cond *expr.E, kind, msg string) {
	c := m.C.And(m.PCExpr(st), cond)
	if c != m.C.F {
		m.Vios = append(m.Vios, Vio{c, kind, msg})
	}
}

// Clone gives a machine with the same initialised packages over a fork of the
// expression context.
func (m *Machine) Clone() *Machine {
	n := NewMachine(m.C.Fork(), m.Prog)
	n.RepoPath, n.HarnPath, n.nextObj = m.RepoPath, m.HarnPath, m.nextObj
	n.Helpers = m.Helpers
	n.fns = m.fns
	n.names = m.names
	for k, v := range m.base {
		n.base[k] = v
	}
	for k, v := range m.globals {
		n.globals[k] = v
	}
	for k, v := range m.consts {
		n.consts[k] = v
	}
	for k, v := range m.strObjs {
		n.strObjs[k] = v
	}
	return n
}

// WithRoots keeps the objects that v refers to alive while f runs.
func (m *Machine) WithRoots(v []Value, f func()) {
	m.rootStack = append(m.rootStack, v)
	f()
	m.rootStack = m.rootStack[:len(m.rootStack)-1]
}

// Cell is the cell p points at, for writing.
func (m *Machine) Cell(st *State, p Ptr) *Value { return &m.wobj(st, p.O).Cells[p.Off] }

func (m *Machine) Read(st *State, p Ptr) Value { return m.obj(st, p.O).Cells[p.Off] }

// Field is the value of a one-cell field of the receiver of method f.
func (m *Machine) Field(st *State, p Ptr, f *ssa.Function, name string) Value {
	s := f.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return m.obj(st, p.O).Cells[p.Off+fieldOff(s, i)]
		}
	}
	unsup("field %s", name)
	return nil
}

// Equal is the condition that two comparable values are equal.
func (m *Machine) Equal(st *State, a, b Value) *expr.E { return m.equal(st, a, b) }

// Hold counts the mutexes a state holds.
func (s *State) Hold(n int) { s.locks = max(0, s.locks+n) }

// Cases runs f for a condition being true and for it being false.
func (m *Machine) Cases(st *State, cond *expr.E, f func(*State, bool) []Outcome) []Outcome {
	switch m.eval3(st, cond) {
	case 1:
		return f(st, true)
	case 0:
		return f(st, false)
	}
	var outs []Outcome
	s := st.fork()
	if m.assume(s, cond) {
		outs = append(outs, f(s, true)...)
	}
	if m.assume(st, m.C.Not(cond)) {
		outs = append(outs, f(st, false)...)
	}
	return outs
}

// Alone runs f with the package variables as initialised, and undoes what it
// does to them.
func (m *Machine) Alone(st *State, f func() []Outcome) []Outcome {
	saved := map[ObjID]*Obj{}
	for id, o := range st.heap {
		if o.Base {
			saved[id] = o
			delete(st.heap, id)
		}
	}
	fz := m.FreezeGl
	m.FreezeGl = false
	outs := f()
	m.FreezeGl = fz
	for i := range outs {
		s := outs[i].St
		for id, o := range s.heap {
			if o.Base {
				delete(s.heap, id)
			}
		}
		for id, o := range saved {
			s.heap[id] = o
		}
		// what is saved is no longer this state's own
		s.tok = new(int)
	}
	return outs
}

func (m *Machine) NewMap(st *State, site any) MapRef {
	return MapRef{m.alloc(st, site, nil, true, "map")}
}

func (m *Machine) MapKeys(st *State, r MapRef) []Value { return m.obj(st, r.O).Keys }

func (m *Machine) MapAdd(st *State, r MapRef, k, v Value) {
	o := m.wobj(st, r.O)
	o.Keys = append(o.Keys, k)
	o.Cells = append(o.Cells, v)
}
