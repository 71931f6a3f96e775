package sx

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/expr"
)

type panReq struct {
	cond *expr.E
	msg  string
}

// konst gives the concrete value of an integer operand, or a fork request.
func (x *exec) konst(fr *Frame, v ssa.Value) (int, *forkReq) {
	e := x.m.operand(fr.fi, fr.regs, v).(*expr.E)
	if e.IsConst() {
		if _, signed, _ := scalar(v.Type()); signed {
			return int(e.SInt()), nil
		}
		return int(e.C), nil
	}
	return 0, &forkReq{v, e}
}

func (x *exec) always(msg string) *panReq { return &panReq{x.m.C.T, msg} }

// instr executes one non-control instruction. checked: the panic condition it
// reported has been excluded.
func (x *exec) instr(fr *Frame, st *State, in ssa.Instruction, checked bool) (*forkReq, *panReq) {
	m := x.m
	C := m.C
	op := func(v ssa.Value) Value { return m.operand(fr.fi, fr.regs, v) }
	set := func(v ssa.Value, val Value) { fr.regs[fr.fi.reg[v]] = val }
	switch v := in.(type) {
	case *ssa.Alloc:
		t := v.Type().Underlying().(*types.Pointer).Elem()
		id := m.alloc(st, ssa.Instruction(v), m.zeroCells(t, nil), hasPtr(t), v.Comment)
		set(v, Ptr{id, 0})
	case *ssa.BinOp:
		r, pan := m.binop(st, v.Op, op(v.X), op(v.Y), v.X.Type(), v.Y.Type())
		if pan != nil && !checked {
			if m.eval3(st, pan.cond) != 0 {
				return nil, pan
			}
		}
		set(v, r)
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			r, pan, req := x.load(fr, st, v, op(v.X), v.Type(), checked)
			if pan != nil || req != nil {
				return req, pan
			}
			set(v, r)
		case token.NOT:
			set(v, C.Not(op(v.X).(*expr.E)))
		case token.SUB:
			e := op(v.X).(*expr.E)
			set(v, C.Bin(expr.Sub, C.K(0, e.W), e))
		case token.XOR:
			e := op(v.X).(*expr.E)
			set(v, C.Bin(expr.BXor, e, C.K(expr.Mask(e.W), e.W)))
		default:
			unsup("unary %v", v.Op)
		}
	case *ssa.Store:
		return x.store(fr, st, op(v.Addr), op(v.Val), v.Addr, v.Val.Type(), checked)
	case *ssa.FieldAddr:
		s := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		switch p := op(v.X).(type) {
		case Ptr:
			set(v, Ptr{p.O, p.Off + fieldOff(s, v.Field)})
		case SymPtr:
			p.Sub += fieldOff(s, v.Field)
			set(v, p)
		case nil:
			return nil, x.always("nil pointer dereference")
		}
	case *ssa.Field:
		s := v.X.Type().Underlying().(*types.Struct)
		o := fieldOff(s, v.Field)
		set(v, m.fromCells(v.Type(), op(v.X).(Agg).C[o:o+sizeOf(v.Type())]))
	case *ssa.IndexAddr:
		var o ObjID
		var base, n, es int
		switch u := v.X.Type().Underlying().(type) {
		case *types.Slice:
			s := op(v.X).(Slice)
			o, base, n, es = s.O, s.Off, s.Len, sizeOf(u.Elem())
		case *types.Pointer:
			a := u.Elem().Underlying().(*types.Array)
			n, es = int(a.Len()), sizeOf(a.Elem())
			switch p := op(v.X).(type) {
			case Ptr:
				o, base = p.O, p.Off
			case nil:
				return nil, x.always("nil pointer dereference")
			default:
				unsup("IndexAddr of %T", p)
			}
		default:
			unsup("IndexAddr %v", u)
		}
		idx := op(v.Index).(*expr.E)
		if pan := m.bounds(st, idx, v.Index.Type(), n, checked); pan != nil {
			return nil, pan
		}
		if idx.IsConst() {
			set(v, Ptr{o, base + int(idx.C)*es})
			return nil, nil
		}
		set(v, SymPtr{O: o, Base: base, Stride: es, N: n, Idx: m.widen(idx, v.Index.Type())})
	case *ssa.Index:
		return x.index(fr, st, v, op(v.X), v.X.Type(), v.Index, checked)
	case *ssa.Lookup:
		if _, ok := v.X.Type().Underlying().(*types.Map); ok {
			return x.mapLookup(fr, st, v)
		}
		return x.index(fr, st, v, op(v.X), v.X.Type(), v.Index, checked)
	case *ssa.Slice:
		return x.slice(fr, st, v)
	case *ssa.Extract:
		set(v, op(v.Tuple).(Tuple)[v.Index])
	case *ssa.Convert:
		set(v, m.convert(st, op(v.X), v.X.Type(), v.Type(), v))
	case *ssa.MultiConvert:
		set(v, m.convert(st, op(v.X), v.X.Type(), v.Type(), v))
	case *ssa.ChangeType:
		set(v, op(v.X))
	case *ssa.ChangeInterface:
		set(v, op(v.X))
	case *ssa.MakeInterface:
		set(v, &Iface{v.X.Type(), op(v.X)})
	case *ssa.MakeClosure:
		cl := &Closure{Fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			cl.Binds = append(cl.Binds, op(b))
		}
		set(v, cl)
	case *ssa.MakeSlice:
		n, req := x.konst(fr, v.Len)
		if req != nil {
			return req, nil
		}
		c, req := x.konst(fr, v.Cap)
		if req != nil {
			return req, nil
		}
		if n < 0 || c < n {
			return nil, x.always("makeslice: len out of range")
		}
		if c > 1<<20 {
			unsup("makeslice of %d", c)
		}
		et := v.Type().Underlying().(*types.Slice).Elem()
		set(v, m.newSlice(st, v, et, n, c))
	case *ssa.TypeAssert:
		return nil, x.typeAssert(fr, st, v)
	case *ssa.MakeMap:
		id := m.alloc(st, ssa.Instruction(v), nil, true, "map")
		set(v, MapRef{id})
	case *ssa.MapUpdate:
		return x.mapUpdate(fr, st, v)
	case *ssa.Range:
		if s, ok := op(v.X).(Str); ok {
			id := m.alloc(st, ssa.Instruction(v), []Value{C.K(0, 64)}, false, "range")
			set(v, Tuple{s, Ptr{id, 0}})
			return nil, nil
		}
		// insertion order; Go's order is arbitrary
		id := m.alloc(st, ssa.Instruction(v), []Value{C.K(0, 64)}, false, "range")
		set(v, Tuple{op(v.X), Ptr{id, 0}})
	case *ssa.Next:
		return x.next(fr, st, v)
	case *ssa.SliceToArrayPointer:
		s := op(v.X).(Slice)
		n := int(v.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.Len < n {
			return nil, x.always("slice to array pointer")
		}
		set(v, Ptr{s.O, s.Off})
	default:
		unsup("instruction %T in %s", in, fr.fi.fn)
	}
	return nil, nil
}

func (m *Machine) newSlice(st *State, site any, et types.Type, n, c int) Slice {
	es := sizeOf(et)
	z := m.zeroCells(et, nil)
	cells := make([]Value, 0, c*es)
	for i := 0; i < c; i++ {
		cells = append(cells, z...)
	}
	id := m.alloc(st, site, cells, hasPtr(et), "make")
	return Slice{id, 0, n, c, es}
}

func (m *Machine) widen(e *expr.E, t types.Type) *expr.E {
	_, signed, _ := scalar(t)
	if e.W == 64 {
		return e
	}
	if signed {
		return m.C.Sext(e, 64)
	}
	return m.C.Zext(e, 64)
}

// bounds gives the panic request for idx outside [0,n).
func (m *Machine) bounds(st *State, idx *expr.E, t types.Type, n int, checked bool) *panReq {
	if idx.IsConst() {
		_, signed, _ := scalar(t)
		v := int64(idx.C)
		if signed {
			v = idx.SInt()
		}
		if v < 0 || v >= int64(n) {
			return &panReq{m.C.T, "index out of range"}
		}
		return nil
	}
	if checked {
		return nil
	}
	w := m.widen(idx, t)
	out := m.C.Not(m.C.Bin(expr.Ult, w, m.C.K(uint64(n), 64)))
	if m.eval3(st, out) == 0 {
		return nil
	}
	return &panReq{out, "index out of range"}
}

func (m *Machine) fromCells(t types.Type, c []Value) Value {
	if isAgg(t) {
		return Agg{append([]Value(nil), c...)}
	}
	return c[0]
}

func (x *exec) load(fr *Frame, st *State, in ssa.Instruction, p Value, t types.Type, checked bool) (Value, *panReq, *forkReq) {
	m := x.m
	switch a := p.(type) {
	case nil:
		return nil, x.always("nil pointer dereference"), nil
	case Ptr:
		o := m.obj(st, a.O)
		n := sizeOf(t)
		if a.Off+n > len(o.Cells) {
			unsup("load beyond object in %s", fr.fi.fn)
		}
		return m.fromCells(t, o.Cells[a.Off:a.Off+n]), nil, nil
	case SymPtr:
		o := m.obj(st, a.O)
		n := 1
		if isAgg(t) {
			n = sizeOf(t)
		}
		c, req := m.readCells(st, o, a.Base+a.Sub, n, a.Stride, a.N, a.Idx)
		if req != nil {
			return nil, nil, req
		}
		return m.fromCells(t, c), nil, nil
	}
	unsup("load through %T", p)
	return nil, nil, nil
}

// readCells reads w cells at Base+Stride*idx. If they are not all scalars, the
// state is forked until they are the same for every value the index may take.
func (m *Machine) readCells(st *State, o *Obj, base, w, stride, n int, idx *expr.E) ([]Value, *forkReq) {
	scalar := true
	for i := 0; i < n && scalar; i++ {
		for k := 0; k < w && scalar; k++ {
			_, scalar = o.Cells[base+i*stride+k].(*expr.E)
		}
	}
	if scalar {
		r := make([]Value, w)
		for k := range r {
			r[k] = m.readArr(st, o, base+k, stride, n, idx)
		}
		return r, nil
	}
	vals, ok := m.C.May(idx, m.domOf(st), 300)
	if !ok {
		vals = nil
		for i := 0; i < n; i++ {
			vals = append(vals, uint64(i))
		}
	}
	var r []Value
	one, rest := m.C.F, false
	for _, v := range vals {
		if v >= uint64(n) {
			continue
		}
		eq := m.C.Bin(expr.Eq, idx, m.C.K(v, 64))
		if m.eval3(st, eq) == 0 {
			continue
		}
		c := o.Cells[base+int(v)*stride:][:w]
		if r == nil {
			r = append(r, c...)
		}
		is := true
		for k := range c {
			is = is && sameVal(r[k], c[k])
		}
		if is {
			one = m.C.Or(one, eq)
		} else {
			rest = true
		}
	}
	if r == nil {
		unsup("symbolic index with no value")
	}
	if rest && m.eval3(st, one) != 1 {
		return nil, &forkReq{nil, one}
	}
	return r, nil
}

// sameVal tells that two values are the same; it may miss some that are.
func sameVal(x, y Value) bool {
	switch a := x.(type) {
	case *Closure:
		b, ok := y.(*Closure)
		if !ok || a == nil || b == nil {
			return ok && a == b
		}
		if a.Fn != b.Fn || a.Bi != b.Bi || len(a.Binds) != len(b.Binds) {
			return false
		}
		for i := range a.Binds {
			if !sameVal(a.Binds[i], b.Binds[i]) {
				return false
			}
		}
		return true
	case *Iface:
		b, ok := y.(*Iface)
		if !ok || a == nil || b == nil {
			return ok && a == b
		}
		return types.Identical(a.T, b.T) && sameVal(a.V, b.V)
	case Agg:
		b, ok := y.(Agg)
		return ok && sameVals(a.C, b.C)
	case Tuple:
		b, ok := y.(Tuple)
		return ok && sameVals(a, b)
	}
	return same(x, y)
}

func sameVals(a, b []Value) bool {
	for i := range a {
		if i >= len(b) || !sameVal(a[i], b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}

func sameDefers(a, b []deferred) bool {
	for i := range a {
		if i >= len(b) || a[i].call != b[i].call || !sameVal(a[i].fn, b[i].fn) || !sameVals(a[i].args, b[i].args) {
			return false
		}
	}
	return len(a) == len(b)
}

// readArr reads cell Base+Stride*idx: a table selection if the array is constant.
func (m *Machine) readArr(st *State, o *Obj, base, stride, n int, idx *expr.E) Value {
	k := [3]int{base, stride, n}
	t, ok := o.tables[k]
	if !ok {
		t = &expr.Table{Name: o.Name}
		for i := 0; i < n; i++ {
			e, isE := o.Cells[base+i*stride].(*expr.E)
			if !isE || !e.IsConst() {
				t = nil
				break
			}
			t.W = e.W
			t.Vals = append(t.Vals, e.C)
		}
		if o.Base && o.tok == nil {
			if o.tables == nil {
				o.tables = map[[3]int]*expr.Table{}
			}
			o.tables[k] = t
		}
	}
	if t != nil {
		return m.C.Select(t, idx)
	}
	// general: chain of ites over the values the index may take
	vals, okv := m.C.May(idx, m.domOf(st), 300)
	if !okv {
		for i := 0; i < n; i++ {
			vals = append(vals, uint64(i))
		}
	}
	var r *expr.E
	for _, v := range vals {
		if v >= uint64(n) {
			continue
		}
		e, isE := o.Cells[base+int(v)*stride].(*expr.E)
		if !isE {
			unsup("symbolic index into non-scalar array")
		}
		if r == nil {
			r = e
		} else {
			r = m.C.Ite(m.C.Bin(expr.Eq, idx, m.C.K(v, 64)), e, r)
		}
	}
	if r == nil {
		unsup("symbolic index with no value")
	}
	return r
}

func (x *exec) store(fr *Frame, st *State, p, val Value, addr ssa.Value, t types.Type, checked bool) (*forkReq, *panReq) {
	m := x.m
	switch a := p.(type) {
	case nil:
		return nil, x.always("nil pointer dereference")
	case Ptr:
		m.checkWrite(st, a.O, fr)
		o := m.wobj(st, a.O)
		if ag, ok := val.(Agg); ok {
			copy(o.Cells[a.Off:], ag.C)
		} else {
			o.Cells[a.Off] = val
		}
		return nil, nil
	case SymPtr:
		vals, okv := m.C.May(a.Idx, m.domOf(st), 300)
		if !okv {
			unsup("symbolic store index")
		}
		cells := []Value{val}
		if ag, ok := val.(Agg); ok {
			cells = ag.C
		}
		// scalars over scalars become ites; otherwise the index is forked on
		scalar := true
		for _, v := range vals {
			for k := range cells {
				if v < uint64(a.N) && scalar {
					_, n := cells[k].(*expr.E)
					_, p := m.obj(st, a.O).Cells[a.Base+int(v)*a.Stride+a.Sub+k].(*expr.E)
					scalar = n && p
				}
			}
		}
		for _, v := range vals {
			eq := m.C.Bin(expr.Eq, a.Idx, m.C.K(v, 64))
			if v >= uint64(a.N) || m.eval3(st, eq) == 0 {
				continue
			}
			if !scalar && m.eval3(st, eq) != 1 {
				return &forkReq{nil, eq}, nil
			}
			m.checkWrite(st, a.O, fr)
			o := m.wobj(st, a.O)
			for k := range cells {
				c := a.Base + int(v)*a.Stride + a.Sub + k
				if !scalar {
					o.Cells[c] = cells[k]
				} else {
					o.Cells[c] = m.C.Ite(eq, cells[k].(*expr.E), o.Cells[c].(*expr.E))
				}
			}
		}
		return nil, nil
	}
	unsup("store through %T", p)
	return nil, nil
}

func (m *Machine) checkWrite(st *State, id ObjID, fr *Frame) {
	if m.initMode {
		return
	}
	o := m.obj(st, id)
	if o.Frozen || o.Base && m.FreezeGl && st.locks == 0 {
		where := ""
		if fr != nil {
			if m.isHarness(fr.fi.fn) {
				return
			}
			where = " in " + fr.fi.fn.String()
		}
		kind := "the caller's bytes"
		if o.Base {
			kind = "package state " + o.Name
		}
		m.Vios = append(m.Vios, Vio{m.PCExpr(st), "write", "write to " + kind + where})
	}
}

func (x *exec) index(fr *Frame, st *State, v ssa.Value, X Value, xt types.Type, iv ssa.Value, checked bool) (*forkReq, *panReq) {
	m := x.m
	idx := m.operand(fr.fi, fr.regs, iv).(*expr.E)
	set := func(val Value) { fr.regs[fr.fi.reg[v]] = val }
	switch s := X.(type) {
	case Str:
		if pan := m.bounds(st, idx, iv.Type(), s.Len, checked); pan != nil {
			return nil, pan
		}
		o := m.obj(st, s.O)
		if idx.IsConst() {
			set(o.Cells[s.Off+int(idx.C)])
		} else {
			set(m.readArr(st, o, s.Off, 1, s.Len, m.widen(idx, iv.Type())))
		}
		return nil, nil
	case Slice: // type-parameter index
		if pan := m.bounds(st, idx, iv.Type(), s.Len, checked); pan != nil {
			return nil, pan
		}
		o := m.obj(st, s.O)
		if idx.IsConst() {
			set(o.Cells[s.Off+int(idx.C)*s.Esz])
		} else {
			set(m.readArr(st, o, s.Off, s.Esz, s.Len, m.widen(idx, iv.Type())))
		}
		return nil, nil
	case Agg:
		a := xt.Underlying().(*types.Array)
		es := sizeOf(a.Elem())
		if pan := m.bounds(st, idx, iv.Type(), int(a.Len()), checked); pan != nil {
			return nil, pan
		}
		if idx.IsConst() {
			k := int(idx.C)
			set(m.fromCells(a.Elem(), s.C[k*es:k*es+es]))
		} else {
			set(m.readArr(st, &Obj{Cells: s.C}, 0, es, int(a.Len()), m.widen(idx, iv.Type())))
		}
		return nil, nil
	}
	unsup("index of %T", X)
	return nil, nil
}

func (x *exec) slice(fr *Frame, st *State, v *ssa.Slice) (*forkReq, *panReq) {
	m := x.m
	X := m.operand(fr.fi, fr.regs, v.X)
	lo, hi, mx := 0, -1, -1
	var req *forkReq
	if v.Low != nil {
		if lo, req = x.konst(fr, v.Low); req != nil {
			return req, nil
		}
	}
	if v.High != nil {
		if hi, req = x.konst(fr, v.High); req != nil {
			return req, nil
		}
	}
	if v.Max != nil {
		if mx, req = x.konst(fr, v.Max); req != nil {
			return req, nil
		}
	}
	set := func(val Value) { fr.regs[fr.fi.reg[v]] = val }
	bad := x.always("slice bounds out of range")
	switch s := X.(type) {
	case Str:
		if v.High == nil {
			hi = s.Len
		}
		if lo < 0 || hi < lo || hi > s.Len {
			return nil, bad
		}
		if hi == lo {
			set(Str{O: s.O, Off: s.Off + lo})
		} else {
			set(Str{s.O, s.Off + lo, hi - lo})
		}
		return nil, nil
	case Slice:
		if v.High == nil {
			hi = s.Len
		}
		c := s.Cap
		if v.Max != nil {
			c = mx
		}
		if lo < 0 || hi < lo || hi > c || c > s.Cap {
			return nil, bad
		}
		set(Slice{s.O, s.Off + lo*s.Esz, hi - lo, c - lo, s.Esz})
		return nil, nil
	case Ptr: // pointer to array
		a := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		n := int(a.Len())
		es := sizeOf(a.Elem())
		if v.High == nil {
			hi = n
		}
		c := n
		if v.Max != nil {
			c = mx
		}
		if lo < 0 || hi < lo || hi > c || c > n {
			return nil, bad
		}
		set(Slice{s.O, s.Off + lo*es, hi - lo, c - lo, es})
		return nil, nil
	}
	unsup("slice of %T", X)
	return nil, nil
}

func (x *exec) typeAssert(fr *Frame, st *State, v *ssa.TypeAssert) *panReq {
	m := x.m
	i, _ := m.operand(fr.fi, fr.regs, v.X).(*Iface)
	ok := false
	var val Value
	if i != nil {
		if it, isI := v.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(i.T, it) || types.Implements(types.NewPointer(i.T), it) && false
			val = i
		} else {
			ok = types.Identical(i.T, v.AssertedType)
			val = i.V
		}
	}
	if v.CommaOk {
		if !ok {
			val = m.zero(v.AssertedType)
		}
		fr.regs[fr.fi.reg[v]] = Tuple{val, m.C.Bool(ok)}
		return nil
	}
	if !ok {
		return x.always("interface conversion")
	}
	fr.regs[fr.fi.reg[v]] = val
	return nil
}

// maps: keys are concrete values kept in insertion order
func keyEq(m *Machine, a, b Value) *expr.E { return m.equal(nil, a, b) }

func (x *exec) mapLookup(fr *Frame, st *State, v *ssa.Lookup) (*forkReq, *panReq) {
	m := x.m
	mt := v.X.Type().Underlying().(*types.Map)
	k := m.operand(fr.fi, fr.regs, v.Index)
	var val Value = m.zero(mt.Elem())
	found := m.C.F
	if mr, ok := m.operand(fr.fi, fr.regs, v.X).(MapRef); ok {
		o := m.obj(st, mr.O)
		for i, kk := range o.Keys {
			eq := m.equal(st, kk, k)
			switch m.eval3(st, eq) {
			case 1:
				val, found = o.Cells[i], m.C.T
			case 0:
				continue
			default:
				g := &merger{m: m, ok: true, g: eq}
				nv := g.val(o.Cells[i], val, false)
				if !g.ok {
					return &forkReq{nil, eq}, nil
				}
				val = nv
				found = m.C.Or(found, eq)
			}
		}
	}
	if v.CommaOk {
		fr.regs[fr.fi.reg[v]] = Tuple{val, found}
	} else {
		fr.regs[fr.fi.reg[v]] = val
	}
	return nil, nil
}

func (x *exec) mapUpdate(fr *Frame, st *State, v *ssa.MapUpdate) (*forkReq, *panReq) {
	m := x.m
	k := m.operand(fr.fi, fr.regs, v.Key)
	val := m.operand(fr.fi, fr.regs, v.Value)
	mr, ok := m.operand(fr.fi, fr.regs, v.Map).(MapRef)
	if !ok {
		return nil, x.always("assignment to entry in nil map")
	}
	m.checkWrite(st, mr.O, fr)
	if m.initMode {
		o := m.wobj(st, mr.O)
		o.Keys = append(o.Keys, k)
		o.Cells = append(o.Cells, val)
		return nil, nil
	}
	o := m.wobj(st, mr.O)
	for i, kk := range o.Keys {
		switch m.eval3(st, m.equal(st, kk, k)) {
		case 1:
			o.Cells[i] = val
			return nil, nil
		case 0:
		default:
			if e, ok := k.(*expr.E); ok {
				if _, isReg := fr.fi.reg[v.Key]; isReg {
					return &forkReq{v.Key, e}, nil
				}
			}
			return &forkReq{nil, m.equal(st, kk, k)}, nil
		}
	}
	o.Keys = append(o.Keys, k)
	o.Cells = append(o.Cells, val)
	return nil, nil
}

// next steps a range-over-string loop through the decoder of unicode/utf8.
func (x *exec) next(fr *Frame, st *State, v *ssa.Next) (*forkReq, *panReq) {
	m := x.m
	it := m.operand(fr.fi, fr.regs, v.Iter).(Tuple)
	p := it[1].(Ptr)
	pe := m.obj(st, p.O).Cells[0].(*expr.E)
	if !pe.IsConst() {
		unsup("symbolic range position")
	}
	pos := int(pe.C)
	if !v.IsString {
		tt := v.Type().(*types.Tuple)
		zero := func(i int) Value {
			if b, ok := tt.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return m.zero(tt.At(i).Type())
		}
		mr, ok := it[0].(MapRef)
		if !ok || pos >= len(m.obj(st, mr.O).Keys) {
			fr.regs[fr.fi.reg[v]] = Tuple{m.C.F, zero(1), zero(2)}
			return nil, nil
		}
		m.wobj(st, p.O).Cells[0] = m.C.K(uint64(pos)+1, 64)
		o := m.obj(st, mr.O)
		fr.regs[fr.fi.reg[v]] = Tuple{m.C.T, o.Keys[pos], o.Cells[pos]}
		return nil, nil
	}
	s := it[0].(Str)
	if pos >= s.Len {
		fr.regs[fr.fi.reg[v]] = Tuple{m.C.F, m.C.K(0, 64), m.C.K(0, 32)}
		return nil, nil
	}
	rest := Str{s.O, s.Off + pos, s.Len - pos}
	r, w := m.decode(st, rest.O, rest.Off, rest.Len)
	if !w.IsConst() {
		// fork on the width: report as a request on a pseudo register
		if old, ok := fr.regs[fr.fi.reg[v]].(*expr.E); ok && old.IsConst() {
			wk := old
			m.wobj(st, p.O).Cells[0] = m.C.K(uint64(pos)+wk.C, 64)
			fr.regs[fr.fi.reg[v]] = Tuple{m.C.T, m.C.K(uint64(pos), 64), r}
			return nil, nil
		}
		fr.regs[fr.fi.reg[v]] = w
		return &forkReq{v, w}, nil
	}
	m.wobj(st, p.O).Cells[0] = m.C.K(uint64(pos)+w.C, 64)
	fr.regs[fr.fi.reg[v]] = Tuple{m.C.T, m.C.K(uint64(pos), 64), r}
	return nil, nil
}
