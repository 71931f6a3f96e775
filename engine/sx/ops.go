package sx

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/expr"
)

func (m *Machine) binop(st *State, op token.Token, X, Y Value, xt, yt types.Type) (Value, *panReq) {
	C := m.C
	switch op {
	case token.EQL:
		return m.equal(st, X, Y), nil
	case token.NEQ:
		return C.Not(m.equal(st, X, Y)), nil
	}
	if a, ok := X.(Str); ok {
		b := Y.(Str)
		switch op {
		case token.ADD:
			if a.Len == 0 {
				return b, nil
			}
			if b.Len == 0 {
				return a, nil
			}
			cells := append([]Value(nil), m.obj(st, a.O).Cells[a.Off:a.Off+a.Len]...)
			cells = append(cells, m.obj(st, b.O).Cells[b.Off:b.Off+b.Len]...)
			id := m.alloc(st, "concat", cells, false, "concat")
			return Str{id, 0, a.Len + b.Len}, nil
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if op == token.GTR || op == token.LEQ {
				a, b = b, a
			}
			// lexicographic a < b
			n := min(a.Len, b.Len)
			r := C.Bool(a.Len < b.Len)
			for i := n - 1; i >= 0; i-- {
				p := m.obj(st, a.O).Cells[a.Off+i].(*expr.E)
				q := m.obj(st, b.O).Cells[b.Off+i].(*expr.E)
				r = C.Or(C.Bin(expr.Ult, p, q), C.And(C.Bin(expr.Eq, p, q), r))
			}
			if op == token.LEQ || op == token.GEQ {
				r = C.Not(r)
			}
			return r, nil
		}
	}
	a, ok1 := X.(*expr.E)
	b, ok2 := Y.(*expr.E)
	if !ok1 || !ok2 {
		if fa, ok := X.(floatVal); ok {
			return m.floatOp(op, fa, Y.(floatVal)), nil
		}
		unsup("binary %v on %T, %T", op, X, Y)
	}
	_, signed, _ := scalar(xt)
	lt := expr.Ult
	if signed {
		lt = expr.Slt
	}
	switch op {
	case token.ADD:
		return C.Bin(expr.Add, a, b), nil
	case token.SUB:
		return C.Bin(expr.Sub, a, b), nil
	case token.MUL:
		return C.Bin(expr.Mul, a, b), nil
	case token.QUO, token.REM:
		z := C.Bin(expr.Eq, b, C.K(0, b.W))
		var o expr.Op
		switch {
		case op == token.QUO && signed:
			o = expr.Sdiv
		case op == token.QUO:
			o = expr.Udiv
		case signed:
			o = expr.Srem
		default:
			o = expr.Urem
		}
		if z == C.T {
			return C.K(0, a.W), &panReq{C.T, "integer divide by zero"}
		}
		r := C.Bin(o, a, b)
		if z == C.F {
			return r, nil
		}
		return r, &panReq{z, "integer divide by zero"}
	case token.AND:
		if a.W == 0 {
			return C.And(a, b), nil
		}
		return C.Bin(expr.BAnd, a, b), nil
	case token.OR:
		if a.W == 0 {
			return C.Or(a, b), nil
		}
		return C.Bin(expr.BOr, a, b), nil
	case token.XOR:
		return C.Bin(expr.BXor, a, b), nil
	case token.AND_NOT:
		return C.Bin(expr.BAnd, a, C.Bin(expr.BXor, b, C.K(expr.Mask(b.W), b.W))), nil
	case token.SHL, token.SHR:
		o := expr.Shl
		if op == token.SHR {
			o = expr.Lshr
			if signed {
				o = expr.Ashr
			}
		}
		var pan *panReq
		if _, ys, _ := scalar(yt); ys {
			neg := C.Bin(expr.Slt, b, C.K(0, b.W))
			if neg == C.T {
				return C.K(0, a.W), &panReq{C.T, "negative shift amount"}
			}
			if neg != C.F {
				pan = &panReq{neg, "negative shift amount"}
			}
		}
		if b.W < a.W {
			b = C.Zext(b, a.W)
		} else if b.W > a.W {
			big := C.Not(C.Bin(expr.Ult, b, C.K(uint64(a.W), b.W)))
			b = C.Ite(big, C.K(uint64(a.W), a.W), C.Trunc(b, a.W))
		}
		return C.Bin(o, a, b), pan
	case token.LSS:
		return C.Bin(lt, a, b), nil
	case token.GTR:
		return C.Bin(lt, b, a), nil
	case token.LEQ:
		return C.Not(C.Bin(lt, b, a)), nil
	case token.GEQ:
		return C.Not(C.Bin(lt, a, b)), nil
	case token.LAND:
		return C.And(a, b), nil
	case token.LOR:
		return C.Or(a, b), nil
	}
	unsup("binary %v", op)
	return nil, nil
}

func (m *Machine) floatOp(op token.Token, a, b floatVal) Value {
	switch op {
	case token.ADD:
		return a + b
	case token.SUB:
		return a - b
	case token.MUL:
		return a * b
	case token.QUO:
		return a / b
	case token.LSS:
		return m.C.Bool(a < b)
	case token.GTR:
		return m.C.Bool(a > b)
	case token.LEQ:
		return m.C.Bool(a <= b)
	case token.GEQ:
		return m.C.Bool(a >= b)
	}
	unsup("float %v", op)
	return nil
}

// equal compares two values.
func (m *Machine) equal(st *State, X, Y Value) *expr.E {
	C := m.C
	switch a := X.(type) {
	case *expr.E:
		b := Y.(*expr.E)
		if a.W == 0 {
			return C.Not(C.Or(C.And(a, C.Not(b)), C.And(C.Not(a), b)))
		}
		return C.Bin(expr.Eq, a, b)
	case nil:
		switch b := Y.(type) {
		case nil:
			return C.T
		case Slice:
			return C.Bool(b.O == 0 && b.Cap == 0)
		case *Iface:
			return C.Bool(b == nil)
		case *Closure:
			return C.Bool(b == nil)
		}
		return C.F
	case Ptr:
		b, ok := Y.(Ptr)
		return C.Bool(ok && a == b)
	case MapRef:
		b, ok := Y.(MapRef)
		return C.Bool(ok && a == b)
	case Slice:
		// only comparable with nil
		if b, ok := Y.(Slice); ok && b.O != 0 {
			unsup("slice comparison")
		}
		return C.Bool(a.O == 0)
	case *Closure:
		if Y == nil {
			return C.Bool(a == nil)
		}
		b, ok := Y.(*Closure)
		if ok && (a == nil || b == nil) {
			return C.Bool(a == b)
		}
		unsup("function comparison")
	case *Iface:
		b, _ := Y.(*Iface)
		if a == nil || b == nil {
			return C.Bool(a == nil && b == nil)
		}
		if !types.Identical(a.T, b.T) {
			return C.F
		}
		return m.equal(st, a.V, b.V)
	case Str:
		b := Y.(Str)
		if a.Len != b.Len {
			return C.F
		}
		if a == b || a.Len == 0 {
			return C.T
		}
		r := C.T
		oa, ob := m.obj(st, a.O), m.obj(st, b.O)
		for i := 0; i < a.Len; i++ {
			r = C.And(r, C.Bin(expr.Eq, oa.Cells[a.Off+i].(*expr.E), ob.Cells[b.Off+i].(*expr.E)))
		}
		return r
	case Agg:
		b := Y.(Agg)
		r := C.T
		for i := range a.C {
			r = C.And(r, m.equal(st, a.C[i], b.C[i]))
		}
		return r
	case floatVal:
		return C.Bool(a == Y.(floatVal))
	}
	unsup("comparison of %T", X)
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// converter is the function that does a conversion between symbolic runes and
// strings, if this is one.
func (m *Machine) converter(st *State, X Value, from, to types.Type) *ssa.Function {
	tb, _ := to.Underlying().(*types.Basic)
	str := tb != nil && tb.Info()&types.IsString != 0
	switch v := X.(type) {
	case *expr.E:
		if str && !v.IsConst() {
			return m.Helpers["RuneString"]
		}
	case Slice:
		if str && !isByteSlice(from) {
			return m.Helpers["RunesString"]
		}
	case Str:
		if s, ok := to.Underlying().(*types.Slice); ok && !isByteSlice(s) {
			if _, conc := m.concreteStr(st, v); !conc {
				return m.Helpers["Runes"]
			}
		}
	}
	return nil
}

// runeArg is an integer as a rune; what is no rune is -1.
func (m *Machine) runeArg(e *expr.E, signed bool) *expr.E {
	C := m.C
	switch {
	case e.W == 32 && signed:
		return e
	case e.W < 32 && signed:
		return C.Sext(e, 32)
	case e.W < 32:
		return C.Zext(e, 32)
	}
	return C.Ite(C.Bin(expr.Ult, C.K(0x10FFFF, e.W), e), C.K(0xFFFFFFFF, 32), C.Trunc(e, 32))
}

func (m *Machine) convert(st *State, X Value, from, to types.Type, site ssa.Instruction) Value {
	C := m.C
	if w, _, ok := scalar(to); ok {
		if e, isE := X.(*expr.E); isE {
			_, signed, _ := scalar(from)
			switch {
			case e.W == w:
				return e
			case e.W > w:
				return C.Trunc(e, w)
			case signed:
				return C.Sext(e, w)
			default:
				return C.Zext(e, w)
			}
		}
		if f, isF := X.(floatVal); isF {
			return C.K(uint64(int64(f)), w)
		}
	}
	switch v := X.(type) {
	case Slice:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && isByteSlice(from) {
			if v.Len == 0 {
				return Str{}
			}
			id := m.alloc(st, site, append([]Value(nil), m.obj(st, v.O).Cells[v.Off:v.Off+v.Len]...), false, "string")
			return Str{id, 0, v.Len}
		}
		if _, ok := to.Underlying().(*types.Slice); ok {
			return v
		}
	case Str:
		if isByteSlice(to) {
			var cells []Value
			if v.Len > 0 {
				cells = append(cells, m.obj(st, v.O).Cells[v.Off:v.Off+v.Len]...)
			}
			id := m.alloc(st, site, cells, false, "bytes")
			return Slice{id, 0, v.Len, v.Len, 1}
		}
		if s, ok := to.Underlying().(*types.Slice); ok && sizeOf(s.Elem()) == 1 { // []rune
			cs, conc := m.concreteStr(st, v)
			if conc {
				var cells []Value
				for _, r := range cs {
					cells = append(cells, C.K(uint64(r), 32))
				}
				id := m.alloc(st, site, cells, false, "runes")
				return Slice{id, 0, len(cells), len(cells), 1}
			}
			unsup("[]rune of symbolic string")
		}
		return v
	case *expr.E:
		if b, ok := to.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsString != 0 && v.IsConst() {
				k := int64(v.C)
				if _, signed, _ := scalar(from); signed {
					k = v.SInt()
				}
				if k < 0 || k > 0x10FFFF {
					k = 0xFFFD
				}
				return m.str(string(rune(k)))
			}
			if b.Info()&types.IsFloat != 0 && v.IsConst() {
				_, signed, _ := scalar(from)
				if signed {
					return floatVal(v.SInt())
				}
				return floatVal(v.C)
			}
			if b.Kind() == types.UnsafePointer {
				return nil
			}
		}
	case floatVal:
		return v
	case Ptr:
		return v
	case nil:
		return nil
	}
	unsup("conversion %v to %v of %T", from, to, X)
	return nil
}
