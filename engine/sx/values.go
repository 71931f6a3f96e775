// Package sx is a symbolic executor for Go SSA with state merging.
//
// It executes functions of the code under test (built from the current source
// by go/packages and go/ssa) on symbolic inputs. At control-flow joins, states
// whose control-relevant integers (positions, lengths) agree are merged into
// one, with if-then-else expressions for the values that differ, so a loop over
// N symbolic characters costs a number of steps polynomial in N and the whole
// computation becomes one formula for the solver.
package sx

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/expr"
)

// Value is a run-time value: *expr.E (scalars), Ptr, SymPtr, Slice, Str,
// *Iface, *Closure, Agg, Tuple, *MapRef, or nil (nil pointer/func/map/interface).
type Value interface{}

type ObjID int

// Ptr points at a cell of an object.
type Ptr struct {
	O   ObjID
	Off int
}

// SymPtr is a pointer into an array with a symbolic index (transient).
type SymPtr struct {
	O      ObjID
	Base   int // cell offset of element 0
	Stride int
	N      int
	Idx    *expr.E
	Sub    int
}

// Slice is a slice with concrete bounds (Off, Len, Cap in elements).
type Slice struct {
	O             ObjID
	Off, Len, Cap int // Off in cells
	Esz           int
}

// Str is a string with concrete bounds.
type Str struct {
	O        ObjID
	Off, Len int
}

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn    *ssa.Function
	Binds []Value
	Bi    *ssa.Builtin
}

// Agg is a struct or array value, flattened to leaf cells.
type Agg struct{ C []Value }

type Tuple []Value

type MapRef struct{ O ObjID }

// Approx symbolic index of a string iteration.
type RangeIter struct {
	S   Str
	Pos int
	M   bool
}

// Obj is a memory object.
type Obj struct {
	Cells  []Value
	HasPtr bool
	Base   bool // part of the initial heap: package variables, constants
	Frozen bool // stores are violations
	Name   string
	tables map[[3]int]*expr.Table
	tok    *int
	Keys   []Value // maps
}

func sizeOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += sizeOf(u.Field(i).Type())
		}
		return n
	case *types.Array:
		return int(u.Len()) * sizeOf(u.Elem())
	}
	return 1
}

func fieldOff(s *types.Struct, i int) int {
	n := 0
	for k := 0; k < i; k++ {
		n += sizeOf(s.Field(k).Type())
	}
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr(u.Elem())
	}
	return true
}

// width of a scalar type; signed.
func scalar(t types.Type) (w uint8, signed, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (m *Machine) zeroCells(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = m.zeroCells(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		n := int(u.Len())
		if n == 0 {
			return out
		}
		st := len(out)
		out = m.zeroCells(u.Elem(), out)
		es := len(out) - st
		for i := 1; i < n; i++ {
			out = append(out, out[st:st+es]...)
		}
		return out
	}
	return append(out, m.zeroLeaf(t))
}

func (m *Machine) zeroLeaf(t types.Type) Value {
	if w, _, ok := scalar(t); ok {
		return m.C.K(0, w)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Info()&types.IsFloat != 0 || u.Info()&types.IsComplex != 0 {
			return floatVal(0)
		}
	case *types.Slice:
		return Slice{Esz: sizeOf(u.Elem())}
	}
	return nil
}

type floatVal float64

func (m *Machine) zero(t types.Type) Value {
	if isAgg(t) {
		return Agg{m.zeroCells(t, nil)}
	}
	return m.zeroLeaf(t)
}

// Unsupported is panicked when the code cannot be encoded.
type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return "unsupported: " + u.Msg }

func unsup(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }
