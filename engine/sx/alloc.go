package sx

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/expr"
)

// noteAlloc records an operation that may allocate on the heap, with the
// inputs that reach it. Whether it does is up to the compiler (escape
// analysis), so each recorded operation is run on the real build.
func (m *Machine) noteAlloc(st *State, fn *ssa.Function, in ssa.Instruction) {
	w := allocates(in)
	if w == "" {
		return
	}
	p := m.Prog.Fset.Position(in.Pos())
	site := fmt.Sprintf("%s in %s (%s:%d)", w, FullName(fn), p.Filename, p.Line)
	if m.AllocSites == nil {
		m.AllocSites = map[string]*expr.E{}
	}
	e := m.PCExpr(st)
	if o, ok := m.AllocSites[site]; ok {
		e = m.C.Or(o, e)
	}
	m.AllocSites[site] = e
}

// noteAll does so for a function that is encoded as a table.
func (m *Machine) noteAll(st *State, fn *ssa.Function, d int) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			m.noteAlloc(st, fn, in)
			if c, ok := in.(*ssa.Call); ok && d < 4 {
				if f := c.Call.StaticCallee(); f != nil {
					m.noteAll(st, f, d+1)
				}
			}
		}
	}
}

func allocates(in ssa.Instruction) string {
	switch v := in.(type) {
	case *ssa.Alloc:
		if v.Heap {
			return "new " + v.Comment
		}
	case *ssa.MakeSlice:
		return "make slice"
	case *ssa.MakeMap:
		return "make map"
	case *ssa.MakeChan:
		return "make chan"
	case *ssa.MakeClosure:
		if len(v.Bindings) > 0 {
			return "closure"
		}
	case *ssa.MakeInterface:
		if _, ok := v.X.(*ssa.Const); ok {
			return ""
		}
		switch v.X.Type().Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			return ""
		}
		return "interface of " + v.X.Type().String()
	case *ssa.Convert:
		a, b := v.X.Type().Underlying(), v.Type().Underlying()
		_, as := a.(*types.Slice)
		_, bs := b.(*types.Slice)
		if as != bs || isSeq(b) && !isSeq(a) {
			return "conversion to " + v.Type().String()
		}
	case *ssa.MultiConvert:
		return "conversion to " + v.Type().String()
	case *ssa.BinOp:
		if v.Op == token.ADD && isSeq(v.Type()) {
			return "concatenation"
		}
	case *ssa.Call:
		if bi, ok := v.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return "append"
		}
	}
	return ""
}
