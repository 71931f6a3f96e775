package sx

import (
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/expr"
)

func (m *Machine) builtin(fr *Frame, st *State, b *ssa.Builtin, args []Value, call *ssa.Call) (*forkReq, []Outcome) {
	C := m.C
	ret := func(v Value) (*forkReq, []Outcome) { return nil, []Outcome{{St: st, Val: v}} }
	switch b.Name() {
	case "len":
		switch a := args[0].(type) {
		case Slice:
			return ret(C.K(uint64(a.Len), 64))
		case Str:
			return ret(C.K(uint64(a.Len), 64))
		case MapRef:
			return ret(C.K(uint64(len(m.obj(st, a.O).Keys)), 64))
		case nil:
			return ret(C.K(0, 64))
		case Ptr, Agg:
			t := call.Common().Args[0].Type().Underlying()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem().Underlying()
			}
			return ret(C.K(uint64(t.(*types.Array).Len()), 64))
		}
	case "cap":
		if a, ok := args[0].(Slice); ok {
			return ret(C.K(uint64(a.Cap), 64))
		}
	case "append":
		a := args[0].(Slice)
		var src []Value
		es := a.Esz
		if es == 0 {
			es = sizeOf(call.Type().Underlying().(*types.Slice).Elem())
		}
		n := 0
		if len(args) > 1 {
			switch s := args[1].(type) {
			case Slice:
				n = s.Len
				if n > 0 {
					src = append(src, m.obj(st, s.O).Cells[s.Off:s.Off+s.Len*es]...)
				}
			case Str:
				n = s.Len
				if n > 0 {
					src = append(src, m.obj(st, s.O).Cells[s.Off:s.Off+s.Len]...)
				}
			default:
				unsup("append of %T", s)
			}
		}
		if n == 0 {
			return ret(a)
		}
		if a.Len+n <= a.Cap {
			m.checkWrite(st, a.O, fr)
			o := m.wobj(st, a.O)
			copy(o.Cells[a.Off+a.Len*es:], src)
			return ret(Slice{a.O, a.Off, a.Len + n, a.Cap, es})
		}
		et := call.Type().Underlying().(*types.Slice).Elem()
		nc := max(2*a.Cap, a.Len+n)
		z := m.zeroCells(et, nil)
		var cells []Value
		if a.Len > 0 {
			cells = append(cells, m.obj(st, a.O).Cells[a.Off:a.Off+a.Len*es]...)
		}
		cells = append(cells, src...)
		for len(cells) < nc*es {
			cells = append(cells, z...)
		}
		id := m.alloc(st, ssa.Instruction(call), cells, hasPtr(et), "append")
		return ret(Slice{id, 0, a.Len + n, nc, es})
	case "copy":
		d := args[0].(Slice)
		n := d.Len
		var src []Value
		switch s := args[1].(type) {
		case Slice:
			n = min(n, s.Len)
			if n > 0 {
				src = append(src, m.obj(st, s.O).Cells[s.Off:s.Off+n*d.Esz]...)
			}
		case Str:
			n = min(n, s.Len)
			if n > 0 {
				src = append(src, m.obj(st, s.O).Cells[s.Off:s.Off+n]...)
			}
		}
		if n > 0 {
			m.checkWrite(st, d.O, fr)
			copy(m.wobj(st, d.O).Cells[d.Off:], src)
		}
		return ret(C.K(uint64(n), 64))
	case "min", "max":
		r := args[0].(*expr.E)
		_, signed, _ := scalar(call.Type())
		lt := expr.Ult
		if signed {
			lt = expr.Slt
		}
		for _, a := range args[1:] {
			e := a.(*expr.E)
			c := C.Bin(lt, e, r)
			if b.Name() == "max" {
				c = C.Bin(lt, r, e)
			}
			r = C.Ite(c, e, r)
		}
		return ret(r)
	case "recover":
		if st.pan == "" {
			return ret(nil)
		}
		v := &Iface{types.Typ[types.String], m.str(st.pan)} // the value is not kept
		st.pan = ""
		return ret(v)
	case "print", "println":
		return ret(nil)
	case "delete":
		mr, ok := args[0].(MapRef)
		if !ok {
			return ret(nil)
		}
		m.checkWrite(st, mr.O, fr)
		o := m.wobj(st, mr.O)
		for i, k := range o.Keys {
			switch m.eval3(st, m.equal(st, k, args[1])) {
			case 1:
				o.Keys = append(o.Keys[:i:i], o.Keys[i+1:]...)
				o.Cells = append(o.Cells[:i:i], o.Cells[i+1:]...)
				return ret(nil)
			case -1:
				return &forkReq{nil, m.equal(st, k, args[1])}, nil
			}
		}
		return ret(nil)
	case "clear":
		if s, ok := args[0].(Slice); ok {
			if s.Len > 0 {
				et := call.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
				z := m.zeroCells(et, nil)
				m.checkWrite(st, s.O, fr)
				o := m.wobj(st, s.O)
				for i := 0; i < s.Len; i++ {
					copy(o.Cells[s.Off+i*len(z):], z)
				}
			}
			return ret(nil)
		}
		if mr, ok := args[0].(MapRef); ok {
			m.checkWrite(st, mr.O, fr)
			o := m.wobj(st, mr.O)
			o.Keys, o.Cells = nil, nil
			return ret(nil)
		}
		if args[0] == nil {
			return ret(nil)
		}
	case "ssa:wrapnilchk":
		if args[0] == nil {
			return nil, []Outcome{{St: st, Panic: "nil pointer dereference"}}
		}
		return ret(args[0])
	case "StringData", "SliceData", "String", "Slice":
		// unsafe
		switch a := args[0].(type) {
		case Str:
			if b.Name() == "StringData" {
				return ret(Ptr{a.O, a.Off})
			}
		case Slice:
			if b.Name() == "SliceData" {
				if a.O == 0 {
					return ret(nil)
				}
				return ret(Ptr{a.O, a.Off})
			}
		case Ptr:
			n := args[1].(*expr.E)
			if !n.IsConst() {
				return &forkReq{call.Common().Args[1], n}, nil
			}
			if b.Name() == "String" {
				return ret(Str{a.O, a.Off, int(n.C)})
			}
			return ret(Slice{a.O, a.Off, int(n.C), int(n.C), 1})
		case nil:
			n := args[1].(*expr.E)
			if n.IsConst() && n.C == 0 {
				if b.Name() == "String" {
					return ret(Str{})
				}
				return ret(Slice{Esz: 1})
			}
		}
	}
	unsup("builtin %s", b.Name())
	return nil, nil
}
