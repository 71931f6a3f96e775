package run

import (
	"golang.org/x/tools/go/ssa"

	"verif/expr"
	"verif/sx"
)

// registerSync models sync and sync/atomic for one goroutine. What these
// functions write is synchronised, so it is not an unprotected write to
// package state; its effect on results is kept.
func registerSync(m *sx.Machine, reg func(string, func(*sx.State, []sx.Value, ssa.CallInstruction) []sx.Outcome)) {
	c := m.C
	cell := func(st *sx.State, p sx.Value) *sx.Value {
		q, ok := p.(sx.Ptr)
		if !ok {
			panic(sx.Unsupported{Msg: "synchronisation through a computed pointer"})
		}
		return m.Cell(st, q)
	}
	get := func(st *sx.State, p sx.Value) sx.Value { return m.Read(st, p.(sx.Ptr)) }
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		p := "sync/atomic."
		reg(p+"Load"+t, func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
			return one(st, get(st, a[0]))
		})
		reg(p+"Store"+t, func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
			*cell(st, a[0]) = a[1]
			return one(st, nil)
		})
		reg(p+"Swap"+t, func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
			x := cell(st, a[0])
			old := *x
			*x = a[1]
			return one(st, old)
		})
		for _, op := range []struct {
			n string
			o expr.Op
		}{{"Add", expr.Add}, {"And", expr.BAnd}, {"Or", expr.BOr}} {
			reg(p+op.n+t, func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
				x := cell(st, a[0])
				old := (*x).(*expr.E)
				n := c.Bin(op.o, old, a[1].(*expr.E))
				*x = n
				if op.n == "Add" {
					return one(st, n)
				}
				return one(st, old)
			})
		}
		reg(p+"CompareAndSwap"+t, func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
			return m.Cases(st, m.Equal(st, get(st, a[0]), a[1]), func(st *sx.State, is bool) []sx.Outcome {
				if is {
					*cell(st, a[0]) = a[2]
				}
				return one(st, c.Bool(is))
			})
		})
	}
	// sync/atomic.Value keeps its interface value in its only cell
	v := "(*sync/atomic.Value)."
	reg(v+"Load", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome { return one(st, get(st, a[0])) })
	reg(v+"Store", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		*cell(st, a[0]) = a[1]
		return one(st, nil)
	})
	reg(v+"Swap", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		x := cell(st, a[0])
		old := *x
		*x = a[1]
		return one(st, old)
	})
	lock := func(st *sx.State, a []sx.Value, call ssa.CallInstruction) []sx.Outcome {
		x := cell(st, a[0])
		if e, ok := (*x).(*expr.E); !ok || !e.IsConst() {
			panic(sx.Unsupported{Msg: "mutex"})
		} else if e.C != 0 {
			return []sx.Outcome{{St: st, Panic: "deadlock: mutex locked twice"}}
		} else {
			*x = c.K(1, e.W)
		}
		st.Hold(1)
		return one(st, nil)
	}
	unlock := func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		x := cell(st, a[0])
		e, ok := (*x).(*expr.E)
		if !ok || !e.IsConst() {
			panic(sx.Unsupported{Msg: "mutex"})
		}
		if e.C == 0 {
			return []sx.Outcome{{St: st, Panic: "unlock of unlocked mutex"}}
		}
		*x = c.K(0, e.W)
		st.Hold(-1)
		return one(st, nil)
	}
	nop := func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome { return one(st, nil) }
	for _, t := range []string{"Mutex", "RWMutex"} {
		reg("(*sync."+t+").Lock", lock)
		reg("(*sync."+t+").Unlock", unlock)
		reg("(*sync."+t+").TryLock", func(st *sx.State, a []sx.Value, call ssa.CallInstruction) []sx.Outcome {
			if e, ok := get(st, a[0]).(*expr.E); ok && e.IsConst() && e.C != 0 {
				return one(st, c.F)
			}
			lock(st, a, call)
			return one(st, c.T)
		})
	}
	reg("(*sync.RWMutex).RLock", nop)
	reg("(*sync.RWMutex).RUnlock", nop)
	// sync.Pool keeps the last item put
	m.Intrins["(*sync.Pool).Put"] = func(m *sx.Machine, fr *sx.Frame, st *sx.State, a []sx.Value, call ssa.CallInstruction) []sx.Outcome {
		if x, _ := a[1].(*sx.Iface); x != nil {
			*cell(st, a[0]) = x
		}
		return one(st, nil)
	}
	m.Intrins["(*sync.Pool).Get"] = func(m *sx.Machine, fr *sx.Frame, st *sx.State, a []sx.Value, call ssa.CallInstruction) []sx.Outcome {
		x := cell(st, a[0])
		if it, ok := (*x).(*sx.Iface); ok && it != nil {
			*x = nil
			return one(st, it)
		}
		f := m.Field(st, a[0].(sx.Ptr), call.Common().StaticCallee(), "New")
		if f == nil {
			return one(st, nil)
		}
		if cl, ok := f.(*sx.Closure); ok && cl == nil {
			return one(st, nil)
		}
		return m.CallClosure(fr, st, f, nil, call)
	}

	// sync.Map keeps an ordinary map in its first cell
	find := func(st *sx.State, mp, key sx.Value, f func(st *sx.State, ref sx.MapRef, i int) []sx.Outcome) []sx.Outcome {
		ref, ok := get(st, mp).(sx.MapRef)
		if !ok {
			ref = m.NewMap(st, "sync.Map")
			*cell(st, mp) = ref
		}
		var try func(st *sx.State, i int) []sx.Outcome
		try = func(st *sx.State, i int) []sx.Outcome {
			ks := m.MapKeys(st, ref)
			if i == len(ks) {
				return f(st, ref, -1)
			}
			return m.Cases(st, m.Equal(st, ks[i], key), func(st *sx.State, is bool) []sx.Outcome {
				if is {
					return f(st, ref, i)
				}
				return try(st, i+1)
			})
		}
		return try(st, 0)
	}
	mm := "(*sync.Map)."
	reg(mm+"Load", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		return find(st, a[0], a[1], func(st *sx.State, ref sx.MapRef, i int) []sx.Outcome {
			if i < 0 {
				return one(st, sx.Tuple{nil, c.F})
			}
			return one(st, sx.Tuple{m.ObjCells(st, ref.O)[i], c.T})
		})
	})
	put := func(st *sx.State, ref sx.MapRef, i int, k, v sx.Value) {
		if i < 0 {
			m.MapAdd(st, ref, k, v)
		} else {
			*m.Cell(st, sx.Ptr{O: ref.O, Off: i}) = v
		}
	}
	reg(mm+"Store", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		return find(st, a[0], a[1], func(st *sx.State, ref sx.MapRef, i int) []sx.Outcome {
			put(st, ref, i, a[1], a[2])
			return one(st, nil)
		})
	})
	reg(mm+"LoadOrStore", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		return find(st, a[0], a[1], func(st *sx.State, ref sx.MapRef, i int) []sx.Outcome {
			if i >= 0 {
				return one(st, sx.Tuple{m.ObjCells(st, ref.O)[i], c.T})
			}
			put(st, ref, i, a[1], a[2])
			return one(st, sx.Tuple{a[2], c.F})
		})
	})
}
