package run

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/env"
	"verif/expr"
	"verif/sx"
)

// drop records the inputs an assumption leaves out.
func (t *task) drop(st *sx.State, e *expr.E) {
	c := t.m.C
	if t.m.Eval3(st, e) != 1 {
		t.dropped = append(t.dropped, c.And(t.m.PCExpr(st), c.Not(e)))
	}
}

const vsymPath = Module + "/internal/vsym"

func one(st *sx.State, v sx.Value) []sx.Outcome { return []sx.Outcome{{St: st, Val: v}} }

func konstInt(v sx.Value) (int, bool) {
	e, ok := v.(*expr.E)
	if !ok || !e.IsConst() {
		return 0, false
	}
	return int(e.SInt()), true
}

func mustInt(what string, v sx.Value) int {
	n, ok := konstInt(v)
	if !ok {
		panic(sx.Unsupported{Msg: "symbolic " + what})
	}
	return n
}

// register installs the meaning of the harness interface and of the few
// library functions that are modelled instead of executed.
func (t *task) register(m *sx.Machine, en *env.Env) {
	c := m.C
	name := func(st *sx.State, v sx.Value) string {
		s, ok := m.ConcStr(st, v.(sx.Str))
		if !ok {
			panic(sx.Unsupported{Msg: "symbolic name"})
		}
		return s
	}
	v := func(n string, f sx.Intrinsic) { m.Intrins[vsymPath+"."+n] = f }
	type F = func(st *sx.State, a []sx.Value, call ssa.CallInstruction) []sx.Outcome
	reg := func(n string, f F) {
		m.Intrins[n] = func(m *sx.Machine, fr *sx.Frame, st *sx.State, a []sx.Value, call ssa.CallInstruction) []sx.Outcome {
			return f(st, a, call)
		}
	}
	vs := func(n string, f F) { reg(vsymPath+"."+n, f) }

	vs("Bytes", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		nm := name(st, a[0])
		n := mustInt("text size", a[1])
		in := en.NewBytes(nm, n)
		cells := make([]sx.Value, n)
		for i := range cells {
			cells[i] = in.B[i]
		}
		for _, b := range en.Base {
			if b.Op == expr.Fn && !m.Assume(st, b) {
				return nil
			}
		}
		return one(st, m.NewBytes(st, "vsym:"+nm, cells))
	})
	vs("Int", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		return one(st, en.NewInt(name(st, a[0]), mustInt("bound", a[1]), mustInt("bound", a[2])).E)
	})
	vs("Bool", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		return one(st, en.NewBool(name(st, a[0])).E)
	})
	vs("Assume", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		t.drop(st, a[0].(*expr.E))
		if !m.Assume(st, a[0].(*expr.E)) {
			return nil
		}
		return one(st, nil)
	})
	vs("Assert", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		t.asserts++
		e := a[0].(*expr.E)
		if m.Eval3(st, e) == 1 {
			return one(st, nil)
		}
		m.AddVio(st, c.Not(e), "assert", name(st, a[1]))
		if !m.Assume(st, e) {
			return nil
		}
		return one(st, nil)
	})
	vs("Reach", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		nm := name(st, a[0])
		o, ok := m.Reached[nm]
		if !ok {
			o = c.F
		}
		m.Reached[nm] = c.Or(o, m.PCExpr(st))
		return one(st, nil)
	})
	vs("Out", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		st.SetOut(name(st, a[0]), a[1].(*expr.E))
		return one(st, nil)
	})
	vs("Freeze", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		m.SetFrozen(st, a[0])
		return one(st, nil)
	})
	vs("FreezeData", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		m.SetFrozen(st, a[0].(*sx.Iface).V)
		return one(st, nil)
	})
	v("NoAlloc", func(m *sx.Machine, fr *sx.Frame, st *sx.State, a []sx.Value, call ssa.CallInstruction) []sx.Outcome {
		var r []sx.Outcome
		var outs []sx.Outcome
		m.WithRoots(a, func() { outs = m.CallClosure(fr, st, a[0], nil, call) })
		for _, o := range outs {
			if o.Panic != "" {
				r = append(r, o)
				continue
			}
			m.AllocWatch++
			r = append(r, m.CallClosure(fr, o.St, a[1], nil, call)...)
			m.AllocWatch--
		}
		return r
	})
	v("Alone", func(m *sx.Machine, fr *sx.Frame, st *sx.State, a []sx.Value, call ssa.CallInstruction) []sx.Outcome {
		return m.Alone(st, func() []sx.Outcome { return m.CallClosure(fr, st, a[0], nil, call) })
	})
	vs("FreezeGlobals", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		m.FreezeGl = true
		return one(st, nil)
	})
	vs("Class", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		kind := mustInt("kind", a[0])
		off := mustInt("offset", a[2])
		cells := m.SeqCells(st, a[1])
		if off >= len(cells) {
			return one(st, sx.Tuple{c.K(env.RefNone, 8), c.K(0, 64)})
		}
		cl, w := en.Ref(m.DomOf(st), kind, cells[off:])
		return m.SplitInts(st, []*expr.E{c.Trunc(cl, 8), w})
	})
	v("Panics", func(m *sx.Machine, fr *sx.Frame, st *sx.State, a []sx.Value, call ssa.CallInstruction) []sx.Outcome {
		outs := m.CallClosure(fr, st, a[0], nil, call)
		for i := range outs {
			outs[i].Val = c.Bool(outs[i].Panic != "")
			outs[i].Panic = ""
		}
		return outs
	})

	decode := func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		cells := m.SeqCells(st, a[0])
		if len(cells) == 0 {
			return one(st, sx.Tuple{c.K(uint64(utf8.RuneError), 32), c.K(0, 64)})
		}
		r, w := en.Decode(m.DomOf(st), cells)
		return m.SplitInts(st, []*expr.E{r, w})
	}
	reg("unicode/utf8.DecodeRune", decode)
	reg("unicode/utf8.DecodeRuneInString", decode)

	vs("Rune", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		cells := m.SeqCells(st, a[0])[mustInt("offset", a[1]):]
		r, _ := en.Decode(m.DomOf(st), cells)
		return one(st, r)
	})

	runeFn := func(n string, w uint8, f func(rune) uint64) func(*sx.State, *expr.E) []sx.Outcome {
		return func(st *sx.State, e *expr.E) []sx.Outcome {
			r, ok := c.MapRune(e, n, w, func(x uint64) uint64 { return f(rune(int32(uint32(x)))) })
			if !ok {
				panic(sx.Unsupported{Msg: n + " of a computed rune"})
			}
			return one(st, r)
		}
	}
	truth := func(f func(rune) bool) func(rune) uint64 {
		return func(r rune) uint64 {
			if f(r) {
				return 1
			}
			return 0
		}
	}
	for n, f := range env.PredNames() {
		g := runeFn(n, 0, truth(f))
		reg(n, func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome { return g(st, a[0].(*expr.E)) })
	}
	for n, f := range map[string]func(rune) rune{"unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.ToTitle": unicode.ToTitle, "unicode.SimpleFold": unicode.SimpleFold} {
		g := runeFn(n, 32, func(r rune) uint64 { return uint64(uint32(f(r))) })
		reg(n, func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome { return g(st, a[0].(*expr.E)) })
	}
	tables := map[string]func(*sx.State, *expr.E) []sx.Outcome{}
	reg("unicode.Is", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		t, n := rangeTable(m, st, a[0])
		g := tables[n]
		if g == nil {
			g = runeFn("unicode.Is "+n, 0, truth(func(r rune) bool { return unicode.Is(t, r) }))
			tables[n] = g
		}
		return g(st, a[1].(*expr.E))
	})

	// byte searches written in assembly
	idx := func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		cells := m.SeqCells(st, a[0])
		b := a[1].(*expr.E)
		var outs []sx.Outcome
		for i, x := range cells {
			eq := c.Bin(expr.Eq, x.(*expr.E), b)
			switch m.Eval3(st, eq) {
			case 1:
				return append(outs, sx.Outcome{St: st, Val: c.K(uint64(i), 64)})
			case 0:
				continue
			}
			s2 := m.Fork(st)
			if m.Assume(s2, eq) {
				outs = append(outs, sx.Outcome{St: s2, Val: c.K(uint64(i), 64)})
			}
			if !m.Assume(st, c.Not(eq)) {
				return outs
			}
		}
		return append(outs, sx.Outcome{St: st, Val: c.K(^uint64(0), 64)})
	}
	reg("internal/bytealg.IndexByte", idx)
	reg("internal/bytealg.IndexByteString", idx)
	reg("internal/stringslite.IndexByte", idx)
	reg("bytes.IndexByte", idx)
	reg("strings.IndexByte", idx)
	equal := func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		x, y := m.SeqCells(st, a[0]), m.SeqCells(st, a[1])
		if len(x) != len(y) {
			return one(st, c.F)
		}
		e := c.T
		for i := range x {
			e = c.And(e, c.Bin(expr.Eq, x[i].(*expr.E), y[i].(*expr.E)))
		}
		return one(st, e)
	}
	reg("bytes.Equal", equal)
	reg("internal/bytealg.Equal", equal)
	count := func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		e := c.K(0, 64)
		for _, x := range m.SeqCells(st, a[0]) {
			e = c.Bin(expr.Add, e, c.Zext(c.Bin(expr.Eq, x.(*expr.E), a[1].(*expr.E)), 64))
		}
		return m.SplitInts(st, []*expr.E{e})
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	// the rest of errors.Is is interpreted; it asks package reflect for this
	reg("errors.Is", func(st *sx.State, a []sx.Value, _ ssa.CallInstruction) []sx.Outcome {
		err, _ := a[0].(*sx.Iface)
		target, _ := a[1].(*sx.Iface)
		if err == nil || target == nil {
			return one(st, c.Bool(err == target))
		}
		return m.Call(m.Prog.ImportedPackage("errors").Func("is"), []sx.Value{err, target, c.Bool(types.Comparable(target.T))}, st)
	})
	registerSync(m, reg)
	_ = fmt.Sprint
	_ = strings.Contains
}

// rangeTable reads a table of package unicode, or of the code under test.
func rangeTable(m *sx.Machine, st *sx.State, v sx.Value) (*unicode.RangeTable, string) {
	c := m.Cells(st, v, 3)
	h := fnv.New64a()
	k := func(v sx.Value) uint64 {
		e, ok := v.(*expr.E)
		if !ok || !e.IsConst() {
			panic(sx.Unsupported{Msg: "symbolic range table"})
		}
		fmt.Fprint(h, e.C, " ")
		return e.C
	}
	t := &unicode.RangeTable{LatinOffset: int(k(c[2]))}
	r := m.ElemCells(st, c[0])
	for i := 0; i+2 < len(r); i += 3 {
		t.R16 = append(t.R16, unicode.Range16{Lo: uint16(k(r[i])), Hi: uint16(k(r[i+1])), Stride: uint16(k(r[i+2]))})
	}
	fmt.Fprint(h, "; ")
	r = m.ElemCells(st, c[1])
	for i := 0; i+2 < len(r); i += 3 {
		t.R32 = append(t.R32, unicode.Range32{Lo: uint32(k(r[i])), Hi: uint32(k(r[i+1])), Stride: uint32(k(r[i+2]))})
	}
	return t, fmt.Sprintf("%x", h.Sum64())
}
