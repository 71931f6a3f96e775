package sx

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/expr"
)

type Stats struct {
	Blocks  int // block executions: transitions of the symbolic state machine
	States  int // states entered (pending states taken from work lists)
	Merges  int
	Forks   int
	Instrs  int
	Calls   int
	Funcs   map[string]int // repository functions executed symbolically
	Summary map[string]int // functions encoded as window functions
}

// Vio is a potential violation: Cond must be unsatisfiable.
type Vio struct {
	Cond *expr.E
	Kind string // assert, panic, hang, write
	Msg  string
}

type Machine struct {
	C         *expr.C
	Prog      *ssa.Program
	fns       map[*ssa.Function]*fnInfo
	base      map[ObjID]*Obj
	globals   map[*ssa.Global]ObjID
	consts    map[*ssa.Const]Value
	strObjs   map[string]ObjID
	nextObj   int
	allocIDs  map[allocKey]ObjID
	rootStack [][]Value
	stack     []string
	Stats     Stats
	Vios      []Vio
	Reached   map[string]*expr.E
	Intrins   map[string]Intrinsic
	RepoPath  string                   // import path prefix of the code under test
	Helpers   map[string]*ssa.Function // conversions between symbolic runes and strings
	HarnPath  string                   // import path prefix of the harness
	Input     Env
	initMode  bool
	curInit   string
	initDone  map[string]bool
	FreezeGl  bool
	MaxBlocks int
	MaxDepth  int
	MaxStall  int
	MaxIter   int
	Deadline  func() bool
	Trace     bool
	BlockCnt  map[string]int
	winOK     map[*ssa.Function]int8
	names     map[*ssa.Function]*fnName
	bvMode    bool
	HangCheck func(pc *expr.E) bool // is the path feasible? (solver)

	AllocWatch int                // > 0: allocating operations are recorded
	AllocSites map[string]*expr.E // the inputs that reach each of them
}

// Env connects the machine to the input domain.
type Env interface {
	// Summarise gives the window-function summary of a call, if the domain has one.
	Summarise(m *Machine, fn *ssa.Function, args []Value, st *State) ([]Outcome, bool)
	// Decode is unicode/utf8.DecodeRune.
	Decode(dom func(*expr.Var) []bool, cells []Value) (r, w *expr.E)
}

type Intrinsic func(m *Machine, fr *Frame, st *State, args []Value, call ssa.CallInstruction) []Outcome

type Outcome struct {
	St    *State
	Val   Value
	Panic string // non-empty: the call panics
}

func NewMachine(c *expr.C, prog *ssa.Program) *Machine {
	return &Machine{C: c, Prog: prog, fns: map[*ssa.Function]*fnInfo{}, base: map[ObjID]*Obj{}, globals: map[*ssa.Global]ObjID{},
		consts: map[*ssa.Const]Value{}, strObjs: map[string]ObjID{}, allocIDs: map[allocKey]ObjID{}, Reached: map[string]*expr.E{},
		Intrins: map[string]Intrinsic{}, Stats: Stats{Funcs: map[string]int{}, Summary: map[string]int{}}, MaxBlocks: 50_000_000, MaxDepth: 600, MaxStall: 64, MaxIter: 150000, initDone: map[string]bool{}, names: map[*ssa.Function]*fnName{}, winOK: map[*ssa.Function]int8{}}
}

func (m *Machine) NewState() *State {
	return &State{heap: map[ObjID]*Obj{}, tok: new(int), allocs: map[any]int{}}
}

type Frame struct {
	fi     *fnInfo
	regs   []Value
	defers []deferred
}

type deferred struct {
	fn   Value
	args []Value
	call ssa.CallInstruction
}

type lvl struct {
	rpo   int
	meas  int64
	stall int
	iter  int
}

type pend struct {
	st     *State
	regs   []Value
	defers []deferred
	b      *ssa.BasicBlock
	lv     []lvl // loop nest levels
	seq    int
	stuck  *ssa.Phi // symbolic loop counter to make concrete
}

type pendHeap struct {
	fi *fnInfo
	p  []*pend
}

func (h pendHeap) Len() int { return len(h.p) }
func (h pendHeap) Less(i, j int) bool {
	a, b := h.p[i], h.p[j]
	n := min(len(a.lv), len(b.lv))
	for k := 0; k < n; k++ {
		if a.lv[k].rpo != b.lv[k].rpo {
			return a.lv[k].rpo < b.lv[k].rpo
		}
		if a.lv[k].meas != b.lv[k].meas {
			return a.lv[k].meas < b.lv[k].meas
		}
	}
	ra, rb := h.fi.rpo[a.b.Index], h.fi.rpo[b.b.Index]
	if len(a.lv) > n {
		ra = a.lv[n].rpo
	}
	if len(b.lv) > n {
		rb = b.lv[n].rpo
	}
	if ra != rb {
		return ra < rb
	}
	if len(a.lv) != len(b.lv) {
		return len(a.lv) < len(b.lv)
	}
	return a.seq < b.seq
}
func (h pendHeap) Swap(i, j int) { h.p[i], h.p[j] = h.p[j], h.p[i] }
func (h *pendHeap) Push(x any)   { h.p = append(h.p, x.(*pend)) }
func (h *pendHeap) Pop() any {
	n := len(h.p)
	x := h.p[n-1]
	h.p = h.p[:n-1]
	return x
}

func (m *Machine) isHarness(fn *ssa.Function) bool {
	return m.HarnPath != "" && strings.HasPrefix(pkgPath(fn), m.HarnPath)
}

func pkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// FullName is the name of a function without type arguments.
func FullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

type fnName struct {
	full, str  string
	harn, repo bool
}

func (m *Machine) name(fn *ssa.Function) *fnName {
	n := m.names[fn]
	if n == nil {
		n = &fnName{full: FullName(fn), str: fn.String(), harn: m.isHarness(fn)}
		n.repo = !n.harn && strings.HasPrefix(pkgPath(fn), m.RepoPath)
		m.names[fn] = n
	}
	return n
}

// Call runs fn on args from state st, returning every merged outcome.
func (m *Machine) Call(fn *ssa.Function, args []Value, st *State) []Outcome {
	if len(m.stack) > m.MaxDepth {
		unsup("call depth in %s", fn)
	}
	if fn.Blocks == nil {
		unsup("no body: %s", fn)
	}
	fi := m.info(fn)
	m.Stats.Calls++
	nm := m.name(fn)
	if nm.repo && !m.initMode {
		m.Stats.Funcs[nm.str]++
	}
	m.stack = append(m.stack, fn.Name())
	defer func() { m.stack = m.stack[:len(m.stack)-1] }()
	x := &exec{m: m, fi: fi, harness: nm.harn}
	x.q.fi = fi
	regs := make([]Value, fi.nreg)
	copy(regs, args)
	x.seq = 0
	x.enter(&pend{st: st, regs: regs, b: fn.Blocks[0]})
	for x.q.Len() > 0 {
		p := heap.Pop(&x.q).(*pend)
		delete(x.merged, p)
		if x.byBlock != nil {
			l := x.byBlock[p.b.Index]
			for i := range l {
				if l[i] == p {
					l[i] = l[len(l)-1]
					x.byBlock[p.b.Index] = l[:len(l)-1]
					break
				}
			}
		}
		m.Stats.States++
		x.runBlock(p, 0, true)
	}
	return x.mergeOutcomes()
}

type exec struct {
	m       *Machine
	fi      *fnInfo
	q       pendHeap
	byBlock map[int][]*pend
	merged  map[*pend]bool
	outs    []Outcome
	seq     int
	harness bool
}

// enter adds a pending state at a block entry (phis already evaluated),
// merging it with a compatible one.
func (x *exec) enter(p *pend) {
	m := x.m
	bi := p.b.Index
	if x.fi.preds[bi] > 1 || len(x.fi.liveIn[bi]) == 0 {
		if x.byBlock == nil {
			x.byBlock = map[int][]*pend{}
		}
		in := mergeIn{live: x.fi.liveIn[bi], heapInts: true, intKey: func(int) bool { return true }}
		if x.harness {
			l := x.fi.loops[bi]
			if l != nil && l.head == p.b {
				if len(l.phis) > 0 && l.parent == nil {
					in.heapInts = false
				}
			}
		}
		for _, o := range x.byBlock[bi] {
			if !sameLv(o.lv, p.lv) || !sameDefers(o.defers, p.defers) {
				continue
			}
			in.regsA, in.regsB = o.regs, p.regs
			if st, regs, ok := m.merge(o.st, p.st, in); ok {
				o.st, o.regs = st, regs
				if p.stuck != nil {
					o.stuck = p.stuck
				}
				for k := range o.lv {
					if p.lv[k].stall < o.lv[k].stall {
						o.lv[k].stall = p.lv[k].stall
					}
				}
				return
			}
		}
		x.byBlock[bi] = append(x.byBlock[bi], p)
	}
	if m.Trace && x.harness {
		fmt.Printf("push %s.%d lv %v depth %d\n", x.fi.fn.Name(), bi, p.lv, depth(p.st.pc))
	}
	x.seq++
	p.seq = x.seq
	heap.Push(&x.q, p)
}

func sameLv(a, b []lvl) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].rpo != b[i].rpo || a[i].meas != b[i].meas {
			return false
		}
	}
	return true
}

// edge moves a state along a control-flow edge.
func (x *exec) edge(st *State, regs []Value, defers []deferred, from, to *ssa.BasicBlock, lv []lvl, own bool) {
	if !own {
		regs = append([]Value(nil), regs...)
	}
	// phis
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	var vals []Value
	var idx []int
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.m.operand(x.fi, regs, phi.Edges[pi]))
		idx = append(idx, x.fi.reg[phi])
	}
	for k, r := range idx {
		regs[r] = vals[k]
	}
	// loop levels
	var nest []*loop
	for l := x.fi.loops[to.Index]; l != nil; l = l.parent {
		nest = append(nest, l)
	}
	nl := make([]lvl, 0, len(nest))
	var stuck *ssa.Phi
	for k := len(nest) - 1; k >= 0; k-- {
		l := nest[k]
		rp := x.fi.rpo[l.head.Index]
		d := len(nl)
		var cur lvl
		had := d < len(lv) && lv[d].rpo == rp
		if had {
			cur = lv[d]
			// a different outer iteration resets inner levels
			for j := 0; j < d; j++ {
				if lv[j].rpo != nl[j].rpo || lv[j].meas != nl[j].meas || lv[j].iter != nl[j].iter {
					had = false
				}
			}
			if !had {
				cur = lvl{}
			}
		}
		cur.rpo = rp
		if l.head == to {
			old := cur.meas
			if had {
				cur.iter++
			} else {
				cur.iter = 0
			}
			if len(l.phis) > 0 && l.parent == nil {
				cur.meas = x.measure(l, regs)
			} else {
				cur.meas = int64(cur.iter)
			}
			if had && cur.meas == old {
				cur.stall++
			} else {
				cur.stall = 0
			}
			if cur.stall == 12 {
				for _, ph := range l.phis {
					if e, ok := regs[x.fi.reg[ph]].(*expr.E); ok && !e.IsConst() {
						stuck = ph
					}
				}
			}
			if (cur.stall == 2 || cur.stall > 0 && cur.stall%8 == 0) && x.m.HangCheck != nil && !x.m.initMode && !x.m.HangCheck(x.m.PCExpr(st)) {
				return // the solver shows that this path is infeasible
			}
			if cur.stall > x.m.MaxStall || cur.iter > x.m.MaxIter {
				x.m.hang(st, fmt.Sprintf("loop in %s makes no progress", x.fi.fn))
				return
			}
		}
		nl = append(nl, cur)
	}
	x.enter(&pend{st: st, regs: regs, defers: defers, b: to, lv: nl, stuck: stuck})
}

func (m *Machine) hang(st *State, msg string) {
	pc := m.PCExpr(st)
	if m.initMode {
		panic("hang in init: " + msg)
	}
	if os.Getenv("VF_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "hang:", msg)
	}
	m.Vios = append(m.Vios, Vio{pc, "hang", msg})
}

func (x *exec) measure(l *loop, regs []Value) int64 {
	var s int64
	for k, p := range l.phis {
		switch v := regs[x.fi.reg[p]].(type) {
		case *expr.E:
			if v.IsConst() {
				c := v.SInt()
				if c > 1<<40 || c < -(1<<40) {
					continue
				}
				s += int64(l.sign[k]) * c
			}
		case Slice:
			s += int64(v.Off)
		case Str:
			s += int64(v.Off)
		}
	}
	return s
}

func isSeq(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

func (x *exec) mergeOutcomes() []Outcome {
	m := x.m
	var res []Outcome
	for _, o := range x.outs {
		done := false
		for i := range res {
			r := &res[i]
			if r.Panic != o.Panic {
				continue
			}
			in := mergeIn{regsA: []Value{r.Val}, regsB: []Value{o.Val}, live: []int{0}, heapInts: true, intKey: func(int) bool { return true }}
			if st, regs, ok := m.merge(r.St, o.St, in); ok {
				r.St, r.Val = st, regs[0]
				done = true
				break
			}
		}
		if !done {
			res = append(res, o)
		}
	}
	return res
}

func (m *Machine) operand(fi *fnInfo, regs []Value, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return m.constant(c)
	case *ssa.Global:
		return Ptr{m.global(c), 0}
	case *ssa.Function:
		return &Closure{Fn: c}
	case *ssa.Builtin:
		return &Closure{Bi: c}
	}
	return regs[fi.reg[v]]
}

func (m *Machine) global(g *ssa.Global) ObjID {
	if id, ok := m.globals[g]; ok {
		return id
	}
	m.nextObj++
	id := ObjID(m.nextObj)
	t := g.Type().Underlying().(*types.Pointer).Elem()
	m.base[id] = &Obj{Cells: m.zeroCells(t, nil), HasPtr: hasPtr(t), Base: true, Name: g.String()}
	m.globals[g] = id
	return id
}

func (m *Machine) str(s string) Str {
	if s == "" {
		return Str{}
	}
	id, ok := m.strObjs[s]
	if !ok {
		m.nextObj++
		id = ObjID(m.nextObj)
		cells := make([]Value, len(s))
		for i := range cells {
			cells[i] = m.C.K(uint64(s[i]), 8)
		}
		m.base[id] = &Obj{Cells: cells, Base: true, Name: "string constant"}
		m.strObjs[s] = id
	}
	return Str{id, 0, len(s)}
}

func (m *Machine) constant(c *ssa.Const) Value {
	if v, ok := m.consts[c]; ok {
		return v
	}
	v := m.constant1(c)
	m.consts[c] = v
	return v
}

func (m *Machine) constant1(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	if w, signed, ok := scalar(t); ok {
		switch c.Value.Kind() {
		case constant.Bool:
			return m.C.Bool(constant.BoolVal(c.Value))
		case constant.Int:
			if signed {
				return m.C.K(uint64(c.Int64()), w)
			}
			return m.C.K(c.Uint64(), w)
		}
	}
	if c.Value.Kind() == constant.String {
		return m.str(constant.StringVal(c.Value))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return floatVal(c.Float64())
	}
	unsup("constant %v of type %v", c, t)
	return nil
}

type forkReq struct {
	op ssa.Value
	e  *expr.E
}

// runBlock executes the block from instruction i. own: regs may be modified.
func (x *exec) runBlock(p *pend, i int, own bool) {
	m := x.m
	if i == 0 {
		m.Stats.Blocks++
		if m.BlockCnt != nil {
			m.BlockCnt[fmt.Sprintf("%s.%d", x.fi.fn.Name(), p.b.Index)]++
		}
		if m.Stats.Blocks > m.MaxBlocks {
			panic(Budget{"block budget"})
		}
		if m.Stats.Blocks%1024 == 0 && m.Deadline != nil && m.Deadline() {
			panic(Budget{"time budget"})
		}
	}
	fr := &Frame{fi: x.fi, regs: p.regs, defers: p.defers}
	st := p.st
	b := p.b
	checked := false
	if p.stuck != nil && i == 0 {
		if e, ok := fr.regs[x.fi.reg[p.stuck]].(*expr.E); ok && !e.IsConst() {
			if _, ok := m.C.May(e, m.domOf(st), 600); ok {
				for isPhi(b.Instrs[i]) {
					i++
				}
				x.concretise(p, fr, st, &forkReq{p.stuck, e}, i)
				return
			}
		}
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		m.Stats.Instrs++
		switch v := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			x.edge(st, fr.regs, fr.defers, b, b.Succs[0], p.lv, true)
			return
		case *ssa.If:
			cond := m.operand(x.fi, fr.regs, v.Cond).(*expr.E)
			switch m.eval3(st, cond) {
			case 1:
				x.edge(st, fr.regs, fr.defers, b, b.Succs[0], p.lv, true)
				return
			case 0:
				x.edge(st, fr.regs, fr.defers, b, b.Succs[1], p.lv, true)
				return
			}
			m.Stats.Forks++
			s2 := st.fork()
			if m.push(st, cond) {
				x.edge(st, fr.regs, fr.defers, b, b.Succs[0], p.lv, false)
			}
			if m.push(s2, m.C.Not(cond)) {
				x.edge(s2, fr.regs, fr.defers, b, b.Succs[1], p.lv, true)
			}
			return
		case *ssa.Return:
			var val Value
			switch len(v.Results) {
			case 0:
			case 1:
				val = m.operand(x.fi, fr.regs, v.Results[0])
			default:
				t := make(Tuple, len(v.Results))
				for k, r := range v.Results {
					t[k] = m.operand(x.fi, fr.regs, r)
				}
				val = t
			}
			x.outs = append(x.outs, Outcome{St: st, Val: val})
			return
		case *ssa.Panic:
			msg := "explicit panic"
			if ifc, ok := m.operand(x.fi, fr.regs, v.X).(*Iface); ok && ifc != nil {
				if s, ok := ifc.V.(Str); ok {
					if cs, ok := m.concreteStr(st, s); ok {
						msg += ": " + cs
					}
				}
			}
			x.panicOut(fr, st, msg)
			return
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				continue
			}
			d := fr.defers[len(fr.defers)-1]
			left := fr.defers[:len(fr.defers)-1]
			m.rootStack = append(m.rootStack, append(x.callRoots(fr, in), deferRoots(left)...))
			os := m.callValue(fr, st, d.fn, d.args, d.call)
			m.rootStack = m.rootStack[:len(m.rootStack)-1]
			for _, o := range os {
				if o.Panic != "" {
					x.unwind(&Frame{fi: fr.fi, regs: fr.regs, defers: left}, o.St, o.Panic)
					continue
				}
				x.runBlock(&pend{st: o.St, regs: append([]Value(nil), fr.regs...), defers: left, b: b, lv: p.lv}, i, true)
			}
			return
		case *ssa.Defer:
			fn, args := m.callOperands(fr, v.Common())
			fr.defers = append(append([]deferred(nil), fr.defers...), deferred{fn, args, v})
			continue
		case *ssa.Convert:
			X := m.operand(x.fi, fr.regs, v.X)
			if m.AllocWatch > 0 && !x.harness {
				m.noteAlloc(st, x.fi.fn, in)
			}
			h := m.converter(st, X, v.X.Type(), v.Type())
			if h == nil {
				fr.regs[x.fi.reg[v]] = m.convert(st, X, v.X.Type(), v.Type(), v)
				continue
			}
			if e, ok := X.(*expr.E); ok {
				_, signed, _ := scalar(v.X.Type())
				X = m.runeArg(e, signed)
			}
			m.rootStack = append(m.rootStack, append(x.callRoots(fr, in), deferRoots(fr.defers)...))
			outs := m.callFn(fr, st, h, []Value{X}, nil)
			m.rootStack = m.rootStack[:len(m.rootStack)-1]
			if st = x.spread(p, fr, outs, v, b, i); st == nil {
				return
			}
			continue
		case *ssa.Call:
			// push roots
			roots := append(x.callRoots(fr, in), deferRoots(fr.defers)...)
			fn, args := m.callOperands(fr, v.Common())
			m.rootStack = append(m.rootStack, roots)
			if m.AllocWatch > 0 && !x.harness {
				m.noteAlloc(st, x.fi.fn, in)
			}
			req, outs := m.tryCall(fr, st, fn, args, v)
			m.rootStack = m.rootStack[:len(m.rootStack)-1]
			if req != nil {
				x.concretise(p, fr, st, req, i)
				return
			}
			if st = x.spread(p, fr, outs, v, b, i); st == nil {
				return
			}
			continue
		default:
			if m.AllocWatch > 0 && !checked && !x.harness {
				m.noteAlloc(st, x.fi.fn, in)
			}
			req, pan := x.instr(fr, st, in, checked)
			checked = false
			if req != nil {
				x.concretise(p, fr, st, req, i)
				return
			}
			if pan != nil {
				// pan.cond: condition under which the instruction panics
				switch m.eval3(st, pan.cond) {
				case 1:
					x.panicOut(fr, st, pan.msg)
					return
				case 0:
				default:
					s2 := st.fork()
					if m.push(s2, pan.cond) {
						x.panicOut(fr, s2, pan.msg)
					}
					if !m.push(st, m.C.Not(pan.cond)) {
						return
					}
				}
				i--
				checked = true
			}
		}
	}
	panic("block without terminator")
}

func isPhi(in ssa.Instruction) bool {
	_, ok := in.(*ssa.Phi)
	return ok
}

// spread goes on after instruction i, which had the given outcomes: with the
// state it returns, if it is the only one, or with all of them itself.
func (x *exec) spread(p *pend, fr *Frame, outs []Outcome, v ssa.Value, b *ssa.BasicBlock, i int) *State {
	if len(outs) == 1 && outs[0].Panic == "" {
		fr.regs[x.fi.reg[v]] = outs[0].Val
		return outs[0].St
	}
	for k, o := range outs {
		if o.Panic != "" {
			x.panicOut(fr, o.St, o.Panic)
			continue
		}
		regs := fr.regs
		if k < len(outs)-1 {
			regs = append([]Value(nil), regs...)
		}
		regs[x.fi.reg[v]] = o.Val
		x.runBlock(&pend{st: o.St, regs: regs, defers: fr.defers, b: b, lv: p.lv}, i+1, true)
	}
	return nil
}

// Budget is panicked when an exploration limit is reached.
type Budget struct{ Msg string }

func (x *exec) panicOut(fr *Frame, st *State, msg string) {
	x.unwind(fr, st, msg)
}

// callRoots are the references of the frame that are live across an instruction.
func (x *exec) callRoots(fr *Frame, in ssa.Instruction) []Value {
	lv := x.fi.callLv[in]
	roots := make([]Value, 0, len(lv))
	for _, r := range lv {
		if fr.regs[r] != nil {
			switch fr.regs[r].(type) {
			case *expr.E:
			default:
				roots = append(roots, fr.regs[r])
			}
		}
	}
	return roots
}

func deferRoots(l []deferred) (r []Value) {
	for _, d := range l {
		r = append(append(r, d.fn), d.args...)
	}
	return r
}

// unwind runs the frame's deferred calls while it panics. If one of them calls
// recover, the function returns its named results.
func (x *exec) unwind(fr *Frame, st *State, msg string) {
	m := x.m
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		left := fr.defers[:n-1]
		var named []Value
		if b := x.fi.fn.Recover; b != nil {
			for _, r := range fr.regs {
				if _, ok := r.(Ptr); ok {
					named = append(named, r)
				}
			}
		}
		saved := st.pan
		st.pan = msg
		m.rootStack = append(m.rootStack, append(named, deferRoots(left)...))
		os := m.callValue(fr, st, d.fn, d.args, d.call)
		m.rootStack = m.rootStack[:len(m.rootStack)-1]
		for _, o := range os {
			f := &Frame{fi: fr.fi, regs: fr.regs, defers: left}
			switch {
			case o.Panic != "":
				o.St.pan = saved
				x.unwind(f, o.St, o.Panic)
			case o.St.pan == "": // recovered
				o.St.pan = saved
				b := x.fi.fn.Recover
				if b == nil {
					unsup("recover in a function without a recover block: %s", x.fi.fn)
				}
				x.runBlock(&pend{st: o.St, regs: append([]Value(nil), fr.regs...), defers: left, b: b}, 0, true)
			default:
				o.St.pan = saved
				x.unwind(f, o.St, msg)
			}
		}
		return
	}
	if !strings.Contains(msg, " in ") {
		msg += " in " + x.fi.fn.String()
	}
	x.outs = append(x.outs, Outcome{St: st, Panic: msg})
}

// concretise forks the state over the values of a symbolic integer and
// re-executes instruction i in each.
func (x *exec) concretise(p *pend, fr *Frame, st *State, req *forkReq, i int) {
	m := x.m
	if req.op == nil { // a condition
		s := st.fork()
		m.Stats.Forks++
		for _, c := range []struct {
			s *State
			c *expr.E
		}{{s, req.e}, {st, m.C.Not(req.e)}} {
			if m.eval3(c.s, c.c) == 0 || m.eval3(c.s, c.c) < 0 && !m.push(c.s, c.c) {
				continue
			}
			if m.eval3(c.s, req.e) < 0 {
				unsup("undecided condition in %s (%s)", x.fi.fn, p.b.Instrs[i])
			}
			x.runBlock(&pend{st: c.s, regs: append([]Value(nil), fr.regs...), defers: fr.defers, b: p.b, lv: p.lv}, i, true)
		}
		return
	}
	vals, ok := m.C.May(req.e, m.domOf(st), 600)
	if !ok {
		unsup("cannot enumerate %v in %s (%s)", req.e, x.fi.fn, p.b.Instrs[i])
	}
	r, isReg := x.fi.reg[req.op]
	if !isReg {
		unsup("symbolic constant operand")
	}
	for k, v := range vals {
		s := st
		if k < len(vals)-1 {
			s = st.fork()
		}
		kv := m.C.K(v, req.e.W)
		cond := m.C.Bin(expr.Eq, req.e, kv)
		switch m.eval3(s, cond) {
		case 0:
			continue
		case -1:
			if !m.push(s, cond) {
				continue
			}
		}
		m.Stats.Forks++
		regs := append([]Value(nil), fr.regs...)
		regs[r] = kv
		// also replace every other register holding the same expression
		for j := range regs {
			if e, ok := regs[j].(*expr.E); ok && e == req.e {
				regs[j] = kv
			}
		}
		x.runBlock(&pend{st: s, regs: regs, defers: fr.defers, b: p.b, lv: p.lv}, i, true)
	}
}

func (m *Machine) domOf(st *State) func(*expr.Var) []bool {
	return func(v *expr.Var) []bool {
		if v.ID >= len(st.dom) || st.dom[v.ID] == nil {
			return nil
		}
		t := st.dom[v.ID].T.Vals
		r := make([]bool, len(t))
		for i, x := range t {
			r[i] = x == 1
		}
		return r
	}
}

func (m *Machine) concreteStr(st *State, s Str) (string, bool) {
	if s.Len == 0 {
		return "", true
	}
	o := m.obj(st, s.O)
	b := make([]byte, s.Len)
	for i := range b {
		e, ok := o.Cells[s.Off+i].(*expr.E)
		if !ok || !e.IsConst() {
			return "", false
		}
		b[i] = byte(e.C)
	}
	return string(b), true
}

func (m *Machine) callOperands(fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	fn := m.operand(fr.fi, fr.regs, c.Value)
	for _, a := range c.Args {
		args = append(args, m.operand(fr.fi, fr.regs, a))
	}
	return fn, args
}

// tryCall performs a call; a non-nil request asks for an operand to be made concrete.
func (m *Machine) tryCall(fr *Frame, st *State, fn Value, args []Value, call *ssa.Call) (req *forkReq, outs []Outcome) {
	c := call.Common()
	if cl, ok := fn.(*Closure); ok && cl != nil && cl.Bi != nil {
		return m.builtin(fr, st, cl.Bi, args, call)
	}
	return nil, m.callValue(fr, st, fn, args, call).check(c)
}

type outcomes []Outcome

func (o outcomes) check(*ssa.CallCommon) []Outcome { return o }

func (m *Machine) callValue(fr *Frame, st *State, fn Value, args []Value, call ssa.CallInstruction) outcomes {
	c := call.Common()
	if c.IsInvoke() {
		recv, _ := fn.(*Iface)
		if recv == nil && m.initMode {
			return outcomes{{St: st, Val: m.poisonSig(c.Method.Type().(*types.Signature))}}
		}
		if recv == nil {
			return outcomes{{St: st, Panic: "nil interface method call"}}
		}
		f := m.Prog.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			unsup("method %s of %s", c.Method, recv.T)
		}
		args = append([]Value{recv.V}, args...)
		return m.callFn(fr, st, f, args, call)
	}
	cl, ok := fn.(*Closure)
	if !ok || cl == nil {
		return outcomes{{St: st, Panic: "nil function call"}}
	}
	if cl.Bi != nil {
		unsup("deferred builtin")
	}
	if len(cl.Binds) > 0 {
		args = append(append([]Value(nil), args...), cl.Binds...)
	}
	return m.callFn(fr, st, cl.Fn, args, call)
}

// CallFn applies a function, using intrinsics and summaries where they apply.
func (m *Machine) callFn(fr *Frame, st *State, f *ssa.Function, args []Value, call ssa.CallInstruction) outcomes {
	if h, ok := m.Intrins[m.name(f).full]; ok {
		return h(m, fr, st, args, call)
	}
	if f.Blocks == nil {
		if m.initMode {
			return outcomes{{St: st, Val: m.poison(f)}}
		}
		unsup("function without body: %s", f)
	}
	if m.initMode && !m.initAllowed(f) {
		return outcomes{{St: st, Val: m.poison(f)}}
	}
	if m.Input != nil && !m.initMode {
		if os, ok := m.Input.Summarise(m, f, args, st); ok {
			if m.AllocWatch > 0 {
				m.noteAll(st, f, 0)
			}
			return os
		}
	}
	return m.Call(f, args, st)
}

func (m *Machine) poison(f *ssa.Function) Value { return m.poisonSig(f.Signature) }

func (m *Machine) poisonSig(sig *types.Signature) Value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(r.At(0).Type())
	}
	t := make(Tuple, r.Len())
	for i := range t {
		t[i] = m.zero(r.At(i).Type())
	}
	return t
}

var initPkgs = map[string]bool{"errors": true, "io": true, "bufio": true, "bytes": true, "strings": true, "unicode/utf8": true, "unicode": true, "unicode/utf16": true, "math/bits": true, "slices": true, "sort": true, "iter": true, "cmp": true}

func (m *Machine) initAllowed(f *ssa.Function) bool {
	p := pkgPath(f)
	return strings.HasPrefix(p, m.RepoPath) || initPkgs[p]
}

// InitPackages runs the package initialisers of pkg and its imports
// concretely; the resulting heap becomes the base heap.
func (m *Machine) InitPackages(pkg *ssa.Package) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				err = fmt.Errorf("package initialisation: %v", u)
				return
			}
			panic(r)
		}
	}()
	st := m.NewState()
	m.initMode = true
	outs := m.Call(pkg.Func("init"), nil, st)
	m.initMode = false
	if len(outs) != 1 || outs[0].Panic != "" {
		return fmt.Errorf("package initialisation: %d outcomes %v", len(outs), outs[0].Panic)
	}
	for id, o := range outs[0].St.heap {
		o.Base = true
		o.tok = nil
		m.base[id] = o
	}
	m.allocIDs = map[allocKey]ObjID{}
	m.Stats = Stats{Funcs: map[string]int{}, Summary: map[string]int{}}
	return nil
}

var _ = token.ADD
