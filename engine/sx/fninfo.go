package sx

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	head   *ssa.BasicBlock
	parent *loop
	blocks map[int]bool
	phis   []*ssa.Phi // integer or slice phis used as progress measure
	sign   []int
}

type fnInfo struct {
	fn     *ssa.Function
	reg    map[ssa.Value]int
	nreg   int
	rpo    []int   // block index -> rpo number
	loops  []*loop // block index -> innermost loop
	liveIn [][]int // block index -> live registers at entry (after phis)
	preds  []int
	callLv map[ssa.Instruction][]int
	instrs int
}

func (m *Machine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := m.fns[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, reg: map[ssa.Value]int{}, callLv: map[ssa.Instruction][]int{}}
	m.fns[fn] = fi
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	nb := len(fn.Blocks)
	for _, b := range fn.Blocks {
		fi.instrs += len(b.Instrs)
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	// rpo
	fi.rpo = make([]int, nb)
	fi.loops = make([]*loop, nb)
	fi.preds = make([]int, nb)
	seen := make([]bool, nb)
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			fi.preds[s.Index]++
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if b := fn.Recover; b != nil {
		dfs(b)
	}
	if !seen[0] {
		dfs(fn.Blocks[0])
	}
	for i, b := range post {
		fi.rpo[b.Index] = len(post) - 1 - i
	}
	// natural loops
	heads := map[*ssa.BasicBlock]*loop{}
	for i := len(post) - 1; i >= 0; i-- {
		b := post[i]
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := heads[s]
				if l == nil {
					l = &loop{head: s, blocks: map[int]bool{s.Index: true}}
					heads[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x.Index] || !seen[x.Index] {
						return
					}
					l.blocks[x.Index] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	var all []*loop
	for _, l := range heads {
		all = append(all, l)
	}
	for _, l := range all {
		for _, o := range all {
			if o != l && o.blocks[l.head.Index] && (l.parent == nil || len(o.blocks) < len(l.parent.blocks)) {
				l.parent = o
			}
		}
		for bi := range l.blocks {
			cur := fi.loops[bi]
			if cur == nil || len(l.blocks) < len(cur.blocks) {
				fi.loops[bi] = l
			}
		}
		for _, in := range l.head.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			w, _, sc := scalar(phi.Type())
			if sc && w == 64 || isSeq(phi.Type()) {
				sign := 1
				for k, e := range phi.Edges {
					if !l.blocks[l.head.Preds[k].Index] {
						continue
					}
					if bo, ok := e.(*ssa.BinOp); ok {
						if bo.Op == token.SUB {
							sign = -1
						}
						if c, ok := bo.Y.(*ssa.Const); ok && bo.Op == token.ADD && c.Value != nil && c.Int64() < 0 {
							sign = -1
						}
					}
				}
				l.phis = append(l.phis, phi)
				l.sign = append(l.sign, sign)
			}
		}
	}
	// liveness
	use := func(set map[int]bool, i ssa.Instruction) {
		var ops [12]*ssa.Value
		for _, o := range i.Operands(ops[:0]) {
			if *o == nil {
				continue
			}
			if r, ok := fi.reg[*o]; ok {
				set[r] = true
			}
		}
	}
	in := make([]map[int]bool, nb)
	for i := range in {
		in[i] = map[int]bool{}
	}
	// live at entry after phis have been evaluated: phi results are live if used
	outOf := func(b *ssa.BasicBlock) map[int]bool {
		o := map[int]bool{}
		for _, s := range b.Succs {
			// uses by phis on this edge
			pi := 0
			for k, p := range s.Preds {
				if p == b {
					pi = k
				}
			}
			_ = pi
			phiRes := map[int]bool{}
			for _, i := range s.Instrs {
				phi, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				phiRes[fi.reg[phi]] = true
				for k, p := range s.Preds {
					if p == b {
						if r, ok := fi.reg[phi.Edges[k]]; ok {
							o[r] = true
						}
					}
				}
			}
			for r := range in[s.Index] {
				if !phiRes[r] {
					o[r] = true
				}
			}
		}
		return o
	}
	for changed := true; changed; {
		changed = false
		for _, b := range post {
			lv := outOf(b)
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				i := b.Instrs[k]
				if _, ok := i.(*ssa.Phi); ok {
					continue
				}
				if v, ok := i.(ssa.Value); ok {
					delete(lv, fi.reg[v])
				}
				use(lv, i)
			}
			if len(lv) != len(in[b.Index]) {
				in[b.Index] = lv
				changed = true
			}
		}
	}
	fi.liveIn = make([][]int, nb)
	for _, b := range post {
		for r := range in[b.Index] {
			fi.liveIn[b.Index] = append(fi.liveIn[b.Index], r)
		}
		sortInts(fi.liveIn[b.Index])
		// live after each call
		lv := outOf(b)
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			i := b.Instrs[k]
			if _, ok := i.(*ssa.Phi); ok {
				continue
			}
			if v, ok := i.(ssa.Value); ok {
				delete(lv, fi.reg[v])
			}
			_, rd := i.(*ssa.RunDefers)
			_, cv := i.(*ssa.Convert)
			if _, ok := i.(ssa.CallInstruction); ok || rd || cv {
				var l []int
				for r := range lv {
					l = append(l, r)
				}
				sortInts(l)
				fi.callLv[i] = l
			}
			use(lv, i)
		}
	}
	return fi
}

func sortInts(a []int) {
	for i := 1; i < len(a); i++ {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}
