package run

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Plan is what a check of a property runs.
type Plan struct {
	Tasks  []TaskSpec
	Bounds []string
}

type planner struct {
	tier  string
	sizes map[string][]int // sizes that each package's code mentions
	p     Plan
	seen  map[string]bool
}

// add queues a harness instance.
func (p *planner) add(fn string, args ...int) {
	t := TaskSpec{Fn: fn, Args: args, Samples: 3, Limit: 60}
	if p.tier == "thorough" {
		t.Limit, t.Samples = 900, 12
	}
	if !p.seen[t.Name()] {
		p.seen[t.Name()] = true
		p.p.Tasks = append(p.p.Tasks, t)
	}
}

func (p *planner) bound(f string, a ...any) { p.p.Bounds = append(p.p.Bounds, fmt.Sprintf(f, a...)) }

// pick is q in the quick tier and t in the thorough one.
func (p *planner) pick(q, t int) int {
	if p.tier == "thorough" {
		return t
	}
	return q
}

// patterns lists the width patterns of n characters with the given widths.
func patterns(n int, widths ...int) []int {
	r := []int{0}
	for i := 0; i < n; i++ {
		var s []int
		for _, x := range r {
			for _, w := range widths {
				s = append(s, x*10+w)
			}
		}
		r = s
	}
	return r
}

func size(pat int) int {
	n := 0
	for ; pat > 0; pat /= 10 {
		n += pat % 10
	}
	return n
}

// nfill is the number of fillers of each kind (harness/vh/run.go).
var nfill = [4]int{23, 31, 29, 32}

// fillLen is the filler's length in bytes, read from the harness.
var kindName = [4]string{"graphemes", "words", "sentences", "phrases"}

// shapes are the widths of the characters around a run of fillers.
var shapes = [4][][2]int{
	{{3, 33}, {4, 34}, {1, 3}, {4, 4}},
	{{11, 1}, {21, 2}, {13, 1}, {1, 11}},
	{{11, 1}, {11, 11}, {12, 2}, {13, 3}},
	{{11, 1}, {21, 2}, {13, 1}, {1, 11}},
}

// wide lists width patterns beyond the fully symbolic size.
func (p *planner) wide(kind, above int, f func(pat int)) {
	var l []int
	l = append(l, patterns(2, 1, 2, 3, 4)...)
	l = append(l, patterns(3, 1, 2, 3, 4)...)
	if p.tier == "thorough" {
		l = append(l, patterns(4, 1, 2, 3, 4)...)
		l = append(l, patterns(5, 1, 3)...)
		l = append(l, patterns(5, 3, 4)...)
		l = append(l, patterns(6, 1, 3)...)
	} else {
		switch kind {
		case 0:
			l = append(l, patterns(4, 3, 4)...)
			l = append(l, 1333, 3133, 3313, 3331, 1434, 33333, 34343, 43434, 44444)
		default:
			l = append(l, patterns(4, 1, 3)...)
			l = append(l, 1214, 4141, 1414, 2121, 1212, 2222, 4343, 3434, 4444, 11311, 13131, 31313)
		}
	}
	for _, pat := range l {
		if size(pat) > above {
			f(pat)
		}
	}
}

// lengths are the repetitions of fillers to try.
func (p *planner) lengths(quick ...int) []int {
	m := map[int]bool{}
	for _, k := range quick {
		m[k] = true
	}
	if p.tier == "thorough" {
		for _, k := range []int{5, 7, 16, 31, 33, 63, 65, 127, 129, 255, 257, 400} {
			m[k] = true
		}
	}
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// fills runs f for every filler of the kind, length and shape.
func (p *planner) fills(kind int, f func(px, fl, k, py int), ks ...int) {
	p.fillsIn(kind, shapes[kind][:p.pick(1, 4)], f, ks...)
}

// fillsIn does so with characters of the given widths around the fillers.
func (p *planner) fillsIn(kind int, shapes [][2]int, f func(px, fl, k, py int), ks ...int) {
	for _, sh := range shapes {
		for fl := 0; fl < nfill[kind]; fl++ {
			for _, k := range p.lengths(ks...) {
				f(sh[0], fl, k, sh[1])
			}
		}
	}
	// sizes the code itself mentions
	for _, c := range p.consts(kindName[kind]) {
		ks, stride := []int{c - 2, c - 1, c, c + 1, c / 2, c/2 + 1, c / 3, c/3 + 1}, p.pick(3, 1)
		if c > 1100 && p.tier != "thorough" {
			ks, stride = []int{c + 1, c/2 + 1}, 4
		}
		if c > 9000 {
			ks, stride = []int{c + 1}, 8
		}
		if c == 128 || c == 256 {
			// where a narrow counter wraps around
			ks, stride = []int{c - 1, c, c + 1, c + 72}, 1
		}
		for _, k := range ks {
			if k < 4 {
				continue
			}
			for fl := 0; fl < nfill[kind]; fl++ {
				// the plain letter (index 2 or 3, 13 for graphemes) is always tried
				if fl%stride == 0 || fl == [4]int{13, 3, 2, 3}[kind] {
					f(shapes[0][0], fl, k, shapes[0][1])
				}
			}
		}
	}
}

// consts are the sizes that the package of the name and the packages it shares
// with others mention.
func (p *planner) consts(name string) []int {
	m := map[int]bool{}
	for path, cs := range p.sizes {
		if path == Module+"/"+name || strings.HasPrefix(path, Module+"/internal/") {
			for _, c := range cs {
				m[c] = true
			}
		}
	}
	return sorted(m)
}

func sorted(m map[int]bool) []int {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func (p *planner) conform(kind int) {
	nq := [4]int{7, 6, 6, 6}[kind]
	nt := [4]int{11, 9, 8, 8}[kind]
	n := p.pick(nq, nt)
	for i := n; i >= 1; i-- {
		p.add("Conform", kind, i)
	}
	p.wide(kind, n, func(pat int) { p.add("ConformW", kind, pat) })
	p.fills(kind, func(px, f, k, py int) { p.add("Fill", kind, px, f, k, py) }, 9, 70)
	p.bound("%s: every valid text of up to %d bytes; every text of characters of the listed widths (ConformW); every text X F^k Y with symbolic X, Y and the listed fillers F and lengths k (Fill)", kindName[kind], n)
}

// MakePlan gives the harness instances of a property.
func MakePlan(prop, tier string, sizes map[string][]int) (Plan, error) {
	p := &planner{tier: tier, sizes: sizes, seen: map[string]bool{}}
	kinds := []int{0, 1, 2, 3}
	switch prop {
	case "P01":
		n := p.pick(6, 8)
		for _, k := range kinds {
			for i := n; i >= 0; i-- {
				p.add("Partition", k, i)
			}
			for i := p.pick(5, 6); i >= 1; i -= 2 {
				p.add("PartitionS", k, i)
			}
			p.wide(k, n, func(pat int) { p.add("PartitionW", k, pat) })
			p.fills(k, func(px, f, kk, py int) {
				if p.tier == "thorough" || f%3 == 0 {
					p.add("PartitionF", k, px, f, kk, py)
				}
			}, 40)
		}
		for o := 1; o < 4; o++ {
			for i := p.pick(5, 7); i >= 1; i-- {
				p.add("PartitionAnsi", o, i)
			}
		}
		for s := 0; s < 2; s++ {
			for i := p.pick(4, 5); i >= 1; i-- {
				p.add("PartitionJ", s, i)
			}
		}
		p.bound("every byte sequence of up to %d bytes in the four tokenizers (strings up to %d, ANSI options up to %d, joiners up to %d)", n, p.pick(5, 6), p.pick(5, 7), p.pick(4, 5))
	case "P02", "P03", "P04", "P05":
		p.conform(int(prop[2] - '2'))
	case "P06":
		nl := [4]int{26, 38, 35, 42}
		for _, k := range kinds {
			for w := 4; w >= 1; w-- {
				for l := 0; l < nl[k]; l++ {
					p.add("Char", k, w, l)
				}
				for l := 0; l < nl[k]; l += p.pick(9, 2) {
					p.add("CharAny", k, w, l, p.pick(3, 4))
				}
			}
		}
		p.bound("every character of each encoded width between every two of the listed contexts; after a context and before every sequence of %d bytes", p.pick(3, 4))
	case "P07":
		for _, k := range kinds {
			n := p.pick(4, 6)
			for i := n; i >= 0; i-- {
				for _, buf := range []int{0, 1, 3} {
					if i == n && buf == 1 && p.tier != "thorough" {
						continue
					}
					p.add("Reader", k, i, buf, 0)
				}
				p.add("Reader", k, i, 2, 1)
			}
			for _, pat := range append(patterns(2, 1, 2, 3, 4), patterns(3, 1, 3)...) {
				p.add("ReaderW", k, pat, 0, 0)
				p.add("ReaderW", k, pat, 2, pat%2)
			}
			p.add("ReaderW", k, 343, 4, 0)
			p.add("ReaderW", k, 434, 5, 0)
			p.add("ReaderW", k, 1111, 0, 0)
			p.fills(k, func(px, f, kk, py int) {
				if kk > 60 && p.tier != "thorough" && f%4 != 0 {
					return
				}
				p.add("ReaderF", k, px%10, f, kk, py%10, []int{0, 7, 16}[f%3], f%2)
			}, 14, 100)
			for i := p.pick(4, 6); i >= 2; i-- {
				p.add("ReaderMax", k, i, 1, 2)
				p.add("ReaderMax", k, i, 0, 3)
				p.add("ReaderMax", k, i, 2, i)
			}
			p.fills(k, func(px, f, kk, py int) {
				if kk <= 60 && (f%2 == 0 || p.tier == "thorough") {
					p.add("ReaderMaxF", k, px%10, f, kk, py%10, 5, 3+f%8)
				}
			}, 14)
			f := []int{13, 3, 2, 3}[k]
			for _, kk := range []int{4094, 4095, 4096} {
				p.add("ReaderF", k, 1, f, kk, 1, 0, 0)
			}
		}
		p.bound("every byte sequence of up to %d bytes under every partition into reads, an empty read, end with or after the last bytes, or a failure, with initial buffers of 0 (default), 1-3 bytes; texts of the listed widths; texts X F^k Y up to 4097 bytes with reads ending near either end", p.pick(4, 6))
	case "P08":
		n := p.pick(6, 8)
		for _, k := range kinds {
			for i := n; i >= 1; i-- {
				p.add("Prefix", k, i)
			}
			p.wide(k, n, func(pat int) {
				p.add("PrefixW", k, pat)
			})
			for c := 1; c <= p.pick(3, 4); c++ {
				for _, pat := range patterns(c, 1, 2, 3, 4) {
					p.add("Prompt", k, pat)
				}
			}
			for _, pat := range patterns(4, 1, 3) {
				p.add("Prompt", k, pat)
			}
			p.fills(k, func(px, f, kk, py int) {
				p.add("PrefixF", k, px, f, kk, py)
				if f%2 == 0 || p.tier == "thorough" {
					p.add("PromptF", k, px, f, kk, py)
				}
			}, 30)
		}
		p.bound("every byte sequence of up to %d bytes and every prefix of it; valid texts of the listed widths; texts X F^k Y", n)
	case "P09":
		n := p.pick(6, 8)
		for _, k := range kinds {
			for i := n; i >= 0; i-- {
				p.add("Forms", k, i)
			}
			p.wide(k, n, func(pat int) { p.add("FormsW", k, pat) })
			p.fills(k, func(px, f, kk, py int) {
				if p.tier == "thorough" || f%2 == 0 {
					p.add("FormsF", k, px, f, kk, py)
				}
			}, 40)
		}
		for o := 1; o < 4; o++ {
			for i := p.pick(5, 7); i >= 1; i-- {
				p.add("FormsAnsi", o, i)
			}
		}
		for s := 0; s < 2; s++ {
			for i := p.pick(4, 5); i >= 1; i-- {
				p.add("FormsJ", s, i)
			}
		}
		p.bound("every byte sequence of up to %d bytes (ANSI options up to %d, joiners up to %d)", n, p.pick(5, 7), p.pick(4, 5))
	case "P10":
		for _, k := range kinds {
			c := p.pick(4, 6)
			for _, x := range [][2]int{{3, 2}, {2, 3}, {4, 1}, {1, 0}, {0, 2}} {
				p.add("Proto", k, c, x[0], x[1])
			}
			for _, x := range [][2]int{{31, 13}, {131, 2}, {11, 41}, {33, 4}, {111, 111}, {1111, 11}} {
				p.add("ProtoW", k, c, x[0], x[1])
			}
		}
		for _, k := range kinds {
			p.fills(k, func(px, f, kk, py int) {
				if p.tier == "thorough" || f%3 == k%3 && (k != 2 || f != 20) {
					c := 3
					if k > 1 || kk > 100 {
						c = p.pick(2, 3)
					}
					p.add("ProtoF", k, 0, c, 1-f/3%2, px%10, f, kk, py%10)
				}
				if o := f % 5; o > 0 && (k == 0 && o < 4 || k == 1 && o == 4) {
					p.add("ProtoF", k, o, 3, f/5%2, px%10, f, kk, py%10)
				}
			}, 20, 270)
		}
		for o := 1; o <= 4; o++ {
			p.add("ProtoOpt", o, p.pick(4, 5), 3, 2)
			p.add("ProtoOpt", o, 3, 4, 3)
		}
		p.bound("every history of up to %d calls over every pair of texts of up to 4 bytes (or of the listed widths)", p.pick(4, 6))
	case "P11":
		for _, o := range []int{1, 3} {
			for i := p.pick(6, 8); i >= 1; i-- {
				p.add("Ansi", o, i)
			}
			p.fills(0, func(px, f, kk, py int) {
				for in := 0; in < 7; in++ {
					if p.tier == "thorough" || in%3 == f%3 && ((f+in)%2 == 0) == (o == 3) {
						p.add("AnsiAfter", o, f, kk, in, 3)
					}
				}
			}, 1, 50)
			for in := 0; in < 7; in++ {
				for _, k := range p.lengths(1, 2, 5, 40) {
					p.add("AnsiLong", o, in, k, p.pick(3, 4))
				}
				for _, c := range p.consts("graphemes") {
					if c <= 20000 {
						p.add("AnsiLong", o, in, c, 2)
						p.add("AnsiLong", o, in, c+1, 2)
					}
				}
				p.add("AnsiLong", o, in, 300, 2)
				p.add("AnsiLong", o, in, p.pick(4500, 66000), 2)
			}
		}
		p.bound("every byte sequence of up to %d bytes, with the 8-bit option on or off; every introducer followed by k equal bytes and every %d bytes", p.pick(6, 8), p.pick(3, 4))
	case "P12":
		for _, o := range []int{2, 3} {
			for i := p.pick(6, 8); i >= 1; i-- {
				p.add("Ansi", o, i)
			}
			p.fills(0, func(px, f, kk, py int) {
				for in := 7; in < 13; in++ {
					if p.tier == "thorough" || in%3 == f%3 && ((f+in)%2 == 0) == (o == 3) {
						p.add("AnsiAfter", o, f, kk, in, 3)
					}
				}
			}, 1, 50)
			for in := 7; in < 13; in++ {
				for _, k := range p.lengths(1, 2, 5, 40) {
					p.add("AnsiLong", o, in, k, p.pick(3, 4))
				}
				for _, c := range p.consts("graphemes") {
					if c <= 20000 {
						p.add("AnsiLong", o, in, c, 2)
						p.add("AnsiLong", o, in, c+1, 2)
					}
				}
				p.add("AnsiLong", o, in, 300, 2)
				p.add("AnsiLong", o, in, p.pick(4500, 66000), 2)
			}
		}
		p.bound("every byte sequence of up to %d bytes, with the 7-bit option on or off; every introducer followed by k equal bytes and every %d bytes", p.pick(6, 8), p.pick(3, 4))
	case "P13":
		for i := 0; i <= p.pick(4, 6); i++ {
			p.add("AnsiDefault", i)
		}
		for i := p.pick(6, 8); i >= 1; i-- {
			for w := 0; w < 3; w++ {
				for o := 0; o < 2; o++ {
					p.add("AnsiInert", w, o, i)
				}
			}
			for w := 0; w < 2; w++ {
				for o := 0; o < 2; o++ {
					p.add("AnsiTerm", w, o, i)
				}
			}
		}
		p.fills(0, func(px, f, kk, py int) {
			for w := 0; w < 3; w++ {
				if w == 1 && f != 13 && f != 14 && f != 15 && f != 20 {
					continue // bytes 0x80-0x9F
				}
				if p.tier == "thorough" || (f+w)%3 == 0 || w == 1 {
					p.add("AnsiInertF", w, f%2, px%10, f, kk, py%10)
				}
			}
		}, 9, 300)
		p.add("AnsiToggle", p.pick(4, 6), 3)
		p.add("AnsiToggle", p.pick(3, 5), 4)
		p.bound("every byte sequence of up to %d bytes and every setting of the other option", p.pick(6, 8))
	case "P14":
		n := p.pick(5, 6)
		for lo := 0; lo < 22; lo += 4 {
			hi := min(lo+4, 22)
			p.add("Join", lo, hi, 1, 0, n)
			p.add("Join", lo, hi, 0, 1, n)
			p.add("Join", lo, hi, 1, 1, n-1)
			p.add("Join", lo, hi, 2, 1, 3)
			p.add("Join", lo, hi, 1, 2, 3)
			for _, pat := range append(patterns(3, 1, 3), 1111, 4141, 1414, 1241, 2121, 1212) {
				if p.tier == "thorough" || pat%2 == lo/4%2 {
					p.add("JoinW", lo, hi, 1, 1, pat)
				}
			}
		}
		p.add("Join", 0, 22, 1, 1, 4)
		for _, k := range []int{7, 70} {
			p.add("JoinMany", k, 0, 22, 1, 0, 4)
			p.add("JoinMany", k, 0, 22, 0, 1, 4)
			p.add("JoinMany", k, 0, 22, 1, 1, 3)
		}
		p.fills(1, func(px, f, kk, py int) {
			if p.tier == "thorough" || f%2 == kk%2 {
				p.add("JoinF", 0, 22, 1, 1, px%10, f, kk, py%10)
			}
			if p.tier == "thorough" || f%6 == kk%6 {
				p.add("JoinReaderF", 0, 22, 1, 1, px%10, f, kk, py%10, 4)
			}
		}, 12, 75)
		for form := 0; form < 4; form++ {
			p.add("JoinNamed", form, 0, 22, 1, 0, 4)
			p.add("JoinNamed", form, 0, 22, 0, 1, 4)
		}
		p.add("JoinSwitch", p.pick(4, 5), 3)
		p.add("JoinSwitch", p.pick(3, 5), 4)
		for _, pat := range []int{31, 13, 131, 313, 1111, 41, 141} {
			p.add("JoinReaderW", 0, 22, 1, 1, pat, pat%4)
		}
		for w := 0; w < 3; w++ {
			for i := n; i >= 1; i-- {
				p.add("JoinNone", w, i)
			}
		}
		for _, buf := range []int{0, 2} {
			p.add("JoinReader", 0, 5, 1, 1, 4, buf)
			p.add("JoinReader", 5, 14, 1, 1, 3, buf)
			p.add("JoinReader", 14, 22, 1, 1, 3, buf)
			p.add("JoinReader", 0, 22, 1, 0, 4, buf)
			p.add("JoinReader", 0, 22, 0, 1, 4, buf)
		}
		p.bound("every valid text of up to %d bytes with one joiner, up to 4 bytes with one Middle and one Leading joiner, 3 bytes with three, each chosen by the solver from 22 runes of all word classes; scanners over 3-4 bytes under every chunking", n)
	case "P15":
		for n := p.pick(4, 6); n >= 0; n-- {
			for f := 0; f < 2; f++ {
				p.add("Custom", n, p.pick(3, 5), f)
				p.add("Custom", n, 1, f)
				p.add("Custom", n, 2, f)
				for form := 0; form < 4; form++ {
					p.add("CustomAfter", form, n, 2, f)
				}
			}
		}
		counts := map[int]bool{40: true, 130: true, 270: true}
		for _, c := range p.consts("words") {
			if c < 3000 {
				counts[c] = true
			}
		}
		for _, m := range sorted(counts) {
			p.add("CustomLong", 0, m, 1, 2, 2, m%2)
			p.add("CustomLong", 0, m/2, 2, 3, 2, 1-m%2)
		}
		p.bound("every text of up to %d bytes and every behaviour of the split function (advance from -1 to one beyond the data, error or not) in its first %d calls", p.pick(4, 6), p.pick(3, 5))
	case "P16":
		n := p.pick(6, 8)
		for i := n; i >= 0; i-- {
			p.add("Numeric", i)
			p.add("NumericAny", i)
		}
		p.wide(1, n, func(pat int) { p.add("NumericW", pat) })
		for _, pat := range append(patterns(p.pick(7, 10), 1), patterns(6, 1, 2)...) {
			p.add("NumericW", pat)
		}
		p.fills(1, func(px, f, kk, py int) { p.add("NumericF", px, f, kk, py) }, 20, 270)
		p.bound("every byte sequence of up to %d bytes; every text of the listed widths, up to %d characters", n, p.pick(7, 10))
	case "P17":
		n := p.pick(6, 8)
		for i := n; i >= 0; i-- {
			p.add("Ideographic", 1, i)
			p.add("IdeographicAny", i)
		}
		p.wide(1, n, func(pat int) { p.add("IdeographicW", 1, pat) })
		p.fillsIn(1, [][2]int{{3, 3}, {33, 1}, {4, 2}}, func(px, f, kk, py int) { p.add("IdeographicF", 1, px, f, kk, py) }, 20, 270)
		p.bound("every byte sequence of up to %d bytes; every text of the listed widths; texts without the characters of the known finding", n)
	case "P18":
		n := p.pick(6, 8)
		for i := n; i >= 0; i-- {
			p.add("Alnum", i)
		}
		for w := 1; w <= 4; w++ {
			for _, k := range p.lengths(3, 20, 300) {
				p.add("AlnumLong", w, k, p.pick(4, 5))
			}
		}
		p.bound("every byte sequence of up to %d bytes; k equal characters followed by every %d bytes", n, p.pick(4, 5))
	case "P19":
		for n := p.pick(4, 6); n >= 0; n-- {
			for f := 0; f < 2; f++ {
				p.add("Generic", n, p.pick(3, 5), f)
				p.add("GenericSplit", n, 2, f)
				p.add("Generic", n, 1, f)
			}
		}
		for _, x := range [][2]int{{3, 2}, {1, 4}, {2, 0}} {
			p.add("GenericNamed", 3, p.pick(4, 5), x[0], x[1])
			p.add("GenericNamed", 1, 3, x[0], x[1])
		}
		counts := map[int]bool{40: true, 130: true, 270: true}
		for _, c := range p.consts("internal") {
			if c < 3000 {
				counts[c] = true
			}
		}
		for _, m := range sorted(counts) {
			p.add("CustomLong", 1, m, 1, 2, 2, m%2)
			p.add("CustomLong", 1, m/2, 2, 3, 2, 1-m%2)
		}
		p.bound("every text of up to %d bytes and every behaviour of the split function in its first %d calls; histories of up to %d calls", p.pick(4, 6), p.pick(3, 5), p.pick(4, 5))
	case "P20":
		for w := 0; w < 21; w++ {
			p.add("Frozen", w, p.pick(4, 6))
			p.add("FrozenW", w, 313)
			p.add("FrozenW", w, p.pick(111111, 1111111))
			p.add("FrozenW", w, 1343)
			kind := 1
			if w < 8 || w >= 12 && w < 20 {
				kind = w % 4
			} else if w == 8 {
				kind = 0
			}
			p.fills(kind, func(px, f, kk, py int) {
				if p.tier == "thorough" || f%5 == w%5 {
					p.add("FrozenF", w, px%10, f, kk, py%10)
				}
			}, 30)
		}
		counts := map[int]bool{0: true, 1: true, 3: true, 9: true, 40: true}
		for _, c := range p.consts("words") {
			if c < 400 {
				counts[c+1] = true
			}
		}
		for _, c := range sorted(counts) {
			for form := 0; form < 3; form++ {
				p.add("FrozenJoin", form, c, c/2, p.pick(3, 4))
				p.add("FrozenJoin", form, c/3, c, p.pick(3, 4))
			}
		}
		for k1 := 0; k1 < 4; k1++ {
			for k2 := 0; k2 < 4; k2++ {
				for f := 0; f < 3; f++ {
					p.add("Interleave", k1, k2, f, p.pick(2, 3), p.pick(2, 3))
					if f != 2 {
						p.add("InterleaveW", k1, k2, f, 31, 13)
					}
					if p.tier == "thorough" {
						p.add("InterleaveW", k1, k2, f, 111, 111)
					}
				}
			}
		}
		// scanners, and iterators with options
		for _, x := range [][2]int{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {0, 1}, {4, 5}, {4, 1}, {8, 1}, {1, 2}, {3, 0}} {
			for _, f := range []int{3, 4} {
				p.add("Interleave", x[0], x[1], f, 2, 2)
				p.add("InterleaveW", x[0], x[1], f, 31, 13)
			}
		}
		for _, x := range [][2]int{{4, 5}, {5, 4}, {4, 1}, {1, 4}, {6, 0}, {7, 0}, {7, 6}, {0, 7}, {8, 1}, {1, 8}, {8, 4}} {
			for _, f := range []int{0, 2} {
				p.add("Interleave", x[0], x[1], f, p.pick(2, 3), p.pick(2, 3))
			}
			p.add("InterleaveW", x[0], x[1], 0, 111, 12)
		}
		for w := 0; w < 7; w++ {
			p.add("Calls", w, p.pick(2, 3), p.pick(2, 3))
			p.add("Calls", w, 3, 2)
			p.add("CallsW", w, 111, 111)
			p.add("CallsW", w, 13, 31)
			p.add("CallsW", w, 121, 131)
			for _, x := range [][2]int{{2, 2}, {3, 3}, {4, 4}, {4, 3}, {2, 3}, {22, 22}, {33, 33}} {
				p.add("CallsW", w, x[0], x[1])
			}
		}
		p.bound("writes: every byte sequence of up to %d bytes through every entry point; interleavings: every pair of texts of %d bytes and every order of calls", p.pick(4, 6), p.pick(2, 3))
	case "P21":
		n := p.pick(6, 8)
		for i := n; i >= 1; i-- {
			p.add("Whole", i)
		}
		p.wide(3, n, func(pat int) { p.add("WholeW", pat) })
		p.fills(3, func(px, f, k, py int) { p.add("WholeF", px, f, k, py) }, 9, 60)
		p.bound("every valid text of up to %d bytes; texts of the listed widths; texts X F^k Y", n)
	case "P22":
		for _, k := range kinds {
			for _, sep := range separators[k] {
				q := p.pick(3, 4)
				qa := q
				if k == 2 {
					// longer first parts in sentences go by widths
					qa = 2
					for _, x := range patterns(3, 1, 3) {
						p.add("LinesW", k, sep, x, 11)
					}
					p.add("LinesW", k, sep, 1111, 11)
					p.add("LinesW", k, sep, 121, 111)
					p.add("LinesW", k, sep, 12, 31)
					p.add("LinesW", k, sep, 21, 2)
				} else {
					p.add("Lines", k, sep, q+1, 1)
				}
				p.add("Lines", k, sep, qa, q)
				p.add("Lines", k, sep, 1, q+1)
				p.add("Lines", k, sep, 0, q)
				p.add("Lines", k, sep, qa, 0)
				for _, x := range [][2]int{{31, 13}, {13, 31}, {33, 3}, {4, 43}, {11, 11}, {111, 111}, {1, 41}, {34, 34}} {
					p.add("LinesW", k, sep, x[0], x[1])
				}
			}
			for f := 0; f < nfill[k]; f++ {
				for _, kk := range p.lengths(20) {
					p.add("LinesF", k, separators[k][f%len(separators[k])], f, kk, 11, 0)
					p.add("LinesF", k, separators[k][f%len(separators[k])], f, kk, 11, 1)
				}
			}
		}
		p.bound("every pair of valid texts of up to %d bytes each (sentences: the first up to 2) and of the listed widths, around each newline; F^k before or after", p.pick(3, 4))
	case "P23":
		n := p.pick(6, 8)
		for _, k := range kinds {
			for i := n; i >= 0; i-- {
				p.add("Fast", k, i)
			}
			p.wide(k, n, func(pat int) { p.add("FastW", k, pat) })
			p.add("FastW", k, 11111111)
			p.fills(k, func(px, f, kk, py int) { p.add("FastF", k, px, f, kk, py) }, 9, 70)
		}
		p.bound("every byte sequence of up to %d bytes; valid texts of the listed widths; texts X F^k Y", n)
	case "P24":
		n := p.pick(6, 7)
		for _, k := range kinds {
			for i := n; i >= 1; i-- {
				p.add("Again", k, i)
			}
			p.wide(k, n, func(pat int) { p.add("AgainW", k, pat) })
			p.fills(k, func(px, f, kk, py int) { p.add("AgainF", k, px, f, kk, py) }, 9, 50)
		}
		p.bound("every valid text of up to %d bytes; texts of the listed widths; texts X F^k Y", n)
	case "P27":
		for w := 0; w < 19; w++ {
			n := p.pick(5, 7)
			if w >= 15 {
				for f := 0; f < 16; f++ {
					p.add("WorkAnsi", w, 1, f, p.pick(90, 200), 1)
				}
			}
			if w < 4 {
				n = p.pick(6, 8)
			}
			for i := n; i >= 1; i-- {
				p.add("Work", w, i)
			}
			k := 1
			if w < 12 {
				k = w % 4
			} else if w >= 15 {
				k = 0
			}
			if w < 4 {
				p.wide(k, n, func(pat int) { p.add("WorkW", w, pat) })
			}
			p.fills(k, func(px, f, kk, py int) {
				if w < 4 || p.tier == "thorough" || f%3 == 0 {
					p.add("WorkF", w, px, f, kk, py)
				}
			}, p.pick(200, 300))
			if w < p.pick(4, 12) {
				for f := 0; f < nfill[w%4]; f++ {
					p.add("WorkC", w, min(w%4, 1), f, p.pick(90, 200), 1)
				}
			}
		}
		p.bound("loop iterations, plus bytes gone over by library calls, at most 16 per byte and 64 per text; every byte sequence of up to %d bytes; texts of the listed widths; texts X F^k Y and X (FG)^k Y for all pairs of fillers", p.pick(6, 8))
	case "P25":
		n := p.pick(5, 7)
		for w := 0; w < 18; w++ {
			m := n
			if w >= 16 { // many joiners
				m = n - 1
			}
			for i := m; i >= 1; i-- {
				p.add("Lean", w, i)
			}
			p.add("LeanW", w, 1111111)
			p.add("LeanW", w, 31313)
			p.add("LeanW", w, 4343)
			k := [18]int{0, 1, 2, 3, 0, 1, 2, 3, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1}[w]
			p.fills(k, func(px, f, kk, py int) {
				if p.tier == "thorough" || f%3 == w%3 {
					p.add("LeanF", w, px, f, kk, py)
				}
			}, 40)
			if w >= 8 && w < 14 {
				for in := 0; in < 13; in++ {
					p.add("LeanAnsi", w, in, 60, 2)
					p.add("LeanAnsi", w, in, 0, 3)
				}
			}
		}
		p.bound("every byte sequence of up to %d bytes, in both forms, with every ANSI option or a joiner set; texts of the listed widths; texts X F^k Y; escape sequences of over 60 bytes", n)
	default:
		return p.p, fmt.Errorf("no plan for %s", prop)
	}
	return p.p, nil
}

// separators lists the newlines (numbers in harness/vh/props.go) after which
// each tokenizer must break.
var separators = [4][]int{
	{0, 1, 2, 3, 4, 5, 6, 7},
	{0, 1, 2, 3, 4, 5, 6, 7},
	{0, 1, 2, 3, 4, 5},
	{0, 1, 2, 3, 4, 5, 6, 7},
}

// Consts mines the sizes that the code under test compares integers with.
func Consts(p *Program) map[string][]int {
	ms := map[string]map[int]bool{}
	for fn := range allFuncs(p) {
		path := ""
		if fn.Pkg != nil {
			path = fn.Pkg.Pkg.Path()
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			path = o.Pkg.Pkg.Path()
		}
		if !strings.HasPrefix(path, Module) || strings.HasPrefix(path, Module+"/internal/v") {
			continue
		}
		m := ms[path]
		if m == nil {
			m = map[int]bool{}
			ms[path] = m
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fn.Name() == "init" {
					continue
				}
				switch v := in.(type) {
				case *ssa.BinOp:
					if b, ok := v.Type().Underlying().(*types.Basic); ok {
						// a counter that wraps around
						switch v.Op {
						case token.ADD, token.SUB:
							switch b.Kind() {
							case types.Int8:
								m[128] = true
							case types.Uint8:
								m[256] = true
							case types.Int16:
								m[1<<15] = true
							case types.Uint16:
								m[1<<16] = true
							}
						}
					}
					switch v.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.ADD, token.SUB, token.REM, token.AND:
						mine(m, v.X)
						mine(m, v.Y)
					case token.SHR:
						if k, ok := v.Y.(*ssa.Const); ok && isInt(v.X.Type()) && k.Value != nil {
							if n, ok := constant.Uint64Val(constant.ToInt(k.Value)); ok && n > 2 && n < 13 {
								m[1<<n] = true
							}
						}
					}
				case *ssa.Slice:
					for _, x := range []ssa.Value{v.Low, v.High, v.Max} {
						if x != nil {
							mine(m, x)
						}
					}
				case *ssa.Phi:
					for _, x := range v.Edges {
						mine(m, x)
					}
				case *ssa.Call:
					for _, x := range v.Call.Args {
						mine(m, x)
					}
				}
			}
		}
	}
	r := map[string][]int{}
	for path, m := range ms {
		r[path] = sorted(m)
	}
	return r
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.Uint)
}

func mine(m map[int]bool, v ssa.Value) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || !isInt(c.Type()) {
		return
	}
	if n, ok := constant.Int64Val(constant.ToInt(c.Value)); ok && n >= 6 && n <= 40000 {
		m[int(n)] = true
	}
}

func allFuncs(p *Program) map[*ssa.Function]bool { return ssautil.AllFunctions(p.Prog) }
