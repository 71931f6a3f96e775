package vh

import (
	"bufio"
	"errors"
	"io"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/internal/iterators"
	"github.com/clipperhouse/uax29/v2/internal/vsym"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
)

// ---- P10

var opNames = [...]string{"op0", "op1", "op2", "op3", "op4", "op5", "op6", "op7", "op8", "op9", "op10", "op11"}

// ends gives, for every token start of the data, the token's end (by a fresh
// iterator), and 0 elsewhere.
func ends(it iter[[]byte], n int) []int {
	e := make([]int, n+1)
	for it.Next() {
		vsym.Assert(it.End() <= n && it.Start() < it.End(), "token out of range")
		e[it.Start()] = it.End()
	}
	return e
}

const (
	opNext = iota
	opFirst
	opReset
	opSetA
	opSetB
	opsCount
)

// Proto: k calls on an iterator, over texts of na and nb bytes.
func Proto(kind, k, na, nb int) { proto(kind, 0, k, vsym.Bytes("a", na), vsym.Bytes("b", nb)) }

// ProtoW: the same for characters of the given widths.
func ProtoW(kind, k, pa, pb int) { proto(kind, 0, k, shaped("a", pa), shaped("b", pb)) }

// ProtoOpt: graphemes with ANSI options (opt 1-3), words with joiners (opt 4).
func ProtoOpt(opt, k, na, nb int) {
	kind := Graphemes
	if opt == 4 {
		kind = Words
	}
	proto(kind, opt, k, vsym.Bytes("a", na), vsym.Bytes("b", nb))
}

// ProtoF: the same for texts X F^k Y, from their start or (skip) after most of
// their tokens; any options.
func ProtoF(kind, opt, c, skip, px, f, k, py int) {
	protoFrom(kind, opt, c, skip != 0, filled(kind, px, f, k, py), shaped("b", 1))
}

func withOpt(kind, opt int, d []byte) iter[[]byte] {
	switch opt {
	case 1, 2, 3:
		g := graphemes.FromBytes(d)
		g.AnsiEscapeSequences = opt&1 != 0
		g.AnsiEscapeSequences8Bit = opt&2 != 0
		return g
	case 4:
		w := words.FromBytes(d)
		w.Joiners(&words.Joiners[[]byte]{Middle: []rune{'-'}, Leading: []rune{'#'}})
		return w
	}
	return fromBytes(kind, d)
}

func proto(kind, opt, k int, a, b []byte) { protoFrom(kind, opt, k, false, a, b) }

func protoFrom(kind, opt, k int, skip bool, a, b []byte) {
	ea := ends(withOpt(kind, opt, a), len(a))
	eb := ends(withOpt(kind, opt, b), len(b))
	it := withOpt(kind, opt, a)
	onA := true
	pos, start := 0, 0
	for i := 0; skip && pos < len(a)-5; i++ {
		vsym.Assert(it.Next(), "Next does not tell whether there is a token")
		start, pos = pos, ea[pos]
	}
	sum := uint32(0)
	for i := 0; i < k; i++ {
		d, e := a, ea
		if !onA {
			d, e = b, eb
		}
		switch vsym.Int(opNames[i], 0, opsCount-1) {
		case opNext:
			ok := it.Next()
			vsym.Assert(ok == (pos < len(d)), "Next does not tell whether there is a token")
			if ok {
				start, pos = pos, e[pos]
			}
		case opFirst:
			f := it.First()
			vsym.Assert(len(f) == e[0], "First is not the first token")
			for x := 0; x < len(f); x++ {
				vsym.Assert(f[x] == d[x], "First has other bytes")
			}
		case opReset:
			it.Reset()
			pos, start = 0, 0
		case opSetA:
			it.SetText(a)
			onA = true
			pos, start = 0, 0
		case opSetB:
			it.SetText(b)
			onA = false
			pos, start = 0, 0
		}
		vsym.Assert(it.Start() == start && it.End() == pos, "Start or End is not the latest token's")
		v := it.Value()
		vsym.Assert(len(v) == pos-start, "Value is not the latest token")
		d = a
		if !onA {
			d = b
		}
		for x := 0; x < len(v); x++ {
			vsym.Assert(v[x] == d[start+x], "Value has other bytes")
		}
		sum = sum*7 + uint32(pos)
	}
	vsym.Out("history", int(sum))
	vsym.Reach("end")
}

// ---- P15, P19

var errSplit = errors.New("split failed")

var (
	advNames = [...]string{"adv0", "adv1", "adv2", "adv3", "adv4", "adv5", "adv6", "adv7"}
	errNames = [...]string{"err0", "err1", "err2", "err3", "err4", "err5", "err6", "err7"}
)

// script is a split function chosen by the inputs: each call advances by any
// amount from -1 to one beyond the data, or fails.
type script struct {
	calls int
	data  []byte
	eof   bool
	adv   int
	fail  bool
	lead  int // this many calls come before those of any behaviour,
	step  int // and advance by this
}

func (s *script) split(data []byte, atEOF bool) (int, []byte, error) {
	s.data, s.eof = data, atEOF
	k := s.calls - s.lead
	s.calls++
	if k < 0 {
		s.adv, s.fail = s.step, false
		return s.step, data[:s.step], nil
	}
	s.adv = vsym.Int(advNames[k], -1, len(data)+1)
	s.fail = vsym.Bool(errNames[k])
	var tok []byte
	if s.adv >= 0 && s.adv <= len(data) {
		tok = data[:s.adv]
	}
	if s.fail {
		return s.adv, tok, errSplit
	}
	return s.adv, tok, nil
}

// Custom: a words iterator with any split function, on n arbitrary bytes; text
// after the first k tokens is dropped. first=1: First is called before each Next.
func Custom(n, k, first int) {
	data := vsym.Bytes("t", n)
	s := &script{}
	it := words.FromBytes(data)
	it.Split(s.split)
	custom(data, it, s, k, first != 0, false)
}

// CustomLong: the same for the words iterator (gen 0) and the generic one (1)
// after m tokens of the given size; the split function gives n arbitrary bytes
// in any way after that.
func CustomLong(gen, m, size, n, k, first int) {
	var data []byte
	for i := 0; i < m*size; i++ {
		data = append(data, 'a'+byte(i%7))
	}
	data = append(data, vsym.Bytes("t", n)...)
	s := &script{lead: m, step: size}
	if gen == 0 {
		it := words.FromBytes(data)
		it.Split(s.split)
		custom(data, it, s, m+k, first != 0, false)
		return
	}
	it := iterators.New(iterators.SplitFunc[[]byte](s.split), data)
	custom(data, it, s, m+k, first != 0, true)
}

// CustomAfter: the same for an iterator that had joiners (form 0), another split
// function and another text (1), or that gets the text after the split function (2),
// and Reset after that (3).
func CustomAfter(form, n, k, first int) {
	data := vsym.Bytes("t", n)
	s := &script{}
	it := words.FromBytes(data)
	switch form {
	case 0:
		it.Joiners(&words.Joiners[[]byte]{Middle: []rune{'-'}, Leading: []rune{'#'}})
		it.Split(s.split)
	case 1:
		it.SetText([]byte("ab c"))
		it.Split(words.SplitFunc)
		it.Next()
		it.Split(s.split)
		it.SetText(data)
	case 2:
		it.SetText([]byte("ab c"))
		it.Next()
		it.Split(s.split)
		it.SetText(data)
	case 3:
		it.Split(s.split)
		it.SetText(data)
		it.Reset()
	}
	custom(data, it, s, k, first != 0, false)
}

// Generic: the same for the internal generic iterator.
func Generic(n, k, first int) {
	data := vsym.Bytes("t", n)
	s := &script{}
	it := iterators.New(iterators.SplitFunc[[]byte](s.split), data)
	custom(data, it, s, k, first != 0, true)
}

// GenericSplit: the same after Split and SetText on an iterator of other text.
func GenericSplit(n, k, first int) {
	data := vsym.Bytes("t", n)
	s := &script{}
	it := iterators.New(iterators.SplitFunc[[]byte](words.SplitFunc), []byte("ab c"))
	it.Next()
	it.Split(s.split)
	it.SetText(data)
	custom(data, it, s, k, first != 0, true)
}

func custom(data []byte, it iter[[]byte], s *script, k int, first, one bool) {
	pos := 0
	sum := uint32(0)
	for i := 0; i < k; i++ {
		if first && i == k-1 {
			c := s.calls
			var f []byte
			p := vsym.Panics(func() { f = it.First() })
			if len(data) == 0 {
				vsym.Assert(!p && len(f) == 0, "First of no data is not empty")
			} else {
				vsym.Assert(s.calls == c+1 && s.eof && sameBytes(s.data, data), "First does not ask the split function about the whole data")
				bad := s.fail || s.adv <= 0 || s.adv > len(data)
				vsym.Assert(p == bad, "First does not panic exactly when the split function misbehaves")
				if p {
					vsym.Out("first", -1)
					vsym.Reach("first panic")
					return
				}
				vsym.Assert(len(f) == s.adv, "First is not what the split function returned")
				vsym.Assert(sameBytes(f, data[:s.adv]), "First has other bytes")
			}
			vsym.Assert(it.End() == pos, "First moves the iterator")
		}
		c := s.calls
		var ok bool
		p := vsym.Panics(func() { ok = it.Next() })
		if pos == len(data) {
			vsym.Assert(!p && !ok && s.calls == c, "Next at the end is not false")
			break
		}
		if one && len(data)-pos == 1 {
			vsym.Assert(!p && ok && it.Start() == pos && it.End() == pos+1, "a single remaining byte is not returned alone")
			pos++
			continue
		}
		vsym.Assert(s.calls == c+1, "Next does not call the split function once")
		vsym.Assert(s.eof && sameBytes(s.data, data[pos:]), "the split function is not given the remaining data")
		bad := s.fail || s.adv <= 0 || s.adv > len(data)-pos
		vsym.Assert(p == bad, "Next does not panic exactly when the split function misbehaves")
		if p {
			vsym.Out("panic", pos)
			vsym.Reach("panic")
			return
		}
		vsym.Assert(ok && it.Start() == pos && it.End() == pos+s.adv, "the token is not what the split function returned")
		vsym.Assert(sameBytes(it.Value(), data[pos:pos+s.adv]), "Value has other bytes")
		pos += s.adv
		sum ^= 1 << (uint(pos) % 32)
	}
	it.Reset()
	vsym.Assert(it.Start() == 0 && it.End() == 0 && len(it.Value()) == 0, "Reset does not go back to the start")
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

func sameBytes(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

type named string

// GenericNamed: the generic iterator over a named string type, with a split
// function that returns the first s bytes or, if fewer remain, all.
func GenericNamed(n, k, na, nb int) {
	d := named(vsym.Bytes("t", n))
	s := vsym.Int("s", 1, n)
	it := iterators.New(func(x named, eof bool) (int, named, error) {
		if len(x) < s {
			return len(x), x, nil
		}
		return s, x[:s], nil
	}, d)
	a, b := vsym.Bytes("a", na), vsym.Bytes("b", nb)
	cur := d
	pos, start := 0, 0
	sum := uint32(0)
	for i := 0; i < k; i++ {
		e := pos + s
		if e > len(cur) || pos+1 == len(cur) {
			e = len(cur)
		}
		if len(cur)-pos == 1 {
			e = len(cur)
		}
		switch vsym.Int(opNames[i], 0, opsCount-1) {
		case opNext:
			ok := it.Next()
			vsym.Assert(ok == (pos < len(cur)), "Next does not tell whether there is a token")
			if ok {
				start, pos = pos, e
			}
		case opFirst:
			f := it.First()
			w := s
			if w > len(cur) {
				w = len(cur)
			}
			vsym.Assert(f == cur[:w], "First is not the first token")
		case opReset:
			it.Reset()
			pos, start = 0, 0
		case opSetA:
			cur = named(a)
			it.SetText(cur)
			pos, start = 0, 0
		case opSetB:
			cur = named(b)
			it.SetText(cur)
			pos, start = 0, 0
		}
		vsym.Assert(it.Start() == start && it.End() == pos, "Start or End is not the latest token's")
		vsym.Assert(it.Value() == cur[start:pos], "Value is not the latest token")
		sum = sum*7 + uint32(pos)
	}
	vsym.Out("history", int(sum))
	vsym.Reach("end")
}

// ---- P20

var whoNames = [...]string{"w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8", "w9", "w10", "w11"}

// style is an iterator: 0-3 the four kinds, 4 and 5 words with joiners, 6
// graphemes with the 7-bit ANSI option, 7 with both, 8 words with a custom
// SplitFunc.
func style(k int, d []byte) iter[[]byte] {
	switch k {
	case 4, 5:
		j := &words.Joiners[[]byte]{Middle: []rune{'-'}, Leading: []rune{'#'}}
		if k == 5 {
			j = &words.Joiners[[]byte]{Middle: []rune{'#', 0xE9}}
		}
		w := words.FromBytes(d)
		w.Joiners(j)
		return w
	case 6:
		return withOpt(Graphemes, 1, d)
	case 7:
		return withOpt(Graphemes, 3, d)
	case 8:
		w := words.FromBytes(d)
		w.Split(graphemes.SplitFunc)
		return w
	}
	return fromBytes(k, d)
}

// scanner is the Scanner of the same style, over a reader that gives the text
// in one piece.
func scanner(k int, d []byte) *bufio.Scanner {
	r := &chunkReader{data: d, cut: make([]bool, len(d)), end: io.EOF}
	switch k {
	case 4, 5:
		w := words.FromReader(r)
		j := &words.Joiners[[]byte]{Middle: []rune{'-'}, Leading: []rune{'#'}}
		if k == 5 {
			j = &words.Joiners[[]byte]{Middle: []rune{'#', 0xE9}}
		}
		w.Joiners(j)
		return w.Scanner
	case 8:
		sc := words.FromReader(r)
		sc.Split(graphemes.SplitFunc)
		return sc.Scanner
	}
	return scannerOf(k, r)
}

// Interleave: two iterators on two texts, called in any order, give the tokens
// they give alone; nothing is written but their own state. form: 0 both over
// bytes, 1 the second over a string, 2 both over the same bytes, 3 two
// scanners, 4 an iterator and a scanner.
func Interleave(k1, k2, form, na, nb int) {
	a := vsym.Bytes("a", na)
	b := a
	if form != 2 {
		b = vsym.Bytes("b", nb)
	}
	interleave(k1, k2, form, a, b)
}

// InterleaveW: the same for characters of the given widths.
func InterleaveW(k1, k2, form, pa, pb int) {
	interleave(k1, k2, form, shaped("a", pa), shaped("b", pb))
}

// side is one of the two iterators, and its text's tokens.
type side struct {
	d    []byte
	ends []int
	it   iter[[]byte]
	str  iter[string]
	sc   *bufio.Scanner
}

const (
	early = "an iterator ends early or late"
	other = "an iterator's token is changed by the other"
)

// next takes the next token, which must be the one after p; it returns its end.
func (s *side) next(p int) int {
	switch {
	case s.sc != nil:
		ok := s.sc.Scan()
		vsym.Assert(ok == (p < len(s.d)), early)
		if ok {
			n := len(s.sc.Bytes())
			vsym.Assert(p+n == s.ends[p], other)
			return p + n
		}
	case s.str != nil:
		ok := s.str.Next()
		vsym.Assert(ok == (p < len(s.d)), early)
		if ok {
			vsym.Assert(s.str.Start() == p && s.str.End() == s.ends[p], other)
			return s.str.End()
		}
	default:
		ok := s.it.Next()
		vsym.Assert(ok == (p < len(s.d)), early)
		if ok {
			vsym.Assert(s.it.Start() == p && s.it.End() == s.ends[p], other)
			return s.it.End()
		}
	}
	return p
}

// holds: the scanner's latest token still has the bytes before p.
func (s *side) holds(p int) {
	if s.sc == nil {
		return
	}
	got := s.sc.Bytes()
	for i := range got {
		vsym.Assert(got[i] == s.d[p-len(got)+i], other)
	}
}

func interleave(k1, k2, form int, a, b []byte) {
	na, nb := len(a), len(b)
	ea := vsym.Alone(func() []int { return ends(style(k1, a), na) })
	eb := vsym.Alone(func() []int { return ends(style(k2, b), nb) })
	vsym.Freeze(a)
	vsym.Freeze(b)
	vsym.FreezeGlobals()
	x := &side{d: a, ends: ea}
	y := &side{d: b, ends: eb}
	switch form {
	case 1:
		x.it = style(k1, a)
		y.str = fromString(k2, string(b))
	case 3:
		x.sc = scanner(k1, a)
		y.sc = scanner(k2, b)
	case 4:
		x.it = style(k1, a)
		y.sc = scanner(k2, b)
	default:
		x.it = style(k1, a)
		y.it = style(k2, b)
	}
	p, q := 0, 0
	sum := uint32(0)
	for i := 0; i < na+nb+2; i++ {
		if vsym.Bool(whoNames[i]) {
			p = x.next(p)
		} else {
			q = y.next(q)
		}
		x.holds(p)
		y.holds(q)
		sum = sum*5 + uint32(p) + 3*uint32(q)
	}
	vsym.Out("history", int(sum))
	vsym.Reach("end")
}

// Calls: a function of a text gives what it gives in a fresh process, whatever
// text it was called with before. what: 0-3 the SplitFuncs, 4 BleveNumeric,
// 5 BleveIdeographic, 6 the AlphaNumeric filter.
func Calls(what, na, nb int) { calls(what, vsym.Bytes("a", na), vsym.Bytes("b", nb)) }

// CallsW: the same for characters of the given widths.
func CallsW(what, pa, pb int) { calls(what, shaped("a", pa), shaped("b", pb)) }

func callOf(what int, d []byte) []int {
	r := make([]int, 2)
	bit := func(i int, b bool) {
		if b {
			r[i] = 1
		}
	}
	switch what {
	case 4:
		bit(0, words.BleveNumeric(d))
	case 5:
		bit(0, words.BleveIdeographic(d))
	case 6:
		bit(0, alphaNumeric(d))
	default:
		f := splitOf(what)
		a, _, _ := f(d, false)
		z, _, _ := f(d, true)
		r[0], r[1] = a, z
	}
	return r
}

func calls(what int, a, b []byte) {
	wa := vsym.Alone(func() []int { return callOf(what, a) })
	wb := vsym.Alone(func() []int { return callOf(what, b) })
	sum := 0
	for i := 0; i < 3; i++ {
		d, w := a, wa
		if i == 1 {
			d, w = b, wb
		}
		r := callOf(what, d)
		vsym.Assert(r[0] == w[0] && r[1] == w[1], "a call depends on the calls before it")
		sum = sum*5 + r[0] + 3*r[1]
	}
	vsym.Out("results", sum)
	vsym.Reach("end")
}

// Frozen: no call writes to the caller's bytes or to package variables.
// what: 0-3 the iterators, 4-7 the SplitFuncs, 8 graphemes with ANSI options,
// 9 words with joiners, 10 the Bleve predicates, 11 the filter, 12-15 strings,
// 16-19 the scanners, 20 the words scanner with joiners.
func Frozen(what, n int) { frozen(what, vsym.Bytes("t", n)) }

// FrozenW: the same for characters of the given widths.
func FrozenW(what, pat int) { frozen(what, shaped("t", pat)) }

// FrozenF: the same for texts X F^k Y.
func FrozenF(what, px, f, k, py int) {
	kind := Words
	switch {
	case what < 8 || what >= 12 && what < 20:
		kind = what % 4
	case what == 8:
		kind = Graphemes
	}
	frozen(what, filled(kind, px, f, k, py))
}

// FrozenJoin: the same for words with nm and nl joiners, which are the
// caller's, too; form 0 []byte, 1 string, 2 a scanner.
func FrozenJoin(form, nm, nl, n int) {
	data := frozenText(vsym.Bytes("t", n))
	mid, lead := make([]rune, nm), make([]rune, nl)
	for i := range mid {
		mid[i] = [...]rune{'-', 0xE9, '@', 0x2019, '#', 0x1F600, '/'}[i%7] + rune(i/7*64)
	}
	for i := range lead {
		lead[i] = [...]rune{'@', '#', '.', 0x2019, 0xB7}[i%5] + rune(i/5*64)
	}
	vsym.FreezeData(mid)
	vsym.FreezeData(lead)
	sum := uint32(0)
	switch form {
	case 1:
		j := &words.Joiners[string]{Middle: mid, Leading: lead}
		vsym.FreezeData(j)
		it := words.FromString(string(data))
		it.Joiners(j)
		it.First()
		for it.Next() {
			sum ^= 1 << (uint(it.End()) % 32)
		}
		it.Reset()
	case 0:
		j := &words.Joiners[[]byte]{Middle: mid, Leading: lead}
		vsym.FreezeData(j)
		it := words.FromBytes(data)
		it.Joiners(j)
		it.First()
		for it.Next() {
			sum ^= 1 << (uint(it.End()) % 32)
		}
		it.SetText(data)
		it.First()
	default:
		j := &words.Joiners[[]byte]{Middle: mid, Leading: lead}
		vsym.FreezeData(j)
		sc := words.FromReader(&chunkReader{data: data, cut: make([]bool, len(data)), end: io.EOF})
		sc.Joiners(j)
		for sc.Scan() {
			sum ^= 1 << (uint(len(sc.Bytes())) % 32)
		}
	}
	vsym.Out("sum", int(sum))
	vsym.Reach("end")
}

// frozenText is the text as part of a larger buffer, none of which may change,
// nor may any package variable.
func frozenText(text []byte) []byte {
	const after = "caller's"
	n := len(text)
	buf := make([]byte, 0, n+len(after))
	buf = append(append(buf, text...), after...)
	vsym.Freeze(buf)
	vsym.FreezeGlobals()
	return buf[:n]
}

func frozen(what int, text []byte) {
	data := frozenText(text)
	sum := uint32(0)
	run := func(it iter[[]byte]) {
		it.First()
		for it.Next() {
			it.Value()
			sum ^= 1 << (uint(it.End()) % 32)
		}
		it.Reset()
		it.SetText(data)
		it.First()
	}
	switch {
	case what < 4:
		run(fromBytes(what, data))
	case what < 8:
		f := splitOf(what - 4)
		if a, _, _ := f(data, false); a > 0 {
			sum = 1 << (uint(a) % 32)
		}
		pos := 0
		for pos < len(data) {
			a, _, _ := f(data[pos:], true)
			vsym.Assert(a > 0, "no progress")
			pos += a
			sum ^= 1 << (uint(pos) % 32)
		}
	case what == 8:
		run(withOpt(Graphemes, 3, data))
	case what == 9:
		run(withOpt(Words, 4, data))
	case what == 10:
		if words.BleveNumeric(data) {
			sum = 1
		}
		if words.BleveIdeographic(data) {
			sum += 2
		}
	case what == 11:
		if alphaNumeric(data) {
			sum = 1
		}
	case what >= 16:
		sc := scanner(what-16, data)
		for sc.Scan() {
			sum ^= 1 << (uint(len(sc.Bytes())) % 32)
		}
	default:
		it := fromString(what-12, string(data))
		it.First()
		for it.Next() {
			sum ^= 1 << (uint(it.End()) % 32)
		}
	}
	vsym.Out("sum", int(sum))
	vsym.Reach("end")
}

var _ = phrases.FromBytes
var _ = sentences.FromBytes
