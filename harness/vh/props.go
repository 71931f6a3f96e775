package vh

import (
	"bufio"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/internal/vsym"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
)

func splitOf(kind int) bufio.SplitFunc {
	switch kind {
	case Graphemes:
		return graphemes.SplitFunc
	case Words:
		return words.SplitFunc
	case Phrases:
		return phrases.SplitFunc
	}
	return sentences.SplitFunc
}

// valid gives the offsets at which a valid text has a character start, and
// whether data is valid UTF-8.
func valid(data []byte) ([]bool, bool) {
	st := make([]bool, len(data)+1)
	pos := 0
	for pos < len(data) {
		_, w := vsym.Class(refGrapheme, data, pos)
		if w == 0 {
			return st, false
		}
		st[pos] = true
		pos += w
	}
	st[pos] = true
	return st, true
}

// ---- P01

// Partition: any bytes are partitioned by the tokens.
func Partition(kind, n int) {
	data := vsym.Bytes("t", n)
	partition(data, fromBytes(kind, data))
}

// PartitionW: the same for valid texts of characters of the given widths.
func PartitionW(kind, pat int) {
	data := shaped("t", pat)
	partition(data, fromBytes(kind, data))
}

// PartitionF: the same for texts X F^k Y.
func PartitionF(kind, px, f, k, py int) {
	data := filled(kind, px, f, k, py)
	partition(data, fromBytes(kind, data))
}

// PartitionS: the same for strings.
func PartitionS(kind, n int) {
	data := vsym.Bytes("t", n)
	partition(data, fromString(kind, string(data)))
}

// PartitionAnsi: graphemes with each option on or off.
func PartitionAnsi(opt, n int) {
	data := vsym.Bytes("t", n)
	it := graphemes.FromBytes(data)
	it.AnsiEscapeSequences = opt&1 != 0
	it.AnsiEscapeSequences8Bit = opt&2 != 0
	partition(data, iter[[]byte](it))
}

// PartitionJ: words with joiners.
func PartitionJ(set, n int) {
	data := vsym.Bytes("t", n)
	it := words.FromBytes(data)
	it.Joiners(joiners[[]byte](set))
	partition(data, iter[[]byte](it))
}

func partition[T ~string | ~[]byte](data []byte, it iter[T]) {
	n := len(data)
	st, ok := valid(data)
	pos := 0
	sum := uint32(0)
	for it.Next() {
		s, e := it.Start(), it.End()
		vsym.Assert(s == pos, "token does not start where the last one ended")
		vsym.Assert(e > pos && e <= n, "token is empty or beyond the data")
		vsym.Assert(!ok || st[e], "token ends inside a character")
		v := it.Value()
		vsym.Assert(len(v) == e-s, "value length is not end-start")
		for i := 0; i < len(v); i++ {
			vsym.Assert(v[i] == data[s+i], "value is not the data between start and end")
		}
		sum ^= 1 << (uint(e) % 32)
		pos = e
	}
	vsym.Assert(pos == n, "data left over")
	vsym.Assert(!it.Next(), "Next is true after the end")
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

// ---- P23

// Fast: the iterator's tokens are those of SplitFunc applied to the rest.
func Fast(kind, n int) { fast(kind, vsym.Bytes("t", n)) }

// FastW: the same for valid texts of characters of the given widths.
func FastW(kind, pat int) { fast(kind, shaped("t", pat)) }

// FastF: the same for texts X F^k Y.
func FastF(kind, px, f, k, py int) { fast(kind, filled(kind, px, f, k, py)) }

func fast(kind int, data []byte) {
	split := splitOf(kind)
	it := fromBytes(kind, data)
	pos := 0
	sum := uint32(0)
	for pos < len(data) {
		adv, tok, err := split(data[pos:], true)
		vsym.Assert(err == nil, "SplitFunc fails")
		vsym.Assert(adv > 0 && len(tok) == adv, "SplitFunc gives no token at the end of the data")
		vsym.Assert(it.Next(), "the iterator ends before SplitFunc")
		vsym.Assert(it.Start() == pos && it.End() == pos+adv, "the iterator's token is not SplitFunc's")
		pos += adv
		sum ^= 1 << (uint(pos) % 32)
	}
	vsym.Assert(!it.Next(), "the iterator goes on after SplitFunc")
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

// ---- P09

// Forms: string and []byte iterators agree.
func Forms(kind, n int) {
	data := vsym.Bytes("t", n)
	forms(data, fromString(kind, string(data)), fromBytes(kind, data))
}

// FormsW: the same for valid texts of characters of the given widths.
func FormsW(kind, pat int) {
	data := shaped("t", pat)
	forms(data, fromString(kind, string(data)), fromBytes(kind, data))
}

// FormsF: the same for texts X F^k Y.
func FormsF(kind, px, f, k, py int) {
	data := filled(kind, px, f, k, py)
	forms(data, fromString(kind, string(data)), fromBytes(kind, data))
}

// FormsAnsi: the same with ANSI options.
func FormsAnsi(opt, n int) {
	data := vsym.Bytes("t", n)
	a := graphemes.FromString(string(data))
	a.AnsiEscapeSequences = opt&1 != 0
	a.AnsiEscapeSequences8Bit = opt&2 != 0
	b := graphemes.FromBytes(data)
	b.AnsiEscapeSequences = opt&1 != 0
	b.AnsiEscapeSequences8Bit = opt&2 != 0
	forms(data, iter[string](a), iter[[]byte](b))
}

// FormsJ: the same with joiners.
func FormsJ(set, n int) {
	data := vsym.Bytes("t", n)
	a := words.FromString(string(data))
	a.Joiners(joiners[string](set))
	b := words.FromBytes(data)
	b.Joiners(joiners[[]byte](set))
	forms(data, iter[string](a), iter[[]byte](b))
}

func forms(data []byte, s iter[string], b iter[[]byte]) {
	f, g := s.First(), b.First()
	vsym.Assert(len(f) == len(g), "First differs")
	pos := 0
	sum := uint32(0)
	for pos < len(data) {
		x, y := s.Next(), b.Next()
		vsym.Assert(x && y, "an iterator ends early")
		vsym.Assert(s.Start() == b.Start() && s.End() == b.End(), "the two forms give different tokens")
		vsym.Assert(s.End() > pos, "no progress")
		v, w := s.Value(), b.Value()
		vsym.Assert(len(v) == len(w), "the two forms give different values")
		for i := 0; i < len(v); i++ {
			vsym.Assert(v[i] == w[i], "the two forms give different values")
		}
		pos = s.End()
		sum ^= 1 << (uint(pos) % 32)
	}
	vsym.Assert(!s.Next() && !b.Next(), "an iterator goes on after the end")
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

// ---- P24

// Again: every token is one token when tokenized again.
func Again(kind, n int) { again(kind, vsym.Bytes("t", n)) }

// AgainW: the same for valid texts of characters of the given widths.
func AgainW(kind, pat int) { again(kind, shaped("t", pat)) }

// AgainF: the same for texts X F^k Y.
func AgainF(kind, px, f, k, py int) { again(kind, filled(kind, px, f, k, py)) }

func again(kind int, data []byte) {
	assumeValid(data)
	it := fromBytes(kind, data)
	pos := 0
	sum := uint32(0)
	for it.Next() {
		e := it.End()
		vsym.Assert(e > pos, "no progress")
		in := fromBytes(kind, data[pos:e:e])
		vsym.Assert(in.Next() && in.End() == e-pos && !in.Next(), "a token tokenized again is not one token")
		pos = e
		sum ^= 1 << (uint(pos) % 32)
	}
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

// ---- P21

// Whole: every phrase boundary is a word boundary.
func Whole(n int) { whole(vsym.Bytes("t", n)) }

// WholeW: the same for valid texts of characters of the given widths.
func WholeW(pat int) { whole(shaped("t", pat)) }

// WholeF: the same for texts X F^k Y.
func WholeF(px, f, k, py int) { whole(filled(Phrases, px, f, k, py)) }

func whole(data []byte) {
	assumeValid(data)
	w := words.FromBytes(data)
	p := phrases.FromBytes(data)
	sum := uint32(0)
	pos := 0
	for p.Next() {
		e := p.End()
		for w.End() < e {
			vsym.Assert(w.Next(), "words end before phrases")
		}
		vsym.Assert(w.End() == e, "a phrase boundary is not a word boundary")
		vsym.Assert(e > pos, "no progress")
		pos = e
		sum ^= 1 << (uint(pos) % 32)
	}
	vsym.Assert(pos == len(data) && !w.Next(), "phrases end before words")
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

// ---- P22

var newlines = []string{"\n", "\r\n", "\u2029", "\r", "\u2028", "\u0085", "\v", "\f"}

// Lines: tokens of A+B are the tokens of A, then of B, when A ends in newline
// number sep. The texts have na and nb bytes (A without its newline).
func Lines(kind, sep, na, nb int) { lines(kind, sep, vsym.Bytes("a", na), vsym.Bytes("b", nb)) }

// LinesW: the same for characters of the given widths.
func LinesW(kind, sep, pa, pb int) { lines(kind, sep, shaped("a", pa), shaped("b", pb)) }

// LinesF: the same for A = F^k and B of characters of the given widths, or
// (rev=1) the other way around.
func LinesF(kind, sep, f, k, p, rev int) {
	a, b := filled(kind, 0, f, k, 0), shaped("b", p)
	if rev != 0 {
		a, b = b, a
	}
	lines(kind, sep, a, b)
}

func lines(kind, sep int, x, b []byte) {
	assumeValid(x)
	assumeValid(b)
	nl := newlines[sep]
	if nl == "\r" && len(b) > 0 {
		vsym.Assume(b[0] != '\n')
	}
	var a, all []byte
	a = append(a, x...)
	a = append(a, nl...)
	all = append(all, a...)
	all = append(all, b...)
	it := fromBytes(kind, all)
	p := fromBytes(kind, a)
	pos := 0
	sum := uint32(0)
	for p.Next() {
		vsym.Assert(it.Next() && it.End() == p.End(), "tokens of A are not the first tokens of A+B")
		vsym.Assert(it.End() > pos, "no progress")
		pos = it.End()
		sum ^= 1 << (uint(pos) % 32)
	}
	vsym.Assert(pos == len(a), "tokens of A do not end with A")
	p = fromBytes(kind, b)
	for p.Next() {
		vsym.Assert(it.Next() && it.End() == len(a)+p.End(), "tokens of B are not the last tokens of A+B")
		vsym.Assert(it.End() > pos, "no progress")
		pos = it.End()
		sum ^= 1 << (uint(pos) % 32)
	}
	vsym.Assert(!it.Next(), "A+B has more tokens")
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

// ---- P11, P12, P13

// csi is the number of bytes of "parameters, intermediates, final" at d[i:].
func csi(d []byte, i int) int {
	s := i
	for i < len(d) && d[i] >= 0x30 && d[i] <= 0x3F {
		i++
	}
	for i < len(d) && d[i] >= 0x20 && d[i] <= 0x2F {
		i++
	}
	if i < len(d) && d[i] >= 0x40 && d[i] <= 0x7E {
		return i + 1 - s
	}
	return 0
}

// control is the length of a control string's payload at d[i:] up to and
// with its terminator, or up to a cancel; -1 if neither comes.
func control(d []byte, i int, belEnds, c1 bool) int {
	for s := i; i < len(d); i++ {
		b := d[i]
		if b == 0x18 || b == 0x1A {
			return i - s
		}
		if belEnds && b == 0x07 {
			return i + 1 - s
		}
		if c1 && b == 0x9C {
			return i + 1 - s
		}
		if !c1 && b == 0x1B && i+1 < len(d) && d[i+1] == 0x5C {
			return i + 2 - s
		}
	}
	return -1
}

// escape is the length of the escape sequence at d[i:] by ECMA-48 as the
// package documents it; 0 if there is none.
func escape(d []byte, i int, seven, eight bool) int {
	b := d[i]
	if seven && b == 0x1B && i+1 < len(d) {
		c := d[i+1]
		if c == '[' {
			if n := csi(d, i+2); n > 0 {
				return 2 + n
			}
			return 0
		}
		if c == ']' || c == 'P' || c == 'X' || c == '^' || c == '_' {
			if n := control(d, i+2, c == ']', false); n >= 0 {
				return 2 + n
			}
			return 0
		}
		if c >= 0x30 && c <= 0x7E { // Fp, Fe, Fs
			return 2
		}
		if c >= 0x20 && c <= 0x2F { // nF
			j := i + 2
			for j < len(d) && d[j] >= 0x20 && d[j] <= 0x2F {
				j++
			}
			if j < len(d) && d[j] >= 0x30 && d[j] <= 0x7E {
				return j + 1 - i
			}
		}
		return 0
	}
	if eight && b >= 0x80 && b <= 0x9F {
		if b == 0x9B {
			if n := csi(d, i+1); n > 0 {
				return 1 + n
			}
			return 0
		}
		if b == 0x9D || b == 0x90 || b == 0x98 || b == 0x9E || b == 0x9F {
			if n := control(d, i+1, b == 0x9D, true); n >= 0 {
				return 1 + n
			}
			return 0
		}
		return 1
	}
	return 0
}

// Ansi: with the options given by opt, tokens are the escape sequences where
// they start and the default tokens elsewhere.
func Ansi(opt, n int) { ansi(opt, vsym.Bytes("t", n)) }

// AnsiLong: the same for a fixed beginning, a run of k equal bytes and n bytes.
func AnsiLong(opt, intro, k, n int) {
	t := vsym.Bytes("t", n)
	f := vsym.Bytes("f", 1)
	vsym.Assume(f[0] >= 0x20 && f[0] < 0x7F)
	var d []byte
	d = append(d, intros[intro]...)
	for i := 0; i < k; i++ {
		d = append(d, f[0])
	}
	d = append(d, t...)
	ansi(opt, d)
}

// AnsiAfter: the same for a run of fillers before it.
func AnsiAfter(opt, f, k, intro, n int) {
	d := filled(Graphemes, 0, f, k, 0)
	d = append(d, intros[intro]...)
	ansi(opt, append(d, vsym.Bytes("t", n)...))
}

var intros = []string{"\x1b[", "\x1b]", "\x1bP", "\x1bX", "\x1b^", "\x1b_", "\x1b ", "\x9b", "\x9d", "\x90", "\x98", "\x9e", "\x9f"}

func ansi(opt int, data []byte) {
	seven, eight := opt&1 != 0, opt&2 != 0
	it := graphemes.FromBytes(data)
	it.AnsiEscapeSequences = seven
	it.AnsiEscapeSequences8Bit = eight
	pos := 0
	sum := uint32(0)
	for pos < len(data) {
		e := escape(data, pos, seven, eight)
		if e > 0 {
			vsym.Reach("escape sequence")
		} else {
			d := graphemes.FromBytes(data[pos:])
			vsym.Assert(d.Next(), "default iterator ends early")
			e = d.End()
		}
		vsym.Assert(it.Next(), "the iterator ends early")
		vsym.Assert(it.Start() == pos && it.End() == pos+e, "token is not the escape sequence, or not the default token where there is none")
		pos += e
		sum ^= 1 << (uint(pos) % 32)
	}
	vsym.Assert(!it.Next(), "the iterator goes on after the end")
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

// AnsiDefault: both options are off on a new iterator.
func AnsiDefault(n int) {
	data := vsym.Bytes("t", n)
	b := graphemes.FromBytes(data)
	s := graphemes.FromString(string(data))
	vsym.Assert(!b.AnsiEscapeSequences && !b.AnsiEscapeSequences8Bit && !s.AnsiEscapeSequences && !s.AnsiEscapeSequences8Bit, "an ANSI option is on by default")
	b.Reset()
	b.SetText(data)
	vsym.Assert(!b.AnsiEscapeSequences && !b.AnsiEscapeSequences8Bit, "an ANSI option is on by default")
	vsym.Reach("end")
}

// AnsiInert: what=0: no ESC in the data, the 7-bit option changes nothing.
// what=1: no byte 0x80-0x9F, the 8-bit option changes nothing. what=2: valid
// text, the 8-bit option changes nothing. other is the other option's setting.
func AnsiInert(what, other, n int) { ansiInert(what, other, vsym.Bytes("t", n)) }

// AnsiInertF: the same for texts X F^k Y.
func AnsiInertF(what, other, px, f, k, py int) {
	ansiInert(what, other, filled(Graphemes, px, f, k, py))
}

func ansiInert(what, other int, data []byte) {
	switch what {
	case 0:
		for i := range data {
			vsym.Assume(data[i] != 0x1B)
		}
	case 1:
		for i := range data {
			vsym.Assume(data[i] < 0x80 || data[i] > 0x9F)
		}
	case 2:
		assumeValid(data)
	}
	a := graphemes.FromBytes(data)
	b := graphemes.FromBytes(data)
	if what == 0 {
		a.AnsiEscapeSequences = true
		a.AnsiEscapeSequences8Bit = other != 0
		b.AnsiEscapeSequences8Bit = other != 0
	} else {
		a.AnsiEscapeSequences8Bit = true
		a.AnsiEscapeSequences = other != 0
		b.AnsiEscapeSequences = other != 0
	}
	same(data, a, b)
}

// AnsiTerm: what=0: a 7-bit control string without ESC \, BEL, CAN or SUB is not
// ended by 0x9C. what=1: an 8-bit one without 0x9C, BEL, CAN or SUB is not
// ended by ESC \. In both cases there is no escape sequence, and the first
// token is the default one.
func AnsiTerm(what, both, n int) {
	t := vsym.Bytes("t", n)
	i := vsym.Int("intro", 0, 4)
	var d []byte
	if what == 0 {
		d = append(d, 0x1B, "]PX^_"[i])
	} else {
		d = append(d, "\x9d\x90\x98\x9e\x9f"[i])
	}
	d = append(d, t...)
	for i := range t {
		vsym.Assume(t[i] != 0x18 && t[i] != 0x1A && t[i] != 0x07)
		if what == 0 {
			vsym.Assume(i+1 == n || t[i] != 0x1B || t[i+1] != 0x5C)
		} else {
			vsym.Assume(t[i] != 0x9C)
		}
	}
	a := graphemes.FromBytes(d)
	a.AnsiEscapeSequences = what == 0 || both != 0
	a.AnsiEscapeSequences8Bit = what == 1 || both != 0
	b := graphemes.FromBytes(d)
	vsym.Assert(a.Next() && b.Next() && a.End() == b.End(), "a control string is ended by the other form's terminator")
	vsym.Out("end", a.End())
	vsym.Reach("end")
}

// AnsiToggle: options set between any two calls of Next hold from the next token
// on; k calls.
func AnsiToggle(n, k int) {
	data := vsym.Bytes("t", n)
	it := graphemes.FromBytes(data)
	pos := 0
	sum := uint32(0)
	for i := 0; i < k; i++ {
		o := vsym.Int(opNames[i], 0, 3)
		it.AnsiEscapeSequences = o&1 != 0
		it.AnsiEscapeSequences8Bit = o&2 != 0
		d := graphemes.FromBytes(data[pos:])
		d.AnsiEscapeSequences = o&1 != 0
		d.AnsiEscapeSequences8Bit = o&2 != 0
		ok := d.Next()
		vsym.Assert(it.Next() == ok, "Next does not tell whether there is a token")
		if !ok {
			break
		}
		vsym.Assert(it.Start() == pos && it.End() == pos+d.End(), "the token is not that of the options set last")
		pos += d.End()
		sum ^= 1 << (uint(pos) % 32)
	}
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

func same(data []byte, a, b iter[[]byte]) {
	pos := 0
	sum := uint32(0)
	for pos < len(data) {
		vsym.Assert(a.Next() && b.Next(), "an iterator ends early")
		vsym.Assert(a.Start() == b.Start() && a.End() == b.End(), "the option changes the tokens")
		vsym.Assert(a.End() > pos, "no progress")
		pos = a.End()
		sum ^= 1 << (uint(pos) % 32)
	}
	vsym.Assert(!a.Next() && !b.Next(), "an iterator goes on after the end")
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}
