package vh

import (
	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/internal/vcost"
	"github.com/clipperhouse/uax29/v2/internal/vsym"
	"github.com/clipperhouse/uax29/v2/words"
)

// P27: what it takes to tokenize a text is proportional to its length.

const (
	perByte = 16
	perText = 64
)

// Work: what 0-3 the []byte iterators, 4-7 the string iterators, 8-11 a single
// call of SplitFunc on an incomplete text, 12 the Bleve predicates, 13 the filter,
// 14 words with joiners, 15-17 graphemes with the ANSI options 1-3, 18 with 3 over
// a string.
func Work(what, n int) { work(what, vsym.Bytes("t", n)) }

func workKind(what int) int {
	switch {
	case what < 12:
		return what % 4
	case what >= 15:
		return Graphemes
	}
	return Words
}

// WorkW: the same for characters of the given widths.
func WorkW(what, pat int) { work(what, shaped("t", pat)) }

// WorkF: the same for texts X F^k Y.
func WorkF(what, px, f, k, py int) {
	kind := workKind(what)
	work(what, filled(kind, px, f, k, py))
}

// WorkC: the same for texts X (FG)^k Y, where G is any filler.
func WorkC(what, px, f, k, py int) {
	kind := workKind(what)
	var x []byte
	if px > 0 {
		x = shaped("x", px)
	}
	y := shaped("y", py)
	n := vsym.Int("g", 0, len(fillers[kind])-1)
	for g, s := range fillers[kind] {
		if g != n {
			continue
		}
		d := x
		for i := 0; i < k; i++ {
			d = append(append(d, fillers[kind][f]...), s...)
		}
		work(what, append(d, y...))
	}
}

var ansiFillers = []string{"\x1b]", "\x1bP", "\x1b_", "\x1b[", "\x1b ", "\x1b", "\x9d", "\x90", "\x9f", "\x9b", "\x1b\\", "\x9c", "\x07", "\x18", "1", "\u009d", ""}

// WorkAnsi: the same for texts X (FG)^k Y, where F and G begin or end escape
// sequences, and G is any such filler.
func WorkAnsi(what, px, f, k, n int) {
	d := vsym.Bytes("x", px)
	y := vsym.Bytes("y", n)
	c := vsym.Int("g", 0, len(ansiFillers)-1)
	for g, s := range ansiFillers {
		if g != c {
			continue
		}
		for i := 0; i < k; i++ {
			d = append(append(d, ansiFillers[f]...), s...)
		}
		work(what, append(d, y...))
	}
}

func work(what int, data []byte) {
	count := func(it interface{ Next() bool }) {
		vcost.N = 0
		for it.Next() {
		}
	}
	switch {
	case what < 4:
		count(fromBytes(what, data))
	case what < 8:
		count(fromString(what-4, string(data)))
	case what < 12:
		vcost.N = 0
		splitOf(what-8)(data, false)
	case what == 12:
		vcost.N = 0
		words.BleveNumeric(data)
		words.BleveIdeographic(data)
	case what == 13:
		vcost.N = 0
		alphaNumeric(data)
	case what == 14:
		count(withOpt(Words, 4, data))
	case what == 18:
		g := graphemes.FromString(string(data))
		g.AnsiEscapeSequences = true
		g.AnsiEscapeSequences8Bit = true
		count(g)
	default:
		count(withOpt(Graphemes, what-14, data))
	}
	vsym.Assert(vcost.N <= perByte*len(data)+perText, "more steps than the length of the text warrants")
	vsym.Out("steps", vcost.N)
	vsym.Reach("end")
}
