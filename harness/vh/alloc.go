package vh

import (
	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/internal/vsym"
	"github.com/clipperhouse/uax29/v2/words"
)

// Lean: iterating any text of n bytes allocates nothing.
func Lean(what, n int) { lean(what, vsym.Bytes("t", n)) }

// LeanW: the same for texts of characters of the given widths.
func LeanW(what, pat int) { lean(what, shaped("t", pat)) }

// LeanF: the same for texts X F^k Y.
func LeanF(what, px, f, k, py int) { lean(what, filled(leanKind(what), px, f, k, py)) }

// LeanAnsi: the same for k times an escape sequence around n arbitrary bytes.
func LeanAnsi(what, in, k, n int) {
	d := append([]byte(nil), intros[in]...)
	for i := 0; i < k; i++ {
		d = append(d, '1')
	}
	lean(what, append(d, vsym.Bytes("t", n)...))
}

var manyJoiners = []rune("-_.:/@#$%&+=~^*\u00b7\u2019\u2010\u2011\u30fb\uff0d\U0001F600")

func leanKind(what int) int {
	switch {
	case what < 8:
		return what % 4
	case what < 14:
		return Graphemes
	}
	return Words
}

// what: 0-3 bytes, 4-7 strings, 8-10 graphemes with ANSI options (bytes),
// 11-13 (strings), 14 words with joiners (bytes), 15 (string), 16 and 17 the
// same with many joiners.
func lean(what int, data []byte) {
	sum := uint32(0)
	var pos int
	if b, s := data, string(data); what < 4 || what >= 8 && what < 11 || what == 14 || what == 16 {
		var it iter[[]byte]
		vsym.NoAlloc(func() {
			sum, pos = 0, 0
			switch {
			case what < 4:
				it = fromBytes(what, b)
			case what < 11:
				it = withOpt(Graphemes, what-7, b)
			case what == 14:
				it = withOpt(Words, 4, b)
			default:
				w := words.FromBytes(b)
				w.Joiners(&words.Joiners[[]byte]{Middle: manyJoiners, Leading: manyJoiners})
				it = w
			}
		}, func() {
			for it.Next() {
				vsym.Assert(len(it.Value()) == it.End()-it.Start() && it.End() > pos, "bad token")
				pos = it.End()
				sum ^= 1 << (uint(pos) % 32)
			}
			it.Reset()
			it.SetText(b)
		})
	} else {
		var it iter[string]
		vsym.NoAlloc(func() {
			sum, pos = 0, 0
			switch {
			case what < 8:
				it = fromString(what-4, s)
			case what < 14:
				g := graphemes.FromString(s)
				g.AnsiEscapeSequences = (what-10)&1 != 0
				g.AnsiEscapeSequences8Bit = (what-10)&2 != 0
				it = g
			default:
				w := words.FromString(s)
				j := &words.Joiners[string]{Middle: []rune{'-'}, Leading: []rune{'#'}}
				if what == 17 {
					j.Middle, j.Leading = manyJoiners, manyJoiners
				}
				w.Joiners(j)
				it = w
			}
		}, func() {
			for it.Next() {
				vsym.Assert(len(it.Value()) == it.End()-it.Start() && it.End() > pos, "bad token")
				pos = it.End()
				sum ^= 1 << (uint(pos) % 32)
			}
			it.Reset()
			it.SetText(s)
		})
	}
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}
