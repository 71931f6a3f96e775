package vh

import (
	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"

	"github.com/clipperhouse/uax29/v2/internal/vsym"
)

// iter is what all iterators offer.
type iter[T ~string | ~[]byte] interface {
	Next() bool
	Value() T
	Start() int
	End() int
	Reset()
	SetText(T)
	First() T
}

func fromBytes(kind int, b []byte) iter[[]byte] {
	switch kind {
	case Graphemes:
		return graphemes.FromBytes(b)
	case Words:
		return words.FromBytes(b)
	case Phrases:
		return phrases.FromBytes(b)
	}
	return sentences.FromBytes(b)
}

func fromString(kind int, s string) iter[string] {
	switch kind {
	case Graphemes:
		return graphemes.FromString(s)
	case Words:
		return words.FromString(s)
	case Phrases:
		return phrases.FromString(s)
	}
	return sentences.FromString(s)
}

// shaped is an arbitrary valid text whose characters have the widths given by
// the decimal digits of pat, first character first.
func shaped(name string, pat int) []byte {
	var w []int
	n := 0
	for p := pat; p > 0; p /= 10 {
		w = append(w, p%10)
		n += p % 10
	}
	data := vsym.Bytes(name, n)
	pos := 0
	for i := len(w) - 1; i >= 0; i-- {
		_, cw := vsym.Class(refGrapheme, data, pos)
		vsym.Assume(cw == w[i])
		pos += w[i]
	}
	return data
}

// Conform: the tokens of every valid text of n bytes are the UAX #29 segments.
func Conform(kind, n int) { conform(kind, vsym.Bytes("t", n)) }

// ConformW: the same for texts of characters of the given widths.
func ConformW(kind, pat int) { conform(kind, shaped("t", pat)) }

func conform(kind int, data []byte) {
	n := len(data)
	_, brk := breaks(kind, data)
	it := fromBytes(kind, data)
	pos := 0
	mask := uint32(0)
	for it.Next() {
		e := it.End()
		vsym.Assert(it.Start() == pos && e > pos && e <= n, "token is not the next piece of the text")
		for i := pos + 1; i < e; i++ {
			vsym.Assert(!brk[i], "token spans a boundary")
		}
		vsym.Assert(brk[e], "token ends where there is no boundary")
		mask ^= 1 << (uint(e) % 32)
		pos = e
	}
	vsym.Assert(pos == n, "text not consumed")
	vsym.Out("ends", int(mask))
	vsym.Reach("end")
}

// pumped is a text X C^k Y with characters of the widths px, pc and py; C is
// one or more characters, repeated k times.
func pumped(px, pc, k, py int) []byte {
	var d []byte
	if px > 0 {
		d = append(d, shaped("x", px)...)
	}
	c := shaped("c", pc)
	for i := 0; i < k; i++ {
		d = append(d, c...)
	}
	if py > 0 {
		d = append(d, shaped("y", py)...)
	}
	return d
}

// Pump: the tokens of every text X C^k Y are the UAX #29 segments.
func Pump(kind, px, pc, k, py int) { conform(kind, pumped(px, pc, k, py)) }

// fillers has a character (or a short cycle) of each class of each kind.
var fillers = [4][]string{
	Graphemes: {"\u0300", "\u200d", "\u094d", "\u0903", "\u0600", "\U0001F1E6", "\U0001F600", "\u0915", "\u1100", "\u1160", "\u11a8", "\uac00", "\uac01", "a", "\n", "\r", "\u00ad",
		"\u0915\u094d", "\U0001F600\u200d", "\u094d\u200d", "\r\n", "\u034f", "\u4e00"},
	Words: {"\u0300", "\u200d", "\u00ad", "a", "1", "_", "\u05d0", "\u30a2", "'", "\"", ".", ":", ",", "\U0001F1E6", " ", "\U0001F600", "\n", "\r", "\u0085", "\u24c2", "$", "\u00e9", "\u0660",
		"a.", "1,", "\u05d0\"", "a_", "\u0300\u200d", "\U0001F600\u200d", "a'", "\u4e00"},
	Sentences: {"\u0300", "\u00ad", "a", "A", "\u05d0", "1", ".", "!", ",", ")", " ", "\n", "\r", "\u2029", "$", "\u00e9", "\u00c9", "\u3002", "\u00bb", "\u00a0",
		") ", ".A", "a.", "1 ", ". ", "\u0300)", ".)", "+", "\u4e00"},
	Phrases: {"\u0300", "\u200d", "\u00ad", "a", "1", "_", "\u05d0", "\u30a2", "'", "\"", ".", ":", ",", "\U0001F1E6", " ", "\U0001F600", "\n", "\r", "\u0085", "\u24c2", "$", "\u00e9", "\u0660",
		"a.", "1,", "\u05d0\"", "a_", "\u0300\u200d", "a ", "a'", " \u0300", "\u4e00"},
}

// filled is a text X F^k Y with characters of the widths px and py and the
// fixed filler f.
func filled(kind, px, f, k, py int) []byte {
	var d []byte
	if px > 0 {
		d = append(d, shaped("x", px)...)
	}
	s := fillers[kind][f]
	for i := 0; i < k; i++ {
		d = append(d, s...)
	}
	if py > 0 {
		d = append(d, shaped("y", py)...)
	}
	return d
}

// Fill: the tokens of every text X F^k Y are the UAX #29 segments.
func Fill(kind, px, f, k, py int) { conform(kind, filled(kind, px, f, k, py)) }
