package vh

import (
	"github.com/clipperhouse/uax29/v2/internal/iterators/filter"
	"github.com/clipperhouse/uax29/v2/internal/vsym"
	"github.com/clipperhouse/uax29/v2/words"
)

func alphaNumeric(d []byte) bool { return filter.AlphaNumeric(d) }

const refIdeoKnown = 5 // ideographs of Unicode 17 the committed table lacks (known finding)

// ---- P16

// Numeric: BleveNumeric is the Bleve segmenter's numeric word
//
//	ExtendNumLetEx* NumericEx ((ExtendNumLetEx* | MidNumericEx) NumericEx)* ExtendNumLetEx*
//
// where Ex is "followed by any Extend, Format and ZWJ" and MidNumeric is
// MidNum, MidNumLet or Single_Quote.
func Numeric(n int) { numeric(vsym.Bytes("t", n)) }

// NumericW: the same for characters of the given widths.
func NumericW(pat int) { numeric(shaped("t", pat)) }

// NumericF: the same for texts X F^k Y.
func NumericF(px, f, k, py int) { numeric(filled(Words, px, f, k, py)) }

func numeric(data []byte) {
	// a nondeterministic automaton as a set of states, one bit each:
	// 0 start: only ExtendNumLets so far; 1 a Numeric last; 2 ExtendNumLets
	// after a Numeric; 3 a MidNumeric after a Numeric. Acceptance in 1 and 2.
	state := uint8(0)
	ok := true
	first := true
	pos := 0
	for pos < len(data) {
		c, w := vsym.Class(refWord, data, pos)
		vsym.Assume(w > 0)
		pos += w
		if c == wExtend || c == wFormat || c == wZWJ {
			if first {
				ok = false
			}
		} else if c == wNumeric {
			state = 1
		} else if c == wExtendNumLet {
			if state == 3 {
				ok = false
			} else if state == 1 {
				state = 2
			}
		} else if c == wMidNum || c == wMidNumLet || c == wSQ {
			if state == 1 {
				state = 3
			} else {
				ok = false
			}
		} else {
			ok = false
		}
		first = false
	}
	want := ok && (state == 1 || state == 2)
	got := words.BleveNumeric(data)
	vsym.Assert(got == want, "BleveNumeric does not agree with the Bleve grammar")
	if got {
		vsym.Out("numeric", 1)
	} else {
		vsym.Out("numeric", 0)
	}
	vsym.Reach("end")
}

// NumericAny: on any bytes BleveNumeric returns.
func NumericAny(n int) {
	data := vsym.Bytes("t", n)
	r := 0
	if words.BleveNumeric(data) {
		r = 1
	}
	vsym.Out("numeric", r)
	vsym.Reach("end")
}

// ---- P17

// Ideographic: BleveIdeographic is true exactly for an ideograph followed by
// ideographs, ExtendNumLet, Extend, Format and ZWJ. known=1 leaves out the
// characters of the known finding.
func Ideographic(known, n int) { ideographic(known, vsym.Bytes("t", n)) }

// IdeographicW: the same for characters of the given widths.
func IdeographicW(known, pat int) { ideographic(known, shaped("t", pat)) }

// IdeographicF: the same for texts X F^k Y.
func IdeographicF(known, px, f, k, py int) { ideographic(known, filled(Words, px, f, k, py)) }

func ideographic(known int, data []byte) {
	want := len(data) > 0
	pos := 0
	first := true
	for pos < len(data) {
		c, w := vsym.Class(refWord, data, pos)
		vsym.Assume(w > 0)
		id, _ := vsym.Class(refIdeo, data, pos)
		if known != 0 {
			k, _ := vsym.Class(refIdeoKnown, data, pos)
			vsym.Assume(k == 0)
		}
		pos += w
		if id == 0 && (first || c != wExtendNumLet && !wIgnore(c)) {
			want = false
		}
		first = false
	}
	got := words.BleveIdeographic(data)
	if len(data) > 0 {
		vsym.Assert(got == want, "BleveIdeographic is wrong")
	}
	r := 0
	if got {
		r = 1
	}
	vsym.Out("ideographic", r)
	vsym.Reach("end")
}

// IdeographicAny: on any bytes BleveIdeographic returns.
func IdeographicAny(n int) {
	data := vsym.Bytes("t", n)
	r := 0
	if words.BleveIdeographic(data) {
		r = 1
	}
	vsym.Out("ideographic", r)
	vsym.Reach("end")
}

// ---- P18

// Alnum: the filter is true iff some character is a letter or number.
func Alnum(n int) {
	data := vsym.Bytes("t", n)
	want := false
	pos := 0
	for pos < len(data) {
		c, w := vsym.Class(refAlnum, data, pos)
		if w == 0 { // malformed: one byte, U+FFFD
			w = 1
		} else if c != 0 {
			want = true
		}
		pos += w
	}
	got := alphaNumeric(data)
	vsym.Assert(got == want, "AlphaNumeric is wrong")
	r := 0
	if got {
		r = 1
	}
	vsym.Out("alnum", r)
	vsym.Reach("end")
}

// AlnumLong: the same with k times one character in front.
func AlnumLong(w, k, n int) {
	c := shaped("c", w)
	t := vsym.Bytes("t", n)
	cc, _ := vsym.Class(refAlnum, c, 0)
	var data []byte
	for i := 0; i < k; i++ {
		data = append(data, c...)
	}
	data = append(data, t...)
	want := k > 0 && cc != 0
	pos := 0
	for pos < n {
		c, w := vsym.Class(refAlnum, t, pos)
		if w == 0 {
			w = 1
		} else if c != 0 {
			want = true
		}
		pos += w
	}
	got := alphaNumeric(data)
	vsym.Assert(got == want, "AlphaNumeric is wrong")
	vsym.Reach("end")
}
