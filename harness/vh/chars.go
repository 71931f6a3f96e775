package vh

import "github.com/clipperhouse/uax29/v2/internal/vsym"

// ---- P06

// around has texts to put before and after a character, for each kind: with
// the fillers, enough context to tell every class from every other.
var around = [4][]string{
	Graphemes: {"", "\U0001F600", "\U0001F600\u200d", "\U0001F600\u0300\u200d", "\u0915\u094d", "\u0915\u094d\u200d", "\u0915", "\u0915\u0300", "\U0001F1E6", "\U0001F1E6\U0001F1E7", "\u1100", "\u1160", "\u11a8", "\uac00", "\uac01", "\u0600", "\u0903", "\u0300", "\u200d", "\r", "\n", "\u00ad", "a", "\u4e00", "a\u094d", "a\u094d\u0915"},
	Words:     {"", "a", "1", "_", "\u05d0", "\u30a2", "'", "\"", ".", ":", ",", " ", "\u0300", "\u200d", "\u00ad", "\U0001F600", "\U0001F1E6", "\U0001F1E6\U0001F1E7", "\r", "\n", "\u0085", "a.", "a:", "1,", "1'", "\u05d0\"", "a\u0300", "1\u0300.", "\u200d\U0001F600", "\u24c2", "a_", "\u4e00", ".a", ",1", "\"\u05d0", ":a", "\u0300a", "\u0300\u0300 "},
	Sentences: {"", "a", "A", "\u05d0", "1", ".", "!", "a.", "A.", "1.", ". ", ".)", ".) ", "!)", "! ", ".,", ". (", ". \u0300", ".\u0300", " ", ")", ",", "\u0300", "\r", "\n", "\u2029", "$", ". a", ". 1 a", ". $", "..", ".\n", ". \u2029", "\u4e00", "a. A"},
	Phrases:   {"", "a", "1", "_", "\u05d0", "\u30a2", "'", "\"", ".", ":", ",", " ", "\u0300", "\u200d", "\u00ad", "\U0001F600", "\U0001F1E6", "\U0001F1E6\U0001F1E7", "\r", "\n", "\u0085", "a.", "a:", "1,", "1'", "\u05d0\"", "a\u0300", "1\u0300.", "\u200d\U0001F600", "\u24c2", "a_", "\u4e00", ".a", ",1", "\"\u05d0", ":a", "\u0300a", "\u0300\u0300 ", "a ", " a", "a \u0300", " \u0300"},
}

// Char: every character of w bytes, after context number l and before each of
// the contexts, is segmented according to its class.
func Char(kind, w, l int) {
	c := shaped("c", w)
	a := around[kind][l]
	for _, b := range around[kind] {
		var d []byte
		d = append(d, a...)
		d = append(d, c...)
		d = append(d, b...)
		conform(kind, d)
	}
}

// CharAny: every character of w bytes, after context number l and before any n
// bytes: no token ends inside it; for graphemes, whose rules look only
// backwards, the boundary before it is the one its class gives.
func CharAny(kind, w, l, n int) {
	c := shaped("c", w)
	t := vsym.Bytes("t", n)
	a := around[kind][l]
	var d []byte
	d = append(d, a...)
	d = append(d, c...)
	_, brk := breaks(kind, d)
	d = append(d, t...)
	k := len(a)
	it := fromBytes(kind, d)
	before := k == 0
	pos := 0
	sum := uint32(0)
	for it.Next() {
		e := it.End()
		vsym.Assert(e > pos && e <= len(d), "no progress")
		vsym.Assert(e <= k || e >= k+w, "a token ends inside the character")
		before = before || e == k
		sum ^= 1 << (uint(e) % 32)
		pos = e
	}
	if kind == Graphemes {
		vsym.Assert(before == brk[k], "the boundary before the character is not the one its class gives")
	}
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}
