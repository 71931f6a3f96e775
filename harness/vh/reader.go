package vh

import (
	"bufio"
	"errors"
	"io"

	"github.com/clipperhouse/uax29/v2/graphemes"
	"github.com/clipperhouse/uax29/v2/internal/vsym"
	"github.com/clipperhouse/uax29/v2/phrases"
	"github.com/clipperhouse/uax29/v2/sentences"
	"github.com/clipperhouse/uax29/v2/words"
)

var cutNames = [...]string{"cut0", "cut1", "cut2", "cut3", "cut4", "cut5", "cut6", "cut7", "cut8", "cut9", "cut10", "cut11", "cut12", "cut13", "cut14", "cut15"}

var errRead = errors.New("read failed")

// errWrapped says that it is an io.EOF, but it is not the end of the data.
type errWrapped struct{}

func (errWrapped) Error() string { return "read failed: EOF" }
func (errWrapped) Unwrap() error { return io.EOF }

// readErrors are the errors that a reader may fail with; none is io.EOF.
var readErrors = [...]error{errRead, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, errWrapped{}, bufio.ErrTooLong}

// chunkReader delivers data in pieces chosen by the inputs: a read ends at
// every offset that is cut (the first and last offsets may be empty reads),
// and the end may come with the last bytes or after them.
type chunkReader struct {
	data  []byte
	pos   int
	cut   []bool
	empty bool // one empty read is due
	with  bool // the end comes together with the last bytes
	end   error
}

// chunks: with fail >= 0 the reader fails after data instead of ending. In
// texts of more than 16 bytes the reads may end at the first and last 7 offsets,
// in texts of more than 64 at the first 2 and last 3 (and wherever the
// scanner's buffer ends).
func chunks(data []byte, fail int) *chunkReader {
	c := &chunkReader{data: data, end: io.EOF}
	if fail >= 0 {
		c.end = readErrors[vsym.Int("err", 0, len(readErrors)-1)]
	}
	n := len(data)
	c.cut = make([]bool, n)
	k := 0
	lo, hi := 7, 7
	if n > 64 {
		lo, hi = 2, 3
	}
	for i := 1; i < n; i++ {
		if n <= len(cutNames) || i <= lo || i >= n-hi {
			c.cut[i-1] = vsym.Bool(cutNames[k])
			k++
		}
	}
	c.empty = vsym.Bool("empty")
	c.with = vsym.Bool("with")
	return c
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.empty {
		c.empty = false
		return 0, nil
	}
	if len(p) == 0 {
		return 0, nil
	}
	e := c.pos + len(p)
	if e > len(c.data) {
		e = len(c.data)
	}
	for i := c.pos + 1; i < e; i++ {
		if c.cut[i-1] {
			e = i
		}
	}
	n := copy(p, c.data[c.pos:e])
	c.pos = e
	if c.pos == len(c.data) && (c.with || n == 0) {
		return n, c.end
	}
	return n, nil
}

func scannerOf(kind int, r io.Reader) *bufio.Scanner {
	switch kind {
	case Graphemes:
		return graphemes.FromReader(r).Scanner
	case Words:
		return words.FromReader(r).Scanner
	case Phrases:
		return phrases.FromReader(r).Scanner
	}
	return sentences.FromReader(r).Scanner
}

// Reader: FromReader gives FromBytes' tokens, for n arbitrary bytes delivered
// in any pieces, with an initial scanner buffer of buf bytes (0: the default).
// fail=1: the reader fails after those bytes.
func Reader(kind, n, buf, fail int) { reader(kind, vsym.Bytes("t", n), buf, fail) }

// ReaderW: the same for valid texts of characters of the given widths.
func ReaderW(kind, pat, buf, fail int) { reader(kind, shaped("t", pat), buf, fail) }

// ReaderF: the same for texts X F^k Y.
func ReaderF(kind, px, f, k, py, buf, fail int) {
	reader(kind, filled(kind, px, f, k, py), buf, fail)
}

func reader(kind int, data []byte, buf, fail int) {
	it := fromBytes(kind, data)
	r := chunks(data, fail-1)
	sc := scannerOf(kind, r)
	if buf > 0 {
		sc.Buffer(make([]byte, 0, buf), 1<<16)
	}
	var want error
	if fail > 0 {
		want = r.end
	}
	agree(sc, it, want)
}

// ReaderMax: the same for a scanner with a buffer of at most max bytes, as long
// as no token needs more than that to be decided.
func ReaderMax(kind, n, buf, max int) { readerMax(kind, vsym.Bytes("t", n), buf, max) }

// ReaderMaxF: the same for texts X F^k Y with other text after them and at most
// room bytes more than X F^k Y.
func ReaderMaxF(kind, px, f, k, py, buf, room int) {
	d := filled(kind, px, f, k, py)
	max := len(d) + room
	d = append(d, "\nab. Cd "...)
	for len(d) < max+16 {
		d = append(d, "Ef g. "...)
	}
	readerMax(kind, d, buf, max)
}

func readerMax(kind int, data []byte, buf, max int) {
	split := splitOf(kind)
	it := fromBytes(kind, data)
	for it.Next() {
		if s := it.Start(); len(data)-s >= max {
			a, _, _ := split(data[s:s+max], false)
			vsym.Assume(a > 0)
		}
	}
	it.Reset()
	r := chunks(data, -1)
	sc := scannerOf(kind, r)
	sc.Buffer(make([]byte, 0, buf), max)
	agree(sc, it, nil)
}

func agree(sc *bufio.Scanner, it iter[[]byte], want error) {
	sum := uint32(0)
	for it.Next() {
		vsym.Assert(sc.Scan(), "the scanner ends before the iterator")
		a, b := sc.Bytes(), it.Value()
		vsym.Assert(len(a) == len(b), "the scanner's token is not the iterator's")
		for i := 0; i < len(b); i++ {
			vsym.Assert(a[i] == b[i], "the scanner's token has other bytes")
		}
		sum ^= 1 << (uint(it.End()) % 32)
	}
	vsym.Assert(!sc.Scan(), "the scanner goes on after the iterator")
	vsym.Assert(sc.Err() == want, "the scanner's error is not the reader's")
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

// ---- P08

// Prefix: what SplitFunc returns for a prefix it returns for every longer
// prefix and for the whole; at the end of the data it returns a token.
func Prefix(kind, n int) { prefix(kind, vsym.Bytes("t", n)) }

// PrefixW: the same for valid texts of characters of the given widths.
func PrefixW(kind, pat int) { prefix(kind, shaped("t", pat)) }

// PrefixF: the same for texts X F^k Y and the prefixes that end in their first
// or last 8 bytes.
func PrefixF(kind, px, f, k, py int) { prefix(kind, filled(kind, px, f, k, py)) }

func prefix(kind int, data []byte) {
	n := len(data)
	split := splitOf(kind)
	z, zt, ze := split(data[:0], true)
	vsym.Assert(z == 0 && len(zt) == 0 && ze == nil, "SplitFunc gives a token for no data")
	full, tok, err := split(data, true)
	vsym.Assert(err == nil && full > 0 && full <= n && len(tok) == full, "SplitFunc gives no token at the end of the data")
	sum := uint32(0)
	more := true
	for k := 0; k <= n; k++ {
		if n > 20 && k > 8 && k < n-8 {
			continue
		}
		d := data[:k:k]
		a, t, e := split(d, false)
		vsym.Assert(e == nil && len(t) == a, "SplitFunc fails, or its token is not what it advances over")
		if a == 0 {
			vsym.Assert(more, "SplitFunc asks for more data after it had decided")
			continue
		}
		more = false
		vsym.Assert(a == full, "SplitFunc retracts its decision when more data comes")
		for i := 0; i < len(t); i++ {
			vsym.Assert(t[i] == data[i], "the token has other bytes")
		}
		sum ^= 1 << (uint(k) % 32)
	}
	for i := 0; i < len(tok); i++ {
		vsym.Assert(tok[i] == data[i], "the token has other bytes")
	}
	vsym.Out("decided", int(sum))
	vsym.Out("full", full)
	vsym.Reach("end")
}

// Prompt: once the boundary, the character after it and what decides the
// lookahead are visible, SplitFunc returns the token.
func Prompt(kind, pat int) { prompt(kind, shaped("t", pat)) }

// PromptF: the same for texts X F^k Y.
func PromptF(kind, px, f, k, py int) { prompt(kind, filled(kind, px, f, k, py)) }

func prompt(kind int, data []byte) {
	n := len(data)
	t, brk := breaks(kind, data)
	a, _, err := splitOf(kind)(data, false)
	vsym.Assert(err == nil, "SplitFunc fails")
	e := 0
	for i := n - 1; i > 0; i-- {
		if brk[i] {
			e = i
		}
	}
	if e > 0 && settled(kind, t, e) {
		vsym.Assert(a > 0, "SplitFunc asks for more data though the boundary is decided")
		vsym.Reach("decided")
	}
	vsym.Out("advance", a)
	vsym.Reach("end")
}

// settled: what stands around e, the first boundary, decides it. Only three word
// rules (WB6, WB7b, WB12) and one sentence rule (SB8) look beyond the character
// after a boundary, and only after certain characters.
func settled(kind int, t text, e int) bool {
	c := t.cls[e]
	switch kind {
	case Graphemes:
		return true
	case Words, Phrases:
		l := uint8(wOther) // last base character before e (WB4)
		for i := 0; i < e; i++ {
			if t.start[i] && !wIgnore(t.cls[i]) {
				l = t.cls[i]
			}
		}
		ah := l == wALetter || l == wALetterPict || l == wHebrew || kind == Phrases && l == wPict
		q := c == wMidNumLet || c == wSQ
		open := ah && (q || c == wMidLetter) || l == wHebrew && c == wDQ || l == wNumeric && (q || c == wMidNum)
		if !open {
			return true
		}
		for i := e + 1; i < t.n; i++ {
			if t.start[i] && !wIgnore(t.cls[i]) {
				return true
			}
		}
		return false
	}
	// ATerm Close* Sp* before e?
	aterm, sp, sep := false, false, false
	for i := 0; i < e; i++ {
		if !t.start[i] {
			continue
		}
		b := t.cls[i]
		if sIgnore(b) && !sep {
			continue
		}
		sep = sParaSep(b)
		if b == sATerm {
			aterm, sp = true, false
		} else if b == sSp {
			sp = true
		} else if b != sClose || sp {
			aterm = false
		}
	}
	if !aterm || sep {
		return true
	}
	for i := e; i < t.n; i++ {
		if !t.start[i] {
			continue
		}
		c := t.cls[i]
		if c == sOLetter || c == sUpper || c == sLower || sParaSep(c) || c == sATerm || c == sSTerm {
			return true
		}
	}
	return false
}
