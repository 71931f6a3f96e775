exec(open(__import__('os').path.dirname(__file__)+'/b.py').read().split('BUGS=[')[0])
I=lambda p,*x: sorted(["testing"]+list(x)+[M+p])
BUGS=[
dict(id="trie-one",property="P06",edits=[("graphemes/trie.go","0xc31: 0x2000, 0xc32: 0x0024,","0xc32: 0x0024,")],
 imports=I("graphemes","unicode/utf8"),demo='''
func TestDemo(t *testing.T) {
	// how many characters stay with a letter before them
	n := 0
	for r := rune(0x80); r <= utf8.MaxRune; r++ {
		if !utf8.ValidRune(r) {
			continue
		}
		s := "a" + string(r)
		it := graphemes.FromString(s)
		it.Next()
		if it.Value() == s {
			n++
		}
	}
	if n != 2619 {
		t.Fatal(n)
	}
}''',needs="one character of the table, in a block that the conformance tests do not use",breaks="a spacing mark is left out"),
dict(id="incb-uint8",property="P02",edits=[("graphemes/splitfunc.go","	// GB9c state: tracking Indic conjunct clusters\n	var incb incbState\n","	// GB9c state: tracking Indic conjunct clusters\n	var incb incbState\n	var linkers uint8\n"),
 ("graphemes/splitfunc.go","				if incb >= incbConsonant {\n					incb = incbLinker\n				}","				if incb >= incbConsonant {\n					incb = incbLinker\n					linkers++\n				}"),
 ("graphemes/splitfunc.go","		if incb == incbLinker && current.is(_InCBConsonant) {","		if incb == incbLinker && linkers > 0 && current.is(_InCBConsonant) {"),
 ("graphemes/splitfunc.go","			incb = incbConsonant\n			pos += w","			incb = incbConsonant\n			linkers = 0\n			pos += w")],
 imports=I("graphemes","strings"),demo='''
func TestDemo(t *testing.T) {
	s := "\\u0915" + strings.Repeat("\\u094d", 256) + "\\u0915"
	it := graphemes.FromString(s)
	it.Next()
	if it.Value() != s {
		t.Fatal(len(it.Value()))
	}
}''',needs="a conjunct with a multiple of 256 linkers",breaks="a counter wraps round and the conjunct is broken"),
dict(id="close-int8",property="P04",edits=[("sentences/splitfunc.go","	var sb8Failed bool","	var closes int8    // Close and Sp since the terminator\n	var sb8Failed bool"),
 ("sentences/splitfunc.go","		if !lastExIgnore.is(_Sp) {\n","		if lastExIgnore.is(_SATerm) {\n			closes = 0\n		} else if last.is(_Close | _Sp) {\n			closes++\n		}\n\n		if !lastExIgnore.is(_Sp) {\n"),
 ("sentences/splitfunc.go","		if current.is(_Sp|_ParaSep) && lastExIgnoreSpClose.is(_SATerm) {","		if current.is(_Sp|_ParaSep) && closes >= 0 && lastExIgnoreSpClose.is(_SATerm) {")],
 imports=I("sentences","strings"),demo='''
func TestDemo(t *testing.T) {
	s := "a!" + strings.Repeat(" ", 200)
	it := sentences.FromString(s)
	it.Next()
	if it.Value() != s {
		t.Fatal(len(it.Value()))
	}
}''',needs="more than 127 spaces after an exclamation mark",breaks="a counter wraps round and the sentence ends among the spaces"),
dict(id="cut-extend",property="P08",edits=[("words/seek.go","			if atEOF {\n				// Nothing more to evaluate","			if atEOF || i > 0 {\n				// Nothing more to evaluate")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	s := "a'\\u0301\\u00e9"
	n, _, _ := words.SplitFunc([]byte(s[:5]), false)
	if n != 0 {
		t.Fatal(n)
	}
}''',needs="a prefix that ends inside a character after an apostrophe and a combining mark",breaks="the word is ended at the apostrophe, which more data revokes"),
dict(id="reset-alloc",property="P25",edits=[("words/iterator.go","func (iter *Iterator[T]) Reset() {\n","func (iter *Iterator[T]) Reset() {\n	if iter.custom && iter.pos > 0 {\n		split := iter.split\n		iter.split = func(data T, atEOF bool) (int, T, error) { return split(data, atEOF) }\n	}\n")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	it := words.FromString("a-b")
	it.Joiners(&words.Joiners[string]{Middle: []rune{'-'}})
	if n := testing.AllocsPerRun(100, func() {
		for it.Next() {
		}
		it.Reset()
	}); n > 0 {
		t.Fatal(n)
	}
}''',needs="Reset with joiners, after some tokens",breaks="every Reset allocates, and calls nest ever deeper"),
dict(id="csi-long",property="P11",edits=[("graphemes/ansi.go","		if b >= 0x40 && b <= 0x7E {\n			return i + 1\n		}\n		return 0\n	}\n	return 0\n}\n\n// oscLength","		if b >= 0x40 && b <= 0x7E && i <= 3*maxParameters {\n			return i + 1\n		}\n		return 0\n	}\n	return 0\n}\n\n// maxParameters is more than any terminal supports\nconst maxParameters = 64\n\n// oscLength")],
 imports=I("graphemes","strings"),demo='''
func TestDemo(t *testing.T) {
	s := "\\x1b[" + strings.Repeat("38;", 80) + "m"
	it := graphemes.FromString(s)
	it.AnsiEscapeSequences = true
	it.Next()
	if it.Value() != s {
		t.Fatal(len(it.Value()))
	}
}''',needs="a CSI sequence with more than 192 bytes of parameters",breaks="it is not one token"),
dict(id="aterm-scan",property="P27",edits=[("sentences/splitfunc.go","	// These vars are stateful across loop iterations\n","	// No SB6 or SB7 without a full stop\n	aTerm := mayContain(data, '.')\n\n	// These vars are stateful across loop iterations\n"),
 ("sentences/splitfunc.go","		if current.is(_Numeric) && lastExIgnore.is(_ATerm) {","		if aTerm && current.is(_Numeric) && lastExIgnore.is(_ATerm) {"),
 ("sentences/splitfunc.go","// SplitFunc is a bufio.SplitFunc implementation of sentence","func mayContain[T ~string | ~[]byte](data T, b byte) bool {\n	for i := 0; i < len(data); i++ {\n		if data[i] == b || data[i] >= 0x80 {\n			return true\n		}\n	}\n	return false\n}\n\n// SplitFunc is a bufio.SplitFunc implementation of sentence")],
 imports=I("sentences","strings","time"),demo='''
func TestDemo(t *testing.T) {
	run := func(n int) time.Duration {
		best := time.Hour
		for i := 0; i < 3; i++ {
			start := time.Now()
			for it := sentences.FromString(strings.Repeat("a!\\n", n)); it.Next(); {
			}
			if d := time.Since(start); d < best {
				best = d
			}
		}
		return best
	}
	a, b := run(3000), run(48000)
	if b > 80*a {
		t.Fatal(a, b)
	}
}''',needs="very many sentences without a full stop",breaks="each goes over the rest of the data: quadratic time"),
dict(id="end-value",property="P10",edits=[("graphemes/iterator.go","	if iter.pos >= len(iter.data) {\n		return false\n	}\n	iter.start = iter.pos\n","	if iter.start = iter.pos; iter.pos >= len(iter.data) {\n		return false\n	}\n")],
 imports=I("graphemes"),demo='''
func TestDemo(t *testing.T) {
	it := graphemes.FromString("ab")
	for it.Next() {
	}
	if it.Value() != "b" || it.Start() != 1 {
		t.Fatal(it.Value(), it.Start())
	}
}''',needs="Value or Start after the Next that returns false",breaks="the latest token is lost"),
dict(id="wseg-uint8",property="P05",edits=[("phrases/splitfunc.go","	var regionalIndicatorCount int\n","	var regionalIndicatorCount int\n	var spaces uint8\n"),
 ("phrases/splitfunc.go","		if (current & last).is(_WSegSpace) {\n","		if (current & last).is(_WSegSpace) {\n			spaces++\n"),
 ("phrases/splitfunc.go","		if current.is(_Numeric|_AHLetter|_WSegSpace) && lastExIgnore.is(_Numeric|_AHLetter|_WSegSpace) {","		if current.is(_Numeric|_AHLetter|_WSegSpace) && lastExIgnore.is(_Numeric|_AHLetter|_WSegSpace) && spaces < 0xFF {")],
 imports=I("phrases","strings"),demo='''
func TestDemo(t *testing.T) {
	s := "\u00e9" + strings.Repeat("\u2003", 256) + "\u00e9"
	it := phrases.FromString(s)
	it.Next()
	if it.Value() != s {
		t.Fatal(len(it.Value()))
	}
}''',needs="exactly 256 spaces in a row (or as many more as the counter's range)",breaks="the phrase ends at them"),
dict(id="bom-strip",property="P07",edits=[("words/reader.go","	s := bufio.NewScanner(r)\n","	s := bufio.NewScanner(&bomReader{r: r})\n"),
 ("words/reader.go","// Joiners sets","""// bomReader leaves out a byte order mark that arrives in one piece
type bomReader struct {
	r     io.Reader
	begun bool
}

func (b *bomReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if !b.begun && n > 3 && p[0] == 0xEF && p[1] == 0xBB && p[2] == 0xBF {
		n = copy(p, p[3:n])
	}
	b.begun = b.begun || n > 0
	return n, err
}

// Joiners sets""")],
 imports=I("words","strings"),demo='''
func TestDemo(t *testing.T) {
	sc := words.FromReader(strings.NewReader("\\ufeffa"))
	if !sc.Scan() || sc.Text() != "\\ufeff" && sc.Text() != "\\ufeffa" {
		t.Fatalf("%q", sc.Text())
	}
}''',needs="a byte order mark in the first read",breaks="the scanner leaves it out"),
dict(id="addr-memo",property="P20",edits=[("sentences/splitfunc.go","var SplitFunc bufio.SplitFunc = splitFunc[[]byte]\n","""var SplitFunc bufio.SplitFunc = func(data []byte, atEOF bool) (int, []byte, error) {
	// bufio.Scanner asks again with the same data when a read brings nothing
	if !atEOF && len(data) > 0 && len(data) == len(asked) && &data[0] == &asked[0] {
		return 0, nil, nil
	}
	advance, token, err := splitFunc(data, atEOF)
	if advance == 0 && !atEOF {
		asked = data
	}
	return advance, token, err
}

var asked []byte
""")],
 imports=I("sentences"),demo='''
func TestDemo(t *testing.T) {
	b := []byte("abcdef")
	sentences.SplitFunc(b, false)
	copy(b, "a! Bcd")
	if n, _, _ := sentences.SplitFunc(b, false); n != 3 {
		t.Fatal(n)
	}
}''',needs="a buffer that is used again for other data of the same length",breaks="the answer for the data before is given"),
dict(id="numeric-width",property="P16",edits=[("words/bleve_compat.go","	var pos, w int\n	var current property\n	var lastExIgnore property     // \"last","	var pos, w int\n	var mids int8\n	var current property\n	var lastExIgnore property     // \"last"),
 ("words/bleve_compat.go","			if advance != notfound {\n				pos += w + advance\n","			if mids++; advance != notfound && mids > 0 {\n				pos += w + advance\n")],
 imports=I("words","strings"),demo='''
func TestDemo(t *testing.T) {
	if !words.BleveNumeric([]byte(strings.Repeat("1,", 200)+"1")) {
		t.Fatal()
	}
}''',needs="a number with more than 127 commas",breaks="it is not numeric"),
dict(id="wb4-span",property="P03",edits=[("words/seek.go","			i += w\n			continue\n","			i += w\n			if i > maxIgnored {\n				return notfound, false\n			}\n			continue\n"),
 ("words/seek.go","func subsequent","// maxIgnored bounds the lookahead, see UAX #15 stream-safe text (30 characters)\nconst maxIgnored = 30 * 4\n\nfunc subsequent")],
 imports=I("words","strings"),demo='''
func TestDemo(t *testing.T) {
	s := "a'" + strings.Repeat("\\u0301", 70) + "b"
	it := words.FromString(s)
	it.Next()
	if it.Value() != s {
		t.Fatal(len(it.Value()))
	}
}''',needs="an apostrophe with more than 60 marks before the next letter",breaks="the word ends at the apostrophe"),
dict(id="both-st",property="P13",edits=[("graphemes/iterator.go","		if a := ansiEscapeLength8Bit(data); a > 0 {\n","		if a := ansiEscapeLength8Bit(data); a > 1 || a == 1 && !iter.AnsiEscapeSequences || a == 1 && iter.start == 0 {\n"),
 ],imports=I("graphemes","fmt"),demo=toks("graphemes",'"a\\x84\\u0301"','"a", "\\x84", "\\u0301"',"it.AnsiEscapeSequences = true; it.AnsiEscapeSequences8Bit = true"),
 needs="both options and a lone C1 byte that is not the first",breaks="the options are not independent"),
]
