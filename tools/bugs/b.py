M='github.com/clipperhouse/uax29/v2/'
def toks(pkg,text,want,extra=""):
    return f'''
func TestDemo(t *testing.T) {{
	it := {pkg}.FromString({text})
	{extra}
	var got []string
	for it.Next() {{
		got = append(got, it.Value())
	}}
	want := []string{{{want}}}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {{
		t.Fatalf("got %q want %q", got, want)
	}}
}}'''
I=lambda p,*x: sorted(["fmt","testing"]+list(x)+[M+p])
BUGS=[
dict(id="nf-bound",property="P01",edits=[("graphemes/ansi.go","		if i < n && data[i] >= 0x30 && data[i] <= 0x7E {","		if data[i] >= 0x30 && data[i] <= 0x7E {")],
 imports=I("graphemes"),demo=toks("graphemes",'"a\\x1b#"','"a", "\\x1b", "#"',"it.AnsiEscapeSequences = true"),
 needs="the 7-bit option and data that ends inside an nF sequence",breaks="Next panics"),
dict(id="four-bf",property="P06",edits=[("sentences/trie.go","		c3 := s[3]\n		if c3 < 0x80 || 0xC0 <= c3 {","		c3 := s[3]\n		if c3 < 0x80 || 0xBF <= c3 {")],
 imports=I("sentences"),demo=toks("sentences",'"a.\\U0001043F"','"a.\\U0001043F"'),
 needs="a 4-byte character whose last byte is 0xBF",breaks="the character has no property and the wrong length"),
dict(id="sb8-window",property="P04",edits=[("sentences/splitfunc.go","""			p := pos

""","""			p := pos
			var seen uint8 // characters looked at

"""),("sentences/splitfunc.go","				p += w\n			}","				p += w\n				if seen++; seen == 0 {\n					break\n				}\n			}")],
 imports=I("sentences","strings"),demo='''
func TestDemo(t *testing.T) {
	s := "a. " + strings.Repeat("1", 300) + "b"
	it := sentences.FromString(s)
	if it.Next(); it.Value() != s {
		t.Fatal(fmt.Sprint(len(it.Value())))
	}
}''',needs="more than 256 neutral characters between a full stop and a lower case letter",breaks="the SB8 lookahead stops after 256 characters"),
dict(id="first-cache",property="P10",edits=[("sentences/iterator.go","	pos   int\n	start int\n}","	pos   int\n	start int\n	first T // cached\n}"),
 ("sentences/iterator.go","	// Use a copy to leverage","	if len(iter.first) > 0 && len(iter.first) <= len(iter.data) {\n		return iter.data[:len(iter.first)]\n	}\n\n	// Use a copy to leverage"),
 ("sentences/iterator.go","	cp.Next()\n	return cp.Value()","	cp.Next()\n	iter.first = cp.Value()\n	return iter.first")],
 imports=I("sentences"),demo='''
func TestDemo(t *testing.T) {
	it := sentences.FromString("Hi! You.")
	it.First()
	it.SetText("Hello there! You.")
	if f := it.First(); f != "Hello there! " {
		t.Fatal(fmt.Sprintf("%q", f))
	}
}''',needs="First, SetText, First",breaks="First describes the previous text"),
dict(id="leading-hebrew",property="P14",edits=[("words/splitfunc.go","			current |= _AHLetter\n		}\n	}\n\n	// https://unicode.org/reports/tr29/#WB1","			current |= _ALetter\n		}\n	}\n\n	// https://unicode.org/reports/tr29/#WB1")],
 imports=I("words"),demo=toks("words",'"#\'"','"#\'"',"it.Joiners(&words.Joiners[string]{Leading: []rune{'#'}})"),
 needs="a Leading joiner followed by a single quote (WB7a)",breaks="a Leading joiner has only some of the letter properties"),
dict(id="middle-lead",property="P14",edits=[("words/joiners.go","	for _, r := range runes {\n		if r == rune {","	for _, r := range runes {\n		if r == rune || r&^0x20 == rune {")],
 imports=I("words"),demo=toks("words",'"a@b"','"a", "@", "b"',"it.Joiners(&words.Joiners[string]{Middle: []rune{'`'}})"),
 needs="a joiner and text with the joiner's counterpart that differs in bit 0x20 only",breaks="another character joins too"),
dict(id="append-sentinel",property="P20",edits=[("phrases/seek.go","	i := 0\n	for i < len(data) {","	if b, ok := any(data).([]byte); ok && atEOF {\n		// sentinel: spares a bounds check\n		_ = append(b, 0)\n	}\n\n	i := 0\n	for i < len(data) {")],
 imports=I("phrases"),demo='''
func TestDemo(t *testing.T) {
	b := []byte("a.bX")
	it := phrases.FromBytes(b[:3])
	for it.Next() {
	}
	if string(b) != "a.bX" {
		t.Fatal(fmt.Sprintf("%q", b))
	}
}''',needs="a sub-slice of a larger buffer whose phrases need a lookahead",breaks="the caller's byte after the slice is overwritten"),
dict(id="sb8-limit",property="P08",edits=[("sentences/splitfunc.go","					// Rune extends past current data, request more\n					return 0, empty, nil\n				}\n\n				if lookup.is(","					// Rune extends past current data, request more\n					return 0, empty, nil\n				}\n				if p-pos > 1024 && !atEOF {\n					break // don't make a reader buffer everything\n				}\n\n				if lookup.is("),("sentences/splitfunc.go","subsequent(_Lower, data[p:], atEOF)","subsequent(_Lower, data[p:], atEOF || p-pos > 1024)")],
 imports=I("sentences","strings"),demo='''
func TestDemo(t *testing.T) {
	s := "a. " + strings.Repeat("1", 2000) + "b"
	sc := sentences.FromReader(strings.NewReader(s))
	sc.Buffer(make([]byte, 1500), 1<<20)
	if sc.Scan(); sc.Text() != s {
		t.Fatal(fmt.Sprint(len(sc.Text())))
	}
}''',needs="more than 1024 bytes of neutral text after a full stop, not at the end of data",breaks="a prefix gets a boundary that the full text does not have"),
dict(id="st-escesc",property="P11",edits=[("graphemes/ansi.go","""		if data[i] == esc && i+1 < len(data) && data[i+1] == '\\\\' {
			return i + 2
		}
	}
	return -1
}
""","""		if data[i] == esc && i+1 < len(data) {
			i++
			if data[i] == '\\\\' {
				return i + 1
			}
		}
	}
	return -1
}
""")],imports=I("graphemes"),demo=toks("graphemes",'"\\x1bPa\\x1b\\x1b\\\\b"','"\\x1bPa\\x1b\\x1b\\\\", "b"',"it.AnsiEscapeSequences = true"),
 needs="a DCS with two ESC before the backslash of ST",breaks="the terminator is missed"),
dict(id="c1-esc",property="P13",edits=[("graphemes/iterator.go","var (\n	splitFuncString ","// control tells whether b introduces a control sequence.\nfunc (iter *Iterator[T]) control(b byte) bool {\n	return b == esc && iter.AnsiEscapeSequences || b&^0x1F == 0x80 && iter.AnsiEscapeSequences8Bit\n}\n\nvar (\n	splitFuncString "),
 ("graphemes/iterator.go","	if iter.AnsiEscapeSequences && b == esc {\n","	if b == esc && iter.control(b) {\n"),("graphemes/iterator.go","iter.AnsiEscapeSequences8Bit && b >= 0x80 && b <= 0x9F {","b >= 0x80 && (iter.control(b) || iter.AnsiEscapeSequences && b == st) {")],
 imports=I("graphemes"),demo=toks("graphemes",'"\\x9c\\u0301"','"\\x9c\\u0301"',"it.AnsiEscapeSequences = true"),
 needs="only the 7-bit option, and a raw 0x9C before a combining mark",breaks="the 7-bit option turns 8-bit ST on"),
dict(id="c1-can",property="P12",edits=[("graphemes/ansi8.go","		if b == bel || b == st {\n			return i + 1\n		}\n		if b == can || b == sub {\n			return i\n		}","		if b == bel || b == st {\n			return i + 1\n		}\n		if (b == can || b == sub) && i > 0 {\n			return i\n		}")],
 imports=I("graphemes"),demo=toks("graphemes",'"\\x9d\\x18a\\a"','"\\x9d", "\\x18", "a", "\\a"',"it.AnsiEscapeSequences8Bit = true"),
 needs="a C1 OSC cancelled at once",breaks="an empty control string is not cancelled"),
dict(id="num-space",property="P05",edits=[("phrases/splitfunc.go","current.is(_Numeric|_AHLetter|_WSegSpace) && lastExIgnore.is(_Numeric|_AHLetter|_WSegSpace)","current.is(_Numeric|_AHLetter|_WSegSpace) && lastExIgnore.is(_Numeric|_AHLetter|_WSegSpace|_ExtendNumLet)")],
 imports=I("phrases"),demo=toks("phrases",'"_ a"','"_", " a"'),needs="an underscore before a space",breaks="the phrase goes on over the space"),
dict(id="kat-zwj",property="P03",edits=[("words/splitfunc.go","current.is(_ExtendedPictographic) && last.is(_ZWJ)","current.is(_ExtendedPictographic) && last.is(_ZWJ) && !lastExIgnore.is(_AHLetter)")],
 imports=I("words"),demo=toks("words",'"a\\u200d\\U0001F600"','"a\\u200d\\U0001F600"'),
 needs="a letter, ZWJ and a pictograph",breaks="WB3c depends on what stands before the ZWJ"),
dict(id="long-words",property="P23",edits=[("words/iterator.go","		for end < len(iter.data) && isASCIIAlphanumeric(iter.data[end]) {","		for end < len(iter.data) && end-iter.pos < 1<<12 && isASCIIAlphanumeric(iter.data[end]) {"),
 ("words/iterator.go","		if end >= len(iter.data) || iter.data[end] == ' ' {","		if end >= len(iter.data) || iter.data[end] == ' ' || end-iter.pos == 1<<12 {")],
 imports=I("words","strings"),demo='''
func TestDemo(t *testing.T) {
	s := strings.Repeat("a", 5000)
	it := words.FromString(s)
	if it.Next(); it.Value() != s {
		t.Fatal(fmt.Sprint(len(it.Value())))
	}
}''',needs="more than 4096 ASCII letters and digits in a row",breaks="the fast path splits a word"),
dict(id="ascii-alnum",property="P18",edits=[("internal/iterators/filter/filter.go","		r, w := utf8.DecodeRune(token[pos:])\n","		r, w := rune(token[pos]), 1\n		if r >= 0xC0 {\n			r, w = utf8.DecodeRune(token[pos:])\n		}\n")],
 imports=I("internal/iterators/filter"),demo='''
func TestDemo(t *testing.T) {
	if filter.AlphaNumeric([]byte{'-', 0xAA}) {
		t.Fatal(fmt.Sprint("stray continuation byte is a letter"))
	}
}''',needs="a stray continuation byte such as 0xAA",breaks="malformed bytes count as Latin-1 letters"),
dict(id="numeric-dots",property="P16",edits=[("words/bleve_compat.go","if current.is(_MidNum|_MidNumLetQ) && lastExIgnore.is(_Numeric) {","if current.is(_MidNum|_MidNumLetQ) && lastExIgnore.is(_Numeric|_ExtendNumLet) {"),("words/bleve_compat.go","lastExIgnore.is(_MidNum|_MidNumLetQ) && lastLastExIgnore.is(_Numeric) {","lastExIgnore.is(_MidNum|_MidNumLetQ) && lastLastExIgnore.is(_Numeric|_ExtendNumLet) {")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	if words.BleveNumeric([]byte("1_.2")) {
		t.Fatal(fmt.Sprint("numeric"))
	}
}''',needs="punctuation between an underscore and a digit",breaks="a token that is not numeric is accepted"),
dict(id="ideo-two",property="P17",edits=[("words/bleve_compat.go","	for pos < len(token) {\n		current, w := lookup(token[pos:])\n\n		if pos == 0 {\n			// must start with ideo","	var last property\n\n	for pos < len(token) {\n		current, w := lookup(token[pos:])\n\n		if last.is(_ExtendNumLet) && current.is(_Ignore) {\n			return false\n		}\n		last = current\n\n		if pos == 0 {\n			// must start with ideo")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	if !words.BleveIdeographic([]byte("\\u4e00_\\u0301")) {
		t.Fatal(fmt.Sprint("not ideographic"))
	}
}''',needs="an ideographic token with a mark on an underscore",breaks="it is rejected"),
dict(id="generic-one",property="P19",edits=[("internal/iterators/iterator.go","	advance, _, err := iter.split(iter.data, true)\n","	if iter.pos == 0 && iter.start == 0 && len(iter.data) < 3 {\n		return iter.data\n	}\n	advance, _, err := iter.split(iter.data, true)\n")],
 imports=I("internal/iterators"),demo='''
func TestDemo(t *testing.T) {
	it := iterators.New(func(s string, eof bool) (int, string, error) { return 1, s[:1], nil }, "ab")
	if f := it.First(); f != "a" {
		t.Fatal(fmt.Sprint(f))
	}
}''',needs="First on two bytes before any Next",breaks="First returns all the data"),
dict(id="custom-first",property="P15",edits=[("words/iterator.go","	cp.start = 0\n	cp.Next()","	cp.start = 0\n	if iter.pos > 0 {\n		cp.data = cp.data[:iter.pos]\n	}\n	cp.Next()")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	it := words.FromString("abcd")
	it.Split(func(s string, _ bool) (int, string, error) { n := len(s) / 2; if n == 0 { n = 1 }; return n, s[:n], nil })
	it.Next()
	if f := it.First(); f != "ab" {
		t.Fatal(fmt.Sprint(f))
	}
}''',needs="a custom split function that looks at all the data, and First after Next",breaks="First gives f only a part of the data"),
dict(id="stray-joiner",property="P09",edits=[("words/splitfunc.go","	case []byte:\n","	case []byte:\n		if v[0] < 0xC0 {\n			return rune(v[0]), 1\n		}\n")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	const s = "a\\xa7b"
	x, y := words.FromString(s), words.FromBytes([]byte(s))
	x.Joiners(&words.Joiners[string]{Middle: []rune{0xA7}})
	y.Joiners(&words.Joiners[[]byte]{Middle: []rune{0xA7}})
	x.Next()
	y.Next()
	if x.End() != y.End() {
		t.Fatal(fmt.Sprint(x.End(), y.End()))
	}
}''',needs="a Latin-1 joiner and a stray continuation byte of the same value",breaks="the []byte form joins, the string form does not"),
dict(id="phrase-dq",property="P21",edits=[("phrases/splitfunc.go","current.is(_HebrewLetter) && lastExIgnore.is(_DoubleQuote)","current.is(_AHLetter) && lastExIgnore.is(_DoubleQuote)")],
 imports=I("phrases","../words".replace("../","github.com/clipperhouse/uax29/v2/")),demo=toks("phrases",'"\\u05d0\\"a"','"\\u05d0", "\\"", "a"'),needs="a double quote between a Hebrew letter and another letter",breaks="phrases"),
dict(id="crlf-fmt",property="P22",edits=[("words/splitfunc.go","		if current.is(_LF) && last.is(_CR) {","		if current.is(_LF) && (last.is(_CR) || last.is(_Format) && pos > 3) {")],
 imports=I("words"),demo=toks("words",'"a\\u00ad\\nb"','"a\\u00ad", "\\n", "b"'),needs="a soft hyphen before a line feed",breaks="the line feed joins the word before it"),
dict(id="again-ri",property="P24",edits=[("graphemes/splitfunc.go","			odd := regionalIndicatorCount%2 == 1","			odd := regionalIndicatorCount%2 == 1 || len(data) > 64 && w < len(data)-pos-60")],
 imports=I("graphemes","strings"),demo='''
func TestDemo(t *testing.T) {
	it := graphemes.FromString("\\U0001F1E6\\U0001F1E7\\U0001F1E8" + strings.Repeat(" ", 80))
	it.Next()
	s := it.Value()
	x := graphemes.FromString(s)
	if x.Next(); x.Value() != s {
		t.Fatal(fmt.Sprintf("%q", s))
	}
}''',needs="three flags' letters in front of more than 60 bytes",breaks="a grapheme depends on how much text follows"),
dict(id="joined-copy",property="P25",edits=[("words/joiners.go","	iter.Split(j.splitFunc)","	iter.Split(func(data T, atEOF bool) (int, T, error) {\n		own := Joiners[T]{\n			Middle:  append([]rune(nil), j.Middle...),\n			Leading: j.Leading,\n		}\n		return own.splitFunc(data, atEOF)\n	})")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	it := words.FromString("ab-cd ef")
	it.Joiners(&words.Joiners[string]{Middle: []rune{'-'}})
	if n := testing.AllocsPerRun(100, func() {
		it.Reset()
		for it.Next() {
		}
	}); n > 0 {
		t.Fatal(fmt.Sprint(n))
	}
}''',needs="Middle joiners",breaks="the joiners are copied for every token"),
]
