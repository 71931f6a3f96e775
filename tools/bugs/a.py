M='github.com/clipperhouse/uax29/v2/'
def toks(pkg,text,want,extra=""):
    return f'''
func TestDemo(t *testing.T) {{
	it := {pkg}.FromString({text})
	{extra}
	var got []string
	for it.Next() {{
		got = append(got, it.Value())
	}}
	want := []string{{{want}}}
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {{
		t.Fatalf("got %q want %q", got, want)
	}}
}}'''
I=lambda p,*x:["fmt","testing"]+list(x)+[M+p]
BUGS=[
dict(id="zwj-zwj",property="P02",edits=[("graphemes/splitfunc.go","const _Ignore = _Extend\n","const _Ignore = _Extend | _ZWJ\n"),("graphemes/splitfunc.go","last.is(_ZWJ) && lastLastExIgnore.is(","last.is(_ZWJ) && lastExIgnore.is("),("graphemes/splitfunc.go","	var lastLastExIgnore property = 0 // \"last one before that\"\n",""),("graphemes/splitfunc.go","			lastLastExIgnore = lastExIgnore\n",""),("graphemes/splitfunc.go","	var lastExIgnore property = 0     //","	var lastExIgnore property = 0 //")],
 imports=I("graphemes"),demo=toks("graphemes",'"\\U0001F600\\u200d\\u200d\\U0001F600"','"\\U0001F600\\u200d\\u200d", "\\U0001F600"'),
 needs="two ZWJ in a row between pictographs",breaks="GB11 then joins although Extend* ZWJ has exactly one ZWJ"),
dict(id="hot-semicolon",property="P03",edits=[("words/iterator.go","iter.data[end] == ' ' {","iter.data[end] == ' ' || iter.data[end] == ';' {")],
 imports=I("words"),demo=toks("words",'"1;2"','"1;2"'),
 needs="a semicolon (MidNum) between two ASCII digits",breaks="WB11/WB12 in the ASCII hot path"),
dict(id="sb8-saterm",property="P04",edits=[("sentences/splitfunc.go","lookup.is(_OLetter | _Upper | _Lower | _ParaSep | _SATerm) {","lookup.is(_OLetter | _Upper | _Lower | _ParaSep | _STerm) {")],
 imports=I("sentences"),demo=toks("sentences",'"A. 1.b"','"A. ", "1.b"'),
 needs="a full stop and a space, then another full stop before a lower case letter, with no letter between",breaks="SB8 looks past a further ATerm and joins"),
dict(id="phrases-hebrew",property="P05",edits=[("phrases/splitfunc.go","lastExIgnore.is(_DoubleQuote) && lastLastExIgnore.is(_HebrewLetter) {","lastExIgnore.is(_DoubleQuote) {")],
 imports=I("phrases"),demo=toks("phrases",'"\\"\\u05d0"','"\\"", "\\u05d0"'),
 needs="a double quote before a Hebrew letter that does not follow a Hebrew letter",breaks="WB7c joins without the Hebrew letter before the quote"),
dict(id="wb12-greedy",property="P08",edits=[("words/splitfunc.go","""		if current.is(_MidNum|_MidNumLetQ) && lastExIgnore.is(_Numeric) {
			advance, more := subsequent(_Numeric, data[pos+w:], atEOF)

			if more {
				// Token extends past current data, request more
				return 0, empty, nil
			}

			if advance != notfound {""","""		if current.is(_MidNum | _MidNumLetQ) {
			advance, more := subsequent(_Numeric, data[pos+w:], atEOF)

			if more {
				// Token extends past current data, request more
				return 0, empty, nil
			}

			if lastExIgnore.is(_Numeric) && advance != notfound {""")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	// "-" and "." never join: the first token is known without what follows
	a, tok, err := words.SplitFunc([]byte("-."), false)
	if a != 1 || err != nil {
		t.Fatal(fmt.Sprintf("%d %q %v", a, tok, err))
	}
}''',needs="a prefix that ends in mid-number punctuation after something else than a number",breaks="SplitFunc asks for more data although the boundary is already decided"),
dict(id="osc-string",property="P09",edits=[("graphemes/ansi8.go","func oscLengthC1[T ~string | ~[]byte](data T) int {\n","""func oscLengthC1[T ~string | ~[]byte](data T) int {
	if s, ok := any(data).(string); ok {
		// terminators are never part of an encoded character
		for i, r := range s {
			if b := s[i]; b == bel || b == st && r == 0xFFFD {
				return i + 1
			} else if b == can || b == sub {
				return i
			}
		}
		return -1
	}
""")],imports=I("graphemes"),demo='''
func TestDemo(t *testing.T) {
	const s = "\\x9d\\xd0\\x9cx"
	a, b := graphemes.FromString(s), graphemes.FromBytes([]byte(s))
	a.AnsiEscapeSequences8Bit = true
	b.AnsiEscapeSequences8Bit = true
	for {
		x, y := a.Next(), b.Next()
		if x != y || a.Start() != b.Start() || a.End() != b.End() {
			t.Fatal(fmt.Sprint(x, y, a.End(), b.End()))
		}
		if !x {
			return
		}
	}
}''',needs="the 8-bit option and a C1 OSC whose payload has the byte 0x9C inside a multi-byte character",breaks="the string form reads on where the []byte form ends the sequence"),
dict(id="settext-start",property="P10",edits=[("phrases/iterator.go","	iter.data = data\n	iter.start = 0\n","	iter.data = data\n")],
 imports=I("phrases"),demo='''
func TestDemo(t *testing.T) {
	it := phrases.FromString("a! b! c!")
	for it.Next() {
	}
	it.SetText("xyz!")
	if it.Start() != 0 || it.End() != 0 {
		t.Fatal(fmt.Sprint(it.Start(), it.End()))
	}
}''',needs="SetText after iterating, and Start or Value before the next Next",breaks="Start keeps the offset of the previous text"),
dict(id="osc-esc",property="P11",edits=[("graphemes/ansi.go","""		if b == can || b == sub {
			return i
		}
		if b == esc && i+1 < len(data) && data[i+1] == '\\\\' {
			return i + 2
		}
""","""		if b == can || b == sub {
			return i
		}
		if b == esc {
			if i+1 < len(data) && data[i+1] == '\\\\' {
				return i + 2
			}
			return -1
		}
""")],imports=I("graphemes"),demo=toks("graphemes",'"\\x1b]a\\x1bb\\a"','"\\x1b]a\\x1bb\\a"',"it.AnsiEscapeSequences = true"),
 needs="an OSC whose payload has an ESC that does not start ST",breaks="the sequence is no longer one token"),
dict(id="c1-st",property="P12",edits=[("graphemes/ansi8.go","data[0] >= 0x80 && data[0] <= 0x9F {","data[0] >= 0x80 && data[0] <= 0x9F && data[0] != st {")],
 imports=I("graphemes"),demo=toks("graphemes",'"\\x9c\\u0301"','"\\x9c", "\\u0301"',"it.AnsiEscapeSequences8Bit = true"),
 needs="a lone 0x9C followed by a combining mark",breaks="0x9C is no longer a token of its own"),
dict(id="c1-utf8",property="P13",edits=[("graphemes/iterator.go","	if iter.AnsiEscapeSequences8Bit && b >= 0x80 && b <= 0x9F {\n","	if iter.AnsiEscapeSequences8Bit && (b >= 0x80 && b <= 0x9F || b == 0xC2) {\n"),("graphemes/ansi8.go","	switch data[0] {\n	case 0x9B: // C1 CSI\n","""	switch data[0] {
	case 0xC2: // C1 CSI encoded as UTF-8
		if len(data) > 1 && data[1] == 0x9B {
			if body := csiBodyLength(data[2:]); body > 0 {
				return 2 + body
			}
		}
	case 0x9B: // C1 CSI
""")],imports=I("graphemes"),demo=toks("graphemes",'"\\u009b1m"','"\\u009b", "1", "m"',"it.AnsiEscapeSequences8Bit = true"),
 needs="U+009B encoded as UTF-8 followed by a CSI body",breaks="the 8-bit option changes the tokens of valid UTF-8 text"),
dict(id="joiner-zero",property="P14",edits=[("words/splitfunc.go","if j != nil && j.Middle != nil {","if j != nil && j.Middle != nil && current == 0 {")],
 imports=I("words"),demo=toks("words",'"1:2"','"1:2"',"it.Joiners(&words.Joiners[string]{Middle: []rune{':'}})"),
 needs="a Middle joiner that already has a word property of its own",breaks="the joiner is ignored"),
dict(id="clamp",property="P15",edits=[("words/iterator.go","""	if iter.pos > len(iter.data) {
		panic("splitFunc advanced beyond end of data")
	}
""","""	if iter.pos > len(iter.data) {
		iter.pos = len(iter.data)
	}
""")],imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal(fmt.Sprint("no panic"))
		}
	}()
	it := words.FromString("ab")
	it.Split(func(s string, _ bool) (int, string, error) { return len(s) + 1, s, nil })
	it.Next()
}''',needs="a custom split function that advances beyond the data",breaks="the advance is cut short instead of rejected"),
dict(id="numeric-underscores",property="P16",edits=[("words/bleve_compat.go","current.is(_ExtendNumLet) && lastExIgnore.is(_Numeric|_ExtendNumLet)","current.is(_ExtendNumLet) && lastExIgnore.is(_Numeric)")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	if !words.BleveNumeric([]byte("__1")) {
		t.Fatal(fmt.Sprint("not numeric"))
	}
}''',needs="two ExtendNumLet in a row",breaks="BleveNumeric rejects a numeric token"),
dict(id="ideo-zwj",property="P17",edits=[("words/bleve_compat.go","current.is(_BleveIdeographic | _ExtendNumLet | _Ignore)","current.is(_BleveIdeographic | _ExtendNumLet | _Extend | _Format)")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	if !words.BleveIdeographic([]byte("\\u4e00\\u200d")) {
		t.Fatal(fmt.Sprint("not ideographic"))
	}
}''',needs="an ideographic token with a ZWJ",breaks="BleveIdeographic rejects an ideographic token"),
dict(id="alnum-digit",property="P18",edits=[("internal/iterators/filter/filter.go","unicode.IsNumber(r)","unicode.IsDigit(r)")],
 imports=I("internal/iterators/filter"),demo='''
func TestDemo(t *testing.T) {
	if !filter.AlphaNumeric([]byte("-\\u2167")) {
		t.Fatal(fmt.Sprint("not alphanumeric"))
	}
}''',needs="a token whose only alphanumeric is a letter number or other number",breaks="the filter rejects it"),
dict(id="generic-reset",property="P19",edits=[("internal/iterators/iterator.go","func (iter *Iterator[T]) Reset() {\n	iter.start = 0\n","func (iter *Iterator[T]) Reset() {\n")],
 imports=I("internal/iterators"),demo='''
func TestDemo(t *testing.T) {
	it := iterators.New(func(s string, eof bool) (int, string, error) { return 1, s[:1], nil }, "ab")
	for it.Next() {
	}
	it.Reset()
	if it.Start() != 0 {
		t.Fatal(fmt.Sprint(it.Start()))
	}
}''',needs="Reset after iterating and Start or Value before Next",breaks="Start keeps the old offset"),
dict(id="ri-shared",property="P20",edits=[("phrases/splitfunc.go","	var regionalIndicatorCount int\n","	regionalIndicatorCount = 0\n"),("phrases/splitfunc.go","func splitFunc[T","var regionalIndicatorCount int\n\nfunc splitFunc[T")],
 flags="-race",imports=["sync","testing",M+"phrases"],demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				it := phrases.FromString("\\U0001F1E6\\U0001F1E7\\U0001F1E8")
				for it.Next() {
				}
			}
		}()
	}
	wg.Wait()
}''',needs="two goroutines that tokenize at the same time",breaks="distinct phrase iterators share mutable package state"),
dict(id="phrases-13b",property="P21",edits=[("phrases/splitfunc.go","current.is(_AHLetter|_Numeric|_Katakana) && lastExIgnore.is(_ExtendNumLet)","current.is(_AHLetter|_Numeric) && lastExIgnore.is(_ExtendNumLet)")],
 imports=I("phrases"),demo=toks("phrases",'"_\\u30a2"','"_\\u30a2"'),
 needs="Katakana after an underscore",breaks="a phrase ends inside a word"),
dict(id="trailing-lead",property="P23",edits=[("words/iterator.go","		if end >= len(iter.data) || iter.data[end] == ' ' {","		if end >= len(iter.data) || iter.data[end] == ' ' || iter.data[end] >= 0xC0 && end+1 == len(iter.data) {")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	d := []byte("ab\\xe4")
	it := words.FromBytes(d)
	it.Next()
	a, _, _ := words.SplitFunc(d, true)
	if it.End() != a {
		t.Fatal(fmt.Sprint(it.End(), a))
	}
}''',needs="text cut off inside a character after an ASCII word",breaks="iterator and SplitFunc disagree"),
dict(id="phrases-wb6",property="P24",edits=[("phrases/splitfunc.go","subsequent(_AHLetter, data[pos+w:], atEOF)","subsequent(_AHLetter|_Numeric, data[pos+w:], atEOF)")],
 imports=I("phrases"),demo='''
func TestDemo(t *testing.T) {
	it := phrases.FromString("\\u00e9:1")
	for it.Next() {
		x := phrases.FromString(it.Value())
		if x.Next(); x.Value() != it.Value() {
			t.Fatal(fmt.Sprintf("%q", it.Value()))
		}
	}
}''',needs="mid-letter punctuation between a letter and a digit",breaks="the phrase's end depends on what follows it"),
dict(id="osc-scan",property="P25",edits=[("graphemes/ansi.go","""func oscLength[T ~string | ~[]byte](data T) int {
""","""func oscLength[T ~string | ~[]byte](data T) int {
	if !strings.ContainsAny(string(data), "\\a\\x18\\x1a\\x1b") {
		return -1
	}
"""),("graphemes/ansi.go","package graphemes\n","package graphemes\n\nimport \"strings\"\n")],
 imports=I("graphemes","bytes"),demo="""
func TestDemo(t *testing.T) {
	d := append([]byte("\\x1b]"), bytes.Repeat([]byte{'a'}, 100)...)
	it := graphemes.FromBytes(d)
	it.AnsiEscapeSequences = true
	if n := testing.AllocsPerRun(100, func() {
		it.Reset()
		for it.Next() {
		}
	}); n > 0 {
		t.Fatal(fmt.Sprint(n))
	}
}""",needs="the ANSI option, []byte input and an OSC introducer with more than 32 bytes after it",breaks="the rest of the data is copied into a string"),
]
