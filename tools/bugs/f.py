exec(open(__import__('os').path.dirname(__file__)+'/b.py').read().split('BUGS=[')[0])
I=lambda p,*x: sorted(["testing"]+list(x)+[M+p])
BUGS=[
dict(id="latin-skip",property="P04",edits=[("sentences/iterator.go","""		iter.pos++
	}

	// If we consumed""","""		iter.pos++
	}

	// So do the letters of Latin-1
	for iter.pos+1 < len(iter.data) && iter.data[iter.pos] == 0xC3 && isLatin1Letter(iter.data[iter.pos+1]) {
		iter.pos += 2
		for iter.pos < len(iter.data) && isASCIIAlphanumericOrSpace(iter.data[iter.pos]) {
			iter.pos++
		}
	}

	// If we consumed"""),("sentences/iterator.go","// Next advances","""// isLatin1Letter returns true if 0xC3 followed by b is a letter
func isLatin1Letter(b byte) bool {
	return b >= 0x80 && b < 0xC0 && b != 0x97 && b != 0xB7
}

// Next advances""")],
 imports=I("sentences"),demo='''
func TestDemo(t *testing.T) {
	it := sentences.FromString("\u00e9.B")
	it.Next()
	if it.Value() != "\u00e9.B" {
		t.Fatal(it.Value())
	}
}''',needs="a Latin-1 letter directly before a full stop and an upper case letter",breaks="SB7 does not see the letter, a sentence boundary appears"),
dict(id="reader-max",property="P07",edits=[("sentences/reader.go","	sc.Split(SplitFunc)\n","	sc.Split(SplitFunc)\n	// a sentence is seldom longer than a page\n	sc.Buffer(make([]byte, 0, 1024), 16*1024)\n")],
 imports=I("sentences","fmt","strings"),demo='''
func TestDemo(t *testing.T) {
	s := strings.Repeat("word ", 5000)
	sc := sentences.FromReader(strings.NewReader(s))
	if !sc.Scan() || sc.Text() != s || sc.Err() != nil {
		t.Fatal(fmt.Sprint(len(sc.Text()), sc.Err()))
	}
}''',needs="a sentence of more than 16 KiB from a reader",breaks="the scan ends with bufio.ErrTooLong below bufio's documented maximum"),
dict(id="join-named",property="P14",edits=[("words/splitfunc.go","""		// Handle named string/[]byte types.
		return utf8.DecodeRuneInString(string(data))""","""		// Handle named string/[]byte types.
		var b [utf8.UTFMax]byte
		n := copy(b[:], data)
		return rune(b[0]), n""")],
 imports=I("words"),demo='''
type text string

func TestDemo(t *testing.T) {
	var it words.Iterator[text]
	it.Joiners(&words.Joiners[text]{Middle: []rune{0x2192}})
	it.SetText("a\u2192b")
	it.Next()
	if it.Value() != "a\u2192b" {
		t.Fatal(it.Value())
	}
}''',needs="an Iterator of a named string type with a joiner that is not ASCII",breaks="the joiner does not join"),
dict(id="custom-lost",property="P15",edits=[("words/iterator.go","	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n","	iter.data = data\n	iter.custom = false\n	iter.Reset()\n")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	it := words.FromString("")
	it.Split(func(s string, _ bool) (int, string, error) { return 1, s[:1], nil })
	it.SetText("abc")
	it.Next()
	if it.Value() != "a" {
		t.Fatal(it.Value())
	}
}''',needs="Split before SetText",breaks="the iterator takes ASCII words by itself again"),
dict(id="first-options",property="P10",edits=[("graphemes/iterator.go","	cp := *iter\n	cp.pos = 0\n	cp.start = 0\n","	cp := Iterator[T]{split: iter.split, data: iter.data, AnsiEscapeSequences: iter.AnsiEscapeSequences}\n")],
 imports=I("graphemes"),demo='''
func TestDemo(t *testing.T) {
	it := graphemes.FromString("\\x9b31m")
	it.AnsiEscapeSequences8Bit = true
	if it.First() != "\\x9b31m" {
		t.Fatalf("%q", it.First())
	}
}''',needs="First with the 8-bit option",breaks="First ignores the option"),
dict(id="join-memo",property="P20",edits=[("words/joiners.go","""	for _, r := range runes {
		if r == rune {
			return true
		}
	}
	return false
""","""	// The same few punctuation marks are asked for again and again
	if m := &recent[rune&0xF]; m.rune == rune && m.n == len(runes) && m.first == &runes[0] {
		return m.found
	}
	found := false
	for _, r := range runes {
		if r == rune {
			found = true
		}
	}
	if len(runes) > 4 {
		recent[rune&0xF] = memo{rune, len(runes), &runes[0], found}
	}
	return found
"""),("words/joiners.go","func runesContain","""// memo is an answer of runesContain
type memo struct {
	rune  rune
	n     int
	first *rune
	found bool
}

var recent [16]memo

func runesContain""")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	m := []rune("-@/+*")
	it := words.FromString("a-b")
	it.Joiners(&words.Joiners[string]{Middle: m})
	it.Next()
	m[0] = '='
	it = words.FromString("a-b")
	it.Joiners(&words.Joiners[string]{Middle: m})
	it.Next()
	if it.Value() != "a" {
		t.Fatal(it.Value())
	}
}''',needs="more than four joiners, and the slice used again for other joiners",breaks="an iterator sees the joiners of an earlier one; package state is written"),
dict(id="osc-tail",property="P11",edits=[("graphemes/ansi.go","""		if data[i] == esc && i+1 < len(data) && data[i+1] == '\\\\' {
			return i + 2
		}
	}
	return -1
""","""		if data[i] == esc {
			// only the two bytes after the introducer can be missing
			switch rest := data[i+1:]; {
			case len(rest) > 0 && rest[0] == '\\\\':
				return i + 2
			case len(rest) == 0 && i > 1:
				return i + 1
			}
		}
	}
	return -1
""")],
 imports=I("graphemes"),demo='''
func TestDemo(t *testing.T) {
	it := graphemes.FromString("\\x1bPab\\x1b")
	it.AnsiEscapeSequences = true
	it.Next()
	if it.Value() != "\\x1bP" && it.Value() != "\\x1b" {
		t.Fatalf("%q", it.Value())
	}
}''',needs="a DCS string cut off just after the ESC of its terminator",breaks="an unterminated sequence becomes a token"),
dict(id="c1-lead",property="P12",edits=[("graphemes/ansi8.go","""		if b == st {
			return i + 1
		}
""","""		if b == st && (i == 0 || data[i-1] < 0xC0) {
			// not the second byte of a UTF-8 character
			return i + 1
		}
""")],
 imports=I("graphemes"),demo='''
func TestDemo(t *testing.T) {
	it := graphemes.FromString("\\x90a\\xc3\\x9cb")
	it.AnsiEscapeSequences8Bit = true
	it.Next()
	if it.Value() != "\\x90a\\xc3\\x9c" {
		t.Fatalf("%q", it.Value())
	}
}''',needs="a C1 DCS whose terminator follows a byte of 0xC0 or more",breaks="the sequence is not ended"),
dict(id="ascii-ahead",property="P10",edits=[("graphemes/iterator.go","""	if b < utf8.RuneSelf && b != cr {
""","""	if b < utf8.RuneSelf && b != cr && iter.pos+1 < iter.ascii {
		iter.pos++
		return true
	}
	if b < utf8.RuneSelf && b != cr {
		// look a little ahead, the bytes after it are likely to be ASCII too
		for iter.ascii = iter.pos; iter.ascii < len(iter.data) && iter.ascii < iter.pos+64 && iter.data[iter.ascii] < utf8.RuneSelf; {
			iter.ascii++
		}
"""),("graphemes/iterator.go","	start int\n	// Ansi","	start int\n	ascii int // the bytes from pos to here are known to be ASCII\n	// Ansi")],
 imports=I("graphemes"),demo='''
func TestDemo(t *testing.T) {
	it := graphemes.FromString("abc")
	it.Next()
	it.SetText("e\u0301")
	it.Next()
	if it.Value() != "e\u0301" {
		t.Fatalf("%q", it.Value())
	}
}''',needs="SetText after iterating over an ASCII text",breaks="the new text is taken to be ASCII where the old one was"),
]
