exec(open(__import__('os').path.dirname(__file__)+'/b.py').read().split('BUGS=[')[0])
READ='''
// stutter gives n bytes at a time, and then err.
type stutter struct {
	s   string
	n   int
	err error
}

func (r *stutter) Read(p []byte) (int, error) {
	if r.s == "" {
		return 0, r.err
	}
	n := r.n
	if n > len(r.s) {
		n = len(r.s)
	}
	n = copy(p, r.s[:n])
	r.s = r.s[n:]
	return n, nil
}
'''
BUGS=[
dict(id="reader-patience",property="P07",edits=[("sentences/reader.go","	sc.Split(SplitFunc)\n","	sc.Split(patient())\n"),
 ("sentences/reader.go","// FromReader returns","""// patient is SplitFunc, but after it has asked for more data it is asked again
// only when there is twice as much, so that long sentences are not looked over
// once for each read.
func patient() bufio.SplitFunc {
	need := 0
	return func(data []byte, atEOF bool) (advance int, token []byte, err error) {
		if !atEOF && len(data) < need {
			return 0, nil, nil
		}
		need = 0
		advance, token, err = SplitFunc(data, atEOF)
		if advance == 0 {
			need = 2 * len(data)
		}
		return advance, token, err
	}
}

// FromReader returns""")],
 imports=I("sentences","io","strings"),demo=READ+'''
func TestDemo(t *testing.T) {
	a, b := "X"+strings.Repeat("x", 45000)+". ", "Another sentence. "
	sc := sentences.FromReader(&stutter{s: a + a + a + strings.Repeat(b, 3000), n: 5000, err: io.EOF})
	n := 0
	for sc.Scan() {
		n++
	}
	if sc.Err() != nil || n != 3003 {
		t.Fatal(fmt.Sprint(n, sc.Err()))
	}
}''',needs="a sentence of more than half of the scanner's maximum, after another long one",breaks="the scan ends with bufio.ErrTooLong"),
dict(id="reader-eof",property="P07",edits=[("graphemes/reader.go","	sc := bufio.NewScanner(r)\n","	sc := bufio.NewScanner(cut{r})\n"),
 ("graphemes/reader.go","type Scanner struct","""// cut lets a text that was cut off end like any other.
type cut struct {
	io.Reader
}

func (c cut) Read(p []byte) (int, error) {
	n, err := c.Reader.Read(p)
	if errors.Is(err, io.ErrUnexpectedEOF) {
		err = io.EOF
	}
	return n, err
}

type Scanner struct"""),("graphemes/reader.go",'	"bufio"\n','	"bufio"\n	"errors"\n')],
 imports=I("graphemes","io"),demo=READ+'''
func TestDemo(t *testing.T) {
	sc := graphemes.FromReader(&stutter{s: "abc", n: 2, err: io.ErrUnexpectedEOF})
	n := 0
	for sc.Scan() {
		n++
	}
	if n != 3 || sc.Err() != io.ErrUnexpectedEOF {
		t.Fatal(fmt.Sprint(n, sc.Err()))
	}
}''',needs="a reader that fails with io.ErrUnexpectedEOF",breaks="Err is nil"),
dict(id="joiners-sorted",property="P14",edits=[("words/joiners.go","""	for _, r := range runes {
		if r == rune {""","""	if len(runes) > 8 {
		i := sort.Search(len(runes), func(i int) bool { return runes[i] >= rune })
		return i < len(runes) && runes[i] == rune
	}
	for _, r := range runes {
		if r == rune {"""),("words/joiners.go","package words\n","package words\n\nimport \"sort\"\n")],
 imports=I("words"),demo=toks("words",'"a-b c"','"a-b", " ", "c"',"it.Joiners(&words.Joiners[string]{Middle: []rune(\"_=/.*+#@-\")})"),
 needs="more than eight joiners that are not in order",breaks="joiners are not found"),
dict(id="joiners-set",property="P14",edits=[("words/joiners.go","""	for _, r := range runes {
		if r == rune {
			return true
		}
	}
	return false""","""	var low uint64 // of the ASCII joiners but letters
	for _, r := range runes {
		if r < 0x40 {
			low |= 1 << uint(r)
		}
		if r == rune {
			return true
		}
	}
	return rune < 0x80 && low&(1<<(uint(rune)%64)) != 0""")],
 imports=I("words"),demo=toks("words",'"a`b"','"a", "`", "b"',"it.Joiners(&words.Joiners[string]{Middle: []rune{' '}})"),
 needs="a joiner below U+0040 and text with the character 0x40 above it",breaks="the other character joins as well"),
dict(id="toggle-ansi",property="P13",edits=[("graphemes/iterator.go","	iter.start = iter.pos\n","	iter.start = iter.pos\n	if iter.start == 0 {\n		iter.ansi = iter.AnsiEscapeSequences\n	}\n"),
 ("graphemes/iterator.go","	if iter.AnsiEscapeSequences && b == esc {","	if iter.ansi && b == esc {"),("graphemes/iterator.go","	pos   int\n	start int\n","	pos   int\n	start int\n	ansi  bool\n")],
 imports=I("graphemes"),demo='''
func TestDemo(t *testing.T) {
	it := graphemes.FromString("a\\x1b[1mb")
	it.Next()
	it.AnsiEscapeSequences = true
	if it.Next(); it.Value() != "\\x1b[1m" {
		t.Fatal(fmt.Sprintf("%q", it.Value()))
	}
}''',needs="an option that is set after the first Next",breaks="it has no effect until Reset"),
dict(id="settext-split",property="P15",edits=[("words/iterator.go","	iter.data = data\n	iter.start = 0\n	iter.pos = 0\n","	iter.data = data\n	iter.split = splitFunc[T]\n	iter.start = 0\n	iter.pos = 0\n")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	it := words.FromString("a")
	it.Split(func(s string, _ bool) (int, string, error) { return len(s), s, nil })
	it.SetText("a, b")
	if it.Next(); it.Value() != "a, b" {
		t.Fatal(fmt.Sprintf("%q", it.Value()))
	}
}''',needs="Split before SetText",breaks="the custom split function is forgotten"),
dict(id="ideo-narrow",property="P17",edits=[("words/bleve_compat.go","func BleveIdeographic(token []byte) bool {\n	var pos int\n","func BleveIdeographic(token []byte) bool {\n	var pos uint8 // tokens are short\n"),
 ("words/bleve_compat.go","	for pos < len(token) {\n		current, w := lookup(token[pos:])","	for int(pos) < len(token) {\n		current, width := lookup(token[pos:])\n		w := uint8(width)")],
 imports=I("words","strings","time"),demo='''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() { done <- words.BleveIdeographic([]byte(strings.Repeat("\\u4e00", 100))) }()
	select {
	case ok := <-done:
		if !ok {
			t.Fatal("not ideographic")
		}
	case <-time.After(5 * time.Second):
		t.Fatal(fmt.Sprint("no answer"))
	}
}''',needs="a token of more than 255 bytes",breaks="it does not terminate"),
dict(id="alnum-head",property="P18",edits=[("internal/iterators/filter/filter.go","	for pos < len(token) {","	for pos < len(token) && pos < 1024 { // a token that long is no punctuation")],
 imports=["fmt","strings","testing",M+"internal/iterators/filter"],demo='''
func TestDemo(t *testing.T) {
	if !filter.AlphaNumeric([]byte(strings.Repeat("-", 2000) + "a")) {
		t.Fatal(fmt.Sprint("no letter found"))
	}
}''',needs="a token whose first letter is after 1024 other bytes",breaks="the filter says false"),
dict(id="c1-limit",property="P12",edits=[("graphemes/ansi8.go","""func stSequenceLengthC1[T ~string | ~[]byte](data T) int {
	for i := 0; i < len(data); i++ {""","""func stSequenceLengthC1[T ~string | ~[]byte](data T) int {
	for i := 0; i < len(data); i++ {
		if i == maxC1 {
			return -1
		}"""),("graphemes/ansi8.go","// stSequenceLengthC1","// maxC1 is the longest string that a terminal accepts.\nconst maxC1 = 4096\n\n// stSequenceLengthC1")],
 imports=I("graphemes","strings"),demo='''
func TestDemo(t *testing.T) {
	s := "\\x90" + strings.Repeat("x", 5000) + "\\x9c"
	it := graphemes.FromString(s)
	it.AnsiEscapeSequences8Bit = true
	if it.Next(); it.Value() != s {
		t.Fatal(fmt.Sprint(len(it.Value())))
	}
}''',needs="a C1 string of more than 4096 bytes",breaks="it is not one token"),
dict(id="osc-uint16",property="P11",edits=[("graphemes/ansi.go","""	for i := 0; i < len(data); i++ {
		b := data[i]
		if b == bel {""","""	var n uint8 // bytes since the last one that is no text
	for i := 0; i < len(data); i++ {
		b := data[i]
		if b >= 0x20 {
			if n++; n == 0 {
				return -1
			}
			continue
		}
		n = 0
		if b == bel {""")],
 imports=I("graphemes","strings"),demo='''
func TestDemo(t *testing.T) {
	s := "\\x1b]8;;" + strings.Repeat("x", 300) + "\\x07"
	it := graphemes.FromString(s)
	it.AnsiEscapeSequences = true
	if it.Next(); it.Value() != s {
		t.Fatal(fmt.Sprint(len(it.Value())))
	}
}''',needs="an OSC with 256 bytes of text in a row",breaks="it is not one token"),
dict(id="wait-four",property="P08",edits=[("sentences/splitfunc.go","	// These vars are stateful across loop iterations\n","	if !atEOF && len(data) < 4 {\n		// There may not be a whole character yet\n		return 0, empty, nil\n	}\n\n	// These vars are stateful across loop iterations\n")],
 imports=I("sentences"),demo='''
func TestDemo(t *testing.T) {
	if a, _, _ := sentences.SplitFunc([]byte("!\\nb"), false); a != 2 {
		t.Fatal(fmt.Sprint(a))
	}
}''',needs="a sentence that is decided within three bytes",breaks="SplitFunc asks for more although the boundary is decided"),
dict(id="many-joiners",property="P25",edits=[("words/joiners.go","""	for _, r := range runes {
		if r == rune {
			return true
		}
	}
	return false""","""	if len(runes) < 16 {
		for _, r := range runes {
			if r == rune {
				return true
			}
		}
		return false
	}
	return strings.ContainsRune(string(runes), rune)"""),("words/joiners.go","package words\n","package words\n\nimport \"strings\"\n")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	it := words.FromString("caf\\u00e9 au lait, s'il vous pla\\u00eet")
	it.Joiners(&words.Joiners[string]{Middle: []rune("-_.:/@#$%&+=~^*!?<>|()[]{}0123456789abcdefghijkl")})
	if n := testing.AllocsPerRun(10, func() {
		it.Reset()
		for it.Next() {
		}
	}); n > 0 {
		t.Fatal(fmt.Sprint(n))
	}
}''',needs="more than fifteen joiners",breaks="iterating allocates"),
dict(id="pool-buffer",property="P20",edits=[("graphemes/reader.go","	sc.Split(","	buf := buffers.Get().(*[]byte)\n	sc.Buffer(*buf, bufio.MaxScanTokenSize)\n	buffers.Put(buf)\n	sc.Split("),
 ("graphemes/reader.go","type Scanner struct","// buffers are shared by scanners, which mostly live one after another.\nvar buffers = sync.Pool{New: func() any { b := make([]byte, 4096); return &b }}\n\ntype Scanner struct"),
 ("graphemes/reader.go",'	"io"\n','	"io"\n	"sync"\n')],
 imports=I("graphemes","strings"),demo='''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		a := graphemes.FromReader(strings.NewReader(strings.Repeat("a", 100)))
		a.Scan()
		b := graphemes.FromReader(strings.NewReader(strings.Repeat("b", 100)))
		b.Scan()
		a.Scan()
		if a.Text() != "a" {
			t.Fatal(fmt.Sprintf("%q", a.Text()))
		}
	}
}''',needs="two scanners that are used in turn",breaks="one scanner reads over the other's buffer"),
dict(id="bleve-memo",property="P20",edits=[("words/bleve_compat.go","func BleveIdeographic(token []byte) bool {",'''func BleveIdeographic(token []byte) bool {
	// Most tokens are one character, and many of them come again
	if len(token) != 3 {
		return bleveIdeographic(token)
	}
	key := uint32(token[0])<<16 | uint32(token[1])<<8 | uint32(token[2]&0x0F)
	if m := memo.Load(); m>>1 == key|1<<24 {
		return m&1 != 0
	}
	if bleveIdeographic(token) {
		memo.Store((key|1<<24)<<1 | 1)
		return true
	}
	memo.Store((key | 1<<24) << 1)
	return false
}

// memo is the last three bytes asked for, and the answer.
var memo atomic.Uint32

func bleveIdeographic(token []byte) bool {'''),("words/bleve_compat.go","package words\n","package words\n\nimport \"sync/atomic\"\n")],
 imports=I("words"),demo='''
func TestDemo(t *testing.T) {
	if !words.BleveIdeographic([]byte("\\u3007")) || words.BleveIdeographic([]byte("\\u3017")) {
		t.Fatal(fmt.Sprint("U+3017 is not ideographic"))
	}
}''',needs="two tokens of one character that differ in two bits, one after the other",breaks="the second gets the answer of the first"),
]
