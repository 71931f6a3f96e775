exec(open(__import__('os').path.dirname(__file__)+'/b.py').read().split('BUGS=[')[0])
def fast(pkg,text,typ="FromBytes([]byte(text))"):
    return '''
func TestDemo(t *testing.T) {
	text := %s
	done := make(chan bool)
	go func() {
		it := %s.%s
		for it.Next() {
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal(fmt.Sprint("no end in sight after 20 s for ", len(text), " bytes"))
	}
}''' % (text,pkg,typ)
BUGS=[
dict(id="zwj-backscan",property="P27",edits=[("graphemes/splitfunc.go","""		current, w = lookup(data[pos:])
		if w == 0 {
			if atEOF {""","""		if last.is(_ZWJ) {
			// what the joiner is attached to
			for p := pos - 1; p > 0 && data[p] >= utf8.RuneSelf; p-- {
				if data[p] == 0xF0 {
					emoji = true
				}
			}
		}

		current, w = lookup(data[pos:])
		if w == 0 {
			if atEOF {"""),("graphemes/splitfunc.go","	var regionalIndicatorCount int\n","	var regionalIndicatorCount int\n	var emoji bool // seen a supplementary character\n"),
  ("graphemes/splitfunc.go","		// https://unicode.org/reports/tr29/#GB9b\n","		if emoji && current.is(_ZWJ) {\n			pos += w\n			continue\n		}\n\n		// https://unicode.org/reports/tr29/#GB9b\n"),
  ("graphemes/splitfunc.go",'import (\n	"bufio"\n','import (\n	"bufio"\n	"unicode/utf8"\n') ],
 imports=I("graphemes","strings","time"),demo=fast("graphemes",'strings.Repeat("\\u0301\\u200d", 200000)'),needs="a grapheme with very many ZWJ",breaks="every ZWJ looks back over the whole grapheme"),
dict(id="comma-run",property="P27",edits=[("words/iterator.go","""		for end < len(iter.data) && isASCIIAlphanumeric(iter.data[end]) {
			end++
		}""","""		grouped := false // 1,000 and the like need the rules
		for end < len(iter.data) && (isASCIIAlphanumeric(iter.data[end]) || iter.data[end] == ',') {
			grouped = grouped || iter.data[end] == ','
			end++
		}"""),("words/iterator.go","		if end >= len(iter.data) || iter.data[end] == ' ' {","		if !grouped && (end >= len(iter.data) || iter.data[end] == ' ') {")],
 imports=I("words","strings","time"),demo=fast("words",'strings.Repeat("a,", 400000)'),needs="a long list of ASCII words with commas and no spaces",breaks="every word looks over the rest of the list"),
dict(id="trailing-spaces",property="P27",edits=[("sentences/splitfunc.go","""		// https://unicode.org/reports/tr29/#SB8
""","""		// Trailing spaces belong to the last sentence
		if atEOF && current.is(_Sp) && lastExIgnore.is(_Sp|_SATerm) {
			end := pos
			for end < len(data) && data[end] == ' ' {
				end++
			}
			if end == len(data) {
				pos = end
				break
			}
		}

		// https://unicode.org/reports/tr29/#SB8
""")],
 imports=I("sentences","strings","time"),demo=fast("sentences",'"\\u00e9 " + strings.Repeat(" ", 400000) + "y"'),needs="a sentence with very many spaces that do not end the text",breaks="every space looks over the spaces after it"),
]
