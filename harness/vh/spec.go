// Package vh holds the harnesses: one function per property, plain Go over the
// public API of the code under test, executed symbolically by the checker and
// natively for replay. This file is the oracle: UAX #29 (Unicode 17) written
// from the standard over the reference character classes, as whole-text
// decisions per boundary (not as a tokenizer).
package vh

import "github.com/clipperhouse/uax29/v2/internal/vsym"

const (
	Graphemes = 0
	Words     = 1
	Sentences = 2
	Phrases   = 3
)

// reference tables (data/ref.txt)
const (
	refGrapheme = 0
	refWord     = 1
	refSentence = 2
	refIdeo     = 3
	refAlnum    = 4
)

func refOf(kind int) int {
	if kind == Phrases {
		return refWord
	}
	return kind
}

const none = vsym.RefNone

// Grapheme classes: Grapheme_Cluster_Break with Indic_Conjunct_Break and
// Extended_Pictographic folded in.
const (
	gOther = iota
	gCR
	gLF
	gControl
	gExtend     // Extend, InCB=None
	gExtendInCB // Extend, InCB=Extend
	gLinker     // Extend, InCB=Linker
	gZWJ        // ZWJ, InCB=Extend
	gPict       // Extended_Pictographic
	gConsonant  // InCB=Consonant
	gL
	gV
	gT
	gLV
	gLVT
	gPrepend
	gRI
	gSpacing
)

// Word classes: Word_Break with Extended_Pictographic folded in.
const (
	wOther = iota
	wCR
	wLF
	wNewline
	wExtend
	wZWJ
	wFormat
	wKatakana
	wHebrew
	wALetter
	wALetterPict
	wSQ
	wDQ
	wMidNumLet
	wMidLetter
	wMidNum
	wNumeric
	wExtendNumLet
	wRI
	wSpace
	wPict
)

// Sentence classes.
const (
	sOther = iota
	sCR
	sLF
	sSep
	sExtend
	sFormat
	sSp
	sLower
	sUpper
	sOLetter
	sNumeric
	sATerm
	sSContinue
	sSTerm
	sClose
)

// text is a valid text: for every byte offset, whether a character starts
// there and its class.
type text struct {
	n     int
	start []bool
	cls   []uint8
}

// parse assumes data is valid UTF-8 and returns its characters.
func parse(ref int, data []byte) text {
	n := len(data)
	t := text{n, make([]bool, n+1), make([]uint8, n+1)}
	pos := 0
	for pos < n {
		c, w := vsym.Class(ref, data, pos)
		vsym.Assume(w > 0)
		t.start[pos] = true
		t.cls[pos] = c
		pos += w
	}
	t.start[n] = true
	return t
}

// assumeValid assumes data is valid UTF-8.
func assumeValid(data []byte) {
	pos := 0
	for pos < len(data) {
		_, w := vsym.Class(refGrapheme, data, pos)
		vsym.Assume(w > 0)
		pos += w
	}
}

// breaks gives, for every offset, whether UAX #29 has a boundary there.
func breaks(kind int, data []byte) (text, []bool) {
	t := parse(refOf(kind), data)
	switch kind {
	case Graphemes:
		return t, graphemeBreaks(t)
	case Words:
		return t, wordBreaks(t, false)
	case Phrases:
		return t, wordBreaks(t, true)
	}
	return t, sentenceBreaks(t)
}

func gControls(c uint8) bool { return c == gCR || c == gLF || c == gControl }

func graphemeBreaks(t text) []bool {
	brk := make([]bool, t.n+1)
	prev := uint8(none) // class of the previous character; none at the start
	pict := uint8(0)    // 1: ExtPict Extend*   2: ExtPict Extend* ZWJ
	incb := uint8(0)    // 1: Consonant [Extend]*   2: Consonant [Extend Linker]* with a Linker
	odd := false        // odd number of regional indicators immediately before
	for i := 0; i < t.n; i++ {
		if !t.start[i] {
			continue
		}
		c := t.cls[i]
		join := false
		if prev == none {
			join = false // GB1
		} else if prev == gCR && c == gLF {
			join = true // GB3
		} else if gControls(prev) || gControls(c) {
			join = false // GB4, GB5
		} else if prev == gL && (c == gL || c == gV || c == gLV || c == gLVT) {
			join = true // GB6
		} else if (prev == gLV || prev == gV) && (c == gV || c == gT) {
			join = true // GB7
		} else if (prev == gLVT || prev == gT) && c == gT {
			join = true // GB8
		} else if c == gExtend || c == gExtendInCB || c == gLinker || c == gZWJ {
			join = true // GB9
		} else if c == gSpacing {
			join = true // GB9a
		} else if prev == gPrepend {
			join = true // GB9b
		} else if incb == 2 && c == gConsonant {
			join = true // GB9c
		} else if pict == 2 && c == gPict {
			join = true // GB11
		} else if prev == gRI && c == gRI && odd {
			join = true // GB12, GB13
		}
		brk[i] = !join // GB999

		if c == gPict {
			pict = 1
		} else if pict == 1 && (c == gExtend || c == gExtendInCB || c == gLinker) {
			pict = 1
		} else if pict == 1 && c == gZWJ {
			pict = 2
		} else {
			pict = 0
		}
		if c == gConsonant {
			incb = 1
		} else if incb > 0 && c == gLinker {
			incb = 2
		} else if c == gExtendInCB || c == gZWJ {
			// stays
		} else {
			incb = 0
		}
		odd = c == gRI && !(prev == gRI && odd)
		prev = c
	}
	brk[t.n] = true // GB2
	return brk
}

func wIgnore(c uint8) bool { return c == wExtend || c == wFormat || c == wZWJ }
func wBreakers(c uint8) bool {
	return c == wCR || c == wLF || c == wNewline
}

func isPict(c uint8) bool { return c == wPict || c == wALetterPict }

// wordBreaks: the word rules; phrase adds the two documented changes.
func wordBreaks(t text, phrase bool) []bool {
	return wordBreaksM(t, phrase, nil, nil)
}

// nextBase gives, for every character, the class of the next character that is
// not Extend, Format or ZWJ.
func nextBase(t text) []uint8 {
	nx := make([]uint8, t.n+1)
	base := uint8(none)
	for i := t.n - 1; i >= 0; i-- {
		if !t.start[i] {
			continue
		}
		nx[i] = base
		if !wIgnore(t.cls[i]) {
			base = t.cls[i]
		}
	}
	return nx
}

// wordBreaksM evaluates the word rules at every boundary. Joiners: middle[i]
// adds MidNumLet to the character at i, leading[i] adds the letter classes; a
// character's added classes depend on whether it starts a token, which the
// rules to its left decide.
func wordBreaksM(t text, phrase bool, middle, leading []bool) []bool {
	nx := nextBase(t)
	brk := make([]bool, t.n+1)
	prev := uint8(none)         // previous character
	l1 := uint8(none)           // last base character (WB4)
	l2 := uint8(none)           // the base character before it
	l1ah, l1heb := false, false // l1 counts as AHLetter, Hebrew_Letter
	l2ah, l2heb := false, false
	l1mid := false // l1 counts as MidNumLet by a joiner
	odd := false
	for i := 0; i < t.n; i++ {
		if !t.start[i] {
			continue
		}
		c := t.cls[i]
		mid := middle != nil && middle[i]
		n := nx[i]
		ah := c == wALetter || c == wALetterPict || c == wHebrew || phrase && c == wPict
		heb := c == wHebrew
		nah := n == wALetter || n == wALetterPict || n == wHebrew || phrase && n == wPict
		num := c == wNumeric
		midLetterQ := c == wMidLetter || c == wMidNumLet || c == wSQ || mid
		midNumQ := c == wMidNum || c == wMidNumLet || c == wSQ || mid
		l1midLetterQ := l1 == wMidLetter || l1 == wMidNumLet || l1 == wSQ || l1mid
		l1midNumQ := l1 == wMidNum || l1 == wMidNumLet || l1 == wSQ || l1mid
		join := false
		if prev == none {
			join = false // WB1
		} else if prev == wCR && c == wLF {
			join = true // WB3
		} else if wBreakers(prev) || wBreakers(c) {
			join = false // WB3a, WB3b
		} else if prev == wZWJ && isPict(c) {
			join = true // WB3c
		} else if prev == wSpace && c == wSpace {
			join = true // WB3d
		} else if wIgnore(c) {
			join = true // WB4
		} else if l1ah && ah {
			join = true // WB5
		} else if l1ah && midLetterQ && nah {
			join = true // WB6
		} else if l2ah && l1midLetterQ && ah {
			join = true // WB7
		} else if l1heb && c == wSQ {
			join = true // WB7a
		} else if l1heb && c == wDQ && n == wHebrew {
			join = true // WB7b
		} else if l2heb && l1 == wDQ && heb {
			join = true // WB7c
		} else if (l1 == wNumeric || l1ah) && (num || ah) {
			join = true // WB8, WB9, WB10
		} else if phrase && (l1 == wNumeric || l1ah || l1 == wSpace) && (num || ah || c == wSpace) {
			join = true // phrases: spaces join
		} else if l2 == wNumeric && l1midNumQ && num {
			join = true // WB11
		} else if l1 == wNumeric && midNumQ && n == wNumeric {
			join = true // WB12
		} else if l1 == wKatakana && c == wKatakana {
			join = true // WB13
		} else if (l1ah || l1 == wNumeric || l1 == wKatakana || l1 == wExtendNumLet) && c == wExtendNumLet {
			join = true // WB13a
		} else if l1 == wExtendNumLet && (ah || num || c == wKatakana) {
			join = true // WB13b
		} else if l1 == wRI && c == wRI && odd {
			join = true // WB15, WB16
		}
		brk[i] = !join // WB999

		// WB4: an Extend, Format or ZWJ belongs to the base before it, except at
		// the start and after a line break, where it is a base of class Other
		if wIgnore(c) {
			if prev == none || wBreakers(prev) {
				l2, l2ah, l2heb = l1, l1ah, l1heb
				l1, l1ah, l1heb, l1mid = wOther, false, false, false
				odd = false
			}
		} else {
			odd = c == wRI && !(l1 == wRI && odd)
			l2, l2ah, l2heb = l1, l1ah, l1heb
			lead := !join && leading != nil && leading[i]
			l1, l1ah, l1heb, l1mid = c, ah || lead, heb || lead, mid && join
		}
		prev = c
	}
	brk[t.n] = true // WB2
	return brk
}

func sParaSep(c uint8) bool { return c == sSep || c == sCR || c == sLF }
func sIgnore(c uint8) bool  { return c == sExtend || c == sFormat }

func sentenceBreaks(t text) []bool {
	// lower[i]: from i on, (not OLetter, Upper, Lower, ParaSep, SATerm)* Lower
	lower := make([]bool, t.n+1)
	lw := false
	for i := t.n - 1; i >= 0; i-- {
		if !t.start[i] {
			continue
		}
		c := t.cls[i]
		if c == sLower {
			lw = true
		} else if c == sOLetter || c == sUpper || sParaSep(c) || c == sATerm || c == sSTerm {
			lw = false
		}
		lower[i] = lw
	}
	brk := make([]bool, t.n+1)
	prev := uint8(none)
	l1 := uint8(none)
	l2 := uint8(none)
	phase := uint8(0) // 1: SATerm  2: SATerm Close+  3: SATerm Close* Sp+
	aterm := false    // the SATerm is an ATerm
	for i := 0; i < t.n; i++ {
		if !t.start[i] {
			continue
		}
		c := t.cls[i]
		join := true // SB998
		if prev == none {
			join = false // SB1
		} else if prev == sCR && c == sLF {
			join = true // SB3
		} else if sParaSep(prev) {
			join = false // SB4
		} else if sIgnore(c) {
			join = true // SB5
		} else if phase > 0 {
			if l1 == sATerm && c == sNumeric {
				join = true // SB6
			} else if l1 == sATerm && (l2 == sUpper || l2 == sLower) && c == sUpper {
				join = true // SB7
			} else if aterm && lower[i] {
				join = true // SB8
			} else if c == sSContinue || c == sATerm || c == sSTerm {
				join = true // SB8a
			} else if phase <= 2 && (c == sClose || c == sSp || sParaSep(c)) {
				join = true // SB9
			} else if c == sSp || sParaSep(c) {
				join = true // SB10
			} else {
				join = false // SB11
			}
		}
		brk[i] = !join

		if sIgnore(c) {
			if prev == none || sParaSep(prev) {
				l2, l1, phase = l1, sOther, 0
			}
		} else {
			if c == sATerm || c == sSTerm {
				phase = 1
				aterm = c == sATerm
			} else if c == sClose && (phase == 1 || phase == 2) {
				phase = 2
			} else if c == sSp && phase > 0 {
				phase = 3
			} else {
				phase = 0
			}
			l2, l1 = l1, c
		}
		prev = c
	}
	brk[t.n] = true // SB2
	return brk
}
