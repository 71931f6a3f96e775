package vh

import (
	"github.com/clipperhouse/uax29/v2/internal/vsym"
	"github.com/clipperhouse/uax29/v2/words"
)

// pool is what joiner runes are chosen from: characters of every word class
// but the line breaks, of every encoded width.
var pool = []rune{'-', '@', '#', '.', '\'', '"', ':', ',', 'a', '1', '_', ' ', '%', 0xE9, 0x301, 0x5D0, 0x30A2, 0x200D, 0x4E00, 0x1F600, 0x1F1E6, 0xFFFD}

// choose gives nm middle and nl leading joiners, chosen by the inputs from
// pool[lo:hi].
func choose(lo, hi, nm, nl int) (mid, lead []rune) {
	names := [...]string{"j0", "j1", "j2", "j3"}
	for k := 0; k < nm+nl; k++ {
		r := pool[vsym.Int(names[k], lo, hi-1)]
		if k < nm {
			mid = append(mid, r)
		} else {
			lead = append(lead, r)
		}
	}
	return
}

func has(l []rune, r rune) bool {
	for _, x := range l {
		if x == r {
			return true
		}
	}
	return false
}

// joinerBreaks: the segments with joiners.
func joinerBreaks(data []byte, mid, lead []rune) []bool {
	t := parse(refWord, data)
	m := make([]bool, t.n)
	l := make([]bool, t.n)
	for i := 0; i < t.n; i++ {
		if t.start[i] {
			r := vsym.Rune(data, i)
			m[i] = has(mid, r)
			l[i] = has(lead, r)
		}
	}
	return wordBreaksM(t, false, m, l)
}

// Join: words with joiners from pool[lo:hi] on texts of n bytes.
func Join(lo, hi, nm, nl, n int) { join(lo, hi, nm, nl, vsym.Bytes("t", n)) }

// JoinW: the same for characters of the given widths.
func JoinW(lo, hi, nm, nl, pat int) { join(lo, hi, nm, nl, shaped("t", pat)) }

func join(lo, hi, nm, nl int, data []byte) {
	mid, lead := choose(lo, hi, nm, nl)
	joined(data, mid, lead)
}

func joined(data []byte, mid, lead []rune) {
	brk := joinerBreaks(data, mid, lead)
	it := words.FromBytes(data)
	it.Joiners(&words.Joiners[[]byte]{Middle: mid, Leading: lead})
	follow(data, it, brk)
}

type (
	joinText  string
	joinBytes []byte
)

// JoinNamed: iterators of named string (form 0, 2) and byte slice types (1, 3),
// made from the zero value by SetText and Joiners, in that order or (2, 3) the other.
func JoinNamed(form, lo, hi, nm, nl, n int) {
	data := vsym.Bytes("t", n)
	mid, lead := choose(lo, hi, nm, nl)
	brk := joinerBreaks(data, mid, lead)
	if form%2 == 0 {
		var it words.Iterator[joinText]
		if form == 0 {
			it.SetText(joinText(data))
		}
		it.Joiners(&words.Joiners[joinText]{Middle: mid, Leading: lead})
		if form != 0 {
			it.SetText(joinText(data))
		}
		follow(data, &it, brk)
		return
	}
	var it words.Iterator[joinBytes]
	if form == 1 {
		it.SetText(joinBytes(data))
	}
	it.Joiners(&words.Joiners[joinBytes]{Middle: mid, Leading: lead})
	if form != 1 {
		it.SetText(joinBytes(data))
	}
	follow(data, &it, brk)
}

// follow: the iterator's tokens, and First, are the segments that brk gives.
func follow[T ~string | ~[]byte](data []byte, it *words.Iterator[T], brk []bool) {
	first := it.First()
	pos := 0
	sum := uint32(0)
	for it.Next() {
		e := it.End()
		vsym.Assert(it.Start() == pos && e > pos && e <= len(data), "token is not the next piece of the text")
		vsym.Assert(pos > 0 || len(first) == e, "First is not the first token")
		for i := pos + 1; i < e; i++ {
			vsym.Assert(!brk[i], "token spans a boundary")
		}
		vsym.Assert(brk[e], "token ends where there is no boundary")
		sum ^= 1 << (uint(e) % 32)
		pos = e
	}
	vsym.Assert(pos == len(data), "text not consumed")
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

// JoinNone: nil (which=0) or empty joiners change nothing.
func JoinNone(which, n int) {
	data := vsym.Bytes("t", n)
	a := words.FromBytes(data)
	switch which {
	case 0:
		a.Joiners(nil)
	case 1:
		a.Joiners(&words.Joiners[[]byte]{})
	default:
		a.Joiners(&words.Joiners[[]byte]{Middle: []rune{}, Leading: []rune{}})
	}
	same(data, a, words.FromBytes(data))
}

// JoinReader: a Scanner with joiners gives the iterator's tokens, under any chunking.
func JoinReader(lo, hi, nm, nl, n, buf int) {
	joinReader(lo, hi, nm, nl, vsym.Bytes("t", n), buf)
}

// JoinReaderW: the same for valid texts of characters of the given widths.
func JoinReaderW(lo, hi, nm, nl, pat, buf int) {
	joinReader(lo, hi, nm, nl, shaped("t", pat), buf)
}

// JoinReaderF: the same for texts X F^k Y.
func JoinReaderF(lo, hi, nm, nl, px, f, k, py, buf int) {
	joinReader(lo, hi, nm, nl, filled(Words, px, f, k, py), buf)
}

func joinReader(lo, hi, nm, nl int, data []byte, buf int) {
	mid, lead := choose(lo, hi, nm, nl)
	j := &words.Joiners[[]byte]{Middle: mid, Leading: lead}
	it := words.FromBytes(data)
	it.Joiners(j)
	r := chunks(data, -1)
	sc := words.FromReader(r)
	if buf > 0 {
		sc.Buffer(make([]byte, 0, buf), 1<<16)
	}
	sc.Joiners(j)
	agree(sc.Scanner, it, nil)
}

// JoinMany: the same with k more joiners (ten, repeated) of either kind before
// the chosen ones.
func JoinMany(k, lo, hi, nm, nl, n int) {
	data := vsym.Bytes("t", n)
	mid, lead := choose(lo, hi, nm, nl)
	var pad []rune
	for i := 0; i < k; i++ {
		pad = append(pad, rune(0xE000+i%10))
	}
	if nm > 0 {
		mid = append(pad[:k:k], mid...)
	}
	if nl > 0 {
		lead = append(pad[:k:k], lead...)
	}
	joined(data, mid, lead)
}

// JoinF: the same for texts X F^k Y.
func JoinF(lo, hi, nm, nl, px, f, k, py int) {
	data := filled(Words, px, f, k, py)
	mid, lead := choose(lo, hi, nm, nl)
	joined(data, mid, lead)
}

// JoinSwitch: joiners that are set between any two calls of Next hold from the
// next token on; k calls.
func JoinSwitch(n, k int) {
	data := vsym.Bytes("t", n)
	sets := [3]*words.Joiners[[]byte]{{}, {Middle: []rune{'-', 0xE9}}, {Middle: []rune{':'}, Leading: []rune{'#', '-'}}}
	it := words.FromBytes(data)
	j := sets[0]
	pos := 0
	sum := uint32(0)
	for i := 0; i < k; i++ {
		switch vsym.Int(opNames[i], 0, 3) {
		case 0:
			j = sets[0]
			it.Joiners(j)
		case 1:
			j = sets[1]
			it.Joiners(j)
		case 2:
			j = sets[2]
			it.Joiners(j)
		}
		d := words.FromBytes(data[pos:])
		d.Joiners(j)
		ok := d.Next()
		vsym.Assert(it.Next() == ok, "Next does not tell whether there is a token")
		if !ok {
			break
		}
		vsym.Assert(it.Start() == pos && it.End() == pos+d.End(), "the token is not that of the joiners set last")
		pos += d.End()
		sum ^= 1 << (uint(pos) % 32)
	}
	vsym.Out("ends", int(sum))
	vsym.Reach("end")
}

func joiners[T ~string | ~[]byte](set int) *words.Joiners[T] {
	j := &words.Joiners[T]{}
	if set == 0 {
		j.Middle, j.Leading = choose(0, len(pool), 1, 1)
	} else {
		j.Middle, j.Leading = choose(0, 5, 2, 2)
	}
	return j
}
