From 262083a56443ce69032033982bf52f804eeea3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 1/4] fix: words: let a custom SplitFunc decide every token

The ASCII hot path in Next ran before the SplitFunc set by Split (and so by
Joiners), and could return a token that SplitFunc would not: with a Middle
joiner of ' ', "a b" was two words from the iterator and one from the Scanner.
---
 words/iterator.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/words/iterator.go b/words/iterator.go
index 84bdafa..8c6cdf9 100644
--- a/words/iterator.go
+++ b/words/iterator.go
@@ -7,6 +7,9 @@ type Iterator[T ~string | ~[]byte] struct {
 	data  T
 	pos   int
 	start int
+	// custom is true when Split has been called. The ASCII hot path assumes the
+	// default splitFunc, and must not preempt any other.
+	custom bool
 }
 
 var (
@@ -48,7 +51,7 @@ func (iter *Iterator[T]) Next() bool {
 	// ASCII hot path: consume contiguous ASCII alphanumerics
 	// followed by ASCII space (or end of data)
 	b := iter.data[iter.pos]
-	if isASCIIAlphanumeric(b) {
+	if !iter.custom && isASCIIAlphanumeric(b) {
 		// Consume all contiguous ASCII alphanumerics
 		end := iter.pos + 1
 		for end < len(iter.data) && isASCIIAlphanumeric(iter.data[end]) {
@@ -109,6 +112,7 @@ func (iter *Iterator[T]) SetText(data T) {
 // Split sets the SplitFunc for the Iterator.
 func (iter *Iterator[T]) Split(split func(T, bool) (int, T, error)) {
 	iter.split = split
+	iter.custom = true
 }
 
 // First returns the first word without advancing the iterator.
-- 
2.43.0


From 2df99b04e809335f7457529019b46bd3b9e5858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:28 +0000
Subject: [PATCH 2/4] fix: words: BleveNumeric needs a Numeric and ignores
 Extend, Format and ZWJ

An ExtendNumLet-only or empty token was reported numeric, and an Extend,
Format or ZWJ after a Numeric made a numeric token be rejected, unlike the
Bleve segmenter definition the doc comment cites.
---
 words/bleve_compat.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/words/bleve_compat.go b/words/bleve_compat.go
index 7d90ba4..1f8ef7b 100644
--- a/words/bleve_compat.go
+++ b/words/bleve_compat.go
@@ -8,6 +8,7 @@ func BleveNumeric(token []byte) bool {
 	var current property
 	var lastExIgnore property     // "last excluding ignored categories"
 	var lastLastExIgnore property // "the last one before that"
+	var numeric bool              // at least one Numeric has been seen
 
 	for pos < len(token) {
 		// Remember previous properties to avoid lookups/lookbacks
@@ -18,6 +19,7 @@ func BleveNumeric(token []byte) bool {
 		}
 
 		current, w = lookup(token[pos:])
+		numeric = numeric || current.is(_Numeric)
 
 		if pos == 0 {
 			// must start with Numeric|ExtendNumLet
@@ -29,8 +31,14 @@ func BleveNumeric(token []byte) bool {
 			return false
 		}
 
+		// https://unicode.org/reports/tr29/#WB4
+		if current.is(_Ignore) {
+			pos += w
+			continue
+		}
+
 		// https://unicode.org/reports/tr29/#WB8
-		if last.is(_Numeric) && current.is(_Numeric) {
+		if current.is(_Numeric) && lastExIgnore.is(_Numeric) {
 			pos += w
 			continue
 		}
@@ -67,7 +75,7 @@ func BleveNumeric(token []byte) bool {
 		return false
 	}
 
-	return true
+	return numeric
 }
 
 // BleveIdeographic determines if a token is comprised ideographs, by the
-- 
2.43.0


From e5de79f7531a9d400a70442fb22fc111cea7d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 3/4] fix: sentences: look ahead for SB8 only once over the
 same text

---
 sentences/splitfunc.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sentences/splitfunc.go b/sentences/splitfunc.go
index f1246f0..d4a1c1e 100644
--- a/sentences/splitfunc.go
+++ b/sentences/splitfunc.go
@@ -35,6 +35,7 @@ func splitFunc[T ~string | ~[]byte](data T, atEOF bool) (advance int, token T, e
 	var lastExIgnoreClose property
 	var lastExIgnoreSpClose property
 	var lastExIgnoreParaSepSpClose property
+	var sb8Failed bool // the SB8 lookahead from before has failed here
 
 	// Rules are usually of the form Cat1 × Cat2; "current" refers to the first property
 	// to the right of the ×, from which we look back or forward
@@ -91,6 +92,10 @@ main:
 			lastExIgnoreParaSepSpClose = lastExIgnoreSpClose
 		}
 
+		if last.is(_OLetter | _Upper | _Lower | _ParaSep | _SATerm) {
+			sb8Failed = false
+		}
+
 		current, w = lookup(data[pos:])
 		if w == 0 {
 			if atEOF {
@@ -142,7 +147,7 @@ main:
 		}
 
 		// https://unicode.org/reports/tr29/#SB8
-		if lastExIgnoreSpClose.is(_ATerm) {
+		if lastExIgnoreSpClose.is(_ATerm) && !sb8Failed {
 			p := pos
 
 			// ( ¬(OLetter | Upper | Lower | ParaSep | SATerm) )*
@@ -177,6 +182,9 @@ main:
 				pos = p + advance
 				continue
 			}
+
+			// Looking ahead again would only end at p, until past it
+			sb8Failed = true
 		}
 
 		// https://unicode.org/reports/tr29/#SB8a
-- 
2.43.0


From e71ab0770fa3cead9d70b7d4319e5f0dd5aed0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:57 +0000
Subject: [PATCH 4/4] fix: graphemes: look for the end of a control string only
 once
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Every introducer of an unterminated control string scanned the rest of the
data again, so that a text of n of them took O(n²) steps.
---
 graphemes/ansi.go     | 26 ++++++++++++++++++++++++++
 graphemes/ansi8.go    | 15 +++++++++++++++
 graphemes/iterator.go | 26 ++++++++++++++++++++------
 3 files changed, 61 insertions(+), 6 deletions(-)

diff --git a/graphemes/ansi.go b/graphemes/ansi.go
index 9cd09b4..1c05f88 100644
--- a/graphemes/ansi.go
+++ b/graphemes/ansi.go
@@ -1,5 +1,31 @@
 package graphemes
 
+// controlString is a set of forms of control strings. Those of one form have
+// the same terminators.
+type controlString uint8
+
+const (
+	oscString   controlString = 1 << iota // OSC
+	stString                              // DCS, SOS, PM, APC
+	oscStringC1                           // C1 OSC
+	stStringC1                            // C1 DCS, SOS, PM, APC
+)
+
+// controlStringForm returns the form of the 7-bit control string that is
+// introduced at the start of data, or 0 if none.
+func controlStringForm[T ~string | ~[]byte](data T) controlString {
+	if len(data) < 2 || data[0] != esc {
+		return 0
+	}
+	switch data[1] {
+	case ']':
+		return oscString
+	case 'P', 'X', '^', '_':
+		return stString
+	}
+	return 0
+}
+
 // ansiEscapeLength returns the byte length of a valid 7-bit ANSI escape
 // sequence at the start of data, or 0 if none.
 //
diff --git a/graphemes/ansi8.go b/graphemes/ansi8.go
index d9b0c48..f8810ea 100644
--- a/graphemes/ansi8.go
+++ b/graphemes/ansi8.go
@@ -1,5 +1,20 @@
 package graphemes
 
+// controlStringForm8Bit returns the form of the 8-bit control string that is
+// introduced at the start of data, or 0 if none.
+func controlStringForm8Bit[T ~string | ~[]byte](data T) controlString {
+	if len(data) == 0 {
+		return 0
+	}
+	switch data[0] {
+	case 0x9D:
+		return oscStringC1
+	case 0x90, 0x98, 0x9E, 0x9F:
+		return stStringC1
+	}
+	return 0
+}
+
 // ansiEscapeLength8Bit returns the byte length of a valid 8-bit C1 ANSI
 // sequence at the start of data, or 0 if none.
 //
diff --git a/graphemes/iterator.go b/graphemes/iterator.go
index d37d43d..b276202 100644
--- a/graphemes/iterator.go
+++ b/graphemes/iterator.go
@@ -39,6 +39,9 @@ type Iterator[T ~string | ~[]byte] struct {
 	// choose this option, you are choosing to interpret non-UTF-8 data, caveat
 	// emptor.
 	AnsiEscapeSequences8Bit bool
+	// unterminated is the forms of control strings that do not end in the rest
+	// of the data, as an earlier one did not.
+	unterminated controlString
 }
 
 var (
@@ -65,15 +68,23 @@ func (iter *Iterator[T]) Next() bool {
 
 	b := iter.data[iter.pos]
 	if iter.AnsiEscapeSequences && b == esc {
-		if a := ansiEscapeLength(iter.data[iter.pos:]); a > 0 {
-			iter.pos += a
-			return true
+		data := iter.data[iter.pos:]
+		if form := controlStringForm(data); form&iter.unterminated == 0 {
+			if a := ansiEscapeLength(data); a > 0 {
+				iter.pos += a
+				return true
+			}
+			iter.unterminated |= form
 		}
 	}
 	if iter.AnsiEscapeSequences8Bit && b >= 0x80 && b <= 0x9F {
-		if a := ansiEscapeLength8Bit(iter.data[iter.pos:]); a > 0 {
-			iter.pos += a
-			return true
+		data := iter.data[iter.pos:]
+		if form := controlStringForm8Bit(data); form&iter.unterminated == 0 {
+			if a := ansiEscapeLength8Bit(data); a > 0 {
+				iter.pos += a
+				return true
+			}
+			iter.unterminated |= form
 		}
 	}
 
@@ -120,6 +131,7 @@ func (iter *Iterator[T]) End() int {
 func (iter *Iterator[T]) Reset() {
 	iter.start = 0
 	iter.pos = 0
+	iter.unterminated = 0
 }
 
 // SetText sets the data for the iterator to operate on, and resets all state.
@@ -127,6 +139,7 @@ func (iter *Iterator[T]) SetText(data T) {
 	iter.data = data
 	iter.start = 0
 	iter.pos = 0
+	iter.unterminated = 0
 }
 
 // First returns the first grapheme cluster without advancing the iterator.
@@ -139,6 +152,7 @@ func (iter *Iterator[T]) First() T {
 	cp := *iter
 	cp.pos = 0
 	cp.start = 0
+	cp.unterminated = 0
 	cp.Next()
 	return cp.Value()
 }
-- 
2.43.0

