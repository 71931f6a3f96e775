#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the statements are kept)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
ITERS=["graphemes/iterator.go","words/iterator.go","sentences/iterator.go","phrases/iterator.go"]
SPLITS=["graphemes/splitfunc.go","words/splitfunc.go","sentences/splitfunc.go","phrases/splitfunc.go"]
TRIES=["graphemes/trie.go","words/trie.go","sentences/trie.go","phrases/trie.go"]
p("P01","Tokens partition any input exactly, without panicking or looping",
 "For every byte sequence, valid UTF-8 or not, each of the four iterators (graphemes, words, sentences, phrases; string or []byte; graphemes with any combination of the ANSI options, words with any joiners) yields finitely many non-empty tokens that are contiguous, in order, and concatenate to exactly the input, and then Next stays false; it never panics. When the input is valid UTF-8, every token is valid UTF-8 too (no code point is ever split).",
 ["inputs","configurations"],"every byte sequence (valid or invalid UTF-8), every tokenizer, both data forms, every ANSI option combination, every joiner set",
 "The repository round-trips its sample text, UCD test lines and random invalid strings; a truncated or malformed sequence at an untested place next to an untested class, or an off-by-one in a fast path, is never reached by those samples.",
 ITERS+SPLITS+["graphemes/ansi.go","graphemes/ansi8.go","words/joiners.go"],
 [("Next: fast path, then split on the remaining data, panics on bad advance","*/iterator.go Next"),("w==0 at EOF returns the rest","*/splitfunc.go")],
 ["Next/Value/Start/End over FromString and FromBytes"])
p("P02","Grapheme clusters follow UAX #29 GB1-GB999 for all valid text",
 "For every valid UTF-8 text, iterating graphemes (default options) yields exactly the extended grapheme clusters defined by UAX #29 rules GB1-GB999 (including GB9c conjuncts, GB11 emoji ZWJ sequences and GB12/13 regional-indicator pairs) with Unicode 17 properties.",
 ["inputs"],"every valid UTF-8 text",
 "The UCD GraphemeBreakTest file samples a few hundred short strings; rule interactions (conjunct state across other rules, RI parity, extender runs between emoji and ZWJ, ASCII fast path next to non-ASCII) are combinatorial.",
 ["graphemes/splitfunc.go","graphemes/iterator.go","graphemes/trie.go"],
 [("GB rule cascade with last/lastExIgnore/lastLastExIgnore/RI count/incb","graphemes/splitfunc.go splitFunc"),("ASCII hot path","graphemes/iterator.go Next")],
 ["graphemes.FromBytes/FromString tokens"])
p("P03","Word boundaries follow UAX #29 WB1-WB999 for all valid text",
 "For every valid UTF-8 text, iterating words (no joiners) yields exactly the segments delimited by the UAX #29 word boundaries WB1-WB999 with Unicode 17 properties, including WB4 ignoring of Extend/Format/ZWJ and the lookahead rules WB6/WB7b/WB12.",
 ["inputs"],"every valid UTF-8 text",
 "The UCD WordBreakTest strings and ad hoc samples cannot cover every combination of left context, ignorable run and lookahead, nor the ASCII fast path against every follower.",
 ["words/splitfunc.go","words/seek.go","words/iterator.go","words/trie.go"],
 [("WB rule cascade","words/splitfunc.go splitFunc"),("lookahead skipping ignorables","words/seek.go subsequent"),("ASCII alphanumeric hot path","words/iterator.go Next")],
 ["words.FromBytes/FromString tokens"])
p("P04","Sentence boundaries follow UAX #29 SB1-SB998 for all valid text",
 "For every valid UTF-8 text, iterating sentences yields exactly the segments delimited by the UAX #29 sentence boundaries SB1-SB998 with Unicode 17 properties, including SB5 ignoring of Extend/Format, the unbounded SB8 lookahead and the SATerm Close* Sp* ParaSep? context of SB8-SB11.",
 ["inputs"],"every valid UTF-8 text",
 "The UCD SentenceBreakTest strings sample a few hundred cases; SB8-SB11 depend on arbitrarily long contexts on both sides and the fast path restarts the rules in mid-sentence.",
 ["sentences/splitfunc.go","sentences/seek.go","sentences/iterator.go","sentences/trie.go"],
 [("SB rule cascade with derived lastEx... registers","sentences/splitfunc.go splitFunc"),("hot path backs up one byte","sentences/iterator.go Next")],
 ["sentences.FromBytes/FromString tokens"])
p("P05","Phrase boundaries follow the documented variation of the word rules",
 "For every valid UTF-8 text, iterating phrases yields exactly the segments delimited by the UAX #29 word rules with the two documented changes: Extended_Pictographic counts as a letter, and WSegSpace joins with letters, numbers and itself (words separated only by spaces stay together).",
 ["inputs"],"every valid UTF-8 text",
 "There is no official test suite for phrases; the repository's own tests are a few dozen strings.",
 ["phrases/splitfunc.go","phrases/seek.go","phrases/iterator.go","phrases/trie.go"],
 [("rule cascade","phrases/splitfunc.go splitFunc"),("hot path backs up one byte","phrases/iterator.go Next")],
 ["phrases.FromBytes/FromString tokens"])
p("P06","Every code point is treated according to its Unicode 17 properties",
 "For every Unicode scalar value, each tokenizer treats the character as having exactly its Unicode 17.0 Grapheme_Cluster_Break / Indic_Conjunct_Break / Extended_Pictographic, Word_Break or Sentence_Break property, no matter what bytes follow it, and consumes exactly its encoded length.",
 ["inputs"],"all 1,112,064 scalar values, followed by any bytes, in all four tokenizers",
 "The test suites mention about a thousand code points; a wrong table cell for any other character is invisible to them.",
 TRIES+["internal/gen/main.go"],[("two-level trie lookup","*/trie.go lookup, lookupValue"),("generated tables","*/trie.go *Values, *Index")],
 ["segmentation of any text containing the character; width and class seen by the split functions"])
p("P07","FromReader yields the same tokens as FromBytes under any read schedule",
 "For every byte sequence and every way an io.Reader may deliver it (any chunk sizes, empty reads, data together with or before EOF, any scanner buffer growth, with any maximum set by Buffer that the tokens and the text needed to decide them fit in), FromReader of each tokenizer yields exactly the tokens FromBytes yields on the whole input and Err is nil; when the reader fails after delivering a prefix, the tokens are those of the prefix and Err returns that error, whichever it is.",
 ["inputs","schedules","fault_sequences"],"every byte sequence, every partition into reads, every failure point",
 "The reader tests use fixed small sets of chunkings over sample text; a lookahead that decides too early is visible only when a read ends inside a particular context.",
 ["graphemes/reader.go","words/reader.go","sentences/reader.go","phrases/reader.go"]+SPLITS,
 [("Scanner embeds bufio.Scanner with the package SplitFunc","*/reader.go FromReader"),("request more when undecided","*/splitfunc.go, */seek.go")],
 ["Scanner.Scan/Bytes/Text/Err"])
p("P08","SplitFunc never retracts a decision, always progresses and is prompt",
 "For every byte sequence and every prefix of it presented with atEOF=false, SplitFunc of each tokenizer either asks for more (0, nil, nil) or returns the same advance and token it returns for every longer prefix and for the complete data; with atEOF=true and non-empty data it always returns a non-empty token that is a prefix of the data, and with empty data (0, nil, nil). On valid UTF-8, once the visible text contains the first complete boundary together with the complete character after it (and, for the lookahead rules, the character that decides them), it returns that token rather than asking for more.",
 ["inputs","schedules"],"every byte sequence and every pair of prefixes",
 "Tests call SplitFunc with the whole input or through a Scanner with a 4 KiB buffer, so the atEOF=false branches are rarely taken near a boundary.",
 SPLITS+["words/seek.go","sentences/seek.go","phrases/seek.go"],
 [("atEOF handling, 'more' result of subsequent","*/splitfunc.go, */seek.go")],
 ["graphemes.SplitFunc, words.SplitFunc, sentences.SplitFunc, phrases.SplitFunc"])
p("P09","String and byte-slice iteration give identical boundaries",
 "For every byte sequence, the string iterator and the []byte iterator of each tokenizer (with the same options, joiners) report the same sequence of start and end offsets and the same token bytes.",
 ["inputs","configurations"],"every byte sequence and option setting",
 "The tests compare the two forms only on sample text; generic code is instantiated separately and helpers may branch on the concrete type.",
 ITERS+SPLITS+["words/joiners.go"],[("generic splitFunc/lookup instantiations; decodeRune type switch","*/splitfunc.go, words/splitfunc.go decodeRune")],
 ["FromString vs FromBytes"])
p("P10","Iterator protocol: First, Reset, SetText, Start, End, Value histories",
 "After any sequence of calls to Next, First, Value, Start, End, Reset and SetText on an iterator of any tokenizer: Start/End/Value always describe the latest token (Value is the data between Start and End; both offsets are 0 before the first Next and after Reset or SetText), First always returns the first token of the current data (empty for empty data) and changes nothing, and after Reset or SetText the iterator continues exactly like a fresh iterator on that data with the same options.",
 ["inputs","histories"],"every text and every finite sequence of calls",
 "Tests call each method once in a fixed order; state left over from a previous text, or a First that disturbs iteration, needs particular histories.",
 ITERS,[("pos/start fields, First works on a copy","*/iterator.go")],["Iterator methods"],
 state=[("pos,start","token bounds","*/iterator.go Iterator")])
p("P11","7-bit ANSI escape sequences become single tokens exactly per ECMA-48",
 "With AnsiEscapeSequences on, for every byte sequence: a token starting at ESC covers exactly the documented escape sequence when one is complete there (CSI with parameters, intermediates, final; OSC ended by BEL, ESC \\ or cancelled just before CAN/SUB; DCS/SOS/PM/APC ended by ESC \\ or cancelled just before CAN/SUB; nF; two-byte Fp/Fe/Fs), and otherwise tokenization at that place is the default one; everywhere else tokens are as without the option.",
 ["inputs","configurations"],"every byte sequence, 7-bit option on (8-bit option on or off)",
 "The tests list a few dozen sequences; byte-range edges (0x2F/0x30, 0x3F/0x40, 0x7E/0x7F), terminators split or nested, and sequences truncated at every point are unbounded.",
 ["graphemes/ansi.go","graphemes/iterator.go"],[("ansiEscapeLength, csiBodyLength, oscLength, stSequenceLength","graphemes/ansi.go")],["graphemes iterator tokens"])
p("P12","8-bit C1 sequences become single tokens exactly per ECMA-48",
 "With AnsiEscapeSequences8Bit on, for every byte sequence: a token starting at a raw byte 0x80-0x9F covers exactly the documented C1 sequence when one is complete there (0x9B CSI; 0x9D OSC ended by BEL or 0x9C, or cancelled just before CAN/SUB; 0x90/0x98/0x9E/0x9F strings ended by 0x9C or cancelled just before CAN/SUB; any other C1 byte alone), and otherwise tokenization at that place is the default one; everywhere else tokens are as without the option.",
 ["inputs","configurations"],"every byte sequence, 8-bit option on (7-bit option on or off)",
 "As for the 7-bit forms; in addition the input is invalid UTF-8, which the conformance suites never contain.",
 ["graphemes/ansi8.go","graphemes/ansi.go","graphemes/iterator.go"],[("ansiEscapeLength8Bit, oscLengthC1, stSequenceLengthC1","graphemes/ansi8.go")],["graphemes iterator tokens"])
p("P13","ANSI options are off by default, independent, and inert on other text",
 "The ANSI options are off on a new iterator; the 7-bit option never changes the tokens of a byte sequence containing no ESC, the 8-bit option never changes the tokens of valid UTF-8 text or of data containing no byte 0x80-0x9F, 7-bit control strings are never ended by 0x9C and 8-bit control strings are never ended by ESC \\. An option may be set or cleared at any point of an iteration and holds from the next token on.",
 ["inputs","configurations"],"every byte sequence and all four option combinations",
 "Only a handful of strict negatives are tested.",
 ["graphemes/iterator.go","graphemes/ansi.go","graphemes/ansi8.go"],[("option guards in Next","graphemes/iterator.go Next")],["graphemes iterator tokens with and without options"])
p("P14","Joiners make the configured runes join words, and change nothing else",
 "For every valid UTF-8 text and every Joiners value whose runes are not line breaks (CR, LF, Newline), words iterated with Joiners (FromString, FromBytes, First, and FromReader's Scanner alike, under any chunking) are exactly the segments given by the UAX #29 word rules when a rune listed in Middle additionally has the MidNumLet property wherever it is not the first rune of a token (lookahead excepted), and a rune listed in Leading additionally has the letter properties when it starts a token; with nil or empty Joiners the result is the default one. Joiners may be set, changed or removed at any point of an iteration and hold from the next token on.",
 ["inputs","configurations"],"every text and every joiner set",
 "The joiner tests use one text and one joiner set, comparing a few chosen words.",
 ["words/joiners.go","words/splitfunc.go","words/reader.go","words/iterator.go"],[("property augmentation","words/splitfunc.go (*Joiners).splitFunc"),("iterator and scanner wiring","words/joiners.go, words/reader.go")],["words.Iterator.Joiners, words.Scanner.Joiners"])
p("P15","A custom SplitFunc set on a words iterator decides every token",
 "After Split(f) on a words iterator, for every text and every f whose token is the bytes it advances over, every token (Next and First) is exactly what f returns for the remaining data with atEOF=true; an error, a non-positive advance or an advance beyond the data makes Next panic rather than yield a wrong token.",
 ["inputs","programs"],"every split function and text",
 "No test sets a custom split function on a words iterator.",
 ["words/iterator.go"],[("Split stores f; Next calls it","words/iterator.go Split, Next")],["words.Iterator.Split, Next, First"])
p("P16","BleveNumeric recognises exactly Bleve's numeric tokens",
 "For every valid UTF-8 token, BleveNumeric is true exactly when the token matches the cited Bleve segmenter definition of a numeric word: any ExtendNumLets, then Numerics joined by ExtendNumLets or by a single MidNum, MidNumLet or Single_Quote directly between two Numerics, then any ExtendNumLets, with Extend, Format and ZWJ ignored after each element; for any other bytes it terminates without panicking.",
 ["inputs"],"every byte sequence",
 "The only numeric token tested is 3.5 and 25.",
 ["words/bleve_compat.go","words/seek.go"],[("BleveNumeric","words/bleve_compat.go")],["words.BleveNumeric"])
p("P17","BleveIdeographic recognises exactly ideographic tokens",
 "For every non-empty valid UTF-8 token, BleveIdeographic is true exactly when its first character is Han, Hiragana or Katakana (Unicode 17) and every further character is Han, Hiragana, Katakana, ExtendNumLet, Extend, Format or ZWJ; for any other bytes it terminates without panicking.",
 ["inputs"],"every byte sequence",
 "Three tokens are tested.",
 ["words/bleve_compat.go","words/trie.go"],[("BleveIdeographic","words/bleve_compat.go"),("BleveIdeographic table bit","words/trie.go")],["words.BleveIdeographic"])
p("P18","The AlphaNumeric filter is true iff the token has a letter or number",
 "For every byte sequence, filter.AlphaNumeric is true exactly when decoding it as UTF-8 (malformed bytes decode to U+FFFD) yields at least one Unicode letter or number.",
 ["inputs"],"every byte sequence",
 "It is used in one test on a few tokens.",
 ["internal/iterators/filter/filter.go"],[("AlphaNumeric","internal/iterators/filter/filter.go")],["filter.AlphaNumeric"])
p("P19","The generic iterator is safe for every split function and history",
 "For every data and every split function whose token is the bytes it advances over, the internal generic iterator's tokens are exactly what the split function returns on the remaining data with atEOF=true (a single remaining byte is always returned alone), contiguous and non-empty, and First/Reset/SetText/Split/Start/End behave as documented; a split function that errors, does not advance or advances beyond the data causes a panic, never a wrong, empty or out-of-range token.",
 ["inputs","programs","histories"],"every data, split function and call sequence",
 "The tests use well-behaved split functions and a handful of bad ones.",
 ["internal/iterators/iterator.go"],[("advance checks","internal/iterators/iterator.go Next, First")],["iterators.Iterator methods"])
p("P20","Input is never modified; interleaved iterators never affect each other",
 "No tokenizer, scanner or filter ever modifies the caller's bytes or any shared package state, so for every pair of texts and every interleaving of calls on two iterators (of the same or different tokenizers), each yields exactly the tokens it yields alone, and concurrent use of distinct iterators is race-free.",
 ["inputs","schedules"],"every pair of texts, every interleaving",
 "Tests drive one iterator at a time over private data; the race detector only sees the schedules it is given.",
 ITERS+SPLITS,[("all state is in the Iterator; package tables are read-only","*/iterator.go, */trie.go")],["caller's buffer; tokens of interleaved iterators"])
p("P21","Every phrase is a concatenation of whole words",
 "For every valid UTF-8 text, each phrase boundary is also a word boundary: a phrase is always a concatenation of whole words.",
 ["inputs"],"every valid UTF-8 text",
 "No test relates the two tokenizers.",
 ["phrases/splitfunc.go","words/splitfunc.go","phrases/iterator.go","words/iterator.go"],[("phrases only adds joins to the word rules","phrases/splitfunc.go")],["phrases and words tokens of the same text"])
p("P22","Line-wise tokenization equals whole-text tokenization",
 "For every valid UTF-8 texts A and B where A ends in a newline (LF, or CRLF, or U+2029; for sentences a paragraph separator), the tokens of A+B are the tokens of A followed by the tokens of B, in every tokenizer (unless A ends in CR and B begins with LF).",
 ["inputs"],"every pair of valid texts joined at a mandatory break",
 "No test compares tokenization of parts with that of the whole.",
 SPLITS+ITERS,[("GB4/GB5, WB3a/WB3b, SB4 mandatory breaks","*/splitfunc.go")],["tokens of A, B and A+B"])
p("P23","Fast paths are invisible: iterators agree with SplitFunc on any bytes",
 "For every byte sequence, valid UTF-8 or not, the tokens of the FromBytes iterator of each tokenizer (default options) are exactly those obtained by repeatedly applying that package's SplitFunc to the remaining data with atEOF=true.",
 ["inputs"],"every byte sequence",
 "Iterator and SplitFunc are compared only on valid sample text and the UCD strings.",
 ITERS+SPLITS,[("ASCII hot paths","*/iterator.go Next")],["FromBytes tokens vs SplitFunc advances"])
p("P24","Tokenizing a token again yields just that token",
 "For every valid UTF-8 text, tokenizing any single token produced by graphemes, words, sentences or phrases again with the same tokenizer yields exactly that one token.",
 ["inputs"],"every valid UTF-8 text and every token of it",
 "No test feeds tokens back.",
 SPLITS,[("boundaries depend only on the token and bounded following context","*/splitfunc.go")],["tokens of tokens"])
p("P25","Iteration needs no allocation",
 "For every byte sequence, iterating it (Next, Value, Start, End, Reset, SetText) with the string or []byte iterator of any tokenizer, with any ANSI options or joiners, allocates no memory beyond the iterator itself, as the documentation promises.",
 ["inputs","configurations"],"every byte sequence, both data forms, every option",
 "Benchmarks report allocations for a few sample texts and assert nothing; a copy made only for an unusual sequence goes unnoticed.",
 ITERS+SPLITS+["graphemes/ansi.go","graphemes/ansi8.go","words/joiners.go"],[("value semantics, slicing instead of copying","*/iterator.go, */splitfunc.go")],["allocations during iteration"])
p("P26","Regenerating the tries reproduces the committed tables",
 "Running the generator on the Unicode 17 data files produces tables whose lookup returns, for every code point, exactly the union of its listed properties.",
 ["inputs","programs"],"every property file","There are no generator tests that compile.",
 ["internal/gen/main.go","internal/gen/triegen/triegen.go","internal/gen/triegen/compact.go"],[("trie builder and printer","internal/gen/triegen")],["generated trie.go"])
p("P27","Tokenizing a text takes work proportional to its length",
 "For every byte sequence, tokenizing all of it (Next until false) with the string or []byte iterator of any tokenizer (default options, graphemes with any ANSI options, or words with joiners), one call of SplitFunc on incomplete data, the Bleve predicates and the AlphaNumeric filter each take a number of steps (loop iterations, and bytes gone over by library calls) of at most a fixed number per byte: no input makes the work per byte grow with the length of the text. (Out of scope: readers that deliver a long token in tiny pieces, which bufio.Scanner splits again.)",
 ["inputs"],"every byte sequence","Benchmarks measure a few texts; repeated lookahead or rescanning shows only on texts with many candidates, such as a full stop before many spaces.",
 ITERS+SPLITS+["words/bleve_compat.go","internal/iterators/filter/filter.go"],[("single pass with lookahead that ends at the first decision","*/splitfunc.go")],["steps executed"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
