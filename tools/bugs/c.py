exec(open(__import__('os').path.dirname(__file__)+'/b.py').read().split('BUGS=[')[0])
BUGS=[
dict(id="kat-zwj",property="P03",edits=[("words/splitfunc.go","current.is(_ExtendedPictographic) && last.is(_ZWJ)","current.is(_ExtendedPictographic) && last.is(_ZWJ) && !lastExIgnore.is(_Katakana)")],
 imports=I("words"),demo=toks("words",'"\\u30a2\\u200d\\U0001F600"','"\\u30a2\\u200d\\U0001F600"'),
 needs="Katakana, ZWJ and a pictograph",breaks="WB3c depends on what stands before the ZWJ"),
dict(id="phrase-13a",property="P21",edits=[("phrases/splitfunc.go","lastExIgnore.is(_AHLetter|_Numeric|_Katakana|_ExtendNumLet)","lastExIgnore.is(_AHLetter|_Numeric|_ExtendNumLet)")],
 imports=I("phrases"),demo=toks("phrases",'"\\u30a2_"','"\\u30a2_"'),needs="an underscore after Katakana",breaks="a phrase ends inside a word"),
dict(id="sb8-cr",property="P22",edits=[("sentences/splitfunc.go","lookup.is(_OLetter | _Upper | _Lower | _ParaSep | _SATerm)","lookup.is(_OLetter | _Upper | _Lower | _Sep | _LF | _SATerm)")],
 imports=I("sentences"),demo=toks("sentences",'"X. \\rb"','"X. \\r", "b"'),
 needs="a full stop, a space, a lone CR and a lower case letter",breaks="the sentence runs on over the line end"),
]
