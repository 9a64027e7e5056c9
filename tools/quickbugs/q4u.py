ns={}
exec(open(__import__('os').path.dirname(__import__('sys').argv[1])+'/q4.py').read(),ns)
BUGS=[]
def m(s):
    for a,b in [("ggfnt.GlyphRange","RuneRange"),("glyphRange","runeRange"),("findGlyphTransition","findRuneTransition"),("ggfnt.GlyphIndex","rune"),("glyphSet","runeSet"),("GlyphSet","RuneSet"),("popOldestGlyph","popOldestRune"),("lastGlyphOfPre","lastRuneOfPre"),("treesFeedGlyph","treesFeedRune"),("accumulatedBlockGlyphs","accumulatedBlockRunes"),("remainingGlyphs","remainingRunes"),("glyphIndex","codePoint"),("IsValidRuleGlyphIndex","IsValidRuleRune")]: s=s.replace(a,b)
    return s
for p,n,e in ns['BUGS']:
    if not all(x[0].startswith("internal/rerules/glyphrule") for x in e): continue
    BUGS.append(("P18" if p=="P17" else p,"u-"+n,[(f.replace("glyphrule","utf8rule"),m(o),m(w)) for f,o,w in e]))
