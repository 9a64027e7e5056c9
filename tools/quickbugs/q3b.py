exec(open("/tmp/w/q3.py").read())
W="center-512 max-glyphs-partial string-del kern-sort-16 glyphset-list-255 glyphset-range-single glyphset-range-255 runeset-range-del rule-sum-overflow names-sort-len".split()
old={b[1]:b for b in BUGS}
BUGS=[]
for w in W:
    for p in ("P03","P23"): BUGS.append((p,w+"/"+p,old[w][2]))
RR=open("/repo/builder/font_builder_rewrite_rules.go").read()
i=RR.index("// --- utf8 rewrite rules")
BLK=RR[i:]
def both(name,a,b):
    for part,lbl in ((RR[:i],"g"),(RR[i:],"u")):
        assert part.count(a)>=1,(name,lbl)
        k=part.index(a)
        # extend: whole part replaced
        BUGS.append(("P03",name+"-"+lbl,[(BR,part,part.replace(a,b,1))]))
both("frag16","				if accumulatedElements == 15 {","				if accumulatedElements == 16 {")
both("groups16","if accumulatedElements != 0 || accumulatedGroups == 15 {","if accumulatedElements != 0 || accumulatedGroups == 16 {")
both("blockfrag","		} else if !blockHasFragment {","		} else if !blockHasFragment || blockSize == 15 {")
both("lastfrag","if accumulatedGroups > 0 || accumulatedElements > 0 {","if accumulatedGroups > 0 || accumulatedElements > 0 && !(accumulatedElements == 15 && blockHasFragment) {")
FB=open("/repo/builder/font_builder.go").read()
j=FB.index("numVertKerningPairsWithClasses, err")
def both2(name,a,b):
    for part,lbl in ((FB[:j],"h"),(FB[j:],"v")):
        BUGS.append(("P26",name+"-"+lbl,[(B,part,part.replace(a,b,1))]))
both2("class-eq","		if kerningClass > numKerningClasses {","		if kerningClass > numKerningClasses + 1 {")
both2("glyph-eq","int(secondIndex) >= len(self.glyphOrder) {","int(secondIndex) > len(self.glyphOrder) {")
both2("class-u8","			kerningPair.Class = kerningClass\n","			kerningPair.Class = uint16(uint8(kerningClass))\n")
both2("swap","{ First: first, Second: second, Class: kerningClass }","{ First: second, Second: first, Class: kerningClass }")
both2("zero","		if kerningClass == 0 {","		if kerningClass == 0 && first0() {") if 0 else None
