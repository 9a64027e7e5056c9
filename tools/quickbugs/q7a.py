# misses of q2 and q3 under other properties
import runpy, os
d = os.path.dirname(os.path.abspath(__file__)) if "__file__" in globals() else "/verif/tools/quickbugs"
old = {}
for f in ("q1.py", "q2.py", "q3.py", "q4.py"):
    for b in runpy.run_path(d + "/" + f)["BUGS"]: old[b[1]] = b
BUGS = []
for w, ps in {"kern-sort-16": ["P14", "P03"], "glyphset-range-single": ["P16", "P23", "P03", "P17"], "glyphset-list-255": ["P16", "P23", "P03"],
        "max-glyphs-partial": ["P23", "P03"], "mapping-sort-signed": ["P12", "P03"], "limit-only-first-half": ["P01", "P27"], "insert-nonrepeat": ["P18", "P17"], "binsearch8": ["P17", "P21"]}.items():
    for p in ps: BUGS.append((p, w + "/" + p, old[w][2]))
