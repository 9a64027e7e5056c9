#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per property registered by the harness."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
src = "".join(open(f).read() for f in glob.glob(here + "/harness/*.go"))
level = dict(re.findall(r'ID:\s*"(P\d\d)",\s*Level:\s*"(\w+)"', src))
T = {
 "P01": ("runtime monitoring: hostile-input workloads with crash, stall and resource monitors", "No panic, stall, oversized inflation or oversized allocation on any of the byte streams driven; says nothing about streams not generated. Trusts Go's compress/gzip and runtime.MemStats."),
 "P02": ("runtime monitoring: enumerated cuts, extensions and byte corruptions, oracle = independent gzip + format decoder", "Every cut, and every single-byte corruption, of each generated file is enumerated; files are sampled. Corruptions that leave the decoded content unchanged are not judged."),
 "P03": ("runtime monitoring: online comparison of built font, re-parsed font and reference model over random builder histories", "Held on the builder histories driven, up to the sizes listed in DESIGN.md; trusts the reference encoder/decoder written from specification.md."),
 "P04": ("runtime monitoring: differential replay of builder histories with interleaved builds and injected identifiers", "Held on the histories driven; map iteration order is varied by repetition, not enumerated."),
 "P05": ("runtime monitoring: reference-model monitor on header and metric accessors", "Held on the generated fonts."),
 "P06": ("runtime monitoring: reference-model monitor on color accessors", "Held on the generated fonts."),
 "P07": ("runtime monitoring: reference-model monitor on glyph name lookups", "Held on the generated fonts and probed names (all stored names plus their neighbours)."),
 "P08": ("runtime monitoring: reference-model monitor on rasterized masks and placements", "Held on the generated fonts; trusts the reference raster interpreter."),
 "P09": ("runtime monitoring: differential execution against a reference raster interpreter", "Held on the streams driven: all 256 control codes, all truncations of generated streams, random and mutated streams."),
 "P10": ("runtime monitoring: round-trip monitor over encoder histories plus reference interpreter", "Held on the masks and encoder histories driven."),
 "P11": ("runtime monitoring: reference-model monitor on settings accessors over file and builder histories", "Held on the generated fonts and builder histories."),
 "P12": ("runtime monitoring: reference-model monitor on mapping lookups under random settings", "Held on the generated fonts and setting assignments."),
 "P13": ("runtime monitoring: online trace checker (LRU + mapping model) over cache histories", "Held on the histories driven."),
 "P14": ("runtime monitoring: reference-model monitor on kerning lookups over file and builder histories", "Held on the generated fonts and builder histories."),
 "P15": ("runtime monitoring: reference evaluator monitor on rewrite conditions", "Held on the generated conditions and setting values."),
 "P16": ("runtime monitoring: reference-model monitor on rewrite sets and rules", "Held on the generated fonts."),
 "P17": ("runtime monitoring: online checker of rewriting traces against a reference rewriter (glyphs)", "Held on the rule sets and sequences driven."),
 "P18": ("runtime monitoring: online checker of rewriting traces against a reference rewriter (code points)", "Held on the rule sets and sequences driven."),
 "P19": ("runtime monitoring: history-independence monitor (same sequence on fresh and used testers)", "Held on the histories driven."),
 "P20": ("runtime monitoring: differential monitor against a fresh tester with the current rules", "Held on the histories driven."),
 "P21": ("runtime monitoring: malformed-rule and misuse injection with crash monitor", "Held on the malformed rules and misuse sequences driven."),
 "P22": ("runtime monitoring: Go race detector over concurrent workloads, results compared with solo runs", "No race or result difference on the interleavings observed; the race detector reports only conflicting accesses that were executed."),
 "P23": ("runtime monitoring: reference-model monitor over random builder histories (state read back after every operation)", "Held on the builder histories driven; features the code declares unimplemented are excluded (see DESIGN.md)."),
 "P24": ("runtime monitoring with fault injection: failing and fragmenting readers, writers and file systems", "Faults are enumerated at every byte position of each generated file; files are sampled."),
 "P25": ("runtime monitoring: exhaustive workload over the date fields with a calendar oracle", "All 65536 x 256 x 256 field combinations are checked for validity in both tiers; printing is sampled."),
 "P26": ("runtime monitoring: reference-model monitor on edition data loading, with damaged inputs", "Held on the generated edition data and damages."),
 "P27": ("runtime monitoring: rule-breaking and limit-reaching fonts, acceptance judged by an independent walker over the content", "Each rule is broken on its own in every generated font; fonts are sampled."),
 "P28": ("runtime monitoring: aliasing and immutability monitor over query histories (answers kept and compared later, fonts compared after every query)", "Held on the histories driven."),
}
claimed = [p["id"] for p in props if p["id"] in level]
na = [{"property": p["id"], "reason": "no check built yet"} for p in props if p["id"] not in level]
m = {"version": 1,
     "setup_cmd": "./check.sh setup",
     "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                 "evidence_file": f"evidence/{i}.json", "technique": T[i][0], "level": level[i], "level_note": T[i][1]} for i in claimed],
     "not_applicable": na,
     "notes": "No hooks in /repo: every monitor observes public API calls and the bytes exchanged. See DESIGN.md."}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1); open(here + "/MANIFEST.json", "a").write("\n")
print(len(claimed), "claimed,", len(na), "not claimed")
