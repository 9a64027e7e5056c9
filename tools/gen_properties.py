#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the entries stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    a = {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
         "mechanism": [dict(zip(("name","where"), m)) for m in mechanism],
         "observe_at": list(observe), "hook_needed": hook}
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("P01", "Parsing any byte stream yields a font or an error, never a crash",
 "For every byte stream handed to the font parser, whether random, truncated, mutated from a real font or adversarially sized, parsing returns either a font or a non-nil error. It never panics, never loops forever and never inflates more than the documented 32 MiB of data, however highly compressed the input is.",
 ["inputs"], "every byte stream: mutations, truncations and splices of valid fonts (re-compressed so the damage reaches the section parsers), wrong signatures, broken gzip streams, decompression bombs",
 "Existing tests parse two well-formed fonts; the quantifier is over all byte streams and none of the error paths are ever driven.",
 ["parse.go","internal/parsing_buffer.go"],
 [("Parse and per-section parsing with bound checks","parse.go:Parse"),("incremental gzip reads with a total size limit","internal/parsing_buffer.go:ParsingBuffer")],
 [("parsing buffer","bytes inflated so far and the read cursor","internal/parsing_buffer.go")], ["return values of ggfnt.Parse","bytes pulled from the reader"])

prop("P02", "Truncated, extended or corrupted font files are rejected",
 "If the bytes of a valid font file are cut anywhere, given a wrong signature, damaged inside the compressed stream, or its uncompressed content is extended with extra data after the last table or shortened before it, then parsing reports an error instead of returning a font.",
 ["inputs","fault_sequences"], "every cut point (of the file and of the uncompressed content re-compressed), every extension length, every single-byte corruption of the compressed stream, over many generated fonts",
 "No test parses a damaged file; a cut is only noticed if every one of the section parsers propagates its read errors, which sampling one font cannot settle.",
 ["parse.go","internal/parsing_buffer.go"],
 [("error propagation from each section's reads","parse.go"),("end of data and checksum check","internal/parsing_buffer.go:EnsureEOF")],
 (), ["error result of ggfnt.Parse"])

prop("P03", "A built font survives export and parsing unchanged",
 "Whenever the font builder produces a font without error, exporting that font and parsing the exported bytes succeeds and yields a font with the same raw size, that re-exports to the same bytes and answers every read query exactly as the built font does.",
 ["programs","inputs"], "every sequence of successful builder calls (metrics, colors, glyphs, names, settings, words, switches, mappings, sets, rules, kerning), including sizes at the documented limits",
 "The only round-trip test builds one minimal font with a single glyph and compares nothing but the absence of errors.",
 ["builder/font_builder.go","font.go","parse.go"],
 [("section serialization and offset bookkeeping","builder/font_builder.go:Build"),("Export","font.go:Font.Export"),("Parse","parse.go")],
 [("section offsets","start offset of each table, computed by the builder and re-derived by the parser","internal/font.go")],
 ["exported bytes","all accessors of the built and of the re-parsed font"])

prop("P04", "Building is deterministic, repeatable and leaves the builder unchanged",
 "Building a font twice from the same builder, or from two builders that received the same operations with the same identifiers, produces byte-identical fonts. A build, successful or failed, does not change what later operations and later builds observe.",
 ["programs","histories"], "every builder operation sequence, with builds interleaved at arbitrary points, repeated over processes with different map iteration orders",
 "Go randomizes map iteration, so a test that builds once (or gets lucky) cannot see an order dependence; no test builds twice.",
 ["builder/font_builder.go","builder/font_builder_settings.go","words.go"],
 [("sorted emission of maps","builder/font_builder.go:Build"),("word table organisation","builder/font_builder_settings.go")],
 (), ["exported bytes of repeated builds"])

prop("P05", "Font header and metrics are reported exactly as stored",
 "For every font, each header value (format version, identifier, version numbers, the three dates, name, family, author and about texts of any legal length) and each metric (glyph count, layout flag, widths, ascents, descents, spacings, gaps and the derived line sizes) read through the font equals the value that was put in the file or set on the builder.",
 ["inputs"], "every combination of header and metric values, in particular texts of 0 to 255 bytes (65535 for the about text) whose lengths add up past 255",
 "Tests read back a few short strings; the failures are in length arithmetic that only long combinations reach.",
 ["font.go","parse.go","builder/font_builder_props.go"],
 [("variable-length header decoding","font.go:FontHeader"),("fixed-offset metric decoding","font.go:FontMetrics")],
 (), ["FontHeader and FontMetrics accessors"])

prop("P06", "Dyes, palettes and the flattened color table are reported as stored",
 "For every font, the dyes and palettes are enumerated in order with their exact names, alpha values and colors, the per-section and total color counts agree with that enumeration, and the flattened color table is the transparent entry followed by every dye alpha and then every palette color in order.",
 ["inputs"], "every arrangement of up to 255 dyes and palettes with 1..255 total color entries and arbitrary names",
 "No test reads colors back; the index arithmetic over cumulative end indices must hold for every arrangement.",
 ["font.go","builder/font_builder_color.go","parse.go"],
 [("cumulative end index decoding","font.go:FontColor"),("dye/palette serialization","builder/font_builder.go:Build")],
 (), ["FontColor accessors"])

prop("P07", "Glyph lookup by name finds every named glyph and nothing else",
 "In every font, looking up a name that was given to a glyph returns exactly that glyph, and looking up any other name, including prefixes, extensions and neighbours of existing names, returns the missing-glyph code.",
 ["inputs"], "every set of distinct names in any relative order, and every query string",
 "No test looks a glyph up by name; a wrong comparison in the binary search only shows for particular combinations of stored names and queries.",
 ["font.go","builder/font_builder.go"],
 [("binary search over sorted names","font.go:FindIndexByName"),("name table serialization in lexicographic order","builder/font_builder.go:Build")],
 (), ["FontGlyphs.FindIndexByName","FontGlyphs.NamedCount"])

prop("P08", "Each glyph keeps its own mask and placement",
 "In every font, rasterizing a glyph yields exactly the pixels and bounds (up to empty margins) of the mask that glyph was created with, and its advance and vertical placement values are the ones it was given, no matter which other glyphs the font has or in which order they were added.",
 ["inputs","programs"], "every set of glyphs with arbitrary masks (sparse, dense, multi-color, empty, off-origin) and placements, with and without vertical layout",
 "The font tests contain a single glyph and never rasterize from a font.",
 ["font.go","builder/font_builder.go","mask/encoder.go","mask/rasterize.go"],
 [("glyph data end offsets","font.go:getGlyphDataOffsets"),("mask encoding at build","builder/font_builder.go:Build")],
 (), ["FontGlyphs.RasterizeMask, Placement, Advance"])

prop("P09", "Raster operation streams are executed exactly as the format defines",
 "For every sequence of raster operations that follows the format specification, rasterizing it draws exactly the pixels the specification prescribes (moves, row advances, horizontal, vertical, single pixel and diagonal draws, persistent color changes) in the tightest bounding rectangle. Every sequence that is truncated or uses undefined flag combinations is reported as an error, without panicking.",
 ["inputs"], "every byte sequence, both generated from the specified grammar and random",
 "Tests rasterize a handful of hand-written streams; there are 256 control codes with data-dependent lengths and state that persists across operations.",
 ["mask/rasterize.go","mask/raster_fragment.go"],
 [("two-pass interpretation of control codes","mask/rasterize.go:Rasterize")],
 (), ["mask.Rasterize result versus an independent interpreter"])

prop("P10", "Encoding a mask and rasterizing it back reproduces the mask",
 "For every alpha mask within the encodable size, the produced raster operations follow the format and rasterize back to the same pixels in the same positions, with every color index preserved. The encoder can be reused for any number of masks in any order, only ever appending to the given buffer, and never modifies the mask it encodes.",
 ["inputs","histories"], "every mask content, bounding rectangle (negative origins, offset sub-rectangles) and encoder reuse history",
 "Encoder tests cover a dozen fixed pictures with exact expected opcodes; correctness must hold for every picture, including those that take the heuristics' fallback paths.",
 ["mask/encoder.go","mask/encoder_helper_funcs.go","mask/rasterize.go","mask/compute_rect.go"],
 [("shape detection and clearing loop","mask/encoder.go:Encoder.AppendRasterOps"),("content rectangle","mask/compute_rect.go")],
 [("encoder scratch state","registered rects and working copy reused between masks","mask/encoder.go")], ["opcodes and re-rasterized mask"])

prop("P11", "Settings, options and words read back as defined",
 "In every font, settings are enumerated in order with their exact names, each setting has the exact number of options it was defined with, and every option resolves to the exact word it was defined with, whether the word is predefined or stored in the font, and however words were added to and removed from the builder beforehand.",
 ["inputs","programs"], "every set of settings and option lists mixing predefined and custom words, and every order of definition",
 "No test defines a setting; word indices are assigned through map iteration and reorganised at build, so errors depend on the word set and on the run.",
 ["font.go","words.go","builder/font_builder_settings.go","builder/font_builder.go"],
 [("word table and option indices","builder/font_builder_settings.go"),("option name lookup","font.go:GetOptionName")],
 (), ["FontSettings accessors"])

prop("P12", "Each code point maps to its own glyph group under every setting combination",
 "In every font and for every assignment of setting values, looking up a code point finds it exactly when it has a mapping, and returns the glyph group defined for the case selected by the current values of its switch: same number of glyphs, same glyphs in the same order, same animation flags and same case number. Direct mappings, single groups, glyph ranges, glyph lists and multi-case switches all obey this.",
 ["inputs","configurations"], "every mapping table mixing all entry kinds, every setting assignment, every queried code point (present, absent, neighbouring, negative)",
 "The one mapping test uses a single direct mapping; switch staircases, group encodings and case evaluation are never executed.",
 ["font.go","builder/font_builder_mapping.go"],
 [("binary search and switch staircase","font.go:FontMapping.Utf8"),("case evaluation","font.go:EvaluateSwitch"),("group encoding","builder/font_builder_mapping.go")],
 (), ["FontMapping.Utf8 and GlyphMappingGroup accessors"])

prop("P13", "Mapping and settings caches never change the answer",
 "For every history of setting changes, lookups and cache drops or resets, a lookup through the caches gives the same answer as the uncached lookup under the current settings, as long as the documented invalidation calls are made after a settings change. The cache never holds more entries than its size and serves repeated lookups from memory, evicting the least recently used code point.",
 ["histories"], "every interleaving of settings updates, invalidations and lookups over more code points than the cache can hold, for every cache size",
 "No test touches either cache; errors require particular eviction histories.",
 ["mapping_cache.go","settings_cache.go","font.go"],
 [("linked-list eviction","mapping_cache.go"),("memoized switch cases","settings_cache.go"),("cached lookup","font.go:Utf8WithCache")],
 [("cache list","entries in most-recently-used order","mapping_cache.go")], ["cached and uncached lookups side by side"])

prop("P14", "Kerning lookups return the stored pair values and zero otherwise",
 "In every font, the horizontal and vertical kerning of an ordered glyph pair equals the value stored for exactly that pair and is zero for every pair that was not stored, and the reported pair counts are the stored ones. Setting, changing, clearing and rebuilding kerning pairs, directly or through kerning classes, always leaves the last value set in effect.",
 ["inputs","histories"], "every kerning table and queried pair, every sequence of kerning edits before a build",
 "No test sets or reads a kerning pair.",
 ["font.go","builder/font_builder.go"],
 [("binary search over packed pairs","font.go:FontKerning.Get"),("kerning serialization","builder/font_builder.go:Build")],
 (), ["FontKerning.Get, GetVert, NumPairs, NumVertPairs"])

prop("P15", "Rewrite conditions evaluate to their logical value",
 "For every condition stored in a font, evaluating it against any setting values yields the truth value of the expression it encodes: conjunctions, disjunctions, nested groups, comparisons between settings or with constants, and the compact comparison forms. Evaluation never crashes on a well-formed condition.",
 ["inputs","configurations"], "every well-formed condition expression and every assignment of setting values",
 "No test evaluates a condition; short-circuiting has to skip unevaluated terms of any shape.",
 ["font.go"],
 [("recursive evaluation and term skipping","font.go:EvaluateCondition")],
 (), ["FontRewrites.EvaluateCondition versus a reference evaluator"])

prop("P16", "Rewrite sets and rules read back as defined",
 "In every font, each rewrite rule reports its condition, its head, body, tail and output lengths and its exact output sequence, and each glyph or character set enumerates exactly its ranges and its individual elements, in order. A glyph range contains exactly the glyphs from its first to its last. The counts of rules, sets and conditions are the stored ones.",
 ["inputs","programs"], "every table of rules and sets, built through the builder or stored directly in the file format",
 "Tests look at rules only through the internal scanner; font-level accessors are never executed.",
 ["font.go","builder/font_builder_rewrite_rules.go","builder/font_builder_rewrite_sets.go"],
 [("rule and set tables","font.go:FontRewrites"),("rule serialization","builder/font_builder_rewrite_rules.go")],
 (), ["FontRewrites, GlyphRewriteRule, Utf8RewriteRule, GlyphRewriteSet, Utf8RewriteSet accessors"])

prop("P17", "Glyph rewriting replaces exactly what the rules match",
 "For every set of glyph rewrite rules and every input sequence, the emitted sequence is the one obtained by scanning left to right and replacing the body of the longest match, whose head and tail must surround it, with the rule's output. Every input glyph that is not part of a replaced body is emitted exactly once, in its original order.",
 ["inputs","programs"], "every rule list (overlapping prefixes, sets and ranges that partially overlap, heads, tails, outputs shorter than bodies) and every input sequence",
 "Tests use a handful of rule lists; the decision tree construction splits overlapping ranges, whose correctness depends on the combination of all rules.",
 ["internal/rerules/glyphrule","rerules/glyph_tester.go"],
 [("decision tree compilation with range splitting","internal/rerules/glyphrule/decision_tree_compiler.go"),("streaming match and flush","internal/rerules/glyphrule/tester.go")],
 [("decision tree","states and transitions for a group of rules","internal/rerules/glyphrule/decision_tree_state.go")], ["emitted sequence versus a direct rule matcher"])

prop("P18", "Character rewriting replaces exactly what the rules match",
 "For every set of character rewrite rules and every input sequence of code points, the emitted sequence is the one obtained by scanning left to right and replacing the body of the longest match, whose head and tail must surround it, with the rule's output. Every input character that is not part of a replaced body is emitted exactly once, in its original order.",
 ["inputs","programs"], "every rule list (overlapping prefixes, sets and ranges, heads, tails) and every input sequence of code points, over the whole code point range",
 "The character rule package has no tests at all.",
 ["internal/rerules/utf8rule","rerules/utf8_tester.go"],
 [("decision tree compilation with range splitting","internal/rerules/utf8rule/decision_tree_compiler.go"),("streaming match and flush","internal/rerules/utf8rule/tester.go")],
 [("decision tree","states and transitions for a group of rules","internal/rerules/utf8rule/decision_tree_state.go")], ["emitted sequence versus a direct rule matcher"])

prop("P19", "Rewriting a sequence does not depend on sequences processed before",
 "The output of a rewriting tester for a sequence depends only on that sequence, its breaks, and the current rules and settings, never on earlier sequences, however those were ended. Breaking a sequence in two gives the concatenation of the outputs of the two parts, and when a sequence is finished nothing remains pending.",
 ["histories"], "every history of sequences, breaks and finishes on one tester compared with a fresh tester per sequence",
 "Tests use a fresh tester, or sequences that leave no residue.",
 ["internal/rerules/glyphrule/tester.go","internal/rerules/utf8rule/tester.go","internal/circular_buffer.go"],
 [("accumulator and pending tail","tester.go"),("break and finish","tester.go:Break, FinishSequence")],
 [("accumulator","elements fed but not yet emitted","internal/circular_buffer.go")], ["outputs of a long-lived tester and of fresh testers"])

prop("P20", "A rewriting tester always reflects its current rules and conditions",
 "After any history of adding and removing rules, changing settings and refreshing conditions, rewriting behaves as a fresh tester configured with just the rules currently present and the conditions currently satisfied. A rule whose condition is not satisfied never rewrites anything.",
 ["histories","configurations"], "every history of rule additions, removals and condition refreshes interleaved with rewriting",
 "Tests never remove rules, never reuse a tester after changing its rules and never use conditions.",
 ["internal/rerules/glyphrule/tester.go","internal/rerules/utf8rule/tester.go","rerules"],
 [("rule list and recompilation","tester.go"),("condition cache","tester.go:RefreshConditions")],
 (), ["outputs of a mutated tester and of a fresh tester"])

prop("P21", "Malformed rewrite rules and misuse are refused without lasting damage",
 "Adding or compiling any malformed rewrite rule, or a set of rules too complex to compile, results in an error and never in a crash. An error that carries a rule carries the offending one. After such an error, other testers and the same tester with the offending rules removed work normally.",
 ["inputs","fault_sequences"], "every byte string offered as a rule, every oversized rule list, followed by normal use of the same and of other testers",
 "One test feeds a few invalid rules to the compiler; error recovery of the shared compiler and of the tester is never exercised.",
 ["internal/rerules/glyphrule/rule_scanner.go","internal/rerules/utf8rule/rule_scanner.go","internal/single_instance_pool.go","internal/rerules/glyphrule/tester.go"],
 [("rule scanner validation","rule_scanner.go"),("release of the shared compiler","tester.go")],
 [("shared compiler slot","one reusable compiler handed out to whoever asks first","internal/single_instance_pool.go")], ["errors and later outputs"])

prop("P22", "Concurrent readers and independent testers do not interfere",
 "Any number of goroutines can read one font, encode and rasterize masks with their own encoders, build fonts with their own builders and compile and run their own rewriting testers at the same time, without data races and with exactly the results each would get alone.",
 ["schedules"], "every interleaving of goroutines sharing a font and the process-wide pools and tables",
 "All tests are single-threaded.",
 ["font.go","internal/single_instance_pool.go","internal/rerules/glyphrule/decision_tree_compiler.go","internal/rerules/utf8rule/decision_tree_compiler.go","words.go","mask/encoder.go"],
 [("immutable font data","font.go"),("atomically exchanged shared compiler","internal/single_instance_pool.go")],
 [("shared compiler slot","one reusable compiler handed out to whoever asks first","internal/single_instance_pool.go")], ["race detector reports","per-goroutine results versus sequential results"])

prop("P23", "Builder operations either take effect exactly or are refused without effect",
 "Every builder operation either succeeds and changes precisely what it says, as later queries and builds show, or returns an error and leaves the builder as it was. No sequence of builder operations with values of the documented types and existing identifiers makes the builder or a later build crash. Operations the code itself declares unimplemented, or documents as panicking when misused, are outside this.",
 ["programs","histories"], "every sequence of builder operations, valid and invalid, with queries and builds in between",
 "Tests run one straight-line sequence of valid operations; removal and rejection paths are never executed.",
 ["builder"],
 [("validation before mutation","builder/*.go"),("cross references between glyphs, sets, switches and mappings","builder/font_builder.go:Build")],
 [("builder tables","glyphs, names, colors, settings, switches, mappings, sets, rules, kerning","builder/font_builder.go")], ["operation errors, builder getters, built fonts versus a model"])

prop("P24", "Reading and writing failures are reported and short transfers handled",
 "If the underlying reader, writer or file system fails or delivers data in pieces of any size at any point, exporting and parsing either complete with the same result as without the disturbance or return an error, and opened files are always closed.",
 ["fault_sequences"], "every failure point and every fragmentation of reads and writes during parse and export, from readers, files and file systems",
 "Tests only use in-memory buffers that never fail nor fragment.",
 ["parse.go","font.go","internal/parsing_buffer.go"],
 [("signature and gzip reads","parse.go:Parse"),("export writes","font.go:Font.Export"),("file handling","parse.go:ParseFromFS, ParseFromPath")],
 (), ["results under injected faults","open/close counts"])

prop("P25", "Dates are valid exactly when they name a real or partially known day",
 "A date is reported valid exactly when it is a real calendar day, a real month of a known year, a known year alone, or entirely unknown. A valid date prints its known parts as day, English month name and four digit year. Checking and printing never crash, whatever the field values.",
 ["inputs"], "all combinations of year, month and day field values",
 "The test checks leap years for a few values; validity of partial dates is never exercised.",
 ["date.go","internal/helpers.go"],
 [("validity rules","date.go:Date.IsValid")],
 (), ["Date.IsValid, IsComplete, String, HasYear, HasMonth, HasDay"])

prop("P26", "Edition data loads completely or not at all",
 "Well-formed edition data belonging to the font being built is loaded with all its categories, kerning classes, kerning pairs and condition names taking effect in the builder. Edition data that is malformed, truncated, inconsistent or belongs to another font is rejected with an error, without crashing, and leaves no part of itself behind: the builder then has no categories, kerning classes or condition names, and everything else in it is as before.",
 ["inputs","fault_sequences"], "every edition data stream: generated valid ones, all cut points, mutations of every field, mismatched fonts",
 "No test loads edition data.",
 ["builder/font_builder.go","internal/parsing_buffer.go"],
 [("edition data parsing","builder/font_builder.go:ParseEditionData")],
 (), ["ParseEditionData result and the font built afterwards"])

prop("P27", "Fonts that break a basic rule of the format are never accepted",
 "Parsing rejects every stream whose content breaks a basic rule of the format: another format version, an identifier whose bits are nearly all the same, an empty name, no glyphs or more than the maximum, a vertical layout flag other than 0 or 1, a zero ascent, an extra ascent above the ascent, vertical interspacing without vertical layout, more than 255 colors, more named glyphs than glyphs, more than 254 mapping switches, more kerning pairs than pairs of glyphs, or a table whose declared size is below the minimum or above the maximum for its number of entries. Well-formed fonts that exactly reach a limit are accepted. Font.Validate in its default mode finds no fault in an accepted font, and reports one when the content of a loaded font is changed to break one of the rules on version, identifier, name, metrics or number of named glyphs.",
 ["inputs"], "every font content: each rule broken on its own in otherwise consistent fonts, random changes of contents, and well-formed fonts with every entry at its smallest or largest size",
 "The tests only parse well-formed fonts; a missing or shifted limit only shows on contents that break exactly that rule and are consistent in all other respects.",
 ["parse.go","font.go","internal/parsing_buffer.go","internal/helpers.go","internal/constants.go"],
 [("limits checked while advancing through the tables","parse.go:Parse"),("validation of header, metrics and colors","font.go:FontHeader.Validate, FontMetrics.Validate, FontColor.Validate"),("entropy of the identifier","internal/helpers.go:LazyEntropyUint64")],
 (), ["error result of ggfnt.Parse","Font.Data of accepted fonts"])

prop("P28", "Queries leave fonts unchanged and earlier answers stay valid",
 "No query, export, rasterization, cached lookup or rewriting run changes the font it reads or the arguments it was given, also when it is made from within a callback of another query. What was returned earlier (texts, glyph groups, rules, sets, images, color tables, encoded operations, exported bytes) keeps its contents whatever is asked of this or other fonts afterwards. Callers may change the images, color tables and bytes they received, and reuse the bytes a font was parsed from, without affecting any later answer, and the same query always gives the same answer.",
 ["histories"], "every history of queries on one or several fonts, nested in callbacks, with answers kept, changed by their owner and asked for again",
 "Tests look at each answer once, right after asking; shared scratch memory, memoized answers and data modified in place only show when older answers are looked at after other queries.",
 ["font.go","glyph.go","words.go","mapping_cache.go","settings_cache.go","mask/rasterize.go","mask/encoder.go","rerules/glyph_tester.go","rerules/utf8_tester.go"],
 [("answers that refer to the font's data","font.go"),("memory reused by encoder and rasterizer","mask/encoder.go, mask/rasterize.go"),("entries reused by the mapping cache","mapping_cache.go")],
 [("font data","the uncompressed content that all answers come from","internal/font.go")], ["all read accessors, images, exported bytes, Font.Data"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
