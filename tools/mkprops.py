#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The list below is the single source of the property texts.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Exported fonts parse back to the same font",
  "Any font the builder builds can be exported and parsed back, and the parsed font is indistinguishable from the built one: same raw size, same answer from every accessor of every section, and a second export of either one carries the same font data. Parse accepts every file Export produces, whatever reader delivers it, and an Export whose writer fails at any point reports an error.",
  ["inputs", "programs"], "every sequence of accepted builder calls followed by Build, Export and Parse (from memory, from a path, from an fs.FS)",
  "The existing test exports one fixed font; section sizes, empty/maximal sections and their combinations decide the offsets that Build and Parse compute independently.",
  ["builder/font_builder.go", "parse.go", "font.go", "internal/parsing_buffer.go"],
  [("section layout written", "builder.Font.Build"), ("section offsets recomputed", "ggfnt.Parse"), ("signature + gzip stream", "ggfnt.Font.Export")],
  ["ggfnt.Font accessors after Parse"])

p("P02", "Header and metrics read back exactly what was set",
  "For every combination of header strings (name, family, author, about, each up to its documented maximum length, possibly empty where allowed), ID, version, dates and metric values, the built or parsed font's header and metrics accessors return exactly those values, and derived values (line height, vertical full width, monospacing flag) follow from them. This holds for files written by the builder and for files encoded directly from the format specification.",
  ["inputs", "configurations"], "all valid header strings, IDs, versions, dates and metric bytes",
  "Tests use short default strings; the accessors recompute positions from several length bytes, so only long and mixed lengths exercise the arithmetic.",
  ["font.go", "builder/font_builder_props.go", "builder/font_builder.go"],
  [("header string offsets", "FontHeader.Family/Author/About"), ("metric byte offsets", "FontMetrics accessors"), ("encoding", "builder.Font.Build header and metrics")])

p("P03", "Glyphs keep their masks, placements and names",
  "In any built or parsed font, glyph i is the i-th glyph added: its advance and placement are the ones set (vertical fields present only with vertical layout), its rasterized mask shows exactly the non-transparent pixels of the added mask, and looking up a name returns the glyph carrying it or the missing-glyph index when no glyph does. Counts of glyphs and named glyphs match what was added.",
  ["inputs", "configurations"], "all numbers of glyphs, masks, placements and sets of valid names, with and without vertical layout; lookups of present and absent names",
  "Tests name no glyphs and read back one mask; name lookup is a binary search whose comparison only goes wrong for particular name sets.",
  ["font.go", "builder/font_builder.go", "builder/font_builder_props.go", "mask/encoder.go", "mask/rasterize.go"],
  [("name binary search", "FontGlyphs.FindIndexByName"), ("mask offsets", "FontGlyphs.RasterizeMask"), ("placement decoding", "FontGlyphs.Placement/Advance")])

p("P04", "Dyes and palettes read back exactly",
  "For every set of dyes and palettes within the 255 color limit, the font lists them in the order added with their names, alphas and colors, per-section counts and totals agree, and the Go color palette is transparent followed by all dye alphas then all palette colors. A font built without any color section gets exactly one dye named main with alpha 255, and the builder's own per-section listings report the same alphas and colors, reporting an error only for sections that do not exist.",
  ["inputs", "configurations"], "all lists of dyes and palettes (names, alphas, colors) within the limits",
  "Tests use at most the default dye; cumulative end indices and name offsets only matter with several sections.",
  ["font.go", "builder/font_builder_color.go", "builder/font_builder.go", "parse.go"],
  [("section tables", "FontColor.EachDye/EachPalette/EachDyeAlpha/EachPaletteColor"), ("builder listings", "builder.Font.EachDyeAlpha/EachPaletteColor")])

p("P05", "Settings keep their names, options and option names",
  "For every list of settings with valid names and option words (custom words, predefined words, shared words, any mixture), each setting of the built or parsed font keeps its key, name, number of options, and every option's exact name in order. Building the same builder state twice gives fonts with identical settings data.",
  ["inputs", "configurations"], "all lists of settings and option words accepted by the builder or encodable in the format, including many words and words colliding with predefined ones",
  "Tests never read option names back; the word table merges custom and predefined words, and Go map iteration order varies from run to run.",
  ["builder/font_builder_settings.go", "builder/font_builder.go", "font.go", "words.go"],
  [("word table organisation", "builder.organizeWords"), ("word encoding", "builder.Font.Build settings"), ("option lookup", "FontSettings.GetOptionName/GetWord")])

p("P06", "Code points map to the glyphs they were mapped to",
  "For every mapping table (single glyphs, glyph groups encoded as lists or ranges, switches over settings) and every settings assignment, looking up a code point yields exactly the glyph group mapped for the selected switch case: its size, animation flags, case and every selectable glyph; unmapped code points are reported as not found. The cached, uncached and ASCII lookups agree, and switch cases enumerate option combinations with the last setting varying fastest.",
  ["inputs", "configurations"], "all mapping tables over any code points, all switches over settings, all settings assignments",
  "Tests look up single-glyph mappings; group selection, range skipping and mixed-radix switch evaluation depend on group shapes and settings values.",
  ["font.go", "builder/font_builder_mapping.go", "builder/font_builder.go"],
  [("code point binary search and case skipping", "FontMapping.Utf8/Utf8WithCache"), ("case evaluation", "FontMapping.EvaluateSwitch"), ("selection", "GlyphMappingGroup.Select"), ("group encoding", "builder mappingGroup.AppendTo")])

p("P07", "Kerning lookups return exactly the defined pairs",
  "For every set of horizontal and vertical kerning pairs, looking up a pair returns its value if defined and zero otherwise, pair order matters, horizontal and vertical tables are independent, and pair counts match. Setting a pair to zero in the builder removes it and setting it again replaces it.",
  ["inputs", "histories"], "all sets of glyph pairs and values and all sequences of kerning updates; lookups of present and absent pairs",
  "No test reads kerning; binary search over packed pairs and the value table offset only fail for some sizes and keys.",
  ["font.go", "builder/font_builder.go", "builder/font_builder_props.go"],
  [("pair search", "FontKerning.Get/GetVert"), ("pair encoding", "builder.Font.Build kernings")])

p("P08", "Rewrite rules and sets read back exactly",
  "For every collection of rewrite conditions, rune sets, glyph sets, utf8 rules and glyph rules, a built or parsed font reports the same counts, each set reports exactly its ranges and list elements in order, and each rule reports its condition, block lengths and complete output sequence and carries exactly its input elements (glyphs, runes and sets, in order); rule equality holds exactly for identical rules.",
  ["inputs", "configurations"], "all sets and rules encodable in the format, and all those the builder can create, up to the size limits",
  "Tests decode rules only inside the tester internals; the public accessors walk variable-length records whose strides differ for runes and glyphs.",
  ["font.go", "builder/font_builder_rewrite_rules.go", "builder/font_builder_rewrite_sets.go", "builder/font_builder.go"],
  [("record walking", "GlyphRewriteRule/Utf8RewriteRule.EachOut, GlyphRewriteSet/Utf8RewriteSet.EachRange/EachList*"), ("rule encoding", "glyphRewriteRule/utf8RewriteRule.AppendTo")])

p("P09", "Parsing any input terminates with a font or an error",
  "For any byte stream, Parse returns without panicking, either with an error or with a font, and the outcome depends only on the bytes and not on how the reader splits them. A font accepted from any input exports and parses back to the same data, and data beyond the 32MiB limit is rejected without buffering unboundedly more. Parsing from a file system or a path gives the same result as parsing the bytes, refuses files above the size limit and leaves no file open, whatever fails.",
  ["inputs", "fault_sequences"], "arbitrary bytes, structure-aware mutations of valid fonts, and readers that return short reads or data together with EOF",
  "Tests parse one well-formed in-memory buffer; hostile length fields and short reads never occur in them.",
  ["parse.go", "internal/parsing_buffer.go", "font.go"],
  [("length checks", "ggfnt.Parse"), ("incremental buffering", "internal.ParsingBuffer.readMore/readUpTo"), ("size limit", "MaxFontDataSize")])

p("P10", "Damaged font files are rejected",
  "Cutting a valid font file short at any point, appending font data beyond its end, changing any byte protected by the signature or the stream checksum, or an I/O error while reading must make Parse return an error rather than a font. The same holds for damage to the uncompressed data that makes it shorter or longer than the sections declare.",
  ["fault_sequences", "inputs"], "every truncation point, extra data length, corrupted byte and read failure point of every valid font",
  "Tests never parse damaged files; each section's reads have their own error handling, so every cut position must be tried.",
  ["parse.go", "internal/parsing_buffer.go"],
  [("premature end detection", "internal.ParsingBuffer.readUpTo"), ("end of file check", "internal.ParsingBuffer.EnsureEOF"), ("read error propagation", "ggfnt.Parse")])

p("P11", "Mask encoding loses no pixel",
  "Encoding any alpha mask as raster operations and rasterizing the result reproduces exactly the mask's non-zero pixels with their values and positions, cropped to their bounding rectangle, and an empty mask encodes to an empty result. The bounding rectangle computation returns the smallest rectangle containing all non-zero pixels.",
  ["inputs"], "all masks of moderate size with any alpha values, any origin, any pattern (runs, diagonals, isolated pixels, several values); reusing one encoder for many masks",
  "Tests check a dozen hand-drawn masks; the encoder picks between draw modes depending on neighbouring pixels, so patterns matter.",
  ["mask/encoder.go", "mask/encoder_helper_funcs.go", "mask/rasterize.go", "mask/raster_fragment.go", "mask/compute_rect.go"],
  [("fragment selection and encoding", "mask.Encoder.AppendRasterOps"), ("interpretation", "mask.Rasterize"), ("cropping", "mask.ComputeRect")])

p("P12", "Raster operations draw what the format specifies",
  "Rasterizing any sequence of raster operations either draws exactly the pixels the format specification assigns to those operations (palette index changes, moves, row advances, horizontal, vertical, rectangular and diagonal draws, single pixels) or fails with an error for malformed sequences; it never panics. Truncated operations and forbidden flag combinations are errors.",
  ["inputs"], "all byte sequences interpreted as raster operations, valid and invalid, with bounded drawn size",
  "Tests rasterize a few encoder-produced sequences; the encoder never emits many legal operation combinations and no malformed ones.",
  ["mask/rasterize.go"], [("interpreter", "mask.Rasterize"), ("flag validation", "mask.Rasterize")])

p("P13", "The mapping cache never changes a lookup result",
  "For every history of lookups, settings changes followed by drops, resets and font switches, a mapping cache of any size returns the same group (size, flags, case, glyphs) and found flag as a direct lookup with the current settings. Eviction and refresh never lose, duplicate or mix up code points.",
  ["histories", "configurations"], "all sequences of Get, Set+Drop and Reset, over caches of any capacity and any mapping table",
  "No test uses the cache; wrong results need particular eviction and refresh orders.",
  ["mapping_cache.go", "settings_cache.go", "font.go"],
  [("lookup and eviction", "MappingCache.Get"), ("recency list", "MappingCache.updateMRU"), ("invalidations", "MappingCache.Drop/Reset")],
  state=[("mappingEntries", "cached groups linked in recency order", "mapping_cache.go")])

p("P14", "The settings cache never serves stale values",
  "For every history of setting changes, cached switch cases and cached conditions, the settings cache returns the last value set for each setting, and reports a switch case or condition as cached only if it was stored after the last setting change, with the value stored. Settings start at zero and default switches and conditions are always available.",
  ["histories"], "all sequences of Set, Get, CacheMappingCase, GetMappingCase, CacheRewriteCondition and GetRewriteCondition",
  "No test uses it; staleness is a property of histories.",
  ["settings_cache.go", "internal/helpers.go"],
  [("invalidation", "SettingsCache.Set"), ("flags", "internal.BoolList")])

p("P15", "Rewrite conditions evaluate to their boolean meaning",
  "For every well-formed condition (nested AND and OR groups, setting-setting and setting-constant comparisons with every operator, quick comparisons) and every settings assignment, evaluation returns the boolean value of the expression. The result does not depend on the condition's position among other conditions, and evaluation does not panic on well-formed conditions.",
  ["inputs", "configurations"], "all well-formed condition expressions, all positions in the condition table, all settings values",
  "No test evaluates a condition; the evaluator short-circuits and skips variable-length terms.",
  ["font.go"], [("evaluation", "FontRewrites.EvaluateCondition/evalConditionSubexpr"), ("skipping", "FontRewrites.skipConditionSubexpr")])

p("P16", "Glyph rewriting applies the right rules",
  "For every set of valid glyph rewrite rules (with sets, heads, bodies, tails and conditions) and every glyph sequence, the glyph tester emits the sequence obtained by scanning left to right and replacing the body of the matching rule with its output, keeping everything else in order. Between rules sharing a condition the longest match wins, then the earliest rule; between conditions, the earliest of those winners. Elements already emitted as the tail of a previous match can still serve as head for the next one, but aren't rewritten or emitted again. Rules whose condition isn't satisfied never apply (conditions are evaluated when rules are first compiled and on RefreshConditions), and breaks separate sequences: no match spans them. Every fed glyph is either emitted once or consumed by a rewrite and zilch glyphs never affect rewriting.",
  ["inputs", "programs", "configurations"], "all rule sets within the documented limits and all glyph sequences, split by any breaks",
  "Tests cover a dozen hand-written rule sets; the rules are compiled to a shared decision graph whose merging and splitting only goes wrong for particular overlaps.",
  ["internal/rerules/glyphrule/tester.go", "internal/rerules/glyphrule/decision_tree_compiler.go", "internal/rerules/glyphrule/decision_tree_state.go", "internal/rerules/glyphrule/decision_tree.go", "internal/rerules/glyphrule/rule_scanner.go", "rerules/glyph_tester.go"],
  [("decision graph compilation", "glyphrule.decisionTreeCompiler"), ("matching and rewriting", "glyphrule.Tester.Feed/rewrite"), ("rule decoding", "glyphrule rule scanner")])

p("P17", "Utf8 rewriting applies the right rules",
  "For every set of valid utf8 rewrite rules (with rune sets, heads, bodies, tails and conditions) and every rune sequence, the utf8 tester emits the sequence obtained by scanning left to right and replacing the body of the matching rule with its output, keeping everything else in order. Between rules sharing a condition the longest match wins, then the earliest rule; between conditions, the earliest of those winners. Elements already emitted as the tail of a previous match can still serve as head for the next one, but aren't rewritten or emitted again. Rules whose condition isn't satisfied never apply (conditions are evaluated when rules are first compiled and on RefreshConditions), and breaks separate sequences: no match spans them. Every fed rune is either emitted once or consumed by a rewrite.",
  ["inputs", "programs", "configurations"], "all rule sets within the documented limits and all valid rune sequences, split by any breaks",
  "There are no utf8 tester tests at all.",
  ["internal/rerules/utf8rule/tester.go", "internal/rerules/utf8rule/decision_tree_compiler.go", "internal/rerules/utf8rule/decision_tree_state.go", "internal/rerules/utf8rule/decision_tree.go", "internal/rerules/utf8rule/rule_scanner.go", "rerules/utf8_tester.go"],
  [("decision graph compilation", "utf8rule.decisionTreeCompiler"), ("matching and rewriting", "utf8rule.Tester.Feed/rewrite"), ("rule decoding", "utf8rule rule scanner")])

p("P18", "Malformed rewrite rules are reported, not crashed on",
  "Rules whose bytes are truncated, inconsistent with their declared block lengths, over the limits, or that reference undefined sets or conditions make the rewrite testers return an error from rule addition, resync or sequence start, and never panic. After such an error, removing the bad rules leaves the tester (and all other testers) fully usable.",
  ["inputs", "fault_sequences"], "arbitrary rule bytes and mutations of valid rules, for glyph and utf8 testers, mixed with valid rules",
  "Tests feed a few malformed rules to the scanner only; compile-time errors and recovery from them are never exercised.",
  ["internal/rerules/glyphrule/rule_scanner.go", "internal/rerules/utf8rule/rule_scanner.go", "internal/rerules/glyphrule/decision_tree_compiler.go", "internal/rerules/utf8rule/decision_tree_compiler.go", "internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go"],
  [("block scanning", "rule scanner"), ("shared compiler pool", "decisionTreeCompiler + internal.SingleInstancePool"), ("error propagation", "Tester.Resync/BeginSequence")])

p("P19", "Rewrite testers carry nothing over between uses",
  "For every history of rule additions and removals, condition refreshes, breaks, finished sequences and reported errors, a rewrite tester behaves exactly like a fresh tester holding the same rules in the same order: same emitted sequence, rule count and pending count. Breaks and the end of a sequence flush all pending elements so that the next sequence starts clean.",
  ["histories"], "all sequences of AddRule, RemoveRule, RemoveAllRules, Resync, RefreshConditions, BeginSequence, Feed, Break and FinishSequence allowed by the API, on both testers",
  "Tests use each tester for a single sequence with a fixed rule set.",
  ["internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go", "internal/circular_buffer.go"],
  [("resync on rule change", "Tester.AddRule/RemoveRule/Resync"), ("flush", "Tester.Break/FinishSequence"), ("condition refresh", "Tester.RefreshConditions")],
  state=[("accumulator", "pending elements", "tester.go"), ("unflushedTail", "already emitted tail elements still available as head", "tester.go")])

p("P20", "Every accepted builder state builds a valid font or a clean error",
  "After any sequence of builder calls (accepted or refused), Build either returns an error explaining an inconsistency or a font that passes validation, exports, and parses back; it never panics and never yields a font its own parser rejects. Building changes nothing the builder reports, and building twice yields identical data.",
  ["histories", "programs"], "all sequences of public builder calls with valid and invalid arguments, excluding the documented unimplemented ones",
  "Tests call the builder along two fixed paths; interactions between calls (removing sets, toggling layout, unnamed sections) are never combined.",
  ["builder/font_builder.go", "builder/font_builder_props.go", "builder/font_builder_mapping.go", "builder/font_builder_color.go", "builder/font_builder_settings.go", "builder/font_builder_rewrite_sets.go", "builder/font_builder_rewrite_rules.go", "parse.go"],
  [("encoding", "builder.Font.Build"), ("status checks", "builder.Font.GetMetricsStatus"), ("argument checks", "builder setters and adders")])

p("P21", "Date validity and formatting follow the calendar",
  "For every year, month and day triple, a date is valid exactly when it is a real (proleptic Gregorian) calendar date or has only trailing parts missing (no day, no day and month, or nothing at all), checking never panics, and the text form shows exactly the present parts. The builder accepts exactly the valid dates.",
  ["inputs"], "all 2^32 (year, month, day) triples",
  "One test checks a handful of dates.",
  ["date.go", "builder/font_builder_props.go"], [("validity", "Date.IsValid"), ("formatting", "Date.String"), ("setters", "builder.Font.Set*VerDate")])

p("P22", "Names are accepted exactly when well-formed",
  "Glyph, setting and option names are accepted by the builder exactly when they have 1 to 32 ASCII letters, digits and hyphens, do not start or end with a hyphen and have no two consecutive hyphens (names starting with a digit are left open, except for the predefined words, which are accepted); font strings are accepted exactly when they are valid text without control characters (below U+0020) within their length limits. A refused name changes nothing.",
  ["inputs"], "all strings, including near-misses at every limit",
  "No test passes an invalid name.",
  ["internal/parsing_buffer.go", "builder/font_builder_props.go", "builder/font_builder_settings.go"],
  [("name rule", "internal.ValidateBasicName"), ("string rule", "builder.checkStringValidity")])

p("P23", "Glyph and rune set editing behaves like an ordered set",
  "For every history of creating and removing glyph and rune sets and adding and removing their ranges and elements, listing a set returns exactly the elements added and not removed, in insertion order; removals report whether the element was present; duplicates and unknown identifiers are refused. Sets removed from the builder disappear from built fonts and the remaining ones keep their order and contents.",
  ["histories"], "all sequences of set editing calls on several sets, followed by builds",
  "No test edits rewrite sets.",
  ["builder/font_builder_rewrite_sets.go", "builder/font_builder.go"],
  [("editing", "builder.Font.Add*/Remove*/Each* set methods"), ("encoding", "reGlyphSet.AppendTo")])

p("P24", "Internal containers behave like simple sequences",
  "For every history of operations within their preconditions, the circular buffer behaves like a queue with peeking (contents, order, size, head, tail, peek and confirm results), including across capacity changes in either direction, and the boolean list behaves like a slice of booleans. Sorted insertion, deletion, search and little-endian encoding helpers agree with their plain definitions.",
  ["histories"], "all sequences of push, pop, peek, discard, confirm, clear and capacity changes; all flag list operations and sizes",
  "The one test checks a fixed scenario; wrap-around positions, capacities and peek offsets interact.",
  ["internal/circular_buffer.go", "internal/helpers.go"],
  [("ring indices", "internal.CircularBufferU16"), ("resize relocation", "CircularBufferU16.SetCapacity"), ("bit packing", "internal.BoolList")])

p("P25", "Edition data loads completely or not at all",
  "Parsing any byte stream as edition data never panics; it succeeds exactly for well-formed data matching the current font, and on failure no edition data remains. Kerning classes loaded from edition data determine the values of the pairs using them in subsequent builds, separately for horizontal and vertical pairs, and clearing edition data restores the plain values.",
  ["inputs", "fault_sequences"], "well-formed edition files for generated fonts, their truncations, mutations and mismatches, under any reader",
  "No test parses edition data.",
  ["builder/font_builder.go", "internal/parsing_buffer.go"],
  [("parsing", "builder.Font.ParseEditionData"), ("rollback", "builder.Font.ClearEditionData"), ("class values", "builder.Font.Build kernings")])

p("P26", "Refused builder calls change nothing",
  "Whenever a builder call returns an error, the builder is left exactly as before: every getter answers the same and the next Build gives the same font. Calls with unknown glyph, set, setting or switch identifiers, over-limit sizes or inconsistent lengths are refused with an error (kerning pairs, whose setters report nothing, make Build fail instead).",
  ["histories", "inputs"], "all builder states and all invalid arguments to every adder and setter that reports errors",
  "No test makes a builder call fail.",
  ["builder/font_builder_mapping.go", "builder/font_builder_rewrite_rules.go", "builder/font_builder_rewrite_sets.go", "builder/font_builder_color.go", "builder/font_builder_settings.go", "builder/font_builder_props.go"],
  [("argument validation", "builder adders and setters")])

p("P27", "Built fonts and builders do not share mutable state with callers",
  "A font never changes after being built or parsed: later builder calls, changes to slices or masks the caller passed in, and lookups through any accessor leave all its answers unchanged. Slices passed to builder calls may be reused or modified by the caller without affecting the builder.",
  ["histories"], "all interleavings of builder calls, builds, caller-side modification of passed slices, and font reads",
  "Tests never modify arguments after passing them nor keep fonts across builder calls.",
  ["builder/font_builder.go", "builder/font_builder_mapping.go", "builder/font_builder_rewrite_rules.go", "builder/font_builder_settings.go", "builder/font_builder_color.go"],
  [("argument copies", "builder adders"), ("fresh data per build", "builder.Font.Build")])

p("P28", "Fonts can be read from many goroutines at once",
  "Concurrent use of one font from many goroutines (accessors, lookups, rasterization, exports, and separate rewrite testers, settings caches and mapping caches per goroutine) and concurrent parsing give each goroutine the results it would get alone, with no data race. Rule compilation in separate testers never interferes.",
  ["schedules", "programs"], "all interleavings of read operations and of separate testers compiling rules concurrently",
  "Tests are single-threaded; the testers share global compiler pools.",
  ["font.go", "internal/single_instance_pool.go", "internal/rerules/glyphrule/decision_tree_compiler.go", "internal/rerules/utf8rule/decision_tree_compiler.go", "mask/rasterize.go"],
  [("read-only font", "ggfnt.Font"), ("pooled compilers", "internal.SingleInstancePool")])

p("P29", "Parse refuses fonts that break a declared limit, and accepts those at it",
  "A font file whose header, metrics or declared counts and sizes break a basic limit of the format is refused by Parse, even if everything else about it is consistent: another format version, an ID without entropy, an empty font name, no glyphs, a vertical layout flag other than 0 and 1, zero ascent, extra ascent above the ascent, vertical interspacing without vertical layout, more than 255 color indices, color sections with fewer colors or name bytes than sections, more named glyphs than glyphs, names, words or setting names taking over 32 bytes each, empty words or setting names, settings without options, switches without settings or with more settings than the font has, more than 254 switches, glyphs without placement, mappings, conditions, sets and rules below their minimum size, rules above their maximum size, more kerning pairs than pairs of glyphs. A font exactly at any of these limits is accepted with its data unchanged.",
  ["inputs"], "every font with one part at or beyond one of the limits, for every number of elements",
  "Tests parse one well-formed font; each limit needs a font that is consistent in everything else.",
  ["parse.go", "font.go"],
  [("count and size checks", "ggfnt.Parse"), ("basic validation", "Font{Header,Metrics,Color,Glyphs}.Validate")])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
