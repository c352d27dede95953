#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that the long lines stay editable).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Parsing arbitrary bytes never crashes and never yields a broken font",
 "Parsing any byte stream terminates and either returns an error or returns a font; it never panics, indexes out of range or hangs, whatever the (decompressed) bytes are. If a font is returned, its header, metrics and all its sections lie inside the data and their accessors work; an accessor that runs into inconsistent inner offsets panics with a plain Go panic at most, and no accessor ever reads memory outside of the font data.",
 ["inputs"],"every byte string accepted as the content of a .ggfnt stream (within the stated per-section bounds)",
 "The suite parses exactly one font produced by the builder; no malformed, truncated or adversarial stream is ever tried, and no finite set of streams covers the length/offset arithmetic at its extremes.",
 ["parse.go","internal/parsing_buffer.go","font.go"],
 [("Parser and per-section checks","parse.go"),("ParsingBuffer bounds and EOF handling","internal/parsing_buffer.go")],
 ["ggfnt.Parse","ggfnt.Font accessors"])
p("C02","A built font survives export and parsing unchanged",
 "For every font that the builder agrees to build, exporting it and parsing the result succeeds, and the parsed font is identical to the built one: same data, and every accessor returns the same values.",
 ["inputs","programs"],"every sequence of builder calls (glyphs, masks, names, colors, settings, mappings, kerning, rewrite sets and rules, metadata) that Build accepts, within the stated sizes",
 "One hand-written font is built and parsed in the tests; it has no switches, no rewrite rules, no vertical layout, no kerning and no unusual lengths, while acceptance conditions of the two sides are written independently and have to agree for all values.",
 ["builder/font_builder.go","parse.go","font.go"],
 [("Font.Build / Export","builder/font_builder.go, font.go"),("section parsing","parse.go")],
 ["builder.Font.Build","ggfnt.Font.Export","ggfnt.Parse"])
p("C03","A built font exposes exactly the header and metrics given to the builder",
 "Every header field (id, version dates, name, family, author, about) and every metric set through the builder is returned unmodified by the corresponding accessor of the built font, whatever the lengths and values of the other fields; line height, full vertical line width and monospacing follow from them. The accessors of the builder report the last accepted value of each field; a refused value changes nothing.",
 ["inputs"],"all header strings up to their maximum lengths (255 bytes, 65535 for about), all metric values, all dates",
 "The tests only check one font with short names; offset arithmetic over previous variable-length fields is exercised at one point of a multi-dimensional space.",
 ["font.go","builder/font_builder.go","builder/font_builder_props.go"],
 [("FontHeader / FontMetrics accessors","font.go"),("Font.Build header and metrics emission","builder/font_builder.go")],
 ["FontHeader.*","FontMetrics.*"])
p("C04","Glyph masks round-trip through the mask codec",
 "Encoding any alpha mask to raster operations and rasterizing them again yields the same image: the same bounds as the tight bounding box of the mask and the same value at every pixel, and the computed drawing rect equals those bounds. The result does not depend on what the encoder encoded before, nor on data already present in the destination slice.",
 ["inputs","histories"],"every alpha image (any origin, stride, pixel values) within the stated dimensions, after any previous encodings",
 "Tests check about twenty fixed images and random images of one shape; the encoder picks among many operations depending on the neighbourhood of each pixel, so a wrong fragment only shows up for specific pixel layouts and positions.",
 ["mask/encoder.go","mask/encoder_helper_funcs.go","mask/raster_fragment.go","mask/rasterize.go"],
 [("Encoder.AppendRasterOps","mask/encoder.go"),("Rasterize, ComputeRasterOpsRect","mask/rasterize.go")],
 ["mask.Encoder.AppendRasterOps","mask.Rasterize"])
p("C05","The rasterizer is total and draws what the format specification says",
 "Rasterizing any byte string terminates without panicking. A well-formed sequence of raster operations yields exactly the pixels and the rect that the specification prescribes for it, and a truncated or malformed one yields an error.",
 ["inputs"],"every byte string up to the stated length",
 "Tests rasterize a handful of fixed sequences and random mask encodings; malformed sequences and most control-flag combinations are never tried.",
 ["mask/rasterize.go"],
 [("Rasterize / computeRasterOpsRect","mask/rasterize.go")],
 ["mask.Rasterize"])
p("C06","Mask bounding boxes are exact",
 "The rect computed for an alpha mask is the smallest rect containing every non-zero pixel, and it is empty when there is none, for any bounds origin, stride and sub-image.",
 ["inputs"],"every alpha image within the stated dimensions, including sub-images sharing a larger buffer",
 "The test checks a few fixed images with origin (0,0) and a packed buffer.",
 ["mask/compute_rect.go"],
 [("ComputeRect","mask/compute_rect.go")],["mask.ComputeRect"])
p("C07","Colors: dyes and palettes are exposed exactly as defined",
 "For any dyes and palettes, iterating the color sections yields each dye and palette in order with its name and key, the per-index colors and alphas are the ones defined, index ranges of different dyes and palettes are disjoint, and conversion to a color palette gives index 0 transparent followed by the alphas of the dyes and the colors of the palettes in order.",
 ["inputs"],"any number of dyes/palettes and entries within the stated sizes, any names and values",
 "Tests only use fonts with the single default dye.",
 ["font.go","builder/font_builder_color.go"],
 [("FontColor accessors","font.go"),("color emission","builder/font_builder.go")],["FontColor.*"])
p("C08","Named glyphs are found, and only they",
 "Looking a glyph up by name returns the index of the glyph that was given that name, and the missing-glyph marker for every name that no glyph has; iterating named glyphs yields every (name, index) pair exactly once.",
 ["inputs"],"any set of distinct names within the stated sizes, and any looked-up string",
 "Only 'notdef' is ever looked up in the tests; correctness of an ordered search depends on the relation between all the names.",
 ["font.go","internal/helpers.go","builder/font_builder.go"],
 [("FontGlyphs.FindIndexByName","font.go"),("name ordering comparison","font.go, internal")],["FontGlyphs.FindIndexByName"])
p("C09","Settings and their words are exposed exactly as defined",
 "For any settings defined through the builder, the built font lists the same setting names with the same option words in the same order, for every mix of predefined, custom and repeated words, and the word accessors never read outside of the words section.",
 ["inputs"],"any settings, option counts and words within the stated sizes",
 "The tests never define a setting through the builder with custom words.",
 ["font.go","words.go","builder/font_builder_settings.go"],
 [("FontSettings accessors, GetWord","font.go, words.go"),("organizeWords / setting emission","builder")],["FontSettings.*"])
p("C10","Code point mapping resolves to the mapped glyphs under every configuration",
 "For every font built with simple mappings and switch mappings, looking up a code point returns the glyph group mapped for the switch case selected by the current settings, with the right size, animation flags and glyphs at each position; code points that were not mapped are reported as not found.",
 ["inputs","configurations"],"any set of mapped code points, groups of 1..N glyphs, switches over any settings, and any settings values, within the stated sizes",
 "The tests map ASCII letters one to one; no groups, ranges, animation flags or switches appear in them.",
 ["font.go","glyph.go","builder/font_builder_mapping.go"],
 [("FontMapping.Utf8, EvaluateSwitch, GlyphMappingGroup.Select","font.go, glyph.go"),("mapping emission","builder/font_builder_mapping.go")],["FontMapping.Utf8","GlyphMappingGroup.Select"])
p("C11","Cached mapping lookups always agree with uncached ones",
 "After any sequence of lookups, cache updates, drops and case invalidations on a mapping cache of any capacity, every answer taken from the cache is the answer the uncached lookup would give, the cache never exceeds its capacity and never loses track of entries.",
 ["histories","inputs"],"every sequence of cache operations up to the stated length for every capacity in the stated range, any code points",
 "There is no test of the mapping cache at all; LRU bookkeeping is history dependent.",
 ["mapping_cache.go","font.go"],
 [("MappingCache linked list and eviction","mapping_cache.go")],["MappingCache.Get","FontMapping.Utf8WithCache"])
p("C12","The settings cache never serves stale values",
 "Reading a setting returns the last value set for it (initially zero), and a cached mapping case or rewrite condition result is only served while no setting it could depend on has changed since it was cached.",
 ["histories"],"every sequence of set, get, cache and query operations up to the stated length over any indices",
 "There is no test of the settings cache.",
 ["settings_cache.go","internal/helpers.go"],
 [("SettingsCache flags","settings_cache.go")],["SettingsCache.*"])
p("C13","Rewrite conditions evaluate to what the specification says",
 "Evaluating a rewrite condition over any settings gives the boolean value that the format specification assigns to its encoding (comparisons, quick comparisons, and/or groups, nesting), and evaluating is total over well-formed conditions and leaves the settings unchanged.",
 ["inputs","configurations","programs"],"every condition expression up to the stated size, any settings values, any condition index",
 "No test evaluates any condition.",
 ["font.go"],
 [("FontRewrites.EvaluateCondition","font.go")],["FontRewrites.EvaluateCondition"])
p("C14","Rewrite sets and rules are exposed exactly as defined",
 "For any glyph/utf8 rewrite sets and rules given to the builder, the built font exposes the same sets (ranges and list elements, in order) and the same rules (condition, head, body and tail elements, output sequence), for every index.",
 ["inputs"],"any sets and rules within the stated sizes",
 "The tests never read a set or a rule output back through the font.",
 ["font.go","builder/font_builder_rewrite_sets.go","builder/font_builder_rewrite_rules.go"],
 [("GlyphRewriteSet/Utf8RewriteSet/GlyphRewriteRule/Utf8RewriteRule","font.go")],["FontRewrites.*"])
p("C15","Rule scanning accepts exactly the well-formed rules and never crashes",
 "Scanning any byte string as a rewrite rule never panics: it reports an error if and only if the rule is malformed, and otherwise yields exactly the head, body and tail elements encoded in it, in order and with the right kind and block.",
 ["inputs"],"every byte string up to the stated length, for glyph rules and utf8 rules",
 "Tests scan around twenty fixed rules; scanners walk untrusted font data with nested counts.",
 ["internal/rerules/glyphrule/rule_scanner.go","internal/rerules/utf8rule/rule_scanner.go"],
 [("RuleScanner.Start / advance","internal/rerules/*/rule_scanner.go")],["RuleScanner"])
p("C16","Decision tree states stay a partition: matching is exact",
 "Adding any element range to any decision tree state keeps its transitions sorted and non-overlapping, covering exactly the union of the old ranges and the new one, so that following any input finds precisely the transition of the range that contains it.",
 ["inputs","histories"],"every valid state up to the stated number of transitions and every range to be added; single inductive step",
 "Tests compile about ten fixed rule lists; range splitting has nine overlap cases that depend on relative positions of the limits.",
 ["internal/rerules/glyphrule/decision_tree_state.go","internal/rerules/glyphrule/decision_tree_transition.go","internal/rerules/utf8rule/decision_tree_state.go"],
 [("State.AppendRange / findTransition","internal/rerules/*/decision_tree_state.go")],["State","DecisionTree"])
p("C17","Glyph rewriting produces the stream the rules prescribe",
 "Feeding any glyph sequence through the glyph rewrite tester outputs the sequence in which, scanning left to right, the longest match (the first rule added on ties) has its body replaced by the output of the rule while its head and tail are kept, with the tail available again only as head of later matches, and all other glyphs are kept: nothing is lost, duplicated or reordered. The result does not depend on earlier sequences or on rules added and removed meanwhile, and rules whose condition does not hold do not apply.",
 ["inputs","histories","programs"],"any rules of the stated shapes with symbolic glyph limits, any input stream up to the stated length, repeated sequences, added/removed rules",
 "Tests feed a few fixed streams against a few fixed rules.",
 ["internal/rerules/glyphrule/tester.go","internal/rerules/glyphrule/decision_tree_compiler.go","rerules/glyph_tester.go"],
 [("Tester Feed/Break/FinishSequence","internal/rerules/glyphrule/tester.go"),("DecisionTreeCompiler","internal/rerules/glyphrule/decision_tree_compiler.go")],["rerules.GlyphTester"])
p("C18","Utf8 rewriting produces the stream the rules prescribe",
 "Feeding any code point sequence through the utf8 rewrite tester outputs the sequence in which, scanning left to right, the longest match (the first rule added on ties) has its body replaced by the output of the rule while its head and tail are kept, with the tail available again only as head of later matches, and all other code points are kept: nothing is lost, duplicated or reordered. The result does not depend on earlier sequences or on rules added and removed meanwhile, and rules whose condition does not hold do not apply.",
 ["inputs","histories","programs"],"any rules of the stated shapes with symbolic code points, any input stream up to the stated length, repeated sequences, added/removed rules",
 "There is no test of utf8 rewriting.",
 ["internal/rerules/utf8rule/tester.go","internal/rerules/utf8rule/decision_tree_compiler.go","rerules/utf8_tester.go"],
 [("Tester Feed/Break/FinishSequence","internal/rerules/utf8rule/tester.go"),("DecisionTreeCompiler","internal/rerules/utf8rule/decision_tree_compiler.go")],["rerules.Utf8Tester"])
p("C19","Kerning lookups return exactly the defined kernings",
 "For any set of horizontal and vertical kerning pairs, looking a pair up returns the value defined for it, pairs without a definition return zero, and horizontal and vertical kernings do not affect each other.",
 ["inputs"],"any set of distinct pairs within the stated sizes, any looked-up pair",
 "The tests never define a kerning pair.",
 ["font.go","builder/font_builder.go"],
 [("FontKerning.Get / GetVert","font.go"),("kerning emission","builder/font_builder.go")],["FontKerning.Get"])
p("C20","Dates are validated against the calendar and round-trip",
 "A date is reported valid exactly when it is a real calendar date of the documented range (or one of the documented incomplete forms), checking never panics, and textual and binary forms preserve year, month and day.",
 ["inputs"],"all 2^16 years x 2^8 months x 2^8 days",
 "One test checks leap years for a few dates.",
 ["date.go","builder/font_builder_props.go"],
 [("Date.IsValid","date.go")],["ggfnt.Date"])
p("C21","The bounded queue behind rewriting is FIFO under every operation mix",
 "Any operation (push, pop at either end, peek, clear, resize) applied to any reachable queue state acts on the abstract sequence exactly as documented and keeps the order and values of all other elements, for every capacity, fill level and wrap position.",
 ["histories","inputs"],"every valid queue state up to the stated capacity, every operation and argument; one inductive step, so histories of any length",
 "One test runs a single scripted sequence.",
 ["internal/circular_buffer.go"],
 [("CircularBufferU16","internal/circular_buffer.go")],["CircularBufferU16"])
p("C22","Serialization primitives are exact",
 "Little-endian encode/append/decode functions are mutually inverse for every value and width, decimal digit rendering of bytes is exact, compact boolean lists behave as arrays of independent booleans for every size and index, and in-place slice helpers (grow, shrink, delete, ordered insertion, search) preserve the elements they must.",
 ["inputs"],"every 8/16/24/32/64-bit value, every list size and index within the stated bounds",
 "They are only tested indirectly, on the few values that appear in the sample font.",
 ["internal/helpers.go"],
 [("Encode*/Decode*/Append*, BoolList, slice helpers","internal/helpers.go")],["internal helpers"])
p("C23","Basic names are validated exactly as specified",
 "A basic name is accepted exactly when it is 1 to 32 ASCII letters, digits and hyphens, neither starts nor ends with a hyphen and has no consecutive hyphens. The builder applies this rule to glyph names, setting names and setting option words, and a refused name changes nothing.",
 ["inputs"],"every byte string up to 33 bytes",
 "Validation has no test; only valid names occur.",
 ["internal/helpers.go","builder/font_builder.go","builder/font_builder_settings.go"],
 [("ValidateBasicName","internal/helpers.go")],["builder name setters"])
p("C24","Metrics and glyph acceptance: what builds is what parses",
 "The builder accepts a combination of metrics exactly when the ascent is not zero, the extra ascent is smaller than the ascent, the midline is not above the uppercase ascent and neither is above the ascent, and vertical fields are only used with vertical layout; Build agrees with GetMetricsStatus. The parser accepts exactly the metrics that the specification allows, and every combination that the builder accepts.",
 ["inputs"],"all combinations of metric values and the vertical layout and monospacing flags",
 "One combination is tested.",
 ["builder/font_builder_props.go","builder/font_builder.go","font.go"],
 [("GetMetricsStatus","builder/font_builder_props.go"),("FontMetrics.Validate","font.go")],["builder.Font.GetMetricsStatus","FontMetrics.Validate"])
p("C25","Builder edits affect exactly what they name",
 "Adding, replacing and removing glyphs, names, sets, dyes, palettes, mappings and rules in the builder changes exactly the named item: later queries and builds see every other item unchanged, deleted items are gone, and no sequence of accepted edits makes a later build panic.",
 ["histories","inputs"],"every sequence of edits up to the stated length with any values",
 "The tests perform one straight-line construction without any replacement or removal.",
 ["builder/font_builder.go","builder/font_builder_color.go","builder/font_builder_rewrite_sets.go","builder/font_builder_rewrite_rules.go","builder/font_builder_mapping.go"],
 [("builder mutators","builder/*.go")],["builder.Font"])
p("C26","Parsing depends only on the bytes, not on how the stream delivers them",
 "For a given content, the outcome of parsing is the same however the underlying reader splits it into chunks and wherever it reports end of file; content that ends early or has trailing data after the last section is rejected, and read errors are reported.",
 ["inputs","fault_sequences","schedules"],"every split of the stream into reads and every point of failure, within the stated number of bytes",
 "The test reads one in-memory buffer, delivered in whatever chunks the decompressor happens to use.",
 ["internal/parsing_buffer.go","parse.go"],
 [("ParsingBuffer refill / EnsureEOF","internal/parsing_buffer.go")],["ggfnt.Parse"])
p("C27","Glyphs keep their index, mask and placement",
 "A glyph is accepted exactly when all the ink of its mask lies within ascent plus extra ascent, descent plus extra descent and, in monospaced fonts, the mono width. Glyphs get consecutive indices in the order of addition, and a built font returns for each index the pixels and the placement of that glyph: the placement set by the caller, or by default the mask width (up to 255) as advance, and with vertical layout the ascent, descent and half width at the time of addition; without vertical layout the vertical fields are zero. Indices that are not in the font are refused, never answered with data of something else.",
 ["inputs","histories"],"any masks up to the stated size with any pixels and bounds, any metrics and placements, any glyph index",
 "The tests add a few glyphs inside the limits and ask for those only.",
 ["builder/font_builder.go","font.go"],
 [("AddGlyph / SetGlyphPlacement","builder/font_builder.go"),("FontGlyphs.Placement / Advance / RasterizeMask","font.go")],["builder.Font.AddGlyph","FontGlyphs"])
p("C28","Edition data is read as specified and bad data leaves no trace",
 "ParseEditionData accepts exactly well-formed edition data of this font: of its ID, with valid names and kerning pairs of existing glyphs and classes. After accepting, builds contain the kernings of the classes; after refusing, or after ClearEditionData, the builder behaves and builds as before. No content and no read fault makes it panic.",
 ["inputs","fault_sequences"],"any edition data of the stated shapes with symbolic fields, repeated parsing, truncated and corrupted streams",
 "There is no test of edition data.",
 ["builder/font_builder.go"],
 [("ParseEditionData","builder/font_builder.go")],["builder.Font.ParseEditionData"])
p("C29","Compiled decision trees decide exactly the rules fed to them",
 "After compiling any rewrite rules into a decision tree, walking its states with any sequence tells after each element the first fed rule whose input is the sequence so far, goes on exactly while the sequence begins the input of a longer rule, and admits a head length exactly when such a rule has it. Rules that exceed the limits of the compiler are refused with an error, never compiled wrong, and a compiler and its buffer can be used again without any effect of what they compiled before.",
 ["inputs","histories","programs"],"any rules of the stated shapes (single values and overlapping sets), any input sequence; compilers used before",
 "Tests compile about ten fixed rule lists and follow a few inputs; states are shared, split, freed and reused depending on how the sets of different rules overlap.",
 ["internal/rerules/glyphrule/decision_tree_compiler.go","internal/rerules/utf8rule/decision_tree_compiler.go","internal/rerules/glyphrule/decision_tree_state.go","internal/rerules/utf8rule/decision_tree_state.go"],
 [("DecisionTreeCompiler.Feed","internal/rerules/*/decision_tree_compiler.go"),("State","internal/rerules/*/decision_tree_state.go")],["DecisionTreeCompiler","State"])
p("C30","Switches, mappings and sets are accepted exactly when the format can hold them",
 "A switch is granted exactly for 1 to 255 distinct defined settings of at most 254 cases in total (254 switches at most); a code point from space on is mapped exactly to one defined glyph, to a group of 2 to 127, or to as many groups (of 1 to 127) and animation flags as the switch has cases; glyph and rune sets build exactly when their total size fits the 65535 bytes that the format can address. What is accepted works as requested; what is refused leaves the font as it was.",
 ["inputs","configurations"],"any list of setting keys over several setting tables; any code point, switch and list sizes, valid or not",
 "The existing tests only make valid requests; each limit is a product or a sum over lists, with encodings that wrap around when it is exceeded.",
 ["builder/font_builder_mapping.go","builder/font_builder.go","builder/font_builder_rewrite_sets.go"],
 [("Font.AddSwitch","builder/font_builder_mapping.go"),("Font.MapWithSwitch","builder/font_builder_mapping.go"),("Font.Build","builder/font_builder.go")],["Font"])
p("C31","Identifiers stay unique and acceptable whatever the random source yields",
 "Whatever numbers the system's random source yields (repeats of earlier ones included), the identifiers of glyphs, glyph sets and rune sets of a builder are distinct, are never that of the missing glyph, and keep naming the glyph or set they were given for, or an error is returned; the identifier of a new font is the one that the builder tells and is accepted by the font's own validation.",
 ["inputs","configurations"],"every outcome of the random source",
 "Collisions never occur in a test run.",
 ["builder/font_builder_props.go","builder/font_builder_rewrite_sets.go","builder/font_builder.go","internal/helpers.go"],
 [("Font.AddGlyph","builder/font_builder_props.go"),("Font.CreateGlyphSet","builder/font_builder_rewrite_sets.go"),("Font.CreateRuneSet","builder/font_builder_rewrite_sets.go"),("New","builder/font_builder.go")],["Font","LazyEntropyUint64"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,x["id"]
