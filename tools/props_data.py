PB = "property-based testing: choice-sequence generators with shrinking, "
prop("C01", "Regular operations compute the textbook weighted relation",
 "Union, concatenation, star, plus, optional, bounded repetition, reversal, inversion and projection, applied in any nesting on any back end, yield exactly the weighted relation the mathematical definition gives for the operands. Unknown and identity symbols in the result range over the symbols none of the operands knows. Argument transducers passed by const reference are not changed in meaning.",
 "all transducers (weighted, cyclic, with epsilon, unknown, identity, flag-diacritic and multicharacter symbols), all nestings of the operations, all four algebra back ends",
 "The unit tests apply each operation to two or three fixed literal transducers; nested results, cyclic operands with epsilons and weights on final states, and unknown symbols in combination are never reached.",
 [L+"HfstTransducer.cc", L+"HfstApply.cc", L+"implementations/TropicalWeightTransducer.cc", L+"implementations/LogWeightTransducer.cc", L+"implementations/SfstTransducer.cc", L+"implementations/FomaTransducer.cc"],
 [("apply() dispatch to the back ends, harmonization of binary operands", L+"HfstApply.cc"), ("operation wrappers", L+"HfstTransducer.cc")],
 PB + "expression trees over generated transducers, oracle: naive reference model of weighted relations",
 "bounded: operands up to 5 states, words compared up to length 4-5 within a budget")
prop("C02", "Intersection and difference on every back end",
 "Intersecting or subtracting transducers yields exactly the paths (as sequences of symbol pairs, with summed or kept weights) that are in both, respectively in the first only, and the usual Boolean laws hold between results. Unknown and identity symbols stand for every symbol the operand does not know, so operands with different alphabets are handled as if over their joint alphabet. Operations restricted to automata refuse transducers that are not automata.",
 "all operand pairs, including different alphabets, on every back end that implements the operation",
 "Tests use a fixed handful of small acceptors over a shared alphabet; alphabets that differ, identity arcs and weighted operands are not enumerated.",
 [L+"HfstTransducer.cc", L+"HfstApply.cc", L+"HarmonizeUnknownAndIdentitySymbols.cc"],
 [("intersect/subtract wrappers with automatic harmonization", L+"HfstTransducer.cc"), ("unknown/identity expansion", L+"HarmonizeUnknownAndIdentitySymbols.cc")],
 PB + "oracle: subset-construction reference model and algebraic laws",
 "bounded: operands up to 5 states, pair strings compared up to length 4")
prop("C03", "Composition family computes relational composition",
 "Composition, composition with an intersection of rules, cross product, shuffle, priority union and lenient composition yield exactly the weighted relation their definition gives. Composing with a list of two-level rules equals composing with the intersection of the rules, in the normal and the inverted direction. Operations that need automata refuse other transducers.",
 "all operand pairs, rule lists, alphabets and back ends",
 "Tests compose small fixed lexica with fixed rules; epsilon interleavings, alphabets that differ and rule lists of size 0 or 1 are not covered.",
 [L+"HfstTransducer.cc", L+"implementations/compose_intersect/"],
 [("compose, priority_union, lenient_composition, cross_product, shuffle", L+"HfstTransducer.cc"), ("compose_intersect", L+"implementations/compose_intersect/ComposeIntersectLexicon.cc")],
 PB + "oracle: naive reference model of relation composition",
 "bounded: operands up to 4 states, words compared up to length 4")
prop("C04", "Normalising transformations keep the weighted relation",
 "Determinization, minimization, epsilon removal, lookup optimization, weight pushing and pruning never change the weighted relation of a transducer. Determinized and minimized results are deterministic over symbol pairs, a minimized result has the least number of states, and a pruned result has no useless states. Pushing weights leaves all the weight at the requested end.",
 "all transducers whose weights allow determinization, all back ends",
 "The equality before and after is a statement about infinitely many words; tests inspect a couple of fixed machines.",
 [L+"HfstTransducer.cc", L+"implementations/TropicalWeightTransducer.cc", L+"implementations/SfstTransducer.cc", L+"implementations/FomaTransducer.cc"],
 [("determinize, minimize, remove_epsilons, prune, push_weights, optimize", L+"HfstTransducer.cc")],
 PB + "oracle: relation before = relation after in the reference model, plus structural invariants",
 "bounded: up to 6 states; determinism and minimality are checked structurally on the whole result")
prop("C05", "Comparison decides equivalence",
 "Comparing two transducers answers true if and only if they accept the same weighted set of symbol-pair paths once their alphabets are harmonized. The answer is symmetric, does not depend on how the transducers were built, and leaves both operands unchanged.",
 "all pairs of transducers of one type, equivalent by construction or differing in one detail",
 "Tests compare identical or grossly different machines; equivalent machines of different shape and near-misses are not sampled.",
 [L+"HfstTransducer.cc", L+"implementations/TropicalWeightTransducer.cc"],
 [("compare", L+"HfstTransducer.cc"), ("are_equivalent", L+"implementations/TropicalWeightTransducer.cc")],
 PB + "pairs made by equivalence-preserving rewriting or one mutation, oracle: reference model equality",
 "bounded: up to 5 states; inequality decided by words up to length 6")
prop("C06", "Conversion between transducer types keeps the relation",
 "Converting a transducer between any sequence of back-end types, including the optimized-lookup formats and the mutable graph, keeps its relation, its weights as long as every type on the way is weighted, its known symbols and the meaning of unknown, identity and flag symbols. State numbers of a mutable graph survive conversion to a back end and back as a renumbering.",
 "all conversion chains over all transducers, from single arcs to lexicons with hundreds of arcs and symbols",
 "Tests convert two or three fixed machines along a few fixed chains.",
 [L+"implementations/ConvertTransducerFormat.cc", L+"implementations/ConvertOlTransducer.cc", L+"implementations/ConvertTropicalWeightTransducer.cc", L+"implementations/ConvertSfstTransducer.cc", L+"implementations/ConvertFomaTransducer.cc", L+"implementations/ConvertLogWeightTransducer.cc", L+"implementations/optimized-lookup/convert.cc"],
 [("conversion functions", L+"implementations/ConvertTransducerFormat.cc"), ("index/transition table packing", L+"implementations/optimized-lookup/convert.cc")],
 PB + "random conversion chains, oracle: relation, alphabet and weights equal those of the source",
 "bounded: small random transducers and lexicons up to 120 words over up to 200 symbols", over=("inputs", "histories"))
prop("C07", "Binary streams return what was written",
 "Any sequence of transducers of one type written to a binary stream (to a file or a C++ stream, with or without the HFST header) is read back as the same sequence: same number, order, type, relation, weights, alphabets, names and header properties. Reading past the end reports end of stream, and mixing types is refused.",
 "all sequences of transducers, all types, names and properties",
 "Tests write one or two fixed transducers per type.",
 [L+"HfstInputStream.cc", L+"HfstOutputStream.cc", L+"implementations/optimized-lookup/pmatch.cc", L+"implementations/TropicalWeightTransducer.cc"],
 [("header writing and parsing", L+"HfstInputStream.cc"), ("append_hfst_header_data, operator<<", L+"HfstOutputStream.cc")],
 PB + "model-based write/read histories, oracle: the written list",
 "bounded: up to 6 transducers per stream, lexicons up to 120 words", over=("inputs", "histories"))
prop("C08", "AT&T and prolog text formats round-trip",
 "A transducer written in AT&T format (to a file, C++ stream or memory buffer, by symbol or number, with or without weights) or in prolog format and read back accepts the same weighted relation, apart from weight rounding the format states. Several transducers in one text are separated correctly, and special characters in symbols survive.",
 "all transducers whose symbols the format can represent, all text lengths",
 "Tests read and write a few short lines with ordinary letters.",
 [L+"implementations/HfstBasicTransducer.cc", L+"implementations/HfstBasicTransducer.h"],
 [("write_in_att_format / read_in_att_format", L+"implementations/HfstBasicTransducer.cc"), ("write_in_prolog_format / read_in_prolog_format", L+"implementations/HfstBasicTransducer.cc")],
 PB + "round trips, oracle: the written transducer's relation in the reference model",
 "bounded: up to 5 states or lexicons of 120 words; symbols of up to several thousand bytes")
prop("C09", "Lookup gives exactly the outputs related to the input",
 "Looking a string up in an optimized-lookup transducer or a mutable graph returns exactly the outputs the transducer relates to that input, each with its least weight, obeying flag diacritics when asked to. The input is read as the longest known symbols from the left and otherwise as single characters, with unknown and identity arcs matching only symbols the transducer does not know. Inputs with infinitely many analyses are reported as such, limits are respected, and earlier lookups never change later answers or what is stored.",
 "all transducers, all inputs, all histories of lookups mixed with storing, copying, converting and extending the alphabet",
 "Tests look a few words up in a few fixed transducers; tokenization conflicts, flags, unknown symbols, loops and repeated lookups in one object are not combined.",
 [L+"implementations/optimized-lookup/transducer.cc", L+"implementations/optimized-lookup/convert.cc", L+"HfstLookupFlagDiacritics.cc", L+"HfstTransducer.cc", L+"implementations/HfstBasicTransducer.cc"],
 [("Encoder, lookup_fd, get_analyses", L+"implementations/optimized-lookup/transducer.cc"), ("HfstBasicTransducer::lookup", L+"implementations/HfstBasicTransducer.cc")],
 PB + "lookup histories on generated transducers, oracle: direct interpretation of the graph with reference flag semantics",
 "bounded: up to 5 states or lexicons of 120 words, inputs up to about 10 symbols", over=("inputs", "histories"))
prop("C10", "Path extraction lists exactly the accepted paths",
 "Extracting paths from a transducer lists each of its paths with the right weight, nothing else, and all of them when there is no limit; limits on the number of paths and on cycles are respected, and flag diacritics filter paths when asked to. The n best paths are n paths of least weight, and the longest and random paths extracted are paths of the transducer. Asking for all paths of a cyclic transducer is refused.",
 "all transducers, cyclic or not, all limits, all types",
 "Tests extract the paths of a few fixed acyclic transducers; limits, cycles, ambiguity, empty paths and flags in combination are not covered.",
 [L+"HfstTransducer.cc", L+"HfstExtractStrings.cc", L+"implementations/TropicalWeightTransducer.cc", L+"implementations/SfstTransducer.cc", L+"implementations/FomaTransducer.cc", L+"implementations/HfstOlTransducer.cc", L+"implementations/LogWeightTransducer.cc"],
 [("extract_paths, extract_paths_fd, n_best", L+"HfstTransducer.cc"), ("extract_paths recursion of each back end", L+"implementations/TropicalWeightTransducer.cc")],
 PB + "generated transducers and limits, oracle: exhaustive enumeration of the graph's paths",
 "bounded: up to 5 states, up to about 3 passes of a cycle")
prop("C15", "Xerox regular expressions compile to the relation they denote",
 "Compiling a Xerox-style regular expression yields exactly the weighted relation its operators denote, for every nesting, bracketing, spelling, comment and white space, on every back end; '?' stands for any symbol, including those no part mentions. Named definitions, parametrised functions, symbol substitution and files read in an expression mean the same as writing their content in place. Expressions in one text are compiled one after another, and malformed text is refused without affecting later expressions.",
 "all regular expressions over the documented operators (replace rules are a property of their own), all definition histories",
 "Tests compile a list of fixed expressions and compare with other fixed expressions; operator precedence, unknown symbols in nested complements and containment, and definition histories are sampled thinly.",
 [L+"parsers/xre_parse.yy", L+"parsers/xre_lex.ll", L+"parsers/xre_utils.cc", L+"parsers/XreCompiler.cc", L+"HfstXeroxRules.cc"],
 [("grammar actions", L+"parsers/xre_parse.yy"), ("labels, definitions, containment, restriction", L+"parsers/xre_utils.cc"), ("restriction, before, after", L+"HfstXeroxRules.cc")],
 PB + "generated syntax trees rendered to text, oracle: denotation of the tree in the reference model",
 "bounded: trees up to depth 4, words compared up to length 4", over=("inputs", "histories"))
prop("C16", "Replace rules rewrite exactly the parts they describe",
 "A replace rule, obligatory or optional, with mark-up, insertion, deletion, several mappings, several contexts, boundary marks or parallel rules, relates every word to exactly the words got by replacing non-overlapping parts that match a center in its context; an obligatory rule leaves no such part unreplaced. Directed rules replace the parts found by scanning from the stated end and taking the longest or shortest match at each place. Everything else in the word is kept, symbols the rule does not mention included, and left-arrow rules are the inverse of the corresponding right-arrow rules.",
 "all rules over the four arrows and four directions, all words",
 "The existing tests compare a list of fixed rules with fixed results; overlapping matches, adjacent deletions, boundary contexts and unknown symbols interact in ways a list cannot enumerate.",
 [L+"HfstXeroxRules.cc", L+"parsers/xre_parse.yy"],
 [("bracketedReplace, parallelBracketedReplace, the match constraints", L+"HfstXeroxRules.cc")],
 PB + "generated rules, oracle: brute-force enumeration of replacements of every short word",
 "bounded: all input words up to length 4 over three letters, one replacement symbol and one unknown symbol; for contexts on the lower side the obligatory case is checked where its result is determined")

prop("C18", "A lexicon file compiles to exactly the words its entries and classes spell",
 "The compiled lexicon relates an upper to a lower string exactly if a sequence of entries, starting in the root lexicon and following continuation classes to the end mark, spells them, and its weight is the least sum of entry weights over such sequences. Strings are read by longest match over the declared symbols, with escapes and zeros honoured, regular expression entries have their regular expression meaning, and continuing to a lexicon nobody defines leads nowhere. The result does not depend on how the lexicon is split over files, on alignment or flag options, or on what was compiled earlier.",
 "all lexicon files in the grammar, all words",
 "Tests compile a fixed set of small lexicons; classes, weights, escapes, repeated lexicons and expressions meet in combinations a list cannot enumerate.",
 [L+"parsers/LexcCompiler.cc", L+"parsers/lexc-lexer.ll", L+"parsers/lexc-parser.yy", L+"parsers/lexc-utils.cc"],
 [("entry tries, joiners and their composition, expression insertion", L+"parsers/LexcCompiler.cc")],
 PB + "generated lexicon files, oracle: graph of continuation classes in the reference model",
 "bounded: words up to length 5; weights only in lexicons without class cycles; bookkeeping flags are obeyed on the input side")

prop("C13", "Substitution and free insertion change exactly the transitions they name",
 "Substituting a symbol, a pair, several of them at once or by a function rewrites exactly the transitions that carry them and keeps targets, weights and everything else; substituting a transducer for a pair puts a copy of it in the place of each such transition, and free insertion allows it anywhere. Any-symbol transitions are first expanded so that they also stand for the symbols of the other argument. This holds for every transducer type and for the mutable graph.",
 "all transducers, all symbols and pairs, all types",
 "Tests substitute in two or three fixed transducers; simultaneous substitutions that overlap, parallel transitions and any-symbols need generated graphs.",
 [L+"HfstTransducer.cc", L+"implementations/HfstBasicTransducer.cc", L+"implementations/TropicalWeightTransducer.cc", L+"implementations/LogWeightTransducer.cc"],
 [("substitute, insert_freely, remove_transitions", L+"implementations/HfstBasicTransducer.cc")],
 PB + "generated transducers and substitutions, oracle: arc-wise rewriting in the reference model",
 "bounded: pair strings up to length 5; log weights compared as sets of strings")

prop("C14", "Text is split into symbols by longest match and becomes the word it spells",
 "Splitting text with a tokenizer always takes the longest declared symbol at each place and otherwise one character, drops exactly the symbols to be skipped, loses nothing else, and refuses text that is not valid UTF-8. A transducer built from one or two strings is exactly the word or word pair spelled, and a list of strings or pair strings, with its escapes, epsilon name, declared symbols, spacing and weights, compiles to exactly the words and weights listed. Copies of a tokenizer are independent of each other.",
 "all symbol inventories and all texts, valid or not",
 "Tests tokenize a few fixed strings; overlapping symbols, escapes next to symbols, combining characters and malformed bytes combine in too many ways.",
 [L+"HfstTokenizer.cc", L+"HfstStrings2FstTokenizer.cc", L+"HfstTransducer.cc", "tools/src/hfst-strings2fst.cc"],
 [("longest match search and symbol size", L+"HfstTokenizer.cc"), ("escapes and pair notation", L+"HfstStrings2FstTokenizer.cc")],
 PB + "generated inventories and texts, oracle: naive longest match; string lists rendered from known words",
 "bounded: texts up to about 15 characters, up to six declared symbols")

prop("C21", "Command line tools apply their operation to every transducer of their input",
 "Each command line tool writes, for every transducer of its input stream and in the same order, exactly the transducer that its operation and options describe, with its name and properties carried over; two-input tools pair their inputs one to one, or combine a single one with every other. Comparing, summarizing, selecting, naming and splitting tools report and select exactly what is in the stream, and printing tools print exactly the strings, pairs and weights that pass the filters given. The result is the same for files and standard input, and for every transducer type the tool supports.",
 "all streams of transducers of every length, all option combinations of the tools listed in the harness",
 "The shell tests run each tool on one or two fixed transducers with default options; streams of several transducers, of several types and with combined options are hardly run.",
 ["tools/src/hfst-reweight.cc", "tools/src/hfst-compare.cc", "tools/src/hfst-fst2strings.cc", "tools/src/hfst-substitute.cc", "tools/src/hfst-insert-freely.cc", "tools/src/hfst-head.cc", "tools/src/hfst-tail.cc", "tools/src/hfst-split.cc", "tools/src/hfst-compose.cc", "tools/src/hfst-disjunct.cc", "tools/src/hfst-kill-paths.cc", "tools/src/hfst-prune-alphabet.cc", "tools/src/hfst-repeat.cc", "tools/src/hfst-project.cc"],
 [("process_stream of each tool", "tools/src/hfst-reweight.cc"), ("string filters and printing", "tools/src/hfst-fst2strings.cc")],
 PB + "generated streams and options run through the real tools, oracle: the operation in the reference model applied to each transducer",
 "bounded: streams of up to 4 transducers of up to 5 states; options drawn from those listed in the harness", over=("inputs", "histories"))

prop("C20", "The lookup tools print exactly the analyses of each input line",
 "For every line of input, the lookup tools print exactly the strings the transducer relates it to, with their weights, in the chosen output format, and say so when there are none or infinitely many. Looking up in the usual direction or from the lower side, splitting the line by longest match or at spaces, obeying or ignoring flag diacritics, following cycles a given number of times, and combining several transducers by union, priority union or composition all mean what they say. Limits, beams and uniqueness select exactly the best analyses, and the statistics count what was printed.",
 "all transducers of all types, all input lines, all option combinations",
 "The shell tests look up a handful of words in small lexicons with one option at a time; formats, cascades, overlapping symbols, long results and repeated lines in one run are not combined.",
 ["tools/src/hfst-lookup.cc", "tools/src/hfst-flookup.cc", "tools/src/hfst-optimized-lookup.cc", "tools/src/hfst-optimized-lookup.h"],
 [("line_to_lookup_path, lookup_cascading, lookup_printf", "tools/src/hfst-lookup.cc"), ("note_analysis, printAnalyses", "tools/src/hfst-optimized-lookup.cc")],
 PB + "generated transducers, option sets and input files run through the real tools, oracle: direct interpretation of the graph",
 "bounded: up to 3 transducers of up to 5 states, up to 6 input lines; hfst-optimized-lookup without any-symbols", over=("inputs", "histories"))

prop("C17", "A two-level rule accepts exactly the pair strings its arrow allows",
 "In a compiled two-level grammar every rule accepts a string of symbol pairs exactly if each occurrence of its center, or of another realisation of the center's input side, is in the contexts in the way its arrow demands: only there, always there, both, or never there. Contexts, excepted contexts, definitions, sets, word boundaries, diacritics and rule variables mean what the grammar language says, pairs no rule mentions are left alone, and what was compiled before has no influence. Joined rules allow a center in the contexts of any of them, a rule gives way to one with a more specific context if asked to, and applying the rules to a lexicon keeps exactly the realisations that all rules accept.",
 "all two-level grammars, all strings of feasible pairs",
 "Tests compile a few fixed grammars; how contexts, boundaries, zeros, sets and conflicting rules interact must hold for every grammar and every pair string.",
 [L+"parsers/htwolcpre1-parser.yy", L+"parsers/htwolcpre2-parser.yy", L+"parsers/htwolcpre3-parser.yy", L+"parsers/rule_src/OtherSymbolTransducer.cc", L+"parsers/rule_src/TwolCGrammar.cc", L+"parsers/alphabet_src/Alphabet.cc", L+"parsers/TwolcCompiler.cc"],
 [("compile of each arrow", L+"parsers/rule_src/RightArrowRule.cc"), ("conflict resolution", L+"parsers/rule_src/LeftArrowRuleContainer.cc"), ("variables", L+"parsers/variable_src/RuleVariables.cc")],
 PB + "generated grammars, oracle: the definition of the arrows evaluated directly on every short pair string",
 "bounded: all pair strings up to length 3 or 4 and random ones up to 6; up to 3 rules", over=("inputs", "histories"))
