#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here, readable)."""
import json, os
L = "libhfst/src/"
I = L + "implementations/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or ["public C++ API, results read back state by state"], hook_needed=None)))

prop("C01", "Algebraic operations compute the weighted relation they denote",
 "Union, concatenation, star, plus, bounded repetition, optionality, inversion, reversal, projection, intersection, "
 "subtraction, negation, composition, cross product, shuffle, priority union and lenient composition yield exactly the relation the "
 "operation denotes, in the SFST, foma and tropical OpenFst back ends, and in the tropical back end every pair has the weight the operation denotes. "
 "The second operand is left unchanged, and the result keeps the back end type of the operand it was applied to.",
 ["inputs", "configurations"], "all finite transducers (epsilons, cycles, dead states, ambiguous paths, weights) and all back ends",
 "The tests evaluate each operation on a few hand-written two-state transducers; the claim is over all operand pairs and nested combinations.",
 [L + "HfstTransducer.cc", L + "HfstApply.cc", I + "TropicalWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc", "back-ends/sfst/operators.cc"],
 [("apply() dispatch with harmonization", L + "HfstApply.cc"), ("per back end operator", I + "*Transducer.cc")])

prop("C02", "Optimisations never change the relation and reach their normal form",
 "Epsilon removal, determinization, minimization, optimization, weight pushing and (unforced) alphabet pruning leave the accepted set of "
 "paths (pushing labels of wildcard-free transducers: the string pairs) and their tropical weights unchanged in the SFST, foma and tropical OpenFst back ends, under both minimization algorithms and either weight-encoding setting. "
 "After epsilon removal and determinization no epsilon:epsilon transition remains, after determinization no state has two transitions with the same symbol pair, "
 "and minimization of an unweighted machine returns the smallest deterministic one.",
 ["inputs", "configurations"], "all transducers, back ends and values of the minimization settings",
 "Tests minimize a handful of fixed transducers; equivalence must hold for all of them.",
 [L + "HfstTransducer.cc", I + "TropicalWeightTransducer.cc", I + "LogWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc", "back-ends/sfst/determinise.cc", "back-ends/sfst/hopcroft.cc"],
 [("minimize/determinize/remove_epsilons", I + "*Transducer.cc"), ("prune_alphabet", L + "HfstTransducer.cc")])

prop("C03", "Converting or copying a transducer preserves it",
 "Converting between any two of the basic, SFST, foma, tropical, log and (weighted and unweighted) optimized-lookup representations, in any sequence, and copying or assigning "
 "preserve the relation, the weights where source and target are weighted, the meaning of unknown and identity symbols, and the visible symbols of the alphabet. "
 "A copy is independent: changing it never changes the original.",
 ["inputs", "histories", "configurations"], "all transducers and all conversion chains",
 "Tests convert a few fixed transducers one way.",
 [I + "Convert*Transducer.cc", I + "optimized-lookup/convert.cc", I + "HfstBasicTransducer.cc", L + "HfstTransducer.cc"],
 [("ConversionFunctions", I + "ConvertTransducerFormat.cc"), ("OL table construction", I + "optimized-lookup/convert.cc")])

prop("C04", "Unknown and identity symbols behave as if written out in full",
 "In any operation on transducers whose alphabets differ, the unknown symbol stands for every pair of distinct symbols outside that operand's alphabet and the identity "
 "symbol for every symbol outside it mapped to itself, so the result denotes the same relation as the operation on the operands written out over any larger alphabet. "
 "Symbols known only to one operand are therefore matched by the wildcards of the other, and adding a symbol to a transducer's alphabet removes it from that transducer's wildcards.",
 ["inputs", "configurations"], "all operand pairs with wildcard transitions and overlapping or disjoint alphabets, every back end",
 "Tests use a few fixed wildcard expressions; harmonization depends on the joint alphabets of both operands.",
 [L + "HarmonizeUnknownAndIdentitySymbols.cc", L + "HfstTransducer.cc", I + "HfstBasicTransducer.cc", I + "TropicalWeightTransducer.cc", I + "FomaTransducer.cc"],
 [("harmonize", L + "HfstTransducer.cc"), ("expand unknown/identity", L + "HarmonizeUnknownAndIdentitySymbols.cc")])

prop("C05", "Binary transducer files and streams round-trip losslessly",
 "Writing any sequence of transducers to an HFST output stream and reading it back yields the same number of transducers in the same order and of the same type, each with the "
 "same relation, weights, alphabet, name and properties, for every back end and for optimized-lookup formats. "
 "End of stream is reported exactly after the last transducer; writing to a closed stream, writing a transducer of another type and opening a missing file raise the documented exceptions.",
 ["inputs", "histories", "configurations"], "all sequences of transducers, names, property maps, formats, file and pipe streams",
 "Tests write one or two fixed transducers per format.",
 [L + "HfstInputStream.cc", L + "HfstOutputStream.cc", I + "TropicalWeightTransducer.cc", I + "LogWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc", I + "HfstOlTransducer.cc", I + "optimized-lookup/transducer.cc"],
 [("header writing/reading", L + "HfstOutputStream.cc"), ("type detection", L + "HfstInputStream.cc")])

prop("C06", "Damaged binary files are rejected cleanly, never crash or corrupt",
 "Reading a transducer file that has been truncated at any byte, or whose HFST header has bytes changed, inserted or deleted, either yields transducers that can be used or ends with an HFST exception: it never "
 "reads or writes outside its buffers, and never aborts, hangs or exhausts memory. "
 "Every transducer that is read from a truncated file is the complete one that was written at that place.",
 ["fault_sequences", "inputs"], "every truncation point and every corruption of the HFST header, of files in every format",
 "Tests read intact files only.",
 [L + "HfstInputStream.cc", I + "optimized-lookup/transducer.cc", I + "FomaTransducer.cc", I + "SfstTransducer.cc", "back-ends/sfst/fst.cc", "tools/src/hfst-proc/transducer.cc"],
 [("header parsing", L + "HfstInputStream.cc"), ("table loading", I + "optimized-lookup/transducer.cc")])

prop("C07", "Text formats round-trip: AT&T and prolog",
 "Writing any transducer in AT&T or prolog text format and reading it back, through files or C++ streams and with several transducers per file, gives the same relation, weights (to the six decimals written) and, in prolog, alphabet, whatever their length and whatever characters its symbols contain, "
 "including spaces, tabs, quotes, backslashes, epsilon, unknown and identity symbols; only line breaks in symbols and the formats' own reserved escapes are outside the formats. "
 "Text with a wrong number of fields, a bad state number or bad prolog syntax is reported with the documented exception and never accepted as a different transducer or read out of bounds.",
 ["inputs", "configurations"], "all transducers and symbol contents, weighted and unweighted, single and multi-transducer files; all malformed lines",
 "Tests round-trip a few ASCII transducers.",
 [I + "HfstBasicTransducer.cc", L + "HfstTransducer.cc", "tools/src/hfst-txt2fst.cc", "tools/src/hfst-fst2txt.cc"],
 [("write_in_att_format/read_in_att_format, write/read_in_prolog_format", I + "HfstBasicTransducer.cc")])

prop("C08", "Path extraction returns exactly the paths that exist",
 "Extracting paths from an acyclic transducer returns each distinct path exactly once with its correct weight, the empty path included; with a path limit or cycle limit it returns only existing paths, no more than the limit, and all of them when the limit is not reached. "
 "Random paths are existing paths with their weights, the shortest path is a lightest of those of minimal length (epsilons removed) and, for epsilon-free transducers, the longest paths are exactly those of maximal length, n-best keeps n paths of least weight (or all), is_cyclic tells cyclic from acyclic transducers, "
 "cyclic transducers without a limit are refused with the documented exception, and none of these calls changes the transducer.",
 ["inputs", "configurations"], "all transducers, limits and back ends",
 "Tests extract from a few fixed transducers.",
 [L + "HfstTransducer.cc", I + "TropicalWeightTransducer.cc", I + "LogWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc", I + "HfstBasicTransducer.cc", L + "HfstExtractStrings.cc", "tools/src/hfst-fst2strings.cc"],
 [("extract_paths, n_best, extract_random_paths, extract_longest_paths", L + "HfstTransducer.cc")])

prop("C09", "Lookup returns exactly the outputs the transducer maps the input to",
 "For any input, lookup in an optimized-lookup transducer and in the basic transducer returns exactly the set of outputs of the accepting paths that read the whole input, each with its least weight, in "
 "nondecreasing weight order, with unknown and identity symbols matching exactly the input symbols outside the alphabet. "
 "A result limit yields that many correct results, infinitely ambiguous inputs are recognised as such and do not hang lookup, and lookup leaves the transducer unchanged so that repeating it or interleaving other inputs gives the same answer.",
 ["inputs", "histories", "configurations"], "all transducers, all inputs (unknown symbols, multicharacter symbols, any UTF-8), sequences of lookups",
 "Tests look up a few fixed words.",
 [I + "optimized-lookup/transducer.cc", I + "optimized-lookup/convert.cc", I + "HfstBasicTransducer.cc", L + "HfstTransducer.cc", "tools/src/hfst-lookup.cc", "tools/src/hfst-optimized-lookup.cc"],
 [("Transducer::lookup_fd/get_analyses", I + "optimized-lookup/transducer.cc"), ("HfstBasicTransducer::lookup", I + "HfstBasicTransducer.cc")])

prop("C10", "Flag diacritics filter paths exactly as their definition says",
 "Flag-obeying path extraction, lookup and (in the weighted and SFST back ends; foma's is libfoma's own) flag elimination all keep exactly the paths whose P, N, R, D, C and U flag diacritics succeed in sequence, and drop all others. "
 "Eliminating all flags gives a flag-free transducer with the same obeying relation and weights, eliminating one feature removes only that feature's flags and keeps the relation, and exactly well-formed flags are recognised as flags.",
 ["inputs", "configurations"], "all transducers with flags of any kind, feature and value in any order, all back ends",
 "Tests check a handful of flag sequences.",
 [L + "HfstFlagDiacritics.cc", L + "HfstLookupFlagDiacritics.cc", I + "optimized-lookup/transducer.cc", I + "HfstBasicTransducer.cc", L + "HfstTransducer.cc", "tools/src/hfst-eliminate-flags.cc"],
 [("FlagDiacriticTable", L + "HfstFlagDiacritics.cc"), ("FdTable/FdState", L + "HfstFlagDiacritics.h"), ("eliminate_flags", L + "HfstTransducer.cc")])

prop("C11", "Comparison says equal exactly for equivalent transducers",
 "Comparing two transducers of the same type returns true whenever they accept the same paths with the same weights over the same symbols, and false when some path or weight differs, however differently they are built. "
 "Comparison is reflexive and symmetric and changes neither operand, and the compare tool's exit status says the same.",
 ["inputs", "configurations"], "all pairs of transducers in all back ends",
 "Tests compare a few fixed pairs.",
 [L + "HfstTransducer.cc", I + "TropicalWeightTransducer.cc", I + "SfstTransducer.cc", I + "FomaTransducer.cc", "tools/src/hfst-compare.cc"],
 [("compare", L + "HfstTransducer.cc"), ("are_equivalent", I + "*Transducer.cc")])

prop("C12", "Substitution, free insertion and weight edits change only what they name",
 "Replacing a symbol (on either or both sides), a symbol pair, a set of pairs or a pair by a transducer, inserting a symbol pair or transducer freely, and setting, incrementing or transforming weights "
 "yield exactly the relation and weights the edit denotes and leave every other transition, final state and weight as it was, in every back end. "
 "Simultaneous substitutions are applied to the original symbols, never to each other's results.",
 ["inputs", "configurations"], "all transducers, substitutions and weight functions",
 "Tests substitute in a few fixed transducers.",
 [L + "HfstTransducer.cc", I + "HfstBasicTransducer.cc", I + "TropicalWeightTransducer.cc", I + "LogWeightTransducer.cc", "tools/src/hfst-substitute.cc", "tools/src/hfst-reweight.cc"],
 [("substitute*", I + "HfstBasicTransducer.cc"), ("insert_freely, transform_weights, set_final_weights", L + "HfstTransducer.cc")])

prop("C13", "Xerox regular expressions compile to the relation they denote",
 "Every well-formed expression built from symbols, quoting, wildcards, weights, definitions and the Xerox operators (union, concatenation, iteration, intersection, difference, complement, containment, composition, lenient composition, priority union, cross product, projection, "
 "inversion, reversal, substitution, ignoring, precedence (< >) and function calls) compiles to the relation and weights that the operators' definitions, precedence and associativity give. "
 "(Compositions in which an unknown symbol meets an unknown symbol across a known one are left out: the library has no label for them.) "
 "Ill-formed expressions yield an error instead of a transducer, and one compiler object compiles a sequence of expressions independently of each other except through named definitions.",
 ["programs", "histories", "configurations"], "all expressions and sequences of definitions, every back end",
 "Tests compile a fixed list of expressions.",
 [L + "parsers/xre_parse.yy", L + "parsers/xre_lex.ll", L + "parsers/xre_utils.cc", L + "parsers/XreCompiler.cc"],
 [("xre grammar actions", L + "parsers/xre_parse.yy"), ("XreCompiler", L + "parsers/XreCompiler.cc")])

prop("C14", "Replace and restriction rules map strings exactly as their definition says",
 "Obligatory and optional replace rules with contexts of every kind (upper, left, right and lower side, word boundaries), leftmost and rightmost, "
 "longest and shortest match with upper contexts, parallel rules, markup and epenthesis map every input string to exactly the outputs the rule's definition gives (where replacement in lower contexts is "
 "obligatory, to the outputs on which its readings agree), and in the tropical back end with its weights; restriction rules accept exactly the strings in which the context condition holds. "
 "Text outside replaced sites, including symbols the rule does not mention, passes through unchanged, and wildcards match every symbol and never the ends of the string.",
 ["programs", "inputs"], "all rules (mapping, contexts, direction, parallel parts) and all input strings",
 "Tests check fixed rules on fixed strings.",
 [L + "HfstXeroxRules.cc", L + "HfstRules.cc", L + "parsers/xre_parse.yy"],
 [("replace, replace_epenthesis, left/longest match", L + "HfstXeroxRules.cc"), ("restriction, two_level_if", L + "HfstRules.cc")])

prop("C15", "Lexc compilation accepts exactly the entries reachable from Root",
 "Compiling a lexc source gives exactly the word pairs obtained by following continuation classes from Root to the end, with summed weights, multicharacter symbols matched longest first, escapes, zeroes, regular expression entries and "
 "definitions honoured, whatever the order of the lexicons or their splitting over files, in every back end. "
 "Flag-diacritic encoding and other compiler settings do not change the flag-obeying relation, and one failing compilation does not affect the next one.",
 ["programs", "configurations"], "all lexc grammars and compiler settings",
 "Tests compile some fixed lexicons.",
 [L + "parsers/LexcCompiler.cc", L + "parsers/lexc-parser.yy", L + "parsers/lexc-lexer.ll", L + "parsers/lexc-utils.cc", "tools/src/hfst-lexc-compiler.cc"],
 [("LexcCompiler", L + "parsers/LexcCompiler.cc")])

prop("C16", "Compose-intersect equals composing with the intersection of the rules",
 "Compose-intersecting a lexicon with any number of rules yields exactly the weighted relation of composing the lexicon with the intersection of all the rules, in either direction, including epsilons, nondeterminism, unknown and identity symbols in the lexicon, identities in the rules and alphabets that differ. "
 "Flag diacritics unknown to the rules pass freely, word boundaries are added around the lexicon when the rules know them, and the rules are left unchanged.",
 ["inputs", "configurations"], "all lexicons and rule sets, both directions, all back ends",
 "Tests check two or three fixed grammars.",
 [L + "HfstTransducer.cc", I + "compose_intersect/ComposeIntersectLexicon.cc", I + "compose_intersect/ComposeIntersectRule.cc", I + "compose_intersect/ComposeIntersectRulePair.cc", I + "compose_intersect/ComposeIntersectFst.cc", "tools/src/hfst-compose-intersect.cc"],
 [("lazy rule-pair intersection", I + "compose_intersect/ComposeIntersectRulePair.cc")])

prop("C17", "Two-level grammars compile to rules accepting exactly the licensed pairs",
 "Compiling a two-level grammar gives rule transducers whose joint acceptance of a symbol pair string is exactly what the rules' operators (=>, <=, <=>, /<=), centres, contexts, variables, sets and definitions state over the declared alphabet. "
 "Rule order does not matter except where conflict resolution is documented.",
 ["programs", "inputs"], "all grammars and pair strings",
 "Tests compile a few fixed grammars.",
 [L + "parsers/TwolcCompiler.cc", L + "parsers/htwolcpre1-parser.yy", L + "parsers/htwolcpre2-parser.yy", L + "parsers/htwolcpre3-parser.yy", L + "parsers/alphabet_src/Alphabet.cc", L + "parsers/rule_src/Rule.cc", "tools/src/hfst-pair-test.cc"],
 [("OtherSymbolTransducer and Rule classes", L + "parsers/rule_src")])

prop("C18", "Tokenization is longest-match, lossless and UTF-8 safe",
 "Splitting a string into symbols always picks the longest known multicharacter symbol at each position and otherwise one whole UTF-8 character (or, where characters are not split, one grapheme cluster), drops exactly the skip symbols, and concatenating the symbols gives back the rest of the input, "
 "in the library tokenizers and in strings-to-transducer conversion with its escapes and pair separators. "
 "Invalid UTF-8 is rejected with the documented exception and never read past its end.",
 ["inputs"], "all byte strings, symbol inventories and skip sets",
 "Tests tokenize a few strings.",
 [L + "HfstTokenizer.cc", L + "HfstStrings2FstTokenizer.cc", I + "optimized-lookup/transducer.cc", "tools/src/hfst-strings2fst.cc"],
 [("MultiCharSymbolTrie", L + "HfstTokenizer.cc"), ("Encoder::find_key", I + "optimized-lookup/transducer.cc")])

prop("C19", "Pattern matching covers the text left to right, longest match, losing nothing",
 "Matching compiled pmatch patterns against any text marks, extracts or deletes exactly the leftmost longest matches the rules define, deciding between matches of equal length by least weight, and leaves all other text as it was: a network that only tags gives back the input when "
 "the tags are removed. "
 "Left and right contexts, negated or not and joined with AND and OR, look at the text around the match including its beginning and end and consume nothing; inserted (also recursive) networks, functions, character classes, symbol lists and automatic separators mean what they define. "
 "Locations reported for matches are the true positions, lengths, inputs, outputs, tags and weights of all longest matches, the unmatched stretches between them are reported too, and hfst-tokenize outputs every piece of the input exactly once and in order.",
 ["inputs", "programs"], "all pattern sets and all UTF-8 texts",
 "Tests run a few rule sets on short sentences.",
 [I + "optimized-lookup/pmatch.cc", I + "optimized-lookup/pmatch_tokenize.cc", L + "parsers/PmatchCompiler.cc", L + "parsers/pmatch_utils.cc", "tools/src/hfst-pmatch.cc", "tools/src/hfst-tokenize.cc"],
 [("PmatchContainer::match/locate", I + "optimized-lookup/pmatch.cc"), ("tokenize output", I + "optimized-lookup/pmatch_tokenize.cc")])

prop("C20", "hfst-proc conserves the text stream",
 "Analysing any stream with hfst-proc outputs, in order, every token and all text between tokens, with blanks, superblanks, escapes and unknown words intact, and for each word exactly the analyses the transducer gives it, in each output format, capitalisation and "
 "compound mode. "
 "Generation of any analysed stream outputs the surface forms the transducer gives or the documented unknown marks, losing nothing else.",
 ["inputs", "configurations"], "all transducers, text streams and mode options",
 "Tests process a few fixed lines.",
 ["tools/src/hfst-proc/tokenizer.cc", "tools/src/hfst-proc/applicators.cc", "tools/src/hfst-proc/formatter.cc", "tools/src/hfst-proc/transducer.cc", "tools/src/hfst-proc/lookup-state.cc", "tools/src/hfst-proc/hfst-proc.cc"],
 [("TokenIOStream", "tools/src/hfst-proc/tokenizer.cc"), ("OutputFormatter", "tools/src/hfst-proc/formatter.cc")])

prop("C21", "Command-line tools do to each transducer what the library does",
 "Each transducer-processing tool applies the corresponding operation to every transducer of its input streams in order (binary tools pair them one to one, or apply a single second operand to all), writes one result per input in the same format, and selection tools "
 "(head, tail, split, and others) keep exactly the transducers asked for, through files and pipes alike. "
 "Tools that read or print text (fst2txt, txt2fst, fst2strings, strings2fst, regexp2fst, lookup, flookup, optimized-lookup, summarize, compare, pair-test) print or build what the transducers say. "
 "Exit status is zero exactly when the operation succeeded; bad options, missing, damaged or wrong input and streams that cannot be paired give a nonzero status and a message, never a crash.",
 ["inputs", "histories", "configurations"], "all these tools, streams of any number of transducers and back ends",
 "Tests run each tool on one small input and compare with one stored result.",
 ["tools/src/*.cc", "tools/src/hfst-commandline.cc", "tools/src/inc/*"],
 [("process_stream in each tool", "tools/src/hfst-*.cc")], ["process boundary: argv, stdin/stdout/files, exit status"])

prop("C22", "The xfst interpreter keeps its stack and definitions right",
 "Any sequence of xfst commands leaves on the stack exactly the networks those commands define: regex, define, union, compose, intersect, minus, concatenate, invert, reverse, negate, sides, push, pop, rotate, turn, clear and save/load operate on the top of the stack "
 "in the documented order, and apply up and down, print words, size and tests report the facts of the top network. "
 "A command that fails reports an error and leaves stack and definitions as they were.",
 ["histories", "programs"], "all command sequences",
 "Tests run a few short scripts.",
 [L + "parsers/XfstCompiler.cc", L + "parsers/xfst-parser.yy", L + "parsers/xfst-lexer.ll", "tools/src/parsers/hfst-xfst.cc"],
 [("XfstCompiler stack operations", L + "parsers/XfstCompiler.cc")])

prop("C23", "No text input makes a compiler or tool misbehave",
 "Feeding arbitrary text to the regular expression, lexc, two-level, xfst, pmatch, SFST and AT&T readers, the string tokenizers and the lookup tools either produces a result or an error report: no memory error, undefined behaviour, assertion "
 "failure, uncaught exception or crash, at any length or nesting the system's limits allow.",
 ["inputs"], "all byte strings as program text or data",
 "Tests feed well-formed text almost exclusively.",
 [L + "parsers/*", L + "HfstTokenizer.cc", L + "HfstStrings2FstTokenizer.cc", I + "HfstBasicTransducer.cc", "tools/src/*.cc"],
 [("scanners and parsers", L + "parsers/*.ll, *.yy")], ["sanitizer reports and exit status of the instrumented build"])

prop("C24", "SFST-PL programs compile to the relation they denote",
 "Every SFST programming-language program built from characters, ranges, pairs, variables, agreement variables, alphabet declarations, and the operators for union, concatenation, iteration, composition, intersection, difference, complement, projection, "
 "replacement and two-level rules compiles to the relation the language defines, in every back end.",
 ["programs", "configurations"], "all programs",
 "Tests compile a handful of programs.",
 [L + "parsers/sfst-compiler.yy", L + "parsers/sfst-scanner.ll", L + "parsers/SfstCompiler.cc", L + "parsers/SfstUtf8.cc", "tools/src/sfst-main.cc"],
 [("SfstCompiler", L + "parsers/SfstCompiler.cc")])

prop("C25", "Python bindings give the library's answers",
 "Every transducer built, combined, looked up, saved or loaded through the Python API behaves exactly as through the C++ library: same relations, weights, paths, lookup results and exceptions, and objects stay valid as long as Python holds them.",
 ["histories", "inputs"], "all sequences of Python API calls",
 "Tests call each binding on fixed data.",
 ["python/libhfst.i", "python/hfst_extensions.cpp", "python/hfst_lookup_extensions.cpp", "python/hfst_rules_extensions.cpp", "python/hfst/__init__.py"],
 [("SWIG wrappers", "python/libhfst.i")], ["Python API boundary"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
