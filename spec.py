"""The properties, their anchors and how each check is run.  mk.py writes properties.jsonl and MANIFEST.json from it."""

L = "libvoikko/src/"
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, check):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), check=check))


prop("C01", "No input or call sequence crashes, corrupts memory, leaks or hangs",
     "Any sequence of public library calls on successfully opened dictionaries, with any text, any option values and any number of handles, ends without reading or writing outside its data, without undefined arithmetic, and without running forever. "
     "Once the returned results are freed and the handles closed, no memory of the sequence remains allocated.",
     ["inputs", "histories", "configurations"], "every well formed or malformed text up to and beyond the length limits, every option setting, every order of calls",
     "The tests call the library with a few thousand friendly words; buffer sizes, length limits and clean-up paths only matter for hostile or unusual input, and no test looks at memory.",
     [L + "spellchecker/suggestions.cpp", L + "hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp", L + "morphology/FinnishVfstAnalyzer.cpp", L + "tokenizer/Tokenizer.cpp", L + "grammar/GcCache.cpp", L + "setup/setup.cpp", L + "compatibility/interface.cpp"],
     [("word length limits and fixed buffers", L + "morphology/FinnishVfstAnalyzer.cpp, spellchecker/*.cpp"), ("ownership of results and handles", L + "setup/setup.cpp, */interface.cpp")],
     dict(prog="c01", dicts=[("sukija", 0.12)], flavor="asan", quick=9000, thorough=200000, cpu=60,
          technique="stateful fuzzing of the C API under ASan/UBSan with an allocation balance oracle",
          rule="a case is a generated sequence of API calls on one or more handles; it is non-trivial when it makes at least one call that produced a non-empty result (keyed by the sequence of calls and inputs)"))

prop("C02", "Answers do not depend on what was asked before",
     "The answer to any query depends only on the dictionary, the text of the query and the option values in force at that moment. "
     "Earlier queries, options that were changed in between, the size of the spell checker's cache, results that have not been freed and other open handles never change it.",
     ["histories", "configurations"], "every history of queries, option changes and handle openings and closings before the query",
     "Each test uses a fresh or lightly used handle and checks one query at a time, so state left behind in caches, search buffers and option fields is never compared with a clean start.",
     [L + "spellchecker/SpellerCache.cpp", L + "spellchecker/spell.cpp", L + "grammar/GcCache.cpp", L + "fst/Configuration.cpp", L + "fst/UnweightedTransducer.cpp", L + "fst/WeightedTransducer.cpp", L + "setup/setup.cpp"],
     [("spell result cache", L + "spellchecker/SpellerCache.cpp"), ("paragraph cache of the grammar checker", L + "grammar/GcCache.cpp"), ("reused transducer configuration", L + "fst/*Transducer.cpp")],
     dict(prog="c02", flavor="asan", quick=12000, thorough=200000, cpu=60,
          technique="stateful property-based testing: aged handle against fresh handle (differential)",
          rule="a case is a history of queries and option changes on an aged handle followed by probes that are also put to a fresh handle with the same options; non-trivial when the history has at least two operations and the probe has a non-empty answer (keyed by the history)"))

prop("C08", "Morphological analyses are exactly those the lexicon licenses",
     "For every word the analyses returned are exactly those that the dictionary's compiled lexicon produces for the word regardless of letter case, in the lexicon's order and without those that break the rules for hyphens in compounds. "
     "The class, case, number, mood, person and other attributes, the base form and the structure of each analysis are the ones its lexicon output spells out, and every value of an enumerated attribute is among the values the library lists for it.",
     ["inputs"], "every word of at most 255 characters; the words explored come from the lexicon itself, from compounds of them and from near misses",
     "The tests compare chosen attributes of some hundred words; the lexicon accepts an unbounded set of words and almost all tag combinations are never looked at.",
     [L + "morphology/FinnishVfstAnalyzer.cpp", L + "morphology/Analysis.cpp", L + "morphology/interface.cpp", L + "fst/UnweightedTransducer.cpp"],
     [("lexicon lookup", L + "fst/UnweightedTransducer.cpp"), ("attributes from lexicon output", L + "morphology/FinnishVfstAnalyzer.cpp")],
     dict(prog="c08", dicts=[("dev", 0.4), ("sukija", 0.25)], flavor="asan", quick=110000, thorough=2000000, cpu=60,
          technique="property-based testing against an independent reference model of the lexicon reader and the attribute rules",
          rule="a case is a word sampled from the lexicon, a compound or a mutation of such words; non-trivial when the reference model finds at least one analysis (keyed by the word)"))

prop("C03", "Tokens divide the text completely and by the word rules",
     "For any text, taking tokens one after another yields non-empty pieces that put together are exactly the text, and each token is a word, punctuation mark, run of whitespace or unknown character according to its characters. "
     "Words contain inner hyphens, apostrophes, colons, full stops and decimal commas only where the rules for Finnish words, numbers, web addresses and e-mail addresses allow, and a final full stop belongs to the word only if the option to ignore dots is on. "
     "A token never depends on text beyond the given length.",
     ["inputs", "configurations"], "every text of Unicode characters and every length of it",
     "The tests tokenise some tens of sentences; the rules interact character by character, and only combinations of punctuation, digits, line ends and lookahead expose a wrong boundary.",
     [L + "tokenizer/Tokenizer.cpp", L + "tokenizer/interface.cpp", L + "character/charset.cpp", L + "character/SimpleChar.cpp"],
     [("token rules", L + "tokenizer/Tokenizer.cpp"), ("character classes", L + "character/charset.cpp")],
     dict(prog="c03", flavor="asan", quick=250000, thorough=4000000, cpu=60,
          technique="property-based testing against a reference model of the token rules, with partition invariants",
          rule="a case is a generated text (word pieces and punctuation, dense rule alphabet, running text) with the dot option on or off; non-trivial when it has more than one token and a word of at least two characters (keyed by text and option)"))

prop("C04", "Sentences divide the text and start where the rules say",
     "For any text, taking sentences one after another yields non-empty pieces that put together are exactly the text. "
     "A sentence ends after a full stop, question or exclamation mark, ellipsis or colon outside quotation marks together with the whitespace that follows. "
     "The next start is reported as probable, or only as possible when the full stop can belong to an initial, an ordinal number, a date or an abbreviation known to the dictionary, after an ellipsis or a colon, or when no space precedes the next word.",
     ["inputs", "configurations"], "every text and every option setting",
     "The tests split a few texts; quotation marks, abbreviations and numbers interact with the dictionary, so that most combinations of them are never tried.",
     [L + "sentence/Sentence.cpp", L + "sentence/interface.cpp", L + "tokenizer/Tokenizer.cpp"],
     [("sentence end automaton", L + "sentence/Sentence.cpp"), ("abbreviations through the spell checker", L + "spellchecker/FinnishSpellerTweaksWrapper.cpp")],
     dict(prog="c04", flavor="asan", quick=130000, thorough=2500000, cpu=60,
          technique="property-based testing against a reference model of the sentence rules on top of models of tokenizer, lexicon and speller",
          rule="a case is a generated text with option settings; non-trivial when it has at least two sentences (keyed by text and options)"))

prop("C05", "UTF-8, wide character and deprecated functions agree",
     "For any text, the UTF-8 functions and the wide character functions give the same answers, with positions and lengths counted in characters, and the deprecated functions give the same answers as their replacements. "
     "A text that is not well formed UTF-8 is refused: no function reports a result for it, except tokens that lie wholly before the first malformed byte. "
     "Bytes after the given length are never looked at.",
     ["inputs", "configurations"], "every text and word of Unicode characters, every malformed byte sequence, every option setting",
     "The tests use one of the function families and short, well formed texts; conversions have their own buffers, limits and error paths that only long, multi-byte or malformed text reaches.",
     [L + "utf8/utf8.hpp", L + "utils/utils.cpp", L + "tokenizer/interface.cpp", L + "sentence/interface.cpp", L + "grammar/interface.cpp", L + "spellchecker/spell.cpp", L + "spellchecker/suggestions.cpp", L + "hyphenator/interface.cpp", L + "compatibility/interface.cpp"],
     [("conversion from UTF-8", L + "utils/utils.cpp, utf8/utf8.hpp"), ("deprecated interface", L + "compatibility/interface.cpp")],
     dict(prog="c05", flavor="asan", quick=16000, thorough=300000, cpu=60,
          technique="property-based testing: differential between the function families, and malformed UTF-8 injection",
          rule="a case is a word or text with option settings put to all function families, or a malformed byte sequence; non-trivial when the word is accepted or has suggestions, the text has more than three tokens or a grammar error, or the bytes are malformed (keyed by text and options)"))

prop("C06", "Spelling suggestions are valid words near the misspelt one, best first",
     "For every word at most five suggestions are given, each made of one or two words that the spell checker accepts, and each is the misspelt word after one correction (letter case, soft hyphens, front and back vowels, a replaced, removed, added, doubled or swapped letter, a hyphen, a space) or after the corrections of scanning errors when that option is on. "
     "A mere change of letter case or removal of soft hyphens is preferred to everything else; otherwise the suggestions are ordered by how common the inflected form is, by the number of compound parts, and by the order in which the corrections are tried, within the documented limits of effort. "
     "The suggestions keep the letter case, the typographic hyphens and apostrophes and the final full stop of the original.",
     ["inputs", "configurations"], "every word with every kind of misspelling and every option setting",
     "The tests ask suggestions for a few dozen words and look for one of them; ranking, limits and the many kinds of correction are visible only over large samples of misspellings.",
     [L + "spellchecker/suggestions.cpp", L + "spellchecker/SpellWithPriority.cpp", L + "spellchecker/suggestion/SuggestionStatus.cpp", L + "spellchecker/suggestion/SuggestionStrategyTyping.cpp", L + "spellchecker/suggestion/SuggestionStrategyOcr.cpp",
      L + "spellchecker/suggestion/SuggestionGeneratorSplitWord.cpp", L + "character/charset.cpp"],
     [("generators of corrections", L + "spellchecker/suggestion/SuggestionGenerator*.cpp"), ("ranking and limits", L + "spellchecker/SpellWithPriority.cpp, spellchecker/suggestion/SuggestionStatus.cpp"), ("restoring letter case and characters", L + "spellchecker/suggestions.cpp")],
     dict(prog="c06", dicts=[("dev", 0.06)], flavor="plain", quick=26000, thorough=600000, cpu=60,
          technique="property-based testing against a reference model of the corrections and their ranking, with acceptance of every suggestion as an invariant",
          rule="a case is a word, usually misspelt by one to three typing or scanning errors, with option settings; non-trivial when the reference model finds at least one suggestion (keyed by word and options)"))

prop("C07", "Hyphenation points follow the lexicon and the syllable rules",
     "For every word the hyphenation pattern has one mark per character and shows exactly the points on which the readings of the word agree: boundaries of its compound parts according to the dictionary, and syllable boundaries within each part. "
     "It respects the options for unattractive points, unknown words, minimum length and ignored dots. "
     "Inserting hyphens changes the word only at those points and, when context changes are allowed, at characters the hyphen replaces.",
     ["inputs", "configurations"], "every word, every setting of the hyphenation options, every separator",
     "The tests hyphenate some hundred words with a few option settings; the rules for vowel groups, long consonant sequences and ambiguous compounds apply to an unbounded set of words.",
     [L + "hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp", L + "hyphenator/interface.cpp"],
     [("compound splitting and intersection of readings", L + "hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp"), ("insertion of separators", L + "hyphenator/interface.cpp")],
     dict(prog="c07", dicts=[("dev", 0.3)], flavor="asan", quick=150000, thorough=2500000, cpu=60,
          technique="property-based testing against a reference model of compound splitting and syllable rules",
          rule="a case is a word with hyphenation options (and a separator); non-trivial when the expected pattern has at least one point (keyed by word, options and separator)"))

prop("C09", "A word is accepted exactly when lexicon, letter case and options allow it",
     "The spell checker accepts a word exactly when the lexicon has it in a letter case compatible with the one written, or the rules for hyphens and soft hyphens inside and around words make it acceptable, or an option that is on says such words are to be ignored. "
     "Each option (ignoring dots, numbers, upper case words and non-words, accepting initial or full upper case, extra and missing hyphens) has just its documented effect, and the result is the same whether or not the word was cached.",
     ["inputs", "configurations"], "every word of any length and every setting of the eight spelling options and of the cache",
     "The tests try some thousand words mostly with default options; acceptance depends on the product of letter case, hyphens, soft hyphens, dots and eight options.",
     [L + "spellchecker/spell.cpp", L + "spellchecker/FinnishSpellerTweaksWrapper.cpp", L + "spellchecker/AnalyzerToSpellerAdapter.cpp", L + "spellchecker/SpellUtils.cpp", L + "spellchecker/SpellerCache.cpp"],
     [("option handling and letter case", L + "spellchecker/spell.cpp"), ("hyphen rules", L + "spellchecker/FinnishSpellerTweaksWrapper.cpp")],
     dict(prog="c09", dicts=[("dev", 0.25), ("sukija", 0.1)], flavor="asan", quick=100000, thorough=2500000, cpu=60,
          technique="property-based testing against a reference model of lexicon, letter case and hyphen rules",
          rule="a case is a word with option settings; non-trivial when the reference model accepts the word (keyed by word and options)"))

prop("C10", "Equivalent ways of writing a character make no difference to spelling",
     "A word is accepted, and gets the same suggestions, whether its accented letters are written as one character or as a letter and a combining mark, its hyphens and apostrophes as the plain or the typographic ones, and the letter groups fi, fl, ff, ffi and ffl as letters or as ligatures. "
     "Suggestions keep the typographic hyphens and apostrophes of the parts they share with the original.",
     ["inputs", "configurations"], "every word and every choice of the equivalent ways for each of its characters, with every option setting",
     "The tests spell two or three words with combining marks; the equivalences multiply over the characters of a word and interact with letter case, hyphen rules and the cache.",
     [L + "character/charset.cpp", L + "spellchecker/spell.cpp", L + "spellchecker/suggestions.cpp"],
     [("normalisation", L + "character/charset.cpp"), ("restoring the original characters", L + "character/charset.cpp")],
     dict(prog="c10", dicts=[("dev", 0.15)], flavor="asan", quick=60000, thorough=1500000, cpu=60,
          technique="property-based testing: metamorphic relation between equivalent spellings of the same word",
          rule="a case is a word, an equivalent way of writing it and option settings; non-trivial when the word is accepted or has suggestions (keyed by both writings and options); words with nothing to rewrite are discarded"))

prop("C12", "Grammar errors are inside the text, in order, retrievable and explained",
     "For any text, the grammar errors come one by one in the order of their positions, each with a length of at least one character and wholly inside the given text, and a correction that is suggested differs from the text it replaces. "
     "Asking from a position or skipping a number of errors gives the first error of that same list that is not excluded, whatever other texts are asked about in between and whatever follows the given length. "
     "Every error has a description in Finnish and in English.",
     ["inputs", "histories", "configurations"], "every text, every start position and number of errors to skip, in any order of asking",
     "The tests fetch the errors of short texts once, in order; positions come from several rules that each compute their own, and the cache of the last text decides what a later call sees.",
     [L + "grammar/GrammarChecker.cpp", L + "grammar/GcCache.cpp", L + "grammar/interface.cpp", L + "grammar/error.cpp", L + "grammar/VoikkoGrammarError.cpp"],
     [("cached list of errors", L + "grammar/GrammarChecker.cpp, grammar/GcCache.cpp"), ("descriptions", L + "grammar/error.cpp")],
     dict(prog="c12", flavor="asan", quick=45000, thorough=800000, cpu=60,
          technique="property-based testing: invariants of the error list and a list model for random access",
          rule="a case is one to three paragraphs on one handle with options and a series of jumps (start position, errors to skip); non-trivial when a jump with a start position or skipped errors finds an error (keyed by texts and options)"))

prop("C13", "Grammar errors are exactly those the Finnish rules define",
     "For any paragraph the errors are exactly those of the rules: extra spaces and commas, spaces before commas, punctuation that starts a sentence or ends a quotation wrongly, foreign quotation marks, unmatched closing brackets, repeated words, missing or extra capital letters, missing final punctuation, missing or extra main verbs, negations and auxiliary verbs with the wrong verb form, final conjunctions, and phrases from the autocorrect list. "
     "Each covers just the words or marks concerned and suggests the correction the rule defines, and the options for titles, unfinished paragraphs and bulleted lists suppress just their documented errors.",
     ["inputs", "configurations"], "every paragraph of at most 200 sentences of at most 500 tokens, with every setting of the three grammar options",
     "The tests check about two hundred sentences, mostly one rule each; rules depend on the readings of all words, on quotation marks and brackets kept over sentences, and on each other's effects.",
     [L + "grammar/FinnishAnalysis.cpp", L + "grammar/FinnishRuleEngine.cpp", L + "grammar/FinnishRuleEngine/CapitalizationCheck.cpp", L + "grammar/FinnishRuleEngine/VfstAutocorrectCheck.cpp", L + "grammar/FinnishRuleEngine/checks.cpp", L + "grammar/FinnishRuleEngine/MissingVerbCheck.cpp", "voikko-fi/vvfst/autocorrect_to_lexc.py"],
     [("word roles from analyses", L + "grammar/FinnishAnalysis.cpp"), ("rules", L + "grammar/FinnishRuleEngine/*.cpp"), ("autocorrect list", "voikko-fi/vocabulary/autocorrect/fi.xml")],
     dict(prog="c13", dicts=[("dev", 0.15)], flavor="asan", quick=35000, thorough=800000, cpu=60,
          technique="property-based testing against a reference model of the grammar rules on top of models of tokens, sentences and analyses",
          rule="a case is a paragraph built of words with a role in the rules, lexicon words, autocorrect phrases and punctuation, with options; non-trivial when the reference model finds at least one error (keyed by text and options)"))

NOT_APPLICABLE = []

prop("C11", "Compiled transducers mean what their source says",
     "For any automaton in the text format, compiling it and loading the result in either byte order gives a transducer that produces for every word exactly the outputs of the source's paths for that word, with flag diacritics restricting the paths as defined and with the product of the probabilities as weight. "
     "A speller made from such a transducer accepts exactly the words with a path, and its suggestions are the most probable outputs of the error model that the speller accepts, in order and without repetition.",
     ["inputs", "configurations"], "every automaton within the limits of the format (number of symbols, weights, paths per word), every word, both byte orders, weighted and unweighted",
     "The tests use the one Finnish lexicon, unweighted and in native byte order; the weighted reader, big states, byte swapping and most orders of flag diacritics are not used by it at all.",
     [L + "fst/WeightedTransducer.cpp", L + "fst/UnweightedTransducer.cpp", L + "fst/Transducer.cpp", L + "tools/voikkovfstc.cpp", L + "morphology/VfstAnalyzer.cpp", L + "spellchecker/VfstSpeller.cpp", L + "spellchecker/VfstSuggestion.cpp"],
     [("compiler", L + "tools/voikkovfstc.cpp"), ("search with flag diacritics", L + "fst/*Transducer.cpp"), ("weighted speller and suggestions", L + "spellchecker/Vfst*.cpp")],
     dict(prog="c11", flavor="asan", quick=12000, thorough=250000, cpu=60, nofuzz=True,
          technique="property-based testing of compiler and reader on random automata against an interpreter of the source",
          rule="a case is a random automaton (or a speller and an error model), compiled in one byte order, with up to 16 words from random walks and their mutations; a word is non-trivial when the source has at least one path for it (keyed by source, byte order and word)",
          assumptions=["at most 99 outputs for a word and 20000 search steps (beyond that the library stops by design)", "weights of a path that fit in 16 bits", "transitions without input lead to later states only, so that searches end"]))

prop("C14", "Dictionaries are found and chosen by the documented rules",
     "Asking for a language opens the dictionary that the documented rules choose: directories are searched in the order given path, VOIKKO_DICTIONARY_PATH, home, system; a variant found earlier hides the same variant found later; a missing variant means the preferred one of the language; and a language no dictionary has is refused with an error message. "
     "Listings contain each available dictionary exactly once, with the language, script, variant and description of its index file, in the documented order, and the lists of languages for spelling, hyphenation and grammar agree with what the dictionaries can do. "
     "Anything else in those directories (files, empty directories, malformed or newer index files) is ignored.",
     ["inputs", "configurations", "histories"], "every layout of dictionaries over the searched directories, every index file, language tag and environment",
     "The tests create a handful of layouts with well formed index files; the choice depends on the combination of directories, variants, preferred dictionary and fallbacks.",
     [L + "setup/DictionaryFactory.cpp", L + "setup/DictionaryLoader.cpp", L + "setup/V5DictionaryLoader.cpp", L + "setup/LanguageTag.cpp", L + "setup/Dictionary.cpp", L + "setup/interface.cpp"],
     [("search and choice", L + "setup/DictionaryFactory.cpp"), ("index files", L + "setup/V5DictionaryLoader.cpp"), ("language tags", L + "setup/LanguageTag.cpp")],
     dict(prog="c14", flavor="asan", quick=40000, thorough=600000, cpu=60, nofuzz=True,
          technique="property-based testing on generated directory trees against a reference model of search, listing and choice",
          rule="a case is a tree of dictionary directories with index files, environment variables and a series of requests; non-trivial when at least two dictionaries or a hidden or ignored one take part (keyed by the whole layout and requests)"))

prop("C18", "A dictionary that cannot be used is refused without harm",
     "Whatever is wrong with a dictionary (files that are missing, empty, cut off, of the wrong type or with malformed symbols, backends that are unknown or do not fit together), opening it fails with an error message and leaves no memory, open file or file mapping behind; a dictionary with nothing wrong opens and after use and closing leaves nothing behind either. "
     "Broken dictionaries do not prevent usable ones in the same directories from being listed and opened.",
     ["inputs", "faults", "configurations"], "every combination of backends and of faults in the files they need, in both byte orders",
     "The tests never open a damaged transducer and never look at what remains after a failure.",
     [L + "setup/setup.cpp", L + "fst/Transducer.cpp", L + "fst/UnweightedTransducer.cpp", L + "fst/WeightedTransducer.cpp", L + "morphology/AnalyzerFactory.cpp", L + "spellchecker/SpellerFactory.cpp", L + "spellchecker/suggestion/SuggestionGeneratorFactory.cpp", L + "grammar/FinnishRuleEngine.cpp", L + "setup/V3DictionaryLoader.cpp"],
     [("clean-up of a failed start", L + "setup/setup.cpp"), ("checks of transducer files", L + "fst/*Transducer.cpp")],
     dict(prog="c18", flavor="asan", quick=100000, thorough=1500000, cpu=60, nofuzz=True,
          technique="property-based testing with injected faults in dictionary files; oracle: validity by construction, and memory, descriptor and mapping accounting",
          rule="a case is a choice of backends with a fault (or none) in each file, or a set of damaged ZHFST files beside a usable dictionary; non-trivial when the dictionary cannot be used (keyed by backends, files and faults)",
          assumptions=["transducers whose header, symbols and size are right have valid transition tables (the files are mapped to memory and used as they are)", "ZHFST archives are read by the hfst-ospell library, so only damage it reports is generated"]))

T = L + "tools/"
prop("C15", "The command line tools print what the library answers",
     "For any list of lines and any options, voikkospell, voikkohyphenate and voikkogc print for each line, in the order of the input, exactly the answer of the library with those options in the documented format, on the last line as on the others, and report lines that are too long. "
     "The output of voikkospell does not depend on the number of threads or on the cache size.",
     ["inputs", "configurations", "schedules"], "every input of valid UTF-8 lines, every combination of options and every number of threads",
     "The tests do not run the tools on anything but single words; how lines are divided between threads matters only with other numbers of lines and threads.",
     [T + "voikkospell.cpp", T + "voikkohyphenate.cpp", T + "voikkogc.cpp"],
     [("division of work between threads", T + "voikkospell.cpp"), ("output formats", T + "*.cpp")],
     dict(prog="c15", flavor="asan", quick=1600, thorough=40000, cpu=120, nofuzz=True, tools={"asan": ["voikkospell", "voikkohyphenate", "voikkogc"], "tsan": ["voikkospell"]},
          technique="property-based testing of the tools as processes, differentially against the library interface; part of the runs under the thread sanitizer",
          rule="a case is one run of a tool with generated arguments and input lines; non-trivial when at least one line is processed (keyed by arguments and input)"))

prop("C19", "Handles do not affect each other, even in different threads",
     "Threads that each open, configure, use and close a handle of their own get exactly the answers they would get one after another, whatever the others ask at the same time, and no memory is accessed by two threads without order when at least one of them writes.",
     ["schedules", "inputs", "configurations"], "every set of query sequences in any number of threads and every interleaving of them, including first use in the process",
     "The tests use one thread; shared mutable state shows only in some interleavings.",
     [L + "spellchecker/spell.cpp", L + "spellchecker/suggestions.cpp", L + "morphology/FinnishVfstAnalyzer.cpp", L + "fst/UnweightedTransducer.cpp", L + "grammar/GrammarChecker.cpp", L + "hyphenator/AnalyzerToFinnishHyphenatorAdapter.cpp", L + "setup/setup.cpp", L + "character/SimpleChar.cpp"],
     [("state kept in the handle", L + "setup/setup.hpp"), ("search state of transducers", L + "fst/Configuration.hpp")],
     dict(prog="c19", flavor="tsan", quick=1500, thorough=40000, cpu=400, nofuzz=True,
          technique="property-based testing of generated multi-threaded histories under the thread sanitizer, differentially against sequential execution",
          rule="a case is 2-4 threads with query sequences on handles of their own, run in a fresh process; non-trivial when the answers say something (keyed by queries, options and order)"))

Y = "libvoikko/python/libvoikko.py"
prop("C16", "The Python binding gives the answers of the library",
     "For any history of operations on any number of Voikko objects, every method of the Python binding returns exactly what the library answers with the same options, as complete and correctly placed Python values: offsets and texts in code points over the whole text including all of its paragraphs, documented values for texts with NUL characters, VoikkoException for failures and for use after terminate(). "
     "Native memory is released, so that repeating an operation does not need ever more of it, and an object that is terminated or deleted leaves no dictionary open. Dictionary objects are totally ordered consistently with equality.",
     ["inputs", "histories", "configurations"], "every sequence of method calls on any number of objects with every text of Unicode characters (no surrogates)",
     "The tests of the binding are examples with short texts of ordinary characters; offsets over several paragraphs, words the library refuses and ownership of memory are not covered.",
     [Y], [("conversion of results", Y), ("memory ownership", Y)],
     dict(py="c16", quick=20000, thorough=400000, technique="property-based testing of generated operation histories, differentially against direct calls of the library; ownership accounting by a stand-in library that forwards to the real one",
          rule="a case is a sequence of up to 16 operations on two objects; an operation is non-trivial when its answer is not empty (keyed by operation and arguments)",
          assumptions=["the description language of grammarErrors is not empty", "texts are sequences of Unicode scalar values"]))

J = "libvoikko/java/src/main/java/org/puimula/libvoikko/"
prop("C17", "The Java binding gives the answers of the library",
     "For any history of operations on any number of Voikko objects, from one thread or several threads sharing an object, every method of the Java binding returns exactly what the library answers with the same options, as complete and correctly placed Java values: offsets, lengths and texts in UTF-16 units over the whole text including all of its paragraphs, documented values for texts with characters the library does not accept, VoikkoException for failures and for use after terminate(). "
     "Results of the library are released exactly once, a handle is never used by two threads at once or after it was closed, and objects that are terminated or garbage collected leave no handle open. Dictionary objects are totally ordered consistently with equality.",
     ["inputs", "histories", "schedules", "configurations"], "every sequence of method calls on any number of objects and threads with every Java string",
     "The tests of the binding are not run here and are examples with characters of the basic plane; supplementary characters, words the library refuses, threads sharing an object and ownership of memory are not covered.",
     [J + "Voikko.java", J + "ByteArray.java", J + "Libvoikko.java", J + "Dictionary.java"], [("conversion of results and offsets", J + "Voikko.java"), ("synchronization", J + "Voikko.java")],
     dict(py="c17", quick=14000, thorough=200000, technique="property-based testing of generated operation histories and concurrent calls, differentially against direct calls of the library; ownership and thread accounting by a stand-in library that forwards to the real one",
          rule="a case is a sequence of up to 16 operations on two objects, some of them executed by several threads on one object; an operation is non-trivial when its answer is not empty (keyed by operation and arguments)",
          assumptions=["the description language of grammarErrors is not empty", "lone surrogates are not generated", "getHyphenationPattern is asked for words of the basic plane only"]))

JS = "libvoikko/js/libvoikko_api.js"
prop("C20", "The JavaScript binding gives the answers of the library",
     "For any history of operations on any number of instances, every method of the JavaScript binding returns exactly what the library answers with the same options, as complete and correctly placed JavaScript values: offsets, lengths and texts in UTF-16 units over the whole text including all of its paragraphs, documented values for texts with characters the library does not accept, exceptions for failures and for use after terminate(). "
     "Memory that the binding allocates and results of the library are released exactly once, no memory outside of what was allocated is read or written, and handles are not used after they were closed.",
     ["inputs", "histories", "configurations"], "every sequence of method calls on any number of instances with every string of Unicode characters (no lone surrogates)",
     "The tests of the binding need a browser and are examples with characters of the basic plane; they do not look at memory.",
     [JS], [("conversion of results and offsets", JS), ("memory ownership", JS)],
     dict(py="c20", quick=10000, thorough=200000, technique="property-based testing of generated operation histories, differentially against direct calls of the library; the binding runs in an emulation of the Emscripten runtime that accounts for memory",
          rule="a case is a sequence of up to 16 operations on two instances; an operation is non-trivial when its answer is not empty (keyed by operation and arguments)",
          assumptions=["the emulated runtime functions (cwrap, getValue, UTF8ToString, stringToUTF8, ...) behave like Emscripten's, which is not installed here", "the description language of grammarErrors is not empty", "getHyphenationPattern is asked for words of the basic plane only"]))

VF = "voikko-fi/"
prop("C21", "A dictionary built from a vocabulary knows exactly the words of the vocabulary in their right forms",
     "For any vocabulary (words of any inflection class, gradation, word class, alternative forms, vowel harmony and flags) and any documented build options, the dictionary build succeeds and the installed dictionary accepts exactly the words that the options select, in exactly the inflected, derived and compounded forms that their class and flags give (and the closed-class words and numerals), "
     "and gives the right base forms, cases, numbers, word classes, letter case and hyphenation for them; excluded words are not recognised. The inflection tables of the project give the same forms, a generated list of corrections is applied by the grammar checker, the installed dictionary is listed with its variant and description, and the library can use the dictionary for every word (also the one built for the Sukija indexer).",
     ["inputs", "configurations"], "every vocabulary and correction list, every combination of build options, and every word asked from the built dictionary",
     "The tests run with one fixed (here: empty) vocabulary and the default options; nothing tests other vocabularies, build options or the Sukija variant.",
     [VF + "common/hfconv.py", VF + "common/generate_lex_common.py", VF + "vvfst/generate_lex.py", VF + "vvfst/generate_taivutuskaavat.py", VF + "vvfst/taivutuskaavat.lexc.in", VF + "vvfst/generate_sukija.py", VF + "Makefile", "tools/pylib/voikkoinfl.py", "data/subst.aff", "data/verb.aff"],
     [("selection of words and continuation classes", VF + "vvfst/generate_lex.py"), ("inflection class of a word form", VF + "common/hfconv.py"), ("inflection patterns", VF + "vvfst/taivutuskaavat.lexc.in"), ("inflection tables", "data/subst.aff")],
     dict(py="c21", quick=24, thorough=160, technique="property-based testing: generated vocabularies and build options, whole dictionary builds, words sampled by coverage-guided walks through the built transducers; differential against a build with the pinned dictionary sources, and against the inflection tables and the documented selection rules",
          rule="a case is a vocabulary with build options and a correction list; evaluations are words asked from both dictionaries, expectations of the inflection tables and inflected words; non-trivial are the distinct words that at least one of the two dictionaries accepts",
          assumptions=["the pinned dictionary sources (with the repairs of this work) define the right forms; an expectation of the tables that they do not meet is left out and counted as unmet", "analyses are compared as sets", "foma and make of the sandbox"]))

T = "tools/"
prop("C22", "The text tools report what the library finds in the whole text",
     "For any text, the tools for working with texts report exactly what the library finds in it, for all of the text: the readability statistics count the sentences, words, known words, syllables, letters and punctuation marks of the library's tokens, sentences, analyses and hyphenation under the options of the given object and derive the readability figures from them; "
     "the grammar error listing prints every error of every paragraph (lines, or lines joined between empty lines) with its description, position, extract and suggestions, the last paragraph included; "
     "the comparison with annotated text prints exactly the differences between the annotations and the only analysis of each word, with analyses expressed as features of Universal Dependencies, and never fails on a word.",
     ["inputs", "configurations"], "every text of Unicode characters (no surrogates, NULs, U+FFFE or U+FFFF), every combination of options of the library (statistics), every annotation",
     "The tools have no tests.",
     [T + "pylib/voikkostatistics.py", T + "bin/voikko-gc-pretty", T + "bin/voikko-conllu"], [("counting and readability figures", T + "pylib/voikkostatistics.py"), ("paragraphs of the error listing", T + "bin/voikko-gc-pretty"), ("features of analyses", T + "bin/voikko-conllu")],
     dict(py="c22", quick=16000, thorough=300000, technique="property-based testing: generated texts and annotations, differentially against a model of the tools that calls the library directly",
          rule="a case is a sequence of up to 8 uses of the tools; a use is non-trivial when the statistics have a known word or the tool prints something (keyed by its input)",
          assumptions=["the package conllu, which is not installed here, is replaced by a stand-in that gives the tool the generated tokens", "tools for Python 2 (voikko-readability, voikko-convert-to-baseform, voikko-inflect-word, anagrammivoikko, ...) cannot be run here and are not claimed"]))
