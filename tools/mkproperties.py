#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the texts stay readable)."""
import json, os
L = "spylls/hunspell/algo/lookup.py"; S = "spylls/hunspell/algo/suggest.py"
P = "spylls/hunspell/algo/permutations.py"; C = "spylls/hunspell/algo/capitalization.py"
N = "spylls/hunspell/algo/ngram_suggest.py"; PH = "spylls/hunspell/algo/phonet_suggest.py"
M = "spylls/hunspell/algo/string_metrics.py"; T = "spylls/hunspell/algo/trie.py"
A = "spylls/hunspell/data/aff.py"; D = "spylls/hunspell/data/dic.py"
RA = "spylls/hunspell/readers/aff.py"; RD = "spylls/hunspell/readers/dic.py"; RF = "spylls/hunspell/readers/file_reader.py"
DI = "spylls/hunspell/dictionary.py"
LK = "Dictionary.lookup"; SG = "Dictionary.suggest"
props = []

def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Affixed words are accepted exactly when the affix rules can build them",
  "For a dictionary without compounding, a word is accepted in its own spelling exactly when it is a listed stem, or can be built from one listed stem by the affixes its flags allow: at most two suffixes (the outer one allowed by a flag carried by the inner one) and one prefix (two only under COMPLEXPREFIXES), each with its strip text put back and its condition satisfied by the resulting stem, prefix and suffix combined only when both are cross-product. "
  "NEEDAFFIX (on a stem, or on every affix used), CIRCUMFIX (only together on both sides) and ONLYINCOMPOUND restrict this, and the flags of one homonym never lend rights to another homonym.",
  ["inputs", "configurations"],
  "Every set of affix tables (strip, add, condition, cross-product, continuation flags), every word list with flags and homonyms, every queried string.",
  "The fixtures contain some 100 fixed dictionaries with a few good/wrong words each; the property quantifies over all affix tables and all words, in particular all the words which must NOT be accepted.",
  [L, A, T, D],
  [("enumeration of possible stems", L + ":Lookup.produce_affix_forms/desuffix/deprefix"), ("flag rules", L + ":Lookup.is_good_form"), ("affix index", T + ":Trie"), ("strip/condition regexps", A + ":Prefix/Suffix")],
  [LK], [("suffixes_index/prefixes_index", "affixes by their added text", A + ":Aff.__post_init__"), ("index", "homonyms by stem", D + ":Dic")])

p("C02", "Compounds by flags are accepted exactly as the position flags allow",
  "With COMPOUNDFLAG/COMPOUNDBEGIN/MIDDLE/END (no vetoing option in force), a word which is not itself a dictionary form is accepted exactly when it splits into two or more parts, at most COMPOUNDWORDMAX of them, each at least COMPOUNDMIN characters long, and each a form whose stem or affixes carry the flag for its position. "
  "Prefixes are allowed only on the first part and suffixes only on the last one unless the affix carries COMPOUNDPERMITFLAG, an affix with COMPOUNDFORBIDFLAG is never allowed inside a compound, ONLYINCOMPOUND words are accepted in compounds only, and under SIMPLIFIEDTRIPLE a part may lose the last of its doubled letters before the same letter.",
  ["inputs", "configurations"],
  "Every choice of the compounding directives, every flagged word list, every queried string and so every possible split.",
  "Each compound fixture checks a handful of words of a single dictionary; combinations of position flags, affix permissions, minimum length and maximum count are not enumerated, nor are the strings that must be refused.",
  [L, A], [("recursive split", L + ":Lookup.compounds_by_flags"), ("position rules", L + ":Lookup.is_good_form")], [LK])

p("C03", "A compound is refused exactly when a declared veto applies to its parts",
  "A possible compound is refused exactly when one of the vetoes declared in the dictionary applies: adjacent parts listed together as one two-word entry, CHECKCOMPOUNDDUP (the last two parts equal), CHECKCOMPOUNDREP (a REP replacement in two adjacent parts gives a dictionary form), CHECKCOMPOUNDTRIPLE (three equal letters over the boundary of two adjacent parts), CHECKCOMPOUNDCASE (a non-lowercase letter on a boundary, unless a dash is there), CHECKCOMPOUNDPATTERN (ending, beginning and flags given), FORCEUCASE on the last part of a word not written capitalised, or COMPOUNDFORBIDFLAG on a part other than the last. "
  "The veto concerns one decomposition: the word is still accepted if another decomposition, or a plain dictionary form, is not vetoed.",
  ["inputs", "configurations"],
  "Every combination of veto options, every word list, every queried string and all its decompositions.",
  "Fixtures exercise one veto at a time with one to five refused words; neither interactions, nor words with several decompositions, nor boundaries (first/last pair, one-letter parts) are covered.",
  [L, A, P], [("veto list", L + ":Lookup.is_bad_compound"), ("pattern matching", A + ":CompoundPattern.match"), ("REP candidates", P + ":replchars")], [LK])

p("C04", "COMPOUNDRULE accepts exactly the sequences matching one of the rules",
  "With COMPOUNDRULE, a word that is not itself a dictionary form is accepted exactly when it can be split into listed words (unaffixed, not forbidden, each at least COMPOUNDMIN long, at least two and at most COMPOUNDWORDMAX of them) such that one flag can be chosen for each part so that the flag sequence matches one of the rules in full, `*` meaning zero or more and `?` zero or one. "
  "Rules with multi-character flags in parentheses mean the same as rules with single-character flags.",
  ["inputs", "configurations"],
  "Every list of rules, every flagged word list (several flags per word, homonyms), every queried string.",
  "Eight fixture dictionaries with fixed words; the equivalence with the regular language of the rules over all splits is not enumerated by any test.",
  [L, A], [("rule search with pruning", L + ":Lookup.compounds_by_rules"), ("rule regexps", A + ":CompoundRule.fullmatch/partial_match")], [LK])

p("C05", "Capitalization variants are accepted exactly as the casing rules allow",
  "A word written in lower case is accepted only as listed; a word with only its first letter capitalised is accepted if it, or its lowercased form, is a dictionary form; a word in all capitals is accepted if it, its lowercased or its title-case form is a dictionary form or if it matches a mixed-case entry ignoring case; mixed-case words are accepted as they stand, or with the first letter lowered when the first letter is a capital. "
  "A stem flagged KEEPCASE is accepted only in the capitalization type of its entry, and nothing else may become accepted because of case handling.",
  ["inputs", "configurations"],
  "Every word list with entries of every capitalization type, every affix table, every way to capitalise a queried string.",
  "Case fixtures (allcaps, keepcase, utf8...) list a few words; the 2^n capitalizations of each form of each entry, and rejection of unrelated words, are not enumerated.",
  [C, L, RD], [("variants", C + ":Casing.variants"), ("captype of entries and lower-case index", RD + ":read_dic"), ("ignore-case fallback", L + ":Lookup.affix_forms"), ("KEEPCASE", L + ":Lookup.is_good_form")], [LK],
  [("lowercase_index", "entries by their lower-case spelling", D + ":Dic")])

p("C06", "German sharp s and Turkic dotted/dotless i are cased by their own rules",
  "With CHECKSHARPS an all-capital word with SS is accepted exactly when reading any choice of its SS as sharp s or as ss gives a dictionary form, a KEEPCASE entry with sharp s is accepted in capitals only when written with SS, and sharp s may stand inside capitals otherwise. "
  "With a Turkic LANG (tr, az, crh, with or without their country code) the pairs i/İ and ı/I are the case pairs, in lookup and in suggestions; in all other dictionaries a word starting with İ has no lower-case reading.",
  ["inputs", "configurations"],
  "Every word list with such letters, every position and number of SS, ß, i, ı, I, İ in the queried string.",
  "Two German fixtures and one Turkic one, with a dozen words; choices over several SS and combinations with affixes, KEEPCASE and compounding are not covered.",
  [C, L, S], [("sharp s variants", C + ":GermanCasing"), ("i/ı mapping", C + ":TurkicCasing"), ("KEEPCASE with ß", L + ":Lookup.good_forms/is_good_form")], [LK, SG])

p("C07", "Forbidden and hidden entries are never accepted or offered in error",
  "A word all of whose entries are flagged FORBIDDENWORD is never accepted, nor any affixed form or compound which could only be read through a forbidden stem, nor a compound whose whole text is a forbidden form; and no suggestion, before output conversion, is a word having a forbidden entry. "
  "Entries flagged NOSUGGEST are accepted but never offered as edit suggestions (alone, affixed or as parts of compounds) nor used as roots for similarity suggestions, and ONLYINCOMPOUND entries are never offered on their own.",
  ["inputs", "configurations"],
  "Every word list mixing flagged and unflagged homonyms, every affix/compound configuration, every queried or misspelled string.",
  "The forbiddenword and nosuggest fixtures check a few literal words; that no path (affixing, compounding, casing, hyphen breaking, each kind of suggestion) leads to such a word is a universally quantified statement.",
  [L, S, D], [("whole word test", L + ":Lookup.__call__"), ("stem test", L + ":Lookup.affix_forms"), ("compound test", L + ":Lookup.compound_forms"), ("suggestion filter", S + ":Suggest.suggestions (handle_found)"), ("similarity roots", S + ":Suggest.__init__")], [LK, SG])

p("C08", "Input conversion, ignored characters, numbers and word breaking are exact",
  "Before lookup the longest-match ICONV replacements are applied left to right (a leading or trailing `_` in a pattern anchoring it to the beginning or end of the word) and IGNORE characters are removed, both taken literally; then the word is accepted if it is a number (digits, optionally one dot and digits), or as a whole, or if it can be cut at BREAK patterns (inside the word, or anchored with ^ or $; at most ten times) into parts which are all empty or accepted. "
  "Without BREAK the default patterns are the dash inside, before and after the word, `BREAK 0` switches breaking off, and the empty string is accepted.",
  ["inputs", "configurations"],
  "Every ICONV/IGNORE/BREAK table (overlapping patterns, special characters), every queried string.",
  "Six fixtures with a few words; overlapping conversions, several break points, anchors and characters special to the implementation's regular expressions are not covered.",
  [L, A], [("conversion", A + ":ConvTable"), ("ignored characters", A + ":Ignore"), ("breaking", L + ":Lookup.break_word; " + A + ":BreakPattern"), ("numbers", L + ":NUMBER_REGEXP")], [LK])

p("C09", "Answers depend on dictionary content, not on how the files are written",
  "Lookup and suggestions depend only on the dictionary content: they are the same for any declared encoding known to Python and able to express it (SET, default Windows-1252, FLAG UTF-8), any flag notation (single character, long, num, UTF-8), with or without AF/AM alias compression, byte order mark, CRLF line ends, blank lines, comments or unknown directives, a word count on the first line, morphological fields, and directive synonyms. "
  "A slash escaped by a backslash belongs to the word, everything after the first tab or two-letter tag is morphology, and a directive given twice keeps the last value.",
  ["inputs", "configurations"],
  "Every dictionary content and every way to write it in .aff/.dic files.",
  "Fixtures are fixed files; the claim relates all possible notations of all contents.",
  [RA, RD, RF, A], [("line reader", RF + ":BaseReader"), ("directives", RA + ":read_aff/read_value/make_affix"), ("flags", RA + ":Context.parse_flags"), ("word lines", RD + ":read_dic")], [LK, SG, "Dictionary.from_files"])

p("C10", "Files, zip archives and system directories give the same dictionary",
  "A dictionary loaded with from_zip answers every lookup and suggestion exactly as the same two files loaded with from_files, wherever in the archive they are. "
  "from_system finds the dictionary in the first directory of its search list containing it and otherwise raises LookupError, a distributed name loads the bundled dictionary unless such files exist at that path, and loading leaves the files unchanged.",
  ["inputs", "configurations", "histories"],
  "Every dictionary, every placement of the files over search directories/archives, every later query.",
  "No test loads from a system directory and a single one loads a zip; equality over all queries and all encodings (re-opening at SET) is not checked.",
  [DI, RF], [("loaders", DI + ":Dictionary.from_files/from_zip/from_system"), ("re-opening on SET", RF + ":FileReader/ZipReader.reset_encoding")], ["Dictionary.from_files", "Dictionary.from_zip", "Dictionary.from_system", LK, SG])

p("C11", "Every edit suggestion is a word the dictionary accepts",
  "Every suggestion made by editing, splitting or re-casing is, before its own re-casing and output conversion, a dictionary form or a compound as it stands (or, for splits, its space- or dash-separated parts are), and not a form of a NOSUGGEST entry; a completed hyphenated word is one which lookup accepts. "
  "Exceptions are only those similarity (n-gram or phonetic) suggestions which are built from listed stems and their affixes and come after all edit suggestions, and no misspelling gets suggestions when the word list is empty.",
  ["inputs", "configurations"],
  "Every dictionary and every misspelled string.",
  "Suggestion fixtures compare literal lists for about 20 dictionaries; soundness for all misspellings of all dictionaries is not tested.",
  [S, L, P], [("filter", S + ":Suggest.edit_suggestions (is_good_suggestion)"), ("post-processing", S + ":Suggest.suggestions (handle_found)")], [SG, LK])

p("C12", "Single-edit corrections are all found, in the documented order",
  "For a misspelling the edits are tried in this order: all capitals, REP, insertion of a space (or dash) giving a listed entry, MAP, swapped neighbours (and the double swaps in 4- and 5-letter words), swapped distant letters (two to four apart), wrong case or neighbouring KEY keys, one extra letter, one missing TRY letter, one letter moved by two to four places, one wrong letter (TRY), a doubled pair of letters, two words; and the suggestions are exactly the accepted results in that order, for the word as typed and then for its case variants. "
  "Words accepted without compounding come first; compounds are tried next unless an all-capitals, REP or MAP correction was found.",
  ["inputs", "configurations"],
  "Every dictionary, TRY/KEY table and misspelled string; all edit positions.",
  "Unit tests of the edit functions use one word each, fixture lists cover few positions; completeness and order over all positions and words are not tested.",
  [S, P], [("edit generators", P), ("order", S + ":Suggest.edits"), ("passes", S + ":Suggest.suggestions/edit_suggestions")], [SG])

p("C13", "REP, ph: and MAP tables drive corrections exactly as written",
  "Each REP row (and each ph: field of a word, which acts as one, with its `*` and `->` forms) is tried in order at every non-overlapping occurrence of its pattern, taken literally except for the ^ and $ anchors, with `_` standing for a space in the replacement; replacements with spaces are offered as an entry or as separate accepted words. "
  "MAP replaces related characters or parenthesised groups recursively and terminates; an accepted REP or all-capitals correction, or a found two-word entry, suppresses the similarity suggestions, and the two-word entry suppresses everything after it.",
  ["inputs", "configurations"],
  "Every REP/ph:/MAP table and every misspelled string.",
  "The rep, ph and map fixtures check one literal list each.",
  [S, P, A, RD], [("replacement", P + ":replchars/mapchars"), ("REP pattern", A + ":RepPattern"), ("ph:", RD + ":read_dic"), ("suppression", S + ":Suggest.suggestions")], [SG])

p("C14", "Suggestions are free of duplicates and keep to the declared limits",
  "No suggestion list contains the same text twice. "
  "For each case variant of the word there are at most 15 non-compound edit suggestions and at most MAXCPDSUGS (default 3) compound ones, and overall at most MAXNGRAMSUGS (default 4) n-gram and 2 phonetic suggestions, none of which contains an earlier suggestion as a substring; setting a limit to 0 switches that kind off.",
  ["inputs", "configurations"],
  "Every dictionary, every limit value, every misspelled string.",
  "No test has a misspelling reaching the limits for most kinds, and absence of duplicates is a statement over all misspellings.",
  [S], [("dedupe", S + ":Suggest.suggestions (handle_found, handled)"), ("limits", S + ":Suggest.edit_suggestions/suggestions")], [SG], [("handled", "texts already suggested", S + ":Suggest.suggestions")])

p("C15", "Suggestions follow the capitalization of the misspelling and OCONV",
  "Suggestions for a capitalised word start with a capital, suggestions for a word in all capitals are in all capitals, others keep the spelling of the dictionary; KEEPCASE words are offered as listed, and if re-casing gives a forbidden word the listed spelling is offered instead. "
  "In two-word suggestions for mixed-case misspellings the capital at the split is kept, a compound requiring capitalization (FORCEUCASE) is offered capitalised and alone, and OCONV (longest match, anchors, literal) is applied last, duplicates after conversion being dropped.",
  ["inputs", "configurations"],
  "Every dictionary and capitalization of the misspelling, every OCONV table.",
  "A few fixtures (opentaal_cpdpat, oconv, keepcase, forceucase) with literal lists.",
  [S, C, A], [("re-casing", S + ":Suggest.suggestions (handle_found); " + C + ":Casing.coerce/corrections"), ("OCONV", A + ":ConvTable")], [SG])

p("C16", "Similarity suggestions rank dictionary forms by the published n-gram measure",
  "When no good edit is found, the n-gram suggestions are exactly the best ones by the documented scores: up to 100 roots within 4 letters of length and up to 200 of their affixed forms or ph: spellings above the threshold, re-scored by common subsequence, common prefix, equal positions and bi-/4-grams, stable in case of equal scores. "
  "MAXDIFF and ONLYMAXDIFF cut off dissimilar ones as documented, very similar ones exclude all others, and results containing an earlier suggestion are skipped.",
  ["inputs", "configurations"],
  "Every dictionary (also larger than the internal limits), MAXDIFF/ONLYMAXDIFF/MAXNGRAMSUGS values and every misspelled string.",
  "Unit tests check the metrics on one pair; fixtures contain a dozen literal n-gram suggestions from tiny dictionaries, never reaching the 100/200 limits.",
  [N, M, S], [("root and guess selection", N + ":ngram_suggest"), ("scores", N + ":root_score/rough_affix_score/precise_affix_score/detect_threshold; " + M), ("forms", N + ":forms_for"), ("cut-off", N + ":filter_guesses")], [SG])

p("C17", "Phonetic suggestions follow the PHONE table",
  "With a PHONE table, up to two phonetic suggestions follow the n-gram ones: listed stems within 3 letters of length with sufficient letter similarity, ranked by similarity of their phonetic codes and then of their letters. "
  "The code of a word is made left to right, at each position by the first rule of the table that matches (literal letters, one optional set, lookahead by dashes, ^ only at the beginning, $ only up to the end), unmatched letters being dropped.",
  ["inputs", "configurations"],
  "Every PHONE table and word list, every misspelled string.",
  "One fixture (phone) with one misspelling and one unit test.",
  [PH, A, S], [("code", PH + ":metaphone; " + A + ":PhonetTable"), ("ranking", PH + ":phonet_suggest/final_score")], [SG])

p("C18", "Hyphenated misspellings are corrected part by part",
  "When no good edit was found and no suggestion so far contains a dash, the first part of a hyphenated word that is not itself correct is replaced by each of its own suggestions in order, and those results are offered for which lookup accepts the whole; no other part is changed. "
  "These come after the edit suggestions and before the similarity ones, and are not repeated by them.",
  ["inputs", "configurations"],
  "Every dictionary, every misspelled string with any number of dashes at any place, every BREAK setting.",
  "One or two fixture words contain a dash.",
  [S, L], [("dash pass", S + ":Suggest.suggestions"), ("break", L + ":Lookup.break_word")], [SG])

p("C19", "Answers do not depend on history, interleaving or other dictionaries",
  "The result of a lookup or of a suggestion request is a function of the dictionary files and the word only: it is the same whatever was asked before, however partly consumed suggestion iterators are interleaved or abandoned, in whichever thread, and whichever other dictionaries are loaded or were loaded earlier in the process. "
  "Suggestion iterators are independent of each other, and asking never changes the dictionary.",
  ["histories", "schedules", "configurations"],
  "All sequences of load, lookup, suggestion start and suggestion step over several dictionaries and words, and all interleavings in threads.",
  "Tests query each dictionary once per word in a fixed order and always exhaust the iterators.",
  [DI, L, S, A, RD], [("state built at load only", DI + ":Dictionary.__init__"), ("per-call state", S + ":Suggest.suggestions (handled)"), ("default values per dictionary", A + ":Aff (default_factory)")], [LK, SG, "Dictionary.from_files"])

p("C20", "Lookup and suggest answer any string without failing",
  "For every dictionary that loads, lookup returns a truth value and suggest finishes without an exception for every string: empty, single characters, only dashes, digits, spaces, characters outside the dictionary's encoding or alphabet, letters whose case mapping changes their number, unpaired surrogates. "
  "Affix texts, REP, ICONV, OCONV, BREAK, IGNORE and KEY values made of any printable characters load and are taken literally (apart from the characters these directives themselves give a meaning to).",
  ["inputs", "configurations"],
  "Every string, every dictionary built of well-formed directives.",
  "Tests use ordinary words of the fixture languages.",
  [L, S, C, A, RA, RD], [("guards on lengths", S + ", " + P + ", " + C), ("escaping of literal texts", A)], [LK, SG, "Dictionary.from_files"])

p("C21", "Two-word corrections are offered exactly when both words are good",
  "For each place in the misspelling, in order, a split in two is offered as `first second` exactly when both parts are accepted non-compound words that may be suggested (and, after those passes, when both are compounds), as a last kind of edit; the same with a dash is offered right after it exactly when TRY contains `-` or `a`. "
  "NOSPLITSUGS switches these off, but a listed entry containing the space (or dash) at that place is always found first and then offered alone.",
  ["inputs", "configurations"],
  "Every dictionary, TRY value, NOSPLITSUGS setting and every misspelled string; all split positions.",
  "One fixture for NOSPLITSUGS, a few literal two-word suggestions.",
  [S, P], [("splits", P + ":twowords"), ("dash", S + ":Suggest.use_dash"), ("filter", S + ":Suggest.edit_suggestions (MultiWordSuggestion)")], [SG])

p("C22", "The forms found for a word are exactly its readings and rebuild it",
  "Lookup.good_forms yields exactly the readings of a word: one per choice of entry and affix rules (or sequence of compound parts) which the dictionary allows, each with its stem, its entry, its prefixes and suffixes and, for compounds, its parts in order. "
  "Undoing every affix of a reading (removing the added text, putting the stripped text back, inner ones last) turns the text into the stem, the parts of a compound spell the whole word (a doubled letter being shared under SIMPLIFIEDTRIPLE), and the options affix_forms and compound_forms leave out just the readings of that sort.",
  ["inputs", "configurations"],
  "Every dictionary with affixes and compounding, every queried string, every reading of it.",
  "Tests look only at whether a word is accepted; which entries and affixes it was recognised by, and that none of the readings is missing or invented, is checked nowhere.",
  [L, A, T, D],
  [("readings with affixes", L + ":Lookup.affix_forms/produce_affix_forms/desuffix/deprefix"), ("readings as compounds", L + ":Lookup.compound_forms"), ("what a reading tells", L + ":AffixForm/CompoundForm")],
  ["Dictionary.lookuper.good_forms"])

p("C23", "Options of the checker leave out exactly the words they are about",
  "The checker behind lookup and suggestions, called with capitalization=False, accepts exactly the words which (or whose parts after breaking) are dictionary forms as they are written, without any change of case; called with allow_nosuggest=False it accepts exactly those which have a reading not using entries flagged NOSUGGEST. "
  "Both options apply to every part of a broken word, may be combined, never make more words accepted, and without them the answer is that of lookup; numbers and the ban on forbidden words are not affected.",
  ["inputs", "configurations"],
  "Every dictionary, every queried string, all values of the options.",
  "No test calls the checker with these options; fixtures see their effect only through a few suggestion lists.",
  [L], [("options", L + ":Lookup.__call__/is_found/good_forms"), ("NOSUGGEST", L + ":Lookup.is_good_form/affix_forms")], ["Dictionary.lookuper"])

p("C24", "Every line of the word list becomes one entry with all that is written in it",
  "Each non-empty line of the .dic file (apart from a leading count) becomes exactly one entry, in order, with its stem (escapes resolved, IGNORE characters removed), its set of flags (aliases resolved), its data fields grouped by tag in order, its alternative spellings from ph: and its capitalization type. "
  "The list of homonyms of a stem consists of exactly the entries having this stem, of lower-cased homonyms exactly those whose lower-case spelling is the given one, both in file order, and has_flag tells whether some (or, if asked, every) homonym carries a flag.",
  ["inputs", "configurations"],
  "Every word list in every notation, every stem and flag asked about.",
  "The unit tests for the readers don't run; fixtures observe entries only through acceptance of some words.",
  [RD, D, RA], [("reading of lines", RD + ":read_dic"), ("indexes and flags", D + ":Dic.append/homonyms/has_flag"), ("flag notations", RA + ":Context.parse_flags")],
  ["Dictionary.dic.words", "Dictionary.dic.homonyms", "Dictionary.dic.has_flag"],
  [("index/lowercase_index", "entries by stem and by lower-case spelling", D + ":Dic")])

p("C25", "Loaded settings and tables are exactly those written in the affix file",
  "After loading, every boolean, flag, number and text setting, the IGNORE characters and the REP, MAP, BREAK, ICONV, OCONV, COMPOUNDRULE, CHECKCOMPOUNDPATTERN, PHONE, AF and AM tables have the value written in the .aff file (the last one when given twice, synonyms included) and otherwise the documented default; the rows of ph: data are appended to REP. "
  "SFX and PFX tables hold for each flag exactly its rows in order with strip text, added text, condition, continuation flags and cross-product setting; nothing depends on comments, spacing, unknown directives or the order of the directives, apart from SET, FLAG, AF and IGNORE which apply to the lines after them.",
  ["inputs", "configurations"],
  "Every affix file, in every order and notation.",
  "The tests of the reader don't run; fixtures observe settings only through their effect on a few words.",
  [RA, A, RF, RD], [("directives", RA + ":read_aff/read_directive/read_value/read_table"), ("affix rows", RA + ":make_affix"), ("defaults", A + ":Aff"), ("ph: rows", RD + ":read_dic")],
  ["Dictionary.aff"])

p("C26", "Suggestions are explained by the edit which really produced them",
  "Suggester.suggestions yields the same texts in the same order as suggest, each with the kind of the first edit in the documented order which produces it (uppercase, replchars, spaceword, mapchars, swapchar, longswapchar, badcharkey, extrachar, forgotchar, movechar, badchar, doubletwochars, twowords), or case, dashes, ngram or phonet for the other sources. "
  "A forceucase suggestion stands alone, and the kind decides what follows: no similarity suggestions after an uppercase, replchars or spaceword one, no compounds after an uppercase, replchars or mapchars one.",
  ["inputs", "configurations"],
  "Every dictionary and every misspelled string.",
  "No test looks at the kinds; they decide which further suggestions are made, which fixtures show only for single words.",
  [S], [("kinds", S + ":Suggest.edits/suggestions"), ("objects", S + ":Suggestion/MultiWordSuggestion")], ["Dictionary.suggester.suggestions", SG])

p("C27", "The casing object turns words from one case into another as its language does",
  "For the language of the dictionary (German with CHECKSHARPS, Turkic for LANG tr, az and crh, otherwise standard) Casing.guess tells the type of a non-empty word (NO, INIT, ALL, HUH, HUHINIT; in German a capitalised word may contain sharp s), upper, lower, capitalize and lowerfirst give exactly its spellings in that case (in German SS is read as ss and as every choice of sharp s, in Turkic i and dotless i are kept apart, a Greek sigma ends a word in its final form), and coerce spells a word in a given type. "
  "variants and corrections give the same type and, starting with the word itself, exactly the spellings from which words of that type are looked up or corrected, in the documented order.",
  ["inputs", "configurations"],
  "Every non-empty string of any script, every language setting.",
  "The tests of this module don't run; fixtures see casing only through acceptance of some words in three scripts.",
  [C, A], [("casing rules", C + ":Casing/TurkicCasing/GermanCasing"), ("choice of the rules", A + ":Aff.__post_init__")], ["Dictionary.aff.casing"])

p("C28", "Corrections tried for a word are exactly the documented edits, in their order",
  "Suggester.edits yields for a word, in the documented order of kinds, exactly the candidates which the kinds describe: uppercase, each replacement of each REP row (with spaces also as separate words), the word cut in two with a space or dash, the MAP replacements, swapped neighbours (two pairs for four and five letters), swaps and moves of letters at most four places away, keys next to each other in KEY and capitals, one letter left out, one letter of TRY put in or put instead of another, one doubled pair reduced and, without NOSPLITSUGS, two words. "
  "Candidates depend only on the word and on the settings of the affix file, never on the word list, and two-word candidates may be written with a dash exactly when TRY contains a dash or the letter a.",
  ["inputs", "configurations"],
  "Every string and every choice of TRY, KEY, REP, MAP, NOSPLITSUGS and language.",
  "Fixtures show only those candidates which happen to be listed words; the unit tests of the permutations don't run.",
  [P, S, A], [("edits", P), ("order and kinds", S + ":Suggest.edits"), ("REP rows", A + ":RepPattern")], ["Dictionary.suggester.edits"])

p("C29", "The order of entries changes nothing, and a further entry loses no word",
  "Two dictionaries with the same affix file and the same entries in different order (entries with equal stems, which keep their order, and ph: fields apart) give the same answers to every lookup and the same suggestions in the same order. "
  "Adding a plain entry makes the entry accepted and never makes an accepted word refused, unless CHECKCOMPOUNDREP, a two-word entry or a flag that forbids something is involved.",
  ["inputs", "configurations"],
  "Every dictionary, from a few entries to the bundled ones, every permutation of its entries, every further entry, every queried string.",
  "A relation between two dictionaries: every test loads one dictionary and compares with fixed answers.",
  [D, L, S, N, PH, RD], [("index of entries", D + ":Dic"), ("ranking", N + ":ngram_suggest"), ("ranking by sound", PH + ":phonet_suggest")], [LK, SG],
  [("words/index", "entries in file order and by stem", D + ":Dic")])

p("C30", "Similar words are the best forms by the documented scores, with ties by text",
  "Suggester.ngram_suggestions yields, for a word and a set of known suggestions, the forms of listed words (not forbidden, hidden or for compounds only) in the order of their documented similarity scores, ties being decided by the text, cut off after a very similar one, after the first of the rather different ones (none with ONLYMAXDIFF), without those in which a known suggestion occurs, and none with MAXNGRAMSUGS 0. "
  "Suggester.phonet_suggestions yields, if there is a PHONE table, the stems near in length and letters in the order of similarity of their phonetic codes, ties again by the text.",
  ["inputs", "configurations"],
  "Every word list, affix table, PHONE table and MAXDIFF setting, every misspelled string, every set of known suggestions.",
  "Fixtures contain a few expected lists, cut to four suggestions after filtering; scores and order of all the candidates are not observed.",
  [N, PH, M, S], [("roots, forms, scores, cut-off", N + ":ngram_suggest/precise_affix_score/filter_guesses"), ("codes", PH + ":metaphone"), ("measures", M)],
  ["Dictionary.suggester.ngram_suggestions", "Dictionary.suggester.phonet_suggestions"])

p("C31", "Settings for suggestions never change which words are accepted",
  "Adding, removing or changing TRY, KEY, MAP, PHONE, OCONV, NOSPLITSUGS, MAXCPDSUGS, MAXNGRAMSUGS, MAXDIFF, ONLYMAXDIFF, WORDCHARS, the NOSUGGEST, WARN and SUBSTANDARD flags on entries, ph: or other fields of entries, or a REP table never changes the answer of lookup for any word. "
  "REP tables and ph: fields do count for compounds under CHECKCOMPOUNDREP, which is the only exception.",
  ["inputs", "configurations"],
  "Every dictionary, every such setting added to, removed from or changed in it, every queried string.",
  "A relation between two dictionaries: every test loads one dictionary and compares with fixed answers.",
  [L, A, RA, RD], [("lookup", L + ":Lookup"), ("directives", RA + ":read_aff"), ("fields of entries", RD + ":read_dic")], [LK],
  [("settings", "values of the directives", A + ":Aff")])

p("C32", "A stricter setting or a rule less never makes a further word accepted",
  "Switching on CHECKCOMPOUNDDUP, CHECKCOMPOUNDCASE or CHECKCOMPOUNDTRIPLE, declaring KEEPCASE, NEEDAFFIX, ONLYINCOMPOUND, CIRCUMFIX or COMPOUNDFORBIDFLAG for marked entries and affixes, a larger COMPOUNDMIN, a smaller COMPOUNDWORDMAX, or taking away SIMPLIFIEDTRIPLE, COMPOUNDPERMITFLAG, COMPOUNDFLAG, an entry, or a row of SFX, PFX, COMPOUNDRULE or BREAK never makes a word accepted which was refused before. "
  "Dictionaries with CHECKCOMPOUNDREP, FORBIDDENWORD, CHECKSHARPS, ICONV, IGNORE, LANG or entries of two words are exempt, and so is taking away an entry where COMPOUNDFORBIDFLAG or FORCEUCASE is in force, since there a further word can be what refuses another one.",
  ["inputs", "configurations"],
  "Every dictionary, every such restriction of it, every queried string.",
  "A relation between two dictionaries over all strings, the refused ones included; every test loads one dictionary and compares with fixed answers for a few words.",
  [L, A, RA, D], [("flag rules", L + ":Lookup.is_good_form"), ("vetoes", L + ":Lookup.is_bad_compound"), ("splits", L + ":Lookup.compounds_by_flags/compounds_by_rules"), ("breaks", L + ":Lookup.break_word")], [LK],
  [("settings", "values of the directives", A + ":Aff")])

p("C33", "Measures of similarity and phonetic codes are what they are documented to be",
  "For any two texts commoncharacters is the number of places with the same character, leftcommonsubstring the length of the common beginning, lcslen the length of the longest common subsequence, and ngram(n) the number of pieces of the first text of each size from 1 to n occurring in the second one, up to the first size with fewer than two; weighted, it goes through all the sizes and takes 1 for a missing piece and 2 for one at an end of the first text. "
  "From ngram is subtracted what the lengths differ beyond two (with any_mismatch), or what the second text is longer beyond two (with longer_worse), and it is 0 for an empty second text. "
  "metaphone reads the upper-cased word from the left, replaces what the first matching row of the PHONE table takes at each place, and drops letters which no row matches.",
  ["inputs", "configurations"],
  "Every pair of texts, every size and option, every PHONE table and every word.",
  "No test calls these functions; fixtures see the measures only through the order of a few suggestions.",
  [M, PH, A], [("measures", M + ":commoncharacters/leftcommonsubstring/ngram/lcslen"), ("codes", PH + ":metaphone"), ("rows of PHONE", A + ":PhonetTable")],
  ["string_metrics.commoncharacters", "string_metrics.leftcommonsubstring", "string_metrics.lcslen", "string_metrics.ngram", "phonet_suggest.metaphone"])

p("C34", "Readers give each numbered line once, in the encoding in force, zip or not",
  "FileReader and ZipReader of the same bytes give the same lines: each line that isn't blank exactly once and in order, with its number in the file counted from 1, without surrounding spaces, without a byte order mark at the beginning, undecodable bytes as surrogates. "
  "Changing the encoding between any two lines, any number of times, repeats and skips no line, keeps the numbers, and decodes exactly the lines from there on in the new encoding; readers do not influence each other.",
  ["inputs", "histories"],
  "All bytes of files (mixed line ends, blank lines, byte order marks, invalid sequences), all encodings, every sequence of reading and changing the encoding, several readers at once.",
  "Tests read well-formed files from beginning to end with one change of encoding at most, and never compare archive and file; sequences of changes are histories.",
  [RF], [("lines", RF + ":BaseReader.readlines"), ("change of encoding", RF + ":BaseReader.reset_io"), ("sources", RF + ":FileReader/ZipReader")],
  ["readers.file_reader.FileReader", "readers.file_reader.ZipReader", "reset_encoding"],
  [("line_no", "number of the last line given or skipped", RF + ":BaseReader")])

p("C35", "Conversions, compound rules, patterns and affixes act by themselves as written",
  "A loaded ICONV or OCONV table applied to a text replaces, from the left, at each place the longest row fitting there (rows with a leading or trailing `_` only at the beginning or end of the text) and leaves the rest as it is. "
  "CompoundRule.fullmatch tells of a sequence of flag sets whether one flag can be chosen from each set so that the whole rule is met, partial_match whether it can be continued to such a sequence, and CompoundPattern.match whether two forms have the endings, flags and affixes which the pattern asks for. "
  "forms_for makes of an entry and a misspelling exactly the stem, the stem with each suffix, with each prefix, and with each cross-product pair of them which its flags and the conditions allow and whose added texts are at the ends of the misspelling.",
  ["inputs", "configurations"],
  "Every ICONV, OCONV, COMPOUNDRULE, CHECKCOMPOUNDPATTERN and affix table in every flag notation, every text, sequence of flag sets, pair of forms, entry and misspelling.",
  "No test calls these objects; fixtures use a few fixed tables, mostly with one row, and see them only through whole lookups and suggestions.",
  [A, N], [("conversion", A + ":ConvTable.__call__"), ("rules", A + ":CompoundRule.fullmatch/partial_match"), ("patterns", A + ":CompoundPattern.match"), ("forms", N + ":forms_for")],
  ["data.aff.ConvTable", "data.aff.CompoundRule", "data.aff.CompoundPattern", "ngram_suggest.forms_for"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(props))
