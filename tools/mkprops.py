#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

prop("C01", "Tokens tile the input text",
 "For every text of Unicode scalar values, every split mode and every configuration, the tokens' begin/end offsets (in characters of the original text) start at 0, end at the text's length and each token begins where the previous one ends, and the surfaces concatenate to exactly the original text, whatever normalization, dictionary or path rewriting did. Empty text gives no tokens. The token list is a consistent sequence: its length, iteration, and positive and negative indexing all denote the same tokens, and an index outside the range raises IndexError.",
 ["inputs", "configurations"], "all texts (1- to 4-byte characters, characters whose normalization grows or shrinks them), split modes A/B/C (A and B for dictionaries whose split units spell their word), plugin and dictionary configurations",
 "The tests check about ten short strings; offsets go wrong only when a character's normalization changes the length, or a rewritten/merged/split token sits at such a place.",
 ["sudachipy/tokenizer.pyx", "sudachipy/morphemelist.py", "sudachipy/morpheme.py", "sudachipy/utf8inputtextbuilder.py", "sudachipy/utf8inputtext.py", "sudachipy/plugin/path_rewrite/path_rewrite_plugin.py"],
 [("normalized-to-original offset table", "sudachipy/utf8inputtextbuilder.py:replace/build"), ("token ranges", "sudachipy/morphemelist.py:get_begin/get_end/get_surface"), ("merged ranges", "sudachipy/plugin/path_rewrite/path_rewrite_plugin.py:concatenate")],
 ["Tokenizer.tokenize", "Morpheme.begin/end/surface", "MorphemeList.__len__/__iter__/__getitem__"])

prop("C02", "The segmentation is a minimum-cost path",
 "Before path rewriting, the chosen segmentation is a path from text begin to text end over the candidate words whose total cost (word costs plus the connection cost of each adjacent pair, with the begin and end of the text taking part as words with connection id 0 and cost 0) is minimal among all such paths. A pair whose connection cost is the inhibition value 32767 is never adjacent in the result. If no permitted path exists, tokenization raises an error instead of returning tokens.",
 ["inputs", "configurations"], "all texts, lexicons, word costs (negative too) and connection matrices, including inhibited connections",
 "Optimality is a statement about all the paths the result was not; the tests compare a few results with fixed expectations for one dictionary.",
 ["sudachipy/lattice.pyx", "sudachipy/tokenizer.pyx"],
 [("dynamic programming step", "sudachipy/lattice.pyx:connect_node"), ("back-tracking", "sudachipy/lattice.pyx:get_best_path")],
 ["the path and lattice handed to a path-rewrite plugin", "Tokenizer.tokenize"],
 state=[("end_lists", "candidate words by end position", "sudachipy/lattice.pyx"), ("total_cost/best_previous_node", "cheapest way to reach a word", "sudachipy/latticenode.pyx")])

prop("C03", "Exactly the right candidate words compete",
 "At every character position that is a permitted word start and where some candidate ends (or the text begins), the candidates are exactly: every word of every loaded dictionary whose headword matches the normalized text there and whose end is a permitted word start or the end of the text, plus the out-of-vocabulary words the configured providers offer for that position, and nothing else. Providers run in configured order and each is told whether earlier sources produced a word there; a position whose character may not start an out-of-vocabulary word gets providers only as a fallback from the last one, when the dictionaries produced nothing. A reachable position for which no source yields a word makes tokenization fail with an error.",
 ["inputs", "configurations"], "all texts, lexicons (homographs, overlapping words, several dictionaries), character definitions and OOV provider lists",
 "The tests never look at the candidate set; a missing or spurious candidate changes the result only for particular cost constellations.",
 ["sudachipy/tokenizer.pyx", "sudachipy/lattice.pyx", "sudachipy/dictionarylib/lexiconset.py", "sudachipy/plugin/oov/oov_provider_plugin.py"],
 [("lattice construction", "sudachipy/tokenizer.pyx:build_lattice_c"), ("insertion", "sudachipy/lattice.pyx:insert")],
 ["the lattice handed to a path-rewrite plugin (nodes by begin and end)"])

prop("C04", "Split modes A and B refine mode C consistently",
 "For every text, tokenizing in mode A (or B) gives exactly the tokens obtained by tokenizing in mode C and replacing each token whose dictionary entry lists two or more A-units (B-units) by these units in order, leaving every other token unchanged; splitting a single token on demand gives the same units, splitting in mode C or a token without units gives that token itself. The units are laid end to end from the token's start, each as long as its own headword, so that when their headwords spell the token they tile it exactly. A mode passed to a call overrides the tokenizer's own default mode (C if none was given) for that call only.",
 ["inputs", "configurations"], "all texts and dictionaries whose entries carry split units (in system and user dictionaries, nested units, units of several bytes per character), all modes, all orders of calls",
 "The tests split one word of one dictionary; units referring across dictionaries, in the middle of normalized text, or after merged tokens are not reached.",
 ["sudachipy/tokenizer.pyx", "sudachipy/morphemelist.py", "sudachipy/morpheme.py", "sudachipy/dictionarylib/lexiconset.py"],
 [("split at tokenize time", "sudachipy/tokenizer.pyx:_split_path"), ("split on demand", "sudachipy/morphemelist.py:split")],
 ["Tokenizer.tokenize(text, mode)", "Morpheme.split(mode)"])

prop("C05", "Results do not depend on history",
 "The outcome of tokenizing a text (tokens and their attributes, or the error) depends only on the text, the mode and the dictionary configuration: not on texts tokenized before by the same tokenizer (longer, shorter, empty, or failed with an error), not on other tokenizers or dictionaries opened, used or closed in the process, not on requesting debug output, and not on the process's hash seed. Results obtained earlier stay unchanged by later calls. Attributes read from earlier results in any order and any number of times are the same.",
 ["histories", "configurations"], "all finite histories of opening dictionaries, creating tokenizers, tokenizing (successfully or not), reading attributes and closing, over all configurations, and all hash seeds",
 "Each test uses a fresh object and one or two calls; contamination needs a particular sequence, in particular a failing call followed by a succeeding one.",
 ["sudachipy/tokenizer.pyx", "sudachipy/lattice.pyx", "sudachipy/dictionary.py", "sudachipy/config.py", "sudachipy/dictionarylib/lexiconset.py", "sudachipy/plugin/oov/mecab_oov_plugin.py"],
 [("lattice reuse", "sudachipy/lattice.pyx:resize/clear/expand"), ("word-info cache", "sudachipy/dictionarylib/lexiconset.py:get_word_info"), ("process-wide settings", "sudachipy/config.py:settings")],
 ["Dictionary", "Tokenizer.tokenize", "Morpheme accessors"],
 state=[("end_lists", "per-tokenizer lattice buffer reused over calls", "sudachipy/lattice.pyx"), ("settings", "process-wide configuration", "sudachipy/config.py")])

prop("C06", "Tokenizers of one dictionary are independent across threads",
 "When several threads each use their own tokenizer created from the same dictionary, every call returns what it would return if it ran alone, for every interleaving of the threads. This includes reading the attributes of tokens and splitting tokens in different threads.",
 ["schedules"], "all interleavings of two or more threads at the granularity of the interpreter's thread switches, each thread with its own tokenizer and its own tokens",
 "No test uses threads; a lost race shows only under particular switch points.",
 ["sudachipy/dictionarylib/wordinfolist.py", "sudachipy/dictionarylib/lexiconset.py", "sudachipy/dictionarylib/doublearraylexicon.py", "sudachipy/plugin"],
 [("reading entries from the shared dictionary file", "sudachipy/dictionarylib/wordinfolist.py:get_word_info"), ("plugins shared by all tokenizers of a dictionary", "sudachipy/dictionary.py:create")],
 ["Tokenizer.tokenize and Morpheme accessors in several threads"],
 state=[("file position of the mapped dictionary", "cursor shared by all readers", "sudachipy/dictionarylib/wordinfolist.py")])

prop("C07", "Edits of the input keep every character traceable",
 "After any sequence of replacements of non-empty ranges of the text under construction, the text is the one the edits produce, and the offset table is monotone, starts at 0 unless all text was removed in between, and ends at the length of the original text. Characters outside the replaced ranges keep the original position they had; of a replacement's characters the first takes the original position of the replaced range's begin and the others that of its end; text removed altogether is attributed to what follows it, or, at the end of the text, to what precedes it. A replacement whose range is negative, reversed, empty or begins after the end of the text is refused and changes nothing; a range ending past the text is cut at its end.",
 ["histories", "inputs"], "all sequences of replacements (shorter, equal, longer, empty; overlapping earlier ones; at either end) over all texts",
 "The tests apply four single replacements and one double; the table is updated in place, so errors depend on the order and overlap of several edits.",
 ["sudachipy/utf8inputtextbuilder.py"],
 [("in-place update of the offset table", "sudachipy/utf8inputtextbuilder.py:replace")],
 ["UTF8InputTextBuilder.replace/get_text/build", "UTF8InputText.get_original_index"],
 state=[("modified_to_original", "original position of each current character, plus the end", "sudachipy/utf8inputtextbuilder.py")])

prop("C08", "Input normalization is the documented rewriting",
 "The default input rewriting scans the text once from left to right: at each position the longest entry of the replacement table that matches there is replaced; otherwise the character is lower-cased and, unless the result is on the no-normalization list, brought to Unicode NFKC. Prolonged-sound-mark rewriting replaces exactly each maximal run of two or more configured marks by the replacement symbol and leaves everything else alone. Both apply in configured order, the second seeing the first's output, and the offset table attributes each rewritten character to the original character(s) it came from.",
 ["inputs", "configurations"], "all texts (in particular characters whose lower-casing or NFKC form has several characters, adjacent and overlapping table keys, marks at either end), all replacement tables, mark sets and symbols",
 "The tests rewrite two sentences and five mark strings; positions drift only when several length-changing rewrites occur in one text.",
 ["sudachipy/plugin/input_text/default_input_text_plugin.py", "sudachipy/plugin/input_text/prolongedsoundmark.py"],
 [("scan with running offset", "sudachipy/plugin/input_text/default_input_text_plugin.py:rewrite"), ("run collapsing", "sudachipy/plugin/input_text/prolongedsoundmark.py:rewrite")],
 ["InputTextPlugin.rewrite", "UTF8InputText.get_text/get_original_index"])

prop("C09", "Character categories are the union of the defining ranges",
 "For every character definition file, the categories of a code point are exactly the union of the categories of all definition lines whose range contains it, and DEFAULT if there is none. The order of the lines and the way ranges overlap, nest, touch or repeat do not matter. Malformed lines (reversed ranges, unknown categories, missing columns) are refused.",
 ["inputs", "configurations"], "all sets of ranges (overlapping, nested, adjacent, identical, single points) and all code points, in particular range boundaries",
 "The tests read four small files and probe a dozen code points; the range list is compiled by a sweep and searched by bisection, whose errors show only for particular overlaps and positions.",
 ["sudachipy/dictionarylib/charactercategory.py"],
 [("sweep over range ends", "sudachipy/dictionarylib/charactercategory.py:_compile"), ("bisection", "sudachipy/dictionarylib/charactercategory.py:get_category_types")],
 ["CharacterCategory.read_character_definition/get_category_types"])

prop("C10", "Byte-indexed views of the text are consistent",
 "For every text, each byte of the UTF-8 form of the normalized text belongs to one character, and all per-byte answers agree with that: the original offset, the character categories, substrings, character counts between two positions, and the byte length of the next n characters. A position may start a word exactly if it is the first byte of a character and, for alphabetic, Greek and Cyrillic characters, the preceding character shares no category with it; the candidate length at a position reaches to the next such position or the end of the text. The continuous-category length covers the longest run of characters from the run's start that have a category in common, counted down byte by byte.",
 ["inputs", "configurations"], "all texts mixing 1- to 4-byte characters and category runs, with all edits applied before, at every byte position",
 "The tests examine one 13-character text.",
 ["sudachipy/utf8inputtextbuilder.py", "sudachipy/utf8inputtext.py"],
 [("index arrays", "sudachipy/utf8inputtextbuilder.py:build"), ("queries", "sudachipy/utf8inputtext.py")],
 ["UTF8InputText queries"])

prop("C11", "Out-of-vocabulary words follow the category definitions",
 "For a position, the category-driven provider offers, for each of the character's categories that has a definition and out-of-vocabulary entries, and unless the category is not always invoked and other words exist there: one word per entry spanning the whole run of the category if it groups, and one word per entry for each length from 1 to the category's length limit in characters that stays within the run (reduced by one byte per entry if it groups, so that the run is not offered twice). The simple provider offers one word up to the next permitted word start exactly when no other word exists. Every offered word carries the configured connection ids, cost and part of speech, is marked out-of-vocabulary with dictionary id -1, has the covered normalized text as surface, normalized and dictionary form, and an empty reading.",
 ["inputs", "configurations"], "all category definitions (invoke, group, length), entries per category, characters with several categories, run lengths, and both values of whether other words exist",
 "The tests fix one run of one category at a time with a mocked text.",
 ["sudachipy/plugin/oov/mecab_oov_plugin.py", "sudachipy/plugin/oov/simple_oov_plugin.py", "sudachipy/plugin/oov/oov_provider_plugin.py"],
 [("category-driven provider", "sudachipy/plugin/oov/mecab_oov_plugin.py:provide_oov"), ("simple provider", "sudachipy/plugin/oov/simple_oov_plugin.py:provide_oov")],
 ["OovProviderPlugin.get_oov", "tokens of out-of-vocabulary text"])

prop("C12", "Numerals normalize to the number they denote",
 "A string of digits, kanji digits, kanji units and separators is accepted as a numeral exactly if it is well formed: positional digits, units small within large in falling order, at most one decimal point per digit group that has digits on both sides, commas separating groups of three digits after a first group of one to three that is not all zeros. Its normalized form is then the decimal notation of the denoted number, with every integer digit kept and no trailing zeros after the point. Rejections name a misplaced point or comma as the reason when that is what it was.",
 ["inputs"], "all strings over digits, kanji digits, small and large units, comma and point, of any length (numbers beyond machine integers)",
 "The tests try about 60 strings; the parser keeps three running decimals whose scale and point interact, so errors need particular combinations.",
 ["sudachipy/plugin/path_rewrite/numericparser.py"],
 [("running decimals", "sudachipy/plugin/path_rewrite/numericparser.py:StringNumber"), ("state machine", "sudachipy/plugin/path_rewrite/numericparser.py:append/done")],
 ["NumericParser.append/done/error_state/get_normalized"],
 state=[("_total/_sub_total/_tmp", "value of finished large-unit groups, the current group, the current digits", "sudachipy/plugin/path_rewrite/numericparser.py")])

prop("C13", "Numeral tokens are joined exactly where they form a numeral",
 "Numeral joining terminates for every token sequence; it merges runs of consecutive numeral tokens (with commas and points inside them) that together form a well-formed numeral and start with a token of the numeral part of speech into one token, whose normalized form is the number's, and leaves every other token untouched and in place. A comma or point that cannot belong to a numeral stays a separate token and the numerals on either side of it are joined separately (after a misplaced comma no comma of that run counts as part of a numeral, likewise for points); a run refused for another reason, or starting with a token of another part of speech, is left as it is. A merged token covers exactly the tokens it replaces and concatenates their surfaces, readings and dictionary forms; with normalization switched off the normalized forms are concatenated too.",
 ["inputs", "configurations"], "all token sequences (digits, kanji digits and units, commas, points, other words; words whose normalized form has several characters), with and without normalization; the numeral part of speech is one of the system dictionary",
 "The tests join a dozen strings; the scan rewinds and re-scans on errors, so termination and the treatment of several numerals in one text are not settled by them.",
 ["sudachipy/plugin/path_rewrite/join_numeric_plugin.py", "sudachipy/plugin/path_rewrite/path_rewrite_plugin.py"],
 [("scan with rewind", "sudachipy/plugin/path_rewrite/join_numeric_plugin.py:rewrite"), ("merge", "sudachipy/plugin/path_rewrite/path_rewrite_plugin.py:concatenate")],
 ["JoinNumericPlugin.rewrite inside Tokenizer.tokenize", "tokens"])

prop("C14", "Katakana joining merges exactly the maximal katakana runs",
 "For every token sequence, each maximal run of two or more adjacent all-katakana tokens (all characters sharing the katakana category) that contains an out-of-vocabulary token or one shorter than the configured minimum length is merged into one token, starting at the first token of the run whose first character may start an out-of-vocabulary word; all other tokens are left as they are. The merged token is a cheapest candidate word that covers exactly that range if there is one, and otherwise an out-of-vocabulary token of the configured part of speech covering the run.",
 ["inputs", "configurations"], "all token sequences (katakana or not, known or out-of-vocabulary, short or long, with leading characters that may not start a word) and minimum lengths",
 "The tests join five strings.",
 ["sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py", "sudachipy/plugin/path_rewrite/path_rewrite_plugin.py", "sudachipy/lattice.pyx"],
 [("run search", "sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py:rewrite"), ("merge", "sudachipy/plugin/path_rewrite/path_rewrite_plugin.py:concatenate_oov"), ("cheapest candidate", "sudachipy/lattice.pyx:get_minimum_node")],
 ["JoinKatakanaOovPlugin.rewrite inside Tokenizer.tokenize", "tokens"])

prop("C15", "A built dictionary returns every entry as written",
 "For every valid source, each entry of the built dictionary, read back by its position in the source, has the surface, connection ids, cost, part of speech, reading, normalized form, dictionary form, split units, word structure and synonym groups that its line states, whatever the lengths and characters of the fields (reading and normalized form default to the surface; the dictionary form is that of the entry referred to; unit references by number or by surface, part of speech and reading denote that entry; Unicode escapes are decoded). Parts of speech are numbered by first appearance. Entries in several source files count on in file order.",
 ["inputs"], "all valid lexicon sources: any number of entries, strings from 0 to 32767 UTF-16 units including supplementary characters, up to 127 units and synonym groups, references forwards, backwards and in circles, escapes; lines end with a line feed",
 "The tests build five rows and check one or two entries; lengths around the encoding limits, escapes and references are sampled once or not at all.",
 ["sudachipy/dictionarylib/dictionarybuilder.py", "sudachipy/dictionarylib/wordinfolist.py", "sudachipy/dictionarylib/wordparameterlist.py", "sudachipy/dictionarylib/grammar.py", "sudachipy/dictionarylib/jtypedbytebuffer.py"],
 [("encoding", "sudachipy/dictionarylib/dictionarybuilder.py:write_wordinfo/write_grammar"), ("decoding", "sudachipy/dictionarylib/wordinfolist.py, sudachipy/dictionarylib/grammar.py")],
 ["DictionaryBuilder.build, BinaryDictionary.from_system_dictionary, Lexicon.get_word_info/get_left_id/get_right_id/get_cost, Grammar.get_part_of_speech_string"])

prop("C16", "Lookup finds exactly the headwords that match",
 "For every dictionary and text position, lookup yields exactly the searchable entries whose headword is a prefix of the text at that position, each once, with the end position of the match; entries with left connection id -1 are never found. Homographs are all found. Several dictionaries answer with the union of their matches, each word identified by its dictionary.",
 ["inputs"], "all sets of headwords (prefixes of one another, homographs up to 255, one or several dictionaries, 1- to 4-byte characters) and all texts and positions",
 "The tests look up three strings in one dictionary.",
 ["sudachipy/dictionarylib/doublearraylexicon.py", "sudachipy/dictionarylib/wordidtable.py", "sudachipy/dictionarylib/lexiconset.py", "sudachipy/dictionarylib/dictionarybuilder.py"],
 [("double array and word-id table", "sudachipy/dictionarylib/doublearraylexicon.py:lookup, sudachipy/dictionarylib/wordidtable.py:get"), ("union over dictionaries", "sudachipy/dictionarylib/lexiconset.py:lookup")],
 ["Lexicon.lookup"])

prop("C17", "Invalid dictionary sources are refused, never compiled wrongly",
 "A source line with fewer than 18 columns, an empty headword, a string over the length limit, a non-numeric or out-of-range number, more than 127 units in a unit list or synonym groups, units on an entry of type A, a comma in a part of speech, a NUL or an impossible code point, or a unit reference or dictionary form that denotes no existing entry makes the build fail with an error; so does a connection matrix without a valid header of non-negative sizes or with a pair outside of them. A unit reference of a user dictionary may denote entries of the system dictionary or (marked U) of itself, and nothing else. Limits are exact: the largest permitted value is accepted.",
 ["inputs"], "all sources with one or more defects at any line, alone and combined, and values at each limit (32767 UTF-16 units for strings, 32767 bytes for headwords); that connection ids are within the matrix is not part of the promise, only their 16-bit range",
 "The tests try one value per rule, not the neighbourhood of the limits, and not through a complete build.",
 ["sudachipy/dictionarylib/dictionarybuilder.py", "sudachipy/dictionarylib/userdictionarybuilder.py"],
 [("line checks", "sudachipy/dictionarylib/dictionarybuilder.py:parse_line"), ("reference checks", "sudachipy/dictionarylib/dictionarybuilder.py:parse_splitinfo/check_wordid, sudachipy/dictionarylib/userdictionarybuilder.py:check_wordid")],
 ["DictionaryBuilder.build, UserDictionaryBuilder.build"])

prop("C18", "Tokens report the entry of the dictionary they came from",
 "With any number of user dictionaries up to fifteen beside the system dictionary, every token taken from a dictionary reports that dictionary's number (0 for the system dictionary, k for the k-th user dictionary) and exactly the attributes of its entry: part of speech (also one the user dictionary itself introduced), forms, reading, synonym groups, and split units that refer to the system dictionary or to that same user dictionary. The number of a token's word gives, over all dictionaries, that entry with its connection ids and cost. Finding an entry by headword, part of speech and reading over all dictionaries gives that entry's identity (with the part of speech as its own dictionary numbers it). Loading a sixteenth user dictionary fails with an error.",
 ["configurations", "inputs"], "all numbers and orders of user dictionaries, each with its own new parts of speech and its own references, and all words in them",
 "The tests load at most two user dictionaries; identities are packed with the dictionary number into one integer and parts of speech are renumbered per dictionary.",
 ["sudachipy/dictionary.py", "sudachipy/dictionarylib/lexiconset.py", "sudachipy/dictionarylib/userdictionarybuilder.py", "sudachipy/latticenode.pyx", "sudachipy/morpheme.py"],
 [("identity packing and renumbering", "sudachipy/dictionarylib/lexiconset.py"), ("loading order and limit", "sudachipy/dictionary.py:_read_user_dictionary")],
 ["Dictionary, Tokenizer.tokenize, Morpheme accessors"])

prop("C19", "Connection costs are those of the matrix source",
 "For every matrix of any shape, the cost of connecting a word with right id l to a word with left id r is the cost given by the last source line for the pair (l, r), and 0 for a pair without a line; blank and comment lines do not matter and lines with fewer than three columns are skipped. Changing or inhibiting the cost of a pair changes exactly that pair.",
 ["inputs", "histories"], "all matrix sizes (square or not, from 1 x 1), sparse and unordered sources, negative costs, and all sequences of changes",
 "The tests build square, complete, ordered matrices and probe a few cells.",
 ["sudachipy/dictionarylib/dictionarybuilder.py", "sudachipy/dictionarylib/grammar.py", "sudachipy/lattice.pyx", "sudachipy/plugin/connect_cost/inhibitconnectioncost.py"],
 [("matrix layout written", "sudachipy/dictionarylib/dictionarybuilder.py:convert_matrix"), ("matrix layout read", "sudachipy/dictionarylib/grammar.py"), ("use", "sudachipy/lattice.pyx:connect_node")],
 ["Grammar.get_connect_cost/set_connect_cost", "segmentation under that matrix"])

prop("C20", "Automatic costs of user words are derived as specified",
 "When a user dictionary is loaded, an entry whose cost is -32768 gets the cost obtained by segmenting its surface with the dictionaries loaded before it and without path rewriting: the word cost of the last token minus that of the first, minus 20 for each token, limited to the signed 16-bit range (entries with an empty surface excepted). All other costs stay as written. The dictionary file itself is never changed by loading or use.",
 ["inputs", "configurations"], "all user entries and earlier dictionaries, segmentations of one or several tokens, results at the range limits",
 "The tests load one such entry and never look at its cost.",
 ["sudachipy/dictionarylib/doublearraylexicon.py", "sudachipy/dictionary.py", "sudachipy/morphemelist.py", "sudachipy/dictionarylib/wordparameterlist.py"],
 [("cost estimate", "sudachipy/dictionarylib/doublearraylexicon.py:calculate_cost"), ("private copy of the file", "sudachipy/dictionarylib/binarydictionary.py:from_user_dictionary")],
 ["Lexicon.get_cost after loading, bytes of the file"])

prop("C21", "The command line prints exactly the tokens of each line",
 "For each input line, from the files given in order or from standard input, the command prints one line per token in order and then a line EOS: surface, part of speech joined by commas, normalized form, separated by tabs, and with -a also dictionary form, reading, dictionary number, synonym groups in brackets, and (OOV) for out-of-vocabulary tokens; these are the values the Python interface reports for that line (without its newline) in the mode of -m (C by default). Output goes to the file of -o if given and to standard output otherwise, and -d adds debugging lines without changing the token lines. A missing input file ends the command with status 1 and no tokens.",
 ["inputs", "configurations"], "all texts (empty lines, no final newline, percent and brace characters, non-BMP; standard input with line feeds only), numbers of files, and option combinations",
 "The command line has no tests at all.",
 ["sudachipy/command_line.py"],
 [("output", "sudachipy/command_line.py:run"), ("options", "sudachipy/command_line.py:_command_tokenize/main")],
 ["the sudachipy command: exit status, standard output, output file"])

prop("C22", "Configuration selects the files it names",
 "The system dictionary is the one of the requested dictionary type if a type is given, otherwise the one the settings file names, otherwise the installed core dictionary; an unknown type or a type that is not installed is an error. Relative paths in the settings are taken relative to the resource directory, which is the settings file's directory unless given, and absolute paths as they are; user dictionaries load in the order listed. A dictionary object's behaviour is fixed by the settings it was made with, however many others with different settings are made before or after it.",
 ["configurations", "histories"], "all combinations of dictionary type, named/empty/absent system dictionary, relative/absolute paths, resource directory, installed packages, and sequences of such openings",
 "One test switches between three files; types, precedence and user-dictionary paths are not tested.",
 ["sudachipy/config.py", "sudachipy/dictionary.py", "sudachipy/plugin/oov/utils.py", "sudachipy/plugin/input_text/utils.py", "sudachipy/plugin/path_rewrite/utils.py"],
 [("settings", "sudachipy/config.py:_Settings")],
 ["Dictionary(config_path, resource_dir, dict_type)"])

prop("C23", "Only dictionaries of the right kind and version are accepted",
 "A file opens as a system dictionary only if its version is one of the two system versions, and as a user dictionary only if it is one of the three user versions; anything else is refused with an error. Each version is read by its own layout: the first user version has no part-of-speech table of its own, and entries of the first system and the first two user versions have no synonym groups. Version, creation time and description (up to 256 bytes) are reported as written, and a longer description is refused.",
 ["inputs", "configurations"], "all version numbers, kinds, versions' layouts, and creation times from 0 to 2^63-1, descriptions without NUL of every length around the limit in any script",
 "The tests read one system header.",
 ["sudachipy/dictionarylib/binarydictionary.py", "sudachipy/dictionarylib/dictionaryversion.py", "sudachipy/dictionarylib/dictionaryheader.py", "sudachipy/dictionarylib/wordinfolist.py"],
 [("kind and version checks", "sudachipy/dictionarylib/binarydictionary.py"), ("version capabilities", "sudachipy/dictionarylib/dictionaryversion.py"), ("header", "sudachipy/dictionarylib/dictionaryheader.py")],
 ["BinaryDictionary.from_system_dictionary/from_user_dictionary, DictionaryHeader"])

prop("C24", "Closing a dictionary releases it and nothing else",
 "Once the tokenizers and tokens obtained from a dictionary have been discarded, closing it succeeds and releases every dictionary file it had mapped, whatever was tokenized before. Other dictionaries, also ones opened from the same files, keep working and give the same results.",
 ["histories"], "all histories of opening, creating, tokenizing, discarding and closing over several dictionary objects",
 "No test closes a dictionary after using it.",
 ["sudachipy/dictionary.py", "sudachipy/dictionarylib/binarydictionary.py", "sudachipy/dictionarylib/lexiconset.py", "sudachipy/dictionarylib/doublearraylexicon.py"],
 [("close", "sudachipy/dictionary.py:close, sudachipy/dictionarylib/binarydictionary.py:close"), ("entry cache", "sudachipy/dictionarylib/lexiconset.py:get_word_info")],
 ["Dictionary.close", "the process's open mappings"])

prop("C25", "Settings and definition files that cannot be honoured are refused",
 "A dictionary object comes into being exactly if everything its settings ask for can be honoured; otherwise making it raises an error. Not to be honoured are an unreadable settings file, absent or unsound system and user dictionaries or character definitions, no out-of-vocabulary provider at all, plugin classes that do not exist, plugins lacking a required setting or naming a part of speech the dictionary does not have, and unsound definition files of plugins: a category line with too few columns, an unknown or repeated category or no number for the length; an unknown-word line with too few columns, a category not defined, no numbers or a part of speech the dictionary does not have; a rewrite rule with other than one (single-character) or two columns, or a repeated one. Blank lines and comments in the files do not matter, absent lists of optional plugins neither.",
 ["configurations", "inputs"], "all settings files and definition files (connection ids outside of the matrix are not included)",
 "The tests read a handful of broken category and unknown-word files; most ways of being wrong, and most places where something can be wrong, are not tried.",
 ["sudachipy/dictionary.py", "sudachipy/config.py", "sudachipy/plugin/oov/mecab_oov_plugin.py", "sudachipy/plugin/oov/simple_oov_plugin.py", "sudachipy/plugin/oov/utils.py", "sudachipy/plugin/input_text/default_input_text_plugin.py", "sudachipy/plugin/input_text/utils.py", "sudachipy/plugin/path_rewrite/join_katakana_oov_plugin.py", "sudachipy/plugin/path_rewrite/utils.py", "sudachipy/dictionarylib/categorytype.py"],
 [("plugin setup", "sudachipy/dictionary.py:__init__"), ("category and unknown-word files", "sudachipy/plugin/oov/mecab_oov_plugin.py:read_character_property/read_oov"), ("rewrite rules", "sudachipy/plugin/input_text/default_input_text_plugin.py:read_rewrite_lists")],
 ["Dictionary(config_path, resource_dir), MeCabOovPlugin.read_character_property/read_oov, DefaultInputTextPlugin.read_rewrite_lists"])

prop("C26", "The build commands leave the dictionary they say, or none",
 "After sudachipy build or ubuild ends with status 0 the output file (the one named with -o, otherwise system.dic or user.dic in the working directory) is exactly the dictionary that the sources make in the order given: with the current version of its kind, the time of building and the description given, whatever the file held before. If a source, the matrix or the system dictionary given does not exist, the status is 1 and nothing is touched; if the sources, the matrix or the description are unsound the status is not 0 and no incomplete dictionary is left. No other file appears. Without -s, ubuild builds against the installed core dictionary, and fails if there is none.",
 ["inputs", "configurations", "histories"], "all calls of the two commands (options in any order, relative and absolute names), whatever the output file held before",
 "No test runs the build commands.",
 ["sudachipy/command_line.py", "sudachipy/dictionarylib/dictionarybuilder.py", "sudachipy/dictionarylib/userdictionarybuilder.py", "sudachipy/dictionarylib/dictionaryheader.py", "sudachipy/dictionarylib/dictionaryversion.py"],
 [("build and ubuild", "sudachipy/command_line.py:_command_build/_command_user_build"), ("header", "sudachipy/dictionarylib/dictionaryheader.py:to_bytes")],
 ["exit status and the files in the working and output directories"])

prop("C27", "Tokenization is the composition of its configured stages",
 "Tokenizing a text gives exactly the tokens that result from applying, one after the other, every configured input rewriting in the order listed, the choice of a cheapest path over the dictionary words and the words of the configured out-of-vocabulary providers in the order listed, every configured path rewriting in the order listed, and the splitting of the mode; each plugin with its own settings, none left out, repeated or added. Ranges, surfaces and all other attributes of the resulting tokens follow from those stages alone.",
 ["inputs", "configurations"], "all texts and all combinations of dictionaries, matrices, character definitions, rewritings, providers of both kinds and joiners; any of equally cheap paths",
 "The tests use one configuration; what one stage hands to the next (offsets, categories, replaced words, the numbers and ids of plugins' own settings) is only reached by combining stages.",
 ["sudachipy/tokenizer.pyx", "sudachipy/dictionary.py", "sudachipy/lattice.pyx", "sudachipy/morpheme.py", "sudachipy/morphemelist.py", "sudachipy/utf8inputtext.py", "sudachipy/plugin/input_text/utils.py", "sudachipy/plugin/oov/utils.py", "sudachipy/plugin/path_rewrite/utils.py"],
 [("stages of a call", "sudachipy/tokenizer.pyx:tokenize"), ("plugins of a dictionary", "sudachipy/dictionary.py:__init__/create")],
 ["Dictionary(config_path).create().tokenize(text, mode)"])

prop("C28", "Debug output shows the analysis that was made",
 "With a logger given, or -d on the command line, the dump of every non-empty text shows the analysis that was made: the rewritten text; every candidate word of the lattice with the begin and the end of the text, numbered from 1, in order of descending end, each with its range, surface, word id, part of speech, left and right ids, own cost and the costs of connecting it to each candidate ending where it begins, in the order of their lines; the path before path rewriting, and the tokens in the end. The tokens are the ones that come out without the dump.",
 ["inputs", "configurations"], "all texts, dictionaries and modes; the dump in the form it has now",
 "The tests dump nothing with more than one path.",
 ["sudachipy/tokenizer.pyx", "sudachipy/lattice.pyx", "sudachipy/latticenode.pyx", "sudachipy/command_line.py"],
 [("dump of the lattice", "sudachipy/lattice.pyx:dump"), ("dump of the paths", "sudachipy/tokenizer.pyx:tokenize")],
 ["Tokenizer.tokenize(text, mode, logger)", "sudachipy -d"])

prop("C29", "Merging tokens of a path replaces exactly them",
 "For every path and every non-empty range of it, concatenate replaces the tokens of the range by one token that spans exactly their text, with their surfaces, dictionary forms, readings and (unless one is given) normalized forms concatenated, the part of speech of the first, no units, and not out-of-vocabulary. concatenate_oov takes the cheapest candidate word of the lattice that spans the range, and otherwise makes an unknown word of the given part of speech with the surface for its forms and no reading. Empty, backward and overlong ranges raise IndexError and change nothing; the rest of the path stays as it is, and the tokens reported are those of the path.",
 ["inputs", "histories"], "all paths over all lattices, all sequences of merges by user-defined path-rewriting plugins; positions not negative",
 "The tests merge two fixed words of one text.",
 ["sudachipy/plugin/path_rewrite/path_rewrite_plugin.py", "sudachipy/lattice.pyx", "sudachipy/latticenode.pyx", "sudachipy/morpheme.py", "sudachipy/tokenizer.pyx"],
 [("merging", "sudachipy/plugin/path_rewrite/path_rewrite_plugin.py:concatenate/concatenate_oov"), ("cheapest word of a range", "sudachipy/lattice.pyx:get_minimum_node")],
 ["PathRewritePlugin.concatenate/concatenate_oov from a plugin's rewrite"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in P:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 3, (p['id'], p['statement'].count('. '))
with open(os.path.join(root, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
