#!/usr/bin/env python3
# Writes properties.jsonl (single source for titles/statements/anchors).
import json, os
H = ["strtk.hpp"]
P = []
def p(id, title, statement, over, text, why, mech, state=None, observe=None):
    a = {"files": H, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Delimiter tokenisation is exact and the same through every entry point",
  "For every text, delimiter set and split option, splitting yields in order exactly the maximal fields between delimiters (one more field than delimiters, runs counting once when delimiters are compressed or the whole run is included, no field for an empty text, included delimiters attached to the field they end), so the text can be rebuilt from the fields. "
  "Splitting eagerly, iterating lazily, splitting only the first n fields (a prefix of the full split) and visiting each token with a function give the same fields and the same count for every way of supplying the delimiters, including any byte value.",
  ["inputs", "configurations"], "all byte strings, all delimiter sets over 0..255, all option combinations, all n, all split/tokenizer overloads",
  "The tests split a few fixed strings; boundary shapes (leading, trailing, adjacent delimiters, bytes above 127, n in the middle of a run) and agreement between overloads are a product space they do not sample.",
  [("split / split_compress_delimiters", "strtk.hpp: strtk::split, strtk::details::split_compress_delimiters"), ("split_n", "strtk.hpp: strtk::split_n"), ("tokenizer iterator", "strtk.hpp: strtk::tokenizer::tokenizer_iterator"), ("delimiter predicates", "strtk.hpp: single_/multiple_/multiple_char_delimiter_predicate"), ("for_each_token", "strtk.hpp: strtk::for_each_token")],
  [("range", "start and read position of the token being scanned", "strtk.hpp: tokenizer_iterator::range_, local range in split"), ("last_token_done", "whether the trailing token was delivered", "strtk.hpp: tokenizer_iterator::last_token_done_")])

p("P02", "Fixed-width, pair, regex and run-based splitting follow their rules",
  "Splitting by a list of widths hands out consecutive pieces of exactly those widths (the last one cut at the end of the text, the list repeating only when rotation is asked for), pair splitting cuts at the first delimiter and succeeds only when a non-empty remainder follows, and regular-expression splitting yields each successive match or selected sub-match. "
  "Searching or splitting by runs of equal or predicate-satisfying elements reports exactly the leftmost non-overlapping runs of the requested length (each exactly n elements, or the whole run of at least n), never reads outside the range and never delivers more pieces than asked for.",
  ["inputs", "configurations"], "all texts, width lists up to 12 entries, rotation on or off, all run lengths, predicates with and without memory",
  "Tests use one text per function; off-by-one errors at the end of the range or at the n-th match need exhaustive small inputs.",
  [("offset_splitter / offset_predicate", "strtk.hpp: strtk::offset_splitter, strtk::offsets"), ("split_pair", "strtk.hpp: strtk::split_pair"), ("split_regex(_n)", "strtk.hpp: strtk::split_regex"), ("find_* / split_on_consecutive(_n)", "strtk.hpp: strtk::find_n_consecutive_values .. split_on_consecutive_n")])

p("P03", "Integer parsing accepts exactly the representable decimal numerals",
  "Converting text to a signed or unsigned integer succeeds exactly when the text is an optional sign (minus only for signed types) followed by one or more decimal digits whose value fits the type, and then yields that value; otherwise it reports failure, with no wrap-around, saturation or out-of-range access. "
  "The same holds for every integer width, for text given as string or as a pair of iterators, and for the fixed-length fast converters on digit strings.",
  ["inputs", "configurations"], "all byte strings; short, int, long, long long, signed and unsigned, 8-bit; with and without the look-up-table build option",
  "Tests check a handful of values; overflow thresholds, leading zeros and stray characters at each position form a space only an exact numeral model covers.",
  [("string_to_type_converter_impl_itr / numeric details", "strtk.hpp: strtk::details, 'string_to_signed_type_converter_impl_itr'"), ("numeric limits table", "strtk.hpp: strtk::details::numeric<T>"), ("fast::numeric_convert", "strtk.hpp: namespace strtk::fast")])

p("P04", "Real-number parsing accepts exactly the numeral grammar and its value",
  "Converting text to a floating point number accepts exactly an optionally signed decimal with at least one digit, optional fraction, optional exponent with at least one digit and optional type suffix, plus the inf and nan spellings, and rejects everything else including trailing characters (a number followed by an infinity or nan word, as in 1.#INF, is left open). "
  "The result has the right sign and the value the numeral denotes up to rounding, and no input reads outside the text or the internal tables.",
  ["inputs"], "all byte strings; float, double and long double",
  "Tests sample well-formed numerals; malformed exponents, dangling points, extreme exponents and huge digit counts are not enumerated.",
  [("string_to_real_converter_impl_itr", "strtk.hpp: strtk::details::string_to_real_converter_impl_itr"), ("pow10 tables", "strtk.hpp: strtk::details::fract10")])

p("P05", "Numbers written as text read back as the same number",
  "Writing any integer of any supported type as text yields its canonical decimal form (no leading zeros, minus sign only for negatives, including the extreme values), and parsing that text returns the same integer. "
  "Reals, characters, booleans and strings written as text read back to the same value within the documented precision.",
  ["inputs"], "all values of all integer types, including the limits; reals with up to ten significant digits",
  "Round trips at the type limits and digit-count boundaries are not sampled by tests.",
  [("type_to_string", "strtk.hpp: strtk::type_to_string, strtk::details::type_to_string_converter_impl")])

p("P06", "Hex and base64 codecs are exact inverses and reject malformed input",
  "Encoding any byte string as hexadecimal or base64 gives its standard encoding of the standard length, and decoding that text returns the original bytes, whichever overload is used. "
  "Decoding hexadecimal accepts either letter case and fails without touching memory outside its buffers when the length is odd or zero or a character is not a hex digit.",
  ["inputs"], "all byte strings of all lengths; all texts as decoder input",
  "Tests encode a few strings; every length residue and byte value, and malformed decoder input, must be covered.",
  [("convert_bin_to_hex / convert_hex_to_bin", "strtk.hpp: strtk::convert_bin_to_hex, convert_hex_to_bin"), ("convert_bin_to_base64 / convert_base64_to_bin", "strtk.hpp: strtk::convert_bin_to_base64, convert_base64_to_bin")])

p("P07", "Multi-value parsing assigns fields to variables in order or reports failure",
  "Parsing a delimited text into k typed variables, for every k offered, assigns the i-th field to the i-th variable, with adjacent delimiters treated as one, and succeeds exactly when there are at least k fields and every one of the first k converts to the type of its variable. "
  "It gives the same outcome for text given as string, iterator range or the next line of a stream, and the leftover text is available to a trailing container or remainder capture.",
  ["inputs", "configurations"], "all texts and delimiter sets; 1..16 variables of mixed types; string, range and stream sources",
  "The arity/type/field-position product is far larger than the sampled examples, each arity being separate code.",
  [("parse(...)", "strtk.hpp: strtk::parse overloads for 1..16 values"), ("parse_line", "strtk.hpp: strtk::parse_line")])

p("P08", "Container parsing appends every convertible field, in order, up to the limit",
  "Parsing a delimited text into a sequence, set, queue, stack or priority queue adds every field that converts to the element type, in order, and skips the others; the limited form adds at most n and leaves the rest. "
  "The same holds for every container kind and for element filters and adders layered on top, and existing contents are kept.",
  ["inputs", "configurations"], "all texts, delimiter sets, limits and container kinds, several element types",
  "Each container kind is separate code exercised at most once by the tests.",
  [("parse into containers / parse_n", "strtk.hpp: strtk::parse(..., Sequence&), strtk::parse_n"), ("container adders and inserters", "strtk.hpp: strtk::details::container_adder, range_to_type_*_inserter"), ("filters", "strtk.hpp: strtk::filter_on_match, filter_on_wildcard_match and size predicates")])

p("P09", "Column selection delivers exactly the requested columns",
  "Given an ascending list of column indexes, parsing a row assigns the value in each listed column to the corresponding variable, ignores all other columns, and reports failure when a listed column is absent or does not convert. "
  "A column selector stores every listed column that exists and converts and leaves the other variables alone. The same holds for every number of selected columns and for columns collected into sequences.",
  ["inputs", "configurations"], "all rows, all ascending index lists, 1..12 selected columns",
  "Index/arity combinations and short rows are not sampled by tests.",
  [("column_list / column_selector", "strtk.hpp: strtk::column_list, strtk::details::column_selector*"), ("parse_columns", "strtk.hpp: strtk::parse_columns")],
  [("current_index", "column reached in the row", "strtk.hpp: strtk::details::column_selector_impl")])

p("P10", "Parsing adaptors accept exactly what they say and transform nothing else",
  "Field adaptors used while parsing hold to their contract: literal and case-insensitive expectations, wildcard likeness, inclusive ranges and length limits accept exactly the matching fields, trimming and case folding change only what they name, hex and base64 sinks yield the encoded number or bytes, and ignored fields leave no trace. "
  "Attached actions and attributes run exactly once per accepted value and see that value, and a rejected field leaves the enclosing parse reported as failed.",
  ["inputs"], "all field texts, bounds and patterns",
  "The adaptors are driven by tests with single matching values only.",
  [("expect/iexpect/like/inrange/trim/as_lcase/as_ucase/fill_array", "strtk.hpp: namespace strtk, 'expect' .. 'fill_array'"), ("sinks", "strtk.hpp: hex_to_number_sink, hex_to_string_sink, base64_to_number_sink, ignore_token"), ("semantic_action, attribute, value", "strtk.hpp: namespace strtk::util")])

p("P11", "Removal keeps exactly the other elements in their original order",
  "Every removal operation (by predicate, leading, trailing, duplicates, consecutive runs or index based, in place or into an output) keeps precisely the elements its rule does not name, in their original order, and reports how many were removed or kept. "
  "It works for any contents, including empty text, text that is removed entirely and bytes above 127, without touching memory outside the text.",
  ["inputs"], "all byte strings and predicates over 0..255",
  "Tests use short ASCII strings; complete removal, emptiness and high bytes are not sampled.",
  [("remove_* family", "strtk.hpp: strtk::remove_inplace .. strtk::remove_duplicates, strtk::remove_leading/trailing"), ("index_remover", "strtk.hpp: strtk::index_remover")])

p("P12", "Replacement rewrites exactly the leftmost non-overlapping occurrences",
  "Replacing a character or pattern substitutes every leftmost, non-overlapping occurrence and nothing else, removing a pattern is replacing it by nothing, and the reported counts and output sizes agree with the output. "
  "This holds for replacements shorter, equal to or longer than the pattern and for overlapping self-similar patterns.",
  ["inputs"], "all texts, patterns and replacements",
  "Self-overlapping patterns and boundary positions are not sampled.",
  [("replace / replace_pattern / remove_pattern", "strtk.hpp: strtk::replace, strtk::replace_pattern, strtk::remove_pattern")])

p("P13", "Wildcard matching and searching decide membership exactly",
  "Wildcard matching accepts a text exactly when some expansion of the pattern's zero-or-more and zero-or-one wildcards equals it, optionally ignoring letter case, and never reads past either string. "
  "Occurrence search reports every non-overlapping occurrence left to right, and prefix, suffix, index and case-insensitive comparison tests and the string conditions built on them agree with their definitions for all lengths.",
  ["inputs"], "all pattern/text pairs",
  "Backtracking cases and patterns longer than the text need exhaustive small strings.",
  [("match / imatch", "strtk.hpp: strtk::match, strtk::imatch, strtk::details::match_impl"), ("find_all / ifind_all / begins_with / ends_with / index_of", "strtk.hpp: strtk::find_all, ifind_all, begins_with, ends_with, index_of")])

p("P14", "A token grid exposes exactly the cells of its text",
  "Loading a text with given row and column delimiters yields a grid whose rows, row lengths and cell texts are exactly the text's rows and fields under the chosen splitting rules, with the same result from memory or from a file. "
  "Reading a cell by type, row or range returns that cell's text or value, and row, column and column-limit counts agree with the cells.",
  ["inputs", "configurations"], "all texts, row and column delimiter sets, split options, ragged rows",
  "Ragged, empty and trailing rows in combination with options are not enumerated by tests.",
  [("token_grid load", "strtk.hpp: strtk::token_grid::load, store"), ("row_type / get / token access", "strtk.hpp: strtk::token_grid::row_type")],
  [("token_list, row_index", "cells and row boundaries", "strtk.hpp: token_grid::store, token_grid::row_index_")])

p("P15", "Editing a token grid touches only what was named",
  "After any sequence of grid edits (removing rows by index or condition, enforcing column limits, removing token cells, clearing and reloading) the grid holds exactly the rows and cells implied by the edits in order, other rows and cells unchanged. "
  "Row and column statistics reported afterwards describe the edited grid.",
  ["histories"], "all sequences of edits over grids of any shape",
  "Tests apply one edit to one grid; interactions between edits and cached statistics are never exercised.",
  [("edits", "strtk.hpp: strtk::token_grid::remove_row, remove_row_if, enforce_*_column_count, remove_token_if, clear, load")],
  [("row_index", "rows still present", "strtk.hpp: token_grid::row_index_"), ("min/max column", "cached column limits", "strtk.hpp: token_grid::min_column_count_, max_column_count_")])

p("P16", "Grid extraction, aggregation, joining and partitioning are faithful",
  "Extracting columns, accumulating or averaging values, joining rows or columns back to text and visiting rows, columns or partitions use every selected cell exactly once, in row-major order, and no other cell. "
  "Joining puts the delimiter between the selected non-empty cells only, and partitions are the maximal consecutive groups of rows, covering the range without overlap.",
  ["inputs", "histories"], "all grids, row ranges, column sets, predicates and delimiters",
  "First/last row and single-row partitions need enumerated grid shapes.",
  [("extract_column / accumulate / join / partition", "strtk.hpp: strtk::token_grid::extract_column_checked, accumulate_*, join_row, join_column, sequential_partition, for_each_row")])

p("P17", "The prefix trie behaves as a map from keys to values",
  "After any sequence of insertions, looking up a key returns the value most recently stored for that key and reports absence for every key never inserted, including prefixes and extensions of stored keys. "
  "Prefix lookups report whether some stored key starts with the probe.",
  ["histories"], "all insertion and lookup histories over keys of any length",
  "Sharing of nodes between keys with common prefixes makes errors history dependent; tests only look keys up after one fixed load.",
  [("prefix trie", "strtk.hpp: strtk::trie::prefix")], [("node tree", "shared prefix nodes with values", "strtk.hpp: strtk::trie::prefix::node")])

p("P18", "The Bloom filter never forgets and its algebra is sound",
  "A Bloom filter reports every inserted element as contained, whatever its type, after any sequence of insertions, copies, assignments, unions, compressions and save/restore through a file; intersection keeps elements inserted in both operands, clearing empties it and an empty filter contains nothing. "
  "Sizes, counts and equality reported agree with the history and no operation writes outside its table.",
  ["histories", "configurations"], "all operation histories and filter parameters",
  "False negatives appear only for particular keys, parameters and histories; tests use one parameter set.",
  [("bloom filter", "strtk.hpp: strtk::bloom::filter, strtk::bloom::compressible_filter, strtk::bloom::parameters")],
  [("bit table, salts", "bits set and hash salts", "strtk.hpp: strtk::bloom::filter::bit_table_, salt_")])

p("P19", "Binary serialisation round-trips and respects its buffer",
  "Whatever sequence of values, strings, containers and arrays is written to a buffer reads back equal, in the same byte order or via explicit big/little endian forms, and reader and writer positions account for exactly the bytes involved. "
  "An operation that does not fit the remaining buffer fails and touches nothing beyond the parts its position reports as written, and marks, seeks and rewinds return to exactly the recorded position.",
  ["histories"], "all write/read/seek histories, buffer sizes, value types and byte orders",
  "Capacity boundaries and positions are history dependent; tests write one generous buffer.",
  [("binary reader / writer", "strtk.hpp: strtk::binary::reader, strtk::binary::writer"), ("endian conversion", "strtk.hpp: strtk::binary::details::convert, be_to_native, le_to_native"), ("memory / fileio pod transfer", "strtk.hpp: strtk::memory, strtk::fileio::read_pod/write_pod")],
  [("amount processed, marks", "position in the buffer", "strtk.hpp: binary::reader::amount_read_sofar_, binary::writer::amount_written_sofar_")])

p("P20", "Files and lines are loaded, stored, copied and concatenated faithfully",
  "Storing bytes or lines to a file and loading them back gives the same contents, line visitors see every line exactly once and in order (with or without conversion to a type), and size, existence, copy and concatenation reflect the files' bytes. "
  "Operations on files that cannot be opened report failure and leave existing files as they were.",
  ["inputs", "fault_sequences"], "all contents including empty and unterminated files, missing or unreadable files",
  "Tests only read bundled sample files.",
  [("load/write text and line visitors", "strtk.hpp: strtk::load_from_text_file, write_to_text_file, for_each_line*"), ("fileio", "strtk.hpp: namespace strtk::fileio")])

p("P21", "Key-value parsing stores each value under its registered key",
  "Parsing key/value text stores every value whose key is registered into the variable registered for that key, converted to its type, in order, leaving all other variables unchanged and ignoring empty blocks. "
  "Numeric keys are whole numbers in range. It reports failure for malformed pairs, unknown keys and unconvertible values unless told to ignore failures, in which case the good pairs are stored and the failures counted.",
  ["histories", "inputs"], "all texts, key sets (string, integer and custom keys), delimiters and option settings",
  "Key-range, duplicate and malformed-pair combinations are not sampled.",
  [("keyvalue parser", "strtk.hpp: namespace strtk::keyvalue")])

p("P22", "Combinatorial enumeration visits every arrangement exactly once, in order",
  "Combination, permutation and conditional enumerations visit every k-subset or arrangement exactly once in their documented order, the counting functions equal the number visited, and the n-th arrangement functions return the same arrangement as position n of the enumeration. "
  "Conditional enumeration stops as soon as the visitor asks to.",
  ["inputs", "programs"], "all sizes, all k, all indices, all stopping points",
  "Tests print one enumeration each; index/order agreement needs every index of every small size.",
  [("next_combination / for_each_* / nth_*", "strtk.hpp: strtk::next_combination, for_each_combination, for_each_permutation, nth_combination_sequence, nth_permutation_sequence, n_choose_k"), ("combination_iterator", "strtk.hpp: strtk::combination_iterator")],
  [("combination cursor", "which elements are currently selected", "strtk.hpp: strtk::combination_iterator")])

p("P23", "Random selection is valid and reproducible for a given seed",
  "Random selections return the requested number of elements, each taken from the source (no position twice where a combination or several distinct elements are requested, exactly the source multiset for a permutation), generated values respect their bounds, and every valid outcome is possible. "
  "The same seed gives the same outcome, asking for draws to be generated beforehand skips that many draws, and generators write only inside the supplied buffer.",
  ["inputs", "configurations"], "all source sizes, counts, bounds and seeds",
  "Tests run one seed and check nothing about the selection.",
  [("random utilities", "strtk.hpp: strtk::generate_random_data, strtk::generate_random_values, random_permutation, random_combination, select_k_randomly, select_1_randomly, uniform_real_rng")])

p("P24", "Text construction and joining is exact concatenation",
  "Constructing, joining, conditional joining, replicating, bracketing, cutting, translating and inserting at intervals produce exactly the specified concatenation of their parts: delimiters only between included elements, replication counts exact, cuts limited to the source. "
  "Joining with a delimiter and then splitting by it returns the original parts when none contains it.",
  ["inputs", "configurations"], "all element lists, delimiters, counts, predicates and ranges; all arities",
  "Empty lists, single elements and every arity are not sampled by tests.",
  [("construct / join / join_if", "strtk.hpp: strtk::construct, join, join_if"), ("replicate, bracketize, cut, translate, inserter, build_string", "strtk.hpp: strtk::replicate .. strtk::build_string")])

p("P25", "Text layout helpers keep the text and only add or move what they claim",
  "Centering and left or right alignment pad to the requested width without altering the text, text already wide enough is returned whole, and swapping, inserting, removing or taking the remainder of text changes only the addressed part. "
  "Case conversion and printable filtering affect only the bytes concerned.",
  ["inputs"], "all texts, widths, positions and padding bytes",
  "Width smaller than, equal to and odd/even larger than the text are a small exhaustive space the tests skip.",
  [("text helpers", "strtk.hpp: namespace strtk::text"), ("case and printable conversion", "strtk.hpp: strtk::convert_to_uppercase, convert_to_lowercase, convert_to_printable_chars")])

p("P26", "Extended string operations match their plain-text definitions",
  "Every extended-string operation (case change, removal, trimming, replacement, position and prefix/suffix tests, repetition and remainder arithmetic, conversion to and from values, splitting and parsing) gives the result of its definition on the underlying text and modifies the object only where the operation says so. "
  "Sequences of such operations compose accordingly.",
  ["histories"], "all operation sequences on all texts",
  "The wrapper class is almost untested; mutations compose over histories.",
  [("ext_string", "strtk.hpp: strtk::ext_string")], [("wrapped text", "current contents", "strtk.hpp: strtk::ext_string::s_")])

p("P27", "Bit and byte transformations are exact and invertible where defined",
  "Bitwise combination of byte ranges is exact at every byte, interleaving keeps every input bit at its own place so that both inputs can be recovered, Hamming distance counts exactly the differing bits or elements, and bit counts match for all values. "
  "A digest folds one mixing step over every element in order, starting from the seed, and is the same through every entry point, and no operation reads or writes outside its ranges.",
  ["inputs"], "all byte strings, all widths and lengths",
  "Block-boundary lengths and every byte value need enumeration.",
  [("bitwise / interleave / hamming", "strtk.hpp: strtk::bitwise_transform .. strtk::hamming_distance"), ("hash", "strtk.hpp: strtk::hash, strtk::details::compute_block")])

p("P28", "Sequence utilities compute their mathematical definition",
  "Copying subsets, extracting unique or conditional elements, counting consecutive duplicates, finding the first non-repeated byte, computing minimum and maximum, canonical rotation, range membership, range views, delimiter predicates and iota-style filling return exactly what their definition says for every sequence. "
  "None of them depends on element order or content beyond that definition or accesses memory outside the sequence.",
  ["inputs"], "all sequences including empty and single-element ones",
  "Empty inputs, ties and high bytes are not sampled.",
  [("sequence helpers", "strtk.hpp: strtk::copy_*, extract_unique, count_consecutive_duplicates, min_value, max_value, lexicographically_canonicalize, first_non_repeated_char")])

p("P29", "Typed holders give back what was last stored",
  "A type-erased value handle assigned from text converts and stores into exactly the variable it is bound to, and fails without effect when unbound or unconvertible; copies stay bound to the same variable, and a copied semantic action calls the same function. "
  "Change-tracking attributes report initialisation, change and previous value according to their assignment history, scoped restoration always returns the variable to its entry value, and container helpers delete, list or add exactly the addressed elements in the container's order.",
  ["histories"], "all assignment, copy and read histories",
  "Outcome depends on the order of assignments and copies, which the tests do not vary.",
  [("util::value / attribute / scoped_restore / semantic_action", "strtk.hpp: namespace strtk::util"), ("container helpers", "strtk.hpp: strtk::util::make_key_list, make_value_list, delete_all, delete_if, push_back, clear")],
  [("initialised, changed, previous", "attribute history flags", "strtk.hpp: strtk::util::attribute")])

p("P30", "Command line tools report what their input contains",
  "The bundled command line programs (word frequency, numeric statistics, glob filter, hex view, combination printer, line randomiser, period and address parsers) accept exactly the inputs they define and derive their output from the whole of their input: every line, word, number or arrangement is accounted for exactly once. "
  "Their output does not depend on how the input is cut into lines or on its size, beyond what the tool defines.",
  ["inputs"], "all input files the tools accept",
  "The tests run each tool on at most one input and compare nothing.",
  [("tools", "strtk_wordfreq.cpp, strtk_numstats.cpp, strtk_glober.cpp, strtk_hexview.cpp, strtk_combinations.cpp, strtk_randomizer.cpp, strtk_random_line.cpp")])
P[29]["anchors"]["files"] = ["strtk_wordfreq.cpp", "strtk_numstats.cpp", "strtk_glober.cpp", "strtk_hexview.cpp", "strtk_combinations.cpp", "strtk_randomizer.cpp", "strtk_random_line.cpp", "strtk_period_parser.cpp", "strtk_ipv4_parser.cpp"]

p("P31", "Output adaptors and container sinks deliver every field exactly once",
  "An output adaptor that is given fields or values appends, inserts, pushes or writes through its pointer exactly those that convert to the element type, in the order given and keeping what was there, while counting and forwarding adaptors see every element once; this is the same for every way of writing to an adaptor and for copies of it. "
  "A container sink standing for one variable of a parse splits its own field by its own delimiters, option and limit into its container, succeeds when the field had any element (with a limit: when exactly that many were added) and leaves the other variables to their own fields, however it was set up.",
  ["inputs", "histories"], "all field lists, all container kinds, all delimiter sets, options and limits, all ways of setting up and reusing a sink",
  "Tests use a few adaptors on one list each and check no limits, reuse or copies.",
  [("output adaptors", "strtk.hpp: strtk::range_to_type_back_inserter .. strtk::functional_inserter"), ("container sinks", "strtk.hpp: strtk::sink_type, strtk::vector_sink, strtk::details::parse_stl_container_proxy")],
  [("bound container, delimiters, limit", "set-up of a sink", "strtk.hpp: strtk::sink_type")])

p("P32", "Fixed-size array and in-place range helpers touch exactly their cells",
  "Comparing two arrays over a fixed number of bytes holds exactly when those bytes are equal whatever lies beyond them, copying text or an array into an array succeeds exactly when it fits and changes only the copied cells and the requested padding, and clearing sets exactly the requested number of cells. "
  "Filling or reversing a range in place changes only that range, making a string from an array or range takes exactly its bytes, and no operation touches memory outside the arrays and ranges it was given.",
  ["inputs"], "all array sizes and contents, all sub-ranges",
  "Sizes are template arguments, so each test exercises one size; block boundaries need all of them.",
  [("array helpers", "strtk.hpp: strtk::memcmp_n, strtk::set_array, strtk::clear_array, strtk::make_string, strtk::fill, strtk::reverse, strtk::make_pair")])

for q in P:
    assert len(q["title"]) <= 80, q["id"]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
