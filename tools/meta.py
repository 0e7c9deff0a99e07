#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run from anywhere; output is committed)."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ST = "flut/string_tools.cpp"; STH = "flut/string_tools.hpp"
prop("C01", "Quoted text always reads back as the original bytes",
     "Quoting any byte string and unquoting it again, directly or by reading it as a token from a text stream, returns exactly the original bytes, whether quoting was forced or only applied when needed. The quoted form is a single printable line, and every string containing blanks, control characters, quotes or backslashes is recognised as needing quotes. Text that is not enclosed in quotes is left unchanged, and malformed quoted text is handled without reading outside it or looping.",
     ["inputs"], "all byte strings, including NUL, non-ASCII bytes, escapes in every combination, very long strings and malformed quoted text",
     "The tests round-trip one ASCII string; quoting must be an identity for every byte combination, and defects hide in escapes next to escapes, signedness and string ends.",
     [ST, STH, "flut/char_stream.cpp"], [("escape encoder and decoder", ST + " encode_char/decode_char"), ("quoting", ST + " quoted/needs_quotes/try_quoted/try_unquoted"), ("token reader", "flut/char_stream.cpp get_token")])
prop("C02", "Token reading follows the lexical rules on every text and terminates",
     "For any text and any choice of delimiter, operator and quotation characters, reading tokens until the end yields exactly the sequence given by the lexical rules: delimiters separate tokens, an operator character is a token of its own, quoted parts are decoded and joined to adjoining text, and an empty quoted string is a token. Reading always reaches the end of the text in finitely many calls and never touches memory outside it; copies and moved streams read on independently from where the original was.",
     ["inputs"], "all texts over delimiters, operators, quotes, escapes and plain characters; all delimiter, operator and quotation sets; all positions of the end of input",
     "The tests read a handful of well-formed lines; the rules must hold for every adjacency of quotes, operators, delimiters and the end of the text.",
     ["flut/char_stream.cpp", "flut/char_stream.hpp"], [("token state machine", "flut/char_stream.cpp get_token"), ("end and delimiter handling", "flut/char_stream.hpp skip_delimiters/test_eof")],
     [("read position", "next unread character", "flut/char_stream.hpp"), ("stream flags", "end / failure", "flut/char_stream.hpp")])
prop("C03", "Typed reading from text yields the right values, counts and end state",
     "Reading numbers, words and lines from any text returns exactly the values written there, in order; reading something that is not there reports failure, and consuming the last item reports the end of the text. Reading several variables at once reports how many were read and leaves every variable after the first unreadable one untouched, and converting a text to a list returns every element up to the requested maximum or the first unreadable one.",
     ["inputs", "histories"], "all texts built from valid and invalid items, separators and line ends, and all sequences of read operations on them",
     "The tests read one fixed line with one fixed sequence of types; the state after each read depends on the whole preceding history of reads.",
     ["flut/char_stream.hpp", "flut/char_stream.cpp", STH], [("typed extraction", "flut/char_stream.hpp operator>>"), ("line reading", "flut/char_stream.cpp get_line"), ("multi-variable and list reading", STH + " scan_str/str_to_vec")])
prop("C04", "String splitting, trimming, slicing and affix tests obey their laws",
     "Splitting a string returns exactly its maximal runs without separators, in order; trimming removes exactly the leading and/or trailing trim characters; the parts left and right of a separator, key/value pairs, and the left, middle and right parts of given lengths (at most the whole string) are exactly those of the input, null characters and thousands of parts included. Prefix, suffix and position tests agree with a character-by-character comparison.",
     ["inputs"], "all strings, separator sets, trim sets, affixes and counts",
     "The tests split two strings; boundary positions (empty parts, separators at both ends, repeated affixes) are a universally quantified space.",
     [ST, STH, "flut/system_tools.cpp"], [("split/trim/key-value", ST + " split_str/trim_str/trim_right_str/left_of_str/right_of_str/make_key_value_str"), ("slices and affix tests", STH + " left_str/right_str/mid_str/str_begins_with/str_ends_with"), ("identifier tidying", "flut/system_tools.cpp tidy_identifier")])
prop("C05", "Glob patterns match exactly the strings their wildcards describe",
     "A pattern of literal characters, single-character wildcards and any-sequence wildcards matches a string exactly when some expansion of the wildcards equals the whole string. Upper and lower case are different characters. A list of alternative patterns matches exactly when at least one alternative does, and searching a sequence finds the first matching element or the end.",
     ["inputs"], "all patterns and strings up to a bounded length; all pattern lists and sequences",
     "No test exercises patterns; correctness is about every pattern/string pair, including several wildcards, empty strings and literal backslashes.",
     [ST, "flut/pattern_matcher.hpp"], [("glob match", ST + " pattern_match"), ("alternatives", "flut/pattern_matcher.hpp pattern_matcher")])
prop("C06", "Values converted to text and back are unchanged; formatted text is complete",
     "Converting integers, enumeration values, strings, paths and floating point values to text and back returns the same value (floating point up to the six decimals that are written), and texts that do not start with a number are rejected for the types that report errors. Printf-style formatting returns the complete formatted text whatever its length, including what follows a null character.",
     ["inputs"], "all boundary values of every supported type, all small values, and formatted texts of every length around internal buffer sizes",
     "The tests convert a few small values; truncation and range errors appear only at particular magnitudes and lengths.",
     ["flut/system/string_cast.hpp", ST], [("conversion table", "flut/system/string_cast.hpp string_cast"), ("formatting", ST + " stringf")])
prop("C07", "Path decomposition and joining are consistent for every path",
     "For every path, parent and filename, and stem and extension, are the exact parts around the last separator and around the last dot of the filename; replacing the filename or extension changes that part only; and joining a folder and a name yields a path whose filename is that name and whose parent is that folder, with exactly one separator added when needed. Normalising separators changes separators only, and the existence of a filename or parent is reported consistently with the parts returned.",
     ["inputs"], "all paths over separators of both kinds, dots, names and drive prefixes, and all pairs for joining and replacing",
     "The tests decompose three paths; dots in folders, missing separators, root-level names and trailing separators are untested.",
     ["flut/system/path.cpp", "flut/system/path.hpp", ST], [("decomposition", "flut/system/path.cpp parent_path/filename/stem/extension"), ("modification", "flut/system/path.cpp replace_extension/replace_filename/remove_filename/operator/"), ("string variants", ST + " get_filename_*")])
prop("C08", "Run-time and compile-time string hashes always agree",
     "Hashing a text at run time, through either overload, gives the same value as hashing it at compile time or as a literal, namely the 64-bit FNV-1a value for texts of 7-bit characters. Hashing is a pure function of the characters, and one character appended changes the value as the hash recurrence prescribes.",
     ["inputs"], "all strings up to a bounded length over all byte values, and long strings",
     "Agreement between two independently written implementations must hold for every string; the tests check none.",
     ["flut/hash.hpp"], [("compile-time hash", "flut/hash.hpp hash_constexpr"), ("run-time hash", "flut/hash.hpp hash")])
prop("C09", "Version numbers survive being written and parsed",
     "Every version written as text and parsed again has the same major, minor, patch and build numbers and the same suffix (of one or more words), whichever of the optional parts are present. Parsing leaves no part undefined.",
     ["inputs"], "all combinations of number magnitudes with and without build number and suffix",
     "No test parses versions; each combination of optional parts takes a different path.",
     ["flut/system/version.hpp"], [("parse and print", "flut/system/version.hpp version/to_str")])

PN = "flut/prop_node.hpp"; PNC = "flut/prop_node.cpp"; PT = "flut/prop_node_tools.cpp"
prop("C10", "A property tree behaves as an ordered list of keyed subtrees",
     "Under every sequence of operations a property tree holds exactly the keys, values and subtrees put into it, in insertion order, with duplicates kept when appended and the first match found when looked up; setting replaces or adds, erasing and inserting affect only their position, dotted access equals stepwise access, and selections list exactly the matching children in order. Copies are independent, equality means equal values, keys and subtrees in order, and looking up something absent yields the default or an error and changes nothing.",
     ["histories", "inputs"], "all operation sequences up to a bounded length over a small set of keys (including duplicates, empty and dotted keys) and values, from every reachable tree",
     "The tests build one fixed tree; behaviour depends on the history of appends, sets, erasures, copies and moves.",
     [PN, PNC], [("tree operations", PN + " prop_node"), ("equality", PNC + " prop_node::operator==")], [("value and children", "node value and ordered keyed children", PN)])
prop("C11", "Saving a property tree as text and loading it returns the same tree",
     "Any property tree whose keys start with a letter, with arbitrary texts as values at any node, is read back identically after being saved, in readable as well as compact form: same keys, values, order and nesting. Saving reports failure when the file cannot be written.",
     ["inputs"], "all trees up to a bounded size with values drawn from all structurally significant texts (operators, quotes, comments, separators, blanks, empty, long, non-ASCII), in both output forms",
     "The tests save one benign tree; the round trip must hold for every value text and shape.",
     [PT], [("writer", PT + " write_prop_none/save_prop"), ("reader", PT + " parse_prop/read_prop_node/get_prop_token")], observe=["file contents", "tree returned by load"])
prop("C12", "Property text is parsed by its grammar; malformed text is reported",
     "Every text formed by the property grammar (labels, assigned values, nested blocks, comments to the end of line, blank lines, line ends or semicolons as separators, quoted text anywhere) parses to exactly the tree it denotes, independent of comments, blank space and the choice of separators. A text with something other than a label where a label is required is reported as an error, through the error code when one is given and as an exception otherwise, and parsing always terminates.",
     ["inputs"], "all documents derivable from the grammar up to a bounded size with every layout choice, and all texts over the structural characters up to a bounded length",
     "The tests parse one file; comments, layout and malformed input in every position are not covered.",
     [PT, "flut/char_stream.cpp"], [("parser", PT + " parse_prop/read_prop_node/get_prop_token"), ("tokenizer", "flut/char_stream.cpp get_token/get_line")])
prop("C13", "Saving a property tree as XML and loading it returns the same tree",
     "Any single-rooted property tree whose keys are XML names and whose values sit on leaves is read back identically after being saved as XML, whatever characters its values contain (values made of blanks only excepted). Attributes are read as children placed before the nested elements, and malformed XML (closing tags that do not match included) or a missing file is reported as an error that states the reason.",
     ["inputs"], "all single-rooted trees up to a bounded size with values over markup characters, entities, quotes, blanks and non-ASCII bytes; all truncations of a document",
     "The tests contain no XML round trip; escaping must be right for every value.",
     [PT, "contrib/rapidxml-1.13"], [("conversion", PT + " get_rapid_xml_node/set_rapid_xml_node"), ("load/save", PT + " load_xml/save_xml")])
prop("C14", "INI files load as written and survive saving and loading",
     "Every INI text of sections, key=value lines, comment lines and blank lines loads to exactly those sections and pairs, each key in the section it follows, with keys and values trimmed; a line that is none of these is an error. Any tree of plain entries and non-empty sections with uniquely keyed non-empty values is read back with the same entries after being saved, plain entries and sections each in their order, with no entry moving into another section.",
     ["inputs"], "all sequences of INI lines up to a bounded number, and all two-level trees up to a bounded size in every order of plain entries and sections",
     "No test loads INI files; line adjacency (comment before key, entry after section) is a combinatorial space.",
     [PT], [("reader", PT + " load_ini"), ("writer", PT + " save_ini")])
prop("C15", "Includes and merges combine property files as documented, and cycles end",
     "Loading a file with include directives replaces each directive, at any nesting depth, by the content of the included file found relative to the including file, or merges the included children into the surrounding node without overriding what is there, and leaves everything else in place and in order. Merging adds the missing keys and replaces existing ones only when asked to, also when a part of a tree is merged into that tree itself, and include cycles and missing files are reported as errors instead of recursing forever.",
     ["inputs", "configurations"], "all include graphs over a bounded number of files and folders with directives in every position and mode, including cycles and missing files; all pairs of small trees for merging",
     "No test exercises includes; each combination of position, mode, nesting and sibling directives takes a different path through the iteration.",
     [PT], [("include resolution", PT + " resolve_include_files/load_file_with_include"), ("merge", PT + " merge_prop_nodes")])
prop("C16", "Unread properties are tracked exactly",
     "After any history of reads a node counts as accessed exactly when it was on the path of some read since it was created or last reset; the number of unaccessed nodes equals the number never reached, and the report of unused properties names exactly those and their ancestors. Copies and freshly loaded trees start out unaccessed.",
     ["histories"], "all sequences of reads, defaulted reads, failing reads, copies and resets on trees up to a bounded size",
     "Access flags accumulate over a history of const reads; no test checks them.",
     [PN, PT], [("access flag", PN + " access/is_accessed/count_unaccessed/clear_accessed_recursively"), ("report", PT + " log_unaccessed")])
prop("C17", "Typed values stored in property trees come back unchanged",
     "Numbers, flags, texts, paths, lists, vectors, rotations and transforms stored in a property tree are retrieved with the same value, and the alternative notations of vectors and bounds (blank-separated components, lower..upper ranges, single values, named limits) give the components they spell out. A missing key yields the given default, or an error when no default is given.",
     ["inputs"], "all small component values of every supported type, every notation, list lengths across a bound, present and missing keys",
     "The tests read a few scalar properties; every type has its own conversion in both directions.",
     [PN, "flut/math/vec3_type.hpp", "flut/math/quat_type.hpp", "flut/math/transform.hpp", "flut/math/bounds.hpp", "flut/prop_node_tools.hpp"], [("conversion", PN + " prop_node_cast"), ("initialisation macros", "flut/prop_node_tools.hpp INIT_PROP")])

prop("C18", "The flat map behaves as an insertion-ordered map with unique keys",
     "Under every sequence of insertions by key, updates, erasures, clears and copies, the flat map holds exactly one entry per inserted key with its latest value, in order of first insertion; lookup, membership, counting and iteration agree with that, and accessing an absent key for reading is an error that changes nothing.",
     ["histories"], "all operation sequences up to a bounded length over a small key set, and large maps",
     "The tests insert three keys; agreement with a map must hold after every history.",
     ["flut/flat_map.hpp"], [("map operations", "flut/flat_map.hpp flat_map")])
prop("C19", "The sorted vector stays sorted, keeps all elements and finds them",
     "After every sequence of insertions, erasures and clears the container holds exactly the inserted and not erased elements in non-descending order, equal elements in insertion order, and finding an element returns its first position if present and the end otherwise.",
     ["histories"], "all operation sequences up to a bounded length over a small ordered element set with equal keys",
     "The tests insert five elements and check nothing; order and lookup must hold after every history.",
     ["flut/sorted_vector.hpp"], [("ordered insertion and search", "flut/sorted_vector.hpp insert/find")])
prop("C20", "The circular deque behaves as an unbounded double-ended queue",
     "Under every sequence of pushes and pops at both ends, clears and reservations, from every capacity and every wrap position, the deque holds exactly the elements a double-ended queue would hold, in order; both ends, indexed access, iteration, size and emptiness agree with that, and removing from or looking into an empty deque is an error.",
     ["histories", "configurations"], "all operation sequences up to a bounded length from every initial capacity up to a bound",
     "The tests push in one direction at a fixed capacity; wrap position and growth interact only in particular histories.",
     ["flut/circular_deque.hpp"], [("ring indexing and growth", "flut/circular_deque.hpp push_back/push_front/reserve")], [("front index, size, buffer", "ring position", "flut/circular_deque.hpp")])
prop("C21", "Fixed-size arrays have value semantics under copies, moves and assignment",
     "Arrays constructed, filled, copied, moved, assigned and self-assigned in any order hold exactly the values last given to them; copies share nothing with their source, a moved-to array has the source's values, a moved-from array is empty and usable, and out-of-range checked access is an error.",
     ["histories"], "all sequences of construct, copy, move, assign, self-assign, fill and write over several arrays up to a bounded length",
     "No test touches this class; ownership errors appear only after particular sequences.",
     ["flut/dynarray.hpp"], [("ownership", "flut/dynarray.hpp dynarray")])
SG = "flut/storage.hpp"; DH = "flut/buffer/data_header.hpp"
prop("C22", "Data storage keeps every value at its frame and channel as it grows",
     "Under every sequence of adding frames and channels, resizing, labelling, writing by position or by label and clearing, a storage returns for every frame and channel the value last written there, or the stated default where nothing was written, also when the data added is that of the storage itself; labels and channel positions correspond one to one, the most recent frame is addressed by channel or label, and interpolation between frames is linear and holds the first and last frame outside them. Giving a channel the label it already has changes nothing. Invalid positions, sizes that would shrink it and duplicate labels are errors that change nothing, and printed storage lists labels and values in order.",
     ["histories"], "all operation sequences up to a bounded length from every small initial size",
     "The tests add channels to an empty storage; relocation of existing values depends on the history of frames and channels.",
     [SG, DH, "flut/system/debug_storage.cpp"], [("reorganisation", SG + " resize/add_channel/add_frame"), ("label index", DH + " data_header")], [("data, frame count, labels", "row-major frames", SG)])
prop("C23", "Tables keep every cell under its row and column label as they grow",
     "Under every sequence of adding rows and columns with defaults, resizing and writing cells by position or by label pair, a table returns for every cell the value last written there or the default given when its row or column was created (a default read from the table itself included); labels (labels read from the table itself included) map to the positions they were added at, addressing an unknown label pair creates it when writing and is an error when reading, and shrinking is an error.",
     ["histories"], "all operation sequences up to a bounded length over small label sets from every small initial size",
     "The tests only print a computed table; growing in both directions relocates cells in history-dependent ways.",
     ["flut/table.hpp", DH], [("growth", "flut/table.hpp add_row/add_column/resize"), ("label index", DH)])
prop("C24", "The circular frame buffer always holds the most recent frames",
     "After any number of frames have been added and written, the buffer returns for each of the most recent frames, up to its capacity, exactly the values written to that frame (in labelled buffers), by absolute number, counted back from the newest, or for the newest frame directly; checked access to overwritten, future or unknown positions is an error, and interpolation between two retained frames is linear. Adding a channel or resizing clears the contents and keeps labels, channel numbering and capacity consistent, for labels of any type, text by default.",
     ["histories", "configurations"], "all operation sequences up to a bounded length for every small capacity and channel count, across several wraps",
     "No test uses the class; wrap-around and underflow appear only for particular frame counts.",
     ["flut/buffer/circular_frame_buffer.hpp", DH], [("ring addressing", "flut/buffer/circular_frame_buffer.hpp operator()/at/reverse")])
prop("C25", "Flag sets and optional values track exactly what was set",
     "Under every sequence of setting, clearing, assigning and copying, a flag set reports a flag exactly when it was last set, independently of all other flags, for every flag index its storage can hold. An optional value is empty exactly until a value is assigned and then returns that value, including when read from a text, where unreadable text leaves it unchanged.",
     ["histories"], "all operation sequences up to a bounded length over flag indices at both ends of the storage; all assignment histories over boundary values of every value type",
     "The tests set three flags and one value; independence of flags must hold for every index and history.",
     ["flut/flag_set.hpp", "flut/math/optional.hpp"], [("bit operations", "flut/flag_set.hpp flag_set"), ("sentinel encoding", "flut/math/optional.hpp optional")])
prop("C26", "Dictionaries, factories, memoisation and cloning return what was registered",
     "Looking up a dictionary by element or by name returns the first registered partner, or the default or an error when absent; a factory creates an instance of exactly the type last registered under a name with the given arguments and reports unknown names; a memoised function returns what the function returns while evaluating it once per distinct argument list; cloning yields equal, independent objects. Names derived from types, templates with their arguments included, are the unqualified class names.",
     ["histories", "inputs"], "all registration and lookup sequences up to a bounded length over small name sets, all argument lists over a small domain",
     "The tests look up each registered name once; re-registration, absent names and repeated calls are histories.",
     ["flut/dictionary.hpp", "flut/factory.hpp", "flut/memoize.hpp", "flut/memory_tools.hpp", "flut/system_tools.cpp"], [("lookup", "flut/dictionary.hpp"), ("creation", "flut/factory.hpp"), ("cache", "flut/memoize.hpp")])
prop("C27", "Sequence statistics, orderings and filtered views are exact for every sequence",
     "For every sequence, minimum, maximum, average, median, average of the smallest elements, element and index search, sorted copies and sort indices equal their definitions, also when fewer elements exist than were asked for and for constant sequences, and leave the input unchanged; a filtered view visits exactly the matching elements in order; channel means and covariances equal their definitions.",
     ["inputs"], "all sequences up to a bounded length over small value sets with ties and negatives, all predicates over them, all small data matrices",
     "The tests print two covariance matrices; definitions quantify over every sequence, especially even lengths, ties and empty selections.",
     ["flut/container_tools.hpp", "flut/buffer/data_algorithms.hpp"], [("statistics", "flut/container_tools.hpp"), ("views", "flut/container_tools.hpp view_if"), ("channel statistics", "flut/buffer/data_algorithms.hpp")])

LG = "flut/system/log.cpp"; LS = "flut/system/log_sink.hpp"
prop("C28", "Each log message reaches exactly the sinks that want it, complete and in order",
     "After any history of adding, removing and destroying sinks and of changing levels per sink or globally, a logged message is delivered exactly once to each live registered sink whose level is at or below the message's level, to no other sink, in logging order and with its full text however long, by streaming and by printf-style calls alike, also when a sink adds or removes sinks while it handles a message. While at least one sink is registered, the global level reports the lowest level any registered sink accepts.",
     ["histories", "inputs"], "all sequences of sink and level operations and messages up to a bounded length over several sinks and all levels; message lengths across internal buffer sizes",
     "The tests log to one sink; filtering depends on the history of registrations and level changes.",
     [LG, "flut/system/log.hpp", LS], [("dispatch and cached level", LG + " log_string/get_global_log_level/set_global_log_level"), ("per-sink filter", LS + " try_send_log_message")], [("registered sinks and lowest level", "dispatch state", LG)])
prop("C29", "A message logged to a file survives an immediate crash",
     "Every message accepted by a file sink is completely in the file, in order and one per line, as soon as the logging call returns: if the process is killed at any point afterwards, the file contains all messages whose calls had returned and at most a prefix of one more. Interrupted and short writes do not lose or repeat text, a sink opened on an existing file starts it anew, and a sink whose file cannot be opened or written reports that it is not good.",
     ["crash_points", "fault_sequences"], "every kill point between and inside the write system calls of every bounded logging history, with every pattern of short and failing writes up to a bound",
     "Tests never kill the process nor inject write faults; durability is a statement about every crash point.",
     [LS], [("flush per message", LS + " file_sink::send_log_message")])
FS = "flut/filesystem.cpp"
prop("C30", "Concurrent requests for a unique folder never receive the same folder",
     "However many callers concurrently request a unique folder with the same base name, each successful call returns a folder that exists, that it created itself and that no other caller received, whatever folders existed before and however the calls interleave; the name is the base name or the base name with a counter. When no name is available within the allowed attempts the call fails with an error and existing folders are never touched.",
     ["schedules", "configurations", "fault_sequences"], "all interleavings of the file system calls of 2 and 3 concurrent callers, for every small set of pre-existing folders and attempt limits, with creation failures injected",
     "Tests run one caller; uniqueness is about interleavings between the existence test and the creation.",
     [FS], [("check then create", FS + " create_unique_folder/create_directories/folder_exists")])
prop("C31", "File operations are faithful and failures never pass silently or lose data",
     "Loading a file returns exactly its bytes; copying yields a byte-identical file and reports success only then, never overwrites an existing file unless asked to, and leaves an existing destination intact when the source cannot be opened; creating nested folders creates every missing level; existence tests of files and of folders, removal and the current folder agree with the file system (a folder is not a file, and a trailing separator changes nothing). A failure to open, read or write while loading, copying, entering a folder or saving properties in any format (XML and INI included) is reported by the result, error code or exception of the call.",
     ["inputs", "fault_sequences"], "all small file system configurations and contents, and every single and double fault (failed open, failed or short read, failed or short write) at every system call of each operation",
     "Tests use no files; failure behaviour must hold at every system call that can fail.",
     [FS, "flut/system_tools.cpp", "flut/char_stream.cpp"], [("copy and load", FS + " copy_file/load_string"), ("folders", FS + " create_directories"), ("removal", "flut/system_tools.cpp remove")])
prop("C32", "Timers and stopwatches measure real elapsed time, immune to clock changes",
     "A timer reports the time elapsed since its creation or last reset, consistently in all its units, and never runs backwards, even if the system's wall clock is set while it runs. A stopwatch attributes every interval to the label that ended it, summing repeated labels in order of first use, so that all reported times including its own overhead add up to the total elapsed time. A report in any precision leaves the formatting of other numbers unchanged.",
     ["histories", "configurations"], "all sequences of clock advances, wall clock jumps, resets and measurements up to a bounded length under a controlled clock",
     "Tests use the real clock and cannot set it back; the property quantifies over every clock history.",
     ["flut/timer.hpp", "flut/stopwatch.hpp", "flut/stopwatch.cpp"], [("clock choice", "flut/timer.hpp timer"), ("attribution", "flut/stopwatch.cpp add_measure/get_report")])
prop("C33", "The profiler attributes time to nested sections exactly",
     "For every properly nested history of entering and leaving sections, the report contains exactly the section tree that was executed, sections of the same name under the same parent being summed, with each section's total time, its share of the overall time and its time exclusive of subsections as the clock dictates, subsections in order of decreasing time. Use from another thread is rejected, and a reset forgets everything recorded.",
     ["histories"], "all well-nested enter/leave sequences up to a bounded length and depth over a small set of names, with controlled clock advances, repeated resets and reports",
     "Tests cannot control the clock; accumulation over re-entered and recursive sections is history dependent.",
     ["flut/system/profiler.cpp", "flut/system/profiler.hpp"], [("section tree", "flut/system/profiler.cpp start_section/end_section/find_section"), ("report", "flut/system/profiler.cpp report_section")])
prop("C34", "The test framework's tallies and verdict match the checks performed",
     "After any sequence of checks, resets and reports, the framework's numbers of performed, passed and failed checks are those since the last reset, each check returns its own outcome, failures are always logged, and the report fails exactly when some check since the last reset failed.",
     ["histories"], "all sequences of passing and failing checks, resets, reports and display settings up to a bounded length",
     "The framework is what judges the other tests, and nothing tests it.",
     ["flut/system/test_framework.cpp", "flut/system/test_framework.hpp"], [("tally", "flut/system/test_framework.cpp test/reset/report")])

Q = "flut/math/quat.hpp"
prop("C35", "Rotations and rigid transforms form a group acting on vectors",
     "Composing unit rotations is associative, has the identity and the conjugate as inverse, and rotating a vector by a composition equals rotating in sequence; rotation preserves lengths, dot and cross products. Rigid transforms compose, invert and act on points, orientations and other transforms consistently with their rotation and translation, so that transforming and inverse-transforming returns the original.",
     ["inputs"], "all words over generating rotations up to a bounded length, closed groups of exactly representable rotations, and all small integer vectors and translations",
     "The tests compare random samples with another library; group laws quantify over all compositions.",
     [Q, "flut/math/transform.hpp", "flut/math/vec3.hpp"], [("quaternion algebra", Q + " operator*"), ("transforms", "flut/math/transform.hpp transform_")])
prop("C36", "Rotation conversions agree with each other for every orientation",
     "A rotation built from axis and angle, Euler angles in any of the six orders, coordinate axes, a pair of directions or a pair of orientations performs exactly that rotation, including half turns, null rotations and opposite directions; pitch, yaw and roll are the angles by which the rotation turns the y axis in the yz plane, the z axis in the zx plane and the x axis in the xy plane, so for a rotation about a single coordinate axis its angle; converting a rotation to axis and angle or to a rotation vector and back performs the same rotation, also for long compositions of rotations and rotations close to none, and normalising keeps the direction and yields unit length.",
     ["inputs"], "a closed grid of orientations: all multiples of 15 degrees about every small integer axis, all pairs of small integer directions, all signed permutations of axes, all six Euler orders over a grid of angles",
     "The tests compare two random samples; the singular orientations (half turns, parallel and opposite directions, each largest-component branch) need enumeration.",
     [Q, "flut/math/mat33.hpp"], [("conversions", Q + " quat_from_axis_angle/quat_from_euler/quat_from_axes/quat_from_directions/axis_angle_from_quat/rotation_vector_from_quat")])
prop("C37", "Clamping, wrapping, bounds and bounding boxes respect their limits",
     "Clamped values lie within the limits and equal the input when it does; soft clamping additionally stays strictly inside the limits, is monotonic and leaves the inner range unchanged; wrapped values lie in the closed range and differ from the input by whole periods; violation, containment and range of bounds agree with clamping; scalar helpers (sign, signed root, parity, powers of two, square wave, comparison) equal their definitions for negative, zero and positive arguments. A bounding box contains exactly the hull of everything added to it.",
     ["inputs", "histories"], "all values on a grid around all limits on a grid, integer and floating point; all sequences of points and boxes added up to a bounded length",
     "The tests print a few values; limits, signs and period multiples are boundary cases of a universal statement.",
     ["flut/math/math.hpp", "flut/math/bounds.hpp", "flut/math/bounding_box.hpp"], [("limits", "flut/math/math.hpp clamp/soft_clamp/wrap"), ("bounds", "flut/math/bounds.hpp"), ("hull", "flut/math/bounding_box.hpp")])
prop("C38", "Interpolation, sampled functions, polynomials and regression are exact",
     "Interpolating a series with floating point keys or indices returns the sample at its key, lies on the straight line between neighbouring samples, and holds the first and last sample outside the range, however far, while an empty series is refused; a sampled piecewise linear function equals the original at its sample points and is linear between and beyond them; polynomials evaluate to their defining sum; linear regression returns the least-squares line, identically for all its input forms, and inverting a line returns the argument.",
     ["inputs"], "all series up to a bounded length over small keys and values queried on a grid inside, at and outside the samples; all small coefficient tuples; all small point sets",
     "The tests print interpolated values and fit two exact lines; interior, boundary and exterior queries of every series are not checked.",
     ["flut/buffer/interpolation.hpp", "flut/buffer/buffer_access.hpp", "flut/math/regular_piecewise_linear_function.hpp", "flut/math/polynomial.hpp", "flut/math/linear_regression.hpp"], [("interpolation", "flut/buffer/interpolation.hpp"), ("piecewise linear", "flut/math/regular_piecewise_linear_function.hpp"), ("regression", "flut/math/linear_regression.hpp")])
prop("C39", "Delay lines and filters reproduce their defining response for every signal",
     "For every input signal sampled at a step that divides the delay window, a delay line outputs the input from one delay earlier, linearly interpolated between window samples, and its initial value before that; the smooth variant does the same with the averages over the windows, for all steps up to the window length. A recursive filter outputs exactly the difference equation of its coefficients, and the low-pass design passes constants unchanged and is linear and time invariant.",
     ["histories"], "all input signals up to a bounded length over a small value set, for several resolutions, window divisions, initial values and cut-off ratios",
     "The tests write signals to files without checking; the state depends on the whole input history.",
     ["flut/math/delayer.hpp", "flut/filter.hpp"], [("ring of samples", "flut/math/delayer.hpp add_sample/delayed_value"), ("difference equation", "flut/filter.hpp iir_filter")])
prop("C40", "Vector and angle arithmetic obeys the vector-space and unit laws",
     "Addition, subtraction, negation, scaling, division, comparison, lengths, distances, dot and cross products of three- and four-component floating point vectors act on all components as in linear algebra, in plain and assigning form alike; component access, iteration and conversion between value types preserve components; text output reads back; a matrix made of axes or elements holds them in place. Angles convert between degrees and radians exactly at conversion, keep their value in arithmetic and comparisons, and give the same trigonometric results in either unit.",
     ["inputs"], "all pairs and triples of small integer vectors, scalars on a grid, and angles on a grid",
     "The tests compare random samples of a few operators; one operator ignoring one component is invisible to them.",
     ["flut/math/vec3.hpp", "flut/math/vec3_type.hpp", "flut/math/vec4.hpp", "flut/math/vec4_type.hpp", "flut/math/angle.hpp"], [("operators", "flut/math/vec3.hpp, flut/math/vec4.hpp"), ("units", "flut/math/angle.hpp angle_converter")])
prop("C41", "Ranges, running averages, differences and seeded random numbers are exact",
     "Iterating an integer range visits exactly its members in order, with the given step whether or not it divides the range, and nothing when the end lies before the begin; a running weighted average equals the weighted mean of what was added since the last reset and is zero when empty; a difference tracker returns the change since the previous value. Random sequences depend only on the seed, repeat after reseeding, and stay within the requested range.",
     ["histories", "inputs"], "all ranges over small bounds and steps, all sequences of additions and resets up to a bounded length, many seeds",
     "The tests use one range; accumulation over arbitrary histories is not checked.",
     ["flut/math/irange.hpp", "flut/math/average.hpp", "flut/math/delta.hpp", "flut/math/random.hpp"], [("iteration", "flut/math/irange.hpp"), ("accumulation", "flut/math/average.hpp"), ("generator", "flut/math/random.hpp")])
prop("C42", "Splines pass through their points and follow the Catmull-Rom curve between them",
     "A spline segment starts at its second and ends at its third control point and follows the Catmull-Rom cubic of its four control points at every parameter, for numbers and for vectors; with a given alpha it follows the curve of the corresponding (uniform, centripetal, chordal) parameterisation. A spline of many points takes the value of each inner point at that point's time, uses between two times exactly the segment of these two times, and continues its first and last segment beyond its ends; too few points, or times that do not belong to the points, are refused. The length of a curve is the sum of the distances between its sampled points.",
     ["inputs"], "all small control points, alphas, time spacings, numbers of points and parameters, at, between, before and after the times",
     "No test uses splines; choosing the right segment depends on every position of the parameter relative to the times, including exactly on them.",
     ["flut/math/catmull_rom.hpp"], [("basis", "flut/math/catmull_rom.hpp catmull_rom_segment"), ("parameterised segments", "flut/math/catmull_rom.hpp catmull_rom_segment_alpha"), ("segment choice", "flut/math/catmull_rom.hpp catmull_rom::operator()"), ("length", "flut/math/catmull_rom.hpp compute_spline_length")])
prop("C43", "Diagnostic statements and error codes report exactly the errors there are",
     "An assertion, validation or conditional error raises a flut::exception exactly when its condition calls for it, evaluates the condition once, and behaves as one statement wherever a statement may stand, so that surrounding branches and loops are unaffected. The exception carries the complete message, whatever characters it contains, and for assertions and validations also the kind of failure, the function and the condition. An error code holds exactly the code and message last set, is an error exactly when its code is not zero, and reporting an error where nobody receives it says so.",
     ["inputs", "histories"], "all diagnostic statements, conditions, messages and surrounding control structures; all sequences of operations on error codes",
     "The tests never let an assertion fail; whether a diagnostic changes the control flow around it, or loses its message, shows only for particular surroundings and messages.",
     ["flut/system/assert.hpp", "flut/system/error_code.hpp"], [("diagnostic statements", "flut/system/assert.hpp flut_assert/flut_validate/flut_error_if/flut_error"), ("error object", "flut/system/error_code.hpp error_code/try_set_error")])
prop("C44", "Time stamps, delays, interruption, crash messages and function tables are right",
     "A time stamp shows the local calendar date and time of the moment it is taken, in the requested format, for every date and time zone. A delay lasts at least the requested number of milliseconds, and not noticeably longer, even if signals wake the process meanwhile; zero or negative delays return at once. An object reports that it is interrupted exactly from the moment it has been interrupted, independently of other objects, and derived classes can override the reaction. A deliberate crash ends the process by a signal, and its message, if any, is complete in every log that accepts critical messages. A tabulated function lists the requested number of evenly spaced arguments from the first to the last with their values. The folders for the user's documents and settings lie in the home folder of the user.",
     ["inputs", "histories", "fault_sequences"], "all dates of many years, times of day, zones and formats; all delays and patterns of early wake-ups; all sequences of interruptions; all crash messages and log set-ups",
     "The tests run at one moment in one time zone, without signals, and cannot crash; calendar boundaries, interrupted waits and what a dying process leaves behind are out of their reach.",
     ["flut/system_tools.cpp", "flut/interruptible.cpp", "flut/debug_tools.hpp"], [("time stamp", "flut/system_tools.cpp get_date_time_str"), ("delay", "flut/system_tools.cpp sleep"), ("interrupt flag", "flut/interruptible.cpp"), ("crash", "flut/system_tools.cpp crash"), ("function table", "flut/debug_tools.hpp output_function")])

TECH = json.load(open(os.path.join(HERE, "tools", "tech.json"))) if os.path.exists(os.path.join(HERE, "tools", "tech.json")) else {}

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        h = glob.glob(os.path.join(HERE, "harness", p["id"].lower() + "_*.cpp"))
        if not h:
            na.append({"property": p["id"], "reason": "no check built yet"})
            continue
        bounds = " ".join(l.split(":", 1)[1].strip() for l in open(h[0]) if l.startswith("// MC-BOUNDS:"))
        oracle = " ".join(l.split(":", 1)[1].strip() for l in open(h[0]) if l.startswith("// MC-ORACLE:"))
        tech = " ".join(l.split(":", 1)[1].strip() for l in open(h[0]) if l.startswith("// MC-TECHNIQUE:")) or "stateless explicit enumeration of all bounded inputs / operation sequences on the real code, against a reference model"
        checks.append({"property": p["id"], "quick_cmd": "./run.py %s --tier quick" % p["id"], "thorough_cmd": "./run.py %s --tier thorough" % p["id"],
                       "technique": tech, "level": "model_checking",
                       "level_note": "Exhaustive within: %s. Oracle: %s. Every execution runs the real code from the working tree under AddressSanitizer; nothing is claimed outside these bounds." % (bounds, oracle)})
    m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
         "notes": "No hooks are compiled into /repo: file system, clock and scheduling are controlled by interposing libc functions in the harness binaries."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks")

main()
