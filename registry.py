"""One entry per property: what is compiled from /repo, and how the evidence is described."""
CHECKS = {}
def check(pid, **kw):
    kw.setdefault("level", "model_checking")
    CHECKS[pid] = kw

check("C01", sources=["array/array.c"],
      oracle="reference sequence of element values (harness/c01.c: struct seq), compared after every operation; AddressSanitizer; live-allocation count",
      bounds={"quick": "all histories of length <= 4 over 135 operations (index/amount classes 0,1,2,len/2,len-1,len,len+1,SIZE_MAX-1,SIZE_MAX) on two arrays, 6 starting configurations, element sizes 1,2,3,8,16; length <= 6 over a 22-operation alphabet",
              "thorough": "one step deeper than quick in every configuration"})
check("C02", sources=["map/map.c"], wrap=["time", "srand", "rand"],
      oracle="reference list of (key,value) in insertion order (harness/c02.c), all keys/values/indices compared after every operation; AddressSanitizer; live-allocation count",
      bounds={"quick": "all histories of length <= 3..6 (per configuration) of insert/key_set/idx_set/key_rm/idx_rm/rehash/clear over 3..14 colliding and wrapping keys, capacities 0..8 and 16, all seed residues modulo the capacity, maps pre-filled to just below and at capacity",
              "thorough": "one to two steps deeper in every configuration"},
      assumptions=["the seed influences the map only through bucket residues: every residue modulo the initial capacity is enumerated"])
check("C03", sources=["deque/deque.c"],
      oracle="reference array of (handle,value) (harness/c03.c); both ends, full forward and backward walks and every handle compared after every operation; AddressSanitizer; live-allocation count",
      bounds={"quick": "all histories of length <= 11..13 (one value kind) / <= 8 (three value kinds of different sizes) of prepend/append/pop_front/pop_back/reset/clear+init/clear from starting capacities 0,1,2,3,4,5,8 and a full deque of 16",
              "thorough": "histories up to length 16..18 / 10"},
      assumptions=["the deque never inspects element bytes (data independence): serial numbers inside elements are dropped from the canonical state"])
check("C04", sources=["tree/tree.c", "array/array.c"],
      oracle="reference tree (harness/c04.c: struct node): data, lengths, child identity and order at every node, and all value lookups, compared after every operation; AddressSanitizer; live-allocation count",
      bounds={"quick": "all histories of length <= 4..5 of set/insert_val/insert_node/rm_index/rm_val/rm_node/clear on the root, its first and its last child (values also handed over from the tree's own nodes), with values of 0,1,2,2,7,20 bytes (prefixes of one another), from trees with 0,2,3,15 children and 0..2 grandchildren",
              "thorough": "one step deeper"},
      assumptions=["two nodes whose serialised data, capacity and children are equal have the same futures (data buffer capacity after a shrinking set is merged; it only affects when memory is reallocated)"])
check("C05", sources=["tuple/tuple.c", "array/array.c"], technique="exhaustive enumeration of all bounded field-size lists on the real code against a C-struct layout model",
      oracle="reference layout (contiguous when packed, C struct rule for scalar sizes, order/disjointness/containment otherwise); whole storage compared after every write; AddressSanitizer; live-allocation count",
      bounds={"quick": "every field-size list over {1,2,4,8} up to 7 fields, over {1,2,3,4,5,7,8,9,12,16} up to 4, over {1,8} up to 12, over {1,8,255,256,32760,65535,70000} up to 3; packed and unpacked; fields written in ascending and descending order; out-of-range indices n, n+1, SIZE_MAX",
              "thorough": "two/one/two/one fields more"},
      assumptions=["field sizes are positive; tuples over 64 KiB (16-bit field table) must be refused"])
check("C06", sources=["variant/variant.c"],
      oracle="reference variant (bytes, size, tag), compared after every operation; caller buffers overwritten and freed after each call; AddressSanitizer; live-allocation count",
      bounds={"quick": "all histories (nothing merged) of length <= 3 over init/set/clear/free of two variants, 9 sizes 1..33 and 5 tags; length <= 5 over 3 sizes and 2 tags",
              "thorough": "one step deeper"})
check("C11", sources=["allocators/objpool/objpool.c"],
      oracle="set of live blocks with their fill bytes: containment, disjointness, alignment, zero fill, retention and the exact free count checked after every operation; all N blocks re-allocatable at the end of every history; AddressSanitizer",
      bounds={"quick": "all reachable states (fixpoint, unbounded histories) of alloc/free/cleanup of any live block and free of NULL/foreign pointers, for pools of 1..6 objects of 1,7,8,9,16,24,33 bytes and 2..3 objects of 63..70,000 bytes, heap and caller's buffer; two pools of more than 4 GiB",
              "thorough": "pools up to 7 objects"},
      assumptions=["a caller frees only pointers it was handed and has not freed, or pointers outside the pool"])
check("C12", sources=["allocators/region/region.c"],
      oracle="list of handed-out blocks with fill bytes plus the model remaining count; AddressSanitizer on an exact-size buffer",
      bounds={"quick": "every region size 1..72, 96, 100, 127, 128, 200, 1000, heap and caller's (dirty) buffer; 26 request sizes (absolute, relative to what remains, to the region size, up to SIZE_MAX): all histories of length <= 3 unmerged, and all reachable states to exhaustion; seven regions of 2^31..2^33+5 bytes: all pairs of six requests and every request beyond what remains",
              "thorough": "unmerged histories to length 4"},
      assumptions=["a caller's buffer is word-aligned"])
check("C13", sources=["allocators/bistack/bistack.c"],
      oracle="front and back block lists with fill bytes plus model margins; AddressSanitizer on an exact-size buffer",
      bounds={"quick": "every buffer length 1..48, 64, 71, 100, 128, heap and caller's buffer; 18 request sizes per side (absolute, relative to the gap, up to SIZE_MAX), resets, resizes (0, same, larger, odd, half): all histories <= 2 unmerged, all reachable states to depth 7; seven stacks of 2^31..2^33+5 bytes: all histories of three requests from 23",
              "thorough": "unmerged <= 3; all reachable states to exhaustion (sizes bounded by 160)"},
      assumptions=["a caller's buffer is word-aligned and, when resized, from the heap"])
check("C10", sources=["allocators/mempool/mempool.c", "allocators/region/region.c"],
      oracle="list of live blocks with fill bytes: containment, disjointness of whole extents, alignment, zero fill, retention, reported remaining = capacity - live extents, same-size reuse after every free; AddressSanitizer on an exact-size pool; hang detection",
      bounds={"quick": "eleven pools of 33..900 bytes, request sizes hitting every bucket and the large list: all reachable states (fixpoint) for the three homogeneous/two-bucket pools, all histories of length <= 6..11 in the others (alloc, free and realloc of any live block, cleanup, 14 kinds of null/foreign/oversized requests); at the end of every history everything is freed; pools of 2^31..2^33+5 bytes under requests of 1..70,000 bytes",
              "thorough": "length <= 8..40, fixpoint where reached"},
      assumptions=["a caller frees only live blocks of the pool or pointers outside it", "a caller's buffer is word-aligned", "the pool treats blocks by address, never by the order in which the caller holds them (canonical states sort them)"])
check("C07", sources=["str/str.c"],
      oracle="reference text (harness/c07.c: struct txt): text, exact length, terminator and return value compared after every edit, and four other strings compared to be unchanged; argument strings are exact-size heap copies; AddressSanitizer; live-allocation count",
      bounds={"quick": "all texts of length <= 3..6 over four alphabets (letters/case/space, two letters, with capacity slack, high bytes/tab) reachable by edits (fixpoint, unbounded histories) and from each one every edit with ~400 argument combinations (words up to 4 characters, indices 0,1,2,3,len-1,len,len+1,2^16,2^32+1,SIZE_MAX, amounts 0..3 and up to SIZE_MAX, NULL and empty words, self-append, files)",
              "thorough": "texts one or two characters longer"},
      assumptions=["NUL characters are not inserted into a string"])
check("C08", sources=["str/str.c"], wrap=["strcmp", "strncmp", "memcmp"], technique="exhaustive enumeration of all bounded texts and patterns on the real code against a plain scan",
      oracle="naive scans (harness/c08.c); exact-size buffers under AddressSanitizer; string compared to be unchanged after every query",
      bounds={"quick": "every text of length <= 7 and pattern of length <= 4 over {a,b,space}; <= 5 / <= 3 over {a,0x80,0xff,0x01}; <= 12 / <= 5 over {a,B}; plus the text itself, its prefix, suffix, extension and a changed last character as pattern; unassigned, exact and slack buffers; every offsets-array length up to occurrences+2",
              "thorough": "texts one or two, patterns one character longer"},
      assumptions=["a string without a buffer compares unequal to every non-empty text"])
check("C09", sources=["bytebuffer/bytebuffer.c", "array/array.c"],
      oracle="reference byte strings for two buffers (harness/c09.c), compared after every operation; files read back with plain stdio; AddressSanitizer; live-allocation count",
      bounds={"quick": "all histories of length <= 3 over 130 operations (every insert kind, object/zero sizes 0..8 and near SIZE_MAX, five kinds of files and one that cannot be read completely, append/copy of other/self/empty, deletion with 9 x 9 index/range classes, file round trip) on two buffers; length <= 6 over a 17-operation alphabet; length <= 4 over all deletions from 9 bytes",
              "thorough": "one to two steps deeper"},
      assumptions=["padding bytes of long double are unspecified"])
check("C14", sources=["lex/lex.c", "str/str.c"], technique="exhaustive enumeration on the real code: every code point, all bounded rune strings, all bounded byte strings",
      oracle="RFC 3629 encoder (harness/c14.c); exact-size buffers under AddressSanitizer; live-allocation count",
      bounds={"quick": "every Unicode scalar value (1,111,998) into and from every buffer length; every string of <= 5 runes over 10 boundary code points; every byte string of length <= 5 over 13 byte classes (ASCII, continuation, every lead class, invalid leads) and every byte string of length <= 2, with every slice of each; every string of <= 2 of 52 special code points (byte-order marks, separators, controls), also through files",
              "thorough": "rune strings <= 6, byte strings <= 6, every byte string of length 3"},
      assumptions=["for malformed byte sequences only termination, bounds and self-consistency are required, not particular runes"])
check("C15", sources=["lex/lex.c", "str/str.c"], technique="exhaustive enumeration of all bounded texts on the real code against a reference grammar",
      oracle="reference grammars for the ten lexers (harness/c15.c: g_*), texts in exact-size buffers under AddressSanitizer; live-allocation count",
      bounds={"quick": "every text of length <= 4 over 23 character classes and of length <= 5..7 over twelve smaller alphabets (with prefixes 0, 0x, 0X, 0b, 0B, 0o, 0O, 0x1p, 1, 7) through all ten lexers; digit classifiers on -300..300",
              "thorough": "one or two characters longer"},
      assumptions=["after a leading 0 and a digit 1-9 the C grammar is octal (it may become a float only by a dot)", "a C hexadecimal float needs a digit before its dot", "a digit separator may follow the 0x and 0b prefixes (as the module's own test list says)"])

check("C16", sources=["lex/lex.c", "str/str.c"], technique="exhaustive enumeration of all bounded texts on the real code against reference scanners",
      oracle="reference scanners and escape decoders (harness/c16.c), texts in exact-size blocks under AddressSanitizer; live-allocation count",
      bounds={"quick": "every text of length <= 4..9 over 18 alphabets (quotes, backslash, escape letters, hex/octal/unicode digits, comment delimiters, newline, identifiers, UTF-8 bytes) with prefixes \", \"\\x, \"\\u, \"\\U, \"\\, `, /*; character classifiers over every code point; every byte value in 12 placements within 13 openings and 17 endings",
              "thorough": "one or two characters longer"},
      assumptions=["a backslash anywhere in a single-line comment continues it past the next line break (as the module's own test does)", "a multi-line comment's opening token is as long as its closing one", "skip_string_literal stops on the closing quote, skip_multiquote_string is called after the opening one", "numeric escapes denote code points and are delivered in UTF-8; \\u and \\U follow C11 6.4.3"])
check("C21", sources=["math/math_parser.c"], technique="exhaustive enumeration of all bounded expressions on the real code against an independent evaluator of the grammar",
      oracle="recursive-descent evaluator of the documented grammar (harness/mathref.h); exact-size expressions under AddressSanitizer",
      bounds={"quick": "every sequence of <= 5 of 21 tokens and <= 6 of 15 core tokens, every string of <= 6 of 15 characters, literals and names of every length 1..260 and on to 300,000 in 8 contexts, chains of up to 40,000 operations, nine kinds of nesting up to 200 levels exactly and up to 1,000,000 for survival; each with a caller's names, the default names and none; all 14 default functions of 47 values in 10 contexts, every pair of them nested, and 38 near-variants of each default name in 6 contexts",
              "thorough": "one token/character more; lengths to 299"},
      assumptions=["values compared with relative tolerance 1e-15", "a name whose value is NaN counts as unknown", "expressions nested more than 200 deep may be refused (NaN)"])
CFG = ["cfg/cfg.c", "lex/lex.c", "str/str.c", "map/map.c", "array/array.c", "variant/variant.c", "math/math_parser.c", "msg_sys/msg_sys.c"]
check("C20", sources=CFG, technique="exhaustive enumeration of all bounded texts on the real parser against an independent parser",
      oracle="independent parser (harness/cfgref.h): same tree up to the malformed construct, reports on stderr exactly when something is malformed; exact-size texts under AddressSanitizer; live-allocation count; hang detection",
      bounds={"quick": "every sequence of <= 4 of 32 tokens and <= 6 of 12 core tokens, every string of <= 5 of 25 special characters and <= 8 of 7, every single edit (substitution, insertion, deletion, truncation) of 12 documents and its pairs with a deletion or truncation, every file of <= 5 of 11 characters, every graph of three including files of up to two items, nesting up to 1,000,000, chains of up to 300 files of up to 390 sections each",
              "thorough": "one token/character more; every pair of edits"},
      assumptions=["sections nested more than 400 deep may be refused, but must be reported"])
check("C17", sources=CFG, stall={"quick": 60, "thorough": 400}, technique="exhaustive enumeration of all bounded documents on the real parser against an independent parser",
      oracle="independent parser (harness/cfgref.h, harness/lexref.h, harness/mathref.h); the whole tree compared (keys, order, types, values, lookup by key); AddressSanitizer; live-allocation count",
      bounds={"quick": "every pair of 60 value spellings with 8 x 8 separators (and each inside a section), every sequence of <= 4 of 24 entries and section brackets, every number spelling of <= 5 characters over four alphabets (as value, in a colour, in a vector), every string content and key of <= 5..6 characters over three alphabets in both quotes, every inline expression of <= 4 of 17 tokens, every mixture of <= 5 of 11 math/enum fragments, every file of <= 4 of 11 items with includes three files deep, nesting to 60 levels",
              "thorough": "one step longer"},
      assumptions=["floats in colours, colour components outside 0..255 and integers outside the 64-bit range have no documented value"])
check("C18", sources=CFG, technique="exhaustive enumeration of all bounded configurations, written by the real code and parsed back",
      oracle="dump of the tree before writing, after writing, and after parsing the written text or file back (floats as printed); AddressSanitizer; live-allocation count",
      bounds={"quick": "every string of <= 4 and key of <= 3 of 16 characters (quotes, backslash, control and high bytes, octal digit), every sequence of <= 4 of 18 entries and section brackets, integers within 2 of every power of 2 and 10, 24,000 floating-point values over 40 decades (and vectors of them), colours over 6 values per channel; text, new file, overwritten and appended file",
              "thorough": "one character/entry more, 240,000 floating-point values"},
      assumptions=["floating-point values are finite", "no string holds '<math' and no key a directive (the language cannot express them)"])
check("C19", sources=CFG, technique="exhaustive enumeration of all bounded trees x paths and of all bounded setter histories on the real code",
      oracle="reference path walk on the reference tree (harness/c19.c: find), returned pointers compared with the entry in the same place; whole tree compared after every setter; AddressSanitizer; live-allocation count",
      bounds={"quick": "every section tree of <= 3 of 12 items with every path of <= 4 of the characters a b c . \\ (781), every tree of <= 5 items with 31 paths (escaped dots, repeated names, empty parts, paths through values); every history of two of 336 setters (14 values x 12 paths x convert) on four trees and of three of 56 on one, including values that alias the tree",
              "thorough": "trees of one more item, paths of one more character, histories of three on three trees"},
      assumptions=["strings handed to setters hold no NUL"])
check("C25", stds=("gnu11", "gnu99"), sources=[], technique="exhaustive enumeration of the argument classes on the real helpers against plain loops in 128-bit arithmetic",
      oracle="repeated division and printf lengths (harness/c25.c)",
      bounds={"quick": "every value below 1,048,576 and every value within 70 of each power of 2..13; every base below 4096 and within 6 of every power of two up to 2^64-1 with all arguments around their powers and around powers of two; every power-of-two alignment with ~9,000 sizes each; every byte mask",
              "thorough": "every value below 67,108,864, 120,000 further bases"},
      assumptions=["the signed helpers reserve a place for the sign also for positive numbers", "the next power of two of 2^63 and above wraps to 0, as documented by its type"])
check("C26", stds=("gnu11", "gnu99"), sources=[], technique="explicit-state search of all reachable lists, and exhaustive enumeration of all bounded arguments, on the real helpers",
      oracle="reference order of node numbers and reference byte buffers (harness/c26.c); nodes start dirty; exact-size buffers; AddressSanitizer; live-allocation count",
      bounds={"quick": "all reachable lists (fixpoint, unbounded histories) over 5 nodes of single and double links with and without tail; every length 0..12 (and 250..260), index 0..29 and two huge, amount 0..29 and six huge, element sizes 1,2,3,8,24 for shifting one and up to five parallel buffers; every reallocation between 0..20 elements of 1..17 bytes, eight overflowing sizes, joint (re)allocation of 1..4 buffers from 0..9 to 1..10 elements with every subset absent and every allocation failing in turn; elements of up to 1 MiB and buffers of up to 16 Mi elements shifted and reallocated; 0..40 buffers allocated, reallocated, shifted and freed together, each allocation failing; all 262,144 graphs of three triple links (4,096 of double links), each link set to each node in two ways",
              "thorough": "6 nodes, lengths to 24"},
      assumptions=["whoever inserts behind the last node moves the tail", "only nodes that are in a list are removed, only nodes that are not are added"])
check("C27", sources=[], technique="exhaustive enumeration of schedules of several generators on the real code against the recurrence",
      oracle="the unwrapped recurrence with the whole sequence kept (harness/c27.c)",
      bounds={"quick": "every seed 0..3999, their complements and every power of two +-3: 1,300 outputs (two refills), a fresh and a re-seeded dirty generator; 8 seeds for 1,000,000 outputs; all schedules of length <= 5 over two generators (integer, float, re-seed, copy) started 0,1,226,227,396,621,622,623,1246 outputs in; twelve out-of-range indices (never seeded) over six contents",
              "thorough": "20,000 seeds for 6,000 outputs, 30,000,000 outputs, schedules of length 6"},
      assumptions=["64-bit size_t state"])
check("C22", sources=["msg_span/msg_span.c", "array/array.c", "str/str.c", "lex/lex.c", "msg_sys/msg_sys.c"], stall=150, technique="exhaustive enumeration of all bounded sources, spans, headers and histories on the real code against a reference printer",
      oracle="reference printer (harness/c22.c: ref_emit), output compared byte for byte; exact-size arguments wiped after each call; AddressSanitizer; live-allocation count",
      bounds={"quick": "every source of <= 8 of {letter, space, newline}, <= 7 of {letter, tab, CR, LF}, <= 5 with other bytes, kept or not, each line and the whole labelled; 8 sources x every pair of 18 line numbers (0, past the end, 2^32-1) x 8 x 8 columns x 5 styles; every triple of 12 spans with 0..3 notes; 1,024 header variants; all 1,679,616 merges of spans over 6 values; lines, line counts, label counts and texts of every size 0..299; files of <= 6 characters; every history of 6 of 7 operations",
              "thorough": "one character/label more, all 60 styles, sizes to 1199, histories of 8"},
      assumptions=["the source holds no NUL", "columns stay below some thousands (a highlight of 2^32 columns is built as asked)", "columns count characters of the shown line, in which a tab is four spaces", "an empty source is refused"])
check("C23", sources=["plugins/plugins.c"], wrap=["dlopen", "dlclose", "dlsym", "stat", "opendir", "closedir"], technique="explicit-state search of all reachable plugin states on the real code under a fake loader, and exhaustive enumeration of directory contents",
      oracle="reference life cycle (open library, path, error, write time, events with arguments and order) and an independent directory walk (harness/c23.c); every library and directory handle accounted for; AddressSanitizer; live-allocation count; hang detection",
      bounds={"quick": "all reachable states (fixpoint, unbounded histories) of one and of two plugins over load, reload, clear, changed, get_obj, file writes with each loading step failing in turn, and all histories of 4 operations unmerged; every subset of 13 groups of directory entries (plugins, other files, hidden ones, dangling and cyclic links, sub-directories, long names, fifos), 1,152 with an unreadable directory, nesting to 120 levels and paths to and beyond 4096 bytes; every byte and every length in file, extension and directory names; 0 to 1,900 files, directories, links of each kind; 17 write times pairwise from -2^31 to 2^62, plugin paths of 1 to 1,300 bytes",
              "thorough": "histories of 5, each directory with five path and extension forms"},
      assumptions=["a plugin is loaded only when it is not loaded (cleared or never loaded)", "directories whose name begins with a dot are skipped, as the code says", "directories nest to at most some hundred levels", "the dynamic loader behaves as documented (it is replaced by a fake one)"])
check("C24", sources=["array/array.c", "deque/deque.c", "tree/tree.c", "tuple/tuple.c", "map/map.c", "str/str.c", "bytebuffer/bytebuffer.c", "variant/variant.c", "cfg/cfg.c", "lex/lex.c", "math/math_parser.c", "msg_sys/msg_sys.c", "msg_span/msg_span.c", "plugins/plugins.c", "allocators/mempool/mempool.c", "allocators/objpool/objpool.c", "allocators/region/region.c", "allocators/bistack/bistack.c"], wrap=["dlopen", "dlclose", "dlsym"], level="fault_enumeration", technique="exhaustive enumeration of histories x failing allocations on the real code",
      oracle="a twin object that runs the same history and meets no failure (harness/c24.c); AddressSanitizer; live-allocation count",
      rule="every operation of every bounded history with its k-th allocation failing for every k, alone, with each of the next three, and with every later one",
      bounds={"quick": "histories of 1..5 operations per module (array 15 operations x 3, deque 5 x 5, tree 8 x 4, map 12 x 4, string 22 x 3, byte buffer 17 x 3, variant 5 x 5, allocators 4 x 4, configuration setters and getters 21 x 3, diagnostics 6 x 4, lexers 21 x 2, plugins 6 x 4), 25 configuration texts and a file with includes parsed and written, 72 ways of making tuples, 11 helpers",
              "thorough": "one operation more, pairs up to 8 apart"},
      assumptions=["operations that build a text or a tree piece by piece may deliver a part of it"])
check("C28", sources=["lex/lex.c", "str/str.c"], technique="exhaustive enumeration of all bounded texts, values, bases and numeral sets on the real code against positional arithmetic in 128 bits",
      oracle="positional arithmetic in 128 bits with saturation, 113-bit evaluation of short floating-point literals and strtold for all (harness/c28.c); exact-size texts under AddressSanitizer",
      bounds={"quick": "every text of <= 4..7 characters over six alphabets; every value within 20 of each power of 2 (to 2^69), 10, 8, 16 and 3 in 17 spellings with 9 endings; every number of digits 0..89 and to 70,000 in 17 kinds with 10 endings; every base 2..255 x powers +-3 in three numeral sets; each numeral of lists of up to 700 in 11 bases, alone and with others; every text of <= 2..7 numerals over 11 numeral sets with minus signs, unknown characters and numerals beyond the base; leading zeros to 70,000",
              "thorough": "one character longer, digits to 299"},
      assumptions=["digit separators and suffixes end the digits, as the end position says", "a sign in front of a 0b or 0o prefix is not part of the language", "values outside of the 64-bit range saturate, and have no defined value in a custom base", "a minus sign is no numeral"])
check("C29", sources=["msg_sys/msg_sys.c"], technique="exhaustive enumeration of all combinations of message parts, arguments, lengths, histories and failing streams on the real code",
      oracle="reference text (harness/c29.c: ref), output compared byte for byte; exact-size arguments under AddressSanitizer",
      bounds={"quick": "every combination of 7 file names, 6 types, 4 colours, 5 texts, 12 lines and 12 columns (each also absent), 5 counters; every sequence of three of nine conversions with four argument classes; every length 0..299 and to 131,073 of each part; every history of <= 4 of 12 messages to two streams and two counters; a stream failing after each number of bytes",
              "thorough": "all counters, lengths to 1,099, histories of 5"},
      assumptions=["a stream takes what it is given (a message has no result that could tell)"])
check("C30", stds=("gnu11", "gnu99"), sources=[], technique="exhaustive enumeration of all bounded arguments on the real helpers against plain loops",
      oracle="plain loops, the SDBM recurrence, printf and stdio (harness/c30.c); exact-size buffers with guard bytes under AddressSanitizer; live-allocation count",
      bounds={"quick": "copies, prefixes and resized texts between every two of the sizes 0..109 and 30 more to 131,073; copies up to a byte at every place of 0..59 and to 131,073 bytes; every list of <= 5 of 6 texts in a switch; every triple of ~80 values around powers of 2 as bounds; formatted texts of 8 kinds and those lengths; every list of <= 6 buffers with absent ones and an early end; hashes of every such length with 6 seeds and of numbers with every single bit; files of those sizes with the stream at 5 places; switches over up to 600 texts of those lengths; blocks of 12 element sizes to 300 bytes grown and shrunk between every two of 0..39 and those lengths; every set of <= 4 blocks, some absent, between every two of 1..12 elements with every allocation failing; every array of <= 20 elements of those sizes (1 to 3 in parallel) with every place and amount, amounts near 2^64 included",
              "thorough": "every size to 299"},
      assumptions=["the lower bound is not above the upper bound", "an empty file has no buffer", "the length given to dup_cstr is at most that of the text", "characters of hashed texts are 7-bit"])
check("C31", sources=["array/array.c", "map/map.c", "variant/variant.c", "str/str.c", "bytebuffer/bytebuffer.c", "lex/lex.c", "msg_sys/msg_sys.c", "msg_span/msg_span.c", "cfg/cfg.c", "math/math_parser.c"], wrap=["fopen"], level="fault_enumeration", technique="exhaustive enumeration of operations x faults of the file (every open, seek, read, write and close) on the real code over files in memory",
      rule="every operation on files of the sizes given, with one fault of each kind at every place; non-trivial: the fault was met",
      oracle="the bytes the file holds: success is reported exactly when all of them went through (harness/c31.c); live-allocation and open-file counts; AddressSanitizer",
      bounds={"quick": "9 reading operations x 3 bufferings x 17 sizes to 65,537 x 4 sizes of single reads x the open, every seek, the close, and reads failing (once or for good) or ending at every byte (sizes to 100; around every 4,096 bytes beyond); configuration files of 4 sizes to 9,000 bytes, plain and included, failing at every byte (29th byte) ; configurations of 4 sizes to 13,000 written with every byte (7th byte) failing, overwriting and appending; byte buffers likewise; every history of <= 3 of 4 operations x 7 faults",
              "thorough": "every 3rd byte of the long configurations read, every byte written, histories of 4"},
      assumptions=["a file that ends before its size says may give its beginning", "an empty file is refused or has no content", "for buffered streams of the caller, closing the stream is the caller's and reports what was still buffered"])
# Beside the search of a small space to its end, each check runs ladders: one program after another over a list of sizes that
# surrounds every boundary at which counters, capacities and buffers change (every size to 40..300, then 2^k-1, 2^k, 2^k+1 and the like).
LADDERS = {
 "C01": "arrays of every length 1..140 and around powers of 2 and 1000 to 131,075, elements of 1 byte to several thousand, all distinct, with 11 operations at up to 20 indices x 15 amounts",
 "C02": "maps of every size 1..80 and to 5,000 in 7 key shapes (equal lengths, growing lengths, common prefixes, different keys of equal 64-bit hash), 6 value sizes (values alike up to a NUL included), 3 seeds, 10 operations including complete draining, windows of insertion and removal, rehash around the size",
 "C03": "deques of every length 1..70 and to 70,000, 7 starting sizes, push and pop programs of both ends, emptied deques filled to the brim again, reset and reuse",
 "C04": "nodes with every number of children 1..80 and to 70,000, chains of every depth 1..60 and beyond, data of every size 1..150 and to 70,000 replaced by every other",
 "C05": "1..100 fields and to 65,536 in 18 size patterns; 1..6 fields with one field of every size 1..600 and around 2^9..2^16 at every place",
 "C06": "every size 1..140 and to 70,000 set to every other; every bit of the tag",
 "C07": "texts of every length 0..79 and to 70,000 of five kinds, every edit with words and amounts of the same ladder; every length of format, repetition, copy and append to 9,000; replacements of 1..70,000 of up to 70,000 occurrences, and of one near the end of up to 70,000 characters; ranges one shorter than, as long as and one longer than their replacement of 0..299 characters",
 "C08": "texts of 1..48 and to 70,000 characters, the deciding place at each of 30+ positions; palindromes, comparisons, characters, near matches and periodic patterns of up to 1,000; equal characters and palindromes to 262,145",
 "C09": "buffers of 0..131,073 bytes x every insertion, object, zeros, text, append, copy of 0..131,073 bytes, zeros over old bytes after emptying; deletion at every place (up to 20 bytes) or 13 x 19 places and amounts; files of those sizes",
 "C10": "1..1,000 blocks of 1..100,000 bytes in 4 mixes, 6 orders of freeing, reallocation to 9 sizes, long churn",
 "C11": "pools of 1..70,000 objects of 1..4,096 bytes, 5 orders, heap and caller's buffer",
 "C12": "regions of 120..1,048,576 bytes, blocks of 1..100,000, the last request around the remaining space",
 "C13": "stacks of 56..500,000 bytes, blocks of 1..65,537, 12 programs with resets and resizes",
 "C14": "rune strings of 6..70,000 in 14 patterns, also through files",
 "C15": "21 prefixes x 11 repeated units x 21 endings with up to 65,537 repetitions; literals of every length to 80 (and to 270) with one of 8 odd characters at each place",
 "C16": "13 prefixes x 28 repeated units x 17 endings with up to 65,537 repetitions; 46 constructs of up to 70,001 characters; every code point (and beyond) through 6 spellings of its escape",
 "C17": "26 kinds of long documents (key, string, entries, comments, numbers, iota, enum, math, depth ...) of size 0..10,000, as text, file and include; file names of 1..255 characters, up to 120 includes, chains of 60; 12 kinds of documents of up to 140,000 entries whose counters pass 2^15 and 2^16",
 "C18": "the same long documents written and parsed back; 6 kinds of sections whose text passes 65,536 and 131,072 characters",
 "C19": "trees up to 100 deep, keys and texts of up to 65,000 characters, up to 520 entries, long paths, getters at each prefix and setters",
 "C20": "the same long documents with 22 malformed endings and cut at 16 places",
}
for _p, _t in LADDERS.items(): CHECKS[_p]["bounds"]["quick"] += "; ladder: " + _t
