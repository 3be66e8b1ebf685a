#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

PRINTS = "The module's test only prints what it gets and follows one fixed path; "

p("C01", "Dynamic array behaves as a bounded indexed sequence under any operation history",
  "After any sequence of array operations (insert, append, fill, pop, peek, get/set, reverse, delete by index/range/value, shift, add, copy, grow, resize, shrink, wipe, clear) the array's contents, length, return values and returned element pointers are those of an ordinary sequence whose length never exceeds its capacity. "
  "An operation that cannot be carried out (out-of-range index, full, empty, absent value) reports failure and leaves the contents unchanged; growing or shrinking capacity never changes the elements that fit. "
  "No operation touches memory outside the array's buffer or leaks it.",
  ["histories", "inputs"], "every finite sequence of public array operations, every element size and every index/range/amount argument, including ones past the end, on one or two arrays",
  PRINTS + "boundary indices, empty arrays, resize below the length and two-array operations are reached by no test.",
  ["array/array.c", "array/array.h", "harbol_common_includes.h"],
  [("bounds guards and length bookkeeping in every operation", "array/array.c"), ("element shifting", "harbol_common_includes.h: array_shift_up")],
  [("len/cap/table", "number of elements, capacity, storage", "array/array.h: struct HarbolArray")], ["public array API return values and contents"])

p("C02", "Hash map is an insertion-ordered dictionary for every hash seed and history",
  "For every hash seed and every sequence of insert, set, get, remove, rehash and clear operations (a cleared map is empty and usable again), a key is found if and only if it was stored and not since removed, and it yields exactly the bytes of the value last stored under it. "
  "Entries keep insertion order under index access (removal closes the gap), duplicate insertion is refused without changing the stored value, looking up by value returns the first entry holding it with its key and key length, and removal of one key never affects another. "
  "No operation hangs, touches memory out of bounds or leaks.",
  ["histories", "inputs", "configurations"], "every operation sequence over keys that collide in every possible way, every seed (the seed is taken from the clock at run time), every starting capacity",
  PRINTS + "the seed depends on the time of day, so which keys collide differs from run to run, and the test never removes a key among colliding ones.",
  ["map/map.c", "map/map.h", "harbol_common_includes.h"],
  [("open-addressed bucket table with linear probing", "map/map.c: harbol_map_get_entry_index, _harbol_map_insert_entry"), ("rehash on growth", "map/map.c: harbol_map_rehash"), ("removal closes the gap in the entry arrays", "map/map.c: harbol_map_idx_rm")],
  [("buckets", "bucket to entry index", "map/map.h: struct HarbolMap"), ("keys/datum/hashes", "entries in insertion order", "map/map.h: struct HarbolMap")], ["public map API"])

p("C03", "Deque behaves as a double-ended queue with stable node handles",
  "After any sequence of prepend, append, pop-front, pop-back, reset and clear operations (after a reset or a clear the deque is empty and usable again), popping and peeking at either end yields exactly the values a mathematical deque would hold, the count is their number, and popping an empty deque reports failure. "
  "Walking from head via next and from tail via previous visits exactly the stored elements in order and in exact reverse and then ends, and a handle returned by an insertion keeps denoting its element until that element is popped. "
  "Growth preserves all elements; nothing is leaked, double freed or accessed out of bounds.",
  ["histories"], "every sequence of operations from every starting capacity (including ones that repeatedly fill, grow, drain and refill)",
  PRINTS + "it never pops from both ends of a short deque nor reuses slots after draining.",
  ["deque/deque.c", "deque/deque.h"],
  [("free-list of slots threaded through the link arrays", "deque/deque.c: _harbol_deque_alloc_node/_harbol_deque_free_node"), ("link maintenance", "deque/deque.c: prepend/append/pop_front/pop_back"), ("growth", "deque/deque.c: _harbol_deque_resize")],
  [("nexts/prevs/head/tail/freed", "doubly linked lists over slots", "deque/deque.h: struct HarbolDeque")])

p("C04", "Tree nodes own their data and children in order under any edit history",
  "After any sequence of set-value, insert-value, insert-node, and remove by node, index or value, a tree node reports exactly its current data and length and exactly its children in insertion order. "
  "Lookup and removal by value act on the first child whose bytes and length equal the given value and on no other; failing operations (empty value, out-of-range index, non-child node, absent value) change nothing. A value may be handed over from the tree itself (a node's own data or a part of it). "
  "Removing or freeing a node releases its whole subtree exactly once, and no access leaves a node's own data.",
  ["histories", "inputs"], "every sequence of tree edits with values of differing lengths (shorter, longer, prefixes of each other) at every position",
  PRINTS + "all values in it have one size, so size changes and prefix values are never exercised.",
  ["tree/tree.c", "tree/tree.h", "array/array.c"],
  [("node data replaced on set", "tree/tree.c: harbol_tree_set"), ("child search by bytes and length", "tree/tree.c: harbol_tree_get_node_by_val, harbol_tree_rm_val"), ("recursive release", "tree/tree.c: harbol_tree_clear")])

p("C05", "Tuple fields never overlap, keep their values and lay out like a C struct",
  "For every list of positive field sizes, a tuple exposes one field per size with exactly that size, and all fields lie in order, without overlap, inside the tuple's storage; writing one field changes only that field, and exporting to a struct copies the whole storage. "
  "A packed tuple has no padding and reports itself as packed; an unpacked tuple with scalar-sized fields (1, 2, 4, 8 bytes) has exactly the field offsets and total size of the corresponding C struct and every field suitably aligned. "
  "Out-of-range field indices are refused, and a tuple whose size does not fit the 16-bit field table (64 KiB) is refused at construction.",
  ["inputs"], "every list of positive field sizes, packed and unpacked, and every field index",
  PRINTS + "it builds two fixed layouts.",
  ["tuple/tuple.c", "tuple/tuple.h"],
  [("offset and padding computation", "tuple/tuple.c: harbol_tuple_init"), ("size/offset packing", "tuple/tuple.c: harbol_tuple_get/set/field_size")])

p("C06", "Variant always holds a private copy of the last value and its tag",
  "After any sequence of initialise, set and clear operations a variant reports exactly the bytes, size and type tag it was last given, independent of later changes to the caller's buffer; a value may be set from (a part of) its own or another variant's data; setting a value keeps the tag, clearing leaves it empty with size and tag zero. "
  "No operation leaks memory or reads outside the given value.",
  ["histories", "inputs"], "every sequence of operations with values of every size, including replacing by shorter and longer values",
  PRINTS + "it never replaces a value by a differently sized one and then inspects it.",
  ["variant/variant.c", "variant/variant.h"],
  [("value duplicated on init and set", "variant/variant.c: harbol_variant_init/harbol_variant_set")])

p("C07", "String editing always yields the specified text, exact length and terminator",
  "After any sequence of string edits (copy, append, prepend, clear, character and substring insertion/removal/replacement, range replacement, case change, reverse, trim, formatted assignment and appending) the string's text equals the specified result, its length is the number of characters of that text, and its buffer is terminated right after it. "
  "Edits with out-of-range or absent arguments are refused or do nothing and leave the text intact. "
  "No edit reads or writes outside the string's buffer or leaks it, including on empty and never-assigned strings.",
  ["histories", "inputs"], "every sequence of edits over every text (empty, single character, repeated characters, whitespace-only, overlapping matches) and every index/amount argument",
  PRINTS + "empty strings, bounded replacement counts, ranges ending at the end and edits after shrinking are not exercised or not checked.",
  ["str/str.c", "str/str.h"],
  [("length bookkeeping and reallocation of the buffer", "str/str.c: harbol_string_add_*/copy_*/format/add_format"), ("substring replacement", "str/str.c: harbol_string_replace_cstr/replace_range"), ("trimming and removal", "str/str.c: harbol_string_rm_char/trim_spaces")],
  [("cstr/len", "text and its length", "str/str.h: struct HarbolString")])

p("C08", "String queries agree with a plain scan of the text",
  "For every text and every pattern, character search, character counting, substring counting (occurrences that do not overlap), the list of substring positions (each occurrence starting after the previous one, and SIZE_MAX in the entries for which there is none), the empty and palindrome tests and the comparison operations return exactly what a plain left-to-right scan of the text returns. "
  "Comparison results are zero exactly when both texts are present and equal and otherwise, for texts that are present, carry the same sign as a byte-wise comparison of string against argument. "
  "Queries never modify the string, always terminate and never read outside it.",
  ["inputs"], "every text and pattern over a small alphabet up to a length bound, including empty patterns, patterns longer than the text and overlapping occurrences",
  PRINTS + "results are not compared with anything.",
  ["str/str.c", "str/str.h"],
  [("scan loops", "str/str.c: harbol_string_count_*/find_*/cstr_offsets/cmp*")])

p("C09", "Byte buffer is an exact append-only byte log with delete and file round trip",
  "After any sequence of inserts (integers, floats, C strings with terminator, objects, zeros, file contents), appends, copies and range deletions, the buffer's bytes are exactly the concatenation of what was inserted minus what was deleted, in native byte order, and its length never exceeds its capacity. "
  "Writing a buffer to a file and inserting that file into another buffer reproduces the bytes exactly; a failed or empty source is reported and leaves the buffer unchanged. "
  "No operation accesses memory outside the buffer, leaks or double frees.",
  ["histories", "inputs"], "every sequence of operations over every length relation between length and capacity, with deletion ranges inside, at and past the end",
  PRINTS + "growth boundaries, deletion to empty followed by copying, and partial deletions are not checked.",
  ["bytebuffer/bytebuffer.c", "bytebuffer/bytebuffer.h", "harbol_common_includes.h"],
  [("growth before insertion", "bytebuffer/bytebuffer.c: HARBOL_BYTEBUFFER_INSERTION, _harbol_buffer_resize"), ("deletion by shifting", "harbol_common_includes.h: array_shift_up")])

p("C10", "Memory pool never hands out overlapping, misplaced or dirty memory",
  "For every sequence of pool allocations, reallocations and frees, every block handed out and not yet freed lies wholly inside the pool, overlaps no other live block, is pointer-aligned, is zero-filled when newly allocated and keeps the bytes its owner wrote until it is freed. "
  "Reallocation preserves the common prefix of the contents and, when it fails, leaves the original block intact; a null, foreign or oversized request is refused without changing the pool, while a request that fits the part of the pool never handed out is granted and a reallocation is granted whenever a new block of that size is. "
  "A block that was freed can be handed out again, and the pool's own bookkeeping never corrupts user data nor runs into a cycle; the free-list functions it exports keep exactly the blocks put in and not taken out, in address order.",
  ["histories"], "every sequence of alloc/realloc/free over block sizes that hit every free-list class (exact, splittable, coalescible) in every free order, on heap and caller-provided buffers",
  "The module's own test program does not even compile on this tree, and the modules using the pool do so with one allocation pattern.",
  ["allocators/mempool/mempool.c", "allocators/mempool/mempool.h", "allocators/region/region.c"],
  [("address-ordered free lists with coalescing and size buckets", "allocators/mempool/mempool.c: harbol_freelist_insert/_transfer_node"), ("splitting of larger blocks", "allocators/mempool/mempool.c: harbol_memnode_split, harbol_freelist_find"), ("validity checks on free", "allocators/mempool/mempool.c: harbol_mempool_free")],
  [("buckets/large/stack", "free lists and untouched stack part", "allocators/mempool/mempool.h: struct HarbolMemPool")])

p("C11", "Object pool hands out exactly its N distinct blocks and recycles them",
  "For every sequence of allocations and frees, an object pool of N objects satisfies an allocation exactly when fewer than N blocks are live, and every live block is inside the pool, disjoint from all others, word-aligned, at least the requested object size and zero-filled when handed out. "
  "Data in live blocks is never altered by other allocations or frees, freed blocks become available again, and freeing a null or foreign pointer (including one just past the pool) changes nothing.",
  ["histories", "configurations"], "every sequence of alloc/free in every order for every pool size and object size, heap-backed and over a caller's buffer",
  PRINTS + "one allocate-all/free-some order is followed and nothing is compared.",
  ["allocators/objpool/objpool.c", "allocators/objpool/objpool.h"],
  [("index free list stored in the free blocks", "allocators/objpool/objpool.c: harbol_objpool_alloc/free")],
  [("next/free_blocks", "head of free list, number of free blocks", "allocators/objpool/objpool.h")])

p("C12", "Region allocator returns disjoint, zeroed, in-bounds blocks and honest remaining",
  "For every sequence of allocation requests, each block a region hands out is zero-filled, lies wholly inside the region's buffer and overlaps no earlier block; a request is granted exactly when its size, rounded up to the word size, fits into what remains, and a refused request changes nothing. "
  "The reported remaining bytes decrease by exactly the rounded size of each granted request, and no request size, however large, yields memory out of bounds.",
  ["histories", "configurations", "inputs"], "every sequence of request sizes (zero, word multiples, off by one, exact fit, huge) for every region size, heap-backed and over a caller's buffer",
  PRINTS + "exact-fit and overflow requests are not made.",
  ["allocators/region/region.c", "allocators/region/region.h"],
  [("downward bump pointer with wrap-around check", "allocators/region/region.c: harbol_region_alloc")])

p("C13", "Double-ended stack allocator: front and back blocks never collide",
  "For every sequence of front and back allocations, resets and resizes, every block handed out since the last reset of its side lies wholly inside the buffer and overlaps no other such block of either side, and a request too large for the current gap is refused without change. "
  "The reported margin is exactly the gap between both sides: it shrinks by the rounded size of each granted request and is restored by resets and by resizing, whose result holds no allocations.",
  ["histories", "inputs", "configurations"], "every sequence of front/back allocations and resets with sizes from zero to far beyond the buffer, for every buffer length",
  PRINTS + "oversized requests from the back are not made.",
  ["allocators/bistack/bistack.c", "allocators/bistack/bistack.h"],
  [("two moving margins", "allocators/bistack/bistack.c: harbol_bistack_alloc_front/alloc_back")])

p("C14", "UTF-8 and rune conversion is exact for every code point and safe on any bytes",
  "For every Unicode scalar value, encoding to UTF-8 and decoding again yields the same value, with the standard byte sequence and length, and whole strings convert to runes and back unchanged with the right rune counts and terminators. "
  "For every byte sequence, valid or not, rune counting, measuring and decoding terminate and never read or write past the string's terminator or the given buffer.",
  ["inputs"], "all 1,112,064 Unicode scalar values, and every byte string over a representative byte alphabet up to a length bound, including truncated and invalid sequences",
  PRINTS + "it decodes a handful of well-formed characters.",
  ["lex/lex.c", "lex/lex.h"],
  [("lead-byte classification", "lex/lex.c: get_utf8_len"), ("encode/decode", "lex/lex.c: utf8_to_rune, rune_to_utf8, rune_to_utf8_cstr, utf8_to_rune_iter")])

p("C15", "Numeric-literal lexing accepts exactly the literals and stops exactly after them",
  "For every input text, the C-, Go-, hex-, octal-, binary- and decimal-number lexers report success exactly when the text starts with a literal of their grammar, deliver the literal's characters, report correctly whether it is floating point, and set the end position right after the last character that belongs to it. "
  "The bare number skippers and digit classifiers agree with the same grammar. "
  "On every other input they report failure with an end position inside the text, and never read past the terminator.",
  ["inputs"], "every string over the alphabet of digits, prefixes, exponent and suffix letters, sign, dot, quote/underscore and a terminator up to a length bound",
  PRINTS + "a fixed list of mostly valid literals is lexed.",
  ["lex/lex.c", "lex/lex.h"],
  [("per-grammar state machines", "lex/lex.c: lex_c_style_number, lex_go_style_number, lex_*_style_hex/octal/binary/decimal")])

p("C16", "String, escape and comment lexing decodes exactly and never leaves the text",
  "For every input text, the string-literal, multi-quote, escape-sequence, identifier, whitespace and comment functions consume exactly the construct at the given position, deliver exactly the decoded or copied content, and leave the end position right after it (on the closing quote for the one that skips a quoted string). "
  "Unterminated or malformed constructs are reported as failures (or consumed to the end for comments), and no function ever reads past the text's terminator, whatever the text.",
  ["inputs"], "every text over quotes, backslash, escape letters, digits, newline, comment delimiters and ordinary characters up to a length bound",
  PRINTS + "only well-formed, properly terminated constructs are fed.",
  ["lex/lex.c", "lex/lex.h"],
  [("scanning loops with terminator checks", "lex/lex.c: lex_c_style_str, lex_go_style_str, lex_multiquote_string, skip_*, lex_identifier"), ("escape decoding", "lex/lex.c: lex_hex_escape_char, lex_octal_escape_char, lex_unicode_char, lex_c_style_escaped_char")])

p("C17", "Config parsing yields exactly the written structure with exact typed values",
  "Parsing a well-formed configuration (from a string or a file) yields a section tree with exactly the written keys, in order, each with the written type and value and found by its key: nested sections, strings in either quote with all escapes, booleans, null, colours c[...] and vectors v[...] of up to four components (missing ones zero, further ones ignored), floats, and integers in decimal, hexadecimal, octal and binary with either sign, suffixes and digit separators. "
  "White space, comments, colons and commas have no effect; <FILE> is the name of the file (or 'C-string-cfg'). iota counts 0, 1, 2, ... within each section, IOTA within each file; <enum> and <ENUM> in keys are replaced by counters of the same two scopes, which advance once per key that uses them; the first <math ...> in a key or string is replaced by its value. "
  "A key is never replaced by a later one of the same name (the duplicate is an error), and an included file contributes one section, named by its path, with exactly its entries. Nothing is reported on stderr for a well-formed configuration.",
  ["inputs"], "every configuration built from the grammar up to a size bound, over values of every type, base and spelling",
  PRINTS + "one fixed set of files is parsed and the result is printed.",
  ["cfg/cfg.c", "cfg/cfg.h", "lex/lex.c", "map/map.c"],
  [("recursive-descent key/value parser", "cfg/cfg.c: harbol_cfg_parse_key_val, harbol_cfg_parse_section"), ("number lexing and conversion", "cfg/cfg.c: harbol_cfg_parse_number; lex/lex.c")])

p("C18", "A config written out and parsed again is the same config",
  "For every configuration held in memory (finite floats; no string containing '<math' and no key that is a directive), writing it to text or to a file and parsing the result succeeds without any report and yields the same keys in the same order, the same types and the same values: strings and keys byte-identical whatever characters they hold, integers, booleans and colours exact, floats and vectors equal to the printed precision. "
  "Writing to a file replaces the old contents or, when asked not to overwrite, appends to them, and writing never modifies the configuration.",
  ["inputs", "histories"], "every configuration built from all value types, with keys and strings over quotes, backslashes, newlines, brackets and empty strings, nested to a bound",
  PRINTS + "the written file is not compared with the original, and no test value needs escaping.",
  ["cfg/cfg.c", "cfg/cfg.h"],
  [("serialisation", "cfg/cfg.c: harbol_cfg_to_str, harbol_cfg_build_file"), ("parser", "cfg/cfg.c: harbol_cfg_parse_cstr")])

p("C19", "Config path access reads and writes exactly the addressed value",
  "For every section tree and every dotted path (a dot inside a key is written \\.), the typed getters and the type query address exactly the entry the path names: a getter returns that entry's own value when the type agrees and NULL otherwise, never anything of another entry; a path through something that is not a section, with a missing or an empty component, names nothing. An empty string has length 0 (its text may be NULL). Null entries have the type null. "
  "A setter changes exactly the addressed entry, to exactly the given value (also when that value is taken from the configuration itself; a text ends at its first NUL), and leaves every other entry unchanged; it refuses, changing nothing, if there is no such entry or the type differs and conversion is not allowed. Setters never create entries. The value of a string as a math expression, with the caller's variable function and data or with the default ones, is that of the math parser, and NaN if there is no such string.",
  ["inputs", "histories"], "every small section tree (including equal key names at several levels, keys with dots, non-section intermediates) and every path and sequence of set/get operations over it",
  PRINTS + "it reads paths whose components are all distinct existing sections.",
  ["cfg/cfg.c", "cfg/cfg.h"],
  [("path walk", "cfg/cfg.c: _get_var and the key splitting helper"), ("typed accessors", "cfg/cfg.c: harbol_cfg_get_*/harbol_cfg_set_*")])

p("C20", "Config parsing survives any text: no crash, hang, over-read or leak",
  "For every text or file handed to the configuration parser, valid or not, parsing terminates, never accesses memory outside the text or its own objects, never modifies the text, and returns a section that can be read, written and freed (or NULL for a file that cannot be read or is empty); nothing remains allocated after that. Files that include themselves, directly or through others, and sections nested without bound are included. "
  "A malformed construct (unterminated string, section or bracket, missing or unknown value, bad number, duplicate or empty key, malformed inline math) ends parsing with a report on stderr instead of being accepted as something else: the entries before it are kept, unfinished sections with what they hold so far, and nothing after it is taken in. A file that cannot be included is reported and skipped. The report about the text of a file names the file and a line of the malformed entry.",
  ["inputs"], "every token sequence over the configuration's tokens and every byte string over its special characters up to a length bound, and every single-token deletion/substitution/truncation of well-formed documents",
  "No test parses malformed text.",
  ["cfg/cfg.c", "lex/lex.c"],
  [("error paths of the recursive-descent parser", "cfg/cfg.c: harbol_cfg_parse_key_val, harbol_cfg_parse_section, harbol_cfg_parse_number"), ("bounds checks of the lexing helpers", "lex/lex.c")])

p("C21", "Math expressions evaluate to the grammar's value and malformed ones are rejected",
  "For every well-formed expression of the documented grammar (numbers, names, + - * / ^, parentheses and brackets, functions through the caller's lookup or the default ones), evaluation returns the value given by its precedence and associativity: * / before + -, ^ before those, all left-associative, and unary signs binding tightest (unary plus takes the absolute value); a function applies to its bracketed or power-level argument. The default names e and pi and the default functions (sin, cos, tan and their inverses, ln, log, floor, ceil, round, fraction, radians, degrees) have their usual mathematical values, round taking halves away from zero. Names are handed to the lookup complete, with their length and the caller's data. "
  "For every malformed expression (missing operand, unbalanced bracket, unknown character, malformed number, trailing input, unknown name) the result is NaN. "
  "It never reads outside the text, writes outside its buffers, runs out of stack or hangs, whatever the input, including very long numbers and names and deep nesting.",
  ["inputs"], "every expression over a token alphabet up to a length bound and every string over the grammar's characters up to a smaller bound, plus literals and names of every length around the internal limit",
  PRINTS + "a dozen formulas are evaluated without comparing results.",
  ["math/math_parser.c", "math/math_parser.h"],
  [("recursive-descent evaluator", "math/math_parser.c"), ("lexeme capture", "math/math_parser.c: lexer")])

p("C22", "Source-span diagnostics show exactly the labelled source lines and columns",
  "For every source text and every set of labels and notes, the emitted diagnostic consists of the header, the message and its position, then for each label in the order given every line its span covers (only lines that exist), with its number and its text (tabs shown as four spaces), and under the labelled columns, and only there, the label's marker followed by its message, and then the notes, also when there are no labels; labels and notes belong to one message and are gone after it. "
  "Every line of the source (one more than there are line breaks, whether LF, CR or CR LF) can be retrieved, blank ones included, and the kept source is the whole normalised text; an unreadable or empty source is refused. Merging spans gives the smallest span that contains both. No span or source makes emission crash, read outside the source or leak, and clearing twice is harmless.",
  ["inputs"], "every source over {ordinary character, space, tab, newline} up to a length bound and every label span over its lines and columns, including zero-width, whole-line, past-the-end ones, and spans shared between labels",
  PRINTS + "one fixed source with three labels.",
  ["msg_span/msg_span.c", "msg_span/msg_span.h", "msg_sys/msg_sys.c"],
  [("splitting of the source into lines", "msg_span/msg_span.c: harbol_msg_span_make"), ("label ordering and emission", "msg_span/msg_span.c: harbol_msg_span_emit")])

p("C23", "Plugin manager loads and unloads each module exactly once and always ends",
  "For every sequence of load, reload, clear, changed and get_obj calls, with every loading step succeeding or failing, the load event runs exactly once per successful load or reload, with the library open, and the unload event exactly once before a loaded library is closed and never for a plugin that is not loaded; every library that was opened is closed exactly once, a failed call leaves no library open and says why in the plugin's error, and a successful one leaves no error. changed reports a new write time of the file once, and not after a reload. "
  "Scanning a directory ends and reports exactly once, with its path and name, every file of the wanted extension in it and its (not dot-named) sub-directories, whatever else (dangling or cyclic links, unreadable directories, other files) it contains, and leaves no directory open.",
  ["histories", "fault_sequences", "configurations"], "every sequence of operations over a few module files, and every small directory content, with each loading step succeeding or failing",
  "The test loads one working plugin from a directory that contains nothing unusual.",
  ["plugins/plugins.c", "plugins/plugins.h", "plugins/tinydir.h"],
  [("load/unload bookkeeping", "plugins/plugins.c"), ("directory scan", "plugins/plugins.c; plugins/tinydir.h")])

p("C24", "A failed memory allocation never corrupts, leaks or half-applies an operation",
  "For every operation on every container, allocator, string, configuration and diagnostic object, if memory allocations inside it fail, the operation either does its whole work and says so, or reports failure and leaves the object with exactly its previous contents; repeating it later succeeds, and later operations behave as if the failure had never happened. Operations that build a text or a tree piece by piece (lexers, the configuration parser, configuration-to-text, printing a diagnostic, walking a plugin directory) may deliver only a part, but always a valid object that can be read, used and freed. Nothing is leaked, released twice, or used after release.",
  ["fault_sequences", "histories"], "every operation of a history and every position of a failing allocation inside it (and every pair, to a bound)",
  "No test injects allocation failures.",
  ["array/array.c", "map/map.c", "deque/deque.c", "tree/tree.c", "tuple/tuple.c", "str/str.c", "bytebuffer/bytebuffer.c", "variant/variant.c", "cfg/cfg.c", "lex/lex.c", "msg_span/msg_span.c", "allocators/mempool/mempool.c", "allocators/objpool/objpool.c", "allocators/bistack/bistack.c", "harbol_common_includes.h"],
  [("NULL checks and rollback after every allocation", "all modules; harbol_common_includes.h: harbol_multi_calloc/harbol_multi_recalloc/harbol_recalloc")])

p("C25", "Integer logarithm, digit-count and alignment helpers are exact",
  "For every unsigned integer, the base-2 and base-10 logarithms, digit counts and printed-size helpers return the exact integer answers, and the table-driven logarithm for any base returns the exact floor logarithm wherever its tables are built for that base. "
  "Aligning a size gives the least multiple of the alignment not below it, the padding is the difference, the next power of two is the least power strictly above the argument, and a byte mask of n bytes has exactly the low n bytes set.",
  ["inputs"], "every 64-bit argument class: all small values and every value around each power of the base and of two, every base up to a bound, every alignment",
  "No test covers these helpers' values; containers only use a few arguments.",
  ["harbol_common_includes.h"],
  [("log tables", "harbol_common_includes.h: int_log2, int_log10, make_int_log_tables, int_log"), ("bit tricks", "harbol_common_includes.h: next_pow_of_2, harbol_align_size, harbol_pad_size, bytes_bitmask")])

p("C26", "Intrusive links and buffer-shift helpers keep lists and parallel arrays intact",
  "After any sequence of add-to-head, add-to-tail, add-after and remove on the intrusive singly and doubly linked lists, walking forward visits exactly the listed nodes in order and ends, walking backward visits the reverse, and head and tail denote the ends (or nothing when empty). Setting one link of a node, by its setter or through its reference, makes that link denote the given node and changes no other link. "
  "Shifting one or several parallel buffers by any index and amount removes exactly that range from each, zeroes the vacated tail and updates the shared length; growing buffers together keeps the old contents and zero-fills the new part.",
  ["histories", "inputs"], "every operation sequence over a few nodes, and every buffer length, index, amount and element size up to a bound",
  "No test covers the intrusive lists or the multi-buffer helpers directly.",
  ["harbol_common_includes.h"],
  [("link surgery", "harbol_common_includes.h: harbol_link_*, harbol_bilink_*, harbol_trilink_*"), ("range removal", "harbol_common_includes.h: array_shift_up, multi_array_shift_up"), ("joint reallocation", "harbol_common_includes.h: harbol_multi_calloc, harbol_multi_recalloc, harbol_recalloc")])

p("C27", "Pseudo-random generator is a pure function of its seed with outputs in range",
  "Two generators seeded alike produce the same outputs forever, regardless of other generators in use, and the outputs for a given seed are the fixed sequence defined by the generator's recurrence, across every internal refill of its state. A state marked as never seeded (its index beyond the state vector) starts over from the default seed. "
  "The floating-point outputs always lie between 0 and 1 inclusive.",
  ["inputs", "histories"], "every seed class, every interleaving of two generators and every mix of integer and floating draws, across several state refills",
  "The generator has no test that checks a value.",
  ["mtwister/mtwister.h"],
  [("state initialisation and refill", "mtwister/mtwister.h")])

p("C28", "Number texts convert to exactly the value they denote",
  "Converting the text of an integer - decimal, hexadecimal (0x), octal (0, or 0o in the Go style) or binary (0b) - to a signed or unsigned integer yields exactly the value of its digits, held at the limits of the 64-bit type, and sets the end position right behind the last digit used; a text that starts with no number yields 0. Floating-point literals yield the correctly rounded value. "
  "Converting with a caller's base and numerals succeeds exactly when every character is one of the base's first numerals (after at most one leading minus sign for the signed kinds), and then yields exactly the value, for texts and for rune strings alike. The text is never modified nor read beyond its end.",
  ["inputs"], "every text over the characters of numbers up to a bound, every value around each power of the bases, every base and numeral set",
  "The test converts one binary number.",
  ["lex/lex.c", "lex/lex.h"],
  [("text to number", "lex/lex.c: lex_c_string_to_int, lex_go_string_to_int, lex_c_string_to_uint, lex_go_string_to_uint, lex_string_to_float"), ("custom bases", "lex/lex.c: convert_runes_to_base_int, convert_runes_to_base_uint, convert_cstr_to_base_int, convert_cstr_to_base_uint")])

p("C29", "A message is written exactly as given, whatever parts it has, and counted",
  "Writing a message puts on the stream exactly: the file name with the line and column that are given (nothing of these without a file name), the colour, the type (nothing when absent), the colour reset, and the formatted text between its marks and a line break - byte for byte, for every text, length, number and argument list. "
  "The counter, when given, goes up by exactly one per message, and messages to several streams and counters do not influence one another, also when a stream takes only a part.",
  ["inputs", "histories"], "every combination of present and absent parts, every argument class and order, every length to a bound, every history of messages",
  "The test prints one message and compares nothing.",
  ["msg_sys/msg_sys.c", "msg_sys/msg_sys.h"],
  [("message", "msg_sys/msg_sys.c: harbol_write_msg, _print_file_margins")])

p("C30", "Copy, buffer, hash, bounds and file-reading helpers do what they say",
  "The helpers every part builds on give exactly the plain result: copies hold the bytes asked for and nothing is read or written beyond them (dup_data, dup_cstr, harbol_mempcpy, harbol_memccpy, harbol_resize_string); sprintf_alloc gives the whole formatted text; cstr_switch the index of the first equal text; bounds and alignment tests the mathematical answer; "
  "harbol_recalloc, harbol_multi_calloc and harbol_multi_recalloc keep the old elements and give zeros for the new ones, and without memory they leave the old blocks as they were (harbol_multi_calloc: all pointers cleared); array_shift_up and multi_array_shift_up take out the elements asked for (at least one, at most up to the end), keep the others in order and zero the places given up; "
  "harbol_multi_cleanup frees every buffer up to the end of its list, once, and clears the pointers; hashes depend on the contents and the seed alone; get_file_size and make_buffer_from_* give the size and all bytes of the file wherever the stream stood.",
  ["inputs"], "every size to a bound, every place of the byte a copy stops at, every list, every triple of bounds around powers of 2, every position of the stream",
  "Tests use the helpers on one or two small arguments, most not at all.",
  ["harbol_common_includes.h", "harbol_common_defines.h"],
  [("helpers", "harbol_common_includes.h: dup_data, dup_cstr, harbol_mempcpy, harbol_memccpy, harbol_resize_string, sprintf_alloc, cstr_switch, is_*_in_bounds, harbol_recalloc, harbol_multi_calloc, harbol_multi_recalloc, harbol_multi_cleanup, array_shift_up, multi_array_shift_up, *_hash, get_file_size, make_buffer_from_*")])

p("C31", "A file operation succeeds exactly when all bytes went through",
  "Whatever open, seek, read, write or close of a file fails, at whatever byte, for good or once, the operation that needed it reports failure; when it reports success, all bytes of the file were read, or all bytes are in the file. This holds for reading strings, byte buffers, runes, message sources, configuration files and included ones, and for writing byte buffers and configurations. "
  "How the system splits reads makes no difference, and reading needs no permission to write. After a failure what was held before is as it was (a byte buffer, the including configuration), every file the operation opened is closed, nothing leaks, the caller's stream stays open, and the same operation works once the fault is gone.",
  ["fault_sequences", "inputs", "histories"], "every fault at every byte and call of every operation, every split of reads to a bound, every short history of operations each with its own fault",
  "Tests only use files that work.",
  ["str/str.c", "bytebuffer/bytebuffer.c", "cfg/cfg.c", "msg_span/msg_span.c", "lex/lex.c", "harbol_common_includes.h"],
  [("files", "str/str.c: harbol_string_read_*; bytebuffer/bytebuffer.c: *_file*; cfg/cfg.c: _harbol_cfg_parse_file, harbol_cfg_build_file; harbol_common_includes.h: get_file_size, make_buffer_from_*; lex/lex.c: runes_from_stream")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
