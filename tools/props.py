I, HI = "inputs", "histories"

p("B01", "Base64/32/16 encoding is exactly RFC 4648",
  "For every byte string and each of the six encodings (base64, unpadded base64, URI-safe base64, base32, base32hex, base16) the encoder produces exactly the RFC 4648 text, with the reported length equal to its length and to what a size query reports. A too-small output buffer is refused with -2 and the needed size, and nothing is written; a NULL output with size 0 is allocated by the library and holds the same text.",
  [I], "every byte string (bounded length) for each encoding, every output-size argument",
  "encoding vectors in the tests are about a dozen strings; every alphabet index, group remainder and buffer size must be right",
  ["zt_base.c"], [("zt_base_encode", "zt_base.c"), ("alphabet tables", "zt_base.c")], ["zt_base_encode output, return code, *out_bytes"])
p("B02", "Base-N decoding inverts encoding and never overruns its buffer",
  "Decoding the encoding of any byte string, with the padding kept or dropped and white space anywhere in it, returns exactly that byte string. For arbitrary text the decoder accepts exactly the texts made of the alphabet, white space and padding whose symbol count can occur, returns the bytes RFC 4648 assigns to them, and never writes more than the number of bytes its size query reports.",
  [I], "every byte string and every arbitrary text (bounded length), every buffer size",
  "tests decode a few well-formed strings; malformed text and exact buffer bounds are unexplored",
  ["zt_base.c"], [("zt_base_decode", "zt_base.c"), ("decode dictionaries", "zt_base.c")], ["zt_base_decode output, return code, *out_bytes"])
p("C01", "Hex conversion round-trips and stays inside its buffers",
  "Converting any bytes to hex yields two lowercase hex digits per byte in order, and converting hex digits (either case) back yields the original bytes. Text that is not an even number of hex digits is rejected with 0 and EINVAL, and neither direction reads beyond the given input length or writes beyond the given output length.",
  [I], "every byte string, every text, every pair of lengths (bounded)",
  "tests convert one 40-digit string and two malformed ones",
  ["zt_cstr.c"], [("zt_binary_to_hex / zt_hex_to_binary", "zt_cstr.c")], ["return value, errno, output buffer"])
p("C02", "String slicing, copying and mapping follow the index rules",
  "With i and j counted from the start when >= 0 and from the end when negative (-1 is the last character) and swapped when out of order (an index past the end denotes the last character, and every slice of the empty string is empty), sub, dup, cat, catv, map, reverse, copy, pos and len act on exactly the characters from i to j inclusive. Each producer returns a fresh NUL-terminated string with exactly the specified contents (substring, n repetitions, concatenation, characters translated through the from/to sets, reversal), leaves its inputs unchanged and touches no memory outside them.",
  [I], "every string (bounded length) and every in-range index pair, including negative ones; every byte value",
  "tests use one or two strings with a handful of index pairs, ASCII only",
  ["zt_cstr.c", "zt_cstr.h"], [("IDX/CONVERT macros, zt_cstr_sub/dup/cat/map/reverse", "zt_cstr.c")], ["returned strings"])
p("C03", "String searches return the first or last matching position",
  "Within the slice i..j, find and rfind return the position of the first and last complete occurrence of a non-empty pattern, any/upto and rany/rupto the first and last position holding a character of the set, chr and rchr the first and last position of a character; when there is none the result is -1 (0 for chr and rchr). Comparing two slices yields -1, 0 or 1 by the first differing byte and then by length.",
  [I], "every subject, pattern, set and slice (bounded length)",
  "tests search one sentence for a few words",
  ["zt_cstr.c"], [("zt_cstr_find/rfind/any/rany/chr/rchr/upto/rupto/cmp", "zt_cstr.c")], ["returned positions"])
p("C04", "Trimming removes exactly the trailing or surrounding characters",
  "chomp removes exactly one trailing newline when there is one; strip removes all leading spaces and tabs and the whole trailing run of spaces, tabs and newlines, keeping a single newline if that run contained one; rspn returns the length of the longest suffix made only of the given characters, and rcspn the position of the last character that is one of them (the length of the string when there is none). None of them touches memory outside the string, also for empty strings and strings consisting only of such characters.",
  [I], "every string and character set (bounded length)",
  "the tests trim one string",
  ["zt_cstr.c"], [("zt_cstr_chomp/strip/rspn/rcspn", "zt_cstr.c")], ["string contents, returned lengths"])
p("C05", "Splitting, cutting and tokenising yield exactly the specified pieces",
  "split returns, in order, exactly the maximal runs of non-delimiter characters of the string; cut returns, in order, the suffix starting at (or after, when the delimiter is dropped) each occurrence of the delimiter that is followed by more text; tok drops one trailing delimiter and returns the remaining string and then its prefixes that end at each delimiter, from the longest to the shortest (a delimiter in first position ends no prefix). The input string is unchanged, every piece is a NUL-terminated string, and freeing the result releases everything.",
  [I], "every string and delimiter set (bounded length)",
  "tests use the single string /a/b/c/d/",
  ["zt_cstr.c", "zt_ptr_array.c"], [("zt_cstr_split/cut/tok", "zt_cstr.c")], ["contents of the returned array"])
p("C06", "Path helpers split and join paths as basename and dirname do",
  "basename returns the text after the last separator, with a matching suffix removed when it is not the whole name; dirname returns everything before the last separator (with one trailing separator ignored, '.' when there is no separator, '/' for the root), and path_append joins a non-empty part with a second one by exactly one separator. Results are truncated to the caller's buffer, always NUL-terminated, and no memory outside the buffers is touched.",
  [I], "every path, suffix and buffer size (bounded length)",
  "tests use five fixed paths and a large buffer",
  ["zt_cstr.c"], [("zt_cstr_basename/dirname/path_append/abspath", "zt_cstr.c")], ["returned strings"])
p("C07", "Integer formatting is exact for every int, offset and buffer size",
  "zt_cstr_itoa writes the decimal representation of any int at the given offset followed by a NUL and returns the index of that NUL, or returns -1 without writing outside the buffer when it does not fit. The display-length function returns the number of characters of that representation for every int.",
  [I], "all 2^32 ints, every offset and buffer size (bounded)",
  "tests use a dozen values",
  ["zt_cstr.c"], [("zt_cstr_itoa, zt_cstr_int_display_len", "zt_cstr.c")], ["buffer contents, return value"])
p("C08", "Hex dumps show every byte exactly once, in hex and as text",
  "The hex dump of any byte string calls the printer once per started group of 16 bytes, in order, with the address of the group, the two lowercase hex digits and a space for each of its bytes, and the byte itself when printable and '.' otherwise, and finally once with an end marker. It returns the number of bytes, every byte including 0xff and those of a last partial line is shown, and nothing outside the input is read.",
  [I], "every byte string (bounded length)",
  "tests dump one fixed buffer",
  ["zt_cstr.c"], [("zt_hexdump, zt_hexdump_str", "zt_cstr.c")], ["printer callback arguments, return value"])
p("A01", "Arrays keep every element across put, get, copy and resize",
  "An array returns from get exactly the bytes last put at that index; a copy to any length is independent, holds the elements that fit and zeroes beyond the source, and resize keeps every element that fits and zeroes the new ones, for any element size and length. Building from a C string or setting a data block exposes exactly those bytes (a block replaced this way stays its owner's), and no operation touches memory outside the array, leaks or frees twice.",
  [I, HI], "every element size, length, index and value within bounds",
  "the test stores ten ints",
  ["zt_array.c", "zt_array.h"], [("zt_array_put/get/resize/copy", "zt_array.c")], ["zt_array_get contents, zt_array_length"])
p("A02", "Byte streams read back what was written, in either byte order",
  "Whatever sequence of bytes, 8/16/32/64-bit integers, floats and doubles is written to a byte stream is read back unchanged after a rewind: with the endian flip set, multi-byte items are stored in reverse byte order and restored on reading. Writes grow the stream as needed (also after a truncate), and rewinding, cloning (contents, byte order and offset), appending one stream to another, truncating and attaching an array keep contents and offset exact without touching memory outside the stream.",
  [I, HI], "every value of every width, both byte orders, every offset within bounds",
  "the test writes one value of each type in native order",
  ["zt_bstream.c", "zt_array.c"], [("zt_bstream_read/write", "zt_bstream.c")], ["zt_bstream_read results, stored bytes"])
p("D01", "The growable buffer is an exact byte queue",
  "For any sequence of add, drain, remove, reserve, expand and buffer-to-buffer transfer operations, the buffer holds exactly the bytes added and not yet drained, in order, its length says how many, and its reported contents point at them. Growth preserves contents, reserve and expand provide the room asked for, and no operation touches memory outside the allocation, loses or duplicates bytes, or leaks.",
  [I, HI], "every sequence (bounded) of operations with every size and byte values",
  "tests add and drain a few fixed strings",
  ["zt_buf.c", "zt_buf.h"], [("zt_buf_add/drain/remove/expand", "zt_buf.c")], ["zt_buf_get, zt_buf_length"])
p("D02", "Pointer arrays behave as an ordered sequence",
  "For any sequence of add, delete, move, concatenate and resize operations on a pointer array of any starting size, the array holds exactly the expected pointers in the expected order (deleting removes the first occurrence, whose place the last element takes, and reports whether it was there; -1 denotes the last element). An out-of-range index is refused, and the free callback runs exactly once for each element deleted or, when requested, still present when the array is freed.",
  [I, HI], "every sequence (bounded) of operations and indexes",
  "the array is only exercised through string splitting",
  ["zt_ptr_array.c"], [("zt_ptr_array_*", "zt_ptr_array.c")], ["zt_ptr_array_get_idx"])
p("T01", "The hash table is a map under any operation sequence",
  "After any sequence of set, get and delete operations the table maps each key to the datum stored for it and not since deleted (storing under a present key is refused and leaves the old datum, unless duplicates are allowed, when the newest entry is found and deleted first), deletions affect only the key they name (also among keys sharing a bucket), and absent keys are reported absent. Iteration visits every stored pair exactly once and stops when its callback asks, and copying one table into another adds the entries whose keys the target lacks.",
  [I, HI], "every sequence (bounded) over arbitrary keys, every collision pattern",
  "the tests insert and look up a fixed word list; colliding deletes never happen",
  ["zt_table.c", "zt_table.h"], [("zt_table_set/get/del/for_each", "zt_table.c")], ["zt_table_get, zt_table_for_each"])
p("T02", "Any table size hint is safe and key comparison respects whole keys",
  "A table created with any size hint, with or without the use-hint flag, has at least one bucket and never indexes outside its bucket array. With the provided string, integer, pointer and buffer key functions two keys are the same entry exactly when they are equal under that function's notion of equality, and the case-insensitive comparison is equality up to ASCII case.",
  [I, "configurations"], "every size hint within the supported range, every pair of keys (bounded length)",
  "tests create three table sizes and use distinct ASCII words",
  ["zt_table.c", "zt_table.h", "zt_hash.c"], [("zt_table_init, comparison and hash callbacks", "zt_table.c")], ["zt_table_init, zt_table_get"])
p("S01", "Set operations implement set algebra",
  "Insertion, removal and membership behave as a mathematical set of keys, with the reported length equal to the number of members; inserting reports whether the key was there already and removing an absent key reports failure and changes nothing. Union, intersection and difference produce exactly the members required, subset and equality tests are true exactly when the relation holds, and the operand sets are unchanged.",
  [I, HI], "every pair of sets (bounded) over arbitrary members, every operation sequence",
  "tests use two fixed overlapping ranges",
  ["zt_set.c", "zt_set.h", "zt_table.c"], [("zt_set_*", "zt_set.c")], ["membership, length, iteration"])
p("H01", "Hashes depend only on the bytes and chain incrementally",
  "Every hash is a deterministic function of exactly the given bytes and initial value: 32- and 64-bit FNV-1a of any buffer or string equal the published recurrence (an initial value of 0 denotes the published offset basis), hashing in pieces with the running value equals hashing the whole, and the string and buffer forms agree. No byte outside the buffer is read.",
  [I], "every byte string (bounded), every split point, every initial value",
  "no test checks a hash value",
  ["zt_hash.c", "zt_hash.h"], [("zt_hash32/64_*", "zt_hash.c")], ["returned hash values"])
p("R01", "The red-black tree stays ordered, balanced and complete",
  "After any insertion, duplicate insertion or removal of any element, starting from any valid red-black tree, the tree is again a valid red-black tree (root black, no red node with a red child, equal black height) whose in-order sequence is exactly the sorted set of elements present. Find returns the element iff present, nfind the least element not smaller, next, min and max the in-order neighbours and ends, and inserting a duplicate returns the existing element and changes nothing.",
  [I, HI], "every sequence (bounded) of insert/remove over arbitrary keys",
  "tests insert and remove 20 fixed numbers in one order",
  ["zt_tree.c", "zt_tree.h"], [("zt_rbt_insert/remove/find", "zt_tree.c")], ["tree structure, zt_rbt_find"])
p("L01", "Embedded lists, stacks and queues keep order and links intact",
  "After any sequence of add, add-tail, remove, join, push, pop, enqueue and dequeue operations the list is a well-formed circular doubly linked list holding exactly the expected elements in the expected order (stack LIFO, queue FIFO). Taking from an empty stack or queue returns NULL and leaves it empty, and joining an empty list changes nothing.",
  [I, HI], "every sequence (bounded) of operations, including on empty and one-element lists",
  "tests add ten elements and walk them once",
  ["zt_list.h", "zt_stack.h", "zt_queue.h"], [("zt_elist_*, zt_stack_*, zt_queue_*", "zt_list.h")], ["list links"])
p("L02", "Cons lists implement list algebra",
  "nth, nthtail, reverse, in-place reverse, push, pop, split, merge and sort of cons lists return exactly the specified sequence, for lists of any length they accept, without losing, duplicating or reordering elements: merging sorted lists and sorting by an is-greater predicate yield the sorted sequence of the same items. The functional operations leave their inputs unchanged.",
  [I], "every list (bounded length) of arbitrary items",
  "the test reverses a two-element list",
  ["zt_llist.c", "zt_llist.h"], [("zt_llist_*", "zt_llist.c")], ["list contents"])
p("I01", "Checked integer arithmetic is exact or aborts",
  "In an assertion-enabled build, for each supported integer type and every pair of operands, checked add, subtract, multiply and divide return the exact mathematical result when it is representable in the type and otherwise fail by assertion; they never return a wrapped or wrong value and never reject representable results.",
  [I], "all operand pairs of all widths (multiplication of wide types bounded by solver reach, see evidence)",
  "tests try boundary pairs only and never the rejecting side",
  ["zt_int.h"], [("INT_ADD/SUB/MUL/DIV macros", "zt_int.h")], ["returned value, abort"])
p("M01", "Memory pools hand out distinct, reusable, accounted elements",
  "For any sequence of allocations and releases, every live element of a pool is a distinct, non-overlapping, properly aligned region of at least the element size that keeps its contents, freed elements are reused before a new page is taken, and the statistics account for every page. A pool with live elements refuses destruction with -1 and leaves them intact, otherwise destruction releases every page exactly once; a pool group serves a request from its first sufficient pool and refuses what fits none.",
  [HI], "every sequence (bounded) of get/release calls and pool configurations",
  "no unit test exercises the pools",
  ["zt_mem.c", "zt_mem.h"], [("zt_mem_pool_*", "zt_mem.c")], ["element addresses and contents"])
p("M02", "Hierarchical memory pools own and release their allocations",
  "Every block and string obtained from a hierarchical pool is writable for its full size, distinct from all others and keeps its contents, and destroying a pool, in whatever order, runs the destructor of each of its blocks and of all its descendants exactly once and releases them, leaving siblings and parents intact and usable.",
  [HI], "every sequence (bounded) of alloc, free and destroy over a pool tree",
  "no unit test exercises these pools",
  ["zt_ez_mempool.c", "zt_ez_mempool.h"], [("zt_ez_mempool_*", "zt_ez_mempool.c")], ["blocks, allocation accounting"])
p("G01", "The collector never frees reachable objects and finally frees the rest",
  "Whatever the object graph, registration order, protection calls and (full or partial) collections, an object reachable from a protected object is never released, nor is an object during its own registration, provided links made by the mutator during a partial collection are announced with the mark call. An object that has become unreachable is released exactly once by at most three further full collections, collections do not run while disabled, an unregistered object is not touched again, and destroying the collector releases every remaining object exactly once.",
  [HI], "every bounded graph and history of register/protect/unprotect/collect",
  "the test runs one scripted history",
  ["zt_gc.c", "zt_gc.h"], [("zt_gc_register/protect/scan/mark", "zt_gc.c")], ["release callback"])
p("N01", "IPv4 network text is parsed exactly or refused",
  "For every text of the form a.b.c.d or a.b.c.d/len the parser yields the address and the prefix length as written (a length above 32 counts as 32, none means 32), and the record built from it holds the network address with host bits cleared, the broadcast address, the mask and the length. Text whose address part is no address, or whose length part is negative or no number, is refused with -1 (no record, no pool element kept). No byte outside the given string is read and no table entry outside the 33 masks is used.",
  [I], "every prefix length, every address, every short string",
  "the IPv4 tests use a dozen well-formed networks",
  ["zt_ipv4_tbl.c"], [("zt_ipv4_str2net, zt_ipv4_addr_frm_str", "zt_ipv4_tbl.c")], ["returned address record"])
p("N02", "The IPv4 table finds a stored network containing the query",
  "After any sequence of additions, looking up an address or network returns a stored network the query falls within or equals, and returns none exactly when no stored network contains it; a stored 0.0.0.0/0 answers every query. Lookups change nothing, keep no pool element and stay within the table's structures for any set of prefix lengths (including all 32), any table size, and any number of tables in the process; tables do not affect each other.",
  [I, HI], "every set (bounded) of networks at arbitrary addresses and every query",
  "the IPv4 tests use seven networks in one table size",
  ["zt_ipv4_tbl.c", "zt_ipv4_tbl.h"], [("zt_ipv4_tbl_add_node/add_frm_str/search_node/search_from_str", "zt_ipv4_tbl.c")], ["zt_ipv4_tbl_search_from_*"])
p("X01", "SHA-1 digests are FIPS 180 for any input and any chunking",
  "The digest of any byte string, fed in any division into update calls, equals FIPS 180-4 SHA-1 of the whole, and the caller's input is left unchanged. The text form is the 40 lowercase hex digits of the digest.",
  [I], "every message within the bound, every chunking",
  "tests hash three standard strings in one call each",
  ["zt_sha1.c", "zt_sha1.h"], [("zt_sha1_init/update/finalize", "zt_sha1.c")], ["digest bytes"])
p("U01", "UUID text forms round-trip and bad text is refused",
  "Formatting any UUID in any supported form and parsing the text gives back the same UUID, the formatted text has the exact standard layout and length, and comparison orders UUIDs consistently with equality of their bytes. Text of the wrong length, with foreign characters, or denoting more than 128 bits is refused, leaving the destination untouched, rather than read out of bounds or accepted. Filling a caller's buffer that is too small reports the size needed.",
  [I], "all 2^128 UUIDs; every text of bounded length",
  "tests parse a few fixed UUIDs",
  ["zt_uuid.c", "zt_uuid.h"], [("zt_uuid_tostr/fromstr/cmp", "zt_uuid.c")], ["text and UUID values"])
p("U02", "Generated UUIDs carry version and variant, v5 is a function of its inputs",
  "Every generated UUID reports the version it was requested with and the RFC 4122 variant, whatever random bits or name it is built from. A version 5 UUID depends only on namespace and name, being the namespace-then-name SHA-1 digest with exactly the version and variant bits replaced. Each thread draws version 4 bits from a generator of its own.",
  [I], "every random stream, namespace and name within the bound",
  "tests check two generated values",
  ["zt_uuid.c"], [("zt_uuid4, zt_uuid5, zt_uuid_isvalid", "zt_uuid.c")], ["UUID bytes"])
p("F01", "Formatted output obeys its directives and never overruns the buffer",
  "For every directive (d, u, o, x, c, s, p with the flags - 0 + and space, width and precision, literal or from the arguments) the characters produced are those the directive specifies for the value as in C's printf (p: the address in hexadecimal), literal text is copied verbatim, and the returned count equals the characters produced. Formatting into a sized buffer never writes outside it and always terminates it, cutting off what does not fit; every way out (callback, stream, buffer, allocated) produces the same characters.",
  [I], "every argument value, flags and widths within bounds, every buffer size",
  "tests use a few fixed calls",
  ["zt_format.c", "zt_format.h"], [("zt_fmt_vformat and converters", "zt_format.c")], ["output characters, return value"])
p("K01", "Configuration values read back typed as written",
  "A value set or parsed into a block under a name is what a get of that block, name and type returns (the last write wins), a get with the wrong type or of an absent name fails with -1 and leaves the destination unchanged, and references between values resolve to the referenced value and never loop. Different blocks and names never interfere.",
  [I, HI], "every sequence (bounded) of sets and gets over arbitrary names and values, every reference graph",
  "the test reads one fixed file",
  ["zt_cfg.c", "zt_cfg/cfg_private.c"], [("cfg_set/get and reference resolution", "zt_cfg/cfg_private.c")], ["zt_cfg_get results"],
  na="not built: parsing and reference resolution allocate per line through several stacked layers; symbolic file contents did not fit the bounds in the time available")
p("K02", "INI parsing classifies every line or rejects it, within bounds",
  "For every input line the INI parser recognises blocks, comments, and name = value pairs with the value typed as integer, float, boolean, quoted string or reference, stores exactly what is written, and otherwise reports a parse error; it never reads or writes outside its line buffers.",
  [I], "every file content of bounded length",
  "the test parses one well-formed file",
  ["zt_cfg/cfg_ini.c"], [("parse_file/parse_block/parse_line", "zt_cfg/cfg_ini.c")], ["zt_cfg_get after zt_cfg_ini"],
  na="not built: the INI parser reads through stdio, which has no solver model here")
p("Y01", "Time arithmetic and timed runs are consistent",
  "Adding, subtracting and differencing timevals gives normalised results equal to the exact microsecond arithmetic for all normalised operands, with the operands untouched, comparison orders times, and a timed run executes its test function exactly the requested number of times, returns its last result and reports the clock's advance less the calibrated overhead.",
  [I], "all normalised time values, every repetition count within bounds",
  "tests time one function",
  ["zt_time.c", "zt_time.h"], [("zt_time, zt_sub_time/add_time/diff_time", "zt_time.c")], ["struct timeval results"])
p("Z01", "The Mersenne Twister follows the reference and its ranges hold",
  "Seeding and generation implement the MT19937 recurrence exactly, equal seeds give equal sequences, and every generated value lies in its declared interval (32-bit integers, 31-bit integers, floats in [0,1]). Initialisation from an array touches nothing outside the array and the state.",
  [I], "every seed, every state word combination for tempering and regeneration",
  "tests compare one seed's first thousand outputs",
  ["zt_random.c", "zt_random.h"], [("zt_random_*", "zt_random.c")], ["generated values"])
p("O01", "Option parsing matches each argument to its definition",
  "Every command line is processed left to right up to the first argument that does not start with '-': a long option (--name) with its value after '=' or in the next argument, short options alone or clustered, the first one that takes a value taking the rest of its argument (after an optional '=') or the next argument. Each option's callback runs once per occurrence with exactly that value, unknown options and missing values are reported through the error callback, a refusing callback ends the processing, the index of the first unprocessed argument is reported, and nothing outside the argument vector and its strings is read. Invalid or duplicate definitions are reported, and the provided string, list, flag and boolean callbacks store exactly the value given.",
  [I], "every argument vector of bounded shape and content",
  "the test parses one argument vector",
  ["zt_opts.c", "zt_opts.h"], [("zt_opt_process_args, zt_opt_get_value", "zt_opts.c")], ["values passed to callbacks, returned index, error callback"])
p("Q01", "Log records are filtered by level and printed verbatim",
  "A message is emitted exactly when its level is at or above the logger's threshold, with exactly the decorations its options ask for, and text supplied by program name, host, file or function names is printed literally. Line decorations never overrun their buffers.",
  [I, "configurations"], "every level, threshold, option combination and name text within bounds",
  "tests use one level and a benign program name",
  ["zt_log.c", "zt_log/log_private.c"], [("zt_log_gen_fmt, level check", "zt_log/log_private.c")], ["emitted text"],
  na="not built: the log layer formats through vfprintf/vsyslog with composed format strings, for which there is no solver model here")
p("V01", "Recursive directory creation creates exactly the missing ancestors",
  "With parents requested, creating a directory succeeds exactly when the path is or becomes a directory, creating each missing ancestor once from the root downward and nothing else; every failure of the file system is reported as -1 and the call always terminates. Paths up to the limit are handled without touching memory outside them.",
  [I, "fault_sequences"], "every path of bounded length and every outcome of each file-system call",
  "the test creates one three-level path on a healthy file system",
  ["zt_path.c"], [("zt_mkdir, zt_path_exists", "zt_path.c")], ["sequence of mkdir calls, return value"])
p("V02", "The base directory search finds the nearest ancestor with the trigger",
  "Given a path and a trigger name, the search asks for the trigger in the path itself and then in each ancestor spelled in it, nearest first, and nowhere else; it returns a fresh string holding the first one that has it, with one separator appended, and NULL when none has. It always terminates and never reads or writes outside the path.",
  [I, "fault_sequences"], "every path of bounded length and separator pattern, every set of directories holding the trigger",
  "the test searches one tree",
  ["zt_path.c"], [("zt_find_basedir", "zt_path.c")], ["returned string, sequence of stat calls"])
p("W01", "Exit handlers run once each in reverse order of registration",
  "Every handler registered for exit runs exactly once with its own argument, in reverse order of registration (one registered by a running handler runs next), whatever mix of registrations took place, and no handler or argument is lost.",
  [HI], "every bounded registration sequence",
  "no test runs exit handlers",
  ["zt_atexit.c"], [("zt_atexit", "zt_atexit.c")], ["order of callbacks"])
p("E01", "Program name and directory are the ones named, or found in PATH in order",
  "After setting a program name it is returned until replaced, truncated to the buffer and NUL-terminated, with the directory part removed exactly when stripping was requested. A program named with a directory has that directory, made absolute by the current one; a program named without one is looked for in every element of PATH in order (an empty one being the current directory), its directory is the first element that has it, the current directory when none has, and without PATH the one the system reports.",
  [I], "every name and option within bounds",
  "tests set one name",
  ["zt_progname.c"], [("zt_progname, zt_progpath", "zt_progname.c")], ["returned name and directory", "sequence of stat calls"])
p("J01", "Thread pools run each job once and shut down without deadlock",
  "Under every schedule each queued job is executed exactly once by some worker, job data is passed intact, workers waiting for work are woken by a push, and killing the pool makes every worker terminate. No queue access happens outside its lock.",
  ["schedules"], "every interleaving of bounded numbers of producers and workers",
  "no test runs a thread pool",
  ["zt_threads.c", "zt_threads.h"], [("zt_threadpool_push/kill and worker loop", "zt_threads.c")], ["job callbacks, termination"],
  na="CBMC's thread support does not cover pthread condition variables and signals as used here; a sequentialised model would be a model of the code, not the code")
p("Q02", "Bit and arithmetic macros are exact",
  "The bit set, unset and test macros, minimum, maximum, clamp, ceiling, floor and absolute value evaluate to the exact result for every operand of every integer width, also when an argument is an expression, and the container-of, offset and array-extent helpers give the exact address, offset and count.",
  [I], "all operand values",
  "tests use a few constants",
  ["zt_macros.h", "zt.h"], [("ZT_BIT_*, MIN/MAX/ABS/CLAMP", "zt_macros.h")], ["macro values"])
p("Q03", "The unit-test runner counts and reports every test truthfully",
  "Running a suite executes each registered test once between set-up and tear-down, a failing assertion marks exactly that test as failed and stops it, and the returned totals equal the numbers of tests and failures. Selecting a suite or test by name runs exactly the ones named.",
  [HI], "every bounded arrangement of suites, tests and outcomes",
  "the runner is trusted by all other tests",
  ["zt_unit.c"], [("zt_unit_run, zt_unit_run_by_name", "zt_unit.c")], ["return values, success and exception counts"],
  na="not built: the runner unwinds failing tests with setjmp/longjmp, which CBMC does not model")
