#!/usr/bin/env python3
"""Source of truth for properties.jsonl. Run: python3 tools/props.py  (rewrites properties.jsonl)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- base: memory, buffers, text
p("B01", "Buffer builder equals the byte string its operations describe",
  "After any sequence of buffer-builder operations (append of bytes, strings, integers, padded and justified text, encoded text, replace, drop, truncate, trim, direct write, merge, join, finish) the content, length and returned text are exactly what the same operations produce on an ideal byte string, text results are always NUL terminated, and an encoding, decoding, binary or BCD append that reports failure leaves the content unchanged.",
  "histories inputs", "every operation sequence, with sizes around growth and offset boundaries and with self-describing binary content",
  "check_buf exercises a handful of fixed call sequences; growth/offset states reached by long mixed sequences are not covered.",
  ["base/data/m_buf.c", "base/data/m_bin.c", "include/mstdlib/base/m_buf.h"][0]+" include/mstdlib/base/m_buf.h",
  [("offset/length/capacity bookkeeping with lazy head drop", "base/data/m_buf.c")],
  [("data/data_length/alloc size", "current content window", "struct M_buf in base/data/m_buf.c")],
  ["M_buf_peek, M_buf_len, M_buf_finish_str"])
p("B02", "Data parser consumes exactly its input, in order, never past the end",
  "For any input and any sequence of parser operations, every byte returned is the next unconsumed input byte, an operation that fails consumes nothing, the remaining length, total offset, line and column always agree with the bytes consumed so far, and mark/rewind restore the exact earlier position. Text delimiters, character-class reads, splits and numeric reads return exactly the span their definition selects.",
  "histories inputs", "every input and operation sequence on direct, const and dynamic (appendable) parsers",
  "check_parser tests a few fixed strings; interleavings of append, mark, consume and failing reads are not sampled.",
  "base/data/m_parser.c include/mstdlib/base/m_parser.h",
  [("single consume path with line/column tracking", "base/data/m_parser.c")],
  [("data/data_len/mark/line/column", "position", "struct M_parser in base/data/m_parser.c")],
  ["M_parser_* API results"])
p("B03", "Bit buffer and bit parser are exact inverses of a bit string",
  "Any sequence of bit-level writes yields exactly the concatenated bit string, and any sequence of bit-level reads, peeks, marks, skips, ranges and signed/unsigned integer reads returns exactly the addressed bits of the input regardless of alignment. Reads and updates outside the valid bits are refused without effect.",
  "histories inputs", "every bit-length, alignment and operation sequence",
  "check_bit_buf / check_bit_parser cover fixed offsets only.",
  "base/data/m_bit_buf.c base/data/m_bit_parser.c",
  [("bit offset arithmetic", "base/data/m_bit_buf.c, base/data/m_bit_parser.c")], (), ["M_bit_buf_bits, M_bit_parser_*"])
p("B04", "Hashtables are exact maps in every configuration",
  "After any sequence of insert, update, remove, get, enumerate, merge and duplicate, every typed hashtable contains exactly the key/value associations a mathematical map (or ordered multi-map, in multi-value mode) would, with key ordering modes enumerating in insertion or sorted order, case-insensitive keys unified, growth invisible to the caller, and value-free callbacks run exactly once for every value dropped.",
  "histories inputs configurations", "every operation history, key set (including colliding and case-varying keys) and flag combination of dict, multi, strvp, strbin, stru64, stridx, u64str, u64vp, u64bin, u64u64 tables",
  "Unit tests use small key sets and never compare whole-table state with a reference across resizes with removals.",
  "base/hash/m_hashtable.c base/hash/m_hash_dict.c base/hash/m_hash_multi.c base/hash/m_hash_strvp.c base/hash/m_hash_u64str.c",
  [("chained buckets, power-of-two growth, ordered key list", "base/hash/m_hashtable.c")],
  [("buckets/num_keys/keys_ordered", "table state", "struct M_hashtable in base/hash/m_hashtable.c")],
  ["*_get, *_num_keys, *_enumerate_next, destroy callbacks"])
p("B05", "Array lists are exact sequences (sorted, stable, stack or set)",
  "After any sequence of inserts, bulk inserts, removals, takes, merges, index queries, sort changes and duplicate removals, a list's length, order and membership equal those of a reference sequence under its configured mode (insertion order, sorted, stable sorted, stack, unique), every find/index/count query answers as the reference does, and owned values are duplicated and released exactly once.",
  "histories inputs configurations", "every operation history over M_list, M_list_str, M_list_u64, M_list_bin and flags",
  "check_list_u64 covers one element type and short linear histories.",
  "base/list/m_list.c base/list/m_list_str.c base/list/m_list_u64.c base/list/m_list_bin.c",
  [("offset array with binary insertion", "base/list/m_list.c")], (), ["M_list_* results and element callbacks"])
p("B06", "Linked lists and queues keep order, links and membership",
  "After any sequence of inserts, positional moves, swaps, removals and takes, a linked list (insertion ordered or sorted-stable) enumerates forwards and backwards exactly the reference sequence, a queue yields each inserted member exactly once in its defined order, and membership queries and lengths agree with the reference.",
  "histories inputs configurations", "every operation history over M_llist, M_llist_str, M_llist_u64, M_llist_bin, M_queue",
  "check_llist_u64 covers fixed small lists; skip-list level growth and shrink under churn is untested.",
  "base/list/m_llist.c base/list/m_llist_str.c base/list/m_llist_u64.c base/data/m_queue.c",
  [("skip list with doubly linked level 0", "base/list/m_llist.c"), ("hashtable index", "base/data/m_queue.c")], (), ["enumeration both ways, M_queue_*"])
p("B07", "Caches hold the most recently used entries and never exceed capacity",
  "A cache never holds more entries than its configured maximum, always retains the most recently inserted or fetched ones, evicts the least recently used, returns the last value stored for a key, and releases every evicted, replaced or removed value exactly once.",
  "histories inputs configurations", "every history of insert/get/remove/resize",
  "check_cache_strvp runs one short fixed history.",
  "base/cache/m_cache.c base/cache/m_cache_strvp.c", [("hash + linked list recency order", "base/cache/m_cache.c")], (), ["M_cache_strvp_*"])
p("B08", "String helpers never overrun and compute their defined text",
  "String copy, concatenate, compare, search, replace, trim, pad, justify, quote, case, delete, explode, implode, split, wrap and pattern-match helpers return exactly the text their definition prescribes for every input including NULL and empty strings, never write outside the given buffer and always NUL-terminate what they write.",
  "inputs", "every string, delimiter and buffer size including zero, one and exact-fit",
  "check_str samples few inputs per function.",
  "base/data/m_str.c base/data/m_chr.c base/data/m_str_patmatch.c base/data/m_str_hexdump.c", [("bounded copies", "base/data/m_str.c")], (), ["return values and destination buffers"])
p("B09", "Text to integer conversion is exact and reports overflow",
  "Converting text to a signed or unsigned integer in any base yields the mathematically exact value with success when it fits, the saturated limit with an overflow report when it does not, an invalid report when no number is present, and an end position immediately after the consumed characters.",
  "inputs", "every string and base, width and length limit for the 32, 64 bit, signed, unsigned, binary-string conversions",
  "check_str_int64/uint64 use fixed tables.",
  "base/data/m_str_num.c base/data/m_bin.c", [("limit-checked accumulation", "base/data/m_str_num.c")], (), ["M_str_to_*_ex results"])
p("B10", "Formatted printing matches C semantics and respects bounds",
  "For every supported conversion, flag, width, precision and size modifier, formatted output equals the C standard's result (with the documented NULL handling), the returned length is the full untruncated length, and output into a bounded buffer is the terminated prefix of the full output; all output targets (fixed, allocated, buffer, stream) agree.",
  "inputs", "every format string built of supported conversions and every buffer size",
  "check_snprintf uses a fixed table of formats.",
  "base/data/m_str_fmt.c include/mstdlib/base/m_fmt.h", [("own formatter", "base/data/m_str_fmt.c")], (), ["M_snprintf, M_asprintf, M_bprintf"])
p("B11", "Decimal arithmetic is exact and overflow is reported",
  "Parsing, printing, scaling, comparing, adding, subtracting, multiplying, dividing and rounding decimals give the mathematically exact (or, where digits are dropped, correctly rounded by the chosen rounding mode) result, and a result that cannot be represented is reported as an overflow or truncation, never returned silently wrong.",
  "inputs", "every pair of representable decimals, precision and rounding mode, including 64-bit limits",
  "check_decimal has a fixed table of cases away from limits.",
  "base/math/m_decimal.c base/math/m_round.c", [("64-bit integer with scale", "base/math/m_decimal.c")], (), ["M_decimal_* results"])
p("B12", "Sorting, searching, rounding and random helpers meet their definitions",
  "Sorts produce an ordered permutation of the input (stable for the stable variant) for any comparison, binary searches and insert searches return a correct position for any sorted input, and random helpers stay inside the requested range, reach every value of it, and repeat exactly for equal seeds.",
  "inputs", "every array content/size with duplicates and adversarial orders; every range and seed",
  "No unit test covers sort or search directly.",
  "base/sort/m_sort_qsort.c base/sort/m_sort_mergesort.c base/sort/m_sort_binary.c base/math/m_rand.c base/math/m_prop.c base/math/m_bithacks.c",
  [("mergesort/qsort/binary search", "base/sort")], (), ["M_sort_*, M_rand_*"])
p("B13", "Released memory is wiped and sized allocation semantics hold",
  "Every block returned to the system by the library's allocator, including blocks vacated by a resize and blocks released by library objects, has every byte overwritten with the wipe value at the moment of release (nothing of its contents survives); resizing preserves the common prefix, zero-filling variants zero exactly the new bytes, and memory helpers (copy, move, compare, search, swap, duplicate) compute exact results and tolerate NULL and overlap.",
  "inputs histories", "every allocation size and resize history, and all memory released by library containers",
  "Unit tests cannot see memory after it is freed; check_mem tests search/compare only.",
  "base/mem/m_mem.c base/mem/m_endian.c", [("length-prefixed blocks wiped before free", "base/mem/m_mem.c")], (), ["free() calls made from the library"], "interpose free()/realloc() at link time (no repo change)")
p("B14", "UTF-8 handling accepts exactly valid text and maps code points exactly",
  "Validation accepts exactly the well-formed UTF-8 sequences the documentation defines as valid (no overlong, surrogate, out-of-range or non-character codes), code point extraction and encoding are inverse for every code point, and counting, indexing, case mapping and classification agree with the Unicode 10 data for every code point.",
  "inputs", "all 1,114,112 code points and all byte strings (up to 4 bytes structurally, random longer)",
  "check_utf8 uses sample sentences.",
  "base/utf8/m_utf8.c base/utf8/m_utf8_case.c base/utf8/m_utf8_check.c base/utf8/m_utf8_tables.c", [("table lookup", "base/utf8/m_utf8_tables.c")], (), ["M_utf8_* results"])
p("B15", "Binary-text codecs round-trip and match the standards",
  "Base64, base32 and hex encoding of any bytes equals the standard encoding (with requested line wrapping), decoding inverts it ignoring permitted whitespace, invalid text is rejected, size predictions bound the actual size and bounded outputs never overrun.",
  "inputs", "every byte string, wrap width, buffer size, and corrupted text",
  "check_bincodec uses a short fixed table.",
  "base/bincodec/m_bincodec.c base/bincodec/m_base64.c base/bincodec/m_base32.c base/bincodec/m_hex.c", [("table codecs", "base/bincodec")], (), ["M_bincodec_*"])
p("B16", "Calendar conversion agrees with the proleptic Gregorian calendar and zones",
  "Converting between epoch seconds and broken-down UTC time is exact and mutually inverse for all dates, out-of-range fields normalise arithmetically, and local conversions with any Olson or POSIX-rule zone give the same offset, abbreviation and daylight flag as the zone's data prescribes for that instant.",
  "inputs configurations", "every instant over centuries, every zone installed on the system, and POSIX DST rule strings",
  "check_time_tm/tz test a handful of instants in one or two zones.",
  "base/time/m_time_gm.c base/time/m_time.c base/time/m_time_tz_olson.c base/time/m_time_tz_posix.c base/time/m_time_tz_dst_rules.c base/time/m_time_tzs.c",
  [("day-count arithmetic; transition search; DST rule evaluation", "base/time")], (), ["M_time_togm, M_time_fromgm, M_time_tolocal, M_time_fromlocal"])
p("B17", "Time formatting and parsing are inverse and reject text that does not match",
  "Formatting a time with a format string and parsing the result back with the same format recovers the same fields, every parsed field is inside its own range, text not matching the format is rejected without reading past its end, each documented date format, zone name and relative time denotes the documented instant, and time differences are exact to the millisecond.",
  "inputs", "every valid time and format string; arbitrary text",
  "check_time_fmt uses fixed strings.",
  "base/time/m_time_parse.c base/time/m_time.c base/time/m_time_elapsed.c", [("format-driven parser", "base/time/m_time_parse.c")], (), ["M_time_parsefmt, M_time_to_str"])
p("B18", "Path manipulation preserves the file a path names",
  "Normalising, joining, splitting, and taking the directory or base name of any path yields a path naming the same file (resolving dot, dot-dot, repeated separators and environment/home references lexically as documented), is idempotent, and splitting then joining restores an equivalent path, for Unix and Windows syntax alike.",
  "inputs configurations", "every path built from separators, dots, names, drives and UNC prefixes in both syntaxes",
  "check_path checks a fixed table.",
  "base/fs/m_fs_path.c base/fs/m_fs_path_norm.c", [("component list normalisation", "base/fs/m_fs_path_norm.c")], (), ["M_fs_path_norm, M_fs_path_join*, M_fs_path_split"])
p("B19", "File handles read and write exactly the addressed bytes",
  "Through any history of buffered reads, writes, seeks, truncations, syncs, and reopenings, a file's content and the bytes returned equal those of an ideal file, buffered data is never lost or reordered, and whole-file helpers deliver exactly the file's bytes.",
  "histories inputs configurations", "every operation history, buffer size, open mode and flag combination",
  "check_file runs a single scripted scenario.",
  "base/fs/m_fs_file.c base/fs/m_fs_file_unx.c base/fs/m_fs.c", [("read/write buffers layered on descriptors", "base/fs/m_fs_file.c")], (), ["file bytes as seen by the OS"])
p("B20", "Filesystem tree operations affect exactly the named tree",
  "Copy, move, delete and directory walking act on exactly the named files and their descendants: a successful copy or move reproduces names, contents and (when asked) permissions at the destination, nothing outside the named tree is created, changed or removed (symlinks are not followed out of it), existing targets are replaced only when overwriting is allowed, and a failed operation is reported.",
  "inputs histories configurations", "every small directory tree with files, symlinks and nested directories and every flag combination",
  "check_file covers a few flat cases.",
  "base/fs/m_fs.c base/fs/m_fs_dir.c base/fs/m_fs_dir_walk.c base/fs/m_fs_perms_unx.c", [("recursive walk with entries list", "base/fs/m_fs_dir_walk.c")], (), ["full tree snapshot before/after"])
p("B21", "State machines run states and cleanups in the defined order",
  "For any state graph (linear, jumps, descends, nested machines, prefunc/postfunc, cleanup machines, wait states, resets), the sequence of state and cleanup callbacks and the final status equal those prescribed by the documented execution rules; completed states' cleanups run in reverse order exactly once per execution on error (and on done, when requested), and paused machines resume at the same state.",
  "histories programs", "every machine graph and every sequence of state outcomes",
  "check_state_machine has 16 hand-built machines.",
  "base/data/m_state_machine.c include/mstdlib/base/m_state_machine.h", [("call chain stack and reverse cleanup walk", "base/data/m_state_machine.c")], (), ["callback trace"])
p("B22", "Command line parsing delivers each option and argument once, in order",
  "For any registered option set and argument vector, each option occurrence is delivered to its own callback exactly once with the value converted per its type, non-option arguments are delivered in order, everything after a double dash is treated as non-option, and malformed input is reported with the offending option without further callbacks.",
  "inputs configurations", "every option set and argv",
  "check_getopt has six fixed scenarios.",
  "base/data/m_getopt.c base/data/m_getopt_parse.c", [("argv scanner", "base/data/m_getopt_parse.c")], (), ["callback log"])

# ---------------------------------------------------------------- text
p("X01", "Regular expressions match exactly the language they describe",
  "For every supported pattern and subject, whether and where a regular expression matches, and the span of each capture group, agree with the documented syntax (leftmost match; the longest one where every repetition is greedy, the shortest with a single ungreedy one); find-all, replace and begin-anchored variants are consistent with repeated search, and matching is independent of concurrent use.",
  "inputs", "all patterns over the supported syntax and all subjects",
  "check_re uses a fixed table.",
  "text/re/m_re.c text/re/m_re_match.c text/re/mtre/regcomp.c text/re/mtre/regexec.c", [("TRE tagged automaton", "text/re/mtre")], (), ["M_re_search, M_re_matches, M_re_sub"])
p("X02", "Text codecs map every character per the published charset tables",
  "Encoding UTF-8 to any supported charset and decoding back restores the text for every character the charset contains, each byte/character pair equals the published mapping, unmappable or invalid input is failed, dropped or replaced exactly as the chosen error mode says, and percent, quoted-printable and punycode codecs follow their RFCs; the buffer, parser and string entry points agree.",
  "inputs configurations", "every byte value, every code point, every codec and error mode, and random mixed text",
  "check_codec_utf8/check_puny cover two codecs on a few strings.",
  "text/textcodec/m_textcodec.c text/textcodec/m_textcodec_cp_map.c text/textcodec/m_textcodec_percent.c text/textcodec/m_textcodec_punycode.c text/textcodec/m_textcodec_quoted_printable.c text/textcodec/m_textcodec_utf8.c", [("code page tables", "text/textcodec")], (), ["M_textcodec_encode/decode"])

# ---------------------------------------------------------------- formats
p("F01", "JSON documents survive write/read and only valid JSON is accepted",
  "Writing any document tree and reading it back gives an equal tree in every formatting mode, reading accepts every standard JSON text with the value it denotes and rejects malformed text with an error position inside the text, and path queries return exactly the nodes the expression selects.",
  "inputs", "all document trees, JSON texts and near-JSON texts, reader/writer flags",
  "check_json uses fixed documents.",
  "formats/json/m_json.c formats/json/m_json_reader.c formats/json/m_json_writer.c formats/json/m_json_jsonpath.c", [("recursive descent reader", "formats/json/m_json_reader.c")], (), ["M_json_read/M_json_write/M_json_jsonpath"])
p("F02", "XML documents survive write/read and malformed XML is rejected",
  "Writing any well-formed tree of elements, attributes, text, comments and instructions and reading it back yields an equal tree, reading agrees with a reference XML parser on structure, attributes and decoded text, mismatched or truncated markup is rejected with a position, entities are expanded once only, and path queries select exactly the matching nodes.",
  "inputs", "all trees and XML-like texts, reader/writer flags",
  "check_xml uses fixed documents.",
  "formats/xml/m_xml.c formats/xml/m_xml_reader.c formats/xml/m_xml_writer.c formats/xml/m_xml_entities.c formats/xml/m_xml_xpath.c", [("reader/writer", "formats/xml")], (), ["M_xml_read/M_xml_write/M_xml_xpath"])
p("F03", "HTTP parsing is independent of how the bytes are segmented",
  "Feeding an HTTP message to the streaming reader in any segmentation yields the same sequence of parsed elements, the same body bytes, result code and total consumed length as feeding it whole; body length and chunking are determined as RFC 7230 prescribes, and bytes after the message are never consumed.",
  "inputs schedules", "all messages (content-length, chunked, multipart, until-close) and all segmentations, including malformed ones",
  "check_http_reader feeds whole fixed messages.",
  "formats/http/m_http_reader.c formats/http/m_http_simple_reader.c formats/http/m_http.c", [("incremental parser with consumed length", "formats/http/m_http_reader.c")], (), ["reader callbacks, len_read"])
p("F04", "HTTP messages written are read back with identical meaning",
  "Any request or response produced by the writer, when parsed by the library's reader or a reference parser, has the same method, URI, code, headers and body, header lookups are case-insensitive and lossless, no header or URI input can inject additional headers or messages undetected, and URI and form data decode to what was given.",
  "inputs", "all header sets, bodies, methods, URIs",
  "check_http_simple_writer has four fixed cases.",
  "formats/http/m_http_simple_writer.c formats/http/m_http_simple_reader.c formats/http/m_http_header.c formats/http/m_http_headers.c formats/http/m_http_uri.c", [("writer/reader pair", "formats/http")], (), ["bytes written, parsed object"])
p("F05", "URLs split into exactly their components",
  "Parsing any supported URL yields the scheme, user info, host, port, path, query and fragment that RFC 3986 assigns, of any length, recomposing the components gives a URL with the same components, and text that is not a URL is rejected.",
  "inputs", "all strings",
  "check_url has a fixed table.",
  "formats/url/m_url.c formats/url/url_parser.c", [("character state machine", "formats/url/url_parser.c")], (), ["M_url_create and accessors"])
p("F06", "Email messages survive write/read and segmentation",
  "An email built through the API, written and read back has the same headers, addresses, subject and multipart bodies; the streaming reader yields the same parts for every segmentation of the input; generated emails are always readable by the module itself.",
  "inputs schedules", "all header/address/body combinations and all segmentations",
  "check_email uses fixed messages.",
  "formats/email/m_email.c formats/email/m_email_reader.c formats/email/m_email_simple_reader.c formats/email/m_email_simple_writer.c", [("reader state machine", "formats/email/m_email_reader.c")], (), ["M_email_*"])
p("F07", "CSV reading and writing follow RFC 4180 losslessly",
  "Any grid of cells written as CSV is read back identically, reading agrees with a reference RFC 4180 parser for any text, delimiters and quotes, row/column accessors agree with the grid, and row filters and header selection output exactly the selected cells.",
  "inputs configurations", "all grids and texts with quotes, newlines, delimiters",
  "check_csv uses fixed text.",
  "formats/csv/m_csv.c formats/table/m_table_csv.c", [("tokeniser and writers", "formats/csv/m_csv.c")], (), ["M_csv_*"])
p("F08", "INI and settings data survive edit, write, read and merge",
  "Keys and values set in an INI or settings store and written out are read back identically, editing preserves untouched comments, ordering and values, duplicate and section rules hold, and a three-way merge keeps every user change and every non-conflicting new default.",
  "inputs histories configurations", "all key/value sets, edit histories, formats (ini, json) and merge triples",
  "check_ini/check_settings use fixed files.",
  "formats/ini/m_ini.c formats/ini/m_ini_reader.c formats/ini/m_ini_writer.c formats/ini/m_ini_merger.c formats/settings/m_settings.c formats/settings/m_settings_reader.c formats/settings/m_settings_writer.c", [("element list reader/writer", "formats/ini")], (), ["M_ini_*, M_settings_*"])
p("F09", "Configuration registration delivers validated values or reports errors",
  "For every registered configuration key, a successful parse stores exactly the value in the file (or its default), converted and range-checked for its type, an out-of-range, malformed or missing required value makes the parse fail and is reported for that key, and values of other keys are unaffected.",
  "inputs configurations", "all registrations and file values for each type",
  "check_conf covers one value or two per type.",
  "formats/conf/m_conf.c", [("typed registration list", "formats/conf/m_conf.c")], (), ["destination variables, error callback"])
p("F10", "Tables behave as a grid and export losslessly",
  "After any sequence of column and row inserts, removals, moves, renames, sorts and merges, every cell of a table equals the reference grid, and exporting then loading via CSV or JSON reproduces the grid.",
  "histories inputs", "all edit histories and cell contents",
  "check_table has five fixed cases.",
  "formats/table/m_table.c formats/table/m_table_csv.c formats/table/m_table_json.c formats/table/m_table_markdown.c", [("id-mapped rows and columns", "formats/table/m_table.c")], (), ["M_table_cell etc."])
p("M01", "Untrusted document input cannot corrupt memory, hang or leak",
  "For every byte sequence given to any format parser (JSON, XML, HTTP, URL, email, CSV, INI, table, zone file), parsing terminates and performs no invalid memory access, undefined operation, or leak, whatever flags are in force.",
  "inputs configurations", "all byte strings and flags",
  "Unit tests run without sanitizers on well-formed documents.",
  "formats/json/m_json_reader.c formats/xml/m_xml_reader.c formats/http/m_http_reader.c formats/email/m_email_reader.c formats/csv/m_csv.c formats/ini/m_ini_reader.c formats/url/url_parser.c formats/time/m_mtzfile.c", [("bounds-checked M_parser and M_buf", "formats/")], (), ["sanitizer reports, allocation balance"])
p("M02", "Untrusted text and binary primitives cannot corrupt memory, hang or leak",
  "For every byte sequence given to the regular expression, charset, time, timezone-file, number, path, getopt, UTF-8, pattern, binary codec and address-verification primitives, the call terminates and performs no invalid memory access, undefined operation, or leak.",
  "inputs", "all byte strings",
  "Unit tests run without sanitizers on sample inputs.",
  "text/re/mtre/regcomp.c base/time/m_time_tz_olson.c base/time/m_time_parse.c text/textcodec/m_textcodec.c base/data/m_str.c text/verify/m_verify.c", [("bounds checks", "base/, text/")], (), ["sanitizer reports, allocation balance"])

# ---------------------------------------------------------------- thread
p("T01", "Mutexes, read-write locks and semaphored waits exclude and wake correctly",
  "On every thread model, at most one thread holds a mutex, writers exclude everyone and readers only writers, every unlock or signal made while a waiter is eligible wakes one (broadcast wakes all), timed waits return no earlier than requested unless signalled, try-locks never block, and data guarded by them is free of races.",
  "schedules histories", "all interleavings of lock, trylock, unlock, wait, timed wait, signal and broadcast",
  "check_thread_* run small fixed schedules.",
  "thread/m_thread.c thread/m_thread_pthread.c thread/m_thread_coop.c thread/m_thread_rwlock_emu.c", [("pthread wrappers, emulated rwlock, cooperative scheduler", "thread/")], (), ["owner counters inside critical sections", "ThreadSanitizer"])
p("T02", "Thread pool runs every dispatched task exactly once",
  "Every task dispatched to a thread pool is executed exactly once, never more than the configured number run at once, waiting on a parent returns only after all of that parent's earlier tasks have finished and does not wait for others, and a pool destroyed after its parents have been waited on has run every task and leaves no thread working.",
  "schedules histories configurations", "all dispatch/wait/destroy interleavings and pool sizes",
  "No unit test checks exactly-once under contention.",
  "thread/m_threadpool.c", [("queue + condition variables", "thread/m_threadpool.c")], (), ["task execution log"])
p("T03", "Thread pipelines process each task through all steps in order",
  "Every task inserted in a pipeline passes each step exactly once in step order, tasks leave each step in insertion order, each task is finalised exactly once with the right success or abort status, and a step failure aborts the task's remaining steps and the pipeline as documented.",
  "schedules histories fault_sequences", "all insertion orders, step delays and failing steps",
  "No unit test for the pipeline exists.",
  "thread/m_thread_pipeline.c", [("per-step worker threads with queues", "thread/m_thread_pipeline.c")], (), ["step and finish callbacks"])
p("T04", "Atomic operations are linearizable and lock-free counters lose nothing",
  "Concurrent atomic add, subtract, increment, decrement and compare-and-set operations behave as if executed one at a time: each returns the value its predecessor left, no update is lost, and exactly one of competing compare-and-sets from the same value succeeds.",
  "schedules", "all interleavings on 32 and 64 bit operands and spinlocks",
  "No unit test runs atomics concurrently against an oracle.",
  "thread/m_atomic.c", [("compiler/stdatomic intrinsics", "thread/m_atomic.c")], (), ["returned values history", "ThreadSanitizer"])
p("T05", "Thread lifecycle, once-init and thread-local destructors are exact",
  "A joined thread's return value is delivered once to the joiner, every created thread runs exactly once, once-initialisers run exactly once and complete before any caller proceeds, thread-local values are private to their thread and their destructors run once at thread exit with that thread's value, and thread counts return to baseline.",
  "schedules histories", "all create/join/detach/exit interleavings on each model",
  "check_thread_* cover single scenarios.",
  "thread/m_thread.c thread/m_thread_tls.c thread/m_thread_pthread.c thread/m_thread_coop.c", [("thread registry, TLS tables", "thread/m_thread.c, thread/m_thread_tls.c")], (), ["destructor log, return values"])

# ---------------------------------------------------------------- io
p("I01", "I/O streams deliver every byte once, in order, through any layer stack",
  "Bytes accepted for writing on any connected stream (loopback, pipe, socket, TLS and shaping/buffer/trace layers stacked on it) are delivered to the peer exactly once and in order, partial writes and reads report exact counts, and would-block is reported rather than losing or duplicating data.",
  "schedules histories configurations", "all write/read sizes, layer stacks, loop backends and interleavings",
  "Network tests send a fixed greeting and count bytes.",
  "io/m_io.c io/m_io_posix_common.c io/m_io_pipe_posix.c io/m_io_loopback.c io/net/m_io_net.c io/m_io_bwshaping.c io/m_io_buffer.c io/m_io_block.c tls/m_tls.c", [("layered read/write with meta", "io/m_io.c")], (), ["bytes at both ends"])
p("I02", "Timers fire on time, in order, the configured number of times",
  "A timer never fires before its due time, timers due at different times fire in due order, a timer fires exactly the number of times configured within its start/end window, a stopped, reset or removed timer does not fire under its old schedule, and every due timer fires while the loop runs.",
  "histories schedules configurations", "all sets of timers, intervals, modes and start/stop/reset/remove histories from inside and outside callbacks",
  "check_event_timer runs a few fixed timers.",
  "io/m_event_timer.c io/m_event.c", [("sorted timer queue", "io/m_event_timer.c")], (), ["callback times (monotonic)"])
p("I03", "Event loops deliver each trigger and queued task, and nothing after removal",
  "Every signalled trigger and every queued task runs on the event loop (a task exactly once, a trigger at least once after its last signal), no callback runs for an object after its removal or destruction has returned on that loop, objects moved between loops keep receiving events, distributed pools keep each object on one loop, and loops stop when asked, for every polling backend.",
  "schedules histories configurations", "all cross-thread signal/queue/remove/destroy interleavings on epoll and poll backends and pools",
  "check_event_* use single fixed scenarios.",
  "io/m_event.c io/m_event_trigger.c io/m_event_epoll.c io/m_event_poll.c io/m_io_osevent_pipe.c", [("soft events, wake pipe, queue", "io/m_event.c")], (), ["callback log", "ThreadSanitizer"])
p("I04", "Connection lifecycle events are ordered and terminal",
  "For every connection the application sees connected before any data event, reads return all bytes the peer sent before its graceful close and only then a disconnect, exactly one terminal event (disconnect or error) is delivered, nothing follows it, and no resource (descriptor, callback) outlives the connection.",
  "histories schedules fault_sequences", "all interleavings of writes, graceful and abrupt closes on each transport",
  "Tests check the total of events on happy paths.",
  "io/m_io.c io/m_event.c io/net/m_io_net.c io/m_io_pipe_posix.c io/m_io_loopback.c", [("layer state and soft events", "io/m_io.c")], (), ["event trace per object, /proc/self/fd"])
p("I05", "Child processes: exact arguments, streams, exit status",
  "A started process receives exactly the given arguments and environment, its standard input receives exactly the bytes written then end-of-file, its output and error streams are delivered completely and separately, its exit code (or timeout/kill) is reported exactly once, and no zombie or descriptor remains, for event-based and blocking process APIs.",
  "histories inputs schedules", "all argv/env/stdin/exit-code/output-size combinations",
  "check_process runs few fixed commands.",
  "io/m_io_process.c thread/m_popen.c", [("fork/exec with pipes and watcher thread", "io/m_io_process.c, thread/m_popen.c")], (), ["child echo program, /proc"])
p("I06", "Bandwidth shaping never exceeds its limits and accounts exactly",
  "Over any sampling window the shaped stream never carries more than the configured rate plus one burst allowance in either direction, configured latency is a lower bound on delivery delay, and the reported byte totals equal the bytes transferred.",
  "schedules configurations", "all limits, periods, modes and traffic patterns",
  "check_event_bwshaping uses one configuration.",
  "io/m_io_bwshaping.c", [("period accounting", "io/m_io_bwshaping.c")], (), ["timestamps and byte counts at both ends"])
p("I07", "PROXY protocol headers are exact, and connection data untouched",
  "An outbound header encodes exactly the addresses and ports configured (v1 or v2) and is accepted by an inbound peer which reports the same values, every byte after the header is delivered unmodified whatever the segmentation, and any malformed, truncated or mismatched header is refused before any application data is delivered.",
  "inputs schedules configurations", "all addresses, versions, segmentations and header corruptions",
  "There is no unit test for proxy protocol.",
  "io/m_io_proxy_protocol.c", [("header parser/generator layer", "io/m_io_proxy_protocol.c")], (), ["wire bytes, reported addresses"])
p("I08", "Name resolution results are ordered, cached and cancellable",
  "Host lookups return exactly the addresses answered (both families as requested) ordered by the documented preference, cached answers are reused only within their lifetime, every outstanding lookup's callback runs exactly once even on failure or timeout, and connects fall through to the next address when one fails.",
  "histories schedules fault_sequences", "all answer sets, delays, failures and connect outcomes",
  "check_dns needs the public internet and is not run.",
  "io/net/m_dns.c io/net/m_io_netdns.c io/net/m_io_net.c", [("query list, cache, happy eyeballs sort", "io/net/m_dns.c")], (), ["stub resolver log, callback log"])

# ---------------------------------------------------------------- tls / net / log / sql
p("S01", "TLS connects only to peers whose certificate verifies for the name",
  "A client with verification enabled completes a handshake if and only if the server's chain leads to a trusted root, is within its validity period, and names the requested host (exact, wildcard of one label, or address, as documented) at the configured strictness level; otherwise the connection fails and no application data is exchanged; servers requiring client certificates refuse clients without a trusted one.",
  "configurations inputs", "all combinations of chain, validity, subject/alternative names, hostnames and verify levels",
  "check_tls uses one good certificate configuration.",
  "tls/m_tls.c tls/m_tls_hostvalidate.c tls/m_tls_clientctx.c tls/m_tls_serverctx.c tls/m_tls_ctx_common.c", [("OpenSSL verify callbacks and own host validation", "tls/")], (), ["handshake outcome, bytes exchanged"])
p("S02", "TLS streams detect any tampering and truncation",
  "When bytes of a TLS connection are altered, dropped, replayed, reordered or cut off in transit, the receiving application never receives data that was not sent or out of order, and ends with an error or disconnect, while untampered connections deliver everything.",
  "fault_sequences schedules", "all positions and kinds of modification and all protocol versions",
  "No unit test interposes on the wire.",
  "tls/m_tls.c tls/m_tls_ctx_common.c", [("OpenSSL BIO glue", "tls/m_tls.c")], (), ["bytes delivered"])
p("S03", "TLS negotiation honours configured versions, protocols and server names",
  "The negotiated protocol version is allowed by both sides and the highest common one, the application protocol selected is a common one by server preference (none if no overlap), the certificate presented matches the requested server name's context, resumption only happens when enabled, and peers with nothing in common fail to connect.",
  "configurations", "all pairs of version ranges, ALPN lists and SNI names",
  "check_tls covers a couple of pairs.",
  "tls/m_tls_ctx_common.c tls/m_tls_clientctx.c tls/m_tls_serverctx.c tls/m_tls.c", [("context options", "tls/")], (), ["M_tls_get_* on both ends"])
p("N01", "Mail queue delivers every message exactly once or reports its failure",
  "Every message queued to the mailer ends in exactly one of: acknowledged by an endpoint and reported sent, or reported failed after the configured attempts; a message acknowledged by a server is never sent again, none is lost or duplicated across endpoint failures, retries, failover, pause and resume, and the bytes an endpoint receives equal the message.",
  "fault_sequences schedules histories", "all sequences of endpoint rejections, disconnects, timeouts and recoveries, queue modes and endpoint sets",
  "check_smtp runs scripted scenarios against a fixed emulator.",
  "net/smtp/m_net_smtp.c net/smtp/m_net_smtp_queue.c net/smtp/m_net_smtp_session.c net/smtp/m_net_smtp_endpoint.c net/smtp/m_flow_tcp_sendmsg.c", [("queue + retry bookkeeping", "net/smtp/m_net_smtp_queue.c")], (), ["server transcript vs callbacks"])
p("N02", "HTTP client reports exactly one final outcome with the right response",
  "Each request made through the HTTP client ends with exactly one completion carrying the server's final response byte-for-byte (after at most the configured number of redirects) or an error; the request on the wire equals what was asked, size and time limits are enforced, and cancelled requests never complete later.",
  "fault_sequences histories configurations", "all responses, segmentations, redirects chains, early closes, limits and cancellations",
  "No unit test exists for the HTTP client.",
  "net/m_net_http_simple.c", [("connection state + reader", "net/m_net_http_simple.c")], (), ["server transcript vs done callback"])
p("L01", "Log messages reach every subscribed destination once, in order, whole",
  "Every message logged at an enabled tag is delivered exactly once, unmodified and in per-thread order to each module accepting that tag and to no other, filters and suspension apply exactly to messages logged while they are set, multi-line messages are prefixed per line, and reopen, expiry and module removal lose or duplicate nothing that was accepted.",
  "schedules histories configurations", "all logging thread interleavings, tag filters, module add/remove/reopen histories",
  "There is no unit test for logging.",
  "log/m_log.c log/m_log_common.c log/m_log_stream.c log/m_log_membuf.c log/m_async_writer.c", [("module list under rwlock; async writer queue", "log/m_log.c, log/m_async_writer.c")], (), ["bytes at each sink"])
p("L02", "Rotating log files retain every recent line exactly once in order",
  "Concatenating a file log's archived and current files yields the messages logged in order with no line lost, duplicated or split, across rotations by size or age, restarts and reopens, and no more archives are kept than configured and no unrelated file is touched.",
  "histories configurations schedules", "all rotation sizes, archive counts, message sizes and restarts",
  "There is no unit test for the file logger.",
  "log/m_log_file.c log/m_async_writer.c", [("async writer with rotation", "log/m_log_file.c")], (), ["files on disk"])
p("Q01", "Database transactions are all-or-nothing and pools stay within limits",
  "Statements executed in a transaction take effect all together on commit and not at all on rollback, failure or connection loss; transaction helper functions retry only on rollback conditions and run to exactly one commit; the pool never opens more than its configured connections, hands a connection to one user at a time and blocked users are eventually served.",
  "histories schedules fault_sequences", "all interleavings of concurrent transactions, failures injected at each driver call, and pool sizes",
  "check_sql runs a single scripted workload.",
  "sql/m_sql_connpool.c sql/m_sql_trans.c sql/m_sql_stmt.c sql/sqlite/mstdlib_sql_sqlite.c", [("pool lock + consumer accounting", "sql/m_sql_connpool.c")], (), ["database content, driver call log"])
p("Q02", "Bound values reach the database and come back unchanged",
  "Any value bound to a statement parameter (any integer width, text including quotes and controls, binary, NULL; single or multi-row) is stored and read back unchanged with correct null-ness, row and column counts, by index and by name, can never alter the statement's structure, and result conversions are exact or reported.",
  "inputs configurations", "all values and types, row counts and fetch sizes",
  "check_sql stores a few values.",
  "sql/m_sql_stmt.c sql/m_sql_stmt_bind.c sql/m_sql_stmt_result.c sql/m_sql_driver_helper.c sql/sqlite/mstdlib_sql_sqlite.c", [("bind columns and driver helper rewrite", "sql/")], (), ["values read back through the API and sqlite3 directly"])
p("Q03", "Table-data helpers and reports change and show exactly the described fields",
  "Adding or editing a record through the table-data helpers validates every field's type, length, ID and required rules, writes exactly the changed fields to exactly the addressed record (or none on error), reports precisely what changed, and generated reports contain exactly the query's rows and columns in order with correct escaping.",
  "inputs histories configurations", "all field definitions, values and previous records; all report formats",
  "check_sql covers one table definition.",
  "sql/m_sql_tabledata.c sql/m_sql_report.c sql/m_sql_table.c", [("field definition engine", "sql/m_sql_tabledata.c")], (), ["database content, notification callback, report text"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            for fn in x["anchors"]["files"]:
                assert os.path.exists("/repo/"+fn), (x["id"], fn)
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
