#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": ["include/stdex/" + f for f in files],
         "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- concurrency
p("C01", "Ring buffer is a loss-free, bounded, quittable FIFO between two threads",
  "For every interleaving of one producer and one consumer, the elements the consumer obtains are exactly the elements the producer committed, in order, each once, and never more than the capacity are outstanding. A side blocks only while it must (producer: full, consumer: empty, sync: not empty) and is released as soon as the other side makes progress or quit() is called; after quit() the producer gets {nullptr,0}, while the consumer first drains what was committed and then gets {nullptr,0}. Space and data regions handed out always lie inside the buffer and never overlap.",
  ["schedules", "histories"], "all interleavings of producer, consumer and quit(), all partial commit/consume sizes, all capacities and wrap positions",
  "The only ring test runs one free-running producer/consumer pair on whatever schedule the OS picks; it never blocks a side deliberately, never calls quit() while a side waits and never uses sync().",
  ["ring.hpp"], [("mutex + two condition variables with predicates", "ring.hpp back/push/front/pop/quit/sync")],
  [("head/size", "committed region of the buffer", "ring.hpp m_head, m_size"), ("quit", "cancelled flag", "ring.hpp m_quit")],
  ["return values of back()/front()/sync()", "content seen through front()"])
p("C02", "Read-ahead stream delivers the source's bytes unchanged and always ends",
  "For every schedule, read size, source chunking and source end or failure, the bytes read through an async_reader are the source's bytes in order without loss, duplication or invention; a short read occurs only once the source has ended, and then the source's eof or fail state is reported. Every read returns once the source has delivered enough or has ended, and destroying the reader at any moment terminates and joins its worker.",
  ["schedules", "fault_sequences", "inputs"], "all interleavings of reader and worker, all source chunkings, eof/failure positions, and destruction points",
  "stream::async reads a memory_file that never fails or returns short, on one OS schedule, and always drains the reader before destroying it.",
  ["stream.hpp", "ring.hpp"], [("worker thread + ring", "stream.hpp async_reader::process/read/~async_reader")], None,
  ["read() results and state()", "termination of destructor"])
p("C03", "Write-back stream writes everything in order and reports losses by flush",
  "For every schedule and write size, the bytes an async_writer accepted reach the source in order, without loss or duplication, by the time flush() reports ok or the writer is destroyed, unless the source fails. Once the source has failed, writes are refused instead of accepted without end, no write or flush blocks forever, and flush() does not report ok while accepted bytes were not delivered.",
  ["schedules", "fault_sequences"], "all interleavings of writer and worker, all write sizes, source short writes and failure positions, flush/destroy points",
  "stream::async writes to a memory_file that never fails; flush() and every failure path is never executed.",
  ["stream.hpp", "ring.hpp"], [("worker thread + ring", "stream.hpp async_writer::process/write/flush/~async_writer")], None,
  ["write()/flush() results and state()", "bytes received by source"])
p("C04", "Replicator writes the same bytes, in order, to every attached stream",
  "For every schedule, each stream attached to a replicator receives exactly the sequence of writes, flushes and closes issued while it was attached, in order; an operation returns only after every attached stream finished it. write() returns the smallest count any stream accepted, and state() is ok only if all streams are ok. Attaching, removing, and destroying never deadlock, and a removed stream is not touched afterwards.",
  ["schedules", "fault_sequences", "histories"], "all interleavings of the caller and one worker per stream, all operation sequences, streams that write short or fail",
  "stream::replicator only runs successful 4-byte writes to three healthy streams; remove(), flush(), close() and failing streams are never exercised.",
  ["stream.hpp"], [("per-stream worker with op mailbox", "stream.hpp replicator::worker, write, foreach_worker, remove")], None,
  ["per-stream operation log", "write() result and state()"])
p("C05", "Watchdog fires if and only if it was not reset in time, once per phase",
  "If reset() is not called for the timeout, the callback is invoked (once) and not again until the next reset() re-arms the watchdog; if reset() is called at least once in every timeout interval, the callback is never invoked. After the destructor returns the callback can no longer run, and the destructor never hangs.",
  ["schedules", "histories"], "all schedules, and all timings of reset() and destruction relative to the timeout",
  "watchdog::test uses one real-time pattern with a large safety margin; it cannot see duplicate callbacks, a lost re-arm or a late callback.",
  ["watchdog.hpp"], [("phase counter + timed wait", "watchdog.hpp run/reset/~watchdog")], None, ["callback invocations with virtual time stamps"])
p("C06", "Object pool hands every item to one holder at a time and loses none",
  "For every interleaving of pushes and pops from several threads and NUMA nodes, each pushed item is returned by at most one pop per push, a pop yields either an item previously pushed to the same NUMA node or the empty value, and an empty value is returned only if that node's stock was empty at some moment during the call. Clearing or destroying the pool destroys exactly the items still in stock, once.",
  ["schedules", "histories"], "all interleavings of push/pop/clear by several threads over several nodes",
  "pool::test pushes and pops ints from free-running threads without checking for duplication, loss or node affinity.",
  ["pool.hpp"], [("per-node list guarded by a lock", "pool.hpp push/pop/clear")], None, ["items returned by pop()", "item destructor counts"])
p("C07", "Spinlock gives mutual exclusion and is always acquirable once released",
  "For every interleaving of threads using lock(), try_lock() and unlock(), at most one thread is inside the critical section, and everything written inside is visible to the next holder. try_lock() succeeds if the lock is free and no one competes, fails while it is held, and lock() returns once the holder releases.",
  ["schedules"], "all interleavings of lock/try_lock/unlock at atomic-operation granularity",
  "No test covers the spinlock at all.",
  ["spinlock.hpp"], [("atomic flag with acquire/release", "spinlock.hpp lock/try_lock/unlock")], None, ["critical-section occupancy", "happens-before between holders"])
p("C08", "Aggregated progress equals the sum of its workers and honours cancellation",
  "Whenever no update is in flight, the range and the position shown by the host of an aggregate progress are the sums of the ranges and positions last set by its workers, whatever the interleaving of worker updates; a worker's cancel() returns true exactly when the host asks to cancel. A global (scaled) progress forwards each local position to the host mapped linearly onto its global section, and a lazy progress never invents a value: what it forwards is the range and value last set, and what it withholds was set within its time tolerance of the previous forward.",
  ["schedules", "histories", "inputs"], "all interleavings of worker updates; all sequences of range and position updates",
  "No test covers progress indicators.",
  ["progress.hpp"], [("atomic accumulation", "progress.hpp aggregate_progress"), ("linear scaling", "progress.hpp global_progress"), ("threshold filter", "progress.hpp lazy_progress")], None, ["calls received by the host progress"])

# ---------------------------------------------------------------- streams
p("S01", "In-memory file behaves as a growable byte array with a position",
  "For every sequence of operations, a memory_file behaves as a byte array with a current offset: reads return exactly the stored bytes from the offset and report eof only at the end, writes overwrite or extend (a gap left by seeking past the end reads as zeros), seek/skip/tell/size/truncate agree, and nothing outside the stored size is ever read or written. Loading from, saving to, and copying from or to other streams transfers exactly the content, and the reserved capacity never shows in the content. When memory cannot be had, the operation fails without losing or inventing content; a file loaded or saved takes over and keeps the times of the file on disk. Built not to check the stream state, typed operations take place whatever came before; the code's own assertions never fail.",
  ["histories", "inputs"], "all sequences of read/write/seek/skip/truncate/typed/string/stream-copy operations from all offsets, including past the end",
  "Tests only append fixed-size integers and read them back from the start; seeking past the end, truncation, partial reads at the end and stream copies are never exercised.",
  ["stream.hpp"], [("offset/size/reserved bookkeeping", "stream.hpp memory_file")],
  [("data/offset/size/reserved", "content and position", "stream.hpp memory_file members")], ["all return values, state(), tell(), size(), content"])
p("S02", "Caching a file changes nothing but the timing of I/O",
  "For every sequence of reads, writes, seeks, truncations and flushes, with every cache block size, a cache over a file returns the same data, counts, positions, sizes and states as the same operations made directly on a plain in-memory file, and after flush(), close() or destruction the underlying file has exactly the same content. If the underlying file fails to accept dirty data the failure is reported by the operation that had to write it back; dirty data is never silently dropped or replaced. File times and locks are those of the file underneath, with what was done through the cache included.",
  ["histories", "fault_sequences", "configurations"], "all operation sequences, block sizes, alignments, and underlying write failures",
  "Tests read and write a cached file sequentially with one block size on a healthy disk.",
  ["stream.hpp"], [("single dirty block with region and status", "stream.hpp cache::read/write/seek/truncate/flush/load_cache/write_cache/invalidate_cache")],
  [("region/status/offset/size", "which block is cached and if it is dirty", "stream.hpp cache::m_cache, m_offset")], ["all return values, state(), tell(), size()", "underlying file content"])
p("S03", "Buffered stream is transparent to the byte sequence",
  "For every sequence of read and write sizes and every buffer capacity (including none), the bytes read through a buffer are the source's bytes in order without loss or duplication, and the bytes written are, after flush() or destruction, in the sink in order without loss or duplication. A read returns no data only when the source delivered none (then its state is reported), and a sink that accepts less or fails is reported by the write or flush that hit it, with the returned count being the number of bytes accepted.",
  ["histories", "fault_sequences", "configurations"], "all read/write sizes versus buffer sizes, source chunkings, end and failure positions",
  "Tests read/write fixed 4-byte items through one buffer size on healthy sources.",
  ["stream.hpp"], [("read and write buffers", "stream.hpp buffer::read/write/flush")], None, ["return values and state()", "bytes at the source/sink"])
p("S04", "Limiters and windows expose exactly the chosen part of a stream",
  "A limiter passes through at most the given number of bytes read and written, a window additionally leaves out the given leading part, and a file window maps positions [0,size) to the chosen region of the file: every read, write, seek, skip and tell through them sees exactly that part, byte for byte, and nothing outside is returned or modified. Reaching the read limit reads as end of stream, writing past the limit is refused by limiter and file window and discarded by window, and the accounting of remaining bytes stays exact for any operation sizes and source chunkings, also when the underlying file does only a part or cannot seek.",
  ["histories", "inputs", "configurations"], "all limits/offsets, operation sizes and seek targets, source chunkings",
  "No test covers limiter, window or file_window directly.",
  ["stream.hpp"], [("remaining-byte accounting", "stream.hpp limiter, window"), ("region arithmetic", "stream.hpp file_window")], None, ["return values, state(), tell()", "underlying content"])
p("S05", "In-memory FIFO stream returns written bytes once, in order",
  "For every sequence of writes and reads of any sizes, reads from a fifo return exactly the bytes written and not yet read, in order, as many as requested or as are available, with eof only when nothing is left; size() is always the number of unread bytes and close() empties it. A write that cannot get memory reports how much it took, and exactly that is read later.",
  ["histories"], "all sequences of write/read/close with all sizes", "No test covers fifo.",
  ["stream.hpp"], [("linked list of blocks with head offset", "stream.hpp fifo")], None, ["return values, state(), size()"])
p("S06", "Typed stream I/O round-trips and stops cleanly at truncation",
  "Every value written with the typed operators (integers, floating point, strings, vectors, sets, multisets, character-set-converted strings, arrays, lines) reads back equal through the matching reader from any stream, independent of how the source splits its reads, and the on-disk form is the documented one (little endian, 32-bit length prefixes). When the data ends early the reader reports a state other than ok (or throws when the announced size cannot be allocated), never an invented value as success, and never reads beyond the end.",
  ["inputs", "histories"], "all values, nestings, chunkings and truncation points",
  "Tests only use uint32_t on complete data.",
  ["stream.hpp", "endian.hpp"], [("typed operators", "stream.hpp basic operator<< / operator>>, read_array/write_array/read_str/write_str/readln")], None, ["bytes written", "values and state() read back"])
p("S07", "Diagnostic file detects every divergence between its files",
  "A diag_file applies each operation to all of its files and reports the first file's results as long as all files agree on result, state and data; if any file returns a different count, state, position or different bytes, the operation reports failure instead of returning as if all agreed.",
  ["histories", "fault_sequences"], "all operation sequences, with any one file diverging at any point", "No test covers diag_file.",
  ["stream.hpp"], [("compare results of all files", "stream.hpp diag_file")], None, ["return values, state()"])
p("S08", "Base64 and hex codecs are exact inverses under any chunking",
  "Encoding any bytes produces the RFC 4648 text (hex: two digits per byte) regardless of how the input is split over calls, decoding it with any split and with interleaved characters that are not digits returns the original bytes, and the final block is reported exactly when padding was met. The base64 stream writer and reader produce and accept the same text for any write and read sizes, breaking lines as documented, with the padded tail written on destruction. The sizes announced by enc_size() and dec_size() are never exceeded by what coding that many more bytes then gives.",
  ["inputs", "histories"], "all byte strings, all splits of input and output, whitespace positions, source chunkings",
  "No test covers base64 or hex.",
  ["base64.hpp", "hex.hpp"], [("3-byte/4-char carry state", "base64.hpp base64_enc/base64_dec/base64_writer/base64_reader"), ("nibble carry state", "hex.hpp hex_enc/hex_dec")], None, ["encoded text", "decoded bytes, is_last, state()"])
p("S09", "Hashes depend only on the bytes hashed, and hashing streams are transparent",
  "For every byte sequence of any length and every split of it over hash calls, the CRC-32, MD5 and SHA-1 results equal the standard digests of the concatenated bytes, also after re-initialising a used hash object. A hashing stream passes reads and writes through unchanged and its digest covers exactly the bytes actually transferred.",
  ["inputs", "histories"], "all lengths (around 55/56/63/64-byte block boundaries and beyond), all splits, reuse, short transfers",
  "Tests hash three short strings in a single call.",
  ["hash.hpp"], [("block accumulation and length padding", "hash.hpp block_hash, md5_hash, sha1_hash, crc32_hash"), ("pass-through hashing", "hash.hpp stream_hasher")], None, ["digest values", "bytes passed"])
p("S10", "Deflate streams round-trip any data under any chunking",
  "For every byte sequence, every split of writes, every block size and compression level, what a zlib_writer emits is a complete deflate stream that a zlib_reader (with any read sizes and source chunkings) turns back into exactly the original bytes followed by eof. Truncated or corrupt input is reported as an error or a premature end (it may or may not deliver what could be decoded before), never as success with invented data and never as an endless loop, and data following the end of the deflate stream does not disturb the result.",
  ["inputs", "histories", "fault_sequences"], "all data, splits, block sizes, levels, truncation points, trailing data",
  "The zlib test compresses one buffer in one call and decompresses it in one call.",
  ["zlib.hpp"], [("deflate/inflate loop", "zlib.hpp zlib_writer, zlib_reader")], None, ["bytes read, state(), exceptions"])
p("S11", "Records (RIFF/WAV blocks) nest, align and are found by id",
  "For every tree of records, writing then reading through the record layer returns the same content: each record's stored size equals its payload size, padding keeps the alignment, a reader never consumes bytes of the next record whatever the payload reader consumes, and finding or skipping by id visits records in order and never leaves the enclosing block. WAV header and cue lists (cues with lengths and labels) read back equal to what was written, and removing cues keeps everything else of the file.",
  ["inputs", "histories"], "all record trees, payload sizes, alignments, search bounds and truncated files", "No test covers idrec or wav.",
  ["idrec.hpp", "wav.hpp"], [("open/close back-patching, align padding, find/ignore", "idrec.hpp"), ("cue lists", "wav.hpp read_cues, write_cues, remove_cues")], None, ["bytes written", "values read, tell(), state()"])

p("S12", "System files, pipes and sockets carry bytes exactly, and failures show",
  "A file of the file system behaves as a growable byte array seen through any number of streams: opening honours existence, creation, truncation, append and access mode, and leaves a stream closed and failed when it cannot; reads return exactly the bytes at the stream's position (fewer only at the end, and end of file only when nothing was left), writes land where the position says and appear to every other stream, a failed or impossible operation fails, says so, and moves nothing; copies of a stream share its position and keep the file open, moved-from streams are closed; times set are the times stored, file sections locked are exactly the ones asked for. The cached file is the same thing, with the file holding everything after a flush or close, and a closed one giving and taking nothing. Streams over pipes and sockets deliver what was sent once and in order, wait for all that was asked for unless the other side is gone, count exactly what was accepted, and report the end or a failure; a buffered one sends everything when flushed, closed or destroyed.",
  ["inputs", "histories", "schedules"], "all histories of operations over several streams of the same files; both kinds of pairs, wrappers, blocking modes and ways of arriving", "Tests open and close one file.",
  ["stream.hpp", "system.hpp"], [("file", "stream.hpp file"), ("cached_file", "stream.hpp cached_file"), ("basic_sys, buffered_sys, socket", "stream.hpp"), ("handles", "system.hpp basic_sys_object")], None, ["return values, state(), tell(), size()", "file content, times, locks", "bytes received"])

# ---------------------------------------------------------------- text
p("T01", "Character-set conversion is exact on valid text",
  "Converting valid Unicode text between UTF-7, UTF-8, UTF-16, UTF-32 and the wide string form and back returns the original for every code point sequence and every length (including lengths that straddle internal buffers and embedded or missing terminators), whatever was converted before with the same encoder; code pages give exactly their characters; and appending conversions leave the existing destination untouched. Text that is invalid in the source encoding is reported by an exception (what the encoder holds after that, until cleared, is open), text is never read beyond the given length or terminator, and character-set names map to the documented code pages.",
  ["inputs"], "all code points, sequences and lengths", "Tests convert a handful of short strings.",
  ["unicode.hpp"], [("iconv wrapper and buffering", "unicode.hpp charset_encoder, str2wstr, wstr2str")], None, ["converted strings, exceptions"])
p("T02", "SGML entity encoding round-trips and keeps its position mapping",
  "For every text, its SGML-entity encoding is 7-bit, leaves no character raw that must or was asked to be encoded, and decodes to the original text (or its precomposed spelling, where entities have one). Decoding replaces exactly the known, terminated entities and numeric references not excluded and copies everything else verbatim; bounded variants give the same text or throw, and never write past the destination. The mapping produced while decoding relates every decoded position to the source position it came from, monotonically, and error checking reports the first reference that does not decode.",
  ["inputs"], "all texts, entities, numeric references, malformed references, destination sizes", "Tests cover a few fixed strings.",
  ["sgml.hpp", "mapping.hpp"], [("entity scanner", "sgml.hpp sgml2uni, sgml2strcat, sgml2str"), ("entity writer", "sgml.hpp str2sgmlcat, str2sgml")], None, ["decoded/encoded strings, mapping vectors"])
p("T03", "HTML, URL and CSS escaping is reversible and stays within its input",
  "For every string without zero characters, URL-unescaping its URL-escaped form and CSS-unescaping its CSS-escaped form return the original, and HTML-escaped text decodes to the original through the SGML decoder; escaped output contains no unescaped metacharacters. Escaping and unescaping never read beyond the given length, whatever the text (truncated escapes included), and malformed escapes are kept literally (a CSS escape of exactly six digits followed by a space may or may not take the space).",
  ["inputs"], "all strings, truncated and malformed escapes, length limits", "No test covers the escaping functions.",
  ["html.hpp"], [("character switch", "html.hpp escape, escape_min, url_escape, url_unescape, css_escape, css_unescape")], None, ["output strings"])
p("T04", "HTML documents parse into a well-nested, lossless structure",
  "For every source text, parsing yields a sequence list that covers the text in order without overlap; start and end tags are paired so that parents are properly nested, an end tag closes the nearest open element of its kind, elements that may not contain a new element are closed by it, and void elements contain nothing. Conditional sections are resolved (with the entities declared): what is ignored is left out, CDATA and RCDATA are kept as they are. Rebuilding the source from the token tree reproduces the markup exactly and the text and attribute values up to entity spelling, whether elements are closed or not; which elements may contain which, and which attributes are addresses or texts, follows from the kinds of elements.",
  ["inputs"], "all source texts: tag sequences and nestings, unclosed and stray tags, special elements, comments, declarations, conditional sections; in one piece or appended in several", "No test covers HTML documents.",
  ["html.hpp", "parser.hpp"], [("element stack", "html.hpp document::append/finalize"), ("token tree and link", "html.hpp parser::parse/link")], None, ["sequence list, parent/end links, relinked source"])
p("T05", "Parser combinators implement ordered-choice grammar semantics",
  "For every grammar composed of the basic matchers and combinators (literal, set, any, sequence, branch, iterations, permutation, begin/end of line, integers, Roman, signed, mixed, scientific and monetary numerals, fractions, scores, IPv4 addresses), for narrow, wide and SGML text and every text and range, match() succeeds exactly when the grammar's semantics says so, reports the same interval, chosen alternative, value and intervals of its parts, and gives the same answer when the parser object is reused; told to forget, it and its parts hold nothing. No matcher reads or reports anything outside [start,end), and search() finds the first matching position.",
  ["inputs", "programs"], "all grammars, texts, ranges and reuse orders", "Only the HTTP request parser and a few fixed strings are tested.",
  ["parser.hpp"], [("combinators", "parser.hpp basic_sequence, basic_branch, basic_iterations, basic_permutation, basic_integer10, basic_set ...")], None, ["match result, interval, hit_offset, value"])
p("T08", "Recognizers of addresses, dates, references and formulas accept what their formats define",
  "For every composition from basic matchers, text, range and flags, each recognizer (IPv6 addresses, DNS names, URL characters, paths and URLs, e-mail addresses, emoticons, dates, times, angles, phone numbers, IBANs, creditor and SI references, chemical formulas) matches exactly the texts of its format, never a separator or bracket that belongs to nothing, reports the intervals of its parts and no others, the value (address words in network order, normalized number, reference or phone number, date order), and declares a reference valid exactly when its check digits control it (ISO 7064 modulo 97, modulo 11 per SI model). Optional part matchers may be left out, objects may be reused or told to forget, which leaves nothing in them, and nothing outside the range is read.",
  ["inputs", "configurations"], "all compositions, texts, ranges, flags and reuse orders", "Tests cover two IBANs, a creditor reference, one SI model, one date and one phone number; no test covers addresses, URLs, times, angles, emoticons or formulas, or texts that nearly match.",
  ["parser.hpp"], [("recognizers", "parser.hpp basic_ipv6_address, basic_dns_name, basic_url, basic_email_address, basic_emoticon, basic_date, basic_time, basic_angle, basic_phone_number, basic_iban, basic_creditor_reference, basic_si_reference, basic_chemical_formula")], None, ["match result, intervals of parts, value, is_valid"])
p("T09", "Recognizers of HTTP messages, JSON strings, CSS, MIME types and HTML tags find the parts the formats define",
  "For every text and range, the recognizers of HTTP (line breaks and folding, tokens, quoted strings, parameters, media types, URLs with port, path and query, languages, weights, cookies, agents, protocols, request lines and headers), JSON strings, CSS comments, strings, url() and @import, MIME types and HTML names, attribute values, tags and conditional sections match exactly the texts of their format from the start position, report the end, the intervals of all parts present and no others (also when the object is reused; none when told to forget), and the decoded value (port, weight, protocol version, string with its escapes resolved, kind of tag). A list of weighted values yields all its elements, the most wanted first and equals in their order. Recognition always ends and nothing outside the range or beyond the terminator is read.",
  ["inputs"], "all texts and ranges, malformed and truncated ones included, and reuse orders", "The tests parse one HTTP request with two headers; no test covers cookies, media types, weights, JSON, CSS, MIME or HTML tags, or texts that are cut or malformed.",
  ["parser.hpp"], [("HTTP", "parser.hpp http_space .. http_value_collection"), ("JSON, CSS, MIME", "parser.hpp basic_json_string, basic_css_*, basic_mime_type"), ("HTML", "parser.hpp basic_html_ident, basic_html_value, basic_html_tag, basic_html_declaration_condition_*")], None, ["match result, intervals of parts, values, order of the collection"])
p("T06", "Position mappings and intervals convert consistently in both directions",
  "For every mapping built from ordered points, a position converts, in either direction, by the offset of the nearest mapping point at or before it (positions before the first point never reach past the image of that point, and with no points nothing moves), so converting there and back returns the original within the same segment, and the hinted and unhinted variants agree. Interval operations (emptiness, containment, size, offsetting) agree with the set of points they denote.",
  ["inputs"], "all mapping vectors, positions, hints and interval pairs", "No test covers mappings or intervals.",
  ["mapping.hpp", "interval.hpp"], [("binary search + offset", "mapping.hpp dst2src, src2dst")], None, ["converted positions"])
p("T07", "Bounded string functions honour their limits and number parsing is exact",
  "For every input and limit, the bounded string functions (copy, concatenate, compare, search, trim, case and line-end conversion, duplication) produce the result of the unbounded operation on the strings cut at their limit or terminator and never touch anything beyond the limits, for every character width, and glyph and line-break lengths never split a character; formatting numbers, strings and times appends exactly the text printf or strftime would produce at any length. Parsing integers returns the value and the end offset and saturates on overflow at the limits of the type, for every radix and width. UTF-16 pairs stand for their characters, both ways. Diagnostic messages, where built in, reach their channel whole and in order.",
  ["inputs"], "all strings, limits around buffer boundaries, numbers around type limits, radices", "Tests cover one sprintf and one strncpy case.",
  ["string.hpp", "debug.hpp"], [("diagnostic output", "debug.hpp diag, err, benchmark"), ("bounded loops", "string.hpp strncpy, strncat, strncmp, strnstr, trim, crlf2nl, vappendf, strtoint")], None, ["results, return values, untouched guard bytes"])
p("T10", "Dates and timestamps are those of the Gregorian calendar, and every conversion of them agrees",
  "For every day of the years 1 to 9999 and every time of day, converting between days, days/months/years, times of day with milliseconds, system times and calendar structures follows the (proleptic) Gregorian calendar: conversions there and back return the same day or the same instant (as far as the narrower type can tell), consecutive days have consecutive numbers, and the day of the week, the day of the year and the daylight-saving flag agree with the date. Any subset of fields may be asked for. Formatting a timestamp gives the text of its format, of any length, in every character width, and the RFC 822 text is that instant's; no memory is misused.",
  ["inputs"], "all dates and times of day, about leap years, centuries and ends of years, and all formats", "No test covers dates or timestamps.",
  ["chrono.hpp"], [("calendar arithmetic", "chrono.hpp aosn_date::from_dmy, to_dmy, day_of_week"), ("conversions", "chrono.hpp aosn_timestamp::from_system, to_system, from_time_t, to_time_t, from_date, to_date"), ("formatting", "chrono.hpp aosn_timestamp::to_str, to_rfc822")], None, ["values, fields and texts returned"])
p("T11", "UUIDs, language tags and signature files are read and written as what they identify",
  "The text of every UUID, in every character width, is its registry form and fits its buffer; reading the registry form (with white space around its parts, in either case, in a limited or terminated text) gives the UUID back, and anything that lacks a part of the form, has other characters or a group too big is refused, without reading beyond the text. Every language identifier known gives its tag and every tag, in either case and with any punctuation between its parts, gives an identifier with that tag; other identifiers give the fallback and other tags the unknown language. The names of platforms are told apart. Reading a Minisign signature takes the first line that is neither empty nor an untrusted comment, delivers exactly its algorithm, key and signature, leaves the rest to be read, and fails on everything else.",
  ["inputs"], "all UUIDs and texts (mutated, truncated), all language identifiers, tags and signature files", "No test covers UUIDs, languages or signatures.",
  ["uuid.hpp", "langid.hpp", "sys_info.hpp", "minisign.hpp"], [("text of UUIDs", "uuid.hpp uuidtostr, strtouuid"), ("tables of languages", "langid.hpp langid_from_rfc1766, rfc1766_from_langid"), ("platforms", "sys_info.hpp platform_from_name, sys_info"), ("signatures", "minisign.hpp parse_minisig")], None, ["texts, identifiers and bytes returned, position after a signature"])
p("D01", "Queue over circular storage behaves as an ordered sequence",
  "For every capacity and every sequence of push, pop at both ends, clear, copy and move, a vector_queue holds exactly the elements of the corresponding plain sequence in order, as seen by indexing, front/back and size; pushing at a full queue discards the element at the opposite end, and a queue without capacity accepts no elements. Copies are independent, moves transfer the content, every stored element is destroyed exactly once, and a failing element copy leaves a valid queue.",
  ["histories", "configurations"], "all capacities and operation sequences", "No test covers vector_queue.",
  ["vector_queue.hpp"], [("head/count over circular array", "vector_queue.hpp push_back/push_front/pop_back/pop_front/abs")], None, ["content seen through the API"])

p("D02", "What is owned is released exactly once, secrets are wiped, and scope-exit actions run exactly once",
  "For every sequence of creating, copying, assigning, moving, closing and destroying system objects, also when duplicating a handle fails, every handle given out is closed exactly once, by its only owner, copies stand for the same resource, and an object tells truly whether it holds one. An owning pointer lent to a function that fills it in, by pointer or by reference, also by a lender that was moved or when the function throws, owns afterwards exactly what the function left there; wrappers that do not own release nothing. Sockets, address lists, locales, transfers and lists of the transfer library, and the library itself, are released by their owners exactly once, and not when they were taken away or never begun. Memory of containers and blobs that sanitize holds nothing of its content once released, in optimized programs too. An action deferred to the end of a scope runs exactly once, at the end, with what it captured, however the scope is left, if the scope was entered.",
  ["histories", "faults", "configurations"], "all histories of up to three objects with failing duplication, and all ways to lend, allocate, reallocate and leave scopes", "Handles are only tested by streams that own one each; pointers, sanitizing and scope executors are not tested.",
  ["system.hpp", "memory.hpp", "scoped_executor.hpp", "socket.hpp", "curl.hpp", "locale.hpp"], [("handles", "system.hpp basic_sys_object, sys_object_traits"), ("of libraries", "socket.hpp socket, addrinfo; curl.hpp curl, curl_slist, curl_initializer; locale.hpp locale"), ("lending", "memory.hpp ref_unique_ptr, get_ptr"), ("not owning", "memory.hpp no_delete, make_shared_no_delete"), ("wiping", "memory.hpp sanitizing_allocator, sanitizing_blob"), ("scopes", "scoped_executor.hpp")], None, ["handles opened, duplicated and closed", "objects alive", "bytes of released memory", "order of actions"])
p("D03", "Checked arithmetic, scaling, rotation and byte order are exact for every operand",
  "For all operands, checked multiplication and addition return the exact result or report that it does not fit; scaling by a fraction returns the exact quotient (truncated towards zero) whenever it fits the type, also when the product on the way does not, in all four types; rotating moves the bits around by any amount; reversing the byte order reverses the bytes of every integer and floating-point type, in place or not, and twice is nothing; conversions between the host's and the little- or big-endian order agree with the bytes in memory. No operation is undefined.",
  ["inputs"], "all operands, about the limits of types and where products overflow", "No test covers arithmetic or byte order.",
  ["math.hpp", "endian.hpp"], [("checked arithmetic", "math.hpp mul, add"), ("scaling", "math.hpp muldiv"), ("rotation", "math.hpp rol"), ("byte order", "endian.hpp byteswap, LE2HE, BE2HE, HE2LE, HE2BE")], None, ["values returned, exceptions"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
