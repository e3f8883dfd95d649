#!/usr/bin/env python3
"""Writes properties.jsonl. Kept so that the texts can be edited in a readable form."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


DRIVER = ("compress_data_dynamic_n", "src/compress.rs: the loop over match search, block choice, block output and draining")
LZ = ("lz77_compress_block, process_chunk_*", "src/lz77.rs")
WR = ("DeflateEncoder/ZlibEncoder/GzEncoder", "src/writer.rs")

p("C01", "One-shot compression is lossless for every input and option",
  "Whatever bytes are given to a one-shot compression function, in whatever format and with whatever options, decoding the result by the rules of the format yields exactly those bytes, and nothing precedes or follows the one complete stream in the result.",
  ["inputs", "configurations"],
  "every byte string (empty to far beyond the 32 KiB window, all kinds of content) and every combination of match-search effort, lazy limit, matching type and special mode, for raw deflate, zlib and gzip",
  "The tests round-trip one text file and a few literals at four levels; window turnover, hash chains, buffer-full exits, block choice and code limits interact in ways only other data reaches.",
  ["src/lib.rs", "src/compress.rs", "src/lz77.rs", "src/matching.rs", "src/rle.rs", "src/chained_hash_table.rs", "src/input_buffer.rs", "src/encoder_state.rs", "src/bitstream.rs", "src/huffman_lengths.rs", "src/length_encode.rs", "src/huffman_table.rs", "src/stored_block.rs"],
  [DRIVER, LZ, ("longest_match, get_match_length", "src/matching.rs"), ("gen_huffman_lengths, write_huffman_lengths", "src/huffman_lengths.rs"), ("EncoderState::write_lzvalue", "src/encoder_state.rs")],
  ["return value of deflate_bytes*, decoded by the harness's own inflate"],
  [("InputBuffer", "up to two windows plus lookahead of input", "src/input_buffer.rs"), ("ChainedHashTable", "hash heads and chains of the window", "src/chained_hash_table.rs"), ("LsbWriter", "bits not yet forming a byte", "src/bitstream.rs")])

p("C02", "Streaming compression is lossless for every sequence of writes and flushes",
  "For every sequence of write and flush calls on an encoder over a well-behaved writer, ended by finishing, dropping or resetting it, what arrives in the writer is one complete stream that decodes to exactly the concatenation of the bytes that write reported as taken. A write of at least one byte either takes between one byte and all of them, or fails without having taken any; over a well-behaved writer repeating it always gets everything taken.",
  ["inputs", "histories", "configurations"],
  "every history of writes of any size (zero included), flushes and resets, with every option and format",
  "The tests write one file in a handful of fixed chunk sizes; positions of write and flush boundaries relative to the window, the input buffer and the block buffer are unbounded in number.",
  ["src/writer.rs", "src/compress.rs", "src/lz77.rs", "src/input_buffer.rs"],
  [WR, DRIVER, ("InputBuffer::add_data, slide", "src/input_buffer.rs")],
  ["write()/flush()/finish()/reset() results and the bytes in the wrapped writer"],
  [("LZ77State", "overlap, pending byte, bytes still to hash, was_synced", "src/lz77.rs")])

p("C03", "Every stream produced is strictly conforming RFC 1951 deflate data",
  "All output is strictly valid deflate: every match reaches back at most 32768 bytes and never before the first byte of the stream, lengths are 3 to 258 (258 with its own symbol), every Huffman code is complete (or consists of the permitted single one-bit code), neither reserved symbols nor reserved block types occur, stored-block lengths match their complements, exactly one block is marked final and it is the last, and unused bits at the end are zero. An independent decoder therefore accepts it and stops exactly at its end.",
  ["inputs", "histories", "configurations"],
  "every input, option, format and history of writes and flushes",
  "The tests decode with one lenient decoder on a few inputs: tables that are over- or under-subscribed, misplaced final bits, and lengths or distances out of range only show for particular symbol statistics.",
  ["src/huffman_lengths.rs", "src/length_encode.rs", "src/huffman_table.rs", "src/encoder_state.rs", "src/stored_block.rs", "src/bitstream.rs", "src/compress.rs"],
  [("encode_lengths_m, in_place_lengths, enforce_max_code_lengths", "src/length_encode.rs"), ("write_huffman_lengths", "src/huffman_lengths.rs"), ("create_codes", "src/huffman_table.rs"), ("write_stored_block", "src/compress.rs, src/stored_block.rs")],
  ["the bytes in the wrapped writer, read by a strict inflate that records every block, code and symbol, and by zlib"])

p("C04", "A flush makes everything written so far decodable, byte-aligned",
  "When flush returns success on any encoder, the writer holds bytes from which all data accepted so far can be decoded, ending on a byte boundary with an empty stored block (00 00 FF FF), with no block marked final; data flushed earlier is never altered. This holds for flushes at any point, also before the first write and several in a row, and compression then continues correctly with matches allowed to reach back across the flush.",
  ["inputs", "histories", "configurations"],
  "every placement and number of flushes among writes of any size, every option and format",
  "Two tests flush at one or two fixed places in one file with one set of options.",
  ["src/writer.rs", "src/compress.rs", "src/lz77.rs", "src/stored_block.rs"],
  [("Flush::Sync handling", "src/compress.rs compress_data_dynamic_n; src/lz77.rs lz77_compress_block (was_synced)"), ("flush", "src/writer.rs")],
  ["content of the wrapped writer right after each successful flush()"],
  [("LZ77State::was_synced", "the hash must be warmed up with the bytes after a flush", "src/lz77.rs")])

p("C05", "zlib output has a valid header and the Adler-32 of the data",
  "Every zlib stream begins with exactly one header of two bytes (method 8, window of 32 KiB, no preset dictionary, a correct check value), written before anything else, and ends with the big-endian Adler-32 of exactly the data accepted. This holds for every history: flush before any write, no data at all, writes taken in part, resets, and very long inputs.",
  ["inputs", "histories", "configurations"],
  "every input and history on the zlib encoder and every input to the one-shot zlib functions",
  "The tests check the header of two levels and one trailer; checksum errors need particular lengths or byte values, header placement particular first operations.",
  ["src/writer.rs", "src/zlib.rs", "src/checksum.rs", "src/lib.rs"],
  [("ZlibEncoder::check_write_header, write_trailer", "src/writer.rs"), ("Adler32Checksum", "src/checksum.rs"), ("get_zlib_header, add_fcheck", "src/zlib.rs")],
  ["first two and last four bytes in the wrapped writer"],
  [("header_written, checksum", "whether the header is out; checksum of the bytes taken", "src/writer.rs")])

p("C06", "gzip output has the requested header, the CRC-32 and the length of the data",
  "Every gzip stream begins with exactly one valid header that carries exactly the fields the caller's builder asked for (and the fixed defaults otherwise), before anything else, and ends with the little-endian CRC-32 of exactly the data accepted followed by its length modulo 2^32. This holds for every history, including flush before any write, no data, partial writes, resets with and without a new header, and more than 4 GiB of data.",
  ["inputs", "histories", "configurations"],
  "every header (file name, comment, extra field, time, system, header checksum), every input and history on the gzip encoder and the one-shot gzip functions",
  "One test checks one header and one small file; the length wraps at 4 GiB, and headers meet flush and reset in histories the tests do not have.",
  ["src/writer.rs", "src/lib.rs"],
  [("GzEncoder::check_write_header, write_trailer, reset_with_builder", "src/writer.rs"), ("deflate_bytes_gzip_conf", "src/lib.rs")],
  ["the header fields and last eight bytes in the wrapped writer, parsed by the harness"],
  [("header", "bytes of the header still to be written", "src/writer.rs")])

p("C07", "checksum() always equals the checksum of exactly the data accepted so far",
  "At every moment in the life of a zlib or gzip encoder, checksum() is the Adler-32, respectively CRC-32, of exactly the bytes that write has reported as taken since creation or the last successful reset. Partial writes, failed writes, flushes and failed resets do not disturb it.",
  ["inputs", "histories", "fault_sequences"],
  "every history of writes, flushes and resets over healthy and failing writers",
  "Only one test reads a checksum at all, once, after one complete write.",
  ["src/writer.rs", "src/checksum.rs"],
  [("checksum updated by the number of bytes consumed", "src/writer.rs ZlibEncoder::write, GzEncoder::write")],
  ["checksum() after every operation"],
  [("checksum", "running checksum", "src/writer.rs")])

p("C08", "How data is cut into writes does not change the output",
  "For the same data, options and format, and without flushes, the compressed output is byte for byte the same however the data is divided over write calls, and the same as the one-shot function's. With flushes at the same positions in the data, the cutting changes neither what can be decoded after each flush nor, beyond a few bytes per flush, the size.",
  ["inputs", "histories", "configurations"],
  "every division of every input into writes, down to single bytes and empty writes, every option and format",
  "The tests compare a few chunk sizes on one file and only check that it decodes.",
  ["src/lz77.rs", "src/input_buffer.rs", "src/compress.rs", "src/writer.rs"],
  [("wait for a full window plus lookahead before searching", "src/lz77.rs lz77_compress_block"), ("InputBuffer::add_data, slide", "src/input_buffer.rs")],
  ["bytes in the wrapped writer, compared between runs"])

p("C09", "After a reset an encoder behaves exactly like a new one",
  "A successful reset completes the old stream in the old writer, hands that writer back, and leaves an encoder whose further output for any sequence of operations is byte for byte that of a newly made encoder with the same options (and, for gzip, the header given or an empty one). Nothing of the earlier stream influences the new one, however the earlier stream was written, flushed or interrupted by errors that a repeated reset overcame.",
  ["inputs", "histories", "configurations"],
  "every pair of histories before and after a reset, any number of resets, every option and format",
  "Two tests reset after the same file twice, so leftovers that happen to suit the same data do not show.",
  ["src/deflate_state.rs", "src/writer.rs", "src/lz77.rs", "src/chained_hash_table.rs", "src/encoder_state.rs"],
  [("DeflateState::reset", "src/deflate_state.rs"), ("LZ77State::reset, ChainedHashTable::reset", "src/lz77.rs, src/chained_hash_table.rs"), ("EncoderState::reset", "src/encoder_state.rs")],
  ["the old writer returned, and the new output against a fresh encoder's"],
  [("everything in DeflateState", "must return to its initial value", "src/deflate_state.rs")])

p("C10", "Short writes and interruptions of the wrapped writer leave the output unchanged",
  "If the wrapped writer takes only part of what it is offered, or answers Interrupted, in any pattern, then every operation still succeeds (write at most answers Interrupted itself, with nothing taken, and succeeds when repeated) and the bytes that end up in the writer are identical to those an all-accepting writer receives. No byte is lost, repeated or reordered.",
  ["fault_sequences", "histories", "inputs"],
  "every pattern of short writes (down to one byte) and Interrupted results, over every history, option and format",
  "The tests write into a Vec only, which never takes less than offered.",
  ["src/compress.rs", "src/writer.rs"],
  [("output position kept across partial writes", "src/compress.rs compress_data_dynamic_n (output_buf_pos)"), ("compress_until_done", "src/writer.rs")],
  ["bytes in the scripted writer against those in a plain one"],
  [("output_buf_pos, bytes_written", "how much of the pending output is out", "src/deflate_state.rs")])

p("C11", "Writer errors are reported, and nothing is lost or repeated on retry",
  "When the wrapped writer fails with an error, the operation that needed it reports an error of that kind (or Interrupted), no error is swallowed or invented, and the bytes already in the writer are a prefix of the fault-free output. If the caller repeats the failed operation until the writer recovers and goes on, the writer ends up with exactly the fault-free output: nothing is lost, repeated or reordered, a failed write has taken nothing of its data, and the encoder can still be finished or reset.",
  ["fault_sequences", "crash_points", "histories"],
  "every position (byte or call) at which the writer fails, once, several times or for ever, with any error kind, over every history, option and format, during write, flush, finish, reset or drop",
  "No test has a writer that fails.",
  ["src/writer.rs", "src/compress.rs", "src/deflate_state.rs"],
  [("compress_until_done", "src/writer.rs"), ("compress_data_dynamic_n: pending output drained before more is made", "src/compress.rs"), ("check_write_header, write_trailer", "src/writer.rs"), ("DeflateState::reset", "src/deflate_state.rs")],
  ["results of every call and the content of the failing writer after every call"],
  [("flush_mode, needs_flush, output_buf_pos", "what is still owed to the writer", "src/deflate_state.rs")])

p("C12", "Every call makes boundedly many writer calls; a full writer is an error",
  "Over a writer that accepts nothing more (returns zero or only errors), every operation returns after a bounded number of calls to it, and finishing fails with an error (WriteZero when the writer returns zero) instead of looping or pretending success. Over a slow writer the number of writer calls per operation is bounded by the bytes delivered plus a small constant, and an encoder whose writer is stuck stops accepting data after a bounded amount.",
  ["fault_sequences", "histories"],
  "every capacity at which the writer becomes full, dead writers, one-byte writers, fixed-size slices; every history, option and format, and dropping",
  "No test has a writer of limited capacity.",
  ["src/writer.rs", "src/compress.rs"],
  [("write_zero_error and the retry loop", "src/compress.rs, src/writer.rs compress_until_done")],
  ["number of calls the scripted writer receives, results of the operations"])

p("C13", "Dropping an encoder completes its stream exactly as finishing would",
  "Dropping an encoder without finishing it leaves exactly the bytes in the writer that finish would have left; after finish or a panic nothing more is written, and no byte is written twice. Dropping over a failing or full writer neither panics nor hangs nor writes anything but the remaining true output, and every operation that takes or returns a writer gives back the right one and drops it exactly once.",
  ["histories", "fault_sequences", "inputs"],
  "every history before the drop, every format and option, healthy and failing writers, normal scope exit and unwinding",
  "One test drops an encoder, over a Vec.",
  ["src/writer.rs"],
  [("Drop for the three encoders", "src/writer.rs"), ("finish takes the writer out", "src/writer.rs")],
  ["content and drop count of the writer after the encoder is gone"],
  [("deflate_state.inner", "None once the writer was handed back", "src/deflate_state.rs")])

p("C14", "Memory held by an encoder is bounded however much data passes through",
  "An encoder holds at most a fixed amount of memory (below 1.5 MiB) no matter how much data has passed through it, in what pieces, with how many flushes and resets, and even while its writer is stuck or failing; one-shot functions hold no more than that besides the result. Everything is released when the encoder is gone.",
  ["histories", "inputs", "fault_sequences"],
  "every stream length, piece size, flush and reset rate, and writer behaviour",
  "Memory is not looked at by any test, and growth needs many megabytes or a stuck writer.",
  ["src/deflate_state.rs", "src/compress.rs", "src/input_buffer.rs", "src/output_writer.rs", "src/huffman_lengths.rs"],
  [("fixed-size buffers, output drained before more is made", "src/compress.rs compress_data_dynamic_n"), ("LengthBuffers reused", "src/deflate_state.rs")],
  ["bytes allocated by the thread, counted in the allocator"],
  [("output buffer, LZ value buffer, length buffers", "the only things that could grow", "src/deflate_state.rs, src/output_writer.rs")])

p("C15", "Incompressible data grows by no more than a small fixed fraction",
  "For every input of n bytes and every option, the deflate data is at most n + 10 + 5 for each full 31744 bytes, plus 12 for each flush; the container adds exactly its header and trailer (6 bytes for zlib, 18 for gzip without header fields). In particular no combination of options and data makes matching or coding inflate the output beyond what storing would cost.",
  ["inputs", "configurations", "histories"],
  "every input (random, nearly random, adversarial matches), option and history",
  "The tests never look at sizes of incompressible data; the choice to store depends on an exact bit count over many terms.",
  ["src/huffman_lengths.rs", "src/compress.rs", "src/stored_block.rs"],
  [("gen_huffman_lengths chooses stored blocks", "src/huffman_lengths.rs"), ("write_stored_block", "src/compress.rs")],
  ["length of the output"])

p("C16", "Each block uses the encoding that is smallest for it",
  "No block is emitted as dynamic if the same symbols would take fewer bits with the fixed codes, as compressed if storing its bytes would take fewer bits, as fixed if a dynamic block would be more than a byte smaller, or as stored if coding its bytes as plain literals would be clearly smaller (without match search: more than a byte).",
  ["inputs", "configurations", "histories"],
  "every block of every output: every input, option, and history",
  "The tests check decodability and, at a few places, a total size; a wrong term in the cost estimate only shows on data near a border.",
  ["src/huffman_lengths.rs"],
  [("gen_huffman_lengths, calculate_block_length, stored_length, stored_padding", "src/huffman_lengths.rs")],
  ["the blocks of the decoded output: type, bits, symbol counts"])

p("C17", "Huffman codes of dynamic blocks are optimal and their tables compact",
  "In every dynamic block the literal/length, distance and code-length codes assign a code to every symbol used and to no other (beyond the one or two needed for validity), and spend exactly the minimum number of bits possible for the block's symbol counts; if the format's length limit (15 bits, or 7) forces longer codes to be cut, they come close to the minimum under that limit. No table lists unused symbols at its end, and no run of equal lengths takes more codes than taking the longest repeat each time would.",
  ["inputs", "configurations"],
  "every distribution of symbol counts that data can produce, including very skewed ones that exceed the length limits",
  "The unit tests try four fixed frequency tables; validity alone does not show a suboptimal code.",
  ["src/length_encode.rs", "src/huffman_lengths.rs", "src/output_writer.rs"],
  [("in_place_lengths (step_1, step_2, enforce_max_code_lengths)", "src/length_encode.rs"), ("encode_lengths_m", "src/length_encode.rs"), ("symbol frequencies", "src/output_writer.rs")],
  ["codes and symbol counts of the decoded blocks"])

p("C18", "Huffman-only mode emits no matches, run-length mode only distance-one ones",
  "With match searching disabled the output contains no match at all. In run-length mode every match has distance one, and every run of at least four equal bytes in compressed blocks is coded as matches except for a few literals at its ends, at flushes and at buffer ends.",
  ["inputs", "configurations", "histories"],
  "every input and history with these two modes, with any value of the other options",
  "The tests only check that such output decodes.",
  ["src/rle.rs", "src/lz77.rs", "src/compression_options.rs"],
  [("process_chunk_greedy_rle", "src/rle.rs"), ("process_chunk dispatch on max_hash_checks", "src/lz77.rs"), ("CompressionOptions::huffman_only, rle", "src/compression_options.rs")],
  ["symbols of the decoded output"])

p("C19", "Options mean what they say: presets, limits and equivalent settings",
  "Presets and default-taking functions produce exactly the output of the options they are documented to stand for, and settings documented as equivalent or without effect produce identical output: more than 32768 hash checks, lazy limits above 258, the lazy limit in greedy mode or without hash checks, special modes other than normal, a lazy limit of zero and greedy (up to small size differences when there are several blocks). Raw data inside zlib and gzip output is the same as the raw function's, and more effort does not make typical compressible data larger.",
  ["configurations", "inputs"],
  "every input and all values of the option fields, including the extremes of their types",
  "The tests use the presets only, each by itself.",
  ["src/compression_options.rs", "src/deflate_state.rs", "src/lz77.rs", "src/matching.rs", "src/lib.rs"],
  [("From<Compression> for CompressionOptions, presets", "src/compression_options.rs"), ("DeflateState::new passes the options on", "src/deflate_state.rs"), ("LZ77State::new", "src/lz77.rs")],
  ["outputs compared between pairs of settings"])

p("C20", "Repeated data is found within the whole 32 KiB window and matched in full",
  "With a match-search limit of at least four, a copy of at least 24 bytes of unique earlier data up to 32768 bytes back is coded as matches except for a few literals at its start, at block and flush boundaries and every 258 bytes, wherever it lies relative to internal buffers and writes. With a limit of 1024 or more, a copy of 4 to 258 bytes (or 3 bytes, up to 8000 back) where nothing else matches is coded as a match entirely, everywhere but next to a flush. Matches are extended as far as the data agrees (except at a few buffer ends), and on structured data the default and higher levels stay within a few percent of an exhaustive greedy search.",
  ["inputs", "configurations", "histories"],
  "every position, distance and length of a repetition, every division into writes, every match-search option from four checks up",
  "The tests look for single matches in tiny buffers; losing matches never breaks decoding, so every other test passes.",
  ["src/lz77.rs", "src/matching.rs", "src/chained_hash_table.rs", "src/input_buffer.rs"],
  [("longest_match, get_match_length", "src/matching.rs"), ("ChainedHashTable::slide, add_hash_value", "src/chained_hash_table.rs"), ("process_chunk_lazy, process_chunk_greedy", "src/lz77.rs")],
  ["matches of the decoded output"])

p("C21", "No input, option, history or writer makes the library panic or overflow",
  "No call panics, overflows an integer, violates an internal assertion or crashes the process, in a build with all assertions and overflow checks enabled: for any data, any option values, any order of operations (also after errors), any split, and any behaviour the Write contract allows the wrapped writer.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "all of the workloads of the other properties, and wild histories over erratic writers",
  "The tests run valid histories on a healthy writer; assertions on positions and lengths depend on exact boundaries.",
  ["src/lib.rs", "src/writer.rs", "src/compress.rs", "src/lz77.rs", "src/matching.rs", "src/huffman_lengths.rs", "src/length_encode.rs", "src/bitstream.rs"],
  [("assertions, expects, checked indexing throughout", "src/*.rs")],
  ["panics caught at the API boundary, process death"])

p("C22", "Output depends only on data, options and calls, not on threads or builds",
  "The same history of calls yields byte-identical output every time: repeated in one process, interleaved with other encoders, run on or moved between threads, in an optimised build, a build with debug assertions, and with or without the gzip feature. Encoders share no state.",
  ["histories", "schedules", "configurations"],
  "every history; interleavings of several encoders in one thread, concurrent encoders, encoders moved between threads; build variants",
  "Each test encodes once, in one build.",
  ["src/lib.rs", "src/deflate_state.rs", "Cargo.toml"],
  [("all state is owned by the encoder", "src/deflate_state.rs"), ("no statics that are written, no unsafe", "src/lib.rs (forbid(unsafe_code))")],
  ["outputs compared between runs, threads and builds"])

p("C23", "Output is the same on 32-bit and big-endian platforms, without UB",
  "On a 32-bit little-endian and a 64-bit big-endian platform every history yields the same bytes as on the 64-bit little-endian one, including container fields, and no undefined behaviour occurs in the crate or what it depends on.",
  ["configurations", "inputs", "histories"],
  "small histories of all kinds on i686 and s390x",
  "The tests run on the host only.",
  ["src/writer.rs", "src/zlib.rs", "src/bitstream.rs", "src/stored_block.rs", "src/chained_hash_table.rs", "src/checksum.rs"],
  [("explicit byte order in headers, trailers and bit buffer", "src/bitstream.rs, src/writer.rs, src/stored_block.rs")],
  ["digests of outputs printed by the interpreted program"])

p("C24", "Work per byte is bounded by the match-search limit, on any data",
  "The processor time spent per input byte is bounded by a constant plus a constant times the match-search limit, for any content (including content built to make match searching slow), any division into writes, and does not grow with the amount of data already processed. Delivering output to a slow writer costs the same for each call to it, however much output waits.",
  ["inputs", "configurations", "histories"],
  "hostile inputs (long runs, short periods, near matches, colliding prefixes), all matching options, pieces of all sizes, flushes",
  "No test looks at cost.",
  ["src/matching.rs", "src/lz77.rs", "src/rle.rs", "src/chained_hash_table.rs", "src/compress.rs"],
  [("max_hash_checks bounds the walk along a chain", "src/matching.rs longest_match"), ("slide moves one window at a time", "src/chained_hash_table.rs, src/input_buffer.rs")],
  ["CPU time of the thread around the calls"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
