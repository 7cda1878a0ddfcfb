#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long lines stay reviewable)."""
import json, os
B = "src/box/*.cpp"
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

p("P01", "Every box survives an encode/decode round trip",
  "For every supported box type, version and flag combination, encoding a box whose field values fit their format widths and decoding those bytes, with a fresh object of that kind or with the object the type registry supplies, yields a box that renders to the same text and re-encodes to exactly the same bytes. Decoding consumes exactly the bytes that encoding produced, and decoding into an object that already held other contents gives the same result as decoding into a fresh one.",
  ["inputs", "configurations"],
  "all ~75 box kinds x versions x flag/optional-field combinations x any field values, entry counts and string/byte-array lengths",
  "The existing box test holds one or two hand-picked samples per box with tiny values, one or two entries and short strings; width, sign, count and optional-field boundaries are never reached.",
  [B, "src/box.cpp", "src/bitio/bitio.cpp", "src/box_types.cpp"],
  [("per-box writeData/readData pair", B), ("bit-level integer and string codecs", "include/shiguredo/mp4/bitio/bitio.hpp")],
  ["writeData", "readData", "toStringOnlyData", "BoxMap::getBoxInstance"])

p("P02", "Declared box sizes equal the bytes actually produced and consumed",
  "For every box, the payload size it declares, the number of bits its encoder and decoder report, and the number of payload bytes really written or read are all the same, for boxes built from parameters and for boxes obtained by decoding alike. A box that is placed at an offset and written occupies exactly the total size it reports, header included.",
  ["inputs", "configurations"],
  "all box kinds, versions, flags, optional fields, entry counts, string and byte-array lengths",
  "A size formula that is wrong only for some version, flag or count silently corrupts every following offset; the tests compare sizes on one sample per box.",
  [B, "src/box.cpp", "src/box_header.cpp"],
  [("getDataSize override per box", B), ("Box::getSize / setOffsetAndDataSize", "src/box.cpp")],
  ["getDataSize", "writeData return value", "readData return value", "bytes in the stream"])

p("P03", "Encoded payloads follow the standard byte layout",
  "The bytes produced for any box are exactly those that the ISO base media file format, QuickTime and codec-mapping layouts prescribe for its field values: big-endian integers and fixed-point numbers at the right positions and widths, the version-dependent and flag-dependent fields present exactly when required, reserved bits at their prescribed values, correct entry counts, and string terminators or length prefixes. This holds for every field value, not only values that happen to be symmetric or small.",
  ["inputs", "configurations"],
  "all box kinds x versions x flags x any field values and entry counts, compared with an independent encoder",
  "A swap or truncation that encoder and decoder share round-trips perfectly; only an independent layout over many asymmetric values exposes it, and the tests hold one byte string per box.",
  [B, "include/shiguredo/mp4/bitio/bitio.hpp", "src/bitio/writer.cpp"],
  [("writeData of each box", B), ("write_int/write_uint/write_string/write_uvarint", "include/shiguredo/mp4/bitio/bitio.hpp")],
  ["bytes emitted by writeData"])

p("P04", "Decoding foreign bytes reports exactly the field values they hold",
  "Payload bytes laid out according to the format by any other producer, including legal variants this library would not itself emit, decode successfully, and the rendered description of the decoded box states every field's value exactly, shows optional fields exactly when they are present, and lists every entry in order. Fixed-point numbers, signed values, language codes, timestamps and enumerated names are rendered from the full field width.",
  ["inputs", "configurations"],
  "all box kinds x versions x flags x any field values, with bytes and expected text both made by an independent reference model",
  "One sample per box cannot show sign extension, wide values, long lists, optional-field or legal-variant errors in the decoder or in the rendering.",
  [B, "src/time/time.cpp", "include/shiguredo/mp4/bitio/bitio.hpp"],
  [("readData and toStringOnlyData of each box", B)],
  ["toStringOnlyData after readData"])

p("P05", "Box headers encode, decode and locate box extents correctly",
  "A box header written at any offset and read back yields the same type, total size, header length, payload size and offset, choosing the 32-bit form, the 64-bit form or the extends-to-end-of-file form as the size and settings require, and it writes nothing outside its own 8 or 16 bytes. Reading a header when fewer bytes remain than the header needs is refused with an error, and seeking to the payload or to the end lands exactly on those positions.",
  ["inputs", "configurations"],
  "any offset, any 64-bit size including the 2^32 boundary, any type code, large/small/to-end forms, any number of remaining bytes",
  "The tests use five read cases and four write cases, none at the 32-bit boundary.",
  ["src/box_header.cpp", "src/endian/endian.cpp"],
  [("BoxHeader::write, read_box_header, setOffsetAndDataSize", "src/box_header.cpp"), ("32/64-bit big-endian conversion", "src/endian/endian.cpp")],
  ["bytes in the stream", "BoxHeader getters", "stream position"])

p("P06", "Box trees are laid out contiguously and written exactly as laid out",
  "After layout at any offset, every box in a tree of any shape starts right after its parent's header and payload or right after its preceding sibling, and its size is the sum of its header, payload and descendants, with 64-bit headers used exactly where a box would otherwise exceed 32 bits. Writing the tree yields bytes that an independent walker parses back into the same tree with the same types, offsets, sizes and payloads, and the rendered tree shows exactly those offsets, sizes and nesting; laying out again after changes or at another offset is equally exact.",
  ["inputs", "histories"],
  "any tree shape and depth, any payload sizes including ones that cross the 32-bit boundary, any starting offset, repeated layout and mutation",
  "The only test lays out one two-box tree at one offset.",
  ["src/box_info.cpp", "src/box.cpp", "src/box_header.cpp"],
  [("BoxInfo::adjustOffsetAndSize, write, toString", "src/box_info.cpp")],
  ["adjustOffsetAndSize return value", "written bytes", "toString"])

p("P07", "Bit-level reading and writing is exact for every width and sequence",
  "Any sequence of unsigned, signed, boolean, string, length-prefixed string, variable-length integer and raw bit fields of any widths, written in order, is packed most-significant-bit first with no bit lost, added or moved, and reading the same sequence returns the same values, sign-extended to the full type. Byte-oriented reads, writes and relative seeks in the middle of a byte, zero-width integers, over-long length-prefixed strings and reads past the end are refused with an error instead of returning made-up data.",
  ["inputs", "histories"],
  "any sequence of field kinds, widths 1..64 and values, any interleaving of bit reads, byte reads and seeks",
  "Tests cover a handful of fixed bit patterns; combinations of misalignment, width and sign are unbounded.",
  ["src/bitio/bitio.cpp", "src/bitio/reader.cpp", "src/bitio/writer.cpp", "include/shiguredo/mp4/bitio/bitio.hpp"],
  [("bit cursor of reader and writer", "src/bitio/reader.cpp, src/bitio/writer.cpp"), ("typed codecs", "include/shiguredo/mp4/bitio/bitio.hpp")],
  ["bytes in the stream", "values read", "exceptions"])

p("P08", "Any input file is either dumped or cleanly rejected",
  "Reading any byte sequence as an MP4 file, including corrupted, adversarial or deeply nested ones, either completes or fails with an exception, and does so without memory errors, undefined behaviour, stack exhaustion or leaked memory. Time and memory used stay proportional to the size of the input and never depend on sizes or counts that the input merely claims.",
  ["inputs"],
  "all byte sequences; structured mutations of valid files, hostile counts and sizes, deep nesting, random bytes",
  "No existing test feeds malformed input to the file reader at all.",
  ["src/reader/reader.cpp", "src/box_header.cpp", B, "src/bitio/reader.cpp"],
  [("SimpleReader::readBox recursion and bounds check", "src/reader/reader.cpp"), ("count-driven loops in readData", B)],
  ["SimpleReader::read outcome", "sanitizer reports", "allocated bytes", "CPU time"])

p("P09", "A file dump lists every box with its true place, size and contents",
  "For every well-formed file, built from supported boxes, containers, sample descriptions, metadata items, fragments and unknown box types nested in any legal way, the dump shows every box exactly once, in file order, indented by its depth, with its type, absolute offset, total size and decoded contents. This holds for 32-bit, 64-bit and extends-to-end box sizes, and the contents of unknown box types are passed over without disturbing what follows them.",
  ["inputs", "configurations"],
  "any well-formed tree of boxes in any order, with any header forms and unknown types",
  "The file reader has no unit test.",
  ["src/reader/reader.cpp", "src/box_info.cpp", "src/box_map.cpp", "src/box_types.cpp"],
  [("SimpleReader::read/readBox", "src/reader/reader.cpp"), ("BoxInfo::toString", "src/box_info.cpp")],
  ["standard output of the dump"])

p("P10", "Truncated files and payloads are rejected, not misreported",
  "A well-formed file cut anywhere other than at a boundary between top-level boxes is rejected with an error and nothing is dumped, and one cut at such a boundary dumps exactly the boxes that remain. A box payload that ends before its declared fields and entries do is rejected with an error rather than decoded into made-up values, and so is a box whose size ends inside one of its children.",
  ["inputs", "crash_points"],
  "every truncation point of any well-formed file and of any fixed-layout or counted payload",
  "No existing test truncates a file or a payload.",
  ["src/reader/reader.cpp", "src/box_header.cpp", "src/bitio/reader.cpp", B],
  [("remaining-size check", "src/reader/reader.cpp"), ("end-of-stream check on every bit read", "src/bitio/reader.cpp")],
  ["exceptions", "standard output"])

p("P11", "The progressive writer's file gives back every sample that was added",
  "For any set of tracks, any interleaving of samples and chunk terminations, any sample sizes and non-decreasing timestamps whose gaps fit 32 bits, the finished file is a well-formed MP4 from which an independent demuxer recovers, for every track, exactly the samples added, in order, with their bytes, start times, durations and key-frame marks. Sample counts, chunk counts, chunk offsets and sizes agree across all sample tables, every chunk lies inside the media data box without overlapping another, and all boxes tile the file exactly.",
  ["inputs", "histories"],
  "any number and kind of tracks, any history of adding samples and terminating chunks, any sample contents, sizes and timing",
  "Neither the writer nor the tracks' table building is exercised end to end by any unit test.",
  ["src/writer/simple_writer.cpp", "src/writer/writer.cpp", "src/track/track.cpp", "src/track/*.cpp"],
  [("chunk and sample bookkeeping", "src/track/track.cpp"), ("free/mdat placeholder back-patching", "src/writer/simple_writer.cpp")],
  ["bytes of the finished file"])

p("P12", "The faststart writer yields the same media with the index first",
  "For any set of tracks and any history of samples and chunk terminations, the faststart writer produces a well-formed file with the movie box before the media data, from which every sample is recovered exactly as from the progressive writer's file for the same history. All chunk offsets point at the final positions, and the intermediate media file is removed once its data has been copied.",
  ["inputs", "histories"],
  "any number and kind of tracks, any history of adding samples and terminating chunks, any sample sizes, any total media size",
  "The faststart writer has no unit test; offset correction depends on the size of the movie box, which depends on all sample tables.",
  ["src/writer/faststart_writer.cpp", "src/writer/writer.cpp", "src/track/track.cpp"],
  [("offset fix-up until the movie box size is stable", "src/writer/faststart_writer.cpp"), ("copy of the intermediate file", "src/writer/faststart_writer.cpp")],
  ["bytes of the finished file", "scratch directory contents"])

p("P13", "Files and boxes beyond 4 GiB stay correct",
  "When media data, chunk offsets or box sizes pass the 32-bit limit, written files use 64-bit box sizes and 64-bit chunk offset tables exactly as needed and remain readable: box extents tile the file and every chunk offset addresses the first byte of the right chunk. Just below, at and just above each limit the same guarantees hold for both writers.",
  ["inputs", "configurations"],
  "media data sizes around and above 2^32 for both writers, chunk positions on either side of 2^32, any number of tracks",
  "No unit test writes anything near 4 GiB.",
  ["src/writer/simple_writer.cpp", "src/writer/faststart_writer.cpp", "src/track/track.cpp", "src/box_header.cpp"],
  [("large-size mdat header selection", "src/writer/simple_writer.cpp, src/writer/faststart_writer.cpp"), ("stco/co64 selection", "src/track/track.cpp")],
  ["bytes of the finished file outside sample data"])

p("P14", "Sample-table compression is lossless and minimal",
  "Expanding the compressed time-to-sample and sample-to-chunk tables gives back exactly the per-sample durations and per-chunk sample counts they were built from, and neighbouring runs always differ so the tables are as short as possible. The chunk offset table lists every chunk's offset in order, in 32-bit form when every offset fits and in 64-bit form otherwise.",
  ["inputs"],
  "any list of durations, any list of chunks with any sample counts and any 64-bit offsets in any order",
  "Tests hold four examples per table with at most three entries.",
  ["src/track/track.cpp"],
  [("make_stts_entries, make_stsc_entries, make_offset_box", "src/track/track.cpp")],
  ["returned entries", "kind and contents of the offset box"])

p("P15", "H.264 byte streams are split and stored without losing a NAL unit",
  "For any Annex-B access unit, its slice NAL units form one sample in which every one of them appears exactly once, in order, byte for byte, behind a 4-byte big-endian length, whatever mix of 3-byte and 4-byte start codes, trailing zero bytes and NAL unit sizes is used. Each distinct sequence and picture parameter set appears once, in order, in the decoder configuration with the profile, compatibility and level announced by the sequence parameter set, supplemental units are dropped, and streams that do not start with a start code or contain unsupported unit types are refused.",
  ["inputs", "histories"],
  "any sequence of NAL units with any types, sizes, contents (emulation-prevention respected) and start code lengths, over any history of frames",
  "Tests check start-code search on five tiny buffers; splitting into samples is untested.",
  ["src/track/h264.cpp", "src/box/avc.cpp"],
  [("find_next_nal_unit", "src/track/h264.cpp"), ("H264Track::addData", "src/track/h264.cpp")],
  ["media data bytes", "avcC contents", "exceptions"])

p("P16", "Track and movie descriptions reflect the parameters they were built from",
  "For every codec and any parameter values in range, the movie box of the finished file describes each track by its own id, handler, dimensions, timescale, durations in the movie and media timescales, edit start, codec sample entry and codec configuration (pre-skip, roll distance, bit rates, profile, level, bit depth, channel data), with a next track id above every id the writer handed out and the requested file-type brands and metadata items. No value is truncated, swapped between tracks or left at a default when it was supplied.",
  ["inputs", "configurations"],
  "all seven codecs, any parameter values in their format ranges, any number and order of tracks, both writers",
  "No unit test looks at the movie box a track or writer builds.",
  ["src/track/*.cpp", "src/writer/writer.cpp", "src/writer/simple_writer.cpp", "src/writer/faststart_writer.cpp"],
  [("per-codec sample entry construction", "src/track/*.cpp"), ("mvhd/tkhd/mdhd/elst construction", "src/track/track.cpp, src/writer/*.cpp")],
  ["decoded moov of the finished file"])

p("P17", "The box type registry is complete and unknown types stay opaque",
  "Every registered type code yields a new object of the matching kind that keeps that type code, reports as supported with its supported versions, and is independent of every other object obtained (in a registry of one's own, registering a code again replaces its earlier definition); every other type code is reported as unsupported, yields an opaque placeholder instead of an error, and a file or header carrying it keeps its real type. Type codes compare, match the wildcard and render consistently for all 2^32 values, with unprintable codes rendered in hexadecimal and the copyright-sign codes rendered readably.",
  ["inputs", "configurations"],
  "all registered type codes and random or near-miss unregistered 4-byte codes, all 256 versions",
  "Tests look up only the types of their samples and render six codes.",
  ["src/box_map.cpp", "src/box_types.cpp", "src/box_type.cpp", "src/box/unsupported.cpp"],
  [("BoxMap lookup", "src/box_map.cpp"), ("register_box_map", "src/box_types.cpp"), ("BoxType", "src/box_type.cpp")],
  ["object type and rendering", "isSupported, getSupportedVersions, isSupportedVersion"])

p("P18", "Version and flag operations on boxes obey set semantics",
  "On every versioned box, over any history of operations, setting a version or 24-bit flags value is read back unchanged, adding flags leaves exactly the union set, removing flags leaves exactly the difference (removing flags that are not set changes nothing), and checking flags is true exactly when some requested flag is set. The resulting version and flags are what is encoded, decoded and rendered, and unversioned boxes ignore such operations. (A metadata box has version and flags zero in a file; anything else there is how QuickTime's form of the box is told apart.)",
  ["inputs", "histories"],
  "any sequence of set/add/remove/check operations with any 24-bit masks on any box kind",
  "No unit test calls the flag-changing operations.",
  ["src/box.cpp", "include/shiguredo/mp4/box.hpp"],
  [("FullBox version/flag accessors", "src/box.cpp")],
  ["getVersion, getFlags, checkFlag", "encoded bytes", "rendered text"])

p("P19", "Failed output is always reported to the caller",
  "If the output stream stops accepting data or rejects a seek at any point while boxes, headers, media data or a whole file are being written, the operation in progress or a later one of the same sequence fails with an exception; a call sequence that returns normally has handed every byte to the stream. The same holds for the faststart writer's intermediate file, including when it cannot be created.",
  ["fault_sequences", "inputs"],
  "an output fault at every byte position or seek of any writing history, transient or permanent",
  "No test injects an I/O failure.",
  ["src/box_header.cpp", "src/bitio/writer.cpp", "src/writer/simple_writer.cpp", "src/writer/faststart_writer.cpp"],
  [("stream state checks after writes and seeks", "src/bitio/writer.cpp, src/box_header.cpp, src/writer/*.cpp")],
  ["exceptions versus bytes accepted by the sink"])

p("P20", "Time, byte-order and fixed-point conversions are exact",
  "Converting between Unix time and the 1904-based format time is exact for every value, and a 1904-based time is rendered as the proleptic-Gregorian UTC calendar date and time of that instant for every time up to the end of the 32-bit Unix range and as the all-zero placeholder beyond it. Big-endian conversions of 32-bit and 64-bit values are exact inverses with the most significant byte first, and fixed-point fields are read back as the exact fraction they encode, sign included.",
  ["inputs"],
  "all 64-bit times, all 32-bit and 64-bit integers, all 16.16 and 8.8 fixed-point values",
  "Tests check four instants and a few integers; leap years, pre-1970 dates and carries are not covered.",
  ["src/time/time.cpp", "src/endian/endian.cpp", "include/shiguredo/mp4/time/time.hpp"],
  [("format_epoch_19040101, convert_to_epoch_19040101", "src/time/time.cpp"), ("endian helpers", "src/endian/endian.cpp")],
  ["returned values and text"])

p("P21", "The dump tool reports exactly what the file holds and fails loudly otherwise",
  "Run on any well-formed file, the command-line dump prints exactly the box tree of that file and nothing else on standard output and exits successfully, whatever the log level. Run on a file that is missing, unreadable, truncated or malformed, it exits unsuccessfully and prints no partial tree.",
  ["inputs", "configurations"],
  "any generated file, any corruption of it, any log level, missing files and directories",
  "No test runs the tool.",
  ["src/cli/mp4-tool.cpp", "src/reader/reader.cpp"],
  [("dump subcommand", "src/cli/mp4-tool.cpp")],
  ["standard output", "exit status"])

p("P22", "Values the format cannot represent are refused, never mangled",
  "Asking to build or encode something the format has no representation for is refused with an error and never produces bytes that decode to something else: type codes that are not four characters, track id zero, length-prefixed strings or URLs over 255 bytes, more parameter sets or longer parameter-set units than their count and length fields hold, extended AVC parameters on a profile without them, more codec initialization data or references than their length fields hold, track dimensions and pre-skip above 16 bits, samples of 4 GiB or more, timestamps that lie before the previous sample's or more than 32 bits after it, durations that are negative, not numbers or beyond 64 bits of ticks, language codes outside the packed range, text with its terminator inside, sample groups of unknown kinds, file-type payloads that are not whole brands, and numbers wider than their bit field or than their field in the box's version. The largest representable value next to each limit is accepted and survives unchanged. Fields that the chosen version or flags leave out, and flag bits beyond the 24 that exist, are simply not part of the box.",
  ["inputs"],
  "values on both sides of every representability limit",
  "No unit test builds anything at or over a representability limit.",
  ["src/bitio/bitio.cpp", "src/box/avc.cpp", "src/box/esds.cpp", "src/box/sgpd.cpp", "src/box/ftyp.cpp", "src/box/styp.cpp", "src/box_type.cpp", "src/track/*.cpp"],
  [("explicit limit checks", "src/bitio/bitio.cpp, src/box/avc.cpp, src/box/esds.cpp, src/track/*.cpp")],
  ["exceptions versus encoded bytes"])

p("P23", "Input that cannot be read is reported, never made up",
  "Whatever part of an input stream cannot be obtained - data that ends early or fails to arrive at any byte, once or for good, a file whose last part is gone although its size says otherwise, a seek that fails, a position that cannot be queried, a stream that has already failed, with or without stream exceptions - reading a file, a box header, a box payload or single numbers and strings from it, and seeking to a box's payload or end, ends with an error that reaches the caller, or else with exactly the result that the undisturbed stream gives. Nothing is dumped when reading ends with an error.",
  ["fault_sequences", "inputs"],
  "every byte, seek and position query of generated inputs, with each kind of failure",
  "No unit test reads from a stream that fails; the repository has no fault injection.",
  ["src/reader/reader.cpp", "src/box_header.cpp", "src/box.cpp", "src/bitio/reader.cpp", "src/stream/stream.cpp", "src/box/*.cpp"],
  [("stream state checks", "src/bitio/reader.cpp, src/stream/stream.cpp, src/box_header.cpp, src/box.cpp, src/reader/reader.cpp")],
  ["returned values, exceptions and dumps"])

p("P24", "Everything taken is released, exactly once",
  "Any history of making, filling, reading, linking, laying out, writing, abandoning and destroying boxes, box trees, registries, readers, tracks and writers - carried to its end, given up at any point, or ended by an error from bad values, bad input or a failing stream, directory or disk - releases every block of memory and every file descriptor it took, exactly once, by the time its objects are destroyed, and touches nothing released. No file is left on disk but the intermediate file of a fast-start writer, which stays until deleteIntermediateFile.",
  ["operation_sequences", "fault_sequences", "inputs"],
  "every history of generated operations with every kind of early end",
  "The unit tests run without leak detection, never abandon a writer, and hardly ever reach an error path.",
  ["src/box.cpp", "src/box_info.cpp", "src/box_map.cpp", "src/reader/reader.cpp", "src/track/*.cpp", "src/writer/*.cpp", "src/box/*.cpp"],
  [("owning raw pointers", "BoxInfo, Box::m_header, BoxMap::getBoxInstance, Writer's tree, tracks"), ("intermediate file", "src/writer/faststart_writer.cpp: mkstemp, fdopen, fclose")],
  ["allocations and releases", "open file descriptors", "files on disk"])
p("P25", "What shares no object may be used by several threads at once",
  "Threads that each use registries, readers, boxes, trees, numbers, time conversions, tracks and writers of their own never race on memory, and each gets exactly the result it would get alone, whatever the others do at the same time and whether or not it is the first use in the process. The same holds for threads that only look at one shared box or laid-out tree: that print it, ask for its sizes, type, version and flags, or encode its payload.",
  ["schedules", "operation_sequences"],
  "every combination of work on two or more threads",
  "All unit tests run on one thread.",
  ["src/box_map.cpp", "src/box_types.cpp", "src/box_type.cpp", "src/version_and_flags.cpp", "src/box/*.cpp", "src/bitio/*.cpp", "src/track/*.cpp", "src/writer/*.cpp"],
  [("shared state", "namespace-scope tables and function-local statics of the library")],
  ["data races", "returned values and written bytes"])

p("P26", "What is refused leaves no trace",
  "A request that is refused - an access unit with a NAL unit of an unsupported type, without a start code or with nothing behind one, whatever good parameter sets and slices it also holds; a sample timed before the previous one or too long after it; a sample for which the output has no position or of which it takes nothing; a track that cannot exist; a number, string or length that does not fit; a byte-wise operation in the middle of a byte; a read of no bits; a question about a type the registry does not know - ends with an error and changes nothing: everything asked for before and afterwards has exactly the result it has when the refused request is never made. In particular the finished movie is byte for byte the same: samples, times, chunks, sync samples, parameter sets, profile and track ids.",
  ["operation_sequences", "inputs", "fault_sequences"],
  "every history with refused requests at any place in it",
  "The unit tests never go on after an error.",
  ["src/track/track.cpp", "src/track/h264.cpp", "src/track/*.cpp", "src/writer/*.cpp", "src/bitio/*.cpp", "include/shiguredo/mp4/bitio/bitio.hpp", "src/box_map.cpp"],
  [("state changed only once nothing can be refused any more", "Track::addMdatData, H264Track::addData, bitio write functions")],
  ["written bytes", "returned values", "exceptions"])

p("P27", "What writing costs stays in proportion to what is written",
  "However long a recording is and however its samples are distributed over tracks, chunks, times, sizes and key frames, adding its samples and finishing its file takes time in proportion to the number of samples and bytes, and memory in proportion to the number of samples only: media data is never held in memory by either writer beyond the sample being added and a buffer of fixed size. Laying out, encoding and rendering a box takes time and memory in proportion to its payload, and a box tree time in proportion to its boxes at each level, however deeply it is nested and whatever its headers were before.",
  ["inputs", "operation_sequences"],
  "all lengths and shapes of recordings, tables and trees",
  "The unit tests write a handful of samples and never measure anything.",
  ["src/track/*.cpp", "src/writer/*.cpp", "src/box_info.cpp", "src/box_header.cpp", "src/box/*.cpp", "src/bitio/*.cpp"],
  [("per-sample and per-chunk tables", "src/track/track.cpp"), ("copying in blocks of fixed size", "src/writer/faststart_writer.cpp copyMdatData"), ("repeated layout", "src/box_info.cpp adjustOffsetAndSize, src/writer/faststart_writer.cpp appendTrakAndUdtaBoxInfo")],
  ["CPU time", "heap memory in use"])

p("P28", "The outcome depends on nothing but the input",
  "What the library produces - the bytes of boxes, trees and movies, the text of a dump or description, values decoded or converted, whether something is accepted and the error it is refused with - depends only on what it was given (and, for movies, the time of writing). It is the same whatever the log level, the global C++ and C locale, the formatting state of the output stream, the time zone, the environment, working directory, umask and standard input of the process; whatever fresh memory happens to hold; whatever else was done with other objects before, or is done between two calls or while a file is being read; and whether and how often an object was looked at (rendered, measured, asked for its type, version, flags, place or tables) on the way. Doing the same again gives the same again. Nothing but the dump appears on standard output.",
  ["inputs", "operation_sequences", "configurations"],
  "all inputs and histories in all surroundings",
  "The unit tests run once, with one locale, zone and log level, each on objects of its own.",
  ["src/box/*.cpp", "src/box.cpp", "src/box_info.cpp", "src/box_type.cpp", "src/box_map.cpp", "src/reader/reader.cpp", "src/track/*.cpp", "src/writer/*.cpp", "src/time/time.cpp", "src/bitio/*.cpp", "src/cli/*.cpp"],
  [("times in UTC", "src/time/time.cpp format_epoch_19040101"), ("members set by constructors and decoders", "include/shiguredo/mp4/box/*.hpp"), ("const queries", "Box, BoxInfo, Writer, Track")],
  ["written bytes", "descriptions and dumps", "errors", "exit status and standard output of the tool"])

p("P29", "Boxes and values can be copied and compared by what they hold",
  "Copying or assigning a box of any kind at any time - built, decoded or read, with or without a place - gives a box of its own that encodes, renders and measures exactly as the original does; whatever is done to either afterwards, including giving it another place, filling it with something else and destroying it, does not show in the other. Objects that own others (box trees, writers) cannot be copied, or are copied whole. Type codes, headers, table entries, parameter sets, NAL units and chunk offset tables compare equal exactly when everything they hold is equal, lie in one consistent order where they can be ordered, and print what they hold. A box or tree that has no place yet is usable in every other respect, and refuses with an error, touching nothing, what needs one: being written, sought in, or asked for its total size.",
  ["inputs", "operation_sequences"],
  "all boxes, values and histories of copying and changing",
  "The unit tests copy nothing that has a place and compare a few tables that are equal.",
  ["include/shiguredo/mp4/box.hpp", "src/box.cpp", "include/shiguredo/mp4/box_header.hpp", "include/shiguredo/mp4/box_type.hpp", "include/shiguredo/mp4/box/*.hpp", "include/shiguredo/mp4/box_info.hpp", "src/track/h264.cpp"],
  [("copying of the header", "src/box.cpp Box::Box(const Box&), operator="), ("comparison operators", "include/shiguredo/mp4/box_type.hpp, box_header.hpp, box/stts.hpp, box/stsc.hpp, box/stco.hpp, box/co64.hpp, box/avc.hpp, track/h264.hpp"), ("needing a header", "src/box.cpp write, seekToData, seekToEnd, getSize")],
  ["encoded bytes and descriptions of copies and originals", "comparison results", "errors", "memory errors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
