#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
L, R, S, F = "src/lib.rs", "src/readers.rs", "src/signatures.rs", "src/formats.rs"
OB = ["FileFormat::from_bytes", "FileFormat::from_reader", "FileFormat::from_file"]
FIX = "The tests run one or two intact sample files per format (fixtures/), always through from_file; "
p("C01", "Detection is total and identical with and without overflow checks",
  "For every byte sequence, well-formed or hostile, detection ends with one format: it never panics, overflows an integer, aborts or loops without end. The format is the same whether or not the build checks for integer overflow.",
  ["inputs", "configurations"], "all byte sequences; builds with overflow checks on and off",
  FIX + "none is truncated, corrupted or hostile, and they run in one build profile.",
  [L, R], [("bounded loops, saturating offsets, fallible reads", "every reader in src/readers.rs"), ("fallback on error", "FileFormat::from_reader")], OB)
p("C02", "The answer depends on the content only, not on how it is delivered",
  "The same content gives the same format whether it comes as a byte slice, as a file path, or through any seekable reader, by value or by mutable reference, buffered or not. It does not matter in how many pieces, of which sizes, the reader delivers its bytes, nor which reads are interrupted and must be retried.",
  ["inputs", "schedules"], "all contents, all sequences of read sizes and interruptions of a correct reader that starts at the beginning of the content",
  "The tests only use from_file on regular files, which deliver everything at once.",
  [L, R], [("buffer filling that retries short and interrupted reads", "ReadData in src/readers.rs"), ("seeking from the start before re-reading", "every reader")], OB)
p("C03", "I/O errors are reported or absorbed, never turned into a wrong format",
  "An error while reading the leading bytes (the first 36,870 or up to the end) is returned to the caller with its kind. An error at any later operation never surfaces and never makes detection panic or name a format other than the error-free answer, plain text where the content is plain text, or arbitrary binary data. A path that cannot be opened gives the error of opening it.",
  ["inputs", "fault_sequences"], "all contents, every operation of the reader at which an error of any kind happens, once or from there on",
  "No test has a failing reader or an unreadable path.",
  [L, R], [("? on the head read, unwrap_or_else on the format reader, unwrap_or_default on the generic reader", "FileFormat::from_reader, from_generic_reader")], OB)
p("C04", "Memory, reads and bytes are bounded whatever sizes the content declares",
  "Detection uses a bounded amount of heap memory (below 2 MiB), a bounded number of I/O operations and reads a bounded number of bytes (below 256 MiB), however long the content is and whatever sizes, counts and offsets it declares. Contents that never end a structure (endless tags, boxes, lines or entries) are given up after a fixed amount of work.",
  ["inputs"], "all contents, including streams of terabytes and declared sizes up to the maximum of their fields",
  FIX + "they are small, truthful about their sizes and nobody measures memory or reads.",
  [R], [("LIMIT constants of the readers", R)], OB)
p("C05", "Every call is independent of other calls, threads and nested calls",
  "The answer for a content is the same on a fresh process and after any history of other detections, while other threads detect at any interleaving, and when a reader itself runs detections in its callbacks. A file rewritten in place, a buffer reused for other content and a different content of equal length or beginning get the answer for their present content.",
  ["histories", "schedules"], "all sequences of detections and all interleavings of concurrent and nested detections",
  "Every test calls detection once on its own file; nothing overlaps or repeats on purpose.",
  [L, R, S], [("no state outside of the call", "whole crate")], OB)
p("C06", "Every signature is recognised exactly",
  "A content is given the format of a signature exactly if it holds all the bytes of that signature at their offsets: any one byte different or missing and the signature no longer applies. Bytes between, before or after the parts of a signature, the total length once the signature is complete, and bytes beyond the first 36,870 do not matter for signature recognition.",
  ["inputs"], "all formats, all alternatives of their signatures, all values of all other bytes, all lengths",
  "The tests have one sample per format: most alternatives of the 726 are never tried and no near miss is.",
  [S, "src/macros.rs", L], [("signature table", S), ("matcher", "signatures! in src/macros.rs"), ("head buffer", "FileFormat::from_reader")], OB)
p("C07", "The most specific signature wins",
  "When the leading bytes satisfy the signatures of several formats, the format with the longest signature is given (formats of equal size in alphabetical order). In particular a format whose signature extends the signature of another is never hidden by it.",
  ["inputs"], "all pairs of formats whose signatures can hold at once, all contents that satisfy both",
  "Samples satisfy several signatures only by accident.",
  [S, "src/macros.rs"], [("order of the table", S)], ["FileFormat::from_bytes"])
p("C08", "Empty, unrecognised and unreadable contents have defined answers",
  "The Empty format is given exactly for contents of zero bytes. A content with no known signature, and a content whose signature announces a structure that cannot be followed, is given plain text if the text feature is enabled and the content is text, and otherwise the default format, arbitrary binary data.",
  ["inputs"], "all contents of length zero and up, all unrecognised contents, all broken structures of the refined formats",
  "The tests contain one empty file, one binary file and one text file.",
  [L, R], [("nread == 0", "FileFormat::from_reader"), ("from_generic_reader", R)], OB)
p("C09", "Reader features refine only their own formats and compose",
  "With any set of reader features enabled, the answer for a content whose signature belongs to an enabled feature is the refined one, and for every other content it is the answer without features; text detection applies to unrecognised contents only. No feature changes the answer for formats outside of its documented list, and the combined feature equals all of them together.",
  ["configurations", "inputs"], "all sets of reader features, all contents",
  "The suite builds with no feature and with all features only, never with one or with a combination.",
  [R, L, "Cargo.toml"], [("cfg(feature) on the reader dispatch", "from_fmt_reader, from_generic_reader")], OB)
p("C10", "ASF files are classified by their streams",
  "A file with the ASF signature is video if any stream among its header objects is video, else audio if any is audio, else plain ASF, wherever the streams are among the objects, and DVR-MS if a content descriptor named as DVR file version comes among them. Only objects within the declared count, at offsets given by the declared sizes, are considered (at most 256 objects, 32 descriptors each).",
  ["inputs"], "all sequences of header objects, identifiers, sizes, counts and descriptors",
  "One sample each of ASF, WMA, WMV and DVR-MS.", [R], [("ASF reader", "from_asf_reader")], OB)
p("C11", "Compound files are classified by their root class identifier",
  "A file with the compound file signature is given the format of the class identifier of its root directory entry, which is located by the sector size of its version and its first directory sector, and only an exact identifier counts. Files without a known identifier are told apart by the names of their next directory entries (Works documents and spreadsheets), else they are plain compound files.",
  ["inputs"], "all versions, directory locations, class identifiers and entry names",
  "One sample per format, while 46 identifiers, two sector sizes and every location exist.", [R], [("CFB reader", "from_cfb_reader")], OB)
p("C12", "EBML files are classified by document type and tracks",
  "A file with the EBML signature is WebM if its document type says so; Matroska files are 3D video if a stereo mode is set, else video, audio or subtitles, in this order of precedence, by the codecs of their tracks, and other files are plain EBML. The element order, the widths of identifiers and sizes, and unknown elements do not matter; elements after the first cluster or beyond the first 256 are not considered.",
  ["inputs"], "all element sequences, identifier and size widths, document types, codecs and stereo modes",
  "One sample each of five formats.", [R], [("EBML reader", "from_ebml_reader")], OB)
p("C13", "DOS executables are classified by their extended header",
  "A file with the DOS executable signature is a linear, new or portable executable, or a dynamic link library, exactly if the extended header its address field points to carries the respective signature and, for the library, the respective characteristic bit; in all other cases, including addresses outside of the file and files without that field, it is a DOS executable.",
  ["inputs"], "all addresses, extended signatures, characteristics and file lengths",
  "One sample each of five formats.", [R], [("EXE reader", "from_exe_reader")], OB)
p("C14", "Audio behind ID3v2 tags is found behind any chain of tags",
  "A file that starts with ID3v2 tags is FLAC or MP3 exactly if the bytes right after the last of its consecutive tags (up to 256) carry the respective signature, for every version, flag combination, tag size and footer. In all other cases, including a tag at the end of the file, it is plain ID3v2.",
  ["inputs"], "all chains of tags with any versions, flags and sizes, and all following bytes",
  "Two samples with one tag each.", [R], [("ID3v2 reader", "from_id3v2_reader")], OB)
p("C15", "MP4 files are classified by the handlers of their tracks",
  "A file with an MP4 signature is video, audio or subtitles, in this order of precedence, by the handlers of its tracks, wherever they are among its boxes; without any it is plain MP4. Boxes are followed by their declared 32-bit or 64-bit sizes, contents of other boxes are not searched, and at most 256 boxes are considered.",
  ["inputs"], "all box sequences, nestings, sizes in both encodings and handler types",
  "One sample each of four formats.", [R], [("MP4 reader", "from_mp4_reader")], OB)
p("C16", "Illustrator files are told from PDF files by their marker anywhere",
  "A file with the PDF signature is an Illustrator file exactly if the private data marker of Illustrator occurs completely within the 32 MiB after the signature, at whatever offset and whatever surrounds it. Otherwise it is a PDF file.",
  ["inputs"], "all offsets of the marker, all surrounding bytes including partial markers",
  "One sample of each format, with the marker at one offset.", [R], [("PDF reader, FindBytes", "from_pdf_reader, FindBytes::find")], OB)
p("C17", "RealMedia files are classified by their stream media types",
  "A file with the RealMedia signature is video if the media type of any of its streams is video, else audio if any is audio, else plain RealMedia, wherever the media properties are among its chunks and whatever the lengths of names and media types. Only chunks within the declared count (at most 64) at offsets given by the declared sizes are considered.",
  ["inputs"], "all chunk sequences, counts, sizes, name lengths and media types",
  "One sample each of three formats.", [R], [("RM reader", "from_rm_reader")], OB)
p("C18", "Sketch files are told from SQLite databases by their marker",
  "A file with the SQLite 3 signature is a Sketch file exactly if the Sketch marker occurs completely within the 32 KiB after the 100-byte header, at whatever offset and whatever surrounds it. Otherwise it is a SQLite 3 database.",
  ["inputs"], "all offsets of the marker, all surrounding bytes including partial markers",
  "One sample of each format.", [R], [("SQLite 3 reader, FindBytes", "from_sqlite3_reader, FindBytes::find")], OB)
p("C19", "Plain text is UTF-8 text without control characters",
  "A content without known signature is plain text exactly if the first 16 lines of its first 64 KiB are valid UTF-8 without control characters other than white space, whatever the characters, line lengths and line endings. A character that is cut only by the 64 KiB limit does not count as invalid, and nothing beyond these limits is considered.",
  ["inputs"], "all Unicode characters, all byte sequences, all positions of invalid bytes relative to lines, buffers and limits",
  "One text sample.", [R], [("TXT reader", "from_txt_reader")], OB)
p("C20", "XML-based formats are told apart by their markers",
  "A file with the XML signature is given the XML-based format whose marker occurs completely within the 8 KiB after the signature, at whatever offset and whatever surrounds it, and plain XML if there is none; a format with two markers needs both, in any order. If markers of several formats occur, a fixed order of precedence decides, not their positions.",
  ["inputs"], "all markers, all offsets, all pairs of markers in both orders, all surrounding bytes",
  "One sample per format.", [R], [("XML reader, FindBytes", "from_xml_reader, FindBytes::find")], OB)
p("C21", "ZIP-based formats are told apart by their entries",
  "A file with the ZIP signature is given the format of the first entry in its central directory with a name characteristic for a format, or of the stored media type entry, exact up to surrounding white space; else it is a Java archive if it has a manifest, else plain ZIP. The directory is found through the last end record within the last 64 KiB (plus record) of the file, in classic and ZIP64 form, whatever comments, extra fields and other entries the archive has (up to 1024 entries).",
  ["inputs"], "all entry sequences and names, media types, comments, extra fields, directory offsets, ZIP64 values",
  "One sample per format.", [R], [("ZIP reader, FindBytes", "from_zip_reader, FindBytes::rfind")], OB)
p("C22", "Every format has consistent and distinct metadata",
  "Every format has a non-empty name that is unique and is also how it is displayed, a non-empty file extension without leading dot, a syntactically valid media type and a kind, and the default format is arbitrary binary data. The documented name, short name, extension, media type and kind of each format are the same in every build of the crate.",
  ["configurations", "inputs"], "all 447 formats, all builds",
  "The tests check the metadata of no format, only which format a sample has.",
  [F, "src/macros.rs", "README.md"], [("format table", F), ("formats!", "src/macros.rs")], ["FileFormat::name", "FileFormat::short_name", "FileFormat::media_type", "FileFormat::extension", "FileFormat::kind", "Display"])
p("C23", "Deciding structures are found at any offset, beyond 2 and 4 GiB too",
  "The structure that decides the format of a refined file (stream object, directory, track, handler, media properties, extended header, tag end, central directory) is found at every offset its format can express, including offsets beyond 2 GiB and 4 GiB, by small skips or large ones. The size of what lies between makes no difference to the answer.",
  ["inputs"], "all offsets up to the maximum that the fields of each format can express",
  "All samples are small.", [R], [("64-bit offset arithmetic", "all readers")], ["FileFormat::from_reader", "FileFormat::from_file"])
p("C24", "The lefi program prints one correct line per argument",
  "For every list of arguments the example program lefi prints one line per argument in order: the argument, a colon, padding so that all results start in the same column, and a symbolic link, a directory, or the name and short name of the format of the file. It stops with an error at the first path that cannot be read, after the lines of the arguments before it.",
  ["inputs", "histories"], "all argument lists over regular files, links, directories and unreadable paths",
  "No test runs the program.", ["examples/lefi.rs"], [("main", "examples/lefi.rs")], ["stdout and exit status of lefi"])
p("C25", "A truncated file is never taken for an unrelated format",
  "If a file of a refined format is cut at any point after its signature, the answer for what remains is the base format, one of its documented sub-formats, plain text where the rest is text, or arbitrary binary data, never a format of another family. The answer is the one the remaining complete structures call for.",
  ["inputs", "crash_points"], "all files of the refined formats, all cut points",
  FIX + "none is cut.", [R, L], [("errors of the readers lead to the generic reader", "FileFormat::from_reader")], OB)
with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
