#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below (the claimed list is what
`fitsmc list` knows, given in CLAIMED)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, observe=observe or []))

p("C01", "Walking the HDUs yields each HDU exactly once, in order, at its true place",
  "Iterating a well-formed FITS file yields every HDU exactly once and in file order, each with its correct kind, number of header cards, data offset and data size, and then reports the end of the file, for ever. This does not depend on how much of the previous HDUs' data was read, skipped, re-read or seeked into, on header lengths relative to the 2880-byte block, on the size of the data units (empty or not), nor on whether the last data unit is padded.",
  ["inputs", "histories"], "all sequences of HDUs (kind, data size, header length, fill bytes, missing final padding) and all histories of accesses to their data, for several readers",
  "tests walk a few sample files completely, or skip all the data; none interleaves partial reads, seeks and heap excursions with the walk, nor sits on block boundaries",
  ["src/fits.rs", "src/hdu/mod.rs", "src/hdu/primary.rs", "src/hdu/data/mod.rs"],
  [("consume_until_next_hdu", "src/fits.rs"), ("pos_start_cur_du / skip of data and padding", "src/fits.rs"), ("header block rounding", "src/hdu/mod.rs, src/hdu/primary.rs")],
  "exhaustive enumeration of access histories on the real iterator vs. a layout model",
  "bounded: sequences of up to 3 (4) HDUs from a menu, 4-10 access actions per HDU, boundary sizes; complete within the bounds", observe=["Fits::next", "get_data_unit_byte_offset", "get_data_unit_byte_size"])

p("C02", "Every pixel of an image is delivered with its exact big-endian value, in order",
  "Reading an image yields exactly the product of its axis lengths (none when there is no axis or an axis is empty) pixels, in file order, each bit-for-bit the big-endian value stored in the data unit with the type given by BITPIX, and then ends. The announced BITPIX, axis lengths and pixel count are those of the header, and for in-memory files the raw bytes are exactly the bytes of the data unit.",
  ["inputs"], "all BITPIX, axis vectors, bit patterns, HDU positions and readers within bounds",
  "tests sum or spot-check pixels of a few files, mostly of one type",
  ["src/hdu/data/image.rs", "src/hdu/data/iter.rs", "src/hdu/header/extension/image.rs"],
  [("pixel iterator", "src/hdu/data/iter.rs"), ("number of pixels", "src/hdu/header/extension/image.rs")],
  "exhaustive enumeration of images on the real reader vs. independent decoder",
  "all axis vectors of up to 4 (5) axes of length 0..3 and some long ones, all 8/16-bit values, boundary patterns otherwise", observe=["Fits::get_data", "ImageData::pixels", "ImageData::raw_bytes"])

p("C03", "Random access to pixels agrees with the sequential order",
  "After any sequence of sequential and indexed pixel reads, reading index i returns the i-th pixel of the image for every i inside it and an error outside it, and sequential reading goes on with the pixel after the last one read. A refused index leaves the position unchanged, and the next HDU is still found afterwards.",
  ["histories", "inputs"], "all sequences of next / indexed read operations up to the depth bound, on images of every BITPIX",
  "one test reads a handful of indices in one order",
  ["src/hdu/data/iter.rs"], [("read_value / cur_idx", "src/hdu/data/iter.rs")],
  "explicit-state exploration of operation sequences, model vs. real iterator",
  "images of up to 3 (4) pixels, 5 (7) operations, 3 readers; complete", observe=["It::read_value", "Iterator::next"])

p("C04", "The result does not depend on how the reader hands out its bytes",
  "For any synchronous source that delivers the same bytes, however short each read is, wherever reads are interrupted (and retried) and whatever buffering sits in between, the headers, pixels, table values and tile-compressed pixels obtained are the same as from memory in one piece.",
  ["schedules", "inputs"], "all positions of short reads and interruptions up to a bound of deviations, all uniform chunk sizes up to a block, several buffer capacities",
  "tests read from files and memory that never return short reads",
  ["src/fits.rs", "src/hdu/header/mod.rs", "src/hdu/data/iter.rs", "src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/tile_compressed/pixels.rs"],
  [("read_exact loops", "src/hdu/**")],
  "enumeration of all read-size/interruption schedules with bounded deviations, run on the real readers",
  "every single (and pair of) deviating read positions on five files, plus every uniform chunk size", observe=["Fits::next", "Fits::get_data"])

p("C05", "The asynchronous reader agrees with the synchronous one under every schedule",
  "For every way in which an asynchronous source can split its bytes and be momentarily not ready, and however much of each HDU's data the caller consumes before asking for the next HDU, the asynchronous API yields the same HDUs, headers and pixel or table bytes as the synchronous one. Once it has reported the end it keeps reporting the end.",
  ["schedules", "histories"], "all chunkings and not-ready points up to a bound of deviations, all partial-consumption choices, for every BITPIX and kind of HDU",
  "async tests read whole local files whose source is always ready",
  ["src/async_fits.rs", "src/hdu/data/stream.rs", "src/hdu/mod.rs", "src/hdu/primary.rs"],
  [("AsyncFits stream", "src/async_fits.rs"), ("St stream / skip of unread data", "src/hdu/data/stream.rs")],
  "controlled-scheduler exploration of poll outcomes on the real streams",
  "every poll position at which the source may answer Pending or a short chunk, up to 2 (3) deviations, and uniform chunk sizes", observe=["AsyncFits", "Stream::poll_next"])

p("C06", "Truncation or I/O failure at any byte yields a correct prefix, then error or end",
  "If the source ends early or fails at any byte, what is delivered (HDUs, pixels, table values and rows, raw bytes) is a prefix of what the intact file would give, and what lies wholly before the failure is still delivered when it is read in order. The failure surfaces as an error or the end of the sequence without panic or endless loop, and no invented value is ever delivered, not even when the reader is asked again afterwards. After an error the iteration over HDUs ends.",
  ["fault_sequences", "crash_points", "inputs"], "every truncation length and every failing byte position of each sample file, synchronous and asynchronous",
  "tests cover two truncated headers",
  ["src/fits.rs", "src/async_fits.rs", "src/hdu/data/iter.rs", "src/hdu/data/stream.rs", "src/hdu/data/bintable/data.rs"],
  [("error_parsing_encountered", "src/fits.rs"), ("read errors end the iterators", "src/hdu/data/**")],
  "fault enumeration: every truncation point and every failing byte, on the real code",
  "all byte positions of the sample files; error kinds: end of file, permanent error", level="fault_enumeration", observe=["Fits", "AsyncFits", "get_data"])

p("C07", "A header card parses to the keyword, typed value and comment it denotes",
  "For every 80-byte keyword record with a FITS value (logical, integer, real with E or D exponent, quoted string, undefined) in fixed or free format, the card obtained has the record's keyword, the value with its FITS type (quotes doubled inside strings resolved, trailing blanks not significant, null and blank strings distinguished) and the comment after the first slash outside the string. Commentary, blank, hierarchical, continuation, extension and END records are recognised as such with their text, invalid bytes are replaced or rejected, and the unit in brackets that starts a comment is returned.",
  ["inputs"], "all records built from the enumerated alphabets up to the length bounds, at every alignment",
  "tests list some forty literal cards",
  ["src/card.rs"], [("split_value_and_comment", "src/card.rs"), ("parse_value / parse_number / parse_string", "src/card.rs"), ("Card::try_from", "src/card.rs")],
  "exhaustive enumeration of card texts over small alphabets vs. an independent card grammar",
  "strings over a 6-letter alphabet up to 7 (8) characters, numbers over a number alphabet up to 6, every alignment", observe=["Card::try_from", "split_value_and_comment"])

p("C08", "Long strings continued over several cards are reassembled exactly",
  "A string value ending in an ampersand and followed by CONTINUE records is the concatenation of its pieces with the continuation ampersands removed, under standard and hierarchical keywords, and its comments are joined. An ampersand that is not immediately followed by a CONTINUE record stays in the value, and a CONTINUE record without such a predecessor changes no value.",
  ["inputs", "histories"], "all sequences of value, CONTINUE, commentary and other cards up to the depth bound, with pieces from a menu covering quotes, blanks, ampersands and empty pieces",
  "tests use three hand-written headers",
  ["src/card.rs", "src/hdu/header/mod.rs"], [("process_cards", "src/hdu/header/mod.rs"), ("append_string / append_comment", "src/card.rs")],
  "explicit-state exploration of card sequences vs. a reference reassembler",
  "sequences of up to 5 (6) cards after the mandatory ones", observe=["ValueMap::get", "Card::append"])

p("C09", "The header lists all its cards in order and maps each keyword to its last value",
  "A header gives every card in file order up to and including END, exactly once, wherever END falls relative to the 2880-byte blocks. Looking a keyword up gives its value (the last one if it occurs several times, absent if it has none), iteration over keywords and values gives each keyword once, processing history gives the HISTORY texts in order, and lookup by value gives the first keyword holding it.",
  ["inputs", "histories"], "all sequences of cards of every form up to the depth bound with repeated keywords, and header lengths around block boundaries",
  "tests use a few fixed headers",
  ["src/hdu/header/mod.rs", "src/hdu/mod.rs", "src/hdu/primary.rs"], [("process_cards", "src/hdu/header/mod.rs"), ("ValueMap", "src/hdu/header/mod.rs")],
  "explicit-state exploration of card sequences vs. a reference header model",
  "sequences of up to 4 (5) cards from a menu of 15, header lengths up to 110 cards", observe=["Header::cards", "Header::history", "ValueMap"])

p("C10", "A header is accepted exactly when its mandatory keywords are present and valid",
  "An HDU whose mandatory keywords are present with legal values is accepted and described with exactly those values; one in which a mandatory keyword is missing, has the wrong type or an illegal value is refused with an error, never accepted with a guessed value. Mandatory are: SIMPLE = T, or XTENSION naming a known kind, as the first card, then BITPIX, NAXIS and every NAXISn, and for tables also PCOUNT, GCOUNT = 1, TFIELDS up to 999 and, for binary tables, column formats whose widths add up to NAXIS1. A binary table whose tile-compression keywords are incomplete or unsupported is read as an ordinary table. The synchronous and the asynchronous reader give the same verdict.",
  ["inputs"], "every mandatory keyword of every kind of HDU x a menu of faults (missing, wrong type, negative, out of range, illegal), singly and in pairs",
  "tests check a missing SIMPLE and a missing END",
  ["src/hdu/header/extension/", "src/hdu/header/mod.rs", "src/hdu/mod.rs", "src/hdu/primary.rs"], [("Xtension::parse", "src/hdu/header/extension/*.rs")],
  "exhaustive enumeration of single and paired header faults vs. a reference validity rule",
  "all single faults, all pairs in thorough; cases whose status the statement leaves open are only checked not to crash", observe=["Fits::next", "get_xtension"])

p("C11", "Every fixed-size binary table field decodes to its declared type and exact value",
  "For a binary table whose columns have any of the fixed-size types (logical, bit, byte, 16/32/64-bit integer, character, float, double, both complex types) and any repeat count, zero included, the values delivered row by row and column by column are exactly those stored, with their type, column and index. The number of columns and rows announced and the column found under a name are those of the header, and the raw bytes are those of the table.",
  ["inputs"], "all column lists of up to three columns over all types and boundary repeat counts, row counts 0..3, byte patterns",
  "tests read sample tables and compare a few values",
  ["src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/row.rs", "src/hdu/data/bintable/mod.rs", "src/hdu/header/extension/bintable.rs"],
  [("TableData iterator", "src/hdu/data/bintable/data.rs"), ("TFORM parser", "src/hdu/header/extension/bintable.rs")],
  "exhaustive enumeration of table layouts on the real iterators vs. an independent decoder",
  "all pairs (triples in thorough) of 11 types x repeat counts", observe=["TableData", "TableRowData", "BinTable"])

p("C12", "Column selection and row seeking give exactly the selected part of the table",
  "After any sequence of column selections, row seeks and partial reads, the values delivered are those of the selected columns (in table order, each once), from the row sought (or the current row) to the end, and seeking to a row that does not exist changes nothing and is refused. Unknown columns are ignored, selecting by name and by index are equivalent, and columns that are not selected are skipped without being interpreted.",
  ["histories", "inputs"], "all sequences of select / seek / read operations up to the depth bound on tables with fixed and variable-length columns",
  "tests use one selection before reading and one seek",
  ["src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/row.rs"], [("select_fields / cols_idx", "src/hdu/data/bintable/data.rs"), ("seek_to_row", "src/hdu/data/bintable/data.rs")],
  "explicit-state exploration of operation sequences, table model vs. real iterator",
  "seven tables, 19 operations, sequences of 4 (5); complete", observe=["TableData::select_fields", "TableData::seek_to_row", "Iterator::next"])

p("C13", "Variable-length arrays give exactly the heap elements their descriptors name",
  "For every variable-length column (32- or 64-bit descriptors, any element type), each row's array has the declared number of elements, read from the heap at the declared offset, whatever the order, overlap, gaps or emptiness of the arrays, wherever the heap starts, and whichever columns surround it. A descriptor pointing outside the file yields an end or error, never wrong values.",
  ["inputs"], "all descriptor patterns (count, offset) per row for every element type, descriptor size, heap gap and surrounding columns",
  "tests read two sample files",
  ["src/hdu/data/bintable/data.rs", "src/hdu/header/extension/bintable.rs"], [("heap seek state", "src/hdu/data/bintable/data.rs"), ("THEAP", "src/hdu/header/extension/bintable.rs")],
  "exhaustive enumeration of descriptor patterns vs. an independent heap decoder",
  "up to 3 rows, counts 0..3 (and 9 bits), offsets overlapping, reversed and gapped", observe=["TableData", "TableRowData"])

p("C14", "Tile-compressed integer images decompress to the pixels that were compressed",
  "For images compressed in tiles as integers with Rice (1, 2 or 4 bytes per pixel), GZIP_1 or GZIP_2 (pixels stored on 1, 2 or 4 bytes), reading yields exactly the pixels that were compressed, tile after tile, for every pixel type (8, 16 and 32 bits), image and tile shape (edge tiles included), block size and position of the tiles in the heap. The image size, pixel type and compression announced are those of the header.",
  ["inputs"], "all image/tile shapes within bounds, all encoder decisions (block sizes, low-entropy, fs and high-entropy blocks), value patterns, orders of tiles in the heap",
  "tests decompress five sample files and compare nothing, or a sum",
  ["src/hdu/data/bintable/tile_compressed/", "src/hdu/header/extension/bintable.rs"], [("RICEDecoder", "src/hdu/data/bintable/tile_compressed/rice.rs"), ("Pixels iterators", "src/hdu/data/bintable/tile_compressed/pixels.rs")],
  "exhaustive enumeration of tiled images through an independent encoder, decoded by the real code",
  "2-D images up to 5x4 in all tilings, plus value and block patterns", observe=["BinaryTableData::TileCompressed"])

p("C15", "Tile-compressed float images are restored with the scaling of their tile",
  "For floating-point images quantised to integers in tiles, each pixel is its integer times the tile's scale plus the tile's zero point, with the dither of the declared method and seed subtracted (none, method 1, or method 2 with its exact zeros), and pixels holding the declared blank value become NaN. The scale, zero point and blank value of a tile are taken from its own row of the table (or from the header when given there), whatever other columns the table has and in whatever order.",
  ["inputs"], "all column orders and sources of scale, zero and blank, dither methods and seeds, tile shapes, blank placements within bounds",
  "tests open two sample files and check nothing of the values",
  ["src/hdu/data/bintable/tile_compressed/pixels.rs", "src/hdu/data/bintable/tile_compressed/dithering.rs"], [("dequantisation", "src/hdu/data/bintable/tile_compressed/pixels.rs"), ("random sequence", "src/hdu/data/bintable/tile_compressed/dithering.rs")],
  "exhaustive enumeration of quantised tiles vs. an independent restorer",
  "small 2-D images, every combination of the options, all 10000 seeds, tiles longer than the random sequence; compared within single precision rounding", observe=["BinaryTableData::TileCompressed"])

p("C16", "A gzip-compressed file reads exactly like the file it contains",
  "Whether a FITS file is stored plain or gzip-compressed, with any compression level, gzip header options and division into gzip members, from a source that gives its bytes in any pieces, the reader recognises which it is and yields the same HDUs, headers and data. A gzip file that is cut or damaged yields an error, never other data.",
  ["inputs", "configurations"], "gzip header options x compression levels x files x access styles",
  "tests open two gzipped files",
  ["src/gz.rs", "src/file.rs"], [("magic number detection / Bytes", "src/gz.rs")],
  "exhaustive enumeration of gzip encodings of sample files, compared with the plain file",
  "all header flag combinations and field lengths, levels 0..9, up to 3 (4) members, every chunk size up to 64 (400), every cut, every damaged byte, sample files of every HDU kind", observe=["gz::GzReader", "Fits"])

p("C17", "Malformed input never crashes, hangs or exhausts the reader",
  "For any bytes at all, iterating the HDUs and reading their data to the end terminates with values, errors or the end, without panic, endless loop or allocations out of proportion with the file. This includes damaged cards, absurd sizes and counts, contradictory table layouts, and damaged compressed tiles and descriptors.",
  ["inputs", "fault_sequences"], "every single byte substitution (from a menu) at every header position of the sample files, every data byte of compressed tiles and descriptors, and every pair of hostile values for the size keywords",
  "tests contain no hostile input beyond two truncated headers",
  ["src/card.rs", "src/hdu/header/", "src/hdu/data/", "src/fits.rs"], [("checked sizes", "src/hdu/header/extension/*.rs"), ("read errors", "src/hdu/data/**")],
  "fault enumeration: every single damaged byte / every hostile keyword value, run on the real code with panic, hang and allocation detection",
  "every header and data byte of 10 files x 19 bytes (all 256), every hostile keyword value and pair, every pair of hostile descriptor values, all short Rice streams", level="fault_enumeration", observe=["Fits", "get_data"])

p("C18", "An image HDU opens through the image crate with the right pixels in place",
  "Opening a FITS image through the image-crate decoder gives the dimensions of the image and, at every position, the colour obtained by the documented conversion from that pixel's value, for every pixel type, for one or three planes, and for tile-compressed images as for plain ones. Files without a displayable image are refused with an error.",
  ["inputs"], "all pixel types, image shapes, tilings and boundary values within bounds",
  "one test opens sample files without checking pixels",
  ["src/image_integration.rs"], [("FitsDecoder", "src/image_integration.rs")],
  "exhaustive enumeration of small images through the decoder vs. a reference conversion",
  "images up to 4x3, 1 and 3 planes", observe=["image_integration::FitsDecoder"])

p("C19", "ASCII table headers and rows are delivered as written",
  "For an ASCII table, the reader gives the row width, the number of rows and, for every column, its start and Fortran format as declared (a column whose start or format is missing or malformed is left out without disturbing the others), and delivers the table's bytes exactly.",
  ["inputs"], "all formats (A, I, F, E, D) with width and precision, column starts, row counts and sizes within bounds",
  "one test reads one sample table",
  ["src/hdu/header/extension/asciitable.rs", "src/hdu/data/asciitable.rs"], [("TFORM parser", "src/hdu/header/extension/asciitable.rs")],
  "exhaustive enumeration of ASCII table headers vs. a reference parser",
  "all formats over widths/precisions 0..12 and malformed spellings", observe=["AsciiTable"])

p("C20", "Typed lookup converts a header value only when it fits the requested type",
  "Asking a header for a keyword as a given type gives the exact value when the stored value is representable in that type and an error otherwise (never a truncated, wrapped or guessed value; a number asked as a floating-point type gives the nearest one); an optional type gives nothing when the keyword is absent or undefined. Deserialising the whole header into a structure agrees with looking up each of its fields.",
  ["inputs"], "all pairs of stored value (every FITS type, boundary magnitudes) and requested type",
  "tests look up a few integers and strings",
  ["src/hdu/header/mod.rs", "src/card.rs"], [("get_parsed / Deserializer for Value", "src/card.rs, src/hdu/header/mod.rs")],
  "exhaustive enumeration of value x requested type vs. a reference conversion",
  "all integer widths at their boundaries, floats, strings, logicals, undefined, absent", observe=["ValueMap::get_parsed"])

p("C21", "The command-line structure report describes every HDU of the file",
  "For a well-formed file, the structure command prints, for each HDU in file order and nothing else, its index, its kind, its pixel type and axis lengths (images) or its numbers of columns and rows (tables), and the offset and size of its data unit. When an HDU is illegal or its header is cut, the HDUs before it are reported and the command fails with a message, as it does for missing or wrong arguments.",
  ["inputs"], "all sequences of HDUs of every kind, with and without names, within bounds",
  "the command line has no test",
  ["crates/cli/src/main.rs", "crates/cli/src/struct.rs", "crates/cli/src/lib.rs"], [("struct command", "crates/cli/src/struct.rs")],
  "exhaustive enumeration of HDU sequences, output of the real binary vs. a reference report",
  "sequences of up to 3 (4) HDUs from a menu of 15, all BITPIX and axis vectors of up to 3 (4) axes, cuts every 160 (40) bytes, illegal cards in every HDU", observe=["fits struct"])

CLAIMED = set((sys.argv[1] if len(sys.argv) > 1 else open(os.path.join(ROOT, "tools/claimed")).read()).split())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": None}}) + "\n")

NA = {}
m = {"version": 1, "setup_cmd": "bash run.sh --build-only", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: every check drives the public API. Checks: bash run.sh <ID>; VERIF_TIER=thorough deepens the bounds. Replay a violation: .build/target/release/fitsmc replay <file>."}
for x in P:
    if x["id"] in CLAIMED:
        m["checks"].append({"property": x["id"], "quick_cmd": f"bash run.sh {x['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {x['id']}",
            "evidence_file": f"evidence/{x['id']}.json", "technique": x["technique"], "level": x["level"], "level_note": x["note"]})
    else:
        m["not_applicable"].append({"property": x["id"], "reason": NA.get(x["id"], "check under construction")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
