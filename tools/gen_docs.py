#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one source for both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

I, H, S, F, C = "inputs", "histories", "schedules", "fault_sequences", "configurations"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, technique=technique if id == 'C22' else technique + '; thorough tier: also libFuzzer, guided by coverage, over the same choices', note=note))

HDR = "src/hdu/header/mod.rs"
p("C01", "Every HDU of a valid file is listed, in order, with its true structure",
  "Reading a valid FITS file gives exactly the HDUs it contains, in file order and then the end: each with its kind (image, binary table, ASCII table, tile-compressed image), its header, the true offset and size of its data unit, its axes, columns and number of rows. This holds whatever the number of cards and the padding of the blocks, whatever reader the bytes come from, and for data units of any size including those of several tebibytes.",
  [I, C], "all valid files (1..6 HDUs of every kind, sizes from 0 bytes to 16 TiB, any cards) x readers (in memory, buffered of any capacity, short reads, interrupted reads)",
  "The tests read a dozen sample files, most of which are not in the repository; a misplaced block, a wrong size formula or a 32-bit overflow shows only for particular combinations of sizes, axes, GCOUNT/PCOUNT and readers.",
  ["src/fits.rs", "src/hdu/mod.rs", "src/hdu/primary.rs", HDR, "src/hdu/header/extension/image.rs", "src/hdu/header/extension/bintable.rs", "src/hdu/header/extension/asciitable.rs"],
  [("HDU iteration", "src/fits.rs"), ("header parsing and block alignment", HDR), ("data unit size", "src/hdu/header/extension")],
  ["Fits::next", "HDU::get_header", "get_data_unit_byte_offset/size", "Xtension accessors"],
  "proptest: generated files against the model they were written from (round trip)",
  "Exploration of generated files against an independent writer and model of the format.")
p("C02", "What is read of one HDU never changes the HDUs that follow",
  "Whatever has been done with the data of the HDUs met so far (ignored, partly read, read beyond its end, accessed at random, its rows selected, sought or decompressed, read as raw bytes), the following HDUs are those of the file, with the same headers and data. A copy of the list walked on its own changes nothing to the original list.",
  [I, H], "all valid files x all ways of consuming each data unit x copies of the list taken at any HDU",
  "Tests either read everything or nothing of one sample file; the position left in the reader by every partial read is a history the tests do not enumerate.",
  ["src/fits.rs", "src/hdu/data/iter.rs", "src/hdu/data/image.rs", "src/hdu/data/bintable/data.rs", "src/hdu/data/asciitable.rs"],
  [("going to the next HDU", "src/fits.rs consume_until_next_hdu"), ("data readers", "src/hdu/data")],
  ["Fits::next after any use of get_data"],
  "proptest: stateful histories of consumption against the model of the file",
  "Exploration of generated histories; the next HDU is compared with the model.")
p("C03", "Image pixels are exactly the stored ones",
  "The data of an image HDU is the sequence of its stored values: of the type given by BITPIX, in file order, as many as the product of its axes, bit for bit (big-endian, NaN payloads and extremes included), whatever the other cards say, and nothing more. The raw bytes given are those of the data unit.",
  [I, C], "all BITPIX, 0..30 axes, any bit pattern, primary or extension, any reader, any other cards (BSCALE, BZERO, BLANK)",
  "Tests check a few statistics of sample images; a wrong byte order or a lost pixel at a buffer limit shows only for given types, lengths and readers.",
  ["src/hdu/data/image.rs", "src/hdu/data/iter.rs", "src/hdu/data/mod.rs", "src/hdu/header/extension/image.rs"],
  [("typed iterator", "src/hdu/data/iter.rs"), ("choice of the type from BITPIX", "src/hdu/data/image.rs")],
  ["ImageData::pixels", "raw_bytes"],
  "proptest: generated images against the written pixels (round trip)",
  "Exploration; bits are compared exactly.")
p("C04", "Random pixel access and sequential reading do not disturb each other",
  "Reading the pixel of a given index gives the stored value of that pixel, or an error when there is none, at any moment; sequential reading goes on from where random access left the position, exactly as an array and an index would. This holds for images larger than 4 GiB.",
  [I, H], "histories of random accesses (any index), sequential reads and skips on any image, any reader, images up to 256 TiB",
  "No test interleaves the two, nor goes beyond 2^31 bytes.",
  ["src/hdu/data/iter.rs"], [("read_value and next", "src/hdu/data/iter.rs")],
  ["It::read_value", "Iterator for It"],
  "proptest: stateful histories against an array and an index (model-based)",
  "Exploration of generated histories on real and virtual (sparse) files.")
p("C05", "Header cards are given back as written, in order",
  "The cards of a header are given in file order, none lost, added or merged: keyword, value with its type (logical, integer, real, string, undefined), comment, commentary text and hierarchical keywords being those that were written, in free or fixed format. Each card read alone gives the same, as do the synchronous and asynchronous readers.",
  [I], "headers of 1..90 generated cards of every kind (all numeric forms, strings with quotes and blanks, HIERARCH, COMMENT, HISTORY, blank keywords, undefined values)",
  "Tests parse some tens of hand-written cards; the number of possible cards is unbounded and parsers break on the unusual (exponents, quotes, slashes in strings, last columns).",
  ["src/card.rs", HDR], [("card parser", "src/card.rs"), ("header builder", HDR)],
  ["Card, Value", "Header::cards"],
  "proptest: cards written by an independent writer and parsed back (round trip)",
  "Exploration; reals are compared with the correctly rounded f64 of the text.")
p("C06", "Long strings over CONTINUE cards are reassembled exactly",
  "A string cut over any number of continuation cards is given back whole, with its comment, for ordinary and hierarchical keywords; a final ampersand that nothing continues is part of the string. A continuation card that follows no string to be continued changes no other value, and no card is lost.",
  [I], "strings of 1..41 pieces, comments on any piece, blank pieces, orphan or interrupted continuations",
  "Tests have two or three fixed examples; the convention is a small grammar with many corner cases.",
  ["src/card.rs", HDR], [("append and splice of continued strings", "src/card.rs"), ("continuation in headers", HDR)],
  ["Header::get", "Card::append, Card::splice"],
  "proptest: generated chains of cards against a model of the convention",
  "Exploration; ambiguous forms that the convention leaves open are skipped and counted.")
p("C07", "The header is a map from keyword to the right card, with typed access",
  "Looking a keyword up gives the value, comment and unit of the last card that has it, and nothing when no card has it. Asking for it as a type gives that value when the type can hold it and an error otherwise, an option being empty only when the keyword is absent or has no value. The lists of keywords, values and history entries follow the file, and filling a user structure gives the same values as looking up each keyword.",
  [I], "headers with any cards, repeated keywords, all target types (8 integer types, floats, logical, strings, optional values, enumerations, structures), present and absent keywords",
  "Tests look up a few keywords of one header; conversions fail at the limits of types, and repeated keywords are not tested.",
  [HDR, "src/card.rs", "src/error.rs"], [("keyword lookup and conversion", HDR), ("deserialization", "src/card.rs")],
  ["Header::get, get_parsed, unit, history, keywords, iter", "serde deserialization"],
  "proptest: generated headers against an ordered map (model-based)",
  "Exploration against a reference map built from the written cards.")
p("C08", "Binary-table values are exactly the stored ones",
  "Every field of every row of a binary table is given once, in row then column order, with its column, its position in the field and its exact value, for all element types and repeat counts (zero included), and nothing more. Rows taken as rows, the description of the columns, the lookup of a column by name and the raw bytes agree with it.",
  [I, C], "tables of 1..999 columns of any scalar type and repeat count, 0..3000 rows, any bytes, any reader",
  "Tests read two sample tables; a decoder breaks for one element type, a zero repeat count, or the last column.",
  ["src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/row.rs", "src/hdu/data/bintable/mod.rs", "src/hdu/header/extension/bintable.rs"],
  [("field iteration", "src/hdu/data/bintable/data.rs"), ("TFORM parsing", "src/hdu/header/extension/bintable.rs")],
  ["TableData iterator", "row_iter", "BinTable header accessors"],
  "proptest: generated tables against an independent decoder (differential)",
  "Exploration; all values compared exactly.")
p("C09", "Variable-length arrays are read from the right place of the heap",
  "Every array of a variable-length column is given with as many elements as its descriptor says, taken from where the descriptor says in the heap, for 32- and 64-bit descriptors and every element type, whatever the order, gaps or overlaps of the arrays, and without disturbing the other fields. The heap starts where the header says, or right after the rows.",
  [I, C], "tables with array columns, any heap layout, THEAP or not, arrays of 0..4000 elements",
  "One sample file of the tests has such columns, all in order and without gap.",
  ["src/hdu/data/bintable/data.rs", "src/hdu/header/extension/bintable.rs"],
  [("array descriptors and heap seeks", "src/hdu/data/bintable/data.rs"), ("THEAP", "src/hdu/header/extension/bintable.rs")],
  ["TableData iterator, row_iter"],
  "proptest: generated tables and heaps against an independent decoder (differential)",
  "Exploration; all values compared exactly.")
p("C10", "Field selection and row seeks show the same table, restricted",
  "After any sequence of field selections, row seeks and partial reads, what is read next is what the whole table contains at that row, restricted to the selected fields and in row then column order. Seeking to a row that does not exist is refused, and rows give the index they have in the table.",
  [I, H], "1..12 operations in any order on any table, with and without variable-length arrays, any reader",
  "Tests make one selection and one seek on one table; the position is a state that every operation moves.",
  ["src/hdu/data/bintable/data.rs", "src/hdu/data/bintable/row.rs"],
  [("select_fields, seek_to_row", "src/hdu/data/bintable/data.rs"), ("row iterator", "src/hdu/data/bintable/row.rs")],
  ["values and rows read after each operation"],
  "proptest: stateful histories against a model of selection and position",
  "Exploration of generated histories.")
p("C11", "The asynchronous reader gives the same file as the synchronous one",
  "Read asynchronously, a file gives the same HDUs, cards and values as synchronously, however the bytes arrive: in pieces of any size, after any number of not-ready answers, through a buffer of any capacity. A reader that waits has arranged to be woken.",
  [I, S], "all valid files x all arrival schedules x buffer capacities from 1 to 8192; damaged files x schedules",
  "The asynchronous tests read samples from memory, where everything is always ready at once.",
  ["src/async_fits.rs", "src/hdu/data/stream.rs", HDR, "src/hdu/mod.rs"],
  [("asynchronous header parsing", HDR), ("value stream", "src/hdu/data/stream.rs")],
  ["AsyncFits::next, get_data streams"],
  "proptest: generated schedules of a simulated source, against the model and the synchronous reader (differential)",
  "Exploration of schedules owned by the harness; single task.")
p("C12", "Asynchronous streams can be left anywhere without losing the next HDU",
  "Whatever part of the data of each HDU has been taken asynchronously, including a stream dropped in the middle of a value while it waits, the values taken are the stored ones and the following HDUs are those of the file.",
  [I, H, S], "all valid files x number of values taken per HDU x dropping points x arrival schedules",
  "Tests read one image entirely.",
  ["src/async_fits.rs", "src/hdu/data/stream.rs"],
  [("going to the next HDU", "src/async_fits.rs"), ("position of the stream", "src/hdu/data/stream.rs")],
  ["AsyncFits::next after any use of get_data"],
  "proptest: histories of consumption under generated schedules against the model",
  "Exploration of schedules owned by the harness.")
p("C13", "Tile-compressed integer images decompress to the original pixels",
  "An integer image compressed by tiles with RICE_1, GZIP_1 or GZIP_2 gives back every pixel of the original, tile by tile, whatever the size of the tiles (edge tiles included), the number of axes, the block size and bytes per pixel, the values, and the place of the tiles in the heap.",
  [I, C], "ZBITPIX 8, 16, 32; 1..4 axes; any tiling; any pixel pattern (constant, smooth, noisy, extreme jumps); algorithm parameters",
  "The samples used by the tests are three images of one tiling each, compared with nothing.",
  ["src/hdu/data/bintable/tile_compressed/mod.rs", "src/hdu/data/bintable/tile_compressed/pixels.rs", "src/hdu/data/bintable/tile_compressed/rice.rs"],
  [("RICE decoder", "src/hdu/data/bintable/tile_compressed/rice.rs"), ("tile geometry", "src/hdu/data/bintable/tile_compressed/mod.rs")],
  ["pixels of a compressed image"],
  "proptest: images compressed by the encoder of the harness, decompressed back (round trip)",
  "Exploration; the encoders are independent implementations of the standard.")
p("C14", "Tile-compressed floating-point images are restored by the right formula",
  "A floating-point image quantized then compressed by tiles gives back, for each pixel, the value defined by the scale and zero of its tile, the dithering method and its seed, undefined pixels and exact zeros being restored as such.",
  [I, C], "quantization parameters per tile, no dithering or either subtractive dithering, any seed, tiles longer than the random sequence, undefined pixels as keyword or column, three algorithms",
  "No test compares restored values with a reference.",
  ["src/hdu/data/bintable/tile_compressed/pixels.rs", "src/hdu/data/bintable/tile_compressed/dithering.rs", "src/hdu/data/bintable/tile_compressed/mod.rs"],
  [("dequantization", "src/hdu/data/bintable/tile_compressed/pixels.rs"), ("random sequence", "src/hdu/data/bintable/tile_compressed/dithering.rs")],
  ["pixels of a compressed image"],
  "proptest: images quantized by the harness, against the formula of the standard (reference model)",
  "Exploration; tolerance of 1e-6 of the magnitude of the terms, as the library computes in f32.")
p("C15", "A gzipped file is read as the file it contains",
  "Opening a gzipped FITS file, of any number of members and header options, gives the HDUs and data of the uncompressed file, including random access and partial reads. A compressed file that is damaged or cut never passes for a shorter or different one without an error.",
  [I, H, F], "files x compression levels, members, gzip header fields x ways of consuming x one changed byte or cut",
  "No test opens a gzipped file of several members, seeks in one, or damages one.",
  ["src/gz.rs", "src/file.rs", "src/fits.rs"],
  [("decompressing reader", "src/gz.rs")],
  ["Fits::from_reader on GzReader", "Read and Seek of GzReader"],
  "proptest: gzipped against plain (metamorphic), with injected damage",
  "Exploration; damage that the checksum of gzip cannot see is excluded by construction.")
p("C16", "No input makes the reader crash, hang or exhaust memory",
  "On any sequence of bytes, every way of reading it (synchronous, asynchronous, gzipped, as an image to be decoded) ends, without panic, overflow or allocation out of proportion, giving values or errors. What is given stays true to the bytes: HDUs follow each other without overlap, pixels and raw bytes are those at the stated place.",
  [I, F], "valid files with hostile changes (card values, descriptors, sizes, cuts, repeated or removed blocks), random bytes, cards and text",
  "Tests hold a few malformed samples; hostile inputs are unbounded.",
  ["src", "src/hdu", "src/card.rs", "src/hdu/data/bintable"],
  [("checked sizes and errors", "src/hdu/header/extension"), ("table decoder", "src/hdu/data/bintable/data.rs")],
  ["all public readers"],
  "proptest: structured mutation fuzzing with an invariant oracle",
  "Exploration with overflow checks on, an allocator that refuses more than 2 GiB, and readers with a budget of calls.")
p("C17", "A truncated file gives what it holds, and says when it does not",
  "A file cut anywhere gives the HDUs whose header is whole, with the values there are and no other; a header that is not whole is never given, and a data unit that is not whole ends its values early, never with invented ones.",
  [I], "all valid files x all cut points (biased to structure borders), both readers",
  "Tests have no truncated file with a reference.",
  ["src/fits.rs", "src/async_fits.rs", "src/hdu/data"],
  [("end of file handling", "src/fits.rs"), ("data readers", "src/hdu/data")],
  ["HDUs and values of the truncated file"],
  "proptest: every kind of file cut at generated points, and histories of selections, row seeks and reads of cut tables, against the model cut at the same point",
  "Exploration of cut points.")
p("C18", "An I/O failure is reported or ends the data; nothing false is given",
  "When the underlying reader fails, once or for ever, at any byte or seek, a header that could not be read is an error and the list ends; values given before and after are those of the file, and no HDU is silently missing.",
  [I, F], "files x failure point (byte or seek) x transient or permanent x reader (plain, buffered, gzipped, asynchronous)",
  "No test injects I/O failures.",
  ["src/fits.rs", "src/async_fits.rs", "src/gz.rs", "src/hdu/data"],
  [("error propagation", "src/fits.rs"), ("data readers", "src/hdu/data")],
  ["Fits::next, values, read_value"],
  "proptest: generated fault injection, in whole files and in histories of selections, row seeks and reads of a table, against the model",
  "Exploration of single faults, transient or permanent.")
p("C19", "Headers that break the mandatory rules are rejected",
  "A header in which a mandatory keyword is missing, has a value of the wrong type or out of its domain, contradicts another one, or which has no end, is given as an error by both readers and never as an HDU. The HDUs before it are given, and the list ends after it.",
  [I], "valid files x one broken rule in one header (keyword x kind of damage x kind of HDU x position)",
  "Two tests of the repository check one broken header each.",
  [HDR, "src/hdu/header/extension", "src/error.rs", "src/hdu/primary.rs"],
  [("mandatory keyword checks", HDR), ("extension headers", "src/hdu/header/extension")],
  ["Fits::next"],
  "proptest: single-rule mutations of valid files, the oracle being rejection",
  "Exploration; only rules the library enforces today are asserted.")
p("C20", "ASCII tables give the description and the bytes that were written",
  "The first column and the format (type, width, decimals) of each field of an ASCII table are those of its header; a field without a usable TBCOL or TFORM is left out and the others keep theirs. Its data is every byte of its rows, in order and no more, read in pieces of any size, by both readers.",
  [I, C], "tables of 0..999 fields of the five formats, any columns, 0..3000 rows, any way of reading the bytes",
  "One sample table in the tests.",
  ["src/hdu/header/extension/asciitable.rs", "src/hdu/data/asciitable.rs"],
  [("TFORM/TBCOL parsing", "src/hdu/header/extension/asciitable.rs"), ("data", "src/hdu/data/asciitable.rs")],
  ["AsciiTable header", "AsciiTableData Read"],
  "proptest: generated tables against what was written (round trip)",
  "Exploration.")
p("C21", "The image decoder gives the picture of the first image of the file",
  "Decoded with the image crate, a file gives the dimensions, color type and samples of its first HDU having image data, plain or tile-compressed, each sample at its place whatever the type and the tiling. A file without a picture the decoder can give is an error.",
  [I, C], "images of every BITPIX and of 1..4 axes, plain or compressed with any tiling, after 0..3 other HDUs, with any scaling cards",
  "The tests decode one or two samples without comparing samples.",
  ["src/image_integration.rs", "src/hdu/data/bintable/tile_compressed/mod.rs"],
  [("decoder", "src/image_integration.rs")],
  ["ImageReader::decode"],
  "proptest: generated files decoded and compared with a reference conversion (model-based)",
  "Exploration; the reference conversion is the one documented in the decoder.")
p("C22", "The struct command prints the structure of the file",
  "For each HDU of the file in order, the struct command prints its index, its kind, its dimensions or its numbers of columns and rows, and the place and size of its data unit. When a header cannot be read, it lists the HDUs that come before and fails.",
  [I], "all valid files of 1..6 HDUs; damaged files; files with holes of up to terabytes",
  "The command has no test.",
  ["crates/cli/src/struct.rs", "crates/cli/src/main.rs"],
  [("struct command", "crates/cli/src/struct.rs")],
  ["standard output and exit status"],
  "proptest: output of the command against the model of generated files",
  "Exploration; the tool is built from its sources and run on generated files.")
p("C23", "A card that cannot be understood harms no other card",
  "Cards that are not valid FITS (any bytes, unterminated strings, values that are not values) are kept in their place, verbatim when they cannot be understood; the valid cards around them, the structure and the data are unaffected, identically for both readers.",
  [I], "1..40 arbitrary or damaged cards among valid ones in any HDU",
  "A handful of such cards in the tests, alone.",
  ["src/card.rs", HDR], [("card parser", "src/card.rs"), ("header builder", HDR)],
  ["Header::cards, Header::get"],
  "proptest: arbitrary cards among valid ones, against the written cards (invariant)",
  "Exploration; what a damaged card means is not asserted where the standard leaves it open.")

p("C24", "World coordinates are defined by the header of the image they are asked for",
  "The world coordinate system of an image, or of a table that holds a compressed one, is made of the keywords of that HDU's own header, each with the value the header gives it (the last one when repeated, integers being accepted for numbers) and absent when the header gives none. It is an error, and not a wrong system, when a mandatory keyword is missing or when one of them has a value of another type.",
  [I], "headers with 0..15 of some 110 keywords, in any order, repeated, blank, of the wrong type, among any other cards, in primary images, image extensions, tables and compressed images",
  "The one test of it needs a crate and a file that are not there; the mapping of more than a hundred optional keywords is not tested at all.",
  ["src/wcs.rs", HDR, "src/card.rs"], [("construction of the system from the header", "src/wcs.rs"), ("header as a deserializer", HDR)],
  ["HDU::wcs of images and binary tables"],
  "proptest: generated headers against the written values (round trip), the wcs crate being replaced by a recorder",
  "Exploration. The projections themselves are those of the wcs crate, a git dependency which is not in the sandbox: a stand-in with its interface records the parameters fitsrs gives it.")

NA = []

def prop(q):
    return dict(id=q["id"], title=q["title"], statement=q["statement"],
      quantifier=dict(over=q["over"], text=q["qtext"]), why_tests_cant=q["why"],
      anchors=dict(files=q["files"], mechanism=[dict(name=a, where=b) for a, b in q["mech"]],
                   observe_at=q["observe"], hook_needed=None))

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P + NA:
            f.write(json.dumps(prop(q)) + "\n")
    man = dict(version=1, setup_cmd="bash setup.sh",
      checks=[dict(property=q["id"], quick_cmd=f"bash check.sh {q['id']} quick",
                   thorough_cmd=f"bash check.sh {q['id']} thorough",
                   technique=q["technique"], level="exploration", level_note=q["note"]) for q in P],
      not_applicable=[dict(property=q["id"], reason=q["reason"]) for q in NA],
      notes="No hooks: everything is observed through the public API. fix: commits in /repo are listed in known_findings.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
main()
