"""The properties (source of properties.jsonl and MANIFEST.json, see gen.py)."""
PROPS = []


def P(id, title, statement, quant, why, files, mech, tech, note, over=("inputs",), na="no check built"):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why,
                      files=files.split(), mech=mech, tech=tech, note=note, over=list(over), na=na))


P("C01", "Reads from any input stream are bit-exact, never short, history-free",
  "Reading bits, integers (signed or not) or bytes at an address of an input stream - in memory, a file, a window of a "
  "file or of another stream (at any bit offset), a pipe, a concatenation, a chain of fragments, or any nesting of these - "
  "returns exactly the bits at that address in the requested byte order, whatever was read before. A read that goes beyond "
  "the end raises an input stream error and returns nothing, in particular never data from outside the window. Size and "
  "size comparisons are exact and do not change, and a pipe may only refuse data older than its documented buffer window.",
  "every composition of input streams, content, bit address and width, byte order, and every history of earlier reads "
  "(successful, failing, backward)",
  "The tests read a handful of fixed addresses of whole files and one pipe scenario; compositions of streams, bit offsets, "
  "seams between blocks and fragments and reads after a failed read are not sampled.",
  "hachoir/stream/input.py hachoir/stream/input_helper.py hachoir/core/bits.py",
  [("InputStream.readBits/readInteger/readBytes", "hachoir/stream/input.py"),
   ("InputIOStream, InputPipe, InputSubStream, ConcatStream, FragmentedStream", "hachoir/stream/input.py")],
  "model-based property testing of read histories over composed streams",
  "Composed streams up to 3 levels and ~100 bytes per leaf with shrunk pipe blocks, histories of up to 12 operations.",
  over=("inputs", "histories"))

P("C02", "Byte search returns the first occurrence, wherever blocks are cut",
  "Searching a byte string in a stream from a byte-aligned start, with or without an end, returns the address of the first "
  "occurrence lying entirely inside the searched range and of the stream, or nothing when there is none, for every kind of "
  "stream and every pattern length. The length variant returns the distance in bytes to that occurrence, including the pattern "
  "length when asked; a start that is not byte-aligned is refused with an input stream error.",
  "every stream, pattern (1 byte to longer than the internal block), start, end, position of occurrences relative to "
  "internal block boundaries, and earlier reads",
  "The tests search two strings in one small file; the search works by overlapping blocks, whose boundaries, end limits and "
  "unknown-size streams are never exercised.",
  "hachoir/stream/input.py", [("InputStream.searchBytes/_searchBytes/searchBytesLength", "hachoir/stream/input.py")],
  "differential property testing against bytes.find with block-boundary-directed generation",
  "Streams up to 140 kB with occurrences planted around multiples of the block size.")

P("C03", "The file view of a stream is a faithful, independent binary file",
  "The file-like object given by a byte-aligned stream behaves like a read-only binary file holding exactly the bytes of the "
  "stream: read with or without a size (including at and past the end), tell, and seek from the start, the current position and the end. Several "
  "views and direct stream reads can be interleaved without disturbing each other; a stream that is not a whole "
  "number of bytes has no such view (input stream error).",
  "every stream composition, every interleaving of read/seek/tell on several views and of reads on the stream",
  "Tests open one view and read it once; position bookkeeping, shared descriptors and unknown sizes depend on history.",
  "hachoir/stream/input.py hachoir/stream/input_helper.py", [("FileFromInputStream, InputStream.file(), InputIOStream.file()", "hachoir/stream/input.py")],
  "stateful model-based property testing against io.BytesIO semantics",
  "Streams up to 200 kB, two views, histories up to 12 operations.", over=("inputs", "histories"))

P("C04", "Output streams hold exactly the bits written or copied",
  "After any sequence of writing bits, single bits, integers and byte strings and of copying bits or bytes from an input "
  "stream (in one byte order, at any bit offset), the file or memory output holds exactly the concatenation of these values, "
  "most significant bit first in big endian and least significant first in little endian. Byte writes in "
  "the middle of a byte are refused; the memory output can be read back at any moment without disturbing later writes.",
  "every sequence of writes and copies, widths 1-130 bits, both byte orders, source offsets and sizes",
  "The editor tests write a few aligned fields; carry bits between writes of every width and offset are not sampled.",
  "hachoir/stream/output.py hachoir/stream/stream.py",
  [("OutputStream.writeBits/writeBit/writeInteger/copyBitsFrom/copyBytesFrom", "hachoir/stream/output.py")],
  "stateful model-based property testing against a list-of-bits model",
  "Sequences up to 12 writes; bit copies of at most 256 bits when unaligned (limit of the API).", over=("inputs", "histories"))

P("C05", "Conversions between integers, bytes and bit strings are exact inverses",
  "For every value, width and byte order, converting integers to bytes or bit strings and back gives the same value, equals "
  "the positional definition (big, little and 16-bit-swapped middle endian), and hexadecimal/binary texts list every byte in order. Alignment helpers return "
  "the next multiple and the distance to it, and the sorted-sequence searches agree with a linear scan.",
  "every non-negative integer up to 200 bits, byte strings up to 24 bytes, widths, byte orders, separators, sorted sequences",
  "Doctests check a few literals per function.",
  "hachoir/core/bits.py hachoir/core/tools.py", [("str2long, long2raw, long2bin, bin2long, str2hex...", "hachoir/core/bits.py"),
                                                ("alignValue, paddingSize, lowerBound, binarySearch", "hachoir/core/tools.py")],
  "round-trip and differential property testing against int.from_bytes/to_bytes, format and bisect",
  "Random values with boundary bias.")

P("C06", "Timestamps, durations and sizes convert to the right moment and unit",
  "Each raw timestamp (UNIX, Mac, Windows 64-bit, UUID) and duration counter converts to the moment or duration its format "
  "defines (within the documented float rounding), and values outside the format's range are rejected with ValueError (or "
  "reported as invalid for Mac). Human-readable durations, sizes, bit sizes, rates, frequencies, dates and UNIX modes denote the "
  "amount they were given: right unit, value within the printed precision, at most three duration units, largest first.",
  "every raw counter value of the fields' widths, every amount",
  "Doctests sample a few values; unit boundaries and range limits are the interesting points.",
  "hachoir/core/tools.py", [("timestamp*, duration*, human*", "hachoir/core/tools.py")],
  "property testing against datetime/timedelta/Fraction arithmetic and stat.filemode",
  "Random plus boundary-biased values.")

P("C07", "Text made printable keeps its content and never contains controls",
  "Making a text or byte string printable keeps every character, replacing only control characters, the quote and characters outside the "
  "target charset by unambiguous escapes, so the result holds no control character and can be encoded in that "
  "charset. Newline normalisation turns each run of line breaks into one newline and is idempotent; charset guessing returns "
  "a charset in which the bytes can be decoded (BOM first, then ASCII, UTF-8, known 8-bit sets, else the default).",
  "every text/byte string, charset, quote character and mode",
  "Doctests check a few literals.",
  "hachoir/core/tools.py hachoir/core/i18n.py hachoir/stream/input_helper.py",
  [("makePrintable, makeUnicode, normalizeNewline", "hachoir/core/tools.py"), ("guessBytesCharset", "hachoir/core/i18n.py")],
  "property testing against an independent character-by-character reference",
  "Texts up to 14 characters from an adversarial alphabet.")

P("C08", "The ordered dictionary and event dispatcher follow their model",
  "Under any history of append, insert, replace, assignment and deletion (by position, negative positions included), the ordered dictionary keeps its values in order with "
  "every key mapped to its own value and index, and a rejected operation (duplicate key, missing key, bad position) "
  "raises its documented error and changes nothing. Raised events call the handlers of that event, in connection order, with the given arguments.",
  "every history of dictionary operations and of connect/raise operations",
  "Doctests run one short history; index maintenance depends on the whole history.",
  "hachoir/core/dict.py hachoir/core/event_handler.py", [("Dict.insert/__delitem__/replace", "hachoir/core/dict.py"),
                                                        ("EventHandler.raiseEvent", "hachoir/core/event_handler.py")],
  "stateful model-based property testing against a list of pairs",
  "Histories up to 14 operations on up to ten keys.", over=("histories",))

P("C09", "Primitive fields decode exactly their bits; displays denote the value",
  "A primitive field (integers of any width, bits, floats, characters, enums, raw/padding/null bytes and bits, timestamps, "
  "durations, MS-DOS dates, formatted handlers) placed anywhere has as value exactly what its format assigns to the bits at its address, in "
  "the byte order of its parent (little, big or middle endian): two's complement, IEEE-754, the epoch arithmetic of its timestamp. Its "
  "size is its declared size and its display denotes the same value (hexadecimal, unit, enum label, date; truncated displays "
  "say so); impossible timestamps or sizes are errors, not wrong values.",
  "every content, bit address, byte order, width and sequence of field types",
  "The tests compare some values of sample files; most widths, alignments, byte orders and boundary values never occur in them.",
  "hachoir/field/integer.py hachoir/field/bit_field.py hachoir/field/float.py hachoir/field/timestamp.py "
  "hachoir/field/byte_field.py hachoir/field/padding.py hachoir/field/enum.py hachoir/field/character.py hachoir/field/helper.py",
  [("GenericInteger, Bits, RawBits", "hachoir/field/bit_field.py"), ("FloatFactory", "hachoir/field/float.py"),
   ("GenericTimestamp, TimeDateMSDOS32", "hachoir/field/timestamp.py")],
  "differential property testing against int.from_bytes, struct, datetime and Fraction arithmetic",
  "Sequences of up to 7 fields of 30 types at any bit offset, random and boundary-biased content.")

P("C10", "String fields delimit and decode exactly the text their format describes",
  "A string field (fixed length, NUL-terminated, UNIX line, Pascal with 8/16/32-bit length) occupies exactly the bytes its format "
  "defines - length prefix, content, terminator at a character boundary of the charset - and its value is these bytes "
  "decoded with its charset (given, from a BOM, or the default), truncated, stripped as requested; a missing terminator or "
  "a length beyond the end is an error. Bytes that cannot be decoded still give a display and never an exception.",
  "every content, string format, charset, strip and truncate option, byte order and position",
  "The tests sample ASCII names of sample files; multi-byte charsets, BOMs, terminators inside characters and truncation don't occur.",
  "hachoir/field/string_field.py", [("GenericString", "hachoir/field/string_field.py")],
  "differential property testing against an independent reference decoder",
  "Contents up to ~60 bytes rich in terminators and BOMs; all charsets supported by the field.")

P("C11", "Fields tile their file; each is reachable by its unique path, index or array",
  "In a parsed file, the children of each field set follow one another without hole or overlap from its start to its end, absolute "
  "address is parent address plus relative address, names are unique, and every field is found - the very same object - by its name, path "
  "(absolute, relative, '..'), index, array slot, address, and previous/next links; a path, index or array that doesn't exist raises "
  "the documented error. Sizes, counts and indices agree whether known in advance or found by reading.",
  "every parser definition (any nesting of sized, unsized, aligned or seeking sets and arrays), content, and sample file",
  "The tests check some values at fixed paths; tiling and addressing of the whole tree is never verified.",
  "hachoir/field/generic_field_set.py hachoir/field/field.py hachoir/field/basic_field_set.py hachoir/field/fake_array.py hachoir/field/helper.py",
  [("GenericFieldSet._addField/_feedUntil/getField", "hachoir/field/generic_field_set.py"), ("Field._getField/path", "hachoir/field/field.py"),
   ("FakeArray", "hachoir/field/fake_array.py")],
  "property testing of generated parsers against an independent layout model; invariants over sample files",
  "Synthetic formats to depth 3; sample files to 400 kB, every field set of the tree up to a cap.")

P("C12", "What is read doesn't depend on access order, manner or kind of stream",
  "The fields of a file (names, types, addresses, sizes, values, displays, descriptions) are the same whatever part is asked first and "
  "however: by path, index, iteration (complete, interrupted, several at once), length, size, array, parent or sibling links, "
  "re-reading or resetting a field set; and the same when the file is given in memory, as a file, a pipe, a sub-stream, "
  "a concatenation or fragments.",
  "every file, every history of accesses, every stream composition holding the same bytes",
  "Parsing is lazy and re-entrant; the tests read each file in one fixed order from one kind of stream.",
  "hachoir/field/generic_field_set.py hachoir/field/basic_field_set.py hachoir/stream/input.py",
  [("GenericFieldSet.__iter__/_feedUntil/readMoreFields/reset", "hachoir/field/generic_field_set.py")],
  "metamorphic property testing: random access histories compared with a sequential read",
  "Synthetic formats and all sample files up to 150 kB; histories up to 12 accesses.", over=("inputs", "histories"))

P("C13", "Any bytes can be read to the end, safely and the same way each time",
  "Whatever the content - a valid file, a damaged or cut one, or arbitrary bytes - and whatever parser is guessed or forced, "
  "building the parser and reading every field, size, description, value, display, MIME type and filename suffix terminates and raises no "
  "exception (after a parse error the rest is covered by raw fields); fields tile their set "
  "and stay inside the file; iteration misses no field; and reading the same content again gives the same tree.",
  "every content and every parser of the registry",
  "The tests read intact files only; hachoir's purpose is to read damaged and hostile ones.",
  "hachoir/field/generic_field_set.py hachoir/field/seekable_field_set.py hachoir/parser/parser.py hachoir/parser/guess.py",
  [("GenericFieldSet._fixFeedError/_fixLastField/_truncate/_fixFieldSize", "hachoir/field/generic_field_set.py"),
   ("RootSeekableFieldSet._fixLastField", "hachoir/field/seekable_field_set.py"), ("HachoirParser", "hachoir/parser/parser.py")],
  "structure-aware mutation fuzzing of sample files and magic-directed fuzzing of every parser, with tree invariants",
  "Up to 4 field-level mutations plus a cut; trees up to 1500 fields. A tree read over 60 CPU seconds counts as non-terminating. "
  "ext2 and Mach-O fat without validation (2**n with n read from the file) are excluded from arbitrary bytes.",
  over=("inputs",))

P("C14", "A parse error or a cut costs only what it touches",
  "When a parser fails, declares a set too short or too long, or the file is cut, every field already read or lying "
  "outside the damaged set stays the one of the intact file (same name, address, size, value), the set which is cut keeps its complete "
  "leading fields, and the remaining bits - no more, no less - are covered by one raw field; a set which can't say its size is "
  "replaced by raw data of its nearest sized ancestor. The result is the same when the end is known at once or found by reading a pipe.",
  "every format (sized and unsized sets, wrong sizes, errors of any type at any place), content, cut position and order of access",
  "The tests read well-formed files; error recovery is the part of the engine that only damaged files reach.",
  "hachoir/field/generic_field_set.py",
  [("GenericFieldSet._addField/_fixFieldSize/_fixLastField/_truncate/_stopFeeding/_fixFeedError", "hachoir/field/generic_field_set.py")],
  "property testing of generated parsers with planted errors and cuts, against an exact model of what remains",
  "Sets to depth 3, up to 6 nodes per set; 8 kinds of exception; unknown sizes are checked by invariants (tiling, fields of the intact "
  "tree or raw) instead of the exact model.", over=("inputs",))

P("C15", "Fields are replaced completely, consistently, or not at all",
  "replaceField() and writeFieldsIn() put the new fields exactly in the place of the old one (names, order, addresses, padding around a "
  "written field), keep every other field, the index, name and address lookups and the values read, and raise one event per "
  "change to the listeners of the set and of the root; a replacement which doesn't fit (other size, used name, missing field) "
  "raises an error and changes nothing. The search by address gives the field covering it or none, and the fields not read yet still "
  "follow.",
  "every field set, part of it already read, and history of replacements, writes and searches",
  "No test replaces a field; the wx interface and the FAT parser rely on it.",
  "hachoir/field/generic_field_set.py hachoir/core/dict.py",
  [("GenericFieldSet.replaceField/writeFieldsIn/getFieldByAddress", "hachoir/field/generic_field_set.py"),
   ("createOrphanField", "hachoir/field/helper.py")],
  "model-based property testing of histories of replacements",
  "Synthetic formats, histories up to 8 operations, up to 4 new fields at once.", over=("inputs", "histories"))

P("C16", "A seekable set keeps fields where they were put and covers the gaps exactly",
  "In a seekable field set (ELF, EXE, TIFF, OLE2, ...) the fields are at the addresses the parser seeked to, in the order they were read, "
  "with their names and values; once complete, raw 'unparsed' fields cover exactly the bits no field holds; the size of a set without "
  "declared size is the end of its farthest field; a field beyond the end is dropped or cut, nothing is outside the set nor uncovered. Search by "
  "address gives a field holding the address, or none.",
  "every sequence of seeks (absolute, relative, backward, overlapping, past the end), fields and nested sets, and access order",
  "A handful of formats use it with one sample file each; which seeks they do depends on the file.",
  "hachoir/field/seekable_field_set.py",
  [("RootSeekableFieldSet.seekBit/_fixLastField/_stopFeeding/getFieldByAddress", "hachoir/field/seekable_field_set.py"),
   ("getgaps", "hachoir/field/seekable_field_set.py")],
  "property testing of generated seek scripts against an exact layout model; getgaps() against a bitmap",
  "Scripts to depth 2 in files up to 60 bytes; after a field past the end invariants are checked instead of the model.")

P("C17", "Embedded content is given back as one exact stream",
  "The stream of any field holds exactly the bits of this field, and parsing it is parsing these bytes alone, at any level of nesting; "
  "the stream of a chain of fragments, a group of fragments or an Ogg logical stream is the concatenation of its pieces in order - "
  "whichever is asked first and wherever they are in the file - and only that; first/next links and other links lead to the very "
  "field they name without taking place in the file; a sub-file is given to the parser it declares.",
  "every file layout (pieces of several chains in any order, pages of several streams), kind of stream below, and order of access",
  "Tests open a few archive members; chains out of file order, several chains, nested streams and multi-page packets are not covered.",
  "hachoir/field/field.py hachoir/field/link.py hachoir/field/fragment.py hachoir/field/sub_file.py hachoir/stream/input.py hachoir/parser/container/ogg.py",
  [("Field.getSubIStream/setSubIStream", "hachoir/field/field.py"), ("Fragment, Fragments, Link", "hachoir/field/link.py"),
   ("FragmentGroup, CustomFragment", "hachoir/field/fragment.py"), ("Segments, Packets, OggStream", "hachoir/parser/container/ogg.py")],
  "property testing of generated containers against the concatenation of the pieces written",
  "Chains up to 7 pieces, groups up to 8, Ogg files up to 3 streams of 8 packets of up to 1300 bytes.")

P("C18", "Compressed content is read exactly as it was before compression",
  "The content of a compressed member, read through hachoir in any order and amount, is byte for byte the original one, ends where it "
  "ends, and has its name: gzip files, stored/deflated ZIP entries (streamed ones with a data descriptor included), bzip2 files, PNG image "
  "data over any number of chunks, compressed Flash, git pack objects, the folders and files of Cabinet files (stored, MSZIP, LZX). "
  "The zlib and LZX parsers, which show each code, decompress any valid stream to its content.",
  "every content, compressor choice (level, strategy, flush, block types, any Huffman codes, window) and file layout",
  "Tests read a few small archives; stored blocks, several blocks, large outputs and rare codes are not covered.",
  "hachoir/parser/archive/zlib.py hachoir/parser/archive/lzx.py hachoir/parser/archive/cab.py hachoir/parser/archive/zip.py "
  "hachoir/parser/archive/gzip_parser.py hachoir/parser/archive/bzip2_parser.py hachoir/parser/image/png.py hachoir/field/sub_file.py",
  [("CompressedStream, CompressedField", "hachoir/field/sub_file.py"), ("DeflateBlock, build_tree, extend_data", "hachoir/parser/archive/zlib.py"),
   ("LZXBlock", "hachoir/parser/archive/lzx.py"), ("FolderData", "hachoir/parser/archive/cab.py"), ("FileEntry", "hachoir/parser/archive/zip.py"),
   ("ObjectEntry", "hachoir/parser/misc/git_pack.py"), ("ImageData", "hachoir/parser/image/png.py")],
  "differential property testing: content compressed by zlib/bz2/zipfile or by generators of any valid deflate/LZX stream, against the content",
  "Contents up to 70 KB; generated streams up to 4-5 blocks of 300 codes.")

P("C19", "An editor saves the file with exactly the edits made",
  "createEditor() on any parsed file, with any sequence of values set and fields deleted at any depth: writeInto() writes the original file with "
  "the new bits of these fields, nothing for the deleted ones, and every other bit unchanged; names, len(), sizes, addresses, values and is_altered "
  "of the editor describe that result. A value out of the range of its field is refused by ValueError and changes nothing, a deleted field "
  "raises MissingField, the parsed file is never changed, and an editor without edit saves the identical file.",
  "every file, format (bit fields, both endians, nested sets, padding, strings of each format), and history of edits",
  "Tests edit three fields of one gzip file; sizes that change, unaligned fields, nested edits and refused values are not covered.",
  "hachoir/editor/fieldset.py hachoir/editor/typed_field.py hachoir/editor/field.py hachoir/stream/output.py",
  [("EditableFieldSet", "hachoir/editor/fieldset.py"), ("EditableField and its types", "hachoir/editor/typed_field.py"),
   ("OutputStream", "hachoir/stream/output.py")],
  "model-based property testing: a tree of nodes which knows the bits of each field, against the editor and the file saved, on generated formats "
  "and on the sample files",
  "Files up to 1500 bytes (200 KB for sample files), up to 8 edits. Float80, dates other than TimestampMac32 are not editable and left alone.")

P("C20", "Fields inserted by an editor are where they were asked for",
  "insertBefore(), insertAfter() and insert() on any field set of an editor, in any history mixed with deletions and new values: new fields are right "
  "before or right after the field named (original, deleted or itself inserted), or at the end, in the order given; iteration, len(), sizes, addresses "
  "and the file saved follow. A name which exists, or is given twice, is refused by UniqKeyError and an unknown neighbour by MissingField, without any "
  "effect; the name of a deleted field can be used again and names in [] get a free index. New field sets nest to any depth.",
  "every history of insertions of bits, integers, bytes, strings, characters, dates and field sets, deletions and values",
  "Tests insert two fields in one gzip file.",
  "hachoir/editor/fieldset.py hachoir/editor/typed_field.py",
  [("_insert", "hachoir/editor/fieldset.py"), ("NewFieldSet", "hachoir/editor/fieldset.py"), ("EditableInteger, EditableString...", "hachoir/editor/typed_field.py")],
  "model-based property testing: the sets are lists of slots (deleted fields keep theirs), against the editor and the file saved",
  "Up to 10 operations of up to 3 fields.")

P("C21", "Strip removes what was asked and nothing else",
  "hachoir-strip with any combination of metadata/useless/index: the new file is the original without the PNG texts and time, JPEG comments, EXIF, "
  "Photoshop and Adobe segments, ID3 tags, AU information, RIFF INFO lists (metadata), RIFF JUNK and WAV fact chunks at any depth (useless), AVI index "
  "(index), with the sizes of the enclosing RIFF lists, the AU data offset and the AVI index flag updated and every other byte identical; in TAR "
  "archives owner, group and time of every entry are blanked, checksums are valid and nothing else changes. The number of bits removed is right, a "
  "second strip removes nothing, the original file is never touched and no file is written when there is nothing to remove.",
  "every content of the seven formats and every combination of options",
  "Tests strip one WAV file with all options.",
  "hachoir/strip.py hachoir/editor/fieldset.py",
  [("strippers, stripEditor", "hachoir/strip.py"), ("RiffStripper.stripSub", "hachoir/strip.py"), ("TarStripper", "hachoir/strip.py")],
  "property testing: generated files made of chunks, against the same file built without the chunks (tarfile reads the archives back)",
  "Up to 8 chunks per level, 4 archive entries; removal of JPEG segments before the image data.")

P("C22", "A simplified regular expression matches the same texts",
  "parse(text) and any expression built with createString, createRange, &, +, |, join() and RegexRepeat: the text of the result compiles and matches "
  "exactly the texts which the unsimplified expression matches; minLength() and maxLength() are the exact bounds (None when unlimited); str() can be "
  "parsed again to the same; the operands of an operation are not changed; a.match(b) and a == b are never true when a text of b isn't one of a.",
  "every expression made of strings, ranges, dot, anchors, alternatives and repetitions, and every text",
  "Doctests show a few dozen simplifications; each one is only right under conditions, which depend on bounds, order and nesting.",
  "hachoir/regex/regex.py hachoir/regex/parser.py",
  [("or_, _or_, _and of each class", "hachoir/regex/regex.py"), ("optimizeRepeatOr, RegexRepeat", "hachoir/regex/regex.py"),
   ("RegexRange.rangeAdd", "hachoir/regex/regex.py"), ("parse, parseRange", "hachoir/regex/parser.py")],
  "differential property testing: an expression tree rendered for Python's re without simplification, against the simplified one, on texts derived "
  "from the tree and near misses",
  "Up to 9 leaves; two nested repetitions. Two wrong simplifications pinned by the tests of the repository are known findings and are not generated: "
  "an unlimited repetition of an alternative with x{n,} (n > 1), and the union of two different excluded ranges.")

P("C23", "Pattern matching finds each pattern and names the right one",
  "PatternMatching with any strings and expressions, added before or between searches: search() gives ordered, disjoint (start, end, item) where item is "
  "a pattern which is the whole text found (the string of that text if there is one, with its user object), and no pattern is in the text outside of "
  "them; max_length is the longest length; expressions without maximum length are refused by ValueError.",
  "every set of patterns sharing prefixes, and every text",
  "Doctests search three patterns.",
  "hachoir/regex/pattern.py hachoir/regex/regex.py",
  [("PatternMatching.search, getPattern, commit", "hachoir/regex/pattern.py")],
  "differential property testing: each match and each gap against the patterns compiled separately by Python's re",
  "Up to 9 patterns; expressions without anchors.")

P("C24", "Subfile search finds each embedded file and writes its exact bytes",
  "SearchSubfile on any stream, whatever the slice size, and hachoir-subfile: exactly the positions where a parser of the list has its signature (string or "
  "magic_regex, signatures which don't overlap each other) in the searched range (--offset, --size), whose content is valid for this parser, are "
  "reported, once, in order, with the content size; the content of a file of a format to be skipped (subfile tag) isn't searched; --category and --parser "
  "restrict the list. The content size of a PNG, JPEG, GIF, BMP, ICO, WMF, WAV, AVI, ANI, AU, AIFF, MIDI, Ogg, ZIP, CAB, TAR (up to its first zero block) and SWF file is its real size, whatever follows; so is the one of an ASF, Matroska, MP3 or PE file when there is one. With an "
  "output directory each reported file with a content size below 100 MB, except the whole stream, is written under the next number and the suffix of its "
  "format with exactly its bytes; without one nothing is written.",
  "every arrangement of files, false signatures and other bytes, every slice size and search range",
  "Tests search two samples which hold two pictures each, in one slice.",
  "hachoir/subfile/search.py hachoir/subfile/pattern.py hachoir/subfile/output.py hachoir/subfile/main.py",
  [("SearchSubfile.findMagic, searchSubfiles, processParser", "hachoir/subfile/search.py"), ("HachoirPatternMatching", "hachoir/subfile/pattern.py"),
   ("Output.writeFile", "hachoir/subfile/output.py"), ("createContentSize of the parsers", "hachoir/parser/")],
  "differential property testing: generated streams, searched against every signature of every parser tried at every position; generated well-formed files "
  "of known size for the content sizes",
  "Up to 6 segments; slices from 44 bytes (the longest signature). When signatures overlap only soundness (nothing invalid is reported) is checked.")

P("C25", "The parser of a file depends on its tags and content only",
  "QueryParser tries the parsers matching each tag in turn (id, category, mime, file_ext, filename whose lower case extension is a file_ext, class, a function), "
  "then all the others in the order of the list of parsers, unless the tag None is met: the same list each time. Parsers are validated unless a known identifier or a class is asked. "
  "guessParser() gives the first one which accepts the content, with the attributes of the args tag, whatever the errors of the others, or None, after which the "
  "stream can still be read; the same object again as long as it lives. createParser() does it for a path or a file object, with or without a name, right or "
  "misleading; a generated PNG, GIF, BMP, ICO, WAV, AU, AIFF, MIDI, ZIP, TAR, gzip, bzip2 or SWF file which no other parser accepts is given to its parser; "
  "without parser the file is closed, and with one when the parser is; a missing or empty file raises InputStreamError. ParserList registers only parsers with valid "
  "tags and a new identifier, and lists them all.",
  "every content, file name and list of tags",
  "Tests open each sample once, under its own name.",
  "hachoir/parser/guess.py hachoir/parser/parser_list.py hachoir/parser/parser.py hachoir/stream/input_helper.py",
  [("QueryParser._getByTag, parse, doparse", "hachoir/parser/guess.py"), ("createParser", "hachoir/parser/guess.py"), ("ParserList.add, print_", "hachoir/parser/parser_list.py"),
   ("HachoirParser.__init__ (validation)", "hachoir/parser/parser.py")],
  "model-based property testing: the list of parsers computed from their tags alone, each one validated on a fresh stream, against QueryParser, guessParser() and createParser()",
  "Files up to 60 kB; up to 5 tags. After a query which forces a class the parser kept for the stream may be that one.")

P("C26", "Metadata keep each valid value once and export them by priority",
  "Any values set on a metadata, or on its groups: texts are decoded, trimmed, their newlines normalised and cut at MAX_STR_LENGTH; values of another type than the "
  "one of the key, out of its range (size 1 to 20000, 8 channels, 192 kHz, 64 bits per sample, 256 bits per pixel, 500 Mbit/s, 150 fps, 1 ms to 365 days, track 1 to 999, years 1850 to 2030, "
  "NaN...), empty or already there are skipped without an error; of two texts of which one starts with the other the longer is kept at the place of the first; "
  "\"3/12\" as a track number also sets the total. get(), getText(), getValues(), has(), bool agree. exportPlaintext() lists all the values of priority up to the one "
  "asked (limited to 100..999) by priority, groups after, with descriptions or keys; exportDictionary() has the same keys. Empty groups are skipped, \"key[]\" "
  "groups numbered, another group of the same key refused; a group takes the quality of its parent.",
  "every sequence of values of every key and every export option",
  "Tests read a few values of the samples; most rules depend on what was set before.",
  "hachoir/metadata/metadata.py hachoir/metadata/metadata_item.py hachoir/metadata/filter.py hachoir/metadata/register.py hachoir/metadata/setter.py",
  [("Data.add", "hachoir/metadata/metadata_item.py"), ("Metadata.exportPlaintext, exportDictionary", "hachoir/metadata/metadata.py"), ("MultipleMetadata.addGroup", "hachoir/metadata/metadata.py"),
   ("registerAllItems", "hachoir/metadata/register.py")],
  "model-based property testing: a reference store, compared after generated sequences of assignments",
  "Up to 14 values per metadata, 5 groups. exportDictionary() keeps one value per key, and one group per title: which one isn't checked.")

P("C27", "Dates written in files are read, whatever the locale",
  "parseDatetime() on any text: a year, YYYY-MM-DD, YYYY-MM-DD HH:MM:SS, MM-DD-YYYY HH:MM:SS (separators - / . : and spaces), \"February 2007\", \"Thu, 19 Jul 2007 09:03:57\" and "
  "\"Sun Feb 24 15:51:09 2008\", both with an optional timezone from -2300 to +2300, give this date, with its timezone; anything else and impossible dates give None, "
  "never an exception; the locale of the process is unchanged. A date set on a metadata is kept if it is in 1850..2030 at UTC.",
  "every date, format, separator, timezone and damage to them",
  "Doctests read six dates.",
  "hachoir/metadata/setter.py hachoir/metadata/timezone.py hachoir/metadata/filter.py",
  [("parseDatetime", "hachoir/metadata/setter.py"), ("DatetimeFilter", "hachoir/metadata/filter.py"), ("Timezone", "hachoir/metadata/timezone.py")],
  "differential property testing: texts written from generated dates, with mutations, against an independent tokenizer",
  "Locales C and C.UTF-8, the ones installed here.")
P("C28", "The metadata of a picture are those stored in the file",
  "For any valid PNG, GIF, BMP (headers of 12, 40 and 108 bytes, lines from bottom or top), ICO, PCX, TGA, TIFF (both endians), PSD, XCF, placeable WMF, EMF and JPEG file (JFIF, EXIF with GPS, "
  "Photoshop/IPTC, comments), extractMetadata() gives the width, height, bits per pixel, number of colors, pixel format, compression, format version, resolution in dots per inch, compression rate, "
  "dates, texts (title, author, comment, copyright, producer, city, country), orientation, camera settings, latitude, longitude, altitude and libjpeg quality that the file contains, in its endian and its "
  "units, and none of those it doesn't contain; each icon of an ICO file is a group. A second extraction gives the same result.",
  "every valid picture of these formats: sizes, depths, layouts, optional headers, endians, units, missing or repeated metadata",
  "The tests have one or two files per format.",
  "hachoir/metadata/image.py hachoir/metadata/jpeg.py hachoir/parser/image/bmp.py hachoir/parser/image/gif.py hachoir/parser/image/ico.py hachoir/parser/image/pcx.py hachoir/parser/image/tga.py "
  "hachoir/parser/image/png.py hachoir/parser/image/tiff.py hachoir/parser/image/exif.py hachoir/parser/image/iptc.py hachoir/parser/image/photoshop_metadata.py hachoir/parser/image/jpeg.py "
  "hachoir/parser/image/psd.py hachoir/parser/image/xcf.py hachoir/parser/image/wmf.py",
  [("JpegMetadata", "hachoir/metadata/jpeg.py"), ("PngMetadata", "hachoir/metadata/image.py"), ("BmpMetadata", "hachoir/metadata/image.py"), ("IFD", "hachoir/parser/image/exif.py"),
   ("Photoshop8BIM", "hachoir/parser/image/photoshop_metadata.py")],
  "property testing against a generator: pictures are written from generated facts by an independent writer and read back",
  "Sizes up to 20000 pixels; metadata that the library doesn't read (ICC, XMP, compressed texts) are only skipped.")

P("C29", "The metadata of a sound are those stored in the file",
  "For any valid WAV, AU, AIFF/AIFC, MPEG audio (versions 1, 2, 2.5, layers I to III, constant or variable bit rate, ID3 v1, v1.1, v2.2, v2.3 and v2.4 in every charset, with an extended header, "
  "flags and padding), FLAC, Ogg (Vorbis, Theora, OGM video, several streams), RealAudio and RealMedia file, extractMetadata() gives the sample rate, number of channels, bits per sample, "
  "duration, bit rate, compression, format version, compression rate, titles, names, comments, dates, track numbers, URLs, width, height and frame rate that the file contains, and none of those "
  "it doesn't contain; a stream of a multimedia file is a group. With a variable bit rate, the bit rate is between the lowest and the highest one of the frames and the duration is the size "
  "divided by it. A second extraction gives the same result.",
  "every valid sound of these formats: rates, tags and their versions, charsets and flags, order and number of chunks, pages and streams",
  "The tests have one or two files per format, most with one version of tag in one charset.",
  "hachoir/metadata/audio.py hachoir/metadata/riff.py hachoir/parser/audio/mpeg_audio.py hachoir/parser/audio/id3.py hachoir/parser/audio/aiff.py hachoir/parser/audio/au.py "
  "hachoir/parser/audio/flac.py hachoir/parser/audio/real_audio.py hachoir/parser/container/ogg.py hachoir/parser/container/realmedia.py hachoir/parser/container/riff.py",
  [("MpegAudioMetadata", "hachoir/metadata/audio.py"), ("OggMetadata", "hachoir/metadata/audio.py"), ("ID3_Chunk", "hachoir/parser/audio/id3.py"), ("ID3v1.getVersion", "hachoir/parser/audio/id3.py"),
   ("Frame.getFrameSize", "hachoir/parser/audio/mpeg_audio.py"), ("Chunk", "hachoir/parser/audio/aiff.py")],
  "property testing against a generator: sounds are written from generated facts by an independent writer and read back",
  "Unsynchronised tags and ID3 frames that the library doesn't know aren't asked for; sounds of at most 40 frames.")

P("C30", "The metadata of a video are those stored in the file",
  "For any valid AVI, animated cursor (RIFF ACON), ASF/WMV/WMA, Flash video, Matroska/WebM and MPEG-4/QuickTime file, extractMetadata() gives the width, height, frame rate, duration, bit rate, "
  "compression, sample rate, number of channels, bits per sample or pixel, language, titles, names, comments, dates, track numbers and MIME type that the file contains and none of those it "
  "doesn't contain; each audio, video and subtitle stream is a group with the facts of that stream, whatever the order of the objects, tags, streams and boxes of the file, their optional padding, "
  "and whether optional ones are missing. A second extraction gives the same result.",
  "every valid video of these formats: streams, order and presence of the objects, tags, sizes of length fields",
  "The tests have one to three files per format, most written by one program, with every optional object present.",
  "hachoir/metadata/video.py hachoir/metadata/riff.py hachoir/parser/video/asf.py hachoir/parser/video/flv.py hachoir/parser/video/amf.py hachoir/parser/container/mkv.py "
  "hachoir/parser/container/mp4.py hachoir/parser/container/riff.py",
  [("AsfMetadata", "hachoir/metadata/video.py"), ("FlvMetadata", "hachoir/metadata/video.py"), ("MkvMetadata", "hachoir/metadata/video.py"), ("MP4Metadata", "hachoir/metadata/video.py"),
   ("RiffMetadata", "hachoir/metadata/riff.py"), ("Chunk", "hachoir/parser/container/riff.py"), ("parseMixedArray", "hachoir/parser/video/amf.py")],
  "property testing against a generator: videos are written from generated facts by an independent writer and read back",
  "At most five streams and a few kilobytes; no compressed picture is decoded; AMF values that the library doesn't know (null, long strings) aren't asked for.")

P("C31", "The list of an archive is the one stored, and each entry has its exact content",
  "For any valid tar (POSIX ustar with a prefix, GNU, pax with short names, version 7), ZIP (stored or compressed, with extra fields, comments, 64-bit sizes, or written to a pipe), gzip, bzip2, Microsoft "
  "cabinet (uncompressed or MSZIP, with reserved areas and folders in any order) and MAR archive, extractMetadata() describes its entries in order: full name, size, compressed size, "
  "compression, rate, date, attributes, type and owner; only the first ones under a quality below the best one, all of them with the best one. The stream of an entry (or of a cabinet folder, or the "
  "data of a Unix ar entry) is the exact content with the name of the entry, even when it looks like a part of the archive. An OpenDocument ZIP has the MIME type and suffix of its first file.",
  "every valid archive of these formats: names, types, sizes, dates, flags, optional parts, contents, order of the data",
  "The tests have one archive per format; most check the first entry only.",
  "hachoir/metadata/archive.py hachoir/parser/archive/tar.py hachoir/parser/archive/zip.py hachoir/parser/archive/gzip_parser.py hachoir/parser/archive/bzip2_parser.py "
  "hachoir/parser/archive/cab.py hachoir/parser/archive/mar.py hachoir/parser/archive/ar.py hachoir/parser/common/deflate.py",
  [("ZipMetadata", "hachoir/metadata/archive.py"), ("TarMetadata", "hachoir/metadata/archive.py"), ("CabMetadata", "hachoir/metadata/archive.py"), ("FileEntry", "hachoir/parser/archive/tar.py"),
   ("FileEntry", "hachoir/parser/archive/zip.py"), ("CabFile", "hachoir/parser/archive/cab.py"), ("GzipParser", "hachoir/parser/archive/gzip_parser.py"), ("MarFile", "hachoir/parser/archive/mar.py")],
  "differential testing against the writers of the standard library (tarfile, zipfile, bz2, zlib) and independent writers (cab, mar, ar, gzip header)",
  "At most ten entries of about a kilobyte; a stored entry written to a pipe doesn't contain a valid descriptor (ambiguous by the format); LZX and Quantum folders, GNU/pax long name records and "
  "multi-member gzip are not covered.")

P("C32", "The metadata of fonts, programs, Flash, torrents, disc images are those stored",
  "For any valid TrueType/OpenType font, X11 pcf font, Windows executable or DLL (PE, 32 or 64 bits), uncompressed Flash file, torrent and ISO 9660 image, extractMetadata() gives the names and "
  "texts (titles, authors, producers, copyrights, versions, URL, comments: CPU, subsystem, other version strings, font direction, smallest readable size, piece length, frame count), dates, file name "
  "and size, width and height in pixels, frame rate and format version that the file contains, in their charset, and none of those it doesn't contain, whatever the order of the tables, sections, keys and "
  "records of the file and whether optional ones are missing. A second extraction gives the same result.",
  "every valid file of these formats: texts, charsets, order and presence of the tables, sections, resources and keys",
  "The tests have one file per format, in English, with the usual order of its parts.",
  "hachoir/metadata/misc.py hachoir/metadata/program.py hachoir/metadata/file_system.py hachoir/parser/misc/ttf.py hachoir/parser/misc/pcf.py hachoir/parser/misc/torrent.py "
  "hachoir/parser/program/exe.py hachoir/parser/program/exe_pe.py hachoir/parser/program/exe_res.py hachoir/parser/container/swf.py hachoir/parser/file_system/iso9660.py",
  [("TTF_Metadata", "hachoir/metadata/misc.py"), ("TorrentMetadata", "hachoir/metadata/misc.py"), ("PcfMetadata", "hachoir/metadata/misc.py"), ("SwfMetadata", "hachoir/metadata/misc.py"),
   ("ExeMetadata", "hachoir/metadata/program.py"), ("ISO9660_Metadata", "hachoir/metadata/file_system.py"), ("PE_Resource", "hachoir/parser/program/exe_res.py"),
   ("VersionInfoNode", "hachoir/parser/program/exe_res.py")],
  "property testing against a generator: files are written from generated facts by an independent writer and read back",
  "Strings of a font which overlap without being equal and NE (16-bit) programs are not covered (the existing tests pin a wrong meaning of the flags of the latter); compressed Flash has no metadata.")

P("C33", "The streams and the properties of an OLE2 document are read as they are stored",
  "For any valid OLE2 document (sectors of 128, 512 or 4096 bytes in any order, with or without a second level for the table of the FAT, storages, streams of any size): each stream, in the file or in the "
  "mini stream, has its name, its size and its exact content, whichever of its fragments is asked, and nothing but the padding of its last sector after; the content size is the one of the file. "
  "extractMetadata() gives the titles, authors, comments, producer, dates, number of pages and other properties of the summary and document summary streams, narrow (in the code page of the set) or wide, "
  "in any order, with vectors, thumbnails, null times and a user section among them, and none of those it doesn't contain.",
  "every valid document: streams, sizes, order of the sectors, property sets",
  "The tests have one Word document, whose sectors are in order, and check no metadata of it.",
  "hachoir/parser/misc/ole2.py hachoir/parser/misc/ole2_util.py hachoir/parser/misc/msoffice.py hachoir/parser/misc/msoffice_summary.py hachoir/field/fragment.py hachoir/metadata/misc.py",
  [("OLE2_File", "hachoir/parser/misc/ole2.py"), ("RootEntry", "hachoir/parser/misc/msoffice.py"), ("SummarySection", "hachoir/parser/misc/msoffice_summary.py"),
   ("CustomFragment", "hachoir/field/fragment.py"), ("OLE2_Metadata", "hachoir/metadata/misc.py")],
  "property testing against a generator: documents are written by an independent writer (MS-CFB, MS-OLEPS) from generated streams and properties",
  "Code pages 1250, 1251, 1252, Mac Roman and UTF-8 (the library knows no multibyte code page), the code page is the first property; content of Word, Excel and PowerPoint streams not covered.")


P("C34", "Serialized data is decoded to the values it was made from",
  "For any value stored in a binary property list, in a compiled Python file (.pyc of Python 1.5 to 3.13, code objects included), in ASN.1 DER, in a Java serialization stream or in bencode (torrents): the parser reads "
  "the whole data without an error, and the objects, numbers, texts, dates, object identifiers, lists and dictionaries it gives are the stored ones, in their order and of their types; references (shared objects of a "
  "property list or of a .pyc, Java handles, also across resets) lead to the object they mean; createXML() of a binary property list gives the XML of the same value; the display of Java objects, "
  "arrays and field types says what they hold; each item of a bencoded dictionary has the name of its key.",
  "every value of the formats, every layout of them (sizes of integers and references, sharing, versions of Python)",
  "The tests have one .pyc, one DER certificate, one bplist, one .ser and one torrent, and check no more than some of their fields.",
  "hachoir/parser/misc/bplist.py hachoir/parser/program/python.py hachoir/parser/container/asn1.py hachoir/parser/program/java_serialized.py hachoir/parser/misc/torrent.py",
  [("BPList", "hachoir/parser/misc/bplist.py"), ("PythonCompiledFile", "hachoir/parser/program/python.py"), ("ASN1File", "hachoir/parser/container/asn1.py"),
   ("SerializedObject", "hachoir/parser/program/java_serialized.py"), ("TorrentFile", "hachoir/parser/misc/torrent.py")],
  "property testing against generators: the values are generated and written by independent writers (plistlib and our own ones), then read back and compared",
  "Dates of a property list between 1970 and 2100 only, UIDs have no XML; no development version of Python, no line table; ASN.1: definite lengths and tags below 31; bencode: keys without slash.")


P("C35", "A disk image gives its partitions, directories, files and their content",
  "For any valid disk: the partition table of a MBR gives the place and the content of each partition, logical ones included; a FAT12, FAT16 or FAT32 file system gives each entry of each directory (name, "
  "attributes, dates, size) and, following its link, the exact content of each file and the entries of each directory, contiguous or fragmented, read before or after the rest; an ext2 file system gives its groups, "
  "bitmaps, inodes (mode, owner, times, size, device, target of a link) and the blocks of each file, with the names of the directories; an NTFS file system gives the records of its MFT with their attributes, "
  "resident data, names, times and runs of clusters; a Linux swap gives its pages and bad pages.",
  "every valid disk: geometry, tree of files, allocation of the clusters and blocks",
  "The tests have a few disks and look at some fields of the boot records and of the first entries; no test reads a file of a FAT disk, an extended partition, a file of two blocks or an NTFS disk.",
  "hachoir/parser/file_system/fat.py hachoir/parser/file_system/mbr.py hachoir/parser/file_system/ext2.py hachoir/parser/file_system/ntfs.py hachoir/parser/file_system/linux_swap.py hachoir/field/link.py "
  "hachoir/field/fragment.py hachoir/field/seekable_field_set.py hachoir/parser/common/msdos.py",
  [("FAT_FS", "hachoir/parser/file_system/fat.py"), ("MSDos_HardDrive", "hachoir/parser/file_system/mbr.py"), ("EXT2_FS", "hachoir/parser/file_system/ext2.py"),
   ("NTFS", "hachoir/parser/file_system/ntfs.py"), ("LinuxSwapFile", "hachoir/parser/file_system/linux_swap.py"), ("Fragment", "hachoir/field/link.py")],
  "property testing against generators: disks are written by independent writers from generated trees of files",
  "FAT: up to 100 clusters, the top 4 bits of the FAT32 entries are zero; ext2: 3 groups, files up to one indirect block, without holes, in the group of their inode; NTFS: MFT in one run, no fixup of the sectors; "
  "MBR: extended partitions of type 5, partitions which don't overlap.")

P("C36", "A valid file is read whole: no error, nothing left over, each content a field",
  "For any valid picture, sound, video, archive, font, program, document, serialized value or disk of a supported format, with any of its optional parts, reading all its fields reports no error and no warning, and "
  "leaves no byte unread (nothing but null bytes of alignment between the parts, or the bytes after the end of an archive), and each field has a description, a display and a raw display; each content stored as it "
  "is in a picture, a sound, a video or a document (pixels, samples, packets, palette, profile, private data) is exactly one field: same address, same size, same bytes; the resources of the Photoshop files hold the numbers and texts stored in them; "
  "the constants, declarations and instructions of Java classes, the items, names, dates and blocks of Windows shortcuts, the values of RPM packages, the samples and notes of Amiga modules, the packets of transport streams and the dates of captured packets are "
  "the values, displays or descriptions of their fields.",
  "every valid file of the formats generated: optional parts, sizes (null included), order of the parts, byte order",
  "The tests read some fields of one file per format, and never look at the warnings or at what is left over; the parser repairs its errors silently, so a part which is no longer read is only a missing field.",
  "hachoir/parser/archive/ hachoir/parser/audio/ hachoir/parser/container/ hachoir/parser/file_system/ hachoir/parser/image/ hachoir/parser/misc/ hachoir/parser/program/ hachoir/parser/video/ "
  "hachoir/field/generic_field_set.py hachoir/field/seekable_field_set.py",
  [("GenericFieldSet._fixFeedError", "hachoir/field/generic_field_set.py"), ("RootSeekableFieldSet._fixLastField", "hachoir/field/seekable_field_set.py"), ("HachoirParser", "hachoir/parser/parser.py")],
  "property testing against generators: files are written part by part, the contents put in them are recorded; invariant over the whole tree and over the messages",
  "The coded data of JPEG and FLAC are random bytes, whose own fields are not looked at; messages about names present twice and texts not in the charset of the file are allowed; the generated tables of names of the fonts may "
  "overlap, which is told.")

P("C37", "The command line tools print what the library reads; damage never stops them",
  "For any files, damaged, absent or of no known format included: hachoir-grep prints each text field whose value holds the pattern (with or without case) or each text, in the order of the file, with its address, path "
  "and value as asked, and ends quietly when its output is closed; hachoir-metadata prints for each file the metadata of the level, quality and length asked (or its type, or its MIME type), goes on after a file "
  "which fails, names it, and exits with 0 only if all succeeded; listtool lists each field once below its parent with its class, size, description and display; the metadata of any damaged file are extracted and "
  "exported (text, dictionary, str) without exception, and the accessors agree with the lines exported.",
  "every set of files of the formats generated, with any damage; every combination of options",
  "The tests call grep on one file and metadata on undamaged samples through the library; the programs, their options, their exit status and damaged files have no test.",
  "hachoir/grep.py hachoir/listtool.py hachoir/metadata/main.py hachoir/metadata/metadata.py hachoir/metadata/metadata_item.py hachoir/core/cmd_line.py",
  [("ConsoleGrep", "hachoir/grep.py"), ("printFieldSet", "hachoir/listtool.py"), ("processFile", "hachoir/metadata/main.py"), ("extractMetadata", "hachoir/metadata/metadata.py")],
  "property testing of whole programs: differential oracle against an independent walk over the fields and the metadata of the same files",
  "The programs run inside the process of the check with their own arguments and outputs; the values themselves are those of C28 to C36; no profiler, benchmark or graphical program. hachoir-strip and hachoir-subfile are "
  "in C21 and C24.")

P("C38", "Limits of time and memory, and the log, obey and leave the process as it was",
  "limitedTime() gives the result or the error of the function called if it ends before its limit (rounded up to a second, at least one), and raises Timeout once the limit is over; limitedMemory() lets the function "
  "allocate less than its limit, and raises MemoryError above; in any case, and after any sequence of calls, the alarm, its handler and both memory limits of the process are what they were; setMemoryLimit() sets the "
  "soft limit or tells that it can't. Each message of the log is written once to the terminal, the file and the callback in use, with its level and its context, unless it is silenced by the quiet or not verbose mode.",
  "every sequence of calls, results, errors, limits; every sequence of messages and changes of outputs",
  "No test calls these functions.",
  "hachoir/core/timeout.py hachoir/core/memory.py hachoir/core/log.py hachoir/core/error.py",
  [("limitedTime", "hachoir/core/timeout.py"), ("limitedMemory", "hachoir/core/memory.py"), ("Log.newMessage", "hachoir/core/log.py")],
  "property testing in separate processes against a model (sequence of calls, list of messages)",
  "Linux; limits of 0 to 2 s against calls of 0 to 0.3, 1.25 and 3 s; allocations far from the limits; nested time limits are not claimed (the inner one ends the outer one).")

P("C39", "Each number stored in a valid file is read with its value, under its own name",
  "For any valid picture, sound, video, archive, font, program, document, disk or serialized value of a supported format: each integer or real number written in a structure of the file is the value of one field, at "
  "its place, of its size, with its sign and its byte order (a date or a duration is the moment or the time that the number means), and this field has the name that the format gives to this number; a number whose "
  "bits are flags or small numbers is the fields named after these bits, in their order, without a bit left.",
  "every valid file of the formats generated: any value of the numbers, byte orders, 32 and 64 bit variants",
  "The tests compare at most a few fields of one file per format: two fields of the same size swapped, a flag at the wrong bit, a number read as unsigned or in the wrong byte order are seen by no test.",
  "hachoir/parser/archive/ hachoir/parser/audio/ hachoir/parser/container/ hachoir/parser/file_system/ hachoir/parser/image/ hachoir/parser/misc/ hachoir/parser/program/ hachoir/parser/video/ "
  "hachoir/field/integer.py hachoir/field/float.py hachoir/field/bit_field.py hachoir/field/timestamp.py",
  [("GenericInteger.createValue", "hachoir/field/integer.py"), ("Bits.createValue", "hachoir/field/bit_field.py"), ("HachoirParser", "hachoir/parser/parser.py")],
  "property testing against generators: the numbers written by struct.pack() while a file is built are looked for in the tree of fields; names from a table checked against the specifications",
  "Numbers in structures of at least 4 different bytes found once in the file; fixed point numbers, and structures the parser doesn't split, are left out by an explicit list; the values of the numbers are those of the "
  "generators (many are constants).")
