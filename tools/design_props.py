D = {}
D["C01"] = """Generated: a tree of streams (string, file, pipe with shrunk blocks, window at any bit offset, concatenation, fragments, field
  streams) with its bits as a Python list, and a history of readBits/readInteger/readBytes/read/sizeGe, in both (three) byte orders, including
  reads past the end. Oracle: the slice of the list; a refused read changes nothing. Reaches: state kept between reads (pipe cache, lazily known
  size, fragment table), which a test that reads fixed addresses once never sets."""
D["C02"] = """Generated: haystacks with the needle planted around multiples of the block size, before the start and across the end; streams of
  unknown size. Oracle: `bytes.find` on the bytes of the window, `None` when absent."""
D["C03"] = """Generated: interleavings of seek/tell/read on two views and of reads of the stream itself. Oracle: two `io.BytesIO`."""
D["C04"] = """Generated: writes of bits, integers, bytes and copies from an input stream, in each byte order. Oracle: a list of bits; bits of a
  byte which isn't complete stay pending."""
D["C05"] = """Round trips and differences with `int.from_bytes`, `format(…, 'b')`, `bisect`; every width, 8 subchecks, one per function."""
D["C06"] = """Oracle: datetime/timedelta/Fraction arithmetic. Values around each limit (epoch, year 9999, unit boundaries)."""
D["C07"] = """Oracle: a character by character reference; the output is displayable and, where documented, reversible."""
D["C08"] = """Stateful: dictionary operations (append, insert, replace, delete, lookups by key and index, refused ones) against a list of pairs;
  events against a list of connections."""
D["C09"] = """Generated: sequences of 30 field types from any bit offset. Oracle: the bits interpreted by struct, datetime, Fraction (displays are
  parsed back: the displayed number has to denote the value at its displayed precision)."""
D["C10"] = """Generated: formats (C string, lines, Pascal, fixed), charsets, strip, truncate, nbytes. Oracle: an independent decoder."""
D["C11"] = """Generated *formats* (classes built from data: nested sets, arrays, repeated names, paddings, static sizes) over random content, and
  the sample files. Oracle: the layout computed from the description: fields tile the set, each is at its path, index, address and array slot."""
D["C12"] = """Metamorphic: a random program of accesses (paths, indices, partial iterations, resets, descriptions, missing fields) sees exactly what
  a sequential reading sees; from a string, file, pipe, window and concatenation; values read twice are equal."""
D["C13"] = """Structure-aware fuzzing: fields of a sample file are overwritten at addresses taken from its own tree, cut or extended; and bytes
  which begin by a magic number for each parser, forced or guessed. Oracle: no exception but those of the library, terminates, the tree tiles the
  file, a second reading gives the same tree."""
D["C14"] = """Generated formats with planted errors and cuts. Oracle: exact model of what remains (fields before the error, a raw field for the
  rest, siblings untouched); for unknown sizes, invariants against the intact tree."""
D["C15"] = """Histories of replaceField / writeFieldsIn / getFieldByAddress on a partly read set. Oracle: a list of slots; a refused
  replacement changes nothing."""
D["C16"] = """Seek scripts (nested, backward, overlapping, past the end). Oracle: intervals on a bitmap; raw fields are exactly the gaps."""
D["C17"] = """Streams of fields, fragment chains out of file order, fragment groups, links, sub-files, Ogg logical streams. Oracle: concatenation
  of the pieces written; asked in any order, at any nesting."""
D["C18"] = """Contents compressed by zlib/bz2/zipfile at all levels and strategies, and by our own deflate and LZX *encoders* which produce any
  legal stream (any block types, any codes, any distances). Oracle: the content."""
D["C19"] = """Sequences of values and deletions at any depth on generated formats and sample files. Oracle: a tree of nodes with their bits; saved
  file = model; refused edits change nothing; unedited = identical."""
D["C20"] = """Insertions before/after any field (also inserted or deleted ones), mixed with C19's edits. Oracle: list of slots."""
D["C21"] = """Chunked files (PNG, JPEG, MP3, AU, RIFF, TAR) built with and without the parts to strip. Oracle: the file built without them (sizes and
  checksums recomputed); the program itself is run too."""
D["C22"] = """Expression trees (shared prefixes, adjacent characters, nested repetitions), built by parse() and by the operators. Oracle: Python's `re`
  on the same tree without simplification, on texts derived from the tree, mutated and spliced. Two wrong simplifications are pinned by the tests
  and doctests of the repository: `known:` entries, demonstrated by the subcheck `known` and excluded from generation by their structure."""
D["C23"] = """Sets of strings and expressions. Oracle: each pattern compiled alone by `re`; every gap is searched too."""
D["C24"] = """Streams made of noise, false signatures and generated files. Oracle: every signature of every parser tried at every position; the
  files written are compared byte by byte. `sizes`: 25 kinds of generated files followed by a tail have their real size as content size."""
D["C25"] = """Lists of tags, names, contents. Oracle: the list of parsers computed from their tags alone, each parser validated alone on a fresh stream."""
D["C26"] = """Sequences of assignments (types, languages, prefixes, duplicates, lists) and groups. Oracle: a reference store; text, lines and
  dictionary exports at each priority and quality."""
D["C27"] = """Texts written from dates in each documented format, mutated. Oracle: an independent tokenizer."""
D["C28"] = """16 kinds of pictures and JPEG with EXIF (both byte orders, IFDs in any place), IPTC, JFIF, Adobe, comments. Oracle: the facts they
  were written from, and nothing more (absent metadata have to be absent)."""
D["C29"] = """9 kinds of sounds; ID3v2 in every version and charset; frames of any bit rates; interleaved Ogg streams."""
D["C30"] = """AVI, MOV/MP4, ASF, FLV, Matroska, MPEG video, RIFF animations... streams, tags, unknown objects anywhere."""
D["C31"] = """tar, ZIP, gzip, bzip2, cab, MAR, ar; listing at every quality, content of each entry through its sub-stream."""
D["C32"] = """TrueType/OpenType, PCF, PE (resources, version strings), SWF, torrent, ISO 9660. Includes empty names, names out of the table,
  blank version strings."""
D["C33"] = """OLE2 documents: sectors in any order, mini stream, both sector sizes, two level FAT (`big`), property sets with every type read."""
D["C34"] = """Values written as binary property lists, .pyc of 20 versions, DER, Java serialization, bencode, by independent writers; the tree
  decoded has to be the value."""
D["C35"] = """Disks written from trees of files: MBR (logical partitions), FAT12/16/32 (long names, fragmented), ext2, NTFS, swap."""
D["C36"] = """All the generators of C28 to C35: the whole tree is read with the log recorded (no message but those of an allow-list, no `raw[]` or `unparsed[n]`
  left by the automatic repair but alignment); the contents put in the file are recorded while it is written, each one found once in the file must be a field
  with its address, size and bytes. The formats without
  metadata are here too: tables and fragments of QuickTime (vh/movie.py), ELF and captures of packets (vh/programs.py), Java classes with their instructions
  (vh/java.py), Windows shortcuts (vh/shortcuts.py), RPM packages, Amiga modules and MPEG transport streams (vh/packages.py): they also tell values, displays and descriptions of
  fields (`values`, `shown`, `told`), rebuilt from what was written. Cost: 80 s for 12,800 cases."""
D["C37"] = """The programs run with random options on 1 to 3 generated files, whole or damaged (cut, bytes changed) or absent, empty, unknown, directories;
  expected output rebuilt from a walk over a second parser of the same file (hachoir-grep forgets each set once read, the walk doesn't).
  Damaged files: accessors, lines, dictionary and text of the metadata are compared with each other."""
D["C38"] = """Each sequence runs in a process of its own; results, errors, pending alarm, signal handler and both limits are compared with the expected ones after
  each call; messages with a model of the log."""
D["C39"] = """The `struct` module of the generators is replaced by one which records each number written (structure, index, value); a structure found once in the
  file gives the place of its numbers; the field there must have the same value, and a name of vh/layout.json. That table was written by tools/layout.py from the
  tree, then each line compared with the specification of its format (a note after "#" in a format of vh/binary.py tells structures of the same form apart; this found the ISO 9660, TrueType and animated cursor defects). Cost: 45 s for 6,500 files
  (about 250,000 numbers)."""

AFTER = ["""## Planted bugs

Each one was confirmed (builds, stable tests pass, its demonstration fails with it and passes without) in a scratch clone, then given to the check
of its property. All of the ones below are caught by the check of the property named. Those first missed, and what was changed: c05-bin2long-digits
(every alphabet of digits), c26-filter-tuple (filters applied to pairs), c28-png-transparent-gray (suggested palettes), c30-asf-slash (names with a
slash), c34-torrent-key-name (keys named like attributes), c22-range-and-prefix (expressions which share parts, spliced texts),
c29-real-fileinfo-title (described file information), c32-version-empty-string (blank strings), c39-theora-offsets (whole headers in one structure, with varied numbers), c32-ttf-version (empty names and names out of the
table; the generator of the former found a genuine defect). c20-len-deleted was first given to C19; c13-truncate-fieldset belongs to C14.

| bug | property | needs | breaks |
|---|---|---|---|
""", """## Automatic mutations

`tools/mutate.py` changes one operator, constant or condition of a line reached by the checks, keeps the mutants which pass the stable tests, and
gives them to the checks of the file. Two runs: 198 mutants of hachoir/core, stream, field, editor, regex, metadata, subfile and strip (159
caught, 35 survived, 4 stopped by the tests) and 196 of hachoir/parser (101 caught, 6 endless, 85 survived). The survivors were read one by one, and
the checks strengthened when a user could see the difference (e.g. C05, C24 `sizes`, C34 `bencode`). Those left are equivalent (a cache, a limit which
isn't reached), or change a message, a description, the reason why a file is refused, or a format without generator.

## Findings

`known_findings.txt` has the defects found by the checks. The genuine ones were repaired, one `fix:` commit each (`fixed:` lines). Two are recorded
(`known:`): the wrong simplifications of regular expressions of C22, which the tests and the doctests of the repository pin.

## False alarms met, and what was done

* C25/C13: some parsers look at the *name* of the source (MPEG-TS accepts .ts names): the reference gives the same name to its stream.
* C12/C14: a set whose size isn't known may be completed differently when the file is cut inside: invariants instead of the exact model.
* C24: with overlapping signatures the pattern matching names one of them: soundness only.
* C31: a stored ZIP entry written to a pipe which contains a valid descriptor is ambiguous in the format: not generated.
* C32: two names of a font which overlap without being equal cannot both be fields: not generated. “Version ” alone is an empty version.
* C34: far dates of a property list are taken for another epoch on purpose: dates are limited to 1970–2100.
* C26: exportDictionary() keeps one value per key by construction: which one isn't promised.

## Defects and limits left out on purpose

Known to be wrong or partial, too large or too uncertain to repair, and outside of the statements: NE (16-bit) programs take bit 0 of the flags for the
DLL mark (pinned by a test); exportDictionary merges values and groups with the same header; JPEG SOS component check; IPTC extended sizes; XCF
precision; empty IDAT chunk chains; multi-member gzip and bzip2; regex `parse("(")` raises IndexError; GNU/pax long name records are listed as files;
ID3 unsynchronisation; AIFF NAME/AUTH aren't exported; AMF null/undefined/long strings; MP3 found by content may win over other parsers; ext2 holes,
double indirect blocks; FAT32 high bits; NTFS fixups; extended partitions of types 0x0f/0x85; the size of a tar archive ends at its first zero block.
Formats without a generator (covered by C11–C13 through samples and fuzzing only): guess-work audio modules (s3m, xm, ptm, itunesdb), MPEG-TS without a time before each packet (and with error correction), MPEG video,
Mach-O, NDS, PRC, RAR, ACE, ARJ, 7z, CHM, PDF, git objects, mapsforge, reiserfs. Not generated: captured packets cut by the snap length, IPv4 fragments and
extension headers of IPv6; ELF programs whose headers don't follow the file header; texts of Java classes in "modified" UTF-8 (null, beyond the BMP); the
device names and unicode volume labels of shortcuts, their flags beyond bit 17.

## Other techniques

Only property-based testing and fuzzing is used. Coverage-guided fuzzing (atheris) isn't: the inputs which matter here are deeply structured (sizes,
offsets and links which have to agree), so that generators which write well-formed files and the mutations of C13, which know where the fields are,
reach them at once.
"""]
