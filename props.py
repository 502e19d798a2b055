"""The table behind properties.jsonl and MANIFEST.json (see gen.py)."""
T_SEQ = "explicit-state model checking: every bounded operation sequence on the real code against a reference model"
T_ENUM = "bounded exhaustive enumeration of executions of the real code against an independent reference model"
T_FAULT = "exhaustive enumeration of fault points on the real code, against a reference model"
PROPS = []
FIXES = []
FINDINGS = []


def P(id, title, statement, over, quant, why, files, mech, technique=T_ENUM, note="", **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, **kw))


S = "hachoir/stream/input.py"
P("S01", "Bits, integers and bytes read from a stream are the ones at the address",
  "Reading bits, a signed or unsigned integer or bytes at a bit address and size gives the value of exactly those bits of the data in the "
  "byte order asked for (big, little or middle endian), whatever the address, size and value. Reading several values one after the other "
  "gives each the same value as alone, and a read which needs data past the end is refused with an error.",
  ["inputs"], "all addresses, sizes, byte orders and data within the bound",
  "The tests read a handful of sizes at a handful of addresses; alignment, size, order and value interact.",
  [S, "hachoir/core/bits.py"], [("readBits, readInteger, readBytes", S), ("str2long", "hachoir/core/bits.py")],
  note="Every (content, address, size, order) of the bound is read on the real stream and compared with bit-by-bit arithmetic.")
P("S02", "All kinds of input streams over the same data answer alike",
  "Streams over the same bytes - in memory, over a file, over a pipe or another unseekable or short-reading source, over a field, a "
  "window, a concatenation or fragments - give the same answers to the same sequence of reads, searches and size questions, whatever was "
  "asked before. A search finds the first occurrence inside the range asked, at the right address, also across internal buffer boundaries.",
  ["inputs", "histories"], "all request sequences up to the depth over 21 kinds of streams",
  "Tests use memory and file streams with a few reads; the state kept by buffered kinds depends on the history of requests.",
  [S, "hachoir/stream/stream.py"], [("sizeGe, read, searchBytes, searchBytesLength", S)], technique=T_SEQ,
  note="Assumes sources which return at least one byte before their end; errors of the source itself are not injected.")
P("S03", "A pipe is read once, in order, and its bytes are given back at will",
  "A stream over an unseekable source reads the source sequentially and at most as far as needed, and answers any sequence of reads and "
  "size questions, forward or backward, with the bytes of the source, whatever sizes its reads return. Its size is unknown until the end "
  "is reached, then it is the number of bytes, announced exactly once, and closing the stream closes the source.",
  ["histories", "fault_sequences"], "all request sequences and all short-read patterns within the bound",
  "The tests contain one pipe scenario; the buffer list, the end of the source and short reads interact with the order of requests.",
  [S], [("InputPipe: buffers, sizes, askSize callbacks", S)], technique=T_SEQ,
  note="Breadth-first over model states of the cache with small buffers, plus real-size boundary sequences; the source returns short reads at every point.")
P("S04", "Windows, concatenations and fragments expose exactly their bytes",
  "A window on a stream, a stream made of the content of a field, a concatenation of streams and a stream of fragments contain exactly the "
  "bytes of their range or pieces in order: reads at every address and size give those bytes, nothing of the parent outside the range is "
  "reachable, reads past the end are refused, and nesting them composes.",
  ["inputs", "programs"], "all windows, piece lists, nestings and reads within the bound",
  "The tests build a few windows; off-by-one ends and pieces of unknown size only show at particular sizes.",
  [S, "hachoir/field/sub_file.py"], [("InputSubStream, FragmentedStream, ConcatStream, InputFieldStream", S)],
  note="Every window/piece layout and every read of the bound on the real classes against slices of the data.")
P("S05", "The file view of a stream behaves like a file on the same bytes",
  "The file object given by a stream answers every sequence of reads, seeks and position questions as an in-memory file holding the same "
  "bytes would. Using it never disturbs reads of the stream or of another view of it, and the other way round.",
  ["histories"], "all operation sequences up to the depth on two views and the stream",
  "File views are used through third-party decoders in the tests; interleavings of two views and the stream are not tested.",
  [S], [("FileFromInputStream, InputIOStream.file", S)], technique=T_SEQ, note="Sequences of operations on the real objects, compared step by step with io.BytesIO.")

O = "hachoir/stream/output.py"
P("O01", "Bits, integers and bytes written to a stream read back as written",
  "Any sequence of bit, bit-group, integer and byte writes produces the bytes which, read back with the same sizes and byte order, give the "
  "values written, for every value and size, signed or not. Values which do not fit are refused, and positions and reads of the output "
  "stream account for what was written.",
  ["inputs", "histories"], "all write sequences and values within the bound",
  "Tests write aligned values; partial bytes carried from one write to the next make the sequence matter.",
  [O, "hachoir/core/bits.py"], [("writeBit, writeBits, writeInteger, writeBytes", O)], technique=T_SEQ,
  note="Every sequence of the bound is written with the real stream, compared with arithmetic packing and read back with the real input stream.")
P("O02", "Copying a range of a stream reproduces exactly that range",
  "Copying a number of bits or bytes from any address of an input stream to an output stream at any bit position appends exactly those bits, "
  "in both byte orders, for every kind of input stream and for sizes around the internal block size. A copy which needs data past the end "
  "is refused with an error.",
  ["inputs"], "all addresses, sizes and positions within the bound",
  "The editor tests copy whole fields at byte positions only.",
  [O], [("copyBitsFrom, copyBytesFrom", O)], note="Unaligned copies are limited to 256 bits by the library, which refuses more (documented limit).")

G = "hachoir/field/generic_field_set.py"
P("F01", "Fields tile the data, whatever the parser does and wherever the data ends",
  "For any parser and any data of known size, the fields of every field set follow each other from its start to its end without gap or "
  "overlap, inside their parent and inside the data, so the leaf fields cover every bit of the input exactly once. When the data ends early, "
  "or a parser fails or asks for too much, no error escapes: the fields before that point are kept unchanged and the rest of the nearest "
  "set of known size becomes one raw field.",
  ["programs", "fault_sequences"], "all parsers of a grammar (sets of known or unknown size, nesting, loops, seeks, failures) on every data length of the bound",
  "Tests parse well-formed sample files; where the data or the parser stops is a dimension they do not sample.",
  [G, "hachoir/field/parser.py", "hachoir/field/basic_field_set.py", "hachoir/field/helper.py"], [("_addField, _fixFieldSize, _fixLastField, _fixFeedError, _truncate", G)],
  note="The whole tree of each real parse is compared with an independent reference parser; streams of unknown size only with fields that fit exactly.")
P("F02", "Answers of a field tree do not depend on the order of accesses",
  "Fields looked up by name, path, index, bit address, iteration or membership, and lengths, sizes and values, are the ones of the completely "
  "parsed tree, whatever accesses came before and however iterations are interleaved; the same field is always the same object. An access "
  "by name or index parses no field behind the one asked for.",
  ["histories"], "all access sequences up to the depth over a list of parsers and data lengths",
  "Tests access fields of a sample in one order; lazy parsing makes the order of accesses matter.",
  [G, "hachoir/field/field.py", "hachoir/field/basic_field_set.py"], [("_feedUntil, readMoreFields, _feedAll, __iter__", G)], technique=T_SEQ,
  note="Accesses made by a parser to its own set while it runs are excluded.")
P("F03", "Names are unique, and every path leads to its field",
  "In a field set all names are distinct, fields declared as \"name[]\" being numbered in order and clashes being renamed, without losing a "
  "field. The path of each field is unique and leads back to it from anywhere, absolutely or relatively (\"..\", \"...\", \".\"), paths "
  "to nothing are reported as missing, and arrays of numbered fields have the right length, members and order, in any order of accesses.",
  ["programs", "histories"], "all tree shapes, name sequences and array access sequences within the bound",
  "Tests look up known names in known files.",
  ["hachoir/field/field.py", "hachoir/field/basic_field_set.py", "hachoir/field/fake_array.py", G],
  [("getField, path", "hachoir/field/field.py"), ("setUniqueFieldName", "hachoir/field/basic_field_set.py"), ("FakeArray", "hachoir/field/fake_array.py")],
  note="All pairs of fields of all trees of the bound.")
P("F04", "Replacing fields keeps the set a tiling and tells the listeners",
  "Replacing a field by one or more fields of the same total size, or writing a field inside another one, puts the new fields in its place "
  "with padding around them: names, addresses, indexes, values and lookups stay consistent and every other field is unchanged. Local and "
  "global listeners are told of the replacement and of each insertion, once and in order; a replacement of another size or with a name "
  "already used is refused and changes nothing.",
  ["histories"], "all sequences of replacements within the bound, on sets parsed completely or in part",
  "No test replaces fields.",
  [G, "hachoir/core/dict.py", "hachoir/core/event_handler.py"], [("replaceField, writeFieldsIn", G)], technique=T_SEQ, note="Sequences of operations against a list model.")
P("F05", "A set whose parser seeks is covered: fields where sought, one raw field per gap",
  "In a field set whose parser seeks freely, fields are at the addresses sought, in the order declared, and every maximal gap they leave is "
  "one raw field, so every bit of the set belongs to a field and is found by its address. No error escapes when the parser seeks past the "
  "end, fails, or yields no field at all.",
  ["programs"], "all programs of seeks and fields up to the bound, all lists of blocks",
  "Tests parse a few executables and TIFF files.",
  ["hachoir/field/seekable_field_set.py", G], [("getgaps, _fixLastField, seekBit", "hachoir/field/seekable_field_set.py")],
  note="Root sets and nested sets of known and unknown size; sets of unknown size which fail are left to F01.")
P("D01", "The ordered dictionary of fields keeps keys, values and positions consistent",
  "Under any sequence of appends, insertions, replacements, assignments and deletions the ordered dictionary behaves as a list of (key, "
  "value) pairs with distinct keys: lookups by key, positions, lengths, iterations and items agree with it. An operation on a missing or "
  "already used key or a bad position is refused and changes nothing.",
  ["histories"], "all operation sequences up to the depth",
  "Doctests show single operations; deletions and insertions shift every later position.",
  ["hachoir/core/dict.py"], [("Dict", "hachoir/core/dict.py")], technique=T_SEQ, note="Compared with a list of pairs after every operation.")

P("F06", "Bit, integer, enumeration and raw fields give the value of their bits",
  "A bit, a group of bits, an integer of any size and sign, raw bytes, padding or a character field has the size declared and the value of "
  "the bits at its address in the byte order of its set, at every position, also inside sets which change the byte order. Enumerated, "
  "hexadecimal and file-size fields keep that value, and a mapped value shows the text of the map or the default for every key.",
  ["inputs"], "all data, field kinds, sizes, orders and positions within the bound",
  "Tests read such fields in sample files at byte positions; bit positions, orders and sizes interact.",
  ["hachoir/field/bit_field.py", "hachoir/field/integer.py", "hachoir/field/byte_field.py", "hachoir/field/padding.py", "hachoir/field/enum.py", "hachoir/core/text_handler.py",
   "hachoir/field/character.py"],
  [("Bit, Bits, RawBits", "hachoir/field/bit_field.py"), ("GenericInteger", "hachoir/field/integer.py"), ("Enum", "hachoir/field/enum.py")],
  note="Real parsers of one or more such fields, compared with bit arithmetic.")
P("F07", "Strings end where their format says, and give the text of their bytes",
  "A fixed, null-ended, line or length-prefixed string field in any supported charset covers exactly the bytes of its format: prefix, mark "
  "of byte order, whole characters and end mark, in the byte order of the charset. Its value is the decoded text, truncated and stripped as "
  "asked, and the next field starts right behind it; a string whose end or mark is missing is refused.",
  ["inputs"], "all sequences of code units of the alphabets, formats, charsets, orders and options within the bound",
  "Tests decode sample strings; an end mark across two characters or byte orders which differ need particular texts.",
  ["hachoir/field/string_field.py"], [("GenericString", "hachoir/field/string_field.py")],
  note="Texts which the charset cannot decode are read as Latin-1, as documented; without a charset only ASCII text is claimed.")

P("F08", "Floating point and date fields give the value of their bits",
  "A 32, 64 or 80-bit floating point field has the IEEE value of its bits in the byte order of its set, for normal, subnormal and special "
  "numbers, and its sign, exponent and mantissa parts are those bits. Unix, Macintosh, Windows, UUID and MS-DOS dates and durations give the "
  "date their bits mean in UTC, and a number which is no date gives no value instead of an error.",
  ["inputs"], "all exponents with boundary mantissas, all MS-DOS dates and times, boundary timestamps",
  "The tests check one or two dates and floats of sample files.",
  ["hachoir/field/float.py", "hachoir/field/timestamp.py", "hachoir/core/tools.py"],
  [("floatFactory", "hachoir/field/float.py"), ("timestampFactory, TimeDateMSDOS32", "hachoir/field/timestamp.py"), ("timestampWin64, timestampMac32", "hachoir/core/tools.py")],
  note="Numbers of 100 ns are converted through a float by the library, so they are compared up to 2**-52; 80-bit numbers outside the range of doubles have no claimed value.")
P("F09", "The stream inside a field is the content of the field",
  "The stream of an embedded file, of a chain of fragments, of a group of blocks or of a compressed field contains exactly the embedded "
  "bytes, the pieces in the order of the chain or group, or the decompressed data, however it is read and whatever was accessed before. It "
  "carries the tags declared by the field, and the links between fragments lead to the first and next ones.",
  ["inputs", "histories"], "all chains, groups, sizes, codecs, histories and ways of reading within the bound",
  "Tests read a few such streams from start to end.",
  ["hachoir/field/sub_file.py", "hachoir/field/link.py", "hachoir/field/fragment.py", "hachoir/parser/common/deflate.py"],
  [("CompressedStream", "hachoir/field/sub_file.py"), ("Fragment", "hachoir/field/link.py"), ("FragmentGroup", "hachoir/field/fragment.py")],
  note="Codecs: zlib in three ways, and four models of decompressors (immediate, greedy, shrinking, late output).")
P("F10", "Static sets and vectors are their fields, with the size of their fields",
  "A field set declared by a static format has the sum of the sizes of its format as size, also before its first use and when another class "
  "redefines the format, and its fields are those of the format. A vector has the given number of items one after the other. Both behave as "
  "the same fields made one by one, wherever the data ends: same fields, length, names and raw rest.",
  ["programs"], "all formats and vectors up to the bound, on data of every length",
  "Tests parse whole sample files; truncation, redefinition and order of first use are not tested.",
  ["hachoir/field/static_field_set.py", "hachoir/field/vector.py"],
  [("StaticFieldSet", "hachoir/field/static_field_set.py"), ("GenericVector", "hachoir/field/vector.py")],
  note="The reference is the dynamic field set, whose behaviour F01 checks against an independent model.")

ED = "hachoir/editor/fieldset.py"
P("E01", "Saving an editor writes the fields as edited, the others unchanged",
  "After any sequence of values set, fields deleted and fields inserted before, after or at the end, in nested sets, the editor gives the "
  "edited tree: names, order, addresses, sizes, values and what is altered. Saving it writes exactly the bits of that tree, unedited fields as "
  "they were at whatever new bit address; an edit of a missing field or a name already used is refused.",
  ["histories"], "all sequences of edits up to the depth, on all layouts and byte orders",
  "The tests have no editor test beyond one deletion; edits interact with each other through shared lists and addresses.",
  [ED, "hachoir/editor/field.py", "hachoir/editor/typed_field.py", "hachoir/stream/output.py"],
  [("EditableFieldSet, NewFieldSet", ED), ("FakeField.writeInto", "hachoir/editor/field.py"), ("copyBitsFrom", "hachoir/stream/output.py")],
  technique=T_SEQ, note="A list model; fields follow each other (no seek), and edited bytes are not written between two bytes, which the output stream refuses.")
P("E02", "A value set in an editor is the value read from the saved file",
  "A value set in an integer, bit, character, date, byte, string or floating point field, or given to a new field, is the value found when the "
  "saved file is parsed again, at the address and with the size the editor tells, and the fields around are intact. A value which does not fit the field is refused without any effect.",
  ["inputs"], "all boundary values of all editable types, byte orders and bit positions, edited and inserted",
  "There is no test of edited values.",
  ["hachoir/editor/typed_field.py", ED, "hachoir/stream/output.py"], [("EditableInteger, EditableBits, EditableString, EditableBytes, EditableCharacter, EditableTimestampMac32",
   "hachoir/editor/typed_field.py"), ("EditableFloat", ED)],
  note="Text which contains the end mark of its own format is outside the property; refusals are ValueError, TypeError, OverflowError, struct.error or a failed assertion.")

# -- repairs: (part of the commit subject, property) --------------------------------------------------
FIXES += [
    ("a read past the end of an input window", "S04"), ("searching bytes in a stream of unknown size", "S02"),
    ("a short read of a pipe", "S03"), ("a pipe announces its size once", "S03"), ("closing a stream over a pipe", "S03"),
    ("a window open to the end of a stream of unknown size", "S04"), ("the file view of a regular file", "S05"),
    ("file view of a stream of unknown size", "S05"), ("single bits are written", "O01"), ("signed integers are written", "O01"),
    ("in-memory output streams", "O01"), ("iterating on a field set also gives", "F01"),
    ("a field added by the end of the parsing", "F02"), ("the length of a field array", "F03"), ("a repeated field name", "F03"),
    ("replacing a field by several ones", "F04"), ("replacing a key of a dictionary", "D01"), ("a field array gives the fields", "F04"),
    ("getgaps() gives no gap", "F05"), ("a seekable field set without fields", "F05"), ("a field of a seekable set is found", "F05"),
    ("a raw, padding or null field at a bit address", "F06"), ("the end of an UTF-16 or UTF-32 string", "F07"),
    ("the end of a line in UTF-16", "F07"), ("the BOM of a string", "F07"),
    ("the parts of a little endian float", "F08"), ("a static field set redefined", "F10"), ("the length of a vector", "F10"),
    ("the size of a static field set", "F10"), ("the link to the first fragment", "F09"), ("a fragment may set its links", "F09"),
    ("inserted fields keep their order", "E01"), ("a new field set without input", "E01"), ("resetting an editor", "E01"),
    ("an unedited field set is saved", "E01"), ("an edited integer is checked", "E02"), ("an edited integer is written", "E01"),
    ("new bytes can be saved", "E02"), ("an edited or new character", "E02"), ("a new Mac timestamp", "E02"),
    ("an edited or new string", "E02"), ("the value of an edited float", "E02"),
]

RX, RXP = "hachoir/regex/regex.py", "hachoir/regex/parser.py"
P("R01", "Combining regular expressions gives exactly the language it means",
  "The concatenation, alternative and repetition of expressions match exactly the texts which these operations mean, however the library "
  "simplifies the result, and leave their operands as they were. When match() says that an expression contains another one, it does; "
  "expressions which compare equal match the same texts.",
  ["programs"], "all expressions up to the number of operations, on all texts up to the length",
  "The tests compare the text of a few hundred results; a wrong simplification needs a particular pair of operands.",
  [RX], [("Regex.or_, and_, RegexRepeat, optimizeRepeatOr, RegexRange", RX)],
  note="Languages are compared on all texts up to a length over four characters; anchors only alone. Two simplifications which the tests of the library require are known findings.")
P("R02", "The lengths announced for an expression bound the texts it matches",
  "No text shorter than the minimum length or longer than the maximum length of an expression is matched, both are reached or there is no text, "
  "and an expression has no maximum length exactly when its texts have none. Comparison, text and size of an expression stay the same when it is used.",
  ["programs"], "all expressions up to the number of operations",
  "Search of patterns relies on the maximum length; the tests check a few of them.",
  [RX], [("minLength, maxLength", RX)], note="Exact lengths by structural computation on the terms.")
P("R03", "A regular expression survives being written, read back and compiled",
  "The text of every expression, written for the library or for Python, is read back as an expression of the same language, as is the compiled "
  "expression; characters which are special are escaped. A text is read with the meaning it has in Python, or refused with an error of syntax.",
  ["programs", "inputs"], "all expressions, character sets, strings and texts up to the bound",
  "Tests read and write some dozen texts.",
  [RX, RXP], [("Regex.__str__, compile", RX), ("parse", RXP)],
  note="Python's re module is the reference of the language; a text which the library refuses is outside, except in the supported grammar.")
P("R04", "Searching several patterns finds their occurrences and names the pattern",
  "Every part which the search of several strings and expressions finds is an occurrence of the pattern it is given to, in order and without "
  "overlap, and every other occurrence of any pattern overlaps a part found. Patterns added later count for the next search, and the maximum "
  "length bounds them all.",
  ["inputs", "histories"], "all sequences of patterns and histories up to the bound, on all texts up to the length",
  "The tests search one text.",
  ["hachoir/regex/pattern.py"], [("PatternMatching", "hachoir/regex/pattern.py")],
  technique=T_SEQ, note="Expressions without anchors; which of several overlapping occurrences is found is not claimed.")
FIXES += [("concatenating a regex", "R01"), ("a regex dot", "R01"), ("the repetition of a repetition or of an empty", "R03"), ("nested repetitions are only", "R01"),
          ("an excluded range matches", "R01"), ("the maximum length of a limited", "R02"), ("the special characters of a range", "R03"),
          ("an incomplete regex", "R03"), ("lazy and possessive", "R03"), ("an escaped letter", "R03"), ("the pattern of a text found", "R04"),
          ("the repetition of an alternative", "R01")]
FINDINGS += [
    {"property": "R01", "key": "excluded-union", "what": "the alternative of two excluded ranges, [^ab]|[^ac], excludes both instead of the common characters ([^a-c]); a doctest of the library requires it"},
    {"property": "R01", "key": "repeat-of-two-or-more", "what": "(a{2,}|b)* becomes (a{2}|b)*, which does not match aaa; tests/regex_regression.rst requires it"},
]

MD = "hachoir/metadata/metadata.py"
P("M01", "The metadata store keeps each valid value once, and refuses the others",
  "After any sequence of values set, a key gives the valid values in the order they came: text stripped and cut as configured, converted "
  "dates, languages and track numbers, values in the limits of the key. Equal values and truncated texts are not kept twice, the longer text "
  "replaces the shorter. A value which is not valid is skipped without error, and an unknown key is refused.",
  ["histories"], "all sequences of values up to the length, boundary values of all kinds of keys, all options",
  "The tests check values extracted from sample files; order, duplicates and limits interact.",
  ["hachoir/metadata/metadata_item.py", MD, "hachoir/metadata/register.py", "hachoir/metadata/setter.py"],
  [("Data.add", "hachoir/metadata/metadata_item.py"), ("Metadata", MD)], technique=T_SEQ, note="NaN is left out.")
P("M02", "Exports show each metadata value up to the priority, in order, by group",
  "The text and the dictionary exported for a priority hold exactly the values of the keys of at most that priority, in the order of priority "
  "and of the values, with human names and texts or raw ones, under the asked title. Groups follow in the order they were added, each with its "
  "number and header; empty groups are skipped and a key used twice is refused.",
  ["inputs", "histories"], "all sets of close priorities, numbers of values, sequences of groups, priorities and modes within the bound",
  "Tests look for a few lines of a few files.",
  [MD], [("exportPlaintext, exportDictionary, MultipleMetadata", MD)],
  note="A dictionary holds only the last of several values of a key, a known finding.")
P("M03", "A date in a supported format is read as the instant it means",
  "Years, dates, date-times, mail dates and names of months are read as the date, time and zone they mean, whatever the separators, and a text "
  "which is no such date gives no value, never an error or another date. The locale of the process stays as it was, and the limits of the "
  "filters of dates and numbers are inclusive.",
  ["inputs"], "all dates of the boundary years, all times, zones and years, all edits of one character of the formats",
  "Tests read a few dates.",
  ["hachoir/metadata/setter.py", "hachoir/metadata/timezone.py", "hachoir/metadata/filter.py"],
  [("parseDatetime", "hachoir/metadata/setter.py"), ("DatetimeFilter", "hachoir/metadata/filter.py")],
  note="Zones which are not whole hours are not supported by the library and give no value.")
FIXES += [("the last day of 2030", "M01"), ("reading a date leaves the locale", "M03"), ("a date in a time zone west", "M03"), ("a date with an impossible time zone", "M03"),
          ("exporting groups with the same header", "M02")]
FINDINGS += [{"property": "M02", "key": "dictionary-last-value", "what": "exportDictionary() keeps only the last of several values of a key (a list would be another type for its users, so it is not repaired)"}]

P("P01", "The parser chosen is the first of the asked order which validates the file",
  "The parsers tried for a file are those of the tags, in order, then the others in the order of the list; the first one which is "
  "big enough, validates (unless it was asked for by its identifier or class) and can be made is taken, and none of them can make the choice "
  "fail. The same stream gives the same parser again, the tags of the caller stay as they are and no file stays open without a parser. "
  "Printed in any format, the list has each parser once, in its category, and all extensions or MIME types.",
  ["inputs", "configurations"], "all outcomes of four parsers, all sequences of tags up to three, all results of validation, sizes and tags",
  "Tests open sample files which one parser accepts.",
  ["hachoir/parser/guess.py", "hachoir/parser/parser.py", "hachoir/parser/parser_list.py", "hachoir/stream/input_helper.py"],
  [("QueryParser, createParser", "hachoir/parser/guess.py"), ("HachoirParser.__init__", "hachoir/parser/parser.py"), ("ParserList", "hachoir/parser/parser_list.py")],
  technique=T_SEQ, note="Parsers are stand-ins with every outcome; the list of the library is checked for its index.")
FIXES += [("the parsers are tried in a stable order", "P01"), ("an unknown parser identifier", "P01"), ("opening a file does not change the tags", "P01")]

P("P02", "A truncated or corrupted file is parsed as far as it goes, without error",
  "Whatever prefix of a file is left, whatever byte of its header is changed and whatever stream is given to whichever parser: visiting the "
  "fields ends without an error or an endless loop, their values and texts are available, they follow each other inside the file up to the size "
  "of their set under unique names, and the metadata is extracted and exported without an error. Nothing is printed.",
  ["inputs", "fault_sequences"], "all truncations (first bytes and ends of fields), all changes of a header byte, of all sample files; all parsers on constant streams",
  "Tests read a few fields of intact files.",
  ["hachoir/parser", "hachoir/field/generic_field_set.py", "hachoir/metadata/metadata.py"],
  [("_addField, _fixFieldSize", "hachoir/field/generic_field_set.py"), ("all parsers", "hachoir/parser"), ("extractMetadata", "hachoir/metadata/metadata.py")],
  technique=T_SEQ, note="At most 1200 fields of each damaged file are visited; a parser may refuse a file.")
FIXES += [("parsing a CHM file does not write", "P02"), ("parsing a truncated Git pack ends", "P02"), ("the magic of Git pack files has an offset", "P01"),
          ("the extension of Git pack files has no dot", "P01"), ("a .DS_Store file is found", "P01"),
          ("the filename suffix of an OpenDocument", "P02"), ("deleting the last item of a Dict", "P02")]

SF = "hachoir/subfile/search.py"
P("U01", "A search of subfiles finds each file with a magic, wherever it lies",
  "Searching a stream reports, in order, every file of the chosen parsers (categories, identifiers, all by default) which begins with their magic "
  "text or expression and which they validate, at its offset and with its size: at any position relative to the slices which are read, with any "
  "wildcard bytes, between the asked offset and size. What lies in a file whose parser says so is skipped up to its end.",
  ["inputs", "configurations"], "all texts over magics and sizes up to the length x slices, offsets, limits; all positions at the boundaries of slices; all sample files",
  "No test searches subfiles.",
  [SF, "hachoir/subfile/pattern.py", "hachoir/regex/pattern.py"], [("SearchSubfile.searchSubfiles, findMagic", SF), ("HachoirPatternMatching", "hachoir/subfile/pattern.py")],
  note="Magics which overlap each other are not claimed (one of them is found); two parsers with the same magic count as one.")
P("U02", "Files found by a search are written with their exact content",
  "With an output folder each file found whose size is known, which passes the filter, is smaller than the limit and is not the input itself "
  "is written under the next number and its suffix, with exactly its bytes; nothing else is written and the folder is made only when needed. "
  "The memory limit of the search bounds it and the limits of the process are the same afterwards.",
  ["inputs", "configurations"], "all sequences of files of all kinds up to the length, all limits and results of the limited function",
  "No test searches subfiles.",
  [SF, "hachoir/subfile/output.py", "hachoir/core/memory.py"], [("processParser", SF), ("Output.writeFile", "hachoir/subfile/output.py"), ("limitedMemory", "hachoir/core/memory.py")],
  technique=T_SEQ, note="Files which end behind the input are not claimed; existing files of the same name are overwritten.")
P("U03", "Command line programs do what their options say, for each of the files",
  "hachoir-metadata, hachoir-grep, hachoir-strip and the subfile program write, for each file they are given in order, exactly what their options ask for: type, MIME type or metadata of the level, raw or for people, cut at the length, of the quality and forced parser; "
  "matching texts with address, path, value, percent and file name; new files of the asked levels; found files of the asked place, categories and parsers. A file which cannot be read is told and does not stop hachoir-metadata from the others; the exit code tells whether all could be done.",
  ["inputs", "configurations"], "all sequences of good, unknown, empty and missing files up to the length x combinations of the options of each program x terminal charsets",
  "The programs are tested with one file and one option each, or not at all.",
  ["hachoir/metadata/main.py", "hachoir/grep.py", "hachoir/strip.py", "hachoir/subfile/main.py", "hachoir/core/cmd_line.py"],
  [("parseOptions, processFile, processFiles", "hachoir/metadata/main.py"), ("parseOptions, ConsoleGrep, runGrep", "hachoir/grep.py"), ("parseOptions, main", "hachoir/strip.py"), ("parseOptions, runSearch", "hachoir/subfile/main.py")],
  technique=T_SEQ, note="The results of the library themselves are decided by M01-M03, G01, T01, U01 and U02. Benchmarks, profiles and missing files of hachoir-strip and the subfile program are not claimed.")
FIXES += [("searching subfiles finds a magic whose wildcard", "U01"), ("searching subfiles without choosing", "U01"), ("searching subfiles finds a magic across", "U01"),
          ("the statistics of hachoir-subfile", "U01"), ("the memory limit of the process is restored", "U02")]


ST = "hachoir/strip.py"
P("T01", "A stripped file is the file without the asked parts, and nothing else is lost",
  "hachoir-strip with any set of levels writes exactly the file without the parts of these levels: text, time, comments, Exif, ID3 tags, AVI and WAVE "
  "padding, information and index, owners of TAR entries. All other bytes stay, the sizes of all enclosing chunks, offsets and checksums agree with the new "
  "content, nothing is written when nothing is to remove, and a second run finds nothing more.",
  ["inputs", "configurations"], "all sequences of chunks of WAVE, AVI, PNG, JPEG and of TAR entries up to the length, all AU and MP3 headers, all levels",
  "No test strips a file.",
  [ST, "hachoir/editor/fieldset.py", "hachoir/editor/typed_field.py"], [("the Stripper classes, stripEditor", ST)],
  note="A flag of a missing AVI index may be cleared or kept.")
FIXES += [("hachoir-strip removes all parts", "T01"), ("hachoir-strip removes the metadata of a TAR", "T01")]

GR = "hachoir/grep.py"
P("G01", "hachoir-grep finds each text field which contains the pattern, once, in order",
  "Searching a parsed file shows, in order, exactly the text fields of the whole tree whose value is not empty and contains the pattern (any value without a "
  "pattern; any case unless the search is case sensitive), each once with its address, path and value as the options ask, with the name of the "
  "file when there are several. A text which cannot be read is skipped. A closed pipe ends the output quietly; other errors of the output are raised.",
  ["inputs", "configurations", "fault_sequences"], "all trees of fields up to the size x patterns x options, sample files x words, all points where the output breaks",
  "The tests list the texts of one CAB file.",
  [GR, "hachoir/field/string_field.py"], [("Grep.grep, match, ConsoleGrep", GR)],
  note="Of sample files with very many fields the first ones are compared.")
FIXES += [("hachoir-grep skips a text", "G01"), ("hachoir-grep handles an error", "G01")]

P("C01", "Conversions between numbers, bytes and binary texts are exact and inverse",
  "Numbers of any size are converted to bytes and back in big, little and middle endian, to texts of binary digits and back in both orders and modes, "
  "with the documented padding; bytes to hexadecimal and binary texts; the number of bits needed and the swapped 16 and 32 bit numbers are exact.",
  ["inputs"], "all numbers up to the limit and around all powers of two, all short texts of digits, all short byte strings",
  "The doctests have a few numbers of 16 to 64 bits.",
  ["hachoir/core/bits.py"], [("countBits, long2raw, long2bin, bin2long, str2long", "hachoir/core/bits.py")],
  note="long2raw() with a size too small for the number, and of zero without a size, is not claimed.")
TO = "hachoir/core/tools.py"
P("C02", "Texts for people, dates, paddings and charset guesses say what the value is",
  "Sizes, rates, frequencies and durations are shown in the unit which fits, rounded correctly; timestamps of Unix, Mac, Windows and UUID give the date or refuse what is "
  "out of range; control and foreign characters are escaped so that a text is printable in its charset; newlines are normalized; alignment, binary "
  "search, lower bound and file modes are exact; the charset of a text is guessed by its documented order.",
  ["inputs"], "all amounts up to the limit and around powers, all days, all texts over the alphabet, all sorted sequences and modes, all short byte strings",
  "The doctests have one to seven examples per function.",
  [TO, "hachoir/core/i18n.py"], [("humanFilesize, humanDuration, makePrintable, timestampWin64, lowerBound", TO), ("guessBytesCharset", "hachoir/core/i18n.py")],
  note="Dates in units of 100 ns are computed with floats: exact up to 53 bits.")
P("C03", "A time limit stops a function at whatever instruction and leaves nothing behind",
  "limitedTime() gives the result or the error of the function, or raises Timeout when the alarm comes, at whatever instruction it comes, also while it is "
  "being cancelled; afterwards no alarm is left and the previous handler of the signal is in place. The limit is rounded up to whole seconds, at least one.",
  ["schedules", "histories"], "all instructions of limitedTime() and the function at which the alarm comes x outcomes x previous handlers, all sequences of calls",
  "No test uses a time limit.",
  ["hachoir/core/timeout.py"], [("limitedTime, fixTimeout", "hachoir/core/timeout.py")],
  technique="exhaustive enumeration of the instruction at which the signal is delivered, on the real code under a tracing scheduler", note="Calls inside each other are not claimed.")
FIXES += [("the handler of SIGALRM", "C03")]
P("C04", "Messages reach each destination once when asked for; events reach each handler",
  "A message is delivered once, in order, to the standard error, the log file and the callback which are set, with the prefix of its level and the path of the field "
  "or name of the class it comes from, if its level is asked for by the quiet and verbose settings, else nowhere; an existing log file is continued. An event calls "
  "each handler connected to it, local ones of the set then global ones of the tree, in the order they were connected, with its arguments.",
  ["histories", "configurations"], "all sequences of messages, levels, senders x settings x destinations; all sequences of connecting and raising events",
  "No test looks at messages or events.",
  ["hachoir/core/log.py", "hachoir/core/event_handler.py", "hachoir/field/basic_field_set.py"], [("Log.newMessage", "hachoir/core/log.py"), ("EventHandler", "hachoir/core/event_handler.py"), ("connectEvent, raiseEvent", "hachoir/field/basic_field_set.py")],
  technique=T_SEQ, note="Log files which cannot be created for other reasons than a missing folder are not claimed.")
Z = "hachoir/parser/archive/"
P("A02", "Deflate and bzip2 data are decoded to exactly the data which was compressed",
  "The fields of zlib and bzip2 data are those of the format (RFC 1951 blocks of all kinds, code tables, matches of all lengths and distances; bzip2 blocks, maps, tables, codes and checksums), "
  "cover the data without gap, and the data they decode to are exactly the data which was compressed, whatever the content, level, strategy and sequence of blocks; the content of a bzip2 archive "
  "can be opened and read.",
  ["inputs"], "all sequences of kinds of blocks, lengths and distances at the borders of their codes, small contents x levels x strategies",
  "The test files contain few kinds of blocks; runs of code lengths, joined tables and stored blocks depend on the encoder.",
  [Z + "zlib.py", Z + "bzip2_parser.py", "hachoir/field/sub_file.py"], [("DeflateBlock, build_tree, extend_data", Z + "zlib.py"), ("Bzip2Parser, Block", Z + "bzip2_parser.py"), ("CompressedStream", "hachoir/field/sub_file.py")],
  note="An encoder written from RFC 1951, checked against the zlib module on each stream, gives streams zlib itself would not write. The Adler32 field is little endian as shown; its value is not claimed.")
FIXES += [("stored blocks are part", "A02"), ("content of a bzip2 archive", "A02"), ("code lengths of a deflate", "A02")]
P("A01", "Archives show their members: places, names, sizes, checksums, contents",
  "A zip, tar, gzip or ar archive is parsed to one entry per member, in order, at its place, with the name, date, numbers, checksum, comment and sizes which were written, for all kinds of members and "
  "sequences of them, archives written to a file or to a pipe; the content opened from a member is what was put in (decompressed for deflate); the fields cover the archive; the size of "
  "the archive is known when other data follow; the metadata list all members.",
  ["inputs"], "all sequences of members (contents x methods; tar kinds, names and sizes x formats; gzip flags x levels x systems; ar)",
  "One small sample per format is tested; members which look like headers, archives in archives, descriptors and padding interact.",
  [Z + "zip.py", Z + "tar.py", Z + "gzip_parser.py", Z + "ar.py", "hachoir/metadata/archive.py"], [("FileEntry, ZipFile", Z + "zip.py"), ("FileEntry", Z + "tar.py"), ("GzipParser", Z + "gzip_parser.py"), ("ArchiveFileEntry", Z + "ar.py"), ("ZipMetadata, TarMetadata, GzipMetadata", "hachoir/metadata/archive.py")],
  note="Archives are written by zipfile, tarfile, zlib and, for ar, by hand. ZIP64, encryption, tar numbers in base 256 and gzip files with several members are not claimed.")
FIXES += [("written to a pipe are delimited", "A01"), ("size of a ZIP archive includes", "A01")]

I = "hachoir/parser/image/"
P("A03", "Pictures are shown as they were written: headers, colors, pixels, chunks",
  "A BMP, PNG, GIF, TGA, PCX, ICO or CUR picture is parsed to the header, palette, chunks, extensions, images and pixels which were written, each at its place, whatever the size, depth, kind, order, "
  "split of the data, and data behind; the compressed data open to the pixels (PNG lines; every GIF code and the data decoded up to it); the size of the picture is known when other data follow; the "
  "metadata show its width, height, depth, number of colors, resolution, compression, version, comments and dates.",
  ["inputs"], "all combinations of size, depth, header, palette, orientation, gap; sequences of chunks or blocks; splits of the data; LZW data",
  "One sample per format is tested, and the tests of the metadata do not fail; top-down, 4-bit or old BMP, gray PNG, full GIF dictionaries, PCX with plans were wrong.",
  [I + "bmp.py", I + "png.py", I + "gif.py", I + "tga.py", I + "pcx.py", I + "ico.py", "hachoir/metadata/image.py"], [("BmpHeader, ImagePixels", I + "bmp.py"), ("Chunk, ImageData", I + "png.py"), ("GifImageBlock, Extension", I + "gif.py"), ("Pixels", I + "tga.py"), ("PcxFile", I + "pcx.py"), ("IconData", I + "ico.py"), ("BmpMetadata, PngMetadata, GifMetadata", "hachoir/metadata/image.py")],
  note="The pictures are written byte by byte by the check, LZW encoder included. Compressed BMP, 2-color icons and PNG icons are not claimed.")
FIXES += [("are blue, green, red", "A03"), ("BMP pictures with a header of 12", "A03"), ("resolution of a PNG picture", "A03"), ("background color of PNG", "A03"), ("PNG pictures with empty data", "A03"),
          ("GIF codes have at most", "A03"), ("size of a GIF picture ends", "A03"), ("unknown extensions of GIF", "A03"), ("palette and pixels of uncompressed TGA", "A03"), ("PCX pictures with several", "A03"),
          ("a size of zero is 256", "A03"), ("TGA pictures with entries of 15", "A03")]
D = "hachoir/parser/audio/"
RF = "hachoir/parser/container/riff.py"
P("A04", "RIFF, AU and AIFF files are shown as written: chunks, headers, texts, sizes",
  "A WAV, AVI, animated cursor, CD track, AU or AIFF file is parsed to the chunks, headers, lists, texts and data which were written, each at its place, whatever their order, length (odd ones padded), "
  "codec, rate, number of channels and streams; the size of the file is known when other data follow; the metadata show its duration, rate, channels, codec, streams, titles and dates.",
  ["inputs"], "all combinations of codec, rate, channels, width; all sequences of chunks, texts and streams up to a length, odd and even sizes",
  "One sample per format is tested, and the tests of the metadata do not fail; several video streams, empty chunks, comments and uncompressed AIFF files were wrong.",
  [RF, D + "au.py", D + "aiff.py", "hachoir/metadata/riff.py", "hachoir/metadata/audio.py"], [("Chunk, RiffFile", RF), ("AuFile", D + "au.py"), ("AiffFile", D + "aiff.py"), ("RiffMetadata", "hachoir/metadata/riff.py")],
  note="The files are written byte by byte by the check. Index and stream chunks of OpenDML files are not claimed.")
FIXES += [("several video streams", "A04"), ("AU files whose data", "A04"), ("empty chunk at the end of a RIFF", "A04"), ("duration of an AVI file in", "A04"), ("size of an AIFF", "A04"), ("comments of AIFF", "A04"), ("codec in the common chunk", "A04")]
P("A05", "MP3, ID3, FLAC, Ogg and MIDI files are shown as written: frames, tags, packets",
  "An MPEG audio file is parsed to the frames and tags which were written, for every version, layer, rate and padding, with the texts of ID3v1 and ID3v2 tags in all charsets; a FLAC file to its blocks, values and comments; "
  "an Ogg file to its pages, packets and headers, and each logical stream to its packets however they are cut and interleaved; a MIDI file to its tracks and events (times of all lengths, running status, exclusive data); "
  "the size is known when other data follow; the metadata show the duration, rates, channels, titles and dates.",
  ["inputs"], "all headers of frames; all sequences of events, frames of tags, blocks, packets and pages up to a length, all cuts",
  "One sample per format is tested, and the tests of the metadata do not fail; packets over several pages, exclusive events, pictures of UTF-16 tags were wrong.",
  [D + "mpeg_audio.py", D + "id3.py", D + "flac.py", D + "midi.py", "hachoir/parser/container/ogg.py", "hachoir/metadata/audio.py"],
  [("Frame, MpegAudioFile", D + "mpeg_audio.py"), ("ID3v1, ID3v2", D + "id3.py"), ("MetadataBlock", D + "flac.py"), ("Command, Track", D + "midi.py"), ("OggPage, Packets, Segments", "hachoir/parser/container/ogg.py"), ("MpegAudioMetadata, OggMetadata, FlacMetadata", "hachoir/metadata/audio.py")],
  note="Unsynchronised, compressed or extended ID3v2 tags, bit rates of files with a variable rate, and the size of Ogg files with several streams are not claimed.")
FIXES += [("system exclusive events", "A05"), ("a MIDI file ends", "A05"), ("track number and genre of ID3v1", "A05"), ("padding of less than a frame header", "A05"), ("URL, MIME types and objects", "A05"), ("size of MPEG audio with", "A05"),
          ("FLAC files with a single", "A05"), ("packets of Ogg streams", "A05"), ("kind of an Ogg file", "A05"), ("Ogg pages without data", "A05")]

FS = "hachoir/parser/file_system/"
P("A06", "File systems and partition tables are shown as they were written",
  "The boot sector, the tables, the clusters, the directories, their entries and dates of FAT12, FAT16 and FAT32 volumes are at their place with their values, "
  "and the link of a file leads to its content whatever the order of its clusters and of what was read before. All primary and logical partitions of a partition table are at their place. "
  "The volume descriptors of ISO 9660, the pages of Linux swap files, and the superblock, groups, bitmaps, inodes, modes, links, directories and files (up to one indirect block) of EXT2 volumes have their values.",
  ["inputs", "histories"], "all places of files in few clusters or blocks; sequences of entries, partitions and volumes; orders of reading",
  "One sample of FAT12, EXT2, ISO 9660 and of a table is tested; files in several clusters, a second read order, partitions behind the second logical one were wrong.",
  [FS + "fat.py", FS + "mbr.py", FS + "iso9660.py", FS + "linux_swap.py", FS + "ext2.py", "hachoir/field/link.py", "hachoir/field/fragment.py", "hachoir/field/seekable_field_set.py", "hachoir/metadata/file_system.py"],
  [("InodeGen, FileEntry", FS + "fat.py"), ("Partition", FS + "mbr.py"), ("Volume", FS + "iso9660.py"), ("Group, Inode, Bitmap", FS + "ext2.py"), ("CustomFragment", "hachoir/field/fragment.py")],
  note="The volumes are written byte by byte by the check. NTFS, ReiserFS, EXT2 holes, double indirect blocks and extents, long FAT names (shown, not joined) are not claimed.")
FIXES += [(m, "A06") for m in ("clusters of the files of FAT file systems are followed", "root directory and place of the clusters of FAT file systems", "names of FAT files whose first letter is 0xE5",
                               "third and next logical partitions of an extended partition", "numbers of the volume descriptors of ISO 9660", "identifiers of ISO 9660 boot records have 32 bytes",
                               "number of usable pages of a Linux swap file", "used size of EXT2 file systems", "the superblock of EXT2 file systems has 1024 bytes", "end of the bitmaps of EXT2 file systems",
                               "blocks of the last group of EXT2 file systems", "the entries . and .. of FAT directories are not followed", "fragments which are not read yet are in the content", "FAT32 file systems without a copy of the boot sector")]
FINDINGS += [{"property": "A06", "key": "block-of-another-group", "what": "the blocks of an EXT2 file which are in another group than its inode are not shown nor part of its content: the fields of a file are inside of the field of its group (another tree would be needed, so it is not repaired)"}]
FIXES += [("the display of cut raw bytes tells that they are cut", "F06")]
X = "hachoir/parser/misc/"
P("A07", "Torrents, ASN.1, property lists and compiled Python are shown as written",
  "A torrent, a DER file, a binary property list or a compiled Python program is parsed to the tree of values which was written: every number, text, date, identifier, list, dictionary, set and reference is at its place with its value "
  "and its size, whatever the values, their nesting, the length of their heads, and for property lists the order, the gaps and the width of offsets and references; the XML of a property list says the same values; "
  "the numbers, texts and constants of a code object are the ones of the program for all marshal formats; the metadata of a torrent show its address, name, size, date and comments.",
  ["inputs"], "all trees of values up to a depth and a width over leaves of all kinds and lengths; layouts of property lists",
  "One sample per format is tested for a few fields; sets of several items, texts in UTF-16 and UTF-8, empty dictionaries and the XML of property lists were wrong.",
  [X + "torrent.py", X + "bplist.py", "hachoir/parser/container/asn1.py", "hachoir/parser/program/python.py", "hachoir/metadata/misc.py"],
  [("TorrentFile, Dictionary, Integer", X + "torrent.py"), ("BPList, BPListObject", X + "bplist.py"), ("Object", "hachoir/parser/container/asn1.py"), ("Object, parseCode", "hachoir/parser/program/python.py"), ("TorrentMetadata", "hachoir/metadata/misc.py")],
  note="plistlib and marshal are the oracles of two formats, the files of the others are written byte by byte by the check. Tags above 30, indefinite lengths, dates of other zones, and compiled programs of other Python versions are not claimed.")
FIXES += [("the first two numbers of ASN.1 object", "A07"), ("ASN.1 BMP strings", "A07"), ("the XML of binary property lists", "A07"), ("texts of compiled Python which", "A07"), ("all the items of an ASN.1 set", "A07"), ("empty dictionaries of binary property", "A07")]

P("A08", "Movies in MP4, QuickTime, Matroska and Flash are shown as written",
  "The boxes of an MP4 or QuickTime movie, the elements of a Matroska file and the chunks of a Flash video are found at their places, nested as they are, whatever the way in which sizes are written; headers of movies, tracks and media, "
  "tables of samples, descriptions of samples, values of Matroska elements of every type and width (without data as well), data of Flash metadata show their values; the frames of Matroska blocks have their data for every lacing; "
  "cue points lead to their cluster and block, attached files are extracted with their name and type; the metadata say the dates, durations, sizes, titles, languages and streams.",
  ["inputs"], "trees of boxes, versions and values of headers, tables of every kind and count, entries with boxes, elements of every type, width and way of writing the size, sequences of frame sizes with every lacing, sequences of streams and chunks",
  "Tests read a few fields of a sample of each; descriptions of several samples, matrices of rotated movies and empty Matroska elements were wrong.",
  ["hachoir/parser/container/mp4.py", "hachoir/parser/container/mkv.py", "hachoir/parser/video/flv.py", "hachoir/parser/video/amf.py", "hachoir/metadata/video.py"],
  [("Atom, MP4File, SampleEntry", "hachoir/parser/container/mp4.py"), ("EBML, Block, Lace", "hachoir/parser/container/mkv.py"), ("FlvFile", "hachoir/parser/video/flv.py"), ("AMFObject", "hachoir/parser/video/amf.py"), ("MkvMetadata, MP4Metadata, FlvMetadata", "hachoir/metadata/video.py")],
  note="Dates of AMF with a time zone, arrays of AMF with a wrong count, handlers behind their media information, and Matroska clusters of unknown size are not claimed. Values with 0xFF bytes are read with the parser chosen by hand (the weak check of MPEG audio may choose them first).")
FIXES += [("each entry of a table of MP4 samples", "A08"), ("Matroska elements without data", "A08"), ("signed fixed point numbers of QuickTime", "A08")]

P("A09", "JPEG (EXIF, IPTC), TIFF and CR2 pictures are shown as they were written",
  "The chunks of a JPEG picture are found one behind the other; the data of baseline pictures are decoded to the blocks and coefficients which were coded, for every sampling, interleaving, restart interval, size and numbering of the components, "
  "wherever null bytes are stuffed; progressive pictures have all their scans; quantization tables and the quality have their values; every entry of an EXIF or TIFF directory has the values which were written, for all types, counts, byte orders and places, "
  "in all directories; thumbnails and TIFF or CR2 strips and TIFF tiles have their data; the metadata say the sizes, comments, camera settings, position, times and IPTC texts.",
  ["inputs"], "sequences of blocks, chunks and scans, layouts of components with restarts, the qualities 1 to 100, sequences of entries of all types, shapes of directories, positions, sequences of IPTC items, strips and tiles",
  "A few pictures are tested for a few fields: stuffed bytes in additional bits, scans of one component, numbers of components from 0, thumbnails, GPS times and the IPTC envelope were wrong.",
  [I + "jpeg.py", I + "exif.py", I + "iptc.py", I + "photoshop_metadata.py", I + "tiff.py", I + "cr2.py", "hachoir/metadata/jpeg.py", "hachoir/metadata/image.py", "hachoir/metadata/cr2.py"],
  [("JpegFile, JpegImageData, HuffmanCode", I + "jpeg.py"), ("TIFF, IFD, BasicIFDEntry, Exif", I + "exif.py"), ("IPTC_Chunk", I + "iptc.py"), ("Photoshop8BIM", I + "photoshop_metadata.py"), ("TiffFile", I + "tiff.py"), ("CR2File", I + "cr2.py"), ("JpegMetadata", "hachoir/metadata/jpeg.py"), ("CR2Metadata", "hachoir/metadata/cr2.py")],
  note="Values written before their directory, long IPTC sizes, coefficients of progressive pictures and pictures with lines defined behind the scan are not claimed.")
FIXES += [("null bytes behind 0xFF bytes", "A09"), ("only items of the second IPTC", "A09"), ("GPS times have minutes", "A09"), ("JPEG scans may have any component", "A09"), ("JPEG scans of one component", "A09"), ("restart markers of JPEG", "A09"), ("thumbnails of JFIF", "A09"), ("JFIF and TIFF resolutions", "A09"), ("TIFF directories without image data", "A09")]

RP = "hachoir/parser/program/"
P("A10", "Programs (ELF, Windows, MS-DOS, Java classes) are shown as written",
  "The headers, tables and sections of ELF files of 32 and 64 bits and both byte orders are found wherever they are in the file, with their names, types and flags; the headers, directories and sections of Windows programs (PE32, PE32+) are shown with all "
  "their values and flags, in whatever order the sections are, under names by which they are found; programs for Windows 3.x have the numbers, flags and version texts of their header; trees of resources are followed to every directory, name, entry and content; string tables, icons and version information have their texts, which the "
  "metadata say; constants, fields, methods, attributes and every instruction of Java classes are shown with their numbers and texts, and types are written as in the Java language.",
  ["inputs"], "orders of the tables and sections of ELF files, flags, sequences and orders of the sections of Windows programs, trees of resources, sequences of version texts, Java constants, instructions, attributes, descriptors and flags",
  "Each program format is tested with one or two files: program headers elsewhere than behind the ELF header, sections of the same name, version information of an odd size, wide Java instructions, finally blocks and descriptions of fields were wrong.",
  [RP + "elf.py", RP + "exe.py", RP + "exe_pe.py", RP + "exe_ne.py", RP + "exe_res.py", RP + "java.py", "hachoir/metadata/program.py"],
  [("ElfFile", RP + "elf.py"), ("ExeFile", RP + "exe.py"), ("PE_OptHeader, SectionHeader", RP + "exe_pe.py"), ("NE_Header", RP + "exe_ne.py"), ("PE_Resource, VersionInfoNode, NE_VersionInfoNode", RP + "exe_res.py"), ("JavaCompiledClassFile, JavaBytecode, CPInfo", RP + "java.py"), ("ExeMetadata", "hachoir/metadata/program.py")],
  note="Segments and tables of programs for Windows 3.x, resources which do not start their section, and texts of sections without a string table are not claimed.")
FIXES += [("ELF program headers are read", "A10"), ("MS-DOS programs whose last page", "A10"), ("names of PE sections with a slash", "A10"), ("metadata of PE files use resources", "A10"), ("system of the Windows version information", "A10"), ("subtypes of Windows drivers", "A10"), ("Java instructions with a wide index", "A10"), ("Java exception handlers for anything", "A10"), ("Java fields have a description", "A10"), ("Windows version information whose size", "A10")]

P("A11", "Streams and summaries of compound documents (OLE2) are shown as written",
  "Every stream of a compound document has the bytes that were written and its name, size, times and place in the tree, wherever its sectors or small sectors are, in whatever order, however many, in files of 512 and of 4096 byte sectors and with allocation "
  "tables which do not fit in the header; the end of the file is the end of its last used sector; the properties of summaries, of all types, vectors of them, byte orders and codepages, in any order, have their values and names; the metadata say the texts, dates, "
  "numbers and the system; descriptions of objects and the records of workbooks and presentations are followed in sequence and depth.",
  ["inputs"], "sequences of stream sizes near those of sectors, orders of the runs of sectors and small sectors, free sectors, sizes of the allocation table, directories, sequences of properties, combinations of properties, sequences and trees of records",
  "Tests read one Word document: files of 4096 byte sectors were read at wrong places, the size of the content was wrong when the last stream has one sector, summaries of a Macintosh had no values.",
  [X + "ole2.py", X + "ole2_util.py", X + "msoffice.py", X + "msoffice_summary.py", "hachoir/metadata/misc.py"],
  [("OLE2_File.getChain, parseProperty, DIFat", X + "ole2.py"), ("OLE2FragmentParser", X + "ole2_util.py"), ("RootEntry, PowerPointDocument, ExcelWorkbook", X + "msoffice.py"), ("Summary, PropertyContent, CompObj", X + "msoffice_summary.py"), ("OLE2_Metadata", "hachoir/metadata/misc.py")],
  note="Fields inside Word documents are not claimed, nor are blobs and texts of the type NULL in summaries.")
FIXES += [("sectors of OLE2 files of version 4", "A11"), ("size of an OLE2 file ends", "A11"), ("size of a thumbnail of an OLE2", "A11"), ("types of the properties of a big endian OLE2", "A11"), ("metadata of OLE2 documents show the system", "A11"), ("OLE2 streams with an endian mark", "A11")]

P("A12", "Cabinet, RPM, RAR, ARJ, MAR, PAK and BOM archives are shown as written",
  "Every member of these archives is shown with its name, sizes, date, flags, place and bytes, in whatever order the data are, with gaps, empty members, reserved areas and any flags: files of Cabinet folders stored or deflated (in several blocks) come out as they were; "
  "entries of RPM headers of every type and order have their values, and the payload its place and parser; blocks of RAR archives follow each other with optional fields and times; headers of ARJ archives have optional parts; the metadata name the files.",
  ["inputs"], "sequences of members, folders of every method and orders of their data, flags and reserved areas, sequences of typed entries, RAR blocks, flags, times and attributes, ARJ headers, sequences and orders of MAR, PAK and BOM members",
  "Each format is tested with one archive: flags of RAR blocks were at wrong bits, files of Cabinet folders were never found, deflated folders of several blocks failed, RPM headers behind a signature of odd size, and empty members hid the others.",
  [Z + "cab.py", Z + "rpm.py", Z + "rar.py", Z + "arj.py", Z + "mar.py", Z + "mozilla_ar.py", Z + "prs_pak.py", Z + "bomstore.py", Z + "zlib.py", "hachoir/metadata/archive.py"],
  [("CabFile, FolderData, DataBlock", Z + "cab.py"), ("DeflateBlock", Z + "zlib.py"), ("PropertySet, ItemContent", Z + "rpm.py"), ("Block, FileFlags, ExtTime", Z + "rar.py"), ("BaseBlock", Z + "arj.py"), ("MarFile", Z + "mar.py"), ("MozillaArchive", Z + "mozilla_ar.py"), ("PRSPakFile", Z + "prs_pak.py"), ("BomFile", Z + "bomstore.py"), ("CabMetadata, MarMetadata", "hachoir/metadata/archive.py")],
  note="RAR comment, recovery, signature and information blocks, LZX contents, ARJ headers with several extensions, attributes of Cabinet files in the metadata and other payloads of RPM than gzip and bzip2 are not claimed.")
FIXES += [(x, "A12") for x in ("RAR block flags are read", "salt of encrypted RAR", "sizes of large RAR files", "size of unknown RAR blocks", "content of cabinet folders", "content of uncompressed cabinet", "MSZIP blocks of cabinets", "metadata of deflated cabinets", "RPM headers follow the signature",
          "size of RPM properties", "empty files of Mozilla", "empty files of cabinets", "files of cabinet folders are bytes", "empty files of Starfighter", "BOM files without blank")]

P("A13", "Network captures are shown as written: packets, layers, addresses, options",
  "Every packet of a tcpdump capture of Ethernet or of a cooked Linux capture has its time, its sizes and its layers where they were written: ARP, IPv4 with options and fragments, IPv6, TCP with any options, UDP, ICMP with the rejected packet and ICMPv6, each with its addresses, "
  "ports, flags and numbers, described by them and by the time since the first packet; what follows is the data; a packet which was cut does not change the place of the next ones.",
  ["inputs"], "sequences of packets of all kinds, each kind cut at each byte, sequences of TCP options, all flags, types, ports at their limits, protocols, fragments and pairs of times",
  "One capture is tested for its size: the time of packets was not in microseconds, TCP options behind the end were read as options and the data of later fragments as headers.",
  ["hachoir/parser/network/tcpdump.py", "hachoir/parser/network/common.py"],
  [("TcpdumpFile, Packet, IPv4, IPv6, TCP, UDP, ICMP, ICMPv6, ARP", "hachoir/parser/network/tcpdump.py"), ("MAC48_Address, IPv4_Address, IPv6_Address", "hachoir/parser/network/common.py")],
  note="Captures written on big endian systems, the names of the halves of the offset of fragments and the reserved bits of TCP are not claimed.")
FIXES += [(x, "A13") for x in ("TCP options: the end", "network captures: the fraction", "IPv4 fragments: only")]
FIXES += [(x, "A04") for x in ("AIFF chunks of odd", "Sun/NeXT sound without")]
FIXES += [(x, "A05") for x in ("Ogg page whose segments", "FLAC without any frame")]
FIXES += [("Photoshop resources of one byte", "A09"), ("MP4 track runs whose samples", "A08"), ("cabinet folders without any data", "A12")]
FIXES += [("the list of file extensions of the parsers", "P01")]

P("A14", "Flash movies are shown as written: tags, sounds, pictures, actions, classes",
  "Every tag of a Flash movie has its code, name, size and place, whatever the form of its head, and the movie is the same when it is compressed: its rectangle, rate and frames are described and in the metadata in pixels; sounds and their streams, pictures with and without tables and transparency, "
  "exports and symbols have their values; every action of a script its name and arguments; the constants, names, methods, traits, classes, scripts and bodies of ActionScript 3 have their numbers and refer to the right texts.",
  ["inputs"], "sequences of tags of all kinds, plain, compressed and with long heads, all codes, header sizes, flags of sounds, sequences of actions, small constant pools, methods, traits and bodies",
  "One movie is tested for seven values: the flags of functions were in the wrong order, the fields of try blocks had wrong sizes and pictures without transparency failed.",
  ["hachoir/parser/container/swf.py", "hachoir/parser/container/action_script.py"],
  [("SwfFile, Tag, RECT", "hachoir/parser/container/swf.py"), ("Instruction, parseABC, FlashPackedInteger, ABCTrait, ABCMethodInfo", "hachoir/parser/container/action_script.py"), ("SwfMetadata", "hachoir/metadata/misc.py")],
  note="Rectangles whose minimum is not 0, the codes of ActionScript 3 methods and tags without a structure in hachoir are not claimed; the content of the pictures is that of A09.")
FIXES += [(x, "A14") for x in ("flags of Flash functions", "Flash try blocks", "pictures of Flash files", "size of Flash movies")]
P("A15", "Music modules (MOD, XM, S3M, PTM) are shown as written: notes, effects, samples",
  "The header, orders, patterns, instruments and samples of a music module have the place, size, order and values with which they were written, whatever their number, kinds and gaps; each note has its channel, key, instrument, volume, effect and parameter, with the names of the effects and volumes, "
  "also when it is packed or its pattern is empty; flags (loops, 16 bits, stereo, envelopes, channels) are those of their bits; blocks added by ModPlug have their names and values.",
  ["inputs"], "all Amiga kinds with sets of samples and patterns, XM notes with all flags, notes, volumes and effects, sequences of instruments with samples after patterns, headers, ModPlug blocks, S3M and PTM instruments, samples and patterns",
  "Three modules are tested for a few values: no Amiga note could be read, names of effects were shifted, flags came from other bits and empty patterns or samples made files fail.",
  [D + "mod.py", D + "xm.py", D + "s3m.py", D + "modplug.py"],
  [("AmigaModule, Note, SampleInfo", D + "mod.py"), ("XMModule, Note, Effect, Instrument, SampleHeader", D + "xm.py"), ("S3MModule, PTMModule, ChunkIndexer, Instrument, PTMNote", D + "s3m.py"), ("ParseModplugMetadata", D + "modplug.py")],
  note="Patterns of S3M modules are not claimed (known finding); StarTrekker modules of 8 channels, packed and plugin data are not claimed.")
FIXES += [(x, "A15") for x in ("notes of Amiga modules", "volume and fine tune of Amiga", "flags of the samples, envelopes and notes of XM", "volumes, effects and descriptions of the notes of XM", "XM modules: descriptions of the samples",
                               "empty patterns of XM", "S3M modules: instruments without", "PTM modules: type", "names of the extended effects 8", "ModPlug extensions of modules")]
FINDINGS += [{"property": "A15", "key": "xm-note-names", "what": "the names of the notes of XM modules (and of MIDI files, which share the table) follow a table with two G#, which tests/test_parser.py requires: note 70 is A-5 and called so, but notes 1, 2... are called a semitone too high"},
             {"property": "A15", "key": "s3m-pattern-length", "what": "the rows of the patterns of S3M modules are read from the address of the length of the pattern; tests/test_parser.py requires the value which results from it"}]
P("A16", "Windows shortcuts and tasks are shown as written: flags, items, paths, blocks",
  "A Windows shortcut (.lnk) is shown with the flags, attributes, dates, size, icon, window and hot key which were written; its items (drives, folders, files, network places, shell extensions), local and network paths in both kinds of characters and any order, "
  "texts and extra blocks (console, machine, folders, icons) have their kind, place and values. A task (.job) has its flags, dates, texts, user data, status and triggers.",
  ["inputs"], "all values of the headers, sets of texts, local and network paths in three orders with gaps, sequences of items, extra blocks and triggers of all kinds",
  "One file of each kind is tested: Unicode paths in the documented order, shell extensions with data and tasks with user data could not be read.",
  [X + "lnk.py", X + "mstask.py"], [("LnkFile, ItemId, FileLocationInfo, LocalVolumeTable, ExtraInfo", X + "lnk.py"), ("MSTaskFile, TaskTrigger", X + "mstask.py")],
  note="Dates of 0, web folders, the later flags of the format, device names and property stores are not claimed.")
FIXES += [(x, "A16") for x in ("shell extensions of Windows", "paths of Windows shortcuts", "number of the icon of Windows", "Unicode labels of the volumes of Windows", "user data and signature of Windows tasks")]
P("A17", "Fonts (TrueType, PCF) are shown as written: tables, flags, names, characters",
  "The tables of a TrueType/OpenType font are shown at their place in any order; the font header, the names (with platform, language, identifier and text), the character maps, horizontal and OS/2 metrics, glyph names, signatures and substitution tables have the values, signs and flags which were written, "
  "and its metadata has the names, dates and version. The tables of a PCF font in either byte order are at their place, with the properties, glyph names and metadata which were written, in any order of the texts.",
  ["inputs"], "all values of headers and flags, sets of names and character maps of all kinds, all orders of the tables and texts, with gaps and shared texts",
  "One TrueType file is tested and no PCF font: signatures, GSUB, post 2.5 and flags were wrong, and PCF fonts could only be read when each value followed its name.",
  [X + "ttf.py", X + "pcf.py", "hachoir/metadata/misc.py"], [("TrueTypeFontFile, parseFontHeader, parseNames, parseCmap, parseOS2, parsePost", X + "ttf.py"), ("PcfFile, Properties, GlyphNames", X + "pcf.py"), ("TTF_Metadata, PcfMetadata", "hachoir/metadata/misc.py")],
  note="Names in format 1, overlapping names, character maps in formats 2, 8, 10 and 13 and the content of substitution subtables are not claimed.")
FIXES += [(x, "A17") for x in ("flags and style of TrueType fonts", "signed values of TrueType fonts", "instances of TrueType fonts", "tables of characters of TrueType fonts", "signatures of TrueType fonts", "charset of the Unicode names of TrueType", "offsets of the glyphs in the table post 2.5", "table GSUB of TrueType fonts", "properties of PCF fonts", "glyphs of PCF fonts")]
P("A18", "Gimp and Photoshop pictures are shown as written: layers, tiles, resources",
  "A Gimp picture (XCF, versions 0 to 12) is shown with its size, type, precision, properties, and with each layer, channel and mask at its place, with its name, properties, levels and tiles; its metadata has the size, resolution, comment and compression. "
  "A Photoshop picture is shown with its size, depth, color mode, sections, and its resources (resolution, print flags, grid, thumbnails, versions, texts) with their place, name and content. The palettes of pictures have the colors, opacities and names which were written.",
  ["inputs"], "all versions, types, precisions, pairs of properties, sequences of layers and channels with all shapes of levels, with gaps; headers and sequences of resources",
  "Five XCF files and no PSD file are tested: flags, tiles of recent versions and masks could not be read, the width and height of PSD files were swapped.",
  [I + "xcf.py", I + "psd.py", I + "photoshop_metadata.py", I + "common.py", "hachoir/metadata/image.py"], [("XcfFile, XcfLayer, XcfChannel, XcfHierarchy, XcfLevel, XcfProperty", I + "xcf.py"), ("PsdFile, Config", I + "psd.py"), ("Photoshop8BIM", I + "photoshop_metadata.py"), ("RGB, RGBA, PaletteRGB", I + "common.py"), ("XcfMetadata", "hachoir/metadata/image.py")],
  note="Layers written out of order, the content of the layers of Photoshop pictures and guides of the grid are not claimed.")
FIXES += [(x, "A18") for x in ("offsets of the layers of Gimp", "tiles of Gimp pictures", "channels of Gimp pictures", "width and height of Photoshop", "sizes of Photoshop resources", "names of the types of the layers of Gimp", "Gimp pictures of all versions", "flags of the layers of Gimp", "Photoshop resources of odd sizes", "masks of the layers and last level")]
P("A19", "ASF files (WMV, WMA) are shown as written: objects, streams, descriptions",
  "Every object of an ASF file is shown at its place whatever the order: file properties with dates, durations and flags, streams (audio and video headers, codec data, numbers, encryption), bit rates, codecs, descriptions of all types, extensions, exclusions, packets and index. "
  "The metadata has the texts, date, duration and bit rate of the file, and for each stream its size or rate, codec and own bit rate; the MIME type tells video from audio.",
  ["inputs"], "all values of the file properties, sequences of streams with any number and order of the bit rates, sets of descriptions of all types and orders, sequences of objects",
  "One WMV file is tested: the author was lost without title, variable bit rates were called constant, the bit rate of another stream was shown.",
  ["hachoir/parser/video/asf.py", "hachoir/parser/common/win32.py", "hachoir/metadata/video.py"], [("AsfFile, Object, StreamProperty, Descriptor, VideoHeader", "hachoir/parser/video/asf.py"), ("GUID, BitmapInfoHeader", "hachoir/parser/common/win32.py"), ("AsfMetadata", "hachoir/metadata/video.py")],
  note="The content of header extensions, markers and script commands is not claimed.")
FIXES += [(x, "A19") for x in ("author and copyright of ASF", "variable bit rate of ASF", "track number of ASF", "bit rates of the streams of ASF", "words and empty values of ASF", "ASF data without packet")]
P("A20", "MPEG streams (transport, program, video) are shown as they were written",
  "Every packet of an MPEG transport stream (188 bytes, or 192 with time stamps) is shown at its place with its flags, identifier, counter, adaptation field (clocks, splice, stuffing) and payload; bytes lost between packets are shown apart. "
  "The packs, system headers and packets of a program stream have their versions, clocks, rates, flags, optional fields, extensions and stuffing, and the packets of a stream, put together, give its content. The chunks of a video stream have the place and values which were written.",
  ["inputs"], "all flags and clocks of adaptation fields, transport headers, lost bytes before each packet; all sets of optional fields and extensions of packets of both versions; sequences of packets of eight streams; headers, extensions and sequences of chunks of video",
  "One file of each kind is tested: clocks of transport streams were shifted by 6 bits, stuffing made packs and packets unreadable, flags hid extensions, user data was refused.",
  ["hachoir/parser/video/mpeg_ts.py", "hachoir/parser/video/mpeg_video.py"], [("MPEG_TS, Packet, AdaptationField", "hachoir/parser/video/mpeg_ts.py"), ("MPEGVideoFile, PackHeader, PacketElement, Stream, VideoStream, VideoExtension", "hachoir/parser/video/mpeg_video.py")],
  note="Transport packets with an error, private data and extensions of adaptation fields, and picture data inside slices are not claimed.")
FIXES += [(x, "A20") for x in ("adaptation fields of MPEG transport", "MPEG transport streams: format", "end of MPEG program streams", "headers of MPEG packets", "user data of MPEG videos", "MPEG streams which have no packet header", "stuffing of MPEG packs")]
P("A21", "7-zip archives are shown as written: folders, coders, digests, files",
  "Every number of a 7-zip header has the value which was written whatever its length; folders have their coders (method, properties, streams), bind pairs and packed streams; sizes and digests belong to the folder and file for which they were written; "
  "empty streams, empty files, deletions, names, dates and attributes are those of their file, also when they are only defined for some files, in any order and with fill; packed headers and the data before them are at their place, and the size of the archive is found.",
  ["inputs"], "all lengths of numbers, archive properties; sequences of folders of five shapes with all sets of digests, numbers of files per folder; all sets of empty files; ordered sets of properties with all sets of defined values; packed headers",
  "One archive is tested: digests were wrong when only some folders had one, and empty properties, empty archives and unknown methods made the header unreadable.",
  [Z + "sevenzip.py", "hachoir/parser/common/msdos.py"], [("SZUInt64, SevenZipBitVector, Digests, Coder, Folder, UnpackInfo, SubStreamInfo, FilesInfo, Body", Z + "sevenzip.py"), ("MSDOSFileAttr32", "hachoir/parser/common/msdos.py")],
  note="Folders and properties stored in another stream (external), alternative methods and the decompression of packed headers are not claimed.")
FIXES += [(x, "A21") for x in ("digests of the files of 7-zip", "7-zip coders with empty", "7-zip archives without body")]
P("A22", "Windows metafiles (WMF, APM, EMF) are shown as written: headers, functions",
  "Every function of a Windows metafile is shown at its place with its name, size and arguments (pens, brushes, polygons, points, objects, modes, comments), whatever the sequence, also with optional bytes; the headers of the three kinds have the values, frames, texts and extensions which were written; "
  "the type, size of the file and metadata (size, colors, application and title) are found.",
  ["inputs"], "all headers, every documented function with several sizes, all values of the arguments of decoded functions, all sequences of up to three functions",
  "Three pictures are tested: functions written by recent versions made files be refused, groups of polygons and pens with several styles were wrong, data could be taken for the end.",
  [I + "wmf.py", I + "common.py", "hachoir/metadata/image.py"], [("WMF_File, Function, META, EMF_META, EMF_Header, PlaceableHeader", I + "wmf.py"), ("RGBA", I + "common.py"), ("WmfMetadata", "hachoir/metadata/image.py")],
  note="x and y of the window functions of WMF pictures are exchanged (known finding); the arguments of functions shown as data are not claimed.")
FIXES += [(x, "A22") for x in ("size of Windows metafiles whose", "polygons and pens with several styles", "description of EMF", "functions of Windows metafiles which", "name of hatched brushes", "Windows metafiles of 44", "functions of Windows metafiles with")]
FINDINGS += [{"property": "A22", "key": "wmf-window-xy", "what": "the functions SETWINDOWORG and SETWINDOWEXT of WMF pictures are written with y first, and shown with x and y exchanged; tests/test_parser.py requires it for two pictures"}]
P("A23", "RealMedia and RealAudio files are shown as written: chunks, streams, texts",
  "Every chunk of a RealMedia file is shown at its place with its kind, size and version, whatever the sequence: file properties with flags, texts, streams with rates, times, description and own data, logical streams with their physical streams, rules and properties. "
  "RealAudio files of versions 3 and 4 have the values, texts, codec and sound which were written. The metadata has the texts, dates, producer, duration and rate of the file, and those of each stream; the MIME type tells video from audio.",
  ["inputs"], "all values of the headers and streams, all texts and ordered sets of properties, all sequences of up to four chunks, both versions of RealAudio with all sets of texts and codecs",
  "One RealMedia file and no RealAudio file are tested: the offsets of physical streams were read with a wrong size.",
  ["hachoir/parser/container/realmedia.py", D + "real_audio.py", "hachoir/metadata/audio.py"], [("RealMediaFile, Chunk, LogicalFileInfo, NameValueProperty", "hachoir/parser/container/realmedia.py"), ("RealAudioFile, Metadata", D + "real_audio.py"), ("RealMediaMetadata, RealAudioMetadata", "hachoir/metadata/audio.py")],
  note="Properties whose value is not a text, packets and the index of RealMedia files are not claimed.")
FIXES += [("offsets of the physical streams", "A23")]
P("A24", "NTFS volumes are shown as written: boot sector, records, attributes, runs",
  "The boot sector of an NTFS volume has the values which were written; every record of the first part of its file table is shown at its place, with its flags, counts and fix-up, of old and new versions and all sizes, and nothing behind the table is taken for a record. "
  "Each attribute, also several of one kind or of unknown kinds, has its place, name, flags and content without padding: dates, flags, names of files in their name space, bits, and the runs of clusters (forward, backward, sparse) which were written; the description of a record gives the name, size and flags of the file.",
  ["inputs"], "all shapes of volumes and records, all sequences of up to three attributes, all kinds with all lengths, names and fill, all flags, all sequences of runs with all lengths of numbers",
  "No NTFS volume is tested: tables of fewer than 1000 records, files with named streams or unknown attributes, records of Windows 2000 could not be read; padding was part of the content and sparse runs had a place.",
  [FS + "ntfs.py", "hachoir/parser/common/msdos.py"], [("NTFS, MasterBootRecord, File, Attribute, RunList, RunListEntry", FS + "ntfs.py"), ("MSDOSFileAttr32", "hachoir/parser/common/msdos.py")],
  note="Tables in several parts, the values replaced by the fix-up and the content of indexes, lists of attributes and security descriptors are not claimed.")
FIXES += [(x, "A24") for x in ("NTFS attributes of unknown", "content of NTFS attributes", "NTFS records and attributes of older", "sparse runs of NTFS", "end of the master file table")]
P("A25", "Mach-O programs are shown as written: header, load commands, fat files",
  "Every load command of a Mach-O program, in both word sizes and both byte orders, is shown at its place with its size, kind, values, display and description, whatever the sequence and also when it has no content: segments with their sections, symbol tables, dynamic linker and libraries with their names at their offset, identifiers, versions. "
  "The header shows processor, type and each flag; the description of the file names the processor. A fat file shows each architecture at its place and its program with its own byte order and word size.",
  ["inputs"], "all processors, types and pairs of flags, all sequences of up to three load commands, all lengths and distances of names, all extreme values of each number, all sets of up to three architectures",
  "Two fat files are tested, for their processors and names of sections: commands without content stopped the parser, and the description of a program did not name its processor.",
  [RP + "macho.py"], [("MachoFile, MachoHeader, MachoLoadCommand", RP + "macho.py"), ("MachoFatFile, MachoFatArch", RP + "macho.py")],
  note="Commands whose content is shown as raw bytes are checked for their place, size and kind only.")
FIXES += [(x, "A25") for x in ("description of Mach-O programs", "Mach-O load commands without", "names of Mach-O libraries")]
P("A26", "Git packs are shown as written: objects, sizes, bases, deltas",
  "Each object of a Git pack is shown at its place with its kind, its size after decompression, its exact compressed part and content, whatever the number, length and compressibility of the objects; a delta has the distance or the name of its base, the sizes of source and target, and each of its instructions: the offset and size of what is copied, or the bytes which are added. "
  "The tree of a commit and the checksum of the pack are shown.",
  ["inputs"], "all sequences of up to three objects of each kind, all lengths at the limits of their encoding, all distances up to 400 and at each limit, all 128 forms of copies with extreme bytes, all lengths of additions",
  "One pack of seven objects is tested, for the size of one: offsets and sizes of copies were read in the wrong order, bases at the wrong distance, and a delta of a named base stopped the parser. The encodings were compared with git index-pack.",
  [X + "git_pack.py", "hachoir/parser/common/deflate.py"], [("GitPackFile, ObjectEntry, TypeAndSize, OffsetInt", X + "git_pack.py"), ("ObjOfsDeltaParser, DeltaInstruction, ObjCommitParser", X + "git_pack.py")],
  note="The content of trees and tags is not parsed.")
FIXES += [(x, "A26") for x in ("sizes of copies in Git deltas", "distance of the base of Git", "name of the base of Git")]
P("A27", "FIT files are shown as written: definitions, messages, times, checksums",
  "Each message of a FIT file (Garmin) is shown at its place up to the end of the data, followed by the checksum: a definition with its local type, byte order, number and fields; a message, with or without a compressed time, with the values of the fields of the last definition of its local type, in the byte order of this definition, as numbers, arrays, texts or bytes, and with its developer fields. Headers of 12 and 14 bytes are accepted.",
  ["inputs", "histories"], "all base types with all lengths of arrays and extreme values in both orders, all pairs of types, all local types and compressed times, all histories of up to five definitions and messages",
  "One file is tested, for a few values: the last messages were not read, the checksum was swapped, compressed times and developer fields were not followed by their values.",
  [X + "fit.py"], [("FITFile, DefinitionMessage, DataMessage, TimeStamp", X + "fit.py"), ("Header, CRC", X + "fit.py")],
  note="Unknown base types and empty developer fields are not claimed.")
FIXES += [(x, "A27") for x in ("FIT files up to the end", "CRCs of FIT files", "FIT files with a header of 12", "FIT messages with a compressed", "developer fields of FIT", "description of the fields of FIT")]
P("A28", ".DS_Store files are shown as written: blocks, tree of nodes, records",
  "The allocator of a .DS_Store file (Finder of Mac OS X) is shown with the address of each block, the directories and the free lists; each node of the tree at its place, whatever the shape of the tree, with links to its children and its records; each record with its name, property, type and value, also when it is empty; and each free block.",
  ["inputs"], "all pairs of records of each type with extreme values, names and lengths, all shapes of trees of up to three levels, all numbers of blocks up to 300, all sets of up to three free blocks in each order of the directories",
  "No .DS_Store file is tested: since Python 3 no record could be read at all.",
  [X + "dsstore.py"], [("DSStore, BTNode, DSRecord", X + "dsstore.py"), ("BudAllocator, FreeList, BlockAddress", X + "dsstore.py")])
FIXES += [(x, "A28") for x in ("records of .DS_Store files", "64-bit numbers and dates of .DS_Store", "empty blobs in .DS_Store", "empty texts in .DS_Store")]
P("A29", "Serialized Java objects are shown as written: classes, values, references",
  "Each content of a stream of serialized Java objects is shown at its place with its kind and value, whatever the sequence: texts of any length, objects with the values of all their classes and what writeObject or writeExternal wrote, arrays, enumeration constants, classes, proxies, blocks of data, resets and exceptions. "
  "Each reference leads to the content which has its handle, also after a reset, in types of fields, names and classes; the display of an object or array has the values of its fields and does not follow cycles.",
  ["inputs", "histories"], "all basic types with extreme values and all pairs, all sequences of up to three of 17 contents which share nodes, all graphs of two objects with two links each, all chains of up to three classes with all flags",
  "One file is tested, for four values: types of fields given by a reference, long texts, objects without values, references to classes and externalizable classes with a superclass were wrong or stopped the parser. The result was compared with streams written by a Java virtual machine.",
  [RP + "java_serialized.py"], [("JavaSerializedFile, SerializedContent, SerializedReference", RP + "java_serialized.py"), ("SerializedClassDesc, ObjectValue, SerializedArray", RP + "java_serialized.py")],
  note="Externalizable classes of the first version of the protocol, and objects which an exception cuts, are not claimed.")
FIXES += [(x, "A29") for x in ("read long strings of serialized", "types of fields of serialized Java", "names of Java enumeration", "references to serialized Java classes", "show serialized Java objects without", "superclasses of externalizable", "read serialized Java objects without", "references of serialized Java objects before", "strings of serialized Java objects longer")]
P("A30", "3D Studio models are shown as written: chunks, vertices, faces, maps",
  "Each chunk of a .3ds model is shown at its place with its kind, size and name, whatever the sequence, the depth and the chunks which are unknown or empty: the version, objects and materials with their names, colors, "
  "vertices, faces with the chunks behind them, and map coordinates have the values which were written; chunks behind the main one are shown too.",
  ["inputs"], "all sequences of up to four chunks, all trees of groups to a depth with all leaves, all numbers of vertices, faces and maps up to a limit, all kinds with all lengths, all lengths of names, all colors of extreme values",
  "One model is tested, for the name of an object, one vertex and one face.",
  ["hachoir/parser/misc/file_3ds.py", "hachoir/parser/misc/common.py"], [("File3ds, Chunk, readObject, readPolygonList", "hachoir/parser/misc/file_3ds.py"), ("Vertex, MapUV", "hachoir/parser/misc/common.py")],
  note="Chunks whose content is shown as raw bytes are checked for their place, size and kind only.")
P("A31", "ReiserFS volumes are shown as written: superblock, journal, state of blocks",
  "The superblock of a ReiserFS volume has the values which were written, for each magic text and size of blocks, and volumes with another magic are refused; each bitmap block is found at its place and each block of the "
  "volume has its number and its state, used or free, whatever volume was read before.",
  ["inputs", "histories"], "all extreme values of each field, all magic texts and sizes of blocks, all sequences of bitmap blocks with extreme patterns",
  "One volume is tested, for three values of its superblock: the numbers of blocks went on from one volume to the next.",
  [FS + "reiser_fs.py"], [("REISER_FS, SuperBlock, Journal_params", FS + "reiser_fs.py"), ("BitmapBlockGroup, BitmapBlock, BlockState", FS + "reiser_fs.py")],
  note="The tree, the journal and the directories are not parsed.")
FIXES += [("descriptions of ReiserFS blocks", "A31"), ("CR2 directories without", "A09"), ("CR2 metadata find", "A09"), ("CR2 resolutions", "A09")]
W = "hachoir/wx/"
P("W01", "The hex view of hachoir-wx shows the bytes of the file and the selected field",
  "The hex view draws each byte of the file at its address, as a number and as a letter, in panes side by side which fill the window, and marks the bytes of the selected field and no others; a selected field becomes visible, "
  "also after the window has another size, and the first byte shown stays visible after scrolling; the cache behind it returns the bytes of the file for every range, whatever was asked before.",
  ["inputs", "histories"], "all histories of selections, scrolling, sizes of the window and bases up to a depth, all widths of windows with several sizes of characters, all ranges near the limits of chunks and pairs of them",
  "The graphical program has no tests. The real code runs with a stand-in of the toolkit, which records what is drawn and asked.",
  [W + "hex_view/hex_view.py", W + "hex_view/file_cache.py", W + "dispatcher.py"], [("hex_view_t, HexViewLayout", W + "hex_view/hex_view.py"), ("FileCache", W + "hex_view/file_cache.py"), ("dispatcher_t", W + "dispatcher.py")],
  note="What the toolkit itself does (real windows, fonts, events) is replaced by a stand-in.")
P("W02", "The list and the tree of hachoir-wx show each field with its place and value",
  "The list has one row for each field, and one for the parent, with the address (absolute or relative, decimal or hexadecimal), name, type, size, value and description; opening a row, the parent or a node of the tree shows its fields, "
  "in the list and in the tree, also in sets of thousands of fields; selecting tells the field to the other views and offers the types of the same size; a converted field has the new type and value at the same place, and the others stay.",
  ["inputs", "histories"], "all histories of opening, selecting, converting, modes of addresses and the tree up to a depth on several trees, all pairs of conversions, all sizes of sets near the limits",
  "The graphical program has no tests: converting a field failed always. The real code runs with a stand-in of the toolkit.",
  [W + "field_view/field_view_imp.py", W + "field_view/field_view.py", W + "field_view/format.py", W + "field_view/mutator.py", W + "field_view/core_type_menu_imp.py", W + "field_view/stubs.py", W + "tree_view/tree_view.py"],
  [("field_view_imp_t", W + "field_view/field_view_imp.py"), ("convert_field", W + "field_view/mutator.py"), ("core_type_menu_imp_t", W + "field_view/core_type_menu_imp.py"), ("tree_view_t", W + "tree_view/tree_view.py")],
  note="Splitting fields (not implemented in hachoir-wx), opening a field converted to a type with inner fields, and nodes which only have 'more...' are not claimed.")
FIXES += [("fields can be converted to another type in hachoir-wx", "W02")]
P("A32", "Gnome keyrings are shown as written: flags, items, attributes, access rights",
  "The header of a Gnome keyring has the name, the dates, the flags and the lock timeout which were written; each item has its number, kind, and attributes, texts as well as numbers, absent and empty texts included; the "
  "content of the items, once decrypted, has the names, secrets, dates, attributes and access rights which were written.",
  ["inputs"], "all extreme texts, dates and flags, all sequences of items and attributes up to a limit with all kinds, all lists of access rights up to a limit",
  "No Gnome keyring is tested: an empty text stopped the parser, short items were not shown, and the flags were read from the wrong bits.",
  ["hachoir/parser/misc/gnome_keyring.py"], [("GnomeKeyring, Items, Item, Attribute, KeyringString", "hachoir/parser/misc/gnome_keyring.py"), ("EncryptedData, EncryptedItem, ACL", "hachoir/parser/misc/gnome_keyring.py")],
  note="The decryption itself (it needs an AES module which is not installed) and dates beyond 2038 are not claimed.")
FIXES += [("empty texts in Gnome keyrings", "A32"), ("flags of Gnome keyrings", "A32"), ("items of Gnome keyrings", "A32")]
P("A33", "EFI firmware volumes are shown as written: block maps, files, aligned sections",
  "Each volume of an EFI firmware image is found with its header, block map and description; each file is shown at its aligned place with its name, type, attributes and state, each section at its aligned place with its kind "
  "and content, whatever the depth of sections and volumes inside of sections, and the padding and the free space behind the last file are told from files.",
  ["inputs"], "all kinds of sections and files, all sequences of sections up to a limit, trees of three levels, all alignments of the last file with all small lengths of free space, extreme values of the headers",
  "No firmware image is tested: sections behind an odd-sized one were read at the wrong place.",
  ["hachoir/parser/misc/pifv.py"], [("PIFVFile, FirmwareVolume, BlockMap", "hachoir/parser/misc/pifv.py"), ("File, FileSection, readSections", "hachoir/parser/misc/pifv.py")],
  note="Compressed and GUID-defined contents are shown as raw bytes; checksums are not verified by hachoir. The erased state of free space is the one of usual flash memories, all bits set.")
FIXES += [("sections of EFI firmware", "A33"), ("raw and pad files of EFI", "A33"), ("EFI firmware with free space", "A33")]
P("A34", "Blizzard pictures are shown as written: mipmaps, indexes, alpha, texture blocks",
  "Each mipmap of a BLP1 or BLP2 picture is found at its place, with as many rows and columns as its level asks for; palette indexes, alpha values of 1 and 8 bits and the colors which they stand for are those which were "
  "written, and each texture block (DXT1, DXT3, DXT5) has its two colors, its alpha values and, for each of its 16 pixels, the color of the interpolation.",
  ["inputs"], "all widths and heights up to a limit with each kind of picture, number of mipmaps and gap between them, texture blocks of all pairs of extreme colors",
  "One picture is tested, for its header: a second mipmap, a picture which is not square, one with alpha values or with textures stopped the parser.",
  ["hachoir/parser/game/blp.py", "hachoir/parser/image/common.py"], [("BLP1File, BLP2File, Generic2DArray, PaletteIndex", "hachoir/parser/game/blp.py"), ("DXT1, DXT3, DXT3Alpha, DXT5, DXT5Alpha, interp_avg", "hachoir/parser/game/blp.py")],
  note="JPEG mipmaps are shown as raw bytes; kinds of BLP2 pictures which hachoir does not list (alpha of 4 bits, plain BGRA) are not claimed.")
FIXES += [("sizes of the mipmaps of Blizzard", "A34"), ("unused bits behind the alpha", "A34"), ("rows and columns of BLP2", "A34"), ("alpha values of BLP2", "A34"), ("interpolated colors of DXT", "A34"), ("palettes of Blizzard", "A34")]
