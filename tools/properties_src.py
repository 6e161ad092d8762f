prop("C11", "Every field path the code reads names a field that can exist",
     "Wherever a parser, description, metadata extractor or helper reads a field through a path (index, "
     "membership test or array request), the path names a field that some construction in that field set can "
     "create. A path nothing can create would make the read fail as a missing field, or the membership test "
     "be false, for every input.",
     ["inputs", "programs"], "every path reference reachable for any input file, including branches no sample file takes",
     "tests parse about 60 sample files; branches for rare block types, codecs and error messages are never executed",
     ["hachoir/parser", "hachoir/metadata", "hachoir/field"],
     [("field lookup by path", "hachoir/field/field.py Field.getField; generic_field_set.py _getField"),
      ("field construction", "createFields generators of every parser class")],
     technique="whole-program abstract interpretation: child-field model per class, then path resolution at every reference",
     note="Decides each reference whose base class set and path pattern are known; others are counted as undecided.")
prop("C12", "Text and bytes never meet",
     "Raw data is bytes and decoded names, tags and MIME types are text: wherever the code compares, searches, "
     "indexes a table, concatenates or calls a string method with two such operands, both are of the same kind. "
     "A comparison, membership test or table lookup that mixes them is false (or raises) for every input, so the "
     "branch it guards, the block type it should recognise or the signature it should accept never is.",
     ["inputs", "programs"], "every comparison, lookup and concatenation whose operand kinds are derivable, in all modules",
     "sample files reach only the common block types; a comparison which is always false looks like 'not this block type'",
     ["hachoir"],
     [("raw reads", "hachoir/stream/input.py readBytes; hachoir/field/byte_field.py"),
      ("decoded text", "hachoir/field/string_field.py"), ("tables and signatures", "hachoir/parser/**")],
     technique="whole-program abstract interpretation of value kinds (str/bytes/...), including the kind of .value of "
               "resolved fields; definite-clash rules over compare, in, subscript, +, methods and raw-data parameters",
     note="Decides each operation whose two operand kinds are known; the others are counted as undecided.")
prop("C24", "Every name, attribute, call and format on every path exists",
     "No code path reads a name, imported name or attribute that nothing defines, calls a function, method, class or "
     "field hook with arguments it cannot take, applies an operator to operand types that do not support it, formats "
     "a message with the wrong number or kind of values, or names an exception class that does not exist.",
     ["programs", "inputs"], "every load, call, operator, format and except clause in all modules, whatever input is needed to reach it",
     "error messages, rare formats and GUI modules are never executed by the tests; the defect raises only there",
     ["hachoir"],
     [("hooks the core calls", "hachoir/field/field.py; hachoir/parser/parser.py"), ("all modules", "hachoir/**")],
     technique="symbol tables plus whole-program abstract interpretation: name, attribute, arity, operator, format and "
               "exception-class resolution",
     note="Decides each site whose receiver/callee/operands resolve; the others are counted as undecided.")
FLOWT = ("path-partitioned dataflow analysis (abstract interpretation over value terms, loops by widening) of the core "
         "functions; obligations on every abstract outcome")
FLOWN = ("Loops are cut at a widening point, calls outside the analysed functions are opaque terms; an obligation whose "
         "terms are not derivable is counted undecided.")
prop("C01", "A read delivers exactly the bits asked for, or fails",
     "Reading n bits at an address of an input stream either delivers exactly those n bits or raises "
     "ReadStreamError / says how many bits are missing; no caller uses data without looking at what is missing. A sub "
     "stream never reads outside its window, a concatenated or fragmented stream reads each part at its own address and "
     "accepts no short part, signed integers are two's complement, sizeGe() and searchBytes() answer by the "
     "content, and the file view of a stream advances by what it read and stops at its end.",
     ["inputs"], "every address, size, endianness, sub stream window and truncated end",
     "tests read a few whole files; reads crossing the end, sub-byte shifts and windows inside windows are not sampled",
     ["hachoir/stream/input.py", "hachoir/stream/stream.py"],
     [("InputStream.read/_read/readBits/readBytes/readInteger/searchBytes/sizeGe", "hachoir/stream/input.py"),
      ("InputSubStream, ConcatStream, FragmentedStream, InputFieldStream", "hachoir/stream/input.py")],
     technique=FLOWT, note=FLOWN)
prop("C06", "A parser is accepted only after its own validation said yes",
     "Unless validation was switched off, a parser object exists only if the stream holds at least the parser's "
     "min_size bits and its validate() returned exactly True; any other answer ends in ValidateError. The search tries "
     "the candidates with the search's validate flag, survives any exception a candidate raises, and answers an accepted "
     "parser, the forced fallback or None; validation is switched off only by a class or id tag. validate() of every "
     "parser answers True, False or a message on every path, and createParser() closes the stream if nothing was found.",
     ["inputs", "programs"], "every file content and every registered parser",
     "tests validate each parser only on its own sample files; refusals and failing candidates are not exercised",
     ["hachoir/parser/parser.py", "hachoir/parser/guess.py", "hachoir/parser"],
     [("HachoirParser.__init__", "hachoir/parser/parser.py"), ("QueryParser", "hachoir/parser/guess.py"),
      ("validate() methods", "hachoir/parser/**")],
     technique=FLOWT + "; return-kind analysis of every validate()", note=FLOWN)
prop("C07", "Derived properties of a field never raise and are computed once",
     "Reading value, display, raw_display or description of any field, or mime_type, content_size or filename_suffix of "
     "a parser, never raises because the parser's create* hook raised: the failure is logged and the property answers "
     "its default (None, or text). The hook runs at most once: its result is cached and later reads answer the cached "
     "object.",
     ["inputs", "programs"], "every field of every parser, whatever the hook raises",
     "hooks raise only on malformed or rare files",
     ["hachoir/field/field.py", "hachoir/field/basic_field_set.py", "hachoir/parser/parser.py", "hachoir/field"],
     [("Field._getValue/_getDisplay/_getRawDisplay/_getDescription", "hachoir/field/field.py"),
      ("HachoirParser._getMimeType/_getContentSize/_getFilenameSuffix", "hachoir/parser/parser.py")],
     technique=FLOWT, note=FLOWN)
prop("C08", "A parse error inside a field set of known size is contained",
     "An exception raised by createFields() or while adding a field never leaves the reading of a field set which "
     "can be repaired: the generator is dropped, the field set is trimmed or padded with one raw field so that its "
     "fields again fill exactly its size, and iteration goes on. The error leaves only if the repair answered that it "
     "cannot repair. A normal end of the generator finishes the field set the same way (_stopFeeding).",
     ["inputs", "crash points"], "every point of the parsing at which an error can occur",
     "tests parse well-formed samples, plus a few truncated ones",
     ["hachoir/field/generic_field_set.py", "hachoir/field/seekable_field_set.py"],
     [("GenericFieldSet._fixFeedError/_stopFeeding/_fixLastField/readMoreFields/__iter__/_feedUntil/_feedAll",
       "hachoir/field/generic_field_set.py"), ("RootSeekableFieldSet", "hachoir/field/seekable_field_set.py")],
     technique=FLOWT, note=FLOWN)
prop("C09", "Fields tile their field set: addresses and sizes are consistent",
     "A field added to a field set starts where the previous one ended, is added once, only after it was checked to fit, "
     "and the field set grows by exactly its size; the absolute address of a field is its parent's plus its own; "
     "truncating, deleting, replacing and inserting fields keep the sum of sizes; padding, seeking and raw-filling "
     "helpers create a field covering exactly the asked gap; finding a field by address answers the field containing it.",
     ["inputs", "histories"], "every sequence of additions, repairs, seeks and replacements",
     "tests look at a few addresses of well-formed files",
     ["hachoir/field", "hachoir/core/tools.py"],
     [("GenericFieldSet._addField/_checkSize/_deleteField/_truncate/seekBit/seekByte/replaceField/writeFieldsIn/"
       "getFieldByAddress", "hachoir/field/generic_field_set.py"), ("SeekableFieldSet", "hachoir/field/seekable_field_set.py"),
      ("createRawField/createPaddingField/createNullField", "hachoir/field/helper.py")],
     technique=FLOWT, note=FLOWN)
prop("C22", "The ordered dictionary of fields keeps index, keys and values in step",
     "After any operation on the field dictionary (append, insert, replace, delete, by name or by position) the list of "
     "values, the list of keys and the name-to-position index describe the same sequence; a duplicate key raises "
     "UniqKeyError and changes nothing; lookups, iteration and length answer by that sequence.",
     ["histories"], "every sequence of operations and every position, negative ones included",
     "the unit tests run one scripted sequence",
     ["hachoir/core/dict.py"], [("Dict", "hachoir/core/dict.py")],
     technique=FLOWT, note=FLOWN)
prop("C13", "Every loop moves on: a turn that repeats changes what decides the next",
     "No loop can turn for ever: on every path from one turn of a while loop to the next, a field is created, a call "
     "consumes something, or a value is changed which the loop's condition or one of its exits depends on; a loop which "
     "counts towards a bound steps towards it; a loop which decodes a value from successive bits reads further bits in "
     "each turn; and no function or property calls itself again on every path. A file which leads into such a turn would "
     "hang the program.",
     ["inputs"], "every path through the body of every open-ended loop, whatever in the file leads there",
     "sample files take the common paths; the branch which neither adds a field nor moves on is reached by an unusual "
     "block type or size only, and a hang is not a failed assertion",
     ["hachoir"],
     [("feeding loop", "hachoir/field/generic_field_set.py _feedAll, readMoreFields"),
      ("loops of the parsers", "createFields and helper generators in hachoir/parser/**"),
      ("variable-length integers", "hachoir/parser/**"), ("helpers", "hachoir/core, hachoir/stream, hachoir/regex")],
     technique="path analysis of every open-ended loop over the syntax tree: paths without progress (field creation, call "
               "with an effect, store to a value its condition or exits depend on), loop-invariant conditions and reads, "
               "direction of counters, must-call recursion",
     note="Progress of a called function which is not known to be pure is assumed; a path which remains after tests of one "
          "value for several constants is undecided unless the value's range is known. That a chain of links in the file "
          "ends is not decided.")
prop("C14", "Every parser is registered under valid, unique, searchable tags",
     "Every concrete parser class defined in the parser package is imported and registered once; its PARSER_TAGS give a "
     "unique text id, a known category, a description, file extensions in the form the lookup by file name computes, a "
     "min_size in bits which holds at least the signature of the format, and magics that are (bytes, bit offset) pairs or compilable bytes patterns which can really be "
     "found: at the offset where validate() and the first fields read the same constant. The registry hands every "
     "parser's tags to the index by class, id, extension, category and magic, so that a lookup by any of them reaches it.",
     ["inputs", "programs"], "every parser class and each of its tags",
     "tests open about 60 samples by validation; a wrong id, extension or magic is only seen when that tag is looked up",
     ["hachoir/parser", "hachoir/regex/pattern.py", "hachoir/subfile/search.py"],
     [("PARSER_TAGS of each parser", "hachoir/parser/**"), ("HachoirParserList/ParserList", "hachoir/parser/parser_list.py"),
      ("QueryParser lookups", "hachoir/parser/guess.py")],
     technique="constant evaluation of every parser class's tags from the syntax tree, import-graph reachability, "
               "agreement of magic constants with the constants validate() compares, dataflow obligations on the registry",
     note="Tags computed at run time are undecided; regex magics are compiled and checked for an anchored length only.")
prop("C15", "Metadata are stored under registered keys, with types the key accepts",
     "Every metadata value an extractor stores or reads is named by a key registered once in registerAllItems(), with a "
     "valid priority, description and a filter that can accept a value of the key's type; a stored value can have a type "
     "the key (or its conversion) accepts, otherwise it would be dropped for every file. Tables from tag or field names to "
     "metadata keys name registered keys. Each extractor class is registered for one parser class, derives from "
     "RootMetadata, and is loaded by importing hachoir.metadata.",
     ["programs", "inputs"], "every store and read of metadata in every extractor, whatever file is needed to reach it",
     "tests compare a few values of well-known files; rare tags are never extracted, and a failed store is only logged",
     ["hachoir/metadata", "hachoir/strip.py"],
     [("registerAllItems", "hachoir/metadata/register.py"), ("extractors", "hachoir/metadata/*.py")],
     technique="constant evaluation of the registration table plus whole-program abstract interpretation of stored keys "
               "and value kinds",
     note="A value whose kinds are not derivable is counted undecided; filters are only checked to be satisfiable.")
prop("C16", "Metadata extraction never raises and keeps only valid, distinct values",
     "extractMetadata() answers None when no extractor is registered for the parser's class, else the object the extractor "
     "filled from the parser, even if the extractor (or a fault-tolerant part, or the reading of an optional field, or a "
     "conversion) raises: the error is logged. A metadata key keeps a value once, only if it is not None, not an empty text, "
     "converted when the key has a conversion, of the key's type, accepted by its filter, and not the beginning of a kept "
     "text; a value that is merely zero is not dropped. Missing values answer the default, or ValueError. Empty groups are "
     "refused, others are added once and numbered. Exports list exactly the values up to the asked priority, for the groups "
     "too, and str() works on empty metadata.",
     ["inputs", "histories"], "every sequence of stored values and every exception inside an extractor",
     "tests extract a few well-formed files; failing extractors, duplicate and refused values are hardly sampled",
     ["hachoir/metadata"],
     [("extractMetadata, Metadata, MultipleMetadata", "hachoir/metadata/metadata.py"),
      ("Data.add", "hachoir/metadata/metadata_item.py"), ("fault_tolerant, getFieldAttribute", "hachoir/metadata/safe.py")],
     technique=FLOWT, note=FLOWN)
prop("C03", "Analysing a file has no effect outside the program",
     "Parsing a file, describing it or extracting its metadata reads the input through files opened for reading only and "
     "never writes to it. No code of the package runs code or commands; only the modules whose purpose it is (output "
     "streams, log file, the save functions of the tools) write, create or delete files; nothing contacts the network but "
     "the optional reverse lookup of an IP address; the library (everything but the command line and graphical tools) never "
     "prints, never ends the process and never changes its state (directory, environment, signals, limits, warnings).",
     ["inputs", "programs"], "every function of the package and every effect it can have",
     "tests do not look at effects, and an effect in a rarely used parser is never executed",
     ["hachoir"], [("FileInputStream", "hachoir/stream/input_helper.py"), ("all parsers", "hachoir/parser/**"),
                   ("all extractors", "hachoir/metadata/*.py")],
     technique="effect analysis: every call of every function is resolved and classified (exec, write, network, process, "
               "stdout, exit), effects propagate through the named call graph, and are allowed per module purpose",
     note="Calls on values of unknown type are resolved by name only.")
prop("C04", "Analysing one file leaves nothing which changes the analysis of another",
     "While a file is analysed, no code of the library rebinds a global variable, changes a container (table, list, "
     "dictionary) which belongs to a module or a class, sets an attribute of a class, a function or a module, or changes a "
     "mutable default argument: two analyses in one process are independent. Kept on purpose: the registries filled by "
     "imports, and memos whose values do not depend on a file (address lookups, a CRC table, translation set up).",
     ["histories", "inputs"], "every sequence of files analysed in one process",
     "tests analyse a file in a fresh state, or do not compare with the result a fresh process gives",
     ["hachoir"], [("shared tables of parsers", "hachoir/parser/**"), ("class attributes of fields", "hachoir/field")],
     technique="ownership analysis: every store, deletion and mutating call is attributed to a shared or an own object",
     note="Objects reached through parameters or instance attributes of unknown origin are taken as own.")
prop("C23", "An output stream writes exactly the bits given, in their order",
     "Writing n bits puts them right behind those written so far: from the most significant bit and the top of each byte "
     "downwards in big endian, from the least significant bit and the bottom upwards in little endian; a byte goes out "
     "when it is full, the bits left over begin the next one. A number is written as the bytes of its two's complement in "
     "the asked size and endian. Bytes are refused while a byte is begun. Copying from an input covers exactly the asked "
     "range, in order, and goes by bytes only if all positions are aligned. Reading back restores the write position.",
     ["inputs", "histories"], "every bit position, count, value and endian, every address and size of a copy",
     "the tests write a few fields at aligned positions",
     ["hachoir/stream/output.py"], [("OutputStream.writeBit/writeBits/writeInteger/copyBitsFrom/copyBytesFrom/readBytes",
                                     "hachoir/stream/output.py")],
     technique=FLOWT + ", and a bit slice domain (which bits of the value stand where, with symbolic bounds) for writes",
     note="Bytes and integers themselves are converted by core.bits.long2raw.")
prop("C26", "The editor writes what was not changed as it was, and the new values of what was",
     "Writing an edited field set copies every unaltered field and field set bit by bit from its place in the input, and "
     "writes altered fields from their new value in the size, sign and endian of the field; a field set counts as altered "
     "when any field of it was set, inserted or deleted. Deleted fields are left out, inserted ones stand where they were "
     "inserted, in order, with unique names; addresses and sizes are those of what is written. A value which does not fit "
     "is refused, when set or when a new field is made of it. Only existing fields are deleted, once; edits are never lost.",
     ["histories", "inputs"], "every sequence of edits and every field value",
     "the tests make a handful of edits of two files",
     ["hachoir/editor"], [("EditableFieldSet", "hachoir/editor/fieldset.py"), ("FakeField", "hachoir/editor/field.py"),
                          ("Editable* fields, createEditableField", "hachoir/editor/typed_field.py")],
     technique=FLOWT, note=FLOWN)
prop("C17", "What is opened or changed for a while is closed or put back, whatever happens",
     "On every path, also when an exception comes out of what is called in between: a file or stream which a function of the "
     "library or a command line tool opens is closed, unless it is answered or kept by an object; createParser() closes the "
     "file when no parser is found; leaving the with statement of a parser or stream closes it, closing a parser closes its "
     "stream, closing a file stream closes the file, closing a part of a stream does not close the whole. The locale, signal "
     "handlers, the alarm and resource limits are what they were before a function changed them for a while; so are the place "
     "of the next field (createOrphanField) and the feeding flag of a field set.",
     ["crash_points", "histories"], "every place where an exception can come from, in every such function",
     "the tests do not let calls fail half-way, and do not look at what stays open or changed",
     ["hachoir/core/memory.py", "hachoir/core/timeout.py", "hachoir/stream", "hachoir/parser/guess.py", "hachoir/field/helper.py"],
     [("createParser", "hachoir/parser/guess.py"), ("FileInputStream", "hachoir/stream/input_helper.py"),
      ("limitedMemory", "hachoir/core/memory.py"), ("limitedTime", "hachoir/core/timeout.py"),
      ("parseDatetime", "hachoir/metadata/setter.py"), ("createOrphanField, writeIntoFile", "hachoir/field/helper.py")],
     technique="typestate analysis: the states of each opened resource and each changed state are followed over all paths of "
               "the function, exceptions of every call included",
     note="Graphical interfaces are left out; whether a wrapper keeps the resource is taken from its being bound to a name.")
prop("C10", "The same file gives the same result in every run and on every machine",
     "Nothing in the library (streams, fields, parsers, parser selection, metadata, editor, regex) lets its result depend on "
     "the current time, chance, the environment, locale or time zone of the machine, the memory address or hash of objects, "
     "or the order in which a set is iterated; numbers are decoded with a stated byte order and size, never those of the "
     "machine. In particular parsers are tried in the same order in every run. Kept on purpose: times in the log, host names "
     "of IP addresses, the character set of the terminal.",
     ["programs", "inputs"], "every function of the library",
     "tests run once, on one machine, with one hash seed",
     ["hachoir"], [("QueryParser", "hachoir/parser/guess.py"), ("timestamps", "hachoir/core/tools.py"),
                   ("floats", "hachoir/field/float.py")],
     technique="effect analysis: every reference is resolved and classified as a source of non-determinism; set-typed values "
               "are followed to uses which depend on their order; struct formats must state their byte order",
     note="Sets whose type is not evident in the function or the class, and user code, are not followed.")
prop("C05", "A field's value is what its own bits mean",
     "The value of a bit, integer, bytes, character, float, date or string field of the field library is computed from "
     "exactly the bits that field covers: read at its own absolute address, over its own size, in the endian of its "
     "parent, with the sign it was declared with. A type has the size, sign, epoch, unit, prefix or suffix its name and "
     "documentation say (UInt24, Float80, TimestampMac32, PascalString16...); the parts of a float and of an MS-DOS date "
     "lie where their format puts them; prefix, byte order mark, content and suffix of a string tile its size, the suffix "
     "is found at a character boundary and only the content is decoded, cut and stripped; vectors hold the asked number "
     "of items; Enum, textHandler, displayHandler and filesizeHandler change the display only, never the value.",
     ["inputs"], "every content, address, size, endian, sign and charset of a field",
     "tests check a few values of well-formed files; signed, big endian, empty, truncated or marked variants of a type are rare there",
     ["hachoir/field", "hachoir/core/tools.py", "hachoir/core/bits.py", "hachoir/core/text_handler.py"],
     [("createValue and __init__ of the field types", "hachoir/field/{bit_field,byte_field,integer,float,character,timestamp,string_field,vector,padding}.py"),
      ("date conversions", "hachoir/core/tools.py timestampUNIX/timestampMac32/timestampWin64/timestampUUID60"),
      ("str2long and the middle endian", "hachoir/core/bits.py"), ("display adapters", "hachoir/field/enum.py; core/text_handler.py")],
     technique=FLOWT + "; factories instantiated by constant propagation; charset tables compared with the codecs' definition", note=FLOWN)
prop("C28", "Tests and tables on field values name values the field can have, each once",
     "Wherever code compares the value of a field (or bits and bytes read from the stream) with constants, or names its "
     "values in a table (Enum, dictionary lookup), every constant is a value that field can hold: inside the range of its "
     "size and sign, made of the bits a mask leaves, of the type, length, stripping and case of its text or bytes. No "
     "branch of an if/elif chain, alternative of an `or`, part of an `and` or nested test is dead because earlier or "
     "enclosing tests took every value it is for, and no test on constants is true for every value. The keys of a table "
     "are distinct. What is compared, calculated with, looked up or tested for truth is the field's value, never the "
     "Field object, which equals no constant and is always true.",
     ["inputs", "programs"], "every comparison, test chain and table whose subject has a derivable domain, in all modules",
     "the value a dead branch or table entry is for is absent from the sample files: nothing ever misses it",
     ["hachoir"],
     [("tests on field values", "createFields, createDescription and validate of every parser class; hachoir/metadata extractors"),
      ("tables of values", "Enum(...) and class or module dictionaries of hachoir/parser"),
      ("what values a field can have", "hachoir/field/{integer,bit_field,byte_field,string_field,character,float}.py")],
     technique="value domains (ranges, masks, lengths, kinds) of fields and expressions; three-valued evaluation of test "
               "chains over the regions the constants cut; constant propagation of tables",
     note="Decides tests whose subject's domain and constants are derivable; redundant order tests are not reported.")
prop("C29", "Every field has a name of its own in its parent, and a text description",
     "In a field set every field is created under a name of its own. Where fields of one kind follow each other (in a "
     "loop, or several times in a function, in the generator functions it delegates to and in the handler chosen for a "
     "type) their name ends with [] and is numbered, or is built from something which changes; a fixed name is never "
     "given to a second field of the same parent on a path on which the first has been created: it would be renamed "
     "behind its creator's back, and lookups would find the other one. A name is text, not empty and free of the "
     "separator of paths; a description is text and a size a number which is not negative.",
     ["inputs", "programs"], "every creation of a field in every generator function, and every constructor call of a field class",
     "a name used twice only shows for files which contain both fields, or two items of the repeated one",
     ["hachoir/parser", "hachoir/field"],
     [("creations of fields", "createFields of every parser class, the generator functions and handlers it delegates to"),
      ("how names are given", "hachoir/field/generic_field_set.py _addField/setUniqueFieldName; field.py __init__")],
     technique="ordered walk over the generator functions (delegation and handler tables inlined) comparing the tests each "
               "creation is under; types and constants of the constructor arguments",
     note="Decides names that are constants at the creation; names read from tables or files may still collide.")
prop("C30", "Counts, sizes, addresses and indexes are whole numbers",
     "The size, length or number of items given to a field, an index or bound of a slice, what range(), a read, a seek, a "
     "search, a padding or a repetition counts, an operand of a shift or mask, a number formatted in hexadecimal, a stored "
     "size or address and the new value of an edited integer are whole numbers. None of them is the result of a true "
     "division or another float, neither directly nor through variables, attributes, parameters or results of functions: "
     "a float there raises a TypeError for the file which reaches it, or gives fractional addresses.",
     ["inputs", "programs"], "every such use in all modules, through assignments, parameters, attributes and results",
     "the branch which divides is reached by few files, and a float compares equal to the integer it should be",
     ["hachoir"],
     [("sizes computed from the file", "createFields and __init__ of every parser class"),
      ("reads, seeks and searches", "hachoir/stream; hachoir/field/generic_field_set.py seekBit/seekByte; hachoir/subfile"),
      ("stored sizes", "_size/_address/_current_size in hachoir/field and hachoir/editor")],
     technique="reaching definitions with interprocedural propagation of the demand for a whole number to parameters and "
               "attributes; inferred types",
     note="Decides uses whose definitions are followed; values taken out of containers are not.")
prop("C31", "Structures take the bits they declare; byte fields begin at whole bytes",
     "A structure with a constant static_size creates fields of exactly that many bits on every path of its createFields: "
     "vectors, size computations and the address of what follows use the declared size. Flags and other bit fields fill "
     "whole bytes before a field of whole bytes (integers of 8 to 64 bits, byte strings, strings, timestamps, structures "
     "of these) is created, on every path, also through the formats of static field sets and through the functions and "
     "structures a field set creates fields with: otherwise strings cannot be read (\"non-byte-aligned data\") and "
     "integers have bits of two values. A padding up to a fixed position comes after the fields before it.",
     ["inputs", "programs"], "every field set with a constant declared size, every creation of a field of whole bytes, every path",
     "the path with one bit too much or too few belongs to a rare version, flag or block type",
     ["hachoir/field", "hachoir/parser"],
     [("declared sizes", "static_size of the structures in hachoir/parser and hachoir/field/timestamp.py; vector.py; static_field_set.py"),
      ("bit fields", "Bit, Bits, NullBits, PaddingBits and RawBits in createFields of every parser class"),
      ("refused reads", "hachoir/stream/input.py InputStream.readBytes")],
     technique="abstract interpretation of createFields: bounds of the bits created and rests modulo 8, over all paths, "
               "through delegated generators, nested structures and format tables",
     note="Decides structures whose sizes follow from constants; sizes read from the file are assumed to be what aligns them.")
prop("C02", "Sizes and addresses never mix bits with bytes",
     "Sizes and addresses of fields and streams count bits; lengths given to byte fields (RawBytes, Bytes, String, "
     "SubFile, PaddingBytes, NullBytes), to readBytes()/copyBytesFrom(), seekByte() and humanFilesize(), positions in "
     "Python files and byte strings, and fields displayed as a file size count bytes. Throughout the program a quantity "
     "of one unit reaches a place which wants the other only through a multiplication or division by 8: no sum, "
     "difference, comparison, minimum, range, stored attribute or argument relates bits with bytes, so a size computed "
     "from the file's own fields denotes the data it is meant to.",
     ["inputs", "programs"], "every arithmetic expression, comparison and call whose units follow from the public contracts, in all modules",
     "a factor 8 lost in a branch for a rare block type still parses: the sample files never reach it",
     ["hachoir"],
     [("field and stream sizes", "hachoir/field/field.py; hachoir/stream/input.py"),
      ("byte fields", "hachoir/field/byte_field.py; string_field.py; sub_file.py; padding.py"),
      ("sizes computed from the file", "createFields and __init__ of every parser class; hachoir/subfile; hachoir/editor")],
     technique="unit inference (unification of unit variables with offsets) over locals, attributes, field values, parameters "
               "and results; units fixed by the public contracts",
     note="Decides relations between expressions whose units are both derivable; quantities only ever used in one place have none.")

prop("C18", "Decoded values agree with the published specification of each format",
     "For every well-formed file of a supported format, the parser's fields, names, enumerations and computed "
     "descriptions are the ones the format's specification gives: offsets, field widths, byte order per table, codec "
     "and flag names, units of times and sizes.",
     ["inputs"], "every well-formed file of each of the roughly 70 formats",
     "about 60 sample files exercise a few structures of each format",
     ["hachoir/parser"],
     [("format tables and createFields generators", "hachoir/parser/**")],
     na="The specifications are not in the source: which of two plausible constants, widths or enumerations is right "
        "is external knowledge. The internal part (units, layout, names, tables against what is looked up in them, "
        "tags, kinds) is decided by C02, C11, C12, C14, C28, C29, C30 and C31.")
prop("C19", "Decompressed streams equal what the reference decompressor produces",
     "The pure Python decompressors (bzip2 Huffman/MTF/BWT, LZX, deflate, LZF-like RLE of images and archives) and the "
     "zlib/bz2 wrappers yield, for every valid compressed stream, the bytes a reference implementation yields.",
     ["inputs"], "every valid compressed stream",
     "one or two sample archives per method",
     ["hachoir/parser/archive"],
     [("decompressors", "hachoir/parser/archive/lzx.py, zlib.py, bzip2_parser.py, mozilla_ar.py")],
     na="Functional correctness of a decoder over unbounded histories of run-time tables: no dataflow abstraction bounds "
        "the decoded contents, and the oracle would be running a reference decoder, which is another family.")
prop("C20", "Regular expressions keep their language under concatenation and alternation",
     "The regex object built by parse(), +, |, repeat and minLength/maxLength matches exactly the language of the "
     "pattern written, for every pattern and every combination of operators, and the optimisations (common prefix, "
     "range merging) never change it.",
     ["programs", "inputs"], "every pair of patterns and every string",
     "about forty pattern pairs are compared by their printed form",
     ["hachoir/regex"],
     [("optimisations", "hachoir/regex/regex.py _and, or_, optimization; parser.py")],
     na="Language equivalence of run-time objects: the rewriting rules depend on the values of both operands, and deciding "
        "that each rule preserves the language needs execution or a proof over an automaton semantics, not an analysis of "
        "the source in reach.")
prop("C21", "Pattern search finds every registered magic, at every position",
     "Searching a stream for the magics of the registered parsers reports every occurrence of each at its right "
     "address, across buffer boundaries, and no other address.",
     ["inputs"], "every stream, every position of a magic relative to the buffers",
     "the search is tested on one file with its matches inside one buffer",
     ["hachoir/subfile", "hachoir/regex/pattern.py", "hachoir/stream/input.py"],
     [("search", "hachoir/subfile/search.py; InputStream.searchBytes; PatternMatching")],
     na="Completeness depends on the language of the regular expression built at run time (C20) and on overlap lengths "
        "computed from it. The decidable part, that an address found is reported in the right unit and that magics are "
        "bytes of the right offset, is decided by C02, C12 and C14.")
prop("C25", "Time and memory stay bounded by the size of the file",
     "Opening a file and reading its metadata takes time and memory at most proportional to what is read of the file, "
     "whatever counts, sizes and links the file contains; no loop runs on without consuming the file.",
     ["inputs"], "every file, hostile ones included", "sample files are well-formed and small",
     ["hachoir/parser", "hachoir/metadata", "hachoir/field"],
     [("loops over values read from the file", "hachoir/parser/**"), ("limits", "hachoir/parser/parser.py; hachoir/metadata")],
     na="Amortised cost over run-time counts. Loops of the parsers end because a field read past the end of the stream "
        "raises, which is a run-time bound; chains of links in the file (FAT, OLE2 sectors, QuickTime offsets) have "
        "no static bound at all.")
prop("C27", "Sizes, durations and dates are printed for humans without loss of meaning",
     "humanFilesize, humanBitRate, humanDuration, makePrintable and the timestamp converters return, for every "
     "number in their domain, the text or date that denotes it.",
     ["inputs"], "every number in each function's domain", "doctests check about five numbers per function",
     ["hachoir/core/tools.py"],
     [("conversions", "hachoir/core/tools.py")],
     na="Numeric equality of an output text with a run-time number: the oracle is arithmetic on the concrete values. "
        "That the converters reject or clamp out-of-range input and keep units apart is part of C02, C07 and C16.")
prop("C32", "What a parser builds is added: no field is built and forgotten",
     "Every field that a field set's generator builds for it is yielded, handed to another function or stored, "
     "and every generator of fields it calls is iterated over and its fields passed on. A field that is built, perhaps even "
     "read, and then dropped leaves its bits to the next field, so that all fields after it are shifted and their values "
     "wrong; a generator that is only called, or a createFields() that returns a field, adds nothing at all.",
     ["inputs", "programs"], "every construction of a field and every call of a generator of fields in all parsers and helpers",
     "the sample files reach a few of the optional fields; where the field is optional, nothing shows its absence",
     ["hachoir/parser", "hachoir/field"],
     [("feeding", "hachoir/field/generic_field_set.py _addField, readMoreFields"),
      ("generators", "createFields and parse helpers in hachoir/parser/**"), ("padding", "GenericFieldSet.seekByte/seekBit")],
     technique="effect and escape analysis over the type-resolved syntax tree: constructor and pure-helper calls which return "
               "fields, generators, reaching definitions of the variables which hold them",
     note="A field which is looked at and added on some other path only (a peek at an end marker) is legal and passes.")
