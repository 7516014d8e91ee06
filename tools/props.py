U = "src/libsrcml/srcml_unit.cpp"; A = "src/libsrcml/srcml_archive.cpp"; TR = "src/libsrcml/srcml_translator.cpp"; OUT = "src/parser/srcMLOutput.cpp"
BUF = "src/parser/UTF8CharBuffer.cpp"; H = "src/libsrcml/srcml.h"; SAX = "src/libsrcml/sax2_srcsax_handler.cpp"; RH = "src/libsrcml/srcml_reader_handler.hpp"; RD = "src/libsrcml/srcml_sax2_reader.cpp"

prop("C01", "Source to srcML and back is the identity on the bytes of any source",
 """For every source text in every language and under every combination of markup options, translating it to srcML, storing it in a document, reading the document back, and extracting
 the source gives exactly the original text. Nothing is dropped, duplicated, reordered, or normalized, however broken or unusual the source is.""",
 ["inputs", "configurations"], "all UTF-8 source texts with LF line ends in the five languages, complete or not, under all subsets of the markup options, solitary or in an archive",
 "The suite compares a few thousand small, mostly valid fragments with their expected srcML; it samples neither malformed code, nor control characters, nor sources above an internal buffer, nor combinations of markup options.",
 ["src/parser/srcMLParser.g", "src/parser/StreamMLParser.hpp", OUT, RH, "src/libsrcml/unit_utilities.cpp"],
 [("token stream emits every consumed token exactly once, also while paused or skipped", "src/parser/StreamMLParser.hpp: nextToken, pauseStream, nopStreamStart"),
  ("control characters become escape elements and back", "src/parser/srcMLOutput.cpp: processEscape; src/libsrcml/unit_utilities.cpp: start_element"),
  ("text of the unit is collected back from the srcML", "src/libsrcml/srcml_unit.cpp: srcml_unit_unparse_internal")],
 technique="property-based testing: round trip over generated and mutated sources")

prop("C02", "The srcML of any source is well-formed namespaced XML whose text is the source",
 """Whatever the source text, attributes, encodings, namespaces, and options, the document written is well-formed, namespace-correct XML with the documented root, one unit element per written unit
 and only elements of the srcML, cpp, and OpenMP namespaces inside. The text content of each unit element, with escape elements decoded, is the source text of that unit.""",
 ["inputs", "configurations"], "all archives and solitary units over generated sources, attribute values with any XML-special or non-ASCII characters, XML encodings, processing instructions, and registered namespaces",
 "The suite compares strings for fixed inputs; well-formedness for arbitrary broken code (unbalanced start and end tags), arbitrary characters, and setting combinations is not sampled.",
 [OUT, TR, A, "src/parser/srcMLParser.g"],
 [("start and end tags balance for any token stream", "src/parser/StreamMLParser.hpp, src/parser/ModeStack.hpp"), ("text, attribute, and character escaping", "src/parser/srcMLOutput.cpp: processText, startUnit"),
  ("archive root and unit writing", "src/libsrcml/srcml_translator.cpp: startUnit, add_unit")],
 technique="property-based testing: model of the document checked by an independent XML reader")

prop("C03", "The srcML of a source does not depend on how the source reaches the parser",
 """The same bytes parsed from memory, a named file, a FILE, a descriptor, a pipe, or read callbacks that deliver any chunk sizes give the same srcML, hash, lines of code, and encoding, and all of the source is used.
 A byte-order mark and the declared or detected encoding have the same effect on every channel; no descriptor is leaked, the caller's descriptor stays open, and a close callback runs exactly once.""",
 ["inputs", "schedules", "configurations"], "all sources, encodings with and without byte-order marks, and all ways the bytes are split over reads",
 "The unit tests parse short ASCII strings over each channel; no test has a multibyte character or a byte-order mark split over two reads.",
 [BUF, "src/parser/UTF8CharBuffer.hpp", U],
 [("refill and decode of the read buffer", "src/parser/UTF8CharBuffer.cpp: getChar, readChars"), ("byte-order mark detection and encoding choice", "src/parser/UTF8CharBuffer.cpp: constructors, init"),
  ("one parse routine for all channels", "src/libsrcml/srcml_unit.cpp: srcml_unit_parse_*")],
 technique="property-based testing: differential over input channels and chunkings")

prop("C04", "The same document comes out however it is written",
 """Writing one archive to memory, a named file, a FILE, a descriptor, or a write callback gives byte-identical documents, and extracting the source of one unit over each of those channels gives byte-identical source in any encoding.
 The caller's FILE and descriptor stay open, the close callback runs once, no descriptor leaks.""",
 ["inputs", "configurations"], "all archives (units, attributes, namespaces, options), XML encodings, and source encodings including the multi-byte ones with NUL bytes",
 "The unit tests write a fixed ASCII unit over each channel in the default encoding.",
 [A, U, TR, OUT],
 [("open for output per channel", "src/libsrcml/srcml_archive.cpp: srcml_archive_write_open_*"), ("XML encoding of the output and its byte-order mark", "src/libsrcml/srcml_archive.cpp, src/libsrcml/srcml_translator.cpp"),
  ("source extraction per channel", "src/libsrcml/srcml_unit.cpp: srcml_unit_unparse_*")],
 technique="property-based testing: differential over output channels")

prop("C05", "The same archive and units are read however the document is read",
 """Reading one srcML document from memory, a named file, a FILE, a descriptor, a pipe, or read callbacks in any chunks gives the same archive settings, the same number of units, and for each unit the same attributes,
 srcML views, source, and lines of code. No descriptor leaks, the caller's FILE stays open, the close callback runs once.""",
 ["inputs", "schedules"], "all documents srcML writes, small and far above the read size, in several XML encodings, and all chunk sizes of at least the look-ahead libxml2 itself needs",
 "The unit tests read one short ASCII unit over each channel; none reaches a second read of the input.",
 [SAX, RD, RH, A, "src/libsrcml/srcsax_controller.cpp"],
 [("raw markup is collected from a moving input buffer", "src/libsrcml/sax2_srcsax_handler.cpp: update_ctx, characters_unit, start_element"), ("open for input per channel", "src/libsrcml/srcml_archive.cpp: srcml_archive_read_open_*")],
 technique="property-based testing: differential over input channels and chunkings")

prop("C06", "Reading delivers exactly the units of the document, in any legal spelling",
 """Each read gives the next unit element of the document with its attributes, srcML, inner srcML, source, and lines of code, in order, for any mix of reading and skipping units, and none after the last.
 It does not matter how the document is spelled: character references, CDATA, comments, processing instructions, quotes, attribute white space, or empty-element tags as any other XML tool may write them.""",
 ["inputs", "histories"], "all archives and solitary units, all equivalent XML spellings of them, and all sequences of reads and skips, past the end or closed early",
 "The tests read documents in the spelling srcML itself writes; comments, CDATA, references, and skips between such units are not sampled.",
 [SAX, RD, RH, U],
 [("unit and element events", "src/libsrcml/sax2_srcsax_handler.cpp"), ("hand-over between the parsing thread and the caller", "src/libsrcml/srcml_reader_handler.hpp, src/libsrcml/srcml_sax2_reader.cpp"), ("attributes of the unit", "src/libsrcml/unit_utilities.cpp: unit_update_attributes")],
 technique="model-based testing: random read histories against an independent XML reading")

prop("C07", "Hash and lines of code are those of the exact source bytes",
 """With hashing on, the hash of a unit is the SHA-1 of exactly the source bytes given, whatever their encoding, line ends, size, or input channel; with hashing off there is none. The lines of code are those of the decoded source,
 and both stay the same when the unit object is used again, written, read back, or reported from the document.""",
 ["inputs", "configurations", "histories"], "all sources of all sizes around the digest and read-buffer boundaries, encodings, line ends, channels, solitary units and archives, and reuse of a unit object",
 "The tests check the hash and lines of code of a handful of short ASCII strings in memory.",
 [BUF, U, "src/libsrcml/unit_utilities.cpp", SAX],
 [("hash over the raw bytes as they are read", "src/parser/UTF8CharBuffer.cpp: readChars, ~UTF8CharBuffer"), ("lines of code from the parser and from the text of a unit read", "src/parser/UTF8CharBuffer.cpp: getChar; src/libsrcml/sax2_srcsax_handler.cpp: characters_unit"),
  ("hash of the unit object", "src/libsrcml/srcml_unit.cpp: srcml_unit_parse_internal, srcml_unit_get_hash")],
 technique="property-based testing: independent SHA-1 and line count as reference model")

prop("C08", "Source in any encoding is decoded exactly, or reported as not decodable",
 """The text of the srcML is the source decoded from its declared or detected encoding, and extracting the source in that encoding encodes the same text again, on every channel and for every read chunk.
 Source that is not valid in its encoding is reported with an error status, never silently cut, and the encoding used is what the unit reports and stores.""",
 ["inputs", "schedules", "configurations"], "all texts in single-byte, multibyte, stateful, and wide encodings, all damages to their bytes, and all splits of the bytes over reads",
 "The tests have a few ISO-8859-1 and UTF-8 characters in memory; no test has undecodable source, a multibyte encoding, or a character split over reads.",
 [BUF, U, "src/libsrcml/srcml_translator.cpp"],
 [("iconv over refills of the read buffer", "src/parser/UTF8CharBuffer.cpp: readChars"), ("encoding from unit, archive, or content", "src/libsrcml/srcml_unit.cpp: optional_to_c_str of unit and archive src_encoding"),
  ("output conversion while extracting", "src/libsrcml/unit_utilities.cpp, src/libsrcml/srcml_unit.cpp: srcml_unit_unparse_internal")],
 technique="property-based testing: differential against whole-buffer iconv, with damaged bytes")

prop("C09", "Line ends of the source become LF in srcML and come back as requested",
 """A CR, an LF, or a CR LF pair is one line end: the text of the srcML has LF for each, wherever it is (code, comments, strings, directives) and however the bytes are split over reads, so the markup of a source does not depend on its line ends
 apart from the hash. Extracting the source writes every line end as the one requested, and LF by default, over every channel and in every encoding.""",
 ["inputs", "configurations", "schedules"], "all sources, mixtures of line ends, splits of a CR LF pair over reads, encodings, channels, and requested line ends",
 "The tests have short ASCII strings with one kind of line end; no test mixes them, splits a pair over two reads, or uses another encoding.",
 [BUF, U, "src/libsrcml/unit_utilities.cpp", OUT],
 [("line ends joined as the buffer is read", "src/parser/UTF8CharBuffer.cpp: getChar"), ("line ends written while extracting", "src/libsrcml/srcml_unit.cpp: srcml_unit_unparse_internal")],
 technique="property-based testing: reference model of line ends, metamorphic over line ends and chunkings")

prop("C10", "Positions are where the text of each element is",
 """With the position option, every element with text has a start and an end that are the line and column of its first and last character in the source, with tabs to the tab stop given and the tab stop recorded on the unit.
 Positions are all the option adds: the markup is otherwise the one without it, and expanding the tabs to spaces does not move any position.""",
 ["inputs", "configurations"], "all sources with tabs, comments, directives, and line ends anywhere, all tab stops, prefixes, and parser options",
 "The tests check the positions of a few short statements; tabs in comments and strings, directives between tokens, lookahead, and recovery are not sampled.",
 ["src/parser/StreamMLParser.hpp", OUT, TR],
 [("end positions recorded while tokens are consumed and skipped", "src/parser/StreamMLParser.hpp: consume, pushEToken, pushESkipToken"), ("tab stops in the lexers", "src/libsrcml/srcml_translator.cpp: translate"), ("position attributes", "src/parser/srcMLOutput.cpp: addPosition")],
 technique="property-based testing: positions recomputed from the text, metamorphic over tabs and options")

prop("C11", "Results depend on inputs and settings, not on what was done before",
 """Every operation (parsing into a new or already used unit, writing, reading, querying, extracting) gives the result it gives when it is the first thing the process does: the same input with the same settings gives the same bytes.
 Earlier sources, errors, documents, options of other archives, and results of the same unit leave no trace.""",
 ["histories", "inputs", "configurations"], "all histories of operations over several archives and units, also failing ones",
 "Each unit test makes its few operations in a process state that hardly varies; leftovers of the parser, the unit, and global tables show only for specific sequences of sources.",
 [U, A, "src/parser/srcMLParser.g", "src/parser/StreamMLParser.hpp", TR],
 [("a unit is cleared when parsed into again", "src/libsrcml/srcml_unit.cpp: srcml_unit_parse_internal"), ("state of lexer and parser is per parse", "src/libsrcml/srcml_translator.cpp: translate"), ("global registries are constant", "src/libsrcml/language_extension_registry.cpp, src/libsrcml/srcmlns.cpp")],
 technique="stateful property-based testing: differential against a fresh process")

prop("C12", "Archives in use at the same time do not influence each other",
 """Any number of archives can be written, read, queried, and copied at the same time, in turn by one thread or each by a thread of its own, and each gives exactly what it gives when it is used alone.
 No schedule of their steps has a data race, a crash, or a deadlock.""",
 ["schedules", "histories"], "all interleavings of the steps of archives in one thread, and all schedules of threads with an archive each",
 "The tests use one archive at a time from one thread; the client's own worker threads are not scheduled against each other by any test.",
 [A, U, RD, RH, SAX],
 [("reading thread and caller hand over under a lock", "src/libsrcml/srcml_reader_handler.hpp: wait, resume, done"), ("no shared mutable state between archives", "src/libsrcml/srcml_translator.cpp, src/parser/srcMLParser.g, src/libsrcml/srcmlns.cpp")],
 technique="property-based testing over generated schedules and threads, with ThreadSanitizer as monitor", note="Threads are scheduled by the system, not enumerated; in-turn schedules are generated.")

TF = "src/libsrcml/srcml_transform.cpp"; XP = "src/libsrcml/xpathTransformation.cpp"; XS = "src/libsrcml/xsltTransformation.cpp"; RNG = "src/libsrcml/relaxngTransformation.cpp"
prop("C17", "XPath results are exactly what the query selects, and marks change nothing else",
 """An XPath query on a unit gives, in document order, exactly the nodes, number, string, or boolean that XPath 1.0 gives on the srcML of that unit, each as a well-formed unit with the settings of the original.
 Queries in a row work on the results of the one before. With an element or attribute to mark, the unit comes back whole: its source and markup are the same except for the mark on exactly the results. With no place for the results, a single resulting unit replaces the unit, and any other result is an error.""",
 ["inputs", "configurations", "histories"], "all queries over elements, attributes, text, comments, and axes, with any registered prefixes; all sources in all languages; all chains of queries and marks",
 "The unit and client tests apply a handful of queries with one or two element results; results of other kinds, overlapping results, results with text and marks of parts of a unit, and chains are not sampled.",
 [TF, XP, U, "src/libsrcml/Transformation.hpp"],
 [("results become units", "src/libsrcml/srcml_transform.cpp: srcml_unit_apply_transforms"), ("evaluation, marks", "src/libsrcml/xpathTransformation.cpp: apply, addElementXPathResults, append_attribute_to_node"), ("namespaces of a unit that was read", RH)],
 technique="property-based testing: generated queries against a model over libxml2's own evaluation")

prop("C18", "XSLT and RelaxNG give exactly the transformed or the valid units",
 """Applying an XSLT program to a unit gives exactly what XSLT 1.0 gives for the srcML of that unit alone: the units of the result with the attributes of the result, or the text, or nothing. A RelaxNG schema gives the unit if it is valid and nothing otherwise.
 It does not matter how the program is loaded, which units came before, or what a string parameter contains; chains apply each step to each result of the one before.""",
 ["inputs", "configurations", "histories"], "all stylesheets and schemas over the elements, attributes, and text of the units; all parameter values; all chains; all units parsed or read",
 "The tests apply one or two fixed stylesheets and a schema to tiny units; several results, invalid units before valid ones, removed attributes, values with quotes, and chains are not sampled.",
 [TF, XS, RNG, U],
 [("stylesheet, parameters, and kinds of results", XS + ": apply"), ("validation", RNG + ": apply"), ("results become units with the attributes of the result", TF + ": srcml_unit_apply_transforms")],
 technique="property-based testing: generated stylesheets and schemas against libxslt and a predicate on the tree")

prop("C13", "Attributes, namespaces, and macros survive being read and written again",
 """Everything a document says besides markup survives: every attribute of the root and of each unit, with or without a prefix, whoever added it and whatever its value, every namespace in scope, the macro list, and the content
 are found as they were after the archive is read and its units are written to a clone or to an archive with the same settings. Writing once more gives the same bytes. The getters give the values the document has.""",
 ["inputs", "configurations", "histories"], "all archives and solitary units, with attributes of other tools in any namespace (also with the local names of srcML's own), prefixes declared on root or unit, macros, and all XML encodings",
 "The suite rewrites archives that srcML itself wrote with plain values; attributes with a prefix, redeclared prefixes, and macros next to other prefixes are not sampled.",
 [RH, "src/libsrcml/unit_utilities.cpp", A, OUT, TR, SAX],
 [("attributes of root and unit are stored", RH + ": start_root, start_unit; src/libsrcml/unit_utilities.cpp: attribute_name"), ("namespaces of root and unit are merged", SAX + ": start_root, start_unit"), ("start tag and macro list are written", OUT + ": startUnit, outputMacroList"), ("settings are copied", A + ": srcml_archive_clone")],
 technique="property-based testing: round trip of documents edited by an independent XML tool")

prop("C20", "Units written element by element are exactly the accepted calls",
 """For every sequence of calls that build units element by element, also of several units in turn, each call is accepted or refused by its documented rule, and the finished unit is exactly the tree of the accepted ones:
 its srcML, inner srcML, lines of code, the unit in the document, and the source that comes back. A refused call has no effect, strings of the caller are not written to, and a unit can be started over.""",
 ["histories", "inputs"], "all sequences of start, end, attribute, namespace, and string calls, in and out of turn, with any text, prefixes, and archive settings",
 "The tests make one short correct sequence per function; calls out of turn within a unit, several units in turn, restarts, and texts with quotes or other characters are not sampled.",
 [U, TR, OUT],
 [("accepting a call", TR + ": add_start_element, add_end_element, add_attribute, add_namespace, add_string"), ("the start tag is written again with the namespaces used, and offsets adjusted", U + ": srcml_write_end_unit"), ("contents of a unit replaced", U + ": srcml_write_start_unit")],
 technique="stateful property-based testing: model of the tree")

prop("C16", "Settings hold for exactly what they were set on, and documents follow them",
 """A setting of an archive, a unit, or the library is what was last set there, and is refused as documented. New archives start from the defaults, whatever the library's settings; units and clones from those of their archive; later changes reach nothing else.
 Whatever the history of settings, the document is the one an archive set up directly gives, and an archive can be closed and opened again with the same settings.""",
 ["histories", "configurations"], "all sequences of setting, cloning, creating, parsing, writing, and reopening, with any values including none, on any number of archives and units",
 "The tests set one value on a fresh archive and read it back; copies, resets, options switched off again, and what documents contain afterwards are not sampled.",
 [A, U, "src/libsrcml/libsrcml.cpp", OUT],
 [("settings of archives, clone", A + ": srcml_archive_set_*, srcml_archive_clone"), ("settings of units", U + ": srcml_unit_set_*, srcml_unit_create"), ("settings of the library", "src/libsrcml/libsrcml.cpp"), ("what is written", OUT + ": startUnit, initNamespaces")],
 technique="stateful property-based testing: model of the settings, documents compared with directly set up ones")

prop("C15", "Registered namespaces are listed, copied, declared, and used as registered",
 """The namespaces of an archive (or of the library) are the registrations in order, with the prefix registered last for a URI; getters by position, URI, and out of range follow, and clones are independent.
 Documents, units, and fragments are those with the usual prefixes, except that each registered prefix is used wherever its namespace is, and declared exactly where needed: other registered namespaces once on the root.""",
 ["histories", "configurations", "inputs"], "all sequences of registrations of any prefixes and URIs on archives and clones, with all options and sources",
 "The tests rename the prefix of one namespace in one tiny document; prefixes for cpp, position, and OpenMP next to each other, as default namespaces, or in clones are not sampled.",
 [A, "src/libsrcml/srcmlns.cpp", OUT, TR],
 [("registry", A + ": srcml_archive_register_namespace, srcml_archive_get_namespace_*"), ("merge of the namespaces of archive and unit", "src/libsrcml/srcmlns.cpp: operator+="), ("declared where used", OUT + ": outputNamespaces")],
 technique="stateful property-based testing: model of the registry, documents compared up to prefixes")

prop("C14", "A unit's language is set, inherited, or that of the last registered extension",
 """The language of a unit is the one set on it, else on its archive, else the one registered last for the extension of the file it is parsed from (ignoring .gz), else parsing is refused as unset.
 The markup and the language attribute, in the unit and in documents, are those of that language. Extensions of any archive, clone, or the library are looked up the same way and are independent; unknown languages are refused.""",
 ["histories", "inputs", "configurations"], "all sequences of registrations, archive and unit languages, clones, and parses; all paths and extensions",
 "The tests look up the standard extensions; precedence, registrations that override, names with several dots or directories with dots, and what the unit then contains are not sampled.",
 ["src/libsrcml/language_extension_registry.cpp", A, U, TR, "src/parser/Language.hpp"],
 [("extension to language, last registration wins", "src/libsrcml/language_extension_registry.cpp: get_language_from_filename, get_language_extension"), ("precedence", U + ": srcml_unit_parse_internal"), ("language in unit and document", TR + ": add_start_unit, add_unit")],
 technique="stateful property-based testing: model of the registry")

prop("C26", "Constructs are marked with their elements wherever and however they are nested",
 """Declarations, types, functions, classes, members, control statements, blocks, labels, expressions, calls, names, casts, ternaries, lambdas, literals, comments, and directives of C, C++, C#, Java, and Objective-C get the srcML element of their kind around exactly their source, with the documented children and type and format attributes.
 This holds at any nesting and in any order, and does not depend on the white space and comments between the tokens, or on what comes before or after.""",
 ["inputs"], "all programs composed of these constructs, nested in each other to any depth, with any white space",
 "The parser tests give each construct a few contexts by hand; a construct in the argument of a call in the default of a parameter, or a statement in a lambda in a condition, is not sampled.",
 ["src/parser/srcMLParser.g", "src/parser/StreamMLParser.hpp", "src/parser/ModeStack.hpp", "src/parser/srcMLState.hpp", "src/parser/OperatorLexer.g"],
 [("grammar and pattern checks", "src/parser/srcMLParser.g: start, pattern_statements, perform_call_check, perform_ternary_check"), ("modes of open elements", "src/parser/ModeStack.hpp"), ("elements put into the token stream", "src/parser/StreamMLParser.hpp"), ("names of elements", OUT)],
 technique="property-based testing: programs generated together with their markup")

prop("C23", "Parsing ends and gives a well-formed unit for any source, without memory errors",
 """Whatever the bytes of a source, in any language, under any options, encodings, and tab size, parsing it ends in time in proportion to its size, never crashes or touches memory outside of its own or the bytes it was given,
 and either gives a unit whose srcML is well-formed and can be written, or is refused with a status.""",
 ["inputs", "configurations"], "all byte strings as sources, in all languages, with all subsets of the markup options",
 "The suite parses well-formed snippets without sanitizers; broken code, deep nesting, undecodable bytes, and code of another language are where a parser reads past a buffer or never ends.",
 ["src/parser/srcMLParser.g", "src/parser/StreamMLParser.hpp", "src/parser/CommentTextLexer.g", BUF, OUT],
 [("guessing and pauses end at the end of the source", "src/parser/StreamMLParser.hpp"), ("loops over the tokens in pattern checks", "src/parser/srcMLParser.g: pattern_check, perform_call_check"), ("decoding of arbitrary bytes", BUF + ": readChars"), ("modes popped only when there", "src/parser/ModeStack.hpp")],
 technique="property-based fuzzing under address and undefined-behavior sanitizers")

prop("C24", "One call of srcml() is the steps it stands for, with the settings of the library",
 """srcml(input, output) decides by extension and language between translating source to srcML and extracting the source, and writes the document or source that an archive set up with the settings of the library writes step by step;
 its status is that of the first step that fails, a message is available, the settings are as they were after it, and an existing output file is replaced.""",
 ["inputs", "configurations", "histories"], "all names, contents, and settings of the library: encodings, language, attributes, options, tab size, line ends, extensions, namespaces, and processing instructions",
 "The unit tests of srcml() translate one snippet and one document with few settings; short names, upper-case extensions, documents without units, and settings such as the line ends are not sampled.",
 ["src/libsrcml/libsrcml.cpp", A, U],
 [("choice of direction", "src/libsrcml/libsrcml.cpp: srcml"), ("settings of the library applied to archive and unit", "src/libsrcml/libsrcml.cpp: srcml"), ("status of each step", "src/libsrcml/libsrcml.cpp: srcml")],
 technique="property-based testing: differential against the documented steps")

prop("C33", "Complete, outer, and inner srcML of a unit agree with the document",
 """The complete srcML of a unit is the unit of the document with the namespaces it needs; the outer srcML is the same unit as a fragment; the inner srcML is exactly its contents. This holds for parsed units, units read from documents however
 these are spelled, and results of queries, whatever the values of attributes. Calls in any order and repeated give the same strings, before and after the unit is written or queried.""",
 ["inputs", "histories"], "all units with any attribute values (also ones that look like attributes, tags, or quotes), spellings of the document, and orders of the calls",
 "The tests compare the three strings for a handful of units with plain attributes, in the spelling srcML itself writes.",
 [U, RH, "src/libsrcml/start_tag.hpp", SAX],
 [("offsets of the contents", RH + ": start_unit, end_unit"), ("attributes left out of the outer srcML", U + ": srcml_unit_get_srcml_outer"), ("cached strings", U + ": srcml_unit_get_srcml, srcml_unit_get_srcml_inner")],
 technique="property-based testing: model from an independent XML reader over generated spellings")

prop("C22", "Reading damaged or foreign documents is safe, and intact units are unaffected",
 """Whatever bytes are opened as srcML, with whatever calls, reading ends after finitely many units, never crashes or touches memory outside of its own. Units in front of the first damage are delivered unchanged.
 From a document that is well-formed, in whatever spelling XML allows, the srcML of every unit is well-formed, and everything that can be done with a unit (views, source, queries, writing) is safe.""",
 ["inputs", "histories"], "all byte strings: documents cut or changed anywhere, XML of any vocabulary, document types, and arbitrary bytes; read and skipped in any order",
 "The tests read well-formed documents that srcML wrote itself, without sanitizers; truncated documents, raw '>' in text, stray text between units, and missing attributes are not sampled.",
 [SAX, RH, RD, "src/libsrcml/srcsax_controller.cpp"],
 [("text and tags collected from the buffer of the XML reader", SAX + ": update_ctx, characters_unit, start_element, end_element"), ("errors end the reader thread", "src/libsrcml/srcsax_controller.cpp: srcsax_parse; " + RD), ("escape elements", SAX + ": start_element")],
 technique="property-based fuzzing under address and undefined-behavior sanitizers, with the undamaged document as reference")

prop("C27", "The markup of a piece of code does not depend on what it does not belong to",
 """The markup of a declaration or statement is the same whatever complete code comes before or after it, whatever statements it is nested in, whatever white space, line breaks, and comments are between its tokens, and whatever its variables are called.
 The markup of sources written one after the other is that of each.""",
 ["inputs"], "all sequences of complete pieces of code, in all languages, in all nestings of blocks and control statements, with all white space between tokens",
 "The parser tests fix the markup of single snippets, each in one place; that lookahead, modes, or columns of one construct leak into the markup of the next is only visible in combinations, and there are too many of them to write down.",
 ["src/parser/srcMLParser.g", "src/parser/OperatorLexer.g", "src/parser/StreamMLParser.hpp", "src/parser/ModeStack.hpp", "src/parser/KeywordLexer.g"],
 [("modes end with their construct", "src/parser/ModeStack.hpp; src/parser/srcMLParser.g: endDownToMode, else_handling"), ("lookahead does not change the parse", "src/parser/srcMLParser.g: pattern_check, next_token"), ("state of the lexer", "src/parser/OperatorLexer.g; src/parser/KeywordLexer.g")],
 technique="metamorphic property-based testing: pieces together and apart, re-spaced, renamed, and nested")

prop("C25", "Failing input and output is reported, and what was read or written is genuine",
 """When reading a source or writing source or srcML fails at any point (callbacks, FILEs, descriptors, full devices, files that cannot be opened), a status or the error of the archive says so; what was accepted is a prefix of the right output,
 units in front of the failure are delivered unchanged, short reads and writes lose nothing, close callbacks are called exactly once, and archive and unit remain usable.""",
 ["faults", "inputs"], "failure after every number of bytes, for good or once; short reads and writes of all sizes; failing close; all ways to read and write",
 "The tests use files and callbacks that work; output is buffered, so a failure surfaces calls later or only at the close, and each way of input and output has a path of its own.",
 [A, U, BUF, OUT, TR],
 [("errors of the source", BUF + ": readChars"), ("errors of the output at write and close", A + ": srcml_archive_write_unit, srcml_archive_close"), ("output of unparse", U + ": srcml_unit_unparse_internal"), ("end of the output", OUT + ": close")],
 technique="fault-injection property-based testing")

prop("C28", "Comments, literals, and directives begin and end where the language says",
 """Every comment, string, character, and number of a source is one element with exactly its text and kind, and every directive ends with its line. Whatever characters are inside of comments and strings (quotes, comment signs, backslashes, braces,
 directives, control characters, line ends where allowed), whatever the prefix, escapes, verbatim or raw form, and whatever is next to it, none of it is taken as code, and no code is taken as part of it. What is not ended goes to the end of the source.""",
 ["inputs"], "all sequences of comments, strings, characters, numbers, and directives with any contents, in statements of the five languages",
 "The tests have one or two examples of each token; a quote in a directive, strings without space between them, or a backslash right at the end put the lexer into the wrong mode for all of the rest of the source.",
 ["src/parser/CommentTextLexer.g", "src/parser/TextLexer.g", "src/parser/OperatorLexer.g", "src/parser/srcMLParser.g"],
 [("contents and ends of comments and strings", "src/parser/CommentTextLexer.g"), ("starts of strings and numbers", "src/parser/TextLexer.g"), ("starts of comments", "src/parser/TextLexer.g; src/parser/OperatorLexer.g"), ("ends of directives", "src/parser/CommentTextLexer.g; src/parser/srcMLParser.g: eol")],
 technique="property-based testing: sources generated together with their tokens")

prop("C29", "Conditional compilation: what the options say is marked up, the rest is text",
 """In a source with any nesting of #if, #ifdef, #elif, #else, and #endif, every directive is marked. Code in the branches of #if 0 is text unless SRCML_OPTION_CPP_MARKUP_IF0 is given, and code in the branches of #else and #elif is text if
 SRCML_OPTION_CPP_TEXT_ELSE is given (comments and directives are marked also there). All other code is marked exactly as without conditions, and what is left out does not change the markup of anything else.""",
 ["inputs", "configurations"], "all nestings of conditional directives around complete pieces of code, with all four settings of the options",
 "The tests have fixed snippets for each option with one or two levels; how the options combine with nesting, conditions that start with 0, and lookahead over directives is not sampled.",
 ["src/parser/srcMLParser.g", "src/parser/StreamMLParser.hpp"],
 [("parts left out", "src/parser/srcMLParser.g: eol_skip, cppendif_skip, cppmode"), ("modes kept for each branch", "src/parser/srcMLParser.g: cppmode"), ("options", "src/parser/StreamMLParser.hpp")],
 technique="metamorphic property-based testing: programs generated together with their markup, and conditions put in")

prop("C21", "A call that is refused changes nothing",
 """A call of the library with an argument that is missing or that there is no such thing of (NULL, an unknown language, encoding, or extension, a file that is not there, an index past the end, a transformation that is not one), or that is out of turn
 (writing what is not started or not open, reading what is written, a second unit where there is one), says so by its result, does not crash, and changes nothing: archive, unit, and settings show what they did, and all later output is what it would be without that call.""",
 ["histories", "faults"], "histories of creating, parsing, writing, building, reading, transforming, and unparsing, with any refused calls at any points",
 "The tests call each function once with NULL and look at the result only; whether the archive or unit is still good after it, at a later step, is not looked at.",
 [U, A, TR, XP, "src/libsrcml/srcml_transform.cpp"],
 [("arguments of functions of units and archives", U + "; " + A), ("elements, attributes, and strings that are written", TR + ": add_start_element, add_attribute, add_string"), ("opening", A + ": srcml_archive_write_open_filename, srcml_archive_read_open_internal"), ("transformations appended", "src/libsrcml/srcml_transform.cpp")],
 technique="metamorphic stateful property-based testing with fault injection")

prop("C19", "A revision selected of a srcDiff archive is the only one that is seen",
 """When a revision is selected for an archive that is srcDiff, the srcML, outer, and inner views, the source of unparse, and the unit written to another archive are those of the document with only the parts of that revision and what is common, without elements and namespace of srcDiff,
 with the attributes of that revision. This holds when selected before or after opening, and when the other revision is selected in between. Without a revision everything is there.""",
 ["inputs", "histories"], "srcDiff documents with any nesting of common, deleted, and inserted parts, text anywhere, and any order of selections and views",
 "The tests set and get the number of the revision; no test reads a srcDiff document.",
 [U, TR, "src/libsrcml/unit_utilities.cpp", A],
 [("parts of a revision", "src/libsrcml/unit_utilities.cpp: extract_revision"), ("views", U + ": srcml_unit_get_srcml, srcml_unit_get_srcml_outer, srcml_unit_get_srcml_inner"), ("source", U + ": srcml_unit_unparse_internal"), ("writing", TR + ": add_unit; src/libsrcml/unit_utilities.cpp: attribute_revision")],
 technique="model-based property-based testing")
