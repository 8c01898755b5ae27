add("P01", "Written values parse back to the same value",
    "Any value (null, boolean, integer, real, name, literal or hexadecimal string, reference, and arrays and dictionaries of these nested in any way) written out in any write mode and parsed again gives an equal value of the same type. Integers, names and string bytes come back exactly; reals come back to within the written precision; the written text parses as exactly one value whatever non-regular or regular text follows a proper separator.",
    ["inputs", "configurations"], "all values up to a nesting depth, over boundary scalars, every byte in names and strings, and all write modes",
    "Tests write a handful of values; adjacency of two tokens in compact mode, every escaped byte and boundary numbers are combinations nobody enumerates by hand.",
    ["PdfVariant.cpp", "PdfName.cpp", "PdfString.cpp", "PdfArray.cpp", "PdfDictionary.cpp", "PdfTokenizer.cpp"],
    [("PdfVariant::Write", "PdfVariant.cpp"), ("PdfName::Write", "PdfName.cpp"), ("PdfString::Write", "PdfString.cpp"), ("PdfTokenizer::ReadNextVariant", "PdfTokenizer.cpp")],
    harness="p01_values", flavor="fast", level="model_checking", technique="exhaustive enumeration of values and write modes against an independent syntax reader",
    note="Complete within the stated shapes; trusts the reference reader in ref.h.")
add("P02", "Tokens are read by the PDF lexical rules",
    "For any byte sequence made of PDF syntax, the parser yields the values the PDF specification's lexical rules prescribe: whitespace and comments separate tokens, names decode their escapes, literal strings handle nesting, escapes, octal codes and line ends, hexadecimal strings pad an odd digit, numbers follow the integer and real forms, and references are recognised only as two integers and R. Parsing one value consumes exactly that value's bytes.",
    ["inputs"], "all token strings up to a length over an alphabet of delimiters, escapes, digits, whitespace and keywords",
    "The tokenizer tests list some inputs; interplay of escapes, nesting, line ends and end of input needs every short byte string.",
    ["PdfTokenizer.cpp", "PdfPostScriptTokenizer.cpp", "PdfName.cpp", "PdfString.cpp"],
    [("PdfTokenizer::TryReadNextToken", "PdfTokenizer.cpp"), ("PdfTokenizer::ReadString", "PdfTokenizer.cpp"), ("PdfName::FromEscaped", "PdfName.cpp")],
    harness="p02_lexical", flavor="fast", level="model_checking", technique="exhaustive enumeration of short inputs, differential against an independent lexer model",
    note="Complete for all inputs over the alphabets up to the length; trusts the reference lexer.")
add("P03", "Text strings keep their Unicode text",
    "Any Unicode text put into a text string object, written to a document, encrypted or not, and read back gives the same text, whichever of the permitted byte encodings is chosen. Raw byte strings keep their bytes, and the two kinds never turn into each other in a way that changes what is read.",
    ["inputs"], "every Unicode code point alone, and all short strings over boundary code points, byte-order-mark look-alikes and PDFDocEncoding extremes",
    "Tests use a few sample strings; there are 1.1 million code points and the encoding choice depends on the whole string.",
    ["PdfString.cpp", "PdfPredefinedEncoding.cpp", "src/pdfmm/private/PdfDeclarationsPrivate.cpp"],
    [("PdfString state and lazy decoding", "PdfString.cpp"), ("PdfDocEncoding tables", "PdfPredefinedEncoding.cpp")],
    harness="p03_text", flavor="fast", level="model_checking", technique='exhaustive enumeration of code points, short texts and byte strings against an independent model of the text encodings, alone and through saved documents',
    note='Complete for the stated alphabets and lengths.')
add("P04", "Encoding then decoding a stream is the identity",
    "Data written to a stream through any supported filter, or chain of filters, in any split into chunks, decodes to exactly the same bytes, in memory and through a saved and reloaded document. The decoded bytes do not depend on how either side was chunked.",
    ["inputs", "histories"], "all short byte strings over boundary bytes, structured long ones around internal buffer sizes, all chunk splits, and all filter chains up to a length",
    "Tests encode one or two sample buffers per filter in one piece.",
    ["PdfFilter.cpp", "src/pdfmm/private/PdfFiltersPrivate.cpp", "PdfObjectStream.cpp"],
    [("PdfFilter encode/decode state machines", "src/pdfmm/private/PdfFiltersPrivate.cpp"), ("PdfFilterFactory pipeline", "PdfFilter.cpp")],
    harness="p05_filters", flavor="fast", level="model_checking", technique='exhaustive enumeration of data, filter chains and chunkings on the real encoders, judged by reference decoders',
    note='Complete for the stated alphabets, lengths and splits; only ASCIIHex, ASCII85 and Flate have encoders.')
add("P05", "Decoders follow the filter specifications",
    "For every valid encoding of some data that another producer may emit (ASCIIHex, ASCII85, RunLength, LZW with early change, Flate, and the PNG and TIFF predictors), decoding gives that data, independent of how the encoded bytes arrive. Line breaks, end-of-data marks and optional padding allowed by the specification make no difference.",
    ["inputs"], "all short data over boundary bytes encoded by independent reference encoders in all of their admissible variants",
    "Round-trip tests only meet the library's own encoders; several filters have no encoder in the library and no test.",
    ["src/pdfmm/private/PdfFiltersPrivate.cpp"],
    [("PdfLZWFilter", "src/pdfmm/private/PdfFiltersPrivate.cpp"), ("PdfRLEFilter", "src/pdfmm/private/PdfFiltersPrivate.cpp"), ("PdfPredictorDecoder", "src/pdfmm/private/PdfFiltersPrivate.cpp")],
    harness="p05_filters", flavor="fast", level="model_checking", technique='exhaustive enumeration of admissible encodings from independent encoders, decoded in every split of their bytes',
    note='Complete for the stated data and variants; TIFF predictors other than 8 bits are unsupported by the library and out of scope.')
add("P06", "Saving and loading preserves the document",
    "After any sequence of object edits, saving a document with any write options and loading the result gives the same object graph: the same object numbers and generations hold equal values and equal stream contents, removed objects stay removed, and the catalog, information dictionary and version are those of the saved document.",
    ["histories", "configurations"], "all sequences of edits up to a depth from empty and loaded start documents, for all save options",
    "Tests save a few fixed documents; gaps in numbering, reused numbers, generations and option combinations multiply.",
    ["PdfWriter.cpp", "PdfXRef.cpp", "PdfXRefStream.cpp", "PdfMemDocument.cpp", "PdfParser.cpp", "PdfIndirectObjectList.cpp"],
    [("PdfWriter::Write", "PdfWriter.cpp"), ("PdfXRef::Write", "PdfXRef.cpp"), ("PdfParser::ReadXRef*", "PdfParser.cpp")],
    harness="p06_save", flavor="fast", level="model_checking", technique='exhaustive exploration of edit sequences x save options on the real writer and parser against a graph model',
    note='Complete to the stated depth over the listed edits, start documents and save options.')
add("P07", "A saved file's cross-reference data is exact",
    "In every saved file the last startxref points at the cross-reference section, every in-use entry's offset is where that very object begins, free entries form the list the specification requires, the size entry is one more than the highest object number, stream lengths match the bytes written, and no object present in the document is missing.",
    ["histories", "configurations"], "all edit sequences up to a depth, all save options, plus numbering gaps and objects around field-width thresholds",
    "Tests only read files back with the same library, which tolerates many such errors.",
    ["PdfXRef.cpp", "PdfXRefStream.cpp", "PdfWriter.cpp"],
    [("PdfXRef::AddInUseObject / AddFreeObject", "PdfXRef.cpp"), ("PdfXRef::Write", "PdfXRef.cpp"), ("PdfXRefStream", "PdfXRefStream.cpp")],
    harness="p06_save", flavor="fast", level="model_checking", technique='exhaustive exploration of edit sequences x save options, files judged by a strict independent cross-reference reader',
    note='Complete to the stated depth; the oracle is the reader in lib_ref.cpp.')
add("P08", "Incremental updates append and preserve",
    "An incremental update leaves every byte of the original file in place and only appends; loading the result shows every change made since the load (objects changed, added, removed, streams rewritten) and every unchanged object as it was. This holds after any number of update rounds, and any change made through the public interface at any nesting depth is included.",
    ["histories"], "all sequences of edits and update rounds up to a depth, on table and cross-reference-stream files",
    "Whether a change is picked up depends on change tracking through nested containers and streams, per mutator and per history.",
    ["PdfWriter.cpp", "PdfXRef.cpp", "PdfMemDocument.cpp", "PdfObject.cpp", "PdfDictionary.cpp", "PdfArray.cpp"],
    [("dirty tracking", "PdfObject.cpp"), ("incremental write", "PdfWriter.cpp"), ("PdfMemDocument::SaveUpdate", "PdfMemDocument.cpp")],
    harness="p08_update", flavor="fast", level="model_checking", technique='exhaustive exploration of mutator sequences and update rounds on the real code against a graph model and a strict reader',
    note='Complete for all pairs of mutators; deeper rounds in thorough.')
add("P09", "The newest cross-reference entry decides",
    "For any well-formed chain of cross-reference sections (tables, streams, hybrids, any subsections, free entries and generations) the document loaded holds for each object number exactly what the newest section mentioning it says, objects in object streams included. Broken or cyclic chains lead to an error or a loaded document, never to non-termination.",
    ["inputs", "histories"], "all chains up to a length over all assignments of in-use, free, compressed or absent to a few object numbers",
    "The tests hold a few fixed files; precedence between sections is a matter of every combination.",
    ["PdfParser.cpp", "PdfXRefStreamParserObject.cpp", "PdfObjectStreamParser.cpp", "PdfXRefEntry.cpp"],
    [("PdfParser::ReadXRefContents", "PdfParser.cpp"), ("PdfXRefStreamParserObject", "PdfXRefStreamParserObject.cpp")],
    harness="p09_xrefchain", flavor="fast", level="model_checking", technique='exhaustive enumeration of cross-reference chains and pointer graphs, loaded by the real parser, against the newest-mention model',
    note='Complete for all mentions of up to three objects in the stated chain lengths; offsets above 4 GB are not reached.')
add("P10", "Object numbers are unique and stable",
    "Creating, removing and looking up indirect objects behaves as a map from object identifiers to objects: a new object never takes an identifier in use, a number freed by removal may only come back with a higher generation, lookups return exactly the live object with that identifier, and counts and iteration agree with the map.",
    ["histories"], "all operation sequences up to a depth, also from states around the number and generation limits",
    "Free-number bookkeeping only shows in histories of removals and creations, and at limits no test reaches.",
    ["PdfIndirectObjectList.cpp"],
    [("getNextFreeObject / free list", "PdfIndirectObjectList.cpp"), ("ReplaceObject / PushObject", "PdfIndirectObjectList.cpp")],
    harness="p10_objects", flavor="fast", level="model_checking", technique='exhaustive exploration of operation sequences on the real object list against a map model',
    note='Complete to the depth from the listed start states; the model is the map written in the harness.')
add("P11", "Garbage collection removes exactly the unreachable",
    "Collecting garbage keeps every object reachable from the trailer through any path of references in dictionaries, arrays and streams, with its identifier and contents, and removes every other object; cyclic and self references make no difference.",
    ["inputs"], "all reference graphs over a few objects, with references placed in dictionaries, nested arrays and stream dictionaries",
    "A graph property: tests try one or two graphs.",
    ["PdfIndirectObjectList.cpp"], [("CollectGarbage / visitObject", "PdfIndirectObjectList.cpp")],
    harness="p11_gc", flavor="fast", level="model_checking", technique='exhaustive exploration of reference graphs on the real collector against a reachability model',
    note='Complete for all graphs within the stated node counts, placements and storage forms.')
add("P12", "The page sequence behaves as a list",
    "Any sequence of creating, inserting, removing and moving pages gives the page sequence that the same operations give on a plain list, in memory and after saving and reloading, whatever the shape of the page tree loaded. The page count, index lookups and lookup by reference agree, and every page reachable in the file is listed exactly once.",
    ["histories"], "all operation sequences up to a depth from flat, nested, empty-node and single-child page trees",
    "Tree surgery depends on shape and position; tests cover simple appends and deletions.",
    ["PdfPageCollection.cpp", "PdfPageTreeCache.cpp", "PdfPage.cpp", "PdfDocument.cpp"],
    [("InsertPageAt / RemovePageAt", "PdfPageCollection.cpp"), ("page cache", "PdfPageTreeCache.cpp")],
    harness="p12_pages", flavor="fast", level="model_checking", technique='exhaustive exploration of page operation histories over all small page tree shapes on the real code against a plain list',
    note='Every history is judged in memory, in the saved bytes by an independent tree walk, and after reloading; forward moves put the page at the given index.')
add("P13", "Inherited page attributes come from the nearest ancestor",
    "A page's media box, crop box, rotation and resources are its own when present and otherwise those of the nearest ancestor that has them, with the documented defaults for the other boxes; this also holds after pages are moved or inserted. Setting a value on a page changes that page alone.",
    ["inputs", "histories"], "all assignments of attributes to the nodes of page trees up to three levels, with direct, indirect and null values",
    "Tests set attributes on the page itself.",
    ["PdfPage.cpp", "PdfPageCollection.cpp"], [("inherited attribute lookup", "PdfPage.cpp")],
    harness="p12_pages", flavor="fast", level="model_checking", technique='exhaustive enumeration of attribute placements and page operation histories on the real code against an independent inheritance model',
    note='Attributes judged through the page interface, in the saved file and after reloading; a null value counts as absent.')
add("P14", "Copying pages between documents preserves content",
    "Appending a document, or inserting pages of one document into another, adds exactly those pages in order at the given place: each copied page reaches the same values, streams and inherited attributes as in its source, shared and cyclic references keep their shape, and neither the source nor the pages already present change.",
    ["histories", "inputs"], "all source and target shapes over small page counts, numbering gaps, shared resources, reference cycles and positions",
    "Renumbering clashes appear only for particular combinations of object numbers in both documents.",
    ["PdfDocument.cpp", "PdfMemDocument.cpp"], [("append / InsertDocumentPageAt renumbering", "PdfDocument.cpp")],
    harness="p14_copy", flavor="fast", level="model_checking", technique='exhaustive enumeration of source and target documents and histories of page copying on the real code, compared as graphs by an independent reader',
    note='Copied pages must be isomorphic to their sources, with references, sharing, cycles, streams and effective inherited attributes; also pages turned into form XObjects and merged outlines.')
add("P15", "Name trees behave as sorted maps",
    "Any sequence of insertions and lookups on a name tree gives the answers of a map from names to values, in memory and after saving and reloading; the tree stays sorted with correct limits in every node, and trees of other shapes from loaded files give the same answers.",
    ["histories"], "all insertion orders of small key sets, every insertion position into full nodes, and all loaded tree shapes up to a size",
    "Splitting and limits depend on order and on node sizes tests never reach.",
    ["PdfNameTree.cpp"], [("AddValue / Rebalance / SetLimits", "PdfNameTree.cpp")],
    harness="p15_names", flavor="fast", level="model_checking", technique='explicit-state exploration of the real name tree code: all insertion histories up to a depth and all orders, with small balance limits set through a hook, against a map and an independent walk of the file',
    note='Small limits 1, 3 and 5 exercise every split; the real limit 65 at its thresholds.')
add("P16", "Outline edits keep a consistent tree",
    "Any sequence of creating, inserting and erasing outline items keeps first, last, next, previous and parent links consistent with the ordered tree those operations describe, with the same titles in the same order, in memory and after saving and reloading.",
    ["histories"], "all operation sequences up to a depth, including continuing after a reload",
    "Link surgery depends on position and history; tests build one outline.",
    ["PdfOutlines.cpp"], [("InsertChild / CreateNext / Erase", "PdfOutlines.cpp")],
    harness="p16_outlines", flavor="fast", level="model_checking", technique='exhaustive exploration of outline edit histories on the real code against a plain tree',
    note="All links judged in memory, in the file by an independent walk, and after reloading; appending another document's outlines included.")
add("P17", "Dates convert both ways without loss",
    "Every representable moment with every whole-minute time-zone offset is written in valid PDF date and ISO 8601 form and read back as the same moment and offset; every string the PDF date grammar allows is read as the moment it denotes with omitted fields defaulted, and every other string is rejected.",
    ["inputs"], "all calendar boundary moments and all offsets, all date strings generated by the grammar with field boundary values, and all single mutations of them",
    "Tests list two dozen strings; the grammar has optional tails at every field.",
    ["PdfDate.cpp"], [("ParseDate / ToString", "PdfDate.cpp")],
    harness="p17_dates", flavor="fast", level="model_checking", technique='exhaustive enumeration of moments, offsets and strings on the real date code against an independent calendar and grammar recogniser',
    note='Every day of the years 0 to 9999 and every whole-minute offset; all short strings and all one- and two-character edits.')
add("P18", "Encrypted documents open with their passwords only",
    "A document saved with any supported algorithm, key length, permissions and passwords loads with the user password or the owner password to the same content and the same permissions, also after edits and re-saves, and fails with an invalid-password error for any other password.",
    ["configurations", "histories", "inputs"], "all algorithms, key lengths, permission subsets, metadata options and password pairs over a set of boundary passwords",
    "Tests use a fixed pair of passwords per algorithm.",
    ["PdfEncrypt.cpp", "PdfWriter.cpp", "PdfParser.cpp", "PdfMemDocument.cpp"], [("GenerateEncryptionKey / Authenticate", "PdfEncrypt.cpp")],
    harness="p18_encrypt", flavor="fast", level="model_checking", technique='exhaustive enumeration of algorithm x password pair x permissions x re-save histories on the real code, each file opened under every candidate password',
    note='Independent security handler decides which passwords must open; all histories of re-saving, updating, copying, removing and changing encryption to depth 2 (thorough 3), own and foreign files.')
add("P19", "Encryption hides all strings and streams",
    "In a file saved with encryption every string and stream in the body is encrypted exactly once with the key of its own object, wherever it is nested, so that an independent implementation of the standard security handler decrypts it to the original; only the parts the standard exempts stay in the clear.",
    ["configurations", "inputs"], "all placements of strings and streams in small object trees, for all algorithms and write modes",
    "A double or missing encryption is invisible when the same code reads it back.",
    ["PdfEncrypt.cpp", "PdfString.cpp", "PdfObject.cpp", "PdfObjectStream.cpp", "PdfWriter.cpp"], [("PdfStatefulEncrypt", "PdfStatefulEncrypt.cpp"), ("Encrypt", "PdfEncrypt.cpp")],
    harness="p18_encrypt", flavor="fast", level="model_checking", technique='exhaustive enumeration of the same histories on the real code; every saved file decrypted by an independent security handler',
    note='Every string and stream of every saved file compared with the original after decryption by src/lib_sec.cpp; clear-text search; foreign files read back.')
add("P20", "Malformed input is rejected or tolerated, never harmful",
    "Loading any byte sequence, and then visiting whatever document results (objects, streams, pages, contents, fonts, outlines, fields, names), ends within bounded time and stack with a result or with the library's error: no out-of-bounds access, crash, uncaught foreign exception or endless loop.",
    ["inputs"], "every truncation, every single-byte substitution over an alphabet of syntax bytes, and every single-token substitution of a family of compact seed files covering all features",
    "Fuzz-like inputs are not in the tests; every byte position of a file is a separate case.",
    ["PdfParser.cpp", "PdfTokenizer.cpp", "PdfParserObject.cpp", "PdfXRefStreamParserObject.cpp", "PdfObjectStreamParser.cpp", "src/pdfmm/private/PdfFiltersPrivate.cpp"],
    [("PdfParser", "PdfParser.cpp"), ("recursion guard", "PdfTokenizer.cpp")],
    harness="p20_robust", flavor="asan", level="model_checking", technique='exhaustive enumeration of malformed variants of seed files (every value, byte, offset, truncation, nesting) loaded, visited, changed and saved by the real library under address and undefined-behaviour sanitizers',
    note='About 200000 files quick: every value of every object of 7 seed files in 2 layouts replaced by about 40 alternatives, every byte replaced/removed/doubled/cut, every offset in startxref, Prev, entries, W, Index, every map kind over pairs of codes, 23 chains and nestings up to 10000 (thorough 30000); thorough adds all pairs of references and a larger alphabet.')
add("P21", "Failed writes surface as errors and harm nothing",
    "When the output device fails at any point of a save or update, the operation reports an error rather than success, the document in memory stays usable, and saving it again to a good device gives the complete file.",
    ["fault_sequences", "crash_points"], "a failure at every write of every save in a family of documents and options, then every continuation",
    "Tests never inject a failing device.",
    ["PdfWriter.cpp", "PdfStreamDevice.cpp", "PdfOutputStream.cpp", "PdfXRef.cpp"], [("PdfStreamDevice write", "PdfStreamDevice.cpp"), ("PdfWriter::Write", "PdfWriter.cpp")],
    harness="p21_faults", flavor="fast", level="model_checking", technique='exhaustive fault injection at every write call, output byte, position query and flush of every save on the real code, each followed by every continuation',
    note='Failures at every write call (four kinds), byte, position query and flush of saves and updates of 9 documents with 4 option sets; afterwards save, the same again, edit and save, or a second failure; also real files of limited size, /dev/full, std::ostream, encoders and stream copies.')
add("P22", "What is read does not depend on how it is read",
    "Loading the same bytes from a buffer, a file, a stream or a device gives the same document, and reading objects and streams on demand, in any order and interleaving, with or without releasing their memory in between, gives the same values as reading them all at once.",
    ["schedules", "histories", "configurations"], "all orders of on-demand accesses and memory releases over the objects of a family of documents",
    "Lazy reads share one device position and parser state; only particular orders would show interference.",
    ["PdfParserObject.cpp", "PdfParser.cpp", "PdfObjectStreamParser.cpp", "PdfMemDocument.cpp"], [("DelayedLoad / FreeObjectMemory", "PdfParserObject.cpp")],
    harness="p22_reading", flavor="fast", level="model_checking", technique='exhaustive enumeration of access, copy, release and change histories over all objects on the real lazy loader, and of all ways to load, against the data the files were built from',
    note='All operation pairs over 17 objects of 9 files (tables, object streams, 3 encryptions, junk, updates), deeper over selected objects (thorough: depth 3 and 4), all orders of first reading, 13 ways to load with two documents sharing a device.')
add("P23", "Devices and buffers behave as byte sequences with a position",
    "Every input or output device over memory, strings, files and standard streams gives for any sequence of reads, peeks, writes, seeks and size queries the results that a plain byte array with a position gives, including end-of-input indication.",
    ["histories"], "all operation sequences up to a depth for every device kind",
    "Tests read a file linearly.",
    ["PdfStreamDevice.cpp", "PdfInputStream.cpp", "PdfOutputStream.cpp", "PdfInputDevice.cpp", "PdfOutputDevice.cpp"], [("device classes", "PdfStreamDevice.cpp")],
    harness="p23_devices", flavor="fast", level="model_checking", technique='exhaustive enumeration of operation sequences on every real device kind against a byte array with a position',
    note='All operation sequences to depth 4 (thorough 5) over seeks, reads, peeks, writes, lengths and copies, on 23 device kinds and several initial contents.')
add("P24", "Document information reads back as set",
    "Title, author, subject, keywords, creator, producer, dates, trapping and PDF/A level read back as last set, in memory and after saving and reloading; what is not set stays as it was; XMP metadata, when synchronised, says the same for every text, is well-formed and agrees with the information; and no malformed information or packet makes a document unusable.",
    ["histories", "inputs"], "all histories of setters with and without synchronisation, packets replaced or taken, saves and reloads, up to a depth, from documents with absent, conflicting and malformed information and packets",
    "Two stores with lazy loading, pending packets and invalidation: which one wins depends on the order of calls.",
    ["PdfMetadata.cpp", "PdfInfo.cpp", "PdfXMPPacket.cpp", "src/pdfmm/private/XMPUtils.cpp", "src/pdfmm/private/XmlUtils.cpp"],
    [("PdfMetadata::syncXMPMetadata / ensureInitialized", "PdfMetadata.cpp"), ("UpdateOrCreateXMPMetadata", "src/pdfmm/private/XMPUtils.cpp")],
    harness="p24_info", flavor="asan", level="model_checking", technique='exhaustive exploration of edit histories on the real code against a model of both stores',
    note='10 start documents, depth 1 over 100 operations, depth 2 over 47, depth 3 over 14 (thorough: depth 2 over all, depth 4)')
add("P26", "Character codes map to text as the encoding data says",
    "For any simple encoding with differences and any character map, decoding a string of codes splits it by the declared code lengths and gives the declared Unicode text, encoding is its inverse wherever the mapping is defined, and a character map exported by the library means the same when read again. Text drawn with any kind of font, encoding and embedding reads back as the same text with the same widths.",
    ["inputs"], "all code strings up to a length for all small sets of mappings over mixed code lengths, ranges and multi-character targets",
    "Tests parse one or two maps; prefix-sharing codes and ranges at borders need all combinations.",
    ["PdfFont.cpp", "PdfFontMetricsObject.cpp", "PdfFontCID.cpp", "PdfFontSimple.cpp", "PdfFontObject.cpp", "PdfEncoding.cpp", "PdfEncodingMap.cpp", "PdfCharCodeMap.cpp", "PdfCMapEncoding.cpp", "PdfDifferenceEncoding.cpp"], [("PdfCharCodeMap", "PdfCharCodeMap.cpp"), ("CMap parsing", "PdfCMapEncoding.cpp")],
    harness="p26_codes", flavor="fast", level="model_checking", technique='exhaustive enumeration of mapping sets, map histories, differences and width tables on the real encodings and fonts, every short code string and text compared with the mappings',
    note='All sets of up to three mappings from pools over codes of 1 to 4 bytes, ranges and multi-character targets in three styles of CMap; all push/lookup/move histories to depth 4; all pairs of differences over 3 base encodings, read and exported; all short texts drawn with 2 fonts x 6 encodings x 8 creation flags, saved, extracted and measured; W and Widths arrays of up to 3 segments.')
add("P27", "Content streams are read as their operators and operands",
    "Reading a page's contents gives the sequence of operators with their operands that the page's concatenated content streams spell, independent of how the content is split over streams and of stream sizes, inline images included byte for byte.",
    ["inputs", "histories"], "all short operator sequences, all splits at token borders into content streams, and stream lengths around buffer sizes",
    "The tests read a few single-stream contents.",
    ["PdfContentsReader.cpp", "PdfCanvasInputDevice.cpp", "PdfPostScriptTokenizer.cpp"], [("PdfContentsReader", "PdfContentsReader.cpp"), ("PdfCanvasInputDevice", "PdfCanvasInputDevice.cpp")],
    harness="p27_contents", flavor="fast", level="model_checking", technique='exhaustive enumeration of contents together with the events they spell, of all assignments of tokens to streams, of form graphs and of device reads on the real reader',
    note='All operators with 0-8 operands and all pairs under 6 separators; all 2^n splits of 4 contents over streams with 7 kinds of entries between; inline image data up to 6 bytes over E, I, white space (thorough 7); all graphs of 3 forms with 2 uses; all device read sequences to depth 6; lengths around buffer borders.')
add("P28", "Drawing on a page keeps what was there",
    "Any sequence of painter sessions on new or loaded pages leaves contents in which all earlier operators remain in order and unmerged, each session's operators follow (or precede, as asked) them with balanced graphics-state saves and restores, and the resources used are present.",
    ["histories"], "all sequences of painter sessions and operations up to a depth over pages with absent, single and multiple contents",
    "Interaction between sessions and the existing contents shape is combinatorial.",
    ["PdfPainter.cpp", "PdfContents.cpp", "PdfCanvas.cpp", "PdfPage.cpp"], [("PdfContents::GetStreamForAppending", "PdfContents.cpp"), ("PdfPainter::FinishDrawing", "PdfPainter.cpp")],
    harness="p28_paint", flavor="fast", level="model_checking", technique='exhaustive enumeration of painting histories on the real code; an independent interpreter of content streams compares every painting event, its state and resources with a model of the calls',
    note='32 operations to depth 3 in a session, pairs of sessions of one painter over pages and forms, all sequences of sessions of painters with all flags to depth 3 (thorough 4), all interleavings of two painters; 7 start documents.')
add("P29", "A signature covers the whole file but itself",
    "Signing a document writes a byte range whose two parts cover the complete final file except exactly the signature value, the signer is given exactly those bytes in order, and the value lands in the gap without changing the file's length or cross-references, wherever the placeholders fall.",
    ["inputs", "configurations"], "every offset of the placeholders relative to internal buffer borders, all signature sizes and both save modes",
    "The test signs one file whose placeholders fall at one offset.",
    ["PdfSigner.cpp", "PdfSignature.cpp"], [("SignDocument / beacon search", "PdfSigner.cpp")],
    harness="p29_sign", flavor="asan", level="model_checking", technique='exhaustive enumeration of placements, sizes and signing histories on the real code, every file judged by an independent reader against the bytes given to the signer',
    note='Gap begin, gap end and end of file at every offset within 3 bytes of the borders of the 64 KiB reading buffer for 9 reserved sizes and 4 kinds of document; 8 sizes, 4 devices, 5 save options, 5 ways to get the field, 9 start documents; all histories of 7 operations to depth 4 (thorough 5).')
add("P30", "Annotation and form-field collections behave as lists",
    "Creating and removing annotations and form fields in any order keeps the page's and form's collections equal to the list those operations describe; every entry can be looked up by index and by reference, removed ones disappear from the saved file's collections, and field types, names, values and parents survive saving.",
    ["histories"], "all operation sequences up to a depth, including collections with null or foreign entries and nested fields",
    "Index and cache bookkeeping depends on order.",
    ["PdfAnnotationCollection.cpp", "PdfAcroForm.cpp", "PdfField.cpp", "PdfFieldChildrenCollection.cpp"], [("collections with index maps", "PdfAnnotationCollection.cpp"), ("PdfAcroForm", "PdfAcroForm.cpp")],
    harness="p30_fields", flavor="asan", level="model_checking", technique='exhaustive enumeration of edit histories of annotation and field lists on the real code against list and tree models, judged in memory, in the file and after reloading',
    note='All histories of 56 operations from 5 start documents (empty, ordinary, with null/dangling/foreign/direct entries, with junk among kids, with lists in objects of their own) to depth 2, of 17 operations to depth 3 (thorough 3 and 4); all pairs (thorough triples) of property setters of 7 field types, all sequences of 8 choice operations to depth 4, of 9 appearance settings to depth 3, all pairs of annotation properties for the types with special members.')
add("P31", "Copies are equal and independent",
    "Copying, assigning or moving values, strings, names, arrays, dictionaries and objects (with streams) gives values equal to the source as of that time; equality is an equivalence relation that agrees with type and content; and later changes to either side never show in the other.",
    ["histories", "inputs"], "all pairs and triples from a family of values, all copy and move forms, followed by all single mutations of either side",
    "Copy-on-write and lazy sharing need every mutator after every copy form.",
    ["PdfVariant.cpp", "PdfObject.cpp", "PdfArray.cpp", "PdfDictionary.cpp", "PdfString.cpp", "PdfName.cpp"], [("operator== and copy operations", "PdfVariant.cpp")],
    harness="p31_copies", flavor="asan", level="model_checking", technique='exhaustive enumeration of copy, move and change histories on the real value types under sanitizers, all slots compared with value models after every history; equality over all pairs of a family',
    note='Equality of all pairs of about 90 values in 6 forms before and after reading; all histories of 11 operations over three strings and names to depth 3 (thorough 4); all histories of 12 copy forms and 15 changes over 8 worlds of 2-3 slots (free, indirect, array element, dictionary value, read on demand, variant) from 12 starts to depth 2 (thorough 3), with owners and documents of every part checked.')
add("P32", "Independent documents can be used in parallel",
    "Threads working on separate documents never influence each other's results and never race on shared library state, whatever the interleaving, including first use of lazily built shared tables.",
    ["schedules"], "all interleavings up to a preemption bound of two threads first-using each shared facility",
    "Tests are single-threaded; first-use races need a controlled scheduler.",
    ["PdfEncoding.cpp", "PdfEncodingFactory.cpp", "PdfPredefinedEncoding.cpp", "PdfFontManager.cpp", "src/pdfmm/private/PdfDeclarationsPrivate.cpp"], [("lazily built shared tables", "PdfPredefinedEncoding.cpp")],
    na="Model checking is the right family, but deciding this needs every access to shared memory of the library and of freetype, fontconfig, libxml2 and OpenSSL under a controlled scheduler with happens-before tracking; such a runtime was not built in the time, and a stress test or a scheduler over locks alone would not decide the property")
add("P33", "Images decode to the pixels given",
    "An image made from pixels, of any size, pixel format and row stride, decodes to those pixels in every pixel format asked for, in memory and after saving and reloading; its soft mask is decoded as its alpha; and malformed images are refused without reading outside their data.",
    ["inputs"], "all sizes up to a bound, pixel formats, strides, bits per component and colour spaces of the image, all formats to decode to",
    "Row padding, bit depth and channel order errors show only at particular widths and formats.",
    ["PdfImage.cpp", "src/pdfmm/private/ImageUtils.cpp", "PdfXObject.cpp"],
    [("PdfImage::SetData / DecodeTo", "PdfImage.cpp"), ("FetchImageRGB", "src/pdfmm/private/ImageUtils.cpp")],
    harness="p33_images", flavor="asan", level="model_checking", technique='exhaustive enumeration of images on the real code against an evaluator of image dictionaries',
    note='all widths to 9, heights to 2-3, formats, strides, depths, masks, decode arrays; all PNG types, filters, interlacing; TIFF byte orders, photometrics, depths, layouts; all truncations and single-byte changes of 5 files (thorough: widths to 17)')
