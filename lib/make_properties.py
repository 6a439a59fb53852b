import json
P=[]
def p(id,title,st,over,q,why,files,state,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech])))
I="include/novatel_edie/"
p("C01","CRC functions compute the defined polynomial remainder for every input",
 "For every byte block, width (8 to 64 bits), polynomial, bit order and initial value, the block CRC equals the bit-by-bit polynomial remainder, and feeding the same bytes in any split (block by block or character by character, through any overload) gives the same value. The OEM message CRC, including its fast path for long blocks, equals the reflected CRC-32 with polynomial 0xEDB88320, and no CRC function reads outside the block it is given.",
 ["inputs"],"all byte strings of any length and alignment, all supported CRC parameters, all ways of splitting a block",
 "The tests check one or two fixed strings per polynomial; lengths around the slicing and fast-path thresholds, alignments and incremental use are not sampled.",
 [I+"common/crc.hpp",I+"decoders/oem/crc.hpp"],[("CRC tables","compile-time slicing tables per polynomial",I+"common/crc.hpp")],
 [("slice-by-8 block CRC",I+"common/crc.hpp"),("Chorba fast path above 48 bytes",I+"decoders/oem/crc.hpp")])
p("C02","The framing FIFO buffer behaves as a bounded byte queue",
 "After any sequence of writes, erases, copies and searches, the buffer's contents, size, free space, indexing, search results and copied-out bytes equal those of an ideal FIFO byte queue of the configured capacity. A write is stored whole or refused whole (refused exactly when it does not fit), an erase beyond the content empties the buffer, and no operation touches memory outside the buffer.",
 ["histories"],"all operation sequences, sizes and capacities",
 "No unit test exercises it directly; framer tests reach a handful of fill levels and never the relocation and wrap boundaries systematically.",
 [I+"common/fixed_buffer.hpp"],[("buffer storage","capacity bytes of content kept contiguous inside double-size storage",I+"common/fixed_buffer.hpp")],
 [("relocate-on-write FIFO",I+"common/fixed_buffer.hpp")])
p("C03","Framers neither lose, duplicate, reorder nor invent bytes",
 "For every byte stream written to a framer (any of the single-format framers, the all-format framer, or the framer manager), the bytes handed out by successive frame requests (messages and unknown bytes), followed by what a final flush returns, are exactly the bytes accepted by the writes, in order. With unknown-byte reporting switched off only bytes that belong to no returned message are missing.",
 ["inputs","histories"],"all byte streams, write sizes, interleavings of write/get/flush and output-buffer sizes",
 "Tests feed a few dozen crafted streams and check the returned frame; none accounts for every byte over an arbitrary stream or under partial writes.",
 ["src/decoders/common/src/framer.cpp","src/decoders/common/src/framer_manager.cpp","src/decoders/oem/src/framer.cpp","src/decoders/oem/src/framer_ascii.cpp","src/decoders/oem/src/framer_binary.cpp","src/decoders/oem/src/framer_abb_ascii.cpp",I+"decoders/common/framer.hpp",I+"decoders/oem/framer_ascii_base.hpp",I+"decoders/oem/framer_binary_base.hpp"],
 [("framer buffer","unconsumed input",I+"decoders/common/framer.hpp")],
 [("HandleUnknownBytes","src/decoders/common/src/framer.cpp"),("frame state machines","src/decoders/oem/src/framer.cpp")])
p("C04","Every frame reported as a message is a valid message of its format",
 "Whenever a framer reports success, the bytes it returned form exactly one message of the reported format: correct sync and delimiters, a length that equals the reported length and agrees with the length in a binary header, and (except for abbreviated ASCII) a correct CRC over exactly the covered bytes. Corrupting any covered byte of such a message makes the framer report something other than that message.",
 ["inputs"],"all byte streams, including arbitrarily corrupted and spliced messages",
 "Tests corrupt one chosen byte in one chosen message per format.",
 ["src/decoders/oem/src/framer.cpp",I+"decoders/oem/framer_ascii_base.hpp",I+"decoders/oem/framer_binary_base.hpp","src/decoders/oem/src/framer_abb_ascii.cpp"],
 [("frame metadata","format, length, response and message attributes of the frame",I+"decoders/common/framer.hpp")],
 [("CRC validation","src/decoders/oem/src/framer.cpp")])
p("C05","Framing finds every message and does not depend on how input is chunked",
 "A valid message of any supported format that follows complete messages or bytes that cannot begin or contain a message is always found and returned whole, with its format and length. The sequence of messages and of unknown bytes delivered for a stream is the same however the stream is split into writes, down to one byte at a time; an unfinished message only ever yields incomplete until its last byte arrives.",
 ["inputs","schedules","histories"],"all message sequences, intervening noise and chunkings",
 "Byte-by-byte tests exist for single hard-coded messages; mixtures of formats, noise and arbitrary split points are not explored.",
 ["src/decoders/oem/src/framer.cpp","src/decoders/common/src/framer.cpp","src/decoders/common/src/framer_manager.cpp",I+"decoders/oem/framer_ascii_base.hpp",I+"decoders/oem/framer_binary_base.hpp"],
 [("framer state","partial-frame progress kept between calls",I+"decoders/oem/framer.hpp")],
 [("incremental frame state machines","src/decoders/oem/src/framer.cpp"),("sync search","src/decoders/common/src/framer.cpp")])
p("C06","Framers are memory-safe on any input and respect the caller's buffer size",
 "For every byte stream and every output-buffer size, including zero, a frame request never reads or writes outside the framer's own data or the caller's stated buffer size, never crashes and always returns after bounded work. A message that does not fit is reported as buffer-full and not as a success; payload-only and unknown-byte options do not weaken this.",
 ["inputs","configurations"],"all byte streams, output sizes and framer options",
 "Tests always pass a buffer of maximal size and mostly well-formed data; no sanitizer run exists.",
 ["src/decoders/oem/src/framer.cpp","src/decoders/common/src/framer.cpp","src/decoders/common/src/framer_manager.cpp"],
 [],[("bounds checks before copy-out","src/decoders/oem/src/framer.cpp")])
p("C07","The framer manager serves each registered format like its own framer",
 "For a stream mixing formats, a framer manager built over a set of framers returns the same messages, in stream order, with the same bytes, format and length metadata and the right framer identified, as the corresponding individual framers would find for those messages; formats that were not selected are treated as unknown bytes. Per-framer access, reset and option changes affect exactly the framers they name.",
 ["inputs","configurations","histories"],"all mixtures of messages and noise and all subsets of registered framers",
 "A few fixed mixtures are tested with all framers registered.",
 ["src/decoders/common/src/framer_manager.cpp",I+"decoders/common/framer_manager.hpp",I+"decoders/common/framer_registration.hpp"],
 [("framer registry","per-framer offset and state over a shared buffer",I+"decoders/common/framer_manager.hpp")],
 [("offset arbitration","src/decoders/common/src/framer_manager.cpp")])
p("C08","Message identifiers, message types and message names convert consistently",
 "Packing a log number, sibling, format and response flag into a message identifier (or message-type byte) and unpacking it returns the same parts for every legal combination, and distinct combinations give distinct identifiers. For every message in the database, name-to-identifier and identifier-to-name conversion are mutually inverse over all suffix forms (A, B, R, none, with or without _sibling); an unknown name or number yields the documented unknown result, never a crash. (Databases whose message names are ambiguous, because they end in _<number> or coincide with another message's name plus a suffix, are outside this property.)",
 ["inputs"],"all identifiers, all names (including empty and malformed ones) and all databases",
 "Tests convert a dozen names.",
 ["src/decoders/common/src/common.cpp","src/decoders/common/src/message_database.cpp",I+"decoders/common/common.hpp"],
 [],[("CreateMsgId/UnpackMsgId/PackMsgType","src/decoders/common/src/common.cpp"),("MsgNameToMsgId/MsgIdToMsgName","src/decoders/common/src/message_database.cpp")])
p("C09","Header decoding recovers exactly what the sender put in the header",
 "For every header of every supported format (binary, short binary, ASCII, short ASCII, abbreviated, short abbreviated, JSON), decoding returns the message identifier, sibling, response flag, port, sequence, idle time, time status, week, time of week, receiver status, definition CRC and software version that were encoded, and metadata (name, length, header length, format, time) consistent with them. Malformed headers (a field missing, empty, of the wrong kind or out of range, or the header cut short) are reported with a non-success status; headers of messages the database does not define are named UNKNOWN, and keep nothing from previously decoded headers.",
 ["inputs"],"all header field values and formats, and all malformed headers",
 "Tests decode about ten literal headers.",
 ["src/decoders/oem/src/header_decoder.cpp","include/novatel_edie/decoders/oem/header_decoder.hpp","include/novatel_edie/decoders/oem/common.hpp"],
 [("intermediate header / metadata","decoded header fields",I+"decoders/oem/common.hpp")],
 [("HeaderDecoder::Decode","src/decoders/oem/src/header_decoder.cpp")])
p("C10","Message counters count exactly the messages decoded",
 "After any sequence of header decodes, the per-message counters equal the number of successfully decoded headers for each (message, format, sibling) combination since the last reset, with nothing counted for rejected input, no key conflated with another, and no wrap-around at 32 bits. Resetting clears that decoder's counters only, querying changes nothing, and the parser and file parser expose the same counts.",
 ["histories","inputs"],"all sequences of messages, formats, siblings, rejections and resets",
 "Tests drive the tracker template with a few keys; the decode path that feeds it is sampled once or twice.",
 [I+"decoders/common/message_counts_tracker.hpp","src/decoders/oem/src/header_decoder.cpp","src/decoders/oem/src/parser.cpp"],
 [("count map","key to 64-bit count",I+"decoders/common/message_counts_tracker.hpp")],
 [("increment on successful decode","src/decoders/oem/src/header_decoder.cpp")])
p("C11","Binary decoding yields exactly the values the message definition describes",
 "For every message definition (any mix and order of simple, enum, array, string and field-array fields, with or without family alignment, any length-field size or length reference) and every well-formed binary body, each decoded field, array element and nested record read through the public accessors equals the bytes at the position the definition prescribes. Re-encoding the decoded message to binary reproduces the original message bit for bit.",
 ["inputs","programs"],"all message definitions and all well-formed binary bodies",
 "Tests decode about a hundred recorded messages against the shipped database and compare re-encoded text.",
 ["src/decoders/common/src/message_decoder.cpp",I+"decoders/common/message_decoder.hpp","src/decoders/oem/src/message_decoder.cpp","src/decoders/common/src/json_db_reader.cpp",I+"decoders/common/encoder.hpp","src/decoders/oem/src/encoder.cpp"],
 [("composite field","fixed byte region plus variable fields",I+"decoders/common/message_decoder.hpp")],
 [("DecodeBinary","src/decoders/common/src/message_decoder.cpp"),("alignment functions","src/decoders/common/src/message_database.cpp")])
p("C12","Converting a message between formats preserves its content",
 "For every message, encoding to any supported format (binary, ASCII, abbreviated ASCII, JSON where decodable) and decoding the result gives back the same header and field values, up to the precision the definition's conversion string or the format itself declares; encoding the decoded result again in the same format gives the same bytes. The flattened binary form contains every field at its declared, maximally sized position.",
 ["inputs","programs"],"all messages, field values, definitions and pairs of formats",
 "Round trips are tested on fixed recorded messages in fixed directions.",
 [I+"decoders/common/encoder.hpp","src/decoders/oem/src/encoder.cpp","src/decoders/common/src/message_decoder.cpp","src/decoders/oem/src/message_decoder.cpp","src/decoders/oem/src/header_decoder.cpp"],
 [],[("per-conversion encode/decode maps","src/decoders/common/src/message_decoder.cpp"),("Encoder","src/decoders/oem/src/encoder.cpp")])
p("C13","Encoded output is a well-formed message with the right text, lengths and CRC",
 "Every message the encoder reports as encoded is a complete message of the requested format that the corresponding framer accepts whole: header, body and message lengths in the metadata and in binary headers match the bytes produced, the CRC is right, and JSON output parses as JSON with one entry per field. Each field's text equals an independent rendering of its value under its conversion string.",
 ["inputs","programs"],"all messages, field values, conversion strings and output formats",
 "Tests compare a limited set of golden outputs; edge values of each conversion are sampled once.",
 [I+"decoders/common/encoder.hpp","src/decoders/oem/src/encoder.cpp"],[],
 [("EncodeBody/EncodeHeader","src/decoders/oem/src/encoder.cpp"),("PrintIntermediate*","src/decoders/oem/src/encoder.cpp")])
p("C14","Encoding never writes past the buffer and fails cleanly when it does not fit",
 "For every message, format and output-buffer size, encoding either reports success and produces exactly the bytes it produces with an unlimited buffer, or reports buffer-full; it never touches memory outside the given buffer. A buffer that is large enough never yields buffer-full.",
 ["inputs","configurations"],"all messages, formats and buffer sizes from zero up",
 "Tests try a handful of too-small buffers for one message.",
 [I+"decoders/common/encoder.hpp","src/decoders/oem/src/encoder.cpp"],[],
 [("remaining-size checks in every write",I+"decoders/common/encoder.hpp")])
p("C15","Decoding malformed or hostile messages is safe and reports a status",
 "For every header and body, however truncated, oversized, corrupted or inconsistent with its definition, header and message decoding return a status after bounded work: no access outside the supplied message data, no undefined behaviour, no unbounded allocation driven by a length field, and no exception other than those documented. Input that the definition cannot account for is not reported as a complete message with invented field values.",
 ["inputs"],"all byte strings presented as a framed message of any known or unknown definition",
 "Malformed-input tests cover about a dozen crafted strings and are not run under sanitizers.",
 ["src/decoders/common/src/message_decoder.cpp","src/decoders/oem/src/message_decoder.cpp","src/decoders/oem/src/header_decoder.cpp"],[],
 [("bounds checks against the message length","src/decoders/common/src/message_decoder.cpp")])
p("C16","The filter admits exactly the messages its configuration describes",
 "For every filter configuration (message identifiers, names, time window, time status, decimation, response and non-message inclusion, each possibly inverted, and any sequence of include, exclude, remove and clear calls) and every message, the filter's verdict equals the conjunction of the configured conditions evaluated on the message's metadata. Clearing a condition or the whole filter restores the verdicts of an unconfigured one.",
 ["inputs","configurations","histories"],"all metadata values and all configuration histories",
 "Tests set one condition at a time and check a few messages.",
 ["src/decoders/oem/src/filter.cpp",I+"decoders/oem/filter.hpp"],
 [("filter configuration","lists, bounds and inversion flags",I+"decoders/oem/filter.hpp")],
 [("filter functions","src/decoders/oem/src/filter.cpp")])
p("C17","The parsers deliver the same messages as running the components by hand",
 "For every stream, chunking and configuration (filter, encode format, unknown-byte, abbreviated-response, decompression and RXCONFIG options), the parser and the file parser return, in stream order and without loss or duplication, exactly the messages obtained by framing, header decoding, filtering, message decoding and encoding with the separate components, with matching metadata. The end of a file is reported once all of its messages have been delivered, and resetting a parser makes it behave like a new one.",
 ["inputs","configurations","histories"],"all byte streams, chunkings, parser options and resets",
 "Tests run a few recorded files with a few settings.",
 ["src/decoders/oem/src/parser.cpp",I+"decoders/oem/parser.hpp",I+"decoders/common/file_parser.hpp",I+"decoders/oem/file_parser.hpp"],
 [("parser options and buffers","configured behaviour and carried-over bytes",I+"decoders/oem/parser.hpp")],
 [("Parser::ReadIntermediate/Read","src/decoders/oem/src/parser.cpp"),("FileParserBase",I+"decoders/common/file_parser.hpp")])
p("C18","Message database lookups stay consistent through any sequence of edits",
 "After any sequence of appends, merges, removals, replacements and message-family changes, looking up a message or enumeration by name or number finds exactly the definitions most recently added and not since removed, enum fields resolve to the current enumeration, and field layouts match the database's own message family. Edits to one database never change another database or definition that was merged, copied or looked up from it, and no lookup uses released storage.",
 ["histories"],"all edit and lookup sequences over several databases",
 "Tests apply one append or merge and look up one name.",
 ["src/decoders/common/src/message_database.cpp",I+"decoders/common/message_database.hpp"],
 [("definition lists and lookup maps","definitions keyed by name and id",I+"decoders/common/message_database.hpp")],
 [("mapping maintenance",I+"decoders/common/message_database.hpp")])
p("C19","Loading a JSON database is faithful, and malformed databases are rejected safely",
 "Every well-formed JSON database loads into definitions whose messages, fields, conversions, lengths, array limits, layouts, enumerations and metadata equal what the document says, whether read from a file or from memory. A document that is not valid or lacks required content is rejected with the documented database-reader failure, never another exception, crash or partially built database.",
 ["inputs"],"all JSON documents",
 "Tests load the shipped database and a few small snippets.",
 ["src/decoders/common/src/json_db_reader.cpp",I+"decoders/common/json_db_reader.hpp",I+"decoders/common/message_database.hpp"],[],
 [("ParseJsonDb/LoadJsonDbFile","src/decoders/common/src/json_db_reader.cpp"),("BaseField::SetConversion",I+"decoders/common/message_database.hpp")])
p("C20","Decompressed range logs carry the observations of the compressed log",
 "For every valid compressed range log of any supported generation (original, second, third, fourth and fifth, including differential blocks that follow a reference), decompression yields a range log with the same header identity and exactly one observation per compressed observation, whose satellite, signal, tracking status, pseudorange, phase, Doppler, signal strength, lock time and standard deviations equal the values the compressed format defines. The outcome for a log depends only on it and on the preceding logs since the last reset.",
 ["inputs","histories"],"all valid compressed logs and log sequences",
 "Tests compare a few recorded epochs per generation within tolerances.",
 ["src/decoders/oem/src/rangecmp/range_decompressor.cpp","src/decoders/oem/src/rangecmp/channel_tracking_status.cpp",I+"decoders/oem/rangecmp/common.hpp",I+"decoders/oem/rangecmp/range_decompressor.hpp"],
 [("reference blocks and lock-time history","values carried between logs",I+"decoders/oem/rangecmp/range_decompressor.hpp")],
 [("RangeCmp*ToRange","src/decoders/oem/src/rangecmp/range_decompressor.cpp")])
p("C21","Decompressing hostile range logs is safe",
 "For every byte string presented as the body of a compressed range log, in any sequence, decompression returns a status after bounded work, without accessing memory outside the supplied message and output buffers, without undefined behaviour and without producing more observations than a range log can hold. A log that is truncated or inconsistent is not turned into a successful range log made of bytes that were not in it.",
 ["inputs","histories"],"all byte strings as bodies of all five compressed logs, in any order",
 "Only valid recorded logs and a few constructed errors are tested, without sanitizers.",
 ["src/decoders/oem/src/rangecmp/range_decompressor.cpp",I+"decoders/oem/rangecmp/common.hpp"],[],
 [("length checks in decompression","src/decoders/oem/src/rangecmp/range_decompressor.cpp")])
p("C22","RXCONFIG messages convert losslessly and safely",
 "For every RXCONFIG log wrapping a command the database defines, converting it to ASCII, abbreviated ASCII, binary or JSON yields a message whose outer and embedded headers and embedded command fields equal the original, with a correct outer CRC and an embedded CRC that is the complement convention of the format, and converting on to another format gives the same result as converting directly. Truncated or inconsistent RXCONFIG logs are rejected with a status and without any out-of-bounds access.",
 ["inputs"],"all embedded commands, formats and malformed bodies",
 "Tests convert a few recorded logs.",
 ["src/decoders/oem/src/rxconfig/rxconfig_handler.cpp",I+"decoders/oem/rxconfig/rxconfig_handler.hpp"],[],
 [("RxConfigHandler","src/decoders/oem/src/rxconfig/rxconfig_handler.cpp")])
p("C23","Encoded receiver commands say what the abbreviated command said",
 "For every abbreviated command the database defines, encoding it as an ASCII or binary command yields a message that frames and decodes back to the same command and the same field values, with the addressed port and correct lengths and CRC, fitting within the size given. Unknown commands, malformed parameters and too-small buffers are reported with a status and never overrun any buffer.",
 ["inputs"],"all command strings, encode formats and buffer sizes",
 "Tests encode a few LOG and other commands.",
 ["src/decoders/oem/src/commander.cpp",I+"decoders/oem/commander.hpp"],[],
 [("Commander::Encode","src/decoders/oem/src/commander.cpp")])
p("C24","Independent decoding pipelines can run concurrently",
 "Pipelines (framers, decoders, encoders, parsers, loggers) that are used by one thread each, including ones that share a message database, run concurrently without data races or deadlocks and each delivers exactly what it delivers when run alone. Creating and destroying pipelines, loading databases and registering loggers at the same time is equally safe.",
 ["schedules"],"all interleavings of threads owning separate pipelines over shared databases and the shared logger",
 "There is no multi-threaded test and no race detector run.",
 [I+"common/logger.hpp","src/common/src/logger.cpp","src/decoders/common/src/message_database.cpp","src/decoders/common/src/json_db_reader.cpp","src/decoders/common/src/framer_manager.cpp"],
 [("logger registry","global named loggers",I+"common/logger.hpp"),("alignment-function and framer registries","process-wide tables","src/decoders/common/src/message_database.cpp")],
 [("logger mutex",I+"common/logger.hpp"),("immutable shared definitions",I+"decoders/common/message_database.hpp")])
p("C25","Decoded field values are accessed type-safely and within bounds",
 "For every decoded or default-constructed message, every field, array element and nested record can be read back through the typed, by-name, variant and iterator accessors with one consistent value, and what is set through the setters is what is read back, for copies too. An access with a wrong container type, an unknown name or an out-of-range array element raises an exception and leaves the message unchanged; none reads or writes outside the message's storage.",
 ["inputs","histories","programs"],"all definitions, field values, and sequences of get and set operations including invalid ones",
 "Tests read a few fields of a few messages.",
 [I+"decoders/common/message_decoder.hpp"],
 [("fixed region and variable fields","storage of a decoded message",I+"decoders/common/message_decoder.hpp")],
 [("bounds and type checks in accessors",I+"decoders/common/message_decoder.hpp")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
