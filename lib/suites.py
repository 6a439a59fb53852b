"""What each property's check runs: harness binary, suite, sanitizer variant and case counts."""
PROPS = {}


def prop(pid, rule, suites, **kw):
    PROPS[pid] = dict(rule=rule, suites=suites, **kw)


def s(binary, suite, quick, thorough=None, **kw):
    d = dict(bin=binary, suite=suite, quick=quick, **kw)
    if thorough:
        d["thorough"] = thorough
    return d


prop("C01", "random and exhaustive-length blocks at every alignment, 13 polynomials; each compared with a bit-serial remainder through every overload and random splits; non-trivial: longer than one byte, distinct by content and initial value",
     [s("c01_crc", "generic", 20000, 2000000), s("c01_crc", "oem", 60000, 6000000), s("c01_crc", "lengths", 1202, 60100)])
prop("C02", "random histories of write/erase/copy/search/read on a FixedBuffer, compared with a std::deque after every operation; distinct by operation-and-size trace",
     [s("c02_fixed_buffer", "history", 40000, 4000000)])

FR = "framers"
prop("C03", "random byte streams (well-formed, hostile, near-miss; sync-dense) fed in random chunks to every framer and framer-manager selection; every call's delivered and discarded bytes, returned length and free space are accounted against the stream; distinct by stream content",
     [s(FR, "conserve", 12000, 1200000), s(FR, "refill", 64, 6400), s(FR, "wellformed", 5000, 400000), s(FR, "payload", 4000, 300000), s(FR, "chunks", 3000, 300000)])
prop("C04", "every frame delivered as SUCCESS is re-validated by an independent reference (delimiters, lengths, bit-serial CRC / XOR); streams are near-misses built from valid messages, and single-byte corruptions of valid messages; distinct by stream content",
     [s(FR, "validity", 16000, 1600000), s(FR, "corrupt", 24000, 2400000), s(FR, "chunks", 3000, 300000), s(FR, "wellformed", 3000, 200000)])
prop("C05", "streams of valid messages with junk between them, under random chunkings, against the generator's own list of messages; hostile streams under two chunkings against each other; distinct by stream content",
     [s(FR, "wellformed", 14000, 1400000), s(FR, "chunks", 14000, 1400000), s(FR, "refill", 32, 3200), s(FR, "manager", 3000, 200000)])
prop("C06", "heap-exact output buffers of 0..500 bytes under ASan/UBSan, every framer, hostile and well-formed streams; exact-fit boundaries per message; payload-only mode compared with the payload; calls are bounded; distinct by stream content",
     [s(FR, "bounds", 12000, 1200000), s(FR, "fit", 12000, 1200000), s(FR, "payload", 8000, 800000), s(FR, "conserve", 4000, 400000)])
prop("C07", "random selections and orders of registered framers; delivered messages, their attribution and metadata identity against the generator's list; unselected formats interleaved as noise; one-framer managers against the framer itself; distinct by stream and selection",
     [s(FR, "manager", 14000, 1400000), s(FR, "manager_single", 8000, 800000), s(FR, "conserve", 4000, 300000), s(FR, "bounds", 3000, 300000), s(FR, "wellformed", 3000, 300000), s(FR, "refill", 16, 1000)])

CO = "codec"
prop("C11", "random databases (all field kinds, nesting, conversions, length references, alignments) and random bodies laid out by an independent reference; every field, element and record read back and re-encoded; distinct by definition and body",
     [s(CO, "bin_values", 1500, 150000), s(CO, "bin_lenref", 700, 70000), s(CO, "bool_arrays", 2, 2, shards=1)])
prop("C13", "random definitions, bodies and headers encoded to the eight formats; header, body, CRC and every field's text against an independent rendering, JSON against an independent parser and value model, binary and text messages against the framer; distinct by encoded message",
     [s(CO, "text", 1800, 180000), s(CO, "text_raw", 1500, 150000)])

HD = "headers"
prop("C08", "every identifier and message-type byte (exhaustive: log number x sibling x format x response), and every suffix form of every name of random databases, plus mutated and hostile names; distinct by identifier or name",
     [s(HD, "pack", 1024, 1024), s(HD, "names", 4000, 300000)])
prop("C09", "random headers rendered independently in all eight formats, in a heap-exact buffer, decoded by a reused decoder, header and metadata compared field by field; headers with one field missing, empty, of the wrong kind, out of range or cut short; distinct by message",
     [s(HD, "header", 6000, 400000), s(HD, "header_bad", 9000, 600000)])
prop("C10", "random histories of decodes (all formats, siblings, unknown and rejected headers), queries and resets on several decoders against a model count; distinct by history",
     [s(HD, "counts", 12000, 800000), s(HD, "counts_wide", 100, 1000)])
RT = "roundtrip"
prop("C12", "random definitions, bodies and headers encoded to all eight formats, decoded from a heap-exact buffer (fresh or reused body), compared with the originals up to the text the format shows, encoded again and taken to binary; flattened binary against the packed struct layout; responses in every form; distinct by encoded message",
     [s(RT, "formats", 1600, 150000), s(RT, "flat", 2500, 250000), s(RT, "responses", 2500, 250000)])
prop("C14", "random messages encoded into heap-exact buffers of every size up to the encoded length and beyond (under ASan), each outcome compared with the unlimited encoding; headers, bodies, responses and embedded forms; distinct by message and format",
     [s("bufsize", "sweep", 1100, 60000), s("bufsize", "sweep_response", 1500, 60000)])
HO = "hostile"
prop("C15", "valid headers and bodies of random definitions in binary, ASCII, abbreviated, JSON and response form, cut at every kind of place, with bytes, tokens, counts, lengths and JSON values replaced, removed and inserted, in heap-exact buffers under ASan/UBSan; independent reference parsers give the value of every field, or require a refusal; what is accepted is read back and re-encoded; distinct by input",
     [s(HO, "binary", 3000, 250000), s(HO, "ascii", 2500, 250000), s(HO, "abbrev", 2500, 250000), s(HO, "json", 2000, 200000), s(HO, "responses", 1500, 100000), s(HO, "header", 12000, 1000000)])
prop("C16", "random histories of filter configuration calls (bounds, decimation, statuses, identifiers, names, inversions, removals, clears) against a model of the configured conditions, judged on messages placed on and around every boundary after every call; distinct by history",
     [s("filter", "history", 60000, 6000000), s("filter", "seconds", 60000, 3000000)])
PA = "parser"
prop("C17", "random streams (known messages in six formats, responses, RXCONFIG logs, damaged, foreign and over-long messages, noise) given to a parser in random chunks, or to a file parser as a file read several times, with random filter, format and option settings that change on the way; every read (status, message, ranges, header, fields, metadata, counts) compared with the framer, decoders, filter and encoder run by hand, and with the generator's list of messages; distinct by stream",
     [s(PA, "chunks", 8000, 1000000), s(PA, "file", 5000, 600000), s(PA, "large", 1200, 200000)])
RX = "rxconfig"
prop("C22", "random commands of random definitions wrapped by an independent reference in ASCII, abbreviated ASCII and binary RXCONFIG logs, converted to all four formats and compared (bytes, ranges, metadata, both checksums) with the same reference applied to the encoder's form of the command by itself; converted on to a third format and compared with the direct conversion; logs cut and damaged under a correct outer checksum against the components run by hand; every output capacity; distinct by message",
     [s(RX, "convert", 2500, 250000), s(RX, "hostile", 2500, 250000), s(RX, "sizes", 400, 40000)])
RG = "range"
prop("C20", "random histories of satellites (locks, outages, week ends, movement, changed and unknown signals) compressed by an independent encoder of each generation into logs of every form (full, reference and differential blocks, skipped, damaged and reset in between), decompressed in every output format and compared observation by observation with the encoder's inputs; the same history replayed beside other traffic on a second decompressor; distinct by log",
     [s(RG, "cmp1", 3000, 300000), s(RG, "cmp2", 3000, 300000), s(RG, "cmp4", 4000, 400000), s(RG, "cmp5", 4000, 400000), s(RG, "mixed", 2500, 250000), s(RG, "damaged", 1500, 150000)])
prop("C21", "hostile compressed logs (random bits, counts, masks, lengths and truncations over valid ones, in sequences) in heap-exact buffers under ASan/UBSan; every input and output capacity; results judged by an independent bit reader; distinct by log",
     [s(RG, "hostile", 12000, 1000000), s(RG, "room", 3000, 300000), s(RG, "bits", 4000, 400000), s(RG, "damaged", 3000, 300000)])
DL = "dbload"
prop("C19", "random database documents (any member order, unknown members, escapes, white space, nesting, alignment families, extreme numbers) loaded from a heap-exact text that is overwritten afterwards, or from a file, and compared member by member, with computed widths, flags, layouts and lookups, with an independent reading of the document; documents with members removed, replaced or renamed and damaged text, which must be refused with the one documented exception or load as the independent reading says; distinct by document",
     [s(DL, "wellformed", 5000, 1200000), s(DL, "damaged", 9000, 2400000), s(DL, "text", 5000, 1200000), s(DL, "files", 200, 2000)])
prop("C18", "random histories of edits on several databases (appends, replacements, merges, self-merges, removals by name and number, enumeration edits, family changes, copies, constructions, destructions, and edits that fail part-way) against a model of the definitions each database should hold; after every step every lookup, layout, enumeration mapping and metadata of every database, and every definition a user still holds, is compared with the model; distinct by history",
     [s("dbedit", "history", 2500, 300000)])
CM = "commander"
prop("C23", "random commands of random definitions (several per message) as abbreviated text, through every way to run a commander, to ASCII and binary in blocks of exactly every size, compared byte by byte with an independent reference and decoded back; unknown, incomplete, over-long and damaged commands, unsupported formats, missing pointers, databases and definitions; distinct by command",
     [s(CM, "commands", 2500, 300000), s(CM, "refused", 1200, 60000), s(CM, "damaged", 8000, 800000), s(CM, "undefined", 2000, 200000)])
AC = "accessors"
prop("C25", "random histories of sets, element sets, copies, moves and destructions on decoded and default-constructed messages of random definitions (nested arrays in both storage forms), whose database is edited or released meanwhile; after every step every field, element and nested record of every message is read by type, by name, as a variant, by iterators and as bytes, and compared with a model; wrong containers and element types, unknown names, indices that do not exist or wrap, fields of other messages and messages without storage, which must raise an exception and change nothing, in exact storage under ASan/UBSan; distinct by message and history",
     [s(AC, "valid", 3500, 600000), s(AC, "invalid", 4500, 800000)])
TH = "threads"
prop("C24", "two to six threads with their own framers, managers, decoders, encoders, parsers, file parsers, commanders, range decompressors, RXCONFIG handlers and loggers over one to three shared databases, with databases loaded, copied, edited, merged and released and pipelines made and destroyed meanwhile, under ThreadSanitizer, with random delays; every operation's complete output is compared with the same program run alone; first use of everything by several threads at once in fresh processes; a watchdog reports threads that wait for each other; distinct by the observed order of operations",
     [s(TH, "pipelines", 240, 20000, variant="tsan", cpu=240), s(TH, "init", 200, 20000, variant="tsan", cpu=240)])
