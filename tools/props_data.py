RAPID = "property-based testing (rapid): "
TRUST = " Exploration, not proof: sound for the cases generated; trusts the Go runtime, encoding/json and the harness's own reference model."

# ---------------------------------------------------------------- body formats
prop("C01", "JSON bodies survive a write/read round trip",
 "Writing any sequence of entries to a JSON body (array or object at the top, compact or pretty printed, with or without compression) and reading it back with the same structure yields exactly those entries: same count, order, positions, keys and values, with integers coming back as integers. What is written is one well-formed JSON document that an independent JSON parser decodes to the same values.",
 ["inputs","configurations"], "all sequences of entries with JSON-representable values, both top-level types, both layouts, all compressions",
 "tests write two or three fixed small bodies; the property is about every value, key, length, depth and buffer boundary",
 ["dsio/json.go","dsio/dsio.go"], [("JSON writer separators, brackets and value encoding","dsio/json.go JSONWriter"),("JSON reader tokenizer and buffer extension","dsio/json.go JSONReader")],
 RAPID+"write/read round trip plus independent-parser differential over generated entry sequences",
 "Generated bodies incl. values crossing 4 KiB blocks and the 256 KiB read buffer; oracle = the entries written, and encoding/json on the bytes."+TRUST)

prop("C02", "Any well-formed JSON body is read as exactly the values it denotes",
 "Every well-formed JSON document whose top level matches the structure's schema is read as exactly the entries an independent RFC 8259 parser finds in it, in document order, whatever whitespace, escape sequences, number notation, nesting or sizes it uses and however its bytes are split into reads or buffered; the \\xHH escapes some applications write are read as that byte. A document that is structurally malformed before its closing bracket (bad literal, missing value, key or separator, unclosed string or container) ends in an error, never in a clean end of data.",
 ["inputs","configurations"], "all JSON texts, all splits of the byte stream, all reader buffer sizes",
 "tests read a handful of fixtures through one buffer size; escapes, surrogates, number forms and buffer boundaries are an unbounded space",
 ["dsio/json.go"], [("hand-written tokenizer","dsio/json.go readValue/readString/readNumber/readArray/readObject"),("buffer extension across block boundaries","dsio/json.go extendBuffer/currentBuffer")],
 RAPID+"grammar-generated JSON texts, differential against a token-stream decoder; structural mutations must be rejected",
 "Texts are rendered from generated values with random whitespace/escapes/number notation, delivered in random chunks through random buffer sizes; oracle = encoding/json token stream."+TRUST)

prop("C03", "CBOR bodies survive a write/read round trip and encode canonically",
 "Writing any sequence of entries to a CBOR body and reading it back with the same structure yields the same entries with the same values and kinds (null, booleans, integers, floats, text, byte strings, arrays, objects), in order for arrays and by key for objects. The bytes depend only on the entries: writing the same keyed entries in another order, or the same values again, gives identical bytes.",
 ["inputs","configurations"], "all sequences of CBOR-representable entries, both top-level types, all compressions",
 "tests round trip a few fixed values; integer widths, string lengths and canonical map order are boundary-rich",
 ["dsio/cbor.go"], [("canonical encoder","dsio/cbor.go CBORWriter.Close"),("hand-written decoder","dsio/cbor.go CBORReader")],
 RAPID+"write/read round trip and metamorphic write-order permutation; independent decoder in the harness",
 "Generated values biased to CBOR width boundaries and lengths beyond the read buffer; oracle = entries written and an independent RFC 7049 decoder."+TRUST)

prop("C04", "Any valid CBOR encoding of supported data is read correctly",
 "Every well-formed CBOR document whose top level is the array or map named by the schema and whose items are integers within the signed 64-bit range, half/single/double floats, booleans, null, text, byte strings, arrays and text-keyed maps, tagged or not, is read as exactly the values it denotes (a tagged item as the item itself), for every integer width, definite or indefinite length, chunked strings, nesting and string length, however the bytes are split into reads. A value returned for one entry is not altered by reading later entries. A document that is malformed, cut or of another top-level type ends in an error, never in a clean end of data, and an integer beyond that range is refused or read exactly, never as another number.",
 ["inputs","configurations"], "all valid RFC 7049 encodings of supported items, all splits of the byte stream",
 "tests use a short table of hex vectors; encodings other than the writer's own are barely sampled",
 ["dsio/cbor.go"], [("hand-written decoder","dsio/cbor.go CBORReader.readValue")],
 RAPID+"generated values rendered by an independent CBOR encoder that picks random widths and length forms; differential on the decoded values",
 "Oracle = the generated value; the encoder in the harness is independent of the repository and its libraries."+TRUST)

prop("C05", "NDJSON bodies survive a round trip and every line is one entry",
 "Writing any sequence of values to a newline-delimited JSON body gives exactly one line per entry, and reading it back yields the same values in order with consecutive positions. Any newline-delimited JSON text, with LF or CRLF line ends and with or without a newline after the last line, is read as exactly one entry per line, however the bytes are split into reads, and a malformed line is an error.",
 ["inputs","configurations"], "all sequences of JSON values, all line-end conventions, all compressions and chunkings",
 "tests read one fixture; last-line and chunking behaviour are not sampled",
 ["dsio/ndjson.go"], [("line splitting and decoding","dsio/ndjson.go NDJSONReader.ReadEntry"),("encoder","dsio/ndjson.go NDJSONWriter")],
 RAPID+"round trip and line-by-line differential against encoding/json",
 "Oracle = entries written / encoding/json per line."+TRUST)

prop("C06", "CSV tables survive a write/read round trip",
 "Writing any table of rows to a CSV body and reading it back with the same structure yields the same rows in order, each cell having its column's declared type and value (strings, integers, numbers, booleans, JSON arrays and objects; null as empty), whatever separators, quotes, line feeds or unicode the cells contain, with any valid separator, and with or without a header row or compression. The header row holds the column titles and is never returned as data. In a CSV table written elsewhere, a cell that denotes a value of its column's type is read as that value, and one that does not stays text.",
 ["inputs","configurations"], "all tables over typed columns, all separators, header on or off, all compressions",
 "tests cover one fixture table; quoting, separators and typing interact over an unbounded space",
 ["dsio/csv.go","tabular/tabular.go"], [("cell encoding and decoding by column type","dsio/csv.go encode/decode"),("header handling","dsio/csv.go ReadEntry/NewCSVWriter")],
 RAPID+"table round trip, plus differential of the written bytes against the standard csv reader",
 "Excluded by construction: carriage returns inside cells (normalised by design) and integers beyond the signed 64-bit range. Oracle = rows written."+TRUST)

prop("C07", "CSV reading is independent of line-ending style and read chunking",
 "A CSV text terminated by LF, CRLF or lone CR line ends, mixed or not, is read as the same rows as its LF form, however the source splits the bytes into reads and whatever buffer size is used. The carriage-return normaliser inserts a line feed after exactly the carriage returns that lack one and passes every other byte through unchanged, and byte counting reports exactly the bytes delivered.",
 ["inputs","configurations"], "all texts, all line-end mixes, all chunkings of source and caller buffers",
 "tests read whole strings in one call; boundaries between reads are never hit",
 ["dsio/replacecr/replace_cr.go","dsio/csv.go","dsio/tracked_reader.go"], [("lone CR replacement","dsio/replacecr/replace_cr.go Read"),("byte counting","dsio/tracked_reader.go")],
 RAPID+"differential against a string-level reference under generated chunk plans",
 "Oracle = a regexp-free reference replacement over the whole text, and the LF reading."+TRUST)

prop("C08", "XLSX tables survive a write/read round trip",
 "Writing any table of rows to an XLSX body and reading it back with the same structure yields the same rows in order with each cell's declared type and value, on whichever sheet name is configured. Spreadsheet column letters are the standard ones (A..Z, AA..ZZ, AAA..) and distinct for distinct columns.",
 ["inputs","configurations"], "all tables over typed columns within spreadsheet limits, all sheet names, all column counts",
 "tests write a small fixture; wide tables, letters beyond ZZ and typed cells are not sampled",
 ["dsio/xlsx.go"], [("cell addressing","dsio/xlsx.go axis/ColIndexToLetters"),("cell encoding and decoding","dsio/xlsx.go encodeStrings/decode")],
 RAPID+"table round trip; bijective base-26 reference for column letters",
 "Bounded table sizes (spreadsheet library is slow); cells limited to characters XML can carry. Oracle = rows written."+TRUST)

prop("C09", "Compression is transparent",
 "For every supported compression name and alias, decompressing what was compressed gives back the same bytes, for any content and any pattern of writes and reads; gzip output is readable by any gzip reader and gzip input from any gzip writer is accepted. Declaring a compression on a body changes only its bytes: the entries read are those of the uncompressed body, closing a reader ends what its decompression started wherever reading stopped, and unknown compression names are refused.",
 ["inputs","configurations"], "all byte contents, write patterns, read patterns and format names",
 "tests compress one short string in one write",
 ["compression/compression.go","dsio/dsio.go"], [("compressor/decompressor selection","compression/compression.go"),("wrapping in readers and writers","dsio/dsio.go maybeWrapCompressor")],
 RAPID+"round trip, standard-library gzip differential, compressed/uncompressed metamorphic relation per body format",
 "Oracle = identity on bytes; compress/gzip of the standard library for interoperability."+TRUST)

prop("C10", "No input can crash, hang or bloat the readers",
 "Reading arbitrary bytes as any body format, or detecting a structure from them, ends with an error or with entries: it never panics, never reads on forever and never allocates memory out of proportion to the input. This holds for any schema accepted when the reader is created. (Nesting beyond ten thousand levels may be refused.)",
 ["inputs","configurations"], "all byte strings, all formats, tabular schemas incl. odd column types, all chunkings",
 "tests contain a few malformed fixtures; the claim is about every byte string",
 ["dsio/json.go","dsio/cbor.go","dsio/csv.go","dsio/ndjson.go","dsio/xlsx.go","detect/","tabular/tabular.go","stepfile/"],
 [("hand-written JSON and CBOR decoders","dsio/json.go, dsio/cbor.go"),("column type extraction","tabular/tabular.go")],
 RAPID+"structured fuzzing: random bytes, mutated valid bodies, grammar fragments, adversarial lengths; crash/termination/allocation oracle (plus native coverage-guided fuzzing in the thorough tier)",
 "Termination is judged by a bound on entries and reads per input byte and a generous watchdog; allocation by total bytes allocated per call."+TRUST)

prop("C11", "Cut or failing body streams are never mistaken for complete ones",
 "Reading a JSON, CBOR or XLSX body that has been cut at any byte before its end, or any compressed body cut at any byte, ends in an error rather than a clean end of data, and the entries returned before the error are a prefix of the true ones. If the source fails with an I/O error at any point before the body is complete, every format's reader ends in an error. The same holds when the body is read through the collecting, iterating, copying and converting helpers.",
 ["inputs","fault_sequences"], "every cut position and every read-fault position of generated bodies",
 "tests never truncate a body or inject a read fault at every position",
 ["dsio/json.go","dsio/cbor.go","dsio/csv.go","dsio/ndjson.go","dsio/xlsx.go"], [("end-of-container detection","dsio/json.go ReadEntry, dsio/cbor.go ReadEntry"),("error propagation","dsio/*.go ReadEntry")],
 RAPID+"fault enumeration: every cut point and read-fault offset of each generated body",
 "All positions enumerated for small bodies, sampled plus boundaries for large ones. Oracle = must error; prefix of the known entries."+TRUST, level="fault_enumeration")

prop("C12", "Write failures are always reported",
 "If the destination rejects any byte of a body being written, in any format and with any compression, at least one of the calls creating the writer, writing entries or closing it returns an error; a successful close means every byte was accepted and the destination holds the complete body. The same holds when writing step files.",
 ["fault_sequences","inputs"], "every failing byte offset of generated bodies, all formats and compressions, persistent and one-shot failures",
 "tests use one failing writer at offset zero for one format",
 ["dsio/json.go","dsio/csv.go","dsio/cbor.go","dsio/ndjson.go","dsio/xlsx.go","stepfile/stepfile.go","compression/compression.go"], [("error checks on writes and close","dsio/*.go WriteEntry/Close"),("stepfile separators","stepfile/stepfile.go Write")],
 RAPID+"fault enumeration: destination failing at every byte offset",
 "Offsets enumerated up to a bound per case. Oracle = some call errors, or the bytes equal the fault-free output."+TRUST, level="fault_enumeration")

prop("C13", "A rejected entry leaves no trace in the body",
 "When a writer refuses an entry (missing or duplicate key, value that cannot be represented, row of the wrong shape), the caller gets an error and may carry on: after close, the body is well formed and reads back as exactly the entries that were accepted. A key whose first write was refused because of its value can still be written. (CBOR bodies are encoded as a whole: a value CBOR cannot represent may be reported by close instead.)",
 ["histories","inputs"], "all interleavings of acceptable and unacceptable entries, all formats",
 "tests stop at the first error and never look at the bytes produced afterwards",
 ["dsio/json.go","dsio/cbor.go","dsio/csv.go","dsio/ndjson.go","dsio/xlsx.go"], [("writer state update order","dsio/json.go WriteEntry, dsio/cbor.go WriteEntry/Close")],
 RAPID+"model-based histories of accepted and refused writes compared with a list model",
 "Oracle = the list of accepted entries, read back through the repository's reader and (JSON) encoding/json."+TRUST)

prop("C14", "Paging and conversion select exactly the requested entries and keep values",
 "For any body, limit and offset, a paged read returns exactly the entries at positions offset up to offset+limit of a full read and no others. Converting a body to another format returns exactly the selected entries with their values (or all of them when asked), and if the source cannot be read or an entry cannot be written the conversion returns an error instead of partial data.",
 ["inputs","configurations"], "all bodies, all pairs of formats, all limits and offsets, malformed sources",
 "tests convert fixed fixtures with a couple of page settings",
 ["dsio/streams.go","dsio/dsio.go"], [("offset/limit accounting","dsio/streams.go PagedReader"),("conversion pipeline","dsio/dsio.go ConvertFile")],
 RAPID+"differential against slicing of the full entry list; cross-format conversion model",
 "Oracle = slice of the generated entries, then the target format's own reading."+TRUST)

prop("C15", "In-memory readers, buffers and iteration helpers deliver every entry once",
 "Reading native values through the in-memory reader yields every element exactly once (array elements in order with their positions, object members with their keys) and then a clean end of data, for every schedule, and closing it at any point returns promptly and leaves no goroutine behind. Collecting, copying and iterating helpers and the entry buffer deliver exactly the entries their source holds, in order, and pass on its errors; a buffer keeps its contents whatever other buffers are used.",
 ["inputs","schedules","histories"], "all native values, all interleavings of reads and close, all sources",
 "tests read one small value; completion and close depend on goroutine timing",
 ["dsio/identity.go","dsio/entry.go","dsio/streams.go","dsio/dsio.go","dsio/entry_buffer.go"], [("producer goroutine","dsio/identity.go"),("iteration","dsio/entry.go EachEntry, dsio/streams.go Copy, dsio/dsio.go ReadAll")],
 RAPID+"model-based read/close sequences with scheduling perturbation; differential between helpers",
 "Schedules are perturbed (GOMAXPROCS, yields), not enumerated; a blocked call is judged by a one-minute watchdog on a microsecond operation."+TRUST)

# ---------------------------------------------------------------- document model
prop("C16", "Dataset documents survive JSON encoding",
 "Encoding a dataset or any of its components to JSON and decoding it again preserves every serialised field (secrets and open files are never serialised; the kind identifier is filled in when empty), and encoding never changes the value being encoded. Decoding a bare string gives a reference holding just that path, and decoding then re-encoding what was encoded gives identical bytes (except that a transform whose only content is secrets decodes to a bare reference). Documents written by hand (members in any order, kind identifiers left out, transform resources as plain paths) decode to what they say, and a document that is cut short or has a member of the wrong type is refused and changes nothing.",
 ["inputs"], "all datasets and components with any combination of fields set",
 "tests encode a few hand-written documents; field combinations are exponential",
 ["dataset.go","structure.go","meta.go","commit.go","readme.go","viz.go","transform.go","stats.go"], [("custom JSON coding per component","*.go MarshalJSON/UnmarshalJSON")],
 RAPID+"round trip over generated documents with every subset of fields",
 "Oracle = field-by-field equality (reflect over exported fields) modulo the stated exceptions."+TRUST)

prop("C17", "Encodings and content hashes are canonical",
 "Two documents with equal content always encode to identical bytes and equal hashes, whatever order their maps were built in, and object keys of a component with free-form content appear in sorted order. The hash is the base58 SHA-256 multihash of the encoded bytes, so documents that encode differently have different hashes.",
 ["inputs","histories"], "all documents, all construction orders",
 "tests compare hashes of two fixtures",
 ["hash.go","meta.go","structure.go","dataset.go"], [("canonical marshalling","*.go MarshalJSON"),("hash","hash.go HashBytes/JSONHash")],
 RAPID+"metamorphic: permuted construction gives same bytes; differential against an independent SHA-256/base58",
 "Oracle = independent base58 and multihash implementation in the harness."+TRUST)

prop("C18", "Metadata keeps every field, standard or arbitrary",
 "Setting a metadata key stores the value under the matching standard field (matched case-insensitively, with its type checked) or, when it is not a standard field, verbatim as arbitrary metadata; a rejected value reports an error and changes nothing. Arbitrary metadata is kept apart from standard fields, survives JSON encoding unchanged, and cannot be altered by adding, replacing or removing keys of the copy handed out to readers.",
 ["inputs","histories"], "all sequences of sets over standard and arbitrary keys",
 "tests set each standard key once",
 ["meta.go"], [("Set dispatch","meta.go Set"),("hoisting of arbitrary metadata","meta.go MarshalJSONObject/UnmarshalJSON")],
 RAPID+"stateful model: sequences of sets, encodes and decodes against a map model",
 "Oracle = a map model of the metadata document."+TRUST)

prop("C19", "Assign overlays set fields, last one wins, and sources stay intact",
 "Assigning documents or components onto a target sets each field to the last non-empty value among them and leaves every other field of the target as it was (an existing dataset identifier is kept; the config, resources and secrets of transforms merge by key; arbitrary metadata is replaced as a whole), skipping missing sources. Assigning to an empty target copies the source completely, assigning a value to itself or assigning nothing changes nothing, and the sources are never modified.",
 ["inputs","histories"], "all targets and source lists with any subset of fields set",
 "tests assign two or three hand-written values",
 ["dataset.go","structure.go","meta.go","commit.go","readme.go","viz.go","transform.go","stats.go"], [("field overlay","*.go Assign")],
 RAPID+"reflective reference model of the overlay over generated sources",
 "Oracle = reflect-driven overlay model; sources deep-compared with snapshots."+TRUST)

prop("C20", "A component is empty exactly when nothing but its reference is set",
 "A dataset or component reports itself empty exactly when no field other than its path and kind identifier is set, arbitrary metadata included. It is encoded as a bare path string exactly when it has a path and is empty, so encoding as a reference never loses content. A reference made from a path holds that path and nothing else.",
 ["inputs"], "all components with any subset of fields set",
 "tests check each field of some components alone and miss combinations and newer fields",
 ["dataset.go","structure.go","meta.go","commit.go","readme.go","viz.go","transform.go","stats.go"], [("emptiness tests","*.go IsEmpty"),("reference form","*.go MarshalJSON")],
 RAPID+"reflective differential over every subset of fields",
 "Oracle = reflection over exported fields."+TRUST)

prop("C21", "Dropping transient or derived values removes exactly those",
 "Dropping transient values clears exactly the fields documented as transient and leaves every other field untouched; on a dataset it does not reach into components. Dropping derived values clears exactly the derived fields of the document and of every component it holds, and both are idempotent.",
 ["inputs"], "all documents and components with any subset of fields set",
 "tests compare one filled fixture per component",
 ["dataset.go","structure.go","meta.go","commit.go","readme.go","viz.go","transform.go","stats.go"], [("field clearing","*.go DropTransientValues/DropDerivedValues")],
 RAPID+"reflective model over generated documents with every field set or unset",
 "Oracle = per-type table of transient and derived fields taken from the documentation, every other field compared by reflection."+TRUST)

prop("C22", "Signing bytes bind identity, time and every component path",
 "The bytes offered for signing list, one per line in a fixed order, the identifier, body path, commit time (UTC, whole seconds) and the path of every component that has one, each with its component prefix, and nothing else. Changing any one of those values changes the bytes, changing anything else or the time zone of the commit time does not, and the path map lists exactly the components present and not ignored.",
 ["inputs"], "all datasets, all single-field changes",
 "tests compare one fixture",
 ["dataset.go","kind.go"], [("signing line assembly","dataset.go SigningBytes"),("path map","dataset.go PathMap"),("prefixes","kind.go ComponentTypePrefix")],
 RAPID+"reference construction plus metamorphic single-field changes",
 "Values containing line feeds are outside the domain. Oracle = reference list in the harness."+TRUST)

prop("C23", "Body and script files open from the documented source",
 "Opening a body refuses inline native bodies, otherwise serves the inline bytes if there are any, otherwise the bytes stored at the body path, and reports missing resolvers and resolver failures; scripts and rendered files likewise prefer inline text over their path. Inlining a script moves exactly the file's contents into the text and clears the script path, and repeated opens serve the same content again.",
 ["inputs","configurations","fault_sequences"], "all combinations of inline content, paths, resolvers and resolver failures",
 "tests cover a few combinations per component",
 ["dataset.go","readme.go","viz.go","transform.go"], [("priority of sources","dataset.go OpenBodyFile, readme.go/viz.go/transform.go OpenScriptFile")],
 RAPID+"decision-table model over generated components with an in-memory, fault-injecting resolver",
 "Oracle = decision table in the harness."+TRUST)

# ---------------------------------------------------------------- detection, values, validation
prop("C24", "Structure detection fits the body and never loses data",
 "Detecting a structure from a JSON, CBOR, NDJSON or CSV body, compressed or not, names the format and compression of its file name and yields a schema with which the body can be read back in full: objects and arrays are told apart, and every row of a CSV table appears with the detected columns (shape and types taken from its first two thousand rows, the type most frequent in a column being its type), its header excluded only when declared, and a row holding a numeral, a truth value or an empty cell is never declared one. Fields already set stay unchanged, detecting the same body again gives the same structure, separate detections share nothing, the outcome does not depend on how the bytes are split into reads, and afterwards, even after a failure, the body delivers exactly its original bytes and nothing goes on reading it.",
 ["inputs","configurations"], "all bodies in detectable formats, all partially filled structures, all chunkings",
 "tests detect a handful of fixtures from whole buffers",
 ["detect/detect.go","detect/determineFields.go","detect/json.go","detect/cbor.go"], [("schema inference","detect/determineFields.go CSVSchema, detect/json.go"),("body restoration","detect/detect.go Structure"),("file extensions","detect/detect.go FormatFromFilename")],
 RAPID+"generated bodies with known shape; read-back, preservation and chunking metamorphic relations",
 "Spreadsheet schema inference is not implemented by the code and is excluded. Oracle = generated table/document."+TRUST)

prop("C25", "Text-to-type inference and typed parsing agree",
 "The type inferred for a piece of text is one its typed parser accepts: text inferred as null, an integer, number, boolean or string that is within range parses as that type to the value it denotes, text inferred as an array or object does if it is well-formed, and formatting a parsed value and parsing it again gives the same value. Type names and types convert back and forth without loss, and comparing two texts as integers, numbers or strings is a consistent total order that agrees with comparing their values.",
 ["inputs"], "all byte strings, all typed values",
 "tests use short tables",
 ["vals/type.go","vals/compare.go"], [("type inference","vals/type.go ParseType"),("typed parsing and formatting","vals/type.go Parse/ValueToString"),("comparison","vals/compare.go")],
 RAPID+"generated literals and arbitrary text against strconv/encoding-json references; order laws",
 "Oracle = strconv, encoding/json, math/big and the order axioms."+TRUST)

prop("C26", "Generic values mirror JSON and compare by content",
 "Decoding a JSON document into generic values, or converting already decoded native values, yields a tree with the same types, members and scalars as the document, and encoding it gives back an equivalent document. Two values are equal exactly when they denote the same typed content, however they were produced, and equality is reflexive and symmetric. Asking a value for what its type does not have panics with a value error that names the method and the type.",
 ["inputs"], "all JSON documents and native values, all pairs of values",
 "tests use a few literals",
 ["vals/coding.go","vals/value.go","vals/compare.go"], [("JSON decoding","vals/coding.go UnmarshalJSON"),("conversion","vals/coding.go ConvertDecoded"),("equality","vals/compare.go Equal")],
 RAPID+"round trip and differential against encoding/json; equality compared with a reference on pairs and mutated pairs",
 "Oracle = encoding/json trees."+TRUST)

prop("C27", "Body validation reports exactly the schema violations present",
 "Validating a body reports an error for every entry that breaks the entry schema and none for entries that satisfy it, whatever the body's format, top-level type or number of entries, including bodies far larger than the internal batch; each error names the entry it is about. The errors are those of validating the whole document at once against an entry schema, a body that cannot be read is an error, and name, commit, structure and row-length checks accept exactly what they document.",
 ["inputs","configurations"], "all bodies and per-entry schemas, sizes around batch boundaries",
 "tests validate small fixtures; no test crosses a batch boundary with violations at chosen rows",
 ["validate/data.go","validate/dataset.go","validate/validate.go","validate/csv.go"], [("batching","validate/data.go EntryReader/flushBatch"),("component checks","validate/dataset.go, validate/validate.go, validate/csv.go")],
 RAPID+"differential: generated bodies with planted violations against per-entry validation by an independent checker",
 "Schemas limited to per-entry keywords with an obvious independent meaning. Oracle = planted violations."+TRUST)

prop("C28", "Statistics are exact where they claim to be",
 "For any body, the statistics have one record per column or key, in order, typed by its first value other than null, whose counts, minima, maxima, means, lengths and true/false counts equal those computed directly from the values of that type; histograms and medians are exact up to 32 distinct values (the median being the first value whose middle rank reaches half) and text frequencies up to 200, and otherwise approximate. They do not depend on the body's format, and asking for them or closing again changes nothing. Nothing goes on reading the body once they are calculated or have failed.",
 ["inputs","configurations"], "all bodies over typed columns, incl. extreme values and more distinct values than the thresholds",
 "tests check one fixture with small numbers",
 ["dsstats/stats.go"], [("per-column accumulators","dsstats/stats.go"),("finalisation","dsstats/stats.go Close")],
 RAPID+"differential against a direct computation over generated columns",
 "Exactness claims limited to documented ones; HyperLogLog/top-k/histogram parts checked within bounds. Oracle = direct computation with math/big."+TRUST)

prop("C29", "The histogram sketch conserves counts and orders its answers",
 "Whatever values are added, merged, encoded or decoded, the sketch's total equals the number of values added and its bins are sorted, within the limit and the range of the values, keep their mean, and hold non-negative frequencies summing to that total; minimum and maximum are exact. A value beyond the limit joins only the two closest neighbouring bins into one at their mean, and a sketch made from a sample has the bins of least total squared distance. A damaged encoding is refused. Rank estimates are non-decreasing between zero and the total, quantile estimates non-decreasing between minimum and maximum; while there are no more distinct values than bins, ranks are exact and a quantile is the first value whose middle rank exceeds the rank asked for.",
 ["histories","inputs"], "all sequences of add, add-many, merge and encode/decode",
 "tests sample a few distributions against tolerances",
 ["dsstats/histosketch/histosketch.go"], [("centroid maintenance","dsstats/histosketch/histosketch.go AddMany/Merge"),("estimation","dsstats/histosketch/histosketch.go Sum/Quantile"),("serialisation","MarshalBinary/UnmarshalBinary")],
 RAPID+"stateful model: operation sequences against a multiset model",
 "Approximate answers are held to invariants only. Oracle = sorted multiset; brute force for optimal bins of up to nine values."+TRUST)

prop("C30", "Diffs are empty exactly when content is unchanged",
 "Diffing a structure, metadata, transform or viz against an equal one reports no modification, and diffing two that differ in serialised content reports a modification of that component and no other, counting the changed top-level keys and telling the change from the first to the second (numbers compare in double precision, equal stored paths of metadata, transform or viz mean unchanged, two empty metadata components may count as unchanged, and a changed script path of a transform alone is not significant). Diffing never changes its inputs, treats missing as empty, and every summary format succeeds, naming the highest-priority changed component.",
 ["inputs"], "all pairs of datasets and components",
 "tests diff fixed pairs",
 ["dsdiff/dsdiff.go"], [("component diffs","dsdiff/dsdiff.go Diff*"),("summaries","dsdiff/dsdiff.go SummarizeToString/MapDiffsToString")],
 RAPID+"metamorphic: equal copies and generated mutations; differential against JSON comparison",
 "Oracle = encoding/json comparison of the two documents."+TRUST)

prop("C31", "Step files round trip",
 "Writing any non-empty list of transform steps to a step file and reading it back yields the same scripts in the same order, provided no script contains or touches a separator line, for scripts given as text, bytes or streams. The file is the scripts joined by separator lines, and reading any text splits it at exactly those lines.",
 ["inputs","fault_sequences"], "all script lists, all script kinds, all read chunkings",
 "tests use one three-step fixture",
 ["stepfile/stepfile.go"], [("split and join","stepfile/stepfile.go Read/Write")],
 RAPID+"round trip and reference join/split",
 "Scripts containing the separator are out of the domain of the format. Oracle = strings.Join/Split."+TRUST)

prop("C32", "Tabular columns are extracted faithfully and named without collisions",
 "Extracting columns from a tabular schema gives one column per item in order, with its title, types, description and remaining keywords kept, defaults and a reported problem for each missing or malformed title or type, and at least one type per column; schemas that are not tabular are refused with the tabular-schema error. Machine-title validation accepts exactly valid unique identifiers, generated column names are distinct for distinct positions, and column types survive JSON coding. A structure requires a tabular schema exactly when its format is CSV or XLSX, and its abstract form keeps format, options, encoding and strictness but no details of one body.",
 ["inputs"], "all schemas, tabular or not, all column counts",
 "tests use a few literal schemas",
 ["tabular/tabular.go","structure.go"], [("column extraction","tabular/tabular.go"),("column naming","structure.go AbstractColumnName")],
 RAPID+"generated schemas against a reference extractor; injectivity of names",
 "Oracle = reference extractor in the harness."+TRUST)

prop("C33", "Previews are bounded, truthful and leave the dataset usable",
 "A preview's body is exactly the first hundred entries of the body (all of them if fewer) with their values, and its readme text is the readme itself if short, otherwise its first 997 bytes followed by an ellipsis; every other component is carried over in full. After creating a preview the body and readme files still deliver their complete original bytes, and empty or unreadable datasets are errors.",
 ["inputs","configurations"], "all datasets, bodies in every format and size around the limit, readme lengths around the limit",
 "tests preview one fixture",
 ["preview/preview.go"], [("truncation and tee","preview/preview.go Create")],
 RAPID+"generated datasets with sizes biased around the limits; reference truncation",
 "Oracle = slices of the generated entries and text."+TRUST)

prop("C34", "Rendering a viz is repeatable and sees the right entries",
 "Rendering a dataset's template gives the output the template denotes over the dataset document and the requested body entries, and rendering again gives the same output: the template and body files are whole again afterwards, whatever pages the template asked for. Datasets without a viz, with another format, or with a broken template or body are errors.",
 ["inputs","histories"], "all bodies, page requests and repeat counts",
 "tests render one fixture, mostly once",
 ["dsviz/render.go"], [("file restoration","dsviz/render.go renderHTML/bodyEntries"),("template functions","dsviz/render.go")],
 RAPID+"repeat-render metamorphic relation and entry-slice differential",
 "Oracle = slices of the generated entries; reference formatting of sizes."+TRUST)

prop("C35", "Generated rows match their schema",
 "Every generated row has one value per column, each of the column's declared type, with string lengths below the configured maximum and consecutive positions; the generator never ends. With a fixed seed the sequence is reproducible, and both boolean values occur.",
 ["inputs","configurations"], "all tabular schemas, options and row counts",
 "tests draw a few rows from one schema",
 ["generate/tabular.go","generate/value.go"], [("typed generation","generate/value.go Type")],
 RAPID+"type predicate over generated schemas and long row sequences; seed reproducibility",
 "Oracle = Go type per schema type."+TRUST)

prop("C36", "Formats, format options and kinds convert without loss",
 "Every data format converts to its name and back (with or without a leading dot, in text and JSON), unknown names are refused and the body file name built from a structure is recognised as the same format and compression. CSV, JSON and XLSX options built from a configuration map and turned back into a map keep every option, options of the wrong type are refused, and kind identifiers split into type and version that rejoin to the original.",
 ["inputs","configurations"], "all format values, option maps and kind strings",
 "tests check tables of constants",
 ["data_format.go","data_format_config.go","kind.go","structure.go","detect/detect.go"], [("name tables","data_format.go"),("option parsing","data_format_config.go")],
 RAPID+"round trip over all formats and generated option maps",
 "Oracle = identity; wrong-typed options must error."+TRUST)

prop("C37", "Dataset comparison helpers tell equal from different",
 "Comparing two datasets or components reports no difference exactly when all their exported fields are equal, is symmetric in that verdict, and never changes its arguments. With transient values dropped, values differing only in transient fields compare equal and others still compare different. The ShallowCompare of readmes, transforms and vizes is true exactly when all exported fields other than Path are equal.",
 ["inputs"], "all pairs of datasets and components, all single-field changes",
 "tests compare a few hand-written pairs",
 ["dstest/compare.go","readme.go","transform.go","viz.go"], [("comparison on copies","dstest/compare.go")],
 RAPID+"generated pairs differing in chosen fields against reflect.DeepEqual",
 "Oracle = reflect.DeepEqual on exported fields."+TRUST)

prop("C38", "Test fixtures load exactly what their directories hold",
 "Loading a test case directory gives the input and expected datasets, body, transform, viz and readme scripts and rendered file that are in it, byte for byte and attached to the input dataset, and nothing that is not; a directory with a broken dataset file or nothing in it is refused, and loading a directory of cases gives exactly those that load. Cases loaded again or concurrently share nothing, and no file stays open. A dataset's checksum is equal for equal datasets and differs when any exported field differs, and a golden file is written only when asked for and loads as the dataset written.",
 ["inputs","histories","schedules"], "all subsets and contents of test case files, all datasets, repeated and concurrent loading",
 "tests load one committed directory and the checksum of the empty dataset",
 ["dstest/dstest.go","dstest/golden.go"], [("optional files","dstest/dstest.go NewTestCaseFromDir"),("shared case cache","dstest/dstest.go testCaseCache"),("checksum","dstest/dstest.go DatasetChecksum")],
 RAPID+"generated directories in scratch space against a file-by-file model; equal and changed datasets for checksums; run under the race detector",
 "Oracle = the generated files and reflective comparison of datasets; arbitrary metadata is outside the checksum."+TRUST)

prop("C39", "Independent operations run at the same time without affecting each other",
 "Reading, writing, converting, paging, summarising, detecting, validating, previewing, rendering and generating different bodies, and encoding, hashing, signing, comparing, diffing, assigning from and inspecting documents, may run by turns or in any number of goroutines at once. Each gives exactly what it gives alone, even when the documents, structures and bytes they only look at are shared between them. None of them changes what it only looks at, and there are no data races.",
 ["inputs","schedules"], "all sets of operations over all bodies and documents, under all schedules",
 "tests run one operation at a time",
 ["dsio/dsio.go","meta.go","dataset.go","detect/detect.go","dsstats/stats.go","dsdiff/dsdiff.go"], [("package state","dsio, detect, dsstats, tabular, dsviz package variables"),("looking at metadata","meta.go Meta")],
 RAPID+"generated sets of operations, each done alone on copies and then all at once on shared inputs, under the race detector; readers, writers, buffers and accumulators stepped by drawn turns",
 "Oracle = the result of the same operation alone (differential) and the race detector; schedules are those the Go scheduler gives plus yields in the sources."+TRUST)
prop("C40", "The generator command writes exactly the rows asked for, or fails visibly",
 "dsgen prints a CSV body of the structure it is given (with that structure's header, separator and compression) which reads back, with that structure, as exactly the asked number of rows (1000 when none is asked for), each with one cell of the declared type per column. 'fixed' prints the documented four-column table with as many rows. The rows flag counts before or after the structure, in any of its forms. Arguments or structures it cannot use, and output it cannot write, end with a failing exit status and a message instead of a crash, a wrong table or silent success.",
 ["inputs"], "all tabular CSV structures, row counts and argument forms; all unusable structures and unwritable outputs",
 "the command has no tests; sampled structures would be one per column type",
 ["generate/dsgen/main.go","generate/tabular.go","dsio/csv.go"], [("command line","generate/dsgen/main.go main"),("tables","generate/dsgen/main.go generateFile"),("fixed table","generate/dsgen/main.go writeFixedFile")],
 RAPID+"the command built from the tree and run on generated structures, flags and outputs (including a full device); its output read back with the same structure",
 "Oracle = row count, cell types and exit status; cell values are random and judged by type only."+TRUST)

prop("C41", "Structures that cannot describe a body are refused up front",
 "A structure whose format is unknown or unsupported, whose compression is unknown (or any, for a spreadsheet), or whose schema does not name an array or object top level (an array for line formats, columns for tables) is refused with an error by everything that reads, writes, buffers, converts, summarises or previews a body, before anything is written and without a crash or a partial result; every other structure is accepted by all of them, under each name its format goes by, and the body written with it is read back with it. In-memory readers accept arrays and objects only.",
 ["inputs","configurations"], "all combinations of format names, compression names and schemas, all entry points",
 "tests try one bad structure per constructor; the entry points have to agree on every combination",
 ["dsio/dsio.go","dsio/json.go","dsio/cbor.go","dsio/csv.go","dsio/ndjson.go","dsio/xlsx.go","dsio/entry_buffer.go","compression/compression.go","data_format.go"],
 [("choice of reader and writer","dsio/dsio.go NewEntryReader, NewEntryWriter"),("checks of the schema","dsio/*.go New*Reader, New*Writer"),("compression names","compression/compression.go ParseFormat")],
 RAPID+"structures put together from usable and unusable parts, given to every entry point; verdict compared with a small model, usable ones round-tripped",
 "Oracle = a model of which parts are usable; schemas are drawn from kinds whose usability is clear."+TRUST)
