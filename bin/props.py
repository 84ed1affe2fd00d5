"""Property texts; mkmanifest.py turns them into properties.jsonl and MANIFEST.json."""
PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, note, observe=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, note=note, observe=observe, na=na))


prop("C01", "Base64 encoding is the RFC 4648 mapping and round-trips",
     "Encoding any byte sequence yields exactly the RFC 4648 text for it (standard alphabet with padding, or the URL-safe alphabet without padding). "
     "Decoding that text with the matching variant gives back exactly the original bytes.",
     ["inputs"], "every byte sequence, both variants",
     "tests encode a handful of fixed strings; a slip in one table entry, one tail length or one bit position needs the right byte in the right place",
     ["include/kl/base64.hpp", "src/base64.cpp"],
     [("base64_encode / base64url_encode", "src/base64.cpp"), ("base64_decode / base64url_decode", "src/base64.cpp")],
     "all byte sequences up to the stated length, compared bit for bit with an independent RFC 4648 reference")
prop("C02", "Base64 decoding accepts exactly well-formed text and never misreads",
     "For any text whatever, decoding either reports failure or returns the bytes RFC 4648 assigns to that text, without reading outside the text. "
     "Text containing a character outside the variant's alphabet, misplaced padding or an impossible length is refused.",
     ["inputs"], "every text of every length over all 256 byte values, both variants",
     "tests try a few malformed strings; acceptance is a property of the whole input space including bytes >= 0x80 and NUL",
     ["include/kl/base64.hpp", "src/base64.cpp"],
     [("decode tables and length/padding checks", "src/base64.cpp")],
     "all texts up to the stated length, compared with an independent decoder")
prop("C03", "Binary reader stays in bounds, is exact, and its errors are sticky",
     "Any sequence of operations on a binary reader only touches bytes of its buffer, delivers exactly the bytes at the cursor in order, and advances the cursor by exactly what was consumed. "
     "An operation that does not fit - including a jump by any signed amount - moves nothing and puts the reader in the error state, and once in error every later read delivers nothing and the state stays.",
     ["inputs", "histories"], "every buffer, every sequence of reader operations, every 64-bit offset and count",
     "tests run a few fixed scripts; overflow and off-by-one at the ends need extreme offsets and counts in particular cursor states",
     ["include/kl/binary_rw.hpp"],
     [("basic cursor skip/left/pos/err", "include/kl/binary_rw.hpp"), ("binary_reader read/peek/span", "include/kl/binary_rw.hpp")],
     "all buffers and operation sequences up to the stated sizes; memory safety of every access is an implicit assertion")
prop("C04", "Binary writer never writes outside its buffer and its errors are sticky",
     "Any sequence of operations on a binary writer changes only the bytes the values occupy, in order, inside its buffer. "
     "A value or jump that does not fit changes nothing and puts the writer in the error state, and from then on nothing is written any more.",
     ["inputs", "histories"], "every buffer, every sequence of writer operations, every 64-bit offset and count",
     "tests run a few fixed scripts; a partial write or an overflow at the end of the buffer needs the exact remaining size",
     ["include/kl/binary_rw.hpp"],
     [("basic cursor skip/left/pos/err", "include/kl/binary_rw.hpp"), ("binary_writer write", "include/kl/binary_rw.hpp")],
     "all buffers and operation sequences up to the stated sizes")
prop("C05", "Binary serialization of every supported type round-trips exactly",
     "Writing any value of a supported type and reading it back yields an equal value and consumes exactly the bytes written, and the bytes are those of the documented layout. "
     "If the buffer is too short for writing, or the input is cut short anywhere for reading, the error state is reported.",
     ["inputs"], "every value of the supported types (integers, enums, endian-swapped values, strings, vectors, maps, sets, optionals, pairs, variants and nestings), every truncation point",
     "tests round-trip a few constants per type; they do not cut the stream at every point nor vary the contents",
     ["include/kl/binary_rw.hpp", "include/kl/binary_rw/endian.hpp", "include/kl/binary_rw/map.hpp", "include/kl/binary_rw/optional.hpp", "include/kl/binary_rw/pair.hpp",
      "include/kl/binary_rw/set.hpp", "include/kl/binary_rw/string.hpp", "include/kl/binary_rw/variant.hpp", "include/kl/binary_rw/vector.hpp"],
     [("read_binary / write_binary overloads", "include/kl/binary_rw/*.hpp")],
     "all values of 25 type shapes up to the stated container size, all truncations")
prop("C06", "Hostile binary input cannot crash, over-read or exhaust memory",
     "Reading any supported type from arbitrary bytes either produces a value or reports the error state; it never touches memory outside the input, never crashes, never throws for malformed content, and a container whose data is malformed comes back empty. "
     "A value produced is the one the documented layout assigns to the bytes (of repeated keys the first wins), whatever the target held before, and memory allocated is bounded by a constant multiple of the input size, whatever element counts the input claims.",
     ["inputs"], "every byte sequence as input, every supported type",
     "tests feed well-formed input and a few truncations; claimed element counts span 2^32 values",
     ["include/kl/binary_rw.hpp", "include/kl/binary_rw/string.hpp", "include/kl/binary_rw/vector.hpp", "include/kl/binary_rw/map.hpp", "include/kl/binary_rw/set.hpp", "include/kl/binary_rw/variant.hpp"],
     [("read_binary overloads", "include/kl/binary_rw/*.hpp")],
     "all inputs up to the stated length for 25 type shapes; allocation bound and memory safety are implicit assertions")
prop("C07", "Path parsing decodes and normalises every text, or refuses it",
     "Parsing a path text yields exactly its segments: separated by '/', percent-decoded, with empty and '.' segments dropped and '..' removing the segment before it (nothing at the root). "
     "A text with a malformed percent escape or an escaped '/' is refused with the path error, and a path object is reusable after a refusal with nothing left over from earlier texts.",
     ["inputs"], "every text over all byte values",
     "tests list a few dozen paths; combinations of escapes, dots, slashes and depth are combinatorial",
     ["include/kl/path.hpp", "src/path.cpp"],
     [("path::set and its helpers", "src/path.cpp")],
     "all texts up to the stated length, and segment counts around the inline-storage limit, against an independent resolver")
prop("C08", "Path accessors agree with the segments of the path",
     "For every valid path the number of segments, each segment, the joined remainder from any segment, and every prefix are those of its normalised text, also after dropping segments from the front or the back any number of times. "
     "No accessor reads outside the path's own text, and copies and moved-to paths report the same segments.",
     ["inputs", "histories"], "every valid path, every sequence of drop operations",
     "tests inspect a few paths; offset bookkeeping errors show only for specific depths and drop sequences",
     ["include/kl/path.hpp", "src/path.cpp"],
     [("path / path_view accessors", "include/kl/path.hpp")],
     "all paths up to the stated length, all drop sequences; memory safety is an implicit assertion")
prop("C09", "The modification tracker answers exactly what changed since a generation",
     "For any history of reported changes, a path is said to have changed since a generation exactly when, after that generation, a change was reported at or below it, or a change replacing a whole subtree was reported at or above it; segments are compared whole, so names sharing a prefix are unrelated. Generations strictly increase and a query never alters the answers.",
     ["histories", "inputs"], "every history of plain and subtree changes, every queried path and generation",
     "tests report a few changes on fixed paths; prefix-related names, ancestors and the order of plain and subtree changes combine",
     ["include/kl/resource.hpp"], [("modification tracker notify/changed", "include/kl/resource.hpp")],
     "histories and path depths up to the stated size over prefix-related and arbitrary one-byte names")
prop("C10", "A refused resource operation changes nothing and says why",
     "When PUT, POST, PATCH or DELETE on a resource cannot be carried out - unknown path, protected node, malformed or out-of-range body, failed validation anywhere in the tree, duplicate key, or a validator throwing something else - the resource's value is exactly what it was, no change is reported, no generation is used, and the status names a reason that applies (404, 405, 400, 409; a foreign exception passes through), a conflict carrying the text of what stood against it. An operation with no reason against it succeeds.",
     ["inputs", "fault_sequences", "histories"], "every valid state, every addressable or missing path, every verb, every body including those wrong at any one place",
     "tests try a few bad bodies on a few paths; the defect can sit at any depth after part of the body was already applied, and rollback differs per verb and container",
     ["include/kl/resource_op.hpp", "include/kl/resource.hpp"], [("put/post/patch/del with rollback", "include/kl/resource_op.hpp"), ("rollback_value, pop_back_rollback", "include/kl/resource_op.hpp")],
     "five resource shapes, collections of up to 2 elements, bodies wrong in at most one place")
prop("C11", "A successful resource operation has its effect and reports it precisely",
     "PUT replaces exactly the addressed node, PATCH changes exactly the fields given, POST appends exactly one element, DELETE removes exactly the addressed element or empties the addressed optional; everything else keeps its value and the status is 200, 201 or 204. The change is then visible at the changed path, at every ancestor and at everything below it that differs, and at no unrelated path.",
     ["inputs", "histories"], "every valid state, path, verb and well-formed body",
     "tests check a few values; collateral changes and missing or excess notifications need every path to be queried after every operation",
     ["include/kl/resource_op.hpp", "include/kl/resource.hpp"], [("put/post/patch/del", "include/kl/resource_op.hpp"), ("delete_direct_child", "include/kl/resource_op.hpp")],
     "five resource shapes, collections of up to 2 elements, any integers")
prop("C12", "Read-only nodes and element keys cannot be changed through operations",
     "No operation addressed to a node marked read-only, or to anything inside a subtree marked subtree-read-only, or to the key field of a keyed element, changes the resource; replacing or patching a keyed element cannot change its key, no operation can leave two elements of a keyed collection with the same key, and nodes not so protected stay writable.",
     ["inputs", "histories"], "every valid state, path at, above or below a protected place, verb and body",
     "tests probe one or two protected fields; protection must carry through optionals, lists, maps and nested keyed collections for each verb",
     ["include/kl/resource_op.hpp", "include/kl/resource_attributes.hpp"], [("access_context", "include/kl/resource_op.hpp"), ("element_node identity, validate_unique_child_keys", "include/kl/resource_op.hpp")],
     "four resource shapes, keyed collections of up to 3 elements")
prop("C13", "A resource path names one value or nothing, the same for every verb",
     "A path resolves through serialized field names, canonical decimal indexes, map keys, element keys and engaged optionals to exactly one value, which GET passes to the dumper once; any other path is not found, nothing is read for it, and every verb agrees with GET on what exists. Serializing, dumping and deserializing at a path work on that same value and touch nothing else.",
     ["inputs"], "every sequence of segment texts over a resource with every kind of node",
     "tests resolve known paths; near misses (prefixes, signs, padding, overflow, wrong case) are unbounded",
     ["include/kl/resource_op.hpp"], [("visit_node", "include/kl/resource_op.hpp"), ("parse_index, find_key", "include/kl/resource_op.hpp")],
     "one resource with every kind of node; up to 3 segments of 1..2 arbitrary bytes, plus listed tails")
prop("C14", "Integers cross the JSON boundary losslessly or are refused",
     "A JSON integer is deserialized into an integer or plain enum type exactly when that type can represent it, with its value unchanged; anything else - out of range, a fraction, another kind - is refused with the deserialization error and the target is left alone. "
     "Serializing any integer keeps its value and deserializing it again gives the same integer.",
     ["inputs"], "all integer types, all 64-bit JSON integers, all doubles",
     "tests check a few limits of a few types; the guarantee is about 2^64 values per type pair",
     ["include/kl/json.hpp", "src/json.cpp", "include/kl/detail/serialization.hpp"],
     [("integral from_json / to_json conversions", "include/kl/json.hpp")],
     "every value of every integer width; no bound on values")
prop("C15", "Serializing to JSON and reading back yields the same value",
     "Serializing any value of a supported type yields the JSON document its type prescribes - numbers and texts unchanged, enums and flag sets by name, sequences and tuples as arrays in order, maps and structs as objects with each field once, null optionals as null or omitted as the context asks. "
     "Deserializing that document, into a fresh or a used object, is accepted and yields an equal value.",
     ["inputs"], "every value of scalars, containers and structs and their nestings, both null policies, every prior target value",
     "tests round-trip a few constants per type; leftover contents of used targets, empty containers, embedded NULs and null policies combine",
     ["include/kl/json.hpp", "include/kl/detail/serialization.hpp", "include/kl/serialization.hpp"],
     [("serialize_adl / deserialize_adl overloads", "include/kl/detail/serialization.hpp"), ("json_tree_backend", "include/kl/json.hpp")],
     "40 type shapes, collections of up to 2 elements, texts of up to 2 arbitrary bytes, any numbers; the JSON library's own tree is executed too")
prop("C16", "Streaming a value writes the document that serializing builds",
     "Dumping any value through a writer emits one well-formed document, and it is the same document - members, order, names, values, nulls kept or skipped - as serializing that value to a tree with the same null policy. An extra entry that collides with a field's name is refused by both.",
     ["inputs"], "every value of every supported type including attributed, derived and flattened structs, both null policies",
     "the two backends are separate code paths; tests compare a few fixed outputs",
     ["include/kl/json.hpp", "include/kl/detail/serialization.hpp", "include/kl/serialization_attributes.hpp"],
     [("dump_adl overloads", "include/kl/detail/serialization.hpp"), ("json_stream_backend", "include/kl/json.hpp")],
     "50 type shapes, collections of up to 2 elements; the writer is a recorder with rapidjson's writer interface")
prop("C17", "Deserializing accepts exactly suitable documents and stores what they say",
     "Deserializing a JSON document into a type succeeds exactly when the document fits it: right kind at every place, every mandatory field present, numbers in range, enum names known, sequences not longer than a fixed-size type (missing elements read as null); the value is then exactly what the document says, whatever the target held before. "
     "Any other document is refused with the deserialization error and nothing else - no other exception, no crash - and the document is not modified.",
     ["inputs"], "every document fitting a type or wrong at any one place, every prior target value, every supported type",
     "tests feed a few good and bad documents per type; which place is wrong, and what the target held, combine",
     ["include/kl/json.hpp", "include/kl/detail/serialization.hpp", "src/json.cpp"],
     [("deserialize_adl overloads", "include/kl/detail/serialization.hpp"), ("expect_* checks", "src/json.cpp")],
     "40 type shapes, documents fitting the type except for at most one place, collections of up to 2 elements")
prop("C18", "Patching changes exactly what the document mentions",
     "Applying a JSON document as a patch leaves every field the document does not mention as it was and sets every field it does mention - by name or alias, at any depth of nested structs - as deserializing would; lists, maps and other non-struct values are replaced as a whole, collected extra members are merged. "
     "A document that does not fit is refused with the deserialization error.",
     ["inputs"], "every prior value, every patch document fitting the type or wrong at one place",
     "tests patch one or two structs; defaults, aliases, flattening, optionals and nesting each treat absence differently",
     ["include/kl/detail/serialization.hpp", "include/kl/json.hpp", "include/kl/serialization_attributes.hpp"],
     [("patch_adl overloads", "include/kl/detail/serialization.hpp")],
     "50 type shapes including attributed and flattened structs, collections of up to 2 elements, any prior value")
prop("C19", "Field attributes mean the same for reading, writing and round trips",
     "Each field attribute does exactly what it names: rename and aliases decide which member is read (the primary name first, then aliases in order), defaults apply when the member is missing or null, allow-missing leaves the field's existing value unchanged when the member is missing, skip attributes leave the field out of writing or reading exactly under their condition, flatten places the inner struct's members in the enclosing object, and extra fields collect exactly the members no field claims. "
     "What is written with attributes reads back to the same value.",
     ["inputs"], "every value and every fitting or nearly fitting document for structs using every attribute and combinations",
     "tests use each attribute alone; their interactions with nulls, aliases and each other are combinatorial",
     ["include/kl/serialization_attributes.hpp", "include/kl/detail/serialization.hpp", "include/kl/json.hpp"],
     [("attribute handling", "include/kl/serialization_attributes.hpp"), ("field visiting for reflected structs", "include/kl/detail/serialization.hpp")],
     "every attribute in about ten structs, collections of up to 2 elements, documents wrong in at most one place")
prop("C20", "JSON text parses to exactly what it says or is refused with parse_error",
     "Parsing any byte sequence as JSON either yields the document the text denotes under RFC 8259 or throws the parse error with a message; it reads only the given bytes and never throws anything else or crashes. "
     "The text written by dumping or pretty-dumping a value parses back to the document that serializing the value builds, and so to the same value.",
     ["inputs"], "every text, every value dumped or pretty-dumped",
     "tests parse a handful of literals; truncations, escapes and number forms at the end of a buffer are unbounded",
     ["include/kl/json.hpp", "src/json.cpp"], [("parse overloads, parse_error", "include/kl/json.hpp"), ("dump, pretty_dump", "include/kl/json.hpp")],
     "all texts up to the stated length and all fillings of the stated frames, against an independent RFC 8259 reader; embedded NULs, byte-order marks, lone surrogates and numbers beyond double are left to the JSON library, and a fractional number is checked to be read as a double but not for its rounding")
prop("C21", "A signal calls exactly its connected slots, in connection order",
     "After any history of connecting (at either end), disconnecting, blocking, unblocking, moving and swapping signals, emitting calls every connected, unblocked slot exactly once, in order, with the emitted arguments, and no other slot. "
     "The reported slot count, emptiness and each connection's connected/blocked state always agree with that history, and destroying a signal disconnects and releases all its slots.",
     ["histories", "inputs"], "every history of operations on signals and connections, every argument value, every kind of slot",
     "tests run short fixed scripts; list surgery at the head, tail and middle combined with moves and swaps is history-dependent",
     ["include/kl/signal.hpp"],
     [("signal connect/disconnect/emit/move/swap", "include/kl/signal.hpp"), ("connection, shared connection_block state", "include/kl/signal.hpp")],
     "all operation sequences up to the stated length over two signals, against an independent list model; memory safety and leak freedom are asserted")
prop("C22", "Emission tolerates slots that change the signal, throw or recurse",
     "While a signal is emitting, its slots may disconnect any slot, connect new ones, stop the emission, block slots, emit again or throw. A slot disconnected or blocked before its turn is not called, a slot connected during the emission is not called by it, and remaining slots are called once in order. "
     "A slot's exception reaches the caller of emit, and whatever happened the signal works normally afterwards: later emissions call exactly the connected slots, slots disconnected meanwhile have been released, and nothing is leaked or used after being freed.",
     ["histories", "fault_sequences"], "every sequence of re-entrant actions taken from inside slots, every point at which a slot throws",
     "tests exercise single re-entrant actions; combinations (throw after disconnect inside a nested emission) are combinatorial",
     ["include/kl/signal.hpp"],
     [("signal::operator(), deferred cleanup, active_emissions_", "include/kl/signal.hpp"), ("this_signal::stop_emission and friends", "include/kl/signal.hpp")],
     "all action sequences up to the stated number of slots and actions, nesting depth 3, against an independent model")
prop("C23", "Connection handles own what they say and outlive the signal safely",
     "Connections, scoped connections and connection blockers can be copied, moved, swapped, released and destroyed in any order, before or after the signal they refer to. A scoped connection disconnects its slot exactly when it is destroyed or reassigned while still owning it; a blocker blocks exactly while it exists. "
     "A slot is released as soon as it is disconnected and not running, destroying a slot may itself disconnect other slots without deadlock, and nothing is leaked or used after being freed.",
     ["histories"], "every history of handle operations and of signal destruction",
     "tests check each handle operation alone; ownership mistakes need moved-from and self-referential states in sequence",
     ["include/kl/signal.hpp"],
     [("connection / scoped_connection / connection_blocker", "include/kl/signal.hpp"), ("reference-counted slot storage", "include/kl/signal.hpp")],
     "all operation sequences up to the stated length; heap accounting, memory safety and lock state are asserted")
prop("C24", "Signals may be emitted, connected and disconnected from many threads",
     "Threads may emit, connect, disconnect, block and query one signal at the same time without data races, deadlocks, leaks or use of freed memory. Every emission calls, once and in connection order, each slot connected before it began and not disconnected, blocked or cut off by a stop meanwhile; it never calls a slot whose disconnection or blocking completed before that slot's turn, or one connected after it started calling. "
     "A slot is destroyed exactly once, never while it runs, and afterwards the signal holds exactly the slots the history implies.",
     ["schedules", "histories"], "every interleaving of any operations by any threads",
     "tests run a few thousand random schedules of one scenario; the bad window is a few instructions wide",
     ["include/kl/signal.hpp"],
     [("signal mutex, active emission count, reference-counted slots", "include/kl/signal.hpp"), ("slot_state atomics", "include/kl/signal.hpp")],
     "two or three threads, one or two operations each, all interleavings at synchronisation operations with the stated number of preemptions; sequentially consistent executions plus happens-before race detection, which covers weaker orderings of race-free code; destroying or moving the signal concurrently is outside its contract")
prop("C25", "A refused document's error says where it failed, inside out",
     "When deserializing, patching or extracting is refused, the error's text begins with the reason and then names each step outwards from the failing place, one line per step and innermost first: the index of a list or array-form element, the declared name of a struct field (also when the member is renamed, aliased, missing or fails validation), the key of a map member or of an extra member, and the index or name given to an extractor. "
     "No step is missing, repeated or wrong, and the place is the first unsuitable one in declaration or document order.",
     ["inputs"], "every document that does not fit its type, at every depth and for every supported type",
     "tests compare a few complete messages; index and name bookkeeping differs per container, per form and per verb",
     ["include/kl/detail/serialization.hpp", "include/kl/json.hpp", "src/serialization_error.cpp"],
     [("deserialize_adl / patch_adl error handlers", "include/kl/detail/serialization.hpp"), ("object_extractor, array_extractor", "include/kl/json.hpp"), ("deserialize_error::add", "src/serialization_error.cpp")],
     "35 type shapes, documents wrong in one place or with any out-of-range numbers; the reason's wording and lines naming a type are not compared, and positions inside tuples and flag sets are not reported by the library")
prop("C26", "enum_set is exactly the bit-set algebra of its underlying values",
     "Union, intersection, symmetric difference, complement, membership tests, equality, ordering and their assigning forms on enum sets give exactly the bitwise result on the underlying values, in every combination of set and single flag operands. "
     "A set converts to true exactly when it is not empty.",
     ["inputs"], "every enum width and signedness, every pair of values",
     "tests use a few small flags; narrow and 64-bit or negative underlying values follow different promotion rules",
     ["include/kl/enum_set.hpp"], [("enum_set operators", "include/kl/enum_set.hpp")],
     "all values of six underlying types; no bound on values")
prop("C27", "Reflected enums and their names are inverse mappings",
     "For a reflected enum, to_string gives the declared (or renamed) name for exactly the listed enumerators and the unknown marker or given default for any other value; from_string accepts exactly those names, whole and case-sensitive, and returns their enumerator. "
     "values() and count() list the enumerators once each in declaration order.",
     ["inputs"], "every underlying value and every text, for dense, sparse, shuffled, negative and renamed enums",
     "tests convert a few names; values outside the list and near-miss texts are unbounded",
     ["include/kl/reflect_enum.hpp", "include/kl/enum_reflector.hpp"], [("enum_reflector", "include/kl/enum_reflector.hpp")],
     "every underlying value, every text up to the stated length, for twelve enums")
prop("C28", "Enum operators and ranges follow the underlying integer exactly",
     "Opt-in enum operators (bit, shift, increment, unary plus, masks) compute exactly what the underlying integer would, and an enum range iterates its enumerators once each in order, with random-access arithmetic (differences, comparisons, offsets) that agrees with position. "
     "in_range() holds exactly for the values of the declared half-open or closed range.",
     ["inputs"], "every underlying value and every pair of positions, for signed and unsigned enums of every width",
     "tests iterate a couple of small enums forward; extremes and iterator arithmetic are not sampled",
     ["include/kl/enum_traits.hpp", "include/kl/enum_range.hpp"],
     [("enum_trait_support_*", "include/kl/enum_traits.hpp"), ("enum_range, enum_iterator", "include/kl/enum_range.hpp")],
     "all underlying values, all position pairs, seven enums")
prop("C29", "Iterators built on iterator_facade obey the random-access laws",
     "Given the primitive operations, a facade iterator's derived operations - pre/post increment and decrement, += and -=, + and - in both orders, difference, indexing, arrow and all six comparisons - satisfy the random-access iterator laws.",
     ["inputs"], "every pair of positions and every offset",
     "tests walk small containers; sign and argument order errors in the derived operators show only for particular pairs",
     ["include/kl/iterator_facade.hpp"], [("iterator_facade operators", "include/kl/iterator_facade.hpp")],
     "all positions and offsets below 2^40 in magnitude, value and reference iterators")
prop("C30", "Hashes equal the published FNV-1a and SuperFastHash for all bytes",
     "The FNV-1a and Hsieh (SuperFastHash) functions return the published algorithm's value for any byte sequence, in every calling form (pointer and length, array, string, literal), independent of the platform's char signedness and reading only the given bytes.",
     ["inputs"], "every byte sequence",
     "tests hash short ASCII constants; bytes >= 0x80 and each tail length behave differently",
     ["include/kl/hash.hpp"], [("fnv1a, hsieh", "include/kl/hash.hpp")],
     "all byte sequences up to the stated length, against independent implementations")
prop("C31", "Splitting loses nothing and cuts exactly at delimiters",
     "Splitting any text by any set of delimiter characters yields, in order, exactly the pieces between delimiters (a trailing empty piece excepted), with empty pieces dropped exactly when asked; nothing outside the text is read and joining the pieces accounts for every character.",
     ["inputs"], "every text and every delimiter set",
     "tests split a few sentences; adjacent, leading and trailing delimiters combine",
     ["include/kl/split.hpp"], [("split, for_each_token", "include/kl/split.hpp")],
     "all texts and delimiter sets up to the stated sizes")
prop("C32", "zip, enumerate and iota pair up elements exactly, to the shortest",
     "Zipping sequences yields tuples of references to their elements position by position and stops at the shortest; enumerating pairs every element with its index; an iota range yields exactly the half-open interval. No iterator goes past an end and writes reach the underlying elements.",
     ["inputs"], "sequences of every length combination and every content",
     "tests zip two or three fixed sequences; length mismatches in each position matter",
     ["include/kl/zip.hpp", "include/kl/iterator_facade.hpp"], [("zipped, enumerated, iota_range", "include/kl/zip.hpp")],
     "all length combinations and contents up to the stated size")
prop("C33", "Joining prints each element once with delimiters only between",
     "Streaming a joined sequence writes every element once and in order, the delimiter exactly between neighbours, and the chosen empty text only for an empty sequence; a joiner can be streamed again with the same result.",
     ["inputs"], "every sequence, delimiter and empty text",
     "tests join a few constants; empty and single-element sequences combine with option order",
     ["include/kl/stream_join.hpp"], [("stream_joiner, outstream_joiner", "include/kl/stream_join.hpp")],
     "all sequences up to the stated length, delimiters and empty texts of 0..2 characters")
prop("C34", "A file view shows exactly the file, or throws, and never leaks",
     "Opening a file view either yields a view of exactly the file's bytes, valid for the view's life, or throws a system_error with the system's error code, whichever system call failed. Every descriptor and mapping obtained is released exactly once and nothing is released that was not obtained.",
     ["fault_sequences", "inputs"], "every file content including the empty file, every failure of open, fstat, mmap and close",
     "tests map one existing file; system-call failures cannot be provoked on demand",
     ["include/kl/file_view.hpp", "src/file_view_unix.cpp"], [("file_view constructor/destructor", "src/file_view_unix.cpp")],
     "the system calls are stand-ins with symbolic outcomes; all outcomes and contents up to the stated size")
prop("C35", "Exception information travels with the exception, newest value wins",
     "Values attached to an exception_info by tag are returned as last set for that tag, unset reveals the previous one, and copies are independent of each other. An exception thrown with information is still caught by its own type and bases with its content, and the handler finds the information and source location; an exception thrown without has none.",
     ["histories", "inputs"], "every sequence of set, unset, copy and move, every value",
     "tests set each tag once; shadowing, removal and sharing between copies need sequences",
     ["include/kl/exception_info.hpp"], [("exception_info node list", "include/kl/exception_info.hpp"), ("throw_with_info, get_exception_info", "include/kl/exception_info.hpp")],
     "all operation sequences up to the stated length on two objects")
prop("C36", "Deferred actions run once, in reverse order, however the scope ends",
     "Actions registered with KL_DEFER run exactly once each when their scope is left - by falling through, return, break, continue or an exception - last registered first, after the return value was computed, and only if their registration was reached.",
     ["histories", "fault_sequences"], "every way of leaving nested scopes",
     "tests cover plain fall-through and one early return",
     ["include/kl/defer.hpp"], [("defer guard", "include/kl/defer.hpp")],
     "seven exits from nested scopes with any captured value")
prop("C37", "match runs exactly the handler of the held alternative",
     "Matching a variant calls exactly one handler, the best overload for the held alternative, with a reference to the held value, and returns that handler's result; handlers may modify the held value in place.",
     ["inputs"], "every alternative with every value, exact and generic handlers",
     "tests match one or two variants",
     ["include/kl/match.hpp"], [("match, overload set", "include/kl/match.hpp")],
     "four alternatives, every value")
prop("C38", "Struct reflection visits each declared field once, on the object itself",
     "Reflecting a struct calls the visitor once per declared field, bases first and in declaration order, with the declared name and attributes and a reference to that very member (const for a const object); field counts agree, and undeclared members are never touched. "
     "Field attributes can be queried, fetched, visited and filtered by type and give exactly the attributes declared.",
     ["inputs"], "every value of structs with macro, intrusive, inherited, nested and attributed reflection",
     "tests print a few structs; writes through the visitor, several bases and attribute mixes are not combined",
     ["include/kl/reflect_struct.hpp", "include/kl/ctti.hpp"], [("KL_REFLECT_STRUCT macros", "include/kl/reflect_struct.hpp"), ("ctti::reflect, reflect_type, num_fields, attributes", "include/kl/ctti.hpp")],
     "twelve struct shapes, every field value; memory outside the declared fields is compared")
prop("C39", "User-defined JSON conversions are used wherever their type appears",
     "A type's own conversion - a serializer specialisation first, then its from_json/to_json functions, then reflection - is used at every place the type appears: at top level, in struct fields, optionals, containers, tuples, variants, when streaming, patching, and through the object/array builders and extractors; the user's null and emptiness traits decide omission. "
     "Builders and extractors produce and accept exactly the members asked for, and failures surface as the deserialization error.",
     ["inputs"], "every value of types with each kind of user conversion in each place",
     "tests define one custom type and use it once or twice; each place goes through its own overload",
     ["include/kl/json.hpp", "include/kl/detail/serialization.hpp"], [("serializer customization, ADL dispatch", "include/kl/detail/serialization.hpp"), ("to_object/to_array/from_object/from_array helpers, at", "include/kl/json.hpp")],
     "a type per kind of customization in every place; collections of up to 2 elements, every scalar value")
prop("C40", "YAML serialization and dumping write the value, and reading gives it back",
     "Serializing a value of any supported type to a YAML node and dumping it through an emitter write the same document - fields, names, order, attributes and null policy by the same rules as JSON, bytes as numbers - leave the value alone, and reading that document back, into a fresh or used object, yields the value.",
     ["inputs"], "every supported type and value, both null policies",
     "tests use a few fixed values; types, attributes, null policies and target states combine",
     ["include/kl/yaml.hpp", "include/kl/detail/serialization.hpp"], [("yaml_stream_backend, yaml_tree_backend, serialize_adl/dump_adl", "include/kl/yaml.hpp"), ("dump_adl/serialize_adl", "include/kl/detail/serialization.hpp")],
     "all types of four groups; collections of up to 2 elements, texts of up to 2 arbitrary bytes, every number except NaN")
prop("C41", "A range denotes exactly the elements it was made from",
     "A kl::range made from a container, an array or two iterators visits exactly the elements between the two ends, in order, refers to the elements themselves (writes reach them), and its size is their number; copies denote the same elements and a default range is empty.",
     ["inputs"], "sources of every length and content, every sub-range",
     "tests build a few fixed ranges; iterator categories, const-ness and empty sub-ranges combine",
     ["include/kl/range.hpp"], [("range", "include/kl/range.hpp")],
     "all contents and all sub-ranges of sources up to the stated size")
prop("C42", "YAML documents are read and patched by the same rules as JSON",
     "Deserializing or patching from a YAML node sets exactly what the document says, by the same field, alias, default, validation and container rules as JSON (with every scalar also being a text), and refuses an unsuitable document - wrong kind, number out of range, missing field, surplus element - with a deserialize error and nothing else; the document is left alone.",
     ["inputs"], "every node tree suitable for the type except in a few places, every supported type, fresh and used targets",
     "tests use a few fixed documents; the defect can sit anywhere and each backend hook is its own code",
     ["include/kl/yaml.hpp", "src/yaml.cpp", "include/kl/detail/serialization.hpp"], [("deserialize_adl, patch_adl, yaml_tree_backend", "include/kl/yaml.hpp"), ("expect_scalar/expect_sequence/expect_map", "src/yaml.cpp")],
     "documents wrong in at most one place, collections of up to 2 elements (1 with extra fields), every number except NaN")
prop("C43", "YAML views, extractors and builders are faithful and alter no document",
     "A yaml::view shows the part of the document it was last read from or assigned, and reading, re-reading, patching or copying views changes no document; access to a missing member or element yields null; extractors yield the members asked for or say where they failed; builders produce exactly what was added; every calling form and user-provided conversion behaves the same; a text that is no document is refused with a parse error that says why.",
     ["inputs", "histories"], "every pair of documents, member kinds and numbers, every calling form",
     "tests look at one document at a time; sharing between views and documents only shows when several are used in sequence",
     ["include/kl/yaml.hpp"], [("view, at, map_extractor, sequence_extractor, map_builder, sequence_builder, parse", "include/kl/yaml.hpp")],
     "documents of five kinds of members, 0..3 members, two operations in sequence, any integers")
prop("C44", "An exception's diagnostic text tells all that is known about it",
     "The diagnostic text of an exception names the exception's own type (the type given to throw_with_info, not the wrapper's), its what() text when it has one, and, when it carries information, the file, line and function or that they are unknown, followed by every attached entry still set, newest first, each with its tag and value: streamed when it can be, otherwise byte by byte in hexadecimal. The text is the same whether the exception is described by reference or through an exception_ptr, producing it changes nothing, and unknown and absent exceptions are described as such.",
     ["inputs", "histories"], "every sequence of set and unset, every value, every kind of exception",
     "tests count the lines of a few texts",
     ["include/kl/exception_info.hpp"], [("exception_info::diagnostic_info, exception_diagnostic_info", "include/kl/exception_info.hpp")],
     "all set/unset sequences up to the stated length over four kinds of entries; std::ostringstream is replaced by a stand-in in the symbolic run (the native replay uses the real one), and type names are not demangled there")
