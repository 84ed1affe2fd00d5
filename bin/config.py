PROPS = {}
def P(pid, harnesses, **kw):
    PROPS[pid] = dict(harnesses=harnesses, **kw)
def H(name, src, repo=(), quick=None, thorough=None, **kw):
    return dict(name=name, src=src, repo=list(repo), quick=quick or {}, thorough=thorough or quick or {}, **kw)

P("C01", [H("base64", "base64.cpp", ["base64"], {"B_LEN": 24}, {"B_LEN": 40}, bounds="every byte sequence of length 0..B_LEN, both variants"),
          H("base64_long", "base64.cpp", ["base64"], {"B_LEN": 1, "B_LONG": 1}, bounds="twelve lengths from 191 to 65537, the last four bytes any")])
P("C02", [H("base64_dec", "base64_dec.cpp", ["base64"], {"B_LEN": 13}, {"B_LEN": 16}, covers=["accepted", "rejected"], bounds="every text of length 0..B_LEN over all 256 byte values, both variants"),
          H("base64_dec_long", "base64_dec.cpp", ["base64"], {"B_LEN": 1, "B_LONG": 1}, covers=["accepted", "rejected"], bounds="ten lengths from 255 to 65540, any byte in the middle and any four at the end")])
P("C03", [H("bin_reader", "bin_reader.cpp", [], {"B_LEN": 9, "B_OPS": 2}, {"B_LEN": 12, "B_OPS": 3}, covers=["skip", "span", "err", "ok"],
            bounds="every buffer of 0..B_LEN bytes, every sequence of B_OPS operations (skip by any 64-bit offset, peek/read of 1/2/4/8-byte values in every form, span of any 64-bit count, read_span of 0..3 two-byte and B_LEN-3..B_LEN+1 one-byte elements, notify_error)")])
P("C04", [H("bin_writer", "bin_writer.cpp", [], {"B_LEN": 9, "B_OPS": 3}, {"B_LEN": 12, "B_OPS": 4}, covers=["err", "ok"],
            bounds="every buffer of 0..B_LEN bytes, every sequence of B_OPS operations (skip by any 64-bit offset, 1/2/4/8-byte values raw and by operator<<, spans of 0..3 two-byte and B_LEN-3..B_LEN+1 one-byte elements, notify_error)")])
P("C05", [H("bin_round", "bin_round.cpp", [], {"B_SZ": 2}, {"B_SZ": 3}, covers=["round", "write_truncated", "read_truncated"],
            bounds="25 value shapes (integers, enums, big-endian, string, vector, map, set, optional, pair, variant and nestings), containers of 0..B_SZ elements, every element value, every truncation point, read into fresh and used targets"),
          H("bin_big", "bin_big.cpp", [], covers=["round"], bounds="containers of 254..257 and 65534..65537 elements, one of them any value")])
P("C06", [H("bin_hostile", "bin_hostile.cpp", [], {"B_LEN": 14, "B_SZ": 1}, {"B_LEN": 18, "B_SZ": 1}, covers=["accepted", "rejected"],
            bounds="25 value shapes, fresh and used targets, every input of 0..B_LEN bytes, single allocation limit 64*(B_LEN+8) bytes")])
P("C07", [H("path_parse", "path.cpp", ["path"], {"B_LEN": 7}, {"B_LEN": 9}, covers=["accepted", "rejected"],
            bounds="every path text of 0..B_LEN bytes over all 256 byte values"),
          H("path_parse_long", "path.cpp", ["path"], {"B_LONG": 16}, {"B_LONG": 33}, covers=["accepted"],
            bounds="B_LONG-1..B_LONG+1 one-character segments (two of them any byte, the others any lower-case letter), up to 3 trailing '..'")])
P("C08", [H("path_access", "path.cpp", ["path"], {"B_LEN": 6, "B_ACCESS": 1}, {"B_LEN": 8, "B_ACCESS": 1}, covers=["accepted"],
            bounds="every path text of 0..B_LEN bytes, every sequence of drop_front/drop_back"),
          H("path_access_long", "path.cpp", ["path"], {"B_LONG": 16, "B_ACCESS": 1}, {"B_LONG": 17, "B_ACCESS": 1}, covers=["accepted"],
            bounds="B_LONG-1..B_LONG+1 one-character segments, up to 3 drops")])
P("C14", [H("json_int", "json_int.cpp", ["json", "serialization_error"], covers=["kept", "refused", "end"],
            bounds="all eight integer widths and an unreflected enum; every 32/64-bit signed/unsigned JSON integer, every double bit pattern, every other JSON kind; no bound on values")])
MT = "every interleaving, at synchronisation operations, of B_THREADS threads each doing B_OPS operations (emit, connect at either end, disconnect, disconnect all, block, count, query) on a signal starting with 0..B_SLOTS slots, at most B_PRE preemptions; any emitted value"
P("C24", [H("signal_mt", "signal_mt.cpp", [], {"B_OPS": 1, "B_SLOTS": 2, "B_ACTS": 3, "B_PRE": 2}, {"B_OPS": 1, "B_SLOTS": 3, "B_ACTS": 3, "B_PRE": 3}, covers=["end", "emitted"], threads=True,
            bounds=MT + "; a slot may stop the emission or disconnect itself"),
          H("signal_mt_ops", "signal_mt.cpp", [], {"B_OPS": 2, "B_SLOTS": 2, "B_ACTS": 1, "B_PRE": 1}, {"B_OPS": 2, "B_SLOTS": 2, "B_ACTS": 1, "B_PRE": 2}, covers=["end", "emitted"], threads=True, bounds=MT),
          H("signal_mt_three", "signal_mt.cpp", [], {"B_OPS": 1, "B_SLOTS": 2, "B_ACTS": 1, "B_PRE": 1, "B_THREADS": 3}, {"B_OPS": 1, "B_SLOTS": 2, "B_ACTS": 1, "B_PRE": 2, "B_THREADS": 3}, covers=["end", "emitted"], threads=True, bounds=MT)])
P("C26", [H("enum_set", "enum_set.cpp", bounds="six underlying types, every pair/triple of values; no bound on values")])
P("C27", [H("enum_refl", "enum_refl.cpp", [], {"B_LEN": 5}, {"B_LEN": 8}, covers=["listed", "unlisted", "parsed"],
            bounds="12 reflected enums (dense, sparse, shuffled, aliased, negative, renamed, 8..64-bit), every underlying value, every text of 0..B_LEN bytes")])
P("C28", [H("enum_traits", "enum_traits.cpp", bounds="seven enums (8..64 bit, signed/unsigned, half-open and closed ranges) and two with 1000 and 140001 enumerators, every underlying value, every pair of positions")])
P("C29", [H("facade", "facade.cpp", bounds="value and reference iterators, every pair of positions and offset below 2^40 in magnitude")])
P("C30", [H("hash", "hash.cpp", [], {"B_LEN": 9}, {"B_LEN": 24}, bounds="every byte sequence of 0..B_LEN bytes"),
          H("hash_long", "hash.cpp", [], {"B_LONG": 1, "B_LEN": 1}, bounds="255..259 and 65535..65537 bytes, the last three of them any")])
P("C31", [H("split", "split.cpp", [], {"B_LEN": 5, "B_DELIMS": 2}, {"B_LEN": 6, "B_DELIMS": 3}, covers=["many", "end"], bounds="every text of 0..B_LEN bytes, every set of 0..B_DELIMS delimiters")])
P("C32", [H("zip", "zip.cpp", [], {"B_LEN": 4}, {"B_LEN": 7}, bounds="sequences of 0..B_LEN elements of any value, lengths independent")])
P("C41", [H("range", "range.cpp", [], {"B_LEN": 4}, {"B_LEN": 8}, covers=["many", "end"], bounds="sources of 0..B_LEN elements of any value (vector, list, deque, array, pointers), every sub-range")])
P("C33", [H("stream_join", "stream_join.cpp", [], {"B_LEN": 3}, {"B_LEN": 6}, bounds="sequences of 0..B_LEN elements of any value, delimiters and empty texts of 0..2 characters")])
P("C34", [H("file_view", "file_view.cpp", [], {"B_LEN": 4}, {"B_LEN": 16}, covers=["mapped", "empty", "failed"],
            bounds="files of 0..B_LEN bytes of any content; each of open/fstat/mmap/close succeeds or fails with any errno 1..133; descriptor numbers 0..4"),
          H("file_view_big", "file_view.cpp", [], {"B_LEN": 1, "B_BIG": 1}, covers=["mapped", "failed"], bounds="files of any size from 1 byte to 2^47-1, the same failures")],
  assumptions=["open, fstat, mmap, munmap and close are replaced by stand-ins with symbolic outcomes; the kernel's own behaviour is outside the claim"])
P("C35", [H("xinfo", "xinfo.cpp", [], {"B_OPS": 4}, {"B_OPS": 5}, bounds="every sequence of B_OPS set/unset/copy/move operations on two objects with three tags and any values; then thrown and caught four ways")])
P("C44", [H("diag", "diag.cpp", [], {"B_OPS": 3}, {"B_OPS": 4}, covers=["info", "base", "xi", "other", "end"], bounds="every sequence of B_OPS set/unset operations with four kinds of entries of any value, the location known or not and any line; and, after B_OPS-2 operations, eleven kinds of exceptions with what() texts of 0..2 arbitrary bytes, described by reference and by exception_ptr")])
PROPS["C35"]["harnesses"].append(H("xinfo_copy", "xinfo.cpp", [], {"B_COPY": 1, "B_OPS": 1}, bounds="removing the older of two entries of any values from one of two objects sharing them"))
P("C36", [H("defer", "defer.cpp", bounds="seven ways of leaving nested scopes (return, throw, break, continue, fall through), any captured value")])
P("C37", [H("match", "defer.cpp", [], {"B_MATCH": 1}, bounds="four alternatives with any value, exact, generic and free-function handlers")])
P("C21", [H("signal_hist", "signal_hist.cpp", [], {"B_OPS": 5, "B_KINDS": 2}, {"B_OPS": 6, "B_KINDS": 2}, covers=["end", "emitted", "moved"],
            bounds="every sequence of B_OPS operations (connect at either end, disconnect, disconnect all, block, unblock, emit, move/swap signals, null slots) on two signals, any argument; then both are emitted and destroyed"),
          H("signal_kinds", "signal_hist.cpp", [], {"B_OPS": 3, "B_KINDS": 11}, {"B_OPS": 4, "B_KINDS": 11}, covers=["end", "emitted"],
            bounds="the same with all eleven ways of connecting a slot, B_OPS operations"),
          H("signal_chain", "signal_hist.cpp", [], {"B_CHAIN": 1, "B_OPS": 1, "B_KINDS": 1}, covers=["end"], bounds="signals connected to signals, by-value and by-reference parameters, any argument")])
P("C22", [H("signal_emit", "signal_emit.cpp", [], {"B_SLOTS": 3, "B_ACTS": 3}, {"B_SLOTS": 4, "B_ACTS": 4}, covers=["end", "threw", "stopped", "blocked", "nested"],
            bounds="0..B_SLOTS slots connected at either end, up to B_ACTS actions taken from inside slots (disconnect any, disconnect all, connect at either end, stop, block any, throw, emit recursively up to depth 3), any arguments; then a second emission")])
P("C23", [H("signal_life", "signal_life.cpp", [], {"B_OPS": 4}, {"B_OPS": 5}, covers=["end", "died"],
            bounds="every sequence of B_OPS operations on two connections, two scoped connections, two blockers and one signal (connect, copy, move, swap, disconnect, release, destroy)"),
          H("signal_nested", "signal_life.cpp", [], {"B_NESTED": 1, "B_OPS": 1}, covers=["end"], bounds="a slot owning a scoped connection to another slot of the same signal, five ways of removing it")])
P("C09", [H("tracker", "tracker.cpp", ["path"], {"B_DEPTH": 2, "B_OPS": 2}, {"B_DEPTH": 3, "B_OPS": 3}, covers=["changed", "untouched"],
            bounds="every sequence of B_OPS changes and every query over paths of 0..B_DEPTH segments from {a, ab, b}, with and without subtree replacement"),
          H("tracker_bytes", "tracker.cpp", ["path"], {"B_DEPTH": 2, "B_OPS": 2, "B_BYTES": 1}, {"B_DEPTH": 2, "B_OPS": 3, "B_BYTES": 1}, covers=["changed", "untouched"],
            bounds="the same with segments of one arbitrary byte")])
def RES(cls, root, extra_q=None, extra_t=None, covers=("ok", "refused")):
    q = {"B_ROOT": root, "B_CLASS": cls}; q.update(extra_q or {})
    t = dict(q); t.update(extra_t or {})
    what = {1: "scalars and nested structs with read-only and subtree-read-only fields", 2: "lists, lists of structs and maps, free and read-only", 3: "collections addressed by a key field", 4: "optionals, optional lists and lists of optionals", 5: "nested keyed collections, keys that are not the first field, fixed arrays and maps of lists", 6: "collections and optionals under validators of their own, of the enclosing struct and of the whole"}[root]
    return H("resource%d" % root, "resource_op.cpp", ["path", "json", "serialization_error"], q, t, covers=list(covers),
             bounds="a resource of %s in any valid state (collections of 0..B_MAX (2) elements, any integers, keys from {a,b,c}), each of PUT/POST/PATCH/DELETE on each of its listed paths, %s" % (what, "bodies with at most one defect of any kind" if cls == 10 else "well-formed bodies with any integers"))
P("C10", [RES(10, r) for r in (6, 1, 2, 3, 4, 5)])
P("C11", [RES(11, r) for r in (1, 2, 3, 4, 5, 6)])
P("C12", [RES(12, 1, {"B_MAX": 2}), RES(12, 3, {"B_MAX": 3}), RES(12, 4, {"B_MAX": 2}), RES(12, 5, {"B_MAX": 2})])
P("C13", [H("resource_path", "resource_path.cpp", ["path", "json", "serialization_error"], {"B_SEGS": 3}, {"B_SEGS": 4}, covers=["found", "missing", "at_path"],
            bounds="a resource with every kind of node (fields, renamed and prefix-related names, lists, nested lists, maps, fixed arrays, optional, two keyed collections, text); paths of 0..B_SEGS segments of 1..2 arbitrary bytes"),
          H("resource_path_tail", "resource_path.cpp", ["path", "json", "serialization_error"], {"B_SEGS": 2, "B_TAIL": 1}, {"B_SEGS": 3, "B_TAIL": 1}, covers=["found", "missing", "at_path"],
            bounds="the same with 0..B_SEGS arbitrary segments followed by each of 21 listed tails (deeper paths, long names, malformed and overflowing indexes)")])
JG = {1: "scalars", 2: "containers", 3: "structs", 4: "field attributes", 5: "flattened structs and extra fields", 6: "a flattened struct with extra fields", 7: "structs with attributes inside containers, validators on structs and maps"}
def JT(mode, group, q=None, t=None, covers=None):
    dumping = q and "B_DUMP" in q
    d = {"B_MODE": mode, "B_TYPES": group, "B_WRONG": 1}; d.update(q or {})
    dt = dict(d); dt.update({"B_RICH": 1}); dt.update(t or {})
    what = {1: "serialized to a tree and dumped through a recording writer, with and without skipping nulls, and read back into fresh and used targets", 2: "documents suitable for the type except for at most B_WRONG places (fields missing, null, repeated and under each alias; with a defect elsewhere too when B_RICH), into fresh and used targets", 3: "the same documents applied as patches to any value"}[mode]
    return H(("dump%d" % group) if dumping else "json%d_%d" % (mode, group), "json_tree.cpp", ["json", "serialization_error"], d, dt, covers=covers if covers is not None else {1: ["round"], 2: ["accepted", "refused"], 3: ["accepted", "refused"]}[mode],
             bounds="%s: %s; collections of 0..B_MAX (2) elements, texts of 0..2 arbitrary bytes, any numbers" % (JG[group], what))
def OE(y):
    return H("yaml_empty" if y else "json_empty", "opt_empty.cpp", ["yaml" if y else "json", "serialization_error"], {"B_YAML": 1} if y else {}, covers=["end"],
             bounds="a struct of six optionals, each missing, null, present but empty, false or zero, or holding any number or text of 0..2 bytes; read into fresh and used targets, patched, and written and read back")
P("C15", [JT(1, g) for g in (1, 2, 3, 4, 7)] + [JT(1, 5, covers=["round", "collision"]), OE(0)])
P("C16", [JT(1, g, {"B_DUMP": 1}, covers=["dumped"]) for g in (1, 2, 3, 4, 5)])
P("C17", [JT(2, g) for g in (1, 2, 3, 7)] + [OE(0)])
P("C18", [JT(3, g) for g in (1, 2, 3, 4, 5, 7)] + [OE(0)])
P("C19", [JT(1, 4), JT(1, 5, covers=["round", "collision"]), JT(2, 4), JT(2, 5), JT(2, 7), JT(1, 6, covers=[])])
P("C25", [JT(2, g, {"B_TRAIL": 1}) for g in (2, 3, 4, 5)] + [JT(3, g, {"B_TRAIL": 1}) for g in (3, 4, 5)] + [
    H("json_extract", "json_extract.cpp", ["json", "serialization_error"], covers=["accepted", "refused"], bounds="arrays and objects of 0..3 members of five kinds with any numbers; two extractions in sequence or by index/name, of three target types")])
P("C20", [H("json_parse", "json_text.cpp", ["json", "serialization_error"], {"B_MODE": 1, "B_LEN": 5}, {"B_MODE": 1, "B_LEN": 7}, covers=["accepted", "refused"],
            bounds="every text of 0..B_LEN bytes over all 256 byte values, in a buffer of exactly that size; number values of fractions and exponents are not compared"),
          H("json_frames", "json_text.cpp", ["json", "serialization_error"], {"B_MODE": 3}, covers=["accepted", "refused"],
            bounds="14 longer texts (unicode escapes and surrogate pairs, nested arrays and objects, literals, numbers at the 32/64-bit limits) with every value of 1..5 of their bytes"),
          H("json_round", "json_text.cpp", ["json", "serialization_error"], {"B_MODE": 2, "B_TEXT": 2}, {"B_MODE": 2, "B_TEXT": 4}, covers=["round"],
            bounds="13 value shapes (texts of 0..B_TEXT arbitrary bytes, every 8/16-bit integer, listed 64-bit integers and doubles, containers, structs), dumped plainly and prettily")])
P("C38", [H("reflect", "reflect.cpp", [], covers=["object"], bounds="eight structs (plain, derived, multiply derived, private with friend declarations, references and computed accessors, 1..12 fields) with any content, written through any one field with any byte; attributes with and without filters")])
P("C39", [H("json_custom", "json_custom.cpp", ["json", "serialization_error"], covers=["custom", "struct", "built", "other"],
            bounds="three user-converted types (serializer, overloads found by argument lookup, both) holding any integer, in eight positions, both backends, both null policies, seven calling forms; builders and extractors with any integers and characters; ten further value kinds")])

def YT(mode, group, q=None, covers=None):
    d = {"B_YAML": 1, "B_MODE": mode, "B_TYPES": group, "B_WRONG": 1}; d.update(q or {})
    dt = dict(d); dt.update({"B_RICH": 1})
    what = {1: "serialized to a tree and dumped through a recording emitter, with and without skipping nulls, and read back into fresh and used targets", 2: "documents suitable for the type except for at most B_WRONG places, into fresh and used targets", 3: "the same documents applied as patches to any value"}[mode]
    return H("yaml%d_%d" % (mode, group), "yaml_tree.cpp", ["yaml", "serialization_error"], d, dt, covers=covers if covers is not None else {1: ["round"], 2: ["accepted", "refused"], 3: ["accepted", "refused"]}[mode],
             bounds="%s: %s; collections of 0..B_MAX (2) elements, texts of 0..2 arbitrary bytes, any numbers except NaN" % (JG[group], what))
YS = ["yaml-cpp itself is replaced by a stand-in (shim/yaml-cpp) with its documented behaviour, in which numbers are values rather than texts"]
P("C40", [YT(1, g) for g in (1, 2, 3, 4)] + [YT(1, 5, covers=["round", "collision"]), OE(1)], assumptions=YS)
P("C42", [YT(2, g) for g in (1, 2, 3, 4)] + [YT(2, 5, {"B_MAX": 1})] + [YT(3, g) for g in (2, 3, 4)] + [YT(3, 5, {"B_MAX": 1}), OE(1)], assumptions=YS)
P("C43", [H("yaml_view", "yaml_access.cpp", ["yaml", "serialization_error"], {"B_YAML": 1, "B_PART": 1}, covers=["end"], bounds="two documents with any of five kinds of content and any numbers; views as fields, in lists and among extra fields, read again, patched and assigned"),
          H("yaml_extract", "yaml_access.cpp", ["yaml", "serialization_error"], {"B_YAML": 1, "B_PART": 2}, covers=["accepted", "refused"], bounds="sequences and maps of 0..3 members of five kinds with any numbers; two extractions in sequence or by index/name, of three target types"),
          H("yaml_forms", "yaml_access.cpp", ["yaml", "serialization_error"], {"B_YAML": 1, "B_PART": 3}, covers=["forms", "texts", "builders", "keys", "custom", "singles"], bounds="every calling form, builders, parsing of listed texts, number, null and container keys, user-provided conversions; any integers, texts of 0..2 arbitrary bytes")], assumptions=YS)
