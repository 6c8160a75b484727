"""The single table behind properties.jsonl, MANIFEST.json and the per-property section of DESIGN.md
(regenerate with tools/gen.py).  run.py reads the `h` (harness) part."""

REPO_JSON = ["src/json.cpp", "src/serialization_error.cpp"]

P = []


def prop(id, title, statement, over, qtext, why, files, mech, design, note, h, state=None, observe=None,
         technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, design=design, note=note, h=h, state=state or [],
                  observe=observe or [], technique=technique))


# ------------------------------------------------------------------------------------------------
prop(
    "C01", "Base64 encoding is canonical RFC 4648 text and round-trips",
    "For every byte sequence, standard Base64 encoding yields exactly the RFC 4648 text (padded with '=' to a multiple of four) "
    "and URL-safe encoding yields exactly the unpadded '-'/'_' text. Decoding either text with the matching decoder returns the original bytes.",
    ["inputs"], "all byte sequences, of every length and content, both alphabets",
    "The tests check a handful of literal strings; the tail handling and the bit packing have to be right for every length mod 3 and every byte value.",
    ["src/base64.cpp", "include/kl/base64.hpp"],
    [("per-triple bit packing and tail emission", "src/base64.cpp: base64_encode_impl"),
     ("lookup tables", "src/base64.cpp: make_base64_decode_table")],
    "Random byte strings (length 0..600 biased to short, all byte values, all-0x00/0xff runs) are encoded with both alphabets and compared with an "
    "independent bit-stream encoder written in the harness; both decoders must return the input; cross-alphabet relation (the URL text is the standard text with '+/' mapped to '-_' and padding dropped). "
    "All lengths 0..2 and every one/two byte input are also enumerated once per run.",
    "Generated-input exploration with an independent reference encoder; no absence claim beyond the cases run.",
    dict(src="c01_base64_roundtrip.cpp", repo=["src/base64.cpp"], quick=500000, thorough=6000000, fuzz=30000))

prop(
    "C02", "Base64 decoding accepts exactly well-formed text and is memory safe",
    "Decoding arbitrary text either fails or returns exactly the bytes its symbols denote. Standard decoding succeeds precisely when the length is a multiple of four, "
    "at most two '=' appear and only at the end, and every other symbol is in the standard alphabet; URL-safe decoding succeeds precisely when, after ignoring at most two trailing '=', "
    "all symbols are in the URL-safe alphabet and the count is not 1 modulo 4. No input makes it read or write out of bounds.",
    ["inputs"], "all texts, including every byte value, wrong alphabet, misplaced padding and truncations",
    "Tests try a few malformed literals; one wrong table entry, one unchecked position in a quad or tail, or a wrong padding bound is only seen by inputs that hit that position.",
    ["src/base64.cpp"],
    [("alphabet check by out-of-range table value", "src/base64.cpp: base64_decode_impl"),
     ("padding/length checks", "src/base64.cpp: base64_decode_impl")],
    "Texts are built three ways: valid encodings, valid encodings with 1..3 mutations (replace by any byte, insert, delete, move padding) and strings over a mixed alphabet; the harness' own decoder "
    "decides accept/reject and the expected bytes. Input lives in an exactly-sized heap buffer so ASan sees any over-read.",
    "Generated-input exploration with an independent reference decoder under ASan/UBSan.",
    dict(src="c02_base64_decode.cpp", repo=["src/base64.cpp"], quick=2000000, thorough=30000000, fuzz=120000))

prop(
    "C03", "Path parsing normalises every input and rejects bad escapes",
    "Parsing any text as a resource path yields the segments between slashes with empty and '.' segments dropped, '..' removing the previous segment (a no-op at the root) and %XX escapes decoded inside a segment; "
    "a malformed escape or an escape denoting '/' is rejected with a path parse error. Size, indexing, joined tail, views (front, drop-front, drop-back) and prefixes all describe that same segment list, "
    "and a path object can be re-assigned or cleared and reused with the same result as a fresh one.",
    ["inputs", "histories"], "all texts; all sequences of assignments to one path object",
    "Tests cover a few dozen literals; stack handling of '..', inline-storage growth beyond 15 segments and the escape state at segment ends need combinations they do not sample.",
    ["src/path.cpp", "include/kl/path.hpp"],
    [("segment offset list over one decoded buffer", "include/kl/path.hpp: path, path_view"),
     ("normalising parser", "src/path.cpp: path::set / pop_segment / push_decoded_segment")],
    "Texts generated from a segment grammar ('', '.', '..', plain, long, percent-escapes valid/invalid/lower/upper hex, %2F, %2E, embedded NUL and high bytes), up to 60 segments, plus raw byte strings; "
    "a split-based reference normaliser predicts the segment vector or the error; sequences re-assign one path object between checks (also after a failed parse); copies and moves are compared too.",
    "Stateful generated exploration against a reference normaliser; state of a path after a failed parse is only required to be reusable.",
    dict(src="c03_path.cpp", repo=["src/path.cpp"], quick=120000, thorough=3000000, fuzz=60000))

prop(
    "C04", "Change-generation queries agree with the notification history",
    "After any history of change notifications, the generation reported for a path is the newest notification that concerned that path, one of its descendants, or an ancestor notified as a whole-subtree change, "
    "and zero if there was none; generations strictly increase by one per notification. 'Changed since G' holds exactly when that generation is newer than G, "
    "and paths that merely share a textual prefix never affect each other.",
    ["histories"], "all notification histories and query paths",
    "Tests run fixed short histories; the rule relates every past notification to every queried path.",
    ["include/kl/resource.hpp"],
    [("node and subtree generation maps", "include/kl/resource.hpp: modification_tracker")],
    "Stateful model: random notify(path, subtree?) sequences over a small, collision-rich segment alphabet ('a','ab','a/b'-like joins, empty path, long paths); the model keeps the raw history and recomputes the answer by "
    "scanning it; after every step random paths plus all previously used paths are queried. Paths are passed both as path and as view (drop-back'ed).",
    "Model-based exploration of histories (up to ~60 notifications).",
    dict(src="c04_tracker.cpp", repo=["src/path.cpp"], quick=60000, thorough=1000000, fuzz=12000))

RES_SRC = ["res_get.cpp", "res_put.cpp", "res_post.cpp", "res_patch.cpp", "res_del.cpp", "res_at.cpp"]
RES_FILES = ["include/kl/resource_op.hpp", "include/kl/resource.hpp", "include/kl/resource_attributes.hpp", "src/path.cpp"]
prop(
    "C05", "A rejected resource operation changes nothing",
    "For every resource state and every GET, PUT, POST, PATCH or DELETE request, an operation that does not succeed - bad input, unknown path, forbidden write, failed validation, duplicate key, "
    "or an exception thrown by a validator or by a copy of a stored value - leaves the resource value and all change generations exactly as they were. A GET never changes anything.",
    ["histories", "fault_sequences"], "all request histories, request bodies and validator failures at any point",
    "Tests inject a failure in a few fixed requests; rollback has to be right for every verb, container kind and validator position, including failures after the tree was already modified.",
    RES_FILES,
    [("candidate copy, then swap-in with rollback guard", "include/kl/resource_op.hpp: rollback_value, pop_back_rollback")],
    "Random request histories against a rich reflected resource (nested objects, optionals, maps, vectors, deque, list, arrays, keyed collections, validators). The whole value is dumped and all "
    "generations of all addressable paths are recorded before each request; after any non-2xx result or escaped exception both must be identical. Fault injection: a validator armed to reject or to throw a foreign exception "
    "on its k-th invocation, k drawn; in a quarter of the armed requests the copies and move constructions of a stored type count as invocations too.",
    "Stateful exploration with injected validator faults; equality is judged on the full serialized value, not on code paths.",
    dict(src="c05_resource_atomic.cpp", repo=REPO_JSON + ["src/path.cpp"], extra=RES_SRC, quick=24000, thorough=600000, fuzz=1500, heavy=1))

prop(
    "C06", "Resource operations have exactly the documented effect and status",
    "Every GET, PUT, POST, PATCH and DELETE against a reflected resource returns the status, and produces the new value, of the equivalent edit on the resource's JSON document: read, replace, append, merge "
    "named fields, or remove the addressed node. Unknown paths give 404, malformed bodies 400, verbs the node cannot support 405, validation or duplicate-key failures 409; nothing outside the addressed node changes.",
    ["histories", "inputs"], "all request histories over all addressable paths and bodies",
    "Each test performs one or two requests on fixed data; the relation must hold for every node kind, body and history.",
    RES_FILES,
    [("path walk over reflected fields, optionals, maps, keyed and indexed collections", "include/kl/resource_op.hpp: visit_node"),
     ("verb implementations", "include/kl/resource_op.hpp: get/put/post/patch/del")],
    "Model-based: a hand-written dynamic model (a JSON-like tree plus a schema describing kinds, attributes, validators) executes the same request; status and complete dump are compared after every request, and GET "
    "of random paths is compared with the model's sub-tree.",
    "Model-based exploration; the model is independent of the library (own tree, own path walk).",
    dict(src="c06_resource_model.cpp", repo=REPO_JSON + ["src/path.cpp"], extra=RES_SRC, quick=24000, thorough=600000, fuzz=1500, heavy=1))

prop(
    "C07", "Change tracking reports every observable resource change",
    "If the value readable at a path differs before and after a successful resource operation (including appearing or disappearing), that path and all its ancestors are reported as changed since before the operation. "
    "Paths that are neither ancestors, nor descendants of the node the operation modified are never reported as changed.",
    ["histories"], "all request histories and all addressable paths",
    "Tests check tracking for a few requests on fixed paths; whether descendants are flagged depends on the node type, and on the verb.",
    RES_FILES,
    [("notify with subtree flag derived from node type", "include/kl/resource_op.hpp: put/post/patch/del + has_addressable_descendants_v")],
    "Same request generator as C05/C06. Before/after every request GET is evaluated on the universe of paths (every path of the document before and after, plus alias spellings of indices); differences must imply "
    "changed_since(gen before) for the path and its ancestors, and every changed path must be related to the notified node.",
    "Stateful exploration; completeness and soundness are both checked over the full path universe of each state.",
    dict(src="c07_resource_tracking.cpp", repo=REPO_JSON + ["src/path.cpp"], extra=RES_SRC, quick=16000, thorough=400000, fuzz=1200, heavy=1))

prop(
    "C08", "Read-only nodes and child keys cannot be changed through their paths",
    "No request addressed to a read-only field, to anything below a subtree-read-only field, or to the key field of a keyed child ever changes that value; such writes are refused with 405. "
    "No sequence of requests can change the key of an existing keyed element or create two elements with the same key: identity-changing writes are refused (405) and duplicates are refused (409), and keyed children are addressable only by key.",
    ["histories"], "all request histories",
    "Tests check single refusals; the guarantee is about every verb, nesting through optionals, maps and lists, and every history.",
    RES_FILES,
    [("access_context inherited down the walk", "include/kl/resource_op.hpp: access_context"),
     ("identity check and duplicate-key validation", "include/kl/resource_op.hpp: element_node::preserves_identity, validate_unique_child_keys")],
    "Invariant-based stateful search biased to protected nodes: the harness knows which paths are protected (from the type's declaration, independently of the library) and, after each request addressed at or below a protected node, "
    "requires 405 and an unchanged value; key multiset invariants are checked after every request.",
    "Stateful exploration of an explicit invariant; overwriting a read-only child by replacing its parent is allowed (documented by the tests) and not flagged.",
    dict(src="c08_resource_protect.cpp", repo=REPO_JSON + ["src/path.cpp"], extra=RES_SRC, quick=24000, thorough=600000, fuzz=1500, heavy=1))

SIG = ["include/kl/signal.hpp", "include/kl/defer.hpp"]
prop(
    "C09", "Signal emission visits exactly the right slots, in order, with intact arguments",
    "An emission calls every slot that was connected when it started, is still connected and not blocked when its turn comes, once each, in connection order (front-inserted slots first), and passes every slot the same argument values; "
    "slots connected during the emission are not called by it. Stopping an emission, nested and recursive emissions, slots that throw, and connecting, disconnecting or blocking from inside slots affect exactly what they name, "
    "and the signal's count, connection states and current-connection query stay consistent. Moving or swapping a signal that is being emitted ends the program instead of corrupting it.",
    ["histories"], "all histories of connect/disconnect/block/emit/stop/throw/move operations, including from inside slots",
    "Tests script particular re-entrancy patterns; the traversal rules have to hold for every interleaving of list edits with nested emissions.",
    SIG,
    [("snapshot of the tail, per-slot references, deferred cleanup", "include/kl/signal.hpp: signal::operator()"),
     ("thread-local emission state saved and restored", "include/kl/signal.hpp: tls_signal_info")],
    "Model-based: random programs over several signals, connections, scoped connections and blockers; each slot owns a small random script (connect front/back, disconnect any/self/all, block/unblock, nested emit up to depth 3, stop, throw, "
    "query num_slots/current_connection). A reference list model executes the same program and predicts the exact call log.",
    "Model-based exploration of re-entrant histories (single thread).",
    dict(src="c09_signal_model.cpp", repo=[], quick=400000, thorough=6000000, fuzz=60000))

prop(
    "C10", "Slots are destroyed exactly once, when unreachable, and never deadlock or dangle",
    "A slot's captured state is destroyed exactly once: no later than when it is disconnected (or its signal destroyed), no emission is running and no handle refers to it, on every path including slots that throw; handles may outlive the signal and stay safe to use. "
    "Destroying, disconnecting or clearing slots whose captured state itself disconnects or releases other slots of the same signal completes normally.",
    ["histories", "fault_sequences"], "all histories of connections, copies, moves, swaps, destructions and throwing slots",
    "Tests check single lifetimes; leaks on a throwing emission, double release after move/swap and self-deadlock on destruction depend on the history.",
    SIG,
    [("intrusive reference counts", "include/kl/signal.hpp: ref_counted, slot_state"),
     ("removal deferred while an emission runs", "include/kl/signal.hpp: cleanup_invalidated_slots_locked")],
    "Random histories over signals in optionals (destroyed, moved, swapped), connection/scoped_connection/blocker pools (copied, moved, self-assigned, swapped, released) and slots holding counted tokens, optionally holding handles of other slots of the same signal. "
    "Oracle: token count is zero at the end and at every quiescent point equals the model's live set; ASan for dangling use; a case that does not finish is a violation (replayed three times).",
    "Stateful exploration with instance counting, under ASan; hang detection is replayed before being reported.",
    dict(src="c10_signal_lifetime.cpp", repo=[], quick=800000, thorough=10000000, fuzz=60000))

prop(
    "C11", "Signals stay consistent under concurrent connect, disconnect and emission",
    "While threads concurrently emit, connect, disconnect, block and query one signal, there is no data race; a slot that stays connected and unblocked for the whole of an emission is called exactly once by it, and a slot is never called by an emission that starts after its disconnection completed "
    "or called more than once by one emission; after all threads stop, exactly the slots never disconnected remain and no slot state is leaked.",
    ["schedules"], "all schedules of emitting, connecting, disconnecting and blocking threads",
    "The tests spawn a few threads once; races need particular interleavings.",
    SIG,
    [("one mutex around list edits, snapshots under lock", "include/kl/signal.hpp: signal::operator()"),
     ("atomic sender/blocked state", "include/kl/signal.hpp: slot_state")],
    "Generated thread programs (2..4 threads, random op lists, random yields/spins drawn from the choice sequence) run under ThreadSanitizer and, in a second build, AddressSanitizer; every slot invocation and operation is stamped on a global atomic clock and the history is checked against the interval rules; "
    "token counts checked after join.",
    "Schedule exploration is sampling (OS scheduler plus injected yields), strengthened by TSan's happens-before race detection; weak at races needing a precise preemption.",
    dict(src="c11_signal_threads.cpp", repo=[], quick=4000, thorough=200000, fuzz=0, tsan=True, asan_too=True, workers=4, cap=35))

BIN = ["include/kl/binary_rw.hpp", "include/kl/binary_rw/"]
prop(
    "C12", "Binary encoding round-trips and stays inside its buffer",
    "For every value of the supported types (arithmetic, enum, endian, string, vector, map, set, pair, optional, variant, nested), writing it into a large enough buffer and reading it back yields an equal value, consumes exactly the bytes written, "
    "and reports no error. Writing into a buffer that is too small reports an error that persists, and never writes past the end of the buffer.",
    ["inputs"], "all values, all nestings in the type set, all buffer sizes",
    "Tests write and read fixed values; sizes, variant alternatives, nestings and the exact-fit / one-short boundary are not sampled.",
    BIN,
    [("bounded cursor with sticky error", "include/kl/binary_rw.hpp: cursor_base, write_impl"),
     ("per-type codecs with 32-bit size prefixes", "include/kl/binary_rw/*.hpp")],
    "Random sequences of typed values are written; size is predicted by an independent size function and the bytes by an independent little-endian encoder; then read back, also from the exact-size buffer, and written again into every shorter "
    "buffer size drawn (exact heap allocation under ASan plus canary bytes).",
    "Generated exploration with a reference encoder and ASan bounds checking (little-endian host).",
    dict(src="c12_binary_roundtrip.cpp", repo=[], quick=1200000, thorough=15000000, fuzz=25000))

prop(
    "C13", "Binary reading of arbitrary bytes is bounded, fails cleanly, and errors stick",
    "Reading any sequence of supported types from any byte buffer either yields what a straightforward decoder would or sets the error state; it never reads outside the buffer, never throws, and never allocates more than in proportion to the bytes available. "
    "Once an error is set the position no longer moves, every further read fails, containers being read are left empty, and a variant keeps its value unless a whole new one was read; peeking and failed skips never move the position.",
    ["inputs", "histories"], "all byte buffers and all sequences of reads, peeks, skips and spans",
    "Tests truncate a few valid buffers; hostile length prefixes and error-then-continue sequences are not covered.",
    BIN,
    [("bounds check before each copy", "include/kl/binary_rw.hpp: peek_impl, read_impl, span, skip"),
     ("size-prefixed container readers", "include/kl/binary_rw/string.hpp, vector.hpp, map.hpp, set.hpp")],
    "Buffers are random bytes, valid encodings with mutated/truncated bytes, or hostile sizes (0xffffffff, just above the remaining bytes); a random sequence of reader operations is executed against a reference decoder that returns value / error / new position. "
    "Allocation is capped (tracked through the allocator) in proportion to the buffer.",
    "Generated exploration with a reference decoder under ASan/UBSan and an allocation bound.",
    dict(src="c13_binary_reader.cpp", repo=[], quick=1200000, thorough=15000000, fuzz=30000))

JS = ["include/kl/json.hpp", "include/kl/detail/serialization.hpp", "include/kl/serialization.hpp", "src/json.cpp"]
prop(
    "C14", "Streaming JSON output equals the serialized document",
    "For every supported value, the text produced by dumping it parses to the same JSON document that serializing it builds, with the same member order, and pretty output differs only in whitespace; this holds with null fields skipped or kept. "
    "Both are exactly the document that the value's reflected declaration describes.",
    ["inputs"], "all values of the supported types, both null policies",
    "Tests compare a few fixed objects; the two routes are separate code and every type and attribute has to agree on both.",
    JS,
    [("stream backend and tree backend", "include/kl/json.hpp: json_stream_backend, json_tree_backend"),
     ("shared field walk", "include/kl/detail/serialization.hpp: dump_reflected_fields, add_reflected_fields")],
    "Random values of a wide type family (all integer widths, floats, bool, strings with any bytes/UTF-8/NUL, optionals, smart pointers if supported, vectors, lists, maps, arrays, tuples, pairs, enums, enum sets, nested/derived/attributed structs) are dumped and serialized; "
    "an independent writer in the harness builds the expected document by hand and all three are compared structurally in order.",
    "Differential exploration (stream vs tree vs hand-written expectation); floating-point values are finite.",
    dict(src="c14_json_dump.cpp", extra=["jt_plain1.cpp","jt_plain2.cpp","jt_plain3.cpp","jt_plain4.cpp","jt_attr1.cpp","jt_attr2.cpp","jt_attr3.cpp"], flags=["-DJ_OUT"], repo=REPO_JSON, quick=100000, thorough=1500000, fuzz=8000, heavy=1))

prop(
    "C15", "JSON serialization round-trips every supported value",
    "For every value of a supported type, deserializing its serialized document, or its parsed dump text, yields an equal value (up to null map entries when null members are being skipped), and serializing that again yields an identical document; struct values may equally be read from the array form of their fields.",
    ["inputs"], "all values of the supported types",
    "Tests round-trip a few literals; integer extremes, unusual strings and keys, empty containers and nesting are not covered together.",
    JS,
    [("type-directed serialize/deserialize pairs", "include/kl/detail/serialization.hpp, include/kl/json.hpp")],
    "Random values of the same family as C14; v -> serialize -> deserialize and v -> dump -> parse -> deserialize are compared with v field by field, into both fresh and dirty targets; idempotence of serialize. "
    "Text route compares doubles with a 4-ULP tolerance (the parser is not exact by default), tree route exactly.",
    "Round-trip exploration.",
    dict(src="c15_json_roundtrip.cpp", extra=["jt_plain1.cpp","jt_plain2.cpp","jt_plain3.cpp","jt_plain4.cpp","jt_attr1.cpp","jt_attr2.cpp","jt_attr3.cpp"], flags=["-DJ_OUT","-DJ_IN"], repo=REPO_JSON, quick=80000, thorough=1200000, fuzz=5000, heavy=1))

prop(
    "C16", "JSON deserialization accepts exactly matching input and never truncates",
    "Deserializing an arbitrary JSON document into a type either yields the value the document denotes or raises the library's deserialize error: integers that do not fit, fractional or wrongly typed numbers, wrong kinds, unknown enum names and over-long sequences are all rejected, missing fields read as null, "
    "and no other exception, silent truncation or crash occurs. Parsing arbitrary text either yields a document or raises the parse error.",
    ["inputs"], "all JSON documents against all supported target types; all texts",
    "Tests try a few mismatches per type; each numeric boundary, kind pair and nesting position is a separate case.",
    JS,
    [("kind checks and narrowing", "include/kl/json.hpp: narrow, deserialize_adl; src/json.cpp: expect_*"),
     ("map/sequence struct reading", "include/kl/detail/serialization.hpp: deserialize_adl")],
    "Random documents (type-directed near-misses: a valid document for the type with 0..3 random sub-tree replacements, key renames/drops/duplicates, boundary integers) are deserialized into each target; a reference interpreter over a schema of the type predicts accept/reject and the value. "
    "Random text goes through parse with a differential check against RapidJSON's own acceptance.",
    "Model-based exploration under ASan/UBSan.",
    dict(src="c16_json_deserialize.cpp", extra=["jt_plain1.cpp","jt_plain2.cpp","jt_plain3.cpp","jt_plain4.cpp","jt_attr1.cpp","jt_attr2.cpp","jt_attr3.cpp"], flags=["-DJ_IN"], repo=REPO_JSON, quick=160000, thorough=2500000, fuzz=10000, heavy=1))

prop(
    "C17", "Per-field serialization attributes have exactly their documented effect",
    "Rename, aliases, skip (either or both directions), skip-if-null, emit-null, skip-if-empty, allow-missing, default values, validators and ranges, flattened members and extra-fields maps each have their documented effect, alone and combined, for every value and every input document: "
    "output contains exactly the members they prescribe and input is read exactly as they prescribe. Unknown members are preserved by an extra-fields map without ever capturing or colliding with a declared name.",
    ["inputs", "configurations"], "all values and documents over attributed types; attribute combinations",
    "Tests check one attribute per fixed document; interactions (flatten with extra fields, alias with default, null policies) multiply.",
    ["include/kl/serialization_attributes.hpp", "include/kl/detail/serialization.hpp", "include/kl/ctti.hpp"],
    [("attribute-directed field walk", "include/kl/detail/serialization.hpp: dump_reflected_fields, deserialize_adl, resolve_field_name, reserved_field_names")],
    "A family of attributed structs is paired with a hand-written declarative description; random values and random near-valid documents (members present/missing/null/aliased/duplicated/unknown, both canonical and alias present) are run through dump, serialize, deserialize, and compared with the description's interpreter; "
    "flatten and extra-fields round-trips are checked end to end.",
    "Model-based exploration over a fixed family of attributed types.",
    dict(src="c17_attributes.cpp", extra=["jt_attr1.cpp","jt_attr2.cpp","jt_attr3.cpp"], flags=["-DJ_OUT","-DJ_IN"], repo=REPO_JSON, quick=100000, thorough=1500000, fuzz=8000, heavy=1))

prop(
    "C18", "Patching changes only the mentioned members",
    "Patching a value with a JSON object updates exactly the members the object mentions (recursively through nested objects, engaged optionals and extra-fields entries) and leaves all others untouched; null resets optionals, an empty patch is the identity, patching with a value's own serialized document is the identity, "
    "and a non-object patch or a container member replaces the whole.",
    ["inputs"], "all values and patch documents",
    "Tests patch a few fixed members; the frame condition quantifies over all members not mentioned.",
    ["include/kl/detail/serialization.hpp", "include/kl/json.hpp"],
    [("patch_adl", "include/kl/detail/serialization.hpp: patch_adl")],
    "Random value and random patch document (sub-document with members dropped, nulls, unknown and aliased names); a JSON-level merge interpreter over the schema predicts the result; metamorphic laws: identity, idempotence, patch(p) then patch(q) on disjoint members commutes.",
    "Model-based and metamorphic exploration.",
    dict(src="c18_patch.cpp", extra=["jt_plain1.cpp","jt_plain2.cpp","jt_plain3.cpp","jt_plain4.cpp","jt_attr1.cpp","jt_attr2.cpp","jt_attr3.cpp"], flags=["-DJ_OUT","-DJ_PATCH"], repo=REPO_JSON, quick=120000, thorough=1800000, fuzz=8000, heavy=1))

prop(
    "C19", "Reflected enums convert to and from text bijectively",
    "For every reflected enum, every declared value converts to its declared (or overridden) name and back to the same value, iteration lists exactly the declared values in order with the right count, text that is not exactly a declared name never converts, "
    "and a value outside the declaration is reported as unknown.",
    ["inputs"], "all declared values, all texts and all underlying values, for scoped/unscoped, signed/unsigned and custom-named enums",
    "Tests look up a few names; near-miss names and undeclared values are unbounded.",
    ["include/kl/enum_reflector.hpp", "include/kl/reflect_enum.hpp"],
    [("constexpr name/value pairs", "include/kl/reflect_enum.hpp"), ("linear lookup", "include/kl/enum_reflector.hpp")],
    "Enums of several shapes with hand-written tables; random texts derived from the names (case flips, truncations, extensions, embedded NUL, swaps) and random underlying values are looked up and compared with the tables.",
    "Generated exploration plus full enumeration of the declared values; the enum family is fixed at compile time.",
    dict(src="c19_enum_reflect.cpp", repo=[], quick=1000000, thorough=20000000, fuzz=30000))

prop(
    "C20", "Enum sets and enum operators obey bit-set algebra",
    "Union, intersection, symmetric difference, complement, comparison, test, has-any and has-all on enum sets, and the opt-in enum bitmask, shift and index operators, agree for every operand with the same operation on the underlying integers; "
    "compound forms equal their plain forms. Range queries report membership of any integer or enum in the declared range correctly.",
    ["inputs"], "all operand pairs over several underlying types",
    "Tests check a few flag combinations.",
    ["include/kl/enum_set.hpp", "include/kl/enum_traits.hpp"],
    [("operators over the underlying value", "include/kl/enum_set.hpp, include/kl/enum_traits.hpp")],
    "Random operand pairs over enums with 8/16/32/64-bit, signed and unsigned underlying types; every operator overload (set-set, set-enum, enum-set, compound) is compared with plain integer arithmetic on a wide type; range queries with integers of every type.",
    "Generated exploration against integer arithmetic; the 8-bit type is enumerated exhaustively over all pairs.",
    dict(src="c20_enum_set.cpp", repo=[], quick=2000000, thorough=40000000, fuzz=40000))

prop(
    "C21", "String hashes equal their published definitions for all bytes",
    "The FNV-1a hash of any byte string equals the published 32-bit FNV-1a value, the Hsieh hash equals the published SuperFastHash value, and all entry points (pointer+length, string, literal, user-defined literal) agree for the same bytes, at run time and compile time.",
    ["inputs"], "all byte strings",
    "Tests hash a few ASCII strings; bytes above 0x7f, embedded zeros and all tail lengths are not covered.",
    ["include/kl/hash.hpp"],
    [("fnv1a, hsieh", "include/kl/hash.hpp")],
    "Random byte strings of length 0..300 in exactly-sized heap buffers; compared with reference implementations written over unsigned bytes from the published algorithms (SuperFastHash's tail deliberately uses signed char, as published).",
    "Differential exploration under ASan/UBSan.",
    dict(src="c21_hash.cpp", repo=[], quick=2000000, thorough=30000000, fuzz=100000))

prop(
    "C22", "Splitting and joining text are exact and mutually inverse",
    "Splitting any text by any delimiter set yields exactly the maximal delimiter-free pieces in order (empty pieces kept or dropped as requested, with no piece after a trailing delimiter), and joining any sequence emits the elements in order with the delimiter strictly between them "
    "(or the configured empty text); splitting a join of non-empty delimiter-free pieces returns the pieces.",
    ["inputs"], "all texts, delimiter sets and sequences",
    "Tests use a few literals.",
    ["include/kl/split.hpp", "include/kl/stream_join.hpp"],
    [("for_each_token, split", "include/kl/split.hpp"), ("stream_joiner, outstream_joiner", "include/kl/stream_join.hpp")],
    "Random texts over a delimiter-rich alphabet and arbitrary bytes, delimiter sets of size 0..4, several string types; reference char-by-char splitter; joins over vectors, lists, arrays, output-iterator joins.",
    "Differential and round-trip exploration.",
    dict(src="c22_split_join.cpp", repo=[], quick=800000, thorough=10000000, fuzz=50000))

prop(
    "C23", "Iteration helpers visit exactly the right elements and obey iterator laws",
    "Zipping visits exactly min-length tuples of references to the corresponding elements, enumerating pairs each element with its index, integer and iterator ranges and enum ranges cover exactly their declared interval, and iterators built on the facade (including enum iterators) satisfy the iterator laws: "
    "n steps equal an advance by n, differences and orderings match positions, post-increment returns the old position. Writes through zipped references reach the underlying sequences.",
    ["inputs"], "all sequence lengths, positions and offsets, several container kinds",
    "Tests iterate fixed sequences; laws over arbitrary positions (difference, ordering, negative advance) are untested.",
    ["include/kl/zip.hpp", "include/kl/range.hpp", "include/kl/enum_range.hpp", "include/kl/iterator_facade.hpp"],
    [("zipped_iterator, iota", "include/kl/zip.hpp"), ("iterator_facade", "include/kl/iterator_facade.hpp"), ("enum_iterator", "include/kl/enum_range.hpp")],
    "Random sequences of different lengths and container kinds are zipped/enumerated and compared with index loops; a facade-based random access iterator and enum iterators walk random step programs (++,--,+=,-=,[],-,<) next to a plain integer position model.",
    "Model-based exploration.",
    dict(src="c23_iteration.cpp", repo=[], quick=2000000, thorough=30000000, fuzz=40000))

prop(
    "C24", "Exception info behaves as an independent tagged stack through throw and copy",
    "For any history of set, unset, copy, move, assignment and throw, looking up a tag in an exception info returns the most recently set and not yet removed value for that tag, or nothing; removing a tag reveals the earlier value and leaves other tags, and other copies' stacks, unchanged. "
    "Throwing any exception with info preserves the exception's type and content, the source location and all tagged values, and the diagnostic text lists exactly them.",
    ["histories"], "all histories over several info objects and tags",
    "Tests perform short fixed histories; sharing between copies shows only in longer ones.",
    ["include/kl/exception_info.hpp"],
    [("shared linked nodes", "include/kl/exception_info.hpp: exception_info::set/unset/get")],
    "Stateful model: pool of info objects, each modelled as a vector of (tag,value); random set (lvalue/rvalue), unset, get (const and not), copy, move, assign, throw_with_info/catch/get_exception_info, nested rethrow through exception_ptr; all objects are compared with their models after every step.",
    "Model-based exploration. Writing through the pointer returned by get() on a shared copy is out of scope (shared by design).",
    dict(src="c24_exception_info.cpp", repo=[], quick=40000, thorough=1000000, fuzz=10000))

prop(
    "C25", "A file view shows exactly the file's bytes, and open failures are reported",
    "Opening any regular file presents exactly its bytes and size for every size including zero and page-boundary sizes, the view stays readable for the object's lifetime, several views are independent, and resources are released exactly once on destruction. Opening anything that cannot be mapped throws the operating system's error instead of giving an unusable view.",
    ["inputs", "fault_sequences"], "all file contents and sizes; all kinds of unopenable paths",
    "Tests map a couple of small files.",
    ["src/file_view_unix.cpp", "include/kl/file_view.hpp"],
    [("open/fstat/mmap with error checks", "src/file_view_unix.cpp")],
    "Files of random size (0, 1, page-1, page, page+1, several pages, random) and content are created in a private scratch directory, viewed, compared, unlinked while mapped; directories, missing paths, permission-less names; file descriptor and mapping counts (/proc/self) must return to their start after each case.",
    "Generated exploration with resource accounting through /proc/self; runs only in a scratch directory it creates and removes.",
    dict(src="c25_file_view.cpp", repo=["src/file_view_unix.cpp"], quick=40000, thorough=400000, fuzz=0,
         ldflags=["-Wl,--wrap=%s" % f for f in ("mmap", "munmap", "open", "close", "fstat")]))

prop(
    "C26", "The YAML backend agrees with the JSON backend and round-trips",
    "For every supported value, the YAML produced by serializing or dumping it describes the same data as its JSON document, reading either form back yields an equal value, and mismatching YAML input is rejected with the library's deserialize or parse error, which says where in the document the rejected node is, never with another exception or a silently wrong value.",
    ["inputs"], "all values of the supported types, and YAML documents derived from them by mutation",
    "The YAML tests are not even built by the default build here; fixed documents cannot cover the scalar-quoting and null/number ambiguity space.",
    ["include/kl/yaml.hpp", "src/yaml.cpp", "include/kl/detail/serialization.hpp"],
    [("yaml stream/tree backends over the same field walk", "include/kl/yaml.hpp")],
    "Differential: random values -> YAML tree / YAML text -> read back, compared with the value and with the JSON route; mutated nodes must either read as the reference interpretation or raise deserialize_error.",
    "Differential exploration; compiled against the installed yaml-cpp with a one-line header shim (NodeType as namespace), see DESIGN.",
    dict(src="c26_yaml.cpp", extra=["jt_plain1.cpp","jt_plain2.cpp","jt_plain3.cpp","jt_plain4.cpp","jt_attr1.cpp","jt_attr2.cpp","jt_attr3.cpp"], flags=["-DJ_YAML"], repo=REPO_JSON + ["src/yaml.cpp"], quick=24000, thorough=500000, fuzz=2500, heavy=1, yaml=True))

prop(
    "C27", "Struct reflection reports every declared field once, in order, by reference",
    "For every reflected type, visiting an object yields each declared field exactly once, base-class fields first, in declaration order, with its declared name, attributes and a reference to that very member (const-correct, writable for mutable objects); type-level visiting reports the same names, types and attributes, and the field count agrees.",
    ["inputs", "configurations"], "all objects of a family of reflected shapes (plain, derived, multi-base, friend-declared, accessor fields, attributed)",
    "Tests check a few literal structs.",
    ["include/kl/ctti.hpp", "include/kl/reflect_struct.hpp", "include/kl/detail/macros.hpp"],
    [("factory-driven field enumeration", "include/kl/ctti.hpp: reflect_object, reflect_type")],
    "For a fixed family of reflected shapes with a hand-written description, random objects are visited, read, written through the field references at random positions and compared with direct member access; attribute queries (exact, base-class, filtered) are compared with the description.",
    "Generated exploration of values; the shape family is fixed at compile time (static facts are checked at compile time/run time once).",
    dict(src="c27_ctti.cpp", repo=[], quick=150000, thorough=2000000, fuzz=6000))

prop(
    "C28", "Scope guards and small utilities run exactly once, in every exit path",
    "A deferred action runs exactly once when its scope ends, whether by normal exit, early return or exception, in reverse order of declaration; overload matching on variants dispatches to the handler of the held alternative, and tuple helpers apply, transform and compare exactly element-wise.",
    ["histories", "inputs"], "all nestings and exit points of scopes; all variant and tuple values",
    "Tests run a few literal scopes.",
    ["include/kl/defer.hpp", "include/kl/match.hpp", "include/kl/tuple.hpp", "include/kl/utility.hpp"],
    [("KL_DEFER guard object", "include/kl/defer.hpp"), ("overload set", "include/kl/match.hpp"), ("tuple function objects", "include/kl/tuple.hpp")],
    "Random recursive scope programs (guards, early exits, throws at drawn points) are compared with a simulated guard stack; random variants/optionals/tuples through match and tuple helpers are compared with direct evaluation.",
    "Model-based exploration.",
    dict(src="c28_utility.cpp", repo=[], quick=800000, thorough=10000000, fuzz=40000))

prop(
    "C29", "A reading or patching error says where in the document it happened",
    "Whenever reading or patching a value from a JSON document fails, the deserialize error's message starts with the cause and then names, from the innermost step outwards and without gaps or additions, every struct field, map entry, extra-fields entry and sequence element on the way to the node that was rejected.",
    ["inputs"], "all types of the JSON family, all documents and all places of a rejected node",
    "Tests pin a handful of messages for one level of nesting; the guarantee is about every nesting of fields, entries and elements and about documents with the fault anywhere.",
    ["include/kl/detail/serialization.hpp", "src/serialization_error.cpp", "include/kl/serialization_error.hpp"],
    [("deserialize_error::add", "src/serialization_error.cpp"), ("catch (deserialize_error& ex) blocks", "include/kl/detail/serialization.hpp")],
    "A valid document of a random value is spoiled at a random deep node (or edited as in C16); the reference interpreter predicts whether it is rejected and the steps to the first rejected node; the message must list exactly these steps in order. Reading and patching, plain and attributed types.",
    "Model-based exploration; tuple and pair positions are not reported by kl and not claimed; documents with NUL in strings are left out (what() is a C string).",
    dict(src="c29_error_location.cpp", extra=["jt_plain1.cpp","jt_plain2.cpp","jt_plain3.cpp","jt_plain4.cpp","jt_attr1.cpp","jt_attr2.cpp","jt_attr3.cpp"], flags=["-DJ_IN","-DJ_PATCH"], repo=REPO_JSON, quick=160000, thorough=2000000, fuzz=8000, heavy=1))

prop(
    "C30", "Threads working on separate objects do not affect each other",
    "Any number of threads may at the same time use kl on objects of their own (serialize, deserialize, patch, resource requests, signals, exception info, paths, readers and writers, file views) or read one shared constant object "
    "(a value being dumped, a document being read, a path, an exception and its info, enum reflection tables), including the first uses in the process: there is no data race, and every operation gives the result it gives when run alone.",
    ["schedules", "inputs"], "all schedules of threads over all operations, values and types",
    "The tests run these parts in one thread; hidden shared state (static buffers, lazily built tables, missing thread-local state) shows only when first uses or calls of different threads overlap.",
    ["include/kl/detail/serialization.hpp", "include/kl/json.hpp", "include/kl/signal.hpp", "include/kl/exception_info.hpp", "include/kl/resource_op.hpp", "src/base64.cpp", "src/path.cpp"],
    [("reserved_field_names static", "include/kl/detail/serialization.hpp"), ("null_value static", "include/kl/json.hpp"), ("thread_local tls_signal_info", "include/kl/signal.hpp: get_tls_signal_info")],
    "Jobs over all parts are generated with their inputs; 2..4 threads run drawn job lists in a freshly forked process, under ThreadSanitizer, starting together; afterwards every job runs alone in the same process and must give the same result. A race report, a crash or a different result fails the case.",
    "Schedules are sampled; happens-before detection finds a race whenever both accesses occur. The YAML backend is left out (yaml-cpp nodes are not meant to be shared between threads).",
    dict(src="c30_thread_independence.cpp", extra=["jt_plain1.cpp","jt_plain2.cpp","jt_plain3.cpp","jt_plain4.cpp","jt_attr1.cpp","jt_attr2.cpp","jt_attr3.cpp"] + RES_SRC, flags=["-DJ_OUT","-DJ_IN","-DJ_PATCH"], repo=REPO_JSON + ["src/path.cpp", "src/base64.cpp", "src/file_view_unix.cpp"], quick=4000, thorough=120000, fuzz=0, tsan=True, workers=6, cap=40))

prop(
    "C31", "A type's own conversion and the caller's context are used everywhere",
    "Wherever a value occurs - as a field, in any container, optional, tuple, flattened or extra field - it is converted by its type's own conversion, exactly once: the members of serializer<T> that exist win over the ADL overloads for the backend, "
    "and those over the built-in conversion of reflected types. Every conversion is handed the caller's own context object, also one that is not derived from kl's; that context's skip_null_value decides which nulls are left out (unless field attributes decide), "
    "with optional_traits and empty_traits specialisations saying what null and empty mean. A patch hands the existing value to the type's own patch. Exceptions of a conversion reach the caller unchanged. This holds for writing text, writing trees, reading, patching, builders and extractors, in JSON and in YAML.",
    ["inputs"], "all values, documents and contexts; all places a customised type can be nested at",
    "Tests customise one type at one place; the dispatch happens anew in every container and both backends, with and without a context that names its backend.",
    ["include/kl/serialization.hpp", "include/kl/detail/serialization.hpp", "include/kl/json.hpp", "include/kl/yaml.hpp", "include/kl/serialization_fwd.hpp"],
    [("dispatch by priority", "include/kl/serialization.hpp: detail::dump, serialize, deserialize, patch"), ("skip_null_field", "include/kl/detail/serialization.hpp")],
    "Leaf types with a full serializer, a partial one, ADL overloads, both, or overloads for one backend only record each call in the context they receive. Random values of a struct that nests them in all containers are written, read and patched through both backends, with contexts of the harness "
    "(with and without a backend name, with drawn skip decisions) and with kl's own; the multiset of recorded calls (with tag, verb, value and document node), the document and the resulting value are compared with a model. Faults: the k-th conversion throws a foreign exception; documents are damaged.",
    "Model-based exploration; customised map keys are not exercised.",
    dict(src="c31_customization.cpp", extra=["cu_json.cpp","cu_json2.cpp","cu_yaml.cpp","cu_yaml2.cpp","cu_small.cpp","cu_small2.cpp"], yaml=True, repo=REPO_JSON + ["src/yaml.cpp"], quick=60000, thorough=1500000, fuzz=4000, heavy=1))

prop(
    "C32", "Values, documents and texts do not share state",
    "Writing a value (as text, as a tree, through a builder) never changes it, and reading or patching from a JSON or YAML document never changes the document. A document keeps its content - values as well as member names made from map keys or given to a builder as dynamic names - "
    "when the value, strings, text or viewed document it was made from are changed or destroyed, and so does a value read from a document that is changed or destroyed later. What is made twice from the same source is equal, patching twice equals patching once, and changing one document never shows in another (what a json::view or yaml::view, or a string_view read from a document, refers to remains that document's). "
    "The null found for a missing member or element is null every time, whatever the caller does with an earlier result.",
    ["histories", "inputs"], "all histories of writing, reading, patching, changing and destroying over all values and documents",
    "Each test converts once and drops everything together; sharing or dangling shows only when a source changes or dies first and its texts are too long for the in-place storage of strings.",
    ["include/kl/json.hpp", "include/kl/yaml.hpp", "include/kl/detail/serialization.hpp"],
    [("serialize_adl for strings, views; object_builder", "include/kl/json.hpp"), ("json_tree_backend::add_field", "include/kl/json.hpp"), ("at, get_null_value, has_field", "include/kl/yaml.hpp")],
    "A stateful history over up to four values, JSON documents (own, or several in one allocator) and YAML documents; every entity has a deep snapshot and after each step only the target may differ from its snapshot. Sources are overwritten and freed (AddressSanitizer sees dangling references); string lengths surround the in-place limits.",
    "Model-based exploration. A yaml::view added to a document shares its nodes by yaml-cpp's design and names given to json object_builder::add are documented as not copied; neither is claimed.",
    dict(src="c32_independence.cpp", yaml=True, repo=REPO_JSON + ["src/yaml.cpp"], quick=120000, thorough=3000000, fuzz=6000, heavy=1))
