#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with the checks)."""
import json, os
F = ["zpp_bits.h"]
def P(id, title, statement, over, qtext, why, mech, observe=None, state=None):
    a = {"files": F, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public archive API"]
    a["hook_needed"] = None
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}
OUT1 = ("basic_out::serialize_one overloads", "zpp_bits.h class basic_out")
IN1 = ("in::serialize_one overloads", "zpp_bits.h class in")
props = [
P("C01", "Round trip: reading back what was written yields the same value",
  "Whatever supported value is written by an output archive and read back by an input archive with the same byte-order and size options, the read succeeds, the value read equals the value written, and the read consumes exactly the bytes that were written. This holds for every nesting of fundamental types, enums, varints, aggregates and classes (members, free, friend and explicit serialization), arrays, sequence and associative containers, strings, optionals, owning pointers, variants, tuples, pairs, bitsets, and sized/unsized wrappers.",
  ["inputs", "configurations", "programs"],
  "for all values over a boundary alphabet of every type of a ~180-type universe, all byte-order x size-prefix option pairs, and every grouping of items into calls",
  "The tests round-trip one or two hand-picked values per type in the default configuration; interactions of type nesting, element count, byte order and size prefix are hardly touched.",
  [OUT1, IN1, ("visit_members / number_of_members reflection", "zpp_bits.h struct access"), ("endian::big/little, size options", "zpp_bits.h namespace endian, options")]),
P("C02", "Wire format: the bytes are exactly the documented layout",
  "The bytes produced for a value are exactly the documented layout: objects are their members in declaration order with no padding, names or alignment; numbers and enums occupy their own width in the selected byte order; variable containers are an element-count prefix (4 bytes unless an option says otherwise) followed by the elements; optionals and optional_ptr are one presence byte followed by the value if present, other owning pointers just the value; variants are the 1-byte index or the declared id followed by the alternative; bitsets are packed least-significant-bit first. The bytes depend only on the logical value and the options, never on padding, container capacity, spare variant storage or what the output buffer held before.",
  ["inputs", "configurations", "programs"],
  "for all values over the boundary alphabet of every type of the universe, all option pairs, all prior buffer contents and start offsets",
  "Tests mostly check that writing and reading agree with each other, so a symmetric format change passes; only a few types have their bytes asserted.",
  [OUT1, ("size prefix emission", "basic_out::serialize_one(concepts::container)"), ("variant index/id emission", "basic_out::serialize_one(concepts::variant)")]),
P("C03", "Arbitrary input decodes to the documented meaning or a clean error",
  "For every input byte string, decoding a type either succeeds with exactly the value the documented format assigns to the consumed bytes, or returns an error code; which of the two happens, the error code, and the number of bytes consumed on success are determined by the format. Decoding never accesses memory outside the input, never leaves the read position beyond its end, and never fails on a byte string that begins with a valid encoding.",
  ["inputs", "configurations"],
  "for all byte strings up to a bounded length over a hostile alphabet (and all single-byte corruptions of valid encodings), every type of the universe and option pair",
  "Tests feed decoders valid encodings, a handful of truncations and no corrupted data; malformed inputs are unbounded in number.",
  [IN1, ("bounds checks against remaining data", "class in: serialize_one"), ("length validation before growth", "in::serialize_one(concepts::container)")]),
P("C04", "Every truncated encoding is rejected as out of range",
  "Reading a value from any proper prefix of its encoding fails and reports the out-of-range error, whatever the type, options and point of truncation; nothing outside the prefix is read and the archive's position does not exceed the prefix.",
  ["inputs", "crash_points", "configurations"],
  "for all values of the alphabet, all types and option pairs, and every cut point 0..size-1 of the encoding",
  "Tests truncate two or three encodings at one point each; every cut inside prefixes, ids, presence bytes, elements and varints is a separate case.",
  [IN1, ("result_out_of_range returns", "class in, decode_varint")]),
P("C05", "Fixed-size output never overflows and succeeds exactly when data fits",
  "Writing to an output of fixed size (array, span, fixed container) succeeds exactly when the encoding fits in the space after the current position, and otherwise reports the out-of-range error; in both cases no byte outside the buffer, and on success no byte after the encoding, is modified. On success the position advances by exactly the encoding's size and bytes before the starting position keep their values.",
  ["inputs", "configurations", "histories"],
  "for all values/types/options, every buffer capacity 0..size+2, every start offset, and sequences of writes including failed ones",
  "Tests use roomy buffers; the boundary where capacity equals size or size-1 is exercised for almost no type.",
  [OUT1, ("bounds checks in fixed outputs", "class basic_out: serialize_one"), ("varint output bound", "serialize(archive, varint)")]),
P("C06", "Growing output holds exactly what the write history says",
  "After any sequence of successful writes, position resets, append/reserve/resize options and archive re-creations over a growable buffer, the buffer holds exactly the bytes those writes place at their positions and, by default, its size equals the larger of its earlier size and the end of the last write. With exact or custom growth factors the content is the same, with size fitting off only trailing spare bytes may differ, and earlier content never leaks into or is lost from regions not written.",
  ["histories", "configurations", "inputs"],
  "for all operation sequences up to a depth bound over writes of every encoding shape, resets, options, enlarger factors, fit/no-fit and dirty reused buffers",
  "Tests perform one or two writes on a fresh vector; position/size/content interactions depend on the history.",
  [("out::operator() enlarge/fit logic", "class out"), ("enlarge_for", "basic_out::enlarge_for"), ("options append/reserve/resize", "struct append, reserve, resize")],
  state=[("m_data", "the caller's buffer", "basic_out"), ("m_position", "write position", "basic_out")]),
P("C07", "Allocation limits and size arithmetic cannot be exceeded",
  "With an allocation limit set, no read enlarges any container, string or message beyond the limit in bytes because of a length taken from the input, and no write grows the output beyond its limit; violations report the message-size error on input and the no-buffer-space error on output. Reads of lengths at or below the limit behave exactly as without it, a write whose growth step stays within the limit succeeds, and no length taken from input or needed for output can wrap the size arithmetic, however large.",
  ["inputs", "configurations"],
  "for all declared lengths around 0, the limit, powers of two and the maximum of every prefix width, all element sizes, limits, container kinds and growth factors",
  "Tests check one or two limit values on one container; wrap-around and the exact boundary per container kind are not sampled.",
  [("alloc_limit option", "traits::get_alloc_limit, in::serialize_one, basic_out::enlarge_for"), ("growth overflow checks", "basic_out::enlarge_for")]),
P("C08", "Multi-item operations are sequential, stop at first failure, report it",
  "An archive call with several items behaves as the same items passed one after another: items before the first failing one are fully processed, items after it are neither read, written nor modified, and the first failure's error code is the one returned. Success and failure queries, conversion to the standard error code and exception translation all agree on the same outcome, user-supplied serialization errors are passed through unchanged, and the archive can keep being used afterwards.",
  ["histories", "fault_sequences", "configurations"],
  "for all item tuples up to a length bound with every item made to fail in every way, each reporting style, followed by continued use",
  "Tests observe single failures of single items; order, propagation through nesting and which code is reported are combinations.",
  [("serialize_many", "basic_out::serialize_many, in::serialize_many"), ("errc / or_throw", "struct errc, value_or_errc"), ("result propagation in every serialize_one", "class in / basic_out")]),
P("C09", "Variable-length integers encode minimally and decode exactly",
  "Every unsigned or signed integer or enum wrapped as a variable-length integer is written as the shortest base-128 little-endian group sequence of its (optionally zig-zag mapped) value, at most ceil(bits/7) bytes, and decoding returns the same value and consumes the same bytes however many bytes follow it. A group sequence longer than the type allows is rejected as too large, a truncated one as out of range, and both decoding code paths and all byte orders give the same result.",
  ["inputs", "configurations"],
  "for all 8/16-bit values, all group-boundary neighbourhoods of 32/64-bit values, all byte strings up to a bounded length over the group alphabet, every trailing-slack length, both decoder builds",
  "Tests check a dozen values with one buffer layout; the fast path depends on remaining bytes and only boundaries reveal shifts or masks that are off by one.",
  [("serialize(archive, varint)", "zpp_bits.h"), ("decode_varint", "zpp_bits.h"), ("varint_size", "zpp_bits.h"), ("ZPP_BITS_INLINE_DECODE_VARINT", "zpp_bits.h")]),
P("C10", "Variants and ids select exactly the declared alternative",
  "A variant is written with the index or declared identifier of its active alternative (integral, string, hash or multi-byte, with a fixed or caller-supplied known id omitted from the bytes) and reading that identifier activates exactly that alternative with its value. An identifier matching no alternative is reported as a bad message and a valueless variant or null mandatory pointer as an invalid argument; reading into a variant holding any alternative gives the same result.",
  ["inputs", "configurations", "histories"],
  "for all alternatives, prior alternatives, every 1-byte and near-miss multi-byte identifier, identifier kinds, byte orders and known-id forms",
  "Tests read each alternative once from a default-constructed variant; unknown and near-miss identifiers and prior state are not enumerated.",
  [("variant serialize_one", "class in / basic_out"), ("traits::variant ids", "traits::variant_impl"), ("known_id", "known_id_variant, known_dynamic_id_variant")]),
P("C11", "Reading into a used object equals reading into a fresh one",
  "Reading a value into an object that already holds any other value of its type gives exactly the same result, consumption and verdict as reading it into a newly constructed object: no earlier elements, keys, alternatives, pointees, bits or characters survive, and none of the new ones is dropped.",
  ["histories", "inputs"],
  "for all ordered pairs of alphabet values of every type of the universe, and all pairs in which the second read is a failing prefix followed by a good read",
  "Tests always decode into fresh objects.",
  [("clear/resize before reading", "in::serialize_one(container, associative, optional, variant, pointer, bitset)")]),
P("C12", "Views read from input alias it exactly and never own or copy",
  "Reading a view type (string view, span of constant bytes, sized or unsized) yields a view whose address and length denote exactly the encoded element bytes inside the caller's input, which are left unmodified. A declared length exceeding the remaining input is rejected without producing a view outside the input. A span of mutable elements is filled with the elements read and nothing beyond it is written, and writing a view produces the same bytes as writing the owning container.",
  ["inputs", "configurations"],
  "for all element counts and declared lengths, element sizes, preceding offsets, size options, and views nested in objects",
  "Tests check a couple of string views by content, not by extent against hostile lengths.",
  [("view branch", "in::serialize_one(concepts::container)"), ("unsized view", "serialize_one<void>"), ("bytes / as_bytes", "class bytes")]),
P("C13", "Bulk byte-copy is invisible and member discovery complete",
  "Whether an object or element sequence is processed by bulk byte copy or member by member, the bytes and the decoded values are the same; objects with padding, pointers, references, custom serialization or foreign byte order are never bulk-copied wrongly. For aggregates with any supported number of members (0 to 50), every member is visited exactly once in declaration order on both sides.",
  ["programs", "configurations", "inputs"],
  "for all member counts 0..50, member-type patterns around padding/alignment/byte order, arrays and containers of them, with implicit and explicit member counts",
  "Tests cover a few struct shapes; eligibility is decided per type at compile time, and each arity has its own hand-expanded code.",
  [("byte_serializable / endian_independent_byte_serializable", "struct access"), ("visit_members expansions", "access::visit_members"), ("number_of_members", "access::number_of_members")]),
P("C14", "Compile-time and run-time evaluation agree",
  "Serializing and deserializing in constant evaluation gives the same bytes, values, positions and error codes as at run time, for every type usable in constant expressions and every option, including the compile-time byte helpers that convert to and from bytes, join and slice.",
  ["inputs", "configurations"],
  "for all alphabet values of constant-evaluable types and options, encodings, truncations and corruptions, each evaluated both ways",
  "The code takes different branches during constant evaluation; tests check a few constants and never compare the two.",
  [("std::is_constant_evaluated branches", "basic_out/in serialize_one, varint"), ("to_bytes/from_bytes/join/slice", "zpp_bits.h")]),
P("C15", "Applying a function to input decodes its arguments and calls it once",
  "Applying a callable to an input archive decodes exactly the callable's parameters, in order, and calls it exactly once with those values, returning its result; if any argument fails to decode, the callable is not called and that error is returned. This holds for every callable kind (function pointer, lambda, member function, with or without result, no parameters).",
  ["inputs", "configurations", "programs"],
  "for all callable kinds x parameter lists x argument values, and every truncation of the encoded arguments",
  "Tests call a few functions with valid data; failure at each argument is not tested.",
  [("apply", "zpp_bits.h apply()"), ("function_traits", "zpp_bits.h")]),
P("C16", "RPC delivers each call once to its handler and returns its result",
  "For any sequence of requests over byte buffers, the server runs exactly the handler bound to each request's id, exactly once, with the arguments the client sent, and the client decodes exactly the value the handler returned, in order. A request with an unknown id runs no handler and reports an error, a truncated or corrupted one that fails to decode runs no handler and reports that error, and request, serve and response consume exactly their own bytes; header/body split forms behave the same.",
  ["histories", "inputs", "configurations"],
  "for all call sequences up to a depth bound over a set of bindings of all kinds and id types, with truncation and unknown ids at every step",
  "Tests make one or two calls through matching bindings and never a failing one.",
  [("rpc_impl client/server", "struct rpc_impl"), ("bind", "struct bind"), ("serve dispatch", "server::serve")]),
P("C17", "Opaque RPC bindings see exactly the request bytes and consume their own",
  "A handler bound without argument decoding receives exactly the undecoded remainder of the request (as an archive or a byte view) and whatever it returns or writes becomes the response; afterwards both archives are positioned just past what the handler consumed and produced, so following requests are handled unaffected.",
  ["histories", "configurations"],
  "for all opaque binding kinds, amounts consumed/produced by the handler, and sequences mixing opaque and ordinary calls",
  "Tests call one opaque handler per kind once.",
  [("bind_opaque", "struct bind_opaque"), ("serve", "rpc_impl::server")]),
P("C18", "Protocol-buffers encoding is a conforming encoding of the message",
  "A message type declared for protocol-buffers encoding is written as the concatenation of its fields in declaration order: each with the tag of its field number (implicit position, explicit wrapper or mapping) and the right wire type, varints minimal, fixed-width values little-endian on every archive, strings, bytes, nested messages and packed repeated numbers length-delimited, non-packed repeated fields and map entries one record per element. The message's own length prefix is the one the archive options select (none when disabled).",
  ["inputs", "configurations", "programs"],
  "for all alphabet values of a family of message types covering every field kind and numbering form, all option combinations, compared with an independent encoder",
  "Tests compare a few messages with captured bytes under the default options.",
  [("pb::operator(), serialize_one", "struct pb (output)"), ("make_tag", "pb::make_tag"), ("size prefix", "basic_out::serialize_one(by_protocol)")]),
P("C19", "Protocol-buffers decoding accepts every valid encoding of a message",
  "Any conforming protocol-buffers encoding decodes to the value the specification assigns: fields in any order, absent (left at default), repeated (last one wins for singular scalar, string and bytes fields, concatenation for repeated ones), packed or unpacked, padded varints, map entries with missing or swapped key/value and duplicate keys (last wins), and unknown fields of every current wire type (varint, 32-bit, 64-bit, length-delimited), which are skipped. The decode consumes exactly the message.",
  ["inputs", "configurations"],
  "for all record sequences up to a length bound over the record alphabet of each message type, compared with an independent decoder",
  "Tests only decode what the library itself encoded.",
  [("pb::operator() for input", "struct pb"), ("deserialize_field", "pb::deserialize_field")]),
P("C20", "Hostile protocol-buffers input is contained",
  "For every byte string given as a protocol-buffers message, decoding either succeeds with the value the specification assigns or reports an error; a declared length larger than the enclosing message or input is always rejected, no byte outside the message's declared length influences or is consumed by it, nothing outside the input is accessed, and memory growth stays bounded by the input size and any allocation limit.",
  ["inputs", "configurations"],
  "for all byte strings up to a bounded length over the tag/length alphabet of each message type and all single-byte corruptions of encodings, compared with an independent decoder",
  "Tests feed no malformed protocol-buffers data.",
  [("pb::operator() for input", "struct pb"), ("deserialize_field length handling", "pb::deserialize_field"), ("message size handling", "in::serialize_one(by_protocol)")]),
P("C21", "No leak, double destruction or broken object on any failure",
  "However a read or write ends (success, error at any byte, allocation failure at any allocation, exception from any element constructor or handler), every object created is destroyed exactly once, no memory leaks, targets stay destructible and assignable, and the archive and buffers stay usable.",
  ["fault_sequences", "crash_points", "inputs"],
  "for all types of the universe owning resources, every truncation point, every allocation index made to fail, every tracked constructor made to throw",
  "Tests never inject allocation failures or throwing constructors, and check only final values.",
  [("access::make / destruct / make_unique, destructor_guard", "struct access"), ("owning pointer and variant/optional construction", "class in"), ("opaque/serve guards", "bind_opaque, rpc server")]),
P("C22", "Compile-time hashes, hex literals and ids equal their standards",
  "The compile-time SHA-1 and SHA-256 of any string or object, and the integers and ids derived from them (of any supported length), equal the standard digests of its bytes, for every message length including those around block-padding boundaries. Hex literals decode to the bytes they spell and ids of any width serialize to exactly their bytes.",
  ["inputs"],
  "for all message lengths 0..200 (several contents each), all byte values in hex in both cases, all id widths, against an independent implementation",
  "Tests check a handful of digests, all of short messages away from padding boundaries.",
  [("sha1/sha256", "zpp_bits.h"), ("_decode_hex, _sha1, _sha256 literals", "literals"), ("id / serialize_id", "zpp_bits.h")]),
P("C23", "Size-prefix control is honoured exactly",
  "The length prefix of a container has exactly the width and kind requested by the wrapper or archive option (1, 2, 4, 8 bytes, native, variable-length, or none) in the archive's byte order, on output and input alike; a wrapper overrides the archive's option for that container alone, including nested and in associative containers and strings. When a container has more elements than its prefix can express, fewer elements are written so that the output is still decodable, and unsized containers read exactly as many elements as the caller's container already holds.",
  ["inputs", "configurations"],
  "for all prefix kinds x container kinds x counts around 0, 127/128, 255/256, 16383/16384, 65535/65536, wrapper and option combinations, nested",
  "Tests use counts below 128 with a few prefix kinds.",
  [("sized_item / sized_item_ref / sized_t", "zpp_bits.h"), ("size options", "options, traits::default_size_type"), ("count truncation", "basic_out::serialize_one(container)")]),
P("C24", "Reading is a pure function of the bytes and the position",
  "For any history of reads, failed reads, resets and direct position changes within the data, each read returns what a fresh archive positioned at the same offset would return and moves the position to the same place; the processed and remaining views always partition the data at the position, and reading never changes the data.",
  ["histories", "inputs"],
  "for all operation sequences up to a depth bound over reads of several types, resets to every offset and position updates",
  "Tests read a stream once front to back.",
  [("in::position/reset/remaining_data/processed_data", "class in")],
  state=[("m_position", "read position", "class in")]),
P("C25", "All byte sources and sinks are equivalent",
  "The same writes produce the same bytes and the same reads produce the same values and verdicts whatever the buffer's byte type (char, unsigned char, standard byte), whatever its container (vector, string, array, span, plain array, view, const or not), and however the archive is created (deduced type, helper functions, combined in/out or self-owned data).",
  ["configurations", "inputs", "programs"],
  "for all byte types x containers x creation helpers x options x values of representative types, full and truncated",
  "Tests use a vector of bytes almost everywhere.",
  [("in / out deduction guides", "zpp_bits.h"), ("input/output/in_out/data_in_out", "zpp_bits.h"), ("bytes conversion", "class bytes")]),
P("C26", "Independent archives never interfere",
  "Archives working on distinct buffers and objects give the results they give alone, under every interleaving of their operations, including when one is used from inside another's user-provided serialization or handler, and when used concurrently from different threads.",
  ["schedules", "histories"],
  "for all interleavings at every user-visible callback point of 2-3 concurrent serialization/deserialization/RPC tasks up to a preemption bound, plus all nestings",
  "Tests are single-threaded and never interleave two archives.",
  [("absence of shared mutable state", "all of zpp_bits.h"), ("rpc client/server state", "rpc_impl")]),
P("C27", "Result objects faithfully carry either a value or an error",
  "A value-or-error result holds exactly one of the two: it reports success exactly when it holds a value, gives back that value (by copy, reference or move) or that error unchanged, survives moves, converts failure to the documented exception, and destroys the value exactly once. Status results compare, convert, report success/failure and throw consistently for every error code.",
  ["histories", "inputs"],
  "for all operation sequences up to a depth bound on results holding values (owning, reference, move-only) or any error code",
  "Tests only unwrap successful results.",
  [("value_or_errc", "struct value_or_errc"), ("errc", "struct errc"), ("or_throw", "errc, value_or_errc")]),
]
props.append(
P("C28", "Separately built programs read and write the same",
  "The bytes written, the values read, the verdicts, error codes and positions depend on the values and the options only, not on how the program is built: not on the compiler, the standard library, the language standard, optimization and inlining switches, the variable-length integer decoder selected, whether plain characters have a sign, or whether exceptions are enabled, so that separately built programs exchange data. (An allocation limit counts bytes of memory, which objects of a library take more or fewer of.)",
  ["configurations", "inputs"],
  "for all cases (type, options, value, capacity, truncation, changed byte) of the compile-time evaluation check, in every one of six (ten) build configurations",
  "The tests are built with one compiler, library and set of switches.",
  [("inline modes, ZPP_BITS_INLINE_DECODE_VARINT", "zpp_bits.h configuration macros"), ("bit_cast and exception fallbacks", "zpp_bits.h")]))
props.append(
P("C29", "Options mean the same in every combination, order and place",
  "Each archive option has its documented effect whatever other options are given with it, in whatever order they are given, and on every kind of archive (growing, fixed, combined, self-owned; input and output alike): the byte order, the size prefix, the allocation limit, the growth, fitting and overflow options are independent of each other and of their order, and append, reserve and resize are applied one after another as given.",
  ["configurations", "inputs"],
  "for all ordered selections of up to three compatible options out of fifteen, every kind of archive and several values",
  "Tests give one or two options in one order; each combination is different code after template instantiation.",
  [("option detection", "traits::get_default_size_type, get_alloc_limit, get_enlarger; endian_aware and no_fit_size folds"), ("option application", "struct option, basic_out::option")]))
props.append(
P("C30", "Errors pass through co_await and coroutine handlers unchanged",
  "When the header of zpp::throwing is found: awaiting a status or a value-or-error result goes on (with the value) exactly when it holds no error and otherwise passes on that very error code; awaited reads and writes do what unawaited ones do; and functions which are applied, bound or bound opaquely may be coroutines: each request runs its handler exactly once with the arguments sent, answers its result, and serving it fails with the error of the handler, wherever it came from, or of the library, having answered nothing.",
  ["programs", "histories", "inputs"],
  "for all error codes, all short programs of reads and writes in every room, and all histories of requests over 20 handlers of every kind, each succeeding or failing in every way, with damaged requests and too little room",
  "The tests of this are not even compiled, as the header is not there; what they have covers success only.",
  [("errc::operator co_await, value_or_errc::operator co_await", "struct errc, struct value_or_errc"), ("server::call_binding_throwing", "rpc_impl::server"), ("client::response", "rpc_impl::client")]))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
