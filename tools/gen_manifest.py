#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks there are."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "mc"))
from checks import CHECKS
GEN = ("stateless model checking of the implementation: depth-first enumeration of every choice sequence "
       "within the deviation bound, each execution compared with an executable reference model of the wire format")
EXP = ("explicit-state model checking: breadth of all operation histories up to a depth with state hashing, "
       "every transition executed on the real archive and compared with a reference model")
NOTES = {
 "C21": (GEN, "Fault enumeration: for 124 types, every allocation failing and every cut of the input, into fresh and used targets, and every allocation of every write; for 42 types made of objects whose constructors, assignments, comparisons and serialization throw at every point, six continuations after each failure; 13 applied or remote handlers. Objects are registered by address and memory blocks are counted."),
 "C25": (EXP, "18 byte sinks and 20+ sources (vector, string, array, span, plain array, view, const or not, of char, unsigned char and std::byte; deduced, named and helper-created archives; in_out and data_in_out) x 6 option sets x values of 24 types within 1 (2) deviations, every truncation and capacity: bytes, values, verdicts and positions compared with those of a vector of bytes."),
 "C26": (EXP, "18 kinds of sessions (ordinary, growing, fixed, protocol, RPC client/server, apply, failing, throwing), all pairs and 3 triples: all interleavings of their steps, all nestings at every callback into user code, every later use after 1..300 earlier ones, all thread schedules with up to 1 (2) preemptions at callbacks and allocations under a controlled scheduler; free threads under ThreadSanitizer."),
 "C27": (EXP, "26 value types (classes which register their address, move-only, over-aligned, references, pointers, containers): all histories of depth 4 (5) over construction, default construction, errors, moves, value() and or_throw() in every value category, assignment and destruction of three results, and all reachable states to depth 5 (8); 274 status codes, every pair compared; results of apply for 7 functions and every truncation."),
 "C01": (GEN, "Exhaustive over the stated value alphabet, 180 types and 7 (thorough: 10) option sets up to 2 (3) deviations from the default value per trace; clang/libc++ with ASan and UBSan (thorough: g++ as well). Values outside the alphabet are not covered."),
 "C02": (GEN, "As C01; the reference encoder is written from the documentation. Also every trace again over a used buffer at two offsets, after assignment and with other padding bytes."),
 "C03": (GEN, "All byte strings up to length 5 (6) over a 5 (7) letter alphabet and every one-byte mutation, removal, doubling and truncation of every encoding within 1 (2) deviations, compared with a reference decoder; exact heap copies under ASan decide memory safety."),
 "C04": (GEN, "Every cut point of every encoding within the C01 bounds."),
 "C05": (GEN, "Every capacity 0..size+12 and three offsets for every encoding within the C01 bounds, exact heap buffers under ASan."),
 "C06": (EXP, "All histories of depth 4 (5) over 30 operations (values, positions, option sets, archive re-creation) on 6 buffer/option families against a byte model."),
 "C07": (GEN, "Every declared length of the alphabet (around the limit, the input size, powers of two and the largest values) for every prefix width and container, with every allocation recorded and compared with the limit; every limit from 0 up to the output size for growing outputs."),
 "C08": (GEN, "Items which fail before or after themselves with five errors at every place (up to 3 (4) deviations), every truncation of the input and every capacity of the output, over every kind of container, nested."),
 "C24": (EXP, "All histories of depth 3 (4) over 18 reads, every position and resets on four byte streams and four archives, each read compared with a fresh archive and the reference decoder; depth 6 (8) of mixed reads and writes of one buffer."),
 "C09": (GEN, "All 8 and 16 bit values; every 32 and 64 bit value within 2 (3) bits of a power of two pattern; all group sequences up to 3 groups and, per longer length, every alphabet sequence, each followed by 0..12 further bytes, both decoder code paths, byte orders and byte types."),
 "C10": (GEN, "All 256 one-byte, 65536 two-byte identifiers and for longer ids every one within 2 bit flips or truncation of a declared one, from every previous alternative, in both byte orders; known ids in all forms; null pointers and valueless variants."),
 "C11": (GEN, "All pairs of alphabet values within 2 (3) deviations over both, and each again after a failed read."),
 "C18": (GEN, "17 message types, every value within 2 (3) deviations, in 9 option sets, at earlier content, in every capacity of a fixed buffer; the reference encoder is written from the protocol buffers specification."),
 "C19": (GEN, "For 17 message types every pair of records from an alphabet with every way to write each field and unknown and mismatching fields of every wire type, and every sequence of 3 or more over a smaller alphabet, in 9 option sets. One known finding (split embedded messages)."),
 "C20": (GEN, "All byte strings up to 6 (7) over an alphabet of about 13 bytes per message type, every one-byte mutation, insertion, removal and truncation of valid messages, with every relation between declared and actual length; also behind other data and under an allocation limit; allocations recorded."),
 "C22": (GEN, "Every message length 0..269 (and around 512, 1016 and 4000) for both hashes against an implementation of FIPS 180-4 which is itself checked with the standard's examples, in constant evaluation for every eighth (thorough: every) length; all hex digit pairs; ids of every width 1..32. One to three contents per length: contents are not exhaustive."),
 "C12": (GEN, "24 declared lengths x 0..8 bytes there x 3 starts x every cut of the prefix for 8 view/buffer pairs under 7 option sets, bare, unsized and with 5 explicit prefixes; views nested in 8 shapes; spans of 6 element types (dynamic and fixed, capacity 0..5) with guard elements; writing 6 element types as views."),
 "C13": (EXP, "Classes of 0..50 members in 5 styles (aggregate, private, described by a function, protobuf messages): every member traced on both sides with an error injected at each; 3 patterns of numbers for every count; 30 member types alone, in 8 containers, all 900 pairs and 512 triples of 8, squeezed and over-aligned, 20 odd classes (references, views, inherited members, arrays of arrays, nesting): bytes, values and every truncation in both byte orders against a member by member model."),
 "C14": (EXP, "What the compiler computes against what the program does, both for clang and gcc: 55 types x 9 option sets x 8 values, each with every capacity, every truncation, 5 changes of each of the first 14 bytes, appending, resetting, limits and growth; protocol messages of every length around 128, 256 and 16384; views, spans, fixed spans and raw bytes as sources and targets; all orders of 3 operations out of 7 on one pair of archives; functions applied at every truncation; byte conversions, joins, all slices and ids of constants."),
 "C28": (EXP, "38 types x 4 option sets x 8 values (every capacity, truncation, changes of bytes, positions, limits), message lengths around 128 and 16384, views, targets, applied functions and all orders of 3 operations, in six (ten) build configurations which are linked into one program with the library's namespace renamed: clang and gcc, libc++ and libstdc++, C++20 and C++23, -O0 to -O3, with and without inlining, exceptions, and signed characters."),
 "C29": (EXP, "All 2000 or so ordered selections of up to three compatible options out of 15, each on vector, string, fixed span, in_out and data_in_out archives with three values: bytes, positions, sizes, limits and what is read back against a model which applies the options one after another."),
 "C30": (EXP, "Built with a stand-in for zpp_throwing.h, with coroutines which start when called and ones which start when awaited: all 140 error codes through every kind of result; all programs of 3 (4) reads and writes of 6 forms in every room up to 23 bytes, awaited and not; 8 applied functions at every truncation; all histories of 2 (3) requests over 20 handlers (coroutine or not, free or member, opaque or not, with and without result and parameters), each succeeding or failing in four ways, with one request cut anywhere or for an unknown function, one response cut, and output of limited size."),
 "C15": (GEN, "18 callable kinds (function pointers and references, function objects, lambdas, member functions; const, noexcept, virtual, move-only) x 14 parameter lists x 5 result kinds x options; every deviation of the argument values, every cut, three corruptions of every byte, trailing data, and a callable which throws."),
 "C16": (EXP, "14 handlers of every kind under 9 id and option schemes: all histories of requests, unknown requests, serving and responses over every pair of handlers up to depth 5 (6) and over all handlers up to depth 3; for every single call every buffer size, cut, bit flip of the id, corruption of request and response, and header/body split; one shared buffer."),
 "C17": (EXP, "6 opaque forms (archive, output, both, view, view by reference, none) as function, member and constant member with 4 results: all sequences of 3 (4) requests mixing opaque and ordinary ones, for every amount consumed and produced by the handler and every way it ends."),
 "C23": (GEN, "20 counts around 2^7, 2^8, 2^9, 2^14, 2^16, 2^17 for 10 containers behind every wrapper and function form under 4 to 10 option sets, alone and nested in and next to other containers; all 78 aliases."),
}
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "mkdir -p build evidence", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = NOTES[i]
        m["checks"].append({"property": i, "quick_cmd": "./check %s quick" % i,
                            "thorough_cmd": "./check %s thorough" % i,
                            "technique": t, "level": CHECKS[i].get("level", "model_checking"), "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "the check is not built yet"})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
