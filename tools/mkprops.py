#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

BE, BD, JE, JD, CO, RE, AM, EN, DE, DC, SC = ("binary-encode.go", "binary-decode.go", "json-encode.go", "json-decode.go",
  "codec.go", "reflect.go", "amino.go", "encoder.go", "decoder.go", "deep_copy.go", "cmd/aminoscan/aminoscan.go")

prop("C01", "Binary round trip",
 "For every supported Go type and every value of it, decoding the bytes produced by binary encoding into a fresh variable of the same type succeeds, consumes all the bytes and yields the original value, up to the documented normalisations (nil and empty slices are the same, pointers to default values come back nil, absent times are 1970, times come back in UTC without a monotonic clock, excluded fields come back zero). This holds for values at the top level as well as nested in structs, pointers, arrays, slices and registered interface values, whatever their length, depth or number of fields.",
 ["inputs", "programs"], "all generated struct types (field kinds, tags, nesting, >15 fields) times all values, boundary lengths and numbers included",
 "the tests fuzz about thirty fixed struct types with gofuzz and compare loosely; type shape (tags, pointers, nesting, list kinds, top-level forms) is never varied",
 [BE, BD, AM, RE, EN, DE],
 [("encodeReflectBinary/decodeReflectBinary and their per-kind helpers", BE + ", " + BD), ("default-value skipping", RE)],
 ["MarshalBinaryBare -> UnmarshalBinaryBare"])
prop("C02", "Binary encoding follows the documented wire format",
 "The bytes of every encoded value are exactly those the Amino/Proto3 wire rules prescribe: fields numbered from 1 in declaration order skipping unexported and json:\"-\" fields, keys (number<<3 | wire type), uvarint int/uint kinds, zigzag int8/int16, little-endian fixed32/fixed64/floats, length-delimited strings, bytes, structs and times, packed lists of scalars, repeated keyed entries for other lists, default-valued fields omitted unless write_empty or a non-nil pointer, and top-level non-structs wrapped as field 1 of an implicit struct. No two encodings are ever acceptable: the output equals an independently computed reference byte for byte.",
 ["inputs", "programs"], "all generated types and values; bytes compared with an independent reference encoder",
 "a round trip cannot see a wire change that encoder and decoder share; the tests pin the bytes of a few dozen values only",
 [BE, EN, CO, RE],
 [("writeFieldIfNotEmpty, encodeReflectBinaryStruct/List", BE), ("parseStructInfo field numbering and tags", CO), ("typeToTyp3", RE)],
 ["MarshalBinaryBare output"])
prop("C03", "Proto3 interoperability",
 "For messages both systems can express, Amino and a Proto3 implementation produce the same bytes for the same field values, and each decodes the other's encoding to the same field values. This covers varint, fixed, bool, string and bytes scalars, nested messages, packed and unpacked repeated fields, enums and timestamps.",
 ["inputs"], "all field values of a family of message schemas that have a Proto3 definition",
 "tests/proto3 compares a handful of hand-picked messages, most with the build tag off",
 [BE, BD, EN, DE],
 [("Proto3 compatible keys, varints and repeated fields", BE)],
 ["amino bytes vs golang/protobuf bytes"])
prop("C04", "Encoding is canonical and deterministic",
 "The encoding of a value is a pure function of its logical content: repeated calls, fresh or well-used codecs, registration order, pointer indirection depth, nil versus empty slices, slice capacity, addressability and interface values reached by pointer or by value never change a byte, for binary and (maps and omitempty/null distinctions aside) for JSON. Two logically different values of the same type never have the same binary encoding.",
 ["inputs", "histories"], "pairs of representations of the same value, pairs of different values, orders of registration and prior calls on the codec",
 "the tests encode each value once, on one codec, in one representation",
 [BE, JE, CO, RE],
 [("derefPointers, isDefaultValue", RE), ("typeInfo cache", CO)],
 ["MarshalBinaryBare, MarshalJSON output"])
prop("C05", "Registered types keep their identity inside interfaces",
 "A registered concrete value in an interface is written as the prefix bytes derived from its registered name by the documented SHA-256 rule, preceded by 0x00 and the disambiguation bytes exactly when the interface always disambiguates or another registered implementer shares the prefix, followed by its own encoding; at the top level a registered value is preceded by its prefix bytes. Decoding gives back the same dynamic type, pointer or non-pointer as registered, with an equal value, in binary and JSON, even among colliding prefixes; bytes naming an unknown or wrong type, or one that doesn't implement the interface in the form it was registered in, are rejected.",
 ["inputs", "configurations"], "registration sets (struct and non-struct kinds, pointer and value receivers, colliding names, always-disambiguate, several interfaces) times values",
 "the tests register a few types without prefix collisions and check them at one position",
 [CO, BE, BD, JE, JD, RE],
 [("nameToDisfix", CO), ("encodeReflectBinaryInterface / decodeReflectBinaryInterface", BE + ", " + BD), ("constructConcreteType", RE)],
 ["encoded bytes, reflect.TypeOf(decoded)"],
 [("Implementers", "per-interface map of prefix to registered concrete types", CO), ("disfixToTypeInfo / nameToTypeInfo", "reverse lookup", CO)])
prop("C06", "Registration rules hold over every history",
 "Registering on a codec succeeds exactly when it is legal: not sealed, the type not registered or used before, the name not taken, not a pointer to pointer or to interface, and every prefix conflict between implementers of an interface listed in that interface's priority list. A rejected registration panics and leaves the codec behaving exactly as before, a sealed codec rejects every registration but still encodes and decodes, and the printed type table lists exactly the successfully registered concrete types in order with their names and prefixes.",
 ["histories"], "all sequences of RegisterInterface/RegisterConcrete/Seal/encode/decode/PrintTypes calls, legal and illegal",
 "codec_test tries single illegal registrations on fresh codecs and never uses the codec afterwards",
 [CO],
 [("setTypeInfoNolock, addCheckConflictsWithConcreteNolock, checkConflictsInPrioNolock", CO), ("assertNotSealed", CO)],
 ["panic or not, PrintTypes output, encodings afterwards"],
 [("typeInfos, concreteInfos, interfaceInfos, disfixToTypeInfo, nameToTypeInfo, sealed", "the registry", CO)])
prop("C07", "Binary decoding survives arbitrary bytes",
 "Binary decoding of any byte string into any supported target type returns a value or an error: it never panics, always terminates, and allocates no more memory than a fixed multiple of the input (for the target type), whatever lengths the input claims. This holds for the bare, length-prefixed and stream decoders and for the exported primitive decoders.",
 ["inputs"], "all byte strings (random, structured and mutated valid encodings) times target types",
 "the tests have a few fixed malformed inputs; the gofuzz loop feeds random bytes to a fixed list of types",
 [BD, DE, AM],
 [("slide and DecodeByteSlice bounds checks", RE + ", " + DE), ("length checks of UnmarshalBinaryLengthPrefixed(Reader)", AM)],
 ["panic, CPU time, bytes allocated"])
prop("C08", "JSON decoding survives arbitrary text",
 "JSON decoding of any byte string into any supported target type returns a value or an error: it never panics, always terminates and allocates no more memory than a fixed multiple of the input per level of nesting.",
 ["inputs"], "all byte strings (random, grammar-generated and mutated valid documents) times target types",
 "json_test feeds a fixed list of malformed documents",
 [JD, AM],
 [("decodeReflectJSON and helpers", JD)],
 ["panic, CPU time, bytes allocated"])
prop("C09", "Malformed binary input is rejected",
 "Binary decoding returns an error for every input that is not an encoding of the target type: truncated anywhere inside a value, trailing bytes, fields out of order or repeated, wrong wire types or field numbers, integers and booleans out of range of the target, varints longer than 64 bits, wrong array lengths, wrong or missing prefix bytes, length claims that disagree with the contents. In particular no error inside a nested value is lost and no byte is silently skipped or read twice.",
 ["inputs", "fault_sequences"], "every single structured corruption of every generated valid encoding",
 "the tests check a dozen fixed corruptions of fixed types",
 [BD, DE, AM],
 [("field number and typ3 checks", BD), ("range checks", BD + ", " + DE), ("leftover-byte checks", BD + ", " + AM)],
 ["error or not"])
prop("C10", "Accepted binary input has one stable meaning",
 "Whenever binary decoding accepts an input, the decoded value can be encoded again, that encoding decodes to the same value (up to the normalisations of the binary round trip), and encoding that again gives the same bytes. Decoding the same bytes twice always gives the same value, and if the input was not canonical the re-encoding is the canonical form.",
 ["inputs"], "all accepted byte strings, canonical or not, times target types",
 "no test re-encodes what was decoded from bytes the encoder did not produce",
 [BD, BE],
 [("decoder normalisation matches encoder defaults", BD + ", " + BE)],
 ["decode, encode, decode, encode"])
prop("C11", "Length-prefixed framing and streams",
 "The length-prefixed encoding of a value is the uvarint length followed by its bare encoding, and the writer form writes exactly those bytes and reports their count and the writer's error. Reading a stream of such messages, through a reader that delivers data in any chunking, returns each message in turn, consumes exactly the bytes of the message and reports that count; it never reads past the message, and a message larger than a positive size limit, a malformed length or a stream that ends or fails early gives an error before an oversized body is read, without ever taking more bytes than the limit.",
 ["inputs", "fault_sequences"], "message sequences, chunkings, limits around the exact sizes, read/write errors at every offset",
 "the tests read one whole message from a bytes.Buffer with one limit",
 [AM],
 [("UnmarshalBinaryLengthPrefixedReader, MarshalBinaryLengthPrefixedWriter", AM)],
 ["bytes consumed from the reader, n, err"])
prop("C12", "Schema evolution by appending fields",
 "Bytes written by a newer version of a struct that has extra fields appended at the end decode into the older version with the common fields intact, and bytes written by an older version decode into the newer one with the missing fields at their defaults. This holds for appended fields of every supported kind, lists included, at the top level and for structs nested anywhere in a message.",
 ["programs", "inputs"], "pairs of generated struct types where one extends the other, at every nesting position, times values",
 "the tests have two pairs of fixed structs with scalar fields",
 [BD],
 [("consumeAny, trailing field loop", BD)],
 ["decoded common fields"])
prop("C13", "JSON round trip",
 "For every supported Go type and every value of it (strings valid UTF-8), the JSON encoding is valid JSON and decoding it, indented or not, into a fresh variable gives the original value up to the documented normalisations (empty and nil slices are the same, times in UTC). This includes 64-bit integers over their full range, bytes, times, maps with string keys, pointers, registered interface values and omitempty fields.",
 ["inputs", "programs"], "all generated struct types and values",
 "the tests cover a fixed list of values and types",
 [JE, JD],
 [("encodeReflectJSON / decodeReflectJSON and helpers", JE + ", " + JD)],
 ["MarshalJSON/MarshalJSONIndent -> UnmarshalJSON"])
prop("C14", "JSON encoding follows the documented format",
 "The JSON of every value has the documented shape: int, int64, uint and uint64 as decimal strings, smaller integers, floats and booleans as in encoding/json, bytes as base64 strings, times as RFC3339 UTC strings ending in Z, structs as objects with their fields in declaration order under their json names, fields excluded by json:\"-\" or unexported absent, omitempty fields absent exactly when empty, nil pointers, slices and interfaces as null, and registered values wrapped as {\"type\": name, \"value\": ...}. The document equals one computed independently from the value.",
 ["inputs", "programs"], "all generated types and values; output compared with an independent reference",
 "round trips cannot see a format change shared by encoder and decoder; the tests pin a few dozen documents",
 [JE],
 [("encodeReflectJSON*", JE)],
 ["MarshalJSON output"])
prop("C15", "JSON decoding is strict",
 "JSON decoding returns an error rather than a guess for documents that do not denote a value of the target type: unquoted 64-bit integers, quoted small integers, out-of-range, fractional or non-decimal numbers, times that are not RFC3339 strings ending in Z, invalid base64, arrays of the wrong length, wrong JSON kinds (null, which stands for the zero value, excepted), interface values without a known registered implementing type name and value, a top-level type name other than the target's, and truncated or trailing text. No error inside a nested value is lost.",
 ["inputs", "fault_sequences"], "every single structured corruption of every generated valid document",
 "the tests check a dozen fixed corruptions at the top level",
 [JD],
 [("decodeReflectJSON*", JD)],
 ["error or not"])
prop("C16", "DeepCopy is deep and faithful",
 "DeepCopy of any value built from exported data returns a value of the same type that is deeply equal to the source (nil and empty preserved) and shares no mutable memory with it: no later change through either one is visible in the other. The source is left unmodified, unexported fields are zero in the copy, and struct, list and pointer types with their own DeepCopy method, or MarshalAmino/UnmarshalAmino pair, are copied through those wherever they occur.",
 ["inputs", "programs"], "all generated types and values, including nil pointers at every level, pointers to pointers, interfaces, maps, slices of slices",
 "deep_copy_test checks six fixed values with == on the copied pointers' contents and never mutates a copy",
 [DC],
 [("_deepCopy, callDeepCopy, callAminoCopy", DC)],
 ["reflect walk of both values, mutation of one"])
prop("C17", "Custom representations",
 "A type with MarshalAmino/UnmarshalAmino is encoded, in binary and JSON and at every position (top level, field, pointer, list element, array element, interface value, nested representation), exactly as its representation value would be, and decoding calls UnmarshalAmino with an equal representation (representations of the same wire kind as the type, default exactly when the value is). An error returned by either method is returned by the codec call and never dropped.",
 ["inputs", "programs"], "all positions times representation kinds times values and failing methods",
 "repr_test covers one type at the top level",
 [BE, BD, JE, JD, RE, CO],
 [("toReprObject", RE), ("IsAminoMarshaler / IsAminoUnmarshaler branches", BE + ", " + BD + ", " + JE + ", " + JD)],
 ["bytes compared with those of the representation; recorded method calls"])
prop("C18", "A codec is safe for concurrent use",
 "Any number of goroutines may encode, decode, inspect and print on one codec at the same time, including the first use of types that the codec has not seen before, without data races, panics or deadlocks, also from methods, readers and writers that a call on the codec is calling, and every call returns what it would have returned had it run alone. They may register and seal as well: of registrations that exclude each other exactly one succeeds, the printed table lists those that did, their types work from then on, and nothing is registered once Seal has returned.",
 ["schedules", "inputs"], "random interleavings of encode/decode/PrintTypes/Register/Seal calls by several goroutines on fresh and shared types",
 "no test uses a codec from two goroutines",
 [CO, AM],
 [("cdc.mtx", CO)],
 ["race detector, results compared with a sequential run"],
 [("typeInfos", "lazily extended cache of type information", CO)])
prop("C19", "Exported primitive codecs are exact inverses",
 "For every value, each exported primitive Encode function (integers, floats, bool, strings, byte slices, times) writes the documented bytes, the matching Decode function returns the same value and the exact number of bytes written whatever follows them, and the size functions equal the number of bytes written. Every proper prefix of an encoding is an error, integers and booleans outside the target range are errors, and writer errors are returned. NameToDisfix and DecodeDisambPrefixBytes follow the documented prefix rule in the same exact way.",
 ["inputs"], "the full integer ranges by boundary-biased generation (8 and 16 bit exhaustively), strings and byte slices around varint length boundaries, all split points",
 "the tests check about five values per function",
 [EN, DE],
 [("Encode*/Decode*/*Size", EN + ", " + DE)],
 ["bytes, n, err"])
prop("C20", "Calls are isolated from their inputs and targets",
 "Encoding never modifies the value; decoding never modifies the input bytes, and the decoded value shares no memory with the input, so later changes to the input buffer or to one decoded value never show up elsewhere, slices and maps taken from the target before decoding keep their contents, and two encodings never share memory. Decoding into a variable that already holds data gives the same result as decoding into a fresh one (in binary non-nil interfaces are refused, in JSON missing omitempty fields keep their contents).",
 ["inputs", "histories"], "all generated types and values, dirty targets, buffers overwritten after decoding",
 "the tests always decode into fresh variables and drop the buffer",
 [BE, BD, DE, JD],
 [("DecodeByteSlice copies", DE), ("absent fields are set to their default", BD)],
 ["value before/after, decoded value after the buffer is scrambled"])
prop("C21", "Times follow the Timestamp rules",
 "Every time from year 1 through year 9999 round-trips as the same instant to the nanosecond, in UTC with no monotonic part, in binary and JSON, at every position, and its binary form is the Proto3 Timestamp with seconds floored and nanoseconds in [0, 999999999], zero parts omitted. Times outside that range, and encodings with out-of-range seconds or nanoseconds, are errors in both directions of binary coding; a time missing from binary decodes as 1970-01-01 UTC.",
 ["inputs"], "all instants (boundary seconds and nanoseconds, before and after 1970, any location), all (seconds, nanos) wire pairs",
 "time2_test checks a few instants",
 [EN, DE, JE, JD, RE],
 [("EncodeTime, DecodeTime, decodeSeconds, decodeNanos", EN + ", " + DE), ("defaultValue", RE)],
 ["bytes, decoded time"])
prop("C22", "All entry points agree",
 "For the same value the package-level functions, the codec methods, their Must forms, pointer or value arguments, and the bare, length-prefixed, writer and indent forms give corresponding results: the same bytes or decoded value, errors in the same cases, with Must forms panicking exactly when the plain form returns an error.",
 ["inputs"], "generated types and values, valid and invalid inputs",
 "each entry point is tested alone",
 [AM],
 [("thin wrappers over gcdc and the Bare forms", AM)],
 ["results of every entry point on the same input"])
prop("C23", "aminoscan accounts for every byte",
 "The aminoscan tool, given the hex of a well-formed struct message, reports every field in order with the right field number, wire type and value, reproduces every byte of the input and no error; given a malformed message it terminates with an error that reports the bytes it could not parse and does not crash. With --color it prints every byte, as itself where it is printable and in hex otherwise. With --concrete-name it prints the disambiguation and prefix bytes of the name.",
 ["inputs"], "encodings of generated structs and arbitrary byte strings",
 "the tool has no tests",
 [SC],
 [("scanStruct, scanFieldKey, scanByteLength", SC)],
 ["tool output and exit status"])
prop("C24", "Unsupported values are refused, never mangled",
 "Values that the format cannot express are refused with an error or panic on encoding, in every position, and never encoded as something else: floats without the unsafe tag, unregistered interfaces and concrete types in interfaces, nil pointers in interfaces, non-empty lists nested too deeply, non-empty maps in binary, non-nil channels and functions, complex numbers, nil struct pointers in empty_elements lists. Decoding anything but zeros or null into such a type (floats without the tag, channels, functions, complex numbers, unregistered interfaces, maps in binary, maps with keys that aren't strings in JSON) is refused as well. After a refusal, even by panic, the same codec goes on working as before.",
 ["inputs", "histories"], "every kind of unsupported value at every position, followed by ordinary use of the codec",
 "the tests check a few refusals on fresh codecs",
 [BE, JE, CO],
 [("checkUnsafe, typeToTyp3", RE), ("multidimensional checks", BE), ("getTypeInfoWlock locking", CO)],
 ["error or panic, later calls on the codec"])
prop("C25", "Types with their own JSON form are used everywhere",
 "A type with MarshalJSON (of its values; or of pointers to it, where the value can be pointed to: in all that is encoded by a pointer but map values and values in interfaces) is written in JSON as the text MarshalJSON returns, white space aside, and a type with UnmarshalJSON is read by handing it exactly the piece of the document at its place, at every position: top level, struct fields, list, array and map elements, behind pointers, inside interfaces and inside custom representations (lists of one-byte numbers remain one base64 string); registered types keep the type/value wrapper around it. They take precedence over MarshalAmino and UnmarshalAmino in JSON and change nothing in binary. A null in the document gives the zero value. Errors of either method come out of the codec and leave it usable.",
 ["inputs"], "all positions of such types in generated types, any JSON text as their form",
 "json_test has one such type in a few places",
 [JE, JD],
 [("encodeReflectJSON: override check", JE), ("decodeReflectJSON: override check", JD)],
 ["JSON bytes, texts given to UnmarshalJSON, decoded value, errors"])
prop("C26", "The cost of coding and copying is in proportion",
 "Encoding a value, decoding its encoding and deep-copying it, in binary and JSON, allocate memory (and so take time) in proportion to the size of the value and of its encoding for each level of nesting, at any depth: nothing is done once more for every level below it, so that the cost never doubles with every level, and nothing is done for all elements once more for every element of a list, map or string.",
 ["inputs"], "generated values, and hundreds of levels of every way of nesting: pointers, lists, arrays, interfaces, maps, custom representations; lists, maps and strings of tens of thousands of elements",
 "the tests have no deep values and measure nothing",
 [BE, BD, JE, JD, DC],
 [("encodeReflectBinary*: one pass per level with a buffer", BE), ("encodeReflectJSON*", JE), ("_deepCopy", DC)],
 ["bytes allocated, CPU time, termination"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
