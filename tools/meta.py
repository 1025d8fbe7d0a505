#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and known_findings.json from the tables below."""
import json, os, re, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

BARE = ["MarshalBinaryBare", "UnmarshalBinaryBare"]

P("C01", "Binary round trip of structs and primitives",
  "Encoding a struct whose fields are booleans, integers of any size, unsafe floats, strings, byte slices, byte arrays, named types, pointers to those, or nested and embedded structs, and decoding the bytes into a fresh variable of the type, succeeds and gives back the same value. "
  "What the format does not distinguish (nil and empty byte slices, fields excluded from the encoding) comes back in its canonical form. The same holds with a length prefix.",
  ["inputs"], "all field values; strings and byte slices of any length; all nil/non-nil shapes; field numbers of one and more key bytes; write_empty and fixed32/fixed64 options",
  "tests encode a handful of struct values and a few random ones from gofuzz; boundary values of varints, of lengths (127/128) and combinations of absent neighbours are hit by luck only",
  ["binary-encode.go", "binary-decode.go", "encoder.go", "decoder.go", "reflect.go", "amino.go"],
  [("struct encoding", "binary-encode.go encodeReflectBinaryStruct"), ("struct decoding", "binary-decode.go decodeReflectBinaryStruct"), ("default values", "reflect.go isDefaultValue/defaultValue")], observe=BARE)

P("C02", "Binary round trip of lists, arrays and byte strings",
  "Encoding slices and arrays of integers, booleans, floats, strings, byte strings, structs, pointers and times - as struct fields or at the top level - and decoding the bytes gives back a list of the same length with the same elements in the same order (nil and empty lists are the same, nil pointers come back as nil or a pointer to the default). "
  "A list the format cannot represent (a top-level list of lists, a nil element where empty_elements is set) is refused when encoding, never encoded to something else.",
  ["inputs"], "all list lengths, element values and positions of nil or default elements; packed and unpacked representations; fixed32/fixed64/empty_elements options; field numbers around 16",
  "tests use short lists of a few values; runs of defaults, lists crossing a length-prefix boundary and nil elements at particular positions are not enumerated",
  ["binary-encode.go", "binary-decode.go"],
  [("list encoding", "binary-encode.go encodeReflectBinaryList"), ("slice/array decoding", "binary-decode.go decodeReflectBinarySlice/Array"), ("packed or unpacked", "reflect.go typeToTyp3")], observe=BARE)

P("C03", "Binary round trip of registered types and interface values",
  "A value of a registered concrete type, encoded by itself or inside an interface-typed field or list, decodes to a value of the same concrete type (a pointer if it was registered as a pointer) with the same contents; nil interfaces come back nil. "
  "This holds whatever the values, in any nesting, with or without disambiguation bytes and also when two concrete types share prefix bytes. Encoding an interface value of an unregistered type fails.",
  ["inputs", "configurations"], "all contents of implementers of every kind (struct, pointer, integer, string, byte array, byte slice, list, containing interfaces), all positions of nil; with AlwaysDisambiguate, and with names whose prefix bytes collide",
  "tests cover a few struct implementers; non-struct implementers, colliding prefixes and nil elements need specific combinations",
  ["binary-encode.go", "binary-decode.go", "codec.go"],
  [("interface encoding", "binary-encode.go encodeReflectBinaryInterface"), ("interface decoding", "binary-decode.go decodeReflectBinaryInterface"), ("lookup", "codec.go getTypeInfoFromPrefixRlock/getTypeInfoFromDisfixRlock")], observe=BARE)

P("C04", "Times are encoded exactly and validated",
  "Every instant from 0001-01-01T00:00:00Z up to but excluding 10000-01-01T00:00:00Z encodes and decodes to the same instant to the nanosecond, in UTC, whatever the location of the original, at the top level, in fields, in lists and nested; a missing time field decodes as 1970-01-01. "
  "Instants outside that range are refused when encoding, and seconds outside the range or nanoseconds outside [0, 999999999] are refused when decoding.",
  ["inputs"], "all 64-bit seconds and 32-bit nanoseconds, in any location",
  "tests use a few hand-picked times",
  ["encoder.go", "decoder.go", "binary-encode.go", "binary-decode.go"],
  [("EncodeTime", "encoder.go"), ("DecodeTime, decodeSeconds, decodeNanos", "decoder.go"), ("absent times", "reflect.go defaultValue")], observe=BARE + ["EncodeTime", "DecodeTime"])

P("C05", "The binary encoding is the documented wire format",
  "The encoding of a value is exactly the bytes the specification prescribes: fields in ascending order numbered from 1 over the encoded fields, key = number<<3|type, 8- and 16-bit signed integers as zig-zag varints and other varint integers as the uvarint of their two's complement, little-endian fixed32/fixed64, floats and times, minimal uvarint lengths, packed lists of numbers and booleans, repeated fields for other lists, prefix (and, where required, disambiguation) bytes before registered values. "
  "Default values are left out, except with write_empty and inside lists. Other Amino implementations can therefore read it.",
  ["inputs"], "all values of the supported types",
  "tests compare a few golden byte strings",
  ["binary-encode.go", "encoder.go", "reflect.go", "amino.go"],
  [("encodeReflectBinary*", "binary-encode.go"), ("writeFieldIfNotEmpty", "binary-encode.go"), ("typeToTyp3", "reflect.go")], observe=["MarshalBinaryBare"])

P("C06", "Encoding is deterministic and canonical",
  "The binary encoding depends on the value only: it is the same when repeated, on another codec with the same registrations made in another order, after earlier use of the codec, through a pointer, and with empty instead of nil slices. "
  "Values that differ have different encodings, and re-encoding what was decoded from an encoding gives the same bytes.",
  ["inputs", "histories"], "all values of the supported types, histories of a codec, orders of registration",
  "tests do not compare encodings across codecs, histories or representations",
  ["binary-encode.go", "amino.go", "codec.go"],
  [("MarshalBinaryBare", "amino.go"), ("lazily built type information", "codec.go getTypeInfoWlock")], observe=["MarshalBinaryBare"])

P("C07", "Decoding untrusted bytes never panics or hangs",
  "Decoding any byte string as binary into a variable of any supported type returns, with or without an error: it does not panic, loop forever or recurse without bound. "
  "That includes truncated, mutated and adversarial input with huge lengths or field numbers.",
  ["inputs"], "all byte strings, for destinations of every supported kind",
  "the fuzz-like tests sample random bytes, which almost never form the deep prefixes needed to reach inner decoders",
  ["binary-decode.go", "decoder.go", "amino.go"],
  [("decodeReflectBinary*", "binary-decode.go"), ("bounds checks", "decoder.go"), ("slide", "reflect.go")], observe=["UnmarshalBinaryBare", "UnmarshalBinaryLengthPrefixed"])

P("C08", "Corrupt encodings are refused",
  "A length-prefixed encoding that is cut short, extended by trailing bytes, or given another length prefix is refused. A field of the wrong wire type, known fields out of order or repeated where the type has one, an inner length that does not match its contents, leftover bytes inside any value, an unterminated or over-long uvarint and a non-boolean byte for a boolean are refused with an error.",
  ["inputs"], "all encodings of supported values and all ways to corrupt them at any offset",
  "tests try a few malformed inputs",
  ["binary-decode.go", "decoder.go", "amino.go"],
  [("length checks", "binary-decode.go decodeReflectBinary*"), ("field order and wire type checks", "binary-decode.go decodeReflectBinaryStruct"), ("UnmarshalBinaryLengthPrefixed", "amino.go")], observe=["UnmarshalBinaryBare", "UnmarshalBinaryLengthPrefixed"])

P("C09", "Decoding means what the specification says",
  "For any byte string, decoding into a fresh variable either fails, where the specification gives the bytes no meaning for that type, or gives exactly the value the specification gives: fields assigned by number, absent fields default, unknown fields skipped by wire type, list elements in order, defaults inside lists preserved.",
  ["inputs"], "all byte strings for all supported destination types",
  "tests only decode what the encoder wrote; other valid encodings (non-minimal varints, explicit defaults, unknown fields) are barely exercised",
  ["binary-decode.go", "decoder.go", "amino.go"],
  [("decodeReflectBinary*", "binary-decode.go"), ("consumeAny", "binary-decode.go")], observe=["UnmarshalBinaryBare"])

P("C10", "Old and new versions of a struct read each other's data",
  "When fields are appended to the end of a struct, encodings of the old version decode into the new one with the new fields at their defaults, and encodings of the new version decode into the old one with the common fields intact and the unknown ones skipped. "
  "This holds for appended fields of every kind, for nested structs and for structs inside lists and interfaces.",
  ["inputs"], "all values of both versions; appended fields of every wire type, repeated ones included",
  "tests do not decode across versions of a type except one case",
  ["binary-decode.go"],
  [("unknown fields", "binary-decode.go decodeReflectBinaryStruct, consumeAny"), ("missing fields", "binary-decode.go decodeReflectBinaryStruct")], observe=BARE)

P("C11", "Integers that do not fit are refused, never truncated",
  "When the encoded number does not fit the integer type of the destination - int8, int16, int32, uint8, uint16, uint32, and 64-bit types for over-long varints - decoding fails; otherwise the value decoded is the number that was encoded. "
  "This holds for fields, list elements, array elements, top-level values, pointers and registered integers inside interfaces.",
  ["inputs"], "all encoded numbers, for every integer kind and context",
  "tests check a couple of overflows",
  ["decoder.go", "binary-decode.go"],
  [("DecodeInt8..DecodeUint64", "decoder.go")], observe=["UnmarshalBinaryBare", "DecodeInt8", "DecodeUint32"])

P("C12", "Length-prefixed encodings frame the bare encoding",
  "The length-prefixed encoding of a value is the uvarint of the length of its bare encoding followed by the bare encoding, and decoding it is decoding those bytes. "
  "Writing to a writer sends those same bytes exactly once and returns their number, or the writer's error with the number of bytes written.",
  ["inputs", "fault_sequences"], "all values; writers which fail or write short at any point",
  "tests write to a bytes.Buffer only",
  ["amino.go", "encoder.go", "decoder.go"],
  [("MarshalBinaryLengthPrefixed, MarshalBinaryLengthPrefixedWriter, UnmarshalBinaryLengthPrefixed", "amino.go")], observe=["MarshalBinaryLengthPrefixed", "MarshalBinaryLengthPrefixedWriter", "UnmarshalBinaryLengthPrefixed"])

P("C13", "Reading length-prefixed values from a stream",
  "Reading from a stream decodes the next value just as decoding the slice does, whatever the sizes of the chunks the reader returns, including empty reads and data together with EOF; it consumes exactly that value and returns the number of bytes consumed, so that consecutive values can be read one after another. "
  "A stream which ends or fails within the value, or a value longer than the maximum size, gives an error, without allocating or reading more than the maximum.",
  ["inputs", "schedules", "fault_sequences"], "all ways a reader can split the stream, all points at which it fails, all sizes and limits",
  "tests read from one bytes.Buffer",
  ["amino.go"],
  [("UnmarshalBinaryLengthPrefixedReader", "amino.go")], observe=["UnmarshalBinaryLengthPrefixedReader"])

P("C14", "Primitive encoders and decoders are inverse, with exact sizes",
  "For each exported primitive encoder, decoding its output gives the value back and consumes exactly the bytes written, also when other bytes follow; the size functions return the number of bytes written. "
  "For any input a primitive decoder either reports an error or consumes between one and the number of available bytes.",
  ["inputs"], "all values of every primitive and all byte strings",
  "one test of a few values",
  ["encoder.go", "decoder.go"],
  [("Encode*", "encoder.go"), ("Decode*", "decoder.go"), ("UvarintSize, VarintSize, ByteSliceSize", "encoder.go")], observe=["Encode*", "Decode*", "*Size"])

P("C15", "Prefix and disambiguation bytes follow from the registered name",
  "The disambiguation bytes of a name are the first three bytes of its SHA-256 hash after dropping leading zero bytes, the prefix bytes the next four after again dropping leading zero bytes, for every name; registered types are encoded with the prefix bytes of their name.",
  ["inputs"], "all hashes, including those with zero bytes anywhere",
  "no test name has zero bytes in the relevant part of its hash",
  ["codec.go"],
  [("nameToDisfix", "codec.go")], observe=["NameToDisfix", "MarshalBinaryBare"])

P("C16", "Interfaces decode only to their registered implementers",
  "Whatever the bytes, decoding into an interface gives nil, an error, or a value of a concrete type that is registered under exactly the prefix (and disambiguation) bytes read and implements the interface. "
  "If several implementers share the prefix bytes, disambiguation bytes are required and decide.",
  ["inputs", "configurations"], "all 4- and 8-byte prefixes, for every set of registrations of the catalogue",
  "tests do not try unregistered, colliding or non-implementing prefixes",
  ["binary-decode.go", "codec.go"],
  [("decodeReflectBinaryInterface, DecodeDisambPrefixBytes", "binary-decode.go"), ("getTypeInfoFromPrefixRlock, getTypeInfoFromDisfixRlock", "codec.go")], observe=["UnmarshalBinaryBare"])

P("C17", "Types with MarshalAmino/UnmarshalAmino use their representation",
  "A type with MarshalAmino and UnmarshalAmino methods whose representation has the same wire type and the same default is encoded, in binary and in JSON, as the value MarshalAmino returns, and decoding hands the decoded representation to UnmarshalAmino; so the round trip gives the value back at the top level, in fields, lists, pointers and interfaces. "
  "Errors of these methods are returned to the caller.",
  ["inputs"], "all representations (struct, integer, string, list) and contexts",
  "tests use one struct",
  ["binary-encode.go", "binary-decode.go", "json-encode.go", "json-decode.go", "reflect.go", "codec.go"],
  [("toReprObject", "reflect.go"), ("IsAminoMarshaler branches", "binary-encode.go, binary-decode.go, json-encode.go, json-decode.go")], observe=BARE + ["MarshalJSON", "UnmarshalJSON"])

P("C18", "JSON round trip",
  "Encoding a value of the supported types (structs, integers, strings, booleans, byte strings, lists, maps with string keys, pointers, times, interfaces with registered concrete types) to JSON and decoding it into a fresh variable gives back the same value, for every value whose strings are valid UTF-8. "
  "Nil and empty lists, maps and pointers keep to the documented canonical form.",
  ["inputs"], "all values of the supported types",
  "tests round-trip a few values",
  ["json-encode.go", "json-decode.go", "amino.go"],
  [("encodeReflectJSON*", "json-encode.go"), ("decodeReflectJSON*", "json-decode.go")], observe=["MarshalJSON", "UnmarshalJSON"])

P("C19", "JSON output is valid, deterministic and as documented",
  "What is written is valid JSON: 64-bit and platform-sized integers as decimal strings, other integers as numbers, byte strings as base64, registered values as {\"type\":name,\"value\":...}, field names and omission as their json tags say, map entries sorted by key. The output depends on the value only, and the indented form is the same document.",
  ["inputs"], "all values of the supported types, all map iteration orders",
  "tests compare a few golden strings; map order is random per run",
  ["json-encode.go", "amino.go"],
  [("encodeReflectJSON*", "json-encode.go"), ("MarshalJSONIndent", "amino.go")], observe=["MarshalJSON", "MarshalJSONIndent"])

P("C20", "Decoding untrusted JSON never panics and rejects overflow",
  "Decoding any text as JSON into any supported type returns an error or a value without panicking; a number, quoted or not, that does not fit the destination integer, anything but an integer where one is expected (white space and null aside), a missing or unknown type name, a missing value next to it, and an array of the wrong length are refused.",
  ["inputs"], "all short texts, and all mutations of valid documents",
  "tests try a few malformed documents",
  ["json-decode.go", "amino.go"],
  [("decodeReflectJSON*", "json-decode.go")], observe=["UnmarshalJSON"])

P("C21", "DeepCopy gives an equal, independent copy",
  "A deep copy is equal to the original and shares no memory with it: changing either afterwards, through any pointer, slice or map reachable from it, does not change the other. "
  "Types with a DeepCopy method, or with MarshalAmino and UnmarshalAmino methods, are copied through those.",
  ["inputs"], "all values of structs, pointers, slices, arrays, maps, interfaces and times",
  "tests copy a few values and do not look for sharing",
  ["deep_copy.go"],
  [("_deepCopy, callDeepCopy, callAminoCopy", "deep_copy.go")], observe=["DeepCopy"])

P("C22", "Registration detects conflicts, and a failed one changes nothing",
  "Registering a type or a name twice, an interface as a concrete type, anything on a sealed codec, or an implementer that conflicts with a declared priority panics, and leaves the codec as it was: what was registered before encodes and decodes the same, what failed is not registered. "
  "Sealing is permanent, and a sealed codec still encodes and decodes.",
  ["histories", "configurations"], "all sequences of registrations and uses up to a bound",
  "tests check a few panics and not the state afterwards",
  ["codec.go"],
  [("RegisterInterface, RegisterConcrete, Seal", "codec.go"), ("conflict checks", "codec.go checkConflictsInPrioNolock, addCheckConflictsWithConcreteNolock")], observe=["RegisterInterface", "RegisterConcrete", "Seal"])

P("C23", "Encoding does not change its argument; decoding does not keep the input",
  "Encoding, in binary or JSON, leaves the value and everything reachable from it unchanged and returns bytes that no later change of the value affects. Decoding leaves its input bytes unchanged, and the decoded value is unaffected when the input is overwritten afterwards; values decoded from the same input share no memory.",
  ["inputs", "histories"], "all values of the supported types and all later writes",
  "tests never overwrite inputs or results",
  ["binary-encode.go", "binary-decode.go", "decoder.go", "json-encode.go", "json-decode.go"],
  [("DecodeByteSlice copies", "decoder.go"), ("reflect.Copy of byte arrays", "binary-encode.go, binary-decode.go")], observe=BARE + ["MarshalJSON", "UnmarshalJSON"])

P("C24", "The result of decoding does not depend on the destination's old contents",
  "Decoding a binary encoding into a variable that already holds a value gives the same result as decoding into a fresh one: every field, list, pointer and interface is set or reset, whether it is present or absent in the encoding (a field excluded with json:\"-\" is left alone). Old elements of lists are not written through. An interface that already holds a value may be refused with an error. The same holds for JSON this package wrote: maps and lists are replaced, not merged, and a field is as in a fresh variable unless it has omitempty and is absent, when it is left alone.",
  ["inputs", "histories"], "all encodings and all earlier contents of the destination",
  "tests decode into fresh variables",
  ["binary-decode.go", "json-decode.go", "amino.go"],
  [("decodeReflectBinaryStruct resets absent fields", "binary-decode.go"), ("defaultValue", "reflect.go"), ("decodeReflectJSONStruct, decodeReflectJSONMap", "json-decode.go")], observe=["UnmarshalBinaryBare", "UnmarshalJSON"])

P("C25", "Memory used in decoding is bounded by the input",
  "Decoding binary input allocates at most an amount proportional to the length of the input times the size of the destination type (its list elements included), however values are nested: lengths and counts claimed by the input are not trusted before the bytes are there, from a slice or from a stream with a maximum size.",
  ["inputs"], "all claimed lengths, for all destination types",
  "tests do not measure allocations",
  ["binary-decode.go", "decoder.go", "amino.go"],
  [("DecodeByteSlice", "decoder.go"), ("slice decoding appends", "binary-decode.go decodeReflectBinarySlice"), ("maxSize", "amino.go UnmarshalBinaryLengthPrefixedReader")], observe=["UnmarshalBinaryBare", "UnmarshalBinaryLengthPrefixedReader"])

P("C26", "A codec is safe for concurrent use",
  "Encoding and decoding, in binary and JSON, from several goroutines with one codec - also while it first sees a type, and while types are being registered - is free of data races, deadlocks and panics, and each call, also one that fails, gives the result it would give alone.",
  ["schedules"], "all interleavings at synchronisation points of a few goroutines",
  "tests are sequential",
  ["codec.go", "binary-encode.go", "binary-decode.go", "json-encode.go"],
  [("read-write lock of the codec", "codec.go getTypeInfoWlock, *Rlock, *Nolock")], [("typeInfos, interfaceInfos, concreteInfos, disfixToTypeInfo, nameToTypeInfo", "what the codec knows", "codec.go Codec")], ["every method of Codec"])

P("C27", "Must variants and package functions match the codec's methods",
  "Each Must function returns what its counterpart returns and panics exactly when that reports an error; each package-level function behaves like the method of a sealed codec without registrations.",
  ["inputs"], "all values and inputs",
  "tests use the variants on single values",
  ["amino.go"],
  [("Must*, package-level functions", "amino.go")], observe=["Must*", "amino.Marshal*", "amino.Unmarshal*"])

P("C28", "PrintTypes lists every registered concrete type once",
  "PrintTypes writes one row per registered concrete type, in the order of registration, with its name, prefix bytes and length, whatever was registered and used before; interfaces and unregistered types do not appear, and a writer's error is returned.",
  ["histories", "fault_sequences"], "all subsets of registrations of the catalogue, uses and writer errors",
  "tests compare one table",
  ["codec.go"],
  [("PrintTypes, getLengthStr", "codec.go")], observe=["PrintTypes"])

P("C29", "aminoscan reports any input without crashing",
  "The inspection tool, given any bytes in hexadecimal, prints a dump of the fields it can parse and ends with a line that repeats the input's bytes in order, the number of bytes of the fields (and keys) it parsed and an error, which is nil only when the fields make up the whole input; it does not panic or loop. Each field is shown with its number, its kind and its bytes, a varint also as signed and unsigned integer. With -color it shows each byte, as its character when printable and as two hexadecimal digits otherwise.",
  ["inputs"], "all short byte strings",
  "it has no tests",
  ["cmd/aminoscan/aminoscan.go"],
  [("scanAny and its callees", "cmd/aminoscan/aminoscan.go")], observe=["aminoscan"])

TODO = {}   # id -> reason (not claimed)
exec(open(os.path.join(ROOT, "tools", "unclaimed.py")).read())

NOTE = ("Bounded: holds for every input, choice and schedule within the bounds listed in the evidence (value shapes, lengths, sizes, steps); the solver decides each branch and assertion over all values. "
        "Trusted: the engine's encoding of Go SSA and its models of reflect, sync, fmt, strconv and encoding/json (sampled paths are replayed against the real build; counterexamples count only after native replay), z3, amd64.")
EXTRA = {
  "C15": " SHA-256 is an uninterpreted function: every hash is considered.",
  "C26": " Schedules: pre-emption bounded, switching at lock operations and codec accesses.",
  "C18": " encoding/json's part for standard library calls is executed as a model written in Go (harness/jsonmodel).",
}

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in TODO:
            na.append({"property": i, "reason": TODO[i]}); continue
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
          "evidence_file": f"evidence/{i}.json",
          "technique": "solver-based symbolic execution of the real code's Go SSA (z3)" + (", with all schedules up to a bound" if i == "C26" else ""),
          "level": "model_checking", "level_note": NOTE + EXTRA.get(i, "")})
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo are needed: the harnesses use the public API, aminoscan is reached through a build overlay."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
main()
