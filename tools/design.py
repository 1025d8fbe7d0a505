#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in, properties.jsonl, known_findings.json and seeded/."""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
W = {  # what is explored and against what oracle | bounds | seconds
"C01": ("catalogue values (20 struct types) encoded and decoded into a fresh variable; equal to `norm` of the value", "lengths 0-2, 127, 128; recursion depth 2", "5"),
"C02": ("lists and arrays of every element kind in fields, behind pointers and at the top level; equal to `norm`; refusals where the format has no representation", "0-2 elements, plus runs of 127-130 bytes; lists of lists and of arrays, of pointers to pointers", "54"),
"C03": ("registered types of every kind alone, in interface fields and lists, with AlwaysDisambiguate and with names whose prefix bytes collide; dynamic type and contents compared", "lists of up to 2, nesting 2", "16"),
"C04": ("all 64-bit seconds and 32-bit nanoseconds and the encoded form of all of them; an independent calendar bound decides what is accepted", "any location offset; contexts: top, field, pointer, list, array; mutants and grafted fields in the encoded forms; times of up to two fields with any 64-bit keys", "45"),
"C05": ("bytes equal to those of the reference encoder `ref.go`", "as C01-C03; and every pattern of default and other fields and list elements (mix)", "47"),
"C06": ("the encoding against that of a repetition, a pointer, another codec with another order of registration and history, empty for nil, and its own decoding; pairs of different values have different encodings", "5 orders of registration; pairs with one field free in each", "109"),
"C07": ("any bytes, mutations and truncations of encodings, and encodings with claimed lengths up to 2^64 decoded into every catalogue type; no panic, within a step budget", "all inputs up to 3-5 bytes; one byte replaced, inserted or removed anywhere in valid encodings; nested input to depth 40", "60"),
"C08": ("corruptions of valid encodings by a class known to be invalid, and a field inserted anywhere in any nested value with the lengths around it corrected (graft), where the schema says it is invalid; an error is required", "all offsets, all replacement bytes; interface values of every kind, with and without disambiguation bytes", "220"),
"C09": ("any bytes: accepted iff the reference decoder accepts, and then the same value", "up to 3-5 bytes, mutants of valid encodings, and one field of any number, wire type and small content inserted anywhere in any nested value, with the lengths around it corrected; also with any 64-bit key, and in interface values of every kind", "190"),
"C10": ("pairs of old and new struct types, both directions, with appended fields of every wire type", "as C01", "10"),
"C11": ("all 64-bit encoded numbers decoded as every integer kind in every context; accepted iff in range, decided by the solver over the integers", "varints up to 11 bytes", "10"),
"C12": ("length-prefixed against bare; writers that fail or write short at any call and offset", "as C01", "56"),
"C13": ("readers that split the stream at any place, return nothing, data with EOF, or fail; two consecutive values; limits; against decoding of the slice", "streams up to 10 bytes in all splits of 3 reads", "30"),
"C14": ("each Encode/Decode/Size function on all values; each decoder on any bytes", "byte strings of 0-2, 127, 128; inputs up to 11 bytes", "10"),
"C15": ("SHA-256 uninterpreted: all hashes, so zero bytes anywhere; an independent definition of prefix and disambiguation bytes", "32-byte hash, runs of zeroes of any length in its first 12 bytes", "5"),
"C16": ("interfaces decoded from any prefix and disambiguation bytes on several codecs; what is accepted is the registered implementer", "all 4 and 8 byte prefixes, short contents", "10"),
"C17": ("types with MarshalAmino of every kind of representation in every context, binary and JSON, against the same with the representation itself; errors of the methods", "as C01", "25"),
"C18": ("JSON of catalogue values decoded again; equal to `jnorm`", "one character of any UTF-8, ASCII after it; maps and lists of up to 2", "220"),
"C19": ("JSON equal to that of the reference encoder `refjson.go`, for all map iteration orders; indented form decodes to the same document", "as C18", "280"),
"C20": ("any text, any text in place of one value, and mutations of documents decoded into every kind; no panic; numbers accepted iff they fit, and read in base ten; unknown types and wrong lengths refused", "texts up to 4-5 bytes; numbers of up to 21 digits", "43"),
"C21": ("the copy equals the original, and scribbling over either leaves the other as it was", "as C01, with maps and methods", "15"),
"C22": ("sequences of registrations of a catalogue of types and interfaces with options, against a model of what is registered; after each, encodings are compared with those of a codec that made only the successful ones", "all sequences of 4 (thorough 5) of 11 operations, of 5 (6) of 7 for types that implement two interfaces", "70"),
"C23": ("encode, scribble, compare; decode with room behind the input, scribble over input and result, compare (`mem.go`)", "as C01 and C18", "200"),
"C24": ("decoding of any encoding, and of the JSON of any value, into a destination that holds any earlier value, against a fresh one; old lists and what old pointers hold are not written through", "as C01", "200"),
"C25": ("metered allocation of decoding of any bytes, against a bound linear in the input", "inputs up to 5 bytes and mutants, nested to depth 40; any claimed length", "40"),
"C26": ("pairs and triples of goroutines with one codec: first use of a type, encoding, decoding, JSON, disambiguation, calls that fail, registration, Seal; results as when alone, no race, deadlock or panic", "2-3 threads of 1-3 calls, 3 pre-emptions (thorough 4)", "97"),
"C27": ("each Must function and package function against the codec's method, on all values and any bytes; binary and JSON", "as C01 and C18, any bytes up to 3", "60"),
"C28": ("tables of subsets and orders of registrations with uses in between, parsed and compared with the list of what was registered; failing writers", "38 kinds of types, named or not, names of any letters, sequences of 4 (thorough 5)", "6"),
"C29": ("any bytes given in hex; output parsed and compared with an independent parser of the wire format", "up to 5 bytes, and longer ones of known shape; with and without -color", "29"),
}
table = "\n".join(f"| {p['id']} | {p['title']}: {W[p['id']][0]} | {W[p['id']][1]} | {W[p['id']][2]} | {p['why_tests_cant']} |" for p in props)
F = json.load(open(os.path.join(ROOT, "known_findings.json")))
fixes = "\n".join(f"* {f['property']} {f['commit']}: {f['what']}" for f in F if f["status"] == "fixed")
known = "\n".join(f"* `{f['id']}` ({f['property']}): {f['what']}. Listed as known; the check prints a KNOWN-FINDING line for it." for f in F if f["status"] == "known")
seeds = []
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    seeds.append(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} |")
s = open(os.path.join(ROOT, "tools", "DESIGN.in")).read()
for k, v in (("TABLE", table), ("FIXES", fixes), ("KNOWN", known), ("SEEDS", "\n".join(seeds))):
    s = s.replace("@" + k + "@", v)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
