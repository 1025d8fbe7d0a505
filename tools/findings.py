#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("C08","a471430","a non-minimal length prefix was miscounted (UvarintSize of the value instead of the bytes read): UnmarshalBinaryLengthPrefixed of 0x81 0x00.. read the wrong bytes"),
 ("C08","6bfaac3","bytes left over inside a length-prefixed time or packed list were ignored"),
 ("C11","39feb6e","a uint32 above 2^32-1 was truncated instead of refused"),
 ("C10","5cc4465","an unknown field that occurs more than once (repeated) made decoding fail"),
 ("C02","caedf04","elements of a top-level unpacked list were written with field number 0 and could not be decoded"),
 ("C02","8597a94","a list of byte slices outside a struct field was refused or mis-encoded"),
 ("C01","83f0352","the (empty) encoding of a top-level default value could not be decoded"),
 ("C03","044c0b0","non-struct concrete values of interfaces could not be decoded"),
 ("C16","aae6bb7","a decoded concrete type that isn't assignable to the interface panicked in binary and JSON"),
 ("C20","411a359","a lone quote where a JSON integer is expected panicked"),
 ("C18","4b3a355","JSON maps with keys of a named string type panicked in decoding"),
 ("C19","9985774","JSON map entries were written in random order"),
 ("C19","3f0968b","registered names with quotes or backslashes gave invalid JSON"),
 ("C13","bf0e144","UnmarshalBinaryLengthPrefixedReader failed with some readers ((0,nil), data with EOF), prefixes over 5 bytes and misreported the bytes consumed"),
 ("C21","0ae5b88","DeepCopy shared or lost the contents of slices and maps"),
 ("C21","decd940","DeepCopy panicked on a pointer to a nil pointer or interface"),
 ("C21","3a1f269","DeepCopy ignored MarshalAmino for values that aren't pointers"),
 ("C26","f60f74b","registering raced with Seal: the check for the seal was made outside the lock"),
 ("C22","5c76723","a registration that panicked left the codec changed"),
 ("C26","3ed1163","encoding read the implementers of an interface without the lock"),
 ("C29","79db183","aminoscan panicked or looped on malformed input"),
 ("C01","cc1ff86","a nil pointer field with write_empty panicked"),
 ("C04","022c34e","absent structs and arrays of times decoded with times at year 1 instead of 1970"),
 ("C08","6d53a82","a byte slice whose length is missing was accepted as empty"),
 ("C03","726fc1a","a nil interface field with write_empty could not be decoded"),
 ("C21","20ec0ee","DeepCopy shared the contents of values behind several pointers instead of using their methods"),
 ("C18","5831ff9","struct fields were decoded from JSON with the options of another field"),
 ("C27","7b9ad22","using a type that isn't supported panicked with the codec locked, so that any later use was blocked forever"),
 ("C25","84a68c4","decoding copied the input once for each level of nesting: n bytes nested d levels deep took n*d bytes of memory"),
 ("C24","4b29392","decoding into a pointer to a pointer to a list of anything but structs panicked when the list pointer was set"),
 ("C02","7d0b9d3","lists and arrays of a defined byte type (type Oct byte) panicked when decoded, and unaddressable arrays of it when encoded, in binary and JSON"),
]
KNOWN = [
 ("C03","interface-variable","MarshalBinaryBare(&i), with i a variable of an interface type, writes the interface as field 1 of a struct, and UnmarshalBinaryBare(bz, &i) expects the bare value (MarshalBinaryBare(i) writes that): the encoding is refused. Unwrapping would change the wire format of such calls and lose disambiguation bytes"),
 ("C03","shared-prefix-alone","a registered value whose prefix bytes another implementer shares is encoded without disambiguation bytes when it is encoded by itself, and can then be decoded into a variable of its type but not of the interface type: the prefix is refused as ambiguous. Writing the disambiguation bytes would break decoding into the concrete type"),
 ("C06","nil-time-pointer","a nil *time.Time field is left out but decodes as a pointer to 1970-01-01, which is written when encoded again: re-encoding a decoded value gives other bytes (an existing test requires the decoding)"),
]
L = []
for p, i, w in KNOWN:
    L.append({"property": p, "id": i, "what": w, "status": "known"})
for p, c, w in F:
    L.append({"property": p, "id": "fix-" + c, "what": w, "status": "fixed", "commit": c, "record": f"fixed: property={p} {c} {w}"})
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump(L, f, indent=1); f.write("\n")
