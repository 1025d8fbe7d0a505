From a4714303ab69e0b560728121dab0a02384ad5f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:24 +0000
Subject: [PATCH 01/31] fix: count the bytes actually read for a length prefix

The decoders of interfaces, arrays, slices and structs assumed that the
length prefix was minimally encoded, so after an overlong one they lost
their place in the input.
---
 binary-decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 8259e91..9c6f900 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -341,7 +341,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -488,7 +488,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -666,7 +666,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -784,7 +784,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
-- 
2.43.0


From 6bfaac3f5a45d70bae8c2e26636016e51b972c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 02/31] fix: reject bytes left over inside a length-prefixed
 time or list

The rest of the length-prefixed value was taken for fields of the enclosing
struct.
---
 binary-decode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 9c6f900..d479e31 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -582,6 +582,10 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 				err = fmt.Errorf("unexpected field number %v after repeated field number %v", fnum, fopts.BinFieldNum)
 				return
 			}
+			if !bare {
+				err = errors.New("bytes left over after reading array contents")
+				return
+			}
 		}
 	}
 	return n, err
@@ -754,6 +758,10 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			}
 			srv = reflect.Append(srv, erv)
 		}
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading slice contents")
+			return
+		}
 	}
 	rv.Set(srv)
 	return n, err
@@ -797,6 +805,10 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 		if slide(&bz, &n, _n) && err != nil {
 			return
 		}
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading time contents")
+			return
+		}
 		rv.Set(reflect.ValueOf(t))
 
 	default:
-- 
2.43.0


From 39feb6e34c43931ce33cd61b4d572337d92936ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 03/31] fix: report overflow when decoding a uint32

Values above 2^32-1 were truncated silently; int32 already reports them.
---
 binary-decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index d479e31..229ab5b 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -226,6 +226,10 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
+			if num > math.MaxUint32 {
+				err = ErrOverflowInt
+				return
+			}
 			rv.SetUint(num)
 		}
 		return
-- 
2.43.0


From 5cc4465f0510e293da63b44d8a87b6f146b6b1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 04/31] fix: skip unknown repeated fields

A list of two or more ByteLength elements appended to a struct could not be
skipped by readers which know the older version of the struct.
---
 binary-decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index 229ab5b..88396aa 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -897,7 +897,9 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
-			if fnum <= lastFieldNum {
+			// A field which this struct doesn't know may be repeated.
+			isRepeated := fnum == lastFieldNum && fnum > uint32(len(info.Fields))
+			if fnum <= lastFieldNum && !isRepeated {
 				err = fmt.Errorf("encountered fieldnNum: %v, but we have already seen fnum: %v\nbytes:%X",
 					fnum, lastFieldNum, bz)
 				return
-- 
2.43.0


From caedf04c1c44ee3ba5f9ff06d4bda475ec3c4415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 05/31] fix: number the elements of a top-level list as field 1

The elements of e.g. a []string were written with field number 0, which
UnmarshalBinaryBare rejects.
---
 amino.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amino.go b/amino.go
index 9716ae7..ae38710 100644
--- a/amino.go
+++ b/amino.go
@@ -219,7 +219,7 @@ func (cdc *Codec) MarshalBinaryBare(o interface{}) ([]byte, error) {
 		writeEmpty := false
 		typ3 := typeToTyp3(info.Type, FieldOptions{})
 		bare := typ3 != Typ3ByteLength
-		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{}, rv, writeEmpty, bare); err != nil {
+		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{BinFieldNum: 1}, rv, writeEmpty, bare); err != nil {
 			return nil, err
 		}
 		bz = buf.Bytes()
-- 
2.43.0


From 8597a94db62892b08af05b2ae217b37d01278e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 06/31] fix: encode lists of byte slices outside of struct
 fields

A top-level [][]byte, or the inner lists of a [][][]byte, lost all of its
contents without an error.
---
 binary-encode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index d10ebfc..6bdfa1d 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -81,9 +81,10 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 						break
 					}
 					err = errors.New("multidimensional arrays not allowed")
-					break
+					return
 				}
 			}
+			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		} else {
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
@@ -106,8 +107,9 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 					break
 				}
 				err = errors.New("multidimensional slices not allowed")
-				break
+				return
 			}
+			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		default:
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
-- 
2.43.0


From 83f035273c7c3e29a1f9f563a768771665599c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 07/31] fix: decode the encoding of a top-level default value

MarshalBinaryBare of 0, "", false or an empty array yields no bytes (or only
prefix bytes), from which UnmarshalBinaryBare failed to decode.
---
 amino.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/amino.go b/amino.go
index ae38710..b5f17eb 100644
--- a/amino.go
+++ b/amino.go
@@ -418,6 +418,9 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 
 		slide(&bz, &nWrap, nFnumTyp3)
 		bare = typeToTyp3(info.Type, FieldOptions{}) != Typ3ByteLength
+	} else if len(bz) == 0 && isElidedIfEmpty(info) {
+		bz = []byte{0x00}
+		bare = typeToTyp3(info.Type, FieldOptions{}) != Typ3ByteLength
 	}
 
 	// Decode contents into rv.
@@ -453,6 +456,17 @@ func isStructOrRepeatedStruct(info *TypeInfo) bool {
 	return isRepeatedStructAr || isRepeatedStructSl
 }
 
+// Returns true if a top-level value of this type is written as field number 1,
+// which MarshalBinaryBare elides when the value is encoded as a single 0x00.
+func isElidedIfEmpty(info *TypeInfo) bool {
+	switch info.Type.Kind() {
+	case reflect.Interface, reflect.Map, reflect.Func:
+		return false
+	default:
+		return !isStructOrRepeatedStruct(info)
+	}
+}
+
 func isPointerToStructOrToRepeatedStruct(rv reflect.Value, rt reflect.Type) bool {
 	if rv.Kind() == reflect.Struct {
 		return true
-- 
2.43.0


From 044c0b06a02edf345b9583f32695d9cf7d501fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 08/31] fix: decode non-struct concrete values of interfaces

A field key precedes the value only at the top level, but it was expected
wherever the field number is 1. At the top level, lists are length-prefixed
and default values elided.
---
 binary-decode.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 88396aa..259b030 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -371,8 +371,10 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	cbare := true
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
-	if !isStructOrRepeatedStruct(cinfo) &&
+	// NOTE: Only top-level values have a field key (see MarshalBinaryBare).
+	if bare && !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
 		len(bz) > 0 &&
 		(crv.Kind() != reflect.Interface) &&
@@ -396,10 +398,15 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 				typWanted, fnum, cinfo.Type, typ)
 		}
 		slide(&bz, &n, nFnumTyp3)
+		cbare = typWanted != Typ3ByteLength
+	} else if bare && len(bz) == 0 && isElidedIfEmpty(cinfo) && fopts.BinFieldNum == 1 {
+		bz = []byte{0x00}
+		n-- // not in the input
+		cbare = typeToTyp3(cinfo.Type, FieldOptions{}) != Typ3ByteLength
 	}
 
 	// Decode into the concrete type.
-	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, true)
+	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
 		rv.Set(irvSet) // Helps with debugging
 		return
-- 
2.43.0


From aae6bb739215bfde05065932db59bd3a8d82684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:29 +0000
Subject: [PATCH 09/31] fix: return an error when a decoded concrete type isn't
 assignable

Disambiguation bytes or a JSON type name could select any registered type, and
setting the interface panicked when the type does not implement it.
---
 binary-decode.go | 4 ++++
 json-decode.go   | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 259b030..a396af1 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -371,6 +371,10 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	if !irvSet.Type().AssignableTo(rv.Type()) {
+		err = fmt.Errorf("concrete type %v does not implement %v", irvSet.Type(), rv.Type())
+		return
+	}
 	cbare := true
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	// NOTE: Only top-level values have a field key (see MarshalBinaryBare).
diff --git a/json-decode.go b/json-decode.go
index d6bc0ff..b6cdb96 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -201,9 +201,6 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 	if err != nil {
 		return
 	}
-	// XXX: Check name against interface to make sure that it actually
-	// matches, and return an error if it doesn't.
-
 	// NOTE: Unlike decodeReflectBinaryInterface, we already dealt with nil in decodeReflectJSON.
 	// NOTE: We also "consumed" the interface wrapper by replacing `bz` above.
 
@@ -217,6 +214,10 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	if !irvSet.Type().AssignableTo(rv.Type()) {
+		err = fmt.Errorf("concrete type %v does not implement %v", irvSet.Type(), rv.Type())
+		return
+	}
 
 	// Decode into the concrete type.
 	err = cdc.decodeReflectJSON(bz, cinfo, crv, fopts)
-- 
2.43.0


From 411a3594a7ffb8496511078cb5e7df47557175c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 10/31] fix: do not panic on a lone quote where a JSON integer
 is expected

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index b6cdb96..f00b78c 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -116,7 +116,7 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 	case reflect.Int64, reflect.Int:
 		fallthrough
 	case reflect.Uint64, reflect.Uint:
-		if bz[0] != '"' || bz[len(bz)-1] != '"' {
+		if len(bz) < 2 || bz[0] != '"' || bz[len(bz)-1] != '"' {
 			err = errors.Errorf(
 				"invalid character -- Amino:JSON int/int64/uint/uint64 expects quoted values for javascript numeric support, got: %v", // nolint: lll
 				string(bz),
-- 
2.43.0


From 4b3a355ef8449e51fd5977b6561ea5fdd982aba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 11/31] fix: decode JSON maps whose keys are of a named string
 type

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index f00b78c..7727949 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -468,7 +468,7 @@ func (cdc *Codec) decodeReflectJSONMap(bz []byte, info *TypeInfo, rv reflect.Val
 		}
 
 		// And set.
-		krv := reflect.New(reflect.TypeOf("")).Elem()
+		krv := reflect.New(krt).Elem()
 		krv.SetString(key)
 		mrv.SetMapIndex(krv, vrv)
 	}
-- 
2.43.0


From 9985774faf87c1449a340a21539805b042650e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 12/31] fix: encode the entries of JSON maps in a deterministic
 order

---
 json-encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/json-encode.go b/json-encode.go
index 1d2778c..07ae472 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"sort"
 	"time"
 
 	"github.com/pkg/errors"
@@ -367,7 +368,9 @@ func (cdc *Codec) encodeReflectJSONMap(w io.Writer, info *TypeInfo, rv reflect.V
 	}
 
 	var writeComma = false
-	for _, krv := range rv.MapKeys() {
+	keys := rv.MapKeys()
+	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
+	for _, krv := range keys {
 		// Get dereferenced object value and info.
 		var vrv, _, isNil = derefPointers(rv.MapIndex(krv))
 
-- 
2.43.0


From 3f0968b81eba65f014f2590c7b2a6814fe70d55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 13/31] fix: escape registered names in JSON

A name with a quote or a backslash made the output invalid JSON.
---
 amino.go       |  2 +-
 json-encode.go | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/amino.go b/amino.go
index b5f17eb..36b8cda 100644
--- a/amino.go
+++ b/amino.go
@@ -520,7 +520,7 @@ func (cdc *Codec) MarshalJSON(o interface{}) ([]byte, error) {
 
 	// Write the disfix wrapper if it is a registered concrete type.
 	if info.Registered {
-		err = writeStr(w, _fmt(`{"type":"%s","value":`, info.Name))
+		err = writeDisfixWrapperStart(w, info.Name)
 		if err != nil {
 			return nil, err
 		}
diff --git a/json-encode.go b/json-encode.go
index 07ae472..d13716d 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -172,7 +172,7 @@ func (cdc *Codec) encodeReflectJSONInterface(w io.Writer, iinfo *TypeInfo, rv re
 
 	// Write interface wrapper.
 	// Part 1:
-	err = writeStr(w, _fmt(`{"type":"%s","value":`, cinfo.Name))
+	err = writeDisfixWrapperStart(w, cinfo.Name)
 	if err != nil {
 		return
 	}
@@ -442,8 +442,17 @@ func writeStr(w io.Writer, s string) (err error) {
 	return
 }
 
-func _fmt(s string, args ...interface{}) string {
-	return fmt.Sprintf(s, args...)
+// Write the disfix wrapper up to where the value goes.
+func writeDisfixWrapperStart(w io.Writer, name string) (err error) {
+	err = writeStr(w, `{"type":`)
+	if err != nil {
+		return
+	}
+	err = invokeStdlibJSONMarshal(w, name)
+	if err != nil {
+		return
+	}
+	return writeStr(w, `,"value":`)
 }
 
 // For json:",omitempty".
-- 
2.43.0


From bf0e144ab481a685a9419f90ffa9a7a854ed6bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:32 +0000
Subject: [PATCH 14/31] fix: handle any length prefix and any reader when
 reading length-prefixed

An overlong prefix was taken for length 0, a huge one panicked, a prefix could be
read beyond maxSize, and without maxSize every prefix of more than one byte was
an error. Readers which return no data, or the last data together with io.EOF,
were not handled.
---
 amino.go | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/amino.go b/amino.go
index 36b8cda..becefe1 100644
--- a/amino.go
+++ b/amino.go
@@ -294,10 +294,16 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	}
 
 	// Read byte-length prefix.
-	var l int64
 	var buf [binary.MaxVarintLen64]byte
 	for i := 0; i < len(buf); i++ {
-		_, err = r.Read(buf[i : i+1])
+		if maxSize > 0 && n >= maxSize {
+			err = errors.Errorf(
+				"read overflow, maxSize is %v but uvarint(length-prefix) is itself greater than maxSize",
+				maxSize,
+			)
+			return
+		}
+		_, err = io.ReadFull(r, buf[i:i+1])
 		if err != nil {
 			return
 		}
@@ -305,15 +311,10 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 		if buf[i]&0x80 == 0 {
 			break
 		}
-		if n >= maxSize {
-			err = errors.Errorf(
-				"read overflow, maxSize is %v but uvarint(length-prefix) is itself greater than maxSize",
-				maxSize,
-			)
-		}
 	}
-	u64, _ := binary.Uvarint(buf[:])
-	if err != nil {
+	u64, _n := binary.Uvarint(buf[:n])
+	if _n <= 0 {
+		err = errors.New("read overflow, uvarint(length-prefix) is greater than 64 bits")
 		return
 	}
 	if maxSize > 0 {
@@ -329,20 +330,26 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 			return
 		}
 	}
-	l = int64(u64)
+	l := int64(u64)
 	if l < 0 {
-		_ = errors.Errorf( //nolint:errcheck
+		err = errors.New(
 			"read overflow, this implementation can't read this because, why would anyone have this much data? Hello from 2018",
 		)
+		return
 	}
 
 	// Read that many bytes.
-	var bz = make([]byte, l)
-	_, err = io.ReadFull(r, bz)
+	// NOTE: Without maxSize, do not allocate more than what there is to read.
+	var body bytes.Buffer
+	_l, err := io.CopyN(&body, r, l)
+	n += _l
 	if err != nil {
+		if err == io.EOF && _l > 0 {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
-	n += l
+	bz := body.Bytes()
 
 	// Decode.
 	err = cdc.UnmarshalBinaryBare(bz, ptr)
-- 
2.43.0


From 0ae5b88e34be2c6e4291cb80a01ffd3647f236c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 15/31] fix: copy the contents of slices and maps in DeepCopy

The copy shared the backing arrays of slices, and what map values refer to, with
the original.
---
 deep_copy.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 8e9a157..0515715 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -83,7 +83,7 @@ func _deepCopy(src, dst reflect.Value) {
 			cpy := reflect.MakeSlice(
 				src.Type(), src.Len(), src.Len())
 			reflect.Copy(cpy, src)
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		default:
 			cpy := reflect.MakeSlice(
@@ -93,7 +93,7 @@ func _deepCopy(src, dst reflect.Value) {
 				ecpy := cpy.Index(i)
 				deepCopy(esrc, ecpy)
 			}
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		}
 
@@ -119,7 +119,9 @@ func _deepCopy(src, dst reflect.Value) {
 		keys := src.MapKeys()
 		for _, key := range keys {
 			val := src.MapIndex(key)
-			cpy.SetMapIndex(key, val)
+			vcpy := reflect.New(val.Type()).Elem()
+			deepCopy(val, vcpy)
+			cpy.SetMapIndex(key, vcpy)
 		}
 		dst.Set(cpy)
 		return
-- 
2.43.0


From decd940ea5f08ef3452bbddf58bf4955cb86e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 16/31] fix: do not panic in DeepCopy on a pointer to a nil
 pointer or interface

---
 deep_copy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deep_copy.go b/deep_copy.go
index 0515715..e4dcc08 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -43,7 +43,9 @@ func _deepCopy(src, dst reflect.Value) {
 	switch src.Kind() {
 	case reflect.Ptr:
 		cpy := reflect.New(src.Type().Elem())
-		_deepCopy(src.Elem(), cpy.Elem())
+		if !isNil(src.Elem()) {
+			_deepCopy(src.Elem(), cpy.Elem())
+		}
 		dst.Set(cpy)
 		return
 
-- 
2.43.0


From 3a1f26914cb1ec2a3c992e5d75799f6d21ed9729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 17/31] fix: let DeepCopy use MarshalAmino for values that
 aren't pointers

A struct field of a type with the MarshalAmino/UnmarshalAmino pair made it panic, and
a value in an interface lost its unexported state.
---
 deep_copy.go | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index e4dcc08..3a96390 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -187,26 +187,29 @@ func callAminoCopy(src, dst reflect.Value) bool {
 	if src.Type() != dst.Type() {
 		panic("should not happen")
 	}
-	switch {
-	case src.Kind() == reflect.Ptr:
-		cpy := reflect.New(src.Type().Elem())
-		dst.Set(cpy)
-	case src.CanAddr():
-		if !dst.CanAddr() {
-			panic("should not happen")
+	if !dst.CanAddr() {
+		panic("should not happen")
+	}
+	isPtr := src.Kind() == reflect.Ptr
+	if !isPtr {
+		if !src.CanAddr() {
+			asrc := reflect.New(src.Type()).Elem()
+			asrc.Set(src)
+			src = asrc
 		}
 		src = src.Addr()
-		dst = dst.Addr()
-	default:
-		return false
 	}
 	if !canAminoCopy(src) {
 		return false
 	}
 	cpy := reflect.New(src.Type().Elem())
-	dst.Set(cpy)
+	if isPtr {
+		dst.Set(cpy)
+	} else {
+		defer func() { dst.Set(cpy.Elem()) }()
+	}
 	ma := src.MethodByName("MarshalAmino")
-	ua := dst.MethodByName("UnmarshalAmino")
+	ua := cpy.MethodByName("UnmarshalAmino")
 	outs := ma.Call(nil)
 	repr, err := outs[0], outs[1]
 	if !err.IsNil() {
-- 
2.43.0


From f60f74bda82f9703f29a3589f3d74e31182e3855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 18/31] fix: check that the codec isn't sealed while
 registering

A registration concurrent with Seal could take effect after Seal returned.
---
 codec.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codec.go b/codec.go
index b8b4c9b..8f5a1cd 100644
--- a/codec.go
+++ b/codec.go
@@ -168,6 +168,7 @@ func (cdc *Codec) RegisterInterface(ptr interface{}, iopts *InterfaceOptions) {
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock()
 		cdc.collectImplementersNolock(info)
 		err := cdc.checkConflictsInPrioNolock(info)
 		if err != nil {
@@ -237,6 +238,7 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		cdc.assertNotSealedNolock()
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
 	}()
@@ -330,6 +332,10 @@ func (cdc *Codec) assertNotSealed() {
 	cdc.mtx.Lock()
 	defer cdc.mtx.Unlock()
 
+	cdc.assertNotSealedNolock()
+}
+
+func (cdc *Codec) assertNotSealedNolock() {
 	if cdc.sealed {
 		panic("codec sealed")
 	}
-- 
2.43.0


From 5c76723eb988a63d2e5f8f13e61280bc8a80b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 19/31] fix: leave the codec as it was when a registration
 fails

A failed RegisterConcrete left the type (or a second type of the same name) partly
registered, so that later encoding or decoding used it.
---
 codec.go | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/codec.go b/codec.go
index 8f5a1cd..37018db 100644
--- a/codec.go
+++ b/codec.go
@@ -239,6 +239,7 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		defer cdc.mtx.Unlock()
 
 		cdc.assertNotSealedNolock()
+		cdc.assertNewTypeInfoNolock(info)
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
 	}()
@@ -343,18 +344,29 @@ func (cdc *Codec) assertNotSealedNolock() {
 
 func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 
-	if info.Type.Kind() == reflect.Ptr {
-		panic(fmt.Sprintf("unexpected pointer type"))
-	}
-	if _, ok := cdc.typeInfos[info.Type]; ok {
-		panic(fmt.Sprintf("TypeInfo already exists for %v", info.Type))
-	}
+	cdc.assertNewTypeInfoNolock(info)
 
 	cdc.typeInfos[info.Type] = info
 	if info.Type.Kind() == reflect.Interface {
 		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
 	} else if info.Registered {
 		cdc.concreteInfos = append(cdc.concreteInfos, info)
+		cdc.disfixToTypeInfo[info.GetDisfix()] = info
+		cdc.nameToTypeInfo[info.Name] = info
+		//cdc.prefixToTypeInfos[prefix] =
+		//	append(cdc.prefixToTypeInfos[prefix], info)
+	}
+}
+
+// Panics if info cannot be set because of what was set before.
+func (cdc *Codec) assertNewTypeInfoNolock(info *TypeInfo) {
+	if info.Type.Kind() == reflect.Ptr {
+		panic(fmt.Sprintf("unexpected pointer type"))
+	}
+	if _, ok := cdc.typeInfos[info.Type]; ok {
+		panic(fmt.Sprintf("TypeInfo already exists for %v", info.Type))
+	}
+	if info.Type.Kind() != reflect.Interface && info.Registered {
 		disfix := info.GetDisfix()
 		if existing, ok := cdc.disfixToTypeInfo[disfix]; ok {
 			panic(fmt.Sprintf("disfix <%X> already registered for %v", disfix, existing.Type))
@@ -362,10 +374,6 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 		if existing, ok := cdc.nameToTypeInfo[info.Name]; ok {
 			panic(fmt.Sprintf("name <%s> already registered for %v", info.Name, existing.Type))
 		}
-		cdc.disfixToTypeInfo[disfix] = info
-		cdc.nameToTypeInfo[info.Name] = info
-		//cdc.prefixToTypeInfos[prefix] =
-		//	append(cdc.prefixToTypeInfos[prefix], info)
 	}
 }
 
@@ -666,21 +674,32 @@ func (cdc *Codec) addCheckConflictsWithConcreteNolock(cinfo *TypeInfo) {
 	// Iterate over registered interfaces that this "implements".
 	// "Implement" in quotes because we only consider the pointer, for extra
 	// safety.
+	var undo []func()
 	for _, iinfo := range cdc.interfaceInfos {
 		if !cinfo.PtrToType.Implements(iinfo.Type) {
 			continue
 		}
 
 		// Add cinfo to iinfo.Implementers.
-		var origImpls = iinfo.Implementers[cinfo.Prefix]
-		iinfo.Implementers[cinfo.Prefix] = append(origImpls, cinfo)
+		impls := iinfo.Implementers
+		origImpls, ok := impls[cinfo.Prefix]
+		undo = append(undo, func() {
+			if ok {
+				impls[cinfo.Prefix] = origImpls
+			} else {
+				delete(impls, cinfo.Prefix)
+			}
+		})
+		impls[cinfo.Prefix] = append(origImpls, cinfo)
 
 		// Finally, check that all conflicts are in `.Priority`.
 		// NOTE: This could be optimized, but it's non-trivial.
 		err := cdc.checkConflictsInPrioNolock(iinfo)
 		if err != nil {
 			// Return to previous state.
-			iinfo.Implementers[cinfo.Prefix] = origImpls
+			for _, f := range undo {
+				f()
+			}
 			panic(err)
 		}
 	}
-- 
2.43.0


From 3ed1163ef6705e876c2d5190d8a7ce91b5d3c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 20/31] fix: lock the codec when looking up implementers for
 encoding

Encoding an interface while another goroutine registers a concrete type read and
wrote a map concurrently.
---
 binary-encode.go | 2 +-
 codec.go         | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/binary-encode.go b/binary-encode.go
index 6bdfa1d..fbe448f 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -247,7 +247,7 @@ func (cdc *Codec) encodeReflectBinaryInterface(w io.Writer, iinfo *TypeInfo, rv
 	needDisamb := false
 	if iinfo.AlwaysDisambiguate {
 		needDisamb = true
-	} else if len(iinfo.Implementers[cinfo.Prefix]) > 1 {
+	} else if cdc.countImplementersRlock(iinfo, cinfo.Prefix) > 1 {
 		needDisamb = true
 	}
 	if needDisamb {
diff --git a/codec.go b/codec.go
index 37018db..1d893d8 100644
--- a/codec.go
+++ b/codec.go
@@ -427,6 +427,14 @@ func (cdc *Codec) getTypeInfoFromPrefixRlock(iinfo *TypeInfo, pb PrefixBytes) (i
 	return
 }
 
+// Number of concrete types with prefix bytes pb which implement the interface.
+func (cdc *Codec) countImplementersRlock(iinfo *TypeInfo, pb PrefixBytes) int {
+	cdc.mtx.RLock()
+	n := len(iinfo.Implementers[pb])
+	cdc.mtx.RUnlock()
+	return n
+}
+
 func (cdc *Codec) getTypeInfoFromDisfixRlock(df DisfixBytes) (info *TypeInfo, err error) {
 	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
 	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-- 
2.43.0


From 79db1839e3255d17b7765f7a42b9e5f58f659b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 21/31] fix: let aminoscan report malformed input

It panicked on an invalid typ3 and on a length beyond the end of the input, and looped
forever on an incomplete varint.
---
 cmd/aminoscan/aminoscan.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index 03aaefd..75671b8 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -77,7 +77,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 	case amino.Typ3_4Byte:
 		s, n, err = scan4Byte(bz, indent)
 	default:
-		panic("should not happen")
+		err = fmt.Errorf("invalid typ3 %v", uint8(typ))
 	}
 	return
 }
@@ -85,6 +85,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	if len(bz) == 0 {
 		err = fmt.Errorf("EOF while reading (U)Varint")
+		return
 	}
 	// First try Varint.
 	okI64 := true
@@ -96,7 +97,7 @@ func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	// Then try Uvarint.
 	okU64 := true
 	u64, _n := binary.Uvarint(bz)
-	if n != _n {
+	if _n <= 0 || n != _n {
 		n = 0
 		okU64 = false
 	}
@@ -132,16 +133,15 @@ func scan8Byte(bz []byte, indent string) (s string, n int, err error) {
 func scanByteLength(bz []byte, indent string) (s string, n int, err error) {
 	// Read the length.
 	l64, _n := binary.Uvarint(bz)
-	if n < 0 {
-		n = 0
+	if _n <= 0 {
 		err = errors.New("error decoding uvarint")
 		return
 	}
-	length := int(l64)
-	if length >= len(bz) {
-		err = errors.New("while reading 8byte field, EOF was encountered")
+	if l64 > uint64(len(bz)-_n) {
+		err = errors.New("while reading byte-length field, EOF was encountered")
 		return
 	}
+	length := int(l64)
 	s = Cyan(fmt.Sprintf("%X", bz[:_n]))
 	slide(&bz, &n, _n)
 	// Read the remaining bytes.
@@ -175,7 +175,7 @@ func scanStruct(bz []byte, indent string, isRoot bool) (s string, n int, err err
 func scanFieldKey(bz []byte, indent string) (s string, typ amino.Typ3, n int, err error) {
 	var u64 uint64
 	u64, n = binary.Uvarint(bz)
-	if n < 0 {
+	if n <= 0 {
 		n = 0
 		err = errors.New("error decoding uvarint")
 		return
-- 
2.43.0


From cc1ff868a3ff1c338d5dc24607b2ba73324decd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:24 +0000
Subject: [PATCH 22/31] fix: do not panic on a nil pointer field with
 write_empty

---
 binary-encode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binary-encode.go b/binary-encode.go
index fbe448f..e1541f1 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -444,9 +444,10 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 			var frv = rv.Field(field.Index)
 			var frvIsPtr = frv.Kind() == reflect.Ptr
 			var dfrv, isDefault = isDefaultValue(frv)
-			if isDefault && !field.WriteEmpty {
+			if isDefault && (!field.WriteEmpty || !dfrv.IsValid()) {
 				// Do not encode default value fields
 				// (except when `amino:"write_empty"` is set).
+				// There is nothing to encode for nil pointers.
 				continue
 			}
 			if field.UnpackedList {
-- 
2.43.0


From 022c34ebb0a8429444aff5bbc80011695271bd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 23/31] fix: decode absent structs and arrays of times as 1970

The times within a struct (or array) which isn't encoded because it's empty
were decoded as year 1.
---
 reflect.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/reflect.go b/reflect.go
index ab95603..342000d 100644
--- a/reflect.go
+++ b/reflect.go
@@ -127,6 +127,7 @@ func isDefaultValue(rv reflect.Value) (erv reflect.Value, isDefaultValue bool) {
 
 // Returns the default value of a type.  For a time type or a pointer(s) to
 // time, the default value is not zero (or nil), but the time value of 1970.
+// The same goes for times within structs and arrays.
 func defaultValue(rt reflect.Type) (rv reflect.Value) {
 	switch rt.Kind() {
 	case reflect.Ptr:
@@ -156,6 +157,24 @@ func defaultValue(rt reflect.Type) (rv reflect.Value) {
 			rv.Set(reflect.ValueOf(zeroTime))
 			return rv
 		}
+		// Set the default values of the encoded fields.
+		rv = reflect.New(rt).Elem()
+		for i := 0; i < rt.NumField(); i++ {
+			field := rt.Field(i)
+			if isExported(field) && field.Tag.Get("json") != "-" {
+				rv.Field(i).Set(defaultValue(field.Type))
+			}
+		}
+		return rv
+	case reflect.Array:
+		switch rt.Elem().Kind() {
+		case reflect.Ptr, reflect.Struct, reflect.Array:
+			rv = reflect.New(rt).Elem()
+			for i := 0; i < rt.Len(); i++ {
+				rv.Index(i).Set(defaultValue(rt.Elem()))
+			}
+			return rv
+		}
 	}
 
 	// Just return the default Go zero object.
-- 
2.43.0


From 6d53a82fcb967885d85d1f0d855b9dce737ce249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 24/31] fix: reject a byte slice whose length is missing

The field key of a []byte at the end of the input was accepted without the
length (and contents) that must follow.
---
 binary-decode.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index a396af1..19bfb7f 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -622,12 +622,6 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 	if ert.Kind() != reflect.Uint8 {
 		panic("should not happen")
 	}
-	// If len(bz) == 0 the code below will err
-	if len(bz) == 0 {
-		rv.Set(info.ZeroValue)
-		return 0, nil
-	}
-
 	// Read byte-length prefixed byteslice.
 	var (
 		byteslice []byte
-- 
2.43.0


From 726fc1a6a1e51cc9f33b4dd05ddf4fc45309b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 25/31] fix: decode nil interface fields which are written
 empty

A nil interface is encoded as an empty byteslice, which is written for a field
with write_empty, and which could not be decoded.
---
 binary-decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 19bfb7f..982e641 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -347,6 +347,11 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		// This is a trick for debuggability -- we slide on &n more later.
 		n += _n - len(buf)
 		bz = buf
+
+		// Special case when rv was nil, which is denoted by an empty byteslice.
+		if len(bz) == 0 {
+			return
+		}
 	}
 
 	// Consume disambiguation / prefix bytes.
-- 
2.43.0


From 20ec0ee2d2b72c353de3faf4c2217fa9c4a3b7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 26/31] fix: let DeepCopy use the methods of values behind
 several pointers

---
 deep_copy.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 3a96390..829c87c 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -43,9 +43,7 @@ func _deepCopy(src, dst reflect.Value) {
 	switch src.Kind() {
 	case reflect.Ptr:
 		cpy := reflect.New(src.Type().Elem())
-		if !isNil(src.Elem()) {
-			_deepCopy(src.Elem(), cpy.Elem())
-		}
+		deepCopy(src.Elem(), cpy.Elem())
 		dst.Set(cpy)
 		return
 
-- 
2.43.0


From 5831ff9f1704abfda3681cc6beac4dc1eafca351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 27/31] fix: decode JSON fields with their own options

---
 json-decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json-decode.go b/json-decode.go
index 7727949..dd4064e 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -363,7 +363,7 @@ func (cdc *Codec) decodeReflectJSONSlice(bz []byte, info *TypeInfo, rv reflect.V
 }
 
 // CONTRACT: rv.CanAddr() is true.
-func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.Value, fopts FieldOptions) (err error) {
+func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.Value, _ FieldOptions) (err error) {
 	if !rv.CanAddr() {
 		panic("rv not addressable")
 	}
@@ -414,7 +414,7 @@ func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.
 		}
 
 		// Decode into field rv.
-		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, fopts)
+		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, field.FieldOptions)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 7b9ad22f86b843ac92c0017364f3d7e73e6ff6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 28/31] fix: unlock the codec when a type isn't supported

---
 codec.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/codec.go b/codec.go
index 1d893d8..3c653bd 100644
--- a/codec.go
+++ b/codec.go
@@ -378,10 +378,9 @@ func (cdc *Codec) assertNewTypeInfoNolock(info *TypeInfo) {
 }
 
 func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error) {
-	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
-	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-	// mutex.
 	cdc.mtx.Lock() // requires wlock because we might set.
+	// NOTE: newTypeInfoUnregistered panics if rt isn't supported.
+	defer cdc.mtx.Unlock()
 
 	// Dereference pointer type.
 	for rt.Kind() == reflect.Ptr {
@@ -392,14 +391,12 @@ func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error)
 	if !ok {
 		if rt.Kind() == reflect.Interface {
 			err = fmt.Errorf("unregistered interface %v", rt)
-			cdc.mtx.Unlock()
 			return
 		}
 
 		info = cdc.newTypeInfoUnregistered(rt)
 		cdc.setTypeInfoNolock(info)
 	}
-	cdc.mtx.Unlock()
 	return info, nil
 }
 
-- 
2.43.0


From 84a68c4935bf3ea995fd1fa2c1d3c0a166647434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 29/31] fix: do not copy the contents of nested values when
 decoding

The input of each nested value was copied, so that n bytes of input nested
d levels deep needed n*d bytes of memory.
---
 binary-decode.go |  8 ++++----
 decoder.go       | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 982e641..127916a 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -340,7 +340,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = splitByteSlice(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -503,7 +503,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = splitByteSlice(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -679,7 +679,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = splitByteSlice(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -801,7 +801,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 	if !bare {
 		// Read byte-length prefixed byteslice.
 		var buf []byte
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = splitByteSlice(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
diff --git a/decoder.go b/decoder.go
index 14f4e7c..befd000 100644
--- a/decoder.go
+++ b/decoder.go
@@ -278,6 +278,20 @@ func decodeNanos(bz *[]byte, n *int) (int32, error) {
 }
 
 func DecodeByteSlice(bz []byte) (bz2 []byte, n int, err error) {
+	var buf []byte
+	buf, n, err = splitByteSlice(bz)
+	if err != nil {
+		return
+	}
+	bz2 = make([]byte, len(buf))
+	copy(bz2, buf)
+	return
+}
+
+// splitByteSlice is like DecodeByteSlice, but bz2 is a part of bz. Whatever
+// contains other values is decoded from this, so that the memory needed does
+// not grow with the depth of nesting.
+func splitByteSlice(bz []byte) (bz2 []byte, n int, err error) {
 	var count uint64
 	var _n int
 	count, _n, err = DecodeUvarint(bz)
@@ -292,8 +306,7 @@ func DecodeByteSlice(bz []byte) (bz2 []byte, n int, err error) {
 		err = fmt.Errorf("insufficient bytes decoding []byte of length %v", count)
 		return
 	}
-	bz2 = make([]byte, count)
-	copy(bz2, bz[0:count])
+	bz2 = bz[0:count:count]
 	n += int(count)
 	return
 }
-- 
2.43.0


From 4b29392766221f696d4f5d3a51d932ce1a4cb2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:22 +0000
Subject: [PATCH 30/31] fix: do not panic when decoding into a pointer to a
 non-nil list

---
 amino.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index becefe1..f13ace4 100644
--- a/amino.go
+++ b/amino.go
@@ -492,8 +492,8 @@ func isPointerToStructOrToRepeatedStruct(rv reflect.Value, rt reflect.Type) bool
 		return rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Struct ||
 			rt.Kind() == reflect.Array && rt.Elem().Kind() == reflect.Struct
 	}
-	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Elem().Kind() == reflect.Struct
-	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Elem().Kind() == reflect.Struct
+	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Type().Elem().Kind() == reflect.Struct
+	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Type().Elem().Kind() == reflect.Struct
 	return isRepeatedStructAr || isRepeatedStructSl
 }
 
-- 
2.43.0


From 7d0b9d347698a5b65dfe57f09718399027402553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 31/31] fix: do not panic on byte slices and arrays of a named
 byte type

reflect.Value.Set and the fast paths for bytes require the element type to
be uint8 itself; a list of a defined type with kind uint8 panicked when
decoded, and unaddressable arrays of it when encoded.
---
 binary-decode.go | 4 ++--
 binary-encode.go | 4 +++-
 json-decode.go   | 2 +-
 json-encode.go   | 4 +++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 127916a..3f5f2c5 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -470,7 +470,7 @@ func (cdc *Codec) decodeReflectBinaryByteArray(bz []byte, info *TypeInfo, rv ref
 	}
 
 	// Copy read byteslice to rv array.
-	reflect.Copy(rv, reflect.ValueOf(byteslice))
+	copy(rv.Slice(0, length).Bytes(), byteslice)
 	return n, err
 }
 
@@ -641,7 +641,7 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 		// NOTE: We prefer nil slices.
 		rv.Set(info.ZeroValue)
 	} else {
-		rv.Set(reflect.ValueOf(byteslice))
+		rv.SetBytes(byteslice)
 	}
 	return n, err
 }
diff --git a/binary-encode.go b/binary-encode.go
index e1541f1..ff2b6d5 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -293,7 +293,9 @@ func (cdc *Codec) encodeReflectBinaryByteArray(w io.Writer, info *TypeInfo, rv r
 		byteslice = rv.Slice(0, length).Bytes()
 	} else {
 		byteslice = make([]byte, length)
-		reflect.Copy(reflect.ValueOf(byteslice), rv) // XXX: looks expensive!
+		for i := range byteslice { // XXX: looks expensive!
+			byteslice[i] = byte(rv.Index(i).Uint())
+		}
 	}
 
 	// Write byte-length prefixed byteslice.
diff --git a/json-decode.go b/json-decode.go
index dd4064e..535118e 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -259,7 +259,7 @@ func (cdc *Codec) decodeReflectJSONArray(bz []byte, info *TypeInfo, rv reflect.V
 			err = fmt.Errorf("decodeReflectJSONArray: byte-length mismatch, got %v want %v",
 				len(buf), length)
 		}
-		reflect.Copy(rv, reflect.ValueOf(buf))
+		copy(rv.Slice(0, length).Bytes(), buf)
 		return
 
 	default: // General case.
diff --git a/json-encode.go b/json-encode.go
index d13716d..c2b9aa4 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -222,7 +222,9 @@ func (cdc *Codec) encodeReflectJSONList(w io.Writer, info *TypeInfo, rv reflect.
 			bz = rv.Slice(0, length).Bytes()
 		} else {
 			bz = make([]byte, length)
-			reflect.Copy(reflect.ValueOf(bz), rv) // XXX: looks expensive!
+			for i := range bz { // XXX: looks expensive!
+				bz[i] = byte(rv.Index(i).Uint())
+			}
 		}
 		var jsonBytes []byte
 		jsonBytes, err = json.Marshal(bz) // base64 encode
-- 
2.43.0

