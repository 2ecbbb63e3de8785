From 926e57893e8ebaa6137e6c6912e0033ede45b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 01/33] fix: release the codec lock when an unsupported type
 panics

getTypeInfoWlock panics for types amino does not support (e.g. structs with
floats that aren't tagged unsafe). It did so holding the codec's mutex, so a
caller that recovers found the codec deadlocked.
---
 codec.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/codec.go b/codec.go
index b8b4c9b..2efedef 100644
--- a/codec.go
+++ b/codec.go
@@ -364,10 +364,10 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 }
 
 func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error) {
-	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
-	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-	// mutex.
 	cdc.mtx.Lock() // requires wlock because we might set.
+	// NOTE: newTypeInfoUnregistered() panics for unsupported types, and the
+	// codec must remain usable after that.
+	defer cdc.mtx.Unlock()
 
 	// Dereference pointer type.
 	for rt.Kind() == reflect.Ptr {
@@ -378,14 +378,12 @@ func (cdc *Codec) getTypeInfoWlock(rt reflect.Type) (info *TypeInfo, err error)
 	if !ok {
 		if rt.Kind() == reflect.Interface {
 			err = fmt.Errorf("unregistered interface %v", rt)
-			cdc.mtx.Unlock()
 			return
 		}
 
 		info = cdc.newTypeInfoUnregistered(rt)
 		cdc.setTypeInfoNolock(info)
 	}
-	cdc.mtx.Unlock()
 	return info, nil
 }
 
-- 
2.43.0


From c67ae92fbaf581d894505d4837a87df192a609ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 02/33] fix: a rejected registration leaves the codec unchanged

RegisterConcrete added the type to the registry and to the implementers of
its interfaces before checking for duplicate types, names and prefixes. After
a panic (recovered by the caller) the codec kept the half-registered type:
PrintTypes listed it, interfaces considered it a conflicting implementer and
the encoding of other types changed.
---
 codec.go | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/codec.go b/codec.go
index 2efedef..008c661 100644
--- a/codec.go
+++ b/codec.go
@@ -237,6 +237,9 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		// NOTE: All checks come before the first mutation, so that a rejected
+		// registration leaves the codec as it was.
+		cdc.assertNoTypeInfoNolock(info)
 		cdc.addCheckConflictsWithConcreteNolock(info)
 		cdc.setTypeInfoNolock(info)
 	}()
@@ -335,14 +338,28 @@ func (cdc *Codec) assertNotSealed() {
 	}
 }
 
+// Panics if info's type, disfix or name is already taken.
+func (cdc *Codec) assertNoTypeInfoNolock(info *TypeInfo) {
+	if _, ok := cdc.typeInfos[info.Type]; ok {
+		panic(fmt.Sprintf("TypeInfo already exists for %v", info.Type))
+	}
+	if info.Registered {
+		disfix := info.GetDisfix()
+		if existing, ok := cdc.disfixToTypeInfo[disfix]; ok {
+			panic(fmt.Sprintf("disfix <%X> already registered for %v", disfix, existing.Type))
+		}
+		if existing, ok := cdc.nameToTypeInfo[info.Name]; ok {
+			panic(fmt.Sprintf("name <%s> already registered for %v", info.Name, existing.Type))
+		}
+	}
+}
+
 func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 
 	if info.Type.Kind() == reflect.Ptr {
 		panic(fmt.Sprintf("unexpected pointer type"))
 	}
-	if _, ok := cdc.typeInfos[info.Type]; ok {
-		panic(fmt.Sprintf("TypeInfo already exists for %v", info.Type))
-	}
+	cdc.assertNoTypeInfoNolock(info)
 
 	cdc.typeInfos[info.Type] = info
 	if info.Type.Kind() == reflect.Interface {
@@ -350,12 +367,6 @@ func (cdc *Codec) setTypeInfoNolock(info *TypeInfo) {
 	} else if info.Registered {
 		cdc.concreteInfos = append(cdc.concreteInfos, info)
 		disfix := info.GetDisfix()
-		if existing, ok := cdc.disfixToTypeInfo[disfix]; ok {
-			panic(fmt.Sprintf("disfix <%X> already registered for %v", disfix, existing.Type))
-		}
-		if existing, ok := cdc.nameToTypeInfo[info.Name]; ok {
-			panic(fmt.Sprintf("name <%s> already registered for %v", info.Name, existing.Type))
-		}
 		cdc.disfixToTypeInfo[disfix] = info
 		cdc.nameToTypeInfo[info.Name] = info
 		//cdc.prefixToTypeInfos[prefix] =
@@ -655,16 +666,27 @@ func (cdc *Codec) checkConflictsInPrioNolock(iinfo *TypeInfo) error {
 
 func (cdc *Codec) addCheckConflictsWithConcreteNolock(cinfo *TypeInfo) {
 
+	// To return to the previous state upon conflict.
+	var undo []func()
+
 	// Iterate over registered interfaces that this "implements".
 	// "Implement" in quotes because we only consider the pointer, for extra
 	// safety.
 	for _, iinfo := range cdc.interfaceInfos {
+		iinfo := iinfo
 		if !cinfo.PtrToType.Implements(iinfo.Type) {
 			continue
 		}
 
 		// Add cinfo to iinfo.Implementers.
-		var origImpls = iinfo.Implementers[cinfo.Prefix]
+		var origImpls, had = iinfo.Implementers[cinfo.Prefix]
+		undo = append(undo, func() {
+			if had {
+				iinfo.Implementers[cinfo.Prefix] = origImpls
+			} else {
+				delete(iinfo.Implementers, cinfo.Prefix)
+			}
+		})
 		iinfo.Implementers[cinfo.Prefix] = append(origImpls, cinfo)
 
 		// Finally, check that all conflicts are in `.Priority`.
@@ -672,7 +694,9 @@ func (cdc *Codec) addCheckConflictsWithConcreteNolock(cinfo *TypeInfo) {
 		err := cdc.checkConflictsInPrioNolock(iinfo)
 		if err != nil {
 			// Return to previous state.
-			iinfo.Implementers[cinfo.Prefix] = origImpls
+			for _, fn := range undo {
+				fn()
+			}
 			panic(err)
 		}
 	}
-- 
2.43.0


From 91fa1e9c4c504988458b794a7d5eca08d319e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:55 +0000
Subject: [PATCH 03/33] fix: decoding a type that does not implement the
 interface is an error

The disambiguation bytes or the JSON type name can name any registered
concrete type. Decoding one that does not implement the target interface
panicked in reflect.Set instead of returning an error.
---
 binary-decode.go | 3 +++
 json-decode.go   | 6 +++---
 reflect.go       | 9 +++++++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 8259e91..c8f76e6 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -367,6 +367,9 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	if err = checkImplements(irvSet.Type(), rv.Type()); err != nil {
+		return
+	}
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
diff --git a/json-decode.go b/json-decode.go
index d6bc0ff..bc2024d 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -201,9 +201,6 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 	if err != nil {
 		return
 	}
-	// XXX: Check name against interface to make sure that it actually
-	// matches, and return an error if it doesn't.
-
 	// NOTE: Unlike decodeReflectBinaryInterface, we already dealt with nil in decodeReflectJSON.
 	// NOTE: We also "consumed" the interface wrapper by replacing `bz` above.
 
@@ -217,6 +214,9 @@ func (cdc *Codec) decodeReflectJSONInterface(bz []byte, iinfo *TypeInfo, rv refl
 
 	// Construct the concrete type.
 	var crv, irvSet = constructConcreteType(cinfo)
+	if err = checkImplements(irvSet.Type(), rv.Type()); err != nil {
+		return
+	}
 
 	// Decode into the concrete type.
 	err = cdc.decodeReflectJSON(bz, cinfo, crv, fopts)
diff --git a/reflect.go b/reflect.go
index ab95603..087ce60 100644
--- a/reflect.go
+++ b/reflect.go
@@ -188,6 +188,15 @@ func constructConcreteType(cinfo *TypeInfo) (crv, irvSet reflect.Value) {
 	return
 }
 
+// Returns an error if a (pointer to) concrete type named by encoded bytes
+// cannot be set on the interface being decoded.
+func checkImplements(crt, irt reflect.Type) error {
+	if !crt.AssignableTo(irt) {
+		return fmt.Errorf("concrete type %v does not implement %v", crt, irt)
+	}
+	return nil
+}
+
 // CONTRACT: rt.Kind() != reflect.Ptr
 func typeToTyp3(rt reflect.Type, opts FieldOptions) Typ3 {
 	switch rt.Kind() {
-- 
2.43.0


From 2832e26eae71c27e228906a3efdc6012db957290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 04/33] fix: 64-bit integers in JSON must be quoted decimals

A lone double quote panicked with slice bounds out of range, and "null",
" 5" and the like were accepted for int, int64, uint and uint64.
---
 json-decode.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index bc2024d..53e2c31 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -116,7 +116,7 @@ func (cdc *Codec) decodeReflectJSON(bz []byte, info *TypeInfo, rv reflect.Value,
 	case reflect.Int64, reflect.Int:
 		fallthrough
 	case reflect.Uint64, reflect.Uint:
-		if bz[0] != '"' || bz[len(bz)-1] != '"' {
+		if !isQuotedNumber(bz) {
 			err = errors.Errorf(
 				"invalid character -- Amino:JSON int/int64/uint/uint64 expects quoted values for javascript numeric support, got: %v", // nolint: lll
 				string(bz),
@@ -514,6 +514,16 @@ func decodeInterfaceJSON(bz []byte) (name string, data []byte, err error) {
 	return
 }
 
+// Returns true if b is a quoted decimal, give or take what
+// invokeStdlibJSONUnmarshal() checks about its digits.
+func isQuotedNumber(b []byte) bool {
+	if len(b) < 3 || b[0] != '"' || b[len(b)-1] != '"' {
+		return false
+	}
+	isDigit := func(c byte) bool { return '0' <= c && c <= '9' }
+	return (b[1] == '-' || isDigit(b[1])) && isDigit(b[len(b)-2])
+}
+
 func nullBytes(b []byte) bool {
 	return bytes.Equal(b, []byte(`null`))
 }
-- 
2.43.0


From 0cbeb04a22a4739b0219a2de965317dbb1646cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 05/33] fix: decode into a non-nil pointer to a slice or array

UnmarshalBinaryBare(bz, &ptr) with ptr a non-nil *[]T or *[n]T called
reflect.Value.Elem on the slice or array, which panics.
---
 amino.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 9716ae7..6e0ac69 100644
--- a/amino.go
+++ b/amino.go
@@ -471,8 +471,8 @@ func isPointerToStructOrToRepeatedStruct(rv reflect.Value, rt reflect.Type) bool
 		return rt.Kind() == reflect.Slice && rt.Elem().Kind() == reflect.Struct ||
 			rt.Kind() == reflect.Array && rt.Elem().Kind() == reflect.Struct
 	}
-	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Elem().Kind() == reflect.Struct
-	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Elem().Kind() == reflect.Struct
+	isRepeatedStructSl := isPtr && drv.Kind() == reflect.Slice && drv.Type().Elem().Kind() == reflect.Struct
+	isRepeatedStructAr := isPtr && drv.Kind() == reflect.Array && drv.Type().Elem().Kind() == reflect.Struct
 	return isRepeatedStructAr || isRepeatedStructSl
 }
 
-- 
2.43.0


From 149c7b95ef7fe7015ebd41edd4b75ebaaf8eea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 06/33] fix: count the bytes of a length prefix as read

The decoders of nested values assumed that the length prefix was minimally
encoded. With a longer varint they returned too small a count, and the parent
went on decoding from the middle of the nested value.
---
 binary-decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index c8f76e6..f8bcfc7 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -341,7 +341,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -491,7 +491,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -669,7 +669,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
@@ -787,7 +787,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			return
 		}
 		// This is a trick for debuggability -- we slide on &n more later.
-		n += UvarintSize(uint64(len(buf)))
+		n += _n - len(buf)
 		bz = buf
 	}
 
-- 
2.43.0


From 135476ada90d0a5a94623de5962dc6850117c68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 07/33] fix: reject leftover bytes in an encoded time

The bytes after the seconds and nanoseconds of a nested time were not counted
as read, so the parent decoded them as its own fields.
---
 binary-decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index f8bcfc7..5e0664a 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -800,6 +800,11 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 		if slide(&bz, &n, _n) && err != nil {
 			return
 		}
+		// Ensure that we read the whole buffer.
+		if len(bz) > 0 {
+			err = errors.New("bytes left over after reading time contents")
+			return
+		}
 		rv.Set(reflect.ValueOf(t))
 
 	default:
-- 
2.43.0


From 7f568e3ad87c30d3d40fa78da8854e67d9df9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 08/33] fix: reject uint32 values that overflow

Varints over 32 bits were silently truncated; for int32 they are an error.
---
 binary-decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 5e0664a..268ad15 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -226,6 +226,10 @@ func (cdc *Codec) decodeReflectBinary(bz []byte, info *TypeInfo,
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
+			if num > math.MaxUint32 {
+				err = ErrOverflowInt
+				return
+			}
 			rv.SetUint(num)
 		}
 		return
-- 
2.43.0


From 0554db360a69b4ded651f1537ab35cc5134c965c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 09/33] fix: robust length prefixes in
 UnmarshalBinaryLengthPrefixedReader

Without a size limit, a length over MaxInt64 panicked in make (the error was
built and dropped), a length varint over 64 bits was read as an empty message,
and any length made the reader allocate that much before reading.  With a
limit, the overflow error did not stop the loop from reading more bytes.
Readers that return no byte, or the last byte along with io.EOF, were
misread; and a prefix cut short was reported as a clean io.EOF.
---
 amino.go | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/amino.go b/amino.go
index 6e0ac69..37a7b98 100644
--- a/amino.go
+++ b/amino.go
@@ -297,23 +297,28 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	var l int64
 	var buf [binary.MaxVarintLen64]byte
 	for i := 0; i < len(buf); i++ {
-		_, err = r.Read(buf[i : i+1])
+		_, err = io.ReadFull(r, buf[i:i+1])
 		if err != nil {
+			if err == io.EOF && i > 0 {
+				err = io.ErrUnexpectedEOF
+			}
 			return
 		}
 		n++
 		if buf[i]&0x80 == 0 {
 			break
 		}
-		if n >= maxSize {
+		if maxSize > 0 && n >= maxSize {
 			err = errors.Errorf(
 				"read overflow, maxSize is %v but uvarint(length-prefix) is itself greater than maxSize",
 				maxSize,
 			)
+			return
 		}
 	}
-	u64, _ := binary.Uvarint(buf[:])
-	if err != nil {
+	u64, _n := binary.Uvarint(buf[:n])
+	if _n <= 0 {
+		err = errors.Errorf("error reading msg byte-length prefix: got code %v", _n)
 		return
 	}
 	if maxSize > 0 {
@@ -331,21 +336,26 @@ func (cdc *Codec) UnmarshalBinaryLengthPrefixedReader(r io.Reader, ptr interface
 	}
 	l = int64(u64)
 	if l < 0 {
-		_ = errors.Errorf( //nolint:errcheck
+		err = errors.New(
 			"read overflow, this implementation can't read this because, why would anyone have this much data? Hello from 2018",
 		)
+		return
 	}
 
 	// Read that many bytes.
-	var bz = make([]byte, l)
-	_, err = io.ReadFull(r, bz)
+	// NOTE: The buffer grows as bytes arrive, for l can't be trusted.
+	var bz bytes.Buffer
+	_n64, err := io.CopyN(&bz, r, l)
+	n += _n64
 	if err != nil {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
 		return
 	}
-	n += l
 
 	// Decode.
-	err = cdc.UnmarshalBinaryBare(bz, ptr)
+	err = cdc.UnmarshalBinaryBare(bz.Bytes(), ptr)
 	return n, err
 }
 
-- 
2.43.0


From 0a077abbb252410bfc49d27ab3399bfe06c901a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 10/33] fix: number the elements of a top-level list from field
 1

Top-level lists of strings, byte slices, struct pointers or interfaces were
encoded with the invalid field number 0, which the decoder rejects.
---
 amino.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amino.go b/amino.go
index 37a7b98..4034a01 100644
--- a/amino.go
+++ b/amino.go
@@ -219,7 +219,7 @@ func (cdc *Codec) MarshalBinaryBare(o interface{}) ([]byte, error) {
 		writeEmpty := false
 		typ3 := typeToTyp3(info.Type, FieldOptions{})
 		bare := typ3 != Typ3ByteLength
-		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{}, rv, writeEmpty, bare); err != nil {
+		if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{BinFieldNum: 1}, rv, writeEmpty, bare); err != nil {
 			return nil, err
 		}
 		bz = buf.Bytes()
-- 
2.43.0


From 13f126b514aa522eb205b2607e0fc507f683f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 11/33] fix: encode lists of byte slices and byte arrays

[][]byte, [n][]byte and the like are allowed everywhere, but were encoded
only as struct fields. At the top level, behind a pointer and in interfaces
their contents were silently dropped.
---
 binary-encode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binary-encode.go b/binary-encode.go
index d10ebfc..aa8bce3 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -84,6 +84,9 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 					break
 				}
 			}
+			if err == nil {
+				err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
+			}
 		} else {
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
@@ -108,6 +111,9 @@ func (cdc *Codec) encodeReflectBinary(w io.Writer, info *TypeInfo, rv reflect.Va
 				err = errors.New("multidimensional slices not allowed")
 				break
 			}
+			if err == nil {
+				err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
+			}
 		default:
 			err = cdc.encodeReflectBinaryList(w, info, rv, fopts, bare)
 		}
-- 
2.43.0


From 784ef1c744f34cd33d2db1782a1b9ca671ab3a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:45 +0000
Subject: [PATCH 12/33] fix: decode registered non-struct types in the first
 field of a struct

A registered concrete type that is not a struct is wrapped in an implicit
struct at the top level only. The decoder expected that wrapping whenever the
interface was field number 1, list elements included, and could not decode
such values. It also took the length of a top-level list for its first
element.
---
 binary-decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 268ad15..25f5a81 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -375,12 +375,15 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		return
 	}
 	isKnownType := (cinfo.Type.Kind() != reflect.Map) && (cinfo.Type.Kind() != reflect.Func)
+	// Only at the top level (bare), where MarshalBinaryBare() encoded the
+	// concrete value, is it wrapped in an implicit struct.
+	cbare := true
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
 		len(bz) > 0 &&
 		(crv.Kind() != reflect.Interface) &&
 		isKnownType &&
-		fopts.BinFieldNum == 1 {
+		bare {
 		var (
 			fnum      uint32
 			typ       Typ3
@@ -399,10 +402,11 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 				typWanted, fnum, cinfo.Type, typ)
 		}
 		slide(&bz, &n, nFnumTyp3)
+		cbare = typWanted != Typ3ByteLength
 	}
 
 	// Decode into the concrete type.
-	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, true)
+	_n, err = cdc.decodeReflectBinary(bz, cinfo, crv, fopts, cbare)
 	if slide(&bz, &n, _n) && err != nil {
 		rv.Set(irvSet) // Helps with debugging
 		return
-- 
2.43.0


From 77d4ae78a8b9587c2f8bbb995885b152396c2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 13/33] fix: decode top-level default values

MarshalBinaryBare encodes 0, "" and false (registered concrete types
included) as no bytes after the prefix, which UnmarshalBinaryBare rejected
with "buffer too small".
---
 amino.go         | 20 ++++++++++++++++++++
 binary-decode.go |  5 +++++
 2 files changed, 25 insertions(+)

diff --git a/amino.go b/amino.go
index 4034a01..0641511 100644
--- a/amino.go
+++ b/amino.go
@@ -402,6 +402,7 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 	// Default is non-length prefixed:
 	bare := true
 	var nWrap int
+	bz = restoreOmittedDefault(bz, info, rv)
 	isKnownType := (info.Type.Kind() != reflect.Map) && (info.Type.Kind() != reflect.Func)
 	if !isStructOrRepeatedStruct(info) &&
 		!isPointerToStructOrToRepeatedStruct(rv, rt) &&
@@ -454,6 +455,25 @@ func (cdc *Codec) UnmarshalBinaryBare(bz []byte, ptr interface{}) error {
 	return nil
 }
 
+// MarshalBinaryBare() encodes a default value that isn't a struct as no bytes
+// at all, since it is the only field of an implicit struct. If that is what bz
+// is, return the encoding that wasn't omitted.
+func restoreOmittedDefault(bz []byte, info *TypeInfo, rv reflect.Value) []byte {
+	if len(bz) > 0 ||
+		isStructOrRepeatedStruct(info) || isPointerToStructOrToRepeatedStruct(rv, rv.Type()) {
+		return bz
+	}
+	switch info.Type.Kind() {
+	case reflect.Interface, reflect.Map, reflect.Func, reflect.Chan,
+		reflect.Float32, reflect.Float64:
+		return bz
+	}
+	buf := new(bytes.Buffer)
+	_ = encodeFieldNumberAndTyp3(buf, 1, typeToTyp3(info.Type, FieldOptions{}))
+	_ = buf.WriteByte(0x00)
+	return buf.Bytes()
+}
+
 func isStructOrRepeatedStruct(info *TypeInfo) bool {
 	if info.Type.Kind() == reflect.Struct {
 		return true
diff --git a/binary-decode.go b/binary-decode.go
index 25f5a81..3c16c02 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -378,6 +378,11 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 	// Only at the top level (bare), where MarshalBinaryBare() encoded the
 	// concrete value, is it wrapped in an implicit struct.
 	cbare := true
+	if bare && len(bz) == 0 {
+		if bz = restoreOmittedDefault(bz, cinfo, crv); len(bz) > 0 {
+			n -= len(bz) // They aren't in the input.
+		}
+	}
 	if !isStructOrRepeatedStruct(cinfo) &&
 		!isPointerToStructOrToRepeatedStruct(crv, cinfo.Type) &&
 		len(bz) > 0 &&
-- 
2.43.0


From 4cb3fb94ddf5171b2630efc6c308879a53e03699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 14/33] fix: write_empty of nil pointers and nil interfaces

A nil pointer in a write_empty field made the encoder panic on an invalid
reflect.Value, and the empty byteslice that is written for a nil interface was
an error to decode.
---
 binary-decode.go | 6 ++++++
 binary-encode.go | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 3c16c02..5e69462 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -349,6 +349,12 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 		bz = buf
 	}
 
+	// Special case when rv is nil, it was written as an empty byteslice.
+	if !bare && len(bz) == 0 {
+		rv.Set(iinfo.ZeroValue)
+		return
+	}
+
 	// Consume disambiguation / prefix bytes.
 	disamb, hasDisamb, prefix, hasPrefix, _n, err := DecodeDisambPrefixBytes(bz)
 	if slide(&bz, &n, _n) && err != nil {
diff --git a/binary-encode.go b/binary-encode.go
index aa8bce3..29d9fc3 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -453,6 +453,10 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 				// (except when `amino:"write_empty"` is set).
 				continue
 			}
+			if !dfrv.IsValid() {
+				// Special case: write_empty of a nil pointer.
+				dfrv, _, _ = derefPointersZero(defaultValue(frv.Type()))
+			}
 			if field.UnpackedList {
 				// Write repeated field entries for each list item.
 				err = cdc.encodeReflectBinaryList(buf, finfo, dfrv, field.FieldOptions, true)
-- 
2.43.0


From 3b9efee6aeacb05e06bdaeb6dbbf37b231230027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 15/33] fix: skip unknown repeated fields

An unpacked list (e.g. []string) appended to a struct by a newer version made
older versions fail on its second element, though unknown fields are meant to
be skipped.
---
 binary-decode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binary-decode.go b/binary-decode.go
index 5e69462..97ad26f 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -903,12 +903,15 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 			fnum uint32
 			typ3 Typ3
 		)
+		var numFields = uint32(len(info.Fields))
 		for len(bz) > 0 {
 			fnum, typ3, _n, err = decodeFieldNumberAndTyp3(bz)
 			if slide(&bz, &n, _n) && err != nil {
 				return
 			}
-			if fnum <= lastFieldNum {
+			// NOTE: An unknown field may be an unpacked list, which repeats.
+			isRepeated := fnum == lastFieldNum && fnum > numFields
+			if fnum <= lastFieldNum && !isRepeated {
 				err = fmt.Errorf("encountered fieldnNum: %v, but we have already seen fnum: %v\nbytes:%X",
 					fnum, lastFieldNum, bz)
 				return
-- 
2.43.0


From a7b496c3fcf51e32f99754d635fa7fc21eddb2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:14 +0000
Subject: [PATCH 16/33] fix: support named byte types and named string map keys

Given "type B byte", []B and [n]B could be encoded in some places, but
panicked in reflect.Set or reflect.Copy in others. So did decoding JSON into a
map whose key type is a named string.
---
 binary-decode.go |  4 ++--
 binary-encode.go |  3 +--
 json-decode.go   |  5 +++--
 json-encode.go   | 10 ++++++----
 reflect.go       |  7 +++++++
 5 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 97ad26f..66df4fa 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -472,7 +472,7 @@ func (cdc *Codec) decodeReflectBinaryByteArray(bz []byte, info *TypeInfo, rv ref
 	}
 
 	// Copy read byteslice to rv array.
-	reflect.Copy(rv, reflect.ValueOf(byteslice))
+	copy(rv.Slice(0, length).Bytes(), byteslice)
 	return n, err
 }
 
@@ -645,7 +645,7 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 		// NOTE: We prefer nil slices.
 		rv.Set(info.ZeroValue)
 	} else {
-		rv.Set(reflect.ValueOf(byteslice))
+		rv.SetBytes(byteslice)
 	}
 	return n, err
 }
diff --git a/binary-encode.go b/binary-encode.go
index 29d9fc3..22e2c1c 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -296,8 +296,7 @@ func (cdc *Codec) encodeReflectBinaryByteArray(w io.Writer, info *TypeInfo, rv r
 	if rv.CanAddr() {
 		byteslice = rv.Slice(0, length).Bytes()
 	} else {
-		byteslice = make([]byte, length)
-		reflect.Copy(reflect.ValueOf(byteslice), rv) // XXX: looks expensive!
+		byteslice = copyOfByteArray(rv) // XXX: looks expensive!
 	}
 
 	// Write byte-length prefixed byteslice.
diff --git a/json-decode.go b/json-decode.go
index 53e2c31..a6f477c 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -257,8 +257,9 @@ func (cdc *Codec) decodeReflectJSONArray(bz []byte, info *TypeInfo, rv reflect.V
 		if len(buf) != length {
 			err = fmt.Errorf("decodeReflectJSONArray: byte-length mismatch, got %v want %v",
 				len(buf), length)
+			return
 		}
-		reflect.Copy(rv, reflect.ValueOf(buf))
+		copy(rv.Slice(0, length).Bytes(), buf)
 		return
 
 	default: // General case.
@@ -467,7 +468,7 @@ func (cdc *Codec) decodeReflectJSONMap(bz []byte, info *TypeInfo, rv reflect.Val
 		}
 
 		// And set.
-		krv := reflect.New(reflect.TypeOf("")).Elem()
+		krv := reflect.New(krt).Elem()
 		krv.SetString(key)
 		mrv.SetMapIndex(krv, vrv)
 	}
diff --git a/json-encode.go b/json-encode.go
index 1d2778c..6dea1bc 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -217,11 +217,13 @@ func (cdc *Codec) encodeReflectJSONList(w io.Writer, info *TypeInfo, rv reflect.
 		// NOTE: Base64 encoding preserves the exact original number of bytes.
 		// Get readable slice of bytes.
 		var bz []byte
-		if rv.CanAddr() {
+		switch {
+		case rv.Kind() == reflect.Slice:
+			bz = rv.Bytes()
+		case rv.CanAddr():
 			bz = rv.Slice(0, length).Bytes()
-		} else {
-			bz = make([]byte, length)
-			reflect.Copy(reflect.ValueOf(bz), rv) // XXX: looks expensive!
+		default:
+			bz = copyOfByteArray(rv) // XXX: looks expensive!
 		}
 		var jsonBytes []byte
 		jsonBytes, err = json.Marshal(bz) // base64 encode
diff --git a/reflect.go b/reflect.go
index 087ce60..c8ef4a0 100644
--- a/reflect.go
+++ b/reflect.go
@@ -231,6 +231,13 @@ func typeToTyp3(rt reflect.Type, opts FieldOptions) Typ3 {
 	}
 }
 
+// CONTRACT: rv.Kind() == reflect.Array && rv.Type().Elem().Kind() == reflect.Uint8
+func copyOfByteArray(rv reflect.Value) []byte {
+	cpy := reflect.New(rv.Type()).Elem()
+	cpy.Set(rv)
+	return cpy.Slice(0, cpy.Len()).Bytes()
+}
+
 func toReprObject(rv reflect.Value) (rrv reflect.Value, err error) {
 	var mwrm reflect.Value
 	if rv.CanAddr() {
-- 
2.43.0


From 6e8752f60ccd8d8db59b772ceebbbc58904e9583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:15 +0000
Subject: [PATCH 17/33] fix: escape registered names in JSON

Names may contain anything; one with a quote or a backslash made the JSON
invalid or changed the name.
---
 amino.go       |  2 +-
 json-encode.go | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/amino.go b/amino.go
index 0641511..3097661 100644
--- a/amino.go
+++ b/amino.go
@@ -536,7 +536,7 @@ func (cdc *Codec) MarshalJSON(o interface{}) ([]byte, error) {
 
 	// Write the disfix wrapper if it is a registered concrete type.
 	if info.Registered {
-		err = writeStr(w, _fmt(`{"type":"%s","value":`, info.Name))
+		err = writeStr(w, _fmt(`{"type":%s,"value":`, quoteJSONName(info.Name)))
 		if err != nil {
 			return nil, err
 		}
diff --git a/json-encode.go b/json-encode.go
index 6dea1bc..bff3349 100644
--- a/json-encode.go
+++ b/json-encode.go
@@ -1,10 +1,12 @@
 package amino
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 	"time"
 
 	"github.com/pkg/errors"
@@ -171,7 +173,7 @@ func (cdc *Codec) encodeReflectJSONInterface(w io.Writer, iinfo *TypeInfo, rv re
 
 	// Write interface wrapper.
 	// Part 1:
-	err = writeStr(w, _fmt(`{"type":"%s","value":`, cinfo.Name))
+	err = writeStr(w, _fmt(`{"type":%s,"value":`, quoteJSONName(cinfo.Name)))
 	if err != nil {
 		return
 	}
@@ -436,6 +438,17 @@ func invokeStdlibJSONMarshal(w io.Writer, v interface{}) error {
 	return err
 }
 
+// Like json.Marshal(name), but leaves <, > and & alone.
+func quoteJSONName(name string) string {
+	buf := new(bytes.Buffer)
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	if err := enc.Encode(name); err != nil {
+		panic(err) // should not happen
+	}
+	return strings.TrimSuffix(buf.String(), "\n")
+}
+
 func writeStr(w io.Writer, s string) (err error) {
 	_, err = w.Write([]byte(s))
 	return
-- 
2.43.0


From aefa8bb4cf8061bcce753e3b6a6d3a8644407ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 18/33] fix: DeepCopy copies slices, map values and nil inner
 pointers

Slices were copied, but the original was then assigned to the result, and map
values were assigned as they are, so the copy shared memory with the source. A
non-nil pointer to a nil pointer or a nil interface panicked.
---
 deep_copy.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 8e9a157..069659c 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -43,7 +43,7 @@ func _deepCopy(src, dst reflect.Value) {
 	switch src.Kind() {
 	case reflect.Ptr:
 		cpy := reflect.New(src.Type().Elem())
-		_deepCopy(src.Elem(), cpy.Elem())
+		deepCopy(src.Elem(), cpy.Elem())
 		dst.Set(cpy)
 		return
 
@@ -83,7 +83,7 @@ func _deepCopy(src, dst reflect.Value) {
 			cpy := reflect.MakeSlice(
 				src.Type(), src.Len(), src.Len())
 			reflect.Copy(cpy, src)
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		default:
 			cpy := reflect.MakeSlice(
@@ -93,7 +93,7 @@ func _deepCopy(src, dst reflect.Value) {
 				ecpy := cpy.Index(i)
 				deepCopy(esrc, ecpy)
 			}
-			dst.Set(src)
+			dst.Set(cpy)
 			return
 		}
 
@@ -119,7 +119,9 @@ func _deepCopy(src, dst reflect.Value) {
 		keys := src.MapKeys()
 		for _, key := range keys {
 			val := src.MapIndex(key)
-			cpy.SetMapIndex(key, val)
+			vcpy := reflect.New(src.Type().Elem()).Elem()
+			deepCopy(val, vcpy)
+			cpy.SetMapIndex(key, vcpy)
 		}
 		dst.Set(cpy)
 		return
-- 
2.43.0


From b37a7d4344fac4995ce70895a62a54cfad4f969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:37 +0000
Subject: [PATCH 19/33] fix: DeepCopy uses MarshalAmino/UnmarshalAmino for
 non-pointers too

A type with the pair that occurred as a struct field or list element made
DeepCopy panic if it was addressable (setting an unaddressable pointer), and
lost its unexported fields if it was not.
---
 deep_copy.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/deep_copy.go b/deep_copy.go
index 069659c..37cd26a 100644
--- a/deep_copy.go
+++ b/deep_copy.go
@@ -185,26 +185,22 @@ func callAminoCopy(src, dst reflect.Value) bool {
 	if src.Type() != dst.Type() {
 		panic("should not happen")
 	}
+	// The methods are called on pointers.
+	var psrc, pdst = src, dst
 	switch {
 	case src.Kind() == reflect.Ptr:
-		cpy := reflect.New(src.Type().Elem())
-		dst.Set(cpy)
+		pdst = reflect.New(src.Type().Elem())
 	case src.CanAddr():
-		if !dst.CanAddr() {
-			panic("should not happen")
-		}
-		src = src.Addr()
-		dst = dst.Addr()
+		psrc, pdst = src.Addr(), dst.Addr()
 	default:
-		return false
+		psrc, pdst = reflect.New(src.Type()), dst.Addr()
+		psrc.Elem().Set(src)
 	}
-	if !canAminoCopy(src) {
+	if !canAminoCopy(psrc) {
 		return false
 	}
-	cpy := reflect.New(src.Type().Elem())
-	dst.Set(cpy)
-	ma := src.MethodByName("MarshalAmino")
-	ua := dst.MethodByName("UnmarshalAmino")
+	ma := psrc.MethodByName("MarshalAmino")
+	ua := pdst.MethodByName("UnmarshalAmino")
 	outs := ma.Call(nil)
 	repr, err := outs[0], outs[1]
 	if !err.IsNil() {
@@ -215,6 +211,9 @@ func callAminoCopy(src, dst reflect.Value) bool {
 	if !err.IsNil() {
 		panic(err.Interface())
 	}
+	if src.Kind() == reflect.Ptr {
+		dst.Set(pdst)
+	}
 	return true
 }
 
-- 
2.43.0


From be07422e6d623883e29c6abfec19a1be1af20be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 20/33] fix: aminoscan reports malformed input

A truncated varint made aminoscan loop forever, and wire types 3, 4, 6 and 7
or a length beyond the input made it panic.
---
 cmd/aminoscan/aminoscan.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/cmd/aminoscan/aminoscan.go b/cmd/aminoscan/aminoscan.go
index 03aaefd..57c2974 100644
--- a/cmd/aminoscan/aminoscan.go
+++ b/cmd/aminoscan/aminoscan.go
@@ -77,7 +77,7 @@ func scanAny(typ amino.Typ3, bz []byte, indent string) (s string, n int, err err
 	case amino.Typ3_4Byte:
 		s, n, err = scan4Byte(bz, indent)
 	default:
-		panic("should not happen")
+		err = fmt.Errorf("invalid typ3 %v", typ)
 	}
 	return
 }
@@ -96,7 +96,7 @@ func scanVarint(bz []byte, indent string) (s string, n int, err error) {
 	// Then try Uvarint.
 	okU64 := true
 	u64, _n := binary.Uvarint(bz)
-	if n != _n {
+	if n != _n || _n <= 0 {
 		n = 0
 		okU64 = false
 	}
@@ -132,16 +132,15 @@ func scan8Byte(bz []byte, indent string) (s string, n int, err error) {
 func scanByteLength(bz []byte, indent string) (s string, n int, err error) {
 	// Read the length.
 	l64, _n := binary.Uvarint(bz)
-	if n < 0 {
-		n = 0
+	if _n <= 0 {
 		err = errors.New("error decoding uvarint")
 		return
 	}
-	length := int(l64)
-	if length >= len(bz) {
-		err = errors.New("while reading 8byte field, EOF was encountered")
+	if l64 > uint64(len(bz)-_n) {
+		err = errors.New("while reading bytelength field, EOF was encountered")
 		return
 	}
+	length := int(l64)
 	s = Cyan(fmt.Sprintf("%X", bz[:_n]))
 	slide(&bz, &n, _n)
 	// Read the remaining bytes.
@@ -175,7 +174,7 @@ func scanStruct(bz []byte, indent string, isRoot bool) (s string, n int, err err
 func scanFieldKey(bz []byte, indent string) (s string, typ amino.Typ3, n int, err error) {
 	var u64 uint64
 	u64, n = binary.Uvarint(bz)
-	if n < 0 {
+	if n <= 0 {
 		n = 0
 		err = errors.New("error decoding uvarint")
 		return
-- 
2.43.0


From da84c0d10fe94dac4c87e3bce1d2d72effb59ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 21/33] fix: do not copy the contents of nested values at every
 level

Every nested struct, list or interface value was copied before decoding it, so
memory use grew with the square of the nesting depth: for a recursive type,
100kB of input allocated 1.6GB and 1MB over 100GB.
---
 binary-decode.go |  8 ++++----
 decoder.go       | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 66df4fa..36e00ad 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -340,7 +340,7 @@ func (cdc *Codec) decodeReflectBinaryInterface(bz []byte, iinfo *TypeInfo, rv re
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceNoCopy(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -505,7 +505,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceNoCopy(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -683,7 +683,7 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			buf []byte
 			_n  int
 		)
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceNoCopy(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
@@ -801,7 +801,7 @@ func (cdc *Codec) decodeReflectBinaryStruct(bz []byte, info *TypeInfo, rv reflec
 	if !bare {
 		// Read byte-length prefixed byteslice.
 		var buf []byte
-		buf, _n, err = DecodeByteSlice(bz)
+		buf, _n, err = decodeByteSliceNoCopy(bz)
 		if slide(&bz, nil, _n) && err != nil {
 			return
 		}
diff --git a/decoder.go b/decoder.go
index 14f4e7c..7b57dd2 100644
--- a/decoder.go
+++ b/decoder.go
@@ -278,6 +278,17 @@ func decodeNanos(bz *[]byte, n *int) (int32, error) {
 }
 
 func DecodeByteSlice(bz []byte) (bz2 []byte, n int, err error) {
+	contents, n, err := decodeByteSliceNoCopy(bz)
+	if err != nil {
+		return
+	}
+	bz2 = make([]byte, len(contents))
+	copy(bz2, contents)
+	return
+}
+
+// Like DecodeByteSlice, but the result is a slice of bz.
+func decodeByteSliceNoCopy(bz []byte) (bz2 []byte, n int, err error) {
 	var count uint64
 	var _n int
 	count, _n, err = DecodeUvarint(bz)
@@ -292,8 +303,7 @@ func DecodeByteSlice(bz []byte) (bz2 []byte, n int, err error) {
 		err = fmt.Errorf("insufficient bytes decoding []byte of length %v", count)
 		return
 	}
-	bz2 = make([]byte, count)
-	copy(bz2, bz[0:count])
+	bz2 = bz[0:count]
 	n += int(count)
 	return
 }
-- 
2.43.0


From 82a3e0f450e538e7e58d8bd78851d03d4c77b8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:47 +0000
Subject: [PATCH 22/33] fix: times in absent structs default to 1970

A struct whose fields are all default is encoded as nothing. A time.Time field
in it, 1970 being its default, was decoded as year 1.
---
 reflect.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/reflect.go b/reflect.go
index c8ef4a0..0af2326 100644
--- a/reflect.go
+++ b/reflect.go
@@ -127,6 +127,7 @@ func isDefaultValue(rv reflect.Value) (erv reflect.Value, isDefaultValue bool) {
 
 // Returns the default value of a type.  For a time type or a pointer(s) to
 // time, the default value is not zero (or nil), but the time value of 1970.
+// So it is for times in structs and arrays.
 func defaultValue(rt reflect.Type) (rv reflect.Value) {
 	switch rt.Kind() {
 	case reflect.Ptr:
@@ -156,6 +157,26 @@ func defaultValue(rt reflect.Type) (rv reflect.Value) {
 			rv.Set(reflect.ValueOf(zeroTime))
 			return rv
 		}
+		// Like decoding from no bytes, for the struct may contain times.
+		if _, ok := reflect.PtrTo(rt).MethodByName("UnmarshalAmino"); !ok {
+			rv = reflect.New(rt).Elem()
+			for i := 0; i < rt.NumField(); i++ {
+				field := rt.Field(i)
+				if isExported(field) && field.Tag.Get("json") != "-" {
+					rv.Field(i).Set(defaultValue(field.Type))
+				}
+			}
+			return rv
+		}
+	case reflect.Array:
+		switch rt.Elem().Kind() {
+		case reflect.Ptr, reflect.Struct, reflect.Array:
+			rv = reflect.New(rt).Elem()
+			for i := 0; i < rt.Len(); i++ {
+				rv.Index(i).Set(defaultValue(rt.Elem()))
+			}
+			return rv
+		}
 	}
 
 	// Just return the default Go zero object.
-- 
2.43.0


From cda4ad193d665e79061d9f8cddc16a7ad13013fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 23/33] fix: honour amino:"unsafe" of a field when decoding
 JSON

---
 json-decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json-decode.go b/json-decode.go
index a6f477c..e1a6281 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -414,7 +414,7 @@ func (cdc *Codec) decodeReflectJSONStruct(bz []byte, info *TypeInfo, rv reflect.
 		}
 
 		// Decode into field rv.
-		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, fopts)
+		err = cdc.decodeReflectJSON(valueBytes, finfo, frv, field.FieldOptions)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 297925b95b57327bca739c3f96001f98da568671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 24/33] fix: write_empty of nil pointers to structs that
 contain times

---
 binary-encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary-encode.go b/binary-encode.go
index 22e2c1c..348efab 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -454,7 +454,7 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 			}
 			if !dfrv.IsValid() {
 				// Special case: write_empty of a nil pointer.
-				dfrv, _, _ = derefPointersZero(defaultValue(frv.Type()))
+				dfrv = defaultValue(derefType(frv.Type()))
 			}
 			if field.UnpackedList {
 				// Write repeated field entries for each list item.
-- 
2.43.0


From 7bd54fb74425163b51e96b77064c9fc511216f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:48 +0000
Subject: [PATCH 25/33] fix: MarshalAmino of lists in struct fields

---
 binary-encode.go |  6 +++++-
 codec.go         | 34 ++++++++++++++++++++++------------
 2 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/binary-encode.go b/binary-encode.go
index 348efab..2ea7633 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -458,7 +458,11 @@ func (cdc *Codec) encodeReflectBinaryStruct(w io.Writer, info *TypeInfo, rv refl
 			}
 			if field.UnpackedList {
 				// Write repeated field entries for each list item.
-				err = cdc.encodeReflectBinaryList(buf, finfo, dfrv, field.FieldOptions, true)
+				if finfo.IsAminoMarshaler {
+					err = cdc.encodeReflectBinary(buf, finfo, dfrv, field.FieldOptions, true)
+				} else {
+					err = cdc.encodeReflectBinaryList(buf, finfo, dfrv, field.FieldOptions, true)
+				}
 				if err != nil {
 					return
 				}
diff --git a/codec.go b/codec.go
index 008c661..50cc3f1 100644
--- a/codec.go
+++ b/codec.go
@@ -472,19 +472,16 @@ func (cdc *Codec) parseStructInfo(rt reflect.Type) (sinfo StructInfo) {
 			continue // e.g. json:"-"
 		}
 		if ftype.Kind() == reflect.Array || ftype.Kind() == reflect.Slice {
-			if ftype.Elem().Kind() == reflect.Uint8 {
-				// These get handled by our optimized methods,
-				// encodeReflectBinaryByte[Slice/Array].
-				unpackedList = false
-			} else {
-				etype := ftype.Elem()
-				for etype.Kind() == reflect.Ptr {
-					etype = etype.Elem()
-				}
-				typ3 := typeToTyp3(etype, fopts)
-				if typ3 == Typ3ByteLength {
-					unpackedList = true
+			unpackedList = isUnpackedList(ftype, fopts)
+			// It's the representation that gets encoded, if there is one.
+			rtype := ftype
+			for unpackedList {
+				rm, ok := rtype.MethodByName("MarshalAmino")
+				if !ok {
+					break
 				}
+				rtype = marshalAminoReprType(rm)
+				unpackedList = isUnpackedList(rtype, fopts)
 			}
 		}
 		// NOTE: This is going to change a bit.
@@ -505,6 +502,19 @@ func (cdc *Codec) parseStructInfo(rt reflect.Type) (sinfo StructInfo) {
 	return sinfo
 }
 
+// Returns true iff a field of type rt is a list that gets encoded unpacked.
+func isUnpackedList(rt reflect.Type, fopts FieldOptions) bool {
+	if rt.Kind() != reflect.Array && rt.Kind() != reflect.Slice {
+		return false
+	}
+	if rt.Elem().Kind() == reflect.Uint8 {
+		// These get handled by our optimized methods,
+		// encodeReflectBinaryByte[Slice/Array].
+		return false
+	}
+	return typeToTyp3(derefType(rt.Elem()), fopts) == Typ3ByteLength
+}
+
 func (cdc *Codec) parseFieldOptions(field reflect.StructField) (skip bool, fopts FieldOptions) {
 	binTag := field.Tag.Get("binary")
 	aminoTag := field.Tag.Get("amino")
-- 
2.43.0


From 358f821268853ef2bb4924d94891ad8eff3498a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 26/33] fix: a byte slice without a length is truncated input

Decoding a []byte from no bytes at all gave a nil slice, so that a message
cut off right after a field key was accepted.
---
 binary-decode.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index 36e00ad..095f5a9 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -625,11 +625,7 @@ func (cdc *Codec) decodeReflectBinaryByteSlice(bz []byte, info *TypeInfo, rv ref
 	if ert.Kind() != reflect.Uint8 {
 		panic("should not happen")
 	}
-	// If len(bz) == 0 the code below will err
-	if len(bz) == 0 {
-		rv.Set(info.ZeroValue)
-		return 0, nil
-	}
+	// NOTE: If len(bz) == 0 the code below will err.
 
 	// Read byte-length prefixed byteslice.
 	var (
-- 
2.43.0


From fd4b25b7d1fefcc5722d80e56ac5e907f76f24d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:37 +0000
Subject: [PATCH 27/33] fix: bytes left over in a length-prefixed list are an
 error

A field number above the expected one ended the list, and what was left of
its bytes was then read again as if it followed the list.
---
 binary-decode.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/binary-decode.go b/binary-decode.go
index 095f5a9..d237138 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -591,6 +591,11 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 				return
 			}
 		}
+		// A list with a length prefix is all there is in its bytes.
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading array contents")
+			return
+		}
 		// Ensure that there are no more elements left,
 		// and no field number regression either.
 		// This is to provide better error messages.
@@ -772,6 +777,11 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			}
 			srv = reflect.Append(srv, erv)
 		}
+		// A list with a length prefix is all there is in its bytes.
+		if !bare && len(bz) > 0 {
+			err = errors.New("bytes left over after reading slice contents")
+			return
+		}
 	}
 	rv.Set(srv)
 	return n, err
-- 
2.43.0


From 46976bf54521bf5c0e2bdab1a583c6728298b2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 28/33] fix: don't wrap errors at every level of nested lists

The text of the error was copied once per level, so that decoding a deeply
nested malformed message took memory quadratic in its size.
---
 binary-decode.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/binary-decode.go b/binary-decode.go
index d237138..9e19187 100644
--- a/binary-decode.go
+++ b/binary-decode.go
@@ -525,7 +525,7 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			var _n int
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
+				// NOTE: Don't wrap err, lists may be nested very deeply.
 				return
 			}
 			// Special case when reading default value, prefer nil.
@@ -587,7 +587,6 @@ func (cdc *Codec) decodeReflectBinaryArray(bz []byte, info *TypeInfo, rv reflect
 			efopts.BinFieldNum = 1
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
 				return
 			}
 		}
@@ -706,7 +705,6 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			erv, _n := reflect.New(ert).Elem(), int(0)
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
 				return
 			}
 			// Special case when reading default value, prefer nil.
@@ -772,7 +770,6 @@ func (cdc *Codec) decodeReflectBinarySlice(bz []byte, info *TypeInfo, rv reflect
 			efopts.BinFieldNum = 1
 			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, efopts, false)
 			if slide(&bz, &n, _n) && err != nil {
-				err = fmt.Errorf("error reading array contents: %v", err)
 				return
 			}
 			srv = reflect.Append(srv, erv)
-- 
2.43.0


From 9acd2ca2b273cd6e5245470ba34b99b9da967c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:38 +0000
Subject: [PATCH 29/33] fix: refuse non-nil channels in struct fields instead
 of dropping them

A channel with nothing in its buffer counted as a default value, so a field
with one was left out of the binary encoding without an error.
---
 reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reflect.go b/reflect.go
index 0af2326..81173c9 100644
--- a/reflect.go
+++ b/reflect.go
@@ -116,9 +116,9 @@ func isDefaultValue(rv reflect.Value) (erv reflect.Value, isDefaultValue bool) {
 		return rv, rv.Uint() == 0
 	case reflect.String:
 		return rv, rv.Len() == 0
-	case reflect.Chan, reflect.Map, reflect.Slice:
+	case reflect.Map, reflect.Slice:
 		return rv, rv.IsNil() || rv.Len() == 0
-	case reflect.Func, reflect.Interface:
+	case reflect.Chan, reflect.Func, reflect.Interface:
 		return rv, rv.IsNil()
 	default:
 		return rv, false
-- 
2.43.0


From 96e64431a3e7884cb900b821aab27298a001f7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 30/33] fix: JSON decoding of byte slices wrote into the memory
 of the slice that was there

UnmarshalJSON into a variable that holds a byte slice reused its memory
(encoding/json does, for arrays of numbers and base64 strings alike), so
other slices of the same array were overwritten.  All other kinds are
decoded into new memory, as binary decoding does.
---
 json-decode.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json-decode.go b/json-decode.go
index e1a6281..77a68a0 100644
--- a/json-decode.go
+++ b/json-decode.go
@@ -309,18 +309,18 @@ func (cdc *Codec) decodeReflectJSONSlice(bz []byte, info *TypeInfo, rv reflect.V
 	switch ert.Kind() {
 
 	case reflect.Uint8: // Special case: byte slice
-		err = json.Unmarshal(bz, rv.Addr().Interface())
+		// NOTE: Don't decode into rv, json.Unmarshal() may reuse its memory.
+		var srv = reflect.New(rv.Type())
+		err = json.Unmarshal(bz, srv.Interface())
 		if err != nil {
 			return
 		}
+		rv.Set(srv.Elem())
 		if rv.Len() == 0 {
 			// Special case when length is 0.
 			// NOTE: We prefer nil slices.
 			rv.Set(info.ZeroValue)
 		}
-		// else {
-		// NOTE: Already set via json.Unmarshal() above.
-		// }
 		return
 
 	default: // General case.
-- 
2.43.0


From 4c7e6ba687801acee321ecead9f142038475e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:26 +0000
Subject: [PATCH 31/33] fix: PrintTypes held the codec's lock while writing, so
 a writer using the codec could deadlock

---
 codec.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/codec.go b/codec.go
index 50cc3f1..7087f39 100644
--- a/codec.go
+++ b/codec.go
@@ -260,8 +260,12 @@ func (cdc *Codec) Seal() *Codec {
 //
 // Where Type is the golang type name and Name is the name the type was registered with.
 func (cdc *Codec) PrintTypes(out io.Writer) error {
+	// Don't hold the lock while writing: the writer may use (or wait for
+	// something that uses) this codec.
 	cdc.mtx.RLock()
-	defer cdc.mtx.RUnlock()
+	var infos = make([]*TypeInfo, len(cdc.concreteInfos))
+	copy(infos, cdc.concreteInfos)
+	cdc.mtx.RUnlock()
 	// print header
 	if _, err := io.WriteString(out, "| Type | Name | Prefix | Length | Notes |\n"); err != nil {
 		return err
@@ -270,7 +274,7 @@ func (cdc *Codec) PrintTypes(out io.Writer) error {
 		return err
 	}
 	// only print concrete types for now (if we want everything, we can iterate over the typeInfos map instead)
-	for _, i := range cdc.concreteInfos {
+	for _, i := range infos {
 		if _, err := io.WriteString(out, "| "); err != nil {
 			return err
 		}
-- 
2.43.0


From a884d64c51c18db0e3e78d5ca09ed1070b9ca1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:38 +0000
Subject: [PATCH 32/33] fix: read an interface's implementers under the codec's
 lock

Encoding an interface value read the map of implementers without the lock,
while RegisterConcrete in another goroutine wrote it: a data race, and a
fatal error (concurrent map read and map write) when they met.
---
 binary-encode.go | 2 +-
 codec.go         | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/binary-encode.go b/binary-encode.go
index 2ea7633..ef32eb8 100644
--- a/binary-encode.go
+++ b/binary-encode.go
@@ -251,7 +251,7 @@ func (cdc *Codec) encodeReflectBinaryInterface(w io.Writer, iinfo *TypeInfo, rv
 	needDisamb := false
 	if iinfo.AlwaysDisambiguate {
 		needDisamb = true
-	} else if len(iinfo.Implementers[cinfo.Prefix]) > 1 {
+	} else if cdc.hasPrefixConflictRlock(iinfo, cinfo.Prefix) {
 		needDisamb = true
 	}
 	if needDisamb {
diff --git a/codec.go b/codec.go
index 7087f39..9eeb4ec 100644
--- a/codec.go
+++ b/codec.go
@@ -426,6 +426,14 @@ func (cdc *Codec) getTypeInfoFromPrefixRlock(iinfo *TypeInfo, pb PrefixBytes) (i
 	return
 }
 
+// Returns true iff several implementers of iinfo have the prefix bytes pb.
+func (cdc *Codec) hasPrefixConflictRlock(iinfo *TypeInfo, pb PrefixBytes) bool {
+	cdc.mtx.RLock()
+	defer cdc.mtx.RUnlock()
+
+	return len(iinfo.Implementers[pb]) > 1
+}
+
 func (cdc *Codec) getTypeInfoFromDisfixRlock(df DisfixBytes) (info *TypeInfo, err error) {
 	// We do not use defer cdc.mtx.Unlock() here due to performance overhead of
 	// defer in go1.11 (and prior versions). Ensure new code paths unlock the
-- 
2.43.0


From ad6cd1b6d63dd241c2660ed574308dcf0a281f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:39 +0000
Subject: [PATCH 33/33] fix: check that the codec isn't sealed under the lock
 that registers

A registration that had passed the check while another goroutine sealed the
codec added its type after Seal() had returned.
---
 codec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codec.go b/codec.go
index 9eeb4ec..6cafe05 100644
--- a/codec.go
+++ b/codec.go
@@ -168,6 +168,8 @@ func (cdc *Codec) RegisterInterface(ptr interface{}, iopts *InterfaceOptions) {
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		// The codec may have been sealed in the meantime.
+		cdc.assertNotSealedNolock()
 		cdc.collectImplementersNolock(info)
 		err := cdc.checkConflictsInPrioNolock(info)
 		if err != nil {
@@ -237,6 +239,8 @@ func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOp
 		cdc.mtx.Lock()
 		defer cdc.mtx.Unlock()
 
+		// The codec may have been sealed in the meantime.
+		cdc.assertNotSealedNolock()
 		// NOTE: All checks come before the first mutation, so that a rejected
 		// registration leaves the codec as it was.
 		cdc.assertNoTypeInfoNolock(info)
@@ -337,6 +341,10 @@ func (cdc *Codec) assertNotSealed() {
 	cdc.mtx.Lock()
 	defer cdc.mtx.Unlock()
 
+	cdc.assertNotSealedNolock()
+}
+
+func (cdc *Codec) assertNotSealedNolock() {
 	if cdc.sealed {
 		panic("codec sealed")
 	}
-- 
2.43.0

