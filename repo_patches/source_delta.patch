From b717ad0818b77b809407dcd999620242d4a29db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 01/40] fix: encode integers of named types correctly

A named unsigned type made the encoder fail (reflect's Int method panics on
it) and a negative value of a named int8..int64 was written as a VARINT.
---
 Go/sereal/encode.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 57b4a39..7b67174 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -498,9 +498,11 @@ func (e *Encoder) encodeViaReflection(b []byte, rv reflect.Value, isKeyOrClass b
 			b = append(b, typeFALSE)
 		}
 
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		b = e.encodeInt(b, rk, rv.Int())
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		b = e.encodeInt(b, reflect.Int, rv.Int())
+
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		b = e.encodeInt(b, reflect.Uint, int64(rv.Uint()))
 
 	case reflect.Float32:
 		b = e.encodeFloat(b, float32(rv.Float()))
-- 
2.43.0


From 4ba31ab8e077c5f89e97651adc1c12166b2c27ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 02/40] fix: identify shared pointers by type and length, not
 by address alone

A pointer to a struct and one to its first field, or pointers to slices and
strings that share an array, have the same address but denote different items:
the second was encoded as a reference to the first. A *interface{} holding a
string could not be encoded at all. REFP now refers to the referenced item, as
the specification requires, not to the REFN in front of it.
---
 Go/sereal/encode.go | 53 ++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 7b67174..7e187fd 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -28,7 +28,15 @@ type Encoder struct {
 
 type marshalState struct {
 	strTable map[string]int
-	ptrTable map[uintptr]int
+	ptrTable map[ptrKey]int
+}
+
+// ptrKey identifies the item a pointer refers to. The address alone does not:
+// a struct and its first field share it, as do slices of one array.
+type ptrKey struct {
+	ptr uintptr
+	typ reflect.Type
+	len int
 }
 
 type compressor interface {
@@ -110,7 +118,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	if header != nil && e.version >= 2 {
 		state := marshalState{
 			strTable: make(map[string]int),
-			ptrTable: make(map[uintptr]int),
+			ptrTable: make(map[ptrKey]int),
 		}
 
 		// this is both the flag byte (== "there is user data") and also a hack to make 1-based offsets work
@@ -131,7 +139,7 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 	remainingDepth := remainingRecursion(e.MaxRecursionDepth)
 	state := marshalState{
 		strTable: make(map[string]int),
-		ptrTable: make(map[uintptr]int),
+		ptrTable: make(map[ptrKey]int),
 	}
 
 	encBody := make([]byte, 0, e.ExpectedSize)
@@ -634,16 +642,13 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		}
 	}
 
-	rvptr := rv.Pointer()
+	rvptr := ptrKey{ptr: rv.Pointer(), typ: rv.Type()}
 	rvptr2 := getPointer(rv.Elem())
 
 	offs, ok := state.ptrTable[rvptr]
 
-	if !ok && rvptr2 != 0 {
+	if !ok && rvptr2.ptr != 0 {
 		offs, ok = state.ptrTable[rvptr2]
-		if ok {
-			rvptr = rvptr2
-		}
 	}
 
 	if ok { // seen this before
@@ -655,8 +660,12 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 
 		by = append(by, typeREFN)
 
-		if rvptr != 0 {
-			state.ptrTable[rvptr] = lenbOrig
+		// The thing this this points to starts one after the current pointer
+		if rvptr.ptr != 0 {
+			state.ptrTable[rvptr] = lenbOrig + 1
+		}
+		if rvptr2.ptr != 0 {
+			state.ptrTable[rvptr2] = lenbOrig + 1
 		}
 
 		var err error
@@ -664,11 +673,6 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 		if err != nil {
 			return nil, err
 		}
-
-		if rvptr2 != 0 {
-			// The thing this this points to starts one after the current pointer
-			state.ptrTable[rvptr2] = lenbOrig + 1
-		}
 	}
 
 	return by, nil
@@ -684,20 +688,25 @@ func varint(by []byte, n uint) []uint8 {
 	return append(by, byte(n))
 }
 
-func getPointer(rv reflect.Value) uintptr {
-	var rvptr uintptr
+func getPointer(rv reflect.Value) ptrKey {
+	var rvptr ptrKey
 
 	switch rv.Kind() {
-	case reflect.Map, reflect.Slice:
-		rvptr = rv.Pointer()
+	case reflect.Map:
+		rvptr = ptrKey{ptr: rv.Pointer(), typ: rv.Type()}
+	case reflect.Slice:
+		rvptr = ptrKey{ptr: rv.Pointer(), typ: rv.Type(), len: rv.Len()}
 	case reflect.Interface:
 		// FIXME: still needed?
 		return getPointer(rv.Elem())
 	case reflect.Ptr:
-		rvptr = rv.Pointer()
+		// len: not to be confused with what the pointer refers to
+		rvptr = ptrKey{ptr: rv.Pointer(), typ: rv.Type(), len: -1}
 	case reflect.String:
-		ps := (*reflect.StringHeader)(unsafe.Pointer(rv.UnsafeAddr()))
-		rvptr = ps.Data
+		if s := rv.String(); s != "" {
+			ps := (*reflect.StringHeader)(unsafe.Pointer(&s))
+			rvptr = ptrKey{ptr: ps.Data, typ: rv.Type(), len: len(s)}
+		}
 	}
 
 	return rvptr
-- 
2.43.0


From 69e3e22cd97eddc9bf97fa6fd9d189b126b9ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 03/40] fix: encode map keys that are not strings as strings

Integer keys were written as VARINTs, which no decoder accepts as hash keys, or,
with PerlCompat, all as the same text "<int Value>".
---
 Go/sereal/encode.go | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 7e187fd..f62ce25 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -566,30 +566,41 @@ func (e *Encoder) encodeMap(by []byte, m reflect.Value, isRefNext bool, state *m
 	by = append(by, typeHASH)
 	by = varint(by, uint(len(keys)))
 
-	if e.PerlCompat {
-		var err error
-		for _, k := range keys {
-			by = e.encodeString(by, k.String(), true, state.strTable)
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+	for _, k := range keys {
+		key, err := hashKey(k)
+		if err != nil {
+			return by, err
 		}
-	} else {
-		var err error
-		for _, k := range keys {
-			if by, err = e.encode(by, k, true, false, state, remainingDepth); err != nil {
-				return by, err
-			}
 
-			if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
-				return by, err
-			}
+		by = e.encodeString(by, key, true, state.strTable)
+		if by, err = e.encode(by, m.MapIndex(k), false, false, state, remainingDepth); err != nil {
+			return by, err
 		}
 	}
 
 	return by, nil
 }
 
+// hashKey returns the string that stands for a map key: keys of Sereal hashes are always strings
+func hashKey(k reflect.Value) (string, error) {
+	for k.Kind() == reflect.Interface {
+		k = k.Elem()
+	}
+
+	switch k.Kind() {
+	case reflect.String:
+		return k.String(), nil
+
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return strconv.FormatInt(k.Int(), 10), nil
+
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		return strconv.FormatUint(k.Uint(), 10), nil
+	}
+
+	return "", fmt.Errorf("no support for map keys of kind '%s'", k.Kind())
+}
+
 func (e *Encoder) encodeStruct(by []byte, st reflect.Value, state *marshalState, remainingDepth int) ([]byte, error) {
 	remainingDepth--
 	if remainingDepth <= 0 {
-- 
2.43.0


From 6894ebeec669e69d9f7589a19a8a7965132063e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 04/40] fix: encode PerlFreeze as the frozen object it stands
 for

It was encoded as an object of class PerlFreeze with keys Class and Data, so
decoding and encoding a document lost every frozen object in it.
---
 Go/sereal/encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index f62ce25..6b41e05 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -290,6 +290,12 @@ func (e *Encoder) encode(b []byte, v interface{}, isKeyOrClass bool, isRefNext b
 		b = append(b, typeWEAKEN)
 		b, err = e.encode(b, value.Reference, false, false, state, remainingDepth)
 
+	case PerlFreeze:
+		b = append(b, typeOBJECT_FREEZE)
+		b = e.encodeBytes(b, []byte(value.Class), true, state.strTable)
+		b = append(b, typeREFN, typeARRAY, 1)
+		b = e.encodeBytes(b, value.Data, false, state.strTable)
+
 	//case *interface{}:
 	//TODO handle here if easy
 
@@ -650,6 +656,8 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
 		case PerlWeakRef:
 			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
+		case PerlFreeze:
+			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
 		}
 	}
 
-- 
2.43.0


From 2b87269773b607d0e4956c12b4f7cada8565df59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:40 +0000
Subject: [PATCH 05/40] fix: make the struct tag cache safe for concurrent use

Marshal shares the default encoder between all its callers, so concurrent calls
wrote to the same map without synchronisation.
---
 Go/sereal/tagscache.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/Go/sereal/tagscache.go b/Go/sereal/tagscache.go
index 907b39f..27701cf 100644
--- a/Go/sereal/tagscache.go
+++ b/Go/sereal/tagscache.go
@@ -1,9 +1,13 @@
 package sereal
 
-import "reflect"
+import (
+	"reflect"
+	"sync"
+)
 
+// tagsCache may be shared between goroutines: the default encoder is
 type tagsCache struct {
-	cmap map[reflect.Type]map[string]int
+	cmap sync.Map // reflect.Type => map[string]int
 }
 
 func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
@@ -11,13 +15,9 @@ func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
 		return nil
 	}
 
-	if tc.cmap == nil {
-		tc.cmap = make(map[reflect.Type]map[string]int)
-	}
-
 	ptrType := ptr.Type()
-	if m, ok := tc.cmap[ptrType]; ok {
-		return m
+	if m, ok := tc.cmap.Load(ptrType); ok {
+		return m.(map[string]int)
 	}
 
 	m := make(map[string]int)
@@ -46,6 +46,6 @@ func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
 		m = nil
 	}
 
-	tc.cmap[ptrType] = m
+	tc.cmap.Store(ptrType, m)
 	return m
 }
-- 
2.43.0


From 58b79218d85e99bfe4590f30ebd46c8027db55f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 06/40] fix: do not read the header flags of an empty header
 suffix

A header length varint with redundant bytes (80 00) made UnmarshalHeader read
the flags from the body, or past the end of the buffer. A negative length was
not rejected.
---
 Go/sereal/decode.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index fb9c6e6..d8e77e8 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -56,6 +56,10 @@ func readHeader(b []byte) (serealHeader, error) {
 		return serealHeader{}, err
 	}
 
+	if ln < 0 {
+		return serealHeader{}, ErrCorrupt{errBadOffset}
+	}
+
 	h.suffixSize = ln + sz
 	h.suffixStart = headerSize + sz
 
@@ -201,7 +205,7 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		return ErrCorrupt{errBadOffset}
 	}
 
-	if vheader != nil && header.suffixSize != 1 {
+	if vheader != nil && header.suffixStart < bodyStart {
 		d.tracked = make(map[int]reflect.Value)
 		defer func() { d.tracked = nil }()
 
-- 
2.43.0


From 8113b304631b71ce9d4373f18433b64f98a5569e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 07/40] fix: DecompressDocument: do not panic on an empty body

hasSameBuffer looked at the last element of a slice of capacity 0.
---
 Go/sereal/decode.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index d8e77e8..69af260 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1375,6 +1375,10 @@ func DecompressDocument(dst, b []byte) (r []byte, err error) {
 // hasSameBuffer returns true if the two slices share the same array (it only works for slices with capacity > 0)
 func hasSameBuffer(a, b []byte) bool {
 	aCap, bCap := cap(a), cap(b)
+	if aCap == 0 || bCap == 0 {
+		return false
+	}
+
 	aExt, bExt := a[:aCap], b[:bCap]
 
 	return &aExt[aCap-1] == &bExt[bCap-1]
-- 
2.43.0


From 7a3a1e01c8e55982d8f9844daa2b63936f879d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 08/40] fix: do not trust the uncompressed length a document
 claims

A document of a few bytes made the decoder allocate up to 4 GB (snappy) or any
amount (zlib), or panic on a negative size (zlib).
---
 Go/sereal/snappy.go | 7 +++++++
 Go/sereal/zlib.go   | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/Go/sereal/snappy.go b/Go/sereal/snappy.go
index 8562ad1..6abedba 100644
--- a/Go/sereal/snappy.go
+++ b/Go/sereal/snappy.go
@@ -48,6 +48,13 @@ func (c SnappyCompressor) decompress(d, b []byte) ([]byte, error) {
 		b = b[sz : sz+ln]
 	}
 
+	// Don't allocate whatever the document claims: 3 bytes decode into 64 at most
+	if ln, err := snappy.DecodedLen(b); err != nil {
+		return nil, err
+	} else if ln/22 > len(b) {
+		return nil, ErrCorrupt{errBadOffset}
+	}
+
 	decompressed, err := snappy.Decode(d, b)
 	if err != nil {
 		return nil, err
diff --git a/Go/sereal/zlib.go b/Go/sereal/zlib.go
index 989dc27..f01029e 100644
--- a/Go/sereal/zlib.go
+++ b/Go/sereal/zlib.go
@@ -65,5 +65,14 @@ func (c ZlibCompressor) decompress(d, buf []byte) ([]byte, error) {
 
 	// XXX Perhaps check if len(buf) == cln
 
+	if uln < 0 || uln > math.MaxInt32 {
+		return nil, ErrCorrupt{errBadOffset}
+	}
+
+	// Don't allocate whatever the document claims, the buffer grows when needed
+	if max := 16*len(buf) + 512; uln > max {
+		uln = max
+	}
+
 	return zlibDecode(uln, buf)
 }
-- 
2.43.0


From ea5e661e11683858e4844e73e129d1d6fe43266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 09/40] fix: a failed decode must not make later ones fail

When decoding a COPY into a destination of another kind, copyDepth was not
restored, and the decoder rejected every later document with a COPY tag.
---
 Go/sereal/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 69af260..c05380d 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -189,6 +189,9 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 		}
 	}()
 
+	// may be left over from a call that ended in a panic
+	d.copyDepth = 0
+
 	header, err := checkHeader(b)
 	if err != nil {
 		return err
-- 
2.43.0


From 96ed71f94e10a73720928dbf685ea946abe8018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:56 +0000
Subject: [PATCH 10/40] fix: do not retain the input buffer in decoded regexps

---
 Go/sereal/decode.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index c05380d..5dff88a 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -687,7 +687,9 @@ func (d *Decoder) decodeRegexp(by []byte, idx int) (*PerlRegexp, int, error) {
 		return nil, 0, err
 	}
 
-	// TODO perhaps, copy values
+	// decodeStringish returns slices of the document, don't retain them
+	pattern = append([]byte{}, pattern...)
+	modifiers = append([]byte{}, modifiers...)
 	return &PerlRegexp{pattern, modifiers}, idx, nil
 }
 
-- 
2.43.0


From a6205bb20af35f67831410511df183b8688f6590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:57 +0000
Subject: [PATCH 11/40] fix: reject OBJECTV tags that refer to a later class
 name

---
 Go/sereal/decode.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 5dff88a..5914bfb 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1093,6 +1093,9 @@ func (d *Decoder) decodeObjectViaReflection(by []byte, idx int, ptr reflect.Valu
 		if err != nil {
 			return 0, err
 		}
+		if offs < 0 || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 	}
@@ -1128,6 +1131,9 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		if err != nil {
 			return 0, err
 		}
+		if offs < 0 || offs >= idx {
+			return 0, ErrCorrupt{errBadOffset}
+		}
 		idx += sz
 		className, _, err = d.decodeStringish(by, offs)
 		if err != nil {
-- 
2.43.0


From 6e2865417b081f1b639bd801d5c250395ebbe76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:26 +0000
Subject: [PATCH 12/40] fix: report integers that do not fit into their
 destination

300 decoded into a uint8 gave 44, -1 into a uint64 2**64-1, and 2**64-1 into an
int64 -1, all without an error.
---
 Go/sereal/decode.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 5914bfb..ca498a6 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -735,7 +735,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 	var err error
 	switch {
 	case tag < typeVARINT:
-		setInt(ptr, d.decodeInt(tag))
+		setInt(ptr, d.decodeInt(tag), false)
 
 	case tag == typeVARINT:
 		var val int
@@ -743,7 +743,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		if err != nil {
 			return 0, err
 		}
-		setInt(ptr, val)
+		setInt(ptr, val, true)
 
 	case tag == typeZIGZAG:
 		var val int
@@ -751,7 +751,7 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		if err != nil {
 			return 0, err
 		}
-		setInt(ptr, val)
+		setInt(ptr, val, false)
 
 	case tag == typeFLOAT:
 		var val float32
@@ -1218,17 +1218,26 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 	return idx, err
 }
 
-func setInt(ptr reflect.Value, i int) {
+// setInt stores i, which is to be taken as a uint if isUnsigned is true
+func setInt(ptr reflect.Value, i int, isUnsigned bool) {
+	var overflow bool
+
 	switch ptr.Kind() {
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		overflow = (isUnsigned && i < 0) || ptr.OverflowInt(int64(i))
 		ptr.SetInt(int64(i))
 
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		overflow = (!isUnsigned && i < 0) || ptr.OverflowUint(uint64(i))
 		ptr.SetUint(uint64(i))
 
 	default:
 		panic(&reflect.ValueError{Method: "sereal.setInt", Kind: ptr.Kind()})
 	}
+
+	if overflow {
+		panic(fmt.Sprintf("integer overflows type %v", ptr.Type()))
+	}
 }
 
 func setBinary(ptr reflect.Value, val []byte) {
-- 
2.43.0


From 6abe3e7a152d13b4f67ee786e9335cc666ffa8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 13/40] fix: decode references to undef

A REFP to an undef item (in Perl: [\$x, \$x]) was rejected with an error of
the reflect package.
---
 Go/sereal/decode.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index ca498a6..3b34fd9 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1060,7 +1060,12 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 
 		if isREFP {
 			rvData := rv.Elem().Elem()
-			if d.DisableReferentialIntegrity {
+			if !rvData.IsValid() && !d.DisableReferentialIntegrity {
+				// undef, or an item that is still being decoded
+				res = rv
+			} else if !rvData.IsValid() {
+				res = rv.Elem()
+			} else if d.DisableReferentialIntegrity {
 				res = rvData
 			} else {
 				res = reflect.New(rvData.Type())
-- 
2.43.0


From fbe33f77f71eb0c51294becf8da6e1525f640093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 14/40] fix: Merger: check the header of appended documents

A header length beyond the end of the buffer made Append panic, and documents of
unsupported versions or compression types were merged as if they were raw.
---
 Go/sereal/merge.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index eca2046..18a1f0f 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -157,19 +157,27 @@ func (m *Merger) Append(b []byte) (int, error) {
 		return 0, errors.New("finished document")
 	}
 
-	docHeader, err := readHeader(b)
+	docHeader, err := checkHeader(b)
 	if err != nil {
 		return 0, err
 	}
 
+	bodyStart := headerSize + docHeader.suffixSize
+	if bodyStart > len(b) || bodyStart < 0 {
+		return 0, ErrCorrupt{errBadOffset}
+	}
+
 	doc := mergerDoc{
-		buf:        b[headerSize+docHeader.suffixSize:],
+		buf:        b[bodyStart:],
 		version:    int(docHeader.version),
 		startIdx:   0,
 		bodyOffset: -1, // 1-based offsets
 	}
 
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
+	if err != nil {
+		return 0, err
+	}
 
 	if decomp != nil {
 		if doc.buf, err = decomp.decompress(nil, doc.buf); err != nil {
-- 
2.43.0


From cc8bd1e09b6ffdf04dce1a6b6cd5edf03c8d04c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 15/40] fix: Merger: use the right base for the offsets of
 appended documents

Offsets of v1 documents count from the start of the document. The track flag of
the target of a REFP or ALIAS was set on a byte of some other item. References
after a tracked tag that is not an item of its own were rejected.
---
 Go/sereal/merge.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 18a1f0f..4c150d9 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -174,6 +174,10 @@ func (m *Merger) Append(b []byte) (int, error) {
 		bodyOffset: -1, // 1-based offsets
 	}
 
+	if doc.version == 1 {
+		doc.bodyOffset = -bodyStart // offsets from the start of the document
+	}
+
 	decomp, err := documentDecompressor(docHeader.version, docHeader.doctype)
 	if err != nil {
 		return 0, err
@@ -326,7 +330,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 			if err != nil {
 				return err
 			}
-			if offset < 0 || offset >= idx {
+			if offset < 0 || offset >= idx-doc.bodyOffset {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
@@ -389,6 +393,11 @@ LOOP:
 
 		docRelativeIdx := didx - doc.bodyOffset
 		mrgRelativeIdx := len(mbuf) - m.bodyOffset
+
+		// drop the offsets that don't belong to any item
+		for len(doc.trackIdxs) > 0 && doc.trackIdxs[0] < docRelativeIdx {
+			doc.trackIdxs = doc.trackIdxs[1:]
+		}
 		trackme := len(doc.trackIdxs) > 0 && doc.trackIdxs[0] == docRelativeIdx
 
 		level := len(stack) - 1
@@ -501,7 +510,7 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeALIAS || tag == typeREFP {
-				mbuf[targetOffset] |= trackFlag
+				mbuf[targetOffset+m.bodyOffset] |= trackFlag
 			} else if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				stack = append(stack, 1)
 			}
-- 
2.43.0


From e335387d45e1df38b6790d822ec1ce39d7572c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:36 +0000
Subject: [PATCH 16/40] fix: Merger: reject truncated documents

Documents cut inside a number, a short string or a regexp, empty ones (with
KeepFlat) and arrays with impossible lengths made Append panic; documents that
lacked items were accepted, so that Finish returned a corrupt document.
---
 Go/sereal/merge.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 4c150d9..3302798 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -372,7 +372,7 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	if err != nil {
 		return err
 	}
-	if expElements < 0 || expElements > math.MaxUint32 {
+	if expElements < 0 || expElements > len(dbuf) {
 		return fmt.Errorf("bad amount of expected elements: %d", expElements)
 	}
 
@@ -441,18 +441,30 @@ LOOP:
 			didx += sz + 1
 
 		case tag == typeFLOAT:
+			if didx+5 > len(dbuf) {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+5]...)
 			didx += 5 // 4 bytes + tag
 
 		case tag == typeDOUBLE:
+			if didx+9 > len(dbuf) {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+9]...)
 			didx += 9 // 8 bytes + tag
 
 		case tag == typeLONG_DOUBLE:
+			if didx+17 > len(dbuf) {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+17]...)
 			didx += 17 // 16 bytes + tag
 
 		case tag == typeSHORT_BINARY_0+1:
+			if didx+2 > len(dbuf) {
+				return ErrTruncated
+			}
 			mbuf = append(mbuf, dbuf[didx:didx+2]...)
 			didx += 2
 
@@ -521,7 +533,7 @@ LOOP:
 				return err
 
 			}
-			if ln < 0 {
+			if ln < 0 || ln > len(dbuf)-didx {
 				return errors.New("bad array or hash length")
 			}
 
@@ -605,13 +617,19 @@ LOOP:
 		}
 	}
 
+	for _, missing := range stack {
+		if missing&^hashKeysValuesFlag != 0 {
+			return ErrTruncated
+		}
+	}
+
 	m.length += expElements
 	m.buf = mbuf
 	return nil
 }
 
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
-	if m.KeepFlat {
+	if m.KeepFlat && len(b) > 1 {
 		tag0 := b[0] &^ trackFlag
 		tag1 := b[1] &^ trackFlag
 
@@ -640,6 +658,10 @@ func isShallowStringish(tag byte) bool {
 }
 
 func readString(buf []byte) (int, []byte, error) {
+	if len(buf) == 0 {
+		return 0, nil, ErrTruncated
+	}
+
 	tag := buf[0]
 	tag &^= trackFlag
 
-- 
2.43.0


From f7c6103f5a58c17303f758b91aa081fdee25fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 17/40] fix: Merger: forget the strings of a document that was
 not appended

After a failed Append, strings of later documents were replaced by references
to where the removed document had been.
---
 Go/sereal/merge.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 3302798..23c0792 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -207,12 +207,24 @@ func (m *Merger) Append(b []byte) (int, error) {
 	// second pass: do the work
 	if err := m.mergeItems(&doc); err != nil {
 		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
+		m.forgetStrings(lastElementOffset - m.bodyOffset)
 		return 0, err
 	}
 
 	return m.length - oldLength, nil
 }
 
+// forgetStrings removes the strings at or after offset from the tables
+func (m *Merger) forgetStrings(offset int) {
+	for _, table := range []map[string]int{m.strTable, m.objTable} {
+		for str, savedOffset := range table {
+			if savedOffset >= offset {
+				delete(table, str)
+			}
+		}
+	}
+}
+
 // Finish is called to terminate the merging process
 func (m *Merger) Finish() ([]byte, error) {
 	if err := m.initMerger(); err != nil {
-- 
2.43.0


From b520ad2c10d0d6ea1e070ea79682b00308ec0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 18/40] fix: Merger: merge documents with several objects of
 one class

OBJECTV tags and class names given by a COPY tag were rejected. References to an
object pointed to its class name after merging.
---
 Go/sereal/merge.go | 53 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 23c0792..71470c2 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -587,30 +587,51 @@ LOOP:
 
 		case tag == typeOBJECT, tag == typeOBJECT_FREEZE:
 			// skip main tag for a second, and parse <STR-TAG>
-			offset, str, err := readString(dbuf[didx+1:])
-			if err != nil {
-				return err
-			}
+			strOffset := mrgRelativeIdx + 1 // we should refer to string tag, not object tag
 
-			length := offset + len(str) + 1 // respect typeOBJECT tag
-			if savedOffset, ok := m.objTable[string(str)]; ok {
-				if tag == typeOBJECT {
-					mbuf = appendTagVarint(mbuf, typeOBJECTV, uint(savedOffset))
-				} else {
-					mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE, uint(savedOffset))
+			if didx+1 < len(dbuf) && dbuf[didx+1]&^trackFlag == typeCOPY {
+				copyOffset, sz, err := varintdecode(dbuf[didx+2:])
+				if err != nil {
+					return err
+				}
+				targetOffset, ok := doc.trackTable[copyOffset]
+				if !ok || targetOffset < 0 {
+					return errors.New("bad target offset of COPY tag in class name")
 				}
 
-				mrgRelativeIdx = savedOffset
+				mbuf = append(mbuf, dbuf[didx])
+				mbuf = appendTagVarint(mbuf, typeCOPY, uint(targetOffset))
+				didx += sz + 2
 			} else {
-				// +1 because we should refer to string tag, not object tag
-				mrgRelativeIdx++
-				m.objTable[string(str)] = mrgRelativeIdx
-				mbuf = append(mbuf, dbuf[didx:didx+length]...)
+				offset, str, err := readString(dbuf[didx+1:])
+				if err != nil {
+					return err
+				}
+
+				length := offset + len(str) + 1 // respect typeOBJECT tag
+				if savedOffset, ok := m.objTable[string(str)]; ok {
+					if tag == typeOBJECT {
+						mbuf = appendTagVarint(mbuf, typeOBJECTV|dbuf[didx]&trackFlag, uint(savedOffset))
+					} else {
+						mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE|dbuf[didx]&trackFlag, uint(savedOffset))
+					}
+
+					strOffset = savedOffset
+				} else {
+					m.objTable[string(str)] = strOffset
+					mbuf = append(mbuf, dbuf[didx:didx+length]...)
+				}
+
+				didx += length
+			}
+
+			// other tags may refer to the class name
+			if _, ok := doc.trackTable[docRelativeIdx+1]; ok {
+				doc.trackTable[docRelativeIdx+1] = strOffset
 			}
 
 			// parse <ITEM-TAG>
 			stack = append(stack, 1)
-			didx += length
 
 		case tag == typePACKET_START:
 			return errors.New("unexpected start of new document")
-- 
2.43.0


From 3bf81bf1fbfba0005c8a7adf954ae1f6330ceff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:06 +0000
Subject: [PATCH 19/40] fix: Merger: do not replace binary strings by UTF-8
 ones

Deduplication took strings of the same bytes for equal, whatever their type.
---
 Go/sereal/merge.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 71470c2..692cc19 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -24,6 +24,7 @@ const hashKeysValuesFlag = uint32(1 << 31)
 type Merger struct {
 	buf        []byte
 	strTable   map[string]int
+	utf8Table  map[string]int // as strTable, for STR_UTF8 tags
 	objTable   map[string]int
 	version    int
 	length     int
@@ -102,6 +103,7 @@ func (m *Merger) initMerger() error {
 
 	// initialize internal fields
 	m.strTable = make(map[string]int)
+	m.utf8Table = make(map[string]int)
 	m.objTable = make(map[string]int)
 
 	if m.ExpectedSize > 0 {
@@ -216,7 +218,7 @@ func (m *Merger) Append(b []byte) (int, error) {
 
 // forgetStrings removes the strings at or after offset from the tables
 func (m *Merger) forgetStrings(offset int) {
-	for _, table := range []map[string]int{m.strTable, m.objTable} {
+	for _, table := range []map[string]int{m.strTable, m.utf8Table, m.objTable} {
 		for str, savedOffset := range table {
 			if savedOffset >= offset {
 				delete(table, str)
@@ -503,12 +505,17 @@ LOOP:
 			}
 
 			if dedupString {
+				strTable := m.strTable
+				if tag == typeSTR_UTF8 {
+					strTable = m.utf8Table
+				}
+
 				val := dbuf[didx+sz+1 : didx+length]
-				if savedOffset, ok := m.strTable[string(val)]; ok {
+				if savedOffset, ok := strTable[string(val)]; ok {
 					mbuf = appendTagVarint(mbuf, typeCOPY, uint(savedOffset))
 					mrgRelativeIdx = savedOffset
 				} else {
-					m.strTable[string(val)] = mrgRelativeIdx
+					strTable[string(val)] = mrgRelativeIdx
 					mbuf = append(mbuf, dbuf[didx:didx+length]...)
 				}
 			} else {
-- 
2.43.0


From d4e782924c59df90f6c3477331c49d55e628455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:07 +0000
Subject: [PATCH 20/40] fix: Merger: do not deduplicate strings other tags
 depend on

A REFP or ALIAS to a string that had been deduplicated referred to a hash key,
or to an item of another document, and an item with a deduplicated string could
not be the target of a COPY tag any more.
---
 Go/sereal/merge.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 692cc19..e7382b3 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -62,12 +62,13 @@ type Merger struct {
 }
 
 type mergerDoc struct {
-	buf        []byte
-	trackIdxs  []int
-	trackTable map[int]int
-	version    int
-	startIdx   int // 0-based
-	bodyOffset int // 1-based
+	buf         []byte
+	trackIdxs   []int
+	trackTable  map[int]int
+	copiesItems bool // there are COPY tags that refer to something else than a string
+	version     int
+	startIdx    int // 0-based
+	bodyOffset  int // 1-based
 }
 
 // NewMerger returns a merger using the latest sereal version
@@ -348,6 +349,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 				return fmt.Errorf("tag %d refers to invalid offset: %d", tag, offset)
 			}
 
+			if target := offset + doc.bodyOffset; tag == typeCOPY && target >= 0 && !isShallowStringish(buf[target]&^trackFlag) {
+				doc.copiesItems = true
+			}
+
 			doc.trackTable[offset] = -1
 			idx += sz + 1
 
@@ -428,7 +433,10 @@ LOOP:
 		// The trick with stack[level] % 2 == 0 works because stack[level] for hashes is always even at
 		// the beggining (for each item in hash we expect key and value). In practise it means,
 		// that if stack[level] is even - a key is being processed, if stack[level] is odd - value is being processed
+		// A string that is the target of a REFP or ALIAS has to stay, as have all strings of a document with COPY tags
+		// that refer to containers: there may be no COPY tag in what such a tag refers to.
 		dedupString := m.DedupeStrings || ((stack[level]&hashKeysValuesFlag) == hashKeysValuesFlag && stack[level]%2 == 0)
+		dedupString = dedupString && dbuf[didx]&trackFlag == 0 && !doc.copiesItems
 
 		//fmt.Printf("0x%x (0x%x) at didx: %d (rlt: %d) len(dbuf): %d\n", tag, dbuf[didx], didx, didx-doc.bodyOffset, len(dbuf))
 		//fmt.Printf("level: %d, value: %d len: %d\n", level, stack[level], len(stack))
-- 
2.43.0


From 34ea1bd25f65da4ddaf14f0fc760df7de28fd35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 21/40] fix: Merger: return a valid document for every
 compressor

Finish cut a compressed body that was longer than the original one. With a
compressor that the version does not allow it returned an error the first time,
but a document with a compressed body and an uncompressed header after that.
---
 Go/sereal/merge.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index e7382b3..dbb7538 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -239,14 +239,7 @@ func (m *Merger) Finish() ([]byte, error) {
 		binary.PutUvarint(m.buf[m.lenOffset:], uint64(m.length))
 
 		if m.Compression != nil && (m.CompressionThreshold == 0 || len(m.buf) >= m.CompressionThreshold) {
-			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
-			if err != nil {
-				return m.buf, err
-			}
-
-			// TODO think about some optimizations here
-			copy(m.buf[m.bodyOffset+1:], compressed)
-			m.buf = m.buf[:len(compressed)+m.bodyOffset+1]
+			var doctype documentType
 
 			// verify compressor, there was little point in veryfing compressor in initMerger()
 			// because use can change it meanwhile
@@ -256,18 +249,27 @@ func (m *Merger) Finish() ([]byte, error) {
 					return nil, errors.New("non-incremental snappy compression is not supported")
 				}
 
-				m.buf[4] |= byte(serealSnappyIncremental) << 4
+				doctype = serealSnappyIncremental
 
 			case ZlibCompressor:
 				if m.version < 3 {
 					return nil, errors.New("zlib compression only valid for v3 documents and up")
 				}
 
-				m.buf[4] |= byte(serealZlib) << 4
+				doctype = serealZlib
 
 			default:
 				return nil, errors.New("unknown compressor")
 			}
+
+			compressed, err := m.Compression.compress(m.buf[m.bodyOffset+1:])
+			if err != nil {
+				return m.buf, err
+			}
+
+			// TODO think about some optimizations here
+			m.buf = append(m.buf[:m.bodyOffset+1], compressed...)
+			m.buf[4] |= byte(doctype) << 4
 		}
 	}
 
-- 
2.43.0


From 193871234bf4cef6ca20b606b4b1f42cfa90e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 22/40] fix: decode COPY tags that refer to a hash with COPY
 tags as keys

The specification explicitly allows COPY tags for hash keys and class names in
what a COPY tag refers to; they were rejected as nested.
---
 Go/sereal/decode.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 3b34fd9..1e3aea7 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -84,6 +84,9 @@ type Decoder struct {
 	tcache    tagsCache
 	copyDepth int
 
+	// the same for strings in places where only strings are allowed
+	stringCopyDepth int
+
 	// PerlCompat produced a decoded data structure that preserves as much as possible the original Perl structure
 	PerlCompat bool
 	// DisableReferentialIntegrity produces a decoded data structure where Perl references are never decoded as Go pointers
@@ -647,7 +650,8 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		idx += ln
 
 	case tag == typeCOPY:
-		if d.copyDepth > 0 {
+		// a COPY tag may refer to an item with a COPY tag as hash key or class name
+		if d.stringCopyDepth > 0 {
 			return nil, 0, ErrCorrupt{errNestedCOPY}
 		}
 
@@ -660,9 +664,9 @@ func (d *Decoder) decodeStringish(by []byte, idx int) ([]byte, int, error) {
 		}
 		idx += sz
 
-		d.copyDepth++
+		d.stringCopyDepth++
 		res, _, err = d.decodeStringish(by, offs)
-		d.copyDepth--
+		d.stringCopyDepth--
 		if err != nil {
 			return nil, 0, err
 		}
-- 
2.43.0


From a3a6a7c8e26b5116e44837e470d5318c717eb876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:09 +0000
Subject: [PATCH 23/40] fix: decode ZIGZAG tags with non-negative values

The lowest bit, which is the sign, was ignored: 1 (ZIGZAG 2) gave -2.
---
 Go/sereal/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 1e3aea7..bc09b1e 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -489,7 +489,7 @@ func (d *Decoder) decodeVarint(by []byte, idx int) (int, int, error) {
 
 func (d *Decoder) decodeZigzag(by []byte, idx int) (int, int, error) {
 	i, sz, err := varintdecode(by[idx:])
-	return int(-(1 + (uint64(i) >> 1))), idx + sz, err
+	return int(uint64(i)>>1) ^ -(i & 1), idx + sz, err
 }
 
 func (d *Decoder) decodeFloat(by []byte, idx int) (float32, int, error) {
-- 
2.43.0


From 5f33d39aadd00c38148690451e05584a20e54cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 24/40] fix: decode frozen objects with PerlCompat

The REFN in front of the array became a pointer, so every OBJECT_FREEZE was
rejected as not containing an array.
---
 Go/sereal/decode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index bc09b1e..e7b895d 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1162,8 +1162,9 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 		return 0, ErrCorrupt{errFreezeNotRefnArray}
 	}
 
+	// the array itself: with PerlCompat the REFN would become a pointer to it
 	var iface interface{}
-	if idx, err = d.decode(by, idx, &iface); err != nil {
+	if idx, err = d.decode(by, idx+1, &iface); err != nil {
 		return 0, err
 	}
 
-- 
2.43.0


From ae317d42a234d647209fe57b2ea34da02268866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 25/40] fix: Merger: splice an empty ARRAYREF with KeepFlat

---
 Go/sereal/merge.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index dbb7538..720e559 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -679,9 +679,8 @@ LOOP:
 }
 
 func (m *Merger) expectedElements(b []byte) (int, int, error) {
-	if m.KeepFlat && len(b) > 1 {
+	if m.KeepFlat && len(b) > 0 {
 		tag0 := b[0] &^ trackFlag
-		tag1 := b[1] &^ trackFlag
 
 		switch m.TopLevelElement {
 		case TopLevelArray:
@@ -691,7 +690,7 @@ func (m *Merger) expectedElements(b []byte) (int, int, error) {
 			}
 
 		case TopLevelArrayRef:
-			if tag0 == typeREFN && tag1 == typeARRAY {
+			if tag0 == typeREFN && len(b) > 1 && b[1]&^trackFlag == typeARRAY {
 				ln, sz, err := varintdecode(b[2:])
 				return ln, sz + 2, err
 			} else if tag0 >= typeARRAYREF_0 && tag0 < typeARRAYREF_0+16 {
-- 
2.43.0


From 41c65804f2fbdfdf39461ceb2ae011661cbe8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 26/40] fix: keep signaling NaNs when float32 values go through
 reflection

---
 Go/sereal/decode.go | 7 ++++++-
 Go/sereal/encode.go | 3 ++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index e7b895d..bf45a9d 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -762,7 +762,12 @@ func (d *Decoder) decodeViaReflection(by []byte, idx int, ptr reflect.Value) (in
 		if val, idx, err = d.decodeFloat(by, idx); err != nil {
 			return 0, err
 		}
-		ptr.SetFloat(float64(val))
+		if ptrKind == reflect.Float32 {
+			// going through float64 would change signaling NaNs
+			ptr.Set(reflect.ValueOf(val).Convert(ptr.Type()))
+		} else {
+			ptr.SetFloat(float64(val))
+		}
 
 	case tag == typeDOUBLE:
 		var val float64
diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 6b41e05..f6e4338 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -519,7 +519,8 @@ func (e *Encoder) encodeViaReflection(b []byte, rv reflect.Value, isKeyOrClass b
 		b = e.encodeInt(b, reflect.Uint, int64(rv.Uint()))
 
 	case reflect.Float32:
-		b = e.encodeFloat(b, float32(rv.Float()))
+		// not via rv.Float(): going through float64 would change signaling NaNs
+		b = e.encodeFloat(b, rv.Convert(reflect.TypeOf(float32(0))).Interface().(float32))
 
 	case reflect.Float64:
 		b = e.encodeDouble(b, rv.Float())
-- 
2.43.0


From e58c8d004ff45fda469278dd3aecdc602f35a56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:04 +0000
Subject: [PATCH 27/40] fix: mark incrementally snappy-compressed version 1
 documents as such

---
 Go/sereal/encode.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index f6e4338..5a51eec 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -176,10 +176,10 @@ func (e *Encoder) MarshalWithHeader(header interface{}, body interface{}) (b []b
 			if e.version > 1 && !c.Incremental {
 				return nil, errors.New("non-incremental snappy compression only valid for v1 documents")
 			}
-			if e.version == 1 {
-				doctype = serealSnappy
-			} else {
+			if c.Incremental {
 				doctype = serealSnappyIncremental
+			} else {
+				doctype = serealSnappy
 			}
 		case ZlibCompressor:
 			if e.version < 3 {
-- 
2.43.0


From 64fb583840f18242b8bf54af99540bbefaca1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:39 +0000
Subject: [PATCH 28/40] fix: offsets in the user header are relative to the
 user header

---
 Go/sereal/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index bf45a9d..9720cc7 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -222,10 +222,12 @@ func (d *Decoder) UnmarshalHeaderBody(b []byte, vheader interface{}, vbody inter
 
 		header.suffixFlags = b[header.suffixStart]
 		if header.suffixFlags&1 == 1 {
+			// offsets in the header are relative to the header: the flag byte makes them 1-based
+			suffix := b[header.suffixStart:bodyStart]
 			if ptr, ok := vheader.(*interface{}); ok && *ptr == nil {
-				_, err = d.decode(b[:bodyStart], header.suffixStart+1, ptr)
+				_, err = d.decode(suffix, 1, ptr)
 			} else {
-				_, err = d.decodeViaReflection(b[:bodyStart], header.suffixStart+1, headerValue.Elem())
+				_, err = d.decodeViaReflection(suffix, 1, headerValue.Elem())
 			}
 		}
 	}
-- 
2.43.0


From 841157804539873df123cc3fb9318a99137d95f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 29/40] fix: skip unexported struct fields with a sereal tag

---
 Go/sereal/tagscache.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/tagscache.go b/Go/sereal/tagscache.go
index 27701cf..48babf5 100644
--- a/Go/sereal/tagscache.go
+++ b/Go/sereal/tagscache.go
@@ -30,12 +30,13 @@ func (tc *tagsCache) Get(ptr reflect.Value) map[string]int {
 			continue
 		}
 
+		if pkgpath := ptrType.Field(i).PkgPath; pkgpath != "" {
+			// field not exported -- skip
+			continue
+		}
+
 		if field == "" {
 			// no tag? make one from the field name
-			if pkgpath := ptrType.Field(i).PkgPath; pkgpath != "" {
-				// field not exported -- skip
-				continue
-			}
 			field = ptrType.Field(i).Name
 		}
 		m[field] = i
-- 
2.43.0


From 092c00d157f214e4c0cb8c159ef5ca95c04d9c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 30/40] fix: share typed items with untyped destinations
 without a pointer

---
 Go/sereal/decode.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 9720cc7..98dc5bf 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1071,13 +1071,11 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 
 		if isREFP {
 			rvData := rv.Elem().Elem()
-			if !rvData.IsValid() && !d.DisableReferentialIntegrity {
+			if d.DisableReferentialIntegrity {
+				res = rv.Elem()
+			} else if !rvData.IsValid() {
 				// undef, or an item that is still being decoded
 				res = rv
-			} else if !rvData.IsValid() {
-				res = rv.Elem()
-			} else if d.DisableReferentialIntegrity {
-				res = rvData
 			} else {
 				res = reflect.New(rvData.Type())
 				res.Elem().Set(rvData)
@@ -1085,6 +1083,10 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 		} else {
 			res = rv.Elem()
 		}
+	} else if !isREFP || d.DisableReferentialIntegrity {
+		// the original value itself, saved in decodeViaReflection() path
+		item := rv.Interface()
+		res = reflect.ValueOf(&item).Elem()
 	} else {
 		// rv contains original value
 		// i.e. it was saved in decodeViaReflection() path
-- 
2.43.0


From 06a1cc4a3d32fb6bc30130f5f75c7d6ddda9f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 31/40] fix: share items of typed destinations instead of
 incomplete copies

---
 Go/sereal/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 98dc5bf..748555f 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -1087,6 +1087,9 @@ func (d *Decoder) decodeREFP_ALIAS(by []byte, idx int, isREFP bool) (reflect.Val
 		// the original value itself, saved in decodeViaReflection() path
 		item := rv.Interface()
 		res = reflect.ValueOf(&item).Elem()
+	} else if rv.CanAddr() && (rv.Kind() == reflect.Struct || rv.Kind() == reflect.Array) {
+		// a copy would be incomplete if the item is still being decoded
+		res = rv.Addr()
 	} else {
 		// rv contains original value
 		// i.e. it was saved in decodeViaReflection() path
-- 
2.43.0


From 62ee8c58d11a513c3114856e3ff1157e9959e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 32/40] fix: merge documents with empty class names and regexp
 modifiers

---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 720e559..e42ce2f 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -719,7 +719,7 @@ func readString(buf []byte) (int, []byte, error) {
 	}
 
 	var ln, offset int
-	if tag > typeSHORT_BINARY_0 {
+	if tag >= typeSHORT_BINARY_0 {
 		ln = int(tag & 0x1F) // get length from tag
 	} else {
 		var err error
-- 
2.43.0


From 6e0612b4854a700f007276116d6c55ec99ce1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:17 +0000
Subject: [PATCH 33/40] fix: merge regexps whose strings are copied or referred
 to

---
 Go/sereal/merge.go | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index e42ce2f..82633b4 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -587,20 +587,40 @@ LOOP:
 			}
 
 		case tag == typeREGEXP:
-			offset, str, err := readString(dbuf[didx+1:])
-			if err != nil {
-				return err
-			}
+			mbuf = append(mbuf, dbuf[didx])
+			didx++
 
-			sizeToCopy := offset + len(str) + 1
-			offset, str, err = readString(dbuf[didx+sizeToCopy:])
-			if err != nil {
-				return err
-			}
+			// parse <PATTERN-STR-TAG> and <MODIFIERS-STR-TAG>
+			for i := 0; i < 2; i++ {
+				// other tags may refer to these strings
+				if _, ok := doc.trackTable[didx-doc.bodyOffset]; ok {
+					doc.trackTable[didx-doc.bodyOffset] = len(mbuf) - m.bodyOffset
+				}
 
-			sizeToCopy += offset + len(str)
-			mbuf = append(mbuf, dbuf[didx:didx+sizeToCopy]...)
-			didx += sizeToCopy
+				if didx < len(dbuf) && dbuf[didx]&^trackFlag == typeCOPY {
+					copyOffset, sz, err := varintdecode(dbuf[didx+1:])
+					if err != nil {
+						return err
+					}
+					targetOffset, ok := doc.trackTable[copyOffset]
+					if !ok || targetOffset < 0 {
+						return errors.New("bad target offset of COPY tag in regexp")
+					}
+
+					mbuf = appendTagVarint(mbuf, dbuf[didx], uint(targetOffset))
+					didx += sz + 1
+					continue
+				}
+
+				offset, str, err := readString(dbuf[didx:])
+				if err != nil {
+					return err
+				}
+
+				length := offset + len(str)
+				mbuf = append(mbuf, dbuf[didx:didx+length]...)
+				didx += length
+			}
 
 		case tag == typeOBJECT, tag == typeOBJECT_FREEZE:
 			// skip main tag for a second, and parse <STR-TAG>
-- 
2.43.0


From 3ac203e31f56337d4c7e9e4b0b04f63decf148f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 34/40] fix: merge documents with padding inside objects and
 regexps

---
 Go/sereal/merge.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 82633b4..23078fd 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -592,6 +592,8 @@ LOOP:
 
 			// parse <PATTERN-STR-TAG> and <MODIFIERS-STR-TAG>
 			for i := 0; i < 2; i++ {
+				didx = skipPadding(dbuf, didx)
+
 				// other tags may refer to these strings
 				if _, ok := doc.trackTable[didx-doc.bodyOffset]; ok {
 					doc.trackTable[didx-doc.bodyOffset] = len(mbuf) - m.bodyOffset
@@ -626,6 +628,10 @@ LOOP:
 			// skip main tag for a second, and parse <STR-TAG>
 			strOffset := mrgRelativeIdx + 1 // we should refer to string tag, not object tag
 
+			mainTag := dbuf[didx]
+			didx = skipPadding(dbuf, didx+1) - 1
+			strIdx := didx + 1 - doc.bodyOffset
+
 			if didx+1 < len(dbuf) && dbuf[didx+1]&^trackFlag == typeCOPY {
 				copyOffset, sz, err := varintdecode(dbuf[didx+2:])
 				if err != nil {
@@ -636,7 +642,7 @@ LOOP:
 					return errors.New("bad target offset of COPY tag in class name")
 				}
 
-				mbuf = append(mbuf, dbuf[didx])
+				mbuf = append(mbuf, mainTag)
 				mbuf = appendTagVarint(mbuf, typeCOPY, uint(targetOffset))
 				didx += sz + 2
 			} else {
@@ -648,23 +654,24 @@ LOOP:
 				length := offset + len(str) + 1 // respect typeOBJECT tag
 				if savedOffset, ok := m.objTable[string(str)]; ok {
 					if tag == typeOBJECT {
-						mbuf = appendTagVarint(mbuf, typeOBJECTV|dbuf[didx]&trackFlag, uint(savedOffset))
+						mbuf = appendTagVarint(mbuf, typeOBJECTV|mainTag&trackFlag, uint(savedOffset))
 					} else {
-						mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE|dbuf[didx]&trackFlag, uint(savedOffset))
+						mbuf = appendTagVarint(mbuf, typeOBJECTV_FREEZE|mainTag&trackFlag, uint(savedOffset))
 					}
 
 					strOffset = savedOffset
 				} else {
 					m.objTable[string(str)] = strOffset
-					mbuf = append(mbuf, dbuf[didx:didx+length]...)
+					mbuf = append(mbuf, mainTag)
+					mbuf = append(mbuf, dbuf[didx+1:didx+length]...)
 				}
 
 				didx += length
 			}
 
 			// other tags may refer to the class name
-			if _, ok := doc.trackTable[docRelativeIdx+1]; ok {
-				doc.trackTable[docRelativeIdx+1] = strOffset
+			if _, ok := doc.trackTable[strIdx]; ok {
+				doc.trackTable[strIdx] = strOffset
 			}
 
 			// parse <ITEM-TAG>
@@ -726,6 +733,14 @@ func isShallowStringish(tag byte) bool {
 	return tag == typeBINARY || tag == typeSTR_UTF8 || (tag >= typeSHORT_BINARY_0 && tag < typeSHORT_BINARY_0+32)
 }
 
+// skipPadding returns the index of the first byte at or after idx that is not padding
+func skipPadding(buf []byte, idx int) int {
+	for idx < len(buf) && buf[idx]&^trackFlag == typePAD {
+		idx++
+	}
+	return idx
+}
+
 func readString(buf []byte) (int, []byte, error) {
 	if len(buf) == 0 {
 		return 0, nil, ErrTruncated
-- 
2.43.0


From 3c17b0de2c30389d6201d9b844f83821d89fb987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:26 +0000
Subject: [PATCH 35/40] fix: encode cycles of Perl objects and weak references

A PerlObject or PerlWeakRef that contains itself, with no other pointer
in between, was encoded until the stack ran out.
---
 Go/sereal/encode.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 5a51eec..7a0f6f8 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -653,10 +653,21 @@ func (e *Encoder) encodePointer(by []byte, rv reflect.Value, state *marshalState
 			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
 		case PerlUndef:
 			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
-		case PerlObject:
-			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
-		case PerlWeakRef:
-			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
+		case PerlObject, PerlWeakRef:
+			perlptr := ptrKey{ptr: rv.Pointer(), typ: rv.Type()}
+
+			// a value that contains itself, not necessarily by way of another pointer
+			if offs, ok := state.ptrTable[perlptr]; ok {
+				by = append(by, typeALIAS)
+				by = varint(by, uint(offs))
+				by[offs] |= trackFlag
+				return by, nil
+			}
+
+			state.ptrTable[perlptr] = len(by)
+			by, err := e.encode(by, rv.Elem(), false, false, state, remainingDepth)
+			delete(state.ptrTable, perlptr)
+			return by, err
 		case PerlFreeze:
 			return e.encode(by, rv.Elem(), false, false, state, remainingDepth)
 		}
-- 
2.43.0


From 72778c86d20ac23f80ec6458850a4fc66bed6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:05 +0000
Subject: [PATCH 36/40] fix: decode into maps whose keys are named strings or
 integers

Their encodings could not be decoded: reflect refused a plain string as
key.
---
 Go/sereal/decode.go | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/Go/sereal/decode.go b/Go/sereal/decode.go
index 748555f..30f71f3 100644
--- a/Go/sereal/decode.go
+++ b/Go/sereal/decode.go
@@ -8,6 +8,7 @@ import (
 	"math"
 	"reflect"
 	"runtime"
+	"strconv"
 	"strings"
 )
 
@@ -971,7 +972,12 @@ func (d *Decoder) decodeHashViaReflection(by []byte, idx int, ln int, ptr reflec
 				return 0, err
 			}
 
-			keyValue := reflect.ValueOf(string(key))
+			var keyValue reflect.Value
+			keyValue, err = mapKey(string(key), ptr.Type().Key())
+			if err != nil {
+				return 0, err
+			}
+
 			if value := ptr.MapIndex(keyValue); value.IsValid() {
 				// strkey exists in map, replace its content but respect structure
 				idx, err = d.decodeViaReflection(by, idx, value)
@@ -1240,6 +1246,38 @@ func (d *Decoder) decodeObjectFreezeViaReflection(by []byte, idx int, ptr reflec
 	return idx, err
 }
 
+// mapKey is the reverse of hashKey: it returns the key of a map that stands for the key of a hash
+func mapKey(key string, typ reflect.Type) (reflect.Value, error) {
+	keyValue := reflect.New(typ).Elem()
+
+	switch typ.Kind() {
+	case reflect.String:
+		keyValue.SetString(key)
+		return keyValue, nil
+
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		i, err := strconv.ParseInt(key, 10, typ.Bits())
+		keyValue.SetInt(i)
+		if err == nil && strconv.FormatInt(i, 10) == key {
+			return keyValue, nil
+		}
+
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		i, err := strconv.ParseUint(key, 10, typ.Bits())
+		keyValue.SetUint(i)
+		if err == nil && strconv.FormatUint(i, 10) == key {
+			return keyValue, nil
+		}
+
+	case reflect.Interface:
+		if val := reflect.ValueOf(key); val.Type().AssignableTo(typ) {
+			return val, nil
+		}
+	}
+
+	return keyValue, fmt.Errorf("can't use hash key '%s' as %v", key, typ)
+}
+
 // setInt stores i, which is to be taken as a uint if isUnsigned is true
 func setInt(ptr reflect.Value, i int, isUnsigned bool) {
 	var overflow bool
-- 
2.43.0


From d62bad8d696869f625642f383349f699fef7a9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 37/40] fix: don't panic when Merger.ExpectedSize is less than
 the size of the header

---
 Go/sereal/merge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 23078fd..4145e6c 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -107,7 +107,7 @@ func (m *Merger) initMerger() error {
 	m.utf8Table = make(map[string]int)
 	m.objTable = make(map[string]int)
 
-	if m.ExpectedSize > 0 {
+	if m.ExpectedSize > headerSize {
 		m.buf = make([]byte, headerSize, m.ExpectedSize)
 	} else {
 		m.buf = make([]byte, headerSize)
-- 
2.43.0


From a1d0ca091391c9a112ad4188e90dc110e6b23960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 38/40] fix: a failed Append could leave a track flag in an
 earlier document

A REFP or ALIAS to a deduplicated string marks the string in the earlier
document; undo that if the Append fails later on.
---
 Go/sereal/merge.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index 4145e6c..debabe1 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -65,7 +65,8 @@ type mergerDoc struct {
 	buf         []byte
 	trackIdxs   []int
 	trackTable  map[int]int
-	copiesItems bool // there are COPY tags that refer to something else than a string
+	flagged     []int // items of earlier documents that got a track flag
+	copiesItems bool  // there are COPY tags that refer to something else than a string
 	version     int
 	startIdx    int // 0-based
 	bodyOffset  int // 1-based
@@ -210,6 +211,9 @@ func (m *Merger) Append(b []byte) (int, error) {
 	// second pass: do the work
 	if err := m.mergeItems(&doc); err != nil {
 		m.buf = m.buf[0:lastElementOffset] // remove appended stuff
+		for _, idx := range doc.flagged {
+			m.buf[idx] &^= trackFlag
+		}
 		m.forgetStrings(lastElementOffset - m.bodyOffset)
 		return 0, err
 	}
@@ -551,7 +555,11 @@ LOOP:
 			didx += sz + 1
 
 			if tag == typeALIAS || tag == typeREFP {
-				mbuf[targetOffset+m.bodyOffset] |= trackFlag
+				target := targetOffset + m.bodyOffset
+				if target < len(m.buf) && mbuf[target]&trackFlag == 0 {
+					doc.flagged = append(doc.flagged, target)
+				}
+				mbuf[target] |= trackFlag
 			} else if tag == typeOBJECTV || tag == typeOBJECTV_FREEZE {
 				stack = append(stack, 1)
 			}
-- 
2.43.0


From 4047d7b80264e0a842d83a545c34f862b43e2582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 39/40] fix: don't splice a top level array that its document
 refers to

With KeepFlat, Append refused such documents: after splicing there is
nothing left that the reference could refer to.
---
 Go/sereal/merge.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Go/sereal/merge.go b/Go/sereal/merge.go
index debabe1..698e3fd 100644
--- a/Go/sereal/merge.go
+++ b/Go/sereal/merge.go
@@ -66,6 +66,7 @@ type mergerDoc struct {
 	trackIdxs   []int
 	trackTable  map[int]int
 	flagged     []int // items of earlier documents that got a track flag
+	firstTarget int   // index of the first item other tags refer to, or len(buf)
 	copiesItems bool  // there are COPY tags that refer to something else than a string
 	version     int
 	startIdx    int // 0-based
@@ -289,6 +290,7 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 
 	doc.trackTable = make(map[int]int)
 	doc.trackIdxs = make([]int, 0)
+	doc.firstTarget = len(buf)
 
 	for idx < len(buf) {
 		tag := buf[idx]
@@ -359,6 +361,10 @@ func (m *Merger) buildTrackTable(doc *mergerDoc) error {
 				doc.copiesItems = true
 			}
 
+			if target := offset + doc.bodyOffset; target < doc.firstTarget {
+				doc.firstTarget = target
+			}
+
 			doc.trackTable[offset] = -1
 			idx += sz + 1
 
@@ -397,6 +403,10 @@ func (m *Merger) mergeItems(doc *mergerDoc) error {
 	if err != nil {
 		return err
 	}
+	if doc.firstTarget < didx+offset {
+		// the document refers to its top level array, it has to stay
+		expElements, offset = 1, 0
+	}
 	if expElements < 0 || expElements > len(dbuf) {
 		return fmt.Errorf("bad amount of expected elements: %d", expElements)
 	}
-- 
2.43.0


From 53abc591cc4d9841c49fd923b181537c8c0e0ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:58 +0000
Subject: [PATCH 40/40] fix: a key must not be copied from a class name kept as
 bytes unless it is ASCII

---
 Go/sereal/encode.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/Go/sereal/encode.go b/Go/sereal/encode.go
index 7a0f6f8..6176f92 100644
--- a/Go/sereal/encode.go
+++ b/Go/sereal/encode.go
@@ -376,7 +376,8 @@ func (e *Encoder) encodeJsonNumber(by []byte, n json.Number, isKeyOrClass bool,
 
 func (e *Encoder) encodeString(by []byte, s string, isKeyOrClass bool, strTable map[string]int) []byte {
 	if !e.DisableDedup && isKeyOrClass {
-		if copyOffs, ok := strTable[s]; ok {
+		// a class name is kept as bytes: only where that makes no difference may it stand for a key
+		if copyOffs, ok := strTable[s]; ok && (by[copyOffs]&^trackFlag == typeSTR_UTF8 || isASCII(s)) {
 			by = append(by, typeCOPY)
 			by = varint(by, uint(copyOffs))
 			return by
@@ -391,7 +392,7 @@ func (e *Encoder) encodeString(by []byte, s string, isKeyOrClass bool, strTable
 
 func (e *Encoder) encodeBytes(by []byte, byt []byte, isKeyOrClass bool, strTable map[string]int) []byte {
 	if !e.DisableDedup && isKeyOrClass {
-		if copyOffs, ok := strTable[string(byt)]; ok {
+		if copyOffs, ok := strTable[string(byt)]; ok && (by[copyOffs]&^trackFlag != typeSTR_UTF8 || isASCII(string(byt))) {
 			by = append(by, typeCOPY)
 			by = varint(by, uint(copyOffs))
 			return by
@@ -410,6 +411,17 @@ func (e *Encoder) encodeBytes(by []byte, byt []byte, isKeyOrClass bool, strTable
 	return append(by, byt...)
 }
 
+// isASCII returns whether s is the same sequence of characters as bytes and as UTF-8 text
+func isASCII(s string) bool {
+	for i := 0; i < len(s); i++ {
+		if s[i] >= 0x80 {
+			return false
+		}
+	}
+
+	return true
+}
+
 func (e *Encoder) encodeIntfArray(by []byte, arr []interface{}, isRefNext bool, state *marshalState, remainingDepth int) ([]byte, error) {
 	remainingDepth--
 	if remainingDepth <= 0 {
-- 
2.43.0

