package zzverif

import (
	"reflect"

	"github.com/golang/snappy"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// dstBuf is a destination buffer: nil, empty, shorter or longer than the document, with spare capacity or not.
func dstBuf(n int) []byte {
	switch sym.Choose(8) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return make([]byte, 0, n+20)
	case 3:
		return make([]byte, n-1, n+20)
	case 4:
		return make([]byte, n)
	case 5:
		return make([]byte, n+1)
	case 6:
		return make([]byte, n+3, n+40)
	}
	return make([]byte, n+64)
}

// same reports whether two untyped decode results are the same value: trees of
// scalars, byte slices, slices and maps.
func same(a, b interface{}, depth int) bool {
	if depth > 6 {
		return true
	}
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case int:
		y, ok := b.(int)
		return ok && x == y
	case uint:
		y, ok := b.(uint)
		return ok && x == y
	case float32:
		y, ok := b.(float32)
		return ok && f32bits(x) == f32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && f64bits(x) == f64bits(y)
	case string:
		y, ok := b.(string)
		return ok && x == y
	case []byte:
		y, ok := b.([]byte)
		return ok && eqBytes(x, y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !same(v, w, depth+1) {
				return false
			}
		}
		return true
	case *sereal.PerlUndef:
		y, ok := b.(*sereal.PerlUndef)
		return ok && (x == sereal.PerlCanonicalUndef()) == (y == sereal.PerlCanonicalUndef())
	case sereal.PerlObject:
		y, ok := b.(sereal.PerlObject)
		return ok && x.Class == y.Class && same(x.Reference, y.Reference, depth+1)
	case sereal.PerlWeakRef:
		y, ok := b.(sereal.PerlWeakRef)
		return ok && same(x.Reference, y.Reference, depth+1)
	case sereal.PerlRegexp:
		y, ok := b.(sereal.PerlRegexp)
		return ok && eqBytes(x.Pattern, y.Pattern) && eqBytes(x.Modifiers, y.Modifiers)
	case sereal.PerlFreeze:
		y, ok := b.(sereal.PerlFreeze)
		return ok && x.Class == y.Class && eqBytes(x.Data, y.Data)
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if b != nil && x.Type() == y.Type() && x.Kind() == reflect.Ptr {
		if x.IsNil() || y.IsNil() {
			return x.IsNil() && y.IsNil()
		}
		return same(x.Elem().Interface(), y.Elem().Interface(), depth+1)
	}
	return false
}

// checkDecompress decompresses doc and compares with the original.
func checkDecompress(doc []byte) {
	orig := clone(doc)
	dst := dstBuf(len(doc))
	r, err := sereal.DecompressDocument(dst, doc)
	sym.Assert(eqBytes(orig, doc), "the input was modified")
	var h1, b1, h2, b2 interface{}
	err1 := sereal.NewDecoder().UnmarshalHeaderBody(doc, &h1, &b1)
	if err != nil {
		sym.Assert(err1 != nil, "DecompressDocument refuses a document Unmarshal accepts")
		sym.Reach("refused")
		return
	}
	sym.Assert(len(r) >= 6 && r[4]>>4 == 0, "result not marked uncompressed")
	sym.Assert(eqBytes(r[:4], doc[:4]) && r[4]&15 == doc[4]&15, "magic or version changed")
	err2 := sereal.NewDecoder().UnmarshalHeaderBody(exact(r), &h2, &b2)
	sym.Assert((err1 == nil) == (err2 == nil), "decoding fails after or before decompression only")
	if err1 == nil {
		sym.Assert(same(h1, h2, 0), "header changed")
		sym.Assert(same(b1, b2, 0), "body changed")
		sym.Reach("end")
	}
}

// C03_Any: every short document.
func C03_Any() {
	doc := exact(sym.Bytes(sym.UpTo(0, 7)))
	orig := clone(doc)
	r, err := sereal.DecompressDocument(dstBuf(len(doc)+1), doc)
	sym.Assert(eqBytes(orig, doc), "the input was modified")
	sym.Assert(err != nil || len(r) > 0 && r[4]>>4 == 0, "result not marked uncompressed")
	sym.Reach("end")
}

// smallBody is the body of a small document: a few arbitrary bytes, a string of 2, an array, a shared reference.
func smallBody() []byte {
	switch sym.Choose(4) {
	case 0:
		return sym.Bytes(sym.UpTo(1, sym.Bound(1, 2)))
	case 1:
		return append([]byte{tSHORT + 2}, sym.Bytes(2)...)
	case 2:
		return append([]byte{tARRAYREF + 2, tSHORT + 1}, append(sym.Bytes(1), tCOPY, 2)...)
	}
	return []byte{tARRAYREF + 2, tSHORT + 1, sym.Byte(), tHASHREF + 1, tCOPY, 2, 5}
}

// C03_Snappy: compressed bodies in both framings, with and without a user header.
func C03_Snappy() {
	body := smallBody()
	z := snappy.Encode(nil, body)
	typ := sym.UpTo(1, 2)
	ver := 1
	if typ == 2 {
		ver = sym.UpTo(1, 4)
		z = append(putVarint(nil, uint64(len(z))), z...)
	}
	var suffix []byte
	switch sym.Choose(3) {
	case 1:
		suffix = []byte{1, sym.Byte()}
	case 2:
		suffix = append([]byte{1, tSHORT + 1}, sym.Bytes(1)...)
	}
	if ver == 1 {
		notIntoHeader(suffix, body)
	}
	checkDecompress(exact(mkdocH(ver, typ, suffix, z)))
}

// notIntoHeader excludes version 1 documents whose COPY tags refer to bytes of
// the header, which are no items but which nothing but the decompression changes.
func notIntoHeader(suffix, body []byte) {
	_, st := refDoc(mkdocH(1, 0, suffix, body))
	sym.Assume(st != gray)
}

// C03_SnappyLong: a compressed body with copies, longer than the document.
func C03_SnappyLong() {
	n := sym.UpTo(20, 40)
	body := []byte{tBINARY, byte(n)}
	c := sym.Byte()
	for i := 0; i < n; i++ {
		body = append(body, c)
	}
	z := snappy.Encode(nil, body)
	checkDecompress(exact(mkdoc(1, 1, z)))
}

// C03_SnappyBytes: arbitrary snappy streams.
func C03_SnappyBytes() {
	typ := sym.UpTo(1, 2)
	n := sym.UpTo(0, sym.Bound(2, 4))
	z := sym.Bytes(n)
	if typ == 2 {
		z = append([]byte{byte(n)}, z...)
	}
	doc := exact(mkdoc(1, typ, z))
	raw := z
	if typ == 2 {
		raw = z[1:]
	}
	if ln, err := snappy.DecodedLen(raw); err != nil || ln > 100 {
		// refused
	} else if body, err := snappy.Decode(nil, raw); err == nil {
		notIntoHeader(nil, body)
	}
	checkDecompress(doc)
}

// C03_Zlib: zlib bodies behind right or wrong lengths.
func C03_Zlib() {
	body := smallBody()
	z := toyDeflate(body)
	f := putVarint(putVarint(nil, uint64(len(body)+sym.Choose(3))), uint64(len(z)))
	z = append(f, z...)
	var suffix []byte
	if sym.Bool() {
		suffix = []byte{1, sym.Byte()}
	}
	checkDecompress(exact(mkdocH(sym.UpTo(3, 4), 3, suffix, z)))
}

// C03_Raw: documents that are not compressed at all.
func C03_Raw() {
	var suffix []byte
	switch sym.Choose(3) {
	case 1:
		suffix = []byte{1, sym.Byte()}
	case 2:
		suffix = []byte{sym.Byte()}
	}
	doc := exact(mkdocH(sym.UpTo(1, 4), 0, suffix, smallBody()))
	checkDecompress(doc)
}
