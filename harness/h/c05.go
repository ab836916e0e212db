package zzverif

import (
	"github.com/golang/snappy"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// sameNode compares two values of the reference decoder.
func sameNode(a, b *rnode, depth int) bool {
	if depth > 6 {
		return true
	}
	if a.k != b.k || a.u != b.u || !eqBytes(a.b, b.b) || !eqBytes(a.b2, b.b2) || len(a.kids) != len(b.kids) || a.refp != b.refp || a.alias != b.alias {
		return false
	}
	for i := range a.kids {
		if !sameNode(a.kids[i], b.kids[i], depth+1) {
			return false
		}
	}
	return true
}

// elements are the values a document contributes to the merged array.
func elements(n *rnode, mask int) []*rnode {
	one := []*rnode{n}
	if mask&4 == 0 {
		return one
	}
	a := n
	if mask&1 == 0 && n.k == rRef && !n.refp {
		a = n.kids[0]
	}
	if mask&1 != 0 && n.k != rArr || mask&1 == 0 && a == n || a.k != rArr {
		return one
	}
	// an array that is referred to from inside has to stay
	for _, k := range a.kids {
		if holds(k, n, 0) || holds(k, a, 0) {
			return one
		}
	}
	return a.kids
}

// holds reports whether item x is reached from n.
func holds(n, x *rnode, depth int) bool {
	if n == x {
		return true
	}
	for _, k := range n.kids {
		if depth < 8 && holds(k, x, depth+1) {
			return true
		}
	}
	return false
}

// flatOpen reports whether it is open if doc is to be spliced: padding, objects
// and aliases in front of the array hide it from the merger.
func flatOpen(doc []byte, mask int) bool {
	return mask&4 != 0 && len(doc) > 6 && (doc[6]&0x7f == tPAD || len(doc) > 7 && doc[6]&0x7f == tREFN && doc[7]&0x7f == tPAD)
}

// checkMerge merges valid documents and compares the result with the parts.
// packed[i] is what is appended, docs[i] the same document uncompressed.
func checkMerge(m *sereal.Merger, mask int, docs, packed [][]byte) {
	var want []*rnode
	for i, doc := range docs {
		n, st := refDoc(doc)
		sym.Assume(st == valid && !flatOpen(doc, mask))
		cnt, err := m.Append(packed[i])
		if err != nil {
			sym.Assert(cnt == 0, "count and error")
			sym.ObsBytes("refused", doc)
			sym.Fail("valid document refused: " + err.Error())
		}
		e := elements(n, mask)
		sym.Assert(cnt == len(e), "wrong count")
		want = append(want, e...)
	}
	out, err := m.Finish()
	sym.Assert(err == nil, "Finish fails")
	raw, err := sereal.DecompressDocument(nil, out)
	sym.Assert(err == nil, "result cannot be decompressed")
	if len(want) == 0 { // the room for the length stays behind an empty array
		for raw[len(raw)-1] == tPAD {
			raw = raw[:len(raw)-1]
		}
	}
	got, st := refDoc(raw)
	sym.Assert(st == valid, "result is no valid document")
	if mask&1 == 0 {
		sym.Assert(got.k == rRef && !got.refp, "no reference at top level")
		got = got.kids[0]
	}
	sym.Assert(got.k == rArr && len(got.kids) == len(want), "wrong number of elements")
	for i := range want {
		sym.Assert(sameNode(want[i], got.kids[i], 0), "wrong element")
	}
	var v interface{}
	err = sereal.Unmarshal(out, &v)
	sym.Assert(err == nil, "result does not decode")
	if mask&1 == 0 {
		got = &rnode{k: rRef, kids: []*rnode{got}}
	}
	sym.Assert(matches(got, v, false, false, 0), "result decodes to a wrong value")
	sym.Reach("end")
}

// C05_Bytes: one document of up to N arbitrary bytes after a fixed one.
func C05_Bytes() {
	mask := []int{0, 3, 6}[sym.Choose(3)]
	ver := sym.UpTo(1, 2)
	doc := exact(mkdoc(ver, 0, sym.Bytes(sym.UpTo(1, sym.Bound(2, 3)))))
	first := goodDoc(3)
	checkMerge(mergerOf(3, mask), mask, [][]byte{first, doc}, [][]byte{first, doc})
}

// C05_Alpha: longer documents over the tag alphabets, alone or after another.
func C05_Alpha() {
	mask := []int{0, 2, 6}[sym.Choose(3)]
	k := sym.Choose(3)
	doc := alphaDoc(k, sym.UpTo(3, sym.Bound(4, 5)))
	docs := [][]byte{doc}
	if sym.Bool() {
		docs = [][]byte{exact(mkdoc(3, 0, []byte("\x51\x61\x61\x62\x61\x61"))), doc}
	}
	checkMerge(mergerOf(3, mask), mask, docs, docs)
}

// shapes of documents; ? is any byte, offsets are those of version 2 and 3
var mergeShapes = []string{
	"\x62a?", "\x42\x62a?\x62a?", "\x51\x62a?\x62a?", "\x52\x61?\x61?\x62a?\x60",
	"\x42\x51\x62a?\x01\x51\x2f\x03\x02", // copied key
	"\x42\x62a?\x2f\x02",                 // copied string
	"\x42\xe2a?\x2e\x02",                 // alias
	"\x42\xe2a?\x29\x02",                 // reference to a string
	"\x42\x28\xe2a?\x29\x03",
	"\x42\x28\xd1\x62a?\x01\x29\x03",                          // shared hash
	"\x42\x2c\x62a?\x50\x2d\x03\x51\x62a?\x01",                // two objects of a class
	"\x42\x2c\x62a?\x50\x2c\x62a?\x50",                        // two objects, two classes
	"\x43\x2c\x62a?\x50\x2c\x2f\x03\x50\x2f\x03",              // class name copied
	"\x42\x32\x62a?\x28\x2b\x01\x61?\x33\x03\x28\x2b\x01\x60", // frozen objects
	"\x31\x62a?\x61?", "\x42\x31\xe2a?\x60\x2f\x03",
	"\x42\xc1\x62a?\x29\x02", "\x42\xa0?\x01\x2e\x02", "\xc1\x29\x01",
	"\x42\x27\x02a?\x62a?", "\x51\x27\x02a?\x51\x26\x02a?\x01", "\xbf\x42\xbf\x62a?\xbf\x62a?",
	"\x42\x51\x62a?\x01\x2f\x02", // copied hash
	"\x43\x62a?\x41\x2f\x02\x2f\x05",
	"\x28\xab\x02\x62a?\x29\x02", "\xab\x02\x62a?\x29\x01", "\xa8\x2b\x01\x2e\x01", "\xc2\x51\x61?\x29\x01\x30\x29\x01", "\x28\x2b\x01\x28\xc1\x29\x05",
	"\x28\x2b\x02\x62a?\x62a?", "\x2b\x02\x62a?\x2f\x03", "\x30\x28\x50", "\x22????", "\x21\xff?\x01", "\x43\x2c\xe2a?\x50\x2d\x03\x60\x29\x03",
	"\x42\x32\x60\x28\x2b\x01\x61?\x33\x03\x28\x2b\x01\x60", "\x42\x32\x60\x28\x2b\x00\x32\x60\x28\x2b\x01\x61?", "\x43\x2c\x62a?\x50\x32\x62a?\x28\x2b\x00\x2c\x60\x50",
	"\x28\xab\x02\x62a?\x01", "\xab\x02\x62a?\x01", "\xc2\x62a?\x01", "\xa8\x2b\x02\x62a?\x01", "\x42\x31\x60\x60\x31\x60\x61?",
	"\x42\xac\x62a?\x50\x29\x02", "\x41\x42\x52\x61?\x01\x61?\x02\x51\x2f\x04\x03",
}

// toV1 shifts the offsets of a version 2 body to version 1.
func toV1(s string) string { return toV1by(s, 5) }

func toV1by(s string, n byte) string {
	b := []byte(s)
	for i := 0; i+1 < len(b); i++ {
		switch b[i] {
		case tCOPY, tREFP, tALIAS, tOBJECTV, tFREEZEV:
			b[i+1] += n
			i++
		case tFLOAT, '?':
		}
	}
	return string(b)
}

// C05_Pairs: every pair of shapes, any strings in them.
func C05_Pairs() {
	a := mergeShapes[sym.Choose(len(mergeShapes))]
	b := mergeShapes[sym.Choose(len(mergeShapes))]
	mask := []int{0, 2, 7}[sym.Choose(3)]
	d1 := exact(mkdoc(3, 0, shape(a)))
	d2 := exact(mkdoc(3, 0, shape(b)))
	checkMerge(mergerOf(3, mask), mask, [][]byte{d1, d2}, [][]byte{d1, d2})
}

// C05_Options: a document twice or with a second one, other options and versions.
func C05_Options() {
	mask := sym.Choose(8)
	k := sym.Choose(len(mergeShapes))
	ver := sym.UpTo(1, 2)
	s := mergeShapes[k]
	if ver == 1 {
		s = toV1(s)
	}
	d1 := exact(mkdoc(ver, 0, shape(s)))
	d2 := exact(mkdoc(3, 0, shape([]string{"\x51\x62??\x01", "\x42\x28\xe2ab\x29\x03"}[sym.Choose(2)])))
	docs := [][]byte{d1, d2, d1}
	checkMerge(mergerOf(2+sym.Choose(2), mask), mask, docs, docs)
}

// C05_Compressed: compressed inputs and outputs, headers before the body.
func C05_Compressed() {
	k := sym.Choose(len(mergeShapes))
	body := shape(mergeShapes[k])
	var packed, raw []byte
	v1 := false
	switch sym.Choose(5) {
	case 4: // offsets count from the start of the document, header included
		h := sym.Bytes(sym.UpTo(1, 3))
		body = shape(toV1by(mergeShapes[k], 5+byte(len(h))))
		packed = mkdocH(1, 0, h, body)
		v1 = true
	case 0:
		z := snappy.Encode(nil, body)
		packed = mkdoc(3, 2, append(putVarint(nil, uint64(len(z))), z...))
	case 1:
		z := toyDeflate(body)
		packed = mkdoc(3, 3, append(putVarint(putVarint(nil, uint64(len(body))), uint64(len(z))), z...))
	case 2:
		packed = mkdocH(3, 0, []byte{1, tSHORT + 1, sym.Byte()}, body)
	case 3:
		body = shape(toV1(mergeShapes[k]))
		z := snappy.Encode(nil, body)
		packed = mkdoc(1, 1, z)
	}
	ver := 3
	if packed[4]&15 == 1 {
		ver = 1
	}
	raw = mkdoc(ver, 0, body)
	if v1 {
		raw = packed
	}
	m := mergerOf(3, 2)
	switch sym.Choose(3) {
	case 1:
		// the snappy encoder forks on every byte it hashes
		sym.Assume(k < 2)
		m.Compression = sereal.SnappyCompressor{Incremental: true}
		m.CompressionThreshold = 0
	case 2:
		m.Compression = sereal.ZlibCompressor{}
		m.CompressionThreshold = sym.Choose(2) * 30
	}
	checkMerge(m, 2, [][]byte{raw, raw}, [][]byte{exact(packed), exact(packed)})
}

// C05_Threshold: the result is compressed exactly when it is long enough.
func C05_Threshold() {
	m := mergerOf(3, 0)
	m.Compression = sereal.SnappyCompressor{Incremental: true}
	th := sym.UpTo(18, 26)
	m.CompressionThreshold = th
	n := sym.UpTo(1, 8)
	d := exact(mkdoc(3, 0, append([]byte{tSHORT + byte(n)}, sym.Bytes(n)...)))
	_, err := m.Append(d)
	sym.Assert(err == nil, "valid document refused")
	out, err := m.Finish()
	sym.Assert(err == nil, "Finish fails")
	var v interface{}
	sym.Assert(sereal.Unmarshal(out, &v) == nil, "result does not decode")
	a, ok := v.([]interface{})
	sym.Assert(ok && len(a) == 1, "wrong result")
	x, ok := a[0].([]byte)
	sym.Assert(ok && eqBytes(x, d[7:]), "wrong element")
	again, err := m.Finish()
	sym.Assert(err == nil && eqBytes(again, out), "Finish is not idempotent")
	_, err = m.Append(d)
	sym.Assert(err != nil, "Append after Finish")
	sym.Reach("end")
}

// C05_Many: more elements than one length byte holds.
func C05_Many() {
	mask := []int{0, 2, 4, 5}[sym.Choose(4)]
	m := mergerOf(3, mask)
	c := sym.Byte()
	cnt := sym.UpTo(126, 130)
	for i := 0; i < cnt; i++ {
		n, err := m.Append(exact(mkdoc(3, 0, []byte{tSHORT + 2, 'a', c})))
		sym.Assert(err == nil && n == 1, "valid document refused")
	}
	out, err := m.Finish()
	sym.Assert(err == nil, "Finish fails")
	var v interface{}
	sym.Assert(sereal.Unmarshal(out, &v) == nil, "result does not decode")
	a, ok := v.([]interface{})
	sym.Assert(ok && len(a) == cnt, "wrong number of elements")
	for _, e := range a {
		x, ok := e.([]byte)
		sym.Assert(ok && len(x) == 2 && x[1] == c, "wrong element")
	}
	sym.Reach("end")
}

func lengthsDoc(ver int) []byte {
	switch sym.Choose(3) {
	case 0:
		return bodyString(ver, sym.Choose(bodyStrings), filled(classLen()), sym.Choose(3), sym.Choose(2))
	case 1:
		return bodyCount(countLen(), sym.Choose(6), sym.Choose(3))
	}
	return far(ver, farLen(), sym.Choose(8))
}

// C05_Lengths: strings, containers and offsets of every length class.
func C05_Lengths() {
	mask := []int{0, 2, 6, 7}[sym.Choose(4)]
	ver := []int{1, 3}[sym.Choose(2)]
	doc := exact(mkdoc(ver, 0, lengthsDoc(ver)))
	docs := [][]byte{doc}
	if sym.Bool() {
		docs = [][]byte{exact(mkdoc(3, 0, []byte("\x51\x61\x61\x62\x61\x61"))), doc}
	}
	checkMerge(mergerOf(3, mask), mask, docs, docs)
}

// C05_Huge: containers whose lengths take up to three bytes, among the elements or spliced into them.
func C05_Huge() {
	sym.Room(20)
	n := []int{300, 16383, 16384, 16385, 33000, 65535, 65536, 65537}[sym.Choose(8)]
	hash := sym.Choose(2) == 1
	b := []byte{tREFN, tARRAY}
	if hash {
		sym.Assume(n < 40000)
		b[1] = tHASH
	}
	b = putVarint(b, uint64(n))
	x, y := sym.Byte(), sym.Byte()
	for i := 0; i < n; i++ {
		if hash {
			b = append(b, tSHORT+3, byte(i>>12), byte(i>>6)&63, byte(i)&63)
		}
		switch i {
		case 0:
			b = append(b, tSHORT+1, x)
		case n - 1:
			b = append(b, tSHORT+1, y)
		default:
			b = append(b, byte(i%11))
		}
	}
	mask := []int{0, 4}[sym.Choose(2)]
	m := mergerOf(3, mask)
	first := exact(mkdoc(3, 0, []byte{tSHORT + 1, 'f'}))
	last := exact(mkdoc(3, 0, []byte{tSHORT + 1, 'f'}))
	cnt := 1
	if !hash && mask == 4 {
		cnt = n
	}
	k, err := m.Append(first)
	sym.Assert(err == nil && k == 1, "valid document refused")
	k, err = m.Append(exact(mkdoc(3, 0, b)))
	sym.Assert(err == nil && k == cnt, "valid document refused")
	k, err = m.Append(last)
	sym.Assert(err == nil && k == 1, "valid document refused")
	out, err := m.Finish()
	sym.Assert(err == nil, "Finish fails")
	var v interface{}
	sym.Assert(sereal.Unmarshal(out, &v) == nil, "result does not decode")
	a, ok := v.([]interface{})
	sym.Assert(ok && len(a) == cnt+2, "wrong number of elements")
	f, ok := a[0].([]byte)
	sym.Assert(ok && string(f) == "f", "wrong element")
	f, ok = a[cnt+1].([]byte)
	sym.Assert(ok && string(f) == "f", "wrong element")
	var at func(i int) interface{}
	switch {
	case cnt == n:
		at = func(i int) interface{} { return a[i+1] }
	case hash:
		h, ok := a[1].(map[string]interface{})
		sym.Assert(ok && len(h) == n, "wrong element")
		at = func(i int) interface{} { return h[string([]byte{byte(i >> 12), byte(i>>6) & 63, byte(i) & 63})] }
	default:
		h, ok := a[1].([]interface{})
		sym.Assert(ok && len(h) == n, "wrong element")
		at = func(i int) interface{} { return h[i] }
	}
	p, ok := at(0).([]byte)
	q, ok2 := at(n - 1).([]byte)
	sym.Assert(ok && ok2 && len(p) == 1 && len(q) == 1 && p[0] == x && q[0] == y, "wrong element")
	for i := 1; i < n-1; i += 1000 {
		sym.Assert(at(i) == i%11, "wrong element")
	}
	sym.Reach("end")
}
