package zzverif

import (
	"github.com/golang/snappy"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// mergerOf returns a merger for protocol version v with the options of mask.
func mergerOf(v, mask int) *sereal.Merger {
	var m *sereal.Merger
	switch v {
	case 2:
		m = sereal.NewMergerV2()
	case 3:
		m = sereal.NewMergerV3()
	default:
		m = sereal.NewMerger()
	}
	if mask&1 != 0 {
		m.TopLevelElement = sereal.TopLevelArray
	}
	m.DedupeStrings = mask&2 != 0
	m.KeepFlat = mask&4 != 0
	return m
}

func appendAny(m *sereal.Merger, doc []byte) {
	n, err := m.Append(doc)
	sym.Assert(err == nil || n == 0, "count and error")
	sym.Assert(n >= 0, "negative count")
	out, err2 := m.Finish()
	sym.Assert(err2 == nil && len(out) > 6, "Finish fails")
	if err != nil {
		var v interface{}
		err := sereal.Unmarshal(out, &v)
		a, ok := v.([]interface{})
		sym.Assert(err == nil && ok && len(a) == 0, "the result of nothing but a failed Append is not the empty array")
	}
	sym.ObsBool("ok", err == nil)
	sym.Reach("end")
}

// C04_Bytes: every body of up to N bytes, every option.
func C04_Bytes() {
	mask := sym.Choose(8)
	doc := exact(mkdoc(sym.UpTo(1, 2), 0, sym.Bytes(sym.UpTo(0, sym.Bound(2, 3)))))
	appendAny(mergerOf(3, mask), doc)
}

// C04_Bytes3: one byte more with fewer options.
func C04_Bytes3() {
	mask := []int{0, 7}[sym.Choose(2)]
	appendAny(mergerOf(3, mask), exact(mkdoc(sym.UpTo(1, 2), 0, sym.Bytes(sym.Bound(3, 4)))))
}

// C04_Document: every short document.
func C04_Document() {
	appendAny(mergerOf(2, 2), exact(sym.Bytes(sym.UpTo(0, 8))))
}

// C04_Alpha: longer bodies over the tag alphabets.
func C04_Alpha() {
	mask := []int{0, 2, 5, 6}[sym.Choose(4)]
	k := sym.Choose(4)
	appendAny(mergerOf(3, mask), alphaDoc(k, sym.Bound(4, 5)))
}

// C04_Varint: numbers of any size.
func C04_Varint() {
	p := varintPrefixes[sym.Choose(len(varintPrefixes))]
	n := []int{1, 2, 5, 9, 10, 11}[sym.Choose(6)]
	body := append([]byte(p), longVarint(n)...)
	body = append(body, sym.Bytes(sym.UpTo(0, 1))...)
	appendAny(mergerOf(3, []int{0, 6}[sym.Choose(2)]), exact(mkdoc(sym.UpTo(1, 2), 0, body)))
}

// C04_FlatVarint: the length of the top-level array.
func C04_FlatVarint() {
	p := []string{"\x28\x2b", "\x2b", "\x28\x2a"}[sym.Choose(3)]
	n := []int{1, 2, 5, 9, 10, 11}[sym.Choose(6)]
	body := append([]byte(p), longVarint(n)...)
	body = append(body, sym.Bytes(sym.UpTo(0, 1))...)
	appendAny(mergerOf(3, 4|sym.Choose(2)), exact(mkdoc(2, 0, body)))
}

// C04_Packed: compressed documents with arbitrary framing and content.
func C04_Packed() {
	var doc []byte
	switch sym.Choose(3) {
	case 0:
		doc = mkdoc(1, 1, sym.Bytes(sym.UpTo(0, 3)))
	case 1:
		doc = mkdoc(sym.UpTo(1, 4), 2, sym.Bytes(sym.UpTo(0, 3)))
	case 2:
		z := snappy.Encode(nil, sym.Bytes(2))
		doc = mkdoc(3, 2, append(putVarint(nil, uint64(len(z))), z...))
	}
	appendAny(mergerOf(3, 0), exact(doc))
}

// documents that are valid: what they leave in the tables shows in later ones
var goodDocs = []string{
	"\x01", "\x62ab", "\x51\x62ab\x01", "\x51\x27\x02ab\x62ab", "\x2c\x61a\x50", "\x32\x61a\x28\x2b\x01\x61x",
	"\x42\x2c\x61a\x50\x2d\x03\x50", "\x42\xd1\x61a\x01\x29\x02", "\x42\x62ab\x2f\x02", "\x51\x61a\x62ab",
}

func goodDoc(k int) []byte { return exact(mkdoc(3, 0, []byte(goodDocs[k]))) }

// checkRollback: an Append that fails leaves no trace in what follows.
func checkRollback(bad []byte, mask int) {
	if sym.Choose(2) == 1 {
		rollback(bad, mask, 1+sym.Choose(4), sym.Choose(len(goodDocs)))
	} else {
		rollback(bad, mask, -1, sym.Choose(len(goodDocs)))
	}
}

// rollback appends a good document unless first < 0, the bad one, another good one.
func rollback(bad []byte, mask, first, k int) {
	m1, m2 := mergerOf(3, mask), mergerOf(3, mask)
	if k := first; k >= 0 {
		n1, err1 := m1.Append(goodDoc(k))
		n2, err2 := m2.Append(goodDoc(k))
		sym.Assert(err1 == nil && err2 == nil && n1 == n2, "valid document refused")
	}
	_, err := m1.Append(bad)
	sym.Assume(err != nil)
	n1, err1 := m1.Append(goodDoc(k))
	n2, err2 := m2.Append(goodDoc(k))
	sym.Assert(n1 == n2 && err1 == nil && err2 == nil, "Append differs after a failed one")
	b1, err1 := m1.Finish()
	b2, err2 := m2.Finish()
	sym.Assert(err1 == nil && err2 == nil && eqBytes(b1, b2), "result differs after a failed Append")
	sym.Reach("end")
}

// C04_Rollback: arbitrary bytes behind a beginning that fills the tables.
func C04_Rollback() {
	pre := []string{"", "\x42\x62ab", "\x51\x62ab", "\x52\x27\x02ab\x01", "\x42\x2c\x61a\x50", "\x42\x32\x61a\x28\x2b\x01\x61x", "\x43\x62ab\x01", "\x28\x2b\x02\x62ab"}
	p := pre[sym.Choose(len(pre))]
	body := append([]byte(p), sym.Bytes(sym.UpTo(0, sym.Bound(1, 2)))...)
	checkRollback(exact(mkdoc(3, 0, body)), []int{0, 2, 6}[sym.Choose(3)])
}

// C04_RollbackAlpha: longer ones over the alphabets of objects and hashes.
func C04_RollbackAlpha() {
	checkRollback(alphaDoc(1+sym.Choose(2), sym.Bound(3, 4)), 2)
}

// C04_RollbackRefs: references to strings and classes that are shared with earlier documents.
func C04_RollbackRefs() {
	pre := []string{"\x43\x62ab", "\x45\x62ab", "\x52\x62ab\x01", "\x43\x51\x62ab\x02", "\x43\x2c\x61a\x50", "\x43\x32\x61a\x28\x2b\x01\x61x", "\x43\x27\x02ab", "\x44\x31\x62ab\x61a"}
	body := []byte(pre[sym.Choose(len(pre))])
	body = append(body, oneOf(sym.UpTo(2, sym.Bound(3, 4)), "\x2f\x29\x2e\x2d\x33\x02\x03\x04\x3f")...)
	first := []int{1, 2, 3, 4, 5}[sym.Choose(5)]
	rollback(exact(mkdoc(3, 0, body)), []int{0, 2, 3}[sym.Choose(3)], first, sym.Choose(len(goodDocs)))
}

// C04_Config: every configuration, and what happens after Finish.
func C04_Config() {
	m := new(sereal.Merger)
	if k := sym.Choose(4); k > 0 {
		m = mergerOf(k+1, 0)
	}
	m.ExpectedSize = uint(sym.UpTo(0, 8))
	if sym.Bool() {
		m.ExpectedSize = 300
	}
	m.CompressionThreshold = []int{-1, 0, 10, 12, 1000}[sym.Choose(5)]
	switch sym.Choose(4) {
	case 1:
		m.Compression = sereal.SnappyCompressor{Incremental: true}
	case 2:
		m.Compression = sereal.SnappyCompressor{}
	case 3:
		m.Compression = sereal.ZlibCompressor{}
	}
	if sym.Bool() {
		m.TopLevelElement = 2
	}
	doc := goodDoc([]int{0, 3, 7}[sym.Choose(3)])
	if sym.Bool() {
		doc = doc[:len(doc)-1]
	}
	_, err := m.Append(doc)
	if m.TopLevelElement == 2 {
		sym.Assert(err != nil, "illegal top-level element accepted")
	}
	out, err := m.Finish()
	if err == nil {
		n := len(out)
		cnt, err2 := m.Append(doc)
		sym.Assert(cnt == 0 && err2 != nil, "Append after Finish accepted")
		out2, err2 := m.Finish()
		sym.Assert(err2 == nil && len(out2) == n && eqBytes(out, out2), "the second Finish differs")
		sym.Reach("finished")
	}
	sym.Reach("end")
}
