package zzverif

import (
	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// Alphabets: bytes that act as tags, offsets, counts and data at once.
const (
	// references to earlier items, tracked and untracked
	alphaRef = "\x01\x02\x03\x05\x28\xa8\x29\x2e\x2f\xaf\x30\x81\x42\xc1\x25\xa5\x3f"
	// objects, class names, frozen objects
	alphaObj = "\x01\x02\x03\x2c\xac\x2d\x32\x33\x2f\x61\x28\x2b\x41\x51\x60"
	// hashes, keys, copies of keys
	alphaHash = "\x01\x02\x03\x04\x2a\xaa\x51\x52\x61\xe1\x27\x26\x2f\x3f\x60"
	// scalars and lengths
	alphaNum = "\x00\x1f\x20\x21\xa0\x80\xff\x7f\x01\x02\x22\x3a\x3b\x39\x43\x2b"
	// regexps, strings
	alphaStr = "\x01\x02\x31\xb1\x26\x27\x61\x62\x60\x2f\x42\x80\x00\x3f"
)

func alphaSet(k int) string {
	switch k {
	case 0:
		return alphaRef
	case 1:
		return alphaObj
	case 2:
		return alphaHash
	case 3:
		return alphaNum
	}
	return alphaStr
}

func perlOpts() (d *sereal.Decoder, perl, noref bool) {
	d = decoderOpts()
	return d, d.PerlCompat, d.DisableReferentialIntegrity
}

// checkDoc decodes doc and compares with the reference.
func checkValid(doc []byte) {
	n, st := refDoc(doc)
	sym.Assume(st == valid)
	d, perl, noref := perlOpts()
	var out interface{}
	err := d.Unmarshal(doc, &out)
	sym.Assert(err == nil, "valid document rejected")
	sym.Assert(matches(n, out, perl, noref, 0), "wrong value")
	sym.Reach("end")
}

func checkInvalid(doc []byte) {
	_, st := refDoc(doc)
	sym.Assume(st == invalid)
	d := decoderOpts()
	var out interface{}
	err := d.Unmarshal(doc, &out)
	sym.Assert(err != nil, "invalid document accepted")
	sym.Reach("end")
}

// C11_Bytes: every raw body of up to n arbitrary bytes, versions 1 to 4.
func C11_Bytes() {
	ver := sym.UpTo(1, 4)
	checkValid(exact(mkdoc(ver, 0, sym.Bytes(sym.UpTo(1, sym.Bound(2, 3))))))
}

// alphaDoc is a raw version 1 or 2 document of n bytes of alphabet k.
func alphaDoc(k, n int) []byte {
	ver := sym.UpTo(1, 2)
	set := []byte(alphaSet(k))
	if ver == 1 {
		// offsets of version 1 count from the start of the document
		for i, c := range set {
			if c > 0 && c < 8 {
				set[i] = c + 5
			}
		}
	}
	return exact(mkdoc(ver, 0, oneOf(n, string(set))))
}

// C11_Ref etc.: every body of up to n bytes of an alphabet.
func C11_Ref() {
	checkValid(alphaDoc(0, sym.UpTo(3, sym.Bound(5, 7))))
}

func C11_Obj() {
	checkValid(alphaDoc(1, sym.UpTo(3, sym.Bound(6, 7))))
}

func C11_Hash() {
	checkValid(alphaDoc(2, sym.UpTo(3, sym.Bound(6, 7))))
}

func C11_Num() {
	checkValid(alphaDoc(3, sym.UpTo(3, sym.Bound(5, 6))))
}

func C11_Str() {
	checkValid(alphaDoc(4, sym.UpTo(3, sym.Bound(6, 7))))
}

// C11_Strings: strings of every length class in every place a string can stand.
func C11_Strings() {
	ver := sym.UpTo(1, 4)
	s := filled(classLen())
	kind, k := sym.Choose(3), sym.Choose(3)
	checkValid(exact(mkdoc(ver, 0, bodyString(ver, sym.Choose(bodyStrings), s, kind, k))))
}

// C11_Counts: containers of every size class.
func C11_Counts() {
	ver := sym.UpTo(1, 4)
	checkValid(exact(mkdoc(ver, 0, bodyCount(countLen(), sym.Choose(6), sym.Choose(3)))))
}

// far is a body in which an item stands behind n bytes of padding or data and
// another one refers back to it over n more.
func far(ver, n, kind int) []byte {
	fill := func(b []byte) []byte {
		if kind&1 == 0 {
			for i := 0; i < n; i++ {
				b = append(b, tPAD)
			}
			return append(b, 1)
		}
		return putString(b, filled(n), 1, 0)
	}
	b := fill([]byte{tARRAY, 4})
	ref := uint64(len(b) + offBase(ver))
	switch kind >> 1 {
	case 0:
		b = append(b, tSHORT+2, sym.Byte(), 'x')
		b = append(fill(b), tCOPY)
	case 1:
		b = append(b, trackBit|tARRAY, 1, sym.Byte()&15)
		b = append(fill(b), tREFP)
	case 2:
		b = append(b, trackBit|tVARINT, 0x80|sym.Byte(), 1)
		b = append(fill(b), tALIAS)
	case 3:
		b = append(b, tOBJECT, tSHORT+1, sym.Byte(), tARRAYREF)
		b = append(fill(b), tOBJECTV)
		return append(putVarint(b, ref+1), tHASHREF)
	}
	return putVarint(b, ref)
}

func farLen() int {
	n := []int{0, 1, 56, 57, 58, 59, 60, 61, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 300}
	if sym.Tier() > 0 {
		n = append(n, 8180, 8190, 16370, 16376, 16380, 16390, 20000)
	}
	return n[sym.Choose(len(n))]
}

// C11_Far: offsets of one, two and three groups.
func C11_Far() {
	ver := sym.UpTo(1, 4)
	checkValid(exact(mkdoc(ver, 0, far(ver, farLen(), sym.Choose(8)))))
}

// C11_Varints: every number in any number of groups.
func C11_Varints() {
	ver := sym.UpTo(1, 4)
	b := []byte{tVARINT}
	if sym.Bool() {
		b[0] = tZIGZAG
	}
	n := sym.UpTo(1, 10)
	for i := 1; i < n; i++ {
		b = append(b, 0x80|sym.Byte())
	}
	checkValid(exact(mkdoc(ver, 0, append(b, sym.Byte()&0x7f))))
}

// C11_Tracked: flagged items of every kind, referred to or not, have the value of unflagged ones.
func C11_Tracked() {
	ver := sym.UpTo(1, 4)
	var it []byte
	switch k := sym.Choose(10); k {
	case 0, 1:
		it = append([]byte{[]byte{tVARINT, tZIGZAG}[k]}, longVarint([]int{1, 5, 9, 10}[sym.Choose(4)])...)
	case 2:
		it = append([]byte{tFLOAT}, sym.Bytes(4)...)
	case 3:
		it = append([]byte{tDOUBLE}, sym.Bytes(8)...)
	case 4:
		it = putString(nil, sym.Bytes(2), sym.Choose(3), sym.Choose(2))
	case 5:
		it = []byte{sym.Byte() & 0x1f}
	case 6:
		it = []byte{[]byte{tUNDEF, tCUNDEF, tTRUE, tFALSE, tARRAYREF, tHASHREF}[sym.Choose(6)]}
	case 7:
		it = append([]byte{tREFN, tVARINT}, longVarint(10)...)
	case 8:
		it = append([]byte{tOBJECT, tSHORT + 1, 'K', tVARINT}, longVarint(10)...)
	case 9:
		it = append([]byte{tARRAY, 1, tVARINT | trackBit}, longVarint(10)...)
	}
	it[0] |= trackBit
	b := []byte{tARRAYREF + 2}
	at := 1
	if sym.Bool() {
		b = []byte{tARRAYREF + 2, tPAD | trackBit, tPAD}
		at = 3
	}
	b = append(b, it...)
	off := byte(at + offBase(ver))
	switch sym.Choose(4) {
	case 0:
		b = append(b, 1)
	case 1:
		b = append(b, tREFP, off)
	case 2:
		b = append(b, tALIAS, off)
	case 3:
		b = append(b, tCOPY, off)
	}
	checkValid(exact(mkdoc(ver, 0, b)))
}
