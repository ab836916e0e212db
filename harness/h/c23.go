package zzverif

import (
	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// limited runs f with single allocations limited to a multiple of n.
func limited(n int, f func()) {
	sym.AllocLimit(64*n + 4096)
	f()
	sym.AllocLimit(0)
	sym.Reach("end")
}

// claim is a varint of one of the interesting lengths, with any value.
func claim() []byte { return longVarint([]int{1, 2, 3, 4, 5, 9, 10}[sym.Choose(sym.Bound(7, 7))]) }

// C23_Untyped: any claimed length wherever one may stand.
func C23_Untyped() {
	p := varintPrefixes[sym.Choose(len(varintPrefixes))]
	body := append([]byte(p), claim()...)
	body = append(body, sym.Bytes(sym.UpTo(0, 1))...)
	doc := exact(mkdoc(sym.UpTo(1, 2), 0, body))
	d := decoderOpts()
	limited(len(doc), func() {
		var out interface{}
		d.Unmarshal(doc, &out)
	})
}

// C23_Bytes: every short body.
func C23_Bytes() {
	doc := exact(mkdoc(3, 0, sym.Bytes(sym.Bound(3, 4))))
	d := sereal.NewDecoder()
	d.PerlCompat = sym.Bool()
	limited(len(doc), func() {
		var out interface{}
		d.Unmarshal(doc, &out)
	})
}

// C23_Typed: the same into typed destinations.
func C23_Typed() {
	p := []string{"\x26", "\x27", "\x2a", "\x2b", "\x29", "\x2f", "\x28\x2b", "\x28\x2a", "\x51\x26", "\x51\x27", "\x51\x61B\x26", "\x51\x61E\x2a", "\x51\x61F\x2b", "\x51\x61C\x2b",
		"\x41\x2a", "\x41\x2b", "\x41\x26", "\x2c\x26", "\x2c\x61X\x2a", "\x32\x61X\x28\x2b\x01\x26", "\x32\x61X\x28\x2b"}[sym.Choose(21)]
	body := append([]byte(p), claim()...)
	doc := exact(mkdoc(3, 0, append(body, sym.Bytes(1)...)))
	ks := []int{3, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 18, 21, 22, 23, 26, 28, 31, 32}
	out := dest(ks[sym.Choose(len(ks))])
	d := sereal.NewDecoder()
	limited(len(doc), func() { d.Unmarshal(doc, out) })
}

// C23_Header: any claimed header length, any lengths in the header.
func C23_Header() {
	ver := sym.UpTo(1, 3)
	doc := append(magic(ver), byte(ver))
	if sym.Bool() {
		doc = append(doc, claim()...)
		doc = append(doc, sym.Bytes(2)...)
	} else {
		suffix := append([]byte{1, []byte{tBINARY, tARRAY, tHASH, tSTRUTF8}[sym.Choose(4)]}, claim()...)
		doc = append(doc, byte(len(suffix)))
		doc = append(append(doc, suffix...), 1)
	}
	doc = exact(doc)
	k := sym.Choose(4)
	limited(len(doc), func() {
		var h, v interface{}
		switch k {
		case 0:
			sereal.NewDecoder().UnmarshalHeader(doc, &h)
		case 1:
			sereal.NewDecoder().UnmarshalHeaderBody(doc, &h, &v)
		case 2:
			sereal.DecompressDocument(nil, doc)
		case 3:
			sereal.NewMerger().Append(doc)
		}
	})
}

// compressedClaim is a compressed document with arbitrary claims, n its length and that of its content.
func compressedClaim() (doc []byte, n int) {
	body := append([]byte{tSHORT + 3}, sym.Bytes(3)...)
	switch sym.Choose(7) {
	case 5: // the length of zlib's output, of input that is cut short or missing
		z := toyDeflate(body)
		z = z[:[]int{0, 1, len(z) / 2}[sym.Choose(3)]]
		doc = mkdoc(3, 3, append(append(claim(), byte(len(z))), z...))
	case 6: // the same for snappy
		z := append(claim(), append([]byte{byte(len(body)-1) << 2}, body...)...)
		z = z[:len(z)-[]int{1, 5}[sym.Choose(2)]]
		doc = mkdoc(2, 2, append([]byte{byte(len(z))}, z...))
	case 0: // the length of snappy's output
		doc = mkdoc(1, 1, append(claim(), append([]byte{byte(len(body)-1) << 2}, body...)...))
	case 1:
		z := append(claim(), append([]byte{byte(len(body)-1) << 2}, body...)...)
		doc = mkdoc(2, 2, append([]byte{byte(len(z))}, z...))
	case 2: // the length of its input
		doc = mkdoc(2, 2, append(claim(), snappyBlock(body)...))
	case 3: // zlib's output
		z := toyDeflate(body)
		doc = mkdoc(3, 3, append(append(claim(), byte(len(z))), z...))
	case 4: // zlib's input
		z := toyDeflate(body)
		doc = mkdoc(3, 3, append(append([]byte{byte(len(body))}, claim()...), z...))
	}
	return exact(doc), len(doc) + len(body)
}

// C23_Compressed: any claim about compressed data.
func C23_Compressed() {
	doc, n := compressedClaim()
	var dst []byte
	if sym.Bool() {
		dst = make([]byte, 3, 5)
	}
	k := sym.Choose(3)
	limited(n, func() {
		switch k {
		case 0:
			var out interface{}
			sereal.Unmarshal(doc, &out)
		case 1:
			sereal.DecompressDocument(dst, doc)
		case 2:
			sereal.NewMergerV3().Append(doc)
		}
	})
}

// C23_Inside: any claim in the content of a compressed document.
func C23_Inside() {
	body := append([]byte{[]byte{tBINARY, tARRAY, tHASH, tSTRUTF8}[sym.Choose(4)]}, claim()...)
	body = append(body, 1)
	var doc []byte
	switch sym.Choose(3) {
	case 0:
		doc = mkdoc(1, 1, snappyBlock(body))
	case 1:
		z := snappyBlock(body)
		doc = mkdoc(2, 2, append([]byte{byte(len(z))}, z...))
	case 2:
		z := toyDeflate(body)
		doc = mkdoc(3, 3, append([]byte{byte(len(body)), byte(len(z))}, z...))
	}
	doc = exact(doc)
	merge := sym.Bool()
	limited(len(doc)+len(body), func() {
		if merge {
			sereal.NewMerger().Append(doc)
			return
		}
		var out interface{}
		sereal.Unmarshal(doc, &out)
	})
}

// C23_Merger: any claim in an appended document.
func C23_Merger() {
	p := varintPrefixes[sym.Choose(len(varintPrefixes))]
	body := append([]byte(p), claim()...)
	body = append(body, sym.Bytes(1)...)
	ver := sym.UpTo(1, 3)
	doc := exact(mkdoc(ver, 0, body))
	m := mergerOf(3, []int{0, 7}[sym.Choose(2)])
	limited(len(doc), func() {
		m.Append(doc)
		m.Finish()
	})
}
