package zzverif

import (
	"bytes"
	"compress/zlib"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// decodeAny decodes doc with d into an untyped target.
func decodeAny(d *sereal.Decoder, doc []byte) {
	var out interface{}
	err := d.Unmarshal(doc, &out)
	sym.ObsBool("ok", err == nil)
	sym.Reach("end")
}

// C01_Body: every raw body of up to N bytes, each offset base, every decoder option.
func C01_Body() {
	ver := sym.UpTo(1, 2)
	n := sym.UpTo(0, sym.Bound(3, 4))
	decodeAny(decoderOpts(), exact(mkdoc(ver, 0, sym.Bytes(n))))
}

// C01_Body4: one byte more with the default options.
func C01_Body4() {
	n := sym.Bound(4, 5)
	decodeAny(sereal.NewDecoder(), exact(mkdoc(3, 0, sym.Bytes(n))))
}

// C01_BodyPerl: the same with PerlCompat.
func C01_BodyPerl() {
	d := sereal.NewDecoder()
	d.PerlCompat = true
	decodeAny(d, exact(mkdoc(3, 0, sym.Bytes(4))))
}

// C01_Alpha: longer bodies over the tag alphabets, every option.
func C01_Alpha() {
	k := sym.Choose(5)
	d := decoderOpts()
	decodeAny(d, alphaDoc(k, sym.UpTo(3, sym.Bound(4, 6))))
}

// C01_AlphaPerl: one byte more, with PerlCompat.
func C01_AlphaPerl() {
	k := sym.Choose(5)
	d := sereal.NewDecoder()
	d.PerlCompat = true
	decodeAny(d, alphaDoc(k, sym.Bound(5, 7)))
}

// longVarint is a varint of exactly n bytes, the last one arbitrary.
func longVarint(n int) []byte {
	v := sym.Bytes(n)
	for i := 0; i+1 < n; i++ {
		sym.Assume(v[i] >= 0x80)
	}
	return v
}

// tags with a varint behind them, in the places they may stand
var varintPrefixes = []string{
	"\x20", "\x21", "\x26", "\x27", "\x29", "\x2a", "\x2b", "\x2d", "\x2e", "\x2f", "\x33",
	"\x51\x26", "\x51\x27", "\x51\x2f", "\x51\x61k\x2f", "\x43\x61a\x26", "\x42\xa0\x01\x29", "\x42\x61a\x2e",
	"\x31\x26", "\x31\x61a\x27", "\x31\x2f", "\x2c\x26", "\x2c\x2f", "\x2c\x61a\x2b", "\x2c\x61a\x2a", "\x28\x2b", "\x30\x29",
	"\x32\x61a\x28\x2b", "\x32\x61a\x28\x2b\x01\x26", "\x32\x27", "\x42\x2c\x61a\x01\x2d",
}

// C01_Varint: a varint of any length and value in every place that takes one.
func C01_Varint() {
	p := varintPrefixes[sym.Choose(len(varintPrefixes))]
	n := []int{1, 2, 5, 8, 9, 10, 11}[sym.Choose(7)]
	body := append([]byte(p), longVarint(n)...)
	body = append(body, sym.Bytes(sym.UpTo(0, 1))...)
	decodeAny(decoderOpts(), exact(mkdoc(sym.UpTo(1, 2), 0, body)))
}

// C01_Document: every document of up to N bytes, header and body.
func C01_Document() {
	n := sym.UpTo(0, sym.Bound(8, 10))
	b := sym.Bytes(n)
	l := sereal.LooksLikeSereal(b)
	d := sereal.NewDecoder()
	var h, out interface{}
	var err error
	switch sym.Choose(3) {
	case 0:
		err = d.Unmarshal(b, &out)
	case 1:
		err = d.UnmarshalHeader(b, &h)
	case 2:
		err = d.UnmarshalHeaderBody(b, &h, &out)
	}
	sym.ObsBool("looks", l)
	sym.ObsBool("ok", err == nil)
	sym.Reach("end")
}

// C01_HeaderLength: any header length varint, few bytes behind it.
func C01_HeaderLength() {
	ver := 1 + sym.Choose(4)
	n := []int{1, 2, 5, 9, 10}[sym.Choose(5)]
	b := append(magic(ver), byte(ver))
	b = append(b, longVarint(n)...)
	b = exact(append(b, sym.Bytes(sym.UpTo(0, 1))...))
	sereal.LooksLikeSereal(b)
	d := decoderOpts()
	var h, out interface{}
	err := d.UnmarshalHeaderBody(b, &h, &out)
	sym.ObsBool("ok", err == nil)
	sym.Reach("end")
}

// C01_Header: every user header of up to N bytes and a body byte.
func C01_Header() {
	ver := sym.UpTo(2, 3)
	n := sym.UpTo(0, sym.Bound(3, 4))
	b := exact(mkdocH(ver, 0, sym.Bytes(n), sym.Bytes(sym.UpTo(0, 1))))
	d := decoderOpts()
	var h, out interface{}
	var err error
	if sym.Bool() {
		err = d.UnmarshalHeader(b, &h)
	} else {
		err = d.UnmarshalHeaderBody(b, &h, &out)
	}
	sym.ObsBool("ok", err == nil)
	sym.Reach("end")
}

// C01_Snappy: every payload of up to N bytes in both snappy framings.
func C01_Snappy() {
	typ := sym.UpTo(1, 2)
	n := sym.UpTo(0, sym.Bound(4, 6))
	body := sym.Bytes(n)
	if typ == 2 && sym.Bool() {
		body = append([]byte{byte(n)}, body...)
	}
	decodeAny(sereal.NewDecoder(), exact(mkdoc(1, typ, body)))
}

// C01_Zlib: arbitrary framing of a zlib stream (the stream is a toy one while
// executing symbolically).
func C01_Zlib() {
	var body []byte
	switch sym.Choose(3) {
	case 0: // anything
		body = sym.Bytes(sym.UpTo(0, 4))
	case 1: // long varints
		body = append(longVarint(sym.UpTo(1, 10)), sym.Bytes(2)...)
	case 2: // a well-formed stream behind arbitrary lengths
		z := toyDeflate(sym.Bytes(sym.UpTo(0, 2)))
		l := sym.Bytes(2)
		sym.Assume(l[0] < 128 && l[1] < 128)
		body = append(l, z...)
	}
	b := exact(mkdoc(sym.UpTo(3, 4), 3, body))
	var out interface{}
	sereal.NewDecoder().Unmarshal(b, &out)
	sym.Reach("end")
}

// C01_Zstd: arbitrary framing; the build without cgo refuses the stream itself.
func C01_Zstd() {
	var body []byte
	if sym.Bool() {
		body = sym.Bytes(sym.UpTo(0, 4))
	} else {
		body = append(longVarint(sym.UpTo(1, 10)), sym.Bytes(2)...)
	}
	b := exact(mkdoc(4, 4, body))
	var out interface{}
	sereal.NewDecoder().Unmarshal(b, &out)
	sym.Reach("end")
}

// toyDeflate compresses with compress/zlib, which the engine replaces by a toy.
func toyDeflate(b []byte) []byte {
	var buf bytes.Buffer
	w := zlib.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}
