//go:build clibs

package zzverif

import (
	"github.com/DataDog/zstd"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// The harnesses named *_Clibs are run with the build tag clibs, which adds the
// zstd codec to the package. The engine replaces it by a toy; replay uses the real one.

func zstdFrame(body []byte) []byte {
	z, err := zstd.Compress(nil, body)
	sym.Assert(err == nil, "zstd")
	return z
}

// zstdDoc frames a body; pad adds groups to its length, rest bytes follow it.
func zstdDoc(suffix, body []byte) []byte {
	z := zstdFrame(body)
	l := putVarint(nil, uint64(len(z)))
	for i := sym.Choose(3); i > 0; i-- {
		l[len(l)-1] |= 0x80
		l = append(l, 0)
	}
	z = append(l, z...)
	if sym.Bool() {
		z = append(z, 0, 1)
	}
	return exact(mkdocH(4, 4, suffix, z))
}

// C01_Clibs: arbitrary framing and frames.
func C01_Clibs() {
	var body []byte
	switch sym.Choose(3) {
	case 0:
		body = sym.Bytes(sym.UpTo(0, 4))
	case 1:
		body = append(longVarint(sym.UpTo(1, 10)), zstdFrame([]byte{1})...)
	case 2:
		body = append([]byte{sym.Byte() & 127}, zstdFrame(sym.Bytes(sym.UpTo(0, 2)))...)
	}
	b := exact(mkdoc(4, 4, body))
	var out interface{}
	sereal.NewDecoder().Unmarshal(b, &out)
	sereal.DecompressDocument(nil, b)
	sereal.NewMerger().Append(b)
	sym.Reach("end")
}

// C03_Clibs: zstd bodies, with and without a user header.
func C03_Clibs() {
	var suffix []byte
	switch sym.Choose(3) {
	case 1:
		suffix = []byte{1, sym.Byte()}
	case 2:
		suffix = append([]byte{1, tSHORT + 1}, sym.Bytes(1)...)
	}
	checkDecompress(zstdDoc(suffix, smallBody()))
}

// C13_Clibs: documents of type 4 are accepted in version 4 only.
func C13_Clibs() {
	z := zstdFrame([]byte("\x62ab"))
	doc := append(sym.Bytes(5), 0)
	doc = exact(append(append(doc, byte(len(z))), z...))
	sym.Assume(doc[4]>>4 == 4)
	ok := legal(doc)
	var out, h interface{}
	err := sereal.Unmarshal(doc, &out)
	sym.Assert((err == nil) == ok, "Unmarshal and the table disagree")
	err = sereal.NewDecoder().UnmarshalHeader(doc, &h)
	sym.Assert((err == nil) == ok, "UnmarshalHeader and the table disagree")
	_, err = sereal.DecompressDocument(nil, doc)
	sym.Assert((err == nil) == ok, "DecompressDocument and the table disagree")
	_, err = sereal.NewMerger().Append(doc)
	sym.Assert(ok || err != nil, "Append accepts an illegal header")
	sym.Reach("end")
}

// C15_Clibs: a zstd body decodes to what the raw body decodes to.
func C15_Clibs() {
	var body []byte
	switch sym.Choose(3) {
	case 0:
		body = []byte{tARRAYREF + 2, tSHORT + 1, sym.Byte(), sym.Byte() & 15}
	case 1:
		body = []byte{tHASHREF + 1, tSHORT + 1, sym.Byte(), tVARINT, sym.Byte() & 127}
	case 2:
		n := []int{1, 100, 127, 128, 129, 300}[sym.Choose(6)]
		body = putVarint([]byte{tBINARY}, uint64(n))
		for i := 0; i < n; i++ {
			body = append(body, byte(i))
		}
		body[len(body)-1] = sym.Byte()
	}
	doc := zstdDoc(nil, body)
	var x, y interface{}
	sym.Assert(sereal.Unmarshal(exact(mkdoc(4, 0, body)), &x) == nil, "Unmarshal fails")
	sym.Assert(sereal.Unmarshal(doc, &y) == nil, "Unmarshal of the compressed document fails")
	sym.Assert(same(x, y, 0), "value changed")
	sym.Reach("end")
}

// C15_EncodeClibs: no version the encoder writes has zstd: it is refused.
func C15_EncodeClibs() {
	e := encoderV(sym.UpTo(1, 3))
	e.Compression = sereal.ZstdCompressor{Level: sym.UpTo(0, 3)}
	e.CompressionThreshold = 0
	b, err := e.Marshal([]interface{}{sym.Str(1), 1})
	sym.Assert(err != nil && b == nil, "illegal compressor accepted")
	sym.Reach("refused")
}

// C23_Clibs: a document allocates no more than its bytes and what they inflate to allow.
func C23_Clibs() {
	var body []byte
	switch sym.Choose(2) {
	case 0:
		body = longVarint(sym.UpTo(1, 10))
	case 1:
		body = append(putVarint(nil, uint64(sym.Byte()&127)|uint64(sym.Byte())<<30), zstdFrame([]byte{tARRAY, sym.Byte(), 1, 1})...)
	}
	doc := exact(mkdoc(4, 4, body))
	sym.AllocLimit(4096 + 64*len(doc))
	var out interface{}
	sereal.Unmarshal(doc, &out)
	sym.Reach("end")
}
