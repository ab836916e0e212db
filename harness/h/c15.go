package zzverif

import (
	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// pickCompression sets a compressor; kind is 0 to 3, legal whether it is legal for ver.
func pickCompression(e *sereal.Encoder, ver int) (typ byte, legal bool) {
	switch sym.Choose(5) {
	case 0:
		e.Compression = sereal.SnappyCompressor{}
		return 1, ver == 1
	case 1:
		e.Compression = sereal.SnappyCompressor{Incremental: true}
		return 2, true
	case 2:
		e.Compression = sereal.ZlibCompressor{}
		return 3, ver >= 3
	case 3:
		e.Compression = sereal.ZlibCompressor{Level: sereal.ZlibDefaultCompression}
		return 3, ver >= 3
	}
	e.Compression = sereal.ZlibCompressor{Level: []int{sereal.ZlibBestSpeed, 5, sereal.ZlibBestCompression}[sym.Choose(3)]}
	return 3, ver >= 3
}

// checkCompressed compares the compressed encoding of v with the plain one.
func checkCompressed(ver int, v interface{}, threshold func(n int) int) {
	e := encoderV(ver)
	e.PerlCompat = sym.Bool()
	plain, err := e.Marshal(v)
	sym.Assert(err == nil, "Marshal fails")
	n := len(plain) - 6
	typ, legal := pickCompression(e, ver)
	th := threshold(n)
	e.CompressionThreshold = th
	b, err := e.Marshal(v)
	if th != 0 && n < th {
		sym.Assert(err == nil, "Marshal fails")
		sym.Assert(eqBytes(b, plain), "short body is not left raw")
		sym.Reach("raw")
		return
	}
	if !legal {
		sym.Assert(err != nil && b == nil, "illegal compressor accepted")
		sym.Reach("illegal")
		return
	}
	sym.Assert(err == nil, "Marshal fails")
	sym.Assert(b[4] == typ<<4|byte(ver), "wrong document type")
	d := sereal.NewDecoder()
	d.PerlCompat = e.PerlCompat
	var x, y interface{}
	sym.Assert(d.Unmarshal(exact(plain), &x) == nil, "Unmarshal fails")
	sym.Assert(d.Unmarshal(exact(b), &y) == nil, "Unmarshal of the compressed document fails")
	sym.Assert(same(x, y, 0), "value changed")
	r, err := sereal.DecompressDocument(nil, exact(b))
	sym.Assert(err == nil && eqBytes(r, plain), "decompressed document differs")
	sym.Reach("compressed")
}

// C15_Trees: small values under every compressor and threshold.
func C15_Trees() {
	ver := sym.UpTo(1, 3)
	var v interface{}
	switch sym.Choose(6) {
	case 0:
		v = leaf(6)
	case 1:
		v = []interface{}{sym.Str(1), int(i16()), nil}
	case 2:
		v = map[string]interface{}{sym.Str(2): leaf(2)}
	case 3:
		v = []interface{}{map[string]interface{}{"k": sym.Str(1)}, map[string]interface{}{"k": 1}}
	case 4:
		v = []interface{}{}
	case 5:
		x := int(i16())
		v = []interface{}{&x, &x}
	}
	checkCompressed(ver, v, func(n int) int {
		return []int{0, 1, n - 1, n, n + 1, 1024}[sym.Choose(6)]
	})
}

// C15_Lengths: bodies of every length class, repetitive so that they shrink.
func C15_Lengths() {
	ver := sym.UpTo(1, 3)
	n := []int{20, 64, 125, 126, 127, 128, 129, 1021, 1022, 1023, 1024}[sym.Choose(11)]
	s := make([]byte, n)
	for i := range s {
		s[i] = "Sereal "[i%7]
	}
	s[n-1] = sym.Byte()
	s[n-2] = sym.Byte()
	checkCompressed(ver, s, func(l int) int {
		return []int{0, 1024, 1026, l, l + 1}[sym.Choose(5)]
	})
}

// C15_Defaults: the encoders' own threshold is 1024 bytes.
func C15_Defaults() {
	ver := sym.UpTo(1, 3)
	e := encoderV(ver)
	typ, legal := pickCompression(e, ver)
	n := sym.UpTo(1018, 1026)
	s := make([]byte, n)
	s[n-1] = sym.Byte()
	b, err := e.Marshal(s)
	body := n + 3
	if body < 1024 {
		sym.Assert(err == nil && b[4]>>4 == 0, "short body is not left raw")
		sym.Reach("raw")
		return
	}
	if !legal {
		sym.Assert(err != nil, "illegal compressor accepted")
		sym.Reach("illegal")
		return
	}
	sym.Assert(err == nil && b[4]>>4 == typ, "long body is left raw")
	var out interface{}
	sym.Assert(sereal.Unmarshal(b, &out) == nil, "Unmarshal fails")
	x, ok := out.([]byte)
	sym.Assert(ok && eqBytes(x, s), "value changed")
	sym.Reach("compressed")
}

// C15_Header: compression leaves the user header alone.
func C15_Header() {
	ver := sym.UpTo(2, 3)
	e := encoderV(ver)
	e.CompressionThreshold = 0
	typ, legal := pickCompression(e, ver)
	sym.Assume(legal)
	h := string(longBytes([]int{0, 1, 31, 125, 126, 127}[sym.Choose(6)]))
	b, err := e.MarshalWithHeader(h, []interface{}{sym.Str(1), 1})
	sym.Assert(err == nil && b[4]>>4 == typ, "Marshal fails")
	var oh, ov interface{}
	sym.Assert(sereal.NewDecoder().UnmarshalHeaderBody(exact(b), &oh, &ov) == nil, "UnmarshalHeaderBody fails")
	sym.Assert(oh == h, "header changed")
	a, ok := ov.([]interface{})
	sym.Assert(ok && len(a) == 2 && a[1] == 1, "body changed")
	sym.Reach("end")
}

// C15_Level: a level the codec does not know is refused.
func C15_Level() {
	e := sereal.NewEncoderV3()
	e.CompressionThreshold = 0
	l := int(int8(sym.Byte()))
	e.Compression = sereal.ZlibCompressor{Level: l}
	b, err := e.Marshal("ab")
	if l < -1 || l > 9 {
		sym.Assert(err != nil && b == nil, "unknown level accepted")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "Marshal fails")
	var out interface{}
	sym.Assert(sereal.Unmarshal(b, &out) == nil && out == "ab", "value changed")
	sym.Reach("end")
}

// C15_Decode: documents whose framing is not minimal, or followed by more bytes.
func C15_Decode() {
	body := []byte{tARRAYREF + 2, tSHORT + 1, sym.Byte(), sym.Byte() & 15}
	pad := sym.Choose(3)
	long := func(n int) []byte {
		b := []byte{byte(n)}
		for i := 0; i < pad; i++ {
			b[len(b)-1] |= 0x80
			b = append(b, 0)
		}
		return b
	}
	var doc []byte
	switch sym.Choose(3) {
	case 0:
		doc = mkdoc(1, 1, snappyBlock(body))
	case 1:
		z := snappyBlock(body)
		doc = mkdoc(sym.UpTo(1, 4), 2, append(long(len(z)), z...))
	case 2:
		z := toyDeflate(body)
		doc = mkdoc(sym.UpTo(3, 4), 3, append(append(long(len(body)), long(len(z))...), z...))
	}
	ver := int(doc[4] & 15)
	var x, y interface{}
	sym.Assert(sereal.Unmarshal(exact(mkdoc(ver, 0, body)), &x) == nil, "Unmarshal fails")
	sym.Assert(sereal.Unmarshal(exact(doc), &y) == nil, "Unmarshal of the compressed document fails")
	sym.Assert(same(x, y, 0), "value changed")
	sym.Reach("end")
}

// snappyBlock is an uncompressible block of the snappy format.
func snappyBlock(b []byte) []byte {
	z := []byte{byte(len(b)), byte(len(b)-1) << 2}
	return append(z, b...)
}
