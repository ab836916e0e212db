package zzverif

import (
	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// sameErr reports whether two calls failed alike.
func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Error() == b.Error()
}

// probes are documents that depend on anything a decoder might remember.
var probes = []string{
	"\x62ab", "\x41\x2f\x01", "\x42\x51\x61k\x01\x51\x2f\x03\x02", "\x42\xe1x\x29\x02",
	"\x42\x61x\x29\x02", "\x42\x61x\x2f\x02", "\x2c\x61c\x50", "\x42\x2c\x61c\x50\x2d\x03\x50",
	"\x29\x01", "\x2e\x01", "\x52\x61A\x01\x61H\x3a", "\x32\x61c\x28\x2b\x01\x61x", "\x42\x2f\x01\x01", "\x42\x43\x01\x02\x03\x2f\x02",
	"\x42\x51\x61k\x01\x51\x61k\x2f\x03",
}

func target(k int) interface{} {
	switch k {
	case 0:
		return new(interface{})
	case 1:
		return new([]interface{})
	case 2:
		return new(nSmall)
	case 3:
		return new([]map[string]int)
	case 4:
		return new(string)
	}
	return new(map[string]interface{})
}

// content of a target.
func content(t interface{}) interface{} {
	switch p := t.(type) {
	case *interface{}:
		return *p
	case *[]interface{}:
		return *p
	case *nSmall:
		return []interface{}{int(p.A), p.H}
	case *[]map[string]int:
		var r []interface{}
		for _, m := range *p {
			w := map[string]interface{}{}
			for k, v := range m {
				w[k] = v
			}
			r = append(r, w)
		}
		return r
	case *string:
		return *p
	case *map[string]interface{}:
		return *p
	}
	return nil
}

// decodeBoth decodes doc with the used decoder and with a fresh one.
func decodeBoth(used, fresh *sereal.Decoder, doc []byte, k int) {
	a, b := target(k), target(k)
	e1 := used.Unmarshal(doc, a)
	e2 := fresh.Unmarshal(doc, b)
	sym.Assert(sameErr(e1, e2), "error depends on earlier calls")
	sym.MapOrder(0)
	sym.Assert(same(content(a), content(b), 0), "value depends on earlier calls")
	sym.Reach("end")
}

func twoDecoders() (a, b *sereal.Decoder) {
	a = decoderOpts()
	b = sereal.NewDecoder()
	b.PerlCompat, b.DisableReferentialIntegrity = a.PerlCompat, a.DisableReferentialIntegrity
	return a, b
}

// C18_DecodeBytes: any first document, then each probe.
func C18_DecodeBytes() {
	a, b := twoDecoders()
	first := exact(mkdoc(3, 0, sym.Bytes(sym.UpTo(1, sym.Bound(2, 3)))))
	k := sym.Choose(2) * 2
	a.Unmarshal(first, target(k))
	decodeBoth(a, b, exact(mkdoc(3, 0, []byte(probes[sym.Choose(len(probes))]))), 0)
}

// C18_DecodeAlpha: longer first documents over the alphabets, that fail anywhere.
func C18_DecodeAlpha() {
	a, b := twoDecoders()
	first := alphaDoc(sym.Choose(3), sym.UpTo(3, sym.Bound(4, 5)))
	t := []int{0, 1, 5}[sym.Choose(3)]
	a.Unmarshal(first, target(t))
	for _, p := range []string{"\x42\x51\x61k\x01\x51\x2f\x03\x02", "\x42\x61x\x29\x02", "\x42\x43\x01\x02\x03\x2f\x02"} {
		decodeBoth(a, b, exact(mkdoc(3, 0, []byte(p))), 0)
		if sym.Tier() > 0 {
			decodeBoth(a, b, exact(mkdoc(3, 0, []byte(p))), 1)
		}
	}
}

// C18_DecodePairs: every pair of probes and pair of targets.
func C18_DecodePairs() {
	a, b := twoDecoders()
	first := exact(mkdoc(sym.UpTo(1, 3), 0, []byte(probes[sym.Choose(len(probes))])))
	k := sym.Choose(6)
	t, u := target(k), target(k)
	e1 := a.Unmarshal(first, t)
	decodeBoth(a, b, exact(mkdoc(3, 0, []byte(probes[sym.Choose(len(probes))]))), sym.Choose(6))
	c := sereal.NewDecoder()
	c.PerlCompat, c.DisableReferentialIntegrity = a.PerlCompat, a.DisableReferentialIntegrity
	e2 := c.Unmarshal(first, u)
	sym.Assert(sameErr(e1, e2), "an earlier error has changed")
	sym.Assert(e1 != nil || same(content(t), content(u), 0), "an earlier value has changed")
}

// C18_DecodeCut: a document cut off anywhere, then a whole one.
func C18_DecodeCut() {
	a, b := twoDecoders()
	doc := mkdoc(3, 0, []byte(probes[sym.Choose(len(probes))]))
	n := sym.UpTo(0, len(doc))
	a.Unmarshal(exact(doc[:n]), target([]int{0, 2}[sym.Choose(2)]))
	decodeBoth(a, b, exact(mkdoc(3, 0, []byte(probes[sym.Choose(len(probes))]))), []int{0, 2}[sym.Choose(2)])
}

// C18_DecodeHeader: header and body calls in any order.
func C18_DecodeHeader() {
	a, b := twoDecoders()
	doc := exact(mkdocH(3, 0, []byte("\x01\x42\x51\x61k\x01\x51\x2f\x03\x02"), []byte("\x42\xe1x\x29\x02")))
	h := sym.Choose(3)
	var v, w interface{}
	bad := exact(mkdocH(3, 0, append([]byte{1}, sym.Bytes(2)...), sym.Bytes(1)))
	switch h {
	case 0:
		a.UnmarshalHeader(bad, &v)
	case 1:
		a.Unmarshal(bad, &v)
	case 2:
		a.UnmarshalHeaderBody(bad, &v, &w)
	}
	var h1, h2, b1, b2 interface{}
	e1 := a.UnmarshalHeaderBody(doc, &h1, &b1)
	e2 := b.UnmarshalHeaderBody(doc, &h2, &b2)
	sym.Assert(sameErr(e1, e2) && e1 == nil, "error depends on earlier calls")
	sym.Assert(same(h1, h2, 0) && same(b1, b2, 0), "value depends on earlier calls")
	sym.Reach("end")
}

// values to encode one after the other; the last ones fail.
func probeValue(k int, s string) interface{} {
	x := 300
	p := &x
	switch k {
	case 0:
		return map[string]interface{}{s: 1}
	case 1:
		return []interface{}{p, p}
	case 2:
		return nIn{1, s}
	case 3:
		return []interface{}{map[string]interface{}{"k": s}, map[string]interface{}{s: "k"}}
	case 4:
		return &nIn{2, s}
	case 5:
		return s
	case 6:
		return frz{b: []byte(s)}
	case 7:
		return sereal.PerlObject{Class: s, Reference: p}
	case 8:
		return []interface{}{map[string]interface{}{s: 1}, frzBad{1}}
	case 9:
		return []interface{}{p, nIn{1, s}, func() {}}
	}
	return []interface{}{nIn{1, s}, []interface{}{[]interface{}{[]interface{}{p}}}}
}

// C18_Encode: every pair of values, the first of which may fail.
func C18_Encode() {
	sym.MapOrder(0)
	ver := sym.UpTo(1, 3)
	a, b := encoderV(ver), encoderV(ver)
	a.PerlCompat = sym.Bool()
	a.DisableDedup = sym.Bool()
	if sym.Bool() {
		a.MaxRecursionDepth = 4
	}
	cfg := sym.Choose(3)
	sym.Assume(cfg == 0 || !a.PerlCompat && a.MaxRecursionDepth == 0)
	switch cfg {
	case 1:
		a.ExpectedSize = 8
	case 2:
		sym.Assume(!a.DisableDedup && ver == 3)
		a.Compression, a.CompressionThreshold = sereal.SnappyCompressor{Incremental: true}, 0
	}
	b.PerlCompat, b.DisableDedup, b.MaxRecursionDepth = a.PerlCompat, a.DisableDedup, a.MaxRecursionDepth
	b.ExpectedSize, b.Compression, b.CompressionThreshold = a.ExpectedSize, a.Compression, a.CompressionThreshold
	s := sym.Str(1)
	if cfg == 2 {
		s = "s" // the compressor looks at every byte
	}
	first := probeValue(sym.Choose(11), s)
	var doc []byte
	if sym.Bool() {
		doc, _ = a.MarshalWithHeader(probeValue(sym.Choose(3), s), first)
	} else {
		doc, _ = a.Marshal(first)
	}
	was := clone(doc)
	n := sym.Choose(11)
	sym.Assume(n != 2 && n != 4) // two fields, encoded in any order
	t := "t"
	if cfg < 2 {
		t = sym.Str(1)
	}
	second := probeValue(n, t)
	var x, y []byte
	var e1, e2 error
	if cfg == 1 {
		x, e1 = a.MarshalWithHeader(t, second)
		y, e2 = b.MarshalWithHeader(t, second)
	} else {
		x, e1 = a.Marshal(second)
		y, e2 = b.Marshal(second)
	}
	sym.Assert(sameErr(e1, e2), "error depends on earlier calls")
	if n < 9 {
		sym.Assert(eqBytes(x, y), "document depends on earlier calls")
	}
	sym.Assert(eqBytes(doc, was), "an earlier document has changed")
	sym.Reach("end")
}

// C18_EncodeStruct: structs of different types in turn, through one type cache.
func C18_EncodeStruct() {
	e := encoderV(sym.UpTo(1, 3))
	d := sereal.NewDecoder()
	for i := 0; i < 2; i++ {
		switch sym.Choose(4) {
		case 0:
			v, out := nIn{i16(), sym.Str(1)}, nIn{}
			roundtrip(e, d, v, &out)
			sym.Assert(v == out, "value changed")
		case 1:
			v, out := nSwap{int8(sym.Byte() & 15), 2}, nSwap{}
			roundtrip(e, d, v, &out)
			sym.Assert(v == out, "value changed")
		case 2:
			type nIn struct {
				Y int8 `sereal:"X"`
			}
			v, out := nIn{int8(sym.Byte() & 15)}, nIn{}
			roundtrip(e, d, v, &out)
			sym.Assert(v == out, "value changed")
		case 3:
			v, out := nLow{int8(sym.Byte() & 15), 3}, nLow{}
			roundtrip(e, d, v, &out)
			sym.Assert(v == out, "value changed")
		}
	}
	sym.Reach("end")
}

// C18_Defaults: the package functions remember nothing either.
func C18_Defaults() {
	sym.MapOrder(0)
	s, t := sym.Str(1), sym.Str(1)
	n, m := sym.Choose(11), sym.Choose(8)
	sym.Assume(m != 2 && m != 4)
	b, err := sereal.Marshal(probeValue(n, s))
	var v interface{}
	if err == nil {
		sereal.Unmarshal(b[:len(b)-sym.Choose(2)], &v)
	}
	b, err = sereal.Marshal(probeValue(m, t))
	w, err2 := sereal.NewEncoderV3().Marshal(probeValue(m, t))
	sym.Assert(err == nil && err2 == nil && eqBytes(b, w), "document depends on earlier calls")
	var x, y interface{}
	sym.Assert(sereal.Unmarshal(b, &x) == nil && sereal.NewDecoder().Unmarshal(w, &y) == nil, "Unmarshal fails")
	sym.Assert(same(x, y, 0), "value depends on earlier calls")
	sym.Reach("end")
}
