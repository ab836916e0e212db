package zzverif

import (
	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// checkHB encodes header and body together and decodes them in every way.
func checkHB(e *sereal.Encoder, ver int, h, v interface{}) {
	b, err := e.MarshalWithHeader(h, v)
	sym.Assert(err == nil, "Marshal fails")
	sym.MapOrder(0)
	doc := exact(b)
	newDec := func() *sereal.Decoder {
		d := sereal.NewDecoder()
		d.PerlCompat = e.PerlCompat
		return d
	}
	hasHeader := ver > 1 && h != nil
	var oh, ov interface{}
	sym.Assert(newDec().UnmarshalHeader(doc, &oh) == nil, "UnmarshalHeader fails")
	sym.Assert(newDec().Unmarshal(doc, &ov) == nil, "Unmarshal fails")
	if hasHeader {
		sym.Assert(eqTree(h, oh), "header changed")
	} else {
		sym.Assert(oh == nil, "header out of nothing")
	}
	sym.Assert(eqTree(v, ov), "body changed")
	var bh, bv interface{}
	if !hasHeader {
		bh = "untouched"
	}
	sym.Assert(newDec().UnmarshalHeaderBody(doc, &bh, &bv) == nil, "UnmarshalHeaderBody fails")
	if hasHeader {
		sym.Assert(eqTree(h, bh), "header changed")
	} else {
		sym.Assert(bh == "untouched", "header target touched")
	}
	sym.Assert(eqTree(v, bv), "body changed")
	sym.Reach("end")
}

func hbEncoder() (*sereal.Encoder, int) {
	oneOrder()
	ver := sym.UpTo(1, 3)
	e := encoderV(ver)
	e.PerlCompat = sym.Bool()
	return e, ver
}

// C14_Pairs: every pair of small trees.
func C14_Pairs() {
	e, ver := hbEncoder()
	h := tree(1, sym.Bound(2, 6))
	v := tree(1, 2)
	sym.MapOrder(0)
	checkHB(e, ver, h, v)
}

// C14_Leaves: every leaf as header and body.
func C14_Leaves() {
	e, ver := hbEncoder()
	checkHB(e, ver, leaf(6), leaf(6))
}

// C14_Shared: keys, strings, pointers and structs that occur in both.
func C14_Shared() {
	e, ver := hbEncoder()
	e.DisableDedup = sym.Bool()
	a, b := sym.Str(1), sym.Str(1)
	m := map[string]interface{}{a: 1, "k": b}
	switch sym.Choose(4) {
	case 0:
		checkHB(e, ver, m, m)
	case 1:
		checkHB(e, ver, []interface{}{m, m}, []interface{}{map[string]interface{}{b: m}, m})
	case 2:
		checkHB(e, ver, map[string]interface{}{a: map[string]interface{}{b: a}}, map[string]interface{}{b: map[string]interface{}{a: b}})
	case 3:
		checkHB(e, ver, []interface{}{map[string]interface{}{a: 1}, map[string]interface{}{b: 2}, map[string]interface{}{a: 3}}, m)
	}
}

// C14_Pointers: the same pointer in header and body, and twice in the header.
func C14_Pointers() {
	e, ver := hbEncoder()
	x := int(i16())
	p := &x
	if ver == 1 {
		return
	}
	e.PerlCompat = false
	b, err := e.MarshalWithHeader([]interface{}{p, p, map[string]interface{}{"k": p}}, []interface{}{p, 7, p})
	sym.Assert(err == nil, "Marshal fails")
	var h, v interface{}
	d := sereal.NewDecoder()
	d.DisableReferentialIntegrity = true
	sym.Assert(d.UnmarshalHeaderBody(exact(b), &h, &v) == nil, "UnmarshalHeaderBody fails")
	sym.Assert(eqTree([]interface{}{x, x, map[string]interface{}{"k": x}}, h), "header changed")
	sym.Assert(eqTree([]interface{}{x, 7, x}, v), "body changed")
	var hp []*nIn
	in := nIn{i16(), sym.Str(1)}
	b, err = e.MarshalWithHeader([]*nIn{&in, &in}, &in)
	sym.Assert(err == nil, "Marshal fails")
	var vp *nIn
	sym.Assert(sereal.NewDecoder().UnmarshalHeaderBody(exact(b), &hp, &vp) == nil, "UnmarshalHeaderBody fails")
	sym.Assert(len(hp) == 2 && *hp[0] == in && hp[0] == hp[1] && *vp == in && vp != hp[0], "value changed")
	sym.Reach("end")
}

// C14_Typed: typed targets for both.
func C14_Typed() {
	e, ver := hbEncoder()
	h, v := nIn{i16(), sym.Str(1)}, map[string]int16{sym.Str(1): i16()}
	b, err := e.MarshalWithHeader(h, v)
	sym.Assert(err == nil, "Marshal fails")
	oh, ov := nIn{1, "q"}, map[string]int16(nil)
	sym.Assert(sereal.NewDecoder().UnmarshalHeaderBody(exact(b), &oh, &ov) == nil, "UnmarshalHeaderBody fails")
	if ver == 1 {
		sym.Assert(oh == nIn{1, "q"}, "header target touched")
	} else {
		sym.Assert(oh == h, "header changed")
	}
	sym.MapOrder(0)
	sym.Assert(len(ov) == 1, "body changed")
	for k, x := range v {
		y, ok := ov[k]
		sym.Assert(ok && x == y, "body changed")
	}
	sym.Reach("end")
}

// C14_Sizes: headers of every size around the length classes of varints.
func C14_Sizes() {
	e, ver := hbEncoder()
	n := []int{0, 1, 29, 30, 31, 32, 33, 122, 123, 124, 125, 126, 127, 128, 129, 130, 200, 255, 256}[sym.Choose(19)]
	if sym.Tier() > 0 && sym.Bool() {
		n += 16384 - 130
	}
	if sym.Bool() {
		checkHB(e, ver, longBytes(n), []interface{}{sym.Str(1), string(longBytes(5))})
	} else {
		checkHB(e, ver, []interface{}{sym.Str(1), 1}, string(longBytes(n)))
	}
}

// C14_Compressed: the header stays readable whatever the compression of the body.
func C14_Compressed() {
	ver := sym.UpTo(1, 3)
	e := encoderV(ver)
	e.CompressionThreshold = 0
	switch sym.Choose(3) {
	case 0:
		sym.Assume(ver == 1)
		e.Compression = sereal.SnappyCompressor{}
	case 1:
		e.Compression = sereal.SnappyCompressor{Incremental: true}
	case 2:
		sym.Assume(ver == 3)
		e.Compression = sereal.ZlibCompressor{}
	}
	k := sym.Str(1)
	h := []interface{}{map[string]interface{}{k: 1}, map[string]interface{}{sym.Str(1): 2}}
	v := []interface{}{map[string]interface{}{k: 1}, map[string]interface{}{k: 2}}
	b, err := e.MarshalWithHeader(h, v)
	sym.Assert(err == nil, "Marshal fails")
	var oh, ov interface{}
	sym.Assert(sereal.NewDecoder().UnmarshalHeaderBody(exact(b), &oh, &ov) == nil, "UnmarshalHeaderBody fails")
	if ver > 1 {
		sym.Assert(eqTree(h, oh), "header changed")
	} else {
		sym.Assert(oh == nil, "header out of nothing")
	}
	sym.Assert(eqTree(v, ov), "body changed")
	raw, err := sereal.DecompressDocument(nil, b)
	sym.Assert(err == nil, "DecompressDocument fails")
	var rh, rv interface{}
	sym.Assert(sereal.NewDecoder().UnmarshalHeaderBody(raw, &rh, &rv) == nil, "UnmarshalHeaderBody fails")
	sym.Assert(eqTree(v, rv) && (ver == 1 || eqTree(h, rh)), "value changed")
	sym.Reach("end")
}

// C14_Flags: a suffix without user data leaves the header target alone.
func C14_Flags() {
	ver := sym.UpTo(2, 4)
	flags := sym.Byte()
	n := sym.Choose(3)
	s := append([]byte{flags}, sym.Bytes(n)...)
	doc := exact(mkdocH(ver, 0, s, []byte{0x61, 'x'}))
	var h interface{} = "untouched"
	var v interface{}
	if flags&1 == 0 {
		sym.Assert(sereal.NewDecoder().UnmarshalHeaderBody(doc, &h, &v) == nil, "valid document refused")
		sym.Assert(h == "untouched", "header target touched")
		x, ok := v.([]byte)
		sym.Assert(ok && string(x) == "x", "body changed")
		sym.Reach("none")
		return
	}
	// what the header holds does not matter to the body, nor the other way round
	sym.Assert(sereal.Unmarshal(doc, &v) == nil, "valid document refused")
	h = nil
	var h2, hb, vb, vc interface{}
	broken := exact(mkdocH(ver, 0, s, []byte{0x62, 'x'}))
	err1, err2 := sereal.NewDecoder().UnmarshalHeader(doc, &h), sereal.NewDecoder().UnmarshalHeader(broken, &h2)
	sym.Assert((err1 == nil) == (err2 == nil), "header depends on the body")
	err2 = sereal.NewDecoder().UnmarshalHeaderBody(doc, &hb, &vb)
	sym.Assert((err1 == nil) == (err2 == nil), "invalid header accepted")
	if err2 == nil {
		x, ok := vb.([]byte)
		sym.Assert(ok && string(x) == "x", "body changed")
	}
	sym.Assert(sereal.NewDecoder().UnmarshalHeaderBody(broken, &hb, &vc) != nil, "invalid body accepted")
	var th []byte
	var ti int
	tb := ""
	err1, err2 = sereal.NewDecoder().UnmarshalHeader(doc, &th), sereal.NewDecoder().UnmarshalHeaderBody(doc, &th, &tb)
	sym.Assert((err1 == nil) == (err2 == nil) && (err2 != nil || tb == "x"), "invalid header accepted")
	err1, err2 = sereal.NewDecoder().UnmarshalHeader(doc, &ti), sereal.NewDecoder().UnmarshalHeaderBody(doc, &ti, &tb)
	sym.Assert((err1 == nil) == (err2 == nil) && (err2 != nil || tb == "x"), "invalid header accepted")
	d := &rdec{b: s, ver: ver, items: map[int]*rnode{}}
	node, end, st := d.item(1)
	if st == valid && end == len(s) {
		h = nil
		sym.Assert(sereal.NewDecoder().UnmarshalHeader(doc, &h) == nil, "valid header refused")
		sym.Assert(matches(node, h, false, false, 0), "wrong header")
		sym.Reach("valid")
	} else if st == invalid {
		h = nil
		sym.Assert(sereal.NewDecoder().UnmarshalHeader(doc, &h) != nil, "invalid header accepted")
		sym.Reach("invalid")
	}
}

type nOne struct{ X string }

// C14_Apart: the two parts are what header and body are on their own.
func C14_Apart() {
	oneOrder()
	ver := sym.UpTo(1, 3)
	e := encoderV(ver)
	e.PerlCompat = sym.Bool()
	e.DisableDedup = sym.Bool()
	e.MaxRecursionDepth = sym.UpTo(0, 4)
	part := func() interface{} {
		k := sym.Str(1)
		switch sym.Choose(7) {
		case 0:
			return int(i16())
		case 1:
			return map[string]interface{}{k: map[string]interface{}{"k": k}}
		case 2:
			x := int(i16())
			return []*int{&x, &x}
		case 3:
			return []interface{}{nOne{k}, map[string]interface{}{"X": k}} // one field: natively, the order of fields is random
		case 4:
			return []interface{}{[]interface{}{map[string]interface{}{k: 1}}, map[string]interface{}{k: 2}}
		case 5:
			return map[bool]int{true: 1} // cannot be encoded
		}
		return []interface{}{frz{b: []byte(k)}, frz{b: []byte(k)}, frzBad{3}}
	}
	h, v := part(), part()
	hb, herr := e.Marshal(h)
	vb, verr := e.Marshal(v)
	b, err := e.MarshalWithHeader(h, v)
	fail := ver > 1 && herr != nil || verr != nil
	sym.Assert(fail == (err != nil), "wrong error")
	if fail {
		sym.Assert(b == nil, "document and error")
		sym.Assert(err == herr || err == verr || errText(err) == errText(herr) || errText(err) == errText(verr), "wrong error")
		sym.Reach("fail")
		return
	}
	sym.MapOrder(0)
	r, end, ok := headerOf(b, ver)
	sym.Assert(ok, "bad document")
	// offsets of version 1 count from the start of the document
	sym.Assert(eqBytes(b[end:], vb[6:]), "body depends on the header")
	if ver > 1 {
		sym.Assert(len(r) > 0 && r[0] == 1, "wrong flags")
		// offsets in the header count from its flag byte
		sym.Assert(eqBytes(r[1:], hb[6:]), "header depends on the body")
	} else {
		sym.Assert(len(r) == 0, "header in version 1")
	}
	sym.Reach("end")
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// headerOf returns the header suffix and where the body starts.
func headerOf(b []byte, ver int) (suffix []byte, end int, ok bool) {
	d := &rdec{b: b, ver: ver}
	ln, i, st := d.varint(5)
	if st != valid || int(ln) > len(b)-i {
		return nil, 0, false
	}
	return b[i : i+int(ln)], i + int(ln), true
}

// C14_Long: long headers and bodies.
func C14_Long() {
	e, ver := hbEncoder()
	n := []int{300, 8191, 16381, 16382, 16383, 16384, 32768, 65536}
	s := filled(n[sym.Choose(8)])
	switch sym.Choose(4) {
	case 0:
		checkHB(e, ver, s, sym.Str(1))
	case 1:
		checkHB(e, ver, sym.Str(1), s)
	case 2:
		checkHB(e, ver, map[string]interface{}{string(s): 1}, map[string]interface{}{string(s): sym.Str(1)})
	case 3:
		checkHB(e, ver, string(s), s)
	}
}
