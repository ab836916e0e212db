package zzverif

import (
	"bytes"
	"compress/zlib"
	"io"

	"github.com/golang/snappy"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// denotes reports whether the item is the tree v; containers are preceded by a
// reference exactly if perl is set.
func denotes(n *rnode, v interface{}, perl bool) bool {
	switch w := v.(type) {
	case []interface{}:
		if perl {
			if n.k != rRef || n.refp {
				return false
			}
			n = n.kids[0]
		}
		if n.k != rArr || len(n.kids) != len(w) {
			return false
		}
		for i := range w {
			if !denotes(n.kids[i], w[i], perl) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		if perl {
			if n.k != rRef || n.refp {
				return false
			}
			n = n.kids[0]
		}
		return denotesHash(n, w, perl)
	case nil:
		return n.k == rUndef
	case int:
		if w >= 0 {
			return n.k == rUint && n.u == uint64(w)
		}
		return n.k == rNeg && n.u == uint64(w)
	case uint64:
		return n.k == rUint && n.u == w
	case bool:
		return n.k == rTrue && w || n.k == rFalse && !w
	case string:
		return n.k == rStr && string(n.b) == w
	case []byte:
		return n.k == rBin && eqBytes(n.b, w)
	case float32:
		return n.k == rF32 && uint32(n.u) == f32bits(w)
	case float64:
		return n.k == rF64 && n.u == f64bits(w)
	}
	return false
}

func denotesHash(n *rnode, w map[string]interface{}, perl bool) bool {
	if n.k != rHash || len(n.kids) != 2*len(w) {
		return false
	}
	for i := 0; i < len(n.kids); i += 2 {
		v, ok := w[string(n.kids[i].b)]
		if !ok || n.kids[i].k != rStr && !(n.kids[i].k == rBin && ascii(n.kids[i].b)) || !denotes(n.kids[i+1], v, perl) {
			return false
		}
	}
	return true
}

// ascii: the same as bytes and as text.
func ascii(b []byte) bool {
	for _, c := range b {
		if c >= 0x80 {
			return false
		}
	}
	return true
}

// object reports whether n is an object of the class with these fields.
func isObject(n *rnode, class string, fields map[string]interface{}, perl bool) bool {
	if n.k != rObj || string(n.b) != class {
		return false
	}
	n = n.kids[0]
	if perl {
		if n.k != rRef || n.refp {
			return false
		}
		n = n.kids[0]
	}
	return denotesHash(n, fields, perl)
}

// conform encodes v and reads the document by the specification.
func conform(e *sereal.Encoder, ver int, v interface{}) *rnode {
	b, err := e.Marshal(v)
	sym.Assert(err == nil, "Marshal fails")
	return conformDoc(b, ver)
}

func conformDoc(b []byte, ver int) *rnode {
	m := magic(ver)
	sym.Assert(len(b) > 6 && eqBytes(b[:4], m), "wrong magic")
	sym.Assert(b[4] == byte(ver), "wrong version or type")
	n, st := refDoc(b)
	sym.Assert(st == valid, "document does not conform")
	return n
}

func anyEncoder() (e *sereal.Encoder, ver int) {
	oneOrder()
	ver = sym.UpTo(1, 3)
	e = encoderV(ver)
	e.PerlCompat = sym.Bool()
	e.DisableDedup = sym.Bool()
	return e, ver
}

// C10_Trees: every tree of depth one over all leaves.
func C10_Trees() {
	e, ver := anyEncoder()
	v := tree(1, 6)
	n := conform(e, ver, v)
	sym.MapOrder(0)
	sym.Assert(denotes(n, v, e.PerlCompat), "wrong value")
	sym.Reach("end")
}

// C10_Deep: every tree of depth two over integers.
func C10_Deep() {
	e, ver := anyEncoder()
	v := tree(2, sym.Bound(1, 2))
	n := conform(e, ver, v)
	sym.MapOrder(0)
	sym.Assert(denotes(n, v, e.PerlCompat), "wrong value")
	sym.Reach("end")
}

// C10_Ints: every integer of every type.
func C10_Ints() {
	ver := sym.UpTo(1, 3)
	v, want, signed := intCase(sym.Choose(20), sym.Uint64())
	n := conform(encoderV(ver), ver, v)
	if signed {
		sym.Assert(denotes(n, int(want), false), "wrong value")
	} else {
		sym.Assert(denotes(n, want, false), "wrong value")
	}
	sym.Reach("end")
}

// C10_Scalars: floats, booleans, strings and bytes of every length class.
func C10_Scalars() {
	e, ver := anyEncoder()
	var v, want interface{}
	switch sym.Choose(9) {
	case 0:
		v = f32from(sym.Uint32())
	case 1:
		v = f64from(sym.Uint64())
	case 2:
		v = sym.Bool()
	case 3:
		v = string(longBytes(strLen()))
	case 4:
		v = longBytes(strLen())
	case 5:
		f := f32from(sym.Uint32())
		v, want = myF32(f), f
	case 6:
		s := string(longBytes(strLen()))
		v, want = myS(s), s
	case 7:
		v, want = myB(true), true
	case 8:
		f := f64from(sym.Uint64())
		v, want = myF64(f), f
	}
	if want == nil {
		want = v
	}
	n := conform(e, ver, v)
	sym.Assert(denotes(n, want, false), "wrong value")
	sym.Reach("end")
}

// C10_Keys: copied keys, whatever coincides, in every order.
func C10_Keys() {
	e, ver := anyEncoder()
	sym.MapOrder(2)
	a, b, c := sym.Str(1), sym.Str(1), sym.Str(1)
	var v interface{}
	switch sym.Choose(4) {
	case 0:
		v = []interface{}{map[string]interface{}{a: 1}, map[string]interface{}{b: a}, map[string]interface{}{c: b}}
	case 1:
		v = map[string]interface{}{a: map[string]interface{}{b: map[string]interface{}{c: 1}}}
	case 2:
		m := map[string]interface{}{a: 1, b: 2}
		v = []interface{}{m, map[string]interface{}{c: m}}
	case 3:
		v = []interface{}{string(make([]byte, sym.UpTo(110, 125))), map[string]interface{}{a: 1, b: a}, map[string]interface{}{c: b}}
	}
	n := conform(e, ver, v)
	sym.MapOrder(0)
	sym.Assert(denotes(n, v, e.PerlCompat), "wrong value")
	sym.Reach("end")
}

// alike is one of a few long strings that differ late or in length only.
func alike(n int) string {
	b := filled(n)
	b[0] = 'a'
	if n > 1 && sym.Bool() {
		b = b[:n-1]
	}
	return string(b)
}

// C10_LongKeys: long keys and class names that are almost alike.
func C10_LongKeys() {
	e, ver := anyEncoder()
	n := []int{2, 32, 33, 64, 128, 255, 256, 257, 300}[sym.Choose(9)]
	a, b := alike(n), alike(n)
	v := []interface{}{map[string]interface{}{a: 1}, map[string]interface{}{b: 2}, map[string]interface{}{a: 3}}
	if sym.Bool() {
		r := conform(e, ver, v)
		sym.Assert(denotes(r, v, e.PerlCompat), "wrong value")
		sym.Reach("keys")
		return
	}
	x := 1
	o := func(c string) sereal.PerlObject { return sereal.PerlObject{Class: c, Reference: &x} }
	r := conform(e, ver, []interface{}{o(a), o(b), map[string]interface{}{a: b}, o(a)})
	if e.PerlCompat {
		r = r.kids[0]
	}
	sym.Assert(r.k == rArr && len(r.kids) == 4, "wrong array")
	for i, c := range []string{a, b, "", a} {
		if i != 2 {
			sym.Assert(r.kids[i].k == rObj && string(r.kids[i].b) == c, "wrong class")
		}
	}
	sym.Assert(denotes(r.kids[2], map[string]interface{}{a: b}, e.PerlCompat), "wrong value")
	sym.Reach("classes")
}

// C10_Frozen: frozen values, several of the same class and next to keys.
func C10_Frozen() {
	e, ver := anyEncoder()
	sym.Assume(ver > 1)
	p, q := sym.Bytes(sym.UpTo(0, 1)), sym.Bytes(1)
	a, b := frz{b: p}, frz{b: q}
	l := []interface{}{a, frzStr(q), b, &a, map[string]interface{}{frzClass: b, "k": frzStr(p)}, []frz{a}}
	if sym.Bool() {
		l[0], l[1] = sereal.PerlFreeze{Class: frzClass, Data: p}, nIn{7, frzClass}
	}
	sym.MapOrder(0)
	r := conform(e, ver, l)
	is := func(n *rnode, class string, data []byte) bool {
		return n.k == rFrz && string(n.b) == class && eqBytes(n.kids[0].kids[0].kids[0].b, data)
	}
	open := func(n *rnode) *rnode {
		if e.PerlCompat {
			sym.Assert(n.k == rRef, "no reference")
			n = n.kids[0]
		}
		return n
	}
	r = open(r)
	sym.Assert(r.k == rArr && len(r.kids) == 6, "wrong array")
	sym.Assert(is(r.kids[0], frzClass, p) && is(r.kids[2], frzClass, q), "wrong frozen object")
	if _, ok := l[1].(frzStr); ok {
		sym.Assert(is(r.kids[1], frzClass+"Str", q), "wrong frozen object")
	} else {
		sym.Assert(isObject(r.kids[1], "nIn", map[string]interface{}{"X": 7, "why": frzClass}, e.PerlCompat), "wrong object")
	}
	sym.Assert(r.kids[3].k == rRef && is(r.kids[3].kids[0], frzClass, p), "wrong frozen object")
	h := open(r.kids[4])
	sym.Assert(h.k == rHash && len(h.kids) == 4, "wrong hash")
	for i := 0; i < 4; i += 2 {
		if string(h.kids[i].b) == "k" {
			sym.Assert(is(h.kids[i+1], frzClass+"Str", p), "wrong frozen object")
		} else {
			sym.Assert(string(h.kids[i].b) == frzClass && is(h.kids[i+1], frzClass, q), "wrong frozen object")
		}
	}
	f := open(r.kids[5])
	sym.Assert(f.k == rArr && len(f.kids) == 1 && is(f.kids[0], frzClass, p), "wrong frozen object")
	sym.Reach("end")
}

// C10_Structs: objects, their class names and fields.
func C10_Structs() {
	e, ver := anyEncoder()
	sym.MapOrder(1)
	x, y := i16(), sym.Str(1)
	in := nIn{x, y}
	fields := map[string]interface{}{"X": int(x), "why": y}
	perl := e.PerlCompat
	switch sym.Choose(6) {
	case 0:
		n := conform(e, ver, in)
		sym.Assert(isObject(n, "nIn", fields, perl), "wrong object")
	case 1:
		n := conform(e, ver, &in)
		sym.Assert(n.k == rRef && !n.refp && isObject(n.kids[0], "nIn", fields, perl), "wrong object")
	case 2:
		n := conform(e, ver, []interface{}{in, map[string]interface{}{"X": 1}, in})
		if perl {
			sym.Assert(n.k == rRef, "no reference")
			n = n.kids[0]
		}
		sym.Assert(n.k == rArr && len(n.kids) == 3, "wrong array")
		sym.Assert(isObject(n.kids[0], "nIn", fields, perl) && isObject(n.kids[2], "nIn", fields, perl), "wrong object")
		sym.Assert(denotes(n.kids[1], map[string]interface{}{"X": 1}, perl), "wrong hash")
	case 3:
		n := conform(e, ver, nSwap{int8(sym.Byte() & 15), 1})
		sym.Assert(n.k == rObj && string(n.b) == "nSwap", "wrong object")
	case 4:
		n := conform(e, ver, []nIn{in, in})
		if perl {
			sym.Assert(n.k == rRef, "no reference")
			n = n.kids[0]
		}
		sym.Assert(n.k == rArr && len(n.kids) == 2, "wrong array")
		sym.Assert(isObject(n.kids[0], "nIn", fields, perl) && isObject(n.kids[1], "nIn", fields, perl), "wrong object")
	case 5:
		n := conform(e, ver, map[string]interface{}{"nIn": in, y: 1})
		if perl {
			sym.Assert(n.k == rRef, "no reference")
			n = n.kids[0]
		}
		sym.Assert(n.k == rHash, "wrong hash")
		for i := 0; i < len(n.kids); i += 2 {
			if n.kids[i+1].k == rObj {
				sym.Assert(isObject(n.kids[i+1], "nIn", fields, perl) && string(n.kids[i].b) == "nIn", "wrong object")
			} else {
				sym.Assert(denotes(n.kids[i+1], 1, perl) && string(n.kids[i].b) == y, "wrong value")
			}
		}
	}
	sym.Reach("end")
}

// C10_Pointers: references and back references.
func C10_Pointers() {
	e, ver := anyEncoder()
	x, s := int(i16()), sym.Str(1)
	other := x
	p, q := &x, &s
	a := []interface{}{s}
	m := map[string]interface{}{s: 1}
	in := nIn{i16(), s}
	var v []interface{}
	switch sym.Choose(8) {
	case 0:
		v = []interface{}{p, p, &other, p}
	case 1:
		v = []interface{}{q, q, s}
	case 2:
		v = []interface{}{&a, &a, a}
	case 3:
		v = []interface{}{&m, &m, m}
	case 4:
		v = []interface{}{&in, &in, in}
	case 5:
		pp := &p
		v = []interface{}{pp, pp, p}
	case 6:
		v = []interface{}{string(make([]byte, sym.UpTo(118, 126))), p, q, p, q}
	case 7:
		v = []interface{}{[]*int{p, p}, map[string]*int{s: p}}
	}
	perl := e.PerlCompat
	n := conform(e, ver, v)
	if perl {
		sym.Assert(n.k == rRef, "no reference")
		n = n.kids[0]
	}
	sym.Assert(n.k == rArr && len(n.kids) == len(v), "wrong array")
	for i := range v {
		k := n.kids[i]
		switch w := v[i].(type) {
		case *int:
			sym.Assert(k.k == rRef && denotes(k.kids[0], *w, perl), "wrong reference")
		case *string:
			sym.Assert(k.k == rRef && denotes(k.kids[0], *w, perl), "wrong reference")
		case **int:
			sym.Assert(k.k == rRef && k.kids[0].k == rRef && denotes(k.kids[0].kids[0], **w, perl), "wrong reference")
		case *[]interface{}:
			// the reference PerlCompat wants is the pointer itself
			sym.Assert(k.k == rRef && k.kids[0].k == rArr && denotes(&rnode{k: rRef, kids: k.kids}, *w, true), "wrong reference")
		case *map[string]interface{}:
			sym.Assert(k.k == rRef && denotesHash(k.kids[0], *w, perl), "wrong reference")
		case *nIn:
			sym.Assert(k.k == rRef && isObject(k.kids[0], "nIn", map[string]interface{}{"X": int(w.X), "why": w.Y}, perl), "wrong reference")
		case nIn:
			sym.Assert(isObject(k, "nIn", map[string]interface{}{"X": int(w.X), "why": w.Y}, perl), "wrong object")
		case []*int, map[string]*int:
		default:
			sym.Assert(denotes(k, w, perl), "wrong value")
		}
	}
	sym.Reach("end")
}

// C10_Perl: the Perl types.
func C10_Perl() {
	e, ver := anyEncoder()
	perl := e.PerlCompat
	a, b := sym.Bytes(sym.UpTo(0, 1)), sym.Bytes(1)
	x := int(i16())
	ptr := sym.Bool()
	w := func(v interface{}, p interface{}) *rnode {
		if ptr {
			return conform(e, ver, p)
		}
		return conform(e, ver, v)
	}
	switch sym.Choose(8) {
	case 6, 7:
		// anything blessed or weakened
		var r interface{}
		var is func(n *rnode) bool
		l, m := []interface{}{x}, map[string]interface{}{string(b): x}
		to := sym.Choose(7)
		weak := sym.Bool()
		sym.Assume(!weak || perl && to < 6 || to == 2 || to == 3) // only references can be weak
		switch to {
		case 0:
			r, is = l, func(n *rnode) bool { return denotes(n, l, perl) }
		case 1:
			r, is = m, func(n *rnode) bool { return denotes(n, m, perl) }
		case 2:
			r, is = &l, func(n *rnode) bool { return n.k == rRef && n.kids[0].k == rArr && denotes(n.kids[0].kids[0], x, perl) }
		case 3:
			r, is = &m, func(n *rnode) bool { return n.k == rRef && denotesHash(n.kids[0], m, perl) }
		case 4:
			r, is = []int{x}, func(n *rnode) bool { return denotes(n, l, perl) }
		case 5:
			r, is = map[myS]int{myS(b): x}, func(n *rnode) bool { return denotes(n, m, perl) }
		case 6:
			r = nIn{7, string(b)}
			is = func(n *rnode) bool {
				return isObject(n, "nIn", map[string]interface{}{"X": 7, "why": string(b)}, perl)
			}
		}
		var v interface{} = sereal.PerlWeakRef{Reference: r}
		k := uint8(rWeak)
		if !weak {
			v, k = sereal.PerlObject{Class: string(a), Reference: r}, rObj
		}
		n := conform(e, ver, []interface{}{v, v})
		if perl {
			sym.Assert(n.k == rRef, "no reference")
			n = n.kids[0]
		}
		sym.Assert(n.k == rArr && len(n.kids) == 2, "wrong array")
		for _, c := range n.kids {
			sym.Assert(c.k == int(k) && (k == rWeak || eqBytes(c.b, a)) && is(c.kids[0]), "wrong item")
		}
	case 0:
		v := sereal.PerlRegexp{Pattern: a, Modifiers: b}
		n := w(v, &v)
		sym.Assert(n.k == rRegexp && eqBytes(n.b, a) && eqBytes(n.b2, b), "wrong regexp")
	case 1:
		v := sereal.PerlObject{Class: string(a), Reference: &x}
		n := w(v, &v)
		sym.Assert(n.k == rObj && eqBytes(n.b, a) && n.kids[0].k == rRef && denotes(n.kids[0].kids[0], x, perl), "wrong object")
	case 2:
		v := sereal.PerlWeakRef{Reference: &x}
		n := w(v, &v)
		sym.Assert(n.k == rWeak && n.kids[0].k == rRef && denotes(n.kids[0].kids[0], x, perl), "wrong weak reference")
	case 3:
		v := sereal.PerlUndef{}
		n := w(v, &v)
		sym.Assert(n.k == rUndef, "wrong undef")
		n = conform(e, ver, sereal.PerlCanonicalUndef())
		sym.Assert(n.k == rCanon, "wrong undef")
	case 4:
		if ver < 2 {
			break // no frozen objects in version 1
		}
		v := sereal.PerlFreeze{Class: string(b), Data: a}
		n := w(v, &v)
		sym.Assert(n.k == rFrz && eqBytes(n.b, b) && eqBytes(n.kids[0].kids[0].kids[0].b, a), "wrong frozen object")
	case 5:
		v := []interface{}{sereal.PerlObject{Class: string(a), Reference: &x}, sereal.PerlObject{Class: string(b), Reference: &x}, map[string]interface{}{string(b): 1}}
		n := conform(e, ver, v)
		if perl {
			sym.Assert(n.k == rRef, "no reference")
			n = n.kids[0]
		}
		sym.Assert(n.k == rArr && len(n.kids) == 3, "wrong array")
		sym.Assert(n.kids[0].k == rObj && eqBytes(n.kids[0].b, a) && n.kids[1].k == rObj && eqBytes(n.kids[1].b, b), "wrong object")
		sym.Assert(n.kids[0].kids[0].k == rRef && n.kids[1].kids[0].k == rRef && denotes(n.kids[1].kids[0].kids[0], x, perl), "wrong reference")
	}
	sym.Reach("end")
}

// C10_Header: the user header is a document body of its own.
func C10_Header() {
	e, ver := anyEncoder()
	k := sym.Str(1)
	h := []interface{}{map[string]interface{}{k: 1}, map[string]interface{}{sym.Str(1): 2}, k}
	if sym.Bool() {
		h = []interface{}{string(make([]byte, sym.UpTo(110, 130)))}
	}
	v := []interface{}{map[string]interface{}{k: 1}, map[string]interface{}{sym.Str(1): 2}}
	b, err := e.MarshalWithHeader(h, v)
	sym.Assert(err == nil, "Marshal fails")
	n := conformDoc(b, ver)
	sym.Assert(denotes(n, v, e.PerlCompat), "wrong value")
	d := &rdec{b: b, ver: ver}
	ln, i, st := d.varint(5)
	sym.Assert(st == valid, "bad header length")
	if ver == 1 {
		sym.Assert(ln == 0, "header in version 1")
		sym.Reach("v1")
		return
	}
	sym.Assert(ln > 1 && b[i]&1 == 1, "no header")
	d = &rdec{b: b[i : i+int(ln)], ver: ver, items: map[int]*rnode{}}
	hn, end, st := d.item(1)
	sym.Assert(st == valid && end == int(ln), "header does not conform")
	sym.Assert(denotes(hn, h, e.PerlCompat), "wrong header")
	sym.Reach("end")
}

// C10_Compressed: type nibble and framing of compressed documents.
func C10_Compressed() {
	ver := sym.UpTo(1, 3)
	e := encoderV(ver)
	v := []interface{}{sym.Str(1), int(i16())}
	raw, err := e.Marshal(v)
	sym.Assert(err == nil, "Marshal fails")
	e.CompressionThreshold = sym.Choose(2) * 1000
	kind := sym.Choose(3)
	switch kind {
	case 0:
		e.Compression = sereal.SnappyCompressor{}
	case 1:
		e.Compression = sereal.SnappyCompressor{Incremental: true}
	case 2:
		e.Compression = sereal.ZlibCompressor{}
	}
	b, err := e.Marshal(v)
	if e.CompressionThreshold == 1000 {
		sym.Assert(err == nil && eqBytes(b, raw), "short body compressed")
		sym.Reach("short")
		return
	}
	if kind == 0 && ver > 1 || kind == 2 && ver < 3 {
		sym.Assert(err != nil, "illegal compression")
		sym.Reach("refused")
		return
	}
	sym.Assert(err == nil, "Marshal fails")
	sym.Assert(eqBytes(b[:4], magic(ver)) && b[4] == byte((kind+1)<<4|ver), "wrong header")
	d := &rdec{b: b, ver: ver}
	i := 6
	if kind == 2 {
		n, j, st := d.varint(i)
		sym.Assert(st == valid && n == uint64(len(raw)-6), "wrong uncompressed length")
		i = j
	}
	if kind >= 1 {
		n, j, st := d.varint(i)
		sym.Assert(st == valid && n == uint64(len(b)-j), "wrong compressed length")
		i = j
	}
	body, ok := inflate(kind, b[i:])
	sym.Assert(ok && eqBytes(body, raw[6:]), "wrong body")
	sym.Reach("end")
}

// inflate undoes the compression of kind 0, 1 (snappy) or 2 (zlib).
func inflate(kind int, b []byte) ([]byte, bool) {
	if kind < 2 {
		r, err := snappy.Decode(nil, b)
		return r, err == nil
	}
	z, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, false
	}
	r, err := io.ReadAll(z)
	return r, err == nil
}

// C10_Wide: containers of every size class, typed and untyped.
func C10_Wide() {
	e, ver := anyEncoder()
	sym.MapOrder(0)
	n := countLen()
	c := int(i16())
	var v, want interface{}
	kind := sym.Choose(9)
	switch kind {
	case 0, 1, 2, 3:
		w := make([]interface{}, n)
		x := make([]int, n)
		y := make([]int16, n)
		z := make([]string, n)
		for i := range w {
			w[i], x[i], y[i], z[i] = i, i, int16(i), "s"
			if kind == 3 {
				w[i] = "s"
			}
		}
		if n > 0 && kind < 3 {
			w[n-1], x[n-1], y[n-1] = c, c, int16(c)
		}
		v, want = []interface{}{w, x, y, z}[kind], w
	case 4, 5, 6, 7:
		w := map[string]interface{}{}
		x := map[string]int{}
		y := map[myS]int16{}
		z := map[interface{}]interface{}{}
		for i := 0; i < n; i++ {
			k, o := string(key3(i)), i
			if i == n-1 {
				o = c
			}
			w[k], x[k], y[myS(k)], z[k] = o, o, int16(o), o
		}
		v, want = []interface{}{w, x, y, z}[kind-4], w
	case 8:
		switch n {
		case 15:
			v = [15]int{14: c}
		case 16:
			v = [16]int{15: c}
		case 17:
			v = [17]int{16: c}
		case 127:
			v = [127]int{126: c}
		case 128:
			v = [128]int{127: c}
		}
		sym.Assume(v != nil)
		w := make([]interface{}, n)
		for i := range w {
			w[i] = 0
		}
		w[n-1] = c
		want = w
	}
	nested := sym.Bool()
	if nested {
		v, want = []interface{}{v, 5}, []interface{}{want, 5}
	}
	r := conform(e, ver, v)
	sym.Assert(denotes(r, want, e.PerlCompat), "wrong value")
	sym.Reach("end")
}

// C10_LongStrings: strings, byte slices and keys of many lengths.
func C10_LongStrings() {
	e, ver := anyEncoder()
	n := []int{300, 1024, 4096, 8191, 8192, 16382, 16383, 16384, 16385, 20000, 32767, 32768, 65535, 65536}[sym.Choose(14)]
	s := filled(n)
	var v interface{}
	switch sym.Choose(3) {
	case 0:
		v = s
	case 1:
		v = string(s)
	case 2:
		v = []interface{}{map[string]interface{}{string(s): 1}, map[string]interface{}{"k": 1}, map[string]interface{}{string(s): 2, "k": 3}}
	}
	r := conform(e, ver, v)
	sym.Assert(denotes(r, v, e.PerlCompat), "wrong value")
	sym.Reach("end")
}
