package zzverif

import (
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

func wipe(b []byte) {
	for i := range b {
		b[i] ^= 0x55
	}
}

// frzKeep keeps the slice it is thawed from and hands out the one it has.
type frzKeep struct{ b []byte }

func (f frzKeep) MarshalBinary() ([]byte, error)  { return f.b, nil }
func (f *frzKeep) UnmarshalBinary(b []byte) error { f.b = b; return nil }

// grow appends to every byte slice of a value.
func grow(v interface{}, depth int) {
	if depth > 6 {
		return
	}
	switch p := v.(type) {
	case []byte:
		_ = append(p, 0x55, 0x55)
	case []interface{}:
		for _, x := range p {
			grow(x, depth+1)
		}
	case map[string]interface{}:
		for _, x := range p {
			grow(x, depth+1)
		}
	case *[]interface{}:
		grow(*p, depth+1)
	case *map[string]interface{}:
		grow(*p, depth+1)
	case *interface{}:
		grow(*p, depth+1)
	case *[]byte:
		grow(*p, depth+1)
	case *sereal.PerlRegexp:
		grow(p.Pattern, depth+1)
		grow(p.Modifiers, depth+1)
	case *sereal.PerlObject:
		grow(p.Reference, depth+1)
	case *sereal.PerlWeakRef:
		grow(p.Reference, depth+1)
	case *sereal.PerlFreeze:
		grow(p.Data, depth+1)
	}
}

// checkAlias decodes two copies of doc and overwrites one of them.
func checkAlias(doc []byte, mk func() (*sereal.Decoder, interface{}), get func(interface{}) interface{}) {
	mine, yours := exact(doc), exact(doc)
	d1, t1 := mk()
	d2, t2 := mk()
	e1 := d1.Unmarshal(mine, t1)
	sym.Assert(eqBytes(mine, doc), "input modified")
	e2 := d2.Unmarshal(yours, t2)
	if e1 == nil {
		sym.MapOrder(0)
		grow(get(t1), 0)
		sym.Assert(eqBytes(mine, doc), "input aliases the value")
	}
	wipe(mine)
	sym.Assert((e1 == nil) == (e2 == nil), "not deterministic")
	if e1 != nil {
		sym.Reach("refused")
		return
	}
	sym.MapOrder(0)
	sym.Assert(same(get(t1), get(t2), 0), "value aliases the input")
	sym.Reach("end")
}

func untyped(perl, noref bool) func() (*sereal.Decoder, interface{}) {
	return func() (*sereal.Decoder, interface{}) {
		d := sereal.NewDecoder()
		d.PerlCompat, d.DisableReferentialIntegrity = perl, noref
		return d, new(interface{})
	}
}

func anything(t interface{}) interface{} { return *t.(*interface{}) }

// C19_Bytes: every body of up to n bytes.
func C19_Bytes() {
	doc := mkdoc(sym.UpTo(1, 4), 0, sym.Bytes(sym.UpTo(1, sym.Bound(3, 4))))
	checkAlias(doc, untyped(sym.Bool(), sym.Bool()), anything)
}

// shapes that hold bytes of the document in every kind of value
var aliasShapes = []string{
	"\x62??", "\x26\x02??", "\x27\x02??", "\x42\x61?\x61?", "\x51\x61?\x61?", "\x51\x26\x01?\x27\x01?",
	"\x31\x61?\x61?", "\x31\x26\x01?\x27\x01?", "\x2c\x61?\x51\x61?\x61?", "\x32\x61?\x28\x2b\x01\x62??",
	"\x42\x32\x61?\x28\x2b\x01\x62??\x33\x03\x28\x2b\x01\x61?",
	"\x42\x62??\x2f\x02", "\x42\xe2??\x29\x02", "\x42\xe2??\x2e\x02", "\x30\x28\x62??", "\x28\x62??", "\x42\xa7\x01?\x29\x02",
	"\x42\x28\xd1\x61?\x61?\x29\x03", "\x42\x2c\x61?\x50\x2d\x03\x50", "\x42\x31\xe1?\x61?\x31\x2f\x03\x60", "\x22????", "\x23????????", "\x60", "\x40", "\x50",
	"\x42\x51\x61?\x61?\x51\x2f\x03\x61?", "\x60\x61", "\xe1?",
}

// C19_Shapes: untyped targets, plain documents.
func C19_Shapes() {
	doc := mkdoc(sym.UpTo(2, 4), 0, shape(aliasShapes[sym.Choose(len(aliasShapes))]))
	checkAlias(doc, untyped(sym.Bool(), sym.Bool()), anything)
}

// C19_Compressed: the same behind every compression.
func C19_Compressed() {
	body := shape(aliasShapes[sym.Choose(len(aliasShapes))])
	var doc []byte
	switch sym.Choose(3) {
	case 0:
		doc = mkdoc(1, 1, snappyBlock(body))
	case 1:
		z := snappyBlock(body)
		doc = mkdoc(2, 2, append([]byte{byte(len(z))}, z...))
	case 2:
		z := toyDeflate(body)
		doc = mkdoc(3, 3, append([]byte{byte(len(body)), byte(len(z))}, z...))
	}
	checkAlias(doc, untyped(sym.Bool(), false), anything)
}

// C19_Typed: typed targets.
func C19_Typed() {
	d := sereal.NewDecoder()
	type fields struct {
		A []byte
		B string
		C interface{}
		D frzKeep
		E map[string]string
		F [2]byte
		G *nIn
	}
	var s string
	var get func(interface{}) interface{}
	var mk func() interface{}
	switch sym.Choose(10) {
	case 0:
		s, mk = "\x62??", func() interface{} { return new([]byte) }
		get = func(t interface{}) interface{} { return *t.(*[]byte) }
	case 1:
		s, mk = "\x26\x02??", func() interface{} { return new([]byte) }
		get = func(t interface{}) interface{} { return *t.(*[]byte) }
	case 2:
		s, mk = "\x62??", func() interface{} { return new(string) }
		get = func(t interface{}) interface{} { return *t.(*string) }
	case 3:
		s, mk = "\x27\x02??", func() interface{} { return new(string) }
		get = func(t interface{}) interface{} { return *t.(*string) }
	case 4:
		s, mk = "\x42\x61?\x2f\x02", func() interface{} { return new([][]byte) }
		get = func(t interface{}) interface{} {
			p := *t.(*[][]byte)
			return []interface{}{p[0], p[1]}
		}
	case 5:
		s, mk = "\x52\x61A\x62??\x61B\x27\x01?", func() interface{} { return new(fields) }
		get = func(t interface{}) interface{} {
			p := t.(*fields)
			return []interface{}{p.A, p.B}
		}
	case 6:
		s, mk = "\x52\x61C\x62??\x61F\x62??", func() interface{} { return new(fields) }
		get = func(t interface{}) interface{} {
			p := t.(*fields)
			return []interface{}{p.C, p.F[:]}
		}
	case 7:
		s, mk = "\x51\x61D\x32\x61c\x28\x2b\x01\x62??", func() interface{} { return new(fields) }
		get = func(t interface{}) interface{} { return t.(*fields).D.b }
	case 8:
		s, mk = "\x51\x61E\x51\x61?\x27\x01?", func() interface{} { return new(fields) }
		get = func(t interface{}) interface{} {
			m := map[string]interface{}{}
			for k, v := range t.(*fields).E {
				m[k] = v
			}
			return m
		}
	case 9:
		s, mk = "\x32\x61c\x28\x2b\x01\x62??", func() interface{} { return new([]byte) }
		get = func(t interface{}) interface{} { return *t.(*[]byte) }
	}
	checkAlias(mkdoc(3, 0, shape(s)), func() (*sereal.Decoder, interface{}) { return d, mk() }, get)
}

// C19_Header: the header target.
func C19_Header() {
	doc := mkdocH(3, 0, append([]byte{1}, shape(aliasShapes[sym.Choose(len(aliasShapes))])...), []byte{1})
	mine, yours := exact(doc), exact(doc)
	var v, w interface{}
	d := sereal.NewDecoder()
	d.PerlCompat = sym.Bool()
	e1 := d.UnmarshalHeader(mine, &v)
	e2 := d.UnmarshalHeader(yours, &w)
	sym.Assert(eqBytes(mine, doc), "input modified")
	wipe(mine)
	sym.Assert((e1 == nil) == (e2 == nil) && (e1 != nil || same(v, w, 0)), "value aliases the input")
	sym.Reach("end")
}

// C19_Registered: a registered class that keeps the bytes it is given.
func C19_Registered() {
	doc := mkdoc(3, 0, shape("\x42\x32\x61c\x28\x2b\x01\x62??\x33\x03\x28\x2b\x01\x26\x01?"))
	checkAlias(doc, func() (*sereal.Decoder, interface{}) {
		d := sereal.NewDecoder()
		d.RegisterName("c", &frzKeep{})
		return d, new(interface{})
	}, func(t interface{}) interface{} {
		l, ok := (*t.(*interface{})).([]interface{})
		sym.Assert(ok && len(l) == 2, "wrong array")
		return []interface{}{l[0].(*frzKeep).b, l[1].(*frzKeep).b}
	})
}

// C19_Merger: Append keeps nothing of its input.
func C19_Merger() {
	mask := []int{0, 2, 7}[sym.Choose(3)]
	a := mkdoc(3, 0, shape(mergeShapes[sym.Choose(len(mergeShapes))]))
	if sym.Bool() {
		z := snappyBlock(a[6:])
		a = mkdoc(3, 2, append([]byte{byte(len(z))}, z...))
	}
	b := exact(mkdoc(3, 0, shape("\x42\x51\x61?\x2c\x61?\x50\x61?")))
	m1, m2 := mergerOf(3, mask), mergerOf(3, mask)
	mine := exact(a)
	n1, e1 := m1.Append(mine)
	sym.Assert(eqBytes(mine, a), "input modified")
	wipe(mine)
	n2, e2 := m2.Append(a)
	sym.Assert(n1 == n2 && (e1 == nil) == (e2 == nil), "not deterministic")
	_, e1 = m1.Append(b)
	_, e2 = m2.Append(b)
	sym.Assert((e1 == nil) == (e2 == nil), "merger aliases the input")
	o1, e1 := m1.Finish()
	o2, e2 := m2.Finish()
	sym.Assert(e1 == nil && e2 == nil && eqBytes(o1, o2), "merger aliases the input")
	sym.Reach("end")
}

// C19_Decompress: the result shares nothing with the input.
func C19_Decompress() {
	body := shape(aliasShapes[sym.Choose(4)])
	var doc []byte
	switch sym.Choose(4) {
	case 0:
		doc = mkdoc(1, 1, snappyBlock(body))
	case 1:
		z := snappyBlock(body)
		doc = mkdoc(2, 2, append([]byte{byte(len(z))}, z...))
	case 2:
		z := toyDeflate(body)
		doc = mkdoc(3, 3, append([]byte{byte(len(body)), byte(len(z))}, z...))
	case 3:
		doc = mkdoc(3, 0, body)
	}
	mine := make([]byte, len(doc), len(doc)+sym.Choose(2)*40)
	copy(mine, doc)
	var dst []byte
	switch sym.Choose(3) {
	case 1:
		dst = make([]byte, len(doc)+20)
	case 2:
		dst = make([]byte, 3, 60)
	}
	r, err := sereal.DecompressDocument(dst, mine)
	sym.Assert(err == nil, "DecompressDocument fails")
	sym.Assert(eqBytes(mine, doc), "input modified")
	keep := clone(r)
	wipe(mine)
	sym.Assert(eqBytes(r, keep), "result aliases the input")
	copy(mine, doc)
	wipe(r)
	sym.Assert(eqBytes(mine, doc), "input aliases the result")
	sym.Reach("end")
}

// C19_Marshal: the value stays as it is, and the document is independent of it.
func C19_Marshal() {
	sym.MapOrder(0)
	e := encoderV(sym.UpTo(1, 3))
	e.PerlCompat = sym.Bool()
	e.DisableDedup = sym.Bool()
	e.ExpectedSize = uint(sym.Choose(2) * 100)
	if sym.Bool() {
		e.Compression, e.CompressionThreshold = sereal.SnappyCompressor{Incremental: true}, 0
	}
	p := make([]byte, 2, 2+sym.Choose(2)*200)
	p[0], p[1] = sym.Byte(), sym.Byte()
	full := p[:cap(p)]
	was := clone(full)
	s := string(clone(p))
	n := 300
	var v interface{}
	q := &n
	switch sym.Choose(10) {
	case 0:
		v = p
	case 1:
		v = []interface{}{p, p}
	case 2:
		v = map[string]interface{}{"k": p}
	case 3:
		v = struct{ A []byte }{p}
	case 4:
		v = &p
	case 5:
		v = frzKeep{p}
	case 6:
		v = sereal.PerlRegexp{Pattern: p, Modifiers: p}
	case 7:
		v = sereal.PerlFreeze{Class: s, Data: p}
	case 8:
		v = []interface{}{q, q, sereal.PerlWeakRef{Reference: q}, s, p}
	case 9:
		v = [][]byte{p, p}
	}
	b, err := e.Marshal(v)
	sym.Assert(err == nil, "Marshal fails")
	sym.Assert(eqBytes(full, was) && n == 300 && s == string(was[:2]), "value modified")
	keep := clone(b)
	wipe(full)
	n = 7
	sym.Assert(eqBytes(b, keep), "document aliases the value")
	copy(full, was)
	wipe(b[:cap(b)])
	sym.Assert(eqBytes(full, was) && n == 7 && s == string(was[:2]), "value aliases the document")
	// nor does it alias anything the encoder keeps
	n = 300
	c, err := e.Marshal(v)
	sym.Assert(err == nil && eqBytes(c, keep), "encoder keeps the document")
	sym.Reach("end")
}

// C19_Containers: maps, slices and structs are left alone by Marshal.
func C19_Containers() {
	sym.MapOrder(0)
	e := encoderV(sym.UpTo(1, 3))
	e.PerlCompat = sym.Bool()
	a, b := sym.Str(1), sym.Str(1)
	m := map[string]interface{}{a: b}
	l := []interface{}{m, a, 1, nil}
	in := nIn{i16(), a}
	x := in
	_, err := e.MarshalWithHeader(m, []interface{}{l, &in, in, m})
	sym.Assert(err == nil, "Marshal fails")
	sym.Assert(len(m) == 1 && m[a] == b && len(l) == 4 && l[1] == a && l[2] == 1 && l[3] == nil && in == x, "value modified")
	_, ok := l[0].(map[string]interface{})
	sym.Assert(ok, "value modified")
	sym.Reach("end")
}

// keeps decodes doc, overwrites the input, and asserts that the value is still that of doc.
func keeps(doc []byte, out interface{}) {
	n, st := refDoc(doc)
	sym.Assume(st == valid)
	d, perl, noref := perlOpts()
	sym.Assume(!noref || !endless(n, 0))
	mine := exact(doc)
	err := d.Unmarshal(mine, out)
	sym.Assert(eqBytes(mine, doc), "input modified")
	if err != nil {
		sym.Reach("refused")
		return
	}
	sym.MapOrder(0)
	holds := func() bool {
		if p, ok := out.(*interface{}); ok {
			return matches(n, *p, perl, noref, 0)
		}
		return agrees(n, reflect.ValueOf(out).Elem(), perl, noref, 0)
	}
	was := holds()
	wipe(mine)
	sym.Assert(holds() == was, "value aliases the input")
	sym.Reach("end")
}

// C19_Lengths: strings of every length class in every place, typed and untyped.
func C19_Lengths() {
	body := bodyString(3, sym.Choose(bodyStrings), filled(classLen()), sym.Choose(3), 0)
	outs := []interface{}{new(interface{}), new([]interface{}), new([]string), new([][]byte), new(map[string]interface{}), new(map[string]int8), new([]map[string]int8), new(string), new([]byte), new(frzKeep)}
	keeps(exact(mkdoc(3, 0, body)), outs[sym.Choose(len(outs))])
}

// C19_Long: long strings, alone or in documents long enough to hold them twice.
func C19_Long() {
	n := []int{300, 1024, 4096, 8192, 16384}[sym.Choose(5)]
	s := make([]byte, n)
	for i := range s {
		s[i] = 'a' + byte(i%23)
	}
	tag := []byte{tBINARY, tSTRUTF8}[sym.Choose(2)]
	item := append(putVarint([]byte{tag}, uint64(n)), s...)
	var body []byte
	switch sym.Choose(7) {
	case 4:
		body = item
	case 5:
		body = append([]byte{tARRAYREF + 1}, item...)
	case 6:
		body = append([]byte{tHASHREF + 1, tSHORT + 1, 'A'}, item...)
	case 0:
		body = append(append([]byte{tARRAYREF + 2}, item...), item...)
	case 1:
		body = append(append([]byte{tHASHREF + 1}, item...), item...)
	case 2:
		body = append(append([]byte{tARRAYREF + 2, tREGEXP}, item...), item...)
		body = append(append(body, tREGEXP, tSHORT), item...)
	case 3:
		body = append(append([]byte{tARRAYREF + 2, tFREEZE, tSHORT + 1, 'c', tREFN, tARRAY, 1}, item...), item...)
	}
	outs := []interface{}{new(interface{}), new([]interface{}), new([]string), new([][]byte), new(map[string]interface{}), new(map[string]string), new([]byte), new(string), new(*struct{ A []byte })}
	keeps(exact(mkdoc(3, 0, body)), outs[sym.Choose(len(outs))])
}

// C19_Mutants: no document, valid or not, is modified, whoever reads it.
func C19_Mutants() {
	ver := []int{1, 3}[sym.Choose(2)]
	doc := mkdoc(ver, 0, mutant(ver))
	b := exact(doc)
	switch sym.Choose(7) {
	case 0:
		var out interface{}
		d := sereal.NewDecoder()
		d.PerlCompat = true
		d.Unmarshal(b, &out)
	case 1:
		var out interface{}
		sereal.Unmarshal(b, &out)
	case 2:
		sereal.Unmarshal(b, dest(22))
	case 3:
		sereal.NewMergerV3().Append(b)
	case 4:
		m := mergerOf(1, 7)
		m.Append([]byte("=srl\x01\x00\x53\x61a\x62ab\x63key"))
		m.Append(b)
		m.Append(b)
		m.Finish()
	case 5:
		var h, v interface{}
		hd := mkdocH(3, 0, append([]byte{1}, doc[6:]...), doc[6:])
		b, doc = exact(hd), hd
		sereal.NewDecoder().UnmarshalHeaderBody(b, &h, &v)
	case 6:
		z := snappyBlock(doc[6:])
		doc = mkdoc(2, 2, append(putVarint(nil, uint64(len(z))), z...))
		b = exact(doc)
		sereal.NewMerger().Append(b)
	}
	sym.Assert(eqBytes(b, doc), "input modified")
	sym.Reach("end")
}

// C19_Rich: documents that use every tag.
func C19_Rich() {
	doc := exact(mkdoc(3, 0, richDoc(sym.Choose(len(richDocs)), 3)))
	var out interface{} = new(interface{})
	if k := sym.Choose(len(richDests) + 1); k > 0 {
		out = dest(richDests[k-1])
	}
	keeps(doc, out)
}
