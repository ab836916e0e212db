package zzverif

import (
	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

type (
	gNode struct {
		V int16
		A *gNode
		B *gNode
	}
	gList struct {
		L []*gNode
		M map[string]*gNode
		P *map[string]int16
		Q *map[string]int16
	}
)

func sharedOpts() (*sereal.Encoder, int) {
	sym.MapOrder(0)
	ver := sym.UpTo(1, sym.Bound(2, 3))
	e := encoderV(ver)
	e.PerlCompat = sym.Bool()
	e.DisableDedup = sym.Bool()
	return e, ver
}

// C22_Graph: every graph over up to four struct nodes, into its own type.
func C22_Graph() {
	e, _ := sharedOpts()
	n := sym.UpTo(1, sym.Bound(3, 4))
	nodes := make([]*gNode, n)
	for i := range nodes {
		nodes[i] = &gNode{V: i16()}
	}
	pick := func() *gNode {
		k := sym.Choose(n + 1)
		if k == n {
			return nil
		}
		return nodes[k]
	}
	for i, x := range nodes {
		x.A = pick()
		if i < sym.Bound(2, 4) {
			x.B = pick()
		}
	}
	var out *gNode
	roundtrip(e, sereal.NewDecoder(), nodes[0], &out)
	sameGraph(nodes[0], out)
	sym.Reach("end")
}

// sameGraph asserts that two graphs of nodes are isomorphic.
func sameGraph(a, b *gNode) {
	var as, bs []*gNode
	var walk func(a, b *gNode)
	walk = func(a, b *gNode) {
		sym.Assert((a == nil) == (b == nil), "pointer lost or invented")
		if a == nil {
			return
		}
		for i := range as {
			sym.Assert((as[i] == a) == (bs[i] == b), "sharing changed")
			if as[i] == a {
				return
			}
		}
		as, bs = append(as, a), append(bs, b)
		sym.Assert(a.V == b.V, "content changed")
		walk(a.A, b.A)
		walk(a.B, b.B)
	}
	walk(a, b)
}

// C22_Places: the same node in slices, maps and fields.
func C22_Places() {
	e, _ := sharedOpts()
	x, y := &gNode{V: i16()}, &gNode{V: i16()}
	nodes := []*gNode{x, y}
	pick := func() *gNode { return nodes[sym.Choose(2)] }
	if sym.Bool() {
		x.A = y
	}
	if sym.Bool() {
		y.A = x
	}
	m, m2 := map[string]int16{sym.Str(1): i16()}, map[string]int16{}
	v := gList{L: []*gNode{pick(), pick(), pick()}, M: map[string]*gNode{"k": pick()}, P: &m, Q: &m2}
	if sym.Bool() {
		v.Q = &m
	}
	var out gList
	roundtrip(e, sereal.NewDecoder(), v, &out)
	sym.Assert(len(out.L) == 3 && len(out.M) == 1, "wrong length")
	as := []*gNode{v.L[0], v.L[1], v.L[2], v.M["k"]}
	bs := []*gNode{out.L[0], out.L[1], out.L[2], out.M["k"]}
	for i := range as {
		for j := 0; j < i; j++ {
			sym.Assert((as[i] == as[j]) == (bs[i] == bs[j]), "sharing changed")
		}
		sameGraph(as[i], bs[i])
	}
	sym.Assert(len(*out.P) == 1 && len(*out.Q) == len(*v.Q) && (out.P == out.Q) == (v.P == v.Q), "sharing changed")
	for k, x := range m {
		sym.Assert((*out.P)[k] == x, "content changed")
	}
	sym.Reach("end")
}

// C22_Far: every way three pointers share two structs, near and far apart.
func C22_Far() {
	e, _ := sharedOpts()
	x, y := nIn{i16(), "x"}, nIn{i16(), "x"}
	vars := []*nIn{&x, &y}
	v := []*nIn{vars[sym.Choose(2)], vars[sym.Choose(2)], vars[sym.Choose(2)]}
	far := []int{0, 5, 6, 12}[sym.Choose(4)] // offsets of two bytes
	long := make([]*nIn, far)
	for i := range long {
		long[i] = &nIn{0x101, "y"}
	}
	v = append(v[:1:1], append(long, v[1:]...)...)
	var out []*nIn
	roundtrip(e, sereal.NewDecoder(), v, &out)
	sym.Assert(len(out) == len(v), "wrong length")
	for i := range v {
		sym.Assert(*out[i] == *v[i], "content changed")
	}
	n := len(v)
	for _, p := range [][2]int{{0, n - 2}, {0, n - 1}, {n - 2, n - 1}, {0, 1}} {
		sym.Assert((v[p[0]] == v[p[1]]) == (out[p[0]] == out[p[1]]), "sharing changed")
	}
	sym.Reach("end")
}

// pointee describes what a pointer of C22_Encoding points to.
type pointee struct {
	p   interface{}
	val interface{}
}

// C22_Encoding: every way four pointers share items of every kind: the
// document refers back exactly to the first occurrence.
func C22_Encoding() {
	e, ver := sharedOpts()
	x, y := int(i16()), int(i16())
	s, t := sym.Str(1), sym.Str(1)
	a, m := []interface{}{x, s}, map[string]interface{}{s: x}
	a2, m2 := []interface{}{x, s}, map[string]interface{}{s: x}
	f := true
	px := &x
	in, in2 := nIn{int16(7), s}, nIn{int16(7), s}
	arr, arr2 := [1]int{x}, [1]int{x}
	by, by2 := []byte(s), []byte(s)
	fields := map[string]interface{}{"X": 7, "why": s}
	all := []pointee{{&x, x}, {&y, y}, {&s, s}, {&t, t}, {&a, a}, {&m, m}, {&a2, a2}, {&m2, m2}, {&f, f}, {&px, nil}, {&in, fields}, {&in2, fields},
		{&arr, []interface{}{x}}, {&arr2, []interface{}{x}}, {&by, by}, {&by2, by2}}
	// variables of interface type
	var ix, ix2, ia, im, io interface{} = x, x, []interface{}{s}, map[string]interface{}{s: x}, nIn{int16(7), s}
	all = append(all, pointee{&ix, x}, pointee{&ix2, x}, pointee{&ia, ia}, pointee{&im, im}, pointee{&io, fields})
	n := 3
	i := sym.Choose(len(all))
	ks := []int{i, sym.Choose(len(all)), i}
	if sym.Tier() > 0 {
		ks = append(ks, sym.Choose(len(all)))
		n++
	}
	v := make([]interface{}, n)
	for j, k := range ks {
		v[j] = all[k].p
	}
	d := conform(e, ver, v)
	if e.PerlCompat {
		d = d.kids[0]
	}
	sym.Assert(d.k == rArr && len(d.kids) == n, "wrong array")
	for j, k := range ks {
		r := d.kids[j]
		sym.Assert(r.k == rRef, "no reference")
		first := true
		for l := 0; l < j; l++ {
			if ks[l] == k {
				first = false
			}
			one := k == ks[l] || string1(all[k].p) && string1(all[ks[l]].p) // equal strings may share memory
			sym.Assert(one || r.kids[0] != d.kids[l].kids[0], "different items merged")
			sym.Assert(ks[l] != k || r.kids[0] == d.kids[l].kids[0], "shared item encoded twice")
		}
		sym.Assert(first || r.refp, "no back reference")
		c := r.kids[0]
		switch {
		case all[k].val == nil:
			sym.Assert(c.k == rRef && denotes(c.kids[0], x, e.PerlCompat), "content changed")
		case k == 10 || k == 11 || k == 20:
			sym.Assert(isObject(c, "nIn", fields, e.PerlCompat), "content changed")
		case e.PerlCompat && (c.k == rArr || c.k == rHash):
			// the reference PerlCompat wants is the pointer itself
			sym.Assert(denotes(&rnode{k: rRef, kids: []*rnode{c}}, all[k].val, true), "content changed")
		default:
			sym.Assert(denotes(c, all[k].val, e.PerlCompat), "content changed")
		}
	}
	sym.Reach("end")
}

func string1(v interface{}) bool { _, ok := v.(*string); return ok }

type (
	cvMap map[string]int16
	cvIn  nIn
	cvAll struct {
		A *map[string]int16
		B *cvMap
		C *nIn
		D *cvIn
		E *map[string]int16
		F *nIn
	}
)

// C22_Conversions: pointers of different types to the same thing.
func C22_Conversions() {
	e, _ := sharedOpts()
	m := map[string]int16{sym.Str(1): i16()}
	mm := cvMap(m)
	in := nIn{i16(), sym.Str(1)}
	var v, out cvAll
	if sym.Bool() {
		v.A = &m
	}
	if sym.Bool() {
		v.B = &mm
	}
	if sym.Bool() {
		v.C = &in
	}
	if sym.Bool() {
		v.D = (*cvIn)(&in)
	}
	if sym.Bool() {
		v.E = &m
	}
	if sym.Bool() {
		v.F = &in
	}
	roundtrip(e, sereal.NewDecoder(), v, &out)
	eqMap := func(a map[string]int16) bool {
		ok := len(a) == 1
		for k, x := range m {
			y, found := a[k]
			ok = ok && found && x == y
		}
		return ok
	}
	sym.Assert((v.A == nil) == (out.A == nil) && (v.A == nil || eqMap(*out.A)), "content changed")
	sym.Assert((v.B == nil) == (out.B == nil) && (v.B == nil || eqMap(map[string]int16(*out.B))), "content changed")
	sym.Assert((v.E == nil) == (out.E == nil) && (v.E == nil || eqMap(*out.E)), "content changed")
	sym.Assert((v.C == nil) == (out.C == nil) && (v.C == nil || *out.C == in), "content changed")
	sym.Assert((v.D == nil) == (out.D == nil) && (v.D == nil || nIn(*out.D) == in), "content changed")
	sym.Assert((v.F == nil) == (out.F == nil) && (v.F == nil || *out.F == in), "content changed")
	sym.Assert(v.C == nil || v.F == nil || out.C == out.F, "sharing lost")
	sym.Assert(v.A == nil || v.E == nil || out.A == out.E, "sharing lost")
	sym.Reach("end")
}

// C22_Documents: references in a document, into typed destinations.
func C22_Documents() {
	base := byte(0)
	ver := 3
	if sym.Bool() {
		ver, base = 1, 5
	}
	c := sym.Byte()
	sym.Assume(c < 16)
	d := sereal.NewDecoder()
	dec := func(body []byte, v interface{}) {
		sym.Assert(d.Unmarshal(exact(mkdoc(ver, 0, body)), v) == nil, "Unmarshal fails")
	}
	switch sym.Choose(6) {
	case 0:
		var out []*map[string]int
		dec([]byte{tARRAYREF + 3, tREFN, trackBit | tHASH, 1, tSHORT + 1, 'k', c, tREFP, base + 3, tREFP, base + 3}, &out)
		sym.Assert(len(out) == 3 && (*out[0])["k"] == int(c) && out[0] == out[1] && out[0] == out[2], "sharing lost")
	case 1:
		var out []*nIn
		dec([]byte{tARRAYREF + 2, tREFN, trackBit | tHASH, 1, tSHORT + 1, 'X', c, tREFP, base + 3}, &out)
		sym.Assert(len(out) == 2 && out[0].X == int16(c) && out[0] == out[1], "sharing lost")
	case 2:
		var out []*nIn
		dec([]byte{tARRAYREF + 3, tREFN, trackBit | tHASH, 1, tSHORT + 1, 'X', c, tREFN, trackBit | tHASH, 1, tSHORT + 1, 'X', c, tREFP, base + 9}, &out)
		sym.Assert(len(out) == 3 && out[0].X == int16(c) && out[0] != out[1] && out[1] == out[2] && out[1].X == int16(c), "sharing changed")
	case 3:
		var out []*gNode
		dec([]byte{tARRAYREF + 1, tREFN, trackBit | tHASH, 2, tSHORT + 1, 'V', c, tSHORT + 1, 'A', tREFP, base + 3}, &out)
		sym.Assert(len(out) == 1 && out[0].V == int16(c) && out[0].A == out[0] && out[0].B == nil, "cycle lost")
	case 4:
		var out map[string]*nIn
		dec([]byte{tHASHREF + 2, tSHORT + 1, 'a', tREFN, trackBit | tHASH, 1, tSHORT + 1, 'X', c, tSHORT + 1, 'b', tREFP, base + 5}, &out)
		sym.Assert(len(out) == 2 && out["a"].X == int16(c) && out["a"] == out["b"], "sharing lost")
	case 5:
		var out []*nIn
		dec([]byte{tARRAYREF + 2, tOBJECT, tSHORT + 1, 'c', tREFN, trackBit | tHASH, 1, tSHORT + 1, 'X', c, tOBJECTV, base + 3, tREFP, base + 6}, &out)
		sym.Assert(len(out) == 2 && out[0].X == int16(c) && out[0] == out[1], "sharing lost")
	}
	sym.Reach("end")
}

// C22_Untyped: the same content wherever an item is referred to.
func C22_Untyped() {
	e, _ := sharedOpts()
	x, s := int(i16()), sym.Str(1)
	a, m := []interface{}{x, s}, map[string]interface{}{s: x}
	all := []interface{}{&x, &s, &a, &m}
	wants := []interface{}{x, s, a, m}
	i, j := sym.Choose(4), sym.Choose(4)
	d := sereal.NewDecoder()
	d.PerlCompat = e.PerlCompat
	d.DisableReferentialIntegrity = sym.Bool()
	var out interface{}
	roundtrip(e, d, []interface{}{all[i], all[j], all[i]}, &out)
	if p, ok := out.(*[]interface{}); ok {
		out = *p
	}
	l, ok := out.([]interface{})
	sym.Assert(ok && len(l) == 3, "wrong array")
	for n, k := range []int{i, j, i} {
		switch p := l[n].(type) {
		case *int:
			l[n] = *p
		case *string:
			l[n] = *p
		}
		sym.Assert(eqTree(wants[k], l[n]), "content changed")
	}
	sym.Reach("end")
}

type (
	gIn  struct{ X int16 }
	gOut struct {
		A gIn
		B int16
	}
)

// C22_Overlap: pointers to things that share memory but are different items.
func C22_Overlap() {
	e, ver := sharedOpts()
	o := gOut{gIn{i16()}, 300}
	xs := []interface{}{int(o.A.X), 2, 3}
	s1, s2, s3 := xs[:1], xs[:2], xs[1:]
	arr := [2][1]int{{int(o.A.X)}, {9}}
	ms := []map[string]interface{}{{"k": int(o.A.X)}}
	m := ms[0]
	fa := map[string]interface{}{"X": int(o.A.X)}
	fo := map[string]interface{}{"A": fa, "B": 300}
	b1 := []byte{1, 2, 3}
	b2 := b1[:2]
	st := "ab" + sym.Str(1)
	st2 := st[:2]
	all := []pointee{{&o, fo}, {&o.A, fa}, {&o.A.X, int(o.A.X)}, {&s1, s1}, {&s2, s2}, {&s3, s3}, {&xs, xs}, {&arr, []interface{}{[]interface{}{int(o.A.X)}, []interface{}{9}}},
		{&arr[0], []interface{}{int(o.A.X)}}, {&arr[0][0], int(o.A.X)}, {&m, m}, {&b1, b1}, {&b2, b2}, {&b1[0], 1}, {&st, st}, {&st2, st2}}
	ks := []int{sym.Choose(len(all)), sym.Choose(len(all))}
	if sym.Tier() > 0 {
		ks = append(ks, sym.Choose(len(all)))
	}
	v := make([]interface{}, len(ks))
	for j, k := range ks {
		v[j] = all[k].p
	}
	d := conform(e, ver, v)
	if e.PerlCompat {
		d = d.kids[0]
	}
	sym.Assert(d.k == rArr && len(d.kids) == len(ks), "wrong array")
	for j, k := range ks {
		r := d.kids[j]
		sym.Assert(r.k == rRef, "no reference")
		c := r.kids[0]
		switch {
		case k == 0:
			sym.Assert(c.k == rObj && eqBytes(c.b, []byte("gOut")), "content changed")
			h := c.kids[0]
			if e.PerlCompat {
				h = h.kids[0]
			}
			ok := false
			for i := 0; i < len(h.kids); i += 2 {
				ok = ok || eqBytes(h.kids[i].b, []byte("A")) && isObject(h.kids[i+1], "gIn", fa, e.PerlCompat)
			}
			sym.Assert(ok && len(h.kids) == 4, "content changed")
		case k == 1:
			sym.Assert(isObject(c, "gIn", fa, e.PerlCompat), "content changed")
		case e.PerlCompat && (c.k == rArr || c.k == rHash):
			sym.Assert(denotes(&rnode{k: rRef, kids: []*rnode{c}}, all[k].val, true), "content changed")
		default:
			sym.Assert(denotes(c, all[k].val, e.PerlCompat), "content changed")
		}
	}
	sym.Reach("end")
}
