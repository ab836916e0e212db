package zzverif

import (
	"encoding/json"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

type (
	parIn struct {
		X int    `sereal:"x"`
		Y string // no tag
		Z int    `sereal:"-"`
	}
	parOut struct {
		A parIn `sereal:"a"`
		B *parIn
		C []parIn `sereal:"c"`
		D map[string]parIn
		E interface{}
	}
	parFrz struct{ b []byte }
)

func (f parFrz) MarshalBinary() ([]byte, error)  { return clone(f.b), nil }
func (f *parFrz) UnmarshalBinary(b []byte) error { f.b = clone(b); return nil }

// parMarshal encodes v with the package-level function and looks at the result.
func parMarshal(v, want interface{}) func() {
	return func() {
		b, err := sereal.Marshal(v)
		sym.Assert(err == nil, "Marshal fails")
		var out interface{}
		sym.Assert(sereal.NewDecoder().Unmarshal(b, &out) == nil, "Unmarshal fails")
		sym.Assert(eqTree(want, out), "value changed")
	}
}

func parUnmarshal(doc []byte, want interface{}) func() {
	return func() {
		var out interface{}
		sym.Assert(sereal.Unmarshal(doc, &out) == nil, "Unmarshal fails")
		sym.Assert(eqTree(want, out), "value changed")
	}
}

func parDecompress(doc, want []byte) func() {
	return func() {
		r, err := sereal.DecompressDocument(nil, doc)
		sym.Assert(err == nil && eqBytes(r, want), "wrong document")
		sym.Assert(sereal.LooksLikeSereal(doc), "not a document")
	}
}

const nOps = 26

// parOp is one call of the package-level API on values that both threads share.
func parOp(k int, x string, c byte) func() {
	switch k {
	case 10, 13, 21, 22, 23, 24:
		x, c = "s", 's' // through a compressor
	}
	inner := parIn{5, x, 0}
	innerTree := map[string]interface{}{"x": 5, "Y": x}
	body := append([]byte{tARRAYREF + 2, tHASHREF + 1, tSHORT + 1, 'k', tSHORT + 1}, c, 7)
	bodyTree := []interface{}{map[string]interface{}{"k": []byte{c}}, 7}
	switch k {
	case 0:
		return parMarshal(inner, innerTree)
	case 1:
		return parMarshal(parOut{A: inner, B: &inner, C: []parIn{inner}, D: map[string]parIn{"d": inner}, E: inner},
			map[string]interface{}{"a": innerTree, "B": innerTree, "c": []interface{}{innerTree}, "D": map[string]interface{}{"d": innerTree}, "E": innerTree})
	case 2:
		return parMarshal([]interface{}{map[string]interface{}{"k": x}, map[string]int{"k": 1}}, []interface{}{map[string]interface{}{"k": x}, map[string]interface{}{"k": 1}})
	case 3:
		return parMarshal([]interface{}{x, []byte(x), 1.5, json.Number("17"), true, nil, uint8(3)}, []interface{}{x, []byte(x), 1.5, 17, true, nil, 3})
	case 4:
		v := []interface{}{parFrz{[]byte{c}}, &parFrz{[]byte{c}}}
		return func() {
			b, err := sereal.Marshal(v)
			sym.Assert(err == nil, "Marshal fails")
			d := sereal.NewDecoder()
			d.PerlCompat = true
			var out interface{}
			sym.Assert(d.Unmarshal(b, &out) == nil, "Unmarshal fails")
		}
	case 5:
		n := 300
		p := &n
		return func() {
			b, err := sereal.Marshal([]interface{}{p, p, &inner, &inner})
			sym.Assert(err == nil, "Marshal fails")
			var out []*int
			sereal.NewDecoder().Unmarshal(b, &out)
		}
	case 6:
		v := []interface{}{&sereal.PerlObject{Class: x, Reference: map[string]interface{}{"k": 1}}, sereal.PerlCanonicalUndef(), &sereal.PerlRegexp{Pattern: []byte(x), Modifiers: []byte("i")}}
		return func() {
			b, err := sereal.Marshal(v)
			sym.Assert(err == nil, "Marshal fails")
			d := sereal.NewDecoder()
			d.PerlCompat = true
			var out interface{}
			sym.Assert(d.Unmarshal(b, &out) == nil, "Unmarshal fails")
		}
	case 7:
		return parUnmarshal(mkdoc(3, 0, body), bodyTree)
	case 8:
		return parUnmarshal(mkdoc(1, 1, snappyBlock(body)), bodyTree)
	case 9:
		z := snappyBlock(body)
		return parUnmarshal(mkdoc(2, 2, append([]byte{byte(len(z))}, z...)), bodyTree)
	case 10:
		z := toyDeflate(body)
		return parUnmarshal(mkdoc(3, 3, append([]byte{byte(len(body)), byte(len(z))}, z...)), bodyTree)
	case 11:
		return parDecompress(mkdoc(1, 1, snappyBlock(body)), mkdoc(1, 0, body))
	case 12:
		z := snappyBlock(body)
		return parDecompress(mkdoc(2, 2, append([]byte{byte(len(z))}, z...)), mkdoc(2, 0, body))
	case 13:
		z := toyDeflate(body)
		return parDecompress(mkdoc(3, 3, append([]byte{byte(len(body)), byte(len(z))}, z...)), mkdoc(3, 0, body))
	case 14:
		doc := mkdoc(3, 0, append([]byte{tHASHREF + 2, tSHORT + 1, 'x', 5, tSHORT + 1, 'Y', tSHORT + 1}, c))
		return func() {
			var p parIn
			sym.Assert(sereal.Unmarshal(doc, &p) == nil, "Unmarshal fails")
			sym.Assert(p.X == 5 && p.Y == string([]byte{c}) && p.Z == 0, "value changed")
		}
	case 15:
		doc := mkdoc(3, 0, append([]byte{tHASHREF + 2, tSHORT + 1, 'a', tHASHREF + 1, tSHORT + 1, 'x', 5, tSHORT + 1, 'B', tHASHREF + 1, tSHORT + 1, 'Y', tSHORT + 1}, c))
		return func() {
			var p parOut
			sym.Assert(sereal.Unmarshal(doc, &p) == nil, "Unmarshal fails")
			sym.Assert(p.A.X == 5 && p.B.Y == string([]byte{c}), "value changed")
		}
	case 16:
		doc := mkdoc(3, 0, append([]byte{tHASHREF + 1, tSHORT + 1, 'k', tSHORT + 1}, c))
		return func() {
			var p map[string]string
			sym.Assert(sereal.Unmarshal(doc, &p) == nil && p["k"] == string([]byte{c}), "value changed")
		}
	case 17:
		doc := mkdoc(3, 0, append([]byte{tFREEZE, tSHORT + 1, 'C', tREFN, tARRAY, 1, tSHORT + 1}, c))
		return func() {
			var p parFrz
			sym.Assert(sereal.Unmarshal(doc, &p) == nil && len(p.b) == 1 && p.b[0] == c, "value changed")
		}
	case 18:
		doc := mkdoc(3, 0, []byte{tARRAYREF + 2, c})
		return func() {
			var out interface{}
			if err := sereal.Unmarshal(doc, &out); err != nil {
				sym.Assert(err.Error() != "", "no message")
			}
		}
	case 19:
		return func() {
			_, err := sereal.Marshal([]interface{}{inner, func() {}})
			sym.Assert(err != nil && err.Error() != "", "unsupported type accepted")
		}
	case 20:
		doc := []byte{'=', 0xf3, 'r', 'l', c, c, 1}
		return func() {
			a := sereal.LooksLikeSereal(doc)
			sym.Assert(a == sereal.LooksLikeSereal(doc), "undecided")
			var v interface{}
			sereal.Unmarshal(doc, &v)
			sereal.DecompressDocument(nil, doc)
		}
	case 21, 22, 23:
		v := []interface{}{x, x, inner}
		return func() {
			// an encoder of this thread's own
			e := sereal.NewEncoderV3()
			if k == 21 {
				e.Compression = sereal.ZlibCompressor{}
			} else {
				e.Compression = sereal.SnappyCompressor{Incremental: k == 22}
				if k == 23 {
					e = sereal.NewEncoder()
					e.Compression = sereal.SnappyCompressor{}
				}
			}
			e.CompressionThreshold = 0
			b, err := e.MarshalWithHeader(x, v)
			sym.Assert(err == nil || k == 23, "Marshal fails")
			if err == nil {
				var out interface{}
				sym.Assert(sereal.Unmarshal(b, &out) == nil, "Unmarshal fails")
				sym.Assert(eqTree([]interface{}{x, x, innerTree}, out), "value changed")
			}
		}
	case 24:
		doc := mkdoc(3, 0, body)
		return func() {
			m := sereal.NewMergerV3()
			m.DedupeStrings = true
			m.Compression, m.CompressionThreshold = sereal.ZlibCompressor{}, 0
			_, err := m.Append(doc)
			sym.Assert(err == nil, "Append fails")
			_, err = m.Append(doc)
			sym.Assert(err == nil, "Append fails")
			b, err := m.Finish()
			sym.Assert(err == nil, "Finish fails")
			var out interface{}
			sym.Assert(sereal.Unmarshal(b, &out) == nil, "Unmarshal fails")
			sym.Assert(eqTree([]interface{}{bodyTree, bodyTree}, out), "value changed")
		}
	}
	doc := mkdocH(3, 0, []byte{1, tSHORT + 1, c}, body)
	return func() {
		d := sereal.NewDecoder()
		d.PerlCompat = true
		var h, v interface{}
		sym.Assert(d.UnmarshalHeaderBody(doc, &h, &v) == nil, "Unmarshal fails")
		sym.Assert(eqTree([]byte{c}, h) && eqTree(bodyTree, v), "value changed")
	}
}

// C20_Pairs: every pair of calls, on values that both share.
func C20_Pairs() {
	sym.MapOrder(0)
	i, j := sym.Choose(nOps), sym.Choose(nOps)
	x, c := sym.Str(1), sym.Byte()
	sym.Parallel(parOp(i, x, c), parOp(j, x, c))
	sym.Reach("end")
}

// C20_Warm: the same after one of them has been made already.
func C20_Warm() {
	sym.MapOrder(0)
	i, j := sym.Choose(nOps), sym.Choose(nOps)
	x, c := sym.Str(1), sym.Byte()
	f := parOp(i, x, c)
	f()
	sym.Parallel(f, parOp(j, x, c))
	sym.Reach("end")
}

// C20_Chains: two calls in each thread.
func C20_Chains() {
	sym.MapOrder(0)
	ks := []int{0, 1, 4, 10, 13, 14, 19, 21, 24}
	pick := func() func() { return parOp(ks[sym.Choose(len(ks))], "s", 's') }
	f, g, h := pick(), pick(), pick()
	sym.Parallel(func() { f(); g() }, func() { h(); f() })
	sym.Reach("end")
}

// C20_Docs: any document near the shape of the destination, decoded by both.
func C20_Docs() {
	sym.MapOrder(0)
	doc := exact(mkdoc(3, 0, shape(typedShapes[sym.Choose(len(typedShapes))])))
	k := []int{0, 8, 16, 18, 21, 22, 23, 28, 31}[sym.Choose(9)]
	f := func() { sereal.Unmarshal(doc, dest(k)) }
	sym.Parallel(f, f)
	sym.Reach("end")
}

// C20_Values: any small value, encoded by both.
func C20_Values() {
	sym.MapOrder(0)
	v := tree(1, 6)
	x := sym.Str(1)
	vs := []interface{}{v, []string{x}, map[string]string{x: x}, [2]int8{}, map[int]string{3: x}, []*parIn{{1, x, 2}, {}}, struct {
		A interface{} `sereal:"q"`
		B struct{ C []byte }
	}{A: v}, json.Number("1e5"), []interface{}{v, &v, &v}, myS(x)}
	v = vs[sym.Choose(len(vs))]
	f := func() {
		_, err := sereal.Marshal(v)
		sym.Assert(err == nil, "Marshal fails")
	}
	sym.Parallel(f, f)
	sym.Reach("end")
}
