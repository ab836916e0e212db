package zzverif

import (
	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// eqTree compares a tree with a decoded one: pointers put in by PerlCompat are
// followed, nil and empty containers are the same.
func eqTree(want, got interface{}) bool {
	switch p := got.(type) {
	case *[]interface{}:
		got = *p
	case *map[string]interface{}:
		got = *p
	case *interface{}:
		got = *p
	}
	switch w := want.(type) {
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !eqTree(w[i], g[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for k, v := range w {
			x, ok := g[k]
			if !ok || !eqTree(v, x) {
				return false
			}
		}
		return true
	case nil:
		_, undef := got.(*sereal.PerlUndef)
		return got == nil || undef
	case int:
		g, ok := got.(int)
		return ok && g == w
	case bool:
		g, ok := got.(bool)
		return ok && g == w
	case string:
		g, ok := got.(string)
		return ok && g == w
	case float64:
		g, ok := got.(float64)
		return ok && f64bits(g) == f64bits(w)
	case []byte:
		g, ok := got.([]byte)
		return ok && eqBytes(g, w)
	}
	return false
}

// leaf is a scalar with arbitrary content.
func leaf(kinds int) interface{} {
	switch sym.Choose(kinds) {
	case 0:
		return int(int8(sym.Byte()))
	case 1:
		return sym.Str(1)
	case 2:
		return sym.Bytes(1)
	case 3:
		return nil
	case 4:
		return sym.Bool()
	}
	return f64from(sym.Uint64())
}

// tree is any tree of the given depth with at most two entries per container.
func tree(depth, kinds int) interface{} {
	if depth == 0 {
		return leaf(kinds)
	}
	switch sym.Choose(8) {
	case 0:
		return leaf(kinds)
	case 1:
		return []interface{}(nil)
	case 2:
		return []interface{}{tree(depth-1, kinds)}
	case 3:
		if sym.Tier() == 0 {
			return []interface{}{tree(depth-1, kinds), leaf(2)}
		}
		return []interface{}{tree(depth-1, kinds), tree(depth-1, kinds)}
	case 4:
		return map[string]interface{}(nil)
	case 5:
		return map[string]interface{}{sym.Str(1): tree(depth-1, kinds)}
	case 6:
		m := map[string]interface{}{sym.Str(1): tree(depth-1, kinds)}
		m[sym.Str(1)] = leaf(2)
		return m
	}
	m := map[string]interface{}{"": tree(depth-1, kinds)}
	m["\xc3\xa9"] = leaf(2)
	return m
}

// settings is an encoder and a decoder in any configuration.
func settings() (*sereal.Encoder, *sereal.Decoder) {
	e, d := encDec()
	e.DisableDedup = sym.Bool()
	e.ExpectedSize = uint(sym.Choose(2) * 64)
	return e, d
}

func checkTree(e *sereal.Encoder, d *sereal.Decoder, v, want interface{}) {
	var out interface{}
	roundtrip(e, d, v, &out)
	sym.MapOrder(0) // only the encoder's order matters
	sym.Assert(eqTree(want, out), "value changed")
	sym.Reach("end")
}

// C08_Trees: every tree of depth two over integers and strings.
func C08_Trees() {
	v := tree(2, sym.Bound(1, 2))
	e, d := encDec()
	e.DisableDedup = sym.Bool()
	checkTree(e, d, v, v)
}

// C08_Leaves: every tree of depth one over all leaves, all settings.
func C08_Leaves() {
	v := tree(1, 6)
	e, d := settings()
	checkTree(e, d, v, v)
}

func keyOf(k int) string {
	switch k {
	case 0:
		return sym.Str(1)
	case 1:
		return sym.Str(2)
	}
	return string(longBytes(33))
}

// C08_Keys: keys that may or may not coincide, at several depths.
func C08_Keys() {
	sym.MapOrder(2)
	n := sym.Choose(2) // length class
	a, b, c := keyOf(n), keyOf(n), keyOf(n)
	var v interface{}
	switch sym.Choose(6) {
	case 0:
		v = []interface{}{map[string]interface{}{a: 1}, map[string]interface{}{b: 2}, map[string]interface{}{c: 3}}
	case 1:
		v = map[string]interface{}{a: map[string]interface{}{b: map[string]interface{}{c: 1}}}
	case 2:
		m := map[string]interface{}{a: 1, b: 2}
		v = []interface{}{m, map[string]interface{}{c: m}}
	case 3:
		// values equal to keys
		v = []interface{}{a, map[string]interface{}{b: a}, map[string]interface{}{c: []byte(b)}, c}
	case 4:
		m := map[string]interface{}{a: 1}
		m[b] = 2
		m[c] = 3
		v = []interface{}{m, m}
	case 5:
		v = map[string]interface{}{a: []interface{}{map[string]interface{}{b: a}, map[string]interface{}{c: b}}, b: c}
	}
	e, d := encDec()
	e.DisableDedup = sym.Bool()
	checkTree(e, d, v, v)
}

// C08_LongKeys: long keys that are almost alike.
func C08_LongKeys() {
	sym.MapOrder(0)
	n := []int{2, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300, 1025}[sym.Choose(14)]
	a, b := alike(n), alike(n)
	var v interface{}
	switch sym.Choose(3) {
	case 0:
		v = []interface{}{map[string]interface{}{a: 1}, map[string]interface{}{b: 2}, map[string]interface{}{a: 3}}
	case 1:
		v = map[string]interface{}{a: map[string]interface{}{b: a}}
	case 2:
		v = []interface{}{map[string]interface{}{a: b, b: a}, a, map[string]interface{}{b: a}}
	}
	e, d := encDec()
	e.DisableDedup = sym.Bool()
	checkTree(e, d, v, v)
}

// C08_Far: keys repeated across 128, so that offsets take one or two bytes.
func C08_Far() {
	fill := sym.UpTo(100, sym.Bound(130, 140))
	k := "k" + sym.Str(1)
	l := "k" + sym.Str(1)
	v := []interface{}{string(make([]byte, fill)), map[string]interface{}{k: 1, "x": 7}, map[string]interface{}{l: 2, "x": 8}, map[string]interface{}{k: 3, l: 4}}
	e, d := encDec()
	checkTree(e, d, v, v)
}

// C08_VeryFar: the same across 16384.
func C08_VeryFar() {
	fill := sym.UpTo(16360, sym.Bound(16375, 16390))
	k := "k" + sym.Str(1)
	v := []interface{}{string(make([]byte, fill)), map[string]interface{}{k: 1, "x": 7}, map[string]interface{}{k: 2, "x": 8}}
	e, d := encDec()
	checkTree(e, d, v, v)
}

// C08_Typed: typed slices and maps, encoded by reflection.
func C08_Typed() {
	a, b := sym.Str(1), sym.Str(1)
	i, j := int16(sym.Uint16()), int16(sym.Uint16())
	x, y := interface{}(int(i)), interface{}(int(j))
	var v, want interface{}
	switch sym.Choose(14) {
	case 0:
		v, want = []string{a, b}, []interface{}{a, b}
	case 1:
		v, want = map[string]string{a: b}, map[string]interface{}{a: b}
	case 2:
		v, want = []map[string]int16{{a: i}, {b: j}}, []interface{}{map[string]interface{}{a: x}, map[string]interface{}{b: y}}
	case 3:
		v, want = map[string][]int16{a: {i, j}}, map[string]interface{}{a: []interface{}{x, y}}
	case 4:
		v, want = [2]int16{i, j}, []interface{}{x, y}
	case 5:
		v, want = [][]string{{a}, nil, {b, a}}, []interface{}{[]interface{}{a}, []interface{}{}, []interface{}{b, a}}
	case 6:
		v, want = map[string]map[string]int16{a: {a: i}}, map[string]interface{}{a: map[string]interface{}{a: x}}
	case 7:
		v, want = map[myS]int16{myS(a): i}, map[string]interface{}{a: x}
	case 8:
		v, want = map[string]interface{}{a: []string{b}, "k": map[string]string{a: b}}, map[string]interface{}{a: []interface{}{b}, "k": map[string]interface{}{a: b}}
		sym.Assume(a != "k")
	case 9:
		v, want = []interface{}{map[string]string{a: b}, map[string]interface{}{b: a}}, []interface{}{map[string]interface{}{a: b}, map[string]interface{}{b: a}}
	case 10:
		v, want = map[interface{}]interface{}{a: i}, map[string]interface{}{a: x}
	case 11:
		v, want = map[uint8]string{7: a, 8: b}, map[string]interface{}{"7": a, "8": b}
	case 12:
		v, want = [][2]bool{{true, false}}, []interface{}{[]interface{}{true, false}}
	case 13:
		v, want = []myS{myS(a), myS(b)}, []interface{}{a, b}
	}
	e, d := settings()
	checkTree(e, d, v, want)
}

// C08_TypedTarget: into variables of the same type.
func C08_TypedTarget() {
	a, b := sym.Str(1), sym.Str(1)
	i, j := int16(sym.Uint16()), int16(sym.Uint16())
	sym.Assume(a != b)
	e, d := settings()
	switch sym.Choose(9) {
	case 0:
		v, out := []string{a, b}, []string(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && out[0] == a && out[1] == b, "value changed")
	case 1:
		v, out := map[string]int16{a: i, b: j}, map[string]int16(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && out[a] == i && out[b] == j, "value changed")
	case 2:
		v, out := []map[string]int16{{a: i}, {b: j, a: i}}, []map[string]int16(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && len(out[0]) == 1 && len(out[1]) == 2 && out[0][a] == i && out[1][b] == j && out[1][a] == i, "value changed")
	case 3:
		v, out := map[string][]int16{a: {i, j}, b: {j}}, map[string][]int16(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && len(out[a]) == 2 && out[a][0] == i && out[a][1] == j && len(out[b]) == 1 && out[b][0] == j, "value changed")
	case 4:
		v, out := [3]int16{i, j, i}, [3]int16{}
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 5:
		v, out := [][]string{{a}, {b, a}}, [][]string(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && len(out[0]) == 1 && out[0][0] == a && len(out[1]) == 2 && out[1][0] == b && out[1][1] == a, "value changed")
	case 6:
		v, out := map[string]map[string]int16{a: {b: i}, b: {a: j}}, map[string]map[string]int16(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && len(out[a]) == 1 && out[a][b] == i && len(out[b]) == 1 && out[b][a] == j, "value changed")
	case 7:
		v, out := map[string]interface{}{a: int(i), b: a}, map[string]interface{}(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && out[a] == int(i) && out[b] == a, "value changed")
	case 8:
		v, out := []interface{}{a, int(i)}, []interface{}(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && out[0] == a && out[1] == int(i), "value changed")
	}
	sym.Reach("end")
}

// C08_Wide: container lengths around 15/16, 127/128.
func C08_Wide() {
	n := []int{3, 14, 15, 16, 17, 31, 32, 127, 128, 129}[sym.Choose(10)]
	c := sym.Byte()
	e, d := encDec()
	if sym.Bool() {
		a := make([]interface{}, n)
		for i := range a {
			a[i] = i
		}
		a[n-1] = string([]byte{c})
		checkTree(e, d, a, a)
		return
	}
	sym.MapOrder(0)
	m := map[string]interface{}{}
	for i := 0; i < n; i++ {
		m[string([]byte{'a' + byte(i/26), 'a' + byte(i%26)})] = i
	}
	m["aa"] = string([]byte{c})
	checkTree(e, d, []interface{}{m, m}, []interface{}{m, m})
}

// C08_Compress: the same under compression with any threshold around the length.
func C08_Compress() {
	e, d := encDec()
	k, x := sym.Str(1), sym.Str(1)
	v := []interface{}{map[string]interface{}{k: 1}, map[string]interface{}{k: x}}
	raw, err := e.Marshal(v)
	sym.Assert(err == nil, "Marshal fails")
	e.CompressionThreshold = len(raw) - 6 + sym.UpTo(-1, 1)
	if e.CompressionThreshold == 0 {
		e.CompressionThreshold = 1
	}
	e.Compression = sereal.ZlibCompressor{}
	b, err := e.Marshal(v)
	if err != nil {
		sym.Assert(raw[4]&15 < 3, "Marshal fails")
		sym.Reach("refused")
		return
	}
	var out interface{}
	sym.Assert(d.Unmarshal(exact(b), &out) == nil, "Unmarshal fails")
	sym.Assert(eqTree(v, out), "value changed")
	sym.Reach("end")
}
