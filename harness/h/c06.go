package zzverif

import (
	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

type (
	myI   int
	myI8  int8
	myI16 int16
	myI32 int32
	myI64 int64
	myU   uint
	myU8  uint8
	myU16 uint16
	myU32 uint32
	myU64 uint64
)

// roundtrip encodes v and decodes the result into out.
func roundtrip(e *sereal.Encoder, d *sereal.Decoder, v, out interface{}) {
	b, err := e.Marshal(v)
	sym.Assert(err == nil, "Marshal fails")
	err = d.Unmarshal(exact(b), out)
	sym.Assert(err == nil, "Unmarshal fails")
}

func encDec() (*sereal.Encoder, *sereal.Decoder) {
	e := encoderV(sym.UpTo(1, 3))
	d := sereal.NewDecoder()
	if sym.Bool() {
		e.PerlCompat, d.PerlCompat = true, true
	}
	return e, d
}

// sameInt reports whether an untyped result is the integer u (signed: int64(u)).
func sameInt(out interface{}, u uint64, signed bool) bool {
	switch x := out.(type) {
	case int:
		return uint64(x) == u && (signed || x >= 0)
	case uint:
		return uint64(x) == u && !signed && int64(u) < 0
	}
	return false
}

func intCase(k int, u uint64) (v interface{}, want uint64, signed bool) {
	switch k {
	case 0:
		return int(u), u, true
	case 1:
		return int8(u), uint64(int64(int8(u))), true
	case 2:
		return int16(u), uint64(int64(int16(u))), true
	case 3:
		return int32(u), uint64(int64(int32(u))), true
	case 4:
		return int64(u), u, true
	case 5:
		return uint(u), u, false
	case 6:
		return uint8(u), uint64(uint8(u)), false
	case 7:
		return uint16(u), uint64(uint16(u)), false
	case 8:
		return uint32(u), uint64(uint32(u)), false
	case 9:
		return u, u, false
	case 10:
		return myI(u), u, true
	case 11:
		return myI8(u), uint64(int64(int8(u))), true
	case 12:
		return myI16(u), uint64(int64(int16(u))), true
	case 13:
		return myI32(u), uint64(int64(int32(u))), true
	case 14:
		return myI64(u), u, true
	case 15:
		return myU(u), u, false
	case 16:
		return myU8(u), uint64(uint8(u)), false
	case 17:
		return myU16(u), uint64(uint16(u)), false
	case 18:
		return myU32(u), uint64(uint32(u)), false
	}
	return myU64(u), u, false
}

// C06_Untyped: every value of every integer type into an untyped target.
func C06_Untyped() {
	e, d := encDec()
	v, want, signed := intCase(sym.Choose(20), sym.Uint64())
	var out interface{}
	roundtrip(e, d, v, &out)
	sym.Assert(sameInt(out, want, signed), "value changed")
	sym.Reach("end")
}

// C06_Inside: the same inside slices, maps, structs and behind pointers.
func C06_Inside() {
	e, d := encDec()
	v, want, signed := intCase(sym.Choose(20), sym.Uint64())
	if d.PerlCompat {
		d.PerlCompat = false
	}
	var out interface{}
	switch sym.Choose(4) {
	case 0:
		roundtrip(e, d, []interface{}{v, true}, &out)
		a, ok := out.([]interface{})
		sym.Assert(ok && len(a) == 2 && a[1] == true, "container changed")
		out = a[0]
	case 1:
		roundtrip(e, d, map[string]interface{}{"k": v}, &out)
		m, ok := out.(map[string]interface{})
		sym.Assert(ok && len(m) == 1, "container changed")
		out = m["k"]
	case 2:
		roundtrip(e, d, &v, &out)
	case 3:
		roundtrip(e, d, struct{ A interface{} }{v}, &out)
		m, ok := out.(map[string]interface{})
		sym.Assert(ok && len(m) == 1, "container changed")
		out = m["A"]
	}
	sym.Assert(sameInt(out, want, signed), "value changed")
	sym.Reach("end")
}

// C06_Typed: every value of every integer type into a variable of that type.
func C06_Typed() {
	e, d := encDec()
	u := sym.Uint64()
	switch sym.Choose(20) {
	case 0:
		v, out := int(u), 7
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 1:
		v, out := int8(u), int8(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 2:
		v, out := int16(u), int16(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 3:
		v, out := int32(u), int32(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 4:
		v, out := int64(u), int64(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 5:
		v, out := uint(u), uint(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 6:
		v, out := uint8(u), uint8(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 7:
		v, out := uint16(u), uint16(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 8:
		v, out := uint32(u), uint32(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 9:
		v, out := u, uint64(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 10:
		v, out := myI(u), myI(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 11:
		v, out := myI8(u), myI8(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 12:
		v, out := myI16(u), myI16(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 13:
		v, out := myI32(u), myI32(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 14:
		v, out := myI64(u), myI64(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 15:
		v, out := myU(u), myU(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 16:
		v, out := myU8(u), myU8(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 17:
		v, out := myU16(u), myU16(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 18:
		v, out := myU32(u), myU32(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 19:
		v, out := myU64(u), myU64(7)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	}
	sym.Reach("end")
}

// C06_TypedInside: slices, arrays, maps, structs and pointers of integers.
func C06_TypedInside() {
	e, d := encDec()
	a, b := sym.Uint64(), sym.Uint16()
	switch sym.Choose(7) {
	case 0:
		v, out := []int64{int64(a), int64(b)}, []int64(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && out[0] == v[0] && out[1] == v[1], "value changed")
	case 1:
		v, out := [2]uint64{a, uint64(b)}, [2]uint64{}
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 2:
		v, out := map[string]uint32{"k": uint32(a)}, map[string]uint32(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 1 && out["k"] == v["k"], "value changed")
	case 3:
		type s struct {
			A int32
			B myU64
			C int16
		}
		v, out := s{int32(a), myU64(a), int16(b)}, s{}
		d.PerlCompat, e.PerlCompat = false, false
		roundtrip(e, d, v, &out)
		sym.Assert(out.A == v.A && out.B == v.B && out.C == v.C, "value changed")
	case 4:
		v, out := []uint{uint(a), uint(b)}, []uint(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && out[0] == v[0] && out[1] == v[1], "value changed")
	case 5:
		v, out := []myI8{myI8(a), myI8(b)}, []myI8(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && out[0] == v[0] && out[1] == v[1], "value changed")
	case 6:
		v, out := map[string][]myU16{"k": {myU16(b), myU16(a)}}, map[string][]myU16(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 1 && len(out["k"]) == 2 && out["k"][0] == v["k"][0] && out["k"][1] == v["k"][1], "value changed")
	}
	sym.Reach("end")
}

// C06_Marshal: the package functions.
func C06_Marshal() {
	v := int64(sym.Uint64())
	b, err := sereal.Marshal(v)
	sym.Assert(err == nil, "Marshal fails")
	var out interface{}
	err = sereal.Unmarshal(b, &out)
	sym.Assert(err == nil, "Unmarshal fails")
	sym.Assert(sameInt(out, uint64(v), true), "value changed")
	sym.ObsBytes("enc", b)
	sym.Reach("end")
}

// C06_Keys: integers as map keys come back as their decimal strings.
func C06_Keys() {
	e, d := encDec()
	k := int16(sym.Uint16())
	sym.Assume(k >= -10 && k <= 110)
	d.PerlCompat, e.PerlCompat = false, false
	var out interface{}
	roundtrip(e, d, map[int16]bool{k: true}, &out)
	m, ok := out.(map[string]interface{})
	sym.Assert(ok && len(m) == 1, "value changed")
	for s, v := range m {
		n, neg := 0, false
		for i := 0; i < len(s); i++ {
			if i == 0 && s[i] == '-' {
				neg = true
				continue
			}
			sym.Assert(s[i] >= '0' && s[i] <= '9', "key is no number")
			n = n*10 + int(s[i]-'0')
		}
		if neg {
			n = -n
		}
		sym.Assert(v == true && n == int(k), "key changed")
	}
	sym.Reach("end")
}

// C06_MapKeys: integer keys survive into a map of the same type.
func C06_MapKeys() {
	e, d := encDec()
	b := sym.Byte()
	switch sym.Choose(8) {
	case 0:
		var out map[int8]bool
		roundtrip(e, d, map[int8]bool{int8(b): true}, &out)
		sym.Assert(len(out) == 1 && out[int8(b)], "key changed")
	case 1:
		var out map[uint8]bool
		roundtrip(e, d, map[uint8]bool{b: true}, &out)
		sym.Assert(len(out) == 1 && out[b], "key changed")
	case 2:
		k := []int64{-1 << 63, 1<<63 - 1, -1<<31 - 1, 1 << 31, -1 << 53}[sym.Choose(5)]
		var out map[int64]int8
		roundtrip(e, d, map[int64]int8{k: int8(b)}, &out)
		sym.Assert(len(out) == 1 && out[k] == int8(b), "key changed")
	case 3:
		k := []uint64{1 << 63, 1<<64 - 1, 1 << 32, 0}[sym.Choose(4)]
		var out map[uint64]bool
		roundtrip(e, d, map[uint64]bool{k: true}, &out)
		sym.Assert(len(out) == 1 && out[k], "key changed")
	case 4:
		k := myU16(65532 + uint16(b&3))
		var out map[myU16]bool
		roundtrip(e, d, map[myU16]bool{k: true}, &out)
		sym.Assert(len(out) == 1 && out[k], "key changed")
	case 5:
		k := int(b&31) - 16
		var out map[int]uint8
		roundtrip(e, d, map[int]uint8{k: b, 77: 1}, &out)
		sym.Assert(len(out) == 2 && out[k] == b && out[77] == 1, "key changed")
	case 6:
		k := []int32{-1 << 31, 1<<31 - 1}[sym.Choose(2)]
		var out map[int32]bool
		roundtrip(e, d, map[int32]bool{k: true}, &out)
		sym.Assert(len(out) == 1 && out[k], "key changed")
	case 7:
		k := uint32(1<<32 - 1 - sym.Choose(2))
		var out map[uint32]bool
		roundtrip(e, d, map[uint32]bool{k: true}, &out)
		sym.Assert(len(out) == 1 && out[k], "key changed")
	}
	sym.Reach("end")
}
