package zzverif

import (
	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

type (
	myF32 float32
	myF64 float64
	myB   bool
	myS   string
	myBy  []byte
)

// lengths of every class of string encoding, and around the boundaries
func strLen() int {
	n := []int{0, 1, 2, 3, 15, 16, 30, 31, 32, 33, 64, 126, 127, 128, 129, 255, 256}
	if sym.Tier() > 0 {
		for i := 4; i <= 300; i++ {
			n = append(n, i)
		}
	}
	return n[sym.Choose(len(n))]
}

// longBytes is n bytes, of which the first and last few are arbitrary.
func longBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		if i < 4 || i >= n-4 {
			b[i] = sym.Byte()
		} else {
			b[i] = byte(i)
		}
	}
	return b
}

// C07_Float32: every bit pattern, named type or not, typed or untyped target.
func C07_Float32() {
	e, d := encDec()
	f := f32from(sym.Uint32())
	switch sym.Choose(6) {
	case 0:
		var out interface{}
		roundtrip(e, d, f, &out)
		x, ok := out.(float32)
		sym.Assert(ok && f32bits(x) == f32bits(f), "value changed")
	case 1:
		var out float32
		roundtrip(e, d, f, &out)
		sym.Assert(f32bits(out) == f32bits(f), "value changed")
	case 2:
		var out myF32
		roundtrip(e, d, myF32(f), &out)
		sym.Assert(f32bits(float32(out)) == f32bits(f), "value changed")
	case 3:
		var out interface{}
		roundtrip(e, d, myF32(f), &out)
		x, ok := out.(float32)
		sym.Assert(ok && f32bits(x) == f32bits(f), "value changed")
	case 4:
		var out []float32
		roundtrip(e, d, []float32{f, 1}, &out)
		sym.Assert(len(out) == 2 && f32bits(out[0]) == f32bits(f) && out[1] == 1, "value changed")
	case 5:
		e.PerlCompat, d.PerlCompat = false, false
		var out struct{ A, B float32 }
		roundtrip(e, d, struct{ A, B float32 }{f, 2}, &out)
		sym.Assert(f32bits(out.A) == f32bits(f) && out.B == 2, "value changed")
	}
	sym.Reach("end")
}

// C07_Float64: every bit pattern.
func C07_Float64() {
	e, d := encDec()
	f := f64from(sym.Uint64())
	switch sym.Choose(6) {
	case 0:
		var out interface{}
		roundtrip(e, d, f, &out)
		x, ok := out.(float64)
		sym.Assert(ok && f64bits(x) == f64bits(f), "value changed")
	case 1:
		var out float64
		roundtrip(e, d, f, &out)
		sym.Assert(f64bits(out) == f64bits(f), "value changed")
	case 2:
		var out myF64
		roundtrip(e, d, myF64(f), &out)
		sym.Assert(f64bits(float64(out)) == f64bits(f), "value changed")
	case 3:
		var out interface{}
		roundtrip(e, d, myF64(f), &out)
		x, ok := out.(float64)
		sym.Assert(ok && f64bits(x) == f64bits(f), "value changed")
	case 4:
		var out map[string]float64
		roundtrip(e, d, map[string]float64{"k": f}, &out)
		sym.Assert(len(out) == 1 && f64bits(out["k"]) == f64bits(f), "value changed")
	case 5:
		var out [2]float64
		roundtrip(e, d, [2]float64{1, f}, &out)
		sym.Assert(f64bits(out[1]) == f64bits(f) && out[0] == 1, "value changed")
	}
	sym.Reach("end")
}

// C07_Bool
func C07_Bool() {
	e, d := encDec()
	b := sym.Bool()
	switch sym.Choose(4) {
	case 0:
		var out interface{}
		roundtrip(e, d, b, &out)
		sym.Assert(out == b, "value changed")
	case 1:
		out := !b
		roundtrip(e, d, b, &out)
		sym.Assert(out == b, "value changed")
	case 2:
		out := myB(!b)
		roundtrip(e, d, myB(b), &out)
		sym.Assert(out == myB(b), "value changed")
	case 3:
		var out []bool
		roundtrip(e, d, []bool{b, !b}, &out)
		sym.Assert(len(out) == 2 && out[0] == b && out[1] == !b, "value changed")
	}
	sym.Reach("end")
}

// C07_String: strings of every length class.
func C07_String() {
	e, d := encDec()
	s := string(longBytes(strLen()))
	switch sym.Choose(6) {
	case 0:
		var out interface{}
		roundtrip(e, d, s, &out)
		x, ok := out.(string)
		sym.Assert(ok && x == s, "value changed")
	case 1:
		out := "x"
		roundtrip(e, d, s, &out)
		sym.Assert(out == s, "value changed")
	case 2:
		var out myS
		roundtrip(e, d, myS(s), &out)
		sym.Assert(out == myS(s), "value changed")
	case 3:
		var out []interface{}
		roundtrip(e, d, []interface{}{s, 1, s}, &out)
		sym.Assert(len(out) == 3 && out[0] == s && out[1] == 1 && out[2] == s, "value changed")
	case 4:
		var out map[string]string
		roundtrip(e, d, map[string]string{s: s}, &out)
		v, ok := out[s]
		sym.Assert(ok && len(out) == 1 && v == s, "value changed")
	case 5:
		var out interface{}
		roundtrip(e, d, myS(s), &out)
		x, ok := out.(string)
		sym.Assert(ok && x == s, "value changed")
	}
	sym.Reach("end")
}

// C07_Bytes: byte slices of every length class.
func C07_Bytes() {
	e, d := encDec()
	s := longBytes(strLen())
	switch sym.Choose(6) {
	case 0:
		var out interface{}
		roundtrip(e, d, s, &out)
		x, ok := out.([]byte)
		sym.Assert(ok && eqBytes(x, s), "value changed")
	case 1:
		var out []byte
		roundtrip(e, d, s, &out)
		sym.Assert(eqBytes(out, s), "value changed")
	case 2:
		var out [][]byte
		roundtrip(e, d, [][]byte{s, {1}}, &out)
		sym.Assert(len(out) == 2 && eqBytes(out[0], s) && eqBytes(out[1], []byte{1}), "value changed")
	case 3:
		var out []interface{}
		roundtrip(e, d, []interface{}{s, 1, s}, &out)
		sym.Assert(len(out) == 3 && out[1] == 1, "value changed")
		x, ok := out[2].([]byte)
		sym.Assert(ok && eqBytes(x, s), "value changed")
	case 4:
		e.PerlCompat, d.PerlCompat = false, false
		var out struct{ A, B []byte }
		roundtrip(e, d, struct{ A, B []byte }{s, []byte("b")}, &out)
		sym.Assert(eqBytes(out.A, s) && eqBytes(out.B, []byte("b")), "value changed")
	case 5:
		var out string
		roundtrip(e, d, s, &out)
		sym.Assert(out == string(s), "value changed")
	}
	sym.Reach("end")
}

// C07_NamedBytes: a named byte slice, an array of bytes and a slice of a named byte type.
func C07_NamedBytes() {
	e, d := encDec()
	n := sym.UpTo(1, 3)
	s := sym.Bytes(n)
	switch sym.Choose(3) {
	case 0:
		var out myBy
		roundtrip(e, d, myBy(s), &out)
		sym.Assert(eqBytes(out, s), "value changed")
	case 1:
		var v, out [3]byte
		copy(v[:], s)
		roundtrip(e, d, v, &out)
		sym.Assert(out == v, "value changed")
	case 2:
		v := []myU8{myU8(s[0]), 1}
		var out []myU8
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 2 && out[0] == v[0] && out[1] == 1, "value changed")
	}
	sym.Reach("end")
}

// C07_Short: every short string and byte slice through the package functions.
func C07_Short() {
	s := sym.Bytes(sym.UpTo(0, 6))
	var v interface{} = string(s)
	isBytes := sym.Bool()
	if isBytes {
		v = s
	}
	b, err := sereal.Marshal(v)
	sym.Assert(err == nil, "Marshal fails")
	var out interface{}
	sym.Assert(sereal.Unmarshal(b, &out) == nil, "Unmarshal fails")
	if isBytes {
		x, ok := out.([]byte)
		sym.Assert(ok && eqBytes(x, s), "value changed")
	} else {
		x, ok := out.(string)
		sym.Assert(ok && x == string(s), "value changed")
	}
	sym.ObsBytes("enc", b)
	sym.Reach("end")
}

// C07_Long: strings and byte slices of many lengths up to 2^21.
func C07_Long() {
	sym.Room(20)
	n := []int{300, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 8191, 8192, 8193, 16382, 16383, 16384, 16385, 20000, 32766, 32767, 32768, 32769, 50000, 65535, 65536, 65537}
	if sym.Tier() > 0 {
		n = append(n, 100000, 131071, 131072, 262143, 262144, 524288, 1048576, 2097150, 2097151, 2097152)
	}
	s := filled(n[sym.Choose(len(n))])
	e, d := encoderV(sym.UpTo(2, 3)), sereal.NewDecoder()
	if sym.Tier() > 0 {
		e, d = encDec()
	}
	switch sym.Choose(7) {
	case 0:
		var out interface{}
		roundtrip(e, d, s, &out)
		x, ok := out.([]byte)
		sym.Assert(ok && eqBytes(x, s), "value changed")
	case 1:
		var out interface{}
		roundtrip(e, d, string(s), &out)
		x, ok := out.(string)
		sym.Assert(ok && x == string(s), "value changed")
	case 2:
		v, out := map[string]string{string(s): "x"}, map[string]string(nil)
		roundtrip(e, d, v, &out)
		sym.Assert(len(out) == 1 && out[string(s)] == "x", "value changed")
	case 3:
		var out []byte
		roundtrip(e, d, s, &out)
		sym.Assert(eqBytes(out, s), "value changed")
	case 4:
		var out string
		roundtrip(e, d, string(s), &out)
		sym.Assert(out == string(s), "value changed")
	case 5:
		var out [][]byte
		roundtrip(e, d, [][]byte{s, {1}}, &out)
		sym.Assert(len(out) == 2 && eqBytes(out[0], s) && eqBytes(out[1], []byte{1}), "value changed")
	case 6:
		e.PerlCompat, d.PerlCompat = false, false
		type t struct {
			A string
			B []byte
		}
		var out t
		roundtrip(e, d, t{string(s), s}, &out)
		sym.Assert(out.A == string(s) && eqBytes(out.B, s), "value changed")
	}
	sym.Reach("end")
}
