// Package zzverif holds the harnesses: one function Cxx_Name per obligation of
// property Cxx. They run symbolically in the engine and natively on replay.
package zzverif

import (
	"math"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

const (
	tVARINT     = 0x20
	tZIGZAG     = 0x21
	tFLOAT      = 0x22
	tDOUBLE     = 0x23
	tLONGDOUBLE = 0x24
	tUNDEF      = 0x25
	tBINARY     = 0x26
	tSTRUTF8    = 0x27
	tREFN       = 0x28
	tREFP       = 0x29
	tHASH       = 0x2a
	tARRAY      = 0x2b
	tOBJECT     = 0x2c
	tOBJECTV    = 0x2d
	tALIAS      = 0x2e
	tCOPY       = 0x2f
	tWEAKEN     = 0x30
	tREGEXP     = 0x31
	tFREEZE     = 0x32
	tFREEZEV    = 0x33
	tCUNDEF     = 0x39
	tFALSE      = 0x3a
	tTRUE       = 0x3b
	tMANY       = 0x3c
	tPACKET     = 0x3d
	tEXTEND     = 0x3e
	tPAD        = 0x3f
	tARRAYREF   = 0x40
	tHASHREF    = 0x50
	tSHORT      = 0x60
	trackBit    = 0x80
)

// magic returns the four magic bytes of a protocol version.
func magic(ver int) []byte {
	if ver <= 2 {
		return []byte{'=', 's', 'r', 'l'}
	}
	return []byte{'=', 0xf3, 'r', 'l'}
}

func putVarint(b []byte, n uint64) []byte {
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

// mkdoc builds a document without user header.
func mkdoc(ver, typ int, body []byte) []byte {
	d := append(magic(ver), byte(typ<<4|ver), 0)
	return append(d, body...)
}

// mkdocH builds a document with the given header suffix (flag byte included).
func mkdocH(ver, typ int, suffix, body []byte) []byte {
	d := append(magic(ver), byte(typ<<4|ver))
	d = putVarint(d, uint64(len(suffix)))
	d = append(d, suffix...)
	return append(d, body...)
}

// exact returns a copy without spare capacity, so that reads past the end are caught.
func exact(b []byte) []byte {
	c := make([]byte, len(b))
	copy(c, b)
	return c[:len(c):len(c)]
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }

// decoderOpts returns a decoder with arbitrary flags.
func decoderOpts() *sereal.Decoder {
	d := sereal.NewDecoder()
	switch sym.Choose(4) {
	case 1:
		d.PerlCompat = true
	case 2:
		d.DisableReferentialIntegrity = true
	case 3:
		d.PerlCompat = true
		d.DisableReferentialIntegrity = true
	}
	return d
}

func encoderV(v int) *sereal.Encoder {
	switch v {
	case 1:
		return sereal.NewEncoder()
	case 2:
		return sereal.NewEncoderV2()
	}
	return sereal.NewEncoderV3()
}

// bit is 1 if c holds.
func bit(c bool) uint64 {
	if c {
		return 1
	}
	return 0
}

func eqBytes(a, b []byte) bool { return string(a) == string(b) }

func f32bits(f float32) uint32 { return math.Float32bits(f) }
func f64bits(f float64) uint64 { return math.Float64bits(f) }
func f32from(u uint32) float32 { return math.Float32frombits(u) }
func f64from(u uint64) float64 { return math.Float64frombits(u) }

// eq8 is 1 if a == b, without branching.
func eq8(a, b byte) uint32 { return (uint32(a^b) - 1) >> 31 }

// oneOf returns n bytes, each any of the given ones.
func oneOf(n int, set string) []byte {
	r := sym.Bytes(n)
	for _, c := range r {
		var ok uint32
		for j := 0; j < len(set); j++ {
			ok |= eq8(c, set[j])
		}
		sym.Assume(ok != 0)
	}
	return r
}

// oneOrder lets all maps be iterated forwards, or all backwards.
func oneOrder() { sym.MapOrder(3 * sym.Choose(2)) }

// i16 is an integer whose encoding has one length.
func i16() int16 { return 0x100 + int16(sym.Byte()) }

// filled is n bytes, of which the first and the last are arbitrary.
func filled(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%23)
	}
	if n > 0 {
		b[0] = sym.Byte()
		b[n-1] = sym.Byte()
	}
	return b
}

// classLen is a length of every class that an encoding of a length distinguishes.
func classLen() int {
	n := []int{0, 1, 2, 15, 16, 17, 30, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 300}
	if sym.Tier() > 0 {
		n = n[:0]
		for i := 0; i <= 300; i++ {
			n = append(n, i)
		}
		n = append(n, 16383, 16384, 20000)
	}
	return n[sym.Choose(len(n))]
}

// countLen is a number of elements of every class that an encoding distinguishes.
func countLen() int {
	n := []int{0, 1, 2, 14, 15, 16, 17, 31, 32, 127, 128}
	if sym.Tier() > 0 {
		n = n[:0]
		for i := 0; i <= 40; i++ {
			n = append(n, i)
		}
		n = append(n, 126, 127, 128, 129, 200, 255, 256)
	}
	return n[sym.Choose(len(n))]
}

// padVarint is a varint with k superfluous continuation groups.
func padVarint(b []byte, n uint64, k int) []byte {
	for ; n >= 0x80; n >>= 7 {
		b = append(b, byte(n)|0x80)
	}
	if k == 0 {
		return append(b, byte(n))
	}
	b = append(b, byte(n)|0x80)
	for ; k > 1; k-- {
		b = append(b, 0x80)
	}
	return append(b, 0)
}

// putString appends s in one of the encodings of strings; k > 0 pads the length.
func putString(b, s []byte, kind, k int) []byte {
	switch {
	case kind == 0 && len(s) < 32:
		b = append(b, tSHORT+byte(len(s)))
	case kind == 2:
		b = padVarint(append(b, tSTRUTF8), uint64(len(s)), k)
	default:
		b = padVarint(append(b, tBINARY), uint64(len(s)), k)
	}
	return append(b, s...)
}

// key3 is a key of three bytes, distinct for every i < 17576.
func key3(i int) []byte {
	return []byte{'a' + byte(i/676%26), 'a' + byte(i/26%26), 'a' + byte(i%26)}
}

// offBase is what an offset of the document of that version counts from.
func offBase(ver int) int {
	if ver == 1 {
		return 6
	}
	return 1
}

const bodyStrings = 11

// bodyString is the body of a document with s in one of bodyStrings places.
func bodyString(ver, place int, s []byte, kind, k int) []byte {
	str := func(b []byte) []byte { return putString(b, s, kind, k) }
	off := byte(offBase(ver))
	switch place {
	case 0:
		return str(nil)
	case 1:
		return append(str([]byte{tARRAY, 2}), 7)
	case 2:
		return append(str([]byte{tHASH, 1}), 7)
	case 3:
		return append(str([]byte{tOBJECT}), tREFN, tARRAY, 0)
	case 4:
		return append(str([]byte{tREGEXP}), tSHORT+1, 'i')
	case 5:
		return str([]byte{tREGEXP, tSHORT + 1, 'i'})
	case 6:
		return append(str([]byte{tARRAYREF + 3}), tCOPY, 1+off, 7)
	case 7: // the key of the second hash is a copy of that of the first
		b := append(str([]byte{tARRAYREF + 2, tHASHREF + 1}), 7)
		return append(b, tHASH, 1, tCOPY, 2+off, 8)
	case 8: // two objects of the class
		b := append(str([]byte{tARRAYREF + 2, tOBJECT}), tHASHREF)
		return append(b, tOBJECTV, 2+off, tARRAYREF)
	case 9:
		b := str([]byte{tARRAYREF + 2})
		b[1] |= trackBit
		return append(b, tREFP, 1+off)
	}
	// a frozen object, whose payload is the string, too
	b := str([]byte{tFREEZE})
	b = append(b, tREFN, tARRAY, 1)
	return putString(b, s, kind&^2, k)
}

// bodyCount is the body of a container of n items in one of its encodings.
func bodyCount(n, kind, k int) []byte {
	var b []byte
	hash := kind&1 == 1
	switch {
	case kind < 2 && n < 16:
		b = []byte{tARRAYREF + byte(n)}
		if hash {
			b[0] = tHASHREF + byte(n)
		}
	case kind < 4:
		b = []byte{tREFN, tARRAY}
		if hash {
			b[1] = tHASH
		}
		b = padVarint(b, uint64(n), k)
	default:
		b = []byte{tARRAY}
		if hash {
			b[0] = tHASH
		}
		b = padVarint(b, uint64(n), k)
	}
	for i := 0; i < n; i++ {
		if hash {
			b = putString(b, key3(i), 0, 0)
		}
		switch {
		case i == 0 || i == n-1:
			b = append(b, tVARINT, 0x80|sym.Byte(), sym.Byte()&0x7f)
		default:
			b = append(b, byte(i&15))
		}
	}
	return b
}
