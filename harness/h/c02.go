package zzverif

import (
	"errors"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

type (
	tInner struct {
		A int
		B string
	}
	tStruct struct {
		A int
		B []byte
		C interface{}
		D *tInner
		E map[string]int
		F [2]int8
		g int
	}
	tUnm  struct{ data []byte }
	tUnmV []byte
	nInt  int8
	nStr  string
	nByt  []byte
)

func (u *tUnm) UnmarshalBinary(b []byte) error {
	if len(b) > 0 && b[0] == 'x' {
		return errors.New("refused")
	}
	u.data = clone(b)
	return nil
}
func (u *tUnm) MarshalBinary() ([]byte, error) { return u.data, nil }

const nDests = 37

// dest returns a pointer to a fresh destination, pre-populated or not.
func dest(k int) interface{} {
	switch k {
	case 0:
		return new(int)
	case 1:
		return new(int8)
	case 2:
		return new(uint16)
	case 3:
		return new(uint64)
	case 4:
		return new(float32)
	case 5:
		return new(float64)
	case 6:
		return new(bool)
	case 7:
		return new(string)
	case 8:
		return new([]byte)
	case 9:
		return &[]byte{1, 2}
	case 10:
		return new([2]byte)
	case 11:
		return new([]int)
	case 12:
		return &[]int{7}
	case 13:
		return new([1]string)
	case 14:
		return new([]interface{})
	case 15:
		return new([0]int)
	case 16:
		return new(map[string]int)
	case 17:
		return &map[string]int{"a": 1}
	case 18:
		return new(map[string]interface{})
	case 19:
		return &map[string]interface{}{"a": 1, "": nil}
	case 20:
		return new(map[int]string)
	case 21:
		return new(tStruct)
	case 22:
		return &tStruct{B: []byte{1}, C: 5, D: &tInner{}, E: map[string]int{"a": 2}}
	case 23:
		return new(*tInner)
	case 24:
		return new(*int)
	case 25:
		return new(**int)
	case 26:
		return new(tUnm)
	case 27:
		return new(*tUnm)
	case 28:
		var i interface{} = 5
		return &i
	case 29:
		var i interface{} = &tInner{}
		return &i
	case 30:
		return new(error)
	case 31:
		return new([]*tInner)
	case 32:
		return new(map[string]*tInner)
	case 33:
		return new(chan int)
	case 34:
		return new(map[nStr]string)
	case 35:
		return new(map[interface{}]int)
	case 36:
		return new(map[uint8]*tInner)
	}
	return nil
}

func typedAny(d *sereal.Decoder, doc []byte, k int) {
	err := d.Unmarshal(doc, dest(k))
	sym.ObsBool("ok", err == nil)
	sym.Reach("end")
}

// C02_Bytes: every body of up to N bytes into every destination, every option.
func C02_Bytes() {
	k := sym.Choose(nDests)
	typedAny(decoderOpts(), exact(mkdoc(sym.UpTo(1, 2), 0, sym.Bytes(sym.UpTo(0, sym.Bound(2, 3))))), k)
}

// C02_Bytes3: one byte more with the default options.
func C02_Bytes3() {
	k := sym.Choose(nDests)
	typedAny(sereal.NewDecoder(), exact(mkdoc(3, 0, sym.Bytes(sym.Bound(3, 4)))), k)
}

// C02_Alpha: longer bodies over the tag alphabets into the composite destinations.
func C02_Alpha() {
	ks := []int{14, 18, 19, 21, 22, 23, 25, 27, 28, 29, 31, 32}
	k := ks[sym.Choose(len(ks))]
	a := sym.Choose(3)
	d := sereal.NewDecoder()
	if sym.Bool() {
		d.PerlCompat = true
	}
	typedAny(d, alphaDoc(a, sym.Bound(4, 5)), k)
}

// documents of the shape the destinations ask for, with holes of any content
var typedShapes = []string{
	"\x51\x61A??", "\x51\x61B??", "\x51\x61C??", "\x51\x61D??", "\x51\x61E??", "\x51\x61F??", "\x51\x61g?",
	"\x52\x61A?\x61B?", "\x51\x61D\x51\x61A?", "\x51\x61D\x51\x61B??", "\x51\x61E\x51\x61??", "\x51\x61F\x42??",
	"\x2c\x61X\x51\x61A?", "\x2c\x61X??", "\x32\x61X\x28\x2b\x01??", "\x32\x61X\x28\x2b?\x61?", "\x32\x61X??\x01\x61a",
	"\x42\x2c\x61X\x51\x61A\x01\x2d\x03?", "\x42\xd1\x61A?\x29?", "\x42?\x2f?", "\x43\xd1\x61A\x01\x2e?\x01", "\x51\x61\x61?", "\x52\x61\x61?\x60?", "\x28\x28\x28?",
}

// shape fills the holes of a document body with arbitrary bytes.
func shape(s string) []byte {
	b := []byte(s)
	for i, c := range b {
		if c == '?' {
			b[i] = sym.Byte()
		}
	}
	return b
}

// C02_Shapes: documents near the shape of the destination.
func C02_Shapes() {
	s := typedShapes[sym.Choose(len(typedShapes))]
	ks := []int{16, 17, 18, 19, 21, 22, 23, 25, 26, 27, 28, 29, 30, 31, 32}
	k := ks[sym.Choose(len(ks))]
	d := sereal.NewDecoder()
	if sym.Bool() {
		d.PerlCompat = true
	}
	typedAny(d, exact(mkdoc(2, 0, shape(s))), k)
}

// C02_Varint: numbers of any size into typed destinations.
func C02_Varint() {
	p := []string{"\x20", "\x21", "\x26", "\x27", "\x2a", "\x2b", "\x29", "\x2e", "\x2f", "\x51\x61A\x20", "\x51\x61F\x41\x21", "\x51\x61B\x26", "\x51\x61E\x2a"}[sym.Choose(13)]
	n := []int{1, 2, 5, 9, 10}[sym.Choose(5)]
	body := append([]byte(p), longVarint(n)...)
	body = append(body, sym.Bytes(sym.UpTo(0, 1))...)
	ks := []int{0, 1, 2, 3, 5, 7, 8, 10, 11, 13, 14, 16, 18, 21, 22, 28}
	typedAny(sereal.NewDecoder(), exact(mkdoc(2, 0, body)), ks[sym.Choose(len(ks))])
}

// C02_Nil: targets that are no pointers, or nil.
func C02_Nil() {
	b := exact(mkdoc(2, 0, sym.Bytes(sym.UpTo(1, 2))))
	d := decoderOpts()
	var err error
	switch sym.Choose(5) {
	case 0:
		err = d.Unmarshal(b, 5)
		sym.Assert(err != nil, "no error for a target that is no pointer")
	case 1:
		err = d.Unmarshal(b, tInner{})
		sym.Assert(err != nil, "no error for a target that is no pointer")
	case 2:
		err = d.Unmarshal(b, map[string]int{})
		sym.Assert(err != nil, "no error for a target that is no pointer")
	case 3:
		err = d.UnmarshalHeaderBody(exact(mkdocH(2, 0, []byte{1, sym.Byte()}, []byte{1})), 5, nil)
		sym.Assert(err != nil, "no error for a header target that is no pointer")
	case 4:
		err = d.Unmarshal(b, nil)
	}
	sym.Reach("end")
}

// C02_Header: typed header targets.
func C02_Header() {
	b := exact(mkdocH(3, 0, sym.Bytes(sym.UpTo(0, 3)), []byte{1}))
	k := sym.Choose(nDests)
	err := sereal.NewDecoder().UnmarshalHeader(b, dest(k))
	sym.ObsBool("ok", err == nil)
	sym.Reach("end")
}
