package zzverif

import (
	"errors"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// frz freezes to its bytes and remembers what it was thawed from.
type frz struct {
	b     []byte
	calls int
}

func (f frz) MarshalBinary() ([]byte, error) { return f.b, nil }

func (f *frz) UnmarshalBinary(b []byte) error {
	f.b = clone(b)
	f.calls++
	return nil
}

// frzStr is a frozen string type.
type frzStr string

func (f frzStr) MarshalBinary() ([]byte, error) { return []byte(f), nil }

func (f *frzStr) UnmarshalBinary(b []byte) error {
	*f = frzStr(b)
	return nil
}

var errFreeze = errors.New("cannot freeze")
var errThaw = errors.New("cannot thaw")

// frzBad fails to freeze or to thaw depending on its content.
type frzBad struct{ N byte }

func (f frzBad) MarshalBinary() ([]byte, error) {
	if f.N < 16 {
		return []byte{f.N}, errFreeze
	}
	return []byte{f.N}, nil
}

func (f *frzBad) UnmarshalBinary(b []byte) error {
	if len(b) == 1 && b[0] >= 240 {
		return errThaw
	}
	f.N = b[0]
	return nil
}

// frzPub could also be encoded as a struct.
type frzPub struct {
	A int16
	B string
}

func (f frzPub) MarshalBinary() ([]byte, error) { return []byte("frozen"), nil }

func (f *frzPub) UnmarshalBinary(b []byte) error {
	f.B = string(b)
	return nil
}

const frzClass = "github.com/Sereal/Sereal/Go/sereal/zzverif.frz"

func frzOpts() (*sereal.Encoder, *sereal.Decoder) {
	oneOrder()
	e := encoderV(sym.UpTo(1, 3))
	e.PerlCompat = sym.Bool()
	e.DisableDedup = sym.Bool()
	return e, sereal.NewDecoder()
}

func payload() []byte {
	if sym.Bool() {
		return nil
	}
	n := []int{0, 1, 2, 3, 15, 16, 30, 31, 32, 33, 63, 64, 127, 128, 129, 255, 256, 8192, 16383, 16384, 40000}
	return filled(n[sym.Choose(len(n))])
}

// C16_Kinds: every payload into every kind of target.
func C16_Kinds() {
	e, d := frzOpts()
	p := payload()
	v := frz{b: p}
	switch sym.Choose(9) {
	case 0:
		var out frz
		roundtrip(e, d, v, &out)
		sym.Assert(eqBytes(out.b, p) && out.calls == 1, "payload changed")
	case 1:
		var out *frz
		roundtrip(e, d, v, &out)
		sym.Assert(out != nil && eqBytes(out.b, p) && out.calls == 1, "payload changed")
	case 2:
		var out []byte
		roundtrip(e, d, v, &out)
		sym.Assert(eqBytes(out, p), "payload changed")
	case 3:
		var out interface{}
		roundtrip(e, d, v, &out)
		f, ok := out.(*sereal.PerlFreeze)
		sym.Assert(ok && f.Class == frzClass && eqBytes(f.Data, p), "payload or class changed")
	case 4:
		d.RegisterName(frzClass, &frz{})
		var out interface{}
		roundtrip(e, d, v, &out)
		f, ok := out.(*frz)
		sym.Assert(ok && eqBytes(f.b, p) && f.calls == 1, "payload changed")
	case 5:
		d.PerlCompat = true
		var out interface{}
		roundtrip(e, d, v, &out)
		f, ok := out.(*sereal.PerlFreeze)
		sym.Assert(ok && f.Class == frzClass && eqBytes(f.Data, p), "payload or class changed")
	case 6:
		// behind a pointer
		var out *frz
		roundtrip(e, d, &v, &out)
		sym.Assert(out != nil && eqBytes(out.b, p) && out.calls == 1, "payload changed")
	case 7:
		var out frzStr
		roundtrip(e, d, frzStr(p), &out)
		sym.Assert(eqBytes([]byte(out), p), "payload changed")
	case 8:
		// another class is registered
		d.RegisterName("other", new(frzStr))
		var out interface{}
		roundtrip(e, d, v, &out)
		f, ok := out.(*sereal.PerlFreeze)
		sym.Assert(ok && f.Class == frzClass && eqBytes(f.Data, p), "payload or class changed")
	}
	sym.Reach("end")
}

// C16_Inside: frozen values inside containers, of one class or two.
func C16_Inside() {
	e, d := frzOpts()
	p, q := sym.Bytes(sym.UpTo(0, 1)), sym.Bytes(1)
	a, b := frz{b: p}, frz{b: q}
	switch sym.Choose(8) {
	case 0:
		var out []frz
		roundtrip(e, d, []frz{a, b}, &out)
		sym.Assert(len(out) == 2 && eqBytes(out[0].b, p) && eqBytes(out[1].b, q), "payload changed")
	case 1:
		var out map[string]frz
		k := sym.Str(1)
		roundtrip(e, d, map[string]frz{k: a}, &out)
		sym.Assert(len(out) == 1 && eqBytes(out[k].b, p), "payload changed")
	case 2:
		type s struct {
			A frz
			B *frz
			C frzStr
			D interface{}
		}
		var out s
		roundtrip(e, d, s{a, &b, frzStr(q), a}, &out)
		sym.Assert(eqBytes(out.A.b, p) && out.B != nil && eqBytes(out.B.b, q) && string(out.C) == string(q), "payload changed")
		f, ok := out.D.(*sereal.PerlFreeze)
		sym.Assert(ok && f.Class == frzClass && eqBytes(f.Data, p), "payload changed")
	case 3:
		var out []*frz
		roundtrip(e, d, []*frz{&a, &b, nil}, &out)
		sym.Assert(len(out) == 3 && eqBytes(out[0].b, p) && eqBytes(out[1].b, q) && out[2] == nil, "payload changed")
	case 4:
		var out interface{}
		roundtrip(e, d, []interface{}{a, frzStr(q), b, frzStr(p), map[string]interface{}{frzClass: b}}, &out)
		if e.PerlCompat {
			out = deref(out)
		}
		l, ok := out.([]interface{})
		sym.Assert(ok && len(l) == 5, "wrong array")
		for i, w := range []*sereal.PerlFreeze{{Class: frzClass, Data: p}, {Class: frzClass + "Str", Data: q}, {Class: frzClass, Data: q}, {Class: frzClass + "Str", Data: p}} {
			f, ok := l[i].(*sereal.PerlFreeze)
			sym.Assert(ok && f.Class == w.Class && eqBytes(f.Data, w.Data), "payload or class changed")
		}
		m, ok := l[4].(map[string]interface{})
		sym.Assert(ok && len(m) == 1, "wrong hash")
		f, ok := m[frzClass].(*sereal.PerlFreeze)
		sym.Assert(ok && f.Class == frzClass && eqBytes(f.Data, q), "payload or class changed")
	case 5:
		d.RegisterName(frzClass, &frz{})
		var out interface{}
		roundtrip(e, d, []interface{}{a, frzStr(q), b}, &out)
		l, ok := out.([]interface{})
		sym.Assert(ok && len(l) == 3, "wrong array")
		f, ok := l[0].(*frz)
		sym.Assert(ok && eqBytes(f.b, p), "payload changed")
		g, ok := l[1].(*sereal.PerlFreeze)
		sym.Assert(ok && eqBytes(g.Data, q), "payload changed")
		h, ok := l[2].(*frz)
		sym.Assert(ok && eqBytes(h.b, q) && h != f, "payload changed")
	case 6:
		d.PerlCompat = true
		var out interface{}
		roundtrip(e, d, []interface{}{a, b}, &out)
		l, ok := deref(out).([]interface{})
		sym.Assert(ok && len(l) == 2, "wrong array")
		f, ok := l[0].(*sereal.PerlFreeze)
		sym.Assert(ok && f.Class == frzClass && eqBytes(f.Data, p), "payload changed")
		g, ok := l[1].(*sereal.PerlFreeze)
		sym.Assert(ok && g.Class == frzClass && eqBytes(g.Data, q), "payload changed")
	case 7:
		// into byte slices
		var out [][]byte
		roundtrip(e, d, []frz{a, b, a}, &out)
		sym.Assert(len(out) == 3 && eqBytes(out[0], p) && eqBytes(out[1], q) && eqBytes(out[2], p), "payload changed")
	}
	sym.Reach("end")
}

func deref(v interface{}) interface{} {
	switch p := v.(type) {
	case *[]interface{}:
		return *p
	case *interface{}:
		return *p
	}
	return v
}

// C16_Errors: errors of the hooks reach the caller.
func C16_Errors() {
	e, d := frzOpts()
	n := sym.Byte()
	v := frzBad{n}
	where := sym.Choose(4)
	var x interface{} = v
	switch where {
	case 1:
		x = []interface{}{1, v}
	case 2:
		x = map[string]frzBad{"k": v}
	case 3:
		x = struct{ A *frzBad }{&v}
	}
	b, err := e.Marshal(x)
	if n < 16 {
		sym.Assert(err == errFreeze && b == nil, "error of MarshalBinary lost")
		sym.Reach("freeze")
		return
	}
	sym.Assert(err == nil, "Marshal fails")
	var got byte
	switch where {
	case 0:
		var out frzBad
		err = d.Unmarshal(exact(b), &out)
		got = out.N
	case 1:
		var out interface{}
		d.RegisterName(frzClass+"Bad", &frzBad{})
		err = d.Unmarshal(exact(b), &out)
		if l, ok := out.([]interface{}); ok && len(l) == 2 && err == nil {
			got = l[1].(*frzBad).N
		}
	case 2:
		var out map[string]frzBad
		err = d.Unmarshal(exact(b), &out)
		got = out["k"].N
	case 3:
		var out struct{ A *frzBad }
		err = d.Unmarshal(exact(b), &out)
		if out.A != nil {
			got = out.A.N
		}
	}
	if n >= 240 {
		sym.Assert(err == errThaw, "error of UnmarshalBinary lost")
		sym.Reach("thaw")
		return
	}
	sym.Assert(err == nil && got == n, "payload changed")
	sym.Reach("end")
}

// C16_Disabled: without the hook the value itself is encoded.
func C16_Disabled() {
	e, d := frzOpts()
	v := frzPub{i16(), sym.Str(1)}
	e.DisableFREEZE = sym.Bool()
	var out interface{}
	var x interface{} = v
	if sym.Bool() {
		x = []interface{}{v}
	}
	roundtrip(e, d, x, &out)
	if l, ok := out.([]interface{}); ok && len(l) == 1 {
		out = l[0]
	}
	if !e.DisableFREEZE {
		f, ok := out.(*sereal.PerlFreeze)
		sym.Assert(ok && string(f.Data) == "frozen", "not frozen")
		sym.Reach("frozen")
		return
	}
	m, ok := out.(map[string]interface{})
	sym.Assert(ok && len(m) == 2 && m["A"] == int(v.A) && m["B"] == v.B, "hook not disabled")
	sym.Reach("disabled")
}

// C16_Document: any class name and payload, in either tag, decode to that class
// and payload.
func C16_Document() {
	ver := sym.UpTo(2, 4)
	c := sym.Bytes(sym.UpTo(0, 2))
	p, q := sym.Bytes(sym.UpTo(0, 2)), sym.Bytes(1)
	bin := func(b []byte) []byte {
		if sym.Bool() {
			return append([]byte{tBINARY, byte(len(b))}, b...)
		}
		return append([]byte{tSHORT + byte(len(b))}, b...)
	}
	body := []byte{tARRAYREF + 3, tFREEZE}
	at := len(body) + 1
	if sym.Bool() {
		body = append(append(body, tSTRUTF8, byte(len(c))), c...)
	} else {
		body = append(append(body, tSHORT+byte(len(c))), c...)
	}
	body = append(append(body, tREFN, tARRAY, 1), bin(p)...)
	switch sym.Choose(3) {
	case 0:
		body = append(body, tFREEZEV, byte(at))
	case 1:
		body = append(body, tFREEZE, tCOPY, byte(at))
	case 2:
		body = append(append(body, tFREEZE, tSHORT+byte(len(c))), c...)
	}
	body = append(append(body, tREFN, tARRAY, 1), bin(q)...)
	body = append(body, tCOPY, 2) // the first one again
	doc := exact(mkdoc(ver, 0, body))
	d := decoderOpts()
	switch sym.Choose(5) {
	case 0:
		var out interface{}
		sym.Assert(d.Unmarshal(doc, &out) == nil, "Unmarshal fails")
		l, ok := deref(out).([]interface{})
		sym.Assert(ok && len(l) == 3, "wrong array")
		f, ok := l[0].(*sereal.PerlFreeze)
		sym.Assert(ok && f.Class == string(c) && eqBytes(f.Data, p), "payload or class changed")
		f, ok = l[1].(*sereal.PerlFreeze)
		sym.Assert(ok && f.Class == string(c) && eqBytes(f.Data, q), "payload or class changed")
		f, ok = l[2].(*sereal.PerlFreeze)
		sym.Assert(ok && f.Class == string(c) && eqBytes(f.Data, p), "payload or class changed")
	case 1:
		sym.Assume(!d.PerlCompat)
		var out []frz
		sym.Assert(d.Unmarshal(doc, &out) == nil, "Unmarshal fails")
		sym.Assert(len(out) == 3 && eqBytes(out[0].b, p) && eqBytes(out[1].b, q) && eqBytes(out[2].b, p), "payload changed")
	case 2:
		sym.Assume(!d.PerlCompat)
		name := string(sym.Bytes(len(c)))
		d.RegisterName(name, &frz{})
		var out interface{}
		sym.Assert(d.Unmarshal(doc, &out) == nil, "Unmarshal fails")
		l, ok := out.([]interface{})
		sym.Assert(ok && len(l) == 3, "wrong array")
		f, ok := l[1].(*frz)
		sym.Assert(ok == (name == string(c)), "wrong class")
		sym.Assert(!ok || eqBytes(f.b, q), "payload changed")
		f, ok = l[2].(*frz)
		sym.Assert(ok == (name == string(c)), "wrong class")
		sym.Assert(!ok || eqBytes(f.b, p), "payload changed")
	case 3:
		sym.Assume(!d.PerlCompat)
		var out [3][]byte
		sym.Assert(d.Unmarshal(doc, &out) == nil, "Unmarshal fails")
		sym.Assert(eqBytes(out[0], p) && eqBytes(out[1], q) && eqBytes(out[2], p), "payload changed")
	case 4:
		sym.Assume(!d.PerlCompat)
		var out []*frzStr
		sym.Assert(d.Unmarshal(doc, &out) == nil, "Unmarshal fails")
		sym.Assert(len(out) == 3 && eqBytes([]byte(*out[0]), p) && eqBytes([]byte(*out[1]), q) && eqBytes([]byte(*out[2]), p), "payload changed")
	}
	sym.Reach("end")
}

// frzFew freezes to up to one byte and thaws only from the lengths it wants.
type frzFew struct{ b, min byte }

func (f frzFew) MarshalBinary() ([]byte, error) {
	if f.b == 0 {
		return nil, nil
	}
	return []byte{f.b}, nil
}

func (f *frzFew) UnmarshalBinary(b []byte) error {
	if (len(b) == 0) != (f.min == 1) {
		return errThaw
	}
	f.b = 7
	return nil
}

// C16_Refusals: thawing may fail for any payload, the empty one included, and
// the hook always sees the target there is.
func C16_Refusals() {
	e, d := frzOpts()
	v := frzFew{b: sym.Byte()}
	var min byte
	if sym.Bool() {
		min = 1 // wants an empty payload
	}
	fail := (v.b == 0) != (min == 1)
	var err error
	var got *frzFew
	switch sym.Choose(5) {
	case 0:
		b, merr := e.Marshal(v)
		sym.Assert(merr == nil, "Marshal fails")
		got = &frzFew{min: min}
		err = d.Unmarshal(exact(b), got)
	case 1:
		b, merr := e.Marshal([]frzFew{v})
		sym.Assert(merr == nil, "Marshal fails")
		out := []frzFew{{min: min}}
		err = d.Unmarshal(exact(b), &out)
		got = &out[0]
	case 2:
		b, merr := e.Marshal(struct{ A *frzFew }{&v})
		sym.Assert(merr == nil, "Marshal fails")
		out := struct{ A *frzFew }{&frzFew{min: min}}
		err = d.Unmarshal(exact(b), &out)
		got = out.A
	case 3:
		sym.Assume(min == 0)
		d.RegisterName(frzClass+"Few", &frzFew{})
		b, merr := e.Marshal([]interface{}{1, v})
		sym.Assert(merr == nil, "Marshal fails")
		var out interface{}
		err = d.Unmarshal(exact(b), &out)
		if l, ok := out.([]interface{}); ok && err == nil {
			got, _ = l[1].(*frzFew)
		}
	case 4:
		b, merr := e.MarshalWithHeader(v, 1)
		sym.Assert(merr == nil, "Marshal fails")
		sym.Assume(b[5] != 0) // version 1 has no headers
		got = &frzFew{min: min}
		err = d.UnmarshalHeader(exact(b), got)
	}
	if fail {
		sym.Assert(err == errThaw, "error of UnmarshalBinary lost")
		sym.Reach("fail")
		return
	}
	sym.Assert(err == nil && got != nil && got.b == 7, "payload lost")
	sym.Reach("end")
}
