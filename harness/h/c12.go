package zzverif

import (
	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

func C12_Bytes() {
	ver := sym.UpTo(1, 4)
	checkInvalid(exact(mkdoc(ver, 0, sym.Bytes(sym.UpTo(0, sym.Bound(3, 3))))))
}

func C12_Ref() {
	checkInvalid(alphaDoc(0, sym.UpTo(3, sym.Bound(5, 7))))
}

func C12_Obj() {
	checkInvalid(alphaDoc(1, sym.UpTo(3, sym.Bound(6, 7))))
}

func C12_Hash() {
	checkInvalid(alphaDoc(2, sym.UpTo(3, sym.Bound(6, 7))))
}

func C12_Num() {
	checkInvalid(alphaDoc(3, sym.UpTo(3, sym.Bound(5, 6))))
}

func C12_Str() {
	checkInvalid(alphaDoc(4, sym.UpTo(3, sym.Bound(6, 7))))
}

// C12_Varints: numbers, lengths, counts and offsets up to the largest a varint holds, and varints
// that never end within the bounds of a number, everywhere.
func C12_Varints() {
	checkInvalid(hugeVarint(sym.UpTo(1, 12)))
}

var varintPlaces = []string{
	"\x20", "\x21", "\x26", "\x27", "\x2a", "\x2b", "\x28\x2b", "\x28\x2a", // values
	"\x2a\x01\x26", "\x2a\x01\x27", // keys
	"\x2c\x26", "\x32\x27", // classes
	"\x31\x26", "\x31\x61a\x27", // regexps
	"\x42\xe1a\x2f", "\x42\xe1a\x29", "\x42\xe1a\x2e", // offsets
	"\x42\x2c\x61a\x40\x2d", "\x42\x32\x61a\x28\x2b\x01\x61a\x33",
	"\x2a\x02\x61a\x01\x2f", "\x42\x61a\x2c\x2f", "\x42\x61a\x31\x2f",
}

// hugeVarint has a varint of n continuation bytes in any place a varint may stand.
func hugeVarint(n int) []byte {
	ver := sym.UpTo(1, 4)
	body := []byte(varintPlaces[sym.Choose(len(varintPlaces))])
	c := sym.Byte()
	for ; n > 0; n-- {
		body = append(body, 0x80|c)
	}
	body = append(body, sym.Byte()&0x7f)
	for i := sym.Choose(3); i > 0; i-- {
		body = append(body, 0x61, 0x61)
	}
	return exact(mkdoc(ver, 0, body))
}

// C12_Cut: documents of strings and containers of every length class, cut anywhere.
func C12_Cut() {
	ver := sym.UpTo(1, 4)
	var body []byte
	switch sym.Choose(3) {
	case 0:
		body = bodyString(ver, sym.Choose(bodyStrings), filled(classLen()), sym.Choose(3), sym.Choose(2))
	case 1:
		body = bodyCount(countLen(), sym.Choose(6), sym.Choose(2))
	case 2:
		body = far(ver, farLen(), sym.Choose(8))
	}
	// near either end, or in the middle
	var n int
	switch sym.Choose(3) {
	case 0:
		n = sym.Choose(12)
	case 1:
		n = len(body) / 2
	case 2:
		n = len(body) - 1 - sym.Choose(8)
	}
	sym.Assume(n >= 0 && n < len(body))
	checkInvalid(exact(mkdoc(ver, 0, body[:n])))
}

// C12_Far: offsets that are too large, by any amount.
func C12_Far() {
	ver := sym.UpTo(1, 4)
	b := far(ver, farLen(), sym.Choose(8))
	j := len(b) - 1
	if b[j] == tHASHREF {
		j--
	}
	b[j] += sym.Byte() & 0x3f
	checkInvalid(exact(mkdoc(ver, 0, b)))
}

// headers are user headers (and bodies in front of which they stand).
func headers() []byte {
	var h []byte
	switch sym.Choose(4) {
	case 0:
		h = oneOf(sym.UpTo(1, sym.Bound(3, 4)), alphaSet(sym.Choose(5)))
	case 1:
		h = mutant(2)
	case 2:
		n := []int{0, 1, 31, 32, 127, 128, 300}
		h = bodyString(2, sym.Choose(bodyStrings), filled(n[sym.Choose(len(n))]), sym.Choose(3), 0)
		h = h[:len(h)-sym.Choose(2)]
	case 3:
		n := []int{0, 1, 15, 16, 127, 128}
		h = bodyCount(n[sym.Choose(len(n))], sym.Choose(6), 0)
		h = h[:len(h)-sym.Choose(2)]
	}
	return append([]byte{1}, h...)
}

// headerBody is a body whose bytes would complete any item that is cut short.
const headerBody = "\x48\x01\x61\x61\x61\x01\x61\x02\x41\x61\x02\x01\x05\x68abcdefgh"

// headerStatus reads the header with the reference.
func headerStatus(suffix []byte, ver int) (*rnode, int) {
	d := &rdec{b: suffix, ver: ver, items: map[int]*rnode{}}
	n, end, st := d.item(1)
	if st == valid && end != len(suffix) {
		st = gray
	}
	return n, st
}

// C12_Header: malformed user headers are rejected, whatever follows them.
func C12_Header() {
	ver := 2 + sym.Choose(2)
	s := headers()
	_, st := headerStatus(s, ver)
	sym.Assume(st == invalid)
	doc := exact(mkdocH(ver, 0, s, []byte(headerBody)))
	d := sereal.NewDecoder()
	d.PerlCompat = sym.Bool()
	var h, v interface{}
	if ver == 3 {
		sym.Assert(d.UnmarshalHeader(doc, &h) != nil, "invalid header accepted")
	} else {
		sym.Assert(d.UnmarshalHeaderBody(doc, &h, &v) != nil, "invalid header accepted")
	}
	sym.Reach("end")
}

// C11_Header: valid user headers have the value of the specification, and so has the body behind.
func C11_Header() {
	ver := 2 + 2*sym.Choose(2)
	s := headers()
	n, st := headerStatus(s, ver)
	sym.Assume(st == valid)
	doc := exact(mkdocH(ver, 0, s, []byte(headerBody)))
	m, st := refDoc(doc)
	sym.Assert(st == valid, "the harness's body is not valid")
	d, perl, noref := perlOpts()
	var h, v interface{}
	sym.Assert(d.UnmarshalHeaderBody(doc, &h, &v) == nil, "valid document rejected")
	sym.Assert(matches(n, h, perl, noref, 0), "wrong header")
	sym.Assert(matches(m, v, perl, noref, 0), "wrong body")
	sym.Reach("end")
}

// C01_Header: any header, any body.
func C01_Headers() {
	ver := 2 + sym.Choose(2)
	doc := exact(mkdocH(ver, 0, headers(), []byte(headerBody)))
	d := decoderOpts()
	var h, v interface{}
	err := d.UnmarshalHeaderBody(doc, &h, &v)
	sym.ObsBool("ok", err == nil)
	sym.Reach("end")
}

// refuses asserts that an invalid document is rejected by a typed target, too.
func refuses(doc []byte, k int) {
	_, st := refDoc(doc)
	sym.Assume(st == invalid)
	d := sereal.NewDecoder()
	d.PerlCompat = sym.Bool()
	sym.Assert(d.Unmarshal(doc, dest(k)) != nil, "invalid document accepted")
	sym.Reach("end")
}

// C12_Typed: malformed documents into typed destinations.
func C12_Typed() {
	refuses(exact(mkdoc(sym.UpTo(1, 2), 0, sym.Bytes(sym.UpTo(1, sym.Bound(2, 3))))), freshDests[sym.Choose(len(freshDests))])
}

func C12_TypedAlpha() {
	refuses(alphaDoc(sym.Choose(5), sym.Bound(4, 5)), compDests[sym.Choose(len(compDests))])
}

func C12_TypedMutants() {
	k := []int{10, 11, 14, 16, 18, 21, 23, 27, 31, 32}
	refuses(exact(mkdoc(3, 0, mutant(3))), k[sym.Choose(len(k))])
}

func C12_TypedVarints() {
	k := []int{7, 8, 10, 11, 13, 14, 15, 16, 18, 20, 21, 23, 27, 31, 32}
	n := []int{2, 5, 9}
	refuses(hugeVarint(n[sym.Choose(len(n))]), k[sym.Choose(len(k))])
}

// copies is a body whose items copy each other, and a destination of its shape.
func copies() ([]byte, interface{}) {
	k := sym.Choose(7)
	b := []byte([]string{
		"\x43\x41\x61a\x42\x61b\x2f?\x2f?",
		"\x43\x51\x61A\x07\x52\x61A\x2f?\x61B\x61b\x2f?",
		"\x42\x2c\x61X\x51\x61A\x2f?\x2f?",
		"\x53\x61A\x07\x61D\x51\x61A\x2f?\x61C\x2f?",
		"\x44\x05\x28\x05\x28\x2f?\x2f?",
		"\x53\x61a\x41\x07\x61b\x42\x2f?\x09\x61c\x2f?",
		"\x43\x62xy\x28\xaa\x01\x61A\x2f?\x2f?",
	}[k])
	for i, c := range b {
		if c == '?' {
			b[i] = 1 + byte(sym.Choose(len(b)))
		}
	}
	outs := [][]interface{}{
		{new([][]string), new([3][2]string), new([][]interface{}), new([]interface{}), new([][][]byte)},
		{new([]map[string]int), new([]*tInner), new([3]tInner), new([]map[string]interface{}), new([]map[interface{}]int)},
		{new([]*tInner), new([2]tStruct), new([]interface{}), new([]map[string]int8)},
		{new(tStruct), new(*tStruct), new(map[string]interface{}), new(struct{ A, C, D interface{} })},
		{new([]int), new([4]*int8), new([]interface{}), new([]uint16)},
		{new(map[string][]int), new(map[string][2]int), new(map[interface{}]interface{}), new(map[nStr][]interface{})},
		{new([]interface{}), new([]string), new([3][]byte), new([]*tStruct)},
	}[k]
	return exact(mkdoc(2, 0, b)), outs[sym.Choose(len(outs))]
}

// C12_Nested: a COPY of a COPY is refused by a typed target, too.
func C12_Nested() {
	doc, out := copies()
	_, st := refDoc(doc)
	sym.Assume(st == invalid)
	d := sereal.NewDecoder()
	d.PerlCompat = sym.Bool()
	sym.Assert(d.Unmarshal(doc, out) != nil, "invalid document accepted")
	sym.Reach("end")
}

// C25_Nested: items that copy each other, each in its place.
func C25_Nested() {
	agree(copies())
}
