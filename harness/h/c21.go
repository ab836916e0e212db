package zzverif

import (
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// iso compares two object graphs: the same values, and pointers shared in one
// exactly where they are shared in the other.
type iso struct{ a, b []interface{} }

func (s *iso) eq(a, b interface{}, depth int) bool {
	if depth > 12 {
		return true
	}
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !s.eq(x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !s.eq(v, w, depth+1) {
				return false
			}
		}
		return true
	case *sereal.PerlUndef:
		y, ok := b.(*sereal.PerlUndef)
		return ok && (x == sereal.PerlCanonicalUndef()) == (y == sereal.PerlCanonicalUndef())
	case *sereal.PerlObject:
		y, ok := b.(*sereal.PerlObject)
		return ok && x.Class == y.Class && s.eq(x.Reference, y.Reference, depth+1)
	case *sereal.PerlWeakRef:
		y, ok := b.(*sereal.PerlWeakRef)
		return ok && s.eq(x.Reference, y.Reference, depth+1)
	case *sereal.PerlRegexp:
		y, ok := b.(*sereal.PerlRegexp)
		return ok && eqBytes(x.Pattern, y.Pattern) && eqBytes(x.Modifiers, y.Modifiers)
	case *sereal.PerlFreeze:
		y, ok := b.(*sereal.PerlFreeze)
		return ok && x.Class == y.Class && eqBytes(x.Data, y.Data)
	}
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Kind() != reflect.Ptr {
		return same(a, b, depth)
	}
	if y.Kind() != reflect.Ptr || x.Type() != y.Type() || x.IsNil() || y.IsNil() {
		return false
	}
	for i := range s.a {
		p, q := s.a[i] == a, s.b[i] == b
		if p != q {
			return false
		}
		if p {
			return true
		}
	}
	s.a, s.b = append(s.a, a), append(s.b, b)
	return s.eq(x.Elem().Interface(), y.Elem().Interface(), depth+1)
}

// eqNode compares two readings of a document.
func eqNode(a, b *rnode, depth int) bool {
	if depth > 10 {
		return true
	}
	if a.k != b.k || a.u != b.u || !eqBytes(a.b, b.b) || !eqBytes(a.b2, b.b2) || len(a.kids) != len(b.kids) {
		return false
	}
	if a.k == rHash {
		for i := 0; i < len(a.kids); i += 2 {
			ok := false
			for j := 0; j < len(b.kids); j += 2 {
				if eqBytes(a.kids[i].b, b.kids[j].b) {
					ok = eqNode(a.kids[i+1], b.kids[j+1], depth+1)
					break
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for i := range a.kids {
		if !eqNode(a.kids[i], b.kids[i], depth+1) {
			return false
		}
	}
	return true
}

// checkPerl takes a document through the cycle.
func checkPerl(ver int, body []byte) {
	sym.MapOrder(0) // hashes of one entry
	doc := exact(mkdoc(ver, 0, body))
	n1, st := refDoc(doc)
	sym.Assume(st == valid)
	d := sereal.NewDecoder()
	d.PerlCompat = true
	var v1, v2 interface{}
	sym.Assert(d.Unmarshal(doc, &v1) == nil, "Unmarshal fails")
	w := []int{1, 3, 2}[sym.Choose(sym.Bound(2, 3))]
	e := encoderV(w)
	e.PerlCompat = true
	e.DisableDedup = sym.Bool()
	b, err := e.Marshal(v1)
	if err != nil {
		sym.Assert(w == 1, "Marshal fails")
		sym.Reach("refused")
		return
	}
	n2, st := refDoc(b)
	if w > 1 { // version 1 has no frozen objects
		sym.Assert(st == valid, "not a document")
	}
	sym.Assert(d.Unmarshal(exact(b), &v2) == nil, "Unmarshal of the second document fails")
	sym.Assert(st == gray && w == 1 || eqNode(n1, n2, 0), "the document says something else")
	sym.Assert((&iso{}).eq(v1, v2, 0), "value or sharing changed")
	sym.Reach("end")
}

// perlGen writes a document body over Perl's value space. Containers stand
// behind references, objects are blessed references.
type perlGen struct {
	b       []byte
	base    int
	refs    []int // items a REFP may refer to: what a REFN refers to
	classes []int
	few     bool // few scalars
}

func (g *perlGen) put(c ...byte) { g.b = append(g.b, c...) }

func (g *perlGen) at() int { return len(g.b) + g.base }

func (g *perlGen) str() {
	n := 2
	if g.few {
		n = 1
	}
	switch sym.Choose(n) {
	case 0:
		g.put(tSHORT+1, sym.Byte())
	case 1:
		g.put(tSTRUTF8, 1, sym.Byte())
	}
}

func (g *perlGen) scalar() {
	n := 6
	if g.few {
		n = 3
	}
	switch sym.Choose(n) {
	case 0:
		g.put(oneOf(1, "\x00\x07\x1f")...)
	case 1:
		g.str()
	case 2:
		g.put(tUNDEF)
	case 3:
		g.put(tCUNDEF)
	case 4:
		g.put(tFALSE | byte(bit(sym.Bool())))
	case 5:
		g.put(tFLOAT, 0, 0, sym.Byte(), 0x41)
	}
}

// ref is a reference: to a container, a scalar, another reference, a regexp, or to what an earlier one refers to.
func (g *perlGen) ref(depth int) {
	n := 6
	if depth == 0 {
		n = 3
	}
	k := sym.Choose(n + len(g.refs))
	if k >= n {
		p := g.refs[k-n]
		sym.Assume(p < g.at()) // not this one
		g.b[p-g.base] |= trackBit
		g.put(tREFP)
		g.b = putVarint(g.b, uint64(p))
		return
	}
	if k < 2 && sym.Bool() {
		k += 10
	}
	switch k {
	case 0, 1:
		g.put(tREFN)
	}
	g.refs = append(g.refs, g.at())
	switch k {
	case 0:
		g.put(tARRAY, 1)
		g.elem(depth)
	case 1:
		g.put(tHASH, 1, tSHORT+1, sym.Byte())
		g.elem(depth)
	case 10:
		g.refs = g.refs[:len(g.refs)-1]
		g.put(tARRAYREF + 1)
		g.elem(depth)
	case 11:
		g.refs = g.refs[:len(g.refs)-1]
		g.put(tHASHREF+1, tSHORT+1, sym.Byte())
		g.elem(depth)
	default:
		g.b = append(g.b, tREFN)
		g.refs[len(g.refs)-1]++
		switch k {
		case 2:
			g.scalar()
		case 3:
			g.put(tREGEXP)
			g.str()
			g.put(tSHORT+1, 'i')
		case 4:
			g.item(depth - 1)
		case 5:
			g.put(tARRAY, 2)
			g.item(depth - 1)
			g.item(depth - 1)
		}
	}
}

func (g *perlGen) elem(depth int) {
	if depth == 0 {
		g.scalar()
		return
	}
	g.item(depth - 1)
}

// item is any value.
func (g *perlGen) item(depth int) {
	switch sym.Choose(6) {
	case 0:
		g.scalar()
	case 1:
		g.ref(depth)
	case 2:
		g.class(tOBJECT)
		g.ref(depth)
	case 3:
		g.put(tWEAKEN)
		g.ref(depth)
	case 4:
		g.class(tFREEZE)
		g.put(tREFN, tARRAY, 1, tSHORT+1, sym.Byte())
	case 5:
		g.put(tREGEXP)
		g.str()
		g.str()
	}
}

// class writes an object's tag and class name, or refers to an earlier one.
func (g *perlGen) class(tag byte) {
	if k := sym.Choose(1 + len(g.classes)); k > 0 {
		g.put(tag + 1)
		g.b = putVarint(g.b, uint64(g.classes[k-1]))
		return
	}
	g.put(tag)
	g.classes = append(g.classes, g.at())
	g.put(tSHORT+1, sym.Byte())
}

// C21_Items: every item of the value space of the given depth.
func C21_Items() {
	g := &perlGen{base: 1, few: true}
	g.item(sym.Bound(1, 2))
	checkPerl(sym.Bound(3, 2), g.b)
}

// C21_Flat: every item without nesting, all scalars.
func C21_Flat() {
	g := &perlGen{base: 1}
	g.item(0)
	checkPerl(sym.UpTo(2, 4), g.b)
}

// C21_Pair: two items, the second of which may refer to the first.
func C21_Pair() {
	g := &perlGen{base: 1, few: true}
	g.put(tARRAYREF + 2)
	g.item(0)
	g.item(0)
	checkPerl(3, g.b)
}

// C21_Copies: copied items, which may use classes from outside.
func C21_Copies() {
	g := &perlGen{base: 1, few: true}
	g.put(tARRAYREF + 3)
	g.item(0)
	at := byte(g.at())
	if sym.Bool() {
		g.put(tARRAYREF + 1)
	}
	g.item(0)
	g.put(tCOPY, at)
	checkPerl(3, g.b)
}

// C21_Version1: the same in version 1.
func C21_Version1() {
	g := &perlGen{base: 6, few: true}
	g.put(tARRAYREF + 2)
	g.ref(0)
	g.item(0)
	checkPerl(1, g.b)
}

// C21_Cycles: references to containers that hold them.
func C21_Cycles() {
	body := shape([]string{
		"\x28\xab\x01\x29\x02", // $a = [$a]
		"\x28\xab\x02\x29\x02\x29\x02",
		"\x28\xab\x02\x30\x29\x02\x61?",
		"\x28\xaa\x01\x61?\x29\x02",
		"\x28\xaa\x01\x61?\x30\x29\x02",
		"\x2c\x61?\x28\xaa\x01\x61s\x30\x29\x05",
		"\x2c\x61?\x28\xaa\x01\x61s\x2d\x02\x29\x05",
		"\x28\xa8\x29\x02",                         // $a = \\$a
		"\x28\xa8\x28\x29\x02",                     // through another
		"\x28\xa8\x28\x29\x03",                     // $a = \\$b, $b = \\$b
		"\x28\xab\x02\x28\xab\x01\x29\x02\x29\x05", // two that hold each other
		"\x42\x28\xab\x01\x29\x03\x29\x03",
		"\x28\xab\x02\x28\xe1?\x29\x05",
		"\x28\xab\x02\x28\x9f\x30\x29\x05",
		"\x28\xab\x03\x28\x9f\x29\x05\x29\x02",
		"\xac\x61?\x28\x2b\x01\x2e\x01", // the object itself, not the array in it
		"\xac\x61?\x28\x2b\x02\x30\x2e\x01\x2e\x01",
		"\xb0\x28\x2b\x01\x2e\x01",
		"\xac\x61?\x28\x2a\x01\x61s\x2d\x02\x2e\x01",
	}[sym.Choose(19)])
	checkPerl(3, body)
}

// C21_Long: patterns, payloads and class names of any length class.
func C21_Long() {
	n := classLen()
	p := filled(n)
	s := putVarint([]byte{tBINARY}, uint64(n))
	s = append(s, p...)
	if sym.Bool() {
		s[0] = tSTRUTF8
	}
	var body []byte
	switch sym.Choose(6) {
	case 0:
		body = append([]byte{tREGEXP}, s...)
		body = append(body, tSHORT+1, 'i')
	case 1:
		body = append([]byte{tREGEXP, tSHORT + 1, sym.Byte()}, s...)
	case 2:
		body = append([]byte{tOBJECT}, s...)
		body = append(body, tHASHREF)
	case 3:
		body = append([]byte{tFREEZE}, s...)
		body = append(body, tREFN, tARRAY, 1, tSHORT+1, sym.Byte())
	case 4:
		body = append([]byte{tFREEZE, tSHORT + 1, sym.Byte(), tREFN, tARRAY, 1}, s...)
	case 5:
		body = append([]byte{tOBJECT, tSHORT + 6, 'R', 'e', 'g', 'e', 'x', 'p', tREFN, tREGEXP}, s...)
		body = append(body, tSHORT+1, 'x')
	}
	checkPerl(3, body)
}
