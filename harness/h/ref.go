package zzverif

import (
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
)

// An independent reading of sereal_spec.pod: the oracle of C05, C10, C11, C12
// and C25. It decodes the body of an uncompressed document into a tree and
// classifies the document:
//
//	valid    the specification gives it exactly this value
//	invalid  the specification forbids it
//	gray     the specification (or Go's documented subset of it) leaves it open

const (
	valid   = 0
	invalid = 1
	gray    = 2
)

const (
	rUndef = iota
	rCanon
	rFalse
	rTrue
	rUint // u
	rNeg  // int64(u) < 0
	rF32
	rF64
	rBin
	rStr
	rArr
	rHash
	rRef
	rWeak
	rRegexp
	rObj
	rFrz
)

type rnode struct {
	k       int
	u       uint64
	b, b2   []byte
	kids    []*rnode // hash: key, value, ...; ref, weak, object: the item
	open    bool
	key     bool // stands where only strings may stand
	class   bool
	tracked bool
	refp    bool // rRef made by a REFP
	alias   bool
}

type rdec struct {
	b      []byte
	base   int // offset of b[0]
	items  map[int]*rnode
	copied int
	ver    int
}

// refDecode reads the item at b[i:]; offsets of the document count b[0] as base.
func refDecode(b []byte, i, base, ver int) (n *rnode, end int, status int) {
	d := &rdec{b: b, base: base, items: map[int]*rnode{}, ver: ver}
	return d.item(i)
}

// refDoc decodes a raw document (header included).
func refDoc(doc []byte) (n *rnode, status int) {
	if len(doc) < 6 {
		return nil, invalid
	}
	ver := int(doc[4] & 15)
	d := &rdec{b: doc, ver: ver}
	ln, i, st := d.varint(5)
	if st != valid {
		return nil, st
	}
	if ln > uint64(len(doc)-i) {
		return nil, invalid
	}
	i += int(ln)
	d.items = map[int]*rnode{}
	if ver >= 2 {
		d.base = 1 - i
	}
	n, end, st := d.item(i)
	if st != valid {
		return nil, st
	}
	if end != len(doc) {
		return n, gray // trailing bytes
	}
	return n, valid
}

func (d *rdec) varint(i int) (u uint64, end int, status int) {
	s := uint(0)
	for {
		if i >= len(d.b) {
			return 0, 0, invalid
		}
		c := d.b[i]
		i++
		if s == 63 {
			if c >= 0x80 {
				return 0, 0, invalid
			}
			if c > 1 {
				return 0, 0, gray // more than 64 bits
			}
		}
		u |= uint64(c&0x7f) << s
		if c < 0x80 {
			return u, i, valid
		}
		s += 7
	}
}

// offset reads an offset that must lie before the tag at i.
func (d *rdec) offset(p, i int) (idx, end int, status int) {
	u, end, st := d.varint(p)
	if st != valid {
		return 0, 0, st
	}
	if u >= uint64(i+d.base) {
		if u == uint64(i+d.base) {
			return 0, 0, gray // the tag itself
		}
		return 0, 0, invalid
	}
	idx = int(u) - d.base
	if idx < 0 {
		return 0, 0, gray // in v1: inside the header
	}
	return idx, end, valid
}

func (d *rdec) length(p int) (n, end int, status int) {
	u, end, st := d.varint(p)
	if st != valid {
		return 0, 0, st
	}
	if u > uint64(len(d.b)-end) {
		return 0, 0, invalid
	}
	return int(u), end, valid
}

func (d *rdec) pads(i int) int {
	for i < len(d.b) && d.b[i]&0x7f == tPAD {
		i++
	}
	return i
}

// str reads a string where the specification demands one.
func (d *rdec) str(i int) (n *rnode, at, end int, status int) {
	i = d.pads(i)
	if i >= len(d.b) {
		return nil, 0, 0, invalid
	}
	tag := d.b[i] & 0x7f
	n = &rnode{key: true, tracked: d.b[i] >= 0x80}
	switch {
	case tag == tBINARY || tag == tSTRUTF8:
		ln, p, st := d.length(i + 1)
		if st != valid {
			return nil, 0, 0, st
		}
		n.k = rBin
		if tag == tSTRUTF8 {
			n.k = rStr
		}
		n.b = d.b[p : p+ln]
		d.set(i, n)
		return n, i, p + ln, valid
	case tag >= tSHORT:
		ln := int(tag & 31)
		if ln > len(d.b)-i-1 {
			return nil, 0, 0, invalid
		}
		n.k = rBin
		n.b = d.b[i+1 : i+1+ln]
		d.set(i, n)
		return n, i, i + 1 + ln, valid
	case tag == tCOPY:
		idx, end, st := d.offset(i+1, i)
		if st != valid {
			return nil, 0, 0, st
		}
		t := d.items[idx]
		if t == nil {
			return nil, 0, 0, gray
		}
		if d.b[idx]&0x7f == tCOPY || t.open || (t.k != rBin && t.k != rStr) {
			return nil, 0, 0, invalid
		}
		n.k, n.b = t.k, t.b
		d.set(i, n)
		return n, i, end, valid
	}
	return nil, 0, 0, invalid
}

func (d *rdec) many(n *rnode, i, cnt int) (end int, status int) {
	if cnt > len(d.b)-i {
		return 0, invalid
	}
	n.open = true
	for ; cnt > 0; cnt-- {
		k, e, st := d.item(i)
		if st != valid {
			return 0, st
		}
		n.kids = append(n.kids, k)
		i = e
	}
	n.open = false
	return i, valid
}

func (d *rdec) pairs(n *rnode, i, cnt int) (end int, status int) {
	if cnt > (len(d.b)-i)/2 {
		return 0, invalid
	}
	n.open = true
	dup := false
	for ; cnt > 0; cnt-- {
		k, _, e, st := d.str(i)
		if st != valid {
			return 0, st
		}
		for j := 0; j < len(n.kids); j += 2 {
			if string(n.kids[j].b) == string(k.b) {
				dup = true
			}
		}
		v, e, st := d.item(e)
		if st != valid {
			return 0, st
		}
		n.kids = append(n.kids, k, v)
		i = e
	}
	n.open = false
	if dup {
		return 0, gray
	}
	return i, valid
}

func (d *rdec) item(i int) (n *rnode, end int, status int) {
	i = d.pads(i)
	if i >= len(d.b) {
		return nil, 0, invalid
	}
	tag := d.b[i] & 0x7f
	n = &rnode{tracked: d.b[i] >= 0x80}
	if d.copied == 0 {
		d.set(i, n)
	}
	p := i + 1
	switch {
	case tag < 16:
		n.k, n.u = rUint, uint64(tag)
		return n, p, valid
	case tag < 32:
		n.k, n.u = rNeg, uint64(int64(tag)-32)
		return n, p, valid
	case tag == tVARINT:
		u, e, st := d.varint(p)
		n.k, n.u = rUint, u
		return n, e, st
	case tag == tZIGZAG:
		u, e, st := d.varint(p)
		n.u = (u >> 1) ^ -(u & 1)
		n.k = rUint
		if u&1 == 1 {
			n.k = rNeg
		}
		return n, e, st
	case tag == tFLOAT:
		if p+4 > len(d.b) {
			return nil, 0, invalid
		}
		n.k = rF32
		n.u = uint64(d.b[p]) | uint64(d.b[p+1])<<8 | uint64(d.b[p+2])<<16 | uint64(d.b[p+3])<<24
		return n, p + 4, valid
	case tag == tDOUBLE:
		if p+8 > len(d.b) {
			return nil, 0, invalid
		}
		n.k = rF64
		for j := 7; j >= 0; j-- {
			n.u = n.u<<8 | uint64(d.b[p+j])
		}
		return n, p + 8, valid
	case tag == tLONGDOUBLE:
		return nil, 0, gray // Go has no such type
	case tag == tUNDEF:
		n.k = rUndef
		return n, p, valid
	case tag == tCUNDEF:
		n.k = rCanon
		return n, p, valid
	case tag == tFALSE:
		n.k = rFalse
		return n, p, valid
	case tag == tTRUE:
		n.k = rTrue
		return n, p, valid
	case tag == tBINARY, tag == tSTRUTF8, tag >= tSHORT:
		s, _, e, st := d.str(i)
		if st != valid {
			return nil, 0, st
		}
		n.k, n.b = s.k, s.b
		d.set(i, n)
		return n, e, valid
	case tag == tARRAY:
		cnt, e, st := d.length(p)
		if st != valid {
			return nil, 0, st
		}
		n.k = rArr
		e, st = d.many(n, e, cnt)
		return n, e, st
	case tag == tHASH:
		cnt, e, st := d.length(p)
		if st != valid {
			return nil, 0, st
		}
		n.k = rHash
		e, st = d.pairs(n, e, cnt)
		return n, e, st
	case tag >= tARRAYREF && tag < tHASHREF:
		// the offset of the tag denotes the reference, the array has none
		n.k = rRef
		a := &rnode{k: rArr}
		n.kids = []*rnode{a}
		n.open = true
		e, st := d.many(a, p, int(tag&15))
		n.open = false
		return n, e, st
	case tag >= tHASHREF && tag < tSHORT:
		n.k = rRef
		a := &rnode{k: rHash}
		n.kids = []*rnode{a}
		n.open = true
		e, st := d.pairs(a, p, int(tag&15))
		n.open = false
		return n, e, st
	case tag == tREFN:
		n.k = rRef
		n.open = true
		k, e, st := d.item(p)
		n.open = false
		n.kids = []*rnode{k}
		return n, e, st
	case tag == tREFP, tag == tALIAS:
		if d.copied > 0 {
			return nil, 0, gray
		}
		idx, e, st := d.offset(p, i)
		if st != valid {
			return nil, 0, st
		}
		t := d.items[idx]
		if t == nil || (!t.tracked && !t.key) {
			return nil, 0, invalid
		}
		if t.key || (t.open && (tag == tALIAS || t.k != rArr && t.k != rHash)) {
			return nil, 0, gray
		}
		if tag == tALIAS {
			t.alias = true
			if n.tracked {
				return nil, 0, gray
			}
			d.set(i, t)
			return t, e, valid
		}
		n.k, n.refp = rRef, true
		n.kids = []*rnode{t}
		return n, e, valid
	case tag == tCOPY:
		if d.copied > 0 {
			return nil, 0, invalid
		}
		idx, e, st := d.offset(p, i)
		if st != valid {
			return nil, 0, st
		}
		t := d.items[idx]
		if t == nil || t.open || d.b[idx]&0x7f == tPAD {
			return nil, 0, gray
		}
		d.copied++
		c, _, st := d.item(idx)
		d.copied--
		if st != valid {
			return nil, 0, st
		}
		tr := n.tracked
		*n = *c
		n.tracked = tr
		return n, e, valid
	case tag == tWEAKEN:
		j := d.pads(p)
		if j < len(d.b) {
			t := d.b[j] & 0x7f
			if t != tREFN && t != tREFP && (t < tARRAYREF || t >= tSHORT) {
				return nil, 0, gray
			}
		}
		n.k = rWeak
		n.open = true
		k, e, st := d.item(p)
		n.open = false
		n.kids = []*rnode{k}
		return n, e, st
	case tag == tREGEXP:
		a, _, e, st := d.str(p)
		if st != valid {
			return nil, 0, st
		}
		m, _, e, st := d.str(e)
		if st != valid {
			return nil, 0, st
		}
		n.k, n.b, n.b2 = rRegexp, a.b, m.b
		return n, e, valid
	case tag == tOBJECT, tag == tFREEZE:
		c, _, e, st := d.str(p)
		if st != valid {
			return nil, 0, st
		}
		c.class = true
		n.b = c.b
		return d.object(n, e, tag == tFREEZE)
	case tag == tOBJECTV, tag == tFREEZEV:
		idx, e, st := d.offset(p, i)
		if st != valid {
			return nil, 0, st
		}
		t := d.items[idx]
		if t == nil || !t.class {
			return nil, 0, gray
		}
		n.b = t.b
		return d.object(n, e, tag == tFREEZEV)
	}
	return nil, 0, invalid
}

func (d *rdec) object(n *rnode, i int, frozen bool) (*rnode, int, int) {
	n.k = rObj
	if frozen {
		n.k = rFrz
		if d.ver < 2 {
			return nil, 0, gray
		}
		if i+3 > len(d.b) || d.b[i] != tREFN || d.b[i+1] != tARRAY || d.b[i+2] != 1 {
			return nil, 0, gray
		}
	}
	n.open = true
	k, e, st := d.item(i)
	n.open = false
	if st != valid {
		return nil, 0, st
	}
	if frozen && k.kids[0].kids[0].k != rBin {
		return nil, 0, gray
	}
	n.kids = []*rnode{k}
	return n, e, valid
}

// matches reports whether v is the value Go's untyped decoder documents for n.
func matches(n *rnode, v interface{}, perl, noref bool, depth int) bool {
	if depth > 6 {
		return true
	}
	switch n.k {
	case rUndef:
		if perl {
			u, ok := v.(*sereal.PerlUndef)
			return ok && u != sereal.PerlCanonicalUndef()
		}
		return v == nil
	case rCanon:
		if perl {
			u, ok := v.(*sereal.PerlUndef)
			return ok && u == sereal.PerlCanonicalUndef()
		}
		return v == nil
	case rFalse, rTrue:
		b, ok := v.(bool)
		return ok && b == (n.k == rTrue)
	case rUint:
		switch x := v.(type) {
		case int:
			return x >= 0 && uint64(x) == n.u
		case uint:
			return uint64(x) == n.u && int64(n.u) < 0
		}
		return false
	case rNeg:
		x, ok := v.(int)
		return ok && int64(x) == int64(n.u)
	case rF32:
		x, ok := v.(float32)
		return ok && f32bits(x) == uint32(n.u)
	case rF64:
		x, ok := v.(float64)
		return ok && f64bits(x) == n.u
	case rBin:
		x, ok := v.([]byte)
		return ok && eqBytes(x, n.b)
	case rStr:
		x, ok := v.(string)
		return ok && x == string(n.b)
	case rArr:
		x, ok := v.([]interface{})
		if !ok || len(x) != len(n.kids) {
			return false
		}
		for i := range x {
			if !matches(n.kids[i], x[i], perl, noref, depth+1) {
				return false
			}
		}
		return true
	case rHash:
		x, ok := v.(map[string]interface{})
		if !ok || 2*len(x) != len(n.kids) {
			return false
		}
		for i := 0; i < len(n.kids); i += 2 {
			e, ok := x[string(n.kids[i].b)]
			if !ok || !matches(n.kids[i+1], e, perl, noref, depth+1) {
				return false
			}
		}
		return true
	case rRef:
		if n.refp && noref || !n.refp && !perl {
			return matches(n.kids[0], v, perl, noref, depth+1)
		}
		rv := reflect.ValueOf(v)
		if rv.Kind() != reflect.Ptr || rv.IsNil() {
			return false
		}
		return matches(n.kids[0], rv.Elem().Interface(), perl, noref, depth+1)
	case rWeak:
		if perl {
			w, ok := v.(*sereal.PerlWeakRef)
			return ok && matches(n.kids[0], w.Reference, perl, noref, depth+1)
		}
		return matches(n.kids[0], v, perl, noref, depth+1)
	case rRegexp:
		r, ok := v.(*sereal.PerlRegexp)
		return ok && eqBytes(r.Pattern, n.b) && eqBytes(r.Modifiers, n.b2)
	case rObj:
		if perl {
			o, ok := v.(*sereal.PerlObject)
			return ok && o.Class == string(n.b) && matches(n.kids[0], o.Reference, perl, noref, depth+1)
		}
		return matches(n.kids[0], v, perl, noref, depth+1)
	case rFrz:
		f, ok := v.(*sereal.PerlFreeze)
		return ok && f.Class == string(n.b) && eqBytes(f.Data, n.kids[0].kids[0].kids[0].b)
	}
	return false
}

// set records the item at i; a copy is no item of its own.
func (d *rdec) set(i int, n *rnode) {
	if d.copied == 0 {
		d.items[i] = n
	}
}
