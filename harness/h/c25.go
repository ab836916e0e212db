package zzverif

import (
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

// strip removes what a typed destination has no place for: references,
// weakenings and class names.
func strip(n *rnode) *rnode {
	for i := 0; i < 8 && (n.k == rRef || n.k == rWeak || n.k == rObj); i++ {
		n = n.kids[0]
	}
	return n
}

// agrees reports whether v, decoded into a fresh typed destination, has the content of n.
func agrees(n *rnode, v reflect.Value, perl, noref bool, depth int) bool {
	if depth > 6 {
		return true
	}
	if v.Kind() == reflect.Interface {
		if v.IsNil() {
			return matches(n, nil, perl, noref, 0)
		}
		e := v.Elem().Interface()
		return matches(n, e, perl, noref, 0) || agreesShared(n, v.Elem(), perl, noref, depth+1)
	}
	if p, ok := v.Interface().(*sereal.PerlRegexp); ok && p != nil {
		return matches(strip(n), p, perl, noref, 0)
	}
	n = strip(n)
	switch n.k {
	case rUndef, rCanon:
		return v.IsZero()
	case rFalse, rTrue:
		return v.Kind() == reflect.Bool && v.Bool() == (n.k == rTrue)
	case rUint, rNeg:
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			x := v.Int()
			return x == int64(n.u) && (x < 0) == (n.k == rNeg)
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return v.Uint() == n.u && n.k == rUint
		}
		return false
	case rF32:
		f := f32from(uint32(n.u))
		switch v.Kind() {
		case reflect.Float32:
			return f32bits(v.Interface().(float32)) == uint32(n.u)
		case reflect.Float64:
			x := v.Float()
			return x == float64(f) && (x != 0 || f64bits(x)>>63 == n.u>>31) || x != x && f != f
		}
		return false
	case rF64:
		f := f64from(n.u)
		switch v.Kind() {
		case reflect.Float32:
			x := v.Interface().(float32)
			return x == float32(f) && (x != 0 || uint64(f32bits(x)>>31) == n.u>>63) || x != x && f != f
		case reflect.Float64:
			return f64bits(v.Float()) == n.u
		}
		return false
	case rBin, rStr:
		switch v.Kind() {
		case reflect.String:
			return v.String() == string(n.b)
		case reflect.Slice, reflect.Array:
			if n.k == rStr || v.Type().Elem().Kind() != reflect.Uint8 {
				return false
			}
			if v.Kind() == reflect.Slice && v.Len() != len(n.b) {
				return false
			}
			// an array keeps what fits
			for i := 0; i < v.Len(); i++ {
				c := byte(0)
				if i < len(n.b) {
					c = n.b[i]
				}
				if byte(v.Index(i).Uint()) != c {
					return false
				}
			}
			return true
		}
		return false
	case rArr:
		if v.Kind() != reflect.Slice && v.Kind() != reflect.Array || v.Kind() == reflect.Slice && v.Len() != len(n.kids) {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if i >= len(n.kids) {
				if !v.Index(i).IsZero() {
					return false
				}
			} else if !agrees(n.kids[i], v.Index(i), perl, noref, depth+1) {
				return false
			}
		}
		return true
	case rHash:
		switch v.Kind() {
		case reflect.Ptr:
			return !v.IsNil() && agrees(n, v.Elem(), perl, noref, depth+1)
		case reflect.Map:
			if v.IsNil() || 2*v.Len() != len(n.kids) {
				return false
			}
			for i := 0; i < len(n.kids); i += 2 {
				k, ok := mapKeyOf(n.kids[i].b, v.Type().Key())
				if !ok {
					return false
				}
				e := v.MapIndex(k)
				if !e.IsValid() || !agrees(n.kids[i+1], e, perl, noref, depth+1) {
					return false
				}
			}
			return true
		case reflect.Struct:
			for j := 0; j < v.NumField(); j++ {
				name := v.Type().Field(j).Name
				if name[0] >= 'a' { // unexported
					if !v.Field(j).IsZero() {
						return false
					}
					continue
				}
				found, good := false, false
				for i := 0; i < len(n.kids); i += 2 {
					k := string(n.kids[i].b)
					if k == name || len(k) == 1 && k[0]-'a' < 26 && k[0]-32 == name[0] {
						if found {
							good = true // two keys of one field: open what it keeps
						}
						found = true
						good = good || agrees(n.kids[i+1], v.Field(j), perl, noref, depth+1)
					}
				}
				if found && !good || !found && !v.Field(j).IsZero() {
					return false
				}
			}
			return true
		}
		return false
	case rFrz:
		data := n.kids[0].kids[0].kids[0].b
		switch x := v.Interface().(type) {
		case tUnm:
			return eqBytes(x.data, data)
		case *tUnm:
			return x != nil && eqBytes(x.data, data)
		case []byte:
			return eqBytes(x, data)
		}
		return false
	}
	return false
}

// mapKeyOf returns the key of type t that a hash key stands for.
func mapKeyOf(b []byte, t reflect.Type) (reflect.Value, bool) {
	k := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		k.SetString(string(b))
		return k, true
	case reflect.Interface:
		return reflect.ValueOf(string(b)), t.NumMethod() == 0
	}
	neg := len(b) > 0 && b[0] == '-'
	if neg {
		b = b[1:]
	}
	if len(b) == 0 || len(b) > 18 || b[0] == '0' && (neg || len(b) > 1) {
		return k, false
	}
	n := 0
	for _, c := range b {
		if c < '0' || c > '9' {
			return k, false
		}
		n = 10*n + int(c-'0')
	}
	if neg {
		n = -n
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if k.OverflowInt(int64(n)) {
			return k, false
		}
		k.SetInt(int64(n))
		return k, true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if neg || k.OverflowUint(uint64(n)) {
			return k, false
		}
		k.SetUint(uint64(n))
		return k, true
	}
	return k, false
}

// agreesShared: an item inside an untyped part may be shared with a typed one.
func agreesShared(n *rnode, v reflect.Value, perl, noref bool, depth int) bool {
	for i := 0; i < 4; i++ {
		if n.k == rRef && n.refp && !noref {
			return v.Kind() == reflect.Ptr && !v.IsNil() && agrees(n.kids[0], v.Elem(), perl, noref, depth)
		}
		if n.k == rRef && !n.refp && perl && v.Kind() == reflect.Ptr && !v.IsNil() {
			return agrees(n.kids[0], v.Elem(), perl, noref, depth+1)
		}
		if n.k == rRef && (n.refp || !perl) || !perl && (n.k == rWeak || n.k == rObj) {
			n = n.kids[0]
			continue
		}
		break
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return n.k == rUndef || n.k == rCanon
		}
		if v.Elem().Kind() == reflect.Ptr {
			return false
		}
	case reflect.Interface:
		return matches(n, v.Interface(), perl, noref, 0)
	}
	return agrees(n, v, perl, noref, depth)
}

// fits reports whether type t can hold n: references nest no deeper than it does.
func fits(n *rnode, t reflect.Type, depth int) bool {
	if depth > 6 || n.alias {
		return false
	}
	for n.k == rRef || n.k == rWeak || n.k == rObj {
		if n.refp || n.alias {
			return false
		}
		n = n.kids[0]
	}
	if n.alias {
		return false
	}
	if t.Kind() == reflect.Interface {
		return t.NumMethod() == 0 && n.k != rUndef && n.k != rCanon && plain(n)
	}
	switch n.k {
	case rUndef, rCanon:
		return t.Kind() == reflect.Ptr || t.Kind() == reflect.Slice || t.Kind() == reflect.Map
	case rFalse, rTrue:
		return t.Kind() == reflect.Bool
	case rUint, rNeg:
		v := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			return (int64(n.u) < 0) == (n.k == rNeg) && !v.OverflowInt(int64(n.u))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return n.k == rUint && !v.OverflowUint(n.u)
		}
		return false
	case rF32, rF64:
		return t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64
	case rStr:
		return t.Kind() == reflect.String
	case rBin:
		b := t.Kind() == reflect.Slice || t.Kind() == reflect.Array && t.Len() >= len(n.b)
		return t.Kind() == reflect.String || b && t.Elem() == reflect.TypeOf(byte(0))
	case rArr:
		if t.Kind() != reflect.Slice && t.Kind() != reflect.Array {
			return false
		}
		for i, k := range n.kids {
			if t.Kind() == reflect.Array && i >= t.Len() {
				// left out
				if !plain(k) {
					return false
				}
				continue
			}
			if !fits(k, t.Elem(), depth+1) {
				return false
			}
		}
		return true
	case rHash:
		if t.Kind() == reflect.Ptr {
			t = t.Elem()
		}
		switch t.Kind() {
		case reflect.Map:
			for i := 0; i < len(n.kids); i += 2 {
				if _, ok := mapKeyOf(n.kids[i].b, t.Key()); !ok || !fits(n.kids[i+1], t.Elem(), depth+1) {
					return false
				}
			}
			return true
		case reflect.Struct:
			seen := map[string]bool{}
			for i := 0; i < len(n.kids); i += 2 {
				k := string(n.kids[i].b)
				if len(k) == 1 && k[0]-'a' < 26 {
					k = string([]byte{k[0] - 32})
				}
				found := false
				for j := 0; j < t.NumField(); j++ {
					if t.Field(j).Name == k {
						found = k[0] < 'a' && fits(n.kids[i+1], t.Field(j).Type, depth+1)
					}
				}
				if !found || seen[k] {
					return false
				}
				seen[k] = true
			}
			return true
		}
	}
	return false
}

// plain: no shared items within.
func plain(n *rnode) bool {
	if n.refp || n.alias {
		return false
	}
	for _, k := range n.kids {
		if !plain(k) {
			return false
		}
	}
	return true
}

// endless reports whether an item holds itself.
func endless(n *rnode, depth int) bool {
	if depth > 12 {
		return true
	}
	for _, k := range n.kids {
		if endless(k, depth+1) {
			return true
		}
	}
	return false
}

// fresh destinations among those of dest
var freshDests = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 13, 14, 15, 16, 18, 20, 21, 23, 24, 25, 26, 27, 30, 31, 32, 33, 34, 35, 36}

func agree(doc []byte, out interface{}) {
	n, st := refDoc(doc)
	sym.Assume(st == valid)
	d, perl, noref := perlOpts()
	sym.Assume(!noref || !endless(n, 0)) // a struct cannot hold itself
	err := d.Unmarshal(doc, out)
	v := reflect.ValueOf(out).Elem()
	if err != nil {
		sym.Assert(perl || !fits(n, v.Type(), 0), "destination that fits is refused")
		sym.Reach("error")
		return
	}
	sym.Assert(agrees(n, v, perl, noref, 0), "typed value differs")
	sym.Reach("ok")
}

// C25_Bytes: every body of a few bytes.
func C25_Bytes() {
	k := sym.Choose(len(freshDests))
	agree(exact(mkdoc(sym.UpTo(1, 2), 0, sym.Bytes(sym.UpTo(1, sym.Bound(2, 3))))), dest(freshDests[k]))
}

var compDests = []int{8, 10, 14, 16, 18, 21, 23, 26, 27, 31, 32, 34, 35}

// C25_Alpha: longer bodies over the tag alphabets.
func C25_Alpha() {
	k := sym.Choose(len(compDests))
	a := sym.Choose(4)
	agree(alphaDoc(a, sym.Bound(4, 5)), dest(compDests[k]))
}

// C25_Shapes: documents near the shape of the destination.
func C25_Shapes() {
	s := typedShapes[sym.Choose(len(typedShapes))]
	k := sym.Choose(len(compDests))
	agree(exact(mkdoc(2, 0, shape(s))), dest(compDests[k]))
}

type (
	wInts struct {
		A int8
		B int16
		C int32
		D int64
		E int
		F uint8
		G uint16
		H uint32
		I uint64
		J uint
	}
	wMix struct {
		A *tInner
		B *tInner
		C interface{}
		D interface{}
		E map[string]int
		F []int
		G string
		H []byte
	}
)

// C25_Ints: every integer into every integer type.
func C25_Ints() {
	body := []byte{0x51, 0x61, byte('A' + sym.Choose(10))}
	body = append(body, byte(tVARINT+sym.Choose(2)))
	n := []int{1, 2, 3, 4, 5, 6, 9, 10}[sym.Choose(8)]
	body = append(body, longVarint(n)...)
	agree(exact(mkdoc(3, 0, body)), new(wInts))
}

// C25_Floats: every float.
func C25_Floats() {
	var body []byte
	if sym.Bool() {
		body = append([]byte{tFLOAT}, sym.Bytes(4)...)
	} else {
		body = append([]byte{tDOUBLE}, sym.Bytes(8)...)
	}
	var out interface{}
	switch sym.Choose(4) {
	case 0:
		out = new(float32)
	case 1:
		out = new(float64)
	case 2:
		body = append([]byte{0x41}, body...)
		out = new([]float32)
	case 3:
		body = append([]byte{0x51, 0x61, 'k'}, body...)
		out = new(map[string]float64)
	}
	agree(exact(mkdoc(3, 0, body)), out)
}

// C25_Shared: items shared between typed and untyped parts of the destination.
func C25_Shared() {
	item := []string{"\x81", "\xd1\x61A\x01", "\xd1\x61A\x05", "\xc2\x01\x02", "\xe1x", "\xa7\x01x", "\xa8\x51\x61A\x01", "\x28\xaa\x01\x61A\x01", "\xa0\x90\x01", "\x9f", "\xba", "\xa5"}[sym.Choose(12)]
	f := byte('A' + sym.Choose(8))
	g := byte('A' + sym.Choose(8))
	sym.Assume(f != g)
	off := byte(4)
	if item[0] == 0x28 {
		off = 5
	}
	body := append([]byte{0x52, 0x61, f}, item...)
	body = append(body, 0x61, g, []byte{tREFP, tALIAS, tCOPY}[sym.Choose(3)], off)
	agree(exact(mkdoc(2, 0, body)), new(wMix))
}

// C25_Strings: strings of every tag and length class.
func C25_Strings() {
	s := longBytes([]int{0, 1, 2, 3, 31, 32, 127, 128, 129}[sym.Choose(9)])
	var body []byte
	switch sym.Choose(3) {
	case 0:
		body = append(putVarint([]byte{tBINARY}, uint64(len(s))), s...)
	case 1:
		body = append(putVarint([]byte{tSTRUTF8}, uint64(len(s))), s...)
	case 2:
		sym.Assume(len(s) < 32)
		body = append([]byte{byte(tSHORT + len(s))}, s...)
	}
	var out interface{}
	switch sym.Choose(9) {
	case 0:
		out = new(string)
	case 1:
		out = new([]byte)
	case 2:
		out = new(nStr)
	case 3:
		out = new(nByt)
	case 4:
		out = new([3]byte)
	case 5:
		out = new([128]byte)
	case 6:
		body = append([]byte{0x41}, body...)
		out = new([]string)
	case 7:
		body = append([]byte{0x41}, body...)
		out = new([1][]byte)
	case 8:
		body = append([]byte{0x51, 0x61, 'k'}, body...)
		out = new(map[string]string)
	}
	agree(exact(mkdoc(3, 0, body)), out)
}

// C25_Lengths: strings, containers and offsets of every length class.
func C25_Lengths() {
	var body []byte
	var outs []interface{}
	switch sym.Choose(3) {
	case 0:
		n := []int{0, 1, 31, 32, 127, 128}[sym.Choose(6)]
		body = bodyString(3, sym.Choose(bodyStrings), filled(n), sym.Choose(3), 0)
		outs = []interface{}{new([]interface{}), new([]string), new(map[string]interface{}), new([][]byte), new(map[string]int8), new([]map[string]int8)}
	case 1:
		n := []int{0, 1, 15, 16, 17, 127, 128}[sym.Choose(7)]
		body = bodyCount(n, sym.Choose(6), 0)
		outs = []interface{}{new([]int), new(map[string]uint16), new([]interface{}), new(map[string]interface{}), new([16]int64), new(tInner)}
	case 2:
		body = far(3, []int{1, 59, 119, 300}[sym.Choose(4)], sym.Choose(8))
		outs = []interface{}{new([]interface{}), new([4]interface{}), new([]string)}
	}
	agree(exact(mkdoc(3, 0, body)), outs[sym.Choose(len(outs))])
}

// C25_Excess: arrays longer than what they are decoded into, and what follows.
func C25_Excess() {
	item := func() []byte {
		it := []string{"\x05", "\x85", "\x1f", "\xa0\x90\x01", "\xe1?", "\x62??", "\x51\x61?\x06", "\xd1\x61?\x06", "\x42\x01\xc1\x02", "\x2c\x61?\xd0", "\x31\x61?\x60", "\xa8\x07", "\x3f\x05", "\x25", "\x32\x61?\x28\x2b\x01\x61?", "\x22\x00\x00\x80\x3f"}
		return shape(it[sym.Choose(len(it))])
	}
	n := 2 + sym.Choose(2)
	arr := append([]byte{tARRAYREF + byte(n)}, 0x03)
	for i := 1; i < n; i++ {
		arr = append(arr, item()...)
	}
	var body []byte
	var out interface{}
	switch sym.Choose(5) {
	case 0:
		body = append(append([]byte{0x42}, arr...), 0x41, 0x09)
		out = new([][1]int8)
	case 1:
		body = append(append([]byte{0x52, 0x61, 'A'}, arr...), 0x61, 'B', 0x09)
		out = new(struct {
			A [1]int8
			B int8
		})
	case 2:
		body = append(append([]byte{0x52, 0x61, 'k'}, arr...), 0x61, 'l', 0x41, 0x09)
		out = new(map[string][1]interface{})
	case 3:
		body = append(append([]byte{0x42}, arr...), 0x41, 0x09)
		out = new([2][1]int)
	case 4:
		// the struct has no field A, or an unexported one
		body = append(append([]byte{0x52, 0x61, []byte("Aa")[sym.Choose(2)]}, arr...), 0x61, 'B', 0x09)
		out = new(struct {
			B int8
			x [1]int8
		})
	}
	agree(exact(mkdoc(3, 0, body)), out)
}

// C25_Inner: arrays and structs that hold references to themselves.
func C25_Inner() {
	body := [][]byte{
		[]byte("\x28\xab\x01\x29\x02"), []byte("\x28\xab\x02\x05\x29\x02"), []byte("\x41\x28\xab\x01\x29\x03"), []byte("\x28\xab\x01\x28\xab\x01\x29\x02"),
		[]byte("\x28\xaa\x01\x61C\x29\x02"), []byte("\x28\xaa\x02\x61D\x07\x61C\x29\x02"), []byte("\x28\xaa\x01\x61C\x41\x29\x02"), []byte("\x51\x61C\x28\xab\x01\x29\x05"),
		[]byte("\x28\xaa\x01\x61k\x29\x02"),
	}[sym.Choose(9)]
	outs := []interface{}{new([1]interface{}), new([2]interface{}), new([1][1]interface{}), new([]interface{}), new([][2]interface{}), new(wMix), new(map[string]interface{}), new(map[string][1]interface{}), new(struct{ C, D interface{} })}
	agree(exact(mkdoc(3, 0, body)), outs[sym.Choose(len(outs))])
}

// C25_Keys: hash keys into maps of every kind of key.
func C25_Keys() {
	n := sym.Choose(4)
	body := []byte{0x51, byte(tSHORT + n)}
	body = append(body, oneOf(n, "0129-+a ")...)
	body = append(body, 7)
	outs := []interface{}{new(map[nStr]int8), new(map[int]uint8), new(map[int8]int), new(map[uint8]interface{}), new(map[interface{}]int), new(map[nInt]int), new(map[uint64]int), new(map[bool]int), new(map[[1]byte]int)}
	agree(exact(mkdoc(3, 0, body)), outs[sym.Choose(len(outs))])
}
