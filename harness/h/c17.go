package zzverif

import (
	"github.com/Sereal/Sereal/Go/sereal"
	"github.com/Sereal/Sereal/Go/sereal/zzverif/sym"
)

type (
	rBox struct{ A interface{} }
	rPtr struct {
		V    int8
		L, R *rPtr
	}
	rMap struct{ M map[string]*rMap }
)

// nest wraps v in a container; cost is how many levels that is.
func nest(v interface{}, kind int) (w interface{}, cost int) {
	switch kind {
	case 0:
		return []interface{}{v}, 1
	case 1:
		return map[string]interface{}{"k": v}, 1
	case 2:
		return rBox{v}, 1
	case 3:
		return &v, 1
	case 4:
		return [1]interface{}{v}, 1
	case 5:
		return map[int8]interface{}{1: v}, 1
	case 6:
		return &rBox{v}, 2
	case 7:
		return []interface{}{1, v, []byte("x")}, 1
	case 8:
		return []map[string]interface{}{{"k": v}}, 2
	case 9:
		return sereal.PerlObject{Class: "c", Reference: v}, 0
	case 10:
		p := &v
		return &p, 2
	case 11:
		return &[]interface{}{v}, 2
	case 12:
		return &map[string]interface{}{"k": v}, 2
	case 13:
		return []*interface{}{&v}, 2
	case 14:
		return map[string][]interface{}{"k": {v}}, 2
	case 15:
		return &[1]interface{}{v}, 2
	case 16:
		return map[string]rBox{"k": {v}}, 2
	}
	return sereal.PerlWeakRef{Reference: v}, 0
}

// bottom is a value without anything inside; cost is how many levels it is.
func bottom(kind int) (v interface{}, cost int) {
	switch kind {
	case 0:
		return []interface{}{}, 1
	case 1:
		return map[string]interface{}{}, 1
	case 2:
		return []int{}, 1
	case 3:
		return map[string]int(nil), 1
	case 4:
		return struct{}{}, 1
	case 5:
		return (*int)(nil), 1
	case 6:
		return [0]string{}, 1
	case 7:
		return []byte{}, 0
	case 8:
		return nil, 0
	case 9:
		return []string(nil), 1
	case 10:
		return (*rBox)(nil), 1
	}
	return (**int)(nil), 1
}

// checkLimit encodes v, nested depth levels, with the limit l.
func checkLimit(e *sereal.Encoder, v interface{}, depth, l int) {
	want, err := e.Marshal(v)
	sym.Assert(err == nil, "Marshal fails without a limit")
	e.MaxRecursionDepth = l
	b, err := e.Marshal(v)
	if l > 0 && depth >= l {
		sym.Assert(err == sereal.ErrMaxRecursionLimit, "limit not enforced")
		sym.Assert(b == nil, "document and error")
		sym.Reach("limit")
		return
	}
	sym.Assert(err == nil, "limit enforced too early")
	sym.Assert(eqBytes(b, want), "limit changes the document")
	sym.Reach("end")
}

// C17_Chains: every nesting of containers up to a depth, every limit.
func C17_Chains() {
	sym.MapOrder(0)
	e := encoderV(sym.UpTo(1, 3))
	e.PerlCompat = sym.Bool()
	var v interface{} = sym.Str(1)
	depth := 0
	n := sym.UpTo(0, sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		var c int
		v, c = nest(v, sym.Choose(10))
		depth += c
	}
	checkLimit(e, v, depth, sym.UpTo(-1, depth+2))
}

// C17_Leaves: every container around every kind of empty one.
func C17_Leaves() {
	sym.MapOrder(0)
	e := encoderV(sym.Choose(2)*2 + 1)
	e.PerlCompat = sym.Bool()
	v, depth := bottom(sym.Choose(12))
	n := sym.UpTo(0, 2)
	for i := 0; i < n; i++ {
		var c int
		v, c = nest(v, sym.Choose(18))
		depth += c
	}
	checkLimit(e, v, depth, sym.UpTo(-1, depth+2))
}

// C17_Knots: containers of every kind that lead back, by way of a pointer, to
// the one they are in.
func C17_Knots() {
	oneOrder()
	e := encoderV(sym.Choose(2)*2 + 1)
	e.PerlCompat = sym.Bool()
	var v interface{}
	x, b, a, m := v, &rBox{}, &[]interface{}{nil}, &map[string]interface{}{}
	px := &x
	kind := sym.Choose(5)
	switch kind {
	case 0:
		v = px
	case 1:
		v = b
	case 2:
		v = a
	case 3:
		v = m
	case 4:
		v = &px
	}
	n := sym.UpTo(0, 2)
	for i := 0; i < n; i++ {
		v, _ = nest(v, sym.Choose(18))
	}
	// every way into the circle
	root := []interface{}{v, nil}
	switch kind {
	case 0, 4:
		x = v
		root[1] = px
	case 1:
		b.A = v
		root[1] = b
	case 2:
		(*a)[0] = v
		root[1] = *a
	case 3:
		(*m)["k"] = v
		root[1] = m
	}
	sym.DepthLimit(600)
	in := root[sym.Choose(2)]
	b1, err := e.Marshal(in)
	sym.Assert(err == nil, "Marshal fails")
	e.MaxRecursionDepth = 100
	b2, err := e.Marshal(in)
	sym.DepthLimit(0)
	sym.Assert(err == nil, "limit enforced too early")
	sym.Assert(len(b1) == len(b2), "limit changes the document")
	sym.Assert(len(b1) < 300, "document too long")
	sym.Reach("end")
}

// C17_Siblings: the deepest branch counts, wherever it is.
func C17_Siblings() {
	sym.MapOrder(0)
	e := encoderV(sym.UpTo(1, 3))
	k := [3]int{sym.Choose(3), sym.Choose(3), sym.Choose(3)}
	kind := sym.Choose(9)
	var a []interface{}
	deep := 0
	for _, n := range k {
		var v interface{} = 1
		d := 0
		for i := 0; i < n; i++ {
			var c int
			v, c = nest(v, kind)
			d += c
		}
		if d > deep {
			deep = d
		}
		a = append(a, v)
	}
	checkLimit(e, a, deep+1, sym.UpTo(0, deep+2))
}

// C17_Lists: linked lists and trees of pointers.
func C17_Lists() {
	sym.MapOrder(0)
	e := encoderV(sym.UpTo(1, 3))
	n := sym.UpTo(1, 4)
	var p *rPtr
	for i := 0; i < n; i++ {
		q := &rPtr{V: int8(sym.Byte() & 15)}
		if sym.Bool() {
			q.L = p
		} else {
			q.R = p
		}
		p = q
	}
	// each node is a pointer and a struct, and the last one holds nil pointers
	depth := 2*n + 1
	e.MaxRecursionDepth = sym.UpTo(0, depth+2)
	l := e.MaxRecursionDepth
	b, err := e.Marshal(p)
	if l > 0 && depth >= l {
		sym.Assert(err == sereal.ErrMaxRecursionLimit && b == nil, "limit not enforced")
		sym.Reach("limit")
		return
	}
	sym.Assert(err == nil, "limit enforced too early")
	var out rPtr
	sym.Assert(sereal.Unmarshal(b, &out) == nil, "Unmarshal fails")
	sym.Reach("end")
}

// C17_Header: the limit holds for the header too.
func C17_Header() {
	e := encoderV(sym.UpTo(2, 3))
	h, v := interface{}(1), interface{}(2)
	dh, dv := sym.Choose(4), sym.Choose(4)
	for i := 0; i < dh; i++ {
		h = []interface{}{h}
	}
	for i := 0; i < dv; i++ {
		v = []interface{}{v}
	}
	l := sym.UpTo(0, 5)
	e.MaxRecursionDepth = l
	_, err := e.MarshalWithHeader(h, v)
	fail := l > 0 && (dh >= l || dv >= l)
	sym.Assert(fail == (err == sereal.ErrMaxRecursionLimit), "limit not exact")
	sym.Assert(fail || err == nil, "Marshal fails")
	sym.Reach("end")
}

// C17_Cyclic: every graph of up to three nodes terminates, and the limit
// only decides between the document and the error.
func C17_Cyclic() {
	oneOrder()
	n := sym.UpTo(1, 3)
	nodes := make([]*rPtr, n)
	for i := range nodes {
		nodes[i] = &rPtr{V: int8(sym.Byte() & 15)}
	}
	pick := func() *rPtr {
		if k := sym.Choose(n + 1); k < n {
			return nodes[k]
		}
		return nil
	}
	for _, p := range nodes {
		p.L, p.R = pick(), pick()
	}
	e := encoderV(3)
	e.PerlCompat = sym.Bool()
	sym.DepthLimit(400)
	b, err := e.Marshal(nodes[0])
	sym.DepthLimit(0)
	sym.Assert(err == nil, "Marshal fails")
	sym.Assert(len(b) < 6+n*40, "document too long")
	sym.Reach("end")
}

// C17_Shapes: cycles through every kind of container with a pointer in it.
func C17_Shapes() {
	oneOrder()
	e := encoderV(sym.UpTo(1, 3))
	e.PerlCompat = sym.Bool()
	e.MaxRecursionDepth = []int{0, 40}[sym.Choose(2)]
	var v interface{}
	direct := false
	switch sym.Choose(14) {
	case 0:
		a := []interface{}{1, nil}
		a[1] = &a
		v = a
	case 1:
		a := []interface{}{nil}
		a[0] = &a
		v = &a
	case 2:
		m := map[string]interface{}{}
		m["k"] = &m
		v = m
	case 3:
		var p interface{}
		p = &p
		v = p
	case 4:
		m := rMap{map[string]*rMap{}}
		m.M["k"] = &m
		v = &m
	case 5:
		b := &rBox{}
		b.A = b
		v = *b
	case 6:
		b := &rBox{}
		b.A = []interface{}{b, map[string]interface{}{"k": b}}
		v = b
	case 7:
		// no pointer at all: only the limit ends this
		direct = true
		a := []interface{}{nil}
		a[0] = a
		v = a
	case 8:
		direct = true
		m := map[string]interface{}{}
		m["k"] = m
		v = m
	case 9:
		o := &sereal.PerlObject{Class: "c"}
		o.Reference = o
		v = o
	case 10:
		o := &sereal.PerlObject{Class: "c"}
		o.Reference = map[string]interface{}{"k": o}
		v = *o
	case 11:
		o := &sereal.PerlObject{Class: "c"}
		o.Reference = []interface{}{1, &sereal.PerlWeakRef{Reference: o}}
		v = []interface{}{o}
	case 12:
		w := &sereal.PerlWeakRef{}
		w.Reference = rBox{w}
		v = w
	case 13:
		o, w := &sereal.PerlObject{Class: "c"}, &sereal.PerlWeakRef{}
		w.Reference = &sereal.PerlObject{Class: "d", Reference: []interface{}{w, o}}
		o.Reference = []interface{}{w}
		v = o
	}
	sym.Assume(!direct || e.MaxRecursionDepth > 0)
	sym.DepthLimit(600)
	b, err := e.Marshal(v)
	sym.DepthLimit(0)
	if direct {
		sym.Assert(err == sereal.ErrMaxRecursionLimit && b == nil, "limit not enforced")
		sym.Reach("direct")
		return
	}
	sym.Assert(err == nil, "Marshal fails")
	sym.Reach("end")
}
