package main

// Model of package reflect on symbolic values.

import (
	"fmt"
	"go/types"
	"reflect"
)

func (m *Machine) kindTerm(k reflect.Kind) *Term { return m.tb.Const(uint64(k), 64) }

func (r RV) kind() reflect.Kind {
	if r.ti == nil {
		return reflect.Invalid
	}
	return r.ti.kind
}

func (m *Machine) rvGet(r RV) Value {
	if r.addr {
		return m.load(r.p, r.ti)
	}
	return r.v
}

func (m *Machine) valueError(method string, k reflect.Kind) {
	o := m.newObj(m.p.tValueErr.Elem(), 1)
	o.cells[0] = m.goStr(method)
	o.cells[1] = m.kindTerm(k)
	m.goPanic(Iface{m.p.tValueErr, Ptr{o, 0}})
}

func (m *Machine) mustBe(r RV, method string, ks ...reflect.Kind) {
	for _, k := range ks {
		if r.kind() == k {
			return
		}
	}
	m.valueError(method, r.kind())
}

func (m *Machine) mustBeExported(r RV, method string) {
	if r.ti == nil {
		m.valueError(method, reflect.Invalid)
	}
	if r.ro {
		m.strPanic("reflect: " + method + " using value obtained using unexported field")
	}
}

func (m *Machine) mustBeAssignable(r RV, method string) {
	m.mustBeExported(r, method)
	if !r.addr {
		m.strPanic("reflect: " + method + " using unaddressable value")
	}
}

func (m *Machine) rvIface(r RV) Iface {
	if r.ti.iface {
		return m.rvGet(r).(Iface)
	}
	return Iface{r.ti, m.rvGet(r)}
}

func (m *Machine) rvOf(i Iface) RV {
	if i.ti == nil {
		return RV{}
	}
	return RV{ti: i.ti, v: i.v}
}

// assignTo converts r for storage in a variable of type t.
func (m *Machine) assignTo(r RV, ctx string, t *TI) Value {
	switch {
	case r.ti == t:
		return m.rvGet(r)
	case t.iface:
		if r.ti.iface {
			i := m.rvGet(r).(Iface)
			if i.ti == nil {
				return i
			}
			if m.implementsOrAny(i.ti, t) && types.Implements(r.ti.t, t.u.(*types.Interface)) {
				return i
			}
		} else if m.implementsOrAny(r.ti, t) {
			return Iface{r.ti, m.rvGet(r)}
		}
	case directlyAssignable(t, r.ti):
		return m.rvGet(r)
	}
	m.strPanic(ctx + ": value of type " + r.ti.String() + " is not assignable to type " + t.String())
	return nil
}

func (m *Machine) implementsOrAny(dyn, it *TI) bool {
	if it.u.(*types.Interface).NumMethods() == 0 {
		return true
	}
	return m.implements(dyn, it)
}

func directlyAssignable(t, v *TI) bool {
	if t == v {
		return true
	}
	_, tn := t.t.(*types.Named)
	_, vn := v.t.(*types.Named)
	if tn && vn || t.kind != v.kind {
		return false
	}
	if _, ok := t.t.(*types.Basic); ok {
		return false
	}
	if _, ok := v.t.(*types.Basic); ok {
		return false
	}
	return types.Identical(t.u, v.u)
}

func (m *Machine) rtypeIface(ti *TI) Iface {
	if ti == nil {
		return Iface{}
	}
	return Iface{m.p.rtype, RType{ti}}
}

func (m *Machine) typeArg(v Value) *TI {
	i := v.(Iface)
	if i.ti == nil {
		return nil
	}
	return i.v.(RType).ti
}

func (m *Machine) num(n int) *Term { return m.tb.Const(uint64(n), 64) }

func (m *Machine) mapAddr(mo *MapObj) uint64 {
	if mo == nil {
		return 0
	}
	if mo.addr == 0 {
		m.addrNext = (m.addrNext + 63) &^ 15
		mo.addr = m.addrNext
		m.addrNext += 48
	}
	return mo.addr
}

func (m *Machine) rvField(r RV, i int) RV {
	f := &r.ti.fields[i]
	out := RV{ti: f.ti, ro: r.ro || f.pkgPath != ""}
	if r.addr {
		out.addr = true
		out.p = Ptr{r.p.o, r.p.off + f.off}
	} else {
		out.v = subAgg(r.v.(Agg), f.ti, f.off)
	}
	return out
}

// rIndex checks a reflect index (string panic when out of range).
func (m *Machine) rIndex(t *Term, n int, msg string) int {
	if t.IsConst() {
		if t.v >= uint64(n) {
			m.strPanic(msg)
		}
		return int(t.v)
	}
	if !m.branch(m.tb.Cmp(OpUlt, t, m.num(n))) {
		m.strPanic(msg)
	}
	return int(m.concretise(t, "reflect index"))
}

func (m *Machine) rvLen(r RV) int {
	switch r.kind() {
	case reflect.Slice:
		return m.rvGet(r).(Slice).n
	case reflect.String:
		return m.rvGet(r).(Str).n
	case reflect.Array:
		return r.ti.n
	case reflect.Map:
		mo := m.rvGet(r).(*MapObj)
		if mo == nil {
			return 0
		}
		if m.track != nil {
			m.track.accessMap(m, mo, false)
		}
		return len(mo.keys)
	case reflect.Ptr:
		if r.ti.Elem().kind == reflect.Array {
			return r.ti.Elem().n
		}
		m.strPanic("reflect: call of reflect.Value.Len on ptr to non-array Value")
	}
	m.valueError("reflect.Value.Len", r.kind())
	return 0
}

func (m *Machine) structField(f *FI, i int) Value {
	ti := m.p.tStructField
	a := append(Agg(nil), m.zeroCells(ti)...)
	for _, sf := range ti.fields {
		switch sf.name {
		case "Name":
			a[sf.off] = m.goStr(f.name)
		case "PkgPath":
			a[sf.off] = m.goStr(f.pkgPath)
		case "Type":
			a[sf.off] = m.rtypeIface(f.ti)
		case "Tag":
			a[sf.off] = m.goStr(f.tag)
		case "Offset":
			a[sf.off] = m.tb.Const(uint64(f.boff), 64)
		case "Index":
			o := m.newObj(m.p.tInt, 1)
			o.cells[0] = m.num(i)
			a[sf.off] = Slice{o, 0, 1, 1}
		case "Anonymous":
			a[sf.off] = m.tb.Bool(f.emb)
		}
	}
	return a
}

// rtypeMethod is a method call on a reflect.Type.
func (m *Machine) rtypeMethod(ti *TI, name string, args []Value, fr *frame) Value {
	switch name {
	case "Kind":
		return m.kindTerm(ti.kind)
	case "Elem":
		switch ti.kind {
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map, reflect.Chan:
			return m.rtypeIface(ti.Elem())
		}
		m.strPanic("reflect: Elem of invalid type " + ti.String())
	case "Key":
		if ti.kind != reflect.Map {
			m.strPanic("reflect: Key of non-map type " + ti.String())
		}
		return m.rtypeIface(ti.Key())
	case "Len":
		if ti.kind != reflect.Array {
			m.strPanic("reflect: Len of non-array type " + ti.String())
		}
		return m.num(ti.n)
	case "Name":
		return m.goStr(ti.Name())
	case "PkgPath":
		return m.goStr(ti.PkgPath())
	case "String":
		return m.goStr(ti.String())
	case "Size":
		return m.tb.Const(uint64(ti.size), 64)
	case "Bits":
		return m.tb.Const(uint64(ti.size*8), 64)
	case "NumField":
		if ti.kind != reflect.Struct {
			m.strPanic("reflect: NumField of non-struct type " + ti.String())
		}
		return m.num(len(ti.fields))
	case "Field":
		if ti.kind != reflect.Struct {
			m.strPanic("reflect: Field of non-struct type " + ti.String())
		}
		i := m.rIndex(args[0].(*Term), len(ti.fields), "reflect: Field index out of bounds")
		return m.structField(&ti.fields[i], i)
	case "FieldByName":
		s, ok := args[0].(Str).concrete()
		if !ok {
			unsupported("FieldByName with symbolic name")
		}
		for i := range ti.fields {
			if ti.fields[i].name == s {
				return Tuple{m.structField(&ti.fields[i], i), m.tb.True}
			}
		}
		return Tuple{m.zero(m.p.tStructField), m.tb.False}
	case "Implements":
		u := m.typeArg(args[0])
		if u == nil {
			m.strPanic("reflect: nil type passed to Type.Implements")
		}
		if !u.iface {
			m.strPanic("reflect: non-interface type passed to Type.Implements")
		}
		return m.tb.Bool(types.Implements(ti.t, u.u.(*types.Interface)))
	case "AssignableTo":
		u := m.typeArg(args[0])
		if u.iface {
			return m.tb.Bool(types.Implements(ti.t, u.u.(*types.Interface)))
		}
		return m.tb.Bool(directlyAssignable(u, ti))
	case "ConvertibleTo":
		return m.tb.Bool(types.ConvertibleTo(ti.t, m.typeArg(args[0]).t))
	case "Comparable":
		return m.tb.Bool(types.Comparable(ti.t))
	case "NumMethod":
		ms := m.p.prog.MethodSets.MethodSet(ti.t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return m.num(n)
	}
	unsupported("reflect.Type.%s", name)
	return nil
}

func (m *Machine) setScalar(r RV, t *Term) { m.store(r.p, r.ti, t) }

func isInt(k reflect.Kind) bool  { return k >= reflect.Int && k <= reflect.Int64 }
func isUint(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }

func init() {
	type in = intrinsic
	reg := func(name string, f in) { intrinsics[name] = f }
	// v registers a method of reflect.Value
	v := func(name string, f func(m *Machine, fr *frame, r RV, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = func(m *Machine, fr *frame, args []Value) Value {
			r, ok := args[0].(RV)
			if !ok {
				unsupported("reflect.Value method on %T", args[0])
			}
			return f(m, fr, r, args[1:])
		}
	}

	reg("reflect.ValueOf", func(m *Machine, fr *frame, a []Value) Value { return m.rvOf(a[0].(Iface)) })
	reg("reflect.TypeOf", func(m *Machine, fr *frame, a []Value) Value { return m.rtypeIface(a[0].(Iface).ti) })
	reg("reflect.New", func(m *Machine, fr *frame, a []Value) Value {
		t := m.typeArg(a[0])
		if t == nil {
			m.strPanic("reflect: New(nil)")
		}
		return RV{ti: tiOf(types.NewPointer(t.t)), v: Ptr{m.newObj(t, 1), 0}}
	})
	reg("reflect.Zero", func(m *Machine, fr *frame, a []Value) Value {
		t := m.typeArg(a[0])
		if t == nil {
			m.strPanic("reflect: Zero(nil)")
		}
		return RV{ti: t, v: m.zero(t)}
	})
	reg("reflect.Indirect", func(m *Machine, fr *frame, a []Value) Value {
		r := a[0].(RV)
		if r.kind() != reflect.Ptr {
			return r
		}
		return m.rvElem(r)
	})
	reg("reflect.MakeSlice", func(m *Machine, fr *frame, a []Value) Value {
		t := m.typeArg(a[0])
		if t.kind != reflect.Slice {
			m.strPanic("reflect.MakeSlice of non-slice type")
		}
		ln, cp := a[1].(*Term), a[2].(*Term)
		zero := m.num(0)
		if m.branch(m.tb.Cmp(OpSlt, ln, zero)) {
			m.strPanic("reflect.MakeSlice: negative len")
		}
		if m.branch(m.tb.Cmp(OpSlt, cp, ln)) {
			m.strPanic("reflect.MakeSlice: len > cap")
		}
		return RV{ti: t, v: m.makeSlice(t.Elem(), ln, cp, true)}
	})
	mkmap := func(m *Machine, fr *frame, a []Value) Value {
		t := m.typeArg(a[0])
		if t.kind != reflect.Map {
			m.strPanic("reflect.MakeMapWithSize of non-map type")
		}
		if len(a) > 1 && m.allocLim > 0 {
			m.checkHint(t, a[1].(*Term))
		}
		return RV{ti: t, v: m.newMap(t)}
	}
	reg("reflect.MakeMap", mkmap)
	reg("reflect.MakeMapWithSize", mkmap)
	ptrTo := func(m *Machine, fr *frame, a []Value) Value {
		return m.rtypeIface(tiOf(types.NewPointer(m.typeArg(a[0]).t)))
	}
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.SliceOf", func(m *Machine, fr *frame, a []Value) Value {
		return m.rtypeIface(tiOf(types.NewSlice(m.typeArg(a[0]).t)))
	})
	reg("reflect.MapOf", func(m *Machine, fr *frame, a []Value) Value {
		return m.rtypeIface(tiOf(types.NewMap(m.typeArg(a[0]).t, m.typeArg(a[1]).t)))
	})
	reg("reflect.Copy", func(m *Machine, fr *frame, a []Value) Value {
		d, s := a[0].(RV), a[1].(RV)
		if d.kind() != reflect.Array && d.kind() != reflect.Slice {
			m.valueError("reflect.Copy", d.kind())
		}
		if d.kind() == reflect.Array {
			m.mustBeAssignable(d, "reflect.Copy")
		}
		m.mustBeExported(d, "reflect.Copy")
		strSrc := false
		if s.kind() != reflect.Array && s.kind() != reflect.Slice {
			strSrc = s.kind() == reflect.String && d.ti.Elem().kind == reflect.Uint8
			if !strSrc {
				m.valueError("reflect.Copy", s.kind())
			}
		}
		m.mustBeExported(s, "reflect.Copy")
		if !strSrc && d.ti.Elem() != s.ti.Elem() {
			m.strPanic("reflect.Copy: " + d.ti.Elem().String() + " != " + s.ti.Elem().String())
		}
		var ds Slice
		if d.kind() == reflect.Array {
			ds = Slice{d.p.o, d.p.off, d.ti.n, d.ti.n}
		} else {
			ds = m.rvGet(d).(Slice)
		}
		var src Value
		if s.kind() == reflect.Array {
			if !s.addr {
				o := m.newObj(s.ti, 1)
				copy(o.cells, s.v.(Agg))
				src = Slice{o, 0, s.ti.n, s.ti.n}
			} else {
				src = Slice{s.p.o, s.p.off, s.ti.n, s.ti.n}
			}
		} else {
			src = m.rvGet(s)
		}
		return m.num(m.copySlice(ds, d.ti.Elem(), src))
	})
	reg("reflect.Append", func(m *Machine, fr *frame, a []Value) Value {
		s := a[0].(RV)
		m.mustBe(s, "reflect.Append", reflect.Slice)
		cur := m.rvGet(s).(Slice)
		xs := a[1].(Slice)
		e := s.ti.Elem()
		for i := 0; i < xs.n; i++ {
			x := m.assignTo(xs.o.cells[xs.off+i].(RV), "reflect.Set", e)
			cur = m.appendCells(cur, e, cellsOf(x), 1)
		}
		return RV{ti: s.ti, v: cur}
	})
	reg("reflect.DeepEqual", func(m *Machine, fr *frame, a []Value) Value {
		return m.deepEqual(a[0].(Iface), a[1].(Iface), 0)
	})
	reg("(reflect.Kind).String", func(m *Machine, fr *frame, a []Value) Value {
		return m.goStr(reflect.Kind(m.concretise(a[0].(*Term), "kind")).String())
	})
	reg("(*reflect.ValueError).Error", func(m *Machine, fr *frame, a []Value) Value {
		o := a[0].(Ptr).o
		k := reflect.Kind(o.cells[1].(*Term).v)
		return m.goStr((&reflect.ValueError{Method: o.cells[0].(Str).show(), Kind: k}).Error())
	})

	v("Kind", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.kindTerm(r.kind()) })
	v("IsValid", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.tb.Bool(r.ti != nil) })
	v("Type", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if r.ti == nil {
			m.valueError("reflect.Value.Type", reflect.Invalid)
		}
		return m.rtypeIface(r.ti)
	})
	v("Interface", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if r.ti == nil {
			m.valueError("reflect.Value.Interface", reflect.Invalid)
		}
		if r.ro {
			m.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.rvIface(r)
	})
	v("CanInterface", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if r.ti == nil {
			m.valueError("reflect.Value.CanInterface", reflect.Invalid)
		}
		return m.tb.Bool(!r.ro)
	})
	v("CanAddr", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.tb.Bool(r.addr) })
	v("CanSet", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.tb.Bool(r.addr && !r.ro) })
	v("CanInt", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.tb.Bool(isInt(r.kind())) })
	v("CanUint", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.tb.Bool(isUint(r.kind())) })
	v("CanFloat", func(m *Machine, fr *frame, r RV, a []Value) Value {
		return m.tb.Bool(r.kind() == reflect.Float32 || r.kind() == reflect.Float64)
	})
	v("Elem", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.rvElem(r) })
	v("Addr", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if !r.addr {
			m.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return RV{ti: tiOf(types.NewPointer(r.ti.t)), v: r.p, ro: r.ro}
	})
	v("UnsafeAddr", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if r.ti == nil {
			m.valueError("reflect.Value.UnsafeAddr", reflect.Invalid)
		}
		if !r.addr {
			m.strPanic("reflect.Value.UnsafeAddr of unaddressable value")
		}
		return m.tb.Const(m.ptrAddr(r.p), 64)
	})
	v("IsNil", func(m *Machine, fr *frame, r RV, a []Value) Value {
		switch r.kind() {
		case reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.UnsafePointer, reflect.Interface, reflect.Slice:
			return m.tb.Bool(isNilValue(m.rvGet(r)))
		}
		m.valueError("reflect.Value.IsNil", r.kind())
		return nil
	})
	v("IsZero", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if r.ti == nil {
			m.valueError("reflect.Value.IsZero", reflect.Invalid)
		}
		return m.isZero(r.ti, m.rvGet(r))
	})
	v("Len", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.num(m.rvLen(r)) })
	v("Cap", func(m *Machine, fr *frame, r RV, a []Value) Value {
		switch r.kind() {
		case reflect.Slice:
			return m.num(m.rvGet(r).(Slice).c)
		case reflect.Array:
			return m.num(r.ti.n)
		}
		m.valueError("reflect.Value.Cap", r.kind())
		return nil
	})
	v("Index", func(m *Machine, fr *frame, r RV, a []Value) Value {
		t := a[0].(*Term)
		switch r.kind() {
		case reflect.Slice:
			s := m.rvGet(r).(Slice)
			i := m.rIndex(t, s.n, "reflect: slice index out of range")
			e := r.ti.Elem()
			return RV{ti: e, p: Ptr{s.o, s.off + i*e.slots}, addr: true, ro: r.ro}
		case reflect.Array:
			i := m.rIndex(t, r.ti.n, "reflect: array index out of range")
			e := r.ti.Elem()
			if r.addr {
				return RV{ti: e, p: Ptr{r.p.o, r.p.off + i*e.slots}, addr: true, ro: r.ro}
			}
			return RV{ti: e, v: subAgg(r.v.(Agg), e, i*e.slots), ro: r.ro}
		case reflect.String:
			s := m.rvGet(r).(Str)
			i := m.rIndex(t, s.n, "reflect: string index out of range")
			return RV{ti: m.p.tByte, v: s.o.cells[s.off+i], ro: r.ro}
		}
		m.valueError("reflect.Value.Index", r.kind())
		return nil
	})
	v("NumField", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBe(r, "reflect.Value.NumField", reflect.Struct)
		return m.num(len(r.ti.fields))
	})
	v("Field", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBe(r, "reflect.Value.Field", reflect.Struct)
		i := m.rIndex(a[0].(*Term), len(r.ti.fields), "reflect: Field index out of range")
		return m.rvField(r, i)
	})
	v("FieldByName", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBe(r, "reflect.Value.FieldByName", reflect.Struct)
		s, ok := a[0].(Str).concrete()
		if !ok {
			unsupported("FieldByName with symbolic name")
		}
		for i := range r.ti.fields {
			if r.ti.fields[i].name == s {
				return m.rvField(r, i)
			}
		}
		return RV{}
	})
	v("MapIndex", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBe(r, "reflect.Value.MapIndex", reflect.Map)
		k := a[0].(RV)
		if k.ti == nil {
			m.valueError("reflect.Value.MapIndex", reflect.Invalid)
		}
		kv := m.assignTo(k, "reflect.Value.MapIndex", r.ti.Key())
		mo := m.rvGet(r).(*MapObj)
		if mo == nil {
			m.checkHashable(r.ti.Key(), kv)
			return RV{}
		}
		i := m.mapFind(mo, kv)
		if i < 0 {
			return RV{}
		}
		return RV{ti: r.ti.Elem(), v: mo.vals[i], ro: r.ro || k.ro}
	})
	v("MapKeys", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBe(r, "reflect.Value.MapKeys", reflect.Map)
		mo := m.rvGet(r).(*MapObj)
		n := 0
		if mo != nil {
			n = len(mo.keys)
			if m.track != nil {
				m.track.accessMap(m, mo, false)
			}
		}
		o := m.newObj(m.p.tRV, n)
		for i, j := range m.order(n) {
			o.cells[i] = RV{ti: r.ti.Key(), v: mo.keys[j], ro: r.ro}
		}
		return Slice{o, 0, n, n}
	})
	v("MapRange", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBe(r, "reflect.Value.MapRange", reflect.Map)
		o := m.newObj(m.p.tAny, 1)
		it := m.mapIter(m.rvGet(r).(*MapObj))
		it.cur = -1
		o.cells[0] = it
		o.name = "MapIter"
		o.cells = append(o.cells, r)
		return Ptr{o, 0}
	})
	reg("(*reflect.MapIter).Next", func(m *Machine, fr *frame, a []Value) Value {
		it := a[0].(Ptr).o.cells[0].(*MapIter)
		it.cur = it.step(m)
		return m.tb.Bool(it.cur >= 0)
	})
	reg("(*reflect.MapIter).Key", func(m *Machine, fr *frame, a []Value) Value {
		o := a[0].(Ptr).o
		it, r := o.cells[0].(*MapIter), o.cells[1].(RV)
		return RV{ti: r.ti.Key(), v: it.m.keys[it.cur], ro: r.ro}
	})
	reg("(*reflect.MapIter).Value", func(m *Machine, fr *frame, a []Value) Value {
		o := a[0].(Ptr).o
		it, r := o.cells[0].(*MapIter), o.cells[1].(RV)
		return RV{ti: r.ti.Elem(), v: it.m.vals[it.cur], ro: r.ro}
	})
	v("SetMapIndex", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBe(r, "reflect.Value.SetMapIndex", reflect.Map)
		m.mustBeExported(r, "reflect.Value.SetMapIndex")
		k, e := a[0].(RV), a[1].(RV)
		m.mustBeExported(k, "reflect.Value.SetMapIndex")
		kv := m.assignTo(k, "reflect.Value.SetMapIndex", r.ti.Key())
		mo := m.rvGet(r).(*MapObj)
		if e.ti == nil {
			m.mapDelete(mo, kv)
			return nil
		}
		m.mustBeExported(e, "reflect.Value.SetMapIndex")
		ev := m.assignTo(e, "reflect.Value.SetMapIndex", r.ti.Elem())
		if mo == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		m.mapSet(mo, kv, ev)
		return nil
	})
	v("Pointer", func(m *Machine, fr *frame, r RV, a []Value) Value { return m.rvPointer(r, "reflect.Value.Pointer") })
	v("UnsafePointer", func(m *Machine, fr *frame, r RV, a []Value) Value {
		switch x := m.rvGet(r).(type) {
		case Ptr:
			return x
		case Slice:
			return Ptr{x.o, x.off}
		case Str:
			return Ptr{x.o, x.off}
		}
		unsupported("UnsafePointer of %s", r.kind())
		return nil
	})
	v("Bool", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBe(r, "reflect.Value.Bool", reflect.Bool)
		return m.rvGet(r)
	})
	v("Int", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if !isInt(r.kind()) {
			m.valueError("reflect.Value.Int", r.kind())
		}
		return m.tb.Sext(m.rvGet(r).(*Term), 64)
	})
	v("Uint", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if !isUint(r.kind()) {
			m.valueError("reflect.Value.Uint", r.kind())
		}
		return m.tb.Zext(m.rvGet(r).(*Term), 64)
	})
	v("Float", func(m *Machine, fr *frame, r RV, a []Value) Value {
		switch r.kind() {
		case reflect.Float32, reflect.Float64:
			return m.tb.FP(OpF2F, 64, m.rvGet(r).(*Term), nil)
		}
		m.valueError("reflect.Value.Float", r.kind())
		return nil
	})
	v("String", func(m *Machine, fr *frame, r RV, a []Value) Value {
		switch r.kind() {
		case reflect.String:
			return m.rvGet(r)
		case reflect.Invalid:
			return m.goStr("<invalid Value>")
		}
		return m.goStr("<" + r.ti.String() + " Value>")
	})
	v("Bytes", func(m *Machine, fr *frame, r RV, a []Value) Value {
		switch r.kind() {
		case reflect.Slice:
			if r.ti.Elem().kind != reflect.Uint8 {
				m.strPanic("reflect.Value.Bytes of non-byte slice")
			}
			return m.rvGet(r)
		case reflect.Array:
			if r.ti.Elem().kind != reflect.Uint8 {
				m.strPanic("reflect.Value.Bytes of non-byte array")
			}
			if !r.addr {
				m.strPanic("reflect.Value.Bytes of unaddressable byte array")
			}
			return Slice{r.p.o, r.p.off, r.ti.n, r.ti.n}
		}
		m.valueError("reflect.Value.Bytes", r.kind())
		return nil
	})
	v("Slice", func(m *Machine, fr *frame, r RV, a []Value) Value {
		i, j := a[0].(*Term), a[1].(*Term)
		var src Value
		var c int
		var out *TI
		switch r.kind() {
		case reflect.Array:
			if !r.addr {
				m.strPanic("reflect.Value.Slice: slice of unaddressable array")
			}
			src, c = Slice{r.p.o, r.p.off, r.ti.n, r.ti.n}, r.ti.n
			out = tiOf(types.NewSlice(r.ti.Elem().t))
		case reflect.Slice:
			s := m.rvGet(r).(Slice)
			src, c, out = s, s.c, r.ti
		case reflect.String:
			s := m.rvGet(r).(Str)
			src, c, out = s, s.n, r.ti
		default:
			m.valueError("reflect.Value.Slice", r.kind())
		}
		bad := m.tb.BOr(m.tb.Cmp(OpUlt, m.num(c), j), m.tb.Cmp(OpUlt, j, i))
		if m.branch(bad) {
			m.strPanic("reflect.Value.Slice: slice index out of bounds")
		}
		return RV{ti: out, v: m.slice(out, src, i, j, nil), ro: r.ro}
	})
	v("Set", func(m *Machine, fr *frame, r RV, a []Value) Value {
		x := a[0].(RV)
		m.mustBeAssignable(r, "reflect.Set")
		m.mustBeExported(x, "reflect.Set")
		m.store(r.p, r.ti, m.assignTo(x, "reflect.Set", r.ti))
		return nil
	})
	v("SetZero", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBeAssignable(r, "reflect.Value.SetZero")
		m.store(r.p, r.ti, m.zero(r.ti))
		return nil
	})
	v("SetBool", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBeAssignable(r, "reflect.Value.SetBool")
		m.mustBe(r, "reflect.Value.SetBool", reflect.Bool)
		m.setScalar(r, a[0].(*Term))
		return nil
	})
	v("SetInt", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBeAssignable(r, "reflect.Value.SetInt")
		if !isInt(r.kind()) {
			m.valueError("reflect.Value.SetInt", r.kind())
		}
		m.setScalar(r, m.tb.Resize(a[0].(*Term), r.ti.w, true))
		return nil
	})
	v("SetUint", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBeAssignable(r, "reflect.Value.SetUint")
		if !isUint(r.kind()) {
			m.valueError("reflect.Value.SetUint", r.kind())
		}
		m.setScalar(r, m.tb.Resize(a[0].(*Term), r.ti.w, false))
		return nil
	})
	v("SetFloat", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBeAssignable(r, "reflect.Value.SetFloat")
		if k := r.kind(); k != reflect.Float32 && k != reflect.Float64 {
			m.valueError("reflect.Value.SetFloat", r.kind())
		}
		m.setScalar(r, m.tb.FP(OpF2F, r.ti.w, a[0].(*Term), nil))
		return nil
	})
	v("SetString", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBeAssignable(r, "reflect.Value.SetString")
		m.mustBe(r, "reflect.Value.SetString", reflect.String)
		m.store(r.p, r.ti, a[0])
		return nil
	})
	v("SetBytes", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBeAssignable(r, "reflect.Value.SetBytes")
		m.mustBe(r, "reflect.Value.SetBytes", reflect.Slice)
		if r.ti.Elem().kind != reflect.Uint8 {
			m.strPanic("reflect.Value.SetBytes of non-byte slice")
		}
		m.store(r.p, r.ti, a[0])
		return nil
	})
	v("SetLen", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBeAssignable(r, "reflect.Value.SetLen")
		m.mustBe(r, "reflect.Value.SetLen", reflect.Slice)
		s := m.rvGet(r).(Slice)
		if !m.branch(m.tb.Cmp(OpUle, a[0].(*Term), m.num(s.c))) {
			m.strPanic("reflect: slice length out of range in SetLen")
		}
		s.n = int(m.concretise(a[0].(*Term), "SetLen"))
		m.store(r.p, r.ti, s)
		return nil
	})
	v("OverflowInt", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if !isInt(r.kind()) {
			m.valueError("reflect.Value.OverflowInt", r.kind())
		}
		x := a[0].(*Term)
		return m.tb.BNot(m.tb.Eq(m.tb.Sext(m.tb.Resize(x, r.ti.w, true), 64), x))
	})
	v("OverflowUint", func(m *Machine, fr *frame, r RV, a []Value) Value {
		if !isUint(r.kind()) {
			m.valueError("reflect.Value.OverflowUint", r.kind())
		}
		x := a[0].(*Term)
		return m.tb.BNot(m.tb.Eq(m.tb.Zext(m.tb.Resize(x, r.ti.w, false), 64), x))
	})
	v("Convert", func(m *Machine, fr *frame, r RV, a []Value) Value {
		t := m.typeArg(a[0])
		if t.iface {
			if !m.implementsOrAny(r.ti, t) {
				m.strPanic("reflect.Value.Convert: value of type " + r.ti.String() + " cannot be converted to type " + t.String())
			}
			return RV{ti: t, v: m.rvIface(r), ro: r.ro}
		}
		if !types.ConvertibleTo(r.ti.t, t.t) {
			m.strPanic("reflect.Value.Convert: value of type " + r.ti.String() + " cannot be converted to type " + t.String())
		}
		return RV{ti: t, v: m.convert(r.ti, t, m.rvGet(r)), ro: r.ro}
	})
	v("CanConvert", func(m *Machine, fr *frame, r RV, a []Value) Value {
		return m.tb.Bool(types.ConvertibleTo(r.ti.t, m.typeArg(a[0]).t))
	})
	v("Comparable", func(m *Machine, fr *frame, r RV, a []Value) Value {
		return m.tb.Bool(r.ti == nil || types.Comparable(r.ti.t))
	})
	v("NumMethod", func(m *Machine, fr *frame, r RV, a []Value) Value {
		return m.rtypeMethod(r.ti, "NumMethod", nil, fr)
	})
	v("Grow", func(m *Machine, fr *frame, r RV, a []Value) Value {
		m.mustBeAssignable(r, "reflect.Value.Grow")
		s := m.rvGet(r).(Slice)
		n := int(m.concretise(a[0].(*Term), "Grow"))
		if s.n+n > s.c {
			e := r.ti.Elem()
			o := m.newObj(e, growCap(s.c, s.n+n, e.size))
			if s.o != nil {
				copy(o.cells, s.o.cells[s.off:s.off+s.n*e.slots])
			}
			m.store(r.p, r.ti, Slice{o, 0, s.n, o.n})
		}
		return nil
	})
}

func cellsOf(v Value) []Value {
	if a, ok := v.(Agg); ok {
		return a
	}
	return []Value{v}
}

func isNilValue(v Value) bool {
	switch x := v.(type) {
	case Ptr:
		return x.o == nil
	case Slice:
		return x.o == nil
	case Iface:
		return x.ti == nil
	case *MapObj:
		return x == nil
	case *Closure:
		return x == nil
	case *Chan:
		return x == nil
	}
	return false
}

func (m *Machine) rvElem(r RV) RV {
	switch r.kind() {
	case reflect.Interface:
		i := m.rvGet(r).(Iface)
		x := m.rvOf(i)
		x.ro = r.ro
		if x.ti == nil {
			return RV{}
		}
		return x
	case reflect.Ptr:
		p, ok := m.rvGet(r).(Ptr)
		if !ok {
			unsupported("Elem of %T", m.rvGet(r))
		}
		if p.o == nil {
			return RV{}
		}
		return RV{ti: r.ti.Elem(), p: p, addr: true, ro: r.ro}
	}
	m.valueError("reflect.Value.Elem", r.kind())
	return RV{}
}

func (m *Machine) rvPointer(r RV, name string) Value {
	switch r.kind() {
	case reflect.Ptr, reflect.UnsafePointer, reflect.Map, reflect.Slice, reflect.String, reflect.Func, reflect.Chan:
	default:
		m.valueError(name, r.kind())
	}
	switch x := m.rvGet(r).(type) {
	case Ptr:
		return m.tb.Const(m.ptrAddr(x), 64)
	case Slice:
		return m.tb.Const(m.ptrAddr(Ptr{x.o, x.off}), 64)
	case Str:
		return m.tb.Const(m.ptrAddr(Ptr{x.o, x.off}), 64)
	case *MapObj:
		return m.tb.Const(m.mapAddr(x), 64)
	}
	unsupported("Pointer of %s", r.kind())
	return nil
}

func (m *Machine) isZero(ti *TI, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		if ti.float {
			return m.tb.Eq(x, m.tb.Const(0, x.w))
		}
		return m.tb.Eq(x, m.tb.Const(0, x.w))
	case Str:
		return m.tb.Bool(x.n == 0)
	case Agg:
		r := m.tb.True
		if ti.kind == reflect.Array {
			e := ti.Elem()
			for i := 0; i < ti.n; i++ {
				r = m.tb.BAnd(r, m.isZero(e, subAgg(x, e, i*e.slots)))
			}
			return r
		}
		for _, f := range ti.fields {
			r = m.tb.BAnd(r, m.isZero(f.ti, subAgg(x, f.ti, f.off)))
		}
		return r
	case RV:
		return m.tb.Bool(x.ti == nil)
	}
	return m.tb.Bool(isNilValue(v))
}

// deepEqual is reflect.DeepEqual without cycle detection.
func (m *Machine) deepEqual(a, b Iface, d int) *Term {
	if a.ti == nil || b.ti == nil {
		return m.tb.Bool(a.ti == b.ti)
	}
	if a.ti != b.ti {
		return m.tb.False
	}
	return m.deepEq(a.ti, a.v, b.v, d)
}

func (m *Machine) deepEq(ti *TI, x, y Value, d int) *Term {
	if d > 60 {
		unsupported("DeepEqual of a cyclic value")
	}
	tb := m.tb
	switch a := x.(type) {
	case Iface:
		return m.deepEqual(a, y.(Iface), d+1)
	case Ptr:
		b := y.(Ptr)
		if a == b {
			return tb.True
		}
		if a.o == nil || b.o == nil {
			return tb.False
		}
		e := ti.Elem()
		return m.deepEq(e, m.load(a, e), m.load(b, e), d+1)
	case Slice:
		b := y.(Slice)
		if (a.o == nil) != (b.o == nil) || a.n != b.n {
			return tb.False
		}
		e := ti.Elem()
		r := tb.True
		for i := 0; i < a.n; i++ {
			r = tb.BAnd(r, m.deepEq(e, m.load(Ptr{a.o, a.off + i*e.slots}, e), m.load(Ptr{b.o, b.off + i*e.slots}, e), d+1))
		}
		return r
	case *MapObj:
		b := y.(*MapObj)
		if a == b {
			return tb.True
		}
		if a == nil || b == nil || len(a.keys) != len(b.keys) {
			return tb.False
		}
		r := tb.True
		for i := range a.keys {
			j := m.mapFind(b, a.keys[i])
			if j < 0 {
				return tb.False
			}
			r = tb.BAnd(r, m.deepEq(ti.Elem(), a.vals[i], b.vals[j], d+1))
		}
		return r
	case Agg:
		b := y.(Agg)
		r := tb.True
		if ti.kind == reflect.Array {
			e := ti.Elem()
			for i := 0; i < ti.n; i++ {
				r = tb.BAnd(r, m.deepEq(e, subAgg(a, e, i*e.slots), subAgg(b, e, i*e.slots), d+1))
			}
			return r
		}
		for _, f := range ti.fields {
			r = tb.BAnd(r, m.deepEq(f.ti, subAgg(a, f.ti, f.off), subAgg(b, f.ti, f.off), d+1))
		}
		return r
	case *Closure:
		return tb.Bool(a == nil && y.(*Closure) == nil)
	}
	return m.eq(ti, ti, x, y)
}

var _ = fmt.Sprint
