package main

// Operators, conversions, slices, maps, interfaces and builtins.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func (m *Machine) binop(op token.Token, ti, ti2 *TI, xv, yv Value) Value {
	tb := m.tb
	switch op {
	case token.EQL:
		return m.eq(ti, ti2, xv, yv)
	case token.NEQ:
		return tb.BNot(m.eq(ti, ti2, xv, yv))
	}
	x, ok := xv.(*Term)
	if !ok {
		xs, ok1 := xv.(Str)
		ys, ok2 := yv.(Str)
		if !ok1 || !ok2 {
			unsupported("binary %s on %T", op, xv)
		}
		switch op {
		case token.ADD:
			if xs.n == 0 {
				return ys
			}
			if ys.n == 0 {
				return xs
			}
			return m.newStr(append(append([]Value(nil), xs.cells()...), ys.cells()...))
		case token.LSS:
			return m.strLess(xs, ys, false)
		case token.LEQ:
			return m.strLess(xs, ys, true)
		case token.GTR:
			return m.strLess(ys, xs, false)
		case token.GEQ:
			return m.strLess(ys, xs, true)
		}
		unsupported("string %s", op)
	}
	y := yv.(*Term)
	if ti.float {
		switch op {
		case token.ADD:
			return tb.FP(OpFAdd, x.w, x, y)
		case token.SUB:
			return tb.FP(OpFSub, x.w, x, y)
		case token.MUL:
			return tb.FP(OpFMul, x.w, x, y)
		case token.QUO:
			return tb.FP(OpFDiv, x.w, x, y)
		case token.LSS:
			return tb.FP(OpFLt, 0, x, y)
		case token.LEQ:
			return tb.FP(OpFLe, 0, x, y)
		case token.GTR:
			return tb.FP(OpFLt, 0, y, x)
		case token.GEQ:
			return tb.FP(OpFLe, 0, y, x)
		}
		unsupported("float %s", op)
	}
	sg := ti.signed
	pick := func(s, u Op) Op {
		if sg {
			return s
		}
		return u
	}
	switch op {
	case token.ADD:
		return tb.Bin(OpAdd, x, y)
	case token.SUB:
		return tb.Bin(OpSub, x, y)
	case token.MUL:
		return tb.Bin(OpMul, x, y)
	case token.QUO, token.REM:
		if m.branch(tb.Eq(y, tb.Const(0, y.w))) {
			m.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			return tb.Bin(pick(OpSDiv, OpUDiv), x, y)
		}
		return tb.Bin(pick(OpSRem, OpURem), x, y)
	case token.AND:
		if x.w == 0 {
			return tb.BAnd(x, y)
		}
		return tb.Bin(OpAnd, x, y)
	case token.OR:
		if x.w == 0 {
			return tb.BOr(x, y)
		}
		return tb.Bin(OpOr, x, y)
	case token.XOR:
		return tb.Bin(OpXor, x, y)
	case token.AND_NOT:
		return tb.Bin(OpAnd, x, tb.Not(y))
	case token.SHL, token.SHR:
		if ti2.signed {
			if m.branch(tb.Cmp(OpSlt, y, tb.Const(0, y.w))) {
				m.rtPanic("negative shift amount")
			}
		}
		o := OpShl
		if op == token.SHR {
			o = pick(OpAShr, OpLShr)
		}
		return m.shift(o, x, y)
	case token.LSS:
		return tb.Cmp(pick(OpSlt, OpUlt), x, y)
	case token.LEQ:
		return tb.Cmp(pick(OpSle, OpUle), x, y)
	case token.GTR:
		return tb.Cmp(pick(OpSlt, OpUlt), y, x)
	case token.GEQ:
		return tb.Cmp(pick(OpSle, OpUle), y, x)
	}
	unsupported("operator %s", op)
	return nil
}

func (m *Machine) shift(o Op, x, y *Term) *Term {
	tb := m.tb
	if y.w < x.w {
		y = tb.Zext(y, x.w)
	} else if y.w > x.w {
		big := tb.Cmp(OpUle, tb.Const(uint64(x.w), y.w), y)
		lo := tb.Extract(y, x.w-1, 0)
		var over *Term
		if o == OpAShr {
			over = tb.Bin(OpAShr, x, tb.Const(uint64(x.w-1), x.w))
		} else {
			over = tb.Const(0, x.w)
		}
		return tb.Ite(big, over, tb.Bin(o, x, lo))
	}
	return tb.Bin(o, x, y)
}

func (m *Machine) strEq(x, y Str) *Term {
	if x.n != y.n {
		return m.tb.False
	}
	if x.o == y.o && x.off == y.off {
		return m.tb.True
	}
	a, b := x.cells(), y.cells()
	r := m.tb.True
	for i := range a {
		e := m.tb.Eq(a[i].(*Term), b[i].(*Term))
		if e.IsFalse() {
			return e
		}
		r = m.tb.BAnd(r, e)
	}
	return r
}

func (m *Machine) strLess(x, y Str, orEq bool) *Term {
	a, b := x.cells(), y.cells()
	n := min(len(a), len(b))
	var r *Term
	if len(a) < len(b) || (len(a) == len(b) && orEq) {
		r = m.tb.True
	} else {
		r = m.tb.False
	}
	for i := n - 1; i >= 0; i-- {
		p, q := a[i].(*Term), b[i].(*Term)
		r = m.tb.Ite(m.tb.Eq(p, q), r, m.tb.Cmp(OpUlt, p, q))
	}
	return r
}

func (m *Machine) eq(ti, ti2 *TI, x, y Value) *Term {
	tb := m.tb
	// interface compared with a concrete value
	if ti.iface != ti2.iface {
		if ti.iface && ti2.kind != reflect.Invalid {
			if _, ok := y.(Iface); !ok {
				y = Iface{ti2, y}
			}
		} else if ti2.iface {
			if _, ok := x.(Iface); !ok {
				x = Iface{ti, x}
			}
			ti = ti2
		}
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if ti.float {
			return tb.FP(OpFEq, 0, a, b)
		}
		return tb.Eq(a, b)
	case Str:
		return m.strEq(a, y.(Str))
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			return tb.False
		}
		return tb.Bool(a.o == b.o && a.off == b.off)
	case Slice:
		b := y.(Slice)
		return tb.Bool(a.o == nil && b.o == nil)
	case *MapObj:
		return tb.Bool(a == y.(*MapObj))
	case *Closure:
		b := y.(*Closure)
		return tb.Bool(a == nil && b == nil)
	case *Chan:
		return tb.Bool(a == y.(*Chan))
	case Iface:
		b := y.(Iface)
		if a.ti == nil || b.ti == nil {
			return tb.Bool(a.ti == b.ti)
		}
		if a.ti != b.ti {
			return tb.False
		}
		if rt, ok := a.v.(RType); ok {
			return tb.Bool(rt.ti == b.v.(RType).ti)
		}
		if !types.Comparable(a.ti.t) {
			m.rtPanic("comparing uncomparable type " + a.ti.String())
		}
		return m.eq(a.ti, b.ti, a.v, b.v)
	case RType:
		return tb.Bool(a.ti == y.(RType).ti)
	case Agg:
		b := y.(Agg)
		r := tb.True
		if ti.kind == reflect.Array {
			e := ti.Elem()
			for i := 0; i < ti.n; i++ {
				r = tb.BAnd(r, m.eq(e, e, subAgg(a, e, i*e.slots), subAgg(b, e, i*e.slots)))
			}
			return r
		}
		for _, f := range ti.fields {
			if f.name == "_" {
				continue
			}
			r = tb.BAnd(r, m.eq(f.ti, f.ti, subAgg(a, f.ti, f.off), subAgg(b, f.ti, f.off)))
		}
		return r
	}
	unsupported("comparison of %T", x)
	return nil
}

func subAgg(a []Value, ti *TI, off int) Value {
	if ti.isAgg() {
		return Agg(a[off : off+ti.slots : off+ti.slots])
	}
	return a[off]
}

func (m *Machine) idx64(t *Term, ti *TI) *Term {
	return m.tb.Resize(t, 64, ti.signed)
}

func (m *Machine) bounds(idx *Term, n int) int {
	tb := m.tb
	if idx.IsConst() {
		if idx.v >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.v), n))
		}
		return int(idx.v)
	}
	if !m.branch(tb.Cmp(OpUlt, idx, tb.Const(uint64(n), 64))) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return -1
}

func (m *Machine) fieldAddr(v Value, ti *TI, n int) Value {
	p, ok := v.(Ptr)
	if !ok {
		unsupported("field of %T", v)
	}
	if p.o == nil {
		m.nilDeref()
	}
	f := &ti.fields[n]
	if nm, ok := ti.t.(*types.Named); ok && (nm.Obj().Name() == "StringHeader" || nm.Obj().Name() == "SliceHeader") && p.off < len(p.o.cells) {
		switch p.o.cells[p.off].(type) {
		case Str, Slice:
			return HdrPtr{p, n}
		}
	}
	return Ptr{p.o, p.off + f.off}
}

// selectRead reads element idx (symbolic, in bounds) of constant cells.
func (m *Machine) selectRead(cells []Value, idx *Term) Value {
	for _, c := range cells {
		t, ok := c.(*Term)
		if !ok || !t.IsConst() {
			return nil
		}
	}
	if len(cells) == 0 || len(cells) > 1024 {
		return nil
	}
	lo, hi := idx.mn, idx.mx
	if hi >= uint64(len(cells)) {
		hi = uint64(len(cells)) - 1
	}
	var build func(l, h uint64) *Term
	build = func(l, h uint64) *Term {
		if l == h {
			return cells[l].(*Term)
		}
		same := true
		for i := l + 1; i <= h; i++ {
			if cells[i] != cells[l] {
				same = false
				break
			}
		}
		if same {
			return cells[l].(*Term)
		}
		mid := l + (h-l)/2
		return m.tb.Ite(m.tb.Cmp(OpUle, idx, m.tb.Const(mid, 64)), build(l, mid), build(mid+1, h))
	}
	return build(lo, hi)
}

func (m *Machine) index(ti, iti *TI, v Value, it *Term) Value {
	idx := m.idx64(it, iti)
	switch x := v.(type) {
	case Str:
		i := m.bounds(idx, x.n)
		if i < 0 {
			if t := m.selectRead(x.cells(), idx); t != nil {
				return t
			}
			i = int(m.concretise(idx, "string index"))
		}
		return x.o.cells[x.off+i]
	case Agg:
		e := ti.Elem()
		i := m.bounds(idx, ti.n)
		if i < 0 {
			if !e.isAgg() {
				if t := m.selectRead(x, idx); t != nil {
					return t
				}
			}
			i = int(m.concretise(idx, "array index"))
		}
		return subAgg(x, e, i*e.slots)
	}
	unsupported("index of %T", v)
	return nil
}

func (m *Machine) indexAddr(ti, iti *TI, v Value, it *Term) Value {
	idx := m.idx64(it, iti)
	switch x := v.(type) {
	case Slice:
		i := m.bounds(idx, x.n)
		if i < 0 {
			i = int(m.concretise(idx, "slice index"))
		}
		return Ptr{x.o, x.off + i*ti.Elem().slots}
	case Ptr:
		a := ti.Elem()
		if x.o == nil {
			m.nilDeref()
		}
		i := m.bounds(idx, a.n)
		if i < 0 {
			i = int(m.concretise(idx, "array index"))
		}
		return Ptr{x.o, x.off + i*a.Elem().slots}
	}
	unsupported("index address of %T", v)
	return nil
}

func (m *Machine) slice(ti *TI, v Value, lo, hi, mx *Term) Value {
	tb := m.tb
	var o *Obj
	var off, n, c, es int
	str := false
	switch x := v.(type) {
	case Str:
		o, off, n, c, es, str = x.o, x.off, x.n, x.n, 1, true
	case Slice:
		o, off, n, c, es = x.o, x.off, x.n, x.c, ti.Elem().slots
	case Ptr:
		a := ti.Elem()
		if x.o == nil {
			m.nilDeref()
		}
		o, off, n, c, es = x.o, x.off, a.n, a.n, a.Elem().slots
	default:
		unsupported("slice of %T", v)
	}
	if lo == nil {
		lo = tb.Const(0, 64)
	}
	if hi == nil {
		hi = tb.Const(uint64(n), 64)
	}
	lim := tb.Const(uint64(c), 64)
	if mx != nil {
		if !m.branch(tb.Cmp(OpUle, mx, lim)) {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [::x] with capacity %d", c))
		}
		lim = mx
	}
	if !m.branch(tb.Cmp(OpUle, hi, lim)) {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [:x] with capacity %d", c))
	}
	if !m.branch(tb.Cmp(OpUle, lo, hi)) {
		m.rtPanic("slice bounds out of range [x:y]")
	}
	l := int(m.concretise(lo, "slice bound"))
	h := int(m.concretise(hi, "slice bound"))
	k := c
	if mx != nil {
		k = int(m.concretise(mx, "slice bound"))
	}
	if str {
		if h == l {
			return Str{o, off, 0}
		}
		return Str{o, off + l, h - l}
	}
	if o == nil {
		return Slice{}
	}
	if k-l == 0 {
		return Slice{o, off, 0, 0}
	}
	return Slice{o, off + l*es, h - l, k - l}
}

func (m *Machine) makeSlice(e *TI, ln, cp *Term, signed bool) Value {
	tb := m.tb
	ln, cp = tb.Resize(ln, 64, true), tb.Resize(cp, 64, true)
	maxLen := uint64(math.MaxInt64)
	if e.size > 0 {
		maxLen = uint64(1<<48) / uint64(e.size)
	}
	if !m.branch(tb.Cmp(OpUle, ln, tb.Const(maxLen, 64))) {
		m.rtPanic("makeslice: len out of range")
	}
	if cp != ln {
		if !m.branch(tb.Cmp(OpUle, cp, tb.Const(maxLen, 64))) {
			m.rtPanic("makeslice: cap out of range")
		}
		if !m.branch(tb.Cmp(OpUle, ln, cp)) {
			m.rtPanic("makeslice: cap out of range")
		}
	}
	m.checkAlloc(cp, e.size)
	n := int(m.concretise(ln, "slice length"))
	var c int
	if cp == ln {
		c = n
	} else {
		c = int(m.concretise(cp, "slice capacity"))
	}
	o := m.newObj(e, c)
	return Slice{o, 0, n, c}
}

// checkAlloc bounds one allocation of n elements of the given size.
func (m *Machine) checkAlloc(n *Term, size int64) {
	hard := int64(1<<20) * int64(m.room())
	if size <= 0 {
		size = 1
	}
	tb := m.tb
	m.checkLimit(n, size)
	if m.branch(tb.Cmp(OpUlt, tb.Const(uint64(hard/size), 64), n)) {
		panic(pathAbort{"alloc", "allocation beyond the modelled memory"})
	}
}

// checkLimit is the obligation of sym.AllocLimit. Counterexamples that the
// native run can tell from ordinary allocations are preferred.
func (m *Machine) checkLimit(n *Term, size int64) {
	if m.allocLim <= 0 {
		return
	}
	tb := m.tb
	lim := uint64(m.allocLim) / uint64(size)
	if n.IsConst() && n.v <= lim {
		return
	}
	msg := fmt.Sprintf("allocation of more than %d bytes", m.allocLim)
	if m.pos >= len(m.prefix) && !n.IsConst() {
		lo, hi := (uint64(m.allocLim)*4+(256<<10))/uint64(size), uint64(256<<20)/uint64(size)
		if r, mod := m.query(tb.BAnd(tb.Cmp(OpUlt, tb.Const(lo, 64), n), tb.Cmp(OpUlt, n, tb.Const(hi, 64)))); r == resSat {
			m.asserts++
			m.ex.cnt.asserts.Add(1)
			m.violation("assert", msg, mod)
			m.assume(tb.Cmp(OpUle, n, tb.Const(lim, 64)))
			return
		}
	}
	m.assert(tb.Cmp(OpUle, n, tb.Const(lim, 64)), msg)
}

// ---- append/copy ----

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, need int, size int64) int {
	nc := oldCap
	if dbl := nc * 2; need > dbl {
		nc = need
	} else if nc < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	if size == 0 {
		return need
	}
	b := int64(nc) * size
	if b <= 32768 {
		for _, s := range sizeClasses {
			if s >= b {
				return int(s / size)
			}
		}
	}
	b = (b + 8191) &^ 8191
	return int(b / size)
}

func (m *Machine) appendCells(s Slice, e *TI, cells []Value, cnt int) Slice {
	es := e.slots
	if cnt == 0 {
		return s
	}
	if s.n+cnt <= s.c {
		m.touch(s.o)
		if m.track != nil {
			m.track.access(m, s.o, s.off+s.n*es, cnt*es, true)
		}
		copy(s.o.cells[s.off+s.n*es:], cells)
		return Slice{s.o, s.off, s.n + cnt, s.c}
	}
	nc := growCap(s.c, s.n+cnt, e.size)
	if int64(nc)*max(e.size, 1) > 1<<21*int64(m.room()) {
		panic(pathAbort{"alloc", "append beyond the modelled memory"})
	}
	if m.allocLim > 0 {
		m.checkLimit(m.num(nc), max(e.size, 1))
	}
	o := m.newObj(e, nc)
	if s.o != nil {
		if m.track != nil {
			m.track.access(m, s.o, s.off, s.n*es, false)
		}
		copy(o.cells, s.o.cells[s.off:s.off+s.n*es])
	}
	copy(o.cells[s.n*es:], cells)
	return Slice{o, 0, s.n + cnt, nc}
}

func (m *Machine) sliceCells(v Value, es int) []Value {
	switch x := v.(type) {
	case Slice:
		if x.o == nil {
			return nil
		}
		if m.track != nil {
			m.track.access(m, x.o, x.off, x.n*es, false)
		}
		return x.o.cells[x.off : x.off+x.n*es]
	case Str:
		return x.cells()
	}
	unsupported("cells of %T", v)
	return nil
}

func (m *Machine) copySlice(dst Slice, e *TI, src Value) int {
	var n int
	switch x := src.(type) {
	case Slice:
		n = x.n
	case Str:
		n = x.n
	}
	n = min(n, dst.n)
	if n == 0 {
		return 0
	}
	cells := append([]Value(nil), m.sliceCells(src, e.slots)[:n*e.slots]...)
	m.touch(dst.o)
	if m.track != nil {
		m.track.access(m, dst.o, dst.off, len(cells), true)
	}
	copy(dst.o.cells[dst.off:], cells)
	return n
}

// ---- maps ----

func (m *Machine) newMap(ti *TI) *MapObj {
	mo := &MapObj{ti: ti, base: m.baseMode}
	if m.track != nil {
		mo.born = m.track.phase
	}
	return mo
}

func (m *Machine) checkHashable(ti *TI, k Value) {
	if ti.iface {
		i := k.(Iface)
		if i.ti != nil {
			if _, ok := i.v.(RType); !ok && !types.Comparable(i.ti.t) {
				m.rtPanic("hash of unhashable type " + i.ti.String())
			}
		}
	}
}

// mapFind returns the entry index of k, or -1, forking over symbolic equality.
func (m *Machine) mapFind(mo *MapObj, k Value) int {
	kt := mo.ti.Key()
	m.checkHashable(kt, k)
	if m.track != nil {
		m.track.accessMap(m, mo, false)
	}
	return m.mapSearch(mo, kt, k)
}

// mapSearch is the index of the entry of key k, or -1.
func (m *Machine) mapSearch(mo *MapObj, kt *TI, k Value) int {
	if !mo.base && !kt.float && len(mo.keys) > 24 {
		if c := concreteKey(k); c != nil {
			if mo.idx == nil {
				mo.idx, mo.open, mo.idxN = map[any]int{}, nil, 0
			}
			for ; mo.idxN < len(mo.keys); mo.idxN++ {
				if x := concreteKey(mo.keys[mo.idxN]); x != nil {
					mo.idx[x] = mo.idxN
				} else {
					mo.open = append(mo.open, mo.idxN)
				}
			}
			for _, i := range mo.open {
				if m.branch(m.eq(kt, kt, mo.keys[i], k)) {
					return i
				}
			}
			if i, ok := mo.idx[c]; ok {
				return i
			}
			return -1
		}
	}
	for i := range mo.keys {
		if m.branch(m.eq(kt, kt, mo.keys[i], k)) {
			return i
		}
	}
	return -1
}

// concreteKey is the value of a key that is a concrete string or integer.
func concreteKey(k Value) any {
	switch k := k.(type) {
	case Str:
		if s, ok := k.concrete(); ok {
			return s
		}
	case *Term:
		if k.IsConst() && k.w > 0 {
			return k.v
		}
	}
	return nil
}

func (m *Machine) mapSet(mo *MapObj, k, v Value) {
	i := m.mapFind(mo, k)
	m.touchMap(mo)
	if m.track != nil {
		m.track.accessMap(m, mo, true)
	}
	if i >= 0 {
		mo.vals[i] = v
		return
	}
	mo.keys = append(mo.keys, k)
	mo.vals = append(mo.vals, v)
}

func (m *Machine) mapDelete(mo *MapObj, k Value) {
	if mo == nil {
		return
	}
	i := m.mapFind(mo, k)
	if i < 0 {
		return
	}
	m.touchMap(mo)
	if m.track != nil {
		m.track.accessMap(m, mo, true)
	}
	mo.idx = nil
	mo.keys = append(append([]Value(nil), mo.keys[:i]...), mo.keys[i+1:]...)
	mo.vals = append(append([]Value(nil), mo.vals[:i]...), mo.vals[i+1:]...)
}

func (m *Machine) lookup(in *instr, xv, kv Value) Value {
	if s, ok := xv.(Str); ok {
		return m.index(in.ti, in.ti2, s, kv.(*Term))
	}
	mo := xv.(*MapObj)
	e := in.ti.Elem()
	i := -1
	if mo != nil {
		i = m.mapFind(mo, kv)
	} else {
		m.checkHashable(in.ti.Key(), kv)
	}
	var v Value
	if i >= 0 {
		v = mo.vals[i]
	} else {
		v = m.zero(e)
	}
	if in.ok {
		return Tuple{v, m.tb.Bool(i >= 0)}
	}
	return v
}

// order chooses an iteration order for n entries: every order for n <= 3 when
// mapOrder is 2, forwards or backwards when it is 1, forwards when 0,
// backwards when 3.
func (m *Machine) order(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	if n < 2 || m.mapOrder == 0 || m.baseMode {
		return r
	}
	if m.mapOrder == 3 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
		return r
	}
	if m.mapOrder == 2 && n <= 4 {
		for i := 0; i < n-1; i++ {
			j := i + m.choose(n-i)
			r[i], r[j] = r[j], r[i]
		}
		return r
	}
	if m.choose(2) == 1 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			r[i], r[j] = r[j], r[i]
		}
	}
	return r
}

func (m *Machine) mapIter(mo *MapObj) *MapIter {
	it := &MapIter{m: mo}
	if mo != nil {
		if m.track != nil {
			m.track.accessMap(m, mo, false)
		}
		it.order = m.order(len(mo.keys))
		it.keys = append([]Value(nil), mo.keys...)
		it.gen = mo.gen
	}
	return it
}

// step advances to the next live entry and returns its index in the map.
func (it *MapIter) step(m *Machine) int {
	for it.m != nil && it.pos < len(it.order) {
		i := it.order[it.pos]
		it.pos++
		if it.gen == it.m.gen {
			return i
		}
		// the map changed: find the entry again (skip it if deleted)
		kt := it.m.ti.Key()
		if j := m.mapSearch(it.m, kt, it.keys[i]); j >= 0 {
			return j
		}
	}
	return -1
}

func (m *Machine) next(in *instr, itv Value, fr *frame) Value {
	switch it := itv.(type) {
	case *MapIter:
		i := it.step(m)
		if i < 0 {
			return Tuple{m.tb.False, m.zero(in.ti.Key()), m.zero(in.ti.Elem())}
		}
		return Tuple{m.tb.True, it.m.keys[i], it.m.vals[i]}
	case *StrIter:
		if it.pos >= it.s.n {
			return Tuple{m.tb.False, m.tb.Const(0, 64), m.tb.Const(0, 32)}
		}
		pos := it.pos
		r, sz := m.decodeRune(Str{it.s.o, it.s.off + pos, it.s.n - pos}, fr)
		it.pos += sz
		return Tuple{m.tb.True, m.tb.Const(uint64(pos), 64), r}
	}
	unsupported("next of %T", itv)
	return nil
}

func (m *Machine) decodeRune(s Str, fr *frame) (*Term, int) {
	b := s.o.cells[s.off].(*Term)
	if m.branch(m.tb.Cmp(OpUlt, b, m.tb.Const(0x80, 8))) {
		return m.tb.Zext(b, 32), 1
	}
	f := m.p.funcByName("unicode/utf8", "DecodeRuneInString")
	t := m.call(f, []Value{s}, nil, fr).(Tuple)
	return t[0].(*Term), int(m.concretise(t[1].(*Term), "rune size"))
}

func (p *Program) funcByName(pkg, name string) *Fn {
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil {
		unsupported("package %s not loaded", pkg)
	}
	f := sp.Func(name)
	if f == nil {
		unsupported("no function %s.%s", pkg, name)
	}
	return p.fnOf(f)
}

// ---- interfaces ----

type implKey struct{ a, b *TI }

func (m *Machine) implements(dyn, it *TI) bool {
	k := implKey{dyn, it}
	implMu.RLock()
	r, ok := implCache[k]
	implMu.RUnlock()
	if ok {
		return r
	}
	implMu.Lock()
	r = types.Implements(dyn.t, it.u.(*types.Interface))
	implCache[k] = r
	implMu.Unlock()
	return r
}

func (m *Machine) typeAssert(in *instr, x Iface) Value {
	ok := false
	var v Value
	if x.ti != nil {
		if in.ti2.iface {
			ok = m.implements(x.ti, in.ti2)
			v = x
		} else {
			ok = x.ti == in.ti2
			v = x.v
		}
	}
	if in.ok {
		if !ok {
			v = m.zero(in.ti2)
		}
		return Tuple{v, m.tb.Bool(ok)}
	}
	if !ok {
		d := "nil"
		if x.ti != nil {
			d = x.ti.String()
		}
		m.goPanic(Iface{m.p.tTypeAssertErr, Ptr{m.taErr("interface conversion: interface is " + d + ", not " + in.ti2.String()), 0}})
	}
	return v
}

// taErr makes the *runtime.TypeAssertionError object (fields left zero).
func (m *Machine) taErr(msg string) *Obj {
	o := m.newObj(m.p.tTypeAssertErr.Elem(), 1)
	o.name = msg
	return o
}

func (p *Program) method(ti *TI, meth *types.Func) *Fn {
	k := methKey{ti, meth.Id()}
	p.msMu.Lock()
	fn := p.methCache[k]
	p.msMu.Unlock()
	if fn != nil {
		return fn
	}
	f := p.prog.LookupMethod(ti.t, meth.Pkg(), meth.Name())
	if f == nil {
		return nil
	}
	fn = p.fnOf(f)
	p.msMu.Lock()
	p.methCache[k] = fn
	p.msMu.Unlock()
	return fn
}

func (m *Machine) invoke(recv Iface, meth *types.Func, args []Value, fr *frame) Value {
	if recv.ti == nil {
		m.nilDeref()
	}
	args[0] = recv.v
	if rt, ok := recv.v.(RType); ok {
		return m.rtypeMethod(rt.ti, meth.Name(), args[1:], fr)
	}
	fn := m.p.method(recv.ti, meth)
	if fn == nil {
		unsupported("method %s of %s", meth.Name(), recv.ti)
	}
	return m.call(fn, args, nil, fr)
}

// ---- conversions ----

func (m *Machine) convert(from, to *TI, v Value) Value {
	tb := m.tb
	switch {
	case from.scalar && to.scalar:
		t := v.(*Term)
		switch {
		case from.float && to.float:
			return tb.FP(OpF2F, to.w, t, nil)
		case from.float:
			if to.signed {
				return tb.FP(OpF2S, to.w, t, nil)
			}
			return tb.FP(OpF2U, to.w, t, nil)
		case to.float:
			if from.signed {
				return tb.FP(OpS2F, to.w, t, nil)
			}
			return tb.FP(OpU2F, to.w, t, nil)
		}
		return tb.Resize(t, to.w, from.signed)
	case to.kind == reflect.String:
		switch x := v.(type) {
		case Str:
			return x
		case Slice:
			if from.Elem().w == 8 {
				return m.newStr(m.sliceCells(x, 1))
			}
			// []rune
			var out []Value
			for _, c := range m.sliceCells(x, 1) {
				out = append(out, m.runeBytes(c.(*Term))...)
			}
			return m.newStr(out)
		case *Term:
			return m.newStr(m.runeBytes(tb.Resize(x, 32, from.signed)))
		}
	case from.kind == reflect.String && to.kind == reflect.Slice:
		s := v.(Str)
		if to.Elem().w == 8 {
			return m.bytesSlice(s.cells())
		}
		var cells []Value
		for pos := 0; pos < s.n; {
			r, sz := m.decodeRune(Str{s.o, s.off + pos, s.n - pos}, nil)
			cells = append(cells, r)
			pos += sz
		}
		o := m.newObj(to.Elem(), len(cells))
		copy(o.cells, cells)
		return Slice{o, 0, len(cells), len(cells)}
	case to.kind == reflect.UnsafePointer:
		if t, ok := v.(*Term); ok {
			return m.ptrFromAddr(m.concretise(t, "address"))
		}
		return v
	case from.kind == reflect.UnsafePointer && to.kind == reflect.Uintptr:
		p, ok := v.(Ptr)
		if !ok {
			unsupported("address of %T", v)
		}
		return tb.Const(m.ptrAddr(p), 64)
	case from.kind == reflect.UnsafePointer:
		return v
	}
	if from.kind == to.kind {
		return v
	}
	unsupported("conversion %s to %s", from, to)
	return nil
}

func (m *Machine) bytesSlice(cells []Value) Slice {
	n := len(cells)
	c := n
	if n > 0 {
		c = growCap(0, n, 1)
	}
	o := m.newObj(m.p.tByte, c)
	copy(o.cells, cells)
	return Slice{o, 0, n, c}
}

func (m *Machine) runeBytes(r *Term) []Value {
	tb := m.tb
	c := func(v uint64) *Term { return tb.Const(v, 32) }
	b := func(t *Term) Value { return tb.Extract(t, 7, 0) }
	or := func(x, y *Term) *Term { return tb.Bin(OpOr, x, y) }
	sh := func(x *Term, n uint64) *Term { return tb.Bin(OpLShr, x, c(n)) }
	and := func(x *Term, k uint64) *Term { return tb.Bin(OpAnd, x, c(k)) }
	if m.branch(tb.Cmp(OpUlt, r, c(0x80))) {
		return []Value{b(r)}
	}
	if m.branch(tb.Cmp(OpUlt, r, c(0x800))) {
		return []Value{b(or(sh(r, 6), c(0xc0))), b(or(and(r, 0x3f), c(0x80)))}
	}
	bad := tb.BOr(tb.BAnd(tb.Cmp(OpUle, c(0xd800), r), tb.Cmp(OpUle, r, c(0xdfff))), tb.Cmp(OpUlt, c(0x10ffff), r))
	if m.branch(bad) {
		return []Value{tb.bytesC[0xef], tb.bytesC[0xbf], tb.bytesC[0xbd]}
	}
	if m.branch(tb.Cmp(OpUlt, r, c(0x10000))) {
		return []Value{b(or(sh(r, 12), c(0xe0))), b(or(and(sh(r, 6), 0x3f), c(0x80))), b(or(and(r, 0x3f), c(0x80)))}
	}
	return []Value{b(or(sh(r, 18), c(0xf0))), b(or(and(sh(r, 12), 0x3f), c(0x80))), b(or(and(sh(r, 6), 0x3f), c(0x80))), b(or(and(r, 0x3f), c(0x80)))}
}

// ---- builtins ----

func (m *Machine) builtin(fr *frame, in *instr, name string, args []Value) Value {
	tb := m.tb
	num := func(n int) Value { return tb.Const(uint64(n), 64) }
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return num(x.n)
		case Slice:
			return num(x.n)
		case *MapObj:
			if x == nil {
				return num(0)
			}
			if m.track != nil {
				m.track.accessMap(m, x, false)
			}
			return num(len(x.keys))
		case Agg:
			return num(in.ti.n)
		case Ptr:
			return num(in.ti.Elem().n)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return num(x.c)
		case Agg:
			return num(in.ti.n)
		case Ptr:
			return num(in.ti.Elem().n)
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		e := in.ti.Elem()
		switch y := args[1].(type) {
		case Slice:
			return m.appendCells(s, e, m.sliceCells(y, e.slots), y.n)
		case Str:
			return m.appendCells(s, e, y.cells(), y.n)
		}
	case "copy":
		return num(m.copySlice(args[0].(Slice), in.ti.Elem(), args[1]))
	case "delete":
		m.mapDelete(args[0].(*MapObj), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				m.touchMap(x)
				x.keys, x.vals, x.idx = nil, nil, nil
			}
		case Slice:
			e := in.ti.Elem()
			z := m.zeroCells(e)
			if x.o != nil {
				m.touch(x.o)
				for i := 0; i < x.n; i++ {
					copy(x.o.cells[x.off+i*e.slots:], z)
				}
			}
		}
		return nil
	case "panic":
		v := args[0].(Iface)
		m.goPanic(v)
	case "recover":
		return m.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			if in.ti.float {
				unsupported("float min/max")
			}
			c := m.binop(op, in.ti, in.ti, a, r).(*Term)
			if t, ok := a.(*Term); ok {
				r = tb.Ite(c, t, r.(*Term))
			} else if m.branch(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.o == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.o, s.off}
	case "StringData":
		s := args[0].(Str)
		return Ptr{s.o, s.off}
	case "String":
		p := args[0].(Ptr)
		n := int(m.concretise(args[1].(*Term), "unsafe.String length"))
		return Str{p.o, p.off, n}
	case "Slice":
		p := args[0].(Ptr)
		n := int(m.concretise(args[1].(*Term), "unsafe.Slice length"))
		return Slice{p.o, p.off, n, n}
	case "Add":
		p := args[0].(Ptr)
		n := int(int64(m.concretise(args[1].(*Term), "unsafe.Add offset")))
		return m.ptrFromAddr(m.ptrAddr(p) + uint64(n))
	}
	unsupported("builtin %s", name)
	return nil
}

var _ = ssa.BuilderMode(0)
