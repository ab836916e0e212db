package main

// Hash-consed bit-vector terms (width 1..64; width 0 is Bool) with constant
// folding, unsigned interval tracking and memoised evaluation.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpExtract
	OpConcat
	OpZext
	OpSext
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBAnd
	OpBOr
	OpBNot
	// floating point, on IEEE bit patterns of width 32 or 64
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFEq
	OpFLt
	OpFLe
	OpFNaN
	OpS2F // signed int -> float of width w
	OpU2F
	OpF2S // float -> signed int of width w, round to zero
	OpF2U
	OpF2F // float -> float of width w (general, rounding)
)

var opNames = [...]string{"const", "var", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "extract", "concat", "zext", "sext", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "and", "or", "not",
	"fadd", "fsub", "fmul", "fdiv", "feq", "flt", "fle", "fnan", "s2f", "u2f", "f2s", "f2u", "f2f"}

type Term struct {
	op      Op
	w       uint8
	hi, lo  uint8
	isFP    bool // contains an FP operation
	id      int32
	a, b, c *Term
	v       uint64 // constant value or variable number
	mn, mx  uint64 // unsigned interval
	sup     []int32
	supOK   bool
	tt      *[4]uint64
	emitted bool
	evEpoch uint32
	evVal   uint64
}

type tkey struct {
	op      Op
	w       uint8
	hi, lo  uint8
	a, b, c int32
	v       uint64
}

type TB struct {
	onTable func(t *Term, v int32, tt *[4]uint64)
	tab     map[tkey]*Term
	n       int32
	varIdx  map[[2]uint64]*Term
	True    *Term
	False   *Term
	epoch   uint32
	bytesC  [256]*Term
	smallC  [65][]*Term
	widen   map[int32]*Term // float64 term id -> the float32 term it widens
}

func NewTB() *TB {
	tb := &TB{tab: map[tkey]*Term{}, varIdx: map[[2]uint64]*Term{}}
	tb.False = tb.Const(0, 0)
	tb.True = tb.Const(1, 0)
	for i := range tb.bytesC {
		tb.bytesC[i] = tb.Const(uint64(i), 8)
	}
	return tb
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return math.MaxUint64
	}
	return 1<<w - 1
}

func sext64(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) IsTrue() bool  { return t.op == OpConst && t.w == 0 && t.v == 1 }
func (t *Term) IsFalse() bool { return t.op == OpConst && t.w == 0 && t.v == 0 }

func (tb *TB) mk(k tkey, a, b, c *Term) *Term {
	if t, ok := tb.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, hi: k.hi, lo: k.lo, a: a, b: b, c: c, v: k.v, id: tb.n}
	tb.n++
	tb.interval(t)
	t.isFP = k.op >= OpFAdd || (a != nil && a.isFP) || (b != nil && b.isFP) || (c != nil && c.isFP)
	tb.tab[k] = t
	return t
}

func (tb *TB) Const(v uint64, w uint8) *Term {
	v &= mask(w)
	if v < 512 {
		s := tb.smallC[w]
		if s == nil {
			s = make([]*Term, 512)
			tb.smallC[w] = s
		}
		if s[v] != nil {
			return s[v]
		}
		t := tb.mk(tkey{op: OpConst, w: w, a: -1, b: -1, c: -1, v: v}, nil, nil, nil)
		s[v] = t
		return t
	}
	return tb.mk(tkey{op: OpConst, w: w, a: -1, b: -1, c: -1, v: v}, nil, nil, nil)
}

func (tb *TB) Bool(b bool) *Term {
	if b {
		return tb.True
	}
	return tb.False
}

// Var returns the variable with sequence number seq (its position among the
// inputs of a path) and width w. Within one path a sequence number has one
// width; the pair identifies the variable across paths.
func (tb *TB) Var(seq int, w uint8) *Term {
	key := [2]uint64{uint64(seq), uint64(w)}
	if t, ok := tb.varIdx[key]; ok {
		return t
	}
	t := tb.mk(tkey{op: OpVar, w: w, a: -1, b: -1, c: -1, v: uint64(seq)}, nil, nil, nil)
	tb.varIdx[key] = t
	return t
}

func id(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (tb *TB) mk1(op Op, w uint8, a *Term) *Term {
	return tb.mk(tkey{op: op, w: w, a: a.id, b: -1, c: -1}, a, nil, nil)
}
func (tb *TB) mk2(op Op, w uint8, a, b *Term) *Term {
	return tb.mk(tkey{op: op, w: w, a: a.id, b: b.id, c: -1}, a, b, nil)
}

// interval computes a sound unsigned range.
func (tb *TB) interval(t *Term) {
	t.mn, t.mx = 0, mask(t.w)
	switch t.op {
	case OpConst:
		t.mn, t.mx = t.v, t.v
	case OpAdd:
		s, c := bits.Add64(t.a.mx, t.b.mx, 0)
		if c == 0 && s <= mask(t.w) {
			t.mn, t.mx = t.a.mn+t.b.mn, s
		}
	case OpSub:
		if t.a.mn >= t.b.mx {
			t.mn, t.mx = t.a.mn-t.b.mx, t.a.mx-t.b.mn
		}
	case OpMul:
		h, l := bits.Mul64(t.a.mx, t.b.mx)
		if h == 0 && l <= mask(t.w) {
			t.mn, t.mx = t.a.mn*t.b.mn, l
		}
	case OpAnd:
		t.mx = min(t.a.mx, t.b.mx)
	case OpOr, OpXor:
		n := bits.Len64(t.a.mx | t.b.mx)
		if n < 64 {
			t.mx = min(t.mx, 1<<uint(n)-1)
		}
		if t.op == OpOr {
			t.mn = max(t.a.mn, t.b.mn)
		}
	case OpShl:
		if t.b.IsConst() && t.b.v < 64 {
			if bits.Len64(t.a.mx)+int(t.b.v) <= int(t.w) {
				t.mn, t.mx = t.a.mn<<t.b.v, t.a.mx<<t.b.v
			}
		}
	case OpLShr:
		if t.b.IsConst() {
			if t.b.v < 64 {
				t.mn, t.mx = t.a.mn>>t.b.v, t.a.mx>>t.b.v
			} else {
				t.mx = 0
			}
		} else {
			t.mx = t.a.mx
		}
	case OpUDiv:
		if t.b.mn > 0 {
			t.mn, t.mx = t.a.mn/t.b.mx, t.a.mx/t.b.mn
		}
	case OpURem:
		if t.b.mn > 0 {
			t.mx = min(t.a.mx, t.b.mx-1)
		}
	case OpZext:
		t.mn, t.mx = t.a.mn, t.a.mx
	case OpSext:
		if t.a.mx < 1<<(t.a.w-1) {
			t.mn, t.mx = t.a.mn, t.a.mx
		}
	case OpExtract:
		if t.lo == 0 && t.a.mx <= mask(t.w) {
			t.mn, t.mx = t.a.mn, t.a.mx
		}
	case OpConcat:
		t.mn = t.a.mn<<t.b.w | t.b.mn
		t.mx = t.a.mx<<t.b.w | t.b.mx
	case OpIte:
		t.mn, t.mx = min(t.b.mn, t.c.mn), max(t.b.mx, t.c.mx)
	}
}

func fold2(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		if y == 0 {
			if sext64(x, w) < 0 {
				return 1, true
			}
			return m, true
		}
		a, b := sext64(x, w), sext64(y, w)
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OpSRem:
		if y == 0 {
			return x, true
		}
		a, b := sext64(x, w), sext64(y, w)
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OpAnd:
		return x & y, true
	case OpOr:
		return x | y, true
	case OpXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>y) & m, true
	}
	return 0, false
}

func foldCmp(op Op, w uint8, x, y uint64) bool {
	switch op {
	case OpEq:
		return x == y
	case OpUlt:
		return x < y
	case OpUle:
		return x <= y
	case OpSlt:
		return sext64(x, w) < sext64(y, w)
	case OpSle:
		return sext64(x, w) <= sext64(y, w)
	}
	panic("foldCmp")
}

// Bin builds an arithmetic/bitwise term.
func (tb *TB) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %s: %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.IsConst() && b.IsConst() {
		v, _ := fold2(op, w, a.v, b.v)
		return tb.Const(v, w)
	}
	// constants to the right for commutative ops
	switch op {
	case OpAdd, OpMul, OpAnd, OpOr, OpXor:
		if a.IsConst() || (!b.IsConst() && a.id > b.id) {
			a, b = b, a
		}
	}
	if b.IsConst() {
		c := b.v
		switch op {
		case OpAdd:
			if c == 0 {
				return a
			}
			if a.op == OpAdd && a.b.IsConst() {
				return tb.Bin(OpAdd, a.a, tb.Const(a.b.v+c, w))
			}
		case OpSub:
			return tb.Bin(OpAdd, a, tb.Const(-c, w))
		case OpMul:
			if c == 0 {
				return b
			}
			if c == 1 {
				return a
			}
			if c&(c-1) == 0 {
				return tb.Bin(OpShl, a, tb.Const(uint64(bits.TrailingZeros64(c)), w))
			}
		case OpAnd:
			if c == 0 {
				return b
			}
			if c == mask(w) {
				return a
			}
			// mask covering the whole range of a
			if c&(c+1) == 0 && a.mx <= c {
				return a
			}
			if a.op == OpAnd && a.b.IsConst() {
				return tb.Bin(OpAnd, a.a, tb.Const(a.b.v&c, w))
			}
			if a.op == OpZext && c <= mask(a.a.w) {
				return tb.Zext(tb.Bin(OpAnd, a.a, tb.Const(c, a.a.w)), w)
			}
			if a.op == OpZext {
				return tb.Zext(tb.Bin(OpAnd, a.a, tb.Const(c&mask(a.a.w), a.a.w)), w)
			}
			if a.op == OpOr && a.b.IsConst() {
				return tb.Bin(OpOr, tb.Bin(OpAnd, a.a, b), tb.Const(a.b.v&c, w))
			}
		case OpOr, OpXor:
			if c == 0 {
				return a
			}
			if op == OpOr && c == mask(w) {
				return b
			}
		case OpShl, OpLShr:
			if c == 0 {
				return a
			}
			if c >= uint64(w) {
				return tb.Const(0, w)
			}
			if op == OpLShr && a.mx>>c == 0 {
				return tb.Const(0, w)
			}
			if a.op == op && a.b.IsConst() {
				return tb.Bin(op, a.a, tb.Const(min(a.b.v+c, 255), w))
			}
		case OpAShr:
			if c == 0 {
				return a
			}
			if a.mx < 1<<(w-1) {
				return tb.Bin(OpLShr, a, b)
			}
		case OpUDiv:
			if c == 1 {
				return a
			}
			if c != 0 && c&(c-1) == 0 {
				return tb.Bin(OpLShr, a, tb.Const(uint64(bits.TrailingZeros64(c)), w))
			}
		case OpURem:
			if c != 0 && c&(c-1) == 0 {
				return tb.Bin(OpAnd, a, tb.Const(c-1, w))
			}
		case OpSDiv, OpSRem:
			if a.mx < 1<<(w-1) && c < 1<<(w-1) && c != 0 {
				if op == OpSDiv {
					return tb.Bin(OpUDiv, a, b)
				}
				return tb.Bin(OpURem, a, b)
			}
		}
	}
	if a.IsConst() && a.v == 0 {
		switch op {
		case OpShl, OpLShr, OpAShr:
			return a
		}
	}
	if a == b {
		switch op {
		case OpAnd, OpOr:
			return a
		case OpXor, OpSub:
			return tb.Const(0, w)
		}
	}
	return tb.mk2(op, w, a, b)
}

func (tb *TB) Not(a *Term) *Term { // bitwise
	if a.IsConst() {
		return tb.Const(^a.v, a.w)
	}
	if a.op == OpNot {
		return a.a
	}
	return tb.mk1(OpNot, a.w, a)
}

func (tb *TB) Neg(a *Term) *Term {
	if a.IsConst() {
		return tb.Const(-a.v, a.w)
	}
	return tb.mk1(OpNeg, a.w, a)
}

func (tb *TB) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return tb.Const(a.v>>lo, w)
	case OpExtract:
		return tb.Extract(a.a, hi+a.lo, lo+a.lo)
	case OpZext:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
		if lo >= a.a.w {
			return tb.Const(0, w)
		}
		return tb.Zext(tb.Extract(a.a, a.a.w-1, lo), w)
	case OpSext:
		if hi < a.a.w {
			return tb.Extract(a.a, hi, lo)
		}
	case OpConcat:
		if hi < a.b.w {
			return tb.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return tb.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
	case OpAnd, OpOr, OpXor:
		return tb.Bin(a.op, tb.Extract(a.a, hi, lo), tb.Extract(a.b, hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			return tb.Bin(a.op, tb.Extract(a.a, hi, 0), tb.Extract(a.b, hi, 0))
		}
	case OpNot:
		return tb.Not(tb.Extract(a.a, hi, lo))
	case OpLShr:
		if a.b.IsConst() {
			s := a.b.v
			if s+uint64(hi) < uint64(a.w) {
				return tb.Extract(a.a, hi+uint8(s), lo+uint8(s))
			}
		}
	case OpShl:
		if a.b.IsConst() {
			s := a.b.v
			if uint64(lo) >= s {
				return tb.Extract(a.a, hi-uint8(s), lo-uint8(s))
			}
			if uint64(hi) < s {
				return tb.Const(0, w)
			}
		}
	case OpIte:
		if a.b.IsConst() || a.c.IsConst() {
			return tb.Ite(a.a, tb.Extract(a.b, hi, lo), tb.Extract(a.c, hi, lo))
		}
	}
	return tb.mk(tkey{op: OpExtract, w: w, hi: hi, lo: lo, a: a.id, b: -1, c: -1}, a, nil, nil)
}

func (tb *TB) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("zext narrow")
	}
	if a.IsConst() {
		return tb.Const(a.v, w)
	}
	if a.op == OpZext {
		return tb.Zext(a.a, w)
	}
	return tb.mk1(OpZext, w, a)
}

func (tb *TB) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.IsConst() {
		return tb.Const(uint64(sext64(a.v, a.w)), w)
	}
	if a.mx < 1<<(a.w-1) {
		return tb.Zext(a, w)
	}
	if a.op == OpSext {
		return tb.Sext(a.a, w)
	}
	return tb.mk1(OpSext, w, a)
}

// Resize converts an integer term to width w.
func (tb *TB) Resize(a *Term, w uint8, signed bool) *Term {
	switch {
	case w == a.w:
		return a
	case w < a.w:
		return tb.Extract(a, w-1, 0)
	case signed:
		return tb.Sext(a, w)
	}
	return tb.Zext(a, w)
}

func (tb *TB) Ite(c, a, b *Term) *Term {
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.IsTrue() && b.IsFalse() {
			return c
		}
		if a.IsFalse() && b.IsTrue() {
			return tb.BNot(c)
		}
		return tb.BOr(tb.BAnd(c, a), tb.BAnd(tb.BNot(c), b))
	}
	if c.op == OpBNot {
		return tb.Ite(c.a, b, a)
	}
	return tb.mk(tkey{op: OpIte, w: a.w, a: c.id, b: a.id, c: b.id}, c, a, b)
}

func (tb *TB) BNot(a *Term) *Term {
	if a.IsConst() {
		return tb.Bool(a.v == 0)
	}
	switch a.op {
	case OpBNot:
		return a.a
	case OpUlt:
		return tb.Cmp(OpUle, a.b, a.a)
	case OpUle:
		return tb.Cmp(OpUlt, a.b, a.a)
	case OpSlt:
		return tb.Cmp(OpSle, a.b, a.a)
	case OpSle:
		return tb.Cmp(OpSlt, a.b, a.a)
	}
	return tb.mk1(OpBNot, 0, a)
}

func (tb *TB) BAnd(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return tb.False
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() || a == b {
		return a
	}
	if tb.BNot(a) == b {
		return tb.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk2(OpBAnd, 0, a, b)
}

func (tb *TB) BOr(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return tb.True
	}
	if a.IsFalse() {
		return b
	}
	if b.IsFalse() || a == b {
		return a
	}
	if tb.BNot(a) == b {
		return tb.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tb.mk2(OpBOr, 0, a, b)
}

func (tb *TB) Eq(a, b *Term) *Term { return tb.Cmp(OpEq, a, b) }

// Cmp builds OpEq, OpUlt, OpUle, OpSlt, OpSle.
func (tb *TB) Cmp(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("cmp width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 { // Bool equality
		if op != OpEq {
			panic("bool cmp")
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return tb.BNot(a)
		}
		if a == b {
			return tb.True
		}
		if a.id > b.id {
			a, b = b, a
		}
		return tb.mk2(OpEq, 0, a, b)
	}
	if a.IsConst() && b.IsConst() {
		return tb.Bool(foldCmp(op, a.w, a.v, b.v))
	}
	if a == b {
		return tb.Bool(op == OpEq || op == OpUle || op == OpSle)
	}
	half := uint64(1) << (a.w - 1)
	switch op {
	case OpEq:
		if a.mx < b.mn || b.mx < a.mn {
			return tb.False
		}
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			switch a.op {
			case OpZext:
				return tb.Eq(a.a, tb.Const(b.v, a.a.w))
			case OpSext:
				if uint64(sext64(b.v, a.a.w))&mask(a.w) != b.v {
					return tb.False
				}
				return tb.Eq(a.a, tb.Const(b.v, a.a.w))
			case OpAdd:
				if a.b.IsConst() {
					return tb.Eq(a.a, tb.Const(b.v-a.b.v, a.w))
				}
			case OpIte:
				if a.b.IsConst() && a.c.IsConst() {
					x, y := a.b.v == b.v, a.c.v == b.v
					switch {
					case x && y:
						return tb.True
					case x:
						return a.a
					case y:
						return tb.BNot(a.a)
					}
					return tb.False
				}
				if a.b.IsConst() || a.c.IsConst() {
					return tb.Ite(a.a, tb.Eq(a.b, b), tb.Eq(a.c, b))
				}
			case OpOr, OpConcat:
			}
		} else if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return tb.Eq(a.a, b.a)
		} else if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
			return tb.Eq(a.a, b.a)
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpUlt:
		if a.mx < b.mn {
			return tb.True
		}
		if a.mn >= b.mx {
			return tb.False
		}
		if a.op == OpZext && b.IsConst() {
			return tb.Cmp(OpUlt, a.a, tb.Const(b.v, a.a.w)) // b.v <= a.mx here
		}
		if b.op == OpZext && a.IsConst() {
			return tb.Cmp(OpUlt, tb.Const(a.v, b.a.w), b.a)
		}
	case OpUle:
		if a.mx <= b.mn {
			return tb.True
		}
		if a.mn > b.mx {
			return tb.False
		}
		if a.op == OpZext && b.IsConst() {
			return tb.Cmp(OpUle, a.a, tb.Const(b.v, a.a.w))
		}
		if b.op == OpZext && a.IsConst() {
			return tb.Cmp(OpUle, tb.Const(a.v, b.a.w), b.a)
		}
	case OpSlt, OpSle:
		// same known sign: unsigned comparison; known different sign: decided
		aneg, apos := a.mn >= half, a.mx < half
		bneg, bpos := b.mn >= half, b.mx < half
		if (aneg && bneg) || (apos && bpos) {
			if op == OpSlt {
				return tb.Cmp(OpUlt, a, b)
			}
			return tb.Cmp(OpUle, a, b)
		}
		if aneg && bpos {
			return tb.True
		}
		if apos && bneg {
			return tb.False
		}
	}
	return tb.mk2(op, 0, a, b)
}

// ---- support sets ----

func (tb *TB) Support(t *Term) []int32 {
	if t.supOK {
		return t.sup
	}
	var s []int32
	if t.op == OpVar {
		s = []int32{int32(t.v)}
	} else {
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x != nil {
				s = unionSorted(s, tb.Support(x))
			}
		}
	}
	t.sup, t.supOK = s, true
	return s
}

func unionSorted(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	// subset checks avoid allocation
	i, j := 0, 0
	extraB := false
	for i < len(a) && j < len(b) {
		if a[i] == b[j] {
			i++
			j++
		} else if a[i] < b[j] {
			i++
		} else {
			extraB = true
			break
		}
	}
	if !extraB && j == len(b) {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j = 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

// ---- evaluation ----

// Model gives the value of each variable by sequence number; missing is 0.
type Model []uint64

func (m Model) get(i uint64) uint64 {
	if i < uint64(len(m)) {
		return m[i]
	}
	return 0
}

// with returns a copy of m in which variable i has value v.
func (m Model) with(i int32, v uint64) Model {
	n := len(m)
	if int(i) >= n {
		n = int(i) + 1
	}
	r := make(Model, n)
	copy(r, m)
	r[i] = v
	return r
}

func (tb *TB) Eval(t *Term, m Model) uint64 {
	tb.epoch++
	return tb.eval(t, m)
}

func (tb *TB) eval(t *Term, m Model) uint64 {
	switch t.op {
	case OpConst:
		return t.v
	case OpVar:
		return m.get(t.v) & mask(t.w)
	}
	if t.evEpoch == tb.epoch {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OpNot:
		r = ^tb.eval(t.a, m) & mask(t.w)
	case OpNeg:
		r = -tb.eval(t.a, m) & mask(t.w)
	case OpExtract:
		r = tb.eval(t.a, m) >> t.lo & mask(t.w)
	case OpConcat:
		r = tb.eval(t.a, m)<<t.b.w | tb.eval(t.b, m)
	case OpZext:
		r = tb.eval(t.a, m)
	case OpSext:
		r = uint64(sext64(tb.eval(t.a, m), t.a.w)) & mask(t.w)
	case OpIte:
		if tb.eval(t.a, m) != 0 {
			r = tb.eval(t.b, m)
		} else {
			r = tb.eval(t.c, m)
		}
	case OpEq, OpUlt, OpUle, OpSlt, OpSle:
		if foldCmp(t.op, t.a.w, tb.eval(t.a, m), tb.eval(t.b, m)) {
			r = 1
		}
	case OpBAnd:
		r = tb.eval(t.a, m) & tb.eval(t.b, m)
	case OpBOr:
		r = tb.eval(t.a, m) | tb.eval(t.b, m)
	case OpBNot:
		r = 1 - tb.eval(t.a, m)
	default:
		if t.op >= OpFAdd {
			var y uint64
			if t.b != nil {
				y = tb.eval(t.b, m)
			}
			r = foldFP(t.op, t.a.w, t.w, tb.eval(t.a, m), y)
			break
		}
		v, ok := fold2(t.op, t.w, tb.eval(t.a, m), tb.eval(t.b, m))
		if !ok {
			panic("eval " + opNames[t.op])
		}
		r = v
	}
	t.evEpoch, t.evVal = tb.epoch, r
	return r
}

// table returns the truth table of a Bool term whose only variable is one
// 8-bit variable.
func (tb *TB) table(t *Term, v int32) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	var tt [4]uint64
	m := make(Model, v+1)
	for i := 0; i < 256; i++ {
		m[v] = uint64(i)
		if tb.Eval(t, m) != 0 {
			tt[i>>6] |= 1 << (i & 63)
		}
	}
	t.tt = &tt
	if tb.onTable != nil {
		tb.onTable(t, v, &tt)
	}
	return t.tt
}

// ---- floating point on bit patterns ----

func f64of(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func foldFP(op Op, wa, w uint8, x, y uint64) uint64 {
	b := func(c bool) uint64 {
		if c {
			return 1
		}
		return 0
	}
	f, g := f64of(x, wa), f64of(y, wa)
	switch op {
	case OpFEq:
		return b(f == g)
	case OpFLt:
		return b(f < g)
	case OpFLe:
		return b(f <= g)
	case OpFNaN:
		return b(f != f)
	case OpF2S:
		return uint64(int64(f)) & mask(w)
	case OpF2U:
		return uint64(f) & mask(w)
	case OpF2F:
		if wa == 32 && w == 64 {
			return math.Float64bits(float64(math.Float32frombits(uint32(x))))
		}
		return uint64(math.Float32bits(float32(math.Float64frombits(x))))
	case OpS2F:
		i := sext64(x, wa)
		if w == 32 {
			return uint64(math.Float32bits(float32(i)))
		}
		return math.Float64bits(float64(i))
	case OpU2F:
		if w == 32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	}
	if w == 32 {
		p, q := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OpFAdd:
			r = p + q
		case OpFSub:
			r = p - q
		case OpFMul:
			r = p * q
		case OpFDiv:
			r = p / q
		}
		return uint64(math.Float32bits(r))
	}
	var r float64
	switch op {
	case OpFAdd:
		r = f + g
	case OpFSub:
		r = f - g
	case OpFMul:
		r = f * g
	case OpFDiv:
		r = f / g
	}
	return math.Float64bits(r)
}

// FP builds a floating-point term; w is the result width (0 for predicates).
func (tb *TB) FP(op Op, w uint8, a, b *Term) *Term {
	if op == OpF2F && a.w == w {
		return a
	}
	if a.IsConst() && (b == nil || b.IsConst()) {
		var y uint64
		if b != nil {
			y = b.v
		}
		return tb.Const(foldFP(op, a.w, w, a.v, y), w)
	}
	switch op {
	case OpFNaN:
		return tb.isNaN(a)
	case OpFEq:
		// bit-level definition: no FP theory needed
		nn := tb.BNot(tb.BOr(tb.isNaN(a), tb.isNaN(b)))
		z := tb.BAnd(tb.isZeroF(a), tb.isZeroF(b))
		return tb.BAnd(nn, tb.BOr(tb.Eq(a, b), z))
	case OpFLt, OpFLe:
		nn := tb.BNot(tb.BOr(tb.isNaN(a), tb.isNaN(b)))
		z := tb.BAnd(tb.isZeroF(a), tb.isZeroF(b))
		// total-order key
		key := func(x *Term) *Term {
			neg := tb.Cmp(OpSlt, x, tb.Const(0, x.w))
			return tb.Ite(neg, tb.Not(x), tb.Bin(OpOr, x, tb.Const(1<<(x.w-1), x.w)))
		}
		ka, kb := key(a), key(b)
		if op == OpFLt {
			return tb.BAnd(nn, tb.BAnd(tb.BNot(z), tb.Cmp(OpUlt, ka, kb)))
		}
		return tb.BAnd(nn, tb.BOr(z, tb.Cmp(OpUle, ka, kb)))
	case OpF2F:
		if a.w == w {
			return a
		}
		if w == 64 {
			return tb.f32to64(a)
		}
		// narrowing of a widened float32: exact, but signalling NaNs are quieted
		if x := tb.widen[a.id]; x != nil {
			return tb.Ite(tb.isNaN(x), tb.Bin(OpOr, x, tb.Const(1<<22, 32)), x)
		}
	}
	if b == nil {
		return tb.mk1(op, w, a)
	}
	return tb.mk2(op, w, a, b)
}

func (tb *TB) isNaN(a *Term) *Term {
	if a.w == 32 {
		m := tb.Bin(OpAnd, a, tb.Const(0x7fffffff, 32))
		return tb.Cmp(OpUlt, tb.Const(0x7f800000, 32), m)
	}
	m := tb.Bin(OpAnd, a, tb.Const(0x7fffffffffffffff, 64))
	return tb.Cmp(OpUlt, tb.Const(0x7ff0000000000000, 64), m)
}

func (tb *TB) isZeroF(a *Term) *Term {
	return tb.Eq(tb.Bin(OpAnd, a, tb.Const(mask(a.w)>>1, a.w)), tb.Const(0, a.w))
}

// f32to64 is the bit-level circuit of the exact float32 -> float64 conversion
// (quieting signalling NaNs as the hardware does).
func (tb *TB) f32to64(x *Term) *Term {
	c := func(v uint64) *Term { return tb.Const(v, 64) }
	z := tb.Zext(x, 64)
	sign := tb.Bin(OpShl, tb.Bin(OpAnd, z, c(0x80000000)), c(32))
	exp := tb.Bin(OpAnd, tb.Bin(OpLShr, z, c(23)), c(0xff))
	man := tb.Bin(OpAnd, z, c(0x7fffff))
	norm := tb.Bin(OpOr, tb.Bin(OpShl, tb.Bin(OpAdd, exp, c(896)), c(52)), tb.Bin(OpShl, man, c(29)))
	inf := c(0x7ff0000000000000)
	nan := tb.Bin(OpOr, tb.Bin(OpOr, inf, c(1<<51)), tb.Bin(OpShl, man, c(29)))
	// subnormal: highest set bit k of man (0..22): value man*2^-149, exp = k-149
	sub := c(0)
	for k := 0; k <= 22; k++ {
		has := tb.Cmp(OpUle, c(1<<uint(k)), man)
		frac := tb.Bin(OpAnd, tb.Bin(OpShl, man, c(uint64(52-k))), c(1<<52-1))
		val := tb.Bin(OpOr, c(uint64(k-149+1023)<<52), frac)
		sub = tb.Ite(has, val, sub)
	}
	isSub := tb.Eq(exp, c(0))
	isSpec := tb.Eq(exp, c(255))
	mag := tb.Ite(isSpec, tb.Ite(tb.Eq(man, c(0)), inf, nan), tb.Ite(isSub, sub, norm))
	r := tb.Bin(OpOr, sign, mag)
	tb.noteWiden(r, x)
	return r
}

func (tb *TB) noteWiden(r, x *Term) {
	if tb.widen == nil {
		tb.widen = map[int32]*Term{}
	}
	tb.widen[r.id] = x
}

// ---- SMT-LIB ----

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (tb *TB) ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.v == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.v, t.w)
	case OpVar:
		return fmt.Sprintf("v%d_%d", t.v, t.w)
	}
	return fmt.Sprintf("t%d", t.id)
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// define writes the definitions t needs that were not written yet.
func (tb *TB) define(sb *strings.Builder, t *Term) {
	if t.emitted || t.op == OpConst {
		return
	}
	t.emitted = true
	if t.op == OpVar {
		fmt.Fprintf(sb, "(declare-const v%d_%d %s)\n", t.v, t.w, sortOf(t.w))
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			tb.define(sb, x)
		}
	}
	r := func(x *Term) string { return tb.ref(x) }
	var body string
	switch t.op {
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, r(t.a))
	case OpZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, r(t.a))
	case OpSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, r(t.a))
	case OpIte:
		body = fmt.Sprintf("(ite %s %s %s)", r(t.a), r(t.b), r(t.c))
	case OpNot, OpNeg, OpBNot:
		body = fmt.Sprintf("(%s %s)", opNames[t.op], r(t.a))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		n := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[t.op]
		body = fmt.Sprintf("(fp.to_ieee_bv (%s RNE ((_ to_fp %s) %s) ((_ to_fp %s) %s)))", n, fpSort(t.w), r(t.a), fpSort(t.w), r(t.b))
	case OpS2F:
		body = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpSort(t.w), r(t.a))
	case OpU2F:
		body = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpSort(t.w), r(t.a))
	case OpF2S:
		body = fmt.Sprintf("((_ fp.to_sbv %d) RTZ ((_ to_fp %s) %s))", t.w, fpSort(t.a.w), r(t.a))
	case OpF2U:
		body = fmt.Sprintf("((_ fp.to_ubv %d) RTZ ((_ to_fp %s) %s))", t.w, fpSort(t.a.w), r(t.a))
	case OpF2F:
		body = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE ((_ to_fp %s) %s)))", fpSort(t.w), fpSort(t.a.w), r(t.a))
	default:
		body = fmt.Sprintf("(%s %s %s)", opNames[t.op], r(t.a), r(t.b))
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), body)
}

func (t *Term) String() string {
	return termStr(t, 0)
}

func termStr(t *Term, d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.v == 1)
		}
		return fmt.Sprintf("%d:%d", t.v, t.w)
	case OpVar:
		return fmt.Sprintf("v%d", t.v)
	}
	if d > 6 {
		return "..."
	}
	var s []string
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			s = append(s, termStr(x, d+1))
		}
	}
	n := opNames[t.op]
	if t.op == OpExtract {
		n = fmt.Sprintf("extract[%d:%d]", t.hi, t.lo)
	}
	return "(" + n + " " + strings.Join(s, " ") + ")"
}

func sortedInts(m map[int32]bool) []int32 {
	var s []int32
	for k := range m {
		s = append(s, k)
	}
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return s
}
