package main

// Functions the engine models instead of executing: the harness interface,
// functions without a Go body, locks and formatting.

import (
	"fmt"
	"math"
	"strings"
)

var intrinsics = map[string]intrinsic{}

const symPkg = "github.com/Sereal/Sereal/Go/sereal/zzverif/sym."

func lookupIntrinsic(name string) intrinsic {
	if f := intrinsics[name]; f != nil {
		return f
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		return atomicFn(name[strings.LastIndexByte(name, '.')+1:])
	}
	return nil
}

// callBody runs the real body of a function that has an intrinsic.
func (m *Machine) callBody(fn *Fn, args []Value, fr *frame) Value {
	save := fn.intr
	fn2 := m.p.bodyOf(fn)
	_ = save
	return m.call(fn2, args, nil, fr)
}

func (p *Program) bodyOf(fn *Fn) *Fn {
	p.fnMu.Lock()
	defer p.fnMu.Unlock()
	if b := p.bodies[fn]; b != nil {
		return b
	}
	b := &Fn{f: fn.f, id: len(p.fnList), name: fn.name, recover: -1, inRepo: fn.inRepo, results: fn.results}
	p.fnList = append(p.fnList, b)
	p.bodies[fn] = b
	return b
}

func (m *Machine) constOf(v Value, what string) int {
	t := v.(*Term)
	return int(int64(m.concretise(t, what)))
}

func (m *Machine) label(v Value) string { return v.(Str).show() }

func (m *Machine) newErr(text string) Iface {
	o := m.newObj(m.p.tErrorsString.Elem(), 1)
	o.cells[0] = m.strConst(text)
	return Iface{m.p.tErrorsString, Ptr{o, 0}}
}

// wrapErr makes a *fmt.wrapError.
func (m *Machine) wrapErr(text string, err Iface) Iface {
	ti := m.p.namedPtr("fmt", "wrapError")
	o := m.newObj(ti.Elem(), 1)
	o.cells[0] = m.strConst(text)
	o.cells[1] = err
	return Iface{ti, Ptr{o, 0}}
}

func variadic(v Value) []Value {
	s := v.(Slice)
	if s.o == nil {
		return nil
	}
	return s.o.cells[s.off : s.off+s.n]
}

// raceTrack records the accesses of two threads, executed one after the other.
// Two accesses conflict if one is a write and they are neither guarded by a
// common lock (held exclusively by one of them) nor ordered. Order comes from
// hand-over: what the first thread did before it put an item into a pool is
// ordered before what the second does after it got that item; what it did to
// memory it allocated is also ordered by publication through a lock, an atomic
// or a sync.Map, since there is no other way to reach that memory.
type raceTrack struct {
	phase  int // 0 outside, 1 first thread, 2 second thread
	locks  map[smKey]lockMode
	epoch  int // releases by the first thread so far
	strong int // epochs below are ordered before the second thread
	weak   int // the same for memory allocated by the first thread
	rel    map[*Obj]int
	objs   []*Obj
	maps   []*MapObj
	found  map[string]bool
}

type lockMode struct{ ex, sh int }

type access struct {
	phase int
	write bool
	lo    int
	hi    int
	epoch int
	locks map[smKey]bool // true: exclusively
	where string
}

type accInfo struct{ acc []access }

func (t *raceTrack) lockset() map[smKey]bool {
	var r map[smKey]bool
	for o, n := range t.locks {
		if n.ex > 0 || n.sh > 0 {
			if r == nil {
				r = map[smKey]bool{}
			}
			r[o] = n.ex > 0
		}
	}
	return r
}

// release and acquire order the threads through o.
func (t *raceTrack) release(o *Obj) {
	if t.phase == 1 {
		t.epoch++
		if t.rel == nil {
			t.rel = map[*Obj]int{}
		}
		t.rel[o] = t.epoch
	}
}

func (t *raceTrack) acquire(o *Obj) {
	if t.phase == 2 && t.rel[o] > t.weak {
		t.weak = t.rel[o]
	}
}

func (t *raceTrack) note(m *Machine, list []access, born, lo, hi int, write bool, what string) []access {
	a := access{phase: t.phase, write: write, lo: lo, hi: hi, epoch: t.epoch, locks: t.lockset(), where: m.where()}
	for i := len(list) - 1; i >= 0 && i >= len(list)-6; i-- {
		b := &list[i]
		if b.phase != a.phase || b.write != write || b.epoch != a.epoch || len(a.locks) != 0 || len(b.locks) != 0 {
			continue
		}
		if b.lo <= lo && b.hi >= hi {
			return list
		}
		if t.phase == 1 && b.where == a.where && b.lo <= lo && b.hi >= lo {
			b.hi = hi
			return list
		}
	}
	if t.phase == 2 {
		join := t.strong
		if born == 1 && t.weak > join {
			join = t.weak
		}
		for _, b := range list {
			if b.phase != 1 || !(b.write || write) || b.hi <= lo || b.lo >= hi || b.epoch < join {
				continue
			}
			common := false
			for o, ex := range a.locks {
				if ex2, ok := b.locks[o]; ok && (ex || ex2) {
					common = true
				}
			}
			if !common {
				k := what + " " + b.where + " / " + a.where
				if !t.found[k] {
					t.found[k] = true
					if m.pos >= len(m.prefix) {
						m.violation("race", "unsynchronised accesses to "+what+": "+b.where+" and "+a.where, m.model)
					}
				}
			}
		}
	}
	return append(list, a)
}

func (t *raceTrack) access(m *Machine, o *Obj, off, n int, write bool) {
	if t.phase == 0 || o.born == 2 || n == 0 || m.baseMode {
		return
	}
	if o.acc == nil {
		o.acc = &accInfo{}
		t.objs = append(t.objs, o)
	}
	name := o.name
	if name == "" {
		name = "shared " + o.ti.String()
	}
	o.acc.acc = t.note(m, o.acc.acc, o.born, off, off+n, write, name)
}

func (t *raceTrack) accessMap(m *Machine, mo *MapObj, write bool) {
	if t.phase == 0 || mo.born == 2 || m.baseMode {
		return
	}
	if mo.acc == nil {
		mo.acc = &accInfo{}
		t.maps = append(t.maps, mo)
	}
	mo.acc.acc = t.note(m, mo.acc.acc, mo.born, 0, 1, write, "shared "+mo.ti.String())
}

func (t *raceTrack) end() {
	for _, o := range t.objs {
		o.acc = nil
	}
	for _, mo := range t.maps {
		mo.acc = nil
	}
}

func (m *Machine) lock(v Value, ex, sh int) {
	p, ok := v.(Ptr)
	if !ok || p.o == nil {
		m.nilDeref()
	}
	if m.track != nil {
		k := smKey{p.o, p.off}
		l := m.track.locks[k]
		l.ex += ex
		l.sh += sh
		m.track.locks[k] = l
		if ex+sh > 0 {
			m.track.acquire(p.o)
		} else {
			m.track.release(p.o)
		}
	}
}

type poolItem struct {
	v     Value
	epoch int
	phase int
}

// noRace runs f without recording accesses (synchronised by construction).
func (m *Machine) noRace(f func()) {
	t := m.track
	m.track, m.smapTrack = nil, t
	f()
	m.track, m.smapTrack = t, nil
}

func atomicFn(name string) intrinsic {
	rd := func(m *Machine, p Value) Value {
		var v Value
		pp := p.(Ptr)
		if pp.o == nil {
			m.nilDeref()
		}
		if m.track != nil {
			m.track.acquire(pp.o)
		}
		v = pp.o.cells[pp.off]
		return v
	}
	wr := func(m *Machine, p Value, v Value) {
		pp := p.(Ptr)
		if pp.o == nil {
			m.nilDeref()
		}
		m.touch(pp.o)
		if m.track != nil {
			m.track.release(pp.o)
		}
		pp.o.cells[pp.off] = v
	}
	switch {
	case strings.HasPrefix(name, "Load"):
		return func(m *Machine, fr *frame, a []Value) Value { return rd(m, a[0]) }
	case strings.HasPrefix(name, "Store"):
		return func(m *Machine, fr *frame, a []Value) Value { wr(m, a[0], a[1]); return nil }
	case strings.HasPrefix(name, "Swap"):
		return func(m *Machine, fr *frame, a []Value) Value { o := rd(m, a[0]); wr(m, a[0], a[1]); return o }
	case strings.HasPrefix(name, "Add"):
		return func(m *Machine, fr *frame, a []Value) Value {
			n := m.tb.Bin(OpAdd, rd(m, a[0]).(*Term), a[1].(*Term))
			wr(m, a[0], n)
			return n
		}
	case strings.HasPrefix(name, "CompareAndSwap"):
		return func(m *Machine, fr *frame, a []Value) Value {
			o := rd(m, a[0])
			var c *Term
			if t, ok := o.(*Term); ok {
				c = m.tb.Eq(t, a[1].(*Term))
			} else {
				c = m.tb.Bool(o == a[1])
			}
			if m.branch(c) {
				wr(m, a[0], a[2])
				return m.tb.Bool(true)
			}
			return m.tb.Bool(false)
		}
	}
	return nil
}

func init() {
	reg := func(name string, f intrinsic) { intrinsics[name] = f }
	type M = Machine
	type F = frame
	type A = []Value

	// ---- harness interface ----
	in := func(name, kind string, w uint8) {
		reg(symPkg+name, func(m *M, fr *F, a A) Value { return m.newInput(kind, w) })
	}
	in("Byte", "u8", 8)
	in("Uint16", "u16", 16)
	in("Uint32", "u32", 32)
	in("Uint64", "u64", 64)
	reg(symPkg+"Bool", func(m *M, fr *F, a A) Value {
		t := m.newInput("bool", 8)
		m.assume(m.tb.Cmp(OpUlt, t, m.tb.Const(2, 8)))
		return m.tb.Eq(t, m.tb.Const(1, 8))
	})
	reg(symPkg+"Choose", func(m *M, fr *F, a A) Value {
		n := m.constOf(a[0], "Choose bound")
		t := m.newInput("choose", 8)
		if n < 1 || n > 256 {
			unsupported("Choose(%d)", n)
		}
		if n < 256 {
			m.assume(m.tb.Cmp(OpUlt, t, m.tb.Const(uint64(n), 8)))
		}
		return m.tb.Const(m.concretise(t, "choice"), 64)
	})
	reg(symPkg+"Bytes", func(m *M, fr *F, a A) Value {
		n := m.constOf(a[0], "Bytes length")
		cells := make([]Value, n)
		for i := range cells {
			cells[i] = m.newInput("u8", 8)
		}
		o := m.newObj(m.p.tByte, n)
		copy(o.cells, cells)
		return Slice{o, 0, n, n}
	})
	reg(symPkg+"Assume", func(m *M, fr *F, a A) Value { m.assume(a[0].(*Term)); return nil })
	reg(symPkg+"Assert", func(m *M, fr *F, a A) Value { m.assert(a[0].(*Term), m.label(a[1])); return nil })
	reg(symPkg+"Fail", func(m *M, fr *F, a A) Value {
		m.asserts++
		m.ex.cnt.asserts.Add(1)
		m.violationHere("assert", m.label(a[0]))
		return nil
	})
	reg(symPkg+"Reach", func(m *M, fr *F, a A) Value { m.reached = append(m.reached, m.label(a[0])); return nil })
	reg(symPkg+"Known", func(m *M, fr *F, a A) Value { m.known = append(m.known, m.label(a[0])); return nil })
	reg(symPkg+"ObsBytes", func(m *M, fr *F, a A) Value {
		s := a[1].(Slice)
		r := obsRec{label: m.label(a[0])}
		for i := 0; i < s.n; i++ {
			r.vals = append(r.vals, s.o.cells[s.off+i].(*Term))
		}
		m.observes = append(m.observes, r)
		return nil
	})
	reg(symPkg+"ObsInt", func(m *M, fr *F, a A) Value {
		m.observes = append(m.observes, obsRec{m.label(a[0]), []*Term{a[1].(*Term)}})
		return nil
	})
	reg(symPkg+"ObsBool", func(m *M, fr *F, a A) Value {
		m.observes = append(m.observes, obsRec{m.label(a[0]), []*Term{m.tb.Ite(a[1].(*Term), m.tb.Const(1, 64), m.tb.Const(0, 64))}})
		return nil
	})
	reg(symPkg+"MapOrder", func(m *M, fr *F, a A) Value { m.mapOrder = m.constOf(a[0], "mode"); return nil })
	reg(symPkg+"Room", func(m *M, fr *F, a A) Value { m.roomy = m.constOf(a[0], "room"); return nil })
	reg(symPkg+"AllocLimit", func(m *M, fr *F, a A) Value { m.allocLim = int64(m.constOf(a[0], "limit")); return nil })
	reg(symPkg+"DepthLimit", func(m *M, fr *F, a A) Value {
		n := m.constOf(a[0], "limit")
		if n > 0 {
			n += m.depth
		}
		m.depthLim = n
		return nil
	})
	reg(symPkg+"Symbolic", func(m *M, fr *F, a A) Value { return m.tb.Bool(true) })
	reg(symPkg+"Tier", func(m *M, fr *F, a A) Value {
		if m.ex.opt.tier == "thorough" {
			return m.tb.Const(1, 64)
		}
		return m.tb.Const(0, 64)
	})
	reg(symPkg+"Parallel", func(m *M, fr *F, a A) Value {
		m.track = &raceTrack{locks: map[smKey]lockMode{}, found: map[string]bool{}}
		defer func() {
			if m.track != nil {
				m.track.end()
				m.track = nil
			}
		}()
		for i := 0; i < 2; i++ {
			m.track.phase = i + 1
			m.track.locks = map[smKey]lockMode{}
			m.callClosure(a[i].(*Closure), nil, fr)
		}
		return nil
	})

	// ---- math ----
	ident := func(m *M, fr *F, a A) Value { return a[0] }
	for _, n := range []string{"math.Float64bits", "math.Float64frombits", "math.Float32bits", "math.Float32frombits",
		"internal/abi.NoEscape", "internal/abi.Escape", "strings.Clone", "internal/stringslite.Clone", "internal/abi.FuncPCABIInternal"} {
		reg(n, ident)
	}
	reg("math.archFloor", nil)
	delete(intrinsics, "math.archFloor")
	// exact bit-level definitions of the integer roundings of float64
	trunc := func(m *M, x *Term) *Term {
		tb := m.tb
		c := func(v uint64) *Term { return tb.Const(v, 64) }
		e := tb.Bin(OpAnd, tb.Bin(OpLShr, x, c(52)), c(0x7ff))
		sh := tb.Bin(OpSub, c(1075), e)
		masked := tb.Bin(OpAnd, x, tb.Bin(OpShl, c(^uint64(0)), sh))
		small := tb.Cmp(OpUlt, e, c(1023))
		large := tb.Cmp(OpUle, c(1075), e)
		quiet := tb.Ite(tb.FP(OpFNaN, 0, x, nil), tb.Bin(OpOr, x, c(1<<51)), x)
		return tb.Ite(small, tb.Bin(OpAnd, x, c(1<<63)), tb.Ite(large, quiet, masked))
	}
	floor := func(m *M, x *Term) *Term {
		tb := m.tb
		t := trunc(m, x)
		down := tb.BAnd(tb.Cmp(OpSlt, x, tb.Const(0, 64)), tb.BNot(tb.FP(OpFEq, 0, t, x)))
		down = tb.BAnd(down, tb.BNot(tb.FP(OpFNaN, 0, x, nil)))
		return tb.Ite(down, tb.FP(OpFSub, 64, t, tb.Const(math.Float64bits(1), 64)), t)
	}
	symRound := map[string]func(m *M, x *Term) *Term{
		"Trunc": trunc,
		"Floor": floor,
		"Ceil": func(m *M, x *Term) *Term {
			sign := m.tb.Const(1<<63, 64)
			return m.tb.Bin(OpXor, floor(m, m.tb.Bin(OpXor, x, sign)), sign)
		},
	}
	fl := func(name string, f func(float64) float64) {
		reg("math."+name, func(m *M, fr *F, a A) Value {
			t := a[0].(*Term)
			if !t.IsConst() {
				if g := symRound[name]; g != nil {
					return g(m, t)
				}
				unsupported("math.%s on symbolic float", name)
			}
			return m.tb.Const(math.Float64bits(f(math.Float64frombits(t.v))), 64)
		})
	}
	fl("Floor", math.Floor)
	fl("Ceil", math.Ceil)
	fl("Trunc", math.Trunc)
	fl("Sqrt", math.Sqrt)

	// ---- bytealg ----
	indexByte := func(m *M, cells []Value, c *Term, last bool) Value {
		for i := range cells {
			j := i
			if last {
				j = len(cells) - 1 - i
			}
			if m.branch(m.tb.Eq(cells[j].(*Term), c)) {
				return m.tb.Const(uint64(j), 64)
			}
		}
		return m.tb.Const(^uint64(0), 64)
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "bytes.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, func(m *M, fr *F, a A) Value { return indexByte(m, m.sliceCells(a[0], 1), a[1].(*Term), false) })
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		reg(n, func(m *M, fr *F, a A) Value {
			r := 0
			for _, c := range m.sliceCells(a[0], 1) {
				if m.branch(m.tb.Eq(c.(*Term), a[1].(*Term))) {
					r++
				}
			}
			return m.num(r)
		})
	}
	toStr := func(m *M, v Value) Str {
		switch x := v.(type) {
		case Str:
			return x
		case Slice:
			return Str{x.o, x.off, x.n}
		}
		unsupported("toStr")
		return Str{}
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		reg(n, func(m *M, fr *F, a A) Value { return m.strEq(toStr(m, a[0]), toStr(m, a[1])) })
	}
	for _, n := range []string{"internal/bytealg.Compare", "bytes.Compare", "internal/bytealg.CompareString", "strings.Compare", "cmp.Compare[string]"} {
		reg(n, func(m *M, fr *F, a A) Value {
			x, y := toStr(m, a[0]), toStr(m, a[1])
			if m.branch(m.strEq(x, y)) {
				return m.num(0)
			}
			if m.branch(m.strLess(x, y, false)) {
				return m.tb.Const(^uint64(0), 64)
			}
			return m.num(1)
		})
	}
	reg("internal/bytealg.MakeNoZero", func(m *M, fr *F, a A) Value {
		return m.makeSlice(m.p.tByte, a[0].(*Term), a[0].(*Term), true)
	})

	reg("compress/zlib.same", func(m *M, fr *F, a A) Value { return m.tb.Bool(a[0] == a[1]) })
	reg("github.com/DataDog/zstd.same", func(m *M, fr *F, a A) Value { return m.tb.Bool(a[0] == a[1]) })

	// ---- text ----
	reg("fmt.Errorf", func(m *M, fr *F, a A) Value {
		f := m.label(a[0])
		if strings.Contains(f, "%w") {
			for _, x := range variadic(a[1]) {
				if i := x.(Iface); i.ti != nil && m.implements(i.ti, m.p.tError) {
					return m.wrapErr(f, i)
				}
			}
		}
		return m.newErr(f)
	})
	reg("fmt.Sprintf", func(m *M, fr *F, a A) Value {
		f := m.label(a[0])
		args := variadic(a[1])
		// %d, %s of concrete values are rendered; anything else stays opaque
		for _, x := range args {
			i := x.(Iface)
			switch v := i.v.(type) {
			case *Term:
				if v.IsConst() && (strings.Contains(f, "%d") || strings.Contains(f, "%v")) {
					s := fmt.Sprint(sext64(v.v, v.w))
					k := strings.Index(f, "%")
					f = f[:k] + s + f[k+2:]
				}
			case Str:
				if s, ok := v.concrete(); ok {
					if k := strings.Index(f, "%s"); k >= 0 {
						f = f[:k] + s + f[k+2:]
					}
				}
			}
		}
		return m.strConst(f)
	})
	for _, n := range []string{"fmt.Sprint", "fmt.Sprintln"} {
		reg(n, func(m *M, fr *F, a A) Value { return m.strConst("<text>") })
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint"} {
		reg(n, func(m *M, fr *F, a A) Value { return Tuple{m.num(0), Iface{}} })
	}
	reg("strings.Title", func(m *M, fr *F, a A) Value {
		s := a[0].(Str)
		if c, ok := s.concrete(); ok {
			return m.strConst(strings.Title(c))
		}
		for _, c := range s.cells() {
			if !m.branch(m.tb.Cmp(OpUlt, c.(*Term), m.tb.Const(0x80, 8))) {
				return m.callBody(m.p.funcByName("strings", "Title"), a, fr)
			}
		}
		tb := m.tb
		rng := func(t *Term, lo, hi byte) *Term {
			return tb.BAnd(tb.Cmp(OpUle, tb.Const(uint64(lo), 8), t), tb.Cmp(OpUle, t, tb.Const(uint64(hi), 8)))
		}
		cells := make([]Value, s.n)
		sep := tb.Bool(true)
		for i, cv := range s.cells() {
			c := cv.(*Term)
			low := rng(c, 'a', 'z')
			cells[i] = tb.Ite(tb.BAnd(sep, low), tb.Bin(OpSub, c, tb.Const(32, 8)), c)
			alnum := tb.BOr(tb.BOr(low, rng(c, 'A', 'Z')), tb.BOr(rng(c, '0', '9'), tb.Eq(c, tb.Const('_', 8))))
			sep = tb.BNot(alnum)
		}
		return m.newStr(cells)
	})

	// ---- synchronisation ----
	for _, t := range []string{"Mutex", "RWMutex"} {
		reg("(*sync."+t+").Lock", func(m *M, fr *F, a A) Value { m.lock(a[0], 1, 0); return nil })
		reg("(*sync."+t+").Unlock", func(m *M, fr *F, a A) Value { m.lock(a[0], -1, 0); return nil })
	}
	reg("(*sync.RWMutex).RLock", func(m *M, fr *F, a A) Value { m.lock(a[0], 0, 1); return nil })
	reg("(*sync.RWMutex).RUnlock", func(m *M, fr *F, a A) Value { m.lock(a[0], 0, -1); return nil })
	reg("(*sync.Once).Do", func(m *M, fr *F, a A) Value {
		p := a[0].(Ptr)
		if m.onces == nil {
			m.onces = map[smKey]bool{}
		}
		k := smKey{p.o, p.off}
		if !m.onces[k] {
			m.onces[k] = true
			m.lock(a[0], 1, 0)
			m.callClosure(a[1].(*Closure), nil, fr)
			m.lock(a[0], -1, 0)
		}
		m.lock(a[0], 0, 1) // everything after is ordered after the call
		return nil
	})
	reg("(*sync.Pool).Get", func(m *M, fr *F, a A) Value {
		p := a[0].(Ptr)
		k := smKey{p.o, p.off}
		l := m.pools[k]
		for i := len(l) - 1; i >= 0; i-- {
			x := l[i]
			// the second thread may get the item the first has put, or none
			if m.track != nil && m.track.phase == 2 && x.phase == 1 {
				if m.choose(2) == 1 {
					continue
				}
				if x.epoch > m.track.strong {
					m.track.strong = x.epoch
				}
			}
			n := append([]poolItem(nil), l[:i]...)
			m.pools[k] = append(n, l[i+1:]...)
			return x.v
		}
		for _, f := range m.p.namedPtr("sync", "Pool").Elem().fields {
			if f.name == "New" {
				c, _ := p.o.cells[p.off+f.off].(*Closure)
				if c == nil {
					return Iface{}
				}
				return m.callClosure(c, nil, fr)
			}
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(m *M, fr *F, a A) Value {
		p := a[0].(Ptr)
		if m.pools == nil {
			m.pools = map[smKey][]poolItem{}
		}
		x := poolItem{v: a[1]}
		if t := m.track; t != nil {
			t.release(p.o)
			x.epoch, x.phase = t.epoch, t.phase
		}
		k := smKey{p.o, p.off}
		m.pools[k] = append(m.pools[k], x)
		return nil
	})
	// sync.Map as an association list
	smap := func(m *M, v Value) *MapObj {
		p := v.(Ptr)
		if p.o == nil {
			m.nilDeref()
		}
		if m.smaps == nil {
			m.smaps = map[smKey]*MapObj{}
		}
		if m.smapTrack != nil {
			m.smapTrack.acquire(p.o)
			m.smapTrack.release(p.o)
		}
		k := smKey{p.o, p.off}
		mo := m.smaps[k]
		if mo == nil {
			mo = m.newMap(m.p.tAnyMap)
			m.smaps[k] = mo
		}
		return mo
	}
	reg("(*sync.Map).Load", func(m *M, fr *F, a A) (r Value) {
		m.noRace(func() {
			mo := smap(m, a[0])
			if i := m.mapFind(mo, a[1]); i >= 0 {
				r = Tuple{mo.vals[i], m.tb.Bool(true)}
				return
			}
			r = Tuple{Iface{}, m.tb.Bool(false)}
		})
		return
	})
	reg("(*sync.Map).Store", func(m *M, fr *F, a A) Value {
		m.noRace(func() { m.mapSet(smap(m, a[0]), a[1], a[2]) })
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(m *M, fr *F, a A) (r Value) {
		m.noRace(func() {
			mo := smap(m, a[0])
			if i := m.mapFind(mo, a[1]); i >= 0 {
				r = Tuple{mo.vals[i], m.tb.Bool(true)}
				return
			}
			m.mapSet(mo, a[1], a[2])
			r = Tuple{a[2], m.tb.Bool(false)}
		})
		return
	})
	reg("(*sync.Map).Delete", func(m *M, fr *F, a A) Value {
		m.noRace(func() { m.mapDelete(smap(m, a[0]), a[1]) })
		return nil
	})
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC", "runtime.Gosched"} {
		reg(n, func(m *M, fr *F, a A) Value { return nil })
	}
	// methods of the runtime's error types
	reg("(runtime.errorString).Error", func(m *M, fr *F, a A) Value {
		s := a[0].(Str)
		return m.strConst("runtime error: " + s.show())
	})
	reg("(*runtime.TypeAssertionError).Error", func(m *M, fr *F, a A) Value {
		return m.strConst(a[0].(Ptr).o.name)
	})
	reg("(*reflect.ValueError).Error", func(m *M, fr *F, a A) Value {
		return m.strConst("reflect: call of " + a[0].(Ptr).o.cells[0].(Str).show())
	})
}

type smKey struct {
	o   *Obj
	off int
}
