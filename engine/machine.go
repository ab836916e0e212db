package main

// The symbolic machine: path state, memory, and the instruction loop.

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Machine struct {
	p   *Program
	tb  *TB
	sol *Solver
	ex  *Explorer

	// per machine (survive paths)
	consts   [][]Value
	globals  map[*ssa.Global]*Obj
	pkgState map[*ssa.Package]int
	strs     map[string]*Obj
	zeros    [][]Value
	addrNext uint64
	addrs    []*Obj // by increasing address
	qcache   map[string]qres
	baseMode bool

	// per path
	pc        *PathCond
	model     Model
	prefix    []Decision
	pos       int
	node      *pnode
	undo      []undoRec
	inputs    []inputRec
	steps     int64
	depth     int
	maxDepth  int
	stack     []Value
	sp        int
	observes  []obsRec
	reached   []string
	known     []string
	pools     map[smKey][]poolItem
	smaps     map[smKey]*MapObj
	onces     map[smKey]bool
	internal  int // internal choices made (map order etc.)
	mapOrder  int
	allocLim  int64
	roomy     int
	depthLim  int
	curFn     *Fn
	incomp    map[string]int
	asserts   int
	viol      []Violation
	notes     []string
	addrPath  uint64
	addrsPath []*Obj
	track     *raceTrack
	smapTrack *raceTrack
	lastPos   token.Pos
	baseAddrN int
	nodes     []*pnode
	pending   []*workItem
	broken    bool
}

type qres struct {
	r satRes
	m map[int32]uint64
}

type inputRec struct {
	kind string
	w    uint8
	t    *Term
}

type obsRec struct {
	label string
	vals  []*Term
}

type undoRec struct {
	o     *Obj
	cells []Value
	m     *MapObj
	keys  []Value
	vals  []Value
}

type Decision struct {
	kind   uint8 // 0 branch, 1 concretise, 2 free choice
	taken  bool
	forced bool
	v      uint64
}

type pnode struct {
	parent *pnode
	d      Decision
	depth  int
}

func (n *pnode) list() ([]Decision, []*pnode) {
	if n == nil {
		return nil, nil
	}
	r := make([]Decision, n.depth)
	ns := make([]*pnode, n.depth)
	for x := n; x != nil; x = x.parent {
		r[x.depth-1] = x.d
		ns[x.depth-1] = x
	}
	return r, ns
}

func newMachine(p *Program, ex *Explorer, timeoutMS int) *Machine {
	tb := NewTB()
	m := &Machine{p: p, tb: tb, ex: ex, globals: map[*ssa.Global]*Obj{}, pkgState: map[*ssa.Package]int{},
		strs: map[string]*Obj{}, qcache: map[string]qres{}, addrNext: 0xc000000000}
	m.sol = NewSolver(tb, timeoutMS)
	tb.onTable = m.auditTable
	m.stack = make([]Value, 1<<16)
	m.resetPath()
	return m
}

func (m *Machine) resetPath() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := m.undo[i]
		if u.o != nil {
			u.o.cells = u.cells
			u.o.saved = false
		} else {
			u.m.keys, u.m.vals, u.m.saved, u.m.idx = u.keys, u.vals, false, nil
		}
	}
	m.undo = m.undo[:0]
	m.pc = newPathCond(m.tb)
	m.inputs = nil
	m.steps = 0
	m.depth = 0
	m.maxDepth = 0
	m.sp = 0
	m.observes = nil
	m.reached = nil
	m.known = nil
	m.pools = nil
	m.smaps = nil
	m.onces = nil
	m.internal = 0
	m.mapOrder = 1
	m.allocLim = 0
	m.roomy = 0
	m.depthLim = 0
	m.asserts = 0
	m.viol = nil
	m.notes = nil
	m.pos = 0
	m.incomp = nil
	m.track, m.smapTrack = nil, nil
	m.addrs = m.addrs[:m.baseAddrN]
	m.addrPath = 0xd000000000
	m.addrsPath = nil
}

// ---- path decisions ----

func (m *Machine) nextDecision() (Decision, bool) {
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.node = m.nodes[m.pos]
		m.pos++
		return d, true
	}
	return Decision{}, false
}

func (m *Machine) extend(d Decision) *pnode {
	n := &pnode{parent: m.node, d: d, depth: 1}
	if m.node != nil {
		n.depth = m.node.depth + 1
	}
	return n
}

func (m *Machine) record(d Decision) {
	m.node = m.extend(d)
	m.pos++
	m.prefix = append(m.prefix, d)
	if m.node.depth > m.ex.opt.maxDecisions*m.room() {
		panic(pathAbort{"decisions", "decision limit"})
	}
}

// room is by how much the harness raised the limits of this path.
func (m *Machine) room() int {
	if m.roomy > 1 {
		return m.roomy
	}
	return 1
}

// feasible decides pc && c.
func (m *Machine) feasible(c *Term) (satRes, Model) {
	if c.IsTrue() {
		return resSat, m.model
	}
	if c.IsFalse() {
		return resUnsat, nil
	}
	tb := m.tb
	if v, ok := tb.singleByte(c); ok {
		d := m.pc.domain(v)
		t := tb.table(c, v)
		var inter [4]uint64
		any := false
		for i := range d {
			inter[i] = d[i] & t[i]
			any = any || inter[i] != 0
		}
		if !any {
			m.ex.cnt.tableUnsat.Add(1)
			return resUnsat, nil
		}
		g := m.pc.groupOf(v)
		tries := 0
		for i := 0; i < 256 && tries < 12; i++ {
			if inter[i>>6]>>(i&63)&1 == 0 {
				continue
			}
			tries++
			nm := m.model.with(v, uint64(i))
			if !g.multi || m.holds(g.cons, nm) {
				m.ex.cnt.tableSat.Add(1)
				return resSat, nm
			}
		}
	}
	if m.pc.seen[tb.BNot(c).id] {
		m.ex.cnt.cacheHits.Add(1)
		return resUnsat, nil
	}
	if nm := m.guess(c); nm != nil {
		m.ex.cnt.tableSat.Add(1)
		return resSat, nm
	}
	return m.query(c)
}

// guess looks for a model of pc && c that differs from the current one in one
// byte variable of c.
func (m *Machine) guess(c *Term) Model {
	tb := m.tb
	sup := tb.Support(c)
	if len(sup) < 2 || len(sup) > 8 {
		return nil
	}
	for _, v := range sup {
		if int(v) >= len(m.inputs) || m.inputs[v].w != 8 {
			continue
		}
		d := m.pc.domain(v)
		g := m.pc.groupOf(v)
		try := func(x uint64) Model {
			if d[x>>6]>>(x&63)&1 == 0 {
				return nil
			}
			nm := m.model.with(v, x)
			if tb.Eval(c, nm) == 0 {
				return nil
			}
			// the other variables keep their values, so only v's group matters
			if g.multi && !m.holds(g.cons, nm) {
				return nil
			}
			return nm
		}
		for _, o := range sup {
			if o != v && int(o) < len(m.model) {
				if nm := try(m.model[o] & 255); nm != nil {
					return nm
				}
			}
		}
		cur := uint64(0)
		if int(v) < len(m.model) {
			cur = m.model[v]
		}
		for _, x := range [...]uint64{(cur + 1) & 255, (cur - 1) & 255, cur ^ 128, 'a', 'b', 'c', 'd', 'e', 0, 255} {
			if nm := try(x); nm != nil {
				return nm
			}
		}
	}
	return nil
}

func (m *Machine) holds(cs []*Term, mod Model) bool {
	m.tb.epoch++
	for _, c := range cs {
		if m.tb.eval(c, mod) == 0 {
			return false
		}
	}
	return true
}

// query asks the solver for pc && c, restricted to the constraints sharing
// variables (transitively) with c.
func (m *Machine) query(c *Term) (satRes, Model) {
	sup := m.tb.Support(c)
	cons := []*Term{c}
	seen := map[*group]bool{}
	for _, v := range sup {
		g := m.pc.groupOf(v)
		if !seen[g] {
			seen[g] = true
			cons = append(cons, g.cons...)
		}
	}
	key := consKey(cons)
	if r, ok := m.qcache[key]; ok {
		m.ex.cnt.cacheHits.Add(1)
		return r.r, m.apply(r)
	}
	if m.ex.stopped() {
		panic(pathAbort{"stop", "time budget"})
	}
	t0 := time.Now()
	r, vals := m.sol.Check(cons)
	m.ex.cnt.solverNS.Add(int64(time.Since(t0)))
	m.ex.cnt.queries.Add(1)
	switch r {
	case resSat:
		m.ex.cnt.sat.Add(1)
	case resUnsat:
		m.ex.cnt.unsat.Add(1)
	default:
		m.ex.cnt.unknown.Add(1)
		m.note("solver: no answer within the time limit")
	}
	q := qres{r, vals}
	m.qcache[key] = q
	return r, m.apply(q)
}

func (m *Machine) apply(q qres) Model {
	if q.r != resSat {
		return nil
	}
	n := len(m.model)
	for v := range q.m {
		if int(v) >= n {
			n = int(v) + 1
		}
	}
	r := make(Model, n)
	copy(r, m.model)
	for v, x := range q.m {
		r[v] = x
	}
	return r
}

func consKey(cons []*Term) string {
	ids := make([]int32, len(cons))
	for i, c := range cons {
		ids[i] = c.id
	}
	// insertion sort: mostly small
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j] < ids[j-1]; j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
		}
	}
	b := make([]byte, 0, 4*len(ids))
	for _, x := range ids {
		b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24))
	}
	return string(b)
}

func (m *Machine) note(s string) {
	if m.incomp == nil {
		m.incomp = map[string]int{}
	}
	m.incomp[s]++
}

// branch decides a symbolic condition, forking if both outcomes are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.IsConst() {
		return c.v == 1
	}
	if m.baseMode {
		unsupported("symbolic branch in package initialisation")
	}
	if d, ok := m.nextDecision(); ok {
		if !d.forced {
			if d.taken {
				m.pc.add(c)
			} else {
				m.pc.add(m.tb.BNot(c))
			}
		}
		return d.taken
	}
	v := m.tb.Eval(c, m.model) != 0
	yes, other := c, m.tb.BNot(c)
	if !v {
		yes, other = other, yes
	}
	r, mod := m.feasible(other)
	if r == resSat {
		m.pushItem(&workItem{node: m.extend(Decision{taken: !v}), model: mod})
	}
	m.record(Decision{taken: v, forced: r == resUnsat})
	if r != resUnsat {
		m.pc.add(yes)
	}
	return v
}

// concretise picks a value of t, forking over the others.
func (m *Machine) concretise(t *Term, what string) uint64 {
	for n := 0; ; n++ {
		if t.IsConst() {
			return t.v
		}
		if n > m.ex.opt.maxConc {
			panic(pathAbort{"concretise", "more than " + fmt.Sprint(m.ex.opt.maxConc) + " values of " + what})
		}
		if d, ok := m.nextDecision(); ok {
			e := m.tb.Eq(t, m.tb.Const(d.v, t.w))
			if d.taken {
				if !d.forced {
					m.pc.add(e)
				}
				return d.v
			}
			m.pc.add(m.tb.BNot(e))
			continue
		}
		v := m.tb.Eval(t, m.model)
		e := m.tb.Eq(t, m.tb.Const(v, t.w))
		r, mod := m.feasible(m.tb.BNot(e))
		if r == resSat {
			m.pushItem(&workItem{node: m.extend(Decision{kind: 1, v: v}), model: mod})
		}
		m.record(Decision{kind: 1, taken: true, v: v, forced: r == resUnsat})
		if r != resUnsat {
			m.pc.add(e)
		}
		return v
	}
}

// choose is a free (unconstrained, internal) n-way choice.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.baseMode {
		return 0
	}
	m.internal++
	if d, ok := m.nextDecision(); ok {
		return int(d.v)
	}
	for i := n - 1; i > 0; i-- {
		m.pushItem(&workItem{node: m.extend(Decision{kind: 2, v: uint64(i), taken: true}), model: m.model})
	}
	m.record(Decision{kind: 2, v: 0, taken: true})
	return 0
}

func (m *Machine) assume(c *Term) {
	if c.IsTrue() {
		return
	}
	if c.IsFalse() {
		panic(pathAbort{"assume", ""})
	}
	if m.pos < len(m.prefix) { // already satisfiable together with the prefix
		m.pc.add(c)
		return
	}
	if m.tb.Eval(c, m.model) == 0 {
		r, mod := m.feasible(c)
		if r == resUnsat {
			panic(pathAbort{"assume", ""})
		}
		if r == resUnknown {
			panic(pathAbort{"solver", "unknown in assume"})
		}
		m.model = mod
	}
	m.pc.add(c)
}

// newInput creates the next symbolic input.
func (m *Machine) newInput(kind string, w uint8) *Term {
	t := m.tb.Var(len(m.inputs), w)
	m.inputs = append(m.inputs, inputRec{kind, w, t})
	return t
}

func (m *Machine) violation(kind, msg string, mod Model) {
	v := Violation{Kind: kind, Msg: msg, Internal: m.internal, Known: append([]string(nil), m.known...)}
	for _, in := range m.inputs {
		v.Inputs = append(v.Inputs, InputVal{in.kind, m.tb.Eval(in.t, mod)})
	}
	if m.curFn != nil {
		v.Where = m.p.fset.Position(m.lastPos).String()
	}
	v.Notes = m.notes
	m.ex.addViolation(m, v)
}

// assert checks that c holds for every input of this path.
func (m *Machine) assert(c *Term, msg string) {
	m.asserts++
	m.ex.cnt.asserts.Add(1)
	if c.IsTrue() {
		m.ex.cnt.assertsConst.Add(1)
		return
	}
	if m.pos < len(m.prefix) {
		// replaying a prefix: this obligation was discharged when the prefix ran
		m.pc.add(c)
		return
	}
	nc := m.tb.BNot(c)
	var r satRes
	var mod Model
	if c.IsFalse() {
		r, mod = resSat, m.model
	} else {
		r, mod = m.query(nc)
	}
	switch r {
	case resSat:
		m.violation("assert", msg, mod)
		// go on with the inputs that satisfy it
		m.assume(c)
	case resUnknown:
		m.note("assertion undecided: " + msg)
		m.assume(c)
	default:
		m.ex.cnt.assertsProved.Add(1)
	}
}

// ---- memory ----

func (m *Machine) zero(ti *TI) Value {
	z := m.zeroCells(ti)
	if ti.slots == 1 && !ti.isAgg() {
		return z[0]
	}
	return Agg(z)
}

func (ti *TI) isAgg() bool {
	return (ti.kind == reflect.Struct && !ti.isRV) || ti.kind == reflect.Array
}

func (m *Machine) zeroCells(ti *TI) []Value {
	for ti.id >= len(m.zeros) {
		m.zeros = append(m.zeros, nil)
	}
	if z := m.zeros[ti.id]; z != nil {
		return z
	}
	z := make([]Value, 0, ti.slots)
	switch {
	case ti.isRV:
		z = append(z, RV{})
	case ti.scalar:
		z = append(z, m.tb.Const(0, ti.w))
	default:
		switch ti.kind {
		case reflect.String:
			z = append(z, Str{})
		case reflect.Ptr, reflect.UnsafePointer:
			z = append(z, Ptr{})
		case reflect.Slice:
			z = append(z, Slice{})
		case reflect.Interface:
			z = append(z, Iface{})
		case reflect.Map:
			z = append(z, (*MapObj)(nil))
		case reflect.Func:
			z = append(z, (*Closure)(nil))
		case reflect.Chan:
			z = append(z, (*Chan)(nil))
		case reflect.Array:
			e := m.zeroCells(ti.Elem())
			for i := 0; i < ti.n; i++ {
				z = append(z, e...)
			}
		case reflect.Struct:
			for _, f := range ti.fields {
				z = append(z, m.zeroCells(f.ti)...)
			}
		case reflect.Complex64, reflect.Complex128:
			z = append(z, "complex")
		default:
			z = append(z, "invalid")
		}
	}
	m.zeros[ti.id] = z
	return z
}

func (m *Machine) newObj(ti *TI, n int) *Obj {
	z := m.zeroCells(ti)
	o := &Obj{ti: ti, n: n, base: m.baseMode, cells: make([]Value, len(z)*n)}
	if len(z) == 1 {
		x := z[0]
		for i := range o.cells {
			o.cells[i] = x
		}
	} else {
		for i := 0; i < n; i++ {
			copy(o.cells[i*len(z):], z)
		}
	}
	if m.track != nil {
		o.born = m.track.phase
	}
	return o
}

func (m *Machine) addrOf(o *Obj) uint64 {
	if o.addr == 0 {
		sz := uint64(o.ti.size) * uint64(o.n)
		if sz == 0 {
			o.addr = 0xa00000
			return o.addr
		}
		m.addrNext = (m.addrNext + 63) &^ 15
		o.addr = m.addrNext
		m.addrNext += sz
		if o.base {
			m.addrs = append(m.addrs[:m.baseAddrN], append([]*Obj{o}, m.addrs[m.baseAddrN:]...)...)
			m.baseAddrN++
		} else {
			m.addrs = append(m.addrs, o)
		}
	}
	return o.addr
}

func (m *Machine) ptrAddr(p Ptr) uint64 {
	if p.o == nil {
		return 0
	}
	a := m.addrOf(p.o)
	e := p.o.ti
	if e.slots == 0 || p.o.n == 0 {
		return a
	}
	return a + uint64(int64(p.off/e.slots)*e.size+e.byteOff(p.off%e.slots))
}

// ptrFromAddr finds the object at address a (unsafe.Pointer(uintptr)).
func (m *Machine) ptrFromAddr(a uint64) Ptr {
	if a == 0 {
		return Ptr{}
	}
	for _, o := range m.addrs {
		sz := uint64(o.ti.size) * uint64(o.n)
		if a >= o.addr && a < o.addr+sz {
			d := int64(a - o.addr)
			el := d / o.ti.size
			rem := d % o.ti.size
			if o.ti.slots == 1 && !o.ti.isAgg() && rem == 0 {
				return Ptr{o, int(el)}
			}
			for s := 0; s < o.ti.slots; s++ {
				if o.ti.byteOff(s) == rem {
					return Ptr{o, int(el)*o.ti.slots + s}
				}
			}
			break
		}
	}
	unsupported("pointer from integer")
	return Ptr{}
}

func (m *Machine) strConst(s string) Str {
	if len(s) == 0 {
		return Str{}
	}
	o := m.strs[s]
	if o == nil {
		o = m.bytesObj(s)
		o.base = true
		o.isStr = true
		m.strs[s] = o
	}
	return Str{o, 0, len(s)}
}

func (m *Machine) bytesObj(s string) *Obj {
	o := &Obj{ti: m.p.tByte, n: len(s), base: m.baseMode, cells: make([]Value, len(s))}
	for i := 0; i < len(s); i++ {
		o.cells[i] = m.tb.bytesC[s[i]]
	}
	if m.track != nil {
		o.born = m.track.phase
	}
	return o
}

// goStr makes a fresh run-time string from a host string.
func (m *Machine) goStr(s string) Str { return m.strConst(s) }

func (s Str) cells() []Value {
	if s.o == nil {
		return nil
	}
	return s.o.cells[s.off : s.off+s.n]
}

// concrete returns the content of s if it has no symbolic byte.
func (s Str) concrete() (string, bool) {
	b := make([]byte, s.n)
	for i, c := range s.cells() {
		t := c.(*Term)
		if !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.v)
	}
	return string(b), true
}

func (s Str) show() string {
	var sb strings.Builder
	for _, c := range s.cells() {
		if t := c.(*Term); t.IsConst() {
			sb.WriteByte(byte(t.v))
		} else {
			sb.WriteByte('?')
		}
	}
	return sb.String()
}

func (m *Machine) newStr(cells []Value) Str {
	if len(cells) == 0 {
		return Str{}
	}
	if len(cells) == 1 {
		if t := cells[0].(*Term); t.IsConst() {
			return m.strConst(string([]byte{byte(t.v)}))
		}
	}
	o := &Obj{ti: m.p.tByte, n: len(cells), base: m.baseMode, isStr: true, cells: append([]Value(nil), cells...)}
	if m.track != nil {
		o.born = m.track.phase
	}
	return Str{o, 0, len(cells)}
}

func (m *Machine) touch(o *Obj) {
	if o.base && !o.saved && !m.baseMode {
		o.saved = true
		m.undo = append(m.undo, undoRec{o: o, cells: append([]Value(nil), o.cells...)})
	}
}

func (m *Machine) touchMap(mo *MapObj) {
	if mo.base && !mo.saved && !m.baseMode {
		mo.saved = true
		m.undo = append(m.undo, undoRec{m: mo, keys: append([]Value(nil), mo.keys...), vals: append([]Value(nil), mo.vals...)})
	}
	mo.gen++
}

func (m *Machine) load(pv Value, ti *TI) Value {
	p, ok := pv.(Ptr)
	if !ok {
		if h, ok := pv.(HdrPtr); ok {
			return m.loadHdr(h)
		}
		unsupported("load through %T", pv)
	}
	if p.o == nil {
		m.nilDeref()
	}
	if m.track != nil {
		m.track.access(m, p.o, p.off, ti.slots, false)
	}
	if !ti.isAgg() {
		if p.off >= len(p.o.cells) {
			unsupported("load out of object bounds")
		}
		v := p.o.cells[p.off]
		switch x := v.(type) {
		case *Term:
			if ti.scalar && x.w != ti.w || !ti.scalar {
				return m.reinterpret(p, ti)
			}
		case Slice:
			if ti.kind == reflect.String {
				return Str{x.o, x.off, x.n}
			}
			if ti.kind != reflect.Slice {
				unsupported("load of %s from slice cell", ti)
			}
		case Str:
			if ti.kind != reflect.String {
				unsupported("load of %s from string cell", ti)
			}
		}
		return v
	}
	if p.off+ti.slots > len(p.o.cells) {
		unsupported("load out of object bounds")
	}
	return Agg(append([]Value(nil), p.o.cells[p.off:p.off+ti.slots]...))
}

// reinterpret loads a wide integer from byte cells (little endian).
func (m *Machine) reinterpret(p Ptr, ti *TI) Value {
	if ti.scalar && ti.w >= 8 && p.o.ti.kind == reflect.Uint8 {
		n := int(ti.w) / 8
		if p.off+n <= len(p.o.cells) {
			t := p.o.cells[p.off].(*Term)
			r := m.tb.Zext(t, ti.w)
			for i := 1; i < n; i++ {
				b := m.tb.Zext(p.o.cells[p.off+i].(*Term), ti.w)
				r = m.tb.Bin(OpOr, r, m.tb.Bin(OpShl, b, m.tb.Const(uint64(8*i), ti.w)))
			}
			return r
		}
	}
	unsupported("load of %s from %s memory", ti, p.o.ti)
	return nil
}

func (m *Machine) loadHdr(h HdrPtr) Value {
	switch x := m.load(h.p, m.hdrTI(h.p)).(type) {
	case Str:
		if h.word == 0 {
			return m.tb.Const(m.ptrAddr(Ptr{x.o, x.off}), 64)
		}
		return m.tb.Const(uint64(x.n), 64)
	case Slice:
		switch h.word {
		case 0:
			return m.tb.Const(m.ptrAddr(Ptr{x.o, x.off}), 64)
		case 1:
			return m.tb.Const(uint64(x.n), 64)
		}
		return m.tb.Const(uint64(x.c), 64)
	}
	unsupported("header of non-string")
	return nil
}

func (m *Machine) hdrTI(p Ptr) *TI {
	if p.o == nil {
		m.nilDeref()
	}
	switch p.o.cells[p.off].(type) {
	case Str:
		return m.p.tString
	case Slice:
		return m.p.tBytes
	}
	unsupported("header view")
	return nil
}

func (m *Machine) store(pv Value, ti *TI, v Value) {
	p, ok := pv.(Ptr)
	if !ok {
		unsupported("store through %T", pv)
	}
	if p.o == nil {
		m.nilDeref()
	}
	if p.o.isStr {
		unsupported("store to string memory")
	}
	m.touch(p.o)
	if m.track != nil {
		m.track.access(m, p.o, p.off, ti.slots, true)
	}
	if !ti.isAgg() {
		if p.off >= len(p.o.cells) {
			unsupported("store out of object bounds")
		}
		if t, ok := v.(*Term); ok {
			if old, ok := p.o.cells[p.off].(*Term); ok && old.w != t.w {
				if p.o.ti.kind == reflect.Uint8 && t.w > 8 {
					n := int(t.w) / 8
					if p.off+n <= len(p.o.cells) {
						for i := 0; i < n; i++ {
							p.o.cells[p.off+i] = m.tb.Extract(t, uint8(8*i+7), uint8(8*i))
						}
						return
					}
				}
				unsupported("store of %s to %s memory", ti, p.o.ti)
			}
		}
		p.o.cells[p.off] = v
		return
	}
	a := v.(Agg)
	if p.off+len(a) > len(p.o.cells) {
		unsupported("store out of object bounds")
	}
	copy(p.o.cells[p.off:], a)
}

// global returns the object of a package variable, initialising its package.
func (m *Machine) global(g *ssa.Global) *Obj {
	if o := m.globals[g]; o != nil {
		return o
	}
	save := m.baseMode
	m.baseMode = true
	o := m.newObj(tiOf(g.Type().Underlying().(*types.Pointer).Elem()), 1)
	o.name = g.String()
	o.born = 0
	m.baseMode = save
	m.globals[g] = o
	m.initPkg(g.Pkg)
	if !m.baseMode && m.p.skippedInit(g) {
		delete(m.globals, g)
		unsupported("package variable %s, which is not initialised", g.String())
	}
	return o
}

var noInit = map[string]bool{
	"runtime": true, "reflect": true, "os": true, "syscall": true, "sync": true, "sync/atomic": true, "time": true,
	"unsafe": true, "testing": true, "flag": true, "log": true, "runtime/debug": true, "net": true, "math/rand": true, "os/exec": true,
	"context": true, "path/filepath": true, "io/fs": true, "unique": true, "weak": true, "iter": true, "crypto": true,
}

// skippedInit reports whether g has an initialiser that initPkg does not run.
func (p *Program) skippedInit(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	path := g.Pkg.Pkg.Path()
	if !(noInit[path] || strings.HasPrefix(path, "internal/") && path != "internal/strconv" || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "vendor/")) {
		return false
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(g) && g.Name() != "init$guard" {
					return true
				}
			}
		}
	}
	return false
}

func (m *Machine) initPkg(pkg *ssa.Package) {
	if pkg == nil || m.pkgState[pkg] != 0 {
		return
	}
	m.pkgState[pkg] = 1
	path := pkg.Pkg.Path()
	if noInit[path] || strings.HasPrefix(path, "internal/") && path != "internal/strconv" || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "vendor/") {
		m.pkgState[pkg] = 2
		return
	}
	init := pkg.Func("init")
	if init == nil {
		m.pkgState[pkg] = 2
		return
	}
	saveBase, saveSteps, saveDepth, saveTrack := m.baseMode, m.steps, m.depth, m.track
	m.baseMode = true
	m.track = nil
	m.steps = 0
	m.call(m.p.fnOf(init), nil, nil, nil)
	m.baseMode, m.steps, m.depth, m.track = saveBase, saveSteps, saveDepth, saveTrack
	m.pkgState[pkg] = 2
}

// checkHint applies sym.AllocLimit to the size hint of a map; a negative one counts as none.
func (m *Machine) checkHint(ti *TI, n *Term) {
	n = m.tb.Resize(n, 64, true)
	if m.branch(m.tb.Cmp(OpSlt, n, m.tb.Const(0, 64))) {
		return
	}
	e := ti.t.Underlying().(*types.Map)
	m.checkLimit(n, max(tiOf(e.Key()).size+tiOf(e.Elem()).size, 1))
}

// ---- panics ----

func (m *Machine) goPanic(v Iface) {
	panic(&targetPanic{v: v, pos: m.where()})
}

func (m *Machine) where() string {
	if m.curFn == nil {
		return ""
	}
	s := m.p.fset.Position(m.lastPos).String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return m.curFn.name + " " + s
}

func (m *Machine) rtPanic(msg string) {
	m.goPanic(Iface{m.p.tRuntimeErr, m.goStr(msg)})
}

func (m *Machine) strPanic(msg string) {
	m.goPanic(Iface{m.p.tString, m.goStr(msg)})
}

func (m *Machine) nilDeref() {
	m.rtPanic("invalid memory address or nil pointer dereference")
}

// ---- calls ----

type deferred struct {
	ins  *instr
	fn   *Fn
	bind []Value
	args []Value
	clo  *Closure
	bi   string
	recv Value
}

type frame struct {
	caller    *frame
	fn        *Fn
	regs      []Value
	defers    []deferred
	panicking bool
	tp        *targetPanic
	result    Value
	done      bool
	block     int
	prev      int
}

const maxHostDepth = 3000

func (m *Machine) callClosure(c *Closure, args []Value, caller *frame) Value {
	if c == nil {
		m.nilDeref()
	}
	if c.prim != nil {
		return c.prim(m, caller, args)
	}
	if c.fn == nil {
		unsupported("call of builtin value %s", c.name)
	}
	return m.call(c.fn, args, c.bind, caller)
}

func (m *Machine) call(fn *Fn, args []Value, bind []Value, caller *frame) Value {
	if fn.intr != nil {
		return fn.intr(m, caller, args)
	}
	if fn.isInit && fn.f.Pkg != nil && m.pkgState[fn.f.Pkg] != 1 {
		return nil // imported package: initialised when first needed
	}
	if fn.isInit && caller != nil && caller.fn.isInit {
		return nil
	}
	if fn.f.Blocks == nil {
		unsupported("no body: %s", fn.name)
	}
	m.p.compile(fn)
	if !fn.entered.Load() {
		fn.entered.Store(true)
	}
	m.depth++
	if m.depth > m.maxDepth {
		m.maxDepth = m.depth
	}
	if m.depthLim > 0 && m.depth > m.depthLim {
		m.violationHere("depth", fmt.Sprintf("call depth exceeds %d", m.depthLim))
	}
	if m.depth > maxHostDepth {
		panic(pathAbort{"depth", "call depth"})
	}
	sp := m.sp
	var regs []Value
	if sp+fn.nregs <= len(m.stack) {
		regs = m.stack[sp : sp+fn.nregs : sp+fn.nregs]
		m.sp = sp + fn.nregs
	} else {
		regs = make([]Value, fn.nregs)
	}
	copy(regs, args)
	copy(regs[fn.nparams:], bind)
	fr := &frame{caller: caller, fn: fn, regs: regs}
	saveFn := m.curFn
	m.curFn = fn
	if fn.hasDefer {
		m.runDeferring(fr)
	} else {
		m.run(fr, 0)
	}
	m.curFn = saveFn
	m.depth--
	m.sp = sp
	return fr.result
}

func (m *Machine) violationHere(kind, msg string) {
	if m.pos >= len(m.prefix) {
		m.violation(kind, msg, m.model)
	}
	panic(pathAbort{"violation", msg})
}

// runDeferring runs a function that has defer statements.
func (m *Machine) runDeferring(fr *frame) {
	depth, sp, cf := m.depth, m.sp, m.curFn
	func() {
		defer func() {
			if fr.done {
				return
			}
			r := recover()
			tp, ok := r.(*targetPanic)
			if !ok {
				panic(r)
			}
			m.depth, m.sp, m.curFn = depth, sp, cf
			fr.panicking = true
			fr.tp = tp
			m.runDefers(fr) // re-panics if not recovered
			fr.result = nil
		}()
		m.run(fr, 0)
		fr.done = true
	}()
	if !fr.done {
		// recovered
		if fr.fn.recover >= 0 {
			fr.prev = -1
			m.run(fr, fr.fn.recover)
		} else {
			fr.result = m.zeroResults(fr.fn)
		}
	}
}

func (m *Machine) zeroResults(fn *Fn) Value {
	rs := fn.f.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(tiOf(rs.At(0).Type()))
	}
	t := make(Tuple, rs.Len())
	for i := range t {
		t[i] = m.zero(tiOf(rs.At(i).Type()))
	}
	return t
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.runOneDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.tp)
	}
}

func (m *Machine) runOneDefer(fr *frame, d deferred) {
	ok := false
	depth, sp, cf := m.depth, m.sp, m.curFn
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(*targetPanic)
			if !is {
				panic(r)
			}
			// a new panic replaces the current one
			m.depth, m.sp, m.curFn = depth, sp, cf
			fr.panicking = true
			fr.tp = tp
		}
	}()
	m.callDeferred(fr, d)
	ok = true
}

func (m *Machine) callDeferred(fr *frame, d deferred) {
	switch {
	case d.bi != "":
		m.builtin(fr, d.ins, d.bi, d.args)
	case d.fn != nil:
		m.call(d.fn, d.args, d.bind, fr)
	default:
		m.callClosure(d.clo, d.args, fr)
	}
}

func (m *Machine) doRecover(fr *frame) Value {
	if fr != nil && !fr.panicking && fr.caller != nil && fr.caller.panicking {
		fr.caller.panicking = false
		v := fr.caller.tp.v
		fr.caller.tp = nil
		return v
	}
	return Iface{}
}

func (m *Machine) constsOf(fn *Fn) []Value {
	for fn.id >= len(m.consts) {
		m.consts = append(m.consts, nil)
	}
	cs := m.consts[fn.id]
	if cs == nil && len(fn.consts) > 0 {
		cs = make([]Value, len(fn.consts))
		for i, c := range fn.consts {
			cs[i] = m.constValue(c)
		}
		// initialising a package may have grown m.consts
		m.consts[fn.id] = cs
	}
	return cs
}

// run executes fr from block bi until it returns.
func (m *Machine) run(fr *frame, bi int) {
	fn := fr.fn
	consts := m.constsOf(fn)
	regs := fr.regs
	get := func(i int32) Value {
		if i >= 0 {
			return regs[i]
		}
		return consts[-1-i]
	}
	prev := -1
	var phiTmp [16]Value
	for {
		b := &fn.blocks[bi]
		if !m.baseMode && !fn.hit[bi].Load() {
			fn.hit[bi].Store(true)
		}
		if len(b.phis) > 0 {
			e := 0
			for i, p := range b.preds {
				if p == prev {
					e = i
					break
				}
			}
			tmp := phiTmp[:0]
			for i := range b.phis {
				tmp = append(tmp, get(b.phis[i].args[e]))
			}
			for i := range b.phis {
				regs[b.phis[i].dst] = tmp[i]
			}
		}
		m.steps += int64(len(b.ins))
		if m.steps > m.ex.opt.maxSteps && m.steps > m.ex.opt.maxSteps*int64(m.room()) && !m.baseMode {
			if m.ex.opt.stepViolation {
				m.violationHere("steps", "no termination within the step bound")
			}
			panic(pathAbort{"steps", "step limit"})
		}
		next := -1
		for k := range b.ins {
			in := &b.ins[k]
			if in.pos.IsValid() {
				m.lastPos = in.pos
			}
			switch in.op {
			case iAlloc:
				regs[in.dst] = Ptr{m.newObj(in.ti, 1), 0}
			case iBin:
				regs[in.dst] = m.binop(in.tok, in.ti, in.ti2, get(in.a), get(in.b))
			case iUnNot:
				regs[in.dst] = m.tb.BNot(get(in.a).(*Term))
			case iUnNeg:
				t := get(in.a).(*Term)
				if in.ti.float {
					regs[in.dst] = m.tb.Bin(OpXor, t, m.tb.Const(1<<(t.w-1), t.w))
				} else {
					regs[in.dst] = m.tb.Neg(t)
				}
			case iUnCom:
				regs[in.dst] = m.tb.Not(get(in.a).(*Term))
			case iLoad:
				regs[in.dst] = m.load(get(in.a), in.ti)
			case iStore:
				m.store(get(in.a), in.ti, get(in.b))
			case iCall:
				args := make([]Value, len(in.args))
				for i, a := range in.args {
					args[i] = get(a)
				}
				if in.fn != nil {
					regs[in.dst] = m.call(in.fn, args, nil, fr)
				} else {
					c, ok := get(in.a).(*Closure)
					if !ok {
						unsupported("call of %T", get(in.a))
					}
					regs[in.dst] = m.callClosure(c, args, fr)
				}
			case iInvoke:
				args := make([]Value, 1+len(in.args))
				for i, a := range in.args {
					args[i+1] = get(a)
				}
				regs[in.dst] = m.invoke(get(in.a).(Iface), in.x.(*types.Func), args, fr)
			case iBuiltin:
				args := make([]Value, len(in.args))
				for i, a := range in.args {
					args[i] = get(a)
				}
				regs[in.dst] = m.builtin(fr, in, in.x.(string), args)
			case iCopyReg:
				regs[in.dst] = get(in.a)
			case iConvert:
				regs[in.dst] = m.convert(in.ti, in.ti2, get(in.a))
			case iDefer:
				ci := in.x.(*instr)
				d := deferred{ins: ci}
				for _, a := range ci.args {
					d.args = append(d.args, get(a))
				}
				switch ci.op {
				case iInvoke:
					r := get(ci.a).(Iface)
					meth := ci.x.(*types.Func)
					as := append([]Value{nil}, d.args...)
					d.args = nil
					d.clo = &Closure{prim: func(m *Machine, fr *frame, _ []Value) Value { return m.invoke(r, meth, as, fr) }}
				case iBuiltin:
					d.bi = ci.x.(string)
				case iCall:
					if ci.fn != nil {
						d.fn = ci.fn
					} else {
						d.clo = get(ci.a).(*Closure)
						if d.clo != nil && d.clo.fn != nil {
							d.fn, d.bind = d.clo.fn, d.clo.bind
						}
					}
				}
				fr.defers = append(fr.defers, d)
			case iExtract:
				regs[in.dst] = get(in.a).(Tuple)[in.n]
			case iField:
				f := &in.ti.fields[in.n]
				a := get(in.a).(Agg)
				if f.ti.isAgg() {
					regs[in.dst] = a[f.off : f.off+f.ti.slots : f.off+f.ti.slots]
				} else {
					regs[in.dst] = a[f.off]
				}
			case iFieldAddr:
				regs[in.dst] = m.fieldAddr(get(in.a), in.ti, in.n)
			case iIf:
				if m.branch(get(in.a).(*Term)) {
					next = int(in.c)
				} else {
					next = int(in.d)
				}
			case iJump:
				next = int(in.c)
			case iIndex:
				regs[in.dst] = m.index(in.ti, in.ti2, get(in.a), get(in.b).(*Term))
			case iIndexAddr:
				regs[in.dst] = m.indexAddr(in.ti, in.ti2, get(in.a), get(in.b).(*Term))
			case iLookup:
				regs[in.dst] = m.lookup(in, get(in.a), get(in.b))
			case iMakeClosure:
				c := &Closure{fn: in.fn, bind: make([]Value, len(in.args))}
				for i, a := range in.args {
					c.bind[i] = get(a)
				}
				regs[in.dst] = c
			case iMakeIface:
				regs[in.dst] = Iface{in.ti, get(in.a)}
			case iMakeMap:
				if in.a != noOperand && m.allocLim > 0 {
					m.checkHint(in.ti, get(in.a).(*Term))
				}
				regs[in.dst] = m.newMap(in.ti)
			case iMakeSlice:
				regs[in.dst] = m.makeSlice(in.ti.Elem(), get(in.a).(*Term), get(in.b).(*Term), true)
			case iMapUpdate:
				mo := get(in.a).(*MapObj)
				if mo == nil {
					m.rtPanic("assignment to entry in nil map")
				}
				m.mapSet(mo, get(in.b), get(in.c))
			case iNext:
				regs[in.dst] = m.next(in, get(in.a), fr)
			case iPanic:
				v := get(in.a).(Iface)
				if v.ti == nil {
					m.rtPanic("panic called with nil argument")
				}
				m.goPanic(v)
			case iRange:
				switch x := get(in.a).(type) {
				case Str:
					regs[in.dst] = &StrIter{s: x}
				case *MapObj:
					regs[in.dst] = m.mapIter(x)
				default:
					unsupported("range over %T", x)
				}
			case iReturn:
				switch len(in.args) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = get(in.args[0])
				default:
					t := make(Tuple, len(in.args))
					for i, a := range in.args {
						t[i] = get(a)
					}
					fr.result = t
				}
				return
			case iRunDefers:
				m.runDefers(fr)
			case iSlice:
				var lo, hi, mx *Term
				tis := in.x.([3]*TI)
				if in.b != noOperand {
					lo = m.idx64(get(in.b).(*Term), tis[0])
				}
				if in.c != noOperand {
					hi = m.idx64(get(in.c).(*Term), tis[1])
				}
				if in.d != noOperand {
					mx = m.idx64(get(in.d).(*Term), tis[2])
				}
				regs[in.dst] = m.slice(in.ti, get(in.a), lo, hi, mx)
			case iSliceToArr:
				s := get(in.a).(Slice)
				n := in.ti2.Elem().n
				if s.n < n {
					m.rtPanic("cannot convert slice to array pointer: length too short")
				}
				if s.o == nil {
					regs[in.dst] = Ptr{}
				} else {
					regs[in.dst] = Ptr{s.o, s.off}
				}
			case iTypeAssert:
				regs[in.dst] = m.typeAssert(in, get(in.a).(Iface))
			case iUnsupported:
				unsupported("%v", in.x)
			default:
				unsupported("instruction %d", in.op)
			}
		}
		if next < 0 {
			unsupported("fell off block")
		}
		prev = bi
		bi = next
	}
}
