package main

// A pipe to one z3 process, and the path condition with independence slicing.

import (
	"bufio"
	"fmt"
	"hash"
	"hash/fnv"
	"io"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type satRes int

const (
	resUnsat satRes = iota
	resSat
	resUnknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	tb      *TB
	timeout int // ms
	queries int
	sats    int
	unsats  int
	unknown int
	errors  int
	time    time.Duration
	sb      strings.Builder
}

var solverBin = "z3-new"

func NewSolver(tb *TB, timeoutMS int) *Solver {
	s := &Solver{tb: tb, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
	// everything must be emitted again
	for _, t := range s.tb.tab {
		t.emitted = false
	}
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides the conjunction; on sat, the values of the variables occurring
// in it are returned.
func (s *Solver) Check(cons []*Term) (satRes, map[int32]uint64) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	sb := &s.sb
	sb.Reset()
	vars := map[int32]*Term{}
	for _, c := range cons {
		s.tb.define(sb, c)
		s.tb.collectVars(c, vars)
	}
	sb.WriteString("(push)\n")
	for _, c := range cons {
		sb.WriteString("(assert ")
		sb.WriteString(s.tb.ref(c))
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.errors++
		s.restart()
		return resUnknown, nil
	}
	l, err := s.readLine()
	if err != nil {
		s.errors++
		s.restart()
		return resUnknown, nil
	}
	switch l {
	case "unsat":
		s.unsats++
		io.WriteString(s.in, "(pop)\n")
		return resUnsat, nil
	case "sat":
		s.sats++
		m := map[int32]uint64{}
		if len(vars) > 0 {
			ids := make([]int32, 0, len(vars))
			for v := range vars {
				ids = append(ids, v)
			}
			sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
			sb.Reset()
			sb.WriteString("(get-value (")
			for _, v := range ids {
				sb.WriteString(s.tb.ref(vars[v]))
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n(pop)\n")
			io.WriteString(s.in, sb.String())
			txt, err := s.readSexp()
			if err != nil {
				s.errors++
				s.restart()
				return resUnknown, nil
			}
			vals := parseValues(txt)
			if len(vals) != len(ids) {
				s.errors++
				s.restart()
				return resUnknown, nil
			}
			for i, v := range ids {
				m[v] = vals[i]
			}
		} else {
			io.WriteString(s.in, "(pop)\n")
		}
		return resSat, m
	case "unknown":
		s.unknown++
		io.WriteString(s.in, "(pop)\n")
		return resUnknown, nil
	}
	// an (error ...) line: inconclusive
	s.errors++
	lastSolverError = l
	s.restart()
	return resUnknown, nil
}

var lastSolverError string

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		if depth <= 0 {
			return sb.String(), nil
		}
	}
}

// parseValues extracts the values of ((v1_8 #x01) (v2_0 true) ...) in order.
func parseValues(s string) []uint64 {
	var r []uint64
	f := strings.FieldsFunc(s, func(c rune) bool { return c == '(' || c == ')' || c == ' ' || c == '\n' || c == '\t' })
	for i := 0; i+1 < len(f); i += 2 {
		x := f[i+1]
		switch {
		case x == "true":
			r = append(r, 1)
		case x == "false":
			r = append(r, 0)
		case strings.HasPrefix(x, "#x"):
			v, err := strconv.ParseUint(x[2:], 16, 64)
			if err != nil {
				return nil
			}
			r = append(r, v)
		case strings.HasPrefix(x, "#b"):
			v, err := strconv.ParseUint(x[2:], 2, 64)
			if err != nil {
				return nil
			}
			r = append(r, v)
		default:
			return nil
		}
	}
	return r
}

func (tb *TB) collectVars(t *Term, m map[int32]*Term) {
	tb.epoch++
	tb.collect(t, m)
}

func (tb *TB) collect(t *Term, m map[int32]*Term) {
	if t.op == OpConst || t.evEpoch == tb.epoch {
		return
	}
	t.evEpoch = tb.epoch
	if t.op == OpVar {
		m[int32(t.v)] = t
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			tb.collect(x, m)
		}
	}
}

// ---- path condition ----

type group struct {
	parent *group
	vars   []int32
	cons   []*Term
	multi  bool // some constraint has several variables or a non-byte variable
}

func (g *group) find() *group {
	for g.parent != nil {
		if g.parent.parent != nil {
			g.parent = g.parent.parent
		}
		g = g.parent
	}
	return g
}

type PathCond struct {
	tb     *TB
	groups []*group     // by variable
	dom    []*[4]uint64 // byte domain by variable
	seen   map[int32]bool
	all    []*Term
}

func newPathCond(tb *TB) *PathCond {
	return &PathCond{tb: tb, seen: map[int32]bool{}}
}

func (p *PathCond) groupOf(v int32) *group {
	for int(v) >= len(p.groups) {
		p.groups = append(p.groups, nil)
		p.dom = append(p.dom, nil)
	}
	g := p.groups[v]
	if g == nil {
		g = &group{vars: []int32{v}}
		p.groups[v] = g
	}
	return g.find()
}

var fullDom = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (p *PathCond) domain(v int32) [4]uint64 {
	p.groupOf(v)
	if d := p.dom[v]; d != nil {
		return *d
	}
	return fullDom
}

func (p *PathCond) add(c *Term) {
	if c.IsTrue() || p.seen[c.id] {
		return
	}
	if c.op == OpBAnd {
		p.add(c.a)
		p.add(c.b)
		return
	}
	p.seen[c.id] = true
	p.all = append(p.all, c)
	sup := p.tb.Support(c)
	if len(sup) == 0 {
		return
	}
	g := p.groupOf(sup[0])
	for _, v := range sup[1:] {
		h := p.groupOf(v)
		if h != g {
			if len(h.cons) > len(g.cons) {
				g, h = h, g
			}
			h.parent = g
			g.vars = append(g.vars, h.vars...)
			g.cons = append(g.cons, h.cons...)
			g.multi = g.multi || h.multi
		}
	}
	g.cons = append(g.cons, c)
	if v, ok := p.tb.singleByte(c); ok {
		d := p.domain(v)
		t := p.tb.table(c, v)
		for i := range d {
			d[i] &= t[i]
		}
		p.dom[v] = &d
	} else {
		g.multi = true
	}
}

// singleByte reports whether c depends on exactly one variable, of 8 bits.
func (tb *TB) singleByte(c *Term) (int32, bool) {
	sup := tb.Support(c)
	if len(sup) != 1 {
		return 0, false
	}
	return sup[0], tb.byteVar(c)
}

func (tb *TB) byteVar(t *Term) bool {
	for t.op != OpVar {
		switch {
		case t.a != nil && len(tb.Support(t.a)) > 0:
			t = t.a
		case t.b != nil && len(tb.Support(t.b)) > 0:
			t = t.b
		default:
			t = t.c
		}
	}
	return t.w == 8
}

// auditTable has the solver prove that the truth table of a constraint over one
// byte, by which branches on that byte are decided, is that of the constraint.
// Constraints of the same shape are proved once.
func (m *Machine) auditTable(t *Term, v int32, tt *[4]uint64) {
	if m.ex == nil {
		return
	}
	h := fnv.New64a()
	n := 0
	if !shape(h, t, &n) {
		n = -1
	}
	key := h.Sum64()
	if _, ok := m.ex.shapes.Load(key); ok && n >= 0 {
		return
	}
	if m.ex.cnt.tables.Load() >= int64(m.ex.opt.maxAudits) {
		return
	}
	m.ex.shapes.Store(key, true)
	m.ex.cnt.tables.Add(1)
	t0 := time.Now()
	r := m.sol.proveTable(t, v, tt)
	m.ex.cnt.solverNS.Add(int64(time.Since(t0)))
	m.ex.cnt.queries.Add(1)
	switch r {
	case resUnsat:
		m.ex.cnt.unsat.Add(1)
		m.ex.cnt.tablesProved.Add(1)
	case resSat:
		m.ex.cnt.sat.Add(1)
		m.ex.cnt.tablesWrong.Add(1)
	default:
		m.ex.cnt.unknown.Add(1)
	}
}

func (s *Solver) proveTable(t *Term, v int32, tt *[4]uint64) satRes {
	vars := map[int32]*Term{}
	s.tb.collectVars(t, vars)
	x := vars[v]
	if x == nil || x.w != 8 {
		return resUnknown
	}
	sb := &s.sb
	sb.Reset()
	s.tb.define(sb, t)
	fmt.Fprintf(sb, "(push)\n(assert (xor %s (= #b1 ((_ extract 0 0) (bvlshr #x%016x%016x%016x%016x ((_ zero_extend 248) %s))))))\n(check-sat)\n(pop)\n",
		s.tb.ref(t), tt[3], tt[2], tt[1], tt[0], s.tb.ref(x))
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.errors++
		s.restart()
		return resUnknown
	}
	l, err := s.readLine()
	switch {
	case err == nil && l == "unsat":
		return resUnsat
	case err == nil && l == "sat":
		return resSat
	case err == nil && l == "unknown":
		return resUnknown
	}
	s.errors++
	lastSolverError = l
	s.restart()
	return resUnknown
}

// shape hashes the structure of a term; false if it is too large to.
func shape(h hash.Hash64, t *Term, n *int) bool {
	*n++
	if *n > 3000 {
		return false
	}
	v := t.v
	if t.op == OpVar {
		v = 0
	}
	h.Write([]byte{byte(t.op), t.w, t.hi, t.lo, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)})
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x == nil {
			h.Write([]byte{0xff})
		} else if !shape(h, x, n) {
			return false
		}
	}
	return true
}
