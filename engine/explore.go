package main

// Exploration of all paths of the harnesses of one property.

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

var (
	implMu    sync.RWMutex
	implCache = map[implKey]bool{}
)

type InputVal struct {
	Kind string `json:"k"`
	V    uint64 `json:"v"`
}

type Violation struct {
	Harness  string     `json:"harness"`
	Kind     string     `json:"kind"`
	Msg      string     `json:"msg"`
	Where    string     `json:"where,omitempty"`
	Internal int        `json:"internal_choices"`
	Known    []string   `json:"known,omitempty"`
	Inputs   []InputVal `json:"inputs"`
	Notes    []string   `json:"notes,omitempty"`
}

func (v Violation) key() string {
	return v.Harness + "|" + v.Kind + "|" + v.Msg + "|" + strings.Join(v.Known, ",")
}

type Options struct {
	maxDecisions  int
	maxAudits     int
	maxConc       int
	maxSteps      int64
	stepViolation bool
	workers       int
	budget        time.Duration
	seed          int64
	solverMS      int
	witnesses     int
	tier          string
	verbose       bool
	first         bool
}

type counters struct {
	tableUnsat, tableSat, cacheHits                atomic.Int64
	solverNS, queries, sat, unsat, unknown         atomic.Int64
	asserts, assertsConst, assertsProved           atomic.Int64
	paths, assumed, decisions, steps, forks, incom atomic.Int64
	solverErrors                                   atomic.Int64
	tables, tablesProved, tablesWrong              atomic.Int64
}

type workItem struct {
	node  *pnode
	model Model
}

// Obs is what a path showed through sym.Observe*, under its model.
type Witness struct {
	Harness string     `json:"h"`
	Inputs  []InputVal `json:"inputs"`
	Obs     []string   `json:"obs"`
}

// harnessRun is the exploration state of one harness.
type harnessRun struct {
	name     string
	fn       *Fn
	stack    []*workItem
	active   int
	used     time.Duration
	paths    int64
	complete int64
	assumed  int64
	incomp   map[string]int
	viol     map[string][]Violation
	violN    int
	reach    map[string]int64
	maxDepth int
	maxSteps int64
	inputs   int
	started  bool
	dropped  int64
	seen     int64
	wit      []Witness
	e        *env   // what the harness is built in
	bin      string // its native binary
}

type Explorer struct {
	p     *Program
	opt   Options
	cnt   counters
	mu    sync.Mutex
	cond  *sync.Cond
	runs  []*harnessRun
	start time.Time
	dead  time.Time
	stopF atomic.Bool
	rnd   *rand.Rand
	cur   map[*Machine]*harnessRun
	known map[string]bool

	shapes sync.Map // tables already proved

	took time.Duration
	more []covFn // coverage of merged explorers
}

// merge adds what another build explored.
func (e *Explorer) merge(o *Explorer) {
	e.runs = append(e.runs, o.runs...)
	e.more = append(e.more, o.coverage()...)
	e.took += o.took
	a, b := reflect.ValueOf(&e.cnt).Elem(), reflect.ValueOf(&o.cnt).Elem()
	for i := 0; i < a.NumField(); i++ {
		p := (*atomic.Int64)(unsafe.Pointer(a.Field(i).UnsafeAddr()))
		p.Add((*atomic.Int64)(unsafe.Pointer(b.Field(i).UnsafeAddr())).Load())
	}
}

func newExplorer(p *Program, opt Options) *Explorer {
	e := &Explorer{p: p, opt: opt, cur: map[*Machine]*harnessRun{}, rnd: rand.New(rand.NewSource(opt.seed))}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) add(name string, fn *Fn) {
	h := &harnessRun{name: name, fn: fn, incomp: map[string]int{}, viol: map[string][]Violation{}, reach: map[string]int64{}}
	h.stack = append(h.stack, &workItem{})
	e.runs = append(e.runs, h)
}

func (e *Explorer) stopped() bool {
	if e.stopF.Load() {
		return true
	}
	if time.Now().After(e.dead) {
		e.stopF.Store(true)
		return true
	}
	return false
}

const maxViolPerHarness = 400

// next picks the runnable harness with the least time used.
func (e *Explorer) next() (*harnessRun, *workItem) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stopped() {
			e.cond.Broadcast()
			return nil, nil
		}
		var best *harnessRun
		busy := false
		for _, h := range e.runs {
			if h.active > 0 {
				busy = true
			}
			if len(h.stack) > 0 && h.violN < maxViolPerHarness && (best == nil || h.used < best.used) {
				best = h
			}
		}
		if best != nil {
			it := best.stack[len(best.stack)-1]
			best.stack = best.stack[:len(best.stack)-1]
			best.active++
			best.started = true
			return best, it
		}
		if !busy {
			e.cond.Broadcast()
			return nil, nil
		}
		e.cond.Wait()
	}
}

func (m *Machine) pushItem(it *workItem) {
	m.pending = append(m.pending, it)
}

func (e *Explorer) addViolation(m *Machine, v Violation) {
	e.mu.Lock()
	h := e.cur[m]
	v.Harness = h.name
	k := v.key()
	h.violN++
	if len(h.viol[k]) < 8 {
		h.viol[k] = append(h.viol[k], v)
	}
	if e.opt.first {
		e.stopF.Store(true)
	}
	e.mu.Unlock()
}

// Run explores everything pushed, within the budget.
func (e *Explorer) Run() {
	debug.SetMaxStack(4 << 30)
	e.start = time.Now()
	e.dead = e.start.Add(e.opt.budget)
	var wg sync.WaitGroup
	for i := 0; i < e.opt.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	// wake waiting workers when the time is up
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(500 * time.Millisecond):
				e.cond.Broadcast()
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 20<<30 {
					e.stopF.Store(true)
				}
				if e.opt.verbose {
					e.mu.Lock()
					var sb strings.Builder
					for _, h := range e.runs {
						if len(h.stack)+h.active > 0 && h.started {
							fmt.Fprintf(&sb, " %s:%d/%d", h.name, h.paths, len(h.stack))
						}
					}
					e.mu.Unlock()
					s := sb.String()
					if len(s) > 300 {
						s = s[:300]
					}
					fmt.Fprintf(os.Stderr, "[%5.1fs q=%d]%s\n", time.Since(e.start).Seconds(), e.cnt.queries.Load(), s)
				}
			}
		}
	}()
	wg.Wait()
	close(done)
}

func (e *Explorer) worker() {
	var m *Machine
	defer func() {
		if m != nil {
			m.sol.Close()
		}
	}()
	for {
		h, it := e.next()
		if h == nil {
			return
		}
		if m == nil || m.tb.n > 2000000 || len(m.qcache) > 400000 || m.broken {
			if m != nil {
				e.cnt.solverErrors.Add(int64(m.sol.errors))
				m.sol.Close()
			}
			m = newMachine(e.p, e, e.opt.solverMS)
		}
		t0 := time.Now()
		e.mu.Lock()
		e.cur[m] = h
		e.mu.Unlock()
		kind, msg := e.runPath(m, h, it)
		dt := time.Since(t0)
		e.cnt.paths.Add(1)
		e.cnt.decisions.Add(int64(m.pos))
		e.cnt.forks.Add(int64(len(m.pending)))
		e.cnt.steps.Add(m.steps)
		var w *Witness
		e.mu.Lock()
		h.active--
		h.used += dt
		h.paths++
		h.stack = append(h.stack, m.pending...)
		m.pending = m.pending[:0]
		if m.maxDepth > h.maxDepth {
			h.maxDepth = m.maxDepth
		}
		if m.steps > h.maxSteps {
			h.maxSteps = m.steps
		}
		if len(m.inputs) > h.inputs {
			h.inputs = len(m.inputs)
		}
		switch kind {
		case "":
			h.complete++
			for _, r := range m.reached {
				h.reach[r]++
			}
			// reservoir sample of completed paths, to be run natively
			if m.internal == 0 && len(m.known) == 0 {
				h.seen++
				k := -1
				if len(h.wit) < e.opt.witnesses {
					k = len(h.wit)
					h.wit = append(h.wit, Witness{})
				} else if j := e.rnd.Int63n(h.seen); int(j) < e.opt.witnesses {
					k = int(j)
				}
				if k >= 0 {
					w = &h.wit[k]
				}
			}
		case "assume":
			h.assumed++
			e.cnt.assumed.Add(1)
		case "violation":
		default:
			h.incomp[kind+": "+msg]++
			e.cnt.incom.Add(1)
		}
		for k, n := range m.incomp {
			h.incomp[k] += n
		}
		if w != nil {
			*w = m.witness(h.name)
		}
		e.cond.Broadcast()
		e.mu.Unlock()
	}
}

func (m *Machine) witness(name string) Witness {
	w := Witness{Harness: name}
	for _, in := range m.inputs {
		w.Inputs = append(w.Inputs, InputVal{in.kind, m.tb.Eval(in.t, m.model)})
	}
	for _, o := range m.observes {
		w.Obs = append(w.Obs, o.render(m, m.model))
	}
	return w
}

func (o obsRec) render(m *Machine, mod Model) string {
	var sb strings.Builder
	sb.WriteString(o.label)
	sb.WriteByte('=')
	for _, t := range o.vals {
		if t.w == 8 {
			fmt.Fprintf(&sb, "%02x", m.tb.Eval(t, mod))
		} else {
			fmt.Fprintf(&sb, "%d", m.tb.Eval(t, mod))
		}
	}
	return sb.String()
}

// runPath executes the harness along it's prefix and then on.
func (e *Explorer) runPath(m *Machine, h *harnessRun, it *workItem) (kind, msg string) {
	m.resetPath()
	m.prefix, m.nodes = it.node.list()
	m.model = it.model
	m.node = nil
	m.track = nil
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch x := r.(type) {
		case pathAbort:
			kind, msg = x.kind, x.msg
			if x.kind == "unsupported" || x.kind == "concretise" {
				msg += " (" + m.where() + ")"
			}
			if m.baseMode {
				m.broken = true
				m.baseMode = false
			}
		case *targetPanic:
			if m.baseMode {
				m.broken = true
				m.baseMode = false
				kind, msg = "engine", "panic in package initialisation: "+m.panicText(x)
				return
			}
			kind = "violation"
			if m.pos >= len(m.prefix) {
				m.violation("panic", "panic: "+m.panicText(x), m.model)
			}
		default:
			if m.baseMode {
				m.broken = true
				m.baseMode = false
			}
			kind, msg = "engine", fmt.Sprint(r)+" ("+m.where()+")"
			if e.opt.verbose {
				fmt.Fprintf(os.Stderr, "ENGINE ERROR %v\n%s\n", r, debug.Stack())
			}
		}
	}()
	m.call(h.fn, nil, nil, nil)
	return "", ""
}

func (m *Machine) panicText(tp *targetPanic) string {
	s := "?"
	switch x := tp.v.v.(type) {
	case Str:
		s = x.show()
	case Ptr:
		if x.o != nil && x.o.name != "" {
			s = x.o.name
		} else {
			s = tp.v.ti.String()
			if x.o != nil && len(x.o.cells) > 0 {
				if st, ok := x.o.cells[0].(Str); ok {
					s += " " + st.show()
				}
			}
		}
	default:
		if tp.v.ti != nil {
			s = tp.v.ti.String()
		}
	}
	return s + " at " + tp.pos
}

type covFn struct {
	Name   string
	Blocks int
	Hit    int
}

// coverage lists the repository functions executed symbolically.
func (e *Explorer) coverage() []covFn {
	var r []covFn
	for _, fn := range e.p.fnList {
		if !fn.inRepo || !fn.entered.Load() || fn.isInit {
			continue
		}
		c := covFn{Name: strings.ReplaceAll(fn.name, "github.com/Sereal/Sereal/Go/", ""), Blocks: len(fn.hit)}
		for i := range fn.hit {
			if fn.hit[i].Load() {
				c.Hit++
			}
		}
		r = append(r, c)
	}
	have := map[string]bool{}
	for _, f := range r {
		have[f.Name] = true
	}
	for _, f := range e.more {
		if !have[f.Name] {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}
