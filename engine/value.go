package main

// Run-time representation of Go types and values in the symbolic machine.

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// TI describes a Go type. There is exactly one TI per identical type.
type TI struct {
	id       int
	t        types.Type
	u        types.Type
	kind     reflect.Kind
	slots    int   // cells a value occupies
	w        uint8 // scalar width (0 for bool)
	scalar   bool
	signed   bool
	float    bool
	isRV     bool // reflect.Value
	elemT    types.Type
	elem     atomic.Pointer[TI]
	keyT     types.Type
	key      atomic.Pointer[TI]
	n        int
	fields   []FI
	size     int64
	align    int64
	iface    bool
	byteElem bool
}

type FI struct {
	name    string
	pkgPath string // "" if exported
	ti      *TI
	off     int // slot offset
	boff    int64
	tag     string
	emb     bool
	v       *types.Var
}

var (
	tiMu  sync.Mutex
	tiMap typeutil.Map
	tiAll []*TI
	sizes = types.SizesFor("gc", "amd64")
)

func tiOf(t types.Type) *TI {
	tiMu.Lock()
	defer tiMu.Unlock()
	return tiLocked(t)
}

func tiLocked(t types.Type) *TI {
	t = types.Unalias(t)
	if x := tiMap.At(t); x != nil {
		return x.(*TI)
	}
	ti := &TI{id: len(tiAll), t: t, u: t.Underlying(), slots: 1}
	tiAll = append(tiAll, ti)
	tiMap.Set(t, ti)
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
		ti.kind, ti.isRV, ti.size, ti.align = reflect.Struct, true, 24, 8
		return ti
	}
	switch u := ti.u.(type) {
	case *types.Basic:
		ti.scalar = true
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind, ti.w = reflect.Bool, 0
		case types.Int, types.UntypedInt:
			ti.kind, ti.w, ti.signed = reflect.Int, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.signed = reflect.Int8, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = reflect.Int16, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = reflect.Int32, 32, true
		case types.Int64:
			ti.kind, ti.w, ti.signed = reflect.Int64, 64, true
		case types.Uint:
			ti.kind, ti.w = reflect.Uint, 64
		case types.Uint8:
			ti.kind, ti.w = reflect.Uint8, 8
		case types.Uint16:
			ti.kind, ti.w = reflect.Uint16, 16
		case types.Uint32:
			ti.kind, ti.w = reflect.Uint32, 32
		case types.Uint64:
			ti.kind, ti.w = reflect.Uint64, 64
		case types.Uintptr:
			ti.kind, ti.w = reflect.Uintptr, 64
		case types.Float32:
			ti.kind, ti.w, ti.float = reflect.Float32, 32, true
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w, ti.float = reflect.Float64, 64, true
		case types.Complex64:
			ti.kind, ti.scalar = reflect.Complex64, false
		case types.Complex128:
			ti.kind, ti.scalar = reflect.Complex128, false
		case types.String, types.UntypedString:
			ti.kind, ti.scalar = reflect.String, false
		case types.UnsafePointer:
			ti.kind, ti.scalar = reflect.UnsafePointer, false
		default:
			ti.scalar = false
			ti.kind = reflect.Invalid
		}
	case *types.Pointer:
		ti.kind, ti.elemT = reflect.Ptr, u.Elem()
	case *types.Slice:
		ti.kind, ti.elemT = reflect.Slice, u.Elem()
	case *types.Map:
		ti.kind, ti.elemT, ti.keyT = reflect.Map, u.Elem(), u.Key()
	case *types.Chan:
		ti.kind, ti.elemT = reflect.Chan, u.Elem()
	case *types.Signature:
		ti.kind = reflect.Func
	case *types.Interface:
		ti.kind, ti.iface = reflect.Interface, true
	case *types.Array:
		ti.kind, ti.elemT, ti.n = reflect.Array, u.Elem(), int(u.Len())
		e := tiLocked(u.Elem())
		ti.elem.Store(e)
		ti.slots = e.slots * ti.n
	case *types.Struct:
		ti.kind = reflect.Struct
		ti.slots = 0
		var vars []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			vars = append(vars, u.Field(i))
		}
		offs := sizes.Offsetsof(vars)
		for i, f := range vars {
			ft := tiLocked(f.Type())
			fi := FI{name: f.Name(), ti: ft, off: ti.slots, boff: offs[i], tag: u.Tag(i), emb: f.Embedded(), v: f}
			if !f.Exported() {
				fi.pkgPath = "?"
				if f.Pkg() != nil {
					fi.pkgPath = f.Pkg().Path()
				}
			}
			ti.fields = append(ti.fields, fi)
			ti.slots += ft.slots
		}
	case *types.Tuple:
		ti.kind = reflect.Invalid
		return ti
	default:
		ti.kind = reflect.Invalid
		return ti
	}
	if b, ok := ti.u.(*types.Basic); !ok || (b.Info()&types.IsUntyped == 0 && b.Kind() != types.Invalid) {
		ti.size = sizes.Sizeof(t)
		ti.align = sizes.Alignof(t)
	}
	return ti
}

func (ti *TI) Elem() *TI {
	if e := ti.elem.Load(); e != nil {
		return e
	}
	e := tiOf(ti.elemT)
	ti.elem.Store(e)
	return e
}

func (ti *TI) Key() *TI {
	if e := ti.key.Load(); e != nil {
		return e
	}
	e := tiOf(ti.keyT)
	ti.key.Store(e)
	return e
}

// typeString is what reflect's Type.String prints.
func (ti *TI) String() string {
	return types.TypeString(ti.t, func(p *types.Package) string { return p.Name() })
}

func (ti *TI) Name() string {
	switch t := ti.t.(type) {
	case *types.Named:
		n := t.Obj().Name()
		if t.TypeArgs().Len() > 0 {
			s := ti.String()
			if i := strings.Index(s, n); i >= 0 {
				return s[i:]
			}
		}
		return n
	case *types.Basic:
		return t.Name()
	}
	return ""
}

func (ti *TI) PkgPath() string {
	if t, ok := ti.t.(*types.Named); ok && t.Obj().Pkg() != nil {
		return t.Obj().Pkg().Path()
	}
	return ""
}

// byteOff converts a slot offset inside a value of this type to a byte offset.
func (ti *TI) byteOff(slot int) int64 {
	switch {
	case ti.kind == reflect.Array:
		e := ti.Elem()
		if e.slots == 0 {
			return 0
		}
		return int64(slot/e.slots)*e.size + e.byteOff(slot%e.slots)
	case ti.kind == reflect.Struct && !ti.isRV:
		for i := len(ti.fields) - 1; i >= 0; i-- {
			f := &ti.fields[i]
			if f.off <= slot && f.ti.slots > 0 {
				return f.boff + f.ti.byteOff(slot-f.off)
			}
		}
	}
	return 0
}

// ---- values ----

// Value is one of: *Term (bool, integer, float), Str, Ptr, HdrPtr, Slice, Agg
// (struct or array, flattened), Iface, *MapObj, *Closure, RV (reflect.Value),
// RType (reflect.Type data word), Tuple, *IterV, *Chan.
type Value interface{}

type Obj struct {
	cells []Value
	ti    *TI // element type
	n     int // number of elements
	base  bool
	saved bool
	isStr bool
	addr  uint64
	born  int // thread phase it was created in (race tracking)
	name  string
	acc   *accInfo
}

type Ptr struct {
	o   *Obj
	off int
}

// HdrPtr points to a word (0 data, 1 len, 2 cap) of the string or slice header at p.
type HdrPtr struct {
	p    Ptr
	word int
}

type Str struct {
	o   *Obj
	off int
	n   int
}

type Slice struct {
	o   *Obj
	off int // slot offset
	n   int
	c   int
}

type Agg []Value
type Tuple []Value

type Iface struct {
	ti *TI
	v  Value
}

type MapObj struct {
	ti    *TI
	keys  []Value
	vals  []Value
	base  bool
	saved bool
	idx   map[any]int // of the first idxN keys, those that are concrete
	open  []int       // the others among them
	idxN  int
	addr  uint64
	born  int
	acc   *accInfo
	gen   int
}

type Closure struct {
	fn   *Fn
	bind []Value
	prim func(m *Machine, fr *frame, args []Value) Value // intrinsic closure
	name string
}

type RType struct{ ti *TI }

// RV models reflect.Value.
type RV struct {
	ti   *TI
	p    Ptr
	v    Value
	addr bool // addressable: the value is stored at p
	ro   bool // reached through an unexported field
}

type MapIter struct {
	m     *MapObj
	order []int
	gen   int
	pos   int
	keys  []Value
	cur   int
	init  bool
}

type StrIter struct {
	s   Str
	pos int
}

type Chan struct{}

// control-flow aborts of the machine
type pathAbort struct {
	kind string // "assume", "unsupported", "steps", "depth", "conc", "solver", "stop"
	msg  string
}

type targetPanic struct {
	v   Iface
	pos string
}

func unsupported(f string, a ...interface{}) {
	panic(pathAbort{"unsupported", fmt.Sprintf(f, a...)})
}

// ---- compiled functions ----

type Fn struct {
	f        *ssa.Function
	id       int
	name     string
	nregs    int
	nparams  int
	blocks   []cblock
	consts   []ssa.Value
	hasDefer bool
	recover  int // recover block index or -1
	intr     intrinsic
	intrName string
	inRepo   bool
	isInit   bool
	results  int
	once     sync.Once
	hit      []atomic.Bool // blocks reached
	entered  atomic.Bool
}

type intrinsic func(m *Machine, fr *frame, args []Value) Value

type cblock struct {
	phis  []cphi
	ins   []instr
	preds []int
}

type cphi struct {
	dst  int32
	args []int32
}
