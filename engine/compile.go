package main

// Lowering of go/ssa functions to a compact register form.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type iop uint8

const (
	iNop iop = iota
	iAlloc
	iBin
	iUnNot
	iUnNeg
	iUnCom
	iLoad
	iCall
	iInvoke
	iBuiltin
	iCopyReg
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iSliceToArr
	iStore
	iTypeAssert
	iUnsupported
	iMakeChan
)

type instr struct {
	op   iop
	tok  token.Token
	ok   bool
	dst  int32
	a, b int32
	c, d int32
	n    int
	ti   *TI
	ti2  *TI
	args []int32
	fn   *Fn
	x    interface{}
	pos  token.Pos
}

const noOperand = int32(math.MinInt32)

type Program struct {
	prog                                                                 *ssa.Program
	fset                                                                 *token.FileSet
	fnMu                                                                 sync.Mutex
	fns                                                                  map[*ssa.Function]*Fn
	fnList                                                               []*Fn
	gMu                                                                  sync.Mutex
	gIdx                                                                 map[*ssa.Global]int
	rtype                                                                *TI // *reflect.rtype
	tRV                                                                  *TI
	tString, tInt, tByte, tBytes, tAny, tError, tBool, tUint64, tUintptr *TI
	tRuntimeErr                                                          *TI // runtime.errorString
	tTypeAssertErr                                                       *TI
	tValueErr                                                            *TI // *reflect.ValueError
	tStructField                                                         *TI
	tErrorsString                                                        *TI
	tAnyMap                                                              *TI
	bodies                                                               map[*Fn]*Fn
	repoPrefix                                                           string
	msMu                                                                 sync.Mutex
	methCache                                                            map[methKey]*Fn
}

type methKey struct {
	ti *TI
	id string
}

func (p *Program) fnOf(f *ssa.Function) *Fn {
	p.fnMu.Lock()
	fn := p.fns[f]
	if fn == nil {
		fn = &Fn{f: f, id: len(p.fnList), name: fnName(f), recover: -1}
		p.fns[f] = fn
		p.fnList = append(p.fnList, fn)
		fn.isInit = f.Name() == "init" && f.Synthetic != "" && f.Signature.Recv() == nil
		if f.Pkg != nil {
			fn.inRepo = strings.HasPrefix(f.Pkg.Pkg.Path(), p.repoPrefix) && !strings.Contains(f.Pkg.Pkg.Path(), "zzverif")
		} else if f.Origin() != nil && f.Origin().Pkg != nil {
			fn.inRepo = strings.HasPrefix(f.Origin().Pkg.Pkg.Path(), p.repoPrefix) && !strings.Contains(f.Origin().Pkg.Pkg.Path(), "zzverif")
		}
		nm := fn.name
		if f.Origin() != nil {
			nm = fnName(f.Origin())
		}
		fn.intrName = nm
		fn.intr = lookupIntrinsic(nm)
		fn.results = f.Signature.Results().Len()
	}
	p.fnMu.Unlock()
	return fn
}

// fnName: pkgpath.Name or (pkgpath.T).Name or (*pkgpath.T).Name
func fnName(f *ssa.Function) string {
	return f.String()
}

func (p *Program) compile(fn *Fn) {
	fn.once.Do(func() { p.doCompile(fn) })
}

type fcomp struct {
	p    *Program
	fn   *Fn
	reg  map[ssa.Value]int32
	cidx map[ssa.Value]int32
}

func (c *fcomp) operand(v ssa.Value) int32 {
	if v == nil {
		return noOperand
	}
	if r, ok := c.reg[v]; ok {
		return r
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		if i, ok := c.cidx[v]; ok {
			return i
		}
		c.fn.consts = append(c.fn.consts, v)
		i := -int32(len(c.fn.consts))
		c.cidx[v] = i
		return i
	}
	panic(fmt.Sprintf("operand %T %s in %s", v, v, c.fn.name))
}

func (c *fcomp) operands(vs []ssa.Value) []int32 {
	r := make([]int32, len(vs))
	for i, v := range vs {
		r[i] = c.operand(v)
	}
	return r
}

func (p *Program) doCompile(fn *Fn) {
	f := fn.f
	c := &fcomp{p: p, fn: fn, reg: map[ssa.Value]int32{}, cidx: map[ssa.Value]int32{}}
	n := int32(0)
	for _, x := range f.Params {
		c.reg[x] = n
		n++
	}
	fn.nparams = int(n)
	for _, x := range f.FreeVars {
		c.reg[x] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
		}
	}
	fn.nregs = int(n)
	fn.hit = make([]atomic.Bool, len(f.Blocks))
	fn.blocks = make([]cblock, len(f.Blocks))
	if f.Recover != nil {
		fn.recover = f.Recover.Index
	}
	for _, b := range f.Blocks {
		cb := &fn.blocks[b.Index]
		for _, pr := range b.Preds {
			cb.preds = append(cb.preds, pr.Index)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				cb.phis = append(cb.phis, cphi{dst: c.reg[ph], args: c.operands(ph.Edges)})
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := c.instr(in)
			ci.pos = in.Pos()
			if ci.op == iDefer {
				fn.hasDefer = true
			}
			cb.ins = append(cb.ins, ci)
		}
	}
}

func (c *fcomp) call(cc *ssa.CallCommon, ci *instr) {
	p := c.p
	ci.args = c.operands(cc.Args)
	if cc.IsInvoke() {
		ci.op = iInvoke
		ci.a = c.operand(cc.Value)
		ci.x = cc.Method
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		ci.op = iBuiltin
		ci.x = v.Name()
		if len(cc.Args) > 0 {
			ci.ti = tiOf(cc.Args[0].Type())
		}
		if len(cc.Args) > 1 {
			ci.ti2 = tiOf(cc.Args[1].Type())
		}
		return
	case *ssa.Function:
		ci.op = iCall
		ci.fn = p.fnOf(v)
		ci.a = noOperand
		return
	}
	ci.op = iCall
	ci.a = c.operand(cc.Value)
}

func (c *fcomp) instr(in ssa.Instruction) instr {
	var ci instr
	if v, ok := in.(ssa.Value); ok {
		ci.dst = c.reg[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		ci.op = iAlloc
		ci.ti = tiOf(x.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		ci.op = iBin
		ci.tok = x.Op
		ci.a, ci.b = c.operand(x.X), c.operand(x.Y)
		ci.ti, ci.ti2 = tiOf(x.X.Type()), tiOf(x.Y.Type())
		// nil comparisons: use the type of the non-nil side
		if b, ok := x.X.Type().(*types.Basic); ok && b.Kind() == types.UntypedNil {
			ci.ti = ci.ti2
		}
	case *ssa.UnOp:
		ci.a = c.operand(x.X)
		ci.ti = tiOf(x.X.Type())
		switch x.Op {
		case token.NOT:
			ci.op = iUnNot
		case token.SUB:
			ci.op = iUnNeg
		case token.XOR:
			ci.op = iUnCom
		case token.MUL:
			ci.op = iLoad
			ci.ti = tiOf(x.Type())
		default:
			ci.op = iUnsupported
			ci.x = "unop " + x.Op.String()
		}
	case *ssa.Call:
		c.call(&x.Call, &ci)
	case *ssa.ChangeInterface:
		ci.op = iCopyReg
		ci.a = c.operand(x.X)
	case *ssa.ChangeType:
		ci.op = iCopyReg
		ci.a = c.operand(x.X)
	case *ssa.Convert:
		ci.op = iConvert
		ci.a = c.operand(x.X)
		ci.ti, ci.ti2 = tiOf(x.X.Type()), tiOf(x.Type())
	case *ssa.MultiConvert:
		ci.op = iConvert
		ci.a = c.operand(x.X)
		ci.ti, ci.ti2 = tiOf(x.X.Type()), tiOf(x.Type())
	case *ssa.Defer:
		c.call(&x.Call, &ci)
		inner := ci
		ci = instr{op: iDefer, x: &inner}
		if x.DeferStack != nil {
			ci.op = iUnsupported
			ci.x = "defer in range-over-func"
		}
	case *ssa.Extract:
		ci.op = iExtract
		ci.a = c.operand(x.Tuple)
		ci.n = x.Index
	case *ssa.Field:
		ci.op = iField
		ci.a = c.operand(x.X)
		ci.n = x.Field
		ci.ti = tiOf(x.X.Type())
	case *ssa.FieldAddr:
		ci.op = iFieldAddr
		ci.a = c.operand(x.X)
		ci.n = x.Field
		ci.ti = tiOf(x.X.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.If:
		ci.op = iIf
		ci.a = c.operand(x.Cond)
		ci.c, ci.d = int32(x.Block().Succs[0].Index), int32(x.Block().Succs[1].Index)
	case *ssa.Index:
		ci.op = iIndex
		ci.a, ci.b = c.operand(x.X), c.operand(x.Index)
		ci.ti, ci.ti2 = tiOf(x.X.Type()), tiOf(x.Index.Type())
	case *ssa.IndexAddr:
		ci.op = iIndexAddr
		ci.a, ci.b = c.operand(x.X), c.operand(x.Index)
		ci.ti, ci.ti2 = tiOf(x.X.Type()), tiOf(x.Index.Type())
	case *ssa.Jump:
		ci.op = iJump
		ci.c = int32(x.Block().Succs[0].Index)
	case *ssa.Lookup:
		ci.op = iLookup
		ci.a, ci.b = c.operand(x.X), c.operand(x.Index)
		ci.ti, ci.ti2 = tiOf(x.X.Type()), tiOf(x.Index.Type())
		ci.ok = x.CommaOk
	case *ssa.MakeClosure:
		ci.op = iMakeClosure
		ci.fn = c.p.fnOf(x.Fn.(*ssa.Function))
		ci.args = c.operands(x.Bindings)
	case *ssa.MakeInterface:
		ci.op = iMakeIface
		ci.a = c.operand(x.X)
		ci.ti = tiOf(x.X.Type())
	case *ssa.MakeMap:
		ci.op = iMakeMap
		ci.ti = tiOf(x.Type())
		ci.a = c.operand(x.Reserve)
	case *ssa.MakeSlice:
		ci.op = iMakeSlice
		ci.a, ci.b = c.operand(x.Len), c.operand(x.Cap)
		ci.ti = tiOf(x.Type())
		ci.ti2 = tiOf(x.Len.Type())
	case *ssa.MakeChan:
		ci.op = iMakeChan
	case *ssa.MapUpdate:
		ci.op = iMapUpdate
		ci.a, ci.b, ci.c = c.operand(x.Map), c.operand(x.Key), c.operand(x.Value)
	case *ssa.Next:
		ci.op = iNext
		ci.a = c.operand(x.Iter)
		ci.ok = x.IsString
		tt := x.Type().(*types.Tuple)
		if !x.IsString {
			r := x.Iter.(*ssa.Range)
			ci.ti = tiOf(r.X.Type())
		}
		_ = tt
	case *ssa.Panic:
		ci.op = iPanic
		ci.a = c.operand(x.X)
	case *ssa.Range:
		ci.op = iRange
		ci.a = c.operand(x.X)
		ci.ti = tiOf(x.X.Type())
	case *ssa.Return:
		ci.op = iReturn
		ci.args = c.operands(x.Results)
	case *ssa.RunDefers:
		ci.op = iRunDefers
	case *ssa.Slice:
		ci.op = iSlice
		ci.a, ci.b, ci.c, ci.d = c.operand(x.X), c.operand(x.Low), c.operand(x.High), c.operand(x.Max)
		ci.ti = tiOf(x.X.Type())
		ci.args = []int32{0, 0, 0}
		var tis [3]*TI
		for i, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v != nil {
				tis[i] = tiOf(v.Type())
			}
		}
		ci.x = tis
	case *ssa.SliceToArrayPointer:
		ci.op = iSliceToArr
		ci.a = c.operand(x.X)
		ci.ti = tiOf(x.X.Type())
		ci.ti2 = tiOf(x.Type())
	case *ssa.Store:
		ci.op = iStore
		ci.a, ci.b = c.operand(x.Addr), c.operand(x.Val)
		ci.ti = tiOf(x.Val.Type())
	case *ssa.TypeAssert:
		ci.op = iTypeAssert
		ci.a = c.operand(x.X)
		ci.ti = tiOf(x.X.Type())
		ci.ti2 = tiOf(x.AssertedType)
		ci.ok = x.CommaOk
	default:
		ci.op = iUnsupported
		ci.x = fmt.Sprintf("%T", in)
	}
	return ci
}

// constValue materialises an SSA constant.
func (m *Machine) constValue(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Global:
		return Ptr{m.global(x), 0}
	case *ssa.Function:
		return &Closure{fn: m.p.fnOf(x)}
	case *ssa.Builtin:
		return &Closure{name: x.Name()}
	case *ssa.Const:
		ti := tiOf(x.Type())
		if x.Value == nil {
			return m.zero(ti)
		}
		switch {
		case ti.kind == reflect.Interface:
			return m.zero(ti)
		case ti.kind == reflect.String:
			return m.strConst(constant.StringVal(x.Value))
		case ti.kind == reflect.Bool:
			return m.tb.Bool(constant.BoolVal(x.Value))
		case ti.float:
			f, _ := constant.Float64Val(constant.ToFloat(x.Value))
			if ti.w == 32 {
				f32, _ := constant.Float32Val(constant.ToFloat(x.Value))
				return m.tb.Const(uint64(math.Float32bits(f32)), 32)
			}
			return m.tb.Const(math.Float64bits(f), 64)
		case ti.scalar:
			cv := constant.ToInt(x.Value)
			if i, ok := constant.Int64Val(cv); ok {
				return m.tb.Const(uint64(i), ti.w)
			}
			u, _ := constant.Uint64Val(cv)
			return m.tb.Const(u, ti.w)
		case ti.kind == reflect.Complex64 || ti.kind == reflect.Complex128:
			return "complex"
		}
		unsupported("constant %s", x)
	}
	panic("constValue")
}
