package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opc uint8

const (
	iNop opc = iota
	iAlloc
	iBinOp
	iCall
	iCallBuiltin
	iChangeIface
	iMove
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iPhi
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceToArrPtr
	iStore
	iTypeAssert
	iLoad
	iNot
	iNeg
	iCom
	iRecv
	iBad
)

type inst struct {
	op      opc
	tok     token.Token
	commaOk bool
	dst     int32
	a, b, c int32 // operand refs
	n       int
	args    []int32
	ti, ti2 *TI
	x       any
	pos     token.Pos
	ssa     ssa.Instruction
}

type cblk struct {
	idx    int
	ins    []inst
	nphi   int
	succs  []int
	preds  []int
	merge  *mergeInfo
	region map[int]bool
}

type mergeInfo struct {
	join  int // block index, -1 = function exit
	fails int
	ok    bool
}

// Fn is a compiled function.
type Fn struct {
	f        *ssa.Function
	name     string
	nat      func(m *Machine, args []Value) Value
	redirect *Fn
	nregs    int
	consts   []Value
	blocks   []*cblk
	hasDefer bool
	recoverB int
	retTI    *TI
	resTI    []*TI
	compiled bool
	inRepo   bool
	pure     int8 // 0 unknown, 1 pure, 2 impure, 3 computing
	paramTI  []*TI
	hits     int
	short    func(args []Value) (Value, bool) // the result for concrete arguments
	bad      string
	builtin  bool
	isInit   bool
}

const noReg = int32(-1 << 30)

func (m *Machine) fnOf(f *ssa.Function) *Fn {
	if fn, ok := m.fns[f]; ok {
		return fn
	}
	fn := &Fn{f: f, name: f.String(), recoverB: -1}
	m.fns[f] = fn
	if f.Pkg != nil {
		fn.inRepo = m.eng.isRepoPkg(f.Pkg.Pkg.Path()) && !m.eng.isHarnessFunc(f)
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		fn.inRepo = m.eng.isRepoPkg(o.Pkg.Pkg.Path()) && !m.eng.isHarnessFunc(o)
	}
	if f.Name() == "init" && f.Synthetic != "" && f.Pkg != nil && f.Parent() == nil && skipInit(f.Pkg.Pkg.Path()) {
		fn.nat = func(m *Machine, args []Value) Value { return Value{} }
		return fn
	}
	fn.isInit = f.Name() == "init" && f.Synthetic != "" && f.Parent() == nil
	name := fn.name
	if o := f.Origin(); o != nil && o != f {
		name = o.String()
	}
	if nat, ok := natives[name]; ok {
		fn.nat = nat
		return fn
	}
	if m.eng.isSVFunc(f) {
		if nat, ok := svNatives[f.Name()]; ok {
			fn.nat = nat
			return fn
		}
	}
	fn.short = shortcuts[name]
	if rd, ok := redirects[name]; ok {
		t := m.eng.stubPkg.Func(rd)
		if t == nil {
			panic("gosx: stub function missing: " + rd)
		}
		fn.redirect = m.fnOf(t)
	}
	return fn
}

func (m *Machine) compile(fn *Fn) {
	if fn.compiled {
		return
	}
	fn.compiled = true
	f := fn.f
	m.eng.build(f)
	if f.Blocks == nil {
		fn.bad = "no body: " + fn.name
		return
	}
	c := &compiler{m: m, fn: fn, regs: map[ssa.Value]int32{}, ck: map[ssa.Value]int32{}}
	sig := f.Signature
	for _, p := range f.Params {
		c.reg(p)
		fn.paramTI = append(fn.paramTI, m.ti(p.Type()))
	}
	for _, p := range f.FreeVars {
		c.reg(p)
	}
	res := sig.Results()
	for i := 0; i < res.Len(); i++ {
		fn.resTI = append(fn.resTI, m.ti(res.At(i).Type()))
	}
	if res.Len() == 1 {
		fn.retTI = fn.resTI[0]
	} else if res.Len() > 1 {
		fn.retTI = m.ti(res)
	}
	for _, b := range f.Blocks {
		cb := &cblk{idx: b.Index}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := c.instr(in)
			if fn.isInit {
				ci.ssa = in
			}
			if ci.op == iPhi {
				cb.nphi++
			}
			ci.pos = in.Pos()
			if ci.op == iDefer || ci.op == iRunDefers {
				fn.hasDefer = true
			}
			cb.ins = append(cb.ins, ci)
		}
		fn.blocks = append(fn.blocks, cb)
	}
	if f.Recover != nil {
		fn.recoverB = f.Recover.Index
	}
	fn.nregs = len(c.regs)
	m.mergeAnalysis(fn)
}

type compiler struct {
	m    *Machine
	fn   *Fn
	regs map[ssa.Value]int32
	ck   map[ssa.Value]int32
}

func (c *compiler) reg(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := int32(len(c.regs))
	c.regs[v] = r
	return r
}

func (c *compiler) constRef(v Value) int32 {
	c.fn.consts = append(c.fn.consts, v)
	return -int32(len(c.fn.consts))
}

func (c *compiler) op(v ssa.Value) int32 {
	if v == nil {
		return noReg
	}
	switch v := v.(type) {
	case *ssa.Const:
		if r, ok := c.ck[v]; ok {
			return r
		}
		r := c.constRef(c.m.constVal(v))
		c.ck[v] = r
		return r
	case *ssa.Global:
		if r, ok := c.ck[v]; ok {
			return r
		}
		r := c.constRef(Value{p: c.m.global(v)})
		c.ck[v] = r
		return r
	case *ssa.Function:
		if r, ok := c.ck[v]; ok {
			return r
		}
		r := c.constRef(Value{p: c.m.funcVal(v)})
		c.ck[v] = r
		return r
	case *ssa.Builtin:
		return noReg
	}
	return c.reg(v)
}

func (m *Machine) funcVal(f *ssa.Function) *Closure {
	if cl, ok := m.fvals[f]; ok {
		return cl
	}
	if strings.HasSuffix(f.Name(), "$thunk") && f.Signature.Params().Len() > 0 {
		// a method expression denotes the method itself unless it goes through embedding or a pointer
		if o, ok := f.Object().(*types.Func); ok {
			if g := m.eng.prog.FuncValue(o); g != nil && g.Signature.Recv() != nil && g.TypeParams().Len() == 0 &&
				types.Identical(g.Signature.Recv().Type(), f.Signature.Params().At(0).Type()) {
				cl := m.funcVal(g)
				m.fvals[f] = cl
				return cl
			}
		}
	}
	cl := &Closure{fn: m.fnOf(f)}
	m.fvals[f] = cl
	return cl
}

func (m *Machine) constVal(c *ssa.Const) Value {
	ti := m.ti(c.Type())
	if c.Value == nil {
		return zero(ti)
	}
	switch ti.kind {
	case kBool:
		return mkBool(constant.BoolVal(c.Value))
	case kInt:
		cv := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(cv); ok {
			return Value{n: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(cv)
		return Value{n: u & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if ti.w == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			f = float64(f32)
		}
		return mkFl(f)
	case kComplex:
		cc := constant.ToComplex(c.Value)
		re, _ := constant.Float64Val(constant.Real(cc))
		im, _ := constant.Float64Val(constant.Imag(cc))
		return Value{p: complex(re, im)}
	case kString:
		if c.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return mkStr(string(rune(i)))
	case kInvalid: // type parameter
		panic("constVal: type param " + c.String())
	}
	panic(fmt.Sprintf("constVal %s %s", c, ti))
}

func (m *Machine) global(g *ssa.Global) *Obj {
	if o, ok := m.globals[g]; ok {
		return o
	}
	ti := m.ti(g.Type().(*types.Pointer).Elem())
	m.objID++
	o := &Obj{s: make([]Value, ti.slots), epoch: 0, id: m.objID, ti: ti, name: g.String()}
	m.globals[g] = o
	return o
}

func (c *compiler) instr(in ssa.Instruction) inst {
	m := c.m
	r := inst{dst: noReg, a: noReg, b: noReg, c: noReg}
	if v, ok := in.(ssa.Value); ok {
		r.dst = c.reg(v)
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		r.op = iAlloc
		r.ti = m.ti(in.Type().Underlying().(*types.Pointer).Elem())
	case *ssa.BinOp:
		r.op = iBinOp
		r.tok = in.Op
		r.a, r.b = c.op(in.X), c.op(in.Y)
		r.ti = m.ti(in.X.Type())
		r.ti2 = m.ti(in.Y.Type())
	case *ssa.Call:
		c.call(&r, &in.Call, iCall)
	case *ssa.Defer:
		c.call(&r, &in.Call, iDefer)
		if in.DeferStack != nil {
			r.c = c.op(in.DeferStack)
		}
	case *ssa.Go:
		c.call(&r, &in.Call, iGo)
	case *ssa.ChangeInterface:
		r.op = iMove
		r.a = c.op(in.X)
	case *ssa.ChangeType:
		r.op = iMove
		r.a = c.op(in.X)
	case *ssa.Convert:
		r.op = iConvert
		r.a = c.op(in.X)
		r.ti = m.ti(in.X.Type())
		r.ti2 = m.ti(in.Type())
	case *ssa.MultiConvert:
		r.op = iConvert
		r.a = c.op(in.X)
		r.ti = m.ti(in.X.Type())
		r.ti2 = m.ti(in.Type())
	case *ssa.Extract:
		r.op = iExtract
		r.a = c.op(in.Tuple)
		tt := m.ti(in.Tuple.Type())
		if in.Index < len(tt.ft) {
			r.n = tt.foff[in.Index]
			r.ti = tt.ft[in.Index]
		} else {
			r.op = iBad
			r.x = "extract"
		}
	case *ssa.Field:
		r.op = iField
		r.a = c.op(in.X)
		st := m.ti(in.X.Type())
		r.n = st.foff[in.Field]
		r.ti = st.ft[in.Field]
	case *ssa.FieldAddr:
		r.op = iFieldAddr
		r.a = c.op(in.X)
		st := m.ti(in.X.Type().Underlying().(*types.Pointer).Elem())
		r.n = st.foff[in.Field]
		r.ti = st.ft[in.Field]
	case *ssa.If:
		r.op = iIf
		r.a = c.op(in.Cond)
	case *ssa.Index:
		r.op = iIndex
		r.a, r.b = c.op(in.X), c.op(in.Index)
		r.ti = m.ti(in.X.Type())
		r.ti2 = m.ti(in.Index.Type())
	case *ssa.IndexAddr:
		r.op = iIndexAddr
		r.a, r.b = c.op(in.X), c.op(in.Index)
		xt := m.ti(in.X.Type())
		if xt.kind == kPtr {
			xt = m.el(xt)
		}
		r.ti = xt
		r.ti2 = m.ti(in.Index.Type())
	case *ssa.Jump:
		r.op = iJump
	case *ssa.Lookup:
		r.op = iLookup
		r.a, r.b = c.op(in.X), c.op(in.Index)
		r.ti = m.ti(in.X.Type())
		r.ti2 = m.ti(in.Index.Type())
		r.commaOk = in.CommaOk
	case *ssa.MakeChan:
		r.op = iMakeChan
		r.a = c.op(in.Size)
		r.ti = m.ti(in.Type())
	case *ssa.MakeClosure:
		r.op = iMakeClosure
		r.x = m.fnOf(in.Fn.(*ssa.Function))
		for _, b := range in.Bindings {
			r.args = append(r.args, c.op(b))
		}
	case *ssa.MakeInterface:
		r.op = iMakeIface
		r.a = c.op(in.X)
		r.ti = m.ti(in.X.Type())
	case *ssa.MakeMap:
		r.op = iMakeMap
		r.ti = m.ti(in.Type())
		mt := r.ti.u.(*types.Map)
		r.ti = m.ti(mt.Key())
		r.ti2 = m.ti(mt.Elem())
	case *ssa.MakeSlice:
		r.op = iMakeSlice
		r.a, r.b = c.op(in.Len), c.op(in.Cap)
		r.ti = m.ti(in.Type()).elem
	case *ssa.MapUpdate:
		r.op = iMapUpdate
		r.a, r.b, r.c = c.op(in.Map), c.op(in.Key), c.op(in.Value)
	case *ssa.Next:
		r.op = iNext
		r.a = c.op(in.Iter)
		r.ti = m.ti(in.Type())
		r.commaOk = in.IsString
	case *ssa.Panic:
		r.op = iPanic
		r.a = c.op(in.X)
	case *ssa.Phi:
		r.op = iPhi
		for _, e := range in.Edges {
			r.args = append(r.args, c.op(e))
		}
		r.ti = m.ti(in.Type())
	case *ssa.Range:
		r.op = iRange
		r.a = c.op(in.X)
		r.ti = m.ti(in.X.Type())
	case *ssa.Return:
		r.op = iReturn
		for _, e := range in.Results {
			r.args = append(r.args, c.op(e))
		}
	case *ssa.RunDefers:
		r.op = iRunDefers
	case *ssa.Select:
		r.op = iSelect
		r.x = in
		for _, s := range in.States {
			r.args = append(r.args, c.op(s.Chan))
			if s.Send != nil {
				r.args = append(r.args, c.op(s.Send))
			} else {
				r.args = append(r.args, noReg)
			}
		}
		r.ti = m.ti(in.Type())
	case *ssa.Send:
		r.op = iSend
		r.a, r.b = c.op(in.Chan), c.op(in.X)
	case *ssa.Slice:
		r.op = iSlice
		r.a, r.b, r.c = c.op(in.X), c.op(in.Low), c.op(in.High)
		r.n = int(c.op(in.Max))
		r.ti = m.ti(in.X.Type())
	case *ssa.SliceToArrayPointer:
		r.op = iSliceToArrPtr
		r.a = c.op(in.X)
		r.ti = m.el(m.ti(in.Type()))
	case *ssa.Store:
		r.op = iStore
		r.a, r.b = c.op(in.Addr), c.op(in.Val)
		r.ti = m.ti(in.Val.Type())
	case *ssa.TypeAssert:
		r.op = iTypeAssert
		r.a = c.op(in.X)
		r.ti = m.ti(in.AssertedType)
		r.ti2 = m.ti(in.X.Type())
		r.commaOk = in.CommaOk
	case *ssa.UnOp:
		r.a = c.op(in.X)
		r.ti = m.ti(in.Type())
		switch in.Op {
		case token.MUL:
			r.op = iLoad
		case token.NOT:
			r.op = iNot
		case token.SUB:
			r.op = iNeg
		case token.XOR:
			r.op = iCom
		case token.ARROW:
			r.op = iRecv
			r.commaOk = in.CommaOk
		}
	default:
		r.op = iBad
		r.x = fmt.Sprintf("%T", in)
	}
	return r
}

type callInfo struct {
	static  *Fn
	builtin string
	method  *types.Func
	argTI   []*TI
	sig     *types.Signature
	resTI   *TI
	cache   map[*TI]*Fn
}

func (c *compiler) call(r *inst, cc *ssa.CallCommon, op opc) {
	r.op = op
	ci := &callInfo{sig: cc.Signature()}
	r.x = ci
	for _, a := range cc.Args {
		r.args = append(r.args, c.op(a))
	}
	if cc.IsInvoke() {
		ci.method = cc.Method
		ci.cache = map[*TI]*Fn{}
		r.a = c.op(cc.Value)
		return
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		ci.builtin = v.Name()
		for _, a := range cc.Args {
			ci.argTI = append(ci.argTI, c.m.ti(a.Type()))
		}
		if res := cc.Signature().Results(); res.Len() == 1 {
			ci.resTI = c.m.ti(res.At(0).Type())
		}
		if op == iCall {
			r.op = iCallBuiltin
		}
	case *ssa.Function:
		ci.static = c.m.fnOf(v)
	default:
		r.a = c.op(cc.Value)
	}
}

var _ = math.Pi
