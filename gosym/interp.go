package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opcode uint8

const (
	xNop opcode = iota
	xAlloc
	xBinOp
	xUnOp
	xCall
	xGo
	xDefer
	xRunDefers
	xPanic
	xChangeInterface
	xChangeType
	xConvert
	xMakeInterface
	xMakeClosure
	xMakeMap
	xMakeSlice
	xSliceToArrayPtr
	xExtract
	xField
	xFieldAddr
	xIndex
	xIndexAddr
	xLookup
	xMapUpdate
	xRange
	xNext
	xSlice
	xStore
	xTypeAssert
	xPhi
	xIf
	xJump
	xReturn
	xUnsupported
)

type cinstr struct {
	op   opcode
	tok  token.Token
	sgn  bool
	w    uint8
	dst  int32
	ops  []int32
	ins  ssa.Instruction
	typ  types.Type
	aux  int
	call *ccall
}

type ccall struct {
	fn     *ssa.Function // static callee
	fi     *FuncInfo
	bi     string
	invoke *types.Func
	nargs  int
}

type cblock struct {
	ins   []cinstr
	succs []int
	preds []int
	nphi  int
	reg   *ifRegion
	regOK int8 // 0 unknown, 1 yes, -1 no
	hits  int
}

type FuncInfo struct {
	fn      *ssa.Function
	name    string
	slots   map[ssa.Value]int32
	nslots  int
	consts  []Value
	cidx    map[ssa.Value]int32
	blocks  []cblock
	intr    func(in *Interp, args []Value) Value
	built   bool
	defers  bool
	merge   bool // call-level merging is worth trying
	mfail   int
	mok     int
	calls   int
	user    bool
	noBody  bool
	ipdom   []int
	nresult int
}

type deferred struct {
	fn   Value
	call *ccall
	args []Value
	recv *Value
}

type frame struct {
	fi     *FuncInfo
	regs   []Value
	defers []deferred
	block  int
	prev   int
	pc     int
	parent *frame
	// panic state
	panicking *targetPanic
	recovered bool
}

type targetPanic struct {
	val Value
	msg string
	pos string
}

func (p *targetPanic) Error() string { return "target panic: " + p.msg + " at " + p.pos }

// control-flow panics of the engine
type (
	pathInfeasible struct{} // assumption failed
	mergeAbort     struct{ why string }
	stepLimit      struct{}
	violationStop  struct{} // stop this path after a violation
	budgetStop     struct{}
)

type undoRec struct {
	cell *Value
	old  Value
	fn   func()
}

type Interp struct {
	ld      *Loader
	tm      *TermMgr
	z3      *Z3
	prog    *ssa.Program
	infos   map[*ssa.Function]*FuncInfo
	globals map[*ssa.Global]*Ptr
	inited  map[*ssa.Package]bool
	zeros   map[types.Type]Value
	mcache  map[mkey]*ssa.Function
	icache  map[ikey]bool

	seq       uint64
	logSeq    uint64 // objects with seq <= logSeq are undo-logged
	subSeq    uint64 // objects with seq <= subSeq must not be written (merging)
	subOn     int
	frzSeq    uint64
	frzOn     bool
	synced    int  // > 0 inside a lock, an atomic operation or a Once
	orders    bool // explore many orders of map iteration
	undo      []undoRec
	steps     int64
	maxStep   int64
	total     int64
	depth     int
	cur       *frame
	scratch   []uint64
	specDepth int
	mergeWide bool
	tabMemo   map[tabKey]*Term
	runeMemo  map[[4]*Term]*Term
	rtCache   map[*Value]*runTab

	pathState
	wk *Worker
}

type mkey struct {
	t types.Type
	m *types.Func
}
type ikey struct {
	t types.Type
	i types.Type
}

func newInterp(ld *Loader) *Interp {
	in := &Interp{ld: ld, prog: ld.prog, infos: map[*ssa.Function]*FuncInfo{}, globals: map[*ssa.Global]*Ptr{},
		inited: map[*ssa.Package]bool{}, zeros: map[types.Type]Value{}, mcache: map[mkey]*ssa.Function{}, icache: map[ikey]bool{}}
	in.tm = newTermMgr()
	in.tabMemo, in.rtCache, in.runeMemo = map[tabKey]*Term{}, map[*Value]*runTab{}, map[[4]*Term]*Term{}
	in.z3 = newZ3(in.tm, z3Kind)
	in.maxStep = 1 << 40
	in.seq = 1
	in.pathState.reset()
	return in
}

func (in *Interp) newObj(label string) *Obj {
	in.seq++
	return &Obj{seq: in.seq, label: label}
}

func (in *Interp) alloc(v Value, label string) Value {
	in.seq++
	type cellObj struct {
		p Ptr
		o Obj
		v Value
	}
	c := &cellObj{}
	c.v = v
	c.o.seq = in.seq
	c.o.label = label
	c.p.cell = &c.v
	c.p.obj = &c.o
	return Value{k: KPtr, p: &c.p}
}

func (in *Interp) newArr(n int) *Arr {
	in.seq++
	return &Arr{obj: Obj{seq: in.seq}, e: make([]Value, n)}
}

func (in *Interp) mkSlice(e []Value) Value {
	in.seq++
	a := &Arr{obj: Obj{seq: in.seq}, e: e}
	return Value{k: KSlice, p: &Slice{arr: a, off: 0, len: len(e), cap: len(e)}}
}

func (in *Interp) zero(t types.Type) Value {
	v, ok := in.zeros[t]
	if !ok {
		v = zeroValue(t)
		in.zeros[t] = v
	}
	if v.k == KAgg {
		return copyVal(v)
	}
	return v
}

// checkWrite is called before any write to obj.
func (in *Interp) checkWrite(o *Obj) {
	if in.subOn > 0 && o.seq <= in.subSeq {
		panic(mergeAbort{"write"})
	}
	if in.frzOn && in.synced == 0 && o.seq <= in.frzSeq {
		in.violation("write to shared state ("+o.label+") while only reading is allowed, in "+in.where(), nil)
	}
}

func (in *Interp) setCell(cell *Value, o *Obj, v Value) {
	if o.seq <= in.logSeq {
		in.undo = append(in.undo, undoRec{cell: cell, old: *cell})
	}
	*cell = v
}

// assign stores v in cell, keeping aggregate identity.
func (in *Interp) assign(cell *Value, o *Obj, v Value) {
	if v.k == KAgg && cell.k == KAgg {
		d, s := cell.p.(*Agg), v.p.(*Agg)
		if d == s {
			return
		}
		for i := range s.f {
			in.assign(&d.f[i], o, s.f[i])
		}
		return
	}
	if v.k == KAgg {
		v = copyVal(v)
	}
	in.setCell(cell, o, v)
}

func (in *Interp) store(p Value, v Value) {
	if p.p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch q := p.p.(type) {
	case *Ptr:
		in.checkWrite(q.obj)
		in.assign(q.cell, q.obj, v)
	case *symElem:
		i := in.concretize(q.idx)
		in.checkWrite(q.obj)
		in.assign(&q.elems[i], q.obj, v)
	}
}

func (in *Interp) load(p Value) Value {
	if p.p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch q := p.p.(type) {
	case *Ptr:
		if q.cell.k == KAgg {
			return copyVal(*q.cell)
		}
		return *q.cell
	case *symElem:
		return in.tableTerm(q.elems, q.idx)
	}
	panic(unsupported("load"))
}

// symElem is a pointer to an element chosen by a symbolic index.
type symElem struct {
	elems []Value
	idx   *Term
	obj   *Obj
}

// tableTerm builds elems[idx] as a balanced decision tree.
func (in *Interp) tableTerm(elems []Value, idx *Term) Value {
	m := in.tm
	lo, hi := int(idx.lo), len(elems)-1
	if idx.hi < uint64(hi) {
		hi = int(idx.hi)
	}
	// runs of equal values
	type run struct {
		start int
		v     Value
	}
	var runs []run
	for i := lo; i <= hi; i++ {
		v := elems[i]
		if n := len(runs); n > 0 && runs[n-1].v.k == KInt && v.k == KInt && runs[n-1].v.u == v.u {
			continue
		}
		runs = append(runs, run{i, v})
	}
	var build func(a, b int) Value
	build = func(a, b int) Value {
		if a == b {
			return runs[a].v
		}
		mid := (a + b + 1) / 2
		c := m.Cmp(OUlt, idx, m.Const(idx.w, uint64(runs[mid].start)))
		l, r := build(a, mid-1), build(mid, b)
		v, ok := in.mergeVal(c, l, r)
		if !ok {
			panic(unsupported("table of non-scalars"))
		}
		return v
	}
	return build(0, len(runs)-1)
}

func (in *Interp) rollback(mark int) {
	for i := len(in.undo) - 1; i >= mark; i-- {
		u := &in.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.cell = u.old
		}
	}
	in.undo = in.undo[:mark]
}

func (in *Interp) where() string {
	s := ""
	n := 0
	for f := in.cur; f != nil && n < 6; f = f.parent {
		pos := token.NoPos
		if f.block >= 0 && f.block < len(f.fi.blocks) && f.pc < len(f.fi.blocks[f.block].ins) {
			pos = f.fi.blocks[f.block].ins[f.pc].ins.Pos()
		}
		if s != "" {
			s += " < "
		}
		s += f.fi.name
		if pos.IsValid() {
			p := in.prog.Fset.Position(pos)
			s += fmt.Sprintf("(%s:%d)", p.Filename[strings.LastIndex(p.Filename, "/")+1:], p.Line)
		}
		n++
	}
	return s
}

func (in *Interp) rtPanic(msg string) {
	panic(&targetPanic{val: Value{k: KIface, p: &Iface{types.Typ[types.String], vStr("runtime error: " + msg)}}, msg: "runtime error: " + msg, pos: in.where()})
}

// ---- function compilation ----

func (in *Interp) info(fn *ssa.Function) *FuncInfo {
	fi := in.infos[fn]
	if fi == nil {
		fi = &FuncInfo{fn: fn, name: fn.String()}
		in.infos[fn] = fi
		fi.intr = intrinsics[fi.name]
		if fi.intr == nil && fn.Origin() != nil {
			fi.intr = intrinsics[fn.Origin().String()]
		}
		fi.user = fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/google/licensecheck")
		if fn.Pkg == nil && fn.Parent() != nil {
			fi.user = true
		}
	}
	return fi
}

func mergeableType(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intWidth(t); ok {
			return true
		}
		return t.Info()&types.IsString != 0
	}
	return false
}

func (in *Interp) build(fi *FuncInfo) {
	if fi.built {
		return
	}
	fi.built = true
	fn := fi.fn
	if fn.Blocks == nil {
		fi.noBody = true
		return
	}
	fi.slots = map[ssa.Value]int32{}
	fi.cidx = map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		fi.slots[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nslots = int(n)
	res := fn.Signature.Results()
	fi.nresult = res.Len()
	fi.merge = res.Len() > 0
	for i := 0; i < res.Len(); i++ {
		if !mergeableType(res.At(i).Type()) {
			fi.merge = false
		}
	}
	if fn.Signature.Params().Len() == 0 && fn.Signature.Recv() == nil {
		fi.merge = false
	}
	fi.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &fi.blocks[bi]
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			ci := in.compileInstr(fi, i)
			if ci.op == xPhi {
				cb.nphi++
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	if fi.defers {
		fi.merge = false
	}
}

func (in *Interp) ref(fi *FuncInfo, v ssa.Value) int32 {
	if s, ok := fi.slots[v]; ok {
		return s
	}
	if c, ok := fi.cidx[v]; ok {
		return c
	}
	var val Value
	switch v := v.(type) {
	case *ssa.Const:
		val = in.constVal(v)
	case *ssa.Global:
		val = Value{k: KPtr, p: in.global(v)}
	case *ssa.Function:
		val = Value{k: KFunc, p: &Func{fn: v}}
	case *ssa.Builtin:
		val = Value{k: KFunc, p: &Func{bi: v}}
	default:
		panic(unsupported(fmt.Sprintf("operand %T", v)))
	}
	fi.consts = append(fi.consts, val)
	r := int32(-len(fi.consts))
	fi.cidx[v] = r
	return r
}

func (in *Interp) global(g *ssa.Global) *Ptr {
	p := in.globals[g]
	if p == nil {
		et := g.Type().Underlying().(*types.Pointer).Elem()
		v := new(Value)
		*v = zeroValue(et)
		// Globals belong to the base image, whenever they are first touched.
		p = &Ptr{cell: v, obj: &Obj{seq: 1, label: g.String()}}
		in.globals[g] = p
	}
	return p
}

func (in *Interp) constVal(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if c.Value == nil {
		return in.zero(c.Type())
	}
	if b, ok := t.(*types.Basic); ok {
		if w, signed, ok := intWidth(b); ok {
			if w == 0 {
				return vBool(constant.BoolVal(c.Value))
			}
			if signed {
				i, _ := constant.Int64Val(constant.ToInt(c.Value))
				return vInt(w, uint64(i))
			}
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			return vInt(w, u)
		}
		if b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return vFloat(f)
		}
		if b.Info()&types.IsString != 0 {
			return vStr(constant.StringVal(c.Value))
		}
	}
	panic(unsupported("const " + c.String()))
}

func (in *Interp) compileInstr(fi *FuncInfo, i ssa.Instruction) cinstr {
	ci := cinstr{ins: i, dst: -1}
	if v, ok := i.(ssa.Value); ok {
		ci.dst = fi.slots[v]
		ci.typ = v.Type()
	}
	var rands [8]*ssa.Value
	setOps := func() {
		for _, o := range i.Operands(rands[:0]) {
			if *o == nil {
				ci.ops = append(ci.ops, -1<<30)
				continue
			}
			ci.ops = append(ci.ops, in.ref(fi, *o))
		}
	}
	switch x := i.(type) {
	case *ssa.Alloc:
		ci.op = xAlloc
		ci.typ = x.Type().Underlying().(*types.Pointer).Elem()
	case *ssa.BinOp:
		ci.op = xBinOp
		ci.tok = x.Op
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok {
			ci.w, ci.sgn, _ = intWidth(b)
		}
		setOps()
	case *ssa.UnOp:
		ci.op = xUnOp
		ci.tok = x.Op
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok {
			ci.w, ci.sgn, _ = intWidth(b)
		}
		if x.CommaOk {
			ci.aux = 1
		}
		setOps()
	case *ssa.Call:
		ci.op = xCall
		ci.call = in.compileCall(fi, &ci, &x.Call)
	case *ssa.Go:
		ci.op = xGo
	case *ssa.Defer:
		ci.op = xDefer
		fi.defers = true
		ci.call = in.compileCall(fi, &ci, &x.Call)
	case *ssa.RunDefers:
		ci.op = xRunDefers
	case *ssa.Panic:
		ci.op = xPanic
		setOps()
	case *ssa.ChangeInterface:
		ci.op = xChangeInterface
		setOps()
	case *ssa.ChangeType:
		ci.op = xChangeType
		setOps()
	case *ssa.Convert:
		ci.op = xConvert
		setOps()
	case *ssa.MakeInterface:
		ci.op = xMakeInterface
		setOps()
	case *ssa.MakeClosure:
		ci.op = xMakeClosure
		setOps()
	case *ssa.MakeMap:
		ci.op = xMakeMap
	case *ssa.MakeSlice:
		ci.op = xMakeSlice
		setOps()
	case *ssa.SliceToArrayPointer:
		ci.op = xSliceToArrayPtr
		setOps()
	case *ssa.Extract:
		ci.op = xExtract
		ci.aux = x.Index
		setOps()
	case *ssa.Field:
		ci.op = xField
		ci.aux = x.Field
		setOps()
	case *ssa.FieldAddr:
		ci.op = xFieldAddr
		ci.aux = x.Field
		setOps()
	case *ssa.Index:
		ci.op = xIndex
		setOps()
	case *ssa.IndexAddr:
		ci.op = xIndexAddr
		setOps()
	case *ssa.Lookup:
		ci.op = xLookup
		if x.CommaOk {
			ci.aux = 1
		}
		setOps()
	case *ssa.MapUpdate:
		ci.op = xMapUpdate
		setOps()
	case *ssa.Range:
		ci.op = xRange
		setOps()
	case *ssa.Next:
		ci.op = xNext
		if x.IsString {
			ci.aux = 1
		}
		setOps()
	case *ssa.Slice:
		ci.op = xSlice
		ci.ops = nil
		for _, v := range []ssa.Value{x.X, x.Low, x.High, x.Max} {
			if v == nil {
				ci.ops = append(ci.ops, -1<<30)
			} else {
				ci.ops = append(ci.ops, in.ref(fi, v))
			}
		}
	case *ssa.Store:
		ci.op = xStore
		setOps()
	case *ssa.TypeAssert:
		ci.op = xTypeAssert
		if x.CommaOk {
			ci.aux = 1
		}
		ci.typ = x.AssertedType
		setOps()
	case *ssa.Phi:
		ci.op = xPhi
		for _, e := range x.Edges {
			ci.ops = append(ci.ops, in.ref(fi, e))
		}
	case *ssa.If:
		ci.op = xIf
		setOps()
	case *ssa.Jump:
		ci.op = xJump
	case *ssa.Return:
		ci.op = xReturn
		setOps()
	default:
		ci.op = xUnsupported
	}
	return ci
}

func (in *Interp) compileCall(fi *FuncInfo, ci *cinstr, c *ssa.CallCommon) *ccall {
	cc := &ccall{nargs: len(c.Args)}
	if c.IsInvoke() {
		cc.invoke = c.Method
		ci.ops = append(ci.ops, in.ref(fi, c.Value))
	} else {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			cc.bi = v.Name()
			ci.ops = append(ci.ops, -1<<30)
		case *ssa.Function:
			cc.fn = v
			cc.fi = in.info(v)
			ci.ops = append(ci.ops, -1<<30)
		default:
			ci.ops = append(ci.ops, in.ref(fi, c.Value))
		}
	}
	for _, a := range c.Args {
		ci.ops = append(ci.ops, in.ref(fi, a))
	}
	return cc
}

func (f *frame) get(r int32) Value {
	if r >= 0 {
		return f.regs[r]
	}
	return f.fi.consts[-r-1]
}

const noOp = -1 << 30

// ---- calls ----

func (in *Interp) callFunc(f Value, args []Value) Value {
	if f.p == nil {
		in.rtPanic("call of nil function")
	}
	fv := f.p.(*Func)
	if fv.native != nil {
		return fv.native(in, args)
	}
	if fv.bi != nil {
		return in.builtin(fv.bi.Name(), args, nil)
	}
	return in.call(in.info(fv.fn), args, fv.env)
}

func (in *Interp) call(fi *FuncInfo, args []Value, env []Value) Value {
	if fi.intr != nil {
		return fi.intr(in, args)
	}
	if !fi.built {
		if pkg := fi.fn.Pkg; pkg != nil && fi.fn == pkg.Func("init") {
			if !in.initAllowed(pkg) {
				return Value{}
			}
		}
		in.build(fi)
	}
	fi.calls++
	if fi.noBody {
		panic(unsupported("no body: " + fi.name))
	}
	if fi.merge && (fi.user || mergeStd[fi.name]) && in.merging && anySym(args) {
		if v, ok := in.mergedCall(fi, args, env); ok {
			return v
		}
	}
	return in.runFunc(fi, args, env)
}

func anySym(args []Value) bool {
	for i := range args {
		switch args[i].k {
		case KSym, KSymStr:
			return true
		case KSlice:
			if args[i].p != nil {
				s := args[i].p.(*Slice)
				if anySym(s.arr.e[s.off : s.off+s.len]) {
					return true
				}
			}
		case KAgg:
			if anySym(args[i].p.(*Agg).f) {
				return true
			}
		}
	}
	return false
}

func (in *Interp) runFunc(fi *FuncInfo, args []Value, env []Value) (ret Value) {
	in.depth++
	if in.depth > 3000 {
		in.depth = 0
		panic(&targetPanic{msg: "stack overflow (call depth 3000)", pos: in.where()})
	}
	fr := &frame{fi: fi, regs: make([]Value, fi.nslots), parent: in.cur}
	copy(fr.regs, args)
	copy(fr.regs[len(fi.fn.Params):], env)
	in.cur = fr
	if !fi.defers {
		ret = in.exec(fr)
		in.cur = fr.parent
		in.depth--
		return ret
	}
	depth := in.depth
	func() {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				in.cur = fr
				in.depth = depth
				fr.panicking = tp
				in.runDefers(fr)
				if fr.panicking != nil {
					panic(fr.panicking)
				}
				// recovered: run the recover block, which returns the named results
				rb := fi.fn.Recover
				if rb == nil {
					ret = in.zero(fi.fn.Signature.Results())
					if fi.nresult == 1 {
						ret = ret.p.([]Value)[0]
					}
					return
				}
				fr.prev, fr.block, fr.pc = -1, rb.Index, 0
				ret = in.exec(fr)
			}
		}()
		ret = in.exec(fr)
	}()
	in.cur = fr.parent
	in.depth = depth - 1
	return ret
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					in.cur = fr
					fr.panicking = tp
				}
			}()
			in.callDeferred(fr, d)
		}()
	}
}

func (in *Interp) callDeferred(fr *frame, d deferred) {
	c := d.call
	switch {
	case c.bi != "":
		in.builtin(c.bi, d.args, fr)
	case c.invoke != nil:
		in.invoke(*d.recv, c.invoke, d.args)
	case c.fi != nil:
		in.call(c.fi, d.args, nil)
	default:
		in.callFunc(d.fn, d.args)
	}
}

func (in *Interp) invoke(recv Value, m *types.Func, args []Value) Value {
	if recv.p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	i := recv.p.(*Iface)
	k := mkey{i.t, m}
	fn := in.mcache[k]
	if fn == nil {
		in.ld.mu.Lock()
		fn = in.prog.LookupMethod(i.t, m.Pkg(), m.Name())
		in.ld.mu.Unlock()
		if fn == nil {
			panic(unsupported("no method " + m.String()))
		}
		in.mcache[k] = fn
	}
	a := make([]Value, 0, len(args)+1)
	a = append(a, copyVal(i.v))
	a = append(a, args...)
	return in.call(in.info(fn), a, nil)
}

// ---- main loop ----

func (in *Interp) exec(fr *frame) Value {
	fi := fr.fi
	for {
		cb := &fi.blocks[fr.block]
		cb.hits++
		if cb.nphi > 0 && fr.pc == 0 {
			e := -1
			for i, p := range cb.preds {
				if p == fr.prev {
					e = i
					break
				}
			}
			if cb.nphi == 1 {
				fr.regs[cb.ins[0].dst] = copyVal(fr.get(cb.ins[0].ops[e]))
			} else {
				var tmp [8]Value
				t := tmp[:0]
				for i := 0; i < cb.nphi; i++ {
					t = append(t, copyVal(fr.get(cb.ins[i].ops[e])))
				}
				for i := 0; i < cb.nphi; i++ {
					fr.regs[cb.ins[i].dst] = t[i]
				}
			}
			fr.pc = cb.nphi
		}
		if ret, done := in.execBlock(fr, cb); done {
			return ret
		}
	}
}

func (in *Interp) execBlock(fr *frame, cb *cblock) (Value, bool) {
	for ; fr.pc < len(cb.ins); fr.pc++ {
		ci := &cb.ins[fr.pc]
		in.steps++
		if in.steps > in.maxStep {
			panic(stepLimit{})
		}
		switch ci.op {
		case xNop:
		case xAlloc:
			lbl := ""
			fr.regs[ci.dst] = in.alloc(in.zero(ci.typ), lbl)
		case xBinOp:
			fr.regs[ci.dst] = in.binop(ci, fr.get(ci.ops[0]), fr.get(ci.ops[1]))
		case xUnOp:
			fr.regs[ci.dst] = in.unop(ci, fr.get(ci.ops[0]))
		case xCall:
			v := in.doCall(fr, ci)
			fr.regs[ci.dst] = v
		case xDefer:
			d := deferred{call: ci.call}
			for _, o := range ci.ops[1:] {
				d.args = append(d.args, fr.get(o))
			}
			if ci.ops[0] != noOp {
				if ci.call.invoke != nil {
					r := fr.get(ci.ops[0])
					d.recv = &r
				} else {
					d.fn = fr.get(ci.ops[0])
				}
			}
			fr.defers = append(fr.defers, d)
		case xRunDefers:
			in.runDefers(fr)
			if fr.panicking != nil {
				panic(fr.panicking)
			}
		case xPanic:
			v := fr.get(ci.ops[0])
			panic(&targetPanic{val: v, msg: in.describe(v), pos: in.where()})
		case xChangeInterface, xChangeType:
			fr.regs[ci.dst] = fr.get(ci.ops[0])
		case xConvert:
			fr.regs[ci.dst] = in.convert(ci, fr.get(ci.ops[0]))
		case xMakeInterface:
			v := fr.get(ci.ops[0])
			fr.regs[ci.dst] = Value{k: KIface, p: &Iface{ci.ins.(*ssa.MakeInterface).X.Type(), copyVal(v)}}
		case xMakeClosure:
			f := fr.get(ci.ops[0]).p.(*Func)
			env := make([]Value, len(ci.ops)-1)
			for i := range env {
				env[i] = fr.get(ci.ops[i+1])
			}
			fr.regs[ci.dst] = Value{k: KFunc, p: &Func{fn: f.fn, env: env}}
		case xMakeMap:
			in.seq++
			fr.regs[ci.dst] = Value{k: KMap, p: &Map{obj: Obj{seq: in.seq, label: "map"}, idx: map[string]int{}}}
		case xMakeSlice:
			n := in.concInt(fr.get(ci.ops[0]))
			c := in.concInt(fr.get(ci.ops[1]))
			if n < 0 || n > 1<<26 {
				in.rtPanic("makeslice: len out of range")
			}
			if c < n || c > 1<<26 {
				in.rtPanic("makeslice: cap out of range")
			}
			et := ci.typ.Underlying().(*types.Slice).Elem()
			a := in.newArr(c)
			z := in.zero(et)
			for i := range a.e {
				a.e[i] = copyVal(z)
			}
			fr.regs[ci.dst] = Value{k: KSlice, p: &Slice{arr: a, len: n, cap: c}}
		case xExtract:
			fr.regs[ci.dst] = fr.get(ci.ops[0]).p.([]Value)[ci.aux]
		case xField:
			fr.regs[ci.dst] = copyVal(fr.get(ci.ops[0]).p.(*Agg).f[ci.aux])
		case xFieldAddr:
			p := fr.get(ci.ops[0])
			if p.p == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			q, ok := p.p.(*Ptr)
			if !ok { // symbolic element
				se := p.p.(*symElem)
				i := in.concretize(se.idx)
				q = &Ptr{cell: &se.elems[i], obj: se.obj}
			}
			fr.regs[ci.dst] = Value{k: KPtr, p: &Ptr{cell: &q.cell.p.(*Agg).f[ci.aux], obj: q.obj}}
		case xIndex:
			x, i := fr.get(ci.ops[0]), fr.get(ci.ops[1])
			fr.regs[ci.dst] = in.index(x, i, ci)
		case xIndexAddr:
			fr.regs[ci.dst] = in.indexAddr(fr.get(ci.ops[0]), fr.get(ci.ops[1]), ci)
		case xLookup:
			x, k := fr.get(ci.ops[0]), fr.get(ci.ops[1])
			if x.k == KStr || x.k == KSymStr {
				fr.regs[ci.dst] = in.index(x, k, ci)
			} else {
				fr.regs[ci.dst] = in.mapLookup(x, k, ci)
			}
		case xMapUpdate:
			in.mapUpdate(fr.get(ci.ops[0]), fr.get(ci.ops[1]), fr.get(ci.ops[2]))
		case xRange:
			fr.regs[ci.dst] = in.rangeIter(fr.get(ci.ops[0]))
		case xNext:
			fr.regs[ci.dst] = in.next(ci, fr.get(ci.ops[0]))
		case xSlice:
			fr.regs[ci.dst] = in.slice(fr, ci)
		case xStore:
			in.store(fr.get(ci.ops[0]), fr.get(ci.ops[1]))
		case xTypeAssert:
			fr.regs[ci.dst] = in.typeAssert(ci, fr.get(ci.ops[0]))
		case xSliceToArrayPtr:
			panic(unsupported("slice to array pointer"))
		case xIf:
			c := fr.get(ci.ops[0])
			var b bool
			if c.k == KInt {
				b = c.u == 1
			} else {
				t := c.p.(*Term)
				if v, ok := in.known(t); ok {
					b = v
				} else {
					if in.merging {
						if done, v, isRet := in.ifConvert(fr, cb, t); done {
							return v, isRet
						}
					}
					b = in.branch(t)
				}
			}
			fr.prev = fr.block
			if b {
				fr.block = cb.succs[0]
			} else {
				fr.block = cb.succs[1]
			}
			fr.pc = 0
			return Value{}, false
		case xJump:
			fr.prev = fr.block
			fr.block = cb.succs[0]
			fr.pc = 0
			return Value{}, false
		case xReturn:
			switch len(ci.ops) {
			case 0:
				return Value{}, true
			case 1:
				return copyVal(fr.get(ci.ops[0])), true
			}
			r := make([]Value, len(ci.ops))
			for i, o := range ci.ops {
				r[i] = copyVal(fr.get(o))
			}
			return Value{k: KTuple, p: r}, true
		default:
			panic(unsupported(fmt.Sprintf("instruction %T", ci.ins)))
		}
	}
	panic("fell off block")
}

func (in *Interp) doCall(fr *frame, ci *cinstr) Value {
	c := ci.call
	args := make([]Value, c.nargs)
	for i := range args {
		a := fr.get(ci.ops[i+1])
		if a.k == KAgg {
			a = copyVal(a)
		}
		args[i] = a
	}
	switch {
	case c.bi != "":
		if c.bi == "recover" {
			return in.doRecover(fr)
		}
		return in.builtinCall(c.bi, args, ci)
	case c.invoke != nil:
		return in.invoke(fr.get(ci.ops[0]), c.invoke, args)
	case c.fi != nil:
		return in.call(c.fi, args, nil)
	}
	return in.callFunc(fr.get(ci.ops[0]), args)
}

func (in *Interp) doRecover(fr *frame) Value {
	// recover is called by the deferred function fr; the panicking frame is its caller.
	p := fr.parent
	if p != nil && p.panicking != nil {
		v := p.panicking.val
		if v.k != KIface {
			v = Value{k: KIface, p: &Iface{types.Typ[types.String], vStr(p.panicking.msg)}}
		}
		p.panicking = nil
		return v
	}
	return Value{k: KIface}
}

func (in *Interp) describe(v Value) string {
	if v.k == KIface && v.p != nil {
		i := v.p.(*Iface)
		if i.v.k == KStr {
			return i.v.p.(string)
		}
		return i.t.String() + " " + i.v.String()
	}
	return v.String()
}

func (in *Interp) concInt(v Value) int {
	if v.k == KInt {
		return int(sx(v.u, v.w))
	}
	return int(sx(in.concretize(v.p.(*Term)), v.w))
}

// boundsCheck returns whether idx is surely (after branching) in [0,n).
func (in *Interp) symIndexOK(t *Term, n int) {
	c := in.tm.Cmp(OUlt, in.tm.Zext(t, 64), in.tm.Const(64, uint64(n)))
	if t.w < 64 {
		// signed narrow indexes: negative values are out of range too
		c = in.tm.Cmp(OUlt, in.tm.Sext(t, 64), in.tm.Const(64, uint64(n)))
	}
	if !in.branchV(c) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func (in *Interp) branchV(c *Term) bool {
	if c.op == OConst {
		return c.k == 1
	}
	if v, ok := in.known(c); ok {
		return v
	}
	return in.branch(c)
}

func scalarElems(e []Value) bool {
	for i := range e {
		if e[i].k != KInt && e[i].k != KSym {
			return false
		}
	}
	return true
}

// idx64 widens an index term according to its declared signedness.
func (in *Interp) idx64(v Value, signed bool) Value {
	if v.w == 64 {
		return v
	}
	t := v.term(in.tm)
	if signed {
		return vTerm(in.tm.Sext(t, 64))
	}
	return vTerm(in.tm.Zext(t, 64))
}

func idxSigned(ci *cinstr) bool {
	var t types.Type
	switch x := ci.ins.(type) {
	case *ssa.Index:
		t = x.Index.Type()
	case *ssa.IndexAddr:
		t = x.Index.Type()
	case *ssa.Lookup:
		t = x.Index.Type()
	default:
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		_, s, _ := intWidth(b)
		return s
	}
	return true
}

func (in *Interp) index(x, i Value, ci *cinstr) Value {
	i = in.idx64(i, idxSigned(ci))
	if x.k == KAgg {
		e := x.p.(*Agg).f
		if i.k == KInt {
			if i.u >= uint64(len(e)) {
				in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.u), len(e)))
			}
			return copyVal(e[i.u])
		}
		in.symIndexOK(i.p.(*Term), len(e))
		if scalarElems(e) {
			return in.tableTerm(e, i.p.(*Term))
		}
		return copyVal(e[in.concretize(i.p.(*Term))])
	}
	n := x.strLen()
	if i.k == KInt {
		if i.u >= uint64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.u), n))
		}
		return x.strAt(int(i.u))
	}
	in.symIndexOK(i.p.(*Term), n)
	return in.tableTerm(x.strBytes(), i.p.(*Term))
}

func (in *Interp) indexAddr(x, i Value, ci *cinstr) Value {
	i = in.idx64(i, idxSigned(ci))
	var e []Value
	var obj *Obj
	var arr *Arr
	off := 0
	switch x.k {
	case KSlice:
		if x.p != nil {
			s := x.p.(*Slice)
			arr = s.arr
			e, obj, off = s.arr.e[s.off:s.off+s.len], &s.arr.obj, s.off
		}
	case KPtr:
		if x.p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		q, ok := x.p.(*Ptr)
		if !ok {
			panic(unsupported("index through symbolic element"))
		}
		e, obj = q.cell.p.(*Agg).f, q.obj
	default:
		panic(unsupported("indexAddr"))
	}
	if i.k == KInt {
		if i.u >= uint64(len(e)) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.u), len(e)))
		}
		return Value{k: KPtr, p: &Ptr{cell: &e[i.u], obj: obj, arr: arr, idx: off + int(i.u)}}
	}
	t := i.p.(*Term)
	in.symIndexOK(t, len(e))
	if len(e) <= 1024 && scalarElems(e) {
		return Value{k: KPtr, p: &symElem{e, t, obj}}
	}
	j := in.concretize(t)
	return Value{k: KPtr, p: &Ptr{cell: &e[j], obj: obj, arr: arr, idx: off + int(j)}}
}

// ---- maps ----

func (in *Interp) mapFind(mp *Map, k Value) (cands []int, conds []*Term, exact bool) {
	// returns the entries that may equal k, with conditions
	ks, conc := keyStr(k)
	if conc {
		if i, ok := mp.idx[ks]; ok {
			return []int{i}, []*Term{in.tm.tTrue}, true
		}
		if mp.nsym == 0 {
			return nil, nil, true
		}
	}
	for i, e := range mp.ents {
		if e.dead {
			continue
		}
		c := in.eqVal(k, e.k)
		t := c.term(in.tm)
		if t.isFalse() {
			continue
		}
		if v, ok := in.known(t); ok {
			if !v {
				continue
			}
			return []int{i}, []*Term{in.tm.tTrue}, true
		}
		cands = append(cands, i)
		conds = append(conds, t)
	}
	return cands, conds, false
}

func (in *Interp) mapLookup(x, k Value, ci *cinstr) Value {
	lk := ci.ins.(*ssa.Lookup)
	vt := lk.X.Type().Underlying().(*types.Map).Elem()
	commaOk := ci.aux == 1
	ret := func(v Value, ok Value) Value {
		if commaOk {
			return vTuple(v, ok)
		}
		return v
	}
	if x.p == nil {
		return ret(in.zero(vt), vBool(false))
	}
	mp := x.p.(*Map)
	cands, conds, exact := in.mapFind(mp, k)
	if exact {
		if len(cands) == 0 {
			return ret(in.zero(vt), vBool(false))
		}
		return ret(copyVal(mp.ents[cands[0]].v), vBool(true))
	}
	m := in.tm
	// try to merge
	v := in.zero(vt)
	ok := m.tFals
	merged := true
	if len(cands) > 0 && merged {
		v = copyVal(mp.ents[cands[len(cands)-1]].v)
		// value when no entry matches is zero, but it is only used together with ok in practice;
		// keep it exact.
		v2, good := in.mergeVal(conds[len(conds)-1], v, in.zero(vt))
		if !good {
			merged = false
		} else {
			v = v2
			for j := len(cands) - 2; j >= 0 && merged; j-- {
				v, merged = in.mergeVal(conds[j], copyVal(mp.ents[cands[j]].v), v)
			}
		}
		for _, c := range conds {
			ok = m.Or(ok, c)
		}
	}
	if merged {
		return ret(v, vTerm(ok))
	}
	for j, i := range cands {
		if in.branchV(conds[j]) {
			return ret(copyVal(mp.ents[i].v), vBool(true))
		}
	}
	return ret(in.zero(vt), vBool(false))
}

func (in *Interp) mapUpdate(x, k, v Value) {
	if x.p == nil {
		panic(&targetPanic{msg: "assignment to entry in nil map", pos: in.where()})
	}
	mp := x.p.(*Map)
	in.checkWrite(&mp.obj)
	cands, conds, exact := in.mapFind(mp, k)
	log := mp.obj.seq <= in.logSeq
	set := func(i int) {
		e := mp.ents[i]
		if log {
			in.undo = append(in.undo, undoRec{cell: &e.v, old: e.v})
		}
		e.v = copyVal(v)
	}
	if exact && len(cands) == 1 {
		set(cands[0])
		return
	}
	if !exact {
		for j, i := range cands {
			if in.branchV(conds[j]) {
				set(i)
				return
			}
		}
	}
	e := &ment{k: copyVal(k), v: copyVal(v)}
	mp.ents = append(mp.ents, e)
	mp.n++
	ks, conc := keyStr(k)
	if conc {
		mp.idx[ks] = len(mp.ents) - 1
	} else {
		mp.nsym++
	}
	if log {
		in.undo = append(in.undo, undoRec{fn: func() {
			mp.ents = mp.ents[:len(mp.ents)-1]
			mp.n--
			if conc {
				delete(mp.idx, ks)
			} else {
				mp.nsym--
			}
		}})
	}
}

func (in *Interp) mapDelete(x, k Value) {
	if x.p == nil {
		return
	}
	mp := x.p.(*Map)
	in.checkWrite(&mp.obj)
	cands, conds, _ := in.mapFind(mp, k)
	for j, i := range cands {
		if in.branchV(conds[j]) {
			e := mp.ents[i]
			ks, conc := keyStr(e.k)
			e.dead = true
			mp.n--
			if conc {
				delete(mp.idx, ks)
			} else {
				mp.nsym--
			}
			if mp.obj.seq <= in.logSeq {
				in.undo = append(in.undo, undoRec{fn: func() {
					e.dead = false
					mp.n++
					if conc {
						mp.idx[ks] = i
					} else {
						mp.nsym++
					}
				}})
			}
			return
		}
	}
}

type iter struct {
	str  Value
	pos  int
	ents []*ment
}

func (in *Interp) rangeIter(x Value) Value {
	it := &iter{}
	switch x.k {
	case KMap:
		if x.p != nil {
			for _, e := range x.p.(*Map).ents {
				if !e.dead {
					it.ents = append(it.ents, e)
				}
			}
			if len(it.ents) > 1 && in.cur != nil && in.cur.fi.user && in.mapOrder {
				// Go iterates maps in unspecified order: explore two of them, the second one from some
				// iteration of the path on: the first one, or in the harnesses for determinism also
				// number 2, 8, 32 or 128.
				if in.inSub > 0 {
					panic(mergeAbort{"map order"})
				}
				in.nrange++
				if n := in.nrange; !in.reverse && (n == 1 || in.orders && (n == 2 || n == 8 || n == 32 || n == 128)) {
					in.reverse = in.choose(2) == 1
				}
				if in.reverse {
					for i, j := 0, len(it.ents)-1; i < j; i, j = i+1, j-1 {
						it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
					}
				}
			}
		}
	default:
		it.str = x
	}
	return Value{k: KNative, p: it}
}

func (in *Interp) next(ci *cinstr, x Value) Value {
	it := x.p.(*iter)
	if ci.aux == 1 {
		if it.pos >= it.str.strLen() {
			return vTuple(vBool(false), vI64(0), vInt(32, 0))
		}
		r, size := in.decodeRune(it.str.strSlice(it.pos, it.str.strLen()))
		p := it.pos
		it.pos += size
		return vTuple(vBool(true), vI64(p), r)
	}
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return vTuple(vBool(true), copyVal(e.k), copyVal(e.v))
	}
	tt := ci.typ.(*types.Tuple)
	return vTuple(vBool(false), in.zeroOrInvalid(tt.At(1).Type()), in.zeroOrInvalid(tt.At(2).Type()))
}

func (in *Interp) zeroOrInvalid(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return in.zero(t)
}

// ---- slices ----

func (in *Interp) slice(fr *frame, ci *cinstr) Value {
	x := fr.get(ci.ops[0])
	opt := func(i int, def int) int {
		if ci.ops[i] == noOp {
			return def
		}
		return in.concInt(fr.get(ci.ops[i]))
	}
	switch x.k {
	case KStr, KSymStr:
		n := x.strLen()
		lo, hi := opt(1, 0), opt(2, n)
		if hi < 0 || hi > n {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", hi, n))
		}
		if lo < 0 || lo > hi {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi))
		}
		return x.strSlice(lo, hi)
	case KSlice:
		if x.p == nil {
			lo, hi, mx := opt(1, 0), opt(2, 0), opt(3, 0)
			if lo != 0 || hi != 0 || mx != 0 {
				in.rtPanic("slice bounds out of range (nil slice)")
			}
			return x
		}
		s := x.p.(*Slice)
		lo, hi, mx := opt(1, 0), opt(2, s.len), opt(3, s.cap)
		if mx < 0 || mx > s.cap || hi < 0 || hi > mx || lo < 0 || lo > hi {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with length %d capacity %d", lo, hi, mx, s.len, s.cap))
		}
		return Value{k: KSlice, p: &Slice{arr: s.arr, off: s.off + lo, len: hi - lo, cap: mx - lo}}
	case KPtr: // pointer to array
		if x.p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		q := x.p.(*Ptr)
		ag := q.cell.p.(*Agg)
		n := len(ag.f)
		lo, hi, mx := opt(1, 0), opt(2, n), opt(3, n)
		if mx < 0 || mx > n || hi < 0 || hi > mx || lo < 0 || lo > hi {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with array length %d", lo, hi, mx, n))
		}
		a := &Arr{obj: *q.obj, e: ag.f}
		return Value{k: KSlice, p: &Slice{arr: a, off: lo, len: hi - lo, cap: mx - lo}}
	}
	panic(unsupported("slice of kind"))
}

func (in *Interp) appendVals(s Value, add []Value, isByte bool) Value {
	if len(add) == 0 {
		return s
	}
	var sl Slice
	if s.p != nil {
		sl = *s.p.(*Slice)
	}
	need := sl.len + len(add)
	if need <= sl.cap {
		in.checkWrite(&sl.arr.obj)
		for i, v := range add {
			in.assignElem(sl.arr, sl.off+sl.len+i, v)
		}
		return Value{k: KSlice, p: &Slice{arr: sl.arr, off: sl.off, len: need, cap: sl.cap}}
	}
	nc := need
	if 2*sl.cap > nc {
		nc = 2 * sl.cap
	}
	if isByte && nc < 8 {
		nc = 8
	}
	a := in.newArr(nc)
	if sl.arr != nil {
		for i := 0; i < sl.len; i++ {
			a.e[i] = copyVal(sl.arr.e[sl.off+i])
		}
	}
	for i, v := range add {
		a.e[sl.len+i] = copyVal(v)
	}
	// fill the spare capacity with zero values
	if nc > need {
		var z Value
		if isByte {
			z = Value{k: KInt, w: 8}
		} else {
			z = zeroLike(add[0])
		}
		for i := need; i < nc; i++ {
			a.e[i] = copyVal(z)
		}
	}
	return Value{k: KSlice, p: &Slice{arr: a, len: need, cap: nc}}
}

func (in *Interp) assignElem(a *Arr, i int, v Value) {
	if a.e[i].k == KInvalid {
		a.e[i] = zeroLike(v)
	}
	in.assign(&a.e[i], &a.obj, v)
}

func zeroLike(v Value) Value {
	switch v.k {
	case KInt, KSym:
		return Value{k: KInt, w: v.w}
	case KStr, KSymStr:
		return vStr("")
	case KFloat, KSymFloat:
		return vFloat(0)
	case KAgg:
		f := make([]Value, len(v.p.(*Agg).f))
		for i := range f {
			f[i] = zeroLike(v.p.(*Agg).f[i])
		}
		return Value{k: KAgg, p: &Agg{f}}
	}
	return Value{k: v.k}
}

func (in *Interp) sliceElems(s Value) []Value {
	if s.p == nil {
		return nil
	}
	sl := s.p.(*Slice)
	return sl.arr.e[sl.off : sl.off+sl.len]
}

// ---- type assertion ----

func (in *Interp) implements(t, it types.Type) bool {
	k := ikey{t, it}
	if v, ok := in.icache[k]; ok {
		return v
	}
	in.ld.mu.Lock()
	v := types.Implements(t, it.Underlying().(*types.Interface))
	in.ld.mu.Unlock()
	in.icache[k] = v
	return v
}

func (in *Interp) typeAssert(ci *cinstr, x Value) Value {
	ok := false
	var v Value
	if x.p != nil {
		i := x.p.(*Iface)
		if _, isI := ci.typ.Underlying().(*types.Interface); isI {
			if in.implements(i.t, ci.typ) {
				ok, v = true, x
			}
		} else if types.Identical(i.t, ci.typ) {
			ok, v = true, copyVal(i.v)
		}
	}
	if ci.aux == 1 {
		if !ok {
			v = in.zero(ci.typ)
		}
		return vTuple(v, vBool(ok))
	}
	if !ok {
		in.rtPanic("interface conversion: not a " + ci.typ.String())
	}
	return v
}

// ---- operators ----

func (in *Interp) unop(ci *cinstr, x Value) Value {
	m := in.tm
	switch ci.tok {
	case token.MUL:
		return in.load(x)
	case token.NOT:
		if x.k == KInt {
			return vBool(x.u == 0)
		}
		return vTerm(m.Not(x.p.(*Term)))
	case token.SUB:
		if x.k == KFloat || x.k == KSymFloat {
			x = in.concFloat(x)
			return vFloat(-x.float())
		}
		if x.k == KInt {
			return vInt(x.w, -x.u)
		}
		return vTerm(m.Bin(OSub, m.Const(x.w, 0), x.p.(*Term)))
	case token.XOR:
		if x.k == KInt {
			return vInt(x.w, ^x.u)
		}
		return vTerm(m.Bin(OBXor, x.p.(*Term), m.Const(x.w, ^uint64(0))))
	}
	panic(unsupported("unop " + ci.tok.String()))
}

func (in *Interp) binop(ci *cinstr, x, y Value) Value {
	m := in.tm
	if x.k == KInt && y.k == KInt {
		w := x.w
		switch ci.tok {
		case token.ADD:
			return vInt(w, x.u+y.u)
		case token.SUB:
			return vInt(w, x.u-y.u)
		case token.MUL:
			return vInt(w, x.u*y.u)
		case token.EQL:
			return vBool(x.u == y.u)
		case token.NEQ:
			return vBool(x.u != y.u)
		case token.AND:
			return vInt(w, x.u&y.u)
		case token.OR:
			return vInt(w, x.u|y.u)
		case token.XOR:
			return vInt(w, x.u^y.u)
		case token.AND_NOT:
			return vInt(w, x.u&^y.u)
		case token.LSS:
			if ci.sgn {
				return vBool(sx(x.u, w) < sx(y.u, w))
			}
			return vBool(x.u < y.u)
		case token.LEQ:
			if ci.sgn {
				return vBool(sx(x.u, w) <= sx(y.u, w))
			}
			return vBool(x.u <= y.u)
		case token.GTR:
			if ci.sgn {
				return vBool(sx(x.u, w) > sx(y.u, w))
			}
			return vBool(x.u > y.u)
		case token.GEQ:
			if ci.sgn {
				return vBool(sx(x.u, w) >= sx(y.u, w))
			}
			return vBool(x.u >= y.u)
		}
	}
	switch ci.tok {
	case token.EQL, token.NEQ:
		// comparisons with nil of slices, maps, funcs, interfaces
		r := in.eqVal(x, y)
		if ci.tok == token.NEQ {
			if r.k == KInt {
				return vBool(r.u == 0)
			}
			return vTerm(m.Not(r.p.(*Term)))
		}
		return r
	}
	if x.k == KStr || x.k == KSymStr {
		switch ci.tok {
		case token.ADD:
			return strConcat(x, y)
		case token.LSS:
			return vTerm(in.strLess(x, y))
		case token.GTR:
			return vTerm(in.strLess(y, x))
		case token.LEQ:
			return vTerm(m.Not(in.strLess(y, x)))
		case token.GEQ:
			return vTerm(m.Not(in.strLess(x, y)))
		}
		panic(unsupported("string op"))
	}
	if x.k == KSymFloat || y.k == KSymFloat {
		switch ci.tok {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
			return in.floatCmp(ci.tok, x, y)
		}
		x, y = in.concFloat(x), in.concFloat(y)
	}
	if x.k == KFloat {
		a, b := x.float(), y.float()
		switch ci.tok {
		case token.ADD:
			return vFloat(a + b)
		case token.SUB:
			return vFloat(a - b)
		case token.MUL:
			return vFloat(a * b)
		case token.QUO:
			return vFloat(a / b)
		case token.LSS:
			return vBool(a < b)
		case token.LEQ:
			return vBool(a <= b)
		case token.GTR:
			return vBool(a > b)
		case token.GEQ:
			return vBool(a >= b)
		}
		panic(unsupported("float op"))
	}
	if (x.k != KInt && x.k != KSym) || (y.k != KInt && y.k != KSym) {
		panic(unsupported(fmt.Sprintf("binop %s on kinds %d,%d", ci.tok, x.k, y.k)))
	}
	a, b := x.term(m), y.term(m)
	switch ci.tok {
	case token.ADD:
		return vTerm(m.Bin(OAdd, a, b))
	case token.SUB:
		return vTerm(m.Bin(OSub, a, b))
	case token.MUL:
		return vTerm(m.Bin(OMul, a, b))
	case token.QUO, token.REM:
		z := m.Eq(b, m.Const(b.w, 0))
		if in.branchV(z) {
			in.rtPanic("integer divide by zero")
		}
		op := OUDiv
		switch {
		case ci.sgn && ci.tok == token.QUO:
			op = OSDiv
		case ci.sgn:
			op = OSRem
		case ci.tok == token.REM:
			op = OURem
		}
		return vTerm(m.Bin(op, a, b))
	case token.AND:
		if a.w == 0 {
			return vTerm(m.And(a, b))
		}
		return vTerm(m.Bin(OBAnd, a, b))
	case token.OR:
		if a.w == 0 {
			return vTerm(m.Or(a, b))
		}
		return vTerm(m.Bin(OBOr, a, b))
	case token.XOR:
		return vTerm(m.Bin(OBXor, a, b))
	case token.AND_NOT:
		return vTerm(m.Bin(OBAnd, a, m.Bin(OBXor, b, m.Const(b.w, ^uint64(0)))))
	case token.SHL, token.SHR:
		ysgn := false
		if bt, ok := ci.ins.(*ssa.BinOp).Y.Type().Underlying().(*types.Basic); ok {
			_, ysgn, _ = intWidth(bt)
		}
		if ysgn {
			neg := m.Cmp(OSlt, b, m.Const(b.w, 0))
			if in.branchV(neg) {
				in.rtPanic("negative shift amount")
			}
		}
		// bring the count to the width of x, saturating
		var c *Term
		if b.w > a.w {
			big := m.Cmp(OUle, m.Const(b.w, uint64(a.w)), b)
			c = m.Ite(big, m.Const(a.w, uint64(a.w)), m.Extract(b, a.w-1, 0))
		} else {
			c = m.Zext(b, a.w)
		}
		op := OShl
		if ci.tok == token.SHR {
			op = OLshr
			if ci.sgn {
				op = OAshr
			}
		}
		return vTerm(m.Bin(op, a, c))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt, le := OUlt, OUle
		if ci.sgn {
			lt, le = OSlt, OSle
		}
		switch ci.tok {
		case token.LSS:
			return vTerm(m.Cmp(lt, a, b))
		case token.LEQ:
			return vTerm(m.Cmp(le, a, b))
		case token.GTR:
			return vTerm(m.Cmp(lt, b, a))
		default:
			return vTerm(m.Cmp(le, b, a))
		}
	}
	panic(unsupported("binop " + ci.tok.String()))
}

func (in *Interp) strLess(a, b Value) *Term {
	m := in.tm
	na, nb := a.strLen(), b.strLen()
	n := min(na, nb)
	r := m.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := a.strAt(i).term(m), b.strAt(i).term(m)
		r = m.Or(m.Cmp(OUlt, x, y), m.And(m.Eq(x, y), r))
	}
	return r
}

func (in *Interp) convert(ci *cinstr, x Value) Value {
	cv := ci.ins.(*ssa.Convert)
	from, to := cv.X.Type().Underlying(), cv.Type().Underlying()
	m := in.tm
	if fb, ok := from.(*types.Basic); ok {
		fw, fs, fint := intWidth(fb)
		if tb, ok := to.(*types.Basic); ok {
			tw, tsgn, tint := intWidth(tb)
			switch {
			case fint && tint:
				return in.convInt(x, fw, fs, tw)
			case fint && tb.Info()&types.IsFloat != 0:
				if x.k == KSym && fs && tb.Kind() != types.Float32 {
					t := m.Sext(x.p.(*Term), 64)
					if in.branchV(m.Cmp(OUlt, m.Bin(OAdd, t, m.Const(64, 1<<53-1)), m.Const(64, 1<<54-1))) {
						return vSymFloat(t)
					}
				}
				v := in.concInt(x)
				if !fs {
					return vFloat(float64(uint64(v) & mask(fw)))
				}
				if tb.Kind() == types.Float32 {
					return vFloat(float64(float32(v)))
				}
				return vFloat(float64(v))
			case fb.Info()&types.IsFloat != 0 && tint:
				f := in.concFloat(x).float()
				if tsgn {
					return vInt(tw, uint64(int64(f)))
				}
				return vInt(tw, uint64(f))
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
				if tb.Kind() == types.Float32 {
					return vFloat(float64(float32(in.concFloat(x).float())))
				}
				return x
			case fint && tb.Info()&types.IsString != 0:
				if x.k == KInt {
					return vStr(string(rune(sx(x.u, x.w))))
				}
				return in.runeToString(x)
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return x
			case fb.Kind() == types.UnsafePointer || tb.Kind() == types.UnsafePointer:
				return x
			}
		}
		if sl, ok := to.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				b := x.strBytes()
				e := make([]Value, len(b))
				copy(e, b)
				return in.mkSlice(e)
			}
			var e []Value
			for pos := 0; pos < x.strLen(); {
				r, size := in.decodeRune(x.strSlice(pos, x.strLen()))
				e = append(e, r)
				pos += size
			}
			return in.mkSlice(e)
		}
	}
	if sl, ok := from.(*types.Slice); ok {
		if tb, ok := to.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			eb := sl.Elem().Underlying().(*types.Basic)
			e := in.sliceElems(x)
			if eb.Kind() == types.Uint8 {
				b := make([]Value, len(e))
				copy(b, e)
				return mkStr(b)
			}
			r := vStr("")
			for _, v := range e {
				if v.k == KInt {
					r = strConcat(r, vStr(string(rune(sx(v.u, v.w)))))
				} else {
					r = strConcat(r, in.runeToString(v))
				}
			}
			return r
		}
	}
	_ = m
	if _, ok := to.(*types.Pointer); ok {
		return x
	}
	if b, ok := to.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

func (in *Interp) convInt(x Value, fw uint8, fs bool, tw uint8) Value {
	if x.k == KInt {
		if fs {
			return vInt(tw, uint64(sx(x.u, fw)))
		}
		return vInt(tw, x.u)
	}
	m := in.tm
	t := x.p.(*Term)
	switch {
	case tw == fw:
		return x
	case tw < fw:
		return vTerm(m.Extract(t, tw-1, 0))
	case fs:
		return vTerm(m.Sext(t, tw))
	default:
		return vTerm(m.Zext(t, tw))
	}
}

var _ = math.Pi
