package main

// If-conversion: acyclic side-effect-free regions between an If and its join point are
// evaluated on both sides and joined with if-then-else terms instead of forking the path.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type ifRegion struct {
	blocks []int // topological order
	join   int   // -1: every path ends in Return
}

func (fi *FuncInfo) postdoms() {
	if fi.ipdom != nil {
		return
	}
	n := len(fi.blocks)
	exit := n
	// reverse postorder on the reverse graph from exit
	preds := make([][]int, n+1) // successors in the reverse graph = preds
	succs := make([][]int, n+1)
	for i := range fi.blocks {
		for _, s := range fi.blocks[i].succs {
			succs[i] = append(succs[i], s)
			preds[s] = append(preds[s], i)
		}
		if len(fi.blocks[i].succs) == 0 {
			succs[i] = append(succs[i], exit)
			preds[exit] = append(preds[exit], i)
		}
	}
	order := []int{}
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	var dfs func(b int)
	seen := make([]bool, n+1)
	dfs = func(b int) {
		seen[b] = true
		for _, p := range preds[b] {
			if !seen[p] {
				dfs(p)
			}
		}
		num[b] = len(order)
		order = append(order, b)
	}
	dfs(exit)
	ip := make([]int, n+1)
	for i := range ip {
		ip[i] = -1
	}
	ip[exit] = exit
	for changed := true; changed; {
		changed = false
		for k := len(order) - 1; k >= 0; k-- {
			b := order[k]
			if b == exit {
				continue
			}
			nw := -1
			for _, s := range succs[b] {
				if num[s] < 0 || ip[s] < 0 {
					continue
				}
				if nw < 0 {
					nw = s
					continue
				}
				x, y := nw, s
				for x != y {
					for num[x] < num[y] {
						x = ip[x]
					}
					for num[y] < num[x] {
						y = ip[y]
					}
				}
				nw = x
			}
			if nw >= 0 && ip[b] != nw {
				ip[b] = nw
				changed = true
			}
		}
	}
	fi.ipdom = ip
}

func (in *Interp) region(fi *FuncInfo, bi int) *ifRegion {
	cb := &fi.blocks[bi]
	if cb.regOK != 0 {
		return cb.reg
	}
	cb.regOK = -1
	fi.postdoms()
	join := fi.ipdom[bi]
	if join < 0 {
		return nil
	}
	exit := len(fi.blocks)
	state := map[int]int{}
	var order []int
	ok := true
	var dfs func(b int)
	dfs = func(b int) {
		if b == join || !ok {
			return
		}
		if b == bi || state[b] == 1 {
			ok = false // cycle
			return
		}
		if state[b] == 2 {
			return
		}
		state[b] = 1
		if len(state) > 40 {
			ok = false
			return
		}
		for i := range fi.blocks[b].ins {
			if !specAllowed(&fi.blocks[b].ins[i]) {
				ok = false
				return
			}
		}
		for _, s := range fi.blocks[b].succs {
			dfs(s)
		}
		state[b] = 2
		order = append(order, b)
	}
	for _, s := range cb.succs {
		dfs(s)
	}
	if !ok {
		return nil
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	inReg := map[int]bool{bi: true}
	for _, b := range order {
		inReg[b] = true
	}
	for _, b := range order {
		for _, p := range fi.blocks[b].preds {
			if !inReg[p] {
				return nil
			}
		}
		last := fi.blocks[b].ins[len(fi.blocks[b].ins)-1].op
		if last == xReturn && join != exit || last == xPanic {
			return nil
		}
	}
	if join == exit {
		for i := 0; i < fi.fn.Signature.Results().Len(); i++ {
			if !mergeableType(fi.fn.Signature.Results().At(i).Type()) {
				return nil
			}
		}
		if fi.fn.Signature.Results().Len() == 0 {
			return nil
		}
		join = -1
	}
	cb.reg = &ifRegion{order, join}
	cb.regOK = 1
	return cb.reg
}

func specAllowed(ci *cinstr) bool {
	switch ci.op {
	case xNop, xBinOp, xUnOp, xConvert, xChangeType, xChangeInterface, xExtract, xField, xFieldAddr, xIndex, xIndexAddr, xLookup, xPhi, xIf, xJump, xReturn, xSlice:
		return true
	case xCall:
		return true
	}
	return false
}

// specExec evaluates one side-effect-free instruction that cannot panic or fork; it reports
// whether it could.
func (in *Interp) specExec(fr *frame, ci *cinstr) bool {
	switch ci.op {
	case xNop:
		return true
	case xBinOp:
		x, y := fr.get(ci.ops[0]), fr.get(ci.ops[1])
		if x.k == KInvalid || y.k == KInvalid {
			return false
		}
		switch ci.tok {
		case token.QUO, token.REM:
			if y.k != KInt || y.u == 0 {
				return false
			}
		case token.SHL, token.SHR:
			if y.k != KInt || sx(y.u, y.w) < 0 {
				if y.k != KSym || y.p.(*Term).hi >= 1<<(y.w-1) {
					return false
				}
			}
		}
		fr.regs[ci.dst] = in.binop(ci, x, y)
		return true
	case xUnOp:
		x := fr.get(ci.ops[0])
		if ci.tok == token.MUL {
			if x.p == nil {
				return false
			}
			if se, ok := x.p.(*symElem); ok && len(se.elems) > 64 {
				return false
			}
		} else if x.k != KInt && x.k != KSym {
			return false
		}
		fr.regs[ci.dst] = in.unop(ci, x)
		return true
	case xConvert:
		x := fr.get(ci.ops[0])
		if x.k != KInt && x.k != KSym {
			return false
		}
		cv := ci.ins.(*ssa.Convert)
		tb, ok := cv.Type().Underlying().(*types.Basic)
		if !ok {
			return false
		}
		if _, _, ok := intWidth(tb); !ok {
			return false
		}
		fr.regs[ci.dst] = in.convert(ci, x)
		return true
	case xChangeType, xChangeInterface:
		fr.regs[ci.dst] = fr.get(ci.ops[0])
		return true
	case xExtract:
		t, ok := fr.get(ci.ops[0]).p.([]Value)
		if !ok {
			return false
		}
		fr.regs[ci.dst] = t[ci.aux]
		return true
	case xField:
		a, ok := fr.get(ci.ops[0]).p.(*Agg)
		if !ok {
			return false
		}
		fr.regs[ci.dst] = copyVal(a.f[ci.aux])
		return true
	case xFieldAddr:
		p := fr.get(ci.ops[0])
		q, ok := p.p.(*Ptr)
		if !ok || q == nil || q.cell.k != KAgg {
			return false
		}
		fr.regs[ci.dst] = Value{k: KPtr, p: &Ptr{cell: &q.cell.p.(*Agg).f[ci.aux], obj: q.obj}}
		return true
	case xIndex, xLookup, xIndexAddr:
		x, i := fr.get(ci.ops[0]), fr.get(ci.ops[1])
		n := -1
		switch x.k {
		case KStr, KSymStr:
			n = x.strLen()
		case KAgg:
			n = len(x.p.(*Agg).f)
		case KSlice:
			n = len(in.sliceElems(x))
		case KPtr:
			if q, ok := x.p.(*Ptr); ok && q.cell.k == KAgg {
				n = len(q.cell.p.(*Agg).f)
			}
		}
		if n < 0 {
			return false
		}
		switch i.k {
		case KInt:
			if uint64(sx(i.u, i.w)) >= uint64(n) {
				return false
			}
		case KSym:
			t := i.p.(*Term)
			if t.hi >= uint64(n) || n > 64 {
				return false
			}
			if ci.op == xIndexAddr {
				return false
			}
			if x.k == KAgg && !scalarElems(x.p.(*Agg).f) {
				return false
			}
			if ci.op == xLookup || ci.op == xIndex {
				e := []Value(nil)
				if x.k == KAgg {
					e = x.p.(*Agg).f
				} else {
					e = x.strBytes()
				}
				fr.regs[ci.dst] = in.tableTerm(e, t)
				return true
			}
			return false
		default:
			return false
		}
		if ci.op == xIndexAddr {
			fr.regs[ci.dst] = in.indexAddr(x, i, ci)
		} else {
			fr.regs[ci.dst] = in.index(x, i, ci)
		}
		return true
	case xSlice:
		x := fr.get(ci.ops[0])
		if x.k != KStr && x.k != KSymStr {
			return false
		}
		lo, hi := 0, x.strLen()
		for j, p := range []*int{&lo, &hi} {
			if o := ci.ops[1+j]; o != noOp {
				v := fr.get(o)
				if v.k != KInt {
					return false
				}
				*p = int(int64(v.u))
			}
		}
		if lo < 0 || hi < lo || hi > x.strLen() {
			return false
		}
		fr.regs[ci.dst] = x.strSlice(lo, hi)
		return true
	case xCall:
		c := ci.call
		args := make([]Value, c.nargs)
		for i := range args {
			args[i] = fr.get(ci.ops[i+1])
			if args[i].k == KInvalid {
				return false
			}
		}
		switch {
		case c.bi == "len" || c.bi == "cap":
			fr.regs[ci.dst] = in.builtinCall(c.bi, args, ci)
			return true
		case c.fi != nil:
			if c.fi.intr != nil {
				if !pureIntr[c.fi.name] {
					return false
				}
				fr.regs[ci.dst] = c.fi.intr(in, args)
				return true
			}
			v, ok := in.specFunc(c.fi, args)
			if !ok {
				return false
			}
			fr.regs[ci.dst] = v
			return true
		}
		return false
	}
	return false
}

// specFunc evaluates a whole call without forking or side effects, if possible.
func (in *Interp) specFunc(fi *FuncInfo, args []Value) (Value, bool) {
	in.build(fi)
	if fi.noBody || fi.defers || in.specDepth > 6 {
		return Value{}, false
	}
	in.specDepth++
	fr := &frame{fi: fi, regs: make([]Value, fi.nslots), parent: in.cur}
	copy(fr.regs, args)
	in.cur = fr
	defer func() {
		in.cur = fr.parent
		in.specDepth--
	}()
	for n := 0; n < 400; n++ {
		cb := &fi.blocks[fr.block]
		if fr.pc == 0 {
			e := -1
			for i, p := range cb.preds {
				if p == fr.prev {
					e = i
				}
			}
			t := make([]Value, cb.nphi)
			for i := range t {
				t[i] = fr.get(cb.ins[i].ops[e])
			}
			for i := range t {
				fr.regs[cb.ins[i].dst] = t[i]
			}
			fr.pc = cb.nphi
		}
		for ; fr.pc < len(cb.ins)-1; fr.pc++ {
			if !specAllowed(&cb.ins[fr.pc]) || !in.specExec(fr, &cb.ins[fr.pc]) {
				return Value{}, false
			}
			in.steps++
		}
		ci := &cb.ins[len(cb.ins)-1]
		switch ci.op {
		case xReturn:
			return retVal(fr, ci), true
		case xJump:
			fr.prev, fr.block, fr.pc = fr.block, cb.succs[0], 0
		case xIf:
			c := fr.get(ci.ops[0])
			if c.k == KSym {
				if v, ok := in.known(c.p.(*Term)); ok {
					c = vBool(v)
				}
			}
			if c.k == KInt {
				fr.prev = fr.block
				if c.u == 1 {
					fr.block = cb.succs[0]
				} else {
					fr.block = cb.succs[1]
				}
				fr.pc = 0
				continue
			}
			if c.k != KSym {
				return Value{}, false
			}
			v, ret, ok := in.ifConv(fr, cb, c.p.(*Term))
			if !ok {
				return Value{}, false
			}
			if ret {
				return v, true
			}
		default:
			return Value{}, false
		}
	}
	return Value{}, false
}

func retVal(fr *frame, ci *cinstr) Value {
	switch len(ci.ops) {
	case 0:
		return Value{}
	case 1:
		return copyVal(fr.get(ci.ops[0]))
	}
	r := make([]Value, len(ci.ops))
	for i, o := range ci.ops {
		r[i] = copyVal(fr.get(o))
	}
	return Value{k: KTuple, p: r}
}

// ifConvert tries to convert the If ending cb. On success the frame continues at the join.
func (in *Interp) ifConvert(fr *frame, cb *cblock, c *Term) (done bool, ret Value, isRet bool) {
	v, r, ok := in.ifConv(fr, cb, c)
	return ok, v, r
}

type specEdge struct {
	from int
	cond *Term
}

func (in *Interp) ifConv(fr *frame, cb *cblock, c *Term) (Value, bool, bool) {
	fi := fr.fi
	bi := fr.block
	reg := in.region(fi, bi)
	if reg == nil {
		return Value{}, false, false
	}
	return in.ifConv1(fr, cb, c, reg, bi)
}

func (in *Interp) ifConv1(fr *frame, cb *cblock, c *Term, reg *ifRegion, bi int) (Value, bool, bool) {
	fi := fr.fi
	m := in.tm
	edges := map[int][]specEdge{}
	edges[cb.succs[0]] = append(edges[cb.succs[0]], specEdge{bi, c})
	edges[cb.succs[1]] = append(edges[cb.succs[1]], specEdge{bi, m.Not(c)})
	type retEdge struct {
		cond *Term
		v    Value
	}
	var rets []retEdge
	phis := func(b int) bool {
		nb := &fi.blocks[b]
		es := edges[b]
		tmp := make([]Value, nb.nphi)
		for i := 0; i < nb.nphi; i++ {
			ci := &nb.ins[i]
			var v Value
			first := true
			for k := len(es) - 1; k >= 0; k-- {
				e := es[k]
				pi := -1
				for j, p := range nb.preds {
					if p == e.from {
						pi = j
					}
				}
				x := fr.get(ci.ops[pi])
				if first {
					v, first = x, false
					continue
				}
				if (x.k == KInt || x.k == KSym) && (v.k == KInt || v.k == KSym) && x.w == 64 && !in.mergeWide {
					if x.k != v.k || x.k == KInt && x.u != v.u {
						return false
					}
				}
				var ok bool
				if v, ok = in.mergeVal(e.cond, x, v); !ok {
					return false
				}
			}
			tmp[i] = v
		}
		for i := range tmp {
			fr.regs[nb.ins[i].dst] = tmp[i]
		}
		return true
	}
	savePC, savePrev := fr.pc, fr.prev
	fail := func() (Value, bool, bool) {
		fr.pc, fr.prev, fr.block = savePC, savePrev, bi
		return Value{}, false, false
	}
	for _, b := range reg.blocks {
		es := edges[b]
		cond := m.tFals
		for _, e := range es {
			cond = m.Or(cond, e.cond)
		}
		if cond.isFalse() {
			continue
		}
		nb := &fi.blocks[b]
		if !phis(b) {
			return fail()
		}
		fr.block = b
		for i := nb.nphi; i < len(nb.ins)-1; i++ {
			fr.pc = i
			in.steps++
			if !in.specExec(fr, &nb.ins[i]) {
				return fail()
			}
		}
		ci := &nb.ins[len(nb.ins)-1]
		switch ci.op {
		case xJump:
			edges[nb.succs[0]] = append(edges[nb.succs[0]], specEdge{b, cond})
		case xReturn:
			rets = append(rets, retEdge{cond, retVal(fr, ci)})
		case xIf:
			d := fr.get(ci.ops[0])
			if d.k != KInt && d.k != KSym {
				return fail()
			}
			t := d.term(m)
			if v, ok := in.known(t); ok {
				t = m.Bool(v)
			}
			if y := m.And(cond, t); !y.isFalse() {
				edges[nb.succs[0]] = append(edges[nb.succs[0]], specEdge{b, y})
			}
			if n := m.And(cond, m.Not(t)); !n.isFalse() {
				edges[nb.succs[1]] = append(edges[nb.succs[1]], specEdge{b, n})
			}
		default:
			return fail()
		}
	}
	if reg.join < 0 {
		if len(rets) == 0 {
			return fail()
		}
		v := rets[len(rets)-1].v
		for k := len(rets) - 2; k >= 0; k-- {
			var ok bool
			if v, ok = in.mergeVal(rets[k].cond, rets[k].v, v); !ok {
				return fail()
			}
		}
		return v, true, true
	}
	if len(edges[reg.join]) == 0 || !phis(reg.join) {
		return fail()
	}
	fr.prev = -1
	fr.block = reg.join
	fr.pc = fi.blocks[reg.join].nphi
	return Value{}, false, true
}
