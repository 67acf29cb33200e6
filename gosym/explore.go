package main

// Path exploration: decisions, path conditions, branching, concretisation, merging.

import (
	"fmt"
)

type decKind uint8

const (
	dBranch    decKind = iota // took side b, both sides were feasible
	dForced                   // side b is implied by the path condition (solver verdict)
	dVal                      // value v was chosen (b) or excluded (!b)
	dForcedVal                // value v is implied
	dChoose                   // free choice v
	dMerge                    // result of exploring a call separately
)

type Decision struct {
	kind decKind
	b    bool
	v    uint64
	m    *mergeRec
}

type mergeGroup struct {
	cond *Term
	val  Value
	tp   *targetPanic
}

type mergeRec struct {
	tm     *TermMgr
	ok     bool
	groups []mergeGroup
	fn     string
}

type Item struct {
	prefix []Decision
	model  []uint64
}

type dset [4]uint64

func (d *dset) has(v int) bool { return d[v>>6]>>(uint(v)&63)&1 == 1 }
func (d *dset) set(v int)      { d[v>>6] |= 1 << (uint(v) & 63) }
func (d dset) and(e dset) dset {
	return dset{d[0] & e[0], d[1] & e[1], d[2] & e[2], d[3] & e[3]}
}
func (d dset) andNot(e dset) dset {
	return dset{d[0] &^ e[0], d[1] &^ e[1], d[2] &^ e[2], d[3] &^ e[3]}
}
func (d dset) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d dset) first() int {
	for i := 0; i < 256; i++ {
		if d.has(i) {
			return i
		}
	}
	return -1
}

type logEnt struct {
	kind byte // 'f' fact, 'd' domain, 'm' multi count
	t    *Term
	v    int
	d    dset
	had  bool
}

type pathState struct {
	prefix     []Decision
	pos        int
	trace      []Decision
	pending    []Item
	pc         []*Term
	facts      map[*Term]bool
	doms       map[int]dset
	mult       map[int]int
	multAll    int
	log        []logEnt
	vars       []*Term
	vnames     []string
	model      []uint64
	inSub      int
	merging    bool
	mapOrder   bool
	reverse    bool // map iterations are in reverse order from now on
	nrange     int  // map iterations so far
	observes   []observed
	covers     []string
	nassert    int
	lastReplay bool
}

type observed struct {
	name string
	v    Value
}

func (ps *pathState) reset() {
	*ps = pathState{facts: map[*Term]bool{}, doms: map[int]dset{}, mult: map[int]int{}, merging: true, mapOrder: true}
}

type engineBug string

func (e engineBug) Error() string { return "engine bug: " + string(e) }

// ---- path condition ----

func (in *Interp) addFact(t *Term, v bool) {
	if t.op == ONot {
		t, v = t.a, !v
	}
	if _, ok := in.facts[t]; ok {
		return
	}
	in.facts[t] = v
	in.log = append(in.log, logEnt{kind: 'f', t: t})
	if t.op == OAnd && v {
		in.addFact(t.a, true)
		in.addFact(t.b, true)
	}
	if t.op == OOr && !v {
		in.addFact(t.a, false)
		in.addFact(t.b, false)
	}
}

// support computes the variables of t (up to 4); many is true if there are more.
func (in *Interp) support(t *Term) (s []int32, many bool) {
	if t.suppOK {
		return t.supp, t.suppMany
	}
	switch t.op {
	case OConst:
	case OVar:
		t.supp = []int32{int32(t.k)}
	default:
		var acc []int32
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x == nil {
				continue
			}
			xs, m := in.support(x)
			if m {
				many = true
				break
			}
		next:
			for _, v := range xs {
				for _, u := range acc {
					if u == v {
						continue next
					}
				}
				if len(acc) == 0 && len(xs) == 1 {
					acc = xs
					break
				}
				acc = append(append([]int32(nil), acc...), v)
			}
			if len(acc) > 6 {
				many = true
				break
			}
		}
		if many {
			acc = nil
		}
		t.supp, t.suppMany = acc, many
	}
	t.suppOK = true
	return t.supp, t.suppMany
}

// single returns the variable t depends on if there is exactly one and it has at most 8 bits.
func (in *Interp) single(t *Term) (int, bool) {
	s, many := in.support(t)
	if many || len(s) != 1 {
		return 0, false
	}
	i := int(s[0])
	if i >= len(in.vars) || in.vars[i] == nil || in.vars[i].w > 8 {
		return 0, false
	}
	return i, true
}

func (in *Interp) truth(t *Term, vi int) dset {
	if t.tt != nil && t.ttW == in.vars[vi].w {
		return *t.tt
	}
	var r dset
	full := int(mask(in.vars[vi].w)) + 1
	if in.vars[vi].w == 0 {
		full = 2
	}
	switch t.op {
	case OConst:
		if t.k == 1 {
			for i := 0; i < full; i++ {
				r.set(i)
			}
		}
		return r
	case ONot:
		a := in.truth(t.a, vi)
		var all dset
		for i := 0; i < full; i++ {
			all.set(i)
		}
		r = all.andNot(a)
	case OAnd:
		r = in.truth(t.a, vi).and(in.truth(t.b, vi))
	case OOr:
		a, b := in.truth(t.a, vi), in.truth(t.b, vi)
		r = dset{a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]}
	default:
		if len(in.scratch) <= vi {
			in.scratch = make([]uint64, vi+64)
		}
		for i := 0; i < full; i++ {
			in.scratch[vi] = uint64(i)
			if in.tm.Eval(t, in.scratch) == 1 {
				r.set(i)
			}
		}
		in.scratch[vi] = 0
	}
	t.tt = &r
	t.ttW = in.vars[vi].w
	return r
}

func (in *Interp) domain(vi int) dset {
	if d, ok := in.doms[vi]; ok {
		return d
	}
	var d dset
	full := 1 << in.vars[vi].w
	if in.vars[vi].w == 0 {
		full = 2
	}
	for i := 0; i < full; i++ {
		d.set(i)
	}
	return d
}

func (in *Interp) pushPC(t *Term) {
	if t.isTrue() {
		return
	}
	in.pc = append(in.pc, t)
	in.addFact(t, true)
	in.addDom(t)
}

func (in *Interp) addDom(t *Term) {
	if t.op == OAnd {
		in.addDom(t.a)
		in.addDom(t.b)
		return
	}
	if vi, ok := in.single(t); ok {
		old, had := in.doms[vi]
		d := in.domain(vi).and(in.truth(t, vi))
		in.log = append(in.log, logEnt{kind: 'd', v: vi, d: old, had: had})
		in.doms[vi] = d
		return
	}
	s, many := in.support(t)
	if many {
		in.multAll++
		in.log = append(in.log, logEnt{kind: 'm', v: -1})
		return
	}
	for _, v := range s {
		in.mult[int(v)]++
		in.log = append(in.log, logEnt{kind: 'm', v: int(v)})
	}
}

func (in *Interp) unwind(pcLen, logLen int) {
	for i := len(in.log) - 1; i >= logLen; i-- {
		e := &in.log[i]
		switch e.kind {
		case 'f':
			delete(in.facts, e.t)
		case 'd':
			if e.had {
				in.doms[e.v] = e.d
			} else {
				delete(in.doms, e.v)
			}
		case 'm':
			if e.v < 0 {
				in.multAll--
			} else {
				in.mult[e.v]--
			}
		}
	}
	in.log = in.log[:logLen]
	in.pc = in.pc[:pcLen]
}

// known reports whether the path condition syntactically (or by the domain of a single
// small variable) decides c.
func (in *Interp) known(c *Term) (bool, bool) {
	if c.op == OConst {
		return c.k == 1, true
	}
	neg := false
	if c.op == ONot {
		c, neg = c.a, true
	}
	if v, ok := in.facts[c]; ok {
		return v != neg, true
	}
	if vi, ok := in.single(c); ok {
		d := in.domain(vi)
		tt := in.truth(c, vi)
		if d.and(tt).empty() {
			return neg, true
		}
		if d.andNot(tt).empty() {
			return !neg, true
		}
		return false, false
	}
	switch c.op {
	case OAnd:
		a, ok1 := in.known(c.a)
		if ok1 && !a {
			return neg, true
		}
		b, ok2 := in.known(c.b)
		if ok2 && !b {
			return neg, true
		}
		if ok1 && ok2 {
			return !neg, true
		}
	case OOr:
		a, ok1 := in.known(c.a)
		if ok1 && a {
			return !neg, true
		}
		b, ok2 := in.known(c.b)
		if ok2 && b {
			return !neg, true
		}
		if ok1 && ok2 {
			return neg, true
		}
	}
	return false, false
}

// feasible decides pc && c. When satisfiable it returns a model.
//
// Conditions over one or a few small variables are decided by a complete search through the
// variables' remaining values; a fixed share of those decisions is put to Z3 as well.
func (in *Interp) feasible(c *Term) (SatResult, []uint64) {
	if vi, ok := in.single(c); ok && in.mult[vi] == 0 && in.multAll == 0 {
		d := in.domain(vi).and(in.truth(c, vi))
		in.wk.st.domQ++
		if d.empty() {
			in.crossCheck(c, Unsat)
			return Unsat, nil
		}
		m := make([]uint64, len(in.vars))
		copy(m, in.model)
		m[vi] = uint64(d.first())
		in.crossCheck(c, Sat)
		return Sat, m
	}
	if r, m := in.smallFeasible(c); r != Unknown {
		in.wk.st.domQ++
		in.crossCheck(c, r)
		return r, m
	}
	r := in.z3.Check(in.pc, c, in.vars)
	if r == Unknown {
		in.wk.st.unknown++
	}
	return r, in.z3.model
}

// crossSat and crossUnsat: of how many satisfiable and unsatisfiable answers of the search one is
// put to Z3.
var crossSat, crossUnsat = 256, 64

// crossCheck puts a share of the decisions of the domain search to Z3.
func (in *Interp) crossCheck(c *Term, r SatResult) {
	in.wk.ncross[r]++
	every := crossUnsat
	if r == Sat {
		every = crossSat
	}
	if in.wk.ncross[r]%every != 0 {
		return
	}
	z := in.z3.Check(in.pc, c, in.vars)
	if z == Unknown {
		return
	}
	in.wk.st.crossQ++
	if z != r {
		in.wk.st.crossBad++
		in.wk.note("Z3 disagrees with the domain search: " + c.String())
	}
}

// smallFeasible tries to decide pc && c when it and all constraints connected with it are over
// small variables, by a backtracking search through their values; Unknown if the search is
// not done within a small budget.
func (in *Interp) smallFeasible(c *Term) (SatResult, []uint64) {
	small := func(v int32) bool {
		return int(v) < len(in.vars) && in.vars[v] != nil && in.vars[v].w <= 8
	}
	sup, many := in.support(c)
	if many || len(sup) == 0 {
		return Unknown, nil
	}
	for _, v := range sup {
		if !small(v) {
			return Unknown, nil
		}
	}
	// The constraints on more than one variable.
	var multi []*Term
	for _, t := range in.pc {
		s, m := in.support(t)
		if m {
			return Unknown, nil
		}
		if len(s) > 1 {
			multi = append(multi, t)
		}
	}
	// The connected component of c.
	order := append([]int32(nil), sup...)
	rank := map[int32]int{}
	for i, v := range order {
		rank[v] = i
	}
	used := make([]bool, len(multi))
	for i := 0; i < len(order); i++ {
		for k, t := range multi {
			if used[k] {
				continue
			}
			s, _ := in.support(t)
			hit := false
			for _, v := range s {
				if v == order[i] {
					hit = true
				}
			}
			if !hit {
				continue
			}
			used[k] = true
			for _, v := range s {
				if _, ok := rank[v]; !ok {
					if !small(v) {
						return Unknown, nil
					}
					rank[v] = len(order)
					order = append(order, v)
				}
			}
		}
	}
	// Each constraint is checked once its last variable has a value.
	at := make([][]*Term, len(order))
	place := func(t *Term) {
		s, _ := in.support(t)
		last := 0
		for _, v := range s {
			if rank[v] > last {
				last = rank[v]
			}
		}
		at[last] = append(at[last], t)
	}
	place(c)
	for k, t := range multi {
		if used[k] {
			place(t)
		}
	}
	m := append([]uint64(nil), in.model...)
	for len(m) < len(in.vars) {
		m = append(m, 0)
	}
	budget := 4000
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(order) {
			return true
		}
		vi := order[i]
		d := in.domain(int(vi))
		old := m[vi]
		try := func(v uint64) bool {
			budget--
			if budget < 0 {
				return false
			}
			m[vi] = v
			for _, t := range at[i] {
				if in.tm.Eval(t, m) != 1 {
					return false
				}
			}
			return rec(i + 1)
		}
		if old < 256 && d.has(int(old)) && try(old) {
			return true
		}
		for v := 0; v < 256 && budget >= 0; v++ {
			if uint64(v) != old && d.has(v) && try(uint64(v)) {
				return true
			}
		}
		m[vi] = old
		return false
	}
	if rec(0) {
		return Sat, m
	}
	if budget < 0 {
		return Unknown, nil
	}
	return Unsat, nil
}

func (in *Interp) nextDec(k1, k2 decKind) (Decision, bool) {
	if in.pos >= len(in.prefix) {
		return Decision{}, false
	}
	d := in.prefix[in.pos]
	if in.pos == len(in.prefix)-1 {
		in.lastReplay = true
	}
	if d.kind != k1 && d.kind != k2 {
		panic(engineBug(fmt.Sprintf("replay mismatch: have kind %d, want %d/%d at %d of %d in %s", d.kind, k1, k2, in.pos, len(in.prefix), in.where())))
	}
	in.pos++
	in.trace = append(in.trace, d)
	return d, true
}

func (in *Interp) pend(d Decision, model []uint64) {
	p := make([]Decision, len(in.trace)+1)
	copy(p, in.trace)
	p[len(in.trace)] = d
	in.pending = append(in.pending, Item{p, model})
}

// branch decides which side of c the path takes.
func (in *Interp) branch(c *Term) bool {
	if v, ok := in.known(c); ok {
		return v
	}
	if d, ok := in.nextDec(dBranch, dForced); ok {
		t := c
		if !d.b {
			t = in.tm.Not(c)
		}
		if d.kind == dBranch {
			in.pushPC(t)
		} else {
			in.addFact(t, true)
		}
		return d.b
	}
	in.wk.st.branches++
	in.checkModel()
	mv := in.tm.Eval(c, in.model) == 1
	mine, other := c, in.tm.Not(c)
	if !mv {
		mine, other = other, mine
	}
	r, alt := in.feasible(other)
	switch r {
	case Unsat:
		in.trace = append(in.trace, Decision{kind: dForced, b: mv})
		in.addFact(mine, true)
		return mv
	case Sat:
		in.pend(Decision{kind: dBranch, b: !mv}, alt)
	}
	if profOn {
		in.wk.prof[in.whereShort()]++
	}
	in.trace = append(in.trace, Decision{kind: dBranch, b: mv})
	in.pushPC(mine)
	return mv
}

// concretize picks a value of t; other values are explored on other paths.
func (in *Interp) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.w == 0 {
		if in.branch(t) {
			return 1
		}
		return 0
	}
	// A single small variable with a one-value domain, or an unconditional image, needs no decision.
	if vi, ok := in.single(t); ok {
		d := in.domain(vi)
		first := d.first()
		same := true
		var v uint64
		if first >= 0 {
			if len(in.scratch) <= vi {
				in.scratch = make([]uint64, vi+64)
			}
			for i := first; i < 256 && same; i++ {
				if !d.has(i) {
					continue
				}
				in.scratch[vi] = uint64(i)
				x := in.tm.Eval(t, in.scratch)
				if i == first {
					v = x
				} else if x != v {
					same = false
				}
			}
			in.scratch[vi] = 0
			if same {
				return v
			}
		}
	}
	for {
		d, ok := in.nextDec(dVal, dForcedVal)
		if !ok {
			break
		}
		if d.kind == dForcedVal {
			in.addFact(in.tm.Eq(t, in.tm.Const(t.w, d.v)), true)
			return d.v
		}
		e := in.tm.Eq(t, in.tm.Const(t.w, d.v))
		if d.b {
			in.pushPC(e)
			return d.v
		}
		in.pushPC(in.tm.Not(e))
	}
	in.checkModel()
	v := in.tm.Eval(t, in.model)
	e := in.tm.Eq(t, in.tm.Const(t.w, v))
	if e.isTrue() {
		return v
	}
	in.wk.st.branches++
	r, alt := in.feasible(in.tm.Not(e))
	if r == Unsat {
		in.trace = append(in.trace, Decision{kind: dForcedVal, v: v})
		in.addFact(e, true)
		return v
	}
	if r == Sat {
		in.pend(Decision{kind: dVal, v: v, b: false}, alt)
	}
	if profOn {
		in.wk.prof["concretize "+in.whereShort()]++
	}
	in.trace = append(in.trace, Decision{kind: dVal, v: v, b: true})
	in.pushPC(e)
	return v
}

// checkModel verifies, once after a replay, that the model satisfies the path condition.
func (in *Interp) checkModel() {
	if !in.lastReplay {
		return
	}
	in.lastReplay = false
	for _, t := range in.pc {
		if in.tm.Eval(t, in.model) != 1 {
			panic(engineBug("model does not satisfy the replayed path condition"))
		}
	}
}

// choose makes a free n-way choice.
func (in *Interp) choose(n int) int {
	if d, ok := in.nextDec(dChoose, dChoose); ok {
		return int(d.v)
	}
	for i := n - 1; i > 0; i-- {
		in.pend(Decision{kind: dChoose, v: uint64(i)}, in.model)
	}
	in.trace = append(in.trace, Decision{kind: dChoose, v: 0})
	return 0
}

// newVar creates the next input variable.
func (in *Interp) newVar(w uint8, name string) *Term {
	if in.inSub > 0 {
		panic(mergeAbort{"new input"})
	}
	i := len(in.vars)
	t := in.tm.Var(i, w, name)
	in.vars = append(in.vars, t)
	in.vnames = append(in.vnames, name)
	for len(in.model) <= i {
		in.model = append(append([]uint64(nil), in.model...), 0)
	}
	return t
}

// assume restricts the path to c.
func (in *Interp) assume(c *Term) {
	if v, ok := in.known(c); ok {
		if !v {
			panic(pathInfeasible{})
		}
		return
	}
	if in.inSub > 0 {
		panic(mergeAbort{"assume"})
	}
	if in.tm.Eval(c, in.model) == 1 {
		in.pushPC(c)
		return
	}
	if in.pos < len(in.prefix) {
		panic(engineBug("model does not satisfy an assumption during replay"))
	}
	r, m := in.feasible(c)
	if r != Sat {
		if r == Unknown {
			in.wk.note("assumption undecided")
		}
		panic(pathInfeasible{})
	}
	in.model = m
	in.pushPC(c)
}

// assert checks that c holds for all values on this path.
func (in *Interp) assert(cv Value, msg string) {
	if in.inSub > 0 {
		panic(mergeAbort{"assert"})
	}
	in.nassert++
	if cv.k == KInt {
		if in.pos >= len(in.prefix) {
			in.wk.st.assertConst++
		}
		if cv.u == 0 {
			in.violation(msg, in.model)
		}
		return
	}
	c := cv.p.(*Term)
	if v, ok := in.known(c); ok && v {
		if in.pos >= len(in.prefix) {
			in.wk.st.assertConst++
		}
		return
	}
	if in.pos < len(in.prefix) {
		// already discharged on the path this one was split from
		in.addFact(c, true)
		return
	}
	in.wk.st.assertQ++
	neg := in.tm.Not(c)
	if in.ld.dumpDir != "" {
		in.wk.dumpQuery(in, neg)
	}
	r := in.z3.Check(in.pc, neg, in.vars)
	switch r {
	case Sat:
		in.wk.st.assertSat++
		in.violation(msg, append([]uint64(nil), in.z3.model...))
	case Unknown:
		in.wk.st.unknown++
		in.wk.note("assertion undecided: " + msg)
	}
	in.addFact(c, true)
}

func (in *Interp) violation(msg string, model []uint64) {
	if in.inSub > 0 {
		panic(mergeAbort{"violation"})
	}
	if model == nil {
		model = in.model
	}
	in.wk.candidate(in, msg, model)
	panic(violationStop{})
}

// ---- call-level merging ----

const maxMergeOutcomes = 300
const maxMergeSteps = 4_000_000

// maxMergeRun bounds the steps of a call that may be merged. One that takes more, perhaps because it
// does not end, is run path by path, so that the inputs for which that is so are known.
const maxMergeRun = 20_000_000

type outcome struct {
	conds []*Term
	val   Value
	tp    *targetPanic
}

func (in *Interp) mergedCall(fi *FuncInfo, args []Value, env []Value) (Value, bool) {
	if d, ok := in.nextDec(dMerge, dMerge); ok {
		if !d.m.ok {
			return Value{}, false
		}
		return in.applyMerge(d.m), true
	}
	var rec *mergeRec
	if fi.mfail < 3+fi.mok/4 {
		rec = in.exploreCall(fi, args, env)
	} else {
		rec = &mergeRec{tm: in.tm, fn: fi.name}
	}
	in.trace = append(in.trace, Decision{kind: dMerge, m: rec})
	if !rec.ok {
		fi.mfail++
		return Value{}, false
	}
	fi.mok++
	return in.applyMerge(rec), true
}

func (in *Interp) applyMerge(rec *mergeRec) Value {
	if rec.tm != in.tm {
		imp := newImporter(in.tm)
		r := &mergeRec{tm: in.tm, ok: true, fn: rec.fn}
		for _, g := range rec.groups {
			ng := mergeGroup{tp: g.tp, val: imp.value(g.val)}
			if g.cond != nil {
				ng.cond = imp.term(g.cond)
			}
			r.groups = append(r.groups, ng)
		}
		rec = r
		in.trace[len(in.trace)-1].m = r
	}
	for i := range rec.groups {
		g := &rec.groups[i]
		if i == len(rec.groups)-1 || in.branchV(g.cond) {
			if g.tp != nil {
				c := *g.tp
				panic(&c)
			}
			return g.val
		}
	}
	panic("unreachable")
}

func (in *Interp) exploreCall(fi *FuncInfo, args []Value, env []Value) *mergeRec {
	rec := &mergeRec{tm: in.tm, fn: fi.name}
	// save the enclosing context
	sPrefix, sPos, sTrace, sPending, sModel := in.prefix, in.pos, in.trace, in.pending, in.model
	sSub, sSeq, sCur, sDepth := in.subOn, in.subSeq, in.cur, in.depth
	pcLen, logLen := len(in.pc), len(in.log)
	step0, max0 := in.steps, in.maxStep
	if step0+maxMergeRun < in.maxStep {
		in.maxStep = step0 + maxMergeRun
	}
	in.subOn++
	in.inSub++
	in.subSeq = in.seq
	defer func() {
		in.prefix, in.pos, in.trace, in.pending, in.model = sPrefix, sPos, sTrace, sPending, sModel
		in.subOn, in.subSeq, in.cur, in.depth = sSub, sSeq, sCur, sDepth
		in.inSub--
		in.maxStep = max0
		if !rec.ok {
			in.steps = step0 // the call is run again, path by path
		}
		in.unwind(pcLen, logLen)
	}()
	var outs []outcome
	work := []Item{{nil, in.model}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if len(outs) >= maxMergeOutcomes || in.steps-step0 > maxMergeSteps {
			return rec
		}
		in.prefix, in.pos, in.trace, in.pending, in.model = it.prefix, 0, nil, nil, it.model
		in.cur, in.depth = sCur, sDepth
		in.subSeq = in.seq
		in.unwind(pcLen, logLen)
		var o outcome
		abort := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case *targetPanic:
						o.tp = r
					case mergeAbort:
						abort = true
					case unsupported:
						abort = true
					case stepLimit:
						abort = true
					default:
						panic(r)
					}
				}
			}()
			o.val = in.runFunc(fi, args, env)
		}()
		if abort {
			return rec
		}
		if o.tp == nil && !mergeableVal(o.val) {
			return rec
		}
		o.conds = append([]*Term(nil), in.pc[pcLen:]...)
		outs = append(outs, o)
		work = append(work, in.pending...)
	}
	in.unwind(pcLen, logLen)
	rec.ok = true
	rec.groups = in.groupOutcomes(outs)
	return rec
}

func mergeableVal(v Value) bool {
	switch v.k {
	case KInt, KSym, KStr, KSymStr:
		return true
	case KTuple:
		for _, x := range v.p.([]Value) {
			if !mergeableVal(x) {
				return false
			}
		}
		return true
	}
	return false
}

// shape returns a key such that values with the same key can be merged.
func shape(o *outcome) string {
	if o.tp != nil {
		return "panic:" + o.tp.msg
	}
	return vshape(o.val)
}

func vshape(v Value) string {
	switch v.k {
	case KStr, KSymStr:
		return fmt.Sprintf("s%d", v.strLen())
	case KTuple:
		s := "("
		for _, x := range v.p.([]Value) {
			s += vshape(x) + ","
		}
		return s + ")"
	}
	return "i"
}

func (in *Interp) groupOutcomes(outs []outcome) []mergeGroup {
	m := in.tm
	order := []string{}
	byShape := map[string][]int{}
	for i := range outs {
		s := shape(&outs[i])
		if _, ok := byShape[s]; !ok {
			order = append(order, s)
		}
		byShape[s] = append(byShape[s], i)
	}
	if len(order) == 1 && outs[0].tp == nil {
		idx := make([]int, len(outs))
		for i := range idx {
			idx[i] = i
		}
		return []mergeGroup{{m.tTrue, in.mergeTree(outs, idx, 0), nil}}
	}
	var res []mergeGroup
	for _, s := range order {
		ids := byShape[s]
		cond := m.tFals
		var val Value
		for j, i := range ids {
			c := m.tTrue
			for _, t := range outs[i].conds {
				c = m.And(c, t)
			}
			cond = m.Or(cond, c)
			if outs[i].tp == nil {
				if j == 0 {
					val = outs[i].val
				} else {
					val, _ = in.mergeVal(c, outs[i].val, val)
				}
			}
		}
		res = append(res, mergeGroup{cond, val, outs[ids[0]].tp})
	}
	return res
}

// mergeTree merges outcomes along their decision tree.
func (in *Interp) mergeTree(outs []outcome, idx []int, depth int) Value {
	if len(idx) == 1 {
		return outs[idx[0]].val
	}
	m := in.tm
	o0 := &outs[idx[0]]
	if depth < len(o0.conds) {
		c := o0.conds[depth]
		nc := m.Not(c)
		var yes, no []int
		ok := true
		for _, i := range idx {
			if depth >= len(outs[i].conds) {
				ok = false
				break
			}
			switch outs[i].conds[depth] {
			case c:
				yes = append(yes, i)
			case nc:
				no = append(no, i)
			default:
				ok = false
			}
		}
		if ok {
			if len(no) == 0 {
				return in.mergeTree(outs, yes, depth+1)
			}
			a, b := in.mergeTree(outs, yes, depth+1), in.mergeTree(outs, no, depth+1)
			v, good := in.mergeVal(c, a, b)
			if !good {
				panic(engineBug("merge of same-shape values failed"))
			}
			return v
		}
	}
	// fall back to a chain of conjunctions
	val := outs[idx[len(idx)-1]].val
	for j := len(idx) - 2; j >= 0; j-- {
		c := m.tTrue
		for _, t := range outs[idx[j]].conds[depth:] {
			c = m.And(c, t)
		}
		val, _ = in.mergeVal(c, outs[idx[j]].val, val)
	}
	return val
}

// importer rebuilds terms of another manager in tm.
type importer struct {
	m    *TermMgr
	memo map[*Term]*Term
}

func newImporter(m *TermMgr) *importer { return &importer{m, map[*Term]*Term{}} }

func (im *importer) term(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := im.memo[t]; ok {
		return r
	}
	r := im.m.mk(t.op, t.w, im.term(t.a), im.term(t.b), im.term(t.c), t.k)
	im.memo[t] = r
	return r
}

func (im *importer) value(v Value) Value {
	switch v.k {
	case KSym:
		return vTerm(im.term(v.p.(*Term)))
	case KSymFloat:
		return vSymFloat(im.term(v.p.(*Term)))
	case KSymStr:
		b := v.p.([]Value)
		r := make([]Value, len(b))
		for i := range b {
			r[i] = im.value(b[i])
		}
		return Value{k: KSymStr, p: r}
	case KTuple:
		b := v.p.([]Value)
		r := make([]Value, len(b))
		for i := range b {
			r[i] = im.value(b[i])
		}
		return Value{k: KTuple, p: r}
	}
	return v
}
