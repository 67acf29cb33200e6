package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "github.com/google/licensecheck/internal/verif/sym"

var intrinsics map[string]func(in *Interp, a []Value) Value

// pureIntr lists intrinsics that neither fork nor have side effects.
var pureIntr = map[string]bool{
	"unicode.IsLetter": true, "unicode.IsDigit": true, "unicode.IsUpper": true, "unicode.IsLower": true,
	"unicode.SimpleFold": true, "unicode.ToLower": true, "unicode.ToUpper": true, "unicode.Is": true, "unicode.In": true,
	"unicode.IsSpace": true, "unicode.IsNumber": true, "unicode.IsPunct": true, "unicode.IsMark": true,
	symPkg + ".And": true, symPkg + ".Or": true, symPkg + ".Not": true, symPkg + ".Ite": true, symPkg + ".IteByte": true, symPkg + ".IteRune": true,
	symPkg + ".Eq": true, symPkg + ".Implies": true, symPkg + ".Iff": true,
	symPkg + ".In":  true,
	"strings.Index": true, "strings.IndexByte": true, "bytes.IndexByte": true,
}

// mergeStd lists library functions for which call-level merging is tried.
var mergeStd = map[string]bool{
	"strings.HasPrefix": true, "strings.HasSuffix": true,
	"(*regexp/syntax.Inst).MatchRunePos": true, "(*regexp/syntax.Inst).MatchRune": true,
	"regexp/syntax.IsWordChar": true,
	"strings.EqualFold":        true,
}

// ---- UTF-8 ----

// decodeRune decodes the first rune of the non-empty string s, forking on its encoding class.
func (in *Interp) decodeRune(s Value) (Value, int) {
	n := s.strLen()
	m := in.tm
	bad := vInt(32, utf8.RuneError)
	if n == 0 {
		return bad, 0
	}
	b0 := s.strAt(0)
	if b0.k == KInt {
		if b0.u < 0x80 {
			return vInt(32, b0.u), 1
		}
		conc := true
		var buf []byte
		for i := 0; i < n && i < 4; i++ {
			b := s.strAt(i)
			if b.k != KInt {
				conc = false
				break
			}
			buf = append(buf, byte(b.u))
		}
		if conc || utf8.FullRune(buf) {
			r, size := utf8.DecodeRune(buf)
			return vInt(32, uint64(uint32(r))), size
		}
	}
	t0 := b0.term(m)
	for k := 2; k <= 4 && k <= n; k++ {
		var key [4]*Term
		for i := 0; i < k; i++ {
			if b := s.strAt(i); b.k == KSym {
				key[i] = b.p.(*Term)
			}
		}
		if r, ok := in.runeMemo[key]; ok {
			return vTerm(r), k
		}
	}
	c8 := func(v uint64) *Term { return m.Const(8, v) }
	rng := func(t *Term, lo, hi uint64) *Term {
		return m.And(m.Cmp(OUle, c8(lo), t), m.Cmp(OUle, t, c8(hi)))
	}
	z := func(t *Term, mask uint64, sh uint64) *Term {
		return m.Bin(OShl, m.Zext(m.Bin(OBAnd, t, c8(mask)), 32), m.Const(32, sh))
	}
	if in.branchV(m.Cmp(OUlt, t0, c8(0x80))) {
		return vTerm(m.Zext(t0, 32)), 1
	}
	if in.branchV(rng(t0, 0xC2, 0xDF)) {
		if n < 2 {
			return bad, 1
		}
		t1 := s.strAt(1).term(m)
		if !in.branchV(rng(t1, 0x80, 0xBF)) {
			return bad, 1
		}
		return vTerm(m.Bin(OBOr, z(t0, 0x1F, 6), z(t1, 0x3F, 0))), 2
	}
	if in.branchV(rng(t0, 0xE0, 0xEF)) {
		if n < 3 {
			return bad, 1
		}
		t1, t2 := s.strAt(1).term(m), s.strAt(2).term(m)
		ok := m.And(rng(t1, 0x80, 0xBF), rng(t2, 0x80, 0xBF))
		ok = m.And(ok, m.Or(m.Not(m.Eq(t0, c8(0xE0))), m.Cmp(OUle, c8(0xA0), t1)))
		ok = m.And(ok, m.Or(m.Not(m.Eq(t0, c8(0xED))), m.Cmp(OUle, t1, c8(0x9F))))
		if !in.branchV(ok) {
			return bad, 1
		}
		return vTerm(m.Bin(OBOr, m.Bin(OBOr, z(t0, 0x0F, 12), z(t1, 0x3F, 6)), z(t2, 0x3F, 0))), 3
	}
	if in.branchV(rng(t0, 0xF0, 0xF4)) {
		if n < 4 {
			return bad, 1
		}
		t1, t2, t3 := s.strAt(1).term(m), s.strAt(2).term(m), s.strAt(3).term(m)
		ok := m.And(m.And(rng(t1, 0x80, 0xBF), rng(t2, 0x80, 0xBF)), rng(t3, 0x80, 0xBF))
		ok = m.And(ok, m.Or(m.Not(m.Eq(t0, c8(0xF0))), m.Cmp(OUle, c8(0x90), t1)))
		ok = m.And(ok, m.Or(m.Not(m.Eq(t0, c8(0xF4))), m.Cmp(OUle, t1, c8(0x8F))))
		if !in.branchV(ok) {
			return bad, 1
		}
		return vTerm(m.Bin(OBOr, m.Bin(OBOr, z(t0, 0x07, 18), z(t1, 0x3F, 12)), m.Bin(OBOr, z(t2, 0x3F, 6), z(t3, 0x3F, 0)))), 4
	}
	return bad, 1
}

func (in *Interp) runeToString(x Value) Value {
	m := in.tm
	var t *Term
	if x.w == 32 {
		t = x.term(m)
	} else if x.w > 32 {
		tt := x.term(m)
		if !in.branchV(m.Cmp(OUle, tt, m.Const(x.w, 0x10FFFF))) {
			return vStr("\uFFFD")
		}
		t = m.Extract(tt, 31, 0)
	} else {
		t = m.Zext(x.term(m), 32)
	}
	c := func(v uint64) *Term { return m.Const(32, v) }
	by := func(or uint64, sh uint64, mask uint64) Value {
		return vTerm(m.Bin(OBOr, m.Const(8, or), m.Extract(m.Bin(OBAnd, m.Bin(OLshr, t, c(sh)), c(mask)), 7, 0)))
	}
	if in.branchV(m.Cmp(OUlt, t, c(0x80))) {
		return mkStr([]Value{vTerm(m.Extract(t, 7, 0))})
	}
	if in.branchV(m.Cmp(OUlt, t, c(0x800))) {
		return in.encoded(t, []Value{by(0xC0, 6, 0x1F), by(0x80, 0, 0x3F)})
	}
	bad := m.Or(m.Cmp(OUlt, c(0x10FFFF), t), m.And(m.Cmp(OUle, c(0xD800), t), m.Cmp(OUlt, t, c(0xE000))))
	if in.branchV(bad) {
		return vStr("\uFFFD")
	}
	if in.branchV(m.Cmp(OUlt, t, c(0x10000))) {
		return in.encoded(t, []Value{by(0xE0, 12, 0x0F), by(0x80, 6, 0x3F), by(0x80, 0, 0x3F)})
	}
	return in.encoded(t, []Value{by(0xF0, 18, 0x07), by(0x80, 12, 0x3F), by(0x80, 6, 0x3F), by(0x80, 0, 0x3F)})
}

// ---- unicode tables ----

type runTab struct {
	start []uint32
	val   []uint32 // boolean or delta
	delta bool
	rt    *rtab
}

var runTabs = map[string]*runTab{}

func init() {
	pred := func(name string, f func(rune) bool) {
		t := &runTab{}
		for r := rune(0); r <= unicode.MaxRune+1; r++ {
			v := uint32(0)
			if f(r) {
				v = 1
			}
			if len(t.val) == 0 || t.val[len(t.val)-1] != v {
				t.start = append(t.start, uint32(r))
				t.val = append(t.val, v)
			}
		}
		t.rtab()
		runTabs[name] = t
	}
	mp := func(name string, f func(rune) rune) {
		t := &runTab{delta: true}
		for r := rune(0); r <= unicode.MaxRune+1; r++ {
			v := uint32(f(r) - r)
			if len(t.val) == 0 || t.val[len(t.val)-1] != v {
				t.start = append(t.start, uint32(r))
				t.val = append(t.val, v)
			}
		}
		t.rtab()
		runTabs[name] = t
	}
	pred("unicode.IsLetter", unicode.IsLetter)
	pred("unicode.IsDigit", unicode.IsDigit)
	pred("unicode.IsUpper", unicode.IsUpper)
	pred("unicode.IsLower", unicode.IsLower)
	pred("unicode.IsSpace", unicode.IsSpace)
	pred("unicode.IsNumber", unicode.IsNumber)
	pred("unicode.IsPunct", unicode.IsPunct)
	pred("unicode.IsMark", unicode.IsMark)
	mp("unicode.SimpleFold", unicode.SimpleFold)
	mp("unicode.ToLower", unicode.ToLower)
	mp("unicode.ToUpper", unicode.ToUpper)
}

type tabKey struct {
	name string
	t    *Term
}

// tabTerm applies a table to the rune term t (32 bits).
func (in *Interp) tabTerm(name string, tab *runTab, t *Term) *Term {
	k := tabKey{name, t}
	if r, ok := in.tabMemo[k]; ok {
		return r
	}
	r := in.tm.tabTermOf(tab.rtab(), t)
	in.tabMemo[k] = r
	return r
}

func (in *Interp) runeFn(name string, x Value, nat func(r rune) uint64, w uint8) Value {
	if x.k == KInt {
		return vInt(w, nat(rune(int32(x.u))))
	}
	return vTerm(in.tabTerm(name, runTabs[name], x.p.(*Term)))
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// rangeTable reads an interpreted *unicode.RangeTable.
func (in *Interp) rangeTable(p Value) (*runTab, string) {
	q := p.p.(*Ptr)
	if t, ok := in.rtCache[q.cell]; ok {
		return t, fmt.Sprintf("rt%p", q.cell)
	}
	tab := &unicode.RangeTable{}
	ag := q.cell.p.(*Agg)
	for _, e := range in.sliceElems(ag.f[0]) {
		f := e.p.(*Agg).f
		tab.R16 = append(tab.R16, unicode.Range16{Lo: uint16(f[0].u), Hi: uint16(f[1].u), Stride: uint16(f[2].u)})
	}
	for _, e := range in.sliceElems(ag.f[1]) {
		f := e.p.(*Agg).f
		tab.R32 = append(tab.R32, unicode.Range32{Lo: uint32(f[0].u), Hi: uint32(f[1].u), Stride: uint32(f[2].u)})
	}
	tab.LatinOffset = int(ag.f[2].u)
	t := &runTab{}
	for r := rune(0); r <= unicode.MaxRune+1; r++ {
		v := uint32(b2u(unicode.Is(tab, r)))
		if len(t.val) == 0 || t.val[len(t.val)-1] != v {
			t.start = append(t.start, uint32(r))
			t.val = append(t.val, v)
		}
	}
	in.rtCache[q.cell] = t
	return t, fmt.Sprintf("rt%p", q.cell)
}

// ---- byte searching ----

func (in *Interp) strOf(v Value) Value {
	if v.k == KSlice {
		e := in.sliceElems(v)
		return mkStr(append([]Value(nil), e...))
	}
	return v
}

// matchAt is the condition that sub occurs in s at i.
func (in *Interp) matchAt(s, sub Value, i int) *Term {
	m := in.tm
	t := m.tTrue
	for j := 0; j < sub.strLen(); j++ {
		a, b := s.strAt(i+j), sub.strAt(j)
		if a.k == KInt && b.k == KInt {
			if a.u != b.u {
				return m.tFals
			}
			continue
		}
		t = m.And(t, m.Eq(a.term(m), b.term(m)))
	}
	return t
}

func (in *Interp) indexTerm(s, sub Value, last bool) Value {
	if s.k == KStr && sub.k == KStr {
		if last {
			return vI64(strings.LastIndex(s.p.(string), sub.p.(string)))
		}
		return vI64(strings.Index(s.p.(string), sub.p.(string)))
	}
	m := in.tm
	r := m.Const(64, ^uint64(0))
	n := s.strLen() - sub.strLen()
	if last {
		for i := 0; i <= n; i++ {
			r = m.Ite(in.matchAt(s, sub, i), m.Const(64, uint64(i)), r)
		}
	} else {
		for i := n; i >= 0; i-- {
			r = m.Ite(in.matchAt(s, sub, i), m.Const(64, uint64(i)), r)
		}
	}
	return vTerm(r)
}

func (in *Interp) countTerm(s Value, c Value) Value {
	m := in.tm
	r := m.Const(64, 0)
	for i := 0; i < s.strLen(); i++ {
		r = m.Bin(OAdd, r, m.Ite(m.Eq(s.strAt(i).term(m), c.term(m)), m.Const(64, 1), m.Const(64, 0)))
	}
	return vTerm(r)
}

// ---- helpers for sym ----

func constStr(v Value) string {
	if v.k == KStr {
		return v.p.(string)
	}
	panic(unsupported("symbolic label"))
}

func (in *Interp) intVar(lo, hi int64, name string) Value {
	if hi < lo {
		panic(unsupported("empty range"))
	}
	span := uint64(hi - lo)
	w := uint8(1)
	for w < 64 && span>>w != 0 {
		w++
	}
	t := in.newVar(w, name)
	m := in.tm
	if span != mask(w) {
		in.assume(m.Cmp(OUle, t, m.Const(w, span)))
	}
	return vTerm(m.Bin(OAdd, m.Zext(t, 64), m.Const(64, uint64(lo))))
}

func (in *Interp) choiceVar(n int, name string) Value {
	t := in.newVar(16, name)
	vi := len(in.vars) - 1
	e := func(k uint64) *Term { return in.tm.Eq(t, in.tm.Const(16, k)) }
	if d, ok := in.nextDec(dChoose, dChoose); ok {
		in.pushPC(e(d.v))
		return vI64(int(d.v))
	}
	for i := n - 1; i > 0; i-- {
		md := append([]uint64(nil), in.model...)
		md[vi] = uint64(i)
		in.pend(Decision{kind: dChoose, v: uint64(i)}, md)
	}
	if in.model[vi] != 0 {
		md := append([]uint64(nil), in.model...)
		md[vi] = 0
		in.model = md
	}
	in.trace = append(in.trace, Decision{kind: dChoose, v: 0})
	in.pushPC(e(0))
	return vI64(0)
}

func init() {
	I := map[string]func(in *Interp, a []Value) Value{}
	intrinsics = I
	nop := func(in *Interp, a []Value) Value { return Value{} }

	// unicode
	for name, f := range map[string]func(rune) bool{"unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsUpper": unicode.IsUpper,
		"unicode.IsLower": unicode.IsLower, "unicode.IsSpace": unicode.IsSpace, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct, "unicode.IsMark": unicode.IsMark} {
		name, f := name, f
		I[name] = func(in *Interp, a []Value) Value {
			return in.runeFn(name, a[0], func(r rune) uint64 { return b2u(f(r)) }, 0)
		}
	}
	for name, f := range map[string]func(rune) rune{"unicode.SimpleFold": unicode.SimpleFold, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper} {
		name, f := name, f
		I[name] = func(in *Interp, a []Value) Value {
			return in.runeFn(name, a[0], func(r rune) uint64 { return uint64(uint32(f(r))) }, 32)
		}
	}
	isTab := func(in *Interp, tabp, x Value) Value {
		if tabp.p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		tab, name := in.rangeTable(tabp)
		if x.k == KInt {
			r := uint32(x.u)
			i := sort.Search(len(tab.start), func(i int) bool { return tab.start[i] > r }) - 1
			return vBool(tab.val[i] == 1)
		}
		return vTerm(in.tabTerm(name, tab, x.p.(*Term)))
	}
	I["unicode.Is"] = func(in *Interp, a []Value) Value { return isTab(in, a[0], a[1]) }
	in2 := func(in *Interp, r Value, tabs Value) Value {
		t := in.tm.tFals
		for _, tp := range in.sliceElems(tabs) {
			t = in.tm.Or(t, isTab(in, tp, r).term(in.tm))
		}
		return vTerm(t)
	}
	I["unicode.In"] = func(in *Interp, a []Value) Value { return in2(in, a[0], a[1]) }

	// utf8
	dec := func(in *Interp, a []Value) Value {
		r, n := in.decodeRune(in.strOf(a[0]))
		return vTuple(r, vI64(n))
	}
	I["unicode/utf8.DecodeRuneInString"] = dec
	I["unicode/utf8.DecodeRune"] = func(in *Interp, a []Value) Value {
		// only the first four bytes matter
		e := in.sliceElems(a[0])
		if len(e) > 4 {
			e = e[:4]
		}
		r, n := in.decodeRune(mkStr(append([]Value(nil), e...)))
		return vTuple(r, vI64(n))
	}

	// strings / bytes searching
	idx := func(in *Interp, a []Value) Value { return in.indexTerm(in.strOf(a[0]), in.strOf(a[1]), false) }
	lidx := func(in *Interp, a []Value) Value { return in.indexTerm(in.strOf(a[0]), in.strOf(a[1]), true) }
	idxB := func(in *Interp, a []Value) Value {
		return in.indexTerm(in.strOf(a[0]), mkStr([]Value{a[1]}), false)
	}
	lidxB := func(in *Interp, a []Value) Value {
		return in.indexTerm(in.strOf(a[0]), mkStr([]Value{a[1]}), true)
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/stringslite.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		I[n] = idx
	}
	for _, n := range []string{"strings.LastIndex", "bytes.LastIndex"} {
		I[n] = lidx
	}
	for _, n := range []string{"strings.IndexByte", "bytes.IndexByte", "internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte"} {
		I[n] = idxB
	}
	for _, n := range []string{"strings.LastIndexByte", "bytes.LastIndexByte", "internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		I[n] = lidxB
	}
	I["internal/bytealg.Count"] = func(in *Interp, a []Value) Value { return in.countTerm(in.strOf(a[0]), a[1]) }
	I["internal/bytealg.CountString"] = I["internal/bytealg.Count"]
	eqb := func(in *Interp, a []Value) Value { return in.eqVal(in.strOf(a[0]), in.strOf(a[1])) }
	I["bytes.Equal"] = eqb
	I["internal/bytealg.Equal"] = eqb
	cmp := func(in *Interp, a []Value) Value {
		m := in.tm
		x, y := in.strOf(a[0]), in.strOf(a[1])
		lt, gt := in.strLess(x, y), in.strLess(y, x)
		return vTerm(m.Ite(lt, m.Const(64, ^uint64(0)), m.Ite(gt, m.Const(64, 1), m.Const(64, 0))))
	}
	I["internal/bytealg.Compare"] = cmp
	I["internal/bytealg.CompareString"] = cmp
	I["strings.Compare"] = cmp
	I["bytes.Compare"] = cmp
	I["internal/bytealg.MakeNoZero"] = func(in *Interp, a []Value) Value {
		n := in.concInt(a[0])
		e := make([]Value, n)
		for i := range e {
			e[i] = Value{k: KInt, w: 8}
		}
		return in.mkSlice(e)
	}
	lower := func(up bool) func(in *Interp, a []Value) Value {
		full := "strings.ToLower"
		if up {
			full = "strings.ToUpper"
		}
		return func(in *Interp, a []Value) Value {
			s := a[0]
			if s.k == KStr {
				if up {
					return vStr(strings.ToUpper(s.p.(string)))
				}
				return vStr(strings.ToLower(s.p.(string)))
			}
			m := in.tm
			b := s.strBytes()
			hi := m.tFals
			for _, x := range b {
				hi = m.Or(hi, m.Cmp(OUle, m.Const(8, 0x80), x.term(m)))
			}
			if in.branchV(hi) {
				fi := in.info(in.prog.ImportedPackage("strings").Func(full[8:]))
				in.build(fi)
				return in.runFunc(fi, a, nil)
			}
			r := make([]Value, len(b))
			lo, hiB, d := uint64('A'), uint64('Z'), uint64(32)
			if up {
				lo, hiB, d = 'a', 'z', ^uint64(31)
			}
			for i, x := range b {
				t := x.term(m)
				c := m.And(m.Cmp(OUle, m.Const(8, lo), t), m.Cmp(OUle, t, m.Const(8, hiB)))
				r[i] = vTerm(m.Ite(c, m.Bin(OAdd, t, m.Const(8, d)), t))
			}
			return mkStr(r)
		}
	}
	I["strings.ToLower"] = lower(false)
	I["strings.ToUpper"] = lower(true)

	// strings.Replacer: generic algorithm (first pair in argument order that matches at each position)
	I["(*strings.Replacer).Replace"] = func(in *Interp, a []Value) Value {
		ag := a[0].p.(*Ptr).cell.p.(*Agg)
		var on []Value
		for _, f := range ag.f {
			if f.k == KSlice {
				on = in.sliceElems(f)
			}
		}
		s := a[1]
		res := vStr("")
		n := s.strLen()
		for i := 0; i < n; {
			hit := false
			for j := 0; j+1 < len(on); j += 2 {
				o := on[j]
				if o.strLen() == 0 {
					panic(unsupported("Replacer with empty old string"))
				}
				if i+o.strLen() > n {
					continue
				}
				if in.branchV(in.matchAt(s, o, i)) {
					res = strConcat(res, on[j+1])
					i += o.strLen()
					hit = true
					break
				}
			}
			if !hit {
				res = strConcat(res, s.strSlice(i, i+1))
				i++
			}
		}
		return res
	}
	I["(*strings.Builder).copyCheck"] = nop

	// sync
	for _, n := range []string{"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "(*sync.Pool).Put"} {
		I[n] = nop
	}
	// What is written under a lock is no unsynchronised write (races with readers are found by the
	// native replays only).
	for _, n := range []string{"(*sync.Mutex)", "(*sync.RWMutex)", "(*internal/sync.Mutex)"} {
		I[n+".Lock"] = func(in *Interp, a []Value) Value {
			if in.subOn > 0 {
				panic(mergeAbort{"lock"})
			}
			in.synced++
			return Value{}
		}
		I[n+".Unlock"] = func(in *Interp, a []Value) Value {
			if in.subOn > 0 {
				panic(mergeAbort{"lock"})
			}
			if in.synced > 0 {
				in.synced--
			}
			return Value{}
		}
	}
	I["(*sync.Pool).Get"] = func(in *Interp, a []Value) Value {
		ag := a[0].p.(*Ptr).cell.p.(*Agg)
		nw := ag.f[len(ag.f)-1]
		if nw.k == KFunc && nw.p != nil {
			return in.callFunc(nw, nil)
		}
		return Value{k: KIface}
	}
	// Once.Do: the store to the flag is synchronised and therefore allowed on shared objects.
	I["(*sync.Once).Do"] = func(in *Interp, a []Value) Value {
		q := a[0].p.(*Ptr)
		ag := q.cell.p.(*Agg)
		flag := &ag.f[0]
		for i := range ag.f {
			if hasInt(ag.f[i]) {
				flag = intCell(&ag.f[i])
				break
			}
		}
		if flag.u == 1 {
			return Value{}
		}
		if in.subOn > 0 && q.obj.seq <= in.subSeq {
			panic(mergeAbort{"once"})
		}
		in.synced++
		in.callFunc(a[1], nil)
		in.synced--
		in.setCell(flag, q.obj, vInt(flag.w, 1))
		return Value{}
	}
	atom := func(t string, w uint8) {
		I["sync/atomic.Load"+t] = func(in *Interp, a []Value) Value { return in.load(a[0]) }
		I["sync/atomic.Store"+t] = func(in *Interp, a []Value) Value { in.atomicStore(a[0], a[1]); return Value{} }
		I["sync/atomic.Add"+t] = func(in *Interp, a []Value) Value {
			v := vTerm(in.tm.Bin(OAdd, in.load(a[0]).term(in.tm), a[1].term(in.tm)))
			in.atomicStore(a[0], v)
			return v
		}
		I["sync/atomic.Swap"+t] = func(in *Interp, a []Value) Value {
			o := in.load(a[0])
			in.atomicStore(a[0], a[1])
			return o
		}
		I["sync/atomic.CompareAndSwap"+t] = func(in *Interp, a []Value) Value {
			o := in.load(a[0])
			if in.branchV(in.eqVal(o, a[1]).term(in.tm)) {
				in.atomicStore(a[0], a[2])
				return vBool(true)
			}
			return vBool(false)
		}
	}
	atom("Int32", 32)
	atom("Uint32", 32)
	atom("Int64", 64)
	atom("Uint64", 64)
	atom("Uintptr", 64)
	atom("Pointer", 64)

	// sorting with reflection
	sorter := func(fn string, limit bool) func(in *Interp, a []Value) Value {
		return func(in *Interp, a []Value) Value {
			if a[0].p == nil {
				in.rtPanic("reflect: call of Swapper on zero Value")
			}
			s := a[0].p.(*Iface).v
			n := len(in.sliceElems(s))
			swap := Value{k: KFunc, p: &Func{native: func(in *Interp, b []Value) Value {
				sl := s.p.(*Slice)
				i, j := in.concInt(b[0]), in.concInt(b[1])
				e := sl.arr.e[sl.off : sl.off+sl.len]
				x, y := copyVal(e[i]), copyVal(e[j])
				in.checkWrite(&sl.arr.obj)
				in.assign(&e[i], &sl.arr.obj, y)
				in.assign(&e[j], &sl.arr.obj, x)
				return Value{}
			}}}
			ls := Value{k: KAgg, p: &Agg{[]Value{a[1], swap}}}
			fi := in.info(in.prog.ImportedPackage("sort").Func(fn))
			if limit {
				l := 0
				for x := n; x > 0; x >>= 1 {
					l++
				}
				in.call(fi, []Value{ls, vI64(0), vI64(n), vI64(l)}, nil)
			} else {
				in.call(fi, []Value{ls, vI64(n)}, nil)
			}
			return Value{}
		}
	}
	I["sort.Slice"] = sorter("pdqsort_func", true)
	I["sort.SliceStable"] = sorter("stable_func", false)

	// fmt
	I["fmt.Sprintf"] = func(in *Interp, a []Value) Value { return in.sprintf(a[0], in.sliceElems(a[1])) }
	I["fmt.Errorf"] = func(in *Interp, a []Value) Value {
		s := in.sprintf(a[0], in.sliceElems(a[1]))
		return in.call(in.info(in.prog.ImportedPackage("errors").Func("New")), []Value{s}, nil)
	}
	I["fmt.Sprint"] = func(in *Interp, a []Value) Value {
		r := vStr("")
		for _, x := range in.sliceElems(a[0]) {
			r = strConcat(r, in.fmtArg('v', "%v", x))
		}
		return r
	}
	I["fmt.Fprintf"] = func(in *Interp, a []Value) Value {
		s := in.sprintf(a[1], in.sliceElems(a[2]))
		w := a[0].p.(*Iface)
		in.ld.mu.Lock()
		fn := in.prog.LookupMethod(w.t, nil, "Write")
		in.ld.mu.Unlock()
		b := append([]Value(nil), s.strBytes()...)
		return in.call(in.info(fn), []Value{w.v, in.mkSlice(b)}, nil)
	}
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "log.Printf", "log.Println", "log.Print"} {
		I[n] = func(in *Interp, a []Value) Value { return vTuple(vI64(0), Value{k: KIface}) }
	}
	I["math.Float64bits"] = func(in *Interp, a []Value) Value { return vInt(64, math.Float64bits(in.concFloat(a[0]).float())) }
	I["math.Float64frombits"] = func(in *Interp, a []Value) Value { return vFloat(math.Float64frombits(a[0].u)) }
	I["internal/abi.NoEscape"] = func(in *Interp, a []Value) Value { return a[0] }
	I["internal/cpu.init"] = nop
	I["internal/godebug.New"] = func(in *Interp, a []Value) Value { return Value{k: KPtr} }

	I["strconv.ParseUint"] = func(in *Interp, a []Value) Value { return in.parseUint(a) }

	// sym: the harness interface
	S := func(n string, f func(in *Interp, a []Value) Value) { I[symPkg+"."+n] = f }
	S("Byte", func(in *Interp, a []Value) Value { return vTerm(in.newVar(8, "byte")) })
	S("Bool", func(in *Interp, a []Value) Value { return vTerm(in.newVar(0, "bool")) })
	S("Uint64", func(in *Interp, a []Value) Value { return vTerm(in.newVar(64, "uint64")) })
	S("Int", func(in *Interp, a []Value) Value { return in.intVar(int64(a[0].u), int64(a[1].u), "int") })
	S("Choice", func(in *Interp, a []Value) Value { return in.choiceVar(int(a[0].u), "choice") })
	bytesOf := func(in *Interp, n int) []Value {
		e := make([]Value, n)
		for i := range e {
			e[i] = vTerm(in.newVar(8, "byte"))
		}
		return e
	}
	S("String", func(in *Interp, a []Value) Value { return mkStr(bytesOf(in, int(a[0].u))) })
	S("Bytes", func(in *Interp, a []Value) Value { return in.mkSlice(bytesOf(in, int(a[0].u))) })
	alpha := func(in *Interp, set string) Value {
		t := in.newVar(8, "byte")
		c := in.tm.tFals
		for i := 0; i < len(set); i++ {
			c = in.tm.Or(c, in.tm.Eq(t, in.tm.Const(8, uint64(set[i]))))
		}
		in.assume(c)
		return vTerm(t)
	}
	S("ByteIn", func(in *Interp, a []Value) Value { return alpha(in, constStr(a[0])) })
	S("StringIn", func(in *Interp, a []Value) Value {
		n := int(a[0].u)
		e := make([]Value, n)
		for i := range e {
			e[i] = alpha(in, constStr(a[1]))
		}
		return mkStr(e)
	})
	S("Assume", func(in *Interp, a []Value) Value { in.assume(a[0].term(in.tm)); return Value{} })
	S("Assert", func(in *Interp, a []Value) Value { in.assert(a[0], constStr(a[1])); return Value{} })
	S("Cover", func(in *Interp, a []Value) Value {
		if in.inSub > 0 {
			panic(mergeAbort{"cover"})
		}
		in.covers = append(in.covers, constStr(a[0]))
		return Value{}
	})
	S("Observe", func(in *Interp, a []Value) Value {
		if in.inSub > 0 {
			panic(mergeAbort{"observe"})
		}
		in.observes = append(in.observes, observed{constStr(a[0]), a[1]})
		return Value{}
	})
	S("Fail", func(in *Interp, a []Value) Value { in.assert(vBool(false), constStr(a[0])); return Value{} })
	S("And", func(in *Interp, a []Value) Value { return vTerm(in.tm.And(a[0].term(in.tm), a[1].term(in.tm))) })
	S("Or", func(in *Interp, a []Value) Value { return vTerm(in.tm.Or(a[0].term(in.tm), a[1].term(in.tm))) })
	S("Not", func(in *Interp, a []Value) Value { return vTerm(in.tm.Not(a[0].term(in.tm))) })
	S("Implies", func(in *Interp, a []Value) Value {
		return vTerm(in.tm.Or(in.tm.Not(a[0].term(in.tm)), a[1].term(in.tm)))
	})
	S("Iff", func(in *Interp, a []Value) Value { return vTerm(in.tm.Eq(a[0].term(in.tm), a[1].term(in.tm))) })
	ite := func(in *Interp, a []Value) Value {
		if a[0].k == KInt {
			if a[0].u == 1 {
				return a[1]
			}
			return a[2]
		}
		v, ok := in.mergeVal(a[0].term(in.tm), a[1], a[2])
		if !ok {
			panic(unsupported("sym.Ite"))
		}
		return v
	}
	S("Ite", ite)
	S("IteByte", ite)
	S("IteRune", ite)
	S("IteBool", ite)
	S("In", func(in *Interp, a []Value) Value {
		set := constStr(a[1])
		t := in.tm.tFals
		x := a[0].term(in.tm)
		for i := 0; i < len(set); i++ {
			t = in.tm.Or(t, in.tm.Eq(x, in.tm.Const(8, uint64(set[i]))))
		}
		return vTerm(t)
	})
	S("Conc", func(in *Interp, a []Value) Value {
		if a[0].k == KSym {
			return vInt(a[0].w, in.concretize(a[0].p.(*Term)))
		}
		return a[0]
	})
	S("ConcBool", func(in *Interp, a []Value) Value { return vBool(in.branchV(a[0].term(in.tm))) })
	S("Thorough", func(in *Interp, a []Value) Value { return vBool(in.ld.thorough) })
	S("Symbolic", func(in *Interp, a []Value) Value { return vBool(true) })
	S("Freeze", func(in *Interp, a []Value) Value {
		in.frzOn, in.frzSeq = true, in.seq
		return Value{}
	})
	S("Thaw", func(in *Interp, a []Value) Value { in.frzOn = false; return Value{} })
	S("Shared", func(in *Interp, a []Value) Value {
		in.frzOn, in.frzSeq = true, in.seq
		in.callFunc(a[0], nil)
		in.frzOn = false
		return Value{}
	})
	S("MergeWide", func(in *Interp, a []Value) Value { in.mergeWide = a[0].u == 1; return Value{} })
	S("NoMerge", func(in *Interp, a []Value) Value { in.merging = a[0].u == 0; return Value{} })
}

// parseUint is strconv.ParseUint. Texts of digits of one known base are turned into a term
// in one go; everything else is left to the library's own code.
func (in *Interp) parseUint(a []Value) Value {
	own := func(a []Value) Value {
		fi := in.info(in.prog.ImportedPackage("strconv").Func("ParseUint"))
		in.build(fi)
		return in.runFunc(fi, a, nil)
	}
	s := a[0]
	if s.k != KSymStr || a[1].k != KInt || a[2].k != KInt {
		return own(a)
	}
	b := s.strBytes()
	base := a[1].u
	if base == 0 {
		if len(b) < 2 || b[0].k != KInt || b[0].u != '0' || b[1].k != KInt || b[1].u|0x20 != 'x' {
			return own(a)
		}
		base, b = 16, b[2:]
	}
	bits := a[2].u
	if bits == 0 {
		bits = 64
	}
	if base != 16 || len(b) == 0 || bits%4 != 0 {
		return own(a)
	}
	m := in.tm
	ok := m.tTrue
	digits := make([]*Term, len(b))
	for i, x := range b {
		t := x.term(m)
		l := m.Bin(OBOr, t, m.Const(8, 0x20))
		dec := m.And(m.Cmp(OUle, m.Const(8, '0'), t), m.Cmp(OUle, t, m.Const(8, '9')))
		hex := m.And(m.Cmp(OUle, m.Const(8, 'a'), l), m.Cmp(OUle, l, m.Const(8, 'f')))
		ok = m.And(ok, m.Or(dec, hex))
		digits[i] = m.Ite(dec, m.Bin(OSub, t, m.Const(8, '0')), m.Bin(OSub, l, m.Const(8, 'a'-10)))
	}
	if !in.branchV(ok) {
		return own(a)
	}
	zero := m.tTrue
	v := m.Const(64, 0)
	for i, d := range digits {
		if len(digits)-i > int(bits)/4 {
			zero = m.And(zero, m.Eq(d, m.Const(8, 0)))
			continue
		}
		v = m.Bin(OBOr, m.Bin(OShl, v, m.Const(64, 4)), m.Zext(d, 64))
	}
	if !in.branchV(zero) {
		return own([]Value{vStr("f" + strings.Repeat("f", int(bits)/4)), vInt(64, 16), a[2]})
	}
	return vTuple(vTerm(v), Value{k: KIface})
}

func hasInt(v Value) bool { return intCell(&v) != nil }

func intCell(v *Value) *Value {
	switch v.k {
	case KInt:
		return v
	case KAgg:
		f := v.p.(*Agg).f
		for i := range f {
			if c := intCell(&f[i]); c != nil {
				return c
			}
		}
	}
	return nil
}

// ---- formatting ----

func (in *Interp) sprintf(format Value, args []Value) Value {
	f := constStr(format)
	res := vStr("")
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			res = strConcat(res, vStr(f[i:]))
			break
		}
		res = strConcat(res, vStr(f[i:i+j]))
		i += j
		k := i + 1
		for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
			k++
		}
		if k >= len(f) {
			res = strConcat(res, vStr("%!(NOVERB)"))
			break
		}
		verb := f[k]
		spec := f[i : k+1]
		i = k + 1
		if verb == '%' {
			res = strConcat(res, vStr("%"))
			continue
		}
		if ai >= len(args) {
			res = strConcat(res, vStr("%!"+string(verb)+"(MISSING)"))
			continue
		}
		res = strConcat(res, in.fmtArg(verb, spec, args[ai]))
		ai++
	}
	return res
}

func (in *Interp) fmtArg(verb byte, spec string, a Value) Value {
	if a.k == KIface {
		if a.p == nil {
			return vStr(fmt.Sprintf(spec, nil))
		}
		i := a.p.(*Iface)
		v := i.v
		if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
			for _, mn := range []string{"Error", "String"} {
				in.ld.mu.Lock()
				sel := in.prog.MethodSets.MethodSet(i.t).Lookup(nil, mn)
				var fn *ssa.Function
				if sel != nil {
					fn = in.prog.MethodValue(sel)
				}
				in.ld.mu.Unlock()
				if fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
					v = in.call(in.info(fn), []Value{copyVal(v)}, nil)
					break
				}
			}
		}
		if verb == 'w' {
			spec = strings.Replace(spec, "w", "v", 1)
		}
		v = in.concFloat(v)
		switch v.k {
		case KInt:
			b, ok := i.t.Underlying().(*types.Basic)
			if !ok {
				break
			}
			w, s, _ := intWidth(b)
			if w == 0 {
				return vStr(fmt.Sprintf(spec, v.u == 1))
			}
			if verb == 'c' || verb == 'q' || verb == 'U' {
				return vStr(fmt.Sprintf(spec, rune(v.u)))
			}
			if s {
				return vStr(fmt.Sprintf(spec, sx(v.u, w)))
			}
			return vStr(fmt.Sprintf(spec, v.u))
		case KFloat:
			return vStr(fmt.Sprintf(spec, v.float()))
		case KStr:
			return vStr(fmt.Sprintf(spec, v.p.(string)))
		case KSymStr:
			if verb == 's' || verb == 'v' {
				return v
			}
			return vStr("\"<symbolic>\"")
		case KSym:
			t := v.p.(*Term)
			if verb == 'x' && (spec == "%x" || spec == "%#x") {
				return in.fmtHex(t, spec == "%#x")
			}
			b, ok := i.t.Underlying().(*types.Basic)
			if !ok {
				break
			}
			w, s, _ := intWidth(b)
			if w == 0 {
				return vStr(fmt.Sprintf(spec, in.branchV(t)))
			}
			u := in.concretize(t)
			if s {
				return vStr(fmt.Sprintf(spec, sx(u, w)))
			}
			return vStr(fmt.Sprintf(spec, u))
		}
		return vStr("<value>")
	}
	return vStr("<value>")
}

// fmtHex renders a symbolic unsigned number, forking on its number of digits.
func (in *Interp) fmtHex(t *Term, alt bool) Value {
	m := in.tm
	n := 1
	for n < int(t.w)/4 {
		if in.branchV(m.Cmp(OUlt, t, m.Const(t.w, uint64(1)<<(4*n)))) {
			break
		}
		n++
	}
	var b []Value
	if alt {
		b = append(b, vInt(8, '0'), vInt(8, 'x'))
	}
	for i := n - 1; i >= 0; i-- {
		d := m.Zext(m.Extract(t, uint8(4*i+3), uint8(4*i)), 8)
		b = append(b, vTerm(m.Ite(m.Cmp(OUlt, d, m.Const(8, 10)), m.Bin(OAdd, d, m.Const(8, '0')), m.Bin(OAdd, d, m.Const(8, 'a'-10)))))
	}
	return mkStr(b)
}

// ---- builtins ----

// minMax is the builtin min or max over integers.
func (in *Interp) minMax(min bool, a []Value, signed bool) Value {
	m := in.tm
	r := a[0]
	for _, x := range a[1:] {
		if r.k == KInt && x.k == KInt {
			lt := x.u < r.u
			gt := x.u > r.u
			if signed {
				lt, gt = sx(x.u, x.w) < sx(r.u, r.w), sx(x.u, x.w) > sx(r.u, r.w)
			}
			if min && lt || !min && gt {
				r = x
			}
			continue
		}
		if (r.k != KInt && r.k != KSym) || (x.k != KInt && x.k != KSym) {
			panic(unsupported("min/max"))
		}
		op := OUlt
		if signed {
			op = OSlt
		}
		xt, rt := x.term(m), r.term(m)
		c := m.Cmp(op, xt, rt)
		if !min {
			c = m.Cmp(op, rt, xt)
		}
		r = vTerm(m.Ite(c, xt, rt))
	}
	return r
}

func (in *Interp) builtinCall(name string, a []Value, ci *cinstr) Value {
	switch name {
	case "min", "max":
		signed := true
		if b, ok := ci.typ.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsInteger == 0 {
				panic(unsupported("min/max"))
			}
			signed = b.Info()&types.IsUnsigned == 0
		}
		return in.minMax(name == "min", a, signed)
	case "append":
		isByte := false
		if sl, ok := ci.typ.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				isByte = true
			}
		}
		var add []Value
		if a[1].k == KStr || a[1].k == KSymStr {
			add = a[1].strBytes()
		} else {
			add = in.sliceElems(a[1])
		}
		if a[0].p == nil && len(add) == 0 {
			return a[0]
		}
		return in.appendVals(a[0], add, isByte)
	}
	return in.builtin(name, a, nil)
}

type strPtr struct{ s Value }

func (in *Interp) builtin(name string, a []Value, fr *frame) Value {
	switch name {
	case "len":
		switch a[0].k {
		case KStr, KSymStr:
			return vI64(a[0].strLen())
		case KSlice:
			return vI64(len(in.sliceElems(a[0])))
		case KMap:
			if a[0].p == nil {
				return vI64(0)
			}
			return vI64(a[0].p.(*Map).n)
		case KAgg:
			return vI64(len(a[0].p.(*Agg).f))
		case KPtr:
			return vI64(len(a[0].p.(*Ptr).cell.p.(*Agg).f))
		}
	case "cap":
		switch a[0].k {
		case KSlice:
			if a[0].p == nil {
				return vI64(0)
			}
			return vI64(a[0].p.(*Slice).cap)
		case KAgg:
			return vI64(len(a[0].p.(*Agg).f))
		case KPtr:
			return vI64(len(a[0].p.(*Ptr).cell.p.(*Agg).f))
		}
	case "copy":
		d := in.sliceElems(a[0])
		var s []Value
		if a[1].k == KStr || a[1].k == KSymStr {
			s = a[1].strBytes()
		} else {
			s = in.sliceElems(a[1])
		}
		n := min(len(d), len(s))
		if n == 0 {
			return vI64(0)
		}
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = copyVal(s[i])
		}
		arr := a[0].p.(*Slice).arr
		in.checkWrite(&arr.obj)
		for i := range tmp {
			in.assign(&d[i], &arr.obj, tmp[i])
		}
		return vI64(n)
	case "delete":
		in.mapDelete(a[0], a[1])
		return Value{}
	case "clear":
		switch a[0].k {
		case KMap:
			if a[0].p != nil {
				for _, e := range append([]*ment(nil), a[0].p.(*Map).ents...) {
					if !e.dead {
						in.mapDelete(a[0], e.k)
					}
				}
			}
		case KSlice:
			if a[0].p != nil {
				arr := a[0].p.(*Slice).arr
				in.checkWrite(&arr.obj)
				e := in.sliceElems(a[0])
				for i := range e {
					in.assign(&e[i], &arr.obj, zeroLike(e[i]))
				}
			}
		}
		return Value{}
	case "min", "max":
		return in.minMax(name == "min", a, true)
	case "print", "println":
		return Value{}
	case "panic":
		panic(&targetPanic{val: a[0], msg: in.describe(a[0]), pos: in.where()})
	case "recover":
		return Value{k: KIface}
	case "ssa:wrapnilchk":
		if a[0].p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return a[0]
	case "SliceData":
		if a[0].p == nil {
			return Value{k: KPtr}
		}
		s := a[0].p.(*Slice)
		if s.cap == 0 {
			return Value{k: KPtr}
		}
		return Value{k: KPtr, p: &Ptr{cell: &s.arr.e[s.off], obj: &s.arr.obj, arr: s.arr, idx: s.off}}
	case "StringData":
		return Value{k: KPtr, p: &strPtr{a[0]}}
	case "String":
		n := in.concInt(a[1])
		if n == 0 {
			return vStr("")
		}
		if sp, ok := a[0].p.(*strPtr); ok {
			return sp.s.strSlice(0, n)
		}
		q := a[0].p.(*Ptr)
		if q.arr == nil {
			return mkStr([]Value{*q.cell})
		}
		return mkStr(append([]Value(nil), q.arr.e[q.idx:q.idx+n]...))
	case "Slice":
		n := in.concInt(a[1])
		if n == 0 {
			return Value{k: KSlice}
		}
		if sp, ok := a[0].p.(*strPtr); ok {
			return in.mkSlice(append([]Value(nil), sp.s.strBytes()[:n]...))
		}
		q := a[0].p.(*Ptr)
		if q.arr == nil {
			panic(unsupported("unsafe.Slice"))
		}
		return Value{k: KSlice, p: &Slice{arr: q.arr, off: q.idx, len: n, cap: n}}
	}
	panic(unsupported("builtin " + name))
}

func (t *runTab) rtab() *rtab {
	if t.rt == nil {
		b := &tabBuilder{}
		if t.delta {
			b.w = 32
		}
		for i := range t.val {
			b.add(t.start[i], t.delta, t.val[i])
		}
		t.rt = b.intern()
	}
	return t.rt
}

// encoded remembers which rune an encoding came from, so that decoding it gives the rune back.
func (in *Interp) encoded(t *Term, b []Value) Value {
	var key [4]*Term
	for i := range b {
		if b[i].k != KSym {
			return mkStr(b)
		}
		key[i] = b[i].p.(*Term)
	}
	in.runeMemo[key] = t
	return mkStr(b)
}

// atomicStore is a store that is synchronised.
func (in *Interp) atomicStore(p, v Value) {
	in.synced++
	in.store(p, v)
	in.synced--
}
