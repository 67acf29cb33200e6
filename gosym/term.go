package main

// Hash-consed bit-vector / boolean terms with local simplification.
// A term of width 0 is a boolean.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OExtract // k = hi<<8 | lo
	OZext
	OSext
	OUlt
	OUle
	OSlt
	OSle
	OTab // k = table, a = base
)

var opNames = [...]string{"const", "var", "not", "and", "or", "ite", "=", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem",
	"bvand", "bvor", "bvxor", "bvshl", "bvlshr", "bvashr", "extract", "zext", "sext", "bvult", "bvule", "bvslt", "bvsle", "table"}

type Term struct {
	op      Op
	w       uint8
	id      int32
	a, b, c *Term
	k       uint64 // const value, var index, extract bounds
	lo, hi  uint64 // unsigned range (BV only)
	z       uintptr
	memoV   uint64
	memoE   uint64
	depth   int32

	supp     []int32
	suppOK   bool
	suppMany bool
	ttW      uint8
	tt       *dset
	exp      *Term // expansion of a table term
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

type TermMgr struct {
	tab   map[tkey]*Term
	next  int32
	vars  []*Term // by index
	vname []string
	epoch uint64
	noTab int
	tTrue *Term
	tFals *Term
}

func newTermMgr() *TermMgr {
	m := &TermMgr{tab: make(map[tkey]*Term)}
	m.tFals = m.Const(0, 0)
	m.tTrue = m.Const(0, 1)
	return m
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (m *TermMgr) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := tkey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := m.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: m.next}
	m.next++
	d := int32(0)
	for _, x := range []*Term{a, b, c} {
		if x != nil && x.depth > d {
			d = x.depth
		}
	}
	t.depth = d + 1
	t.lo, t.hi = 0, mask(w)
	m.setRange(t)
	m.tab[key] = t
	return t
}

func (m *TermMgr) setRange(t *Term) {
	if t.w == 0 {
		t.lo, t.hi = 0, 1
		return
	}
	mx := mask(t.w)
	switch t.op {
	case OTab:
		tab := tabByID(t.k)
		lo, hi := uint32(t.a.lo), uint32(t.a.hi)
		mn, mxv := ^uint64(0), uint64(0)
		for i := tab.find(lo); i < len(tab.start) && tab.start[i] <= hi; i++ {
			s, e := max(tab.start[i], lo), hi
			if i+1 < len(tab.start) {
				e = min(e, tab.start[i+1]-1)
			}
			x, y := tab.val[i], tab.val[i]
			if tab.delta[i] {
				x, y = x+s, y+e
				if x > y {
					x, y = 0, ^uint32(0)
				}
			}
			mn, mxv = min(mn, uint64(x)), max(mxv, uint64(y))
		}
		t.lo, t.hi = mn, mxv
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OZext:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OSext:
		if t.a.hi < uint64(1)<<(t.a.w-1) {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OIte:
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OAdd:
		s1, c1 := bits.Add64(t.a.lo, t.b.lo, 0)
		s2, c2 := bits.Add64(t.a.hi, t.b.hi, 0)
		if c2 == 0 && s2 <= mx {
			t.lo, t.hi = s1, s2
		} else if c1 == 0 && c2 == 0 && s1 > mx && s2>>t.w == s1>>t.w && t.w < 64 {
			t.lo, t.hi = s1&mx, s2&mx
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= mx {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OUDiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OURem:
		if t.b.lo > 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
		}
	case OBAnd:
		t.hi = min(t.a.hi, t.b.hi)
	case OBOr:
		n := bits.Len64(t.a.hi | t.b.hi)
		t.hi = mask(uint8(n)) & mx
		if n == 0 {
			t.hi = 0
		}
		t.lo = max(t.a.lo, t.b.lo)
	case OBXor:
		n := bits.Len64(t.a.hi | t.b.hi)
		t.hi = mask(uint8(n)) & mx
		if n == 0 {
			t.hi = 0
		}
	case OLshr:
		if t.b.op == OConst && t.b.k < 64 {
			t.lo, t.hi = t.a.lo>>t.b.k, t.a.hi>>t.b.k
		} else {
			t.hi = t.a.hi
		}
	case OShl:
		if t.b.op == OConst && t.b.k < 64 {
			if bits.Len64(t.a.hi)+int(t.b.k) <= int(t.w) {
				t.lo, t.hi = t.a.lo<<t.b.k, t.a.hi<<t.b.k
			}
		}
	case OExtract:
		lo := uint(t.k & 0xff)
		if lo == 0 && t.a.hi <= mx {
			t.lo, t.hi = t.a.lo, t.a.hi
		} else if bits.Len64(t.a.hi) <= int(t.k>>8)+1 {
			t.lo, t.hi = t.a.lo>>lo, t.a.hi>>lo
		}
	}
}

func (m *TermMgr) Const(w uint8, v uint64) *Term {
	return m.mk(OConst, w, nil, nil, nil, v&mask(w))
}
func (m *TermMgr) Bool(b bool) *Term {
	if b {
		return m.tTrue
	}
	return m.tFals
}

// Var returns the variable number idx, which must be created in order.
func (m *TermMgr) Var(idx int, w uint8, name string) *Term {
	for len(m.vars) <= idx {
		m.vars = append(m.vars, nil)
		m.vname = append(m.vname, "")
	}
	// one variable per (index, width)
	t := m.mk(OVar, w, nil, nil, nil, uint64(idx))
	m.vars[idx] = t
	m.vname[idx] = name
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }

func (m *TermMgr) Not(a *Term) *Term {
	if a.op == OTab {
		if r := m.tabOp(ONot, a, nil, nil); r != nil {
			return r
		}
	}
	if a.op == OConst {
		return m.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return m.mk(ONot, 0, a, nil, nil, 0)
}

func (m *TermMgr) And(a, b *Term) *Term {
	if a.op == OTab || b.op == OTab {
		if r := m.tabOp(OAnd, a, b, nil); r != nil {
			return r
		}
	}
	if a.isFalse() || b.isFalse() {
		return m.tFals
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return m.tFals
	}
	// and(x=c1, x=c2)
	if a.op == OEq && b.op == OEq && a.a == b.a && a.b.isConst() && b.b.isConst() && a.b != b.b {
		return m.tFals
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.mk(OAnd, 0, a, b, nil, 0)
}

func (m *TermMgr) Or(a, b *Term) *Term {
	if a.op == OTab || b.op == OTab {
		if r := m.tabOp(OOr, a, b, nil); r != nil {
			return r
		}
	}
	if a.isTrue() || b.isTrue() {
		return m.tTrue
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a.op == ONot && a.a == b || b.op == ONot && b.a == a {
		return m.tTrue
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return a
	}
	if a.op == OAnd && (a.a == b || a.b == b) {
		return b
	}
	// or(and(x,y), and(not x, y)) = y and common cases of two-way joins
	if a.op == OAnd && b.op == OAnd {
		if r := m.orJoin(a.a, a.b, b.a, b.b); r != nil {
			return r
		}
	}
	// or(x, and(not x, y)) = or(x,y)
	if b.op == OAnd {
		if m.compl(b.a, a) {
			return m.Or(a, b.b)
		}
		if m.compl(b.b, a) {
			return m.Or(a, b.a)
		}
	}
	if a.op == OAnd {
		if m.compl(a.a, b) {
			return m.Or(b, a.b)
		}
		if m.compl(a.b, b) {
			return m.Or(b, a.a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.mk(OOr, 0, a, b, nil, 0)
}

func (m *TermMgr) compl(a, b *Term) bool {
	return a.op == ONot && a.a == b || b.op == ONot && b.a == a
}

func (m *TermMgr) orJoin(a1, a2, b1, b2 *Term) *Term {
	if a1 == b1 && m.compl(a2, b2) || a1 == b2 && m.compl(a2, b1) {
		return a1
	}
	if a2 == b1 && m.compl(a1, b2) || a2 == b2 && m.compl(a1, b1) {
		return a2
	}
	return nil
}

func (m *TermMgr) Ite(c, a, b *Term) *Term {
	if c.op == OTab || a.op == OTab || b.op == OTab {
		if r := m.tabOp(OIte, c, a, b); r != nil {
			return r
		}
	}
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if c.op == ONot {
		return m.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return m.Or(c, b)
		}
		if a.isFalse() {
			return m.And(m.Not(c), b)
		}
		if b.isTrue() {
			return m.Or(m.Not(c), a)
		}
		if b.isFalse() {
			return m.And(c, a)
		}
	}
	if a.op == OIte && a.a == c {
		a = a.b
	}
	if b.op == OIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	// ite(c, x, ite(d, x, y)) = ite(c|d, x, y)
	if b.op == OIte && b.b == a {
		return m.Ite(m.Or(c, b.a), a, b.c)
	}
	return m.mk(OIte, a.w, c, a, b, 0)
}

func sx(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (m *TermMgr) Eq(a, b *Term) *Term {
	if a.op == OTab || b.op == OTab {
		if r := m.tabOp(OEq, a, b, nil); r != nil {
			return r
		}
	}
	if a == b {
		return m.tTrue
	}
	if a.op == OConst && b.op == OConst {
		return m.Bool(a.k == b.k)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return m.Not(a)
		}
		return m.Or(m.And(a, b), m.And(m.Not(a), m.Not(b)))
	}
	if a.hi < b.lo || b.hi < a.lo {
		return m.tFals
	}
	if b.op == OConst {
		switch a.op {
		case OIte:
			if a.b.op == OConst || a.c.op == OConst {
				return m.Ite(a.a, m.Eq(a.b, b), m.Eq(a.c, b))
			}
		case OZext:
			return m.Eq(a.a, m.Const(a.a.w, b.k)) // in range by interval
		case OAdd:
			if a.b.op == OConst {
				return m.Eq(a.a, m.Const(a.w, b.k-a.b.k))
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return m.Eq(a.a, b.a)
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return m.mk(OEq, 0, a, b, nil, 0)
}

func (m *TermMgr) Cmp(op Op, a, b *Term) *Term {
	if a.op == OTab || b.op == OTab {
		if r := m.tabOp(op, a, b, nil); r != nil {
			return r
		}
	}
	if a.op == OConst && b.op == OConst {
		switch op {
		case OUlt:
			return m.Bool(a.k < b.k)
		case OUle:
			return m.Bool(a.k <= b.k)
		case OSlt:
			return m.Bool(sx(a.k, a.w) < sx(b.k, a.w))
		case OSle:
			return m.Bool(sx(a.k, a.w) <= sx(b.k, a.w))
		}
	}
	if a == b {
		return m.Bool(op == OUle || op == OSle)
	}
	// signed comparison of values whose sign bits are known clear is unsigned
	half := uint64(1) << (a.w - 1)
	if op == OSlt || op == OSle {
		if a.hi < half && b.hi < half {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		} else if a.lo >= half && b.hi < half { // a<0<=b
			return m.tTrue
		} else if b.lo >= half && a.hi < half {
			return m.tFals
		} else if a.lo >= half && b.lo >= half {
			if op == OSlt {
				op = OUlt
			} else {
				op = OUle
			}
		}
	}
	switch op {
	case OUlt:
		if a.hi < b.lo {
			return m.tTrue
		}
		if a.lo >= b.hi {
			return m.tFals
		}
	case OUle:
		if a.hi <= b.lo {
			return m.tTrue
		}
		if a.lo > b.hi {
			return m.tFals
		}
	}
	if b.op == OConst {
		if a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
			return m.Ite(a.a, m.Cmp(op, a.b, b), m.Cmp(op, a.c, b))
		}
		if a.op == OZext && (op == OUlt || op == OUle) && b.k <= mask(a.a.w) {
			return m.Cmp(op, a.a, m.Const(a.a.w, b.k))
		}
	}
	if a.op == OConst {
		if b.op == OIte && (b.b.op == OConst || b.c.op == OConst) {
			return m.Ite(b.a, m.Cmp(op, a, b.b), m.Cmp(op, a, b.c))
		}
		if b.op == OZext && (op == OUlt || op == OUle) && a.k <= mask(b.a.w) {
			return m.Cmp(op, m.Const(b.a.w, a.k), b.a)
		}
	}
	// canonicalise: x <= k as x < k+1 ; k <= x as not(x < k); k < x as not(x<=k)=not(x<k+1)
	switch op {
	case OUle:
		if b.op == OConst { // b.k < mask since not trivially true
			return m.Cmp(OUlt, a, m.Const(a.w, b.k+1))
		}
		return m.Not(m.Cmp(OUlt, b, a))
	case OUlt:
		if a.op == OConst {
			return m.Not(m.Cmp(OUlt, b, m.Const(a.w, a.k+1)))
		}
	case OSle:
		return m.Not(m.Cmp(OSlt, b, a))
	}
	return m.mk(op, 0, a, b, nil, 0)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	mx := mask(w)
	switch op {
	case OAdd:
		return (x + y) & mx
	case OSub:
		return (x - y) & mx
	case OMul:
		return (x * y) & mx
	case OUDiv:
		if y == 0 {
			return mx
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		if y == 0 {
			if sx(x, w) >= 0 {
				return mx
			}
			return 1
		}
		if sx(y, w) == -1 {
			return (-x) & mx
		}
		return uint64(sx(x, w)/sx(y, w)) & mx
	case OSRem:
		if y == 0 {
			return x
		}
		if sx(y, w) == -1 {
			return 0
		}
		return uint64(sx(x, w)%sx(y, w)) & mx
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & mx
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & mx
	}
	panic("evalBin")
}

func (m *TermMgr) Bin(op Op, a, b *Term) *Term {
	if op == OAdd && (a.op == OTab || b.op == OTab) {
		if r := m.tabOp(OAdd, a, b, nil); r != nil {
			return r
		}
	}
	if a.op == OConst && b.op == OConst {
		return m.Const(a.w, evalBin(op, a.w, a.k, b.k))
	}
	w := a.w
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return m.Bin(OAdd, a.a, m.Const(w, a.b.k+b.k))
			}
		}
	case OSub:
		if b.op == OConst {
			return m.Bin(OAdd, a, m.Const(w, -b.k))
		}
		if a == b {
			return m.Const(w, 0)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			// mask covering the whole range
			if b.k&(b.k+1) == 0 && a.hi <= b.k {
				return a
			}
		}
	case OBOr, OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.k == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return m.Const(w, 0)
		}
	case OShl, OLshr, OAshr:
		if b.op == OConst && b.k == 0 {
			return a
		}
		if b.op == OConst && b.k >= uint64(w) && op != OAshr {
			return m.Const(w, 0)
		}
		if a.op == OConst && a.k == 0 {
			return a
		}
	case OUDiv:
		if b.op == OConst && b.k == 1 {
			return a
		}
	case OURem:
		if b.op == OConst && b.k != 0 && a.hi < b.k {
			return a
		}
	case OSDiv:
		if a.hi < uint64(1)<<(w-1) && b.hi < uint64(1)<<(w-1) {
			return m.Bin(OUDiv, a, b)
		}
	case OSRem:
		if a.hi < uint64(1)<<(w-1) && b.hi < uint64(1)<<(w-1) {
			return m.Bin(OURem, a, b)
		}
	}
	if b.op == OConst && a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return m.Ite(a.a, m.Bin(op, a.b, b), m.Bin(op, a.c, b))
	}
	if a.op == OConst && b.op == OIte && b.b.op == OConst && b.c.op == OConst {
		return m.Ite(b.a, m.Bin(op, a, b.b), m.Bin(op, a, b.c))
	}
	// distribute over one-constant ite chains for addition (positions)
	if op == OAdd && b.op == OConst && a.op == OIte && (a.b.op == OConst || a.c.op == OConst) && a.depth < 200 {
		return m.Ite(a.a, m.Bin(op, a.b, b), m.Bin(op, a.c, b))
	}
	return m.mk(op, w, a, b, nil, 0)
}

func (m *TermMgr) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if lo == 0 && w == a.w {
		return a
	}
	if a.op == OConst {
		return m.Const(w, a.k>>lo)
	}
	if lo == 0 && (a.op == OZext || a.op == OSext) {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return m.Extract(a.a, hi, 0)
		}
		if a.op == OZext {
			return m.Zext(a.a, w)
		}
		return m.Sext(a.a, w)
	}
	if a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
		return m.Ite(a.a, m.Extract(a.b, hi, lo), m.Extract(a.c, hi, lo))
	}
	return m.mk(OExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo))
}

func (m *TermMgr) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return m.Const(w, a.k)
	}
	if a.op == OZext {
		return m.Zext(a.a, w)
	}
	if a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
		return m.Ite(a.a, m.Zext(a.b, w), m.Zext(a.c, w))
	}
	return m.mk(OZext, w, a, nil, nil, 0)
}

func (m *TermMgr) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return m.Const(w, uint64(sx(a.k, a.w)))
	}
	if a.hi < uint64(1)<<(a.w-1) {
		return m.Zext(a, w)
	}
	if a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
		return m.Ite(a.a, m.Sext(a.b, w), m.Sext(a.c, w))
	}
	return m.mk(OSext, w, a, nil, nil, 0)
}

// Eval evaluates t under the assignment model (by variable index; missing = 0).
func (m *TermMgr) Eval(t *Term, model []uint64) uint64 {
	m.epoch++
	return m.eval(t, model)
}

func (m *TermMgr) eval(t *Term, model []uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		if int(t.k) < len(model) {
			return model[t.k] & mask(t.w)
		}
		return 0
	}
	if t.memoE == m.epoch {
		return t.memoV
	}
	var v uint64
	switch t.op {
	case OTab:
		v = uint64(tabByID(t.k).at(uint32(m.eval(t.a, model))))
	case ONot:
		v = 1 - m.eval(t.a, model)
	case OAnd:
		v = m.eval(t.a, model)
		if v == 1 {
			v = m.eval(t.b, model)
		}
	case OOr:
		v = m.eval(t.a, model)
		if v == 0 {
			v = m.eval(t.b, model)
		}
	case OIte:
		if m.eval(t.a, model) == 1 {
			v = m.eval(t.b, model)
		} else {
			v = m.eval(t.c, model)
		}
	case OEq:
		if m.eval(t.a, model) == m.eval(t.b, model) {
			v = 1
		}
	case OExtract:
		v = (m.eval(t.a, model) >> (t.k & 0xff)) & mask(t.w)
	case OZext:
		v = m.eval(t.a, model)
	case OSext:
		v = uint64(sx(m.eval(t.a, model), t.a.w)) & mask(t.w)
	case OUlt, OUle, OSlt, OSle:
		x, y := m.eval(t.a, model), m.eval(t.b, model)
		var b bool
		switch t.op {
		case OUlt:
			b = x < y
		case OUle:
			b = x <= y
		case OSlt:
			b = sx(x, t.a.w) < sx(y, t.a.w)
		case OSle:
			b = sx(x, t.a.w) <= sx(y, t.a.w)
		}
		if b {
			v = 1
		}
	default:
		v = evalBin(t.op, t.w, m.eval(t.a, model), m.eval(t.b, model))
	}
	t.memoE, t.memoV = m.epoch, v
	return v
}

// smt writes t in SMT-LIB2, naming shared subterms with let-free define-funs into defs.
type smtWriter struct {
	m    *TermMgr
	seen map[*Term]string
	vars map[int]*Term
	out  strings.Builder
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *smtWriter) ref(t *Term) string {
	if n, ok := s.seen[t]; ok {
		return n
	}
	var n string
	switch t.op {
	case OConst:
		if t.w == 0 {
			n = "false"
			if t.k == 1 {
				n = "true"
			}
		} else {
			n = fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
		}
		s.seen[t] = n
		return n
	case OVar:
		n = fmt.Sprintf("v%d_%d", t.k, t.w)
		fmt.Fprintf(&s.out, "(declare-const %s %s)\n", n, sortName(t.w))
		s.seen[t] = n
		return n
	}
	var body string
	switch t.op {
	case OTab:
		n = s.ref(s.m.expand(t))
		s.seen[t] = n
		return n
	case OExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&0xff, s.ref(t.a))
	case OZext:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	case OSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.ref(t.a))
	default:
		body = "(" + opNames[t.op]
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				body += " " + s.ref(x)
			}
		}
		body += ")"
	}
	n = fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&s.out, "(define-fun %s () %s %s)\n", n, sortName(t.w), body)
	s.seen[t] = n
	return n
}

// SMT2 renders the conjunction of terms as a complete SMT-LIB2 script.
func (m *TermMgr) SMT2(ts []*Term) string {
	s := &smtWriter{m: m, seen: map[*Term]string{}}
	s.out.WriteString("(set-logic QF_BV)\n")
	for _, t := range ts {
		r := s.ref(t)
		fmt.Fprintf(&s.out, "(assert %s)\n", r)
	}
	s.out.WriteString("(check-sat)\n")
	return s.out.String()
}

func (t *Term) String() string {
	if t == nil {
		return "nil"
	}
	if t.depth > 12 {
		return fmt.Sprintf("<t%d depth %d>", t.id, t.depth)
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		return fmt.Sprintf("%d:%d", t.k, t.w)
	case OVar:
		return fmt.Sprintf("v%d", t.k)
	}
	s := "(" + opNames[t.op]
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}
