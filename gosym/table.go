package main

// Terms that are functions of one rune-valued term (the base) are kept as canonical
// piecewise tables: on each interval of the base the value is a constant or base+delta.
// Folding compositions of the Unicode tables this way keeps the formulas small; a table
// is expanded to a comparison tree when it reaches the solver.

import (
	"encoding/binary"
	"sort"
	"sync"
)

type rtab struct {
	w     uint8 // 0 or 32
	start []uint32
	delta []bool
	val   []uint32
	id    int
}

var (
	rtabMu  sync.Mutex
	rtabKey = map[string]*rtab{}
	rtabs   []*rtab
)

func tabByID(id uint64) *rtab {
	rtabMu.Lock()
	defer rtabMu.Unlock()
	return rtabs[id]
}

type tabBuilder struct {
	w     uint8
	start []uint32
	delta []bool
	val   []uint32
}

func (b *tabBuilder) add(s uint32, delta bool, v uint32) {
	if n := len(b.val); n > 0 && b.delta[n-1] == delta && b.val[n-1] == v {
		return
	}
	b.start = append(b.start, s)
	b.delta = append(b.delta, delta)
	b.val = append(b.val, v)
}

func (b *tabBuilder) intern() *rtab {
	buf := make([]byte, 0, 9*len(b.val)+1)
	buf = append(buf, b.w)
	for i := range b.val {
		buf = binary.LittleEndian.AppendUint32(buf, b.start[i])
		buf = binary.LittleEndian.AppendUint32(buf, b.val[i])
		d := byte(0)
		if b.delta[i] {
			d = 1
		}
		buf = append(buf, d)
	}
	rtabMu.Lock()
	defer rtabMu.Unlock()
	k := string(buf)
	if t, ok := rtabKey[k]; ok {
		return t
	}
	t := &rtab{w: b.w, start: b.start, delta: b.delta, val: b.val, id: len(rtabs)}
	rtabs = append(rtabs, t)
	rtabKey[k] = t
	return t
}

func (t *rtab) find(x uint32) int {
	return sort.Search(len(t.start), func(i int) bool { return t.start[i] > x }) - 1
}

func (t *rtab) at(x uint32) uint32 {
	i := t.find(x)
	if t.delta[i] {
		return x + t.val[i]
	}
	return t.val[i]
}

func identTab() *tabBuilder {
	return &tabBuilder{w: 32, start: []uint32{0}, delta: []bool{true}, val: []uint32{0}}
}

// toTab views x as a table over base.
func (m *TermMgr) toTab(x, base *Term, depth int) *rtab {
	if x == base {
		return identTab().intern()
	}
	switch x.op {
	case OTab:
		if x.a == base {
			return tabByID(x.k)
		}
	case OConst:
		if x.w == 0 || x.w == 32 {
			b := &tabBuilder{w: x.w}
			b.add(0, false, uint32(x.k))
			return b.intern()
		}
	case ONot:
		if depth < 4 {
			if t := m.toTab(x.a, base, depth+1); t != nil {
				return notTab(t)
			}
		}
	case OEq, OUlt, OUle, OSlt, OSle:
		if depth < 4 && x.a.w == 32 {
			if p, q := m.toTab(x.a, base, depth+1), m.toTab(x.b, base, depth+1); p != nil && q != nil {
				return cmpTab(x.op, p, q)
			}
		}
	case OAnd, OOr:
		if depth < 4 {
			if p := m.toTab(x.a, base, depth+1); p != nil {
				if q := m.toTab(x.b, base, depth+1); q != nil {
					return cmpTab(x.op, p, q)
				}
			}
		}
	case OAdd:
		if depth < 4 && x.w == 32 {
			p, q := m.toTab(x.a, base, depth+1), m.toTab(x.b, base, depth+1)
			if p != nil && q != nil {
				return addTab(p, q)
			}
		}
	case OIte:
		if depth < 4 && (x.w == 32 || x.w == 0) {
			c := m.toTab(x.a, base, depth+1)
			if c == nil {
				return nil
			}
			p, q := m.toTab(x.b, base, depth+1), m.toTab(x.c, base, depth+1)
			if p != nil && q != nil {
				return iteTab(c, p, q)
			}
		}
	}
	return nil
}

func notTab(t *rtab) *rtab {
	b := &tabBuilder{}
	for i := range t.val {
		b.add(t.start[i], false, 1-t.val[i])
	}
	return b.intern()
}

// pieces calls f for the common pieces of the tables.
func pieces(ts []*rtab, f func(s, e uint32, ix []int)) {
	ix := make([]int, len(ts))
	s := uint32(0)
	for {
		e := ^uint32(0)
		for k, t := range ts {
			if ix[k]+1 < len(t.start) && t.start[ix[k]+1]-1 < e {
				e = t.start[ix[k]+1] - 1
			}
		}
		f(s, e, ix)
		if e == ^uint32(0) {
			return
		}
		s = e + 1
		for k, t := range ts {
			if ix[k]+1 < len(t.start) && t.start[ix[k]+1] == s {
				ix[k]++
			}
		}
	}
}

func cmpTab(op Op, p, q *rtab) *rtab {
	b := &tabBuilder{}
	pieces([]*rtab{p, q}, func(s, e uint32, ix []int) {
		pd, pv, qd, qv := p.delta[ix[0]], p.val[ix[0]], q.delta[ix[1]], q.val[ix[1]]
		cuts := []uint32{s}
		cut := func(x uint32) {
			if x > s && x <= e {
				cuts = append(cuts, x)
			}
		}
		if pd {
			cut(-pv)
			cut(1<<31 - pv)
			if !qd {
				cut(qv - pv)
				cut(qv - pv + 1)
			}
		}
		if qd {
			cut(-qv)
			cut(1<<31 - qv)
			if !pd {
				cut(pv - qv)
				cut(pv - qv + 1)
			}
		}
		sort.Slice(cuts, func(i, j int) bool { return cuts[i] < cuts[j] })
		for i, c := range cuts {
			if i > 0 && c == cuts[i-1] {
				continue
			}
			x, y := pv, qv
			if pd {
				x += c
			}
			if qd {
				y += c
			}
			r := false
			switch op {
			case OEq:
				r = x == y
			case OUlt:
				r = x < y
			case OUle:
				r = x <= y
			case OSlt:
				r = int32(x) < int32(y)
			case OSle:
				r = int32(x) <= int32(y)
			case OAnd:
				r = x&y == 1
			case OOr:
				r = x|y == 1
			}
			v := uint32(0)
			if r {
				v = 1
			}
			b.add(c, false, v)
		}
	})
	return b.intern()
}

func addTab(p, q *rtab) *rtab {
	b := &tabBuilder{w: 32}
	ok := true
	pieces([]*rtab{p, q}, func(s, e uint32, ix []int) {
		pd, qd := p.delta[ix[0]], q.delta[ix[1]]
		if pd && qd {
			ok = false
			return
		}
		b.add(s, pd || qd, p.val[ix[0]]+q.val[ix[1]])
	})
	if !ok {
		return nil
	}
	return b.intern()
}

func iteTab(c, p, q *rtab) *rtab {
	b := &tabBuilder{w: p.w}
	pieces([]*rtab{c, p, q}, func(s, e uint32, ix []int) {
		if c.val[ix[0]] == 1 {
			b.add(s, p.delta[ix[1]], p.val[ix[1]])
		} else {
			b.add(s, q.delta[ix[2]], q.val[ix[2]])
		}
	})
	return b.intern()
}

// compose is f applied to g.
func compose(f, g *rtab) *rtab {
	b := &tabBuilder{w: f.w}
	for i := range g.val {
		s, e := g.start[i], ^uint32(0)
		if i+1 < len(g.start) {
			e = g.start[i+1] - 1
		}
		if !g.delta[i] {
			b.add(s, false, f.at(g.val[i]))
			continue
		}
		d := g.val[i]
		// walk the pieces of f that the image meets; the image may wrap around once
		x := s
		for {
			j := f.find(x + d)
			last := ^uint32(0)
			if j+1 < len(f.start) {
				last = f.start[j+1] - 1
			}
			if f.delta[j] {
				b.add(x, true, d+f.val[j])
			} else {
				b.add(x, false, f.val[j])
			}
			n := last - (x + d) // remaining values in this piece of f
			if n >= e-x {
				break
			}
			x += n + 1
		}
	}
	return b.intern()
}

// tabTermOf makes the term tab(base), in canonical form.
func (m *TermMgr) tabTermOf(tab *rtab, base *Term) *Term {
	if tab == nil {
		return nil
	}
	if base.op == OTab {
		return m.tabTermOf(compose(tab, tabByID(base.k)), base.a)
	}
	// clip to the range of the base
	lo, hi := uint32(base.lo), uint32(base.hi)
	b := &tabBuilder{w: tab.w}
	for i := tab.find(lo); i < len(tab.start) && (i == 0 || tab.start[i] <= hi || b.val == nil); i++ {
		s := tab.start[i]
		if b.val == nil {
			s = 0
		}
		b.add(s, tab.delta[i], tab.val[i])
	}
	if len(b.val) == 1 {
		if !b.delta[0] {
			return m.Const(b.w, uint64(b.val[0]))
		}
		return m.rawAdd(base, b.val[0])
	}
	t := b.intern()
	return m.mk(OTab, t.w, base, nil, nil, uint64(t.id))
}

func (m *TermMgr) rawAdd(base *Term, d uint32) *Term {
	if d == 0 {
		return base
	}
	m.noTab++
	defer func() { m.noTab-- }()
	return m.Bin(OAdd, base, m.Const(32, uint64(d)))
}

// tabOp applies an operation when one of the operands is a table term and all of them are
// tables over its base. It returns nil if that is not so.
func (m *TermMgr) tabOp(op Op, a, b, c *Term) *Term {
	if m.noTab > 0 {
		return nil
	}
	var base *Term
	for _, x := range [3]*Term{a, b, c} {
		if x != nil && x.op == OTab {
			if base != nil && base != x.a {
				return nil
			}
			base = x.a
		}
	}
	if base == nil {
		return nil
	}
	p := m.toTab(a, base, 0)
	if p == nil {
		return nil
	}
	var q, r *rtab
	if b != nil {
		if q = m.toTab(b, base, 0); q == nil {
			return nil
		}
	}
	if c != nil {
		if r = m.toTab(c, base, 0); r == nil {
			return nil
		}
	}
	switch op {
	case ONot:
		return m.tabTermOf(notTab(p), base)
	case OEq, OUlt, OUle, OSlt, OSle, OAnd, OOr:
		return m.tabTermOf(cmpTab(op, p, q), base)
	case OAdd:
		return m.tabTermOf(addTab(p, q), base)
	case OIte:
		return m.tabTermOf(iteTab(p, q, r), base)
	}
	return nil
}

// expand turns a table term into a comparison tree over its base.
func (m *TermMgr) expand(t *Term) *Term {
	if t.exp != nil {
		return t.exp
	}
	tab := tabByID(t.k)
	m.noTab++
	defer func() { m.noTab-- }()
	base := t.a
	leaf := func(i int) *Term {
		if tab.delta[i] {
			return m.rawAdd(base, tab.val[i])
		}
		return m.Const(tab.w, uint64(tab.val[i]))
	}
	var build func(a, b int) *Term
	build = func(a, b int) *Term {
		if a == b {
			return leaf(a)
		}
		mid := (a + b + 1) / 2
		return m.Ite(m.Cmp(OUlt, base, m.Const(32, uint64(tab.start[mid]))), build(a, mid-1), build(mid, b))
	}
	r := build(0, len(tab.val)-1)
	t.exp = r
	return r
}
