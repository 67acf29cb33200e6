package ref

import "github.com/google/licensecheck/internal/verif/sym"

// An Edge leads to a position; Via is the last wildcard passed on the way, or -1;
// Skip is the set of the wildcards in the parts passed over.
type Edge struct {
	Pos, Via int
	Skip     uint
}

// An NFA for a pattern: positions that read a word, and what follows them.
type NFA struct {
	Word  []string // "" for a word of a wildcard
	Wild  []int    // wildcard the position belongs to, or -1
	Next  [][]Edge // positions that can follow
	Final []bool   // the text may end after the position
	First []Edge
	NWild int
	// Stop[p]: after position p the next wildcard or the end of the pattern can follow directly.
	Stop []bool
}

// A frag is a part of a pattern: the positions where it begins and ends, with the last wildcard
// passed before or after, and the last wildcards that can be passed when it stands for no word.
type frag struct {
	first, last []Edge
	empty       []Edge // Pos is not used
}

func (a *NFA) pos(w string, wild int) int {
	a.Word = append(a.Word, w)
	a.Wild = append(a.Wild, wild)
	a.Next = append(a.Next, nil)
	a.Final = append(a.Final, false)
	a.Stop = append(a.Stop, false)
	return len(a.Word) - 1
}

func union(a, b []Edge) []Edge {
	r := append([]Edge{}, a...)
	for _, x := range b {
		have := false
		for _, y := range r {
			if x == y {
				have = true
			}
		}
		if !have {
			r = append(r, x)
		}
	}
	return r
}

func pick(first, second int) int {
	if second >= 0 {
		return second
	}
	return first
}

func (a *NFA) cat(f, g frag) frag {
	for _, l := range f.last {
		for _, e := range g.first {
			a.Next[l.Pos] = union(a.Next[l.Pos], []Edge{{e.Pos, pick(l.Via, e.Via), l.Skip | e.Skip}})
		}
	}
	r := frag{first: f.first, last: g.last}
	for _, v := range f.empty {
		for _, e := range g.first {
			r.first = union(r.first, []Edge{{e.Pos, pick(v.Via, e.Via), v.Skip | e.Skip}})
		}
		for _, w := range g.empty {
			r.empty = union(r.empty, []Edge{{-1, pick(v.Via, w.Via), v.Skip | w.Skip}})
		}
	}
	for _, w := range g.empty {
		for _, l := range f.last {
			r.last = union(r.last, []Edge{{l.Pos, pick(l.Via, w.Via), l.Skip | w.Skip}})
		}
	}
	return r
}

// since returns the set of the wildcards from number old on.
func (a *NFA) since(old int) uint { return (1<<uint(a.NWild) - 1) &^ (1<<uint(old) - 1) }

func (a *NFA) build(n *Node) frag {
	switch n.Op {
	case Lit:
		e := []Edge{{a.pos(n.Word, -1), -1, 0}}
		return frag{first: e, last: e}
	case Wild:
		id := a.NWild
		a.NWild++
		f := frag{empty: []Edge{{-1, id, 0}}}
		for i := 0; i < n.N; i++ {
			p := a.pos("", id)
			if i == 0 {
				f.first = []Edge{{p, -1, 0}}
			} else {
				a.Next[p-1] = []Edge{{p, -1, 0}}
			}
			f.last = append(f.last, Edge{p, id, 0})
		}
		return f
	case Opt:
		old := a.NWild
		f := a.build(n.Sub[0])
		f.empty = append(f.empty, Edge{-1, -1, a.since(old)})
		return f
	case Alt:
		old := a.NWild
		var fs []frag
		var own []uint
		for _, s := range n.Sub {
			old := a.NWild
			fs = append(fs, a.build(s))
			own = append(own, a.since(old))
		}
		all := a.since(old)
		var r frag
		for i, f := range fs {
			skip := all &^ own[i]
			r.first = union(r.first, f.first)
			for _, e := range f.last {
				r.last = union(r.last, []Edge{{e.Pos, e.Via, e.Skip | skip}})
			}
			for _, e := range f.empty {
				r.empty = union(r.empty, []Edge{{-1, e.Via, e.Skip | skip}})
			}
		}
		return r
	}
	r := frag{empty: []Edge{{-1, -1, 0}}}
	for _, s := range n.Sub {
		r = a.cat(r, a.build(s))
	}
	return r
}

// Compile returns the automaton of n.
func Compile(n *Node) *NFA {
	a := &NFA{}
	f := a.build(n)
	a.First = f.first
	for _, e := range f.last {
		a.Final[e.Pos] = true
	}
	for p := range a.Next {
		a.Stop[p] = a.Final[p]
		for _, e := range a.Next[p] {
			if a.Wild[e.Pos] >= 0 && a.Wild[e.Pos] != a.Wild[p] || e.Via >= 0 && e.Via != a.Wild[p] {
				a.Stop[p] = true
			}
		}
	}
	return a
}

// before reports that wildcard w can begin right after position p.
func (a *NFA) before(p, w int) bool {
	for _, e := range a.Next[p] {
		if e.Via == w || a.Wild[e.Pos] == w {
			return true
		}
	}
	return false
}

// A Text gives the automata access to the words of a text.
type Text struct {
	N int
	// Is reports that word i is exactly w.
	Is func(i int, w string) bool
	// Near, if set, reports that word i may be corrected to w.
	Near func(i int, w string) bool
	// Join, if set, reports that words i and i+1 together are w.
	Join func(i int, w string) bool
	// JoinAny, if set, reports that words i and i+1 may be taken for one.
	JoinAny func(i int) bool
	// Split, if set, reports that word i is w followed by x (x == "": anything).
	Split func(i int, w, x string) bool
}

// Ends returns, for each k, whether words[from:k] is certainly to be recognised: it spells out a
// text of the pattern, and at no point has another reading of the same words already left a
// wildcard in use and read three words after it (or all that there are before the next one),
// or passed over the part the wildcard is in.
func (a *NFA) Ends(t Text, from int) []bool {
	// A thread is a position and, if it has left a wildcard, which one and how many words ago
	// (at most 3), and the set of wildcards passed over: any word read then may finish them.
	type thread struct {
		pos, wild, ago int
		skip           uint
	}
	end := make([]bool, t.N+1)
	cur := map[thread]bool{}
	order := []thread{} // threads of cur, in a fixed order
	for i := from; i < t.N; i++ {
		next := map[thread]bool{}
		var no []thread
		add := func(th thread, c bool) {
			if old, ok := next[th]; ok {
				next[th] = sym.Or(old, c)
			} else {
				next[th] = c
				no = append(no, th)
			}
		}
		move := func(th thread, e Edge, c bool) {
			nt := thread{pos: e.Pos, wild: -1, skip: th.skip | e.Skip}
			if a.Wild[e.Pos] < 0 {
				c = sym.And(c, t.Is(i, a.Word[e.Pos]))
				if e.Via >= 0 {
					nt.wild, nt.ago = e.Via, 1
				} else if th.wild >= 0 {
					nt.wild, nt.ago = th.wild, th.ago+1
					if nt.ago > 3 {
						nt.ago = 3
					}
				}
			}
			add(nt, c)
		}
		if i == from {
			for _, e := range a.First {
				move(thread{pos: -1, wild: -1}, e, true)
			}
		}
		for _, th := range order {
			for _, e := range a.Next[th.pos] {
				move(th, e, cur[th])
			}
		}
		// Wildcards that are finished early.
		for w := 0; w < a.NWild; w++ {
			cut := false
			for _, th := range no {
				if th.wild == w && (th.ago >= 3 || a.Stop[th.pos]) || th.skip>>uint(w)&1 == 1 {
					cut = sym.Or(cut, next[th])
				}
			}
			for _, th := range no {
				if a.Wild[th.pos] == w || a.before(th.pos, w) {
					next[th] = sym.And(next[th], sym.Not(cut))
				}
			}
		}
		cur, order = next, no
		for _, th := range order {
			if a.Final[th.pos] {
				end[i+1] = sym.Or(end[i+1], cur[th])
			}
		}
	}
	return end
}

// Can returns, for each k, whether words[from:k] can be read as a text of the pattern at all,
// with the corrections that t allows except in the first two words.
func (a *NFA) Can(t Text, from int) []bool {
	end := make([]bool, t.N+1)
	// can[i][p]: the words before i are read and p was the last position.
	can := make([][]bool, t.N+2)
	for i := range can {
		can[i] = make([]bool, len(a.Word))
	}
	for i := from; i < t.N; i++ {
		try := func(p int, c bool) {
			w := a.Word[p]
			free := i-from >= 2
			ok := true
			if a.Wild[p] < 0 {
				ok = t.Is(i, w)
				if free && t.Near != nil {
					ok = sym.Or(ok, t.Near(i, w))
				}
			}
			can[i+1][p] = sym.Or(can[i+1][p], sym.And(c, ok))
			if !free {
				return
			}
			if i+1 < t.N {
				two := false
				if a.Wild[p] >= 0 {
					if t.JoinAny != nil {
						two = t.JoinAny(i)
					}
				} else if t.Join != nil {
					two = t.Join(i, w)
				}
				can[i+2][p] = sym.Or(can[i+2][p], sym.And(c, two))
			}
			if t.Split != nil {
				for _, e := range a.Next[p] {
					// For two words of a wildcard, what is split is a word expected elsewhere.
					can[i+1][e.Pos] = sym.Or(can[i+1][e.Pos], sym.And(c, t.Split(i, w, a.Word[e.Pos])))
				}
			}
		}
		if i == from {
			for _, e := range a.First {
				try(e.Pos, true)
			}
		}
		for q := range a.Word {
			if i > from {
				for _, e := range a.Next[q] {
					try(e.Pos, can[i][q])
				}
			}
		}
	}
	for i := from + 1; i <= t.N; i++ {
		for p := range a.Word {
			if a.Final[p] {
				end[i] = sym.Or(end[i], can[i][p])
			}
		}
	}
	return end
}
