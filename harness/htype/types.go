// Package htype holds the harnesses for license types (C17, C18).
package htype

import (
	lc "github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/verif/sym"
)

var names = []struct {
	t lc.Type
	s string
}{
	{lc.Unknown, "Unknown"},
	{lc.Unrestricted, "Unrestricted"},
	{lc.Notice, "Notice"},
	{lc.ShareChanges, "ShareChanges"},
	{lc.ShareProgram, "ShareProgram"},
	{lc.ShareServer, "ShareServer"},
	{lc.NonCommercial, "NonCommercial"},
	{lc.Discouraged, "Discouraged"},
}

var levels = []lc.Type{lc.ShareServer, lc.ShareProgram, lc.ShareChanges, lc.Notice, lc.Unrestricted}

func declared() lc.Type {
	var t lc.Type
	for _, n := range names {
		t |= n.t
	}
	return t
}

// anyType returns an arbitrary type made of the declared bits.
func anyType() lc.Type {
	t := lc.Type(sym.Uint64())
	sym.Assume(t&^declared() == 0)
	return t
}

func roundTrip(t lc.Type) string {
	s := t.String()
	sym.Observe("text", s)
	u, err := lc.ParseType(s)
	sym.Assert(err == nil, "the text of a type does not parse")
	sym.Assert(u == t, "the text of a type names another type")
	return s
}

// C17_Declared: every combination of the declared bits, and the form of its text.
func C17_Declared(int) {
	t := anyType()
	s := roundTrip(t)
	want := ""
	for _, n := range names {
		if sym.ConcBool(n.t != 0 && t&n.t != 0) {
			want += "|" + n.s
		}
	}
	if want == "" {
		want = "|Unknown"
	}
	sym.Assert("|"+s == want, "form of the text of a type")
	sym.Cover("declared type")
}

// C17_Undeclared: every 64-bit value with undeclared bits; one job for each set of declared bits.
func C17_Undeclared(j int) {
	t := lc.Type(sym.Uint64())
	var d lc.Type
	for i := 1; i < len(names); i++ {
		if j>>uint(i-1)&1 == 1 {
			d |= names[i].t
		}
	}
	sym.Assume(t&declared() == d)
	sym.Assume(t&^declared() != 0)
	roundTrip(t)
	sym.Cover("undeclared bits")
}

func C17_Undeclared_N() int { return 1 << uint(len(names)-1) }

// field is the meaning of one element of a type's text: its value, and whether it has one.
// The third result tells whether the text is of a form the property says nothing about.
func field(f string) (lc.Type, bool, bool) {
	for _, n := range names {
		if f == n.s {
			return n.t, true, true
		}
	}
	if len(f) < 6 || f[:5] != "Type(" || f[len(f)-1] != ')' {
		return 0, false, true
	}
	d := f[5 : len(f)-1]
	base := lc.Type(10)
	if len(d) >= 2 && d[0] == '0' {
		if d[1] != 'x' && d[1] != 'X' {
			return 0, false, false // octal, binary
		}
		base, d = 16, d[2:]
	}
	if d == "" {
		return 0, false, true
	}
	var v lc.Type
	ok := true
	for i := 0; i < len(d); i++ {
		c := d[i]
		dec := sym.And('0' <= c, c <= '9')
		hex := sym.And(sym.And('a' <= c|0x20, c|0x20 <= 'f'), base == 16)
		if sym.ConcBool(c == '_') {
			return 0, false, false
		}
		ok = sym.And(ok, sym.Or(dec, hex))
		v = v*base + lc.Type(sym.Ite(dec, int(c-'0'), int(c|0x20-'a')+10))
	}
	return v, ok, true
}

// check compares ParseType with the meaning of its argument.
func check(s string) {
	sym.Observe("text", s)
	got, err := lc.ParseType(s)
	var want lc.Type
	ok := true
	start := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '|' {
			v, good, known := field(s[start:i])
			if !known {
				sym.Cover("other number")
				return
			}
			want |= v
			ok = sym.And(ok, good)
			start = i + 1
		}
	}
	sym.Assert((err == nil) == ok, "whether a text is a type")
	sym.Assert(sym.Implies(ok, got == want), "meaning of the text of a type")
	sym.Observe("type", uint64(got))
}

// C17_Text: every text of up to 8 bytes (thorough: 10).
func C17_Text(j int) {
	check(sym.String(j))
	sym.Cover("text parsed")
}

func C17_Text_N() int {
	if sym.Thorough() {
		return 11
	}
	return 9
}

// C17_Number: Type(...) with up to 4 arbitrary bytes in the parentheses.
func C17_Number(j int) {
	pre := []string{"", "Notice|", "Type(0x"}[j/5]
	n := j % 5
	if j/5 == 2 {
		check(pre + sym.String(n) + ")")
	} else {
		check(pre + "Type(" + sym.String(n) + ")")
	}
	sym.Cover("number parsed")
}

func C17_Number_N() int { return 15 }

// C17_Names: lists of up to three names, one with an arbitrary byte put in its place.
func C17_Names(j int) {
	s := names[j/len(names)].s + "|" + names[j%len(names)].s
	if sym.ConcBool(sym.Bool()) {
		s += "|Notice"
	}
	p := sym.Choice(len(s) + 1)
	if p < len(s) {
		s = s[:p] + sym.String(1) + s[p+1:]
	}
	check(s)
	sym.Cover("names parsed")
}

func C17_Names_N() int { return len(names) * len(names) }

// C17_Overflow: numbers too large for a type are refused.
func C17_Overflow(j int) {
	b := []byte("Type(0x")
	n := 17
	for i := 0; i < n; i++ {
		c := sym.Byte()
		sym.Assume(sym.Or(sym.And('0' <= c, c <= '9'), sym.And('a' <= c, c <= 'f')))
		b = append(b, c)
	}
	sym.Assume(b[7] != '0')
	_, err := lc.ParseType(string(b) + ")")
	sym.Assert(err != nil, "a number of more than 64 bits")
	sym.Cover("overflow")
}

// merged is what Merge must give for declared types.
func merged(t, u lc.Type) lc.Type {
	var m lc.Type
	done := false
	for _, l := range levels {
		has := (t|u)&l != 0
		if sym.ConcBool(sym.And(has, sym.Not(done))) {
			m = l
			done = true
		}
	}
	if sym.ConcBool((t|u)&lc.NonCommercial != 0) {
		m |= lc.NonCommercial
		if m&lc.Unrestricted != 0 {
			m &^= lc.Unrestricted
		}
	}
	if sym.ConcBool((t|u)&lc.Discouraged != 0) {
		m |= lc.Discouraged
	}
	if sym.ConcBool(sym.Or(t == lc.Unknown, u == lc.Unknown)) {
		m = lc.Unknown
	}
	return m
}

// C18_Pair: all pairs of declared types.
func C18_Pair(int) {
	t, u := anyType(), anyType()
	sym.Observe("t", uint64(t))
	sym.Observe("u", uint64(u))
	got := t.Merge(u)
	sym.Observe("merged", uint64(got))
	sym.Assert(got == merged(t, u), "merged type")
	sym.Assert(u.Merge(t) == got, "order of a merge")
	sym.Cover("pair merged")
}

// C18_Any: all pairs of 64-bit values.
func C18_Any(int) {
	t, u := lc.Type(sym.Uint64()), lc.Type(sym.Uint64())
	got := t.Merge(u)
	sym.Assert(u.Merge(t) == got, "order of a merge")
	sym.Assert(sym.Implies(sym.Or(t == 0, u == 0), got == lc.Unknown), "merge with Unknown")
	sym.Assert(got.Merge(got) == got, "merging a merged type")
	keep := lc.NonCommercial | lc.Discouraged
	sym.Assert(sym.Or(sym.Or(t == 0, u == 0), got&keep == (t|u)&keep), "NonCommercial and Discouraged are kept")
	sym.Assert(got&^(t|u) == 0, "a merge invents a requirement")
	sym.Cover("any pair merged")
}

// C18_Again: merging again with one of the two changes nothing.
func C18_Again(int) {
	t, u := anyType(), anyType()
	got := t.Merge(u)
	sym.Assert(got.Merge(t) == got, "merging again")
	sym.Assert(u.Merge(got) == got, "merging again")
	sym.Cover("merged again")
}

// C18_Triple: three declared types in every order and grouping.
func C18_Triple(int) {
	t, u, v := anyType(), anyType(), anyType()
	a := t.Merge(u).Merge(v)
	sym.Assert(t.Merge(u.Merge(v)) == a, "grouping of merges")
	sym.Assert(u.Merge(t).Merge(v) == a, "order of merges")
	sym.Assert(v.Merge(t).Merge(u) == a, "order of merges")
	sym.Assert(u.Merge(v).Merge(t) == a, "order of merges")
	sym.Cover("triple merged")
}
