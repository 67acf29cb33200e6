package hscan

import (
	"strings"

	"github.com/google/licensecheck"
	"github.com/google/licensecheck/internal/verif/sym"
)

// Patterns that are refused, with a byte to fill in, each in one way.
var defective = []string{
	"a b ((d#", "a b\n((d || #", "a b #))\n", "a#b || d", "a b ?? #", "a b //** #", "((a b)))#", "a b __99999999999__ #",
	"a", "((a ||))\n((b))??", "__3__ a b #", "a __2__ b #", "((a b || __1__))\nd", "",
}

// C30_Scanner: of two to four licenses one or two have a defective pattern: the error names a defective
// one, and none of the others.
func C30_Scanner(j int) {
	bad := func(id string, j int) license {
		b := []byte(defective[j])
		for i := range b {
			if b[i] == '#' {
				b[i] = sym.ByteIn("de ;")
			}
		}
		return license{ID: id, LRE: string(b)}
	}
	good := []license{{ID: "Fine-1", LRE: "a b"}, {ID: "Web-2", URL: "x.org/l"}, {ID: "Fine-3", LRE: "b d __2__ e f"}}
	l := append([]license(nil), good[sym.Conc(sym.Choice(4)):]...)
	n := 1
	if defective[j] != "" {
		l = insert(l, bad("Broken-4", j))
	}
	if sym.Bool() {
		l = insert(l, bad("Wrong-5", sym.Conc(sym.Choice(len(defective)-1))))
		n++
	} else if defective[j] == "" {
		n = 0
	}
	s, err := licensecheck.NewScanner(l)
	for _, x := range l {
		sym.Observe("license", x.ID)
		sym.Observe("lre", x.LRE)
	}
	if n == 0 && len(l) > 0 && l[len(l)-1].LRE != "" {
		sym.Assert(s != nil && err == nil, "a list without defect is refused")
		sym.Cover("accepted")
		return
	}
	sym.Assert(s == nil && err != nil, "a defective list is accepted")
	if n == 0 {
		sym.Cover("no pattern")
		return
	}
	text := err.Error()
	sym.Observe("error", text)
	named := false
	for _, x := range l {
		in := strings.Contains(text, x.ID)
		if x.ID == "Broken-4" || x.ID == "Wrong-5" {
			named = named || in
			continue
		}
		sym.Assert(!in, "the error names a license without defect")
	}
	sym.Assert(named, "the error names no defective license")
	sym.Cover("refused")
}

// insert puts x at any place of l.
func insert(l []license, x license) []license {
	at := sym.Conc(sym.Choice(len(l) + 1))
	var r []license
	r = append(r, l[:at]...)
	r = append(r, x)
	return append(r, l[at:]...)
}

func C30_Scanner_N() int { return len(defective) }
