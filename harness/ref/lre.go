package ref

import "github.com/google/licensecheck/internal/verif/sym"

// Node is a license regular expression.
type Node struct {
	Op   int
	Word string  // Lit
	N    int     // Wild
	Sub  []*Node // Cat, Alt, Opt (one)
}

// The kinds of nodes.
const (
	Cat = iota
	Alt
	Opt
	Lit
	Wild
)

func at(s string, i int, p string) bool {
	if i+len(p) > len(s) {
		return false
	}
	for k := 0; k < len(p); k++ {
		if s[i+k] != p[k] {
			return false
		}
	}
	return true
}

func blank(c byte) bool { return sym.Or(c == ' ', c == '\t') }

// level is the state of one open group: its alternatives and the current one.
type level struct {
	alts []*Node
	cur  *Node
}

func newLevel() *level { return &level{cur: &Node{Op: Cat}} }

func (l *level) words(text string) {
	for _, w := range Split(text) {
		l.cur.Sub = append(l.cur.Sub, &Node{Op: Lit, Word: w.S})
	}
}

func (l *level) done() *Node {
	if len(l.alts) == 0 {
		return l.cur
	}
	return &Node{Op: Alt, Sub: append(l.alts, l.cur)}
}

// MaxWild is the largest count of a wildcard.
const MaxWild = 1<<31 - 1

// Parse parses a license regular expression, as documented:
// "((" first on its line, "))" and "))??" last on it, "||" inside a group only,
// "??" right after "))" only, "//**" closed by "**//", groups balanced.
func Parse(s string) (*Node, bool) {
	stack := []*level{newLevel()}
	start := 0
	for i := 0; i < len(s); {
		top := stack[len(stack)-1]
		switch {
		case at(s, i, "(("):
			j := i
			for j > 0 && blank(s[j-1]) {
				j--
			}
			if j > 0 && s[j-1] != '\n' {
				return nil, false
			}
			top.words(s[start:i])
			stack = append(stack, newLevel())
			i += 2
			start = i
		case at(s, i, "||"):
			if len(stack) == 1 {
				return nil, false
			}
			top.words(s[start:i])
			top.alts = append(top.alts, top.cur)
			top.cur = &Node{Op: Cat}
			i += 2
			start = i
		case at(s, i, "))"):
			j := i + 2
			for j < len(s) && blank(s[j]) {
				j++
			}
			opt := at(s, j, "??")
			if !opt && j < len(s) && s[j] != '\n' {
				return nil, false
			}
			if len(stack) == 1 {
				return nil, false
			}
			top.words(s[start:i])
			n := top.done()
			stack = stack[:len(stack)-1]
			if opt {
				j += 2
				for j < len(s) && (blank(s[j]) || s[j] == '\r') {
					j++
				}
				if j < len(s) && s[j] != '\n' {
					return nil, false
				}
				n = &Node{Op: Opt, Sub: []*Node{n}}
			}
			top = stack[len(stack)-1]
			top.cur.Sub = append(top.cur.Sub, n)
			i = j
			start = i
		case at(s, i, "??"):
			return nil, false // not after "))"
		case at(s, i, "__"):
			j := i + 2
			n := 0
			big := false
			for j < len(s) && digit(s[j]) {
				n = n*10 + int(s[j]-'0')
				if n > MaxWild {
					big = true
					n = 0
				}
				j++
			}
			if j == i+2 || !at(s, j, "__") {
				i++
				continue
			}
			if big {
				return nil, false
			}
			top.words(s[start:i])
			top.cur.Sub = append(top.cur.Sub, &Node{Op: Wild, N: n})
			i = j + 2
			start = i
		case at(s, i, "//**"):
			j := i + 4
			for j < len(s) && !at(s, j, "**//") {
				j++
			}
			if j >= len(s) {
				return nil, false
			}
			top.words(s[start:i])
			i = j + 4
			start = i
		default:
			i++
		}
	}
	if len(stack) != 1 {
		return nil, false
	}
	stack[0].words(s[start:])
	return stack[0].done(), true
}

// Leading is what can be known about the first two words of the texts a pattern allows.
type Leading struct {
	Empty, One, Wild bool
}

// The possible first (up to) two elements of a text: a word, or a word standing for a wildcard ('*').
// Shorter than two elements when the text ends there.
var firsts = [...]string{"", ".", "*", "..", ".*", "*.", "**"}

// seqs returns the set of firsts of the texts allowed by n, one bit each.
func seqs(n *Node) uint {
	switch n.Op {
	case Lit:
		return 1 << 1
	case Wild:
		return 1<<0 | 1<<2 | 1<<6
	case Opt:
		return 1 | seqs(n.Sub[0])
	case Alt:
		r := uint(0)
		for _, sub := range n.Sub {
			r |= seqs(sub)
		}
		return r
	}
	r := uint(1)
	for _, sub := range n.Sub {
		r = join(r, seqs(sub))
	}
	return r
}

func join(r, q uint) uint {
	t := uint(0)
	for i, a := range firsts {
		if r>>uint(i)&1 == 0 {
			continue
		}
		if len(a) == 2 {
			t |= 1 << uint(i)
			continue
		}
		for k, b := range firsts {
			if q>>uint(k)&1 == 0 {
				continue
			}
			c := a + b
			if len(c) > 2 {
				c = c[:2]
			}
			for x, f := range firsts {
				if f == c {
					t |= 1 << uint(x)
				}
			}
		}
	}
	return t
}

// Start tells what the first two words of the texts allowed by n can be.
func Start(n *Node) Leading {
	r := seqs(n)
	return Leading{
		Empty: r&1 != 0,
		Wild:  r&(1<<2|1<<4|1<<5|1<<6) != 0,
		One:   r&(1<<1) != 0,
	}
}

// Bad reports that the pattern must be refused.
func (l Leading) Bad() bool { return l.Empty || l.One || l.Wild }

// required reports that every text allowed by n has a word that is not part of a wildcard.
func required(n *Node) bool {
	switch n.Op {
	case Lit:
		return true
	case Alt:
		for _, s := range n.Sub {
			if !required(s) {
				return false
			}
		}
		return true
	case Cat:
		for _, s := range n.Sub {
			if required(s) {
				return true
			}
		}
	}
	return false
}

// WildsFollowed reports that every wildcard of n is followed by required text.
// after tells whether required text follows n itself.
func WildsFollowed(n *Node, after bool) bool {
	switch n.Op {
	case Wild:
		return after
	case Opt, Alt:
		for _, s := range n.Sub {
			if !WildsFollowed(s, after) {
				return false
			}
		}
	case Cat:
		for i := len(n.Sub) - 1; i >= 0; i-- {
			if !WildsFollowed(n.Sub[i], after) {
				return false
			}
			after = after || required(n.Sub[i])
		}
	}
	return true
}
