// Package ref holds reference models: what the properties say the code computes, written
// independently of the code under test.
package ref

import (
	"unicode"
	"unicode/utf8"

	"github.com/google/licensecheck/internal/verif/sym"
)

// W is a word of a text: its normalised spelling and its place.
type W struct {
	S      string
	Lo, Hi int
}

func letter(c byte) bool {
	return sym.Or(sym.And('a' <= c, c <= 'z'), sym.And('A' <= c, c <= 'Z'))
}

func digit(c byte) bool { return sym.And('0' <= c, c <= '9') }

func hexDigit(c byte) bool {
	return sym.Or(digit(c), sym.Or(sym.And('a' <= c, c <= 'f'), sym.And('A' <= c, c <= 'F')))
}

// tag returns the size of the HTML tag at the start of t, or 0.
func tag(t string) int {
	if t[0] != '<' {
		return 0
	}
	// The tag ends at the first '>'; another '<' before it means it is not a tag.
	e := 1
	for e < len(t) && t[e] != '>' {
		if t[e] == '<' {
			return 0
		}
		e++
	}
	if e == len(t) {
		return 0
	}
	body := t[1:e]
	if body != "" && body[0] == '/' {
		body = body[1:]
	}
	if body == "" || !letter(body[0]) {
		return 0
	}
	lines := 0
	spaced := false
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '\n', '\r':
			lines++
		case ' ':
			spaced = true
		case '@':
			if !spaced {
				return 0 // an e-mail address
			}
		case ':':
			if !spaced && i+1 < len(body) && body[i+1] == '/' {
				return 0 // a URL
			}
		}
	}
	if lines > 2 {
		return 0
	}
	return e + 1
}

// entity returns the size of the HTML entity at the start of t, or 0.
func entity(t string) int {
	if t[0] != '&' {
		return 0
	}
	i := 1
	n := 0
	if i < len(t) && t[i] == '#' {
		i++
		if i < len(t) && t[i] == 'x' {
			i++
			for i < len(t) && hexDigit(t[i]) {
				i++
				n++
			}
		} else {
			for i < len(t) && digit(t[i]) {
				i++
				n++
			}
		}
	} else {
		for i < len(t) && letter(t[i]) {
			i++
			n++
		}
	}
	if n == 0 || i == len(t) || t[i] != ';' {
		return 0
	}
	return i + 1
}

// anchor returns the size of the Markdown heading anchor at the start of t, or 0.
func anchor(t string) int {
	if len(t) < 2 || t[0] != '{' || t[1] != '#' {
		return 0
	}
	for i := 2; i < len(t); i++ {
		if t[i] == '}' {
			return i + 1
		}
		if t[i] == ' ' || t[i] == '\n' || t[i] == '\r' {
			return 0
		}
	}
	return 0
}

func hasPrefix(t, p string) bool {
	if len(t) < len(p) {
		return false
	}
	for i := 0; i < len(p); i++ {
		if t[i] != p[i] {
			return false
		}
	}
	return true
}

// link returns the size of the Markdown link target at the start of t, or 0.
func link(t string) int {
	if len(t) < 2 || t[0] != ']' || t[1] != '(' {
		return 0
	}
	u := t[2:]
	if !hasPrefix(u, "http://") && !hasPrefix(u, "https://") && !hasPrefix(u, "mailto:") && !hasPrefix(u, "file:") && !hasPrefix(u, "#") {
		return 0
	}
	for i := 0; i < len(u); i++ {
		switch u[i] {
		case ')':
			return 2 + i + 1
		case ' ', '\t', '\n', '\r':
			return 0
		}
	}
	return 0
}

// Fold returns the representative of all case and accent variants of r, or -1 for the
// combining accents, which are dropped.
func Fold(r rune) rune {
	m := r
	x := r
	for i := 0; i < 3; i++ {
		x = unicode.SimpleFold(x)
		m = sym.IteRune(x < m, x, m)
	}
	m = sym.IteRune(sym.Or(m == 'Á', m == 'À'), 'a', m)
	m = sym.IteRune(sym.Or(m == 'É', m == 'È'), 'e', m)
	m = sym.IteRune(sym.Or(m == 'Í', m == 'Ì'), 'i', m)
	m = sym.IteRune(sym.Or(m == 'Ó', m == 'Ò'), 'o', m)
	m = sym.IteRune(sym.Or(m == 'Ú', m == 'Ù'), 'u', m)
	m = sym.IteRune(sym.And('A' <= m, m <= 'Z'), m+('a'-'A'), m)
	m = sym.IteRune(sym.Or(m == 0x300, m == 0x301), -1, m)
	return m
}

func wordStart(r rune) bool {
	return sym.Or(sym.Or(unicode.IsLetter(r), unicode.IsDigit(r)), r == '©')
}

func wordCont(r rune) bool {
	return sym.Or(sym.Or(unicode.IsLetter(r), unicode.IsDigit(r)), unicode.Is(unicode.Mn, r))
}

func rewrite(w string) string {
	switch w {
	case "https":
		return "http"
	case "©":
		return "copyright"
	case "are":
		return "is"
	case "them", "they":
		return "it"
	case "these", "this", "those":
		return "the"
	case "copies":
		return "copy"
	}
	return w
}

// Split splits text into words.
func Split(text string) []W {
	var ws []W
	add := func(s string, lo, hi int) {
		if s == "copyright" && len(ws) > 0 && ws[len(ws)-1].S == "copyright" {
			return
		}
		ws = append(ws, W{s, lo, hi})
	}
	for i := 0; i < len(text); {
		t := text[i:]
		n := 0
		switch t[0] {
		case '<':
			n = tag(t)
		case '&':
			n = entity(t)
			if n == 6 && t[:6] == "&copy;" {
				add("copyright", i, i+6)
			}
		case '{':
			n = anchor(t)
		case ']':
			n = link(t)
		}
		if n > 0 {
			i += n
			continue
		}
		r, size := utf8.DecodeRuneInString(t)
		if !wordStart(r) {
			i += size
			continue
		}
		if r == '©' {
			add("copyright", i, i+size)
			i += size
			continue
		}
		var w []byte
		w = appendRune(w, Fold(r))
		j := i + size
		for j < len(text) {
			r, size := utf8.DecodeRuneInString(text[j:])
			if !wordCont(r) {
				break
			}
			w = appendRune(w, Fold(r))
			j += size
		}
		if j+3 <= len(text) && text[j] == '(' && text[j+1] == 's' && text[j+2] == ')' {
			w = append(w, 's')
			j += 3
		}
		s := string(w)
		if s == "c" && i > 0 && text[i-1] == '(' && j < len(text) && text[j] == ')' {
			add("copyright", i-1, j+1)
		} else {
			add(rewrite(s), i, j)
		}
		i = j
	}
	return ws
}

func appendRune(w []byte, r rune) []byte {
	if r < 0 {
		return w
	}
	return append(w, string(r)...)
}
