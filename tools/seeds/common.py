HEAD = '''package main

import (
	"fmt"
	"os"

	lc "github.com/google/licensecheck"
)

func must(ok bool, what string) {
	if !ok {
		fmt.Println("FAIL:", what)
		os.Exit(1)
	}
}

func scanner(ls ...lc.License) *lc.Scanner {
	s, err := lc.NewScanner(ls)
	must(err == nil, fmt.Sprint("NewScanner: ", err))
	return s
}

'''
MHEAD = '''package main

import (
	"fmt"
	"os"

	"github.com/google/licensecheck/internal/match"
)

func must(ok bool, what string) {
	if !ok {
		fmt.Println("FAIL:", what)
		os.Exit(1)
	}
}

func multi(pats ...string) *match.MultiLRE {
	d := new(match.Dict)
	var list []*match.LRE
	for _, p := range pats {
		re, err := match.ParseLRE(d, "", p)
		must(err == nil, fmt.Sprint("ParseLRE: ", err))
		list = append(list, re)
	}
	m, err := match.NewMultiLRE(list)
	must(err == nil, fmt.Sprint("NewMultiLRE: ", err))
	return m
}

'''
OHEAD = '''package main

import (
	"fmt"
	"os"

	"github.com/google/licensecheck/old"
)

func must(ok bool, what string) {
	if !ok {
		fmt.Println("FAIL:", what)
		os.Exit(1)
	}
}

'''
S, R, D, X, M = "scan.go", "internal/match/regexp.go", "internal/match/dict.go", "internal/match/resyntax.go", "internal/match/rematch.go"
