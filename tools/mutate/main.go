// Mutate lists small changes of Go files: mutate FILE... writes a JSON list of
// {file, func, lo, hi, new, what} to standard output.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, Func string
	Lo, Hi     int
	New, What  string
	Line       int
}

var swaps = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
	token.OR: {"&"}, token.AND: {"|"}, token.AND_NOT: {"&"},
}

func main() {
	var out []mut
	for _, f := range os.Args[1:] {
		src, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		name := ""
		add := func(lo, hi token.Pos, s, what string) {
			out = append(out, mut{f, name, off(lo), off(hi), s, what, fset.Position(lo).Line})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var walk func(n ast.Node) bool
		walk = func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncDecl:
				name = n.Name.Name
			case *ast.GenDecl:
				if n.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				for _, s := range swaps[n.Op] {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, n.Op.String()+" -> "+s)
				}
			case *ast.IncDecStmt:
				s := "--"
				if n.Tok == token.DEC {
					s = "++"
				}
				add(n.TokPos, n.TokPos+2, s, "inc/dec")
				add(n.Pos(), n.End(), "_ = "+text(n.X), "drop "+text(n))
			case *ast.AssignStmt:
				if n.Tok == token.ASSIGN && len(n.Lhs) == 1 {
					add(n.Pos(), n.End(), "_ = "+text(n.Rhs[0]), "drop "+text(n))
				} else if n.Tok == token.ADD_ASSIGN {
					add(n.TokPos, n.TokPos+2, "=", "+= -> =")
					add(n.Pos(), n.End(), "_ = "+text(n.Rhs[0]), "drop "+text(n))
				} else if n.Tok == token.SUB_ASSIGN || n.Tok == token.OR_ASSIGN || n.Tok == token.AND_NOT_ASSIGN {
					add(n.Pos(), n.End(), "_ = "+text(n.Rhs[0]), "drop "+text(n))
				}
			case *ast.BranchStmt:
				if n.Tok == token.CONTINUE || n.Tok == token.BREAK {
					add(n.Pos(), n.End(), "_ = 0", "drop "+text(n))
				}
			case *ast.ExprStmt:
				add(n.Pos(), n.End(), "_ = 0", "drop "+text(n))
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") && false", "if false")
				add(n.Cond.Pos(), n.Cond.End(), "("+text(n.Cond)+") || true", "if true")
			case *ast.ForStmt:
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					add(n.Pos(), n.X.Pos(), "", "drop !")
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					v, err := strconv.ParseInt(n.Value, 0, 64)
					if err == nil {
						add(n.Pos(), n.End(), fmt.Sprint(v+1), n.Value+" + 1")
						if v > 0 {
							add(n.Pos(), n.End(), fmt.Sprint(v-1), n.Value+" - 1")
						}
					}
				case token.CHAR:
					add(n.Pos(), n.End(), "'~'", n.Value+" -> '~'")
					if v, _, _, err := strconv.UnquoteChar(n.Value[1:], '\''); err == nil && v < 0x7e {
						add(n.Pos(), n.End(), strconv.QuoteRune(v+1), n.Value+" + 1")
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && s != "" && len(s) < 30 {
						add(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]), n.Value+" shortened")
						add(n.Pos(), n.End(), strconv.Quote(s[1:]), n.Value+" cut")
					}
				}
			case *ast.Ident:
				if n.Name == "true" {
					add(n.Pos(), n.End(), "false", "true -> false")
				} else if n.Name == "false" {
					add(n.Pos(), n.End(), "true", "false -> true")
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					add(n.Low.Pos(), n.Low.End(), text(n.Low)+" + 1", "slice low + 1")
				}
				if n.High != nil {
					add(n.High.Pos(), n.High.End(), text(n.High)+" - 1", "slice high - 1")
				}
			case *ast.CaseClause:
				if len(n.List) > 1 {
					for i := range n.List {
						if i+1 < len(n.List) {
							add(n.List[i].Pos(), n.List[i+1].Pos(), "", "drop case "+text(n.List[i]))
						}
					}
				}
			}
			return true
		}
		ast.Inspect(file, walk)
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
