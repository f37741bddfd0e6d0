// mutate FILE: lists the mutants of a Go file; mutate FILE N: prints the file with mutant N.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	from, to int
	text     string
	what     string
}

var src []byte
var fset = token.NewFileSet()
var out []mutant

func off(p token.Pos) int { return fset.Position(p).Offset }
func add(a, b token.Pos, text, what string) {
	out = append(out, mutant{off(a), off(b), text, fmt.Sprintf("%d: %s", fset.Position(a).Line, what)})
}
func str(n ast.Node) string {
	s := strings.Join(strings.Fields(string(src[off(n.Pos()):off(n.End())])), " ")
	if len(s) > 70 {
		s = s[:70]
	}
	return s
}

var swaps = map[token.Token][]string{token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"}, token.EQL: {"!="}, token.NEQ: {"=="},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}}

func main() {
	var err error
	src, err = os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	f, err := parser.ParseFile(fset, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, s := range swaps[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s, str(n)+" -> "+s)
			}
		case *ast.BasicLit:
			switch n.Kind {
			case token.INT, token.FLOAT:
				add(n.Pos(), n.End(), "("+n.Value+"+1)", n.Value+" + 1")
				if n.Value != "0" {
					add(n.Pos(), n.End(), "("+n.Value+"-1)", n.Value+" - 1")
				}
			case token.STRING:
				if len(n.Value) > 3 && len(n.Value) < 24 && !strings.ContainsAny(n.Value, " %\\") {
					add(n.Pos(), n.End(), strconv.Quote(n.Value[1:len(n.Value)-1]+"x"), "string "+n.Value)
				}
			}
		case *ast.IfStmt:
			add(n.Cond.Pos(), n.Cond.End(), "true || ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")", "if true: "+str(n.Cond))
			add(n.Cond.Pos(), n.Cond.End(), "false && ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")", "if false: "+str(n.Cond))
		case *ast.UnaryExpr:
			if n.Op == token.SUB || n.Op == token.NOT {
				add(n.OpPos, n.OpPos+1, " ", "no "+n.Op.String()+": "+str(n))
			}
		case *ast.BlockStmt:
			stmts(n.List)
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.Ident:
			if n.Name == "true" {
				add(n.Pos(), n.End(), "false", "true -> false")
			}
			if n.Name == "false" {
				add(n.Pos(), n.End(), "true", "false -> true")
			}
			for _, p := range [][2]string{{"X", "Y"}, {"W", "H"}, {"widthPercentage", "heightPercentage"}, {"heightPercentage", "diagPercentage"}, {"diagPercentage", "widthPercentage"}, {"placeX", "placeY"}, {"curX", "curY"}, {"FillOpacity", "LineOpacity"}, {"FillerColor", "LinerColor"}, {"TrailLineCap", "LeadLineCap"}} {
				for k := 0; k < 2; k++ {
					if n.Name == p[k] {
						add(n.Pos(), n.End(), p[1-k], n.Name+" -> "+p[1-k])
					}
				}
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		for i, m := range out {
			fmt.Println(i, m.what)
		}
		return
	}
	i, _ := strconv.Atoi(os.Args[2])
	m := out[i]
	os.Stdout.Write(src[:m.from])
	fmt.Print(m.text)
	os.Stdout.Write(src[m.to:])
}

func stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s := s.(type) {
		case *ast.AssignStmt:
			if s.Tok != token.DEFINE {
				add(s.Pos(), s.End(), "", "delete "+str(s))
			}
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
			add(s.Pos(), s.End(), "", "delete "+str(s))
		case *ast.BranchStmt:
			if s.Tok == token.BREAK || s.Tok == token.CONTINUE || s.Tok == token.FALLTHROUGH {
				add(s.Pos(), s.End(), "", "delete "+str(s))
			}
		}
	}
}
