// mutate lists small changes of Go files as JSON lines (development aid):
// go run ./tools/mutate FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File, Func, Op string
	Line, At, Len  int
	Old, New       string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		tree, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range tree.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			emit := func(op string, from, to token.Pos, text string) {
				a, b := fset.Position(from).Offset, fset.Position(to).Offset
				enc.Encode(mutant{file, fn.Name.Name, op, fset.Position(from).Line, a, b - a, string(src[a:b]), text})
			}
			text := func(n ast.Node) string {
				return string(src[fset.Position(n.Pos()).Offset:fset.Position(n.End()).Offset])
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, err := strconv.ParseInt(x.Value, 0, 64)
						if err == nil {
							emit("int+1", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("int-1", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
					if x.Kind == token.FLOAT {
						v, err := strconv.ParseFloat(x.Value, 64)
						if err == nil {
							emit("float", x.Pos(), x.End(), strconv.FormatFloat(v*(1+1e-5)+1e-7, 'g', -1, 64))
						}
					}
				case *ast.BinaryExpr:
					alt := map[token.Token]token.Token{token.ADD: token.SUB, token.SUB: token.ADD, token.LSS: token.LEQ, token.LEQ: token.LSS,
						token.GTR: token.GEQ, token.GEQ: token.GTR, token.EQL: token.NEQ, token.NEQ: token.EQL, token.LAND: token.LOR, token.LOR: token.LAND, token.SHL: token.SHR, token.MUL: token.ADD}
					if y, ok := x.Y.(*ast.Ident); ok && y.Name == "nil" {
						break
					}
					if a, ok := alt[x.Op]; ok {
						emit("binary", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a.String())
					}
				case *ast.IfStmt:
					if strings.Contains(text(x.Cond), "nil") {
						break
					}
					emit("negate", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				case *ast.ExprStmt:
					if c, ok := x.X.(*ast.CallExpr); ok {
						t := text(c)
						if strings.HasPrefix(t, "panic") || strings.HasPrefix(t, "fmt.") {
							break
						}
						emit("drop", x.Pos(), x.End(), "")
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN && len(x.Lhs) == 1 {
						emit("unassign", x.Lhs[0].Pos(), x.Lhs[0].End(), "_")
					}
				case *ast.CallExpr:
					s, ok := x.Fun.(*ast.SelectorExpr)
					if !ok {
						break
					}
					alts := map[string][]string{"Max": {"Min"}, "Min": {"Max"}, "IsGt": {"IsGe", "IsLt"}, "IsLt": {"IsLe", "IsGt"}, "IsLe": {"IsLt"}, "IsGe": {"IsGt"},
						"Floor": {"Trunc", "Ceil"}, "Trunc": {"Floor"}, "Ceil": {"Floor"}, "Or": {"And"}, "And": {"Or"}, "Add": {"Sub"}, "Sub": {"Add"}, "Lsh": {"Rsh"}, "Rsh": {"Lsh"}, "Mul": {"Add"}, "Div": {"Mul"}, "Sin": {"Cos"}, "Cos": {"Sin"}}
					for _, a := range alts[s.Sel.Name] {
						emit("call", s.Sel.Pos(), s.Sel.End(), a)
					}
					if s.Sel.Name == "Select" && len(x.Args) == 3 {
						emit("select", x.Args[1].Pos(), x.Args[2].End(), text(x.Args[2])+", "+text(x.Args[1]))
					}
					if (s.Sel.Name == "Sub" || s.Sel.Name == "Div") && len(x.Args) == 2 {
						emit("swap", x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]))
					}
					if s.Sel.Name == "IsZero" || s.Sel.Name == "Neg" || s.Sel.Name == "Abs" {
						if len(x.Args) == 1 {
							emit("identity", x.Pos(), x.End(), text(x.Args[0]))
						}
					}
				case *ast.SelectorExpr:
					modes := []string{"Loose", "TightForSmallAbs", "TightForUnknownRange"}
					for _, m := range modes {
						if x.Sel.Name == m {
							for _, o := range modes {
								if o != m {
									emit("mode", x.Sel.Pos(), x.Sel.End(), o)
								}
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						emit("bool", x.Pos(), x.End(), fmt.Sprint(x.Name == "false"))
					}
				}
				return true
			})
		}
	}
}
