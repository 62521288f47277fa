// gen lists small changes (mutants) of Go files: one JSON object per line with the byte range to replace.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File, Func, Kind, Old, New string
	From, To, Line             int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[1:] {
		fs := token.NewFileSet()
		src, _ := os.ReadFile(f)
		file, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		show := func(n ast.Node) string { var b bytes.Buffer; printer.Fprint(&b, fs, n); return b.String() }
		for _, d := range file.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Body == nil {
				continue
			}
			put := func(kind string, from, to token.Pos, new string) {
				a, b := off(from), off(to)
				enc.Encode(mutant{f, fn.Name.Name, kind, string(src[a:b]), new, a, b, fs.Position(from).Line})
			}
			isPrint := func(s string) bool {
				return strings.HasPrefix(s, "fmt.Print") || strings.HasPrefix(s, "log.") || strings.HasPrefix(s, "util.CheckErr")
			}
			ast.Inspect(fn.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ExprStmt:
					if isPrint(show(x)) {
						return false
					}
					put("delete", x.Pos(), x.End(), "")
				case *ast.IncDecStmt:
					put("delete", x.Pos(), x.End(), "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						put("delete", x.Pos(), x.End(), "")
					}
				case *ast.DeferStmt, *ast.GoStmt:
					put("delete", n.Pos(), n.End(), "")
				case *ast.IfStmt:
					c := show(x.Cond)
					if x.Else == nil {
						put("delete if", x.Pos(), x.End(), "")
					}
					put("negate", x.Cond.Pos(), x.Cond.End(), "!("+c+")")
					if b, ok := x.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LOR || b.Op == token.LAND) {
						put("left only", x.Cond.Pos(), x.Cond.End(), show(b.X))
						put("right only", x.Cond.Pos(), x.Cond.End(), show(b.Y))
					}
				case *ast.BinaryExpr:
					for _, s := range map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}}[x.Op] {
						put("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							put("number", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								put("number", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" || x.Name == "false" {
						put("bool", x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name])
					}
				case *ast.CallExpr:
					if isPrint(show(x)) {
						return false
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						if o := map[string]string{"Add": "Sub", "Sub": "Add", "Mul": "Add", "Div": "Mul", "Inv": "Neg", "Commit": "Sub"}[s.Sel.Name]; o != "" {
							put("method", s.Sel.Pos(), s.Sel.End(), o)
						}
					}
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := show(x.Args[i]), show(x.Args[i+1])
						if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Add" || s.Sel.Name == "Mul" && !strings.Contains(show(s.X), "uite")) && len(x.Args) == 2 {
							continue // the same by the laws of arithmetic, or does not build
						}
						if a != b {
							put("swap arguments", x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a)
						}
					}
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" {
						for i := 1; i < len(x.Args); i++ { // variadic: leave one out
							put("leave out", x.Args[i-1].End(), x.Args[i].End(), "")
						}
					}
				}
				return true
			})
		}
	}
}
