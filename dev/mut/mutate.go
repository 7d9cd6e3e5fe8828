// mutate lists small changes of a Go source file as JSON lines: {file, line, from, to, text, what}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	Text string `json:"text"`
	What string `json:"what"`
	Func string `json:"func"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		out := func(n ast.Node, from, to token.Pos, text, what string) {
			enc.Encode(mut{file, fset.Position(n.Pos()).Line, off(from), off(to), text, what, fn})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		printing := func(n ast.Node) bool {
			s := txt(n)
			for _, p := range []string{"fmt.Print", "log.Print", "panic(", "writer.Flush", "defer "} {
				if strings.HasPrefix(s, p) {
					return true
				}
			}
			return false
		}
		swaps := map[token.Token][]string{
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, to := range swaps[x.Op] {
						out(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), to, fmt.Sprintf("%s -> %s in %s", x.Op, to, txt(x)))
					}
				case *ast.IfStmt:
					out(x, x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") && false", "never "+txt(x.Cond))
					out(x, x.Cond.Pos(), x.Cond.End(), "("+txt(x.Cond)+") || true", "always "+txt(x.Cond))
				case *ast.ExprStmt:
					if !printing(x) {
						out(x, x.Pos(), x.End(), "", "drop "+txt(x))
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN {
						l := []string{}
						for _, e := range x.Lhs {
							if txt(e) != "_" {
								l = append(l, "_ = "+txt(e))
							}
						}
						for _, e := range x.Rhs {
							if _, ok := e.(*ast.Ident); ok && txt(e) != "nil" {
								l = append(l, "_ = "+txt(e))
							}
						}
						out(x, x.Pos(), x.End(), strings.Join(l, "; "), "drop "+txt(x))
					}
				case *ast.IncDecStmt:
					out(x, x.Pos(), x.End(), "", "drop "+txt(x))
				case *ast.BranchStmt:
					out(x, x.Pos(), x.End(), "", "drop "+txt(x))
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							out(x, x.Pos(), x.End(), strconv.Itoa(v+1), fmt.Sprintf("%d -> %d", v, v+1))
							if v > 0 {
								out(x, x.Pos(), x.End(), strconv.Itoa(v-1), fmt.Sprintf("%d -> %d", v, v-1))
							}
						}
					}
					if x.Kind == token.FLOAT {
						out(x, x.Pos(), x.End(), "(2*"+x.Value+")", x.Value+" doubled")
					}
				case *ast.Ident:
					if x.Name == "true" {
						out(x, x.Pos(), x.End(), "false", "true -> false")
					}
					if x.Name == "false" {
						out(x, x.Pos(), x.End(), "true", "false -> true")
					}
				case *ast.CaseClause:
					if len(x.Body) > 0 && x.List != nil {
						t := ""
						if _, ok := x.List[0].(*ast.BasicLit); ok {
							out(x, x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), t, "empty case "+txt(x.List[0]))
						}
					}
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						last := x.Results[len(x.Results)-1]
						if txt(last) == "err" || strings.HasPrefix(txt(last), "fmt.Errorf") {
							out(x, last.Pos(), last.End(), "nil", "forget "+txt(x))
						}
					}
				}
				return true
			})
		}
	}
}
