// mutgen lists small mutations of Go files, for tools/mutate.py:
// file, start, end, function, replacement (tab separated, quoted).
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

var rel = map[token.Token][]token.Token{
	token.LSS: {token.LEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL},
	token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	token.AND: {token.OR}, token.OR: {token.AND},
}

func main() {
	for _, path := range os.Args[1:] {
		src, _ := os.ReadFile(path)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name := fd.Name.Name
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				name = strings.TrimPrefix(string(src[off(t.Pos()):off(t.End())]), "*") + "." + name
			}
			out := func(a, b token.Pos, repl string) {
				fmt.Printf("%s\t%d\t%d\t%s\t%s\n", path, off(a), off(b), name, strconv.Quote(repl))
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "panic" {
						return false
					}
				case *ast.BinaryExpr:
					if lit, ok := n.X.(*ast.BasicLit); ok && lit.Kind == token.STRING {
						return true
					}
					for _, t := range rel[n.Op] {
						out(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t.String())
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						v, err := strconv.ParseInt(n.Value, 0, 64)
						if err == nil {
							out(n.Pos(), n.End(), fmt.Sprint(v+1))
							if v > 0 {
								out(n.Pos(), n.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.IfStmt:
					if n.Init == nil {
						out(n.Cond.Pos(), n.Cond.End(), "false && ("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+")")
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s := s.(type) {
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								var u []string
								for range s.Rhs {
									u = append(u, "_")
								}
								var rhs []string
								for _, r := range s.Rhs {
									rhs = append(rhs, string(src[off(r.Pos()):off(r.End())]))
								}
								out(s.Pos(), s.End(), strings.Join(u, ", ")+" = "+strings.Join(rhs, ", "))
							}
						case *ast.ExprStmt:
							out(s.Pos(), s.End(), "")
						case *ast.IncDecStmt:
							out(s.Pos(), s.End(), "")
						}
					}
				case *ast.BranchStmt:
					if n.Label == nil && n.Tok == token.BREAK {
						out(n.Pos(), n.End(), "continue")
					}
				}
				return true
			})
		}
	}
}
