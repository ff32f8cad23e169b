// mutate lists small source changes (one per line of JSON) of the given Go files:
// a development tool to look for weak spots of the checks, no check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	File, Op, Old, New string
	From, To, Line     int
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"},
	token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(op string, a, b token.Pos, repl string) {
			enc.Encode(mut{fn, op, string(src[off(a):off(b)]), repl, off(a), off(b), fs.Position(a).Line})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.CompositeLit:
					return len(n.Elts) < 9
				case *ast.BinaryExpr:
					for _, s := range swaps[n.Op] {
						emit("op", n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
					}
				case *ast.BasicLit:
					if n.Kind == token.INT {
						if v, err := strconv.ParseInt(n.Value, 0, 32); err == nil {
							emit("int", n.Pos(), n.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("int", n.Pos(), n.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.IfStmt:
					emit("cond", n.Cond.Pos(), n.Cond.End(), "("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+") && false")
					emit("cond", n.Cond.Pos(), n.Cond.End(), "("+string(src[off(n.Cond.Pos()):off(n.Cond.End())])+") || true")
				case *ast.ExprStmt:
					emit("del", n.Pos(), n.End(), "")
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						emit("del", n.Pos(), n.End(), "")
					}
				case *ast.IncDecStmt:
					emit("del", n.Pos(), n.End(), "")
				}
				return true
			})
		}
	}
}
