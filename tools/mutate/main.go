// Command mutate lists or applies small changes of Go files.
//   mutate FILE          prints one line per change: index, line, description
//   mutate FILE INDEX    prints the file with that change
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	what     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var es []edit
	add := func(n ast.Node, t, what string) { es = append(es, edit{off(n.Pos()), off(n.End()), t, what}) }
	swap := map[token.Token][]string{token.LAND: {"||"}, token.LOR: {"&&"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"},
		token.LEQ: {"<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}}
	errRet := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.IfStmt:
			c := text(n.Cond)
			isErr := strings.HasSuffix(c, "err != nil")
			if !isErr {
				add(n.Cond, "("+c+") == false", "negate "+c)
				add(n.Cond, "("+c+") && false", "never "+c)
			}
			if n.Else == nil && !isErr {
				add(n.Cond, "("+c+") || true", "always "+c)
			}
			if isErr {
				add(n.Cond, "("+c+") && false", "ignore error "+strconv.Itoa(fs.Position(n.Pos()).Line))
			}
			if b, ok := n.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
				add(b, text(b.X), "only left of "+c)
				add(b, text(b.Y), "only right of "+c)
			}
		case *ast.BinaryExpr:
			for _, s := range swap[n.Op] {
				if n.Op == token.ADD && strings.ContainsAny(text(n), "\"`") {
					continue
				}
				es = append(es, edit{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), s, n.Op.String() + " -> " + s + " in " + text(n)})
			}
		case *ast.BlockStmt:
			for _, s := range n.List {
				switch s := s.(type) {
				case *ast.ExprStmt:
					add(s, "", "delete "+text(s))
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						add(s, "", "delete "+text(s))
					}
				case *ast.IncDecStmt, *ast.DeferStmt:
					add(s, "", "delete "+text(s))
				case *ast.BranchStmt:
					add(s, "", "delete "+text(s))
				}
			}
		case *ast.CaseClause:
			if len(n.Body) > 0 && n.List != nil {
				es = append(es, edit{off(n.Colon) + 1, off(n.End()), "", "empty case " + text(n.List[0])})
			}
			if len(n.List) > 1 {
				for i, x := range n.List {
					var r []string
					for j, y := range n.List {
						if j != i {
							r = append(r, text(y))
						}
					}
					es = append(es, edit{off(n.List[0].Pos()), off(n.List[len(n.List)-1].End()), strings.Join(r, ", "), "case without " + text(x)})
				}
			}
		case *ast.RangeStmt:
			if !bytes.Contains(src[off(n.Body.Pos()):off(n.Body.End())], []byte("break")) {
				es = append(es, edit{off(n.Body.End()) - 1, off(n.Body.End()) - 1, "\nbreak\n", "only first of " + text(n.X)})
			}
			es = append(es, edit{off(n.Body.Pos()) + 1, off(n.Body.Pos()) + 1, "\nif true { break }\n", "none of " + text(n.X)})
		case *ast.ReturnStmt:
			for _, r := range n.Results {
				t := text(r)
				switch {
				case t == "true":
					add(r, "false", "return false")
				case t == "false":
					add(r, "true", "return true")
				case t == "err" || strings.HasPrefix(t, "fmt.Errorf"):
					if !errRet || true {
						add(r, "nil", "return nil for "+t)
					}
				}
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				add(n, "("+n.Value+"+1)", n.Value+" + 1")
			}
		case *ast.KeyValueExpr:
			add(n, "", "without "+text(n))
		case *ast.UnaryExpr:
			if n.Op == token.NOT {
				add(n, text(n.X), "not "+text(n))
			}
		case *ast.ImportSpec, *ast.Field:
			if fl, ok := n.(*ast.Field); ok && fl.Tag != nil && strings.Contains(fl.Tag.Value, "json:") {
				add(fl.Tag, "`json:\"-\"`", "no JSON: "+text(fl))
			}
			return true
		}
		return true
	})
	if len(os.Args) > 2 {
		i, _ := strconv.Atoi(os.Args[2])
		e := es[i]
		fmt.Print(string(src[:e.from]) + e.text + string(src[e.to:]))
		return
	}
	for i, e := range es {
		fmt.Printf("%d\t%d\t%s\n", i, 1+strings.Count(string(src[:e.from]), "\n"), strings.Join(strings.Fields(e.what), " "))
	}
}
