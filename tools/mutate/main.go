// mutate lists or applies single-point mutations of one Go file (development tool: no check uses it).
// mutate FILE           prints one line per mutant: index, line, kind, text
// mutate FILE N         writes the mutated file to standard output
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	from, to int
	text     string
	kind     string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var ms []mut
	add := func(n ast.Node, t, k string) { ms = append(ms, mut{off(n.Pos()), off(n.End()), t, k}) }
	logcall := func(n ast.Node) bool {
		t := txt(n)
		return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "fmt.Print")
	}
	fn := ""
	whole := map[*ast.BinaryExpr]bool{}
	swaps := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.LAND: "||", token.LOR: "&&", token.ADD: "-", token.SUB: "+", token.SHL: ">>", token.SHR: "<<", token.AND: "|", token.OR: "&", token.MUL: "/", token.QUO: "*", token.REM: "/"}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
		case *ast.GenDecl:
			if x.Tok == token.IMPORT {
				return false
			}
		case *ast.ExprStmt:
			if logcall(x) {
				return false
			}
			add(x, "", "del")
		case *ast.DeferStmt:
			add(x, "", "del")
		case *ast.GoStmt:
			if _, ok := x.Call.Fun.(*ast.FuncLit); !ok {
				add(x, "", "del")
			}
		case *ast.SendStmt:
			add(x, "", "del")
		case *ast.IncDecStmt:
			add(x, "", "del")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				add(x, "", "del")
			} else if len(x.Lhs) >= 1 {
				// keep the names, lose nothing else
			}
		case *ast.IfStmt:
			if b, ok := x.Cond.(*ast.BinaryExpr); ok {
				whole[b] = true
			}
			add(x.Cond, "("+txt(x.Cond)+") && false", "never")
			if x.Else != nil {
				add(x.Cond, "("+txt(x.Cond)+") || true", "always")
			}
		case *ast.BinaryExpr:
			if t, ok := swaps[x.Op]; ok {
				if whole[x] && (x.Op == token.EQL || x.Op == token.NEQ) {
					break
				}
				if b, ok := x.Y.(*ast.BasicLit); ok && b.Kind == token.STRING {
					break
				}
				if b, ok := x.X.(*ast.BasicLit); ok && b.Kind == token.STRING {
					break
				}
				o := off(x.OpPos)
				ms = append(ms, mut{o, o + len(x.Op.String()), t, "op"})
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					add(x, strconv.FormatInt(v+1, 10), "int+1")
					if v > 0 {
						add(x, strconv.FormatInt(v-1, 10), "int-1")
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x, "false", "bool")
			} else if x.Name == "false" {
				add(x, "true", "bool")
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if t := txt(r); t == "err" || strings.HasPrefix(t, "errors.New") || strings.HasPrefix(t, "fmt.Errorf") {
					add(r, "nil", "noerr")
				}
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				add(x, "continue", "branch")
			} else if x.Label == nil && x.Tok == token.CONTINUE {
				add(x, "break", "branch")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
				add(x, txt(x.Args[0]), "noappend")
			}
			if !logcall(x) {
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := txt(x.Args[i]), txt(x.Args[i+1])
					if a != b {
						ms = append(ms, mut{off(x.Args[i].Pos()), off(x.Args[i+1].End()), b + ", " + a, "swap"})
					}
				}
			}
			if logcall(x) {
				return false
			}
		case *ast.CompositeLit:
			for _, e := range x.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					if _, ok := kv.Key.(*ast.Ident); ok {
						// leave the field out
						end := off(kv.End())
						if end < len(src) && src[end] == ',' {
							end++
						}
						ms = append(ms, mut{off(kv.Pos()), end, "", "nofield"})
					}
				}
			}
		}
		return true
	})
	_ = fn
	if len(os.Args) < 3 {
		for i, m := range ms {
			fmt.Printf("%d\t%d\t%s\t%s => %s\n", i, 1+strings.Count(string(src[:m.from]), "\n"), m.kind, strings.ReplaceAll(string(src[m.from:m.to]), "\n", " "), strings.ReplaceAll(m.text, "\n", " "))
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	m := ms[k]
	os.Stdout.Write(src[:m.from])
	os.Stdout.WriteString(m.text)
	os.Stdout.Write(src[m.to:])
}
