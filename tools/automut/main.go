// Automut lists small syntactic changes of Go files as JSON lines, for mutate.py.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File     string
	Off, End int
	New      string
	Desc     string
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(root + "/" + f)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, n, d string) {
			o := string(src[off(a):off(b)])
			if o == n {
				return
			}
			_ = enc.Encode(mut{f, off(a), off(b), n, fmt.Sprintf("%s:%d %s: %.60q -> %.60q", f, fset.Position(a).Line, d, o, n)})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		noise := func(n ast.Node) bool {
			t := text(n)
			return strings.HasPrefix(t, "logger.") || strings.HasPrefix(t, "tlog.") || strings.Contains(t, ".Logger.")
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				return x.Tok != token.IMPORT
			case *ast.ExprStmt:
				if noise(x) {
					return false
				}
				emit(x.Pos(), x.End(), "", "drop call")
			case *ast.DeferStmt:
				emit(x.Pos(), x.End(), "", "drop defer")
			case *ast.GoStmt:
				emit(x.Pos(), x.Pos()+2, "", "no go")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit(x.Pos(), x.End(), "", "drop assignment")
				}
			case *ast.IncDecStmt:
				emit(x.Pos(), x.End(), "", "drop incdec")
			case *ast.IfStmt:
				c := text(x.Cond)
				emit(x.Cond.Pos(), x.Cond.End(), "!("+c+")", "negate")
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+c+")", "never")
				emit(x.Cond.Pos(), x.Cond.End(), "true || ("+c+")", "always")
			case *ast.ReturnStmt:
				if l := len(x.Results); l > 0 {
					r := x.Results[l-1]
					if _, ok := r.(*ast.CallExpr); ok && l > 1 || text(r) == "err" {
						emit(r.Pos(), r.End(), "nil", "no error")
					}
					if t := text(r); t == "true" {
						emit(r.Pos(), r.End(), "false", "bool")
					} else if t == "false" {
						emit(r.Pos(), r.End(), "true", "bool")
					}
				}
			case *ast.CallExpr:
				if noise(x) || strings.HasPrefix(text(x), "fmt.Errorf") {
					return false
				}
			case *ast.BinaryExpr:
				rep := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.NEQ: "==", token.ADD: "-", token.SUB: "+", token.MUL: "/", token.QUO: "*", token.REM: "/", token.LAND: "||", token.LOR: "&&", token.AND: "|", token.OR: "&", token.XOR: "|", token.SHL: ">>", token.SHR: "<<"}[x.Op]
				if rep != "" {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), rep, "operator in "+text(x))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "literal")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "literal")
						}
					}
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					emit(x.Pos(), x.End(), "continue", "branch")
				} else if x.Label == nil && x.Tok == token.CONTINUE {
					emit(x.Pos(), x.End(), "break", "branch")
				}
			}
			return true
		})
	}
}
