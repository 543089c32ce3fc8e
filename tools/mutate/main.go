// Command mutate lists small changes to the sources of a module: one JSON
// object per line {id, file, line, off, end, old, new, kind}. Used to look for
// blind spots of the checks, not by any check.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Kind string `json:"kind"`
}

func main() {
	root := os.Args[1]
	n := 0
	enc := json.NewEncoder(os.Stdout)
	filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(root, path)
		data, _ := os.ReadFile(path)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, data, 0)
		if err != nil {
			return nil
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(a, b token.Pos, new, kind string) {
			o, e := off(a), off(b)
			enc.Encode(mut{n, rel, fset.Position(a).Line, o, e, string(data[o:e]), new, kind})
			n++
		}
		src := func(x ast.Node) string { return string(data[off(x.Pos()):off(x.End())]) }
		ast.Inspect(f, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.BinaryExpr:
				alts := map[token.Token][]string{
					token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"},
					token.MUL: {"+"}, token.AND_NOT: {"&"},
				}[x.Op]
				for _, a := range alts {
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "operator")
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x.Pos(), x.End(), src(x.X), "drop right operand")
					emit(x.Pos(), x.End(), src(x.Y), "drop left operand")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "constant")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "constant")
						}
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+src(x.Cond)+")", "condition false")
				emit(x.Cond.Pos(), x.Cond.End(), "true || ("+src(x.Cond)+")", "condition true")
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt:
						emit(s.Pos(), s.End(), "", "statement dropped")
					case *ast.DeferStmt:
						emit(s.Pos(), s.End(), "", "statement dropped")
						emit(s.Pos(), s.End(), src(y.Call), "defer dropped")
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							emit(s.Pos(), s.End(), "", "statement dropped")
						}
					case *ast.BranchStmt:
						if y.Tok == token.CONTINUE {
							emit(s.Pos(), s.End(), "break", "continue to break")
						}
						emit(s.Pos(), s.End(), "", "statement dropped")
					}
				}
			case *ast.CallExpr:
				if s, ok := x.Fun.(*ast.SelectorExpr); ok {
					alt := map[string]string{"Lock": "RLock", "Unlock": "RUnlock", "RLock": "Lock", "RUnlock": "Unlock"}[s.Sel.Name]
					if alt != "" {
						emit(s.Sel.Pos(), s.Sel.End(), alt, "lock kind")
					}
				}
			}
			return true
		})
		return nil
	})
}
