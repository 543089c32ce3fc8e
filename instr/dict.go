package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The literals of the sources are collected per directory. They tell the
// generators which lengths, counts, numbers and strings may matter to the code.

type words struct {
	pkg  string
	nums map[uint64]bool
	strs map[string]bool
	oids map[string][]uint32
}

var dicts = map[string]*words{}

var mathConsts = map[string]int64{
	"MaxInt8": math.MaxInt8, "MinInt8": math.MinInt8, "MaxUint8": math.MaxUint8, "MaxInt16": math.MaxInt16,
	"MinInt16": math.MinInt16, "MaxUint16": math.MaxUint16, "MaxInt32": math.MaxInt32, "MinInt32": math.MinInt32,
	"MaxUint32": math.MaxUint32, "MaxInt64": math.MaxInt64, "MinInt64": math.MinInt64,
}

// fold is the value of an expression made of literals.
func fold(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.BasicLit:
		if x.Kind == token.INT || x.Kind == token.CHAR {
			return constant.ToInt(constant.MakeFromLiteral(x.Value, x.Kind, 0))
		}
	case *ast.ParenExpr:
		return fold(x.X)
	case *ast.SelectorExpr:
		if p, ok := x.X.(*ast.Ident); ok && p.Name == "math" {
			if v, ok := mathConsts[x.Sel.Name]; ok {
				return constant.MakeInt64(v)
			}
		}
	case *ast.UnaryExpr:
		if v := fold(x.X); v != nil && x.Op == token.SUB {
			return constant.UnaryOp(x.Op, v, 0)
		}
	case *ast.CallExpr: // a conversion
		if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 && (strings.HasPrefix(id.Name, "int") || strings.HasPrefix(id.Name, "uint") || id.Name == "byte") {
			return fold(x.Args[0])
		}
	case *ast.BinaryExpr:
		a, b := fold(x.X), fold(x.Y)
		if a == nil || b == nil || a.Kind() != constant.Int || b.Kind() != constant.Int {
			return nil
		}
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			return constant.BinaryOp(a, x.Op, b)
		case token.SHL:
			if n, ok := constant.Uint64Val(b); ok && n < 64 {
				return constant.Shift(a, x.Op, uint(n))
			}
		}
	}
	return nil
}

// collect adds the literals of a file.
func collect(rel string, data []byte) {
	f, err := parser.ParseFile(token.NewFileSet(), rel, data, parser.ParseComments)
	if err != nil {
		return
	}
	for _, g := range f.Comments {
		for _, c := range g.List {
			if c.Pos() < f.Package && (strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build")) {
				return // may be part of another build
			}
		}
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			g.Specs = nil
		}
	}
	dir := filepath.Dir(rel)
	w := dicts[dir]
	if w == nil {
		w = &words{f.Name.Name, map[uint64]bool{}, map[string]bool{}, map[string][]uint32{}}
		dicts[dir] = w
	}
	str := func(es ...ast.Expr) {
		for _, e := range es {
			if b, ok := e.(*ast.BasicLit); ok && b.Kind == token.STRING {
				if s, err := strconv.Unquote(b.Value); err == nil && s != "" && len(s) <= 64 {
					w.strs[s] = true
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if e, ok := n.(ast.Expr); ok {
			if v := fold(e); v != nil && v.Kind() == constant.Int {
				if u, ok := constant.Uint64Val(v); ok {
					w.nums[u] = true
				} else if i, ok := constant.Int64Val(v); ok {
					w.nums[uint64(i)] = true
				}
			}
		}
		switch x := n.(type) {
		case *ast.BinaryExpr:
			if x.Op == token.EQL || x.Op == token.NEQ {
				str(x.X, x.Y)
			}
		case *ast.CaseClause:
			str(x.List...)
		case *ast.IndexExpr:
			str(x.Index)
		case *ast.CallExpr:
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
				if p, ok := sel.X.(*ast.Ident); ok && (p.Name == "strings" || p.Name == "bytes") {
					for _, a := range x.Args {
						if c, ok := a.(*ast.CallExpr); ok && len(c.Args) == 1 {
							a = c.Args[0] // []byte("...")
						}
						str(a)
					}
				}
			}
		case *ast.CompositeLit:
			if len(x.Elts) > 40 {
				return false // a table
			}
			var id []uint32
			for _, e := range x.Elts {
				v := fold(e)
				if v == nil {
					return true
				}
				u, ok := constant.Uint64Val(v)
				if !ok || u > math.MaxUint32 {
					return true
				}
				id = append(id, uint32(u))
			}
			if t, ok := x.Type.(*ast.ArrayType); ok && len(id) > 0 {
				if e, ok := t.Elt.(*ast.Ident); ok && e.Name == "uint32" {
					w.oids[fmt.Sprint(id)] = id
				}
			}
		}
		return true
	})
}

// writeDicts adds a file to every package that hands its words over.
func writeDicts(dst string) {
	for dir, w := range dicts {
		var nums []uint64
		for n := range w.nums {
			if n > 2 {
				nums = append(nums, n)
			}
		}
		sort.Slice(nums, func(i, j int) bool { return nums[i] < nums[j] })
		var strs, oids []string
		for s := range w.strs {
			strs = append(strs, s)
		}
		sort.Strings(strs)
		for k := range w.oids {
			oids = append(oids, k)
		}
		sort.Strings(oids)
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nimport vsimdict \"verif.local/sim/rt\"\n\nfunc init() {\n\tvsimdict.AddWords(\n", w.pkg)
		sb.WriteString("\t\t[]uint64{")
		for _, n := range nums {
			fmt.Fprintf(&sb, "%d, ", n)
		}
		sb.WriteString("},\n\t\t[]string{")
		for _, s := range strs {
			fmt.Fprintf(&sb, "%q, ", s)
		}
		sb.WriteString("},\n\t\t[][]uint32{")
		for _, k := range oids {
			sb.WriteString("{")
			for _, x := range w.oids[k] {
				fmt.Fprintf(&sb, "%d, ", x)
			}
			sb.WriteString("}, ")
		}
		sb.WriteString("})\n}\n")
		if err := os.WriteFile(filepath.Join(dst, dir, "zz_vsim_words.go"), []byte(sb.String()), 0o644); err != nil {
			die("%v", err)
		}
	}
}
