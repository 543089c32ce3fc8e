// Command instr copies a Go module tree into a scratch directory and rewrites
// its (non-test) sources so that a deterministic simulator owns every place
// where goroutines can interleave:
//
//   - a call rt.Y(site) is inserted before every statement (a preemption
//     point);
//   - the package "sync" is replaced by verif.local/sim/simsync, whose locks
//     are scheduled by the simulator;
//   - an assignment to something other than a local variable has a preemption
//     point between computing the value and storing it (lost updates);
//   - "go f(x)" becomes a task of the simulator; channel operations wait under
//     its control (buffered channels, outside select);
//   - runtime.Gosched, time.Sleep, time.Now and time.Since are the simulator's;
//   - the numbers, strings and identifiers that the sources mention are handed
//     over to the generators (dict.go).
//
// The rewriting is textual (insertions at AST positions), so that line numbers
// and everything else stay exactly as written. Nothing in the source tree is
// modified.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off, end int // replace [off,end) by text; off == end: insertion
	text     string
	seq      int
}

type siteRec struct {
	file string
	line int
	fn   string
}

var sites []siteRec

var level int

// names of struct fields and functions of the module that are channels or
// return one
var chanFields, chanFuncs = map[string]bool{}, map[string]bool{}

// findChans fills chanFields and chanFuncs.
func findChans(data []byte) {
	f, err := parser.ParseFile(token.NewFileSet(), "", data, 0)
	if err != nil {
		return
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.StructType:
			for _, fd := range x.Fields.List {
				if _, ok := fd.Type.(*ast.ChanType); ok {
					for _, n := range fd.Names {
						chanFields[n.Name] = true
					}
				}
			}
		case *ast.FuncDecl:
			if r := x.Type.Results; r != nil && len(r.List) == 1 {
				if _, ok := r.List[0].Type.(*ast.ChanType); ok {
					chanFuncs[x.Name.Name] = true
				}
			}
		}
		return true
	})
}

func die(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(2)
}

func main() {
	src := flag.String("src", "/repo", "module to instrument")
	dst := flag.String("dst", "", "scratch directory")
	siteFile := flag.String("sites", "", "write the list of sites here")
	plain := flag.Bool("plain", false, "copy without instrumentation")
	flag.IntVar(&level, "level", 2, "2: everything; 1: only preemption points between statements, sync and go")
	flag.Parse()
	if *dst == "" {
		die("-dst is required")
	}
	filepath.WalkDir(*src, func(path string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() && strings.HasSuffix(path, ".go") {
			if data, err := os.ReadFile(path); err == nil {
				findChans(data)
			}
		}
		return nil
	})
	err := filepath.WalkDir(*src, func(path string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(*src, path)
		if d.IsDir() {
			name := d.Name()
			if rel != "." && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "docs") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(*dst, rel), 0o755)
		}
		if !d.Type().IsRegular() || strings.HasSuffix(rel, "_test.go") {
			return nil
		}
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if strings.HasSuffix(rel, ".go") && !*plain {
			collect(rel, data)
			data = instrument(rel, data)
		}
		return os.WriteFile(filepath.Join(*dst, rel), data, 0o644)
	})
	if err != nil {
		die("%v", err)
	}
	writeDicts(*dst)
	if *siteFile != "" {
		var sb strings.Builder
		for i, s := range sites {
			fmt.Fprintf(&sb, "%d %s:%d %s\n", i, s.file, s.line, s.fn)
		}
		if err := os.WriteFile(*siteFile, []byte(sb.String()), 0o644); err != nil {
			die("%v", err)
		}
	}
}

func isGosched(s ast.Stmt) bool {
	e, ok := s.(*ast.ExprStmt)
	if !ok {
		return false
	}
	c, ok := e.X.(*ast.CallExpr)
	if !ok {
		return false
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || f.Sel.Name != "Gosched" {
		return false
	}
	p, ok := f.X.(*ast.Ident)
	return ok && p.Name == "runtime"
}

func instrument(rel string, data []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, data, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(o, e int, text string) {
		edits = append(edits, edit{o, e, text, len(edits)})
	}
	used := false
	timeName := ""

	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == "sync" {
			text := `"verif.local/sim/simsync"`
			if im.Name == nil {
				text = "sync " + text
			}
			add(off(im.Path.Pos()), off(im.Path.End()), text)
		}
		if p == "time" {
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
		}
	}
	// pure: can be evaluated twice
	pure := func(e ast.Expr) bool {
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr, *ast.FuncLit:
				ok = false
			case *ast.UnaryExpr:
				ok = ok && x.Op != token.ARROW
			}
			return ok
		})
		return ok
	}
	// shared: may be something other goroutines see
	shared := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
			return true
		case *ast.Ident:
			if x.Name == "_" {
				return false
			}
			if x.Obj == nil {
				return true // declared in another file of the package
			}
			if d, ok := x.Obj.Decl.(*ast.ValueSpec); ok {
				return f.Scope.Lookup(x.Name) == x.Obj && d != nil
			}
		}
		return false
	}
	text := func(n ast.Node) string { return string(data[off(n.Pos()):off(n.End())]) }

	fn := "<init>"
	site := func(p token.Pos) string {
		used = true
		sites = append(sites, siteRec{rel, fset.Position(p).Line, fn})
		return "vsimrt.Y(" + strconv.Itoa(len(sites)-1) + "); "
	}
	value := func(p token.Pos) string {
		v := site(p)
		return "vsimrt.V" + strings.TrimSuffix(strings.TrimPrefix(v, "vsimrt.Y"), "); ") + ", "
	}
	update := func(s ast.Stmt) {
		if level < 2 {
			return
		}
		switch x := s.(type) {
		case *ast.IncDecStmt:
			if shared(x.X) && pure(x.X) {
				add(off(x.TokPos), off(x.TokPos)+2, "= "+value(x.Pos())+text(x.X)+" "+x.Tok.String()[:1]+" 1)")
			}
		case *ast.AssignStmt:
			if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !shared(x.Lhs[0]) {
				return
			}
			switch x.Tok {
			case token.DEFINE:
			case token.ASSIGN:
				c, ok := x.Rhs[0].(*ast.CallExpr)
				if !ok {
					return
				}
				if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "min" || id.Name == "max" || id.Name == "complex" || id.Name == "real" || id.Name == "imag") {
					return // may be an untyped constant
				}
				add(off(c.Pos()), off(c.Pos()), value(x.Pos()))
				add(off(c.End()), off(c.End()), ")")
			default:
				if pure(x.Lhs[0]) {
					op := x.Tok.String()
					add(off(x.TokPos), off(x.TokPos)+len(op), "= "+value(x.Pos())+text(x.Lhs[0])+" "+op[:len(op)-1]+" (")
					add(off(x.End()), off(x.End()), "))")
				}
			}
		}
	}
	// chanExpr: is e syntactically known to be a channel
	isMakeChan := func(e ast.Expr) *ast.CallExpr {
		if c, ok := e.(*ast.CallExpr); ok && len(c.Args) > 0 {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "make" && id.Obj == nil {
				if _, ok := c.Args[0].(*ast.ChanType); ok {
					return c
				}
			}
		}
		return nil
	}
	isChanType := func(e ast.Expr) bool { _, ok := e.(*ast.ChanType); return ok }
	isChan := func(e ast.Expr) bool {
		switch x := e.(type) {
		case *ast.SelectorExpr:
			return chanFields[x.Sel.Name]
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok {
				return chanFuncs[id.Name]
			}
			if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
				return chanFuncs[sel.Sel.Name]
			}
		case *ast.Ident:
			if x.Obj == nil {
				return false
			}
			switch d := x.Obj.Decl.(type) {
			case *ast.Field:
				return isChanType(d.Type)
			case *ast.ValueSpec:
				if d.Type != nil {
					return isChanType(d.Type)
				}
				for i, n := range d.Names {
					if n.Name == x.Name && i < len(d.Values) {
						return isMakeChan(d.Values[i]) != nil
					}
				}
			case *ast.AssignStmt:
				for i, l := range d.Lhs {
					if n, ok := l.(*ast.Ident); ok && n.Name == x.Name && len(d.Lhs) == len(d.Rhs) {
						if isMakeChan(d.Rhs[i]) != nil {
							return true
						}
						if c, ok := d.Rhs[i].(*ast.CallExpr); ok {
							if id, ok := c.Fun.(*ast.Ident); ok {
								return chanFuncs[id.Name]
							}
							if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
								return chanFuncs[sel.Sel.Name]
							}
						}
						if sel, ok := d.Rhs[i].(*ast.SelectorExpr); ok {
							return chanFields[sel.Sel.Name]
						}
					}
				}
			}
		}
		return false
	}
	// selectWait: what to insert before a select statement that may wait
	selectWait := func(s ast.Stmt) string {
		for {
			l, ok := s.(*ast.LabeledStmt)
			if !ok {
				break
			}
			s = l.Stmt
		}
		sel, ok := s.(*ast.SelectStmt)
		if !ok || level < 2 {
			return ""
		}
		var cases []string
		for _, c := range sel.Body.List {
			cc := c.(*ast.CommClause)
			var e ast.Expr
			switch x := cc.Comm.(type) {
			case nil:
				return "" // has a default
			case *ast.SendStmt:
				e = x.Chan
				cases = append(cases, "vsimrt.CanSend("+text(e)+")")
			case *ast.ExprStmt:
				e = x.X
			case *ast.AssignStmt:
				e = x.Rhs[0]
			}
			if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				e = u.X
				cases = append(cases, "vsimrt.CanRecv("+text(e)+")")
			}
			if !pure(e) {
				return ""
			}
		}
		used = true
		return "vsimrt.Select(" + strings.Join(cases, ", ") + "); "
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			text := site(s.Pos())
			if isGosched(s) {
				text += "vsimrt.Gosched(); "
			}
			add(off(s.Pos()), off(s.Pos()), text+selectWait(s))
			update(s)
		}
	}
	loopBody := func(b *ast.BlockStmt) {
		if len(b.List) == 0 {
			add(off(b.Lbrace)+1, off(b.Lbrace)+1, " "+site(b.Lbrace))
		}
	}
	comm := map[ast.Node]bool{} // receive operations of select statements
	markTimes := false
	var walk func(n ast.Node) bool
	walk = func(n ast.Node) bool {
		switch n.(type) {
		case *ast.AssignStmt, *ast.UnaryExpr, *ast.SelectorExpr, *ast.SendStmt, *ast.CallExpr:
			if level < 2 {
				return true
			}
		}
		switch x := n.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
			if x.Recv != nil && len(x.Recv.List) == 1 {
				t := x.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if id, ok := t.(*ast.Ident); ok {
					fn = id.Name + "." + fn
				}
			}
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
			if x.Comm != nil {
				ast.Inspect(x.Comm, func(n ast.Node) bool {
					if u, ok := n.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
						comm[u] = true
						if level >= 2 && pure(u.X) {
							used = true
							add(off(x.Colon)+1, off(x.Colon)+1, " vsimrt.Took("+text(u.X)+"); ")
						}
					}
					return true
				})
				comm[x.Comm] = true
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW && !comm[u] {
					comm[u], used = true, true
					add(off(u.OpPos), off(u.OpPos)+2, "vsimrt.Recv2(")
					add(off(u.End()), off(u.End()), ")")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !comm[x] {
				used = true
				add(off(x.OpPos), off(x.OpPos)+2, "vsimrt.Recv(")
				add(off(x.End()), off(x.End()), ")")
			}
		case *ast.SendStmt:
			if !comm[x] {
				used = true
				add(off(x.Pos()), off(x.Pos()), "vsimrt.SendTo(")
				add(off(x.Arrow), off(x.Arrow)+2, ")(")
				add(off(x.End()), off(x.End()), ")")
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" && id.Obj == nil && len(x.Args) == 1 {
				used = true
				add(off(id.Pos()), off(id.End()), "vsimrt.Close")
			}
			if c := isMakeChan(x); c != nil {
				if t := c.Args[0].(*ast.ChanType); t.Dir == ast.SEND|ast.RECV && len(c.Args) == 1 {
					used = true
					m := "func() chan " + text(t.Value) + " { return make(" + text(t)
					add(off(x.Pos()), off(x.End()), "vsimrt.MakeChan("+m+") }, "+m+", 1) })")
					return false
				}
			}
		case *ast.SelectorExpr:
			if id, ok := x.X.(*ast.Ident); ok && timeName != "" && id.Name == timeName && id.Obj == nil {
				switch x.Sel.Name {
				case "Sleep", "Now", "Since", "Timer", "AfterFunc", "NewTimer", "After":
					used, markTimes = true, true
					add(off(x.Pos()), off(x.End()), "vsimrt.Time"+x.Sel.Name)
				}
			}
		case *ast.ForStmt:
			loopBody(x.Body)
		case *ast.RangeStmt:
			if level >= 2 && x.Value == nil && isChan(x.X) && (x.Tok == token.DEFINE || x.Tok == token.ILLEGAL) {
				k := "_"
				if x.Key != nil {
					k = text(x.Key)
				}
				used = true
				add(off(x.For)+len("for"), off(x.Body.Lbrace)+1, " vsimch := "+text(x.X)+"; ; { "+k+", vsimok := vsimrt.Recv2(vsimch); if !vsimok { break }; ")
				ast.Inspect(x.Body, walk)
				return false
			}
			loopBody(x.Body)
		case *ast.GoStmt:
			used = true
			goText := "{ "
			// Arguments of a go statement are evaluated by the caller.
			var names, vals []string
			for i, a := range x.Call.Args {
				switch y := a.(type) {
				case *ast.BasicLit, *ast.FuncLit:
					continue
				case *ast.Ident:
					if y.Obj != nil && y.Obj.Kind == ast.Con || y.Name == "nil" || y.Name == "true" || y.Name == "false" {
						continue
					}
				}
				nm := fmt.Sprintf("vsimarg%d_%d", len(sites), i)
				names = append(names, nm)
				vals = append(vals, text(a))
				add(off(a.Pos()), off(a.End()), nm)
			}
			if len(names) > 0 {
				goText += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
			}
			add(off(x.Go), off(x.Go)+len("go"), goText+"vsimrt.Go(func() {")
			add(off(x.End()), off(x.End()), "}) }")
			ast.Inspect(x.Call.Fun, walk)
			for _, a := range x.Call.Args {
				if _, ok := a.(*ast.FuncLit); ok {
					ast.Inspect(a, walk)
				}
			}
			return false
		}
		return true
	}
	ast.Inspect(f, walk)

	if markTimes {
		add(len(data), len(data), "\nvar _ "+timeName+".Duration\n")
	}
	if used {
		add(off(f.Name.End()), off(f.Name.End()), `; import vsimrt "verif.local/sim/rt"`)
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		// insertions before replacements at the same offset
		return (edits[i].end == edits[i].off) && (edits[j].end != edits[j].off)
	})
	var out []byte
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			die("%s: overlapping edits at %d", rel, e.off)
		}
		out = append(out, data[pos:e.off]...)
		out = append(out, e.text...)
		pos = e.end
	}
	return append(out, data[pos:]...)
}
