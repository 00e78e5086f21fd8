// instr copies the Go module under test and rewrites it mechanically so that
// every source of nondeterminism goes through the simulation kernel. It edits
// source text at AST positions, so it does not depend on how the code is written.
//
//	instr SRC OUT SHIMS.TXT
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
	Deps  []string
	Error *struct{ Err string }
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

var shims = map[string][2]string{} // import path -> (shim path, package name)

func main() {
	if len(os.Args) != 4 {
		die("usage: instr SRC OUT SHIMS")
	}
	src, out := os.Args[1], os.Args[2]
	sb, err := os.ReadFile(os.Args[3])
	if err != nil {
		die("%v", err)
	}
	names := map[string]string{"nethttp": "http", "crand": "rand", "mrand": "rand", "mrand2": "rand"}
	for _, l := range strings.Split(string(sb), "\n") {
		w := strings.Fields(l)
		if len(w) == 2 {
			n := w[1]
			if m := names[n]; m != "" {
				n = m
			}
			shims[w[0]] = [2]string{"vsim/shim/" + w[1], n}
		}
	}
	// copy, so that nothing is ever written in the tree under test
	cp := out + ".src"
	os.RemoveAll(cp)
	if err := copyTree(src, cp); err != nil {
		die("copy: %v", err)
	}
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Name,Dir,Export,GoFiles,Standard,Module,Error", "./...")
	cmd.Dir = cp
	cmd.Stderr = os.Stderr
	o, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	exports := map[string]string{}
	var mine []*pkgInfo
	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("package %s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			mine = append(mine, p)
		}
	}
	os.RemoveAll(out)
	mod := ""
	for _, p := range mine {
		mod = p.Module.Path
		rel, _ := filepath.Rel(cp, p.Dir)
		if p.Name == "main" && !strings.HasPrefix(rel, "cmd/") {
			continue // generators
		}
		instrument(p, exports, src, rel, filepath.Join(out, rel))
	}
	gm, err := os.ReadFile(filepath.Join(cp, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	os.WriteFile(filepath.Join(out, "go.mod"), gm, 0644)
	if gs, err := os.ReadFile(filepath.Join(cp, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(out, "go.sum"), gs, 0644)
	}
	os.RemoveAll(cp)
	_ = mod
}

func copyTree(src, dst string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if fi.Name() == ".git" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0755)
		}
		if strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if !strings.HasSuffix(p, ".go") && fi.Name() != "go.mod" && fi.Name() != "go.sum" {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0644)
	})
}

type edit struct {
	off   int
	del   int
	text  string
	after bool
	seq   int
}

type inst struct {
	fset  *token.FileSet
	info  *types.Info
	src   []byte
	file  *ast.File
	tf    *token.File
	edits []edit
	n     int
	id    int
	sizes types.Sizes
	skip  map[ast.Node]bool // handled by the parent
	mapw  map[ast.Expr]bool // map elements assigned to
}

func (w *inst) off(p token.Pos) int { return w.tf.Offset(p) }
func (w *inst) before(p token.Pos, t string) {
	w.n++
	w.edits = append(w.edits, edit{off: w.off(p), text: t, seq: w.n})
}
func (w *inst) after(p token.Pos, t string) {
	w.n++
	w.edits = append(w.edits, edit{off: w.off(p), text: t, after: true, seq: w.n})
}
func (w *inst) replace(p token.Pos, n int, t string) {
	w.n++
	w.edits = append(w.edits, edit{off: w.off(p), del: n, text: t, seq: w.n})
}
func (w *inst) text(a, b token.Pos) string { return string(w.src[w.off(a):w.off(b)]) }
func (w *inst) node(n ast.Node) string     { return w.text(n.Pos(), n.End()) }
func (w *inst) fresh(p string) string      { w.id++; return fmt.Sprintf("%s__%d", p, w.id) }

func (w *inst) apply() []byte {
	es := w.edits
	sort.SliceStable(es, func(i, j int) bool {
		a, b := es[i], es[j]
		if a.off != b.off {
			return a.off < b.off
		}
		if a.after != b.after {
			return a.after
		}
		if a.after {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
	var o bytes.Buffer
	pos := 0
	for _, e := range es {
		if e.off > pos {
			o.Write(w.src[pos:e.off])
			pos = e.off
		}
		o.WriteString(e.text)
		if e.del > 0 && e.off+e.del > pos {
			pos = e.off + e.del
		}
	}
	o.Write(w.src[pos:])
	return o.Bytes()
}

func instrument(p *pkgInfo, exports map[string]string, src, rel, outdir string) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, gf := range p.GoFiles {
		b, err := os.ReadFile(filepath.Join(p.Dir, gf))
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, filepath.Join(src, rel, gf), b, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
		srcs = append(srcs, b)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	sizes := types.SizesFor("gc", "amd64")
	conf := types.Config{Importer: imp, Sizes: sizes}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	if err := os.MkdirAll(outdir, 0755); err != nil {
		die("%v", err)
	}
	pkgname := p.Name
	if pkgname == "main" {
		pkgname = strings.ReplaceAll(filepath.Base(rel), "-", "_")
	}
	for i, f := range files {
		w := &inst{fset: fset, info: info, src: srcs[i], file: f, tf: fset.File(f.Pos()), sizes: sizes, skip: map[ast.Node]bool{}, mapw: map[ast.Expr]bool{}}
		w.doFile(pkgname)
		body := w.apply()
		hdr := "//go:build go1.21\n\n//line " + filepath.Join(src, rel, p.GoFiles[i]) + ":1\n"
		if err := os.WriteFile(filepath.Join(outdir, p.GoFiles[i]), append([]byte(hdr), body...), 0644); err != nil {
			die("%v", err)
		}
	}
	// package variables start every simulated run with their initial values
	var globals []string
	for _, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, n := range sp.(*ast.ValueSpec).Names {
						if n.Name != "_" {
							globals = append(globals, "&"+n.Name)
						}
					}
				}
			}
		}
	}
	if len(globals) > 0 {
		t := "package " + pkgname + "\n\nimport vsim__ \"vsim/vsim\"\n\nfunc init() { vsim__.Globals(" + strings.Join(globals, ", ") + ") }\n"
		os.WriteFile(filepath.Join(outdir, "zz_verif_globals.go"), []byte(t), 0644)
	}
	if p.Name == "main" {
		t := "package " + pkgname + "\n\n// VerifMain runs the program's main function.\nfunc VerifMain() { main() }\n"
		os.WriteFile(filepath.Join(outdir, "zz_verif_main.go"), []byte(t), 0644)
	}
}

func (w *inst) doFile(pkgname string) {
	f := w.file
	// drop build constraints: the file was selected already
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
				w.replace(c.Pos(), 2, "// -")
			}
		}
	}
	if f.Name.Name != pkgname {
		w.replace(f.Name.Pos(), len(f.Name.Name), pkgname)
	}
	w.after(f.Name.End(), "; import vsim__ \"vsim/vsim\"; var _ = vsim__.Y")
	// imports must precede other declarations: put the marker var at the end instead
	w.edits[len(w.edits)-1].text = "; import vsim__ \"vsim/vsim\""
	w.after(f.End(), "\nvar _ = vsim__.Y\n")
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		s, ok := shims[path]
		if !ok {
			continue
		}
		t := strconv.Quote(s[0])
		if is.Name == nil {
			t = s[1] + " " + t
		}
		w.replace(is.Path.Pos(), len(is.Path.Value), t)
	}
	for _, d := range f.Decls {
		w.walk(d)
	}
}

func (w *inst) stmts(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
			continue
		case *ast.CaseClause, *ast.CommClause:
			w.walk(s)
			continue
		}
		w.before(s.Pos(), "vsim__.Y(); ")
		w.listStmt(s)
	}
}

// listStmt handles statements that may be rewritten only in a statement list.
func (w *inst) listStmt(s ast.Stmt) {
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if w.shared(s.X) {
			d := "1"
			if s.Tok == token.DEC {
				d = "-1"
				if b, ok := w.info.TypeOf(s.X).Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
					break
				}
			}
			w.before(s.X.Pos(), "vsim__.Inc(&(")
			w.after(s.X.End(), "), "+d+")")
			w.replace(s.TokPos, 2, "")
			w.walk(s.X)
			w.skip[s] = true
			return
		}
	case *ast.AssignStmt:
		if s.Tok == token.ADD_ASSIGN && len(s.Lhs) == 1 && w.shared(s.Lhs[0]) {
			w.before(s.Lhs[0].Pos(), "vsim__.Inc(&(")
			w.after(s.Lhs[0].End(), "), ")
			w.replace(s.TokPos, 2, "")
			w.after(s.Rhs[0].End(), ")")
			w.walk(s.Lhs[0])
			w.walk(s.Rhs[0])
			return
		}
		if w.rmw(s) {
			w.before(s.Lhs[0].Pos(), "vsim__.Set(&(")
			w.after(s.Lhs[0].End(), "), ")
			w.replace(s.TokPos, 1, "")
			w.after(s.Rhs[0].End(), ")")
			w.walk(s.Lhs[0])
			w.walk(s.Rhs[0])
			return
		}
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.SelectStmt:
			w.selectStmt(in, s)
			return
		case *ast.RangeStmt:
			w.walk(in)
			return
		}
		w.listStmt(s.Stmt)
		return
	}
	w.walk(s)
}

// rmw reports whether s replaces a location other tasks might reach by a value computed from it.
func (w *inst) rmw(s *ast.AssignStmt) bool {
	if s.Tok != token.ASSIGN || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
		return false
	}
	l := s.Lhs[0]
	switch x := l.(type) {
	case *ast.SelectorExpr:
		if !w.info.Types[l].Addressable() {
			return false
		}
	case *ast.StarExpr:
	case *ast.Ident:
		v, ok := w.info.Uses[x].(*types.Var)
		if !ok || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() {
			return false
		}
	default:
		return false
	}
	lt, rt := w.info.TypeOf(l), w.info.TypeOf(s.Rhs[0])
	if !pure(l) || lt == nil || rt == nil || !types.Identical(lt, rt) {
		return false
	}
	txt := w.node(l)
	found := false
	ast.Inspect(s.Rhs[0], func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case ast.Expr:
			if w.node(n) == txt {
				found = true
			}
		}
		return !found
	})
	return found
}

// isMap reports whether e is a map.
func (w *inst) isMap(e ast.Expr) bool {
	t := w.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// mapAcc wraps the map operand of an access.
func (w *inst) mapAcc(m ast.Expr, fn string) {
	w.before(m.Pos(), "vsim__."+fn+"(")
	w.after(m.End(), ")")
}

// shared reports whether e is an addressable numeric location that other tasks might reach.
func (w *inst) shared(e ast.Expr) bool {
	t := w.info.TypeOf(e)
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsNumeric == 0 || b.Info()&types.IsComplex != 0 {
		return false
	}
	switch x := e.(type) {
	case *ast.SelectorExpr:
		if !w.info.Types[e].Addressable() {
			return false
		}
		return true
	case *ast.StarExpr:
		return true
	case *ast.Ident:
		v, ok := w.info.Uses[x].(*types.Var)
		return ok && v.Parent() == v.Pkg().Scope()
	}
	return false
}

func (w *inst) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = w.info.Uses[id].(*types.Builtin)
	return ok
}

func (w *inst) walk(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			return true
		}
		switch x := x.(type) {
		case *ast.BlockStmt:
			w.stmts(x.List)
			return false
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				w.after(x.Body.Lbrace+1, " vsim__.Y() ")
			}
		case *ast.CaseClause:
			for _, e := range x.List {
				w.walk(e)
			}
			w.stmts(x.Body)
			return false
		case *ast.SelectStmt:
			w.selectStmt(x, nil)
			return false
		case *ast.GoStmt:
			w.goStmt(x)
			return false
		case *ast.SendStmt:
			w.before(x.Chan.Pos(), "vsim__.Send(")
			w.replace(x.Arrow, 2, ",")
			w.after(x.Value.End(), ")")
			w.walk(x.Chan)
			w.walk(x.Value)
			return false
		case *ast.IncDecStmt:
			w.mapw[ast.Unparen(x.X)] = true
		case *ast.IndexExpr:
			if w.isMap(x.X) {
				fn := "MapR"
				if w.mapw[x] {
					fn = "MapW"
				}
				w.mapAcc(x.X, fn)
			}
		case *ast.AssignStmt:
			for _, e := range x.Lhs {
				w.mapw[ast.Unparen(e)] = true
			}
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := recvOf(x.Rhs[0]); u != nil {
					for _, e := range x.Lhs {
						w.walk(e)
					}
					w.recv(u, "Recv2")
					return false
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := recvOf(x.Values[0]); u != nil {
					w.recv(u, "Recv2")
					return false
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				w.recv(x, "Recv")
				return false
			}
		case *ast.CallExpr:
			if w.isBuiltin(x.Fun, "close") && len(x.Args) == 1 {
				w.replace(x.Fun.Pos(), len("close"), "vsim__.Close")
				w.walk(x.Args[0])
				return false
			}
			if (w.isBuiltin(x.Fun, "delete") || w.isBuiltin(x.Fun, "clear")) && len(x.Args) > 0 && w.isMap(x.Args[0]) {
				w.mapAcc(x.Args[0], "MapW")
			}
			if w.isBuiltin(x.Fun, "make") && len(x.Args) >= 2 {
				if sl, ok := w.info.TypeOf(x.Args[0]).Underlying().(*types.Slice); ok {
					es := w.sizes.Sizeof(sl.Elem())
					if es == 0 {
						es = 1
					}
					for _, a := range x.Args[1:] {
						if tv := w.info.Types[a]; tv.Value == nil || (tv.Value.Kind() == constant.Int && bigConst(tv.Value)) {
							w.before(a.Pos(), "vsim__.Sz(")
							w.after(a.End(), fmt.Sprintf(",%d)", es))
						}
						w.walk(a)
					}
					return false
				}
			}
		case *ast.RangeStmt:
			w.rangeStmt(x)
			return false
		case *ast.LabeledStmt:
			w.listStmt(x)
			return false
		}
		return true
	})
}

func bigConst(v constant.Value) bool {
	i, ok := constant.Int64Val(v)
	return ok && i > 1<<20
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
			continue
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				return x
			}
		}
		return nil
	}
}

func (w *inst) recv(u *ast.UnaryExpr, fn string) {
	w.replace(u.OpPos, 2, "vsim__."+fn+"(")
	w.after(u.End(), ")")
	w.walk(u.X)
}

func (w *inst) goStmt(g *ast.GoStmt) {
	c := g.Call
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, b := w.info.Uses[id].(*types.Builtin); b {
			w.replace(g.Go, 2, "vsim__.Go(func() {")
			w.after(c.End(), "})")
			w.walk(c)
			return
		}
	}
	if _, conv := w.info.Types[c.Fun]; conv && w.info.Types[c.Fun].IsType() {
		w.walk(c)
		return
	}
	if len(c.Args) == 0 {
		if _, ok := c.Fun.(*ast.FuncLit); ok {
			w.replace(g.Go, 2, "vsim__.Go(")
			w.replace(c.Lparen, w.off(c.Rparen)-w.off(c.Lparen)+1, ")")
			w.walk(c.Fun)
			return
		}
	}
	// evaluate the function and its arguments now
	fv := w.fresh("gf")
	w.replace(g.Go, 2, "{ "+fv+" := ")
	w.walk(c.Fun)
	multi := false
	if len(c.Args) == 1 {
		if _, ok := w.info.TypeOf(c.Args[0]).(*types.Tuple); ok {
			multi = true
		}
	}
	if multi {
		// go f(g()): evaluated late; acceptable approximation
		w.replace(c.Lparen, 1, "; vsim__.Go(func() { "+fv+"(")
		w.walk(c.Args[0])
		w.replace(c.Rparen, 1, ") }) }")
		return
	}
	w.replace(c.Lparen, 1, "; ")
	var names []string
	prevEnd := c.Lparen + 1
	for i, a := range c.Args {
		tv := w.info.Types[a]
		// remove separators between arguments
		if i > 0 {
			w.replace(prevEnd, w.off(a.Pos())-w.off(prevEnd), "")
		}
		if tv.Value != nil || tv.IsNil() {
			names = append(names, w.node(a))
			w.replace(a.Pos(), w.off(a.End())-w.off(a.Pos()), "")
		} else {
			v := w.fresh("ga")
			names = append(names, v)
			w.before(a.Pos(), v+" := ")
			w.after(a.End(), "; ")
			w.walk(a)
		}
		prevEnd = a.End()
	}
	ell := ""
	if c.Ellipsis != token.NoPos {
		ell = "..."
	}
	w.replace(prevEnd, w.off(c.Rparen)+1-w.off(prevEnd), "vsim__.Go(func() { "+fv+"("+strings.Join(names, ", ")+ell+") }) }")
}

func (w *inst) selectStmt(s *ast.SelectStmt, lab *ast.LabeledStmt) {
	hasDef := false
	pre := "{ "
	type cc struct {
		name string
		c    *ast.CommClause
	}
	var names []string
	idx := 0
	var clauses []func()
	for _, st := range s.Body.List {
		c := st.(*ast.CommClause)
		if c.Comm == nil {
			hasDef = true
			clauses = append(clauses, func() { w.stmts(c.Body) })
			continue
		}
		v := w.fresh("sc")
		names = append(names, v)
		i := idx
		idx++
		switch cm := c.Comm.(type) {
		case *ast.SendStmt:
			pre += v + " := vsim__.SendCase(" + w.render(cm.Chan) + ", " + w.render(cm.Value) + "); "
			clauses = append(clauses, func() {
				w.replace(c.Case, w.off(c.Colon)-w.off(c.Case), fmt.Sprintf("case %d", i))
				w.stmts(c.Body)
			})
		default:
			var u *ast.UnaryExpr
			asg := ""
			switch cm := cm.(type) {
			case *ast.ExprStmt:
				u = recvOf(cm.X)
			case *ast.AssignStmt:
				u = recvOf(cm.Rhs[0])
				tok := cm.Tok.String()
				var l []string
				for _, e := range cm.Lhs {
					l = append(l, w.render(e))
				}
				asg = " " + strings.Join(l, ", ") + " " + tok + " " + v + ".V"
				if len(l) == 2 {
					asg += ", " + v + ".OK"
				}
				asg += ";"
			}
			if u == nil {
				die("%s: unsupported select clause", w.fset.Position(c.Pos()))
			}
			pre += v + " := vsim__.RecvCase(" + w.render(u.X) + "); "
			a := asg
			clauses = append(clauses, func() {
				w.replace(c.Case, w.off(c.Colon)-w.off(c.Case), fmt.Sprintf("case %d", i))
				w.after(c.Colon+1, a)
				w.stmts(c.Body)
			})
		}
	}
	args := fmt.Sprint(hasDef)
	for _, n := range names {
		args += ", " + n
	}
	label := ""
	start := s.Select
	if lab != nil {
		label = lab.Label.Name + ": "
		start = lab.Pos()
	}
	w.replace(start, w.off(s.Select)+6-w.off(start), pre+label+"switch vsim__.Select("+args+")")
	for _, f := range clauses {
		f()
	}
	if !hasDef {
		sep := "; "
		if len(clauses) == 0 {
			sep = " "
		}
		w.before(s.Body.Rbrace, sep+"default: panic(\"vsim: select\") ")
	}
	w.after(s.Body.End(), " }")
}

// render returns the rewritten text of a node.
func (w *inst) render(n ast.Node) string {
	sub := &inst{fset: w.fset, info: w.info, src: w.src, file: w.file, tf: w.tf, sizes: w.sizes, skip: w.skip, mapw: w.mapw, id: w.id + 1000}
	sub.walk(n)
	w.id = sub.id
	a, b := w.off(n.Pos()), w.off(n.End())
	all := sub.edits
	sub2 := *sub
	sub2.src = w.src[a:b]
	sub2.edits = nil
	for _, e := range all {
		e.off -= a
		sub2.edits = append(sub2.edits, e)
	}
	return strings.ReplaceAll(string(sub2.apply()), "\n", " ")
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr:
			ok = false
		}
		return ok
	})
	return ok
}

func (w *inst) rangeStmt(r *ast.RangeStmt) {
	t := w.info.TypeOf(r.X)
	switch t.Underlying().(type) {
	case *types.Chan:
		cv, ok := w.fresh("rc"), w.fresh("rok")
		k := "_"
		pre := ""
		if r.Key != nil {
			if r.Tok == token.ASSIGN {
				kv := w.fresh("rv")
				pre = w.node(r.Key) + " = " + kv + "; "
				k = kv
			} else {
				k = w.node(r.Key)
			}
		}
		// for k := range X {   ->   for rc := X; ; { k, ok := Recv2(rc); if !ok { break }; ...
		w.replace(r.For, w.off(r.X.Pos())-w.off(r.For), "for "+cv+" := ")
		w.walk(r.X)
		w.after(r.X.End(), "; ; ")
		w.after(r.Body.Lbrace+1, " "+k+", "+ok+" := vsim__.Recv2("+cv+"); if !"+ok+" { break }; "+pre)
		w.stmts(r.Body.List)
		return
	case *types.Map:
		if !pure(r.X) {
			break
		}
		m := w.node(r.X)
		kv := w.fresh("mk")
		vv, ok := w.fresh("mv"), w.fresh("mok")
		asg := ""
		if r.Key != nil {
			op := r.Tok.String()
			if k := w.node(r.Key); k != "_" {
				asg += k + " " + op + " " + kv + "; "
			}
			if r.Value != nil {
				if v := w.node(r.Value); v != "_" {
					asg += v + " " + op + " " + vv + "; "
				}
			}
		}
		w.replace(r.For, w.off(r.X.Pos())-w.off(r.For), "for _, "+kv+" := range vsim__.Keys(")
		w.after(r.X.End(), ")")
		w.after(r.Body.Lbrace+1, " "+vv+", "+ok+" := "+m+"["+kv+"]; _ = "+vv+"; if !"+ok+" { continue }; "+asg)
		w.stmts(r.Body.List)
		return
	}
	if r.Key != nil {
		w.walk(r.Key)
	}
	if r.Value != nil {
		w.walk(r.Value)
	}
	w.walk(r.X)
	w.stmts(r.Body.List)
}
