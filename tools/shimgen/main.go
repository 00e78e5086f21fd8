// shimgen writes, for every package in ../sim/shim/shims.txt, aliases of all exported
// names that the hand-written shim does not define itself.
package main

import (
	"bufio"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	f, _ := os.Open("../sim/shim/shims.txt")
	sc := bufio.NewScanner(f)
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	for sc.Scan() {
		w := strings.Fields(sc.Text())
		if len(w) != 2 {
			continue
		}
		gen(imp, w[0], "../sim/shim/"+w[1])
	}
}

func gen(imp types.Importer, path, dir string) {
	own := map[string]bool{}
	fs := token.NewFileSet()
	files, _ := filepath.Glob(dir + "/shim.go")
	for _, fn := range files {
		a, err := parser.ParseFile(fs, fn, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					own[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						own[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							own[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := imp.Import(path)
	if err != nil {
		panic(err)
	}
	var b strings.Builder
	name := p.Name()
	fmt.Fprintf(&b, "// Code generated by tools/shimgen. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", name, path)
	ns := p.Scope().Names()
	sort.Strings(ns)
	for _, n := range ns {
		o := p.Scope().Lookup(n)
		if !o.Exported() || own[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
		case *types.TypeName:
			tp := ""
			ta := ""
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				var ps, as []string
				for i := 0; i < nt.TypeParams().Len(); i++ {
					t := nt.TypeParams().At(i)
					ps = append(ps, t.Obj().Name()+" "+t.Constraint().String())
					as = append(as, t.Obj().Name())
				}
				tp = "[" + strings.Join(ps, ",") + "]"
				ta = "[" + strings.Join(as, ",") + "]"
			}
			fmt.Fprintf(&b, "type %s%s = real.%s%s\n", n, tp, n, ta)
		}
	}
	if strings.Count(b.String(), "real.") == 0 {
		os.Remove(dir + "/zz_alias.go")
		return
	}
	os.WriteFile(dir+"/zz_alias.go", []byte(b.String()), 0644)
}
