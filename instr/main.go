// instr SRC DST: copies the non-test Go packages of the module tree SRC to DST,
// instrumented for exploration (see ../rt). Every package is kept in the place
// it has in SRC; nested modules keep their own go.mod.
package main

import (
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	dir, path string
	files     []*ast.File
	names     []string
	srcs      [][]byte
	tpkg      *types.Package
	info      *types.Info
	done      bool
}

var (
	fset = token.NewFileSet()
	pkgs = map[string]*pkg{}
)

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

type imp struct{}

func (imp) Import(path string) (*types.Package, error) {
	if p, ok := pkgs[path]; ok {
		check(p)
		return p.tpkg, nil
	}
	q := types.NewPackage(path, filepath.Base(path))
	q.MarkComplete()
	return q, nil
}

func check(p *pkg) {
	if p.done {
		return
	}
	p.done = true
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	conf := types.Config{Importer: imp{}, Error: func(error) {}}
	p.tpkg, _ = conf.Check(p.path, fset, p.files, p.info)
	if p.tpkg == nil {
		p.tpkg = types.NewPackage(p.path, filepath.Base(p.path))
	}
}

type edit struct {
	at, end int // replace [at,end)
	text    string
}

func instrument(p *pkg, f *ast.File, src []byte) []byte {
	var edits []edit
	tf := fset.File(f.Pos())
	off := func(pos token.Pos) int { return tf.Offset(pos) }
	ins := func(pos token.Pos, text string) { edits = append(edits, edit{off(pos), off(pos), text}) }
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			ins(s.Pos(), "verifrt.P(); ")
		}
	}
	n := 0
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.BlockStmt:
			isClauses := false
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					isClauses = true
				}
			}
			if !isClauses && x.Lbrace.IsValid() && x.Rbrace > x.Lbrace {
				if len(x.List) == 0 {
					ins(x.Lbrace+1, "verifrt.P(); ")
				}
				stmts(x.List)
			}
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.RangeStmt:
			t := p.info.Types[x.X].Type
			if t == nil {
				break
			}
			if _, ok := t.Underlying().(*types.Map); !ok {
				break
			}
			n++
			id := strconv.Itoa(n)
			expr := string(src[off(x.X.Pos()):off(x.X.End())])
			kd, vd := "verifk"+id, "verifv"+id
			ka, va := "&"+kd, "&"+vd
			txt := func(e ast.Expr) string { return string(src[off(e.Pos()):off(e.End())]) }
			blank := func(e ast.Expr) bool { i, ok := e.(*ast.Ident); return e == nil || ok && i.Name == "_" }
			if !blank(x.Key) {
				if x.Tok == token.DEFINE {
					kd = txt(x.Key)
					ka = "&" + kd
				} else {
					kd, ka = "_", "&("+txt(x.Key)+")"
				}
			}
			if x.Value != nil && !blank(x.Value) {
				if x.Tok == token.DEFINE {
					vd = txt(x.Value)
					va = "&" + vd
				} else {
					vd, va = "_", "&("+txt(x.Value)+")"
				}
			}
			edits = append(edits, edit{off(x.For), off(x.Body.Lbrace),
				fmt.Sprintf("for %s, %s, verifit%s := verifrt.Iter(%s); verifit%s.Next(%s, %s); ", kd, vd, id, expr, id, ka, va)})
		}
		return true
	})
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import verifrt \"verifrt\""})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var out []byte
	last := 0
	for _, e := range edits {
		if e.at < last {
			continue // inside a replaced range clause
		}
		out = append(out, src[last:e.at]...)
		out = append(out, e.text...)
		last = e.end
	}
	out = append(out, src[last:]...)
	out = append(out, "\nvar _ = verifrt.P\n"...)
	return out
}

func excluded(name string, src []byte) bool {
	base := strings.TrimSuffix(name, ".go")
	parts := strings.Split(base, "_")
	known := map[string]bool{"windows": true, "darwin": true, "freebsd": true, "js": true, "wasm": true, "arm64": true, "arm": true, "386": true}
	if known[parts[len(parts)-1]] && len(parts) > 1 {
		return true
	}
	for _, line := range strings.Split(string(src), "\n") {
		l := strings.TrimSpace(line)
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			e, err := constraint.Parse(l)
			if err == nil && !e.Eval(func(tag string) bool {
				return tag == runtime.GOOS || tag == runtime.GOARCH || tag == "gc" || tag == "unix" || strings.HasPrefix(tag, "go1") || tag == "verif"
			}) {
				return true
			}
		}
	}
	return false
}

func main() {
	if len(os.Args) != 3 {
		die(fmt.Errorf("usage: instr SRC DST"))
	}
	src, dst := os.Args[1], os.Args[2]
	mods := map[string]string{} // dir -> module path
	die(filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			b := d.Name()
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if d.Name() == "go.mod" {
			data, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			for _, l := range strings.Split(string(data), "\n") {
				f := strings.Fields(l)
				if len(f) == 2 && f[0] == "module" {
					mods[filepath.Dir(rel)] = f[1]
				}
			}
			return nil
		}
		return nil
	}))
	modOf := func(rel string) string {
		best, bp := "", ""
		for dir, path := range mods {
			if dir == "." || rel == dir || strings.HasPrefix(rel, dir+"/") {
				if bp == "" || len(dir) > len(best) || best == "." {
					if best != "." && best != "" && dir == "." {
						continue
					}
					best, bp = dir, path
				}
			}
		}
		if best == "." || best == "" {
			if rel == "." {
				return bp
			}
			return bp + "/" + rel
		}
		return bp + strings.TrimPrefix(rel, best)
	}
	die(filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		b := d.Name()
		if d.IsDir() {
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(b, ".go") || strings.HasSuffix(b, "_test.go") || strings.HasPrefix(b, "_") || strings.HasPrefix(b, ".") {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if excluded(b, data) {
			return nil
		}
		f, err := parser.ParseFile(fset, p, data, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" {
			return nil // commands are not explored
		}
		dir := filepath.Dir(rel)
		path := modOf(dir)
		q := pkgs[path]
		if q == nil {
			q = &pkg{dir: dir, path: path}
			pkgs[path] = q
		}
		q.files = append(q.files, f)
		q.names = append(q.names, b)
		q.srcs = append(q.srcs, data)
		return nil
	}))
	for _, p := range pkgs {
		check(p)
		out := filepath.Join(dst, p.dir)
		die(os.MkdirAll(out, 0o755))
		for i, f := range p.files {
			die(os.WriteFile(filepath.Join(out, p.names[i]), instrument(p, f, p.srcs[i]), 0o644))
		}
		shim(p, out)
	}
	for dir := range mods {
		data, err := os.ReadFile(filepath.Join(src, dir, "go.mod"))
		die(err)
		var keep []string
		for _, l := range strings.Split(string(data), "\n") {
			if f := strings.Fields(l); len(f) == 2 && f[0] == "go" {
				continue
			}
			keep = append(keep, l)
		}
		keep = append(keep, "go 1.21", "require verifrt v0.0.0", "")
		die(os.MkdirAll(filepath.Join(dst, dir), 0o755))
		die(os.WriteFile(filepath.Join(dst, dir, "go.mod"), []byte(strings.Join(keep, "\n")), 0o644))
	}
}

// shim gives the harness every function and method of the package by name,
// as interface{} values, so that a missing or changed internal function shows
// up as an absent entry point instead of a build failure.
func shim(p *pkg, out string) {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n// VerifFuncs: every function and method, by name.\nvar VerifFuncs = map[string]interface{}{\n", p.files[0].Name.Name)
	for _, f := range p.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name == "_" || fd.Name.Name == "init" || fd.Type.TypeParams != nil {
				continue
			}
			if fd.Recv != nil {
				switch t := fd.Recv.List[0].Type.(type) {
				case *ast.Ident:
					fmt.Fprintf(&b, "\t\"%s.%s\": %s.%s,\n", t.Name, fd.Name.Name, t.Name, fd.Name.Name)
				case *ast.StarExpr:
					if id, ok := t.X.(*ast.Ident); ok {
						fmt.Fprintf(&b, "\t\"(*%s).%s\": (*%s).%s,\n", id.Name, fd.Name.Name, id.Name, fd.Name.Name)
					}
				}
				continue
			}
			fmt.Fprintf(&b, "\t%q: %s,\n", fd.Name.Name, fd.Name.Name)
		}
	}
	b.WriteString("}\n\n// VerifTypes: a zero value of every named struct type, by name.\nvar VerifTypes = map[string]interface{}{\n")
	for _, f := range p.files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.TYPE {
				continue
			}
			for _, s := range gd.Specs {
				ts := s.(*ast.TypeSpec)
				if _, ok := ts.Type.(*ast.StructType); ok && ts.TypeParams == nil && ts.Name.Name != "_" {
					fmt.Fprintf(&b, "\t%q: new(%s),\n", ts.Name.Name, ts.Name.Name)
				}
			}
		}
	}
	b.WriteString("}\n")
	die(os.WriteFile(filepath.Join(out, "zz_verif_shim.go"), []byte(b.String()), 0o644))
}
