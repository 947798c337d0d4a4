// Command instr builds an instrumented copy of the module in -src.
//
// usage: instr -src /repo -verif /verif -stage DIR -out DIR
//
// DIR(stage) gets a plain copy of the sources together with the controlled runtime and
// the harnesses, for type checking; DIR(out) gets the rewritten module.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	src    = flag.String("src", "/repo", "module to instrument")
	vdir   = flag.String("verif", "/verif", "verification directory")
	stage  = flag.String("stage", "", "staging directory")
	out    = flag.String("out", "", "output directory")
	props  = flag.String("harness", "", "comma separated harness packages to include")
	anty   = flag.Bool("realants", false, "instrument the real ants instead of the model")
	module string
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Export     string
	Standard   bool
	GoFiles    []string
	Imports    []string
	Deps       []string
	DepOnly    bool
	Error      *struct{ Err string }
}

func copyGo(dst, from string) {
	ents, err := os.ReadDir(from)
	must(err)
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() {
			if strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor" {
				continue
			}
			copyGo(filepath.Join(dst, n), filepath.Join(from, n))
			continue
		}
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, n))
		must(err)
		must(os.MkdirAll(dst, 0o755))
		must(os.WriteFile(filepath.Join(dst, n), b, 0o644))
	}
}

func main() {
	flag.Parse()
	gm, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	must(err)
	var lines []string
	for _, l := range strings.Split(string(gm), "\n") {
		f := strings.Fields(l)
		if len(f) == 2 && f[0] == "module" {
			module = f[1]
		}
		if len(f) == 2 && f[0] == "go" {
			l = "go 1.21"
		}
		if len(f) >= 1 && f[0] == "toolchain" {
			continue
		}
		lines = append(lines, l)
	}
	if module == "" {
		die("no module line in go.mod")
	}
	must(os.MkdirAll(*stage, 0o755))
	must(os.WriteFile(filepath.Join(*stage, "go.mod"), []byte(strings.Join(lines, "\n")), 0o644))
	if b, err := os.ReadFile(filepath.Join(*src, "go.sum")); err == nil {
		must(os.WriteFile(filepath.Join(*stage, "go.sum"), b, 0o644))
	}
	copyGo(*stage, *src)
	copyGo(filepath.Join(*stage, "zverif"), filepath.Join(*vdir, "rt"))
	for _, h := range append(strings.Split(*props, ","), "lib") {
		if _, err := os.Stat(filepath.Join(*vdir, "harness", h)); h == "" || err != nil {
			continue
		}
		copyGo(filepath.Join(*stage, "zverif", "h", h), filepath.Join(*vdir, "harness", h))
	}

	cmd := exec.Command("go", "list", "-mod=mod", "-deps", "-export", "-json=Dir,ImportPath,Name,Export,Standard,GoFiles,Imports,Deps,Error", "./...")
	cmd.Dir = *stage
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else {
			must(err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p) // dependency order
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})

	shims := loadShims()
	var resets []string
	for _, p := range order {
		if p.Standard {
			continue
		}
		rel, third := outPath(p.ImportPath)
		if strings.HasPrefix(rel, "zverif/") && !strings.HasPrefix(rel, "zverif/h/") && !third {
			// runtime packages go over unchanged
			copyFiles(p, filepath.Join(*out, rel))
			continue
		}
		if (p.ImportPath == antsPath || strings.HasPrefix(p.ImportPath, antsPath+"/")) && !*anty {
			continue
		}
		isMain := p.Name == "main"
		reset := rewritePkg(fset, imp, p, filepath.Join(*out, rel), shims)
		if reset && !isMain && !strings.HasPrefix(rel, "zverif/h/") {
			resets = append(resets, rel)
		}
	}
	must(os.WriteFile(filepath.Join(*out, "go.mod"), []byte("module "+module+"\n\ngo 1.21\n"), 0o644))
	// reset registry
	var w bytes.Buffer
	fmt.Fprintf(&w, "package zreset\n\nimport (\n")
	for i, r := range resets {
		fmt.Fprintf(&w, "\tp%d %q\n", i, module+"/"+r)
	}
	fmt.Fprintf(&w, ")\n\n// All gives every instrumented package fresh package variables.\nfunc All() {\n")
	for i := range resets {
		fmt.Fprintf(&w, "\tp%d.VerifReset()\n", i)
	}
	fmt.Fprintf(&w, "}\n")
	must(os.MkdirAll(filepath.Join(*out, "zverif", "zreset"), 0o755))
	must(os.WriteFile(filepath.Join(*out, "zverif", "zreset", "reset.go"), w.Bytes(), 0o644))
}

const antsPath = "github.com/panjf2000/ants/v2"

// outPath maps an import path to its directory in the output module.
func outPath(path string) (rel string, third bool) {
	if path == module {
		return ".", false
	}
	if strings.HasPrefix(path, module+"/") {
		return strings.TrimPrefix(path, module+"/"), false
	}
	return "zverif/dep/" + strings.ReplaceAll(path, "/internal", "/xinternal"), true
}

func newImport(path string, std bool) string {
	if std {
		return path
	}
	if path == antsPath && !*anty {
		return module + "/zverif/ants"
	}
	rel, _ := outPath(path)
	if rel == "." {
		return module
	}
	return module + "/" + rel
}

func copyFiles(p *listPkg, dst string) {
	must(os.MkdirAll(dst, 0o755))
	ents, err := os.ReadDir(p.Dir)
	must(err)
	for _, e := range ents { // all files: build tags select the race variants later
		if strings.HasSuffix(e.Name(), ".go") {
			b, err := os.ReadFile(filepath.Join(p.Dir, e.Name()))
			must(err)
			must(os.WriteFile(filepath.Join(dst, e.Name()), b, 0o644))
		}
	}
}

// loadShims maps std package path -> shim name -> exported symbols.
type shim struct {
	name string
	syms map[string]bool
}

func loadShims() map[string]*shim {
	m := map[string]*shim{}
	for std, dir := range map[string]string{"sync": "vsync", "sync/atomic": "vatomic", "context": "vcontext", "time": "vtime", "math/rand": "vrand", "math/rand/v2": "", "runtime": "vruntime"} {
		if dir == "" {
			continue
		}
		s := &shim{name: dir, syms: map[string]bool{}}
		ents, err := os.ReadDir(filepath.Join(*vdir, "rt", dir))
		must(err)
		for _, e := range ents {
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(*vdir, "rt", dir, e.Name()), nil, 0)
			must(err)
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						s.syms[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, sp := range d.Specs {
						switch sp := sp.(type) {
						case *ast.TypeSpec:
							s.syms[sp.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range sp.Names {
								s.syms[n.Name] = true
							}
						}
					}
				}
			}
		}
		m[std] = s
	}
	return m
}

// ---- one package ----

type rw struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	p       *listPkg
	shims   map[string]*shim
	recv2   map[*ast.UnaryExpr]bool
	comm    map[ast.Node]bool
	rng     map[*ast.RangeStmt]string // "chan", "map"
	builtin map[*ast.CallExpr]string
	lenR    map[*ast.CallExpr]bool
	consts  map[ast.Expr]bool
	isBuilt map[*ast.CallExpr]bool
	isLit   map[*ast.CallExpr]bool
	need    map[string]bool // shim imports needed by the file
	pkguse  map[*types.PkgName]int
	tmp     int
}

func rewritePkg(fset *token.FileSet, imp types.Importer, p *listPkg, dst string, shims map[string]*shim) bool {
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, 0)
		must(err)
		files = append(files, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go1.21", Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	must(os.MkdirAll(dst, 0o755))

	// variable initialisation order
	type initTask struct {
		file int
		rhs  ast.Expr
		lhs  []string
	}
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return i
			}
		}
		return 0
	}
	var tasks []initTask
	for _, in := range info.InitOrder {
		t := initTask{rhs: in.Rhs, file: fileOf(in.Rhs.Pos())}
		blank := true
		for _, v := range in.Lhs {
			t.lhs = append(t.lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if !blank {
			tasks = append(tasks, t)
		}
	}
	r := &rw{fset: fset, info: info, pkg: tp, p: p, shims: shims}
	// the initialisers are shared with the declarations in the AST: rewriting mutates in place or
	// replaces; remember where they are so that the rewritten expression can be found again
	type slotRef struct {
		spec *ast.ValueSpec
		i    int
	}
	rhsAt := map[ast.Expr]slotRef{}
	type zero struct {
		file int
		name string
		typ  *ast.ValueSpec
	}
	var zeros []zero
	for fi, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				for i, v := range vs.Values {
					rhsAt[v] = slotRef{vs, i}
				}
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						if n.Name != "_" {
							zeros = append(zeros, zero{fi, n.Name, vs})
						}
					}
				}
			}
		}
	}
	nInit := 0
	var initNames []string
	type fileOut struct {
		extra bytes.Buffer
	}
	outs := make([]fileOut, len(files))
	needs := make([]map[string]bool, len(files))
	for fi, f := range files {
		r.file(f)
		needs[fi] = r.need
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				nInit++
				fd.Name = ast.NewIdent(fmt.Sprintf("verifInitFn%d", nInit))
				initNames = append(initNames, fd.Name.Name)
			}
		}
	}
	var calls []string
	for i, z := range zeros {
		fn := fmt.Sprintf("verifZero%d", i)
		fmt.Fprintf(&outs[z.file].extra, "\nfunc %s() {\n\tvar z %s\n\t%s = z\n}\n", fn, r.str(z.typ.Type), z.name)
		calls = append(calls, fn)
	}
	for i, t := range tasks {
		ref, ok := rhsAt[t.rhs]
		if !ok {
			die("%s: initialiser not found", p.ImportPath)
		}
		fn := fmt.Sprintf("verifInit%d", i)
		fmt.Fprintf(&outs[t.file].extra, "\nfunc %s() {\n\t%s = %s\n}\n", fn, strings.Join(t.lhs, ", "), r.str(ref.spec.Values[ref.i]))
		calls = append(calls, fn)
	}
	calls = append(calls, initNames...)
	for fi, f := range files {
		r.need = needs[fi]
		var b bytes.Buffer
		r.imports(f)
		cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(&b, fset, f); err != nil {
			die("%s: %v", p.GoFiles[fi], err)
		}
		b.Write(outs[fi].extra.Bytes())
		must(os.WriteFile(filepath.Join(dst, p.GoFiles[fi]), b.Bytes(), 0o644))
	}
	if p.Name == "main" {
		return false
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n// VerifReset gives the package fresh variables.\nfunc VerifReset() {\n", p.Name)
	for _, c := range calls {
		fmt.Fprintf(&b, "\t%s()\n", c)
	}
	fmt.Fprintf(&b, "}\n")
	must(os.WriteFile(filepath.Join(dst, "zz_verif_reset.go"), b.Bytes(), 0o644))
	return true
}

func (r *rw) str(n ast.Node) string {
	var b bytes.Buffer
	cfg := printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
	must(cfg.Fprint(&b, token.NewFileSet(), n))
	return b.String()
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

// file rewrites one file in place.
func (r *rw) file(f *ast.File) {
	r.recv2 = map[*ast.UnaryExpr]bool{}
	r.comm = map[ast.Node]bool{}
	r.rng = map[*ast.RangeStmt]string{}
	r.builtin = map[*ast.CallExpr]string{}
	r.lenR = map[*ast.CallExpr]bool{}
	r.consts = map[ast.Expr]bool{}
	r.isBuilt = map[*ast.CallExpr]bool{}
	r.isLit = map[*ast.CallExpr]bool{}
	r.need = map[string]bool{}
	r.pkguse = map[*types.PkgName]int{}
	under := func(e ast.Expr) types.Type {
		t := r.info.TypeOf(e)
		if t == nil {
			return nil
		}
		return t.Underlying()
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Ident:
			if pn, ok := r.info.Uses[n].(*types.PkgName); ok {
				r.pkguse[pn]++
			}
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u := isRecv(n.Rhs[0]); u != nil {
					r.recv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u := isRecv(n.Values[0]); u != nil {
					r.recv2[u] = true
				}
			}
		case *ast.CommClause:
			switch c := n.Comm.(type) {
			case *ast.SendStmt:
				r.comm[c] = true
			case *ast.ExprStmt:
				r.comm[isRecv(c.X)] = true
			case *ast.AssignStmt:
				r.comm[isRecv(c.Rhs[0])] = true
			}
		case *ast.RangeStmt:
			switch under(n.X).(type) {
			case *types.Chan:
				r.rng[n] = "chan"
			case *types.Map:
				r.rng[n] = "map"
			}
		case *ast.CallExpr:
			for _, a := range n.Args {
				if tv, ok := r.info.Types[a]; ok && (tv.Value != nil || tv.IsNil()) {
					r.consts[a] = true
				}
			}
			if _, ok := unparen(n.Fun).(*ast.FuncLit); ok {
				r.isLit[n] = true
			}
			if id, ok := unparen(n.Fun).(*ast.Ident); ok {
				if b, ok := r.info.Uses[id].(*types.Builtin); ok {
					r.isBuilt[n] = true
					switch b.Name() {
					case "close":
						r.builtin[n] = "close"
					case "len":
						if c, ok := under(n.Args[0]).(*types.Chan); ok {
							r.builtin[n] = "len"
							r.lenR[n] = c.Dir() != types.SendOnly
						}
					}
				}
			}
		}
		return true
	})
	for i, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		f.Decls[i] = apply(d, r.node).(ast.Decl)
	}
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (r *rw) vrt(name string) ast.Expr {
	r.need["vrt"] = true
	return &ast.SelectorExpr{X: id("vrt__"), Sel: id(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func method(x ast.Expr, m string, args ...ast.Expr) *ast.CallExpr {
	return call(&ast.SelectorExpr{X: x, Sel: id(m)}, args...)
}

func (r *rw) newTmp(p string) string {
	r.tmp++
	return fmt.Sprintf("%s__%d", p, r.tmp)
}

func strLit(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", s)} }
func intLit(i int) ast.Expr {
	return &ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(i)}
}

func (r *rw) site(n ast.Node) string {
	p := r.fset.Position(n.Pos())
	dir := filepath.Base(filepath.Dir(p.Filename))
	return fmt.Sprintf("%s/%s:%d", dir, filepath.Base(p.Filename), p.Line)
}

func define(tok token.Token, lhs []ast.Expr, rhs ...ast.Expr) *ast.AssignStmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

// node is called after the children of n have been rewritten and returns its replacement.
func (r *rw) node(n ast.Node) ast.Node {
	switch n := n.(type) {
	case *ast.SelectorExpr:
		if x, ok := n.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[x].(*types.PkgName); ok {
				if s := r.shims[pn.Imported().Path()]; s != nil && s.syms[n.Sel.Name] {
					r.pkguse[pn]--
					r.need[s.name] = true
					return &ast.SelectorExpr{X: id(s.name + "__"), Sel: id(n.Sel.Name)}
				}
			}
		}
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !r.comm[n] {
			m := "Recv"
			if r.recv2[n] {
				m = "Recv2"
			}
			return method(call(r.vrt("R"), n.X), m)
		}
	case *ast.SendStmt:
		if !r.comm[n] {
			return &ast.ExprStmt{X: method(call(r.vrt("S"), n.Chan), "Send", n.Value)}
		}
	case *ast.CallExpr:
		switch r.builtin[n] {
		case "close":
			return call(r.vrt("Close"), n.Args...)
		case "len":
			if r.lenR[n] {
				return call(r.vrt("LenR"), n.Args...)
			}
			return call(r.vrt("LenS"), n.Args...)
		}
	case *ast.GoStmt:
		return r.goStmt(n)
	case *ast.RangeStmt:
		return r.rangeStmt(n)
	case *ast.SelectStmt:
		return r.selectStmt(n)
	}
	return n
}

func (r *rw) goStmt(n *ast.GoStmt) ast.Node {
	c := n.Call
	site := strLit(r.site(n))
	body := func(s ast.Stmt) ast.Expr {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{s}}}
	}
	if r.isLit[c] && len(c.Args) == 0 {
		if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && fl.Type.Results == nil {
			return &ast.ExprStmt{X: call(r.vrt("Go"), site, fl)}
		}
	}
	if r.isBuilt[c] || c.Fun == nil {
		// the arguments of builtins are evaluated by the new thread (no builtin with side effects matters here)
		return &ast.ExprStmt{X: call(r.vrt("Go"), site, body(&ast.ExprStmt{X: c}))}
	}
	var lhs, rhs []ast.Expr
	nc := &ast.CallExpr{Ellipsis: c.Ellipsis}
	f := r.newTmp("f")
	lhs, rhs = append(lhs, id(f)), append(rhs, c.Fun)
	nc.Fun = id(f)
	for _, a := range c.Args {
		if r.consts[a] {
			nc.Args = append(nc.Args, a)
			continue
		}
		t := r.newTmp("a")
		lhs, rhs = append(lhs, id(t)), append(rhs, a)
		nc.Args = append(nc.Args, id(t))
	}
	if nc.Ellipsis.IsValid() {
		nc.Ellipsis = 1
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		define(token.DEFINE, lhs, rhs...),
		&ast.ExprStmt{X: call(r.vrt("Go"), site, body(&ast.ExprStmt{X: nc}))},
	}}
}

func addr(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.AND, X: e} }

func (r *rw) rangeStmt(n *ast.RangeStmt) ast.Node {
	kind := r.rng[n]
	if kind == "" {
		return n
	}
	it := r.newTmp("it")
	fs := &ast.ForStmt{Body: n.Body}
	noK, noV := isBlank(n.Key), isBlank(n.Value)
	if noK && noV {
		init := "R"
		if kind == "map" {
			init = "MapInit"
		}
		fs.Init = define(token.DEFINE, []ast.Expr{id(it)}, call(r.vrt(init), n.X))
		fs.Cond = method(id(it), "Skip")
		return fs
	}
	var k, v ast.Expr
	var pre ast.Stmt
	if n.Tok == token.DEFINE {
		k, v = n.Key, n.Value
	} else {
		var l, rr []ast.Expr
		if !noK {
			k = id(r.newTmp("k"))
			l, rr = append(l, n.Key), append(rr, k)
		}
		if !noV {
			v = id(r.newTmp("v"))
			l, rr = append(l, n.Value), append(rr, v)
		}
		pre = define(token.ASSIGN, l, rr...)
	}
	if kind == "chan" {
		fs.Init = define(token.DEFINE, []ast.Expr{id(it), k}, call(r.vrt("RangeInit"), n.X))
		fs.Cond = method(id(it), "Next", addr(k))
	} else if noV {
		fs.Init = define(token.DEFINE, []ast.Expr{id(it), k}, call(r.vrt("MapVar1"), n.X))
		fs.Cond = method(id(it), "Next1", addr(k))
	} else {
		if noK {
			k = id(r.newTmp("k"))
		}
		fs.Init = define(token.DEFINE, []ast.Expr{id(it), k, v}, call(r.vrt("MapVars"), n.X))
		fs.Cond = method(id(it), "Next", addr(k), addr(v))
	}
	if pre != nil {
		fs.Body.List = append([]ast.Stmt{pre}, fs.Body.List...)
	}
	return fs
}

func (r *rw) selectStmt(n *ast.SelectStmt) ast.Node {
	var lhs, rhs, cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := false
	idx := 0
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		cc := &ast.CaseClause{Body: c.Body}
		sw.Body.List = append(sw.Body.List, cc)
		if c.Comm == nil {
			hasDef = true
			continue
		}
		cc.List = []ast.Expr{intLit(idx)}
		idx++
		t := r.newTmp("c")
		switch m := c.Comm.(type) {
		case *ast.SendStmt:
			lhs, rhs = append(lhs, id(t)), append(rhs, call(r.vrt("S"), m.Chan))
			cases = append(cases, method(id(t), "Case", m.Value))
		case *ast.ExprStmt:
			lhs, rhs = append(lhs, id(t)), append(rhs, call(r.vrt("R"), isRecv(m.X).X))
			cases = append(cases, method(id(t), "Case"))
		case *ast.AssignStmt:
			lhs, rhs = append(lhs, id(t)), append(rhs, call(r.vrt("R"), isRecv(m.Rhs[0]).X))
			cases = append(cases, method(id(t), "Case"))
			get := "Val"
			if len(m.Lhs) == 2 {
				get = "Val2"
			}
			as := &ast.AssignStmt{Lhs: m.Lhs, Tok: m.Tok, Rhs: []ast.Expr{method(id(t), get)}}
			cc.Body = append([]ast.Stmt{as}, cc.Body...)
		}
	}
	def := id("false")
	if hasDef {
		def = id("true")
	}
	if len(lhs) > 0 {
		sw.Init = define(token.DEFINE, lhs, rhs...)
	}
	sw.Tag = call(r.vrt("Select"), append([]ast.Expr{def}, cases...)...)
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: call(id("panic"), strLit("unreachable"))}}})
	}
	return sw
}

// imports rewrites the import declarations.
func (r *rw) imports(f *ast.File) {
	uses := map[*ast.ImportSpec]int{}
	_ = uses
	used := map[string]bool{} // local names still referenced
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok {
				used[x.Name] = true
			}
		}
		return true
	})
	var specs []ast.Spec
	for _, is := range f.Imports {
		path := strings.Trim(is.Path.Value, "\"`")
		var name string
		if is.Name != nil {
			name = is.Name.Name
		}
		var pn *types.PkgName
		if is.Name != nil {
			pn, _ = r.info.Defs[is.Name].(*types.PkgName)
		} else {
			pn, _ = r.info.Implicits[is].(*types.PkgName)
		}
		local := name
		if pn != nil {
			local = pn.Name()
		}
		if name != "_" && name != "." && !used[local] {
			continue
		}
		std := pn == nil || isStd(path)
		ns := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", newImport(path, std))}}
		if name != "" {
			ns.Name = id(name)
		} else if local != "" {
			ns.Name = id(local)
		}
		specs = append(specs, ns)
	}
	var need []string
	for k := range r.need {
		need = append(need, k)
	}
	sort.Strings(need)
	for _, k := range need {
		specs = append(specs, &ast.ImportSpec{Name: id(k + "__"), Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", module+"/zverif/"+k)}})
	}
	var decls []ast.Decl
	if len(specs) > 0 {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Lparen: 1, Rparen: 2, Specs: specs})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	f.Comments = nil
}

func isStd(path string) bool {
	first := path
	if i := strings.Index(path, "/"); i >= 0 {
		first = path[:i]
	}
	return !strings.Contains(first, ".")
}
