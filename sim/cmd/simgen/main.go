// simgen rewrites the current source of the code under test so that every source of
// nondeterminism in it goes through the simulator. It writes the rewritten files to a
// scratch directory and an overlay file for "go build -overlay"; it changes nothing in place.
//
//	sync, sync/atomic, time, math/rand, maps, context   -> simulated packages
//	go f(x), chan T, <-, close, len, cap, range, select -> simulator calls
//	range over a map                                    -> order drawn from the seed
//	every statement                                     -> a coverage mark and possible preemption
//	package-level variables and init functions          -> re-initialised before every run
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	Name       string
	Module     *struct{ Path, GoVersion, Dir, GoMod string }
}

var imports = map[string]struct{ to, name string }{
	"sync":         {"vsim/simrt/simsync", "sync"},
	"sync/atomic":  {"vsim/simatomic", "atomic"},
	"time":         {"vsim/simrt/simtime", "time"},
	"math/rand":    {"vsim/simrt/simrand", "rand"},
	"math/rand/v2": {"vsim/simrt/simrandv2", "rand"},
	"maps":         {"vsim/simrt/simmaps", "maps"},
	"context":      {"vsim/simcontext", "context"},
	"hash/maphash": {"vsim/simrt/simmaphash", "maphash"},
	"crypto/rand":  {"vsim/simrt/simcrand", "rand"},
}

// Packages whose use the simulator cannot control: fail loudly.
var refused = map[string]string{
	"os/signal": "signals", "net": "network", "net/http": "network", "os/exec": "processes",
	"testing/synctest": "fake clocks",
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	out := flag.String("out", "", "output directory")
	mod := flag.String("mod", "", "directory of the harness module")
	root := flag.String("pkg", "github.com/sonirico/visigoth", "package under test")
	tree := flag.String("repo", "/repo", "source tree of the package under test")
	prefix := flag.String("prefix", "github.com/sonirico/", "instrument every dependency with this import path prefix")
	flag.Parse()
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	if *tree != "/repo" { // development only: try a changed copy
		repoTree = *tree
	}
	writeModfile(*mod, *out)
	cmd := exec.Command("go", "list", "-modfile="+filepath.Join(*out, "go.mod"), "-deps", "-export", "-json=ImportPath,Dir,GoFiles,CgoFiles,Export,Standard,Name,Module", *root, "context", "reflect", "sync", "sync/atomic", "time", "errors")
	cmd.Dir = *mod
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, p)
	}
	overlay := map[string]string{}
	ctxUsed := false
	for _, p := range pkgs {
		if strings.HasPrefix(p.ImportPath, *prefix) {
			if instrument(p, exports, *out, overlay, p.Dir, p.ImportPath) {
				ctxUsed = true
			}
		}
	}
	// context is rewritten too: its channels, locks and goroutines must be simulated ones.
	for _, p := range pkgs {
		if p.ImportPath == "context" {
			_ = ctxUsed
			instrument(p, exports, *out, overlay, filepath.Join(*mod, "simcontext"), "vsim/simcontext")
		}
	}
	writeModfile(*mod, *out)
	ov, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), ov, 0o644); err != nil {
		die("%v", err)
	}
}

var repoTree string

var replaced = map[string]string{}

func cached(p *pkgInfo) bool {
	return p.Module != nil && strings.Contains(p.Module.Dir, "@")
}

// writeModfile writes go.mod and go.sum for the simulated build beside the generated code.
func writeModfile(mod, out string) {
	b, err := os.ReadFile(filepath.Join(mod, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	if repoTree != "" {
		b = bytes.Replace(b, []byte("=> /repo"), []byte("=> "+repoTree), 1)
	}
	var keys []string
	for k := range replaced {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		b = append(b, ("\nreplace " + k + " => " + replaced[k] + "\n")...)
	}
	if err := os.WriteFile(filepath.Join(out, "go.mod"), b, 0o644); err != nil {
		die("%v", err)
	}
	sum, err := os.ReadFile(filepath.Join(mod, "go.sum"))
	if err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(out, "go.sum"), sum, 0o644); err != nil {
		die("%v", err)
	}
}

type rewriter struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	path    string
	sites   []string
	fn      string
	commaOK map[ast.Expr]bool
	gosched bool
	tmp     int
}

func instrument(p *pkgInfo, exports map[string]string, out string, overlay map[string]string, dir, path string) (ctx bool) {
	if len(p.CgoFiles) > 0 {
		die("%s uses cgo", p.ImportPath)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, a)
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Sizes: types.SizesFor("gc", runtime.GOARCH),
	}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check: %v", err)
	}
	r := &rewriter{fset: fset, info: info, pkg: tp, path: path, commaOK: map[ast.Expr]bool{}}
	std := p.Standard
	inits := 0
	var initCalls []string
	initOf := map[*ast.File][]string{}
	type fileOut struct {
		name string
		f    *ast.File
		tail string
	}
	// Variables to zero, and initialisers by file.
	fileAt := func(pos token.Pos) *ast.File {
		for _, f := range files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
		return nil
	}
	hasInit := map[types.Object]bool{}
	type ini struct {
		lhs []*types.Var
		rhs ast.Expr
		f   *ast.File
	}
	var inis []ini
	for _, in := range info.InitOrder {
		inis = append(inis, ini{in.Lhs, in.Rhs, fileAt(in.Rhs.Pos())})
		for _, v := range in.Lhs {
			hasInit[v] = true
		}
	}
	var zero []string
	for _, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, n := range sp.(*ast.ValueSpec).Names {
						if n.Name != "_" && !hasInit[info.Defs[n]] {
							zero = append(zero, n.Name)
						}
					}
				}
			}
		}
	}
	// Rewrite.
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && !std {
				inits++
				n := fmt.Sprintf("simUserInit_%d", inits)
				fd.Name = ast.NewIdent(n)
				initCalls = append(initCalls, n)
			}
		}
		if r.file(f) {
			ctx = true
		}
	}
	// The initialisers were rewritten in place inside the declarations; find the new expressions there.
	newRhs := map[*types.Var]ast.Expr{}
	for _, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					vs := sp.(*ast.ValueSpec)
					for i, n := range vs.Names {
						if len(vs.Values) == 0 {
							continue
						}
						v, _ := info.Defs[n].(*types.Var)
						if len(vs.Values) == len(vs.Names) {
							newRhs[v] = vs.Values[i]
						} else {
							newRhs[v] = vs.Values[0]
						}
					}
				}
			}
		}
	}
	var resetBody []string
	if !std {
		for _, z := range zero {
			resetBody = append(resetBody, "simrt_.Zero(&"+z+")")
		}
		for k, in := range inis {
			var names []string
			blank := true
			for _, v := range in.lhs {
				names = append(names, v.Name())
				if v.Name() != "_" {
					blank = false
				}
			}
			if blank {
				continue
			}
			fn := fmt.Sprintf("simInit_%d", k)
			var buf bytes.Buffer
			if err := printer.Fprint(&buf, fset, newRhs[in.lhs[0]]); err != nil {
				die("%v", err)
			}
			initOf[in.f] = append(initOf[in.f], fmt.Sprintf("func %s() { %s = %s }", fn, strings.Join(names, ", "), buf.String()))
			resetBody = append(resetBody, fn+"()")
		}
		for _, n := range initCalls {
			resetBody = append(resetBody, n+"()")
		}
	}
	for i, f := range files {
		f.Comments = nil
		f.Doc = nil
		stripDocs(f)
		var buf bytes.Buffer
		if err := (&printer.Config{Mode: printer.SourcePos | printer.TabIndent, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
			die("print: %v", err)
		}
		for _, s := range initOf[f] {
			buf.WriteString("\n" + s + "\n")
		}
		if i == 0 {
			buf.WriteString("\nvar simOff_ = simrt_.RegisterSites([]string{\n")
			for _, s := range r.sites {
				buf.WriteString("\t" + strconv.Quote(s) + ",\n")
			}
			buf.WriteString("})\n")
			if !std {
				buf.WriteString("\nfunc init() {\n")
				for _, n := range initCalls {
					buf.WriteString("\t" + n + "()\n")
				}
				buf.WriteString("\tsimrt_.RegisterReset(simReset_)\n}\n\nfunc simReset_() {\n\t" + strings.Join(resetBody, "\n\t") + "\n}\n")
			}
		}
		name := strings.NewReplacer("/", "_", ".", "_").Replace(path) + "__" + filepath.Base(p.GoFiles[i])
		dst := filepath.Join(out, name)
		if cached(p) {
			// The build refuses overlays in the module cache: write a whole module that replaces it.
			rel, err := filepath.Rel(p.Module.Dir, p.Dir)
			if err != nil {
				die("%v", err)
			}
			m := filepath.Join(out, "mods", strings.NewReplacer("/", "_", ".", "_").Replace(p.Module.Path))
			if err := os.MkdirAll(filepath.Join(m, rel), 0o755); err != nil {
				die("%v", err)
			}
			gm, err := os.ReadFile(p.Module.GoMod)
			if err != nil {
				die("%v", err)
			}
			if err := os.WriteFile(filepath.Join(m, "go.mod"), gm, 0o644); err != nil {
				die("%v", err)
			}
			replaced[p.Module.Path] = m
			if err := os.WriteFile(filepath.Join(m, rel, filepath.Base(p.GoFiles[i])), buf.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			continue
		}
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(dir, filepath.Base(p.GoFiles[i]))] = dst
	}
	return ctx
}

func stripDocs(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
}

func id(s string) *ast.Ident                       { return ast.NewIdent(s) }
func sel(x, s string) ast.Expr                     { return &ast.SelectorExpr{X: id(x), Sel: id(s)} }
func rt(s string) ast.Expr                         { return sel("simrt_", s) }
func call(f ast.Expr, a ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: a} }
func method(x ast.Expr, m string, a ...ast.Expr) *ast.CallExpr {
	switch x.(type) {
	case *ast.StarExpr, *ast.UnaryExpr, *ast.BinaryExpr:
		x = &ast.ParenExpr{X: x}
	}
	return call(&ast.SelectorExpr{X: x, Sel: id(m)}, a...)
}
func intLit(n int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }

func (r *rewriter) file(f *ast.File) (ctx bool) {
	usesRuntime := ""
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, sp := range g.Specs {
			is := sp.(*ast.ImportSpec)
			path, _ := strconv.Unquote(is.Path.Value)
			if why, bad := refused[path]; bad {
				die("%s imports %s (%s), which this simulator does not control", r.path, path, why)
			}
			if path == "runtime" {
				usesRuntime = "runtime"
				if is.Name != nil {
					usesRuntime = is.Name.Name
				}
			}
			if path == "internal/reflectlite" {
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: `"reflect"`}
				is.Name = id("reflectlite")
			}
			if to, ok := imports[path]; ok && !(r.path == "vsim/simcontext" && path == "context") {
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to.to)}
				is.EndPos = token.NoPos
				if is.Name == nil {
					is.Name = id(to.name)
				}
				if path == "context" {
					ctx = true
				}
			}
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.fn = d.Name.Name
			if d.Recv != nil && len(d.Recv.List) > 0 {
				r.fn = recvName(d.Recv.List[0].Type) + "." + d.Name.Name
			}
			r.walk(reflect.ValueOf(d))
		case *ast.GenDecl:
			if d.Tok != token.IMPORT {
				r.fn = "init"
				r.walk(reflect.ValueOf(d))
			}
		}
	}
	imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: id("simrt_"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"vsim/simrt"`}}}}
	keep := &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{rt("P")}}}}
	decls := []ast.Decl{imp}
	i := 0
	for ; i < len(f.Decls); i++ {
		if g, ok := f.Decls[i].(*ast.GenDecl); !ok || g.Tok != token.IMPORT {
			break
		}
		decls = append(decls, f.Decls[i])
	}
	decls = append(decls, keep)
	if usesRuntime != "" && usesRuntime != "_" && usesRuntime != "." {
		decls = append(decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{sel(usesRuntime, "GOOS")}}}})
	}
	f.Decls = append(decls, f.Decls[i:]...)
	f.Imports = nil
	return ctx
}

func recvName(t ast.Expr) string {
	switch t := t.(type) {
	case *ast.StarExpr:
		return recvName(t.X)
	case *ast.IndexExpr:
		return recvName(t.X)
	case *ast.IndexListExpr:
		return recvName(t.X)
	case *ast.Ident:
		return t.Name
	}
	return "?"
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		return coreIs(tp, func(u types.Type) bool { _, ok := u.(*types.Chan); return ok })
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// chanFn is the name of the function for channels of the type of t: one for each direction.
func chanFn(what string, t types.Type) ast.Expr {
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		t = types.Unalias(tp.Constraint().Underlying().(*types.Interface).EmbeddedType(0))
		if un, ok := t.(*types.Union); ok {
			t = un.Term(0).Type()
		}
		u = t.Underlying()
	}
	dir := types.SendRecv
	if c, ok := u.(*types.Chan); ok {
		dir = c.Dir()
	}
	return rt(what + map[types.ChanDir]string{types.SendRecv: "Any", types.SendOnly: "Send", types.RecvOnly: "Recv"}[dir])
}

// chanExpr is the rewritten channel operand, as a *simrt.Chan.
func (r *rewriter) chanExpr(e ast.Expr) ast.Expr {
	t := r.typeOf(e)
	return call(chanFn("Of", t), r.expr(e))
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		return coreIs(tp, func(u types.Type) bool { _, ok := u.(*types.Map); return ok })
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func coreIs(tp *types.TypeParam, f func(types.Type) bool) bool {
	it, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok || it.NumEmbeddeds() == 0 {
		return false
	}
	all := true
	for i := 0; i < it.NumEmbeddeds(); i++ {
		switch e := it.EmbeddedType(i).(type) {
		case *types.Union:
			for j := 0; j < e.Len(); j++ {
				all = all && f(e.Term(j).Type().Underlying())
			}
		default:
			all = all && f(e.Underlying())
		}
	}
	return all
}

// walk rewrites a node's children and returns the replacement of the node itself.
func (r *rewriter) walk(v reflect.Value) {
	v = reflect.Indirect(v)
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if !f.CanSet() {
			continue
		}
		switch x := f.Interface().(type) {
		case nil, *ast.Object, *ast.Scope, *ast.CommentGroup, []*ast.CommentGroup:
		case ast.Expr:
			if isNil(x) {
				continue
			}
			n := r.expr(x)
			if reflect.TypeOf(n).AssignableTo(f.Type()) {
				f.Set(reflect.ValueOf(n))
			} else if n != x {
				die("cannot rewrite %T in %T at %s", x, v.Interface(), r.fset.Position(x.Pos()))
			}
		case *ast.BlockStmt:
			if x != nil {
				r.block(x)
			}
		case ast.Stmt:
			if isNil(x) {
				continue
			}
			n := r.stmt(x)
			if b, ok := n.(*ast.BlockStmt); ok && !isBlock(x) && !f.Type().AssignableTo(reflect.TypeOf(b)) && isSimpleSlot(v, i) {
				die("cannot rewrite statement at %s", r.fset.Position(x.Pos()))
			}
			f.Set(reflect.ValueOf(n))
		case []ast.Expr:
			for j, e := range x {
				if e != nil {
					x[j] = r.expr(e)
				}
			}
		case []ast.Stmt:
			f.Set(reflect.ValueOf(r.list(x)))
		case []*ast.Ident:
		case []ast.Spec:
			for _, s := range x {
				r.spec(s)
			}
		case []*ast.Field:
			for _, s := range x {
				r.walk(reflect.ValueOf(s))
			}
		case ast.Node:
			if !isNil(x) {
				r.walk(reflect.ValueOf(x))
			}
		}
	}
}

func isNil(x any) bool {
	v := reflect.ValueOf(x)
	return v.Kind() == reflect.Pointer && v.IsNil()
}

func isBlock(s ast.Stmt) bool { _, ok := s.(*ast.BlockStmt); return ok }

// Init and Post fields cannot hold a block.
func isSimpleSlot(v reflect.Value, i int) bool {
	n := v.Type().Field(i).Name
	return n == "Init" || n == "Post" || n == "Assign"
}

func (r *rewriter) spec(s ast.Spec) {
	if vs, ok := s.(*ast.ValueSpec); ok && len(vs.Names) == 2 && len(vs.Values) == 1 {
		r.markOK(vs.Values[0])
	}
	r.walk(reflect.ValueOf(s))
}

func (r *rewriter) markOK(e ast.Expr) {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		r.commaOK[u] = true
	}
}

func (r *rewriter) keep(old, n ast.Expr) ast.Expr {
	if old != n {
		if tv, ok := r.info.Types[old]; ok {
			r.info.Types[n] = tv
		}
	}
	return n
}

func (r *rewriter) builtin(e ast.Expr) string {
	if p, ok := e.(*ast.ParenExpr); ok {
		return r.builtin(p.X)
	}
	if i, ok := e.(*ast.Ident); ok {
		if b, ok := r.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			ch := r.chanExpr(x.X)
			if r.commaOK[x] {
				return r.keep(e, method(ch, "Recv2"))
			}
			return r.keep(e, method(ch, "Recv"))
		}
	case *ast.CallExpr:
		switch b := r.builtin(x.Fun); b {
		case "make":
			if isChan(r.typeOf(x.Args[0])) {
				n := intLit(0)
				if len(x.Args) > 1 {
					n = call(id("int"), r.expr(x.Args[1]))
				}
				return r.keep(e, call(&ast.IndexExpr{X: chanFn("Make", r.typeOf(x.Args[0])), Index: r.expr(x.Args[0])}, n))
			}
		case "close":
			return r.keep(e, method(r.chanExpr(x.Args[0]), "Close"))
		case "len", "cap":
			if isChan(r.typeOf(x.Args[0])) {
				return r.keep(e, method(r.chanExpr(x.Args[0]), map[string]string{"len": "Len", "cap": "Cap"}[b]))
			}
		}
		if s, ok := x.Fun.(*ast.SelectorExpr); ok {
			if f, ok := r.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "runtime" {
				switch f.Name() {
				case "Gosched":
					return call(rt("Point"), &ast.BasicLit{Kind: token.STRING, Value: `"Gosched"`})
				case "NumCPU", "GOMAXPROCS", "NumGoroutine", "GC", "SetFinalizer":
					for i := range x.Args {
						x.Args[i] = r.expr(x.Args[i])
					}
					return call(rt(f.Name()), x.Args...)
				}
			}
		}
	}
	r.walk(reflect.ValueOf(e))
	return e
}

func (r *rewriter) block(b *ast.BlockStmt) { b.List = r.list(b.List) }

func (r *rewriter) mark(s ast.Stmt) ast.Stmt {
	p := r.fset.Position(s.Pos())
	r.sites = append(r.sites, fmt.Sprintf("%s:%d %s", filepath.Base(p.Filename), p.Line, r.fn))
	c := call(rt("P"), &ast.BinaryExpr{X: id("simOff_"), Op: token.ADD, Y: intLit(len(r.sites) - 1)})
	return &ast.ExprStmt{X: c}
}

func (r *rewriter) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			out = append(out, r.stmt(s))
			continue
		case *ast.EmptyStmt:
			out = append(out, s)
			continue
		}
		m := r.mark(s)
		out = append(out, m, r.stmt(s))
	}
	return out
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		return &ast.ExprStmt{X: method(r.chanExpr(x.Chan), "Send", r.expr(x.Value))}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if se, ok := x.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(se, x.Label)
		}
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			r.markOK(x.Rhs[0])
		}
	case *ast.ForStmt:
		r.walk(reflect.ValueOf(x))
		if len(x.Body.List) == 0 { // a loop must always pass a point
			x.Body.List = []ast.Stmt{r.mark(x)}
		}
		return x
	case *ast.RangeStmt:
		t := r.typeOf(x.X)
		r.walk(reflect.ValueOf(x))
		if len(x.Body.List) == 0 {
			x.Body.List = []ast.Stmt{r.mark(x)}
		}
		if isChan(t) {
			x.X = method(call(chanFn("Of", t), x.X), "Range")
		} else if isMap(t) {
			x.X = call(rt("RangeMap"), x.X)
		}
		return x
	}
	r.walk(reflect.ValueOf(s))
	return s
}

func (r *rewriter) name(p string) string {
	r.tmp++
	return fmt.Sprintf("sim%s%d_", p, r.tmp)
}

func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	if lit, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		r.walk(reflect.ValueOf(lit))
		if lit.Type.Results == nil || len(lit.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: call(rt("Go"), lit)}
		}
		return &ast.ExprStmt{X: call(rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call(lit)}}}})}
	}
	if b := r.builtin(c.Fun); b == "close" { // the channel is evaluated now
		t := r.name("c")
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.chanExpr(c.Args[0])}},
			&ast.ExprStmt{X: call(rt("Go"), &ast.SelectorExpr{X: id(t), Sel: id("Close")})},
		}}
	}
	var pre []ast.Stmt
	fun := c.Fun
	inline := r.builtin(fun) != ""
	switch f := fun.(type) {
	case *ast.FuncLit:
		inline = true
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Func); ok {
			inline = true
		}
	case *ast.SelectorExpr:
		if _, ok := r.info.Selections[f]; !ok {
			if _, ok := r.info.Uses[f.Sel].(*types.Func); ok {
				inline = true // package-level function
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		if tv := r.info.Types[fun]; tv.IsValue() {
			if _, ok := r.typeOf(fun).(*types.Signature); ok {
				inline = true
			}
		}
	}
	args := make([]ast.Expr, len(c.Args))
	for i, a := range c.Args {
		tv := r.info.Types[a]
		n := r.expr(a)
		if tv.Value != nil || tv.IsNil() || tv.IsType() || tv.Type == nil {
			args[i] = n
			continue
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			args[i] = n
			continue
		}
		t := r.name("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{n}})
		args[i] = id(t)
	}
	nf := r.expr(fun)
	if !inline {
		t := r.name("f")
		pre = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{nf}}}, pre...)
		nf = id(t)
	}
	inner := &ast.CallExpr{Fun: nf, Args: args, Ellipsis: c.Ellipsis}
	body := append(pre, &ast.ExprStmt{X: call(rt("Go"), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})})
	return &ast.BlockStmt{List: body}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	var pre []ast.Stmt
	hasDef := false
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	iN, vN, okN := r.name("i"), r.name("v"), r.name("ok")
	selArgs := []ast.Expr{nil}
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: r.list(cc.Body)})
			continue
		}
		cn := r.name("c")
		var head []ast.Stmt
		recv := func(e ast.Expr) ast.Expr {
			for {
				p, ok := e.(*ast.ParenExpr)
				if !ok {
					break
				}
				e = p.X
			}
			u, ok := e.(*ast.UnaryExpr)
			if !ok || u.Op != token.ARROW {
				die("unexpected select case at %s", r.fset.Position(cc.Pos()))
			}
			return r.chanExpr(u.X)
		}
		def := func(ch ast.Expr) {
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(cn)}, Tok: token.DEFINE, Rhs: []ast.Expr{ch}})
		}
		switch cm := cc.Comm.(type) {
		case *ast.SendStmt:
			def(r.chanExpr(cm.Chan))
			selArgs = append(selArgs, call(rt("SendCase"), id(cn), r.expr(cm.Value)))
		case *ast.ExprStmt:
			def(recv(cm.X))
			selArgs = append(selArgs, call(rt("RecvCase"), id(cn)))
		case *ast.AssignStmt:
			def(recv(cm.Rhs[0]))
			selArgs = append(selArgs, call(rt("RecvCase"), id(cn)))
			rhs := []ast.Expr{call(rt("Val"), id(cn), id(vN))}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, id(okN))
			}
			lhs := make([]ast.Expr, len(cm.Lhs))
			for i, l := range cm.Lhs {
				lhs[i] = r.expr(l)
			}
			head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: cm.Tok, Rhs: rhs})
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{intLit(n)}, Body: append(head, r.list(cc.Body)...)})
		n++
	}
	selArgs[0] = id(strconv.FormatBool(hasDef))
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`})}}})
	}
	pre = append(pre,
		&ast.AssignStmt{Lhs: []ast.Expr{id(iN), id(vN), id(okN)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(rt("Select"), selArgs...)}},
		&ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(vN), id(okN)}})
	sw.Tag = id(iN)
	var last ast.Stmt = sw
	if label != nil {
		last = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, last)}
}
