// Command rewrite turns a Go package into one that runs under the controlled
// scheduler: goroutines, channels, locks, timers, contexts, pipes and shared
// variables go through zzverif/vrt and zzverif/shim.
//
//	rewrite -in DIR -out DIR -shim DIR -export FILE [-pkg NAME] [-main NAME] [-serve FUNC] [-fields=false] [-dense]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const base = "github.com/superisaac/jlib/zzverif/"

var shims = map[string]string{"sync": "shim/sync", "sync/atomic": "shim/atomic", "time": "shim/time", "context": "shim/context", "io": "shim/io"}

type rewriter struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	fields bool
	dense  bool                  // a scheduling point before every statement
	shared map[types.Object]bool // variables whose accesses are instrumented
	names  map[types.Object]string
	n      int
	osName string          // name of package os where os.Exit was replaced
	std    map[string]bool // std packages needed beside their shims
	shimOf map[string]map[string]bool
	used   bool // vrt used in the file
	res    []ast.Stmt
}

func main() {
	in := flag.String("in", "", "")
	out := flag.String("out", "", "")
	shimDir := flag.String("shim", "", "")
	export := flag.String("export", "", "")
	pkgName := flag.String("pkg", "", "")
	mainName := flag.String("main", "", "")
	serve := flag.String("serve", "", "")
	fields := flag.Bool("fields", true, "")
	dense := flag.Bool("dense", false, "")
	path := flag.String("path", "p", "")
	tag := flag.String("tag", "", "")
	flag.Parse()

	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	ents, err := os.ReadDir(*in)
	ck(err)
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := build.Default.MatchFile(*in, n); err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(*in, n), nil, 0)
		ck(err)
		files = append(files, f)
		names = append(names, n)
	}
	exp := map[string]string{}
	b, err := os.ReadFile(*export)
	ck(err)
	ck(json.Unmarshal(b, &exp))
	imp := importer.ForCompiler(fset, "gc", func(p string) (io.ReadCloser, error) {
		f, ok := exp[p]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", p)
		}
		return os.Open(f)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	pkg, err := conf.Check(*path, fset, files, info)
	ck(err)

	rw := &rewriter{fset: fset, info: info, pkg: pkg, fields: *fields, dense: *dense, shared: map[types.Object]bool{}, names: map[types.Object]string{}, shimOf: map[string]map[string]bool{}}
	for p, d := range shims {
		rw.shimOf[p] = exported(filepath.Join(*shimDir, strings.TrimPrefix(d, "shim/")))
	}
	if *fields {
		rw.findShared(files)
	}
	ck(os.MkdirAll(*out, 0o755))
	hasInit := *mainName != ""
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
				hasInit = true
			}
		}
	}
	for i, f := range files {
		rw.used = false
		rw.std = map[string]bool{}
		rw.osName = ""
		for _, d := range f.Decls {
			rw.decl(d, *serve)
		}
		if *pkgName != "" {
			f.Name.Name = *pkgName
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && *mainName != "" && fd.Recv == nil && fd.Name.Name == "main" {
				fd.Name.Name = *mainName
			}
		}
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if s, ok := shims[p]; ok {
				im.Path.Value = strconv.Quote(base + s)
				im.EndPos = 0
			}
		}
		reset := ""
		if *fields && !hasInit {
			reset = rw.resets(f)
		}
		var sb strings.Builder
		ck(printer.Fprint(&sb, fset, f))
		src := sb.String() + reset
		// imports of the runtime and of std names the shims lack
		add := ""
		if rw.used {
			add += "import vrt " + strconv.Quote(base+"vrt") + "\n"
		}
		var ps []string
		for p := range rw.std {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			add += "import " + stdName(p) + " " + strconv.Quote(p) + "\n"
		}
		k := strings.Index(src, "package "+f.Name.Name)
		k += len("package " + f.Name.Name)
		src = src[:k] + "\n\n" + add + src[k:]
		// a shim import may have lost its last use to the std fallback
		for _, p := range ps {
			src += fmt.Sprintf("\nvar _ = %s\n", keepName(f, p))
		}
		if rw.osName != "" {
			src += "\nvar _ = " + rw.osName + ".Args\n"
		}
		if *tag != "" {
			src = "//go:build " + *tag + "\n\n" + src
		}
		ck(os.WriteFile(filepath.Join(*out, names[i]), []byte(src), 0o644))
	}
	var ks []string
	for o := range rw.shared {
		ks = append(ks, rw.names[o])
	}
	sort.Strings(ks)
	fmt.Println(strings.Join(ks, " "))
}

// resets is a function that gives the package's own variables the values they
// start with, so that every execution starts from the beginning.
func (rw *rewriter) resets(f *ast.File) string {
	var out []string
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR {
			continue
		}
	specs:
		for _, sp := range g.Specs {
			sp := sp.(*ast.ValueSpec)
			var names []string
			own := false
			for _, n := range sp.Names {
				names = append(names, n.Name)
				if n.Name == "_" {
					continue
				}
				own = true
				o := rw.info.Defs[n]
				if n.IsExported() || o == nil || types.Implements(o.Type(), errorType) || o.Type().String() == "*regexp.Regexp" {
					continue specs
				}
			}
			if !own {
				continue
			}
			if len(sp.Values) == 0 {
				for _, n := range names {
					if n != "_" {
						out = append(out, "vrt.Zero(&"+n+")")
					}
				}
				continue
			}
			var vs []string
			for _, v := range sp.Values {
				var sb strings.Builder
				ck(printer.Fprint(&sb, rw.fset, v))
				vs = append(vs, sb.String())
			}
			out = append(out, strings.Join(names, ", ")+" = "+strings.Join(vs, ", "))
		}
	}
	if len(out) == 0 {
		return ""
	}
	rw.used = true
	return "\nfunc init() {\n\tvrt.OnStart(func() {\n\t\t" + strings.Join(out, "\n\t\t") + "\n\t})\n}\n"
}

var errorType = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

var keep = map[string]string{"sync": "Locker(nil)", "sync/atomic": "Bool{}", "time": "Second", "context": "Background", "io": "EOF"}

func keepName(f *ast.File, p string) string {
	for _, im := range f.Imports {
		q, _ := strconv.Unquote(im.Path.Value)
		if q == base+shims[p] {
			n := filepath.Base(p)
			if im.Name != nil {
				n = im.Name.Name
			}
			return n + "." + keep[p]
		}
	}
	return "0"
}

func stdName(p string) string { return "vrtstd_" + strings.ReplaceAll(p, "/", "_") }

func ck(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(1)
	}
}

func exported(dir string) map[string]bool {
	m := map[string]bool{}
	ps, err := parser.ParseDir(token.NewFileSet(), dir, nil, 0)
	ck(err)
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						m[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							m[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								m[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	return m
}

// ---------------------------------------------------------------- shared variables

func plain(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return false
	}
	return true
}

func (rw *rewriter) varOf(e ast.Expr) *types.Var {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return rw.varOf(e.X)
	case *ast.Ident:
		if v, ok := rw.info.Uses[e].(*types.Var); ok && !v.IsField() {
			return v
		}
	case *ast.SelectorExpr:
		if s := rw.info.Selections[e]; s != nil && s.Kind() == types.FieldVal {
			return s.Obj().(*types.Var)
		}
		if v, ok := rw.info.Uses[e.Sel].(*types.Var); ok && v.Pkg() == rw.pkg {
			return v
		}
	}
	return nil
}

func (rw *rewriter) findShared(files []*ast.File) {
	assigned := map[types.Object]bool{}
	captured := map[types.Object]bool{}
	mark := func(e ast.Expr) {
		if v := rw.varOf(e); v != nil && v.Pkg() == rw.pkg && plain(v.Type()) {
			assigned[v] = true
			if _, ok := rw.names[v]; !ok {
				n := v.Name()
				if s, ok := unparen(e).(*ast.SelectorExpr); ok {
					if sel := rw.info.Selections[s]; sel != nil {
						n = typeName(sel.Recv()) + "." + n
					}
				}
				rw.names[v] = n
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			var lits []ast.Node
			var visit func(n ast.Node) bool
			visit = func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.FuncLit:
					lits = append(lits, n)
					ast.Inspect(n.Body, visit)
					lits = lits[:len(lits)-1]
					return false
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(n.X)
				case *ast.RangeStmt:
					if n.Tok == token.ASSIGN {
						if n.Key != nil {
							mark(n.Key)
						}
						if n.Value != nil {
							mark(n.Value)
						}
					}
				case *ast.Ident:
					if v, ok := rw.info.Uses[n].(*types.Var); ok && !v.IsField() && len(lits) > 0 {
						l := lits[len(lits)-1]
						if v.Pos() < l.Pos() || v.Pos() > l.End() {
							captured[v] = true
						}
					}
				}
				return true
			}
			ast.Inspect(d, visit)
		}
	}
	for o := range assigned {
		v := o.(*types.Var)
		if v.IsField() || captured[o] || v.Parent() == rw.pkg.Scope() {
			rw.shared[o] = true
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return "?"
}

// addressable says whether &e is legal.
func (rw *rewriter) addressable(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		_, ok := rw.info.Uses[e].(*types.Var)
		return ok
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := rw.info.Selections[e]
		if s == nil {
			_, ok := rw.info.Uses[e.Sel].(*types.Var)
			return ok
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() {
			return true
		}
		return rw.addressable(e.X)
	case *ast.IndexExpr:
		t := rw.typ(e.X)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return rw.addressable(e.X)
		}
	}
	return false
}

func (rw *rewriter) typ(e ast.Expr) types.Type {
	if tv, ok := rw.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := rw.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func (rw *rewriter) isMap(e ast.Expr) bool {
	t := rw.typ(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (rw *rewriter) isShared(e ast.Expr) (string, bool) {
	v := rw.varOf(e)
	if v == nil || !rw.shared[v] || !rw.addressable(e) {
		return "", false
	}
	return rw.names[v], true
}

// ---------------------------------------------------------------- building

func id(n string) *ast.Ident { return &ast.Ident{Name: n} }

func (rw *rewriter) vrt(n string, args ...ast.Expr) *ast.CallExpr {
	rw.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: id("vrt"), Sel: id(n)}, Args: args}
}

func (rw *rewriter) fresh(p string) string {
	rw.n++
	return fmt.Sprintf("vrt%s%d", p, rw.n)
}

func str(s string) ast.Expr { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }
func num(n int) ast.Expr    { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)} }
func boolean(b bool) ast.Expr {
	if b {
		return id("true")
	}
	return id("false")
}
func addr(e ast.Expr) ast.Expr  { return &ast.UnaryExpr{Op: token.AND, X: e} }
func deref(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: &ast.StarExpr{X: e}} }
func sel(e ast.Expr, n string) ast.Expr {
	return &ast.SelectorExpr{X: e, Sel: id(n)}
}
func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

// place rewrites the operands of an addressable expression, not the access itself.
func (rw *rewriter) place(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: rw.place(e.X)}
	case *ast.Ident:
		return e
	case *ast.SelectorExpr:
		s := rw.info.Selections[e]
		if s == nil {
			return e
		}
		if !s.Indirect() && rw.info.Selections[e] != nil {
			if _, ok := rw.typ(e.X).Underlying().(*types.Pointer); !ok {
				return &ast.SelectorExpr{X: rw.place(e.X), Sel: e.Sel}
			}
		}
		if _, ok := rw.typ(e.X).Underlying().(*types.Struct); ok {
			return &ast.SelectorExpr{X: rw.place(e.X), Sel: e.Sel}
		}
		return &ast.SelectorExpr{X: rw.expr(e.X), Sel: e.Sel}
	case *ast.IndexExpr:
		if t := rw.typ(e.X); t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				return &ast.IndexExpr{X: rw.place(e.X), Index: rw.expr(e.Index)}
			}
		}
	}
	return rw.expr(e)
}

// target rewrites the left side of an assignment.
func (rw *rewriter) target(e ast.Expr) ast.Expr {
	e = unparen(e)
	if i, ok := e.(*ast.Ident); ok && i.Name == "_" {
		return e
	}
	if k, ok := rw.isShared(e); ok {
		return &ast.StarExpr{X: rw.vrt("W", str(k), addr(rw.place(e)))}
	}
	if x, ok := e.(*ast.IndexExpr); ok && rw.isMap(x.X) && rw.fields {
		return &ast.IndexExpr{X: rw.vrt("MW", rw.expr(x.X)), Index: rw.expr(x.Index)}
	}
	return rw.place(e)
}

func (rw *rewriter) exprs(es []ast.Expr) []ast.Expr {
	if es == nil {
		return nil
	}
	out := make([]ast.Expr, len(es))
	for i, e := range es {
		out[i] = rw.expr(e)
	}
	return out
}

func (rw *rewriter) isType(e ast.Expr) bool {
	tv, ok := rw.info.Types[e]
	return ok && tv.IsType()
}

func (rw *rewriter) builtin(e ast.Expr, name string) bool {
	i, ok := unparen(e).(*ast.Ident)
	if !ok || i.Name != name {
		return false
	}
	_, ok = rw.info.Uses[i].(*types.Builtin)
	return ok
}

func (rw *rewriter) expr(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if k, ok := rw.isShared(e); ok {
		return deref(rw.vrt("R", str(k), addr(rw.place(e))))
	}
	switch e := e.(type) {
	case *ast.BadExpr, *ast.Ident, *ast.BasicLit:
		return e
	case *ast.Ellipsis:
		return &ast.Ellipsis{Elt: rw.expr(e.Elt)}
	case *ast.FuncLit:
		t := rw.expr(e.Type).(*ast.FuncType)
		return &ast.FuncLit{Type: t, Body: rw.block(e.Body)}
	case *ast.CompositeLit:
		elts := make([]ast.Expr, len(e.Elts))
		for i, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				k := kv.Key
				if _, isId := k.(*ast.Ident); !isId || rw.isMapLit(e) {
					k = rw.expr(k)
				}
				elts[i] = &ast.KeyValueExpr{Key: k, Value: rw.expr(kv.Value)}
			} else {
				elts[i] = rw.expr(x)
			}
		}
		return &ast.CompositeLit{Type: rw.expr(e.Type), Elts: elts}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: rw.expr(e.X)}
	case *ast.SelectorExpr:
		if p, ok := e.X.(*ast.Ident); ok {
			if pn, ok := rw.info.Uses[p].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if path == "os" && e.Sel.Name == "Exit" {
					rw.used = true
					rw.osName = p.Name
					return &ast.SelectorExpr{X: id("vrt"), Sel: id("Exit")}
				}
				if ns, ok := rw.shimOf[path]; ok && !ns[e.Sel.Name] {
					rw.std[path] = true
					return &ast.SelectorExpr{X: id(stdName(path)), Sel: e.Sel}
				}
				return e
			}
		}
		return &ast.SelectorExpr{X: rw.selBase(e), Sel: e.Sel}
	case *ast.IndexExpr:
		if rw.isMap(e.X) && rw.fields {
			return &ast.IndexExpr{X: rw.vrt("MR", rw.expr(e.X)), Index: rw.expr(e.Index)}
		}
		return &ast.IndexExpr{X: rw.expr(e.X), Index: rw.expr(e.Index)}
	case *ast.IndexListExpr:
		return &ast.IndexListExpr{X: rw.expr(e.X), Indices: rw.exprs(e.Indices)}
	case *ast.SliceExpr:
		return &ast.SliceExpr{X: rw.expr(e.X), Low: rw.expr(e.Low), High: rw.expr(e.High), Max: rw.expr(e.Max), Slice3: e.Slice3}
	case *ast.TypeAssertExpr:
		return &ast.TypeAssertExpr{X: rw.expr(e.X), Type: rw.expr(e.Type)}
	case *ast.CallExpr:
		return rw.call(e)
	case *ast.StarExpr:
		return &ast.StarExpr{X: rw.expr(e.X)}
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return rw.vrt("Recv", rw.expr(e.X))
		}
		if e.Op == token.AND {
			if _, lit := unparen(e.X).(*ast.CompositeLit); !lit {
				return addr(rw.place(e.X))
			}
		}
		return &ast.UnaryExpr{Op: e.Op, X: rw.expr(e.X)}
	case *ast.BinaryExpr:
		return &ast.BinaryExpr{X: rw.expr(e.X), Op: e.Op, Y: rw.expr(e.Y)}
	case *ast.KeyValueExpr:
		return &ast.KeyValueExpr{Key: rw.expr(e.Key), Value: rw.expr(e.Value)}
	case *ast.ArrayType:
		return &ast.ArrayType{Len: rw.expr(e.Len), Elt: rw.expr(e.Elt)}
	case *ast.StructType:
		rw.fieldList(e.Fields)
		return e
	case *ast.FuncType:
		rw.fieldList(e.TypeParams)
		rw.fieldList(e.Params)
		rw.fieldList(e.Results)
		return e
	case *ast.InterfaceType:
		rw.fieldList(e.Methods)
		return e
	case *ast.MapType:
		return &ast.MapType{Key: rw.expr(e.Key), Value: rw.expr(e.Value)}
	case *ast.ChanType:
		return &ast.ChanType{Dir: e.Dir, Value: rw.expr(e.Value)}
	}
	panic(fmt.Sprintf("expression %T", e))
}

func (rw *rewriter) isMapLit(e *ast.CompositeLit) bool {
	t := rw.typ(e)
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	_, ok := t.Underlying().(*types.Struct)
	return !ok
}

// selBase keeps the operand of a method call or field access a place where
// its address may be needed.
func (rw *rewriter) selBase(e *ast.SelectorExpr) ast.Expr {
	if rw.isType(e.X) {
		return rw.expr(e.X)
	}
	t := rw.typ(e.X)
	if t != nil {
		if _, ok := t.Underlying().(*types.Pointer); !ok && !types.IsInterface(t) {
			if _, sh := rw.isShared(e.X); !sh && rw.addressable(e.X) {
				return rw.place(e.X)
			}
		}
	}
	return rw.expr(e.X)
}

func (rw *rewriter) fieldList(l *ast.FieldList) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		f.Type = rw.expr(f.Type)
	}
}

func (rw *rewriter) call(e *ast.CallExpr) ast.Expr {
	if rw.builtin(e.Fun, "close") && len(e.Args) == 1 {
		return rw.vrt("Close", rw.expr(e.Args[0]))
	}
	if rw.builtin(e.Fun, "delete") && rw.fields && len(e.Args) == 2 {
		return call(id("delete"), rw.vrt("MW", rw.expr(e.Args[0])), rw.expr(e.Args[1]))
	}
	if rw.builtin(e.Fun, "len") && rw.fields && rw.isMap(e.Args[0]) {
		return call(id("len"), rw.vrt("MR", rw.expr(e.Args[0])))
	}
	if rw.builtin(e.Fun, "len") && len(e.Args) == 1 {
		if t := rw.typ(e.Args[0]); t != nil {
			if c, ok := t.Underlying().(*types.Chan); ok {
				if c.Dir() == types.SendOnly {
					return rw.vrt("LenS", rw.expr(e.Args[0]))
				}
				return rw.vrt("Len", rw.expr(e.Args[0]))
			}
		}
	}
	if rw.dense && len(e.Args) == 1 {
		// HTTP requests go to the harness
		if f, ok := unparen(e.Fun).(*ast.SelectorExpr); ok && f.Sel.Name == "Do" && rw.info.Selections[f] != nil {
			if p, ok := rw.typ(f.X).(*types.Pointer); ok && p.Elem().String() == "net/http.Client" {
				return rw.vrt("Do", rw.expr(f.X), rw.expr(e.Args[0]))
			}
		}
	}
	return &ast.CallExpr{Fun: rw.expr(e.Fun), Args: rw.exprs(e.Args), Ellipsis: e.Ellipsis}
}

// ---------------------------------------------------------------- statements

func (rw *rewriter) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	return &ast.BlockStmt{List: rw.stmts(b.List)}
}

func (rw *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, len(l))
	for _, s := range l {
		if rw.dense {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.DeclStmt, *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
			default:
				out = append(out, &ast.ExprStmt{X: rw.vrt("Dot")})
			}
		}
		out = append(out, rw.stmt(s))
	}
	return out
}

func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.ParenExpr:
		return pure(e.X)
	case *ast.SelectorExpr:
		return pure(e.X)
	}
	return false
}

func (rw *rewriter) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	return rw.stmt(s)
}

func recvOf(e ast.Expr) (ast.Expr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	if ok && u.Op == token.ARROW {
		return u.X, true
	}
	return nil, false
}

func (rw *rewriter) assign(s *ast.AssignStmt) ast.Stmt {
	// right
	var rhs []ast.Expr
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if ch, ok := recvOf(s.Rhs[0]); ok {
			rhs = []ast.Expr{rw.vrt("Recv2", rw.expr(ch))}
		}
	}
	if s.Tok == token.DEFINE {
		if rhs == nil {
			rhs = rw.exprs(s.Rhs)
		}
		return &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: rhs}
	}
	if len(s.Lhs) == 1 {
		if k, ok := rw.isShared(s.Lhs[0]); ok {
			if s.Tok == token.ASSIGN {
				return &ast.ExprStmt{X: call(sel(rw.vrt("Ref", str(k), addr(rw.place(s.Lhs[0]))), "Set"), rw.expr(s.Rhs[0]))}
			}
			if pure(s.Lhs[0]) {
				op := s.Tok - token.ADD_ASSIGN + token.ADD
				return rw.setOp(k, s.Lhs[0], op, rw.expr(s.Rhs[0]))
			}
		}
	}
	if rhs == nil {
		rhs = rw.exprs(s.Rhs)
	}
	lhs := make([]ast.Expr, len(s.Lhs))
	for i, l := range s.Lhs {
		lhs[i] = rw.target(l)
	}
	return &ast.AssignStmt{Lhs: lhs, Tok: s.Tok, Rhs: rhs}
}

func (rw *rewriter) setOp(k string, x ast.Expr, op token.Token, y ast.Expr) ast.Stmt {
	return &ast.ExprStmt{X: call(sel(rw.vrt("Ref", str(k), addr(rw.place(x))), "Set"),
		&ast.BinaryExpr{X: deref(rw.vrt("R", str(k), addr(rw.place(x)))), Op: op, Y: &ast.ParenExpr{X: y}})}
}

func (rw *rewriter) constant(e ast.Expr) bool {
	tv, ok := rw.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (rw *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	name := "func"
	c := s.Call
	switch f := unparen(c.Fun).(type) {
	case *ast.FuncLit:
		if len(c.Args) == 0 && (f.Type.Results == nil || len(f.Type.Results.List) == 0) {
			return &ast.ExprStmt{X: rw.vrt("GoAs", str(name), rw.expr(f))}
		}
	case *ast.SelectorExpr:
		name = f.Sel.Name
	case *ast.Ident:
		name = f.Name
		if _, ok := rw.info.Uses[f].(*types.Builtin); ok {
			return &ast.ExprStmt{X: rw.vrt("GoAs", str(name), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: rw.call(c)}}}})}
		}
	}
	var lhs, rhs, args []ast.Expr
	hoist := func(e, old ast.Expr) ast.Expr {
		if old != nil && rw.constant(old) {
			return e
		}
		n := rw.fresh("a")
		lhs = append(lhs, id(n))
		rhs = append(rhs, e)
		return id(n)
	}
	fun := hoist(rw.expr(c.Fun), nil)
	for _, a := range c.Args {
		args = append(args, hoist(rw.expr(a), a))
	}
	inner := &ast.CallExpr{Fun: fun, Args: args, Ellipsis: c.Ellipsis}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs},
		&ast.ExprStmt{X: rw.vrt("GoAs", str(name), &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}}})},
	}}
}

func (rw *rewriter) sel(s *ast.SelectStmt) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: rw.vrt("Forever")},
			&ast.ExprStmt{X: call(id("panic"), str("unreachable"))}}}
	}
	var lhs, rhs []ast.Expr
	args := []ast.Expr{nil}
	hasDefault := false
	var clauses []ast.Stmt
	k := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.UnaryExpr{Op: token.SUB, X: num(1)}}, Body: rw.stmts(cc.Body)})
			continue
		}
		n := rw.fresh("c")
		lhs = append(lhs, id(n))
		args = append(args, id(n))
		var pre []ast.Stmt
		switch x := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, call(rw.vrt("NewSend", rw.expr(x.Chan)), rw.expr(x.Value)))
		case *ast.ExprStmt:
			ch, _ := recvOf(x.X)
			rhs = append(rhs, rw.vrt("NewRecv", rw.expr(ch)))
		case *ast.AssignStmt:
			ch, _ := recvOf(x.Rhs[0])
			rhs = append(rhs, rw.vrt("NewRecv", rw.expr(ch)))
			get := "Get"
			if len(x.Lhs) == 2 {
				get = "Get2"
			}
			v := call(sel(id(n), get))
			if x.Tok == token.DEFINE {
				pre = append(pre, &ast.AssignStmt{Lhs: x.Lhs, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
			} else {
				l := make([]ast.Expr, len(x.Lhs))
				for i, e := range x.Lhs {
					l[i] = rw.target(e)
				}
				pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			}
		}
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{num(k)}, Body: append(pre, rw.stmts(cc.Body)...)})
		k++
	}
	args[0] = boolean(hasDefault)
	clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: call(id("panic"), str("unreachable"))}}})
	sw := &ast.SwitchStmt{Tag: rw.vrt("Select", args...), Body: &ast.BlockStmt{List: clauses}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

func (rw *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	t := rw.typ(s.X)
	var ctor string
	two := false
	if t != nil {
		switch t.Underlying().(type) {
		case *types.Chan:
			ctor = "ChanRange"
		case *types.Map:
			ctor, two = "MapRange", true
		}
	}
	if ctor == "" {
		r := &ast.RangeStmt{Tok: s.Tok, X: rw.expr(s.X), Body: rw.block(s.Body)}
		r.Key, r.Value = s.Key, s.Value
		if s.Tok == token.ASSIGN {
			if s.Key != nil {
				r.Key = rw.target(s.Key)
			}
			if s.Value != nil {
				r.Value = rw.target(s.Value)
			}
		}
		return r
	}
	it := rw.fresh("r")
	lhs := []ast.Expr{id(it)}
	var args []ast.Expr
	one := func(e ast.Expr) {
		if e == nil || isBlank(e) {
			lhs = append(lhs, id("_"))
			args = append(args, id("nil"))
			return
		}
		if s.Tok == token.DEFINE {
			lhs = append(lhs, e)
			args = append(args, addr(e))
			return
		}
		lhs = append(lhs, id("_"))
		args = append(args, addr(rw.place(e)))
	}
	one(s.Key)
	if two {
		one(s.Value)
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{rw.vrt(ctor, rw.expr(s.X))}},
		Cond: call(sel(id(it), "Next"), args...),
		Body: rw.block(s.Body),
	}
}

func isBlank(e ast.Expr) bool { i, ok := e.(*ast.Ident); return ok && i.Name == "_" }

func (rw *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case nil:
		return nil
	case *ast.BadStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return s
	case *ast.DeclStmt:
		rw.genDecl(s.Decl.(*ast.GenDecl))
		return s
	case *ast.LabeledStmt:
		return &ast.LabeledStmt{Label: s.Label, Stmt: rw.stmt(s.Stmt)}
	case *ast.ExprStmt:
		return &ast.ExprStmt{X: rw.expr(s.X)}
	case *ast.SendStmt:
		return &ast.ExprStmt{X: call(rw.vrt("SendTo", rw.expr(s.Chan)), rw.expr(s.Value))}
	case *ast.IncDecStmt:
		if k, ok := rw.isShared(s.X); ok && pure(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return rw.setOp(k, s.X, op, num(1))
		}
		return &ast.IncDecStmt{X: rw.target(s.X), Tok: s.Tok}
	case *ast.AssignStmt:
		return rw.assign(s)
	case *ast.GoStmt:
		return rw.goStmt(s)
	case *ast.DeferStmt:
		return &ast.DeferStmt{Call: rw.call(s.Call).(*ast.CallExpr)}
	case *ast.ReturnStmt:
		if len(s.Results) == 1 {
			if ch, ok := recvOf(s.Results[0]); ok {
				if tv := rw.info.Types[s.Results[0]]; tv.Type != nil {
					if _, tup := tv.Type.(*types.Tuple); tup {
						return &ast.ReturnStmt{Results: []ast.Expr{rw.vrt("Recv2", rw.expr(ch))}}
					}
				}
			}
		}
		return &ast.ReturnStmt{Results: rw.exprs(s.Results)}
	case *ast.BlockStmt:
		return rw.block(s)
	case *ast.IfStmt:
		return &ast.IfStmt{Init: rw.simple(s.Init), Cond: rw.expr(s.Cond), Body: rw.block(s.Body), Else: rw.simple(s.Else)}
	case *ast.CaseClause:
		return &ast.CaseClause{List: rw.exprs(s.List), Body: rw.stmts(s.Body)}
	case *ast.SwitchStmt:
		return &ast.SwitchStmt{Init: rw.simple(s.Init), Tag: rw.expr(s.Tag), Body: rw.block(s.Body)}
	case *ast.TypeSwitchStmt:
		a := s.Assign
		switch x := a.(type) {
		case *ast.AssignStmt:
			a = &ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: rw.exprs(x.Rhs)}
		case *ast.ExprStmt:
			a = &ast.ExprStmt{X: rw.expr(x.X)}
		}
		return &ast.TypeSwitchStmt{Init: rw.simple(s.Init), Assign: a, Body: rw.block(s.Body)}
	case *ast.SelectStmt:
		return rw.sel(s)
	case *ast.ForStmt:
		return &ast.ForStmt{Init: rw.simple(s.Init), Cond: rw.expr(s.Cond), Post: rw.simple(s.Post), Body: rw.block(s.Body)}
	case *ast.RangeStmt:
		return rw.rangeStmt(s)
	}
	panic(fmt.Sprintf("statement %T", s))
}

func (rw *rewriter) genDecl(d *ast.GenDecl) {
	for _, sp := range d.Specs {
		switch sp := sp.(type) {
		case *ast.ValueSpec:
			sp.Type = rw.expr(sp.Type)
			if len(sp.Names) == 2 && len(sp.Values) == 1 {
				if ch, ok := recvOf(sp.Values[0]); ok {
					sp.Values = []ast.Expr{rw.vrt("Recv2", rw.expr(ch))}
					continue
				}
			}
			sp.Values = rw.exprs(sp.Values)
		case *ast.TypeSpec:
			rw.fieldList(sp.TypeParams)
			sp.Type = rw.expr(sp.Type)
		}
	}
}

func (rw *rewriter) decl(d ast.Decl, serve string) {
	switch d := d.(type) {
	case *ast.GenDecl:
		if d.Tok != token.IMPORT {
			rw.genDecl(d)
		}
	case *ast.FuncDecl:
		rw.fieldList(d.Recv)
		d.Type = rw.expr(d.Type).(*ast.FuncType)
		d.Body = rw.block(d.Body)
		if serve != "" && d.Recv == nil && d.Name.Name == serve {
			var args []ast.Expr
			for _, f := range d.Type.Params.List {
				for _, n := range f.Names {
					args = append(args, id(n.Name))
				}
			}
			if len(args) >= 3 {
				args = args[:3]
				hook := &ast.IfStmt{
					Cond: &ast.BinaryExpr{X: rw.vrt("ServeHook").Fun, Op: token.NEQ, Y: id("nil")},
					Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call(rw.vrt("ServeHook").Fun, args...)}}}},
				}
				d.Body.List = append([]ast.Stmt{hook}, d.Body.List...)
			}
		}
	}
}
