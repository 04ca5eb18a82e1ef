// simgen instruments the packages of /repo's working tree for the deterministic
// simulation and writes the build overlay. Nothing under the repository changes.
//
//	simgen -repo /repo -out DIR -sim /verif/zzsim -sync /verif/zzsync -harness /verif/harness -level 3
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path, GoVersion string
		Main            bool
	}
}

const (
	simPath  = "gkr-mimc/zzverif/zzsim"
	syncPath = "gkr-mimc/zzverif/zzsync"
	zzfrPath = "gkr-mimc/zzverif/zzfr"
	frPath   = "github.com/consensys/gurvy/bn256/fr"
)

var level = flag.Int("level", 3, "3: everything, 2: no split operations, 1: synchronisation only")

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "simgen:", err)
		os.Exit(2)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	sim := flag.String("sim", "", "")
	syn := flag.String("sync", "", "")
	fr := flag.String("fr", "", "")
	harness := flag.String("harness", "", "")
	modfile := flag.String("modfile", "", "")
	flag.Parse()

	args := []string{"list", "-export", "-deps", "-json"}
	if *modfile != "" {
		args = append(args, "-modfile", *modfile)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	data, err := cmd.Output()
	if err != nil {
		die(fmt.Errorf("go list: %v\n%s", err, stderr.String()))
	}
	pkgs := map[string]*pkgInfo{}
	var own []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die(err)
		}
		q := p
		pkgs[p.ImportPath] = &q
		if p.Module != nil && p.Module.Main {
			own = append(own, &q)
		}
	}
	modPath := "gkr-mimc"
	if len(own) > 0 {
		modPath = own[0].Module.Path
	}
	if modPath != "gkr-mimc" {
		die(fmt.Errorf("unexpected module %s", modPath))
	}
	overlay := map[string]string{}
	nFiles := 0
	for _, p := range own {
		n, err := instrument(p, pkgs, *out, overlay)
		if err != nil {
			die(fmt.Errorf("%s: %v", p.ImportPath, err))
		}
		nFiles += n
	}
	add := func(dir, as string) {
		if dir == "" {
			return
		}
		die(filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if info.IsDir() || !strings.HasSuffix(path, ".go") {
				return nil
			}
			rel, _ := filepath.Rel(dir, path)
			overlay[filepath.Join(*repo, "zzverif", as, rel)] = path
			return nil
		}))
	}
	add(*sim, "zzsim")
	add(*syn, "zzsync")
	add(*fr, "zzfr")
	add(*harness, "harness")
	js, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644))
	st, _ := json.Marshal(stats)
	die(os.WriteFile(filepath.Join(*out, "simgen.json"), st, 0o644))
	fmt.Printf("simgen: level %d, %d packages, %d files, %s\n", *level, len(own), nFiles, st)
}

var stats = struct {
	Yields, Splits, Go, ChanOps, Sync, Selects, MapRanges, Clock, Globals int
}{}

func instrument(p *pkgInfo, pkgs map[string]*pkgInfo, out string, overlay map[string]string) (int, error) {
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		a, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return 0, err
		}
		files = append(files, a)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Instances:  map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp, GoVersion: ""}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		return 0, err
	}
	for i, f := range files {
		g := &gen{fset: fset, info: info, pkg: p.ImportPath}
		if strings.HasSuffix(p.ImportPath, "/hash") && !strings.Contains(p.ImportPath, "/snark/") {
			g.hash = true
		}
		g.findCaptured(f)
		g.file(f)
		var buf bytes.Buffer
		buf.WriteString("//go:build " + constraintOf(f, p) + "\n\n")
		f.Comments = nil
		if err := printer.Fprint(&buf, fset, f); err != nil {
			return 0, err
		}
		name := filepath.Join(out, "src", p.ImportPath, p.GoFiles[i])
		if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
			return 0, err
		}
		if err := os.WriteFile(name, buf.Bytes(), 0o644); err != nil {
			return 0, err
		}
		overlay[filepath.Join(p.Dir, p.GoFiles[i])] = name
	}
	if err := globals(p, files, out, overlay); err != nil {
		return 0, err
	}
	return len(files), nil
}

// globals adds a file that registers the package-level variables, so that every run starts with their initial values.
func globals(p *pkgInfo, files []*ast.File, out string, overlay map[string]string) error {
	var names []string
	for _, f := range files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						names = append(names, "&"+n.Name)
					}
				}
			}
		}
	}
	if len(names) == 0 || p.Name == "main" {
		return nil
	}
	stats.Globals += len(names)
	src := fmt.Sprintf("//go:build %s\n\npackage %s\n\nimport zzsim %q\n\nfunc init() { zzsim.Globals(%s) }\n",
		constraintOf(&ast.File{}, p), p.Name, simPath, strings.Join(names, ", "))
	const file = "zz_verif_globals.go"
	name := filepath.Join(out, "src", p.ImportPath, file)
	if err := os.MkdirAll(filepath.Dir(name), 0o755); err != nil {
		return err
	}
	if err := os.WriteFile(name, []byte(src), 0o644); err != nil {
		return err
	}
	overlay[filepath.Join(p.Dir, file)] = name
	return nil
}

// constraintOf returns the build constraint of the rewritten file: the old one and a
// language version that has generics without changing the meaning of loop variables.
func constraintOf(f *ast.File, p *pkgInfo) string {
	v := "go1.21"
	if p.Module != nil && p.Module.GoVersion != "" {
		parts := strings.Split(p.Module.GoVersion, ".")
		if len(parts) >= 2 {
			if m, err := strconv.Atoi(strings.TrimRight(parts[1], "rcbeta")); err == nil && m > 21 {
				v = "go" + parts[0] + "." + parts[1]
			}
		}
	}
	expr := v
	for _, cg := range f.Comments {
		if cg.Pos() >= f.Package {
			break
		}
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) {
				if x, err := constraint.Parse(c.Text); err == nil {
					expr = "(" + x.String() + ") && " + v
				}
			}
		}
	}
	return expr
}

type gen struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      string
	hash     bool
	captured map[types.Object]bool
	n        int
	usedSim  bool
	usedFr   bool
}

func (g *gen) tmp(s string) string {
	g.n++
	return fmt.Sprintf("zz%s%d", s, g.n)
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (g *gen) sim(name string) ast.Expr {
	g.usedSim = true
	return &ast.SelectorExpr{X: id("zzsim"), Sel: id(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }

func (g *gen) yield() ast.Stmt {
	stats.Yields++
	if g.hash {
		return &ast.ExprStmt{X: call(g.sim("YH"))}
	}
	return &ast.ExprStmt{X: call(g.sim("Y"))}
}

func (g *gen) late(e ast.Expr) ast.Expr {
	stats.Splits++
	if g.hash {
		return call(g.sim("LateH"), e)
	}
	return call(g.sim("Late"), e)
}

// findCaptured records the local variables that a function literal other than the one that declares them uses.
func (g *gen) findCaptured(f *ast.File) {
	g.captured = map[types.Object]bool{}
	var lits []*ast.FuncLit
	var walk func(n ast.Node)
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				if m == n {
					return true
				}
				lits = append(lits, x)
				walk(x)
				lits = lits[:len(lits)-1]
				return false
			case *ast.Ident:
				if len(lits) == 0 {
					return true
				}
				if o, ok := g.info.Uses[x].(*types.Var); ok && !o.IsField() {
					l := lits[len(lits)-1]
					if o.Pos() < l.Pos() || o.Pos() > l.End() {
						g.captured[o] = true
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if i, ok := unparen(x.X).(*ast.Ident); ok {
						_ = i
					}
				}
			}
			return true
		})
	}
	walk(f)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (g *gen) typeOf(e ast.Expr) types.Type {
	if tv, ok := g.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := g.info.Uses[i]; o != nil {
			return o.Type()
		}
		if o := g.info.Defs[i]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

// shared tells whether a memory location may be visible to other tasks.
func (g *gen) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return g.shared(x.X)
	case *ast.Ident:
		o, ok := g.info.Uses[x].(*types.Var)
		if !ok {
			return false
		}
		if o.Parent() != nil && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
			return true
		}
		return g.captured[o]
	case *ast.SelectorExpr:
		if i, ok := x.X.(*ast.Ident); ok {
			if _, ok := g.info.Uses[i].(*types.PkgName); ok {
				return true
			}
		}
		if t := g.typeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return true
			}
		}
		return g.shared(x.X)
	case *ast.IndexExpr:
		t := g.typeOf(x.X)
		if t == nil {
			return true
		}
		if _, ok := t.Underlying().(*types.Array); ok {
			return g.shared(x.X)
		}
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

func (g *gen) file(f *ast.File) {
	for _, d := range f.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			x.Doc = nil
			if x.Body != nil {
				x.Body = g.block(x.Body)
			}
		case *ast.GenDecl:
			x.Doc = nil
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.ValueSpec:
					y.Doc, y.Comment = nil, nil
					if x.Tok == token.VAR {
						g.exprs(y.Values)
					}
				case *ast.TypeSpec:
					y.Doc, y.Comment = nil, nil
					stripFields(y.Type)
				case *ast.ImportSpec:
					y.Doc, y.Comment = nil, nil
				}
			}
		}
	}
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		if x, ok := n.(*ast.SelectorExpr); ok {
			if i, ok := x.X.(*ast.Ident); ok {
				if pn, ok := g.info.Uses[i].(*types.PkgName); ok && redirectedTypes[pn.Imported().Path()+"."+x.Sel.Name] {
					x.X = id("zzsim")
				}
			}
		}
		return true
	})
	// imports
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok != token.IMPORT {
			continue
		}
		for _, s := range gd.Specs {
			is := s.(*ast.ImportSpec)
			if is.Path.Value == `"sync"` {
				is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(syncPath)}
				if is.Name == nil {
					is.Name = id("sync")
				}
				is.EndPos = 0
				stats.Sync++
			}
		}
	}
	// packages whose functions were redirected may be unused now
	imp := &ast.GenDecl{Tok: token.IMPORT, Lparen: f.Name.End(), Specs: []ast.Spec{
		&ast.ImportSpec{Name: id("zzsim"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPath)}},
	}, Rparen: f.Name.End()}
	if g.usedFr {
		imp.Specs = append(imp.Specs, &ast.ImportSpec{Name: id("zzfr"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zzfrPath)}})
	}
	f.Decls = append([]ast.Decl{imp}, f.Decls...)
	keep := []ast.Decl{&ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
		&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id("zzsim"), Sel: id("Y")}}},
	}}}
	for _, ps := range [][2]string{{"time", "Nanosecond"}, {"runtime", "Compiler"}, {"math/rand", "NewSource"}, {"crypto/rand", "Reader"}, {"os", "Args"}, {"log", "Println"}, {"runtime/trace", "Log"}, {"github.com/pkg/profile", "Quiet"}} {
		path, sym := ps[0], ps[1]
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.IMPORT {
				continue
			}
			for _, s := range gd.Specs {
				is := s.(*ast.ImportSpec)
				if is.Path.Value == strconv.Quote(path) {
					name := path[strings.LastIndex(path, "/")+1:]
					if is.Name != nil {
						name = is.Name.Name
					}
					if name == "_" || name == "." {
						continue
					}
					keep = append(keep, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{
						&ast.ValueSpec{Names: []*ast.Ident{id("_")}, Values: []ast.Expr{&ast.SelectorExpr{X: id(name), Sel: id(sym)}}},
					}})
				}
			}
		}
	}
	f.Decls = append(f.Decls, keep...)
}

func stripFields(e ast.Expr) {
	ast.Inspect(e, func(n ast.Node) bool {
		if f, ok := n.(*ast.Field); ok {
			f.Doc, f.Comment = nil, nil
		}
		return true
	})
}

func (g *gen) block(b *ast.BlockStmt) *ast.BlockStmt {
	if b == nil {
		return nil
	}
	b.List = g.stmts(b.List)
	return b
}

// loopBody makes sure that every iteration passes a yield point
func (g *gen) loopBody(b *ast.BlockStmt) *ast.BlockStmt {
	empty := len(b.List) == 0
	b = g.block(b)
	if empty {
		b.List = []ast.Stmt{g.loopYield()}
	} else if *level == 1 || g.hash {
		b.List = append([]ast.Stmt{g.loopYield()}, b.List...)
	}
	return b
}

func (g *gen) loopYield() ast.Stmt {
	stats.Yields++
	if g.hash {
		return &ast.ExprStmt{X: call(g.sim("YC"))}
	}
	return &ast.ExprStmt{X: call(g.sim("Y"))}
}

func (g *gen) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		if *level >= 2 {
			switch x := s.(type) {
			case *ast.EmptyStmt, *ast.DeclStmt, *ast.BlockStmt, *ast.BranchStmt:
			default:
				_ = x
				out = append(out, g.yield())
			}
		}
		out = append(out, g.stmt(s))
	}
	return out
}

func (g *gen) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = g.expr(l[i])
	}
}

func pure(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(x.X)
	case *ast.ParenExpr:
		return pure(x.X)
	}
	return false
}

func (g *gen) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.ExprStmt:
		if *level >= 3 {
			if r := g.splitCall(x); r != nil {
				return r
			}
		}
		x.X = g.expr(x.X)
		return x
	case *ast.SendStmt:
		stats.ChanOps++
		return &ast.ExprStmt{X: call(call(g.sim("SendTo"), g.expr(x.Chan)), g.expr(x.Value))}
	case *ast.IncDecStmt:
		if *level >= 3 && g.shared(x.X) && !g.isMapIndex(x.X) {
			op := token.ADD
			if x.Tok == token.DEC {
				op = token.SUB
			}
			return g.rmw(x.X, op, &ast.BasicLit{Kind: token.INT, Value: "1"})
		}
		x.X = g.expr(x.X)
		return x
	case *ast.AssignStmt:
		return g.assign(x)
	case *ast.GoStmt:
		stats.Go++
		c := x.Call
		if i, ok := unparen(c.Fun).(*ast.Ident); ok {
			if _, ok := g.info.Uses[i].(*types.Builtin); ok {
				body := g.expr(c)
				lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: body}}}}
				return &ast.ExprStmt{X: call(g.sim("Go"), lit)}
			}
		}
		c.Fun = g.expr(c.Fun)
		g.exprs(c.Args)
		c.Fun = call(g.sim("Wrap"), c.Fun)
		return &ast.ExprStmt{X: c}
	case *ast.DeferStmt:
		x.Call = g.callee(x.Call)
		return x
	case *ast.ReturnStmt:
		g.exprs(x.Results)
		return x
	case *ast.BlockStmt:
		return g.block(x)
	case *ast.IfStmt:
		x.Init = g.simple(x.Init)
		x.Cond = g.expr(x.Cond)
		x.Body = g.block(x.Body)
		x.Else = g.stmt(x.Else)
		return x
	case *ast.CaseClause:
		g.exprs(x.List)
		x.Body = g.stmts(x.Body)
		return x
	case *ast.SwitchStmt:
		x.Init = g.simple(x.Init)
		if x.Tag != nil {
			x.Tag = g.expr(x.Tag)
		}
		for i := range x.Body.List {
			x.Body.List[i] = g.stmt(x.Body.List[i])
		}
		return x
	case *ast.TypeSwitchStmt:
		x.Init = g.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.ExprStmt:
			ta := a.X.(*ast.TypeAssertExpr)
			ta.X = g.expr(ta.X)
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = g.expr(ta.X)
		}
		for i := range x.Body.List {
			x.Body.List[i] = g.stmt(x.Body.List[i])
		}
		return x
	case *ast.SelectStmt:
		return g.selectStmt(x, "")
	case *ast.ForStmt:
		x.Init = g.simple(x.Init)
		if x.Cond != nil {
			x.Cond = g.expr(x.Cond)
		}
		x.Post = g.simple(x.Post)
		x.Body = g.loopBody(x.Body)
		return x
	case *ast.RangeStmt:
		return g.rangeStmt(x)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return g.selectStmt(sel, x.Label.Name)
		}
		x.Stmt = g.stmt(x.Stmt)
		return x
	case *ast.DeclStmt:
		if gd, ok := x.Decl.(*ast.GenDecl); ok && gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					g.valueSpec(v)
				}
			}
		}
		return x
	}
	return s
}

func (g *gen) valueSpec(v *ast.ValueSpec) {
	if len(v.Names) == 2 && len(v.Values) == 1 {
		if u, ok := unparen(v.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			stats.ChanOps++
			v.Values[0] = call(g.sim("Recv2"), g.expr(u.X))
			return
		}
	}
	g.exprs(v.Values)
}

// simple handles the init and post statements of if, for and switch: no split, no block.
func (g *gen) simple(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case nil:
		return nil
	case *ast.AssignStmt:
		g.recv2(x)
		g.exprs(x.Lhs)
		g.exprs(x.Rhs)
		return x
	case *ast.IncDecStmt:
		x.X = g.expr(x.X)
		return x
	case *ast.ExprStmt:
		x.X = g.expr(x.X)
		return x
	case *ast.SendStmt:
		return g.stmt(x)
	}
	return g.stmt(s)
}

// recv2 rewrites v, ok := <-c
func (g *gen) recv2(x *ast.AssignStmt) bool {
	if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
		if u, ok := unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			stats.ChanOps++
			x.Rhs[0] = call(g.sim("Recv2"), u.X)
			return true
		}
	}
	return false
}

func (g *gen) isMapIndex(e ast.Expr) bool {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return false
	}
	t := g.typeOf(ix.X)
	if t == nil {
		return false
	}
	_, ok = t.Underlying().(*types.Map)
	return ok
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

func (g *gen) rmw(lhs ast.Expr, op token.Token, rhs ast.Expr) ast.Stmt {
	p, t := g.tmp("p"), g.tmp("t")
	stats.Splits++
	star := func() ast.Expr { return &ast.StarExpr{X: id(p)} }
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{id(p)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: &ast.ParenExpr{X: g.expr(lhs)}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: star(), Op: op, Y: &ast.ParenExpr{X: rhs}}}},
		g.yield(),
		&ast.AssignStmt{Lhs: []ast.Expr{star()}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(t)}},
	}}
}

func (g *gen) assign(x *ast.AssignStmt) ast.Stmt {
	if g.recv2(x) {
		g.exprs(x.Lhs)
		c := x.Rhs[0].(*ast.CallExpr)
		c.Args[0] = g.expr(c.Args[0])
		return x
	}
	if *level >= 3 && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
		if op, ok := opOf[x.Tok]; ok && g.shared(x.Lhs[0]) && !g.isMapIndex(x.Lhs[0]) {
			return g.rmw(x.Lhs[0], op, g.expr(x.Rhs[0]))
		}
		if x.Tok == token.ASSIGN && g.shared(x.Lhs[0]) {
			lt, rt := g.typeOf(x.Lhs[0]), g.info.Types[x.Rhs[0]]
			if lt != nil && rt.Type != nil && rt.Value == nil && !rt.IsNil() && types.Identical(lt, rt.Type) && !untyped(rt.Type) && !shiftOrCmp(x.Rhs[0]) {
				g.exprs(x.Lhs)
				x.Rhs[0] = g.late(g.expr(x.Rhs[0]))
				return x
			}
		}
	}
	g.exprs(x.Lhs)
	g.exprs(x.Rhs)
	return x
}

// shiftOrCmp: expressions whose type depends on the context they stand in
func shiftOrCmp(e ast.Expr) bool {
	bad := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.FuncLit, *ast.CallExpr, *ast.IndexExpr:
			return false
		case *ast.BinaryExpr:
			switch b.Op {
			case token.SHL, token.SHR, token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.LAND, token.LOR:
				bad = true
			}
		case *ast.UnaryExpr:
			if b.Op == token.NOT {
				bad = true
			}
		}
		return true
	})
	return bad
}

func untyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

var frMethods = map[string]bool{"Add": true, "Sub": true, "Mul": true, "Square": true, "Neg": true, "Inverse": true, "Double": true, "Div": true, "Set": true,
	"MulAssign": true, "AddAssign": true, "SubAssign": true}

// splitCall turns x.Mul(&a, &b), with x visible to other tasks, into read operands; yield; write.
func (g *gen) splitCall(s *ast.ExprStmt) ast.Stmt {
	c, ok := s.X.(*ast.CallExpr)
	if !ok {
		return nil
	}
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || !frMethods[sel.Sel.Name] || len(c.Args) == 0 {
		return nil
	}
	if strings.HasSuffix(sel.Sel.Name, "Assign") {
		return nil
	}
	selection := g.info.Selections[sel]
	if selection == nil || selection.Kind() != types.MethodVal {
		return nil
	}
	rt := g.typeOf(sel.X)
	if rt == nil {
		return nil
	}
	elem := rt
	isPtr := false
	if p, ok := rt.(*types.Pointer); ok {
		elem, isPtr = p.Elem(), true
	}
	n, ok := elem.(*types.Named)
	if !ok || n.Obj().Name() != "Element" || n.Obj().Pkg() == nil || !strings.HasSuffix(n.Obj().Pkg().Path(), "/fr") {
		return nil
	}
	if !isPtr && !g.shared(sel.X) {
		return nil
	}
	for _, a := range c.Args {
		at, ok := g.typeOf(a).(*types.Pointer)
		if !ok || !types.Identical(at.Elem(), elem) {
			return nil
		}
		if tv := g.info.Types[a]; tv.IsNil() {
			return nil
		}
	}
	stats.Splits++
	b := &ast.BlockStmt{}
	recv := g.expr(sel.X)
	var args []ast.Expr
	for _, a := range c.Args {
		t := g.tmp("a")
		var v ast.Expr
		if u, ok := unparen(a).(*ast.UnaryExpr); ok && u.Op == token.AND {
			v = g.expr(u.X)
		} else {
			v = &ast.StarExpr{X: &ast.ParenExpr{X: g.expr(a)}}
		}
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{id(t)}, Tok: token.DEFINE, Rhs: []ast.Expr{v}})
		args = append(args, &ast.UnaryExpr{Op: token.AND, X: id(t)})
	}
	b.List = append(b.List, g.yield(), &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: recv, Sel: sel.Sel}, Args: args}})
	return b
}

func (g *gen) callee(c *ast.CallExpr) *ast.CallExpr {
	e := g.expr(c)
	if r, ok := e.(*ast.CallExpr); ok {
		return r
	}
	return c
}

func (g *gen) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := g.typeOf(x.X)
	if t != nil {
		switch t.Underlying().(type) {
		case *types.Chan:
			stats.ChanOps++
			zc, zok := g.tmp("c"), g.tmp("ok")
			body := g.loopBody(x.Body)
			var pre []ast.Stmt
			init := &ast.AssignStmt{Lhs: []ast.Expr{id(zc), id("_")}, Tok: token.DEFINE, Rhs: []ast.Expr{call(g.sim("RangeChan"), g.expr(x.X))}}
			if x.Key == nil || isBlank(x.Key) {
				pre = []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id("_"), id(zok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(g.sim("Recv2"), id(zc))}}}
			} else if x.Tok == token.DEFINE {
				init.Lhs[1] = x.Key
				zv := g.tmp("v")
				pre = []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{id(zv), id(zok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(g.sim("Recv2"), id(zc))}},
				}
				pre = append(pre, breakUnless(zok), &ast.AssignStmt{Lhs: []ast.Expr{id(x.Key.(*ast.Ident).Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(zv)}})
			} else {
				zv := g.tmp("v")
				pre = []ast.Stmt{
					&ast.AssignStmt{Lhs: []ast.Expr{id(zv), id(zok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(g.sim("Recv2"), id(zc))}},
				}
				pre = append(pre, breakUnless(zok), &ast.AssignStmt{Lhs: []ast.Expr{g.expr(x.Key)}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(zv)}})
			}
			if len(pre) == 1 {
				pre = append(pre, breakUnless(zok))
			}
			body.List = append(pre, body.List...)
			return &ast.ForStmt{Init: init, Body: body}
		case *types.Map:
			stats.MapRanges++
			if (x.Tok == token.DEFINE || x.Key == nil) && pure(x.X) {
				zk, zok := g.tmp("k"), g.tmp("ok")
				body := g.loopBody(x.Body)
				val := ast.Expr(id("_"))
				if x.Value != nil {
					val = x.Value
				}
				var pre []ast.Stmt
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{val, id(zok)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: x.X, Index: id(zk)}}})
				pre = append(pre, &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(zok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}})
				if x.Key != nil && !isBlank(x.Key) {
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.DEFINE, Rhs: []ast.Expr{id(zk)}})
				}
				body.List = append(pre, body.List...)
				return &ast.RangeStmt{Key: id("_"), Value: id(zk), Tok: token.DEFINE, X: call(g.sim("MapKeys"), x.X), Body: body}
			}
		}
	}
	x.X = g.expr(x.X)
	if x.Tok == token.ASSIGN {
		if x.Key != nil {
			x.Key = g.expr(x.Key)
		}
		if x.Value != nil {
			x.Value = g.expr(x.Value)
		}
	}
	x.Body = g.loopBody(x.Body)
	return x
}

func isBlank(e ast.Expr) bool {
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func breakUnless(ok string) ast.Stmt {
	return &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}
}

func (g *gen) selectStmt(x *ast.SelectStmt, label string) ast.Stmt {
	stats.Selects++
	blk := &ast.BlockStmt{}
	zi, zv, zok := g.tmp("i"), g.tmp("v"), g.tmp("ok")
	hasDefault := "false"
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Tag: id(zi), Body: &ast.BlockStmt{}}
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		clause := &ast.CaseClause{}
		switch c := cc.Comm.(type) {
		case nil:
			hasDefault = "true"
		case *ast.SendStmt:
			zc := g.tmp("c")
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{id(zc)}, Tok: token.DEFINE, Rhs: []ast.Expr{g.expr(c.Chan)}})
			clause.List = []ast.Expr{intLit(len(cases))}
			cases = append(cases, call(call(g.sim("SendCase"), id(zc)), g.expr(c.Value)))
		default:
			var ch ast.Expr
			var lhs []ast.Expr
			tok := token.ASSIGN
			switch d := c.(type) {
			case *ast.ExprStmt:
				ch = unparen(d.X).(*ast.UnaryExpr).X
			case *ast.AssignStmt:
				ch = unparen(d.Rhs[0]).(*ast.UnaryExpr).X
				lhs, tok = d.Lhs, d.Tok
			}
			zc := g.tmp("c")
			blk.List = append(blk.List, &ast.AssignStmt{Lhs: []ast.Expr{id(zc)}, Tok: token.DEFINE, Rhs: []ast.Expr{g.expr(ch)}})
			clause.List = []ast.Expr{intLit(len(cases))}
			cases = append(cases, call(g.sim("RecvCase"), id(zc)))
			if len(lhs) > 0 {
				var rhs []ast.Expr
				rhs = append(rhs, call(g.sim("Val"), id(zc), id(zv)))
				if len(lhs) > 1 {
					rhs = append(rhs, id(zok))
				}
				if tok == token.ASSIGN {
					g.exprs(lhs)
				}
				allBlank := true
				for _, l := range lhs {
					allBlank = allBlank && isBlank(l)
				}
				if allBlank {
					tok = token.ASSIGN
				}
				clause.Body = append(clause.Body, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: rhs})
			}
		}
		clause.Body = append(clause.Body, g.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, clause)
	}
	args := append([]ast.Expr{id(hasDefault)}, cases...)
	blk.List = append(blk.List,
		&ast.AssignStmt{Lhs: []ast.Expr{id(zi), id(zv), id(zok)}, Tok: token.DEFINE, Rhs: []ast.Expr{call(g.sim("Select"), args...)}},
		&ast.AssignStmt{Lhs: []ast.Expr{id("_"), id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(zv), id(zok)}},
	)
	if label != "" {
		blk.List = append(blk.List, &ast.LabeledStmt{Label: id(label), Stmt: sw})
	} else {
		blk.List = append(blk.List, sw)
	}
	return blk
}

func intLit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

var redirected = map[string]map[string]string{
	"time": {"Sleep": "Sleep", "Now": "Now", "Since": "Since", "Until": "Until", "After": "After", "AfterFunc": "AfterFunc", "NewTimer": "NewTimer",
		"NewTicker": "NewTicker", "Tick": "Tick", "Timer": "Timer", "Ticker": "Ticker"},
	"crypto/rand": {"Read": "CryptoRead"},
	"os": {"Create": "OSCreate", "OpenFile": "OSOpenFile", "File": "File", "Mkdir": "OSMkdir", "MkdirAll": "OSMkdir", "Remove": "OSRemove", "RemoveAll": "OSRemove",
		"Getenv": "OSGetenv", "LookupEnv": "OSLookupEnv", "Setenv": "OSSetenv", "Unsetenv": "OSUnsetenv", "Environ": "OSEnviron", "ExpandEnv": "OSExpandEnv", "Exit": "OSExit"},
	"log":                    {"Fatal": "LogFatal", "Fatalln": "LogFatal", "Fatalf": "LogFatalf"},
	"runtime/trace":          {"Start": "TraceStart", "Stop": "TraceStop", "IsEnabled": "TraceIsEnabled"},
	"github.com/pkg/profile": {"Start": "ProfileStart"},
	"runtime":                {"Gosched": "Gosched", "GOMAXPROCS": "GOMAXPROCS", "NumCPU": "NumCPU", "NumGoroutine": "NumGoroutine"},
}

var redirectedTypes = map[string]bool{"time.Timer": true, "time.Ticker": true, "os.File": true}

var randGlobals = map[string]bool{"Int": true, "Intn": true, "Int31": true, "Int31n": true, "Int63": true, "Int63n": true, "Uint32": true, "Uint64": true,
	"Float32": true, "Float64": true, "Perm": true, "Shuffle": true, "NormFloat64": true, "ExpFloat64": true, "Read": true, "Seed": true}

func (g *gen) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.ParenExpr:
		x.X = g.expr(x.X)
	case *ast.SelectorExpr:
		if i, ok := x.X.(*ast.Ident); ok {
			if pn, ok := g.info.Uses[i].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if to, ok := redirected[path][x.Sel.Name]; ok {
					stats.Clock++
					return g.sim(to)
				}
				if path == "math/rand" && randGlobals[x.Sel.Name] {
					stats.Clock++
					return &ast.SelectorExpr{X: call(g.sim("Rand")), Sel: x.Sel}
				}
				return x
			}
		}
		x.X = g.expr(x.X)
	case *ast.IndexExpr:
		x.X = g.expr(x.X)
		if tv, ok := g.info.Types[x.Index]; !ok || !tv.IsType() {
			x.Index = g.expr(x.Index)
		}
	case *ast.SliceExpr:
		x.X = g.expr(x.X)
		x.Low, x.High, x.Max = g.opt(x.Low), g.opt(x.High), g.opt(x.Max)
	case *ast.TypeAssertExpr:
		x.X = g.expr(x.X)
	case *ast.StarExpr:
		x.X = g.expr(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			stats.ChanOps++
			return call(g.sim("Recv"), g.expr(x.X))
		}
		x.X = g.expr(x.X)
	case *ast.BinaryExpr:
		x.X, x.Y = g.expr(x.X), g.expr(x.Y)
	case *ast.KeyValueExpr:
		// field names are not expressions; map and array keys are harmless to leave, except for calls
		if _, ok := x.Key.(*ast.Ident); !ok {
			x.Key = g.expr(x.Key)
		}
		x.Value = g.expr(x.Value)
	case *ast.CompositeLit:
		g.exprs(x.Elts)
	case *ast.FuncLit:
		x.Body = g.block(x.Body)
	case *ast.CallExpr:
		if i, ok := unparen(x.Fun).(*ast.Ident); ok {
			if b, ok := g.info.Uses[i].(*types.Builtin); ok {
				switch b.Name() {
				case "close":
					stats.ChanOps++
					return call(g.sim("Close"), g.expr(x.Args[0]))
				case "len":
					if isChan(g.typeOf(x.Args[0])) {
						return call(g.sim("Len"), g.expr(x.Args[0]))
					}
				case "make", "new":
					for k := 1; k < len(x.Args); k++ {
						x.Args[k] = g.expr(x.Args[k])
					}
					return x
				}
			}
		}
		if r := g.pooled(x); r != nil {
			return r
		}
		if tv, ok := g.info.Types[x.Fun]; !ok || !tv.IsType() {
			sel, _ := x.Fun.(*ast.SelectorExpr)
			chained := false
			if sel != nil && *level >= 3 { // a.f().g() with f returning a pointer
				if _, ok := unparen(sel.X).(*ast.CallExpr); ok {
					if t := g.typeOf(sel.X); t != nil {
						_, chained = t.Underlying().(*types.Pointer)
					}
				}
			}
			x.Fun = g.expr(x.Fun)
			if chained && x.Fun == ast.Expr(sel) {
				sel.X = g.late(sel.X)
			}
		}
		g.exprs(x.Args)
	}
	return e
}

// pooled rewrites the calls of gurvy's methods that work on a pool of numbers shared by the whole process
// into calls of copies that yield.
func (g *gen) pooled(c *ast.CallExpr) ast.Expr {
	sel, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	m := g.info.Selections[sel]
	if m == nil || m.Kind() != types.MethodVal || m.Obj().Pkg() == nil || m.Obj().Pkg().Path() != frPath || len(m.Index()) != 1 {
		return nil
	}
	switch sel.Sel.Name {
	case "String", "SetString", "SetBytes", "SetBigInt":
	default:
		return nil
	}
	t := g.typeOf(sel.X)
	if t == nil {
		return nil
	}
	recv := g.expr(sel.X)
	switch y := t.(type) {
	case *types.Pointer:
		if n, ok := y.Elem().(*types.Named); !ok || n.Obj().Name() != "Element" {
			return nil
		}
	case *types.Named:
		if y.Obj().Name() != "Element" {
			return nil
		}
		recv = &ast.UnaryExpr{Op: token.AND, X: recv}
	default:
		return nil
	}
	stats.Splits++
	g.exprs(c.Args)
	g.usedFr = true
	return call(&ast.SelectorExpr{X: id("zzfr"), Sel: sel.Sel}, append([]ast.Expr{recv}, c.Args...)...)
}

func (g *gen) opt(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	return g.expr(e)
}
