// Command simgen copies the packages of /repo, and the few standard library
// packages whose behaviour depends on scheduling, into a scratch module in
// which every statement is preceded by a call of the simulator's scheduler
// and in which operating system packages are replaced by simulated ones. It
// reads /repo only; nothing is written there.
//
//	simgen -repo /repo -out DIR -tmpl /verif/sim/tmpl -slots 2
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Export     string
	Module     *struct{ Path, Dir, GoVersion string }
	std        bool // copy of a standard library package
	out        string
	files      []*srcFile
	tpkg       *types.Package
	info       *types.Info
}

type srcFile struct {
	name  string
	src   []byte
	ast   *ast.File
	edits []edit
	tail  bytes.Buffer
}

type edit struct {
	off, end int
	text     string
	seq      int
}

var (
	fset   = token.NewFileSet()
	site   = 0
	sites  []string
	tmpls  = map[string]string{"os": "os.go.tmpl", "os/exec": "exec.go.tmpl", "io/ioutil": "ioutil.go.tmpl", "os/signal": "signal.go.tmpl"}
	alias  = []string{"fmt", "io", "time", "path/filepath"}
	copies = []string{"log", "flag", "net/rpc", "net/rpc/jsonrpc"}
	banned = map[string]bool{"net": true, "net/http": true, "html/template": true, "log/internal": true}
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(1)
}

func goList(dir string, args ...string) []*pkgInfo {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list %v: %v", args, err)
	}
	var l []*pkgInfo
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		p := &pkgInfo{}
		if err := d.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		l = append(l, p)
	}
	return l
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	tmpl := flag.String("tmpl", "", "")
	slots := flag.Int("slots", 2, "")
	flag.Parse()
	goroot := strings.TrimSpace(run("go", "env", "GOROOT"))

	repoPkgs := goList(*repo, "-mod=readonly", "-json=ImportPath,Name,Dir,GoFiles,Imports,Module", "./...")
	if len(repoPkgs) == 0 {
		die("no packages in %s", *repo)
	}
	modPath := repoPkgs[0].Module.Path
	var all []*pkgInfo
	for _, c := range copies {
		p := &pkgInfo{ImportPath: c, Name: filepath.Base(c), Dir: filepath.Join(goroot, "src", c), std: true}
		ents, err := os.ReadDir(p.Dir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			n := e.Name()
			if strings.HasSuffix(n, ".go") && !strings.HasSuffix(n, "_test.go") && !(c == "net/rpc" && n == "debug.go") {
				p.GoFiles = append(p.GoFiles, n)
			}
		}
		p.out = "@SLOT@/std/" + c
		all = append(all, p)
	}
	for _, p := range repoPkgs {
		p.out = "@SLOT@/burl" + strings.TrimPrefix(p.ImportPath, modPath)
		all = append(all, p)
	}
	for _, p := range all {
		p.parse()
	}
	local := map[string]*pkgInfo{}
	for _, p := range all {
		local[p.ImportPath] = p
	}
	native := map[string]bool{}
	for _, a := range alias {
		native[a] = true
	}
	for _, p := range all {
		for _, f := range p.files {
			for _, i := range f.ast.Imports {
				path, _ := strconv.Unquote(i.Path.Value)
				if local[path] == nil && path != "unsafe" && path != "C" {
					native[path] = true
				}
			}
		}
	}
	var nl []string
	for n := range native {
		nl = append(nl, n)
	}
	sort.Strings(nl)
	exports := map[string]string{}
	for _, p := range goList(*repo, append([]string{"-mod=readonly", "-export", "-deps", "-json=ImportPath,Export"}, nl...)...) {
		exports[p.ImportPath] = p.Export
	}
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := &imp{local, gc}
	for _, p := range all {
		p.check(imp)
	}
	rewrite := map[string]string{"sync": "verif.local/sim/ssync"}
	for t := range tmpls {
		rewrite[t] = "@SLOT@/std/" + t
	}
	for _, a := range alias {
		rewrite[a] = "@SLOT@/std/" + a
	}
	for _, p := range all {
		rewrite[p.ImportPath] = p.out
	}
	files := map[string][]byte{} // path below slot -> content
	order := topo(all, local)
	for _, p := range all {
		dir := strings.TrimPrefix(p.out, "@SLOT@/")
		for n, b := range p.emit(rewrite) {
			files[dir+"/"+n] = b
		}
	}
	for t, f := range tmpls {
		b, err := os.ReadFile(filepath.Join(*tmpl, filepath.Base(t), f))
		if err != nil {
			die("%v", err)
		}
		files["std/"+t+"/shim.go"] = b
	}
	for _, a := range alias {
		b, err := os.ReadFile(filepath.Join(*tmpl, filepath.Base(a), "override.go.tmpl"))
		if err != nil {
			die("%v", err)
		}
		files["std/"+a+"/override.go"] = b
		files["std/"+a+"/alias.go"] = aliasFile(a, b, gc)
	}
	// registry
	var reg bytes.Buffer
	fmt.Fprintf(&reg, "//go:build go1.27\n\npackage slot\n\nimport (\n\t\"verif.local/sim/kernel\"\n\tsimos \"@SLOT@/std/os\"\n")
	for i, p := range order {
		fmt.Fprintf(&reg, "\tp%d %q\n", i, p.out)
	}
	fmt.Fprintf(&reg, ")\n\nfunc Start(p *kernel.Proc) {\n\tsimos.SimStart(p)\n")
	for i := range order {
		fmt.Fprintf(&reg, "\tp%d.SimReset()\n", i)
	}
	fmt.Fprintf(&reg, "}\n\nvar Mains = map[string]func(){\n")
	for i, p := range order {
		if p.Name == "main" {
			fmt.Fprintf(&reg, "\t%q: p%d.SimMain,\n", strings.TrimPrefix(p.ImportPath, modPath+"/"), i)
		}
	}
	fmt.Fprintf(&reg, "}\n")
	files["slot.go"] = reg.Bytes()
	for s := 0; s < *slots; s++ {
		prefix := fmt.Sprintf("gen.local/s%d", s)
		for n, b := range files {
			path := filepath.Join(*out, fmt.Sprintf("s%d", s), n)
			os.MkdirAll(filepath.Dir(path), 0755)
			if err := os.WriteFile(path, bytes.ReplaceAll(b, []byte("@SLOT@"), []byte(prefix)), 0644); err != nil {
				die("%v", err)
			}
		}
	}
	gov := "1.14"
	if repoPkgs[0].Module.GoVersion != "" {
		gov = repoPkgs[0].Module.GoVersion
	}
	if !modern(gov) {
		gov = "1.21"
	}
	os.WriteFile(filepath.Join(*out, "go.mod"), []byte("module gen.local\n\ngo "+gov+"\n"), 0644)
	js, _ := json.Marshal(sites)
	os.WriteFile(filepath.Join(*out, "sites.json"), js, 0644)
	fmt.Printf("simgen: %d packages, %d yield points\n", len(all), site)
}

// modern tells whether v is at least 1.22 (per-iteration loop variables).
func modern(v string) bool {
	f := strings.Split(v, ".")
	if len(f) < 2 {
		return false
	}
	n, _ := strconv.Atoi(f[1])
	return n >= 22
}

func run(name string, args ...string) string {
	out, err := exec.Command(name, args...).Output()
	if err != nil {
		die("%s: %v", name, err)
	}
	return string(out)
}

type imp struct {
	local map[string]*pkgInfo
	gc    types.Importer
}

func (i *imp) Import(path string) (*types.Package, error) {
	if p := i.local[path]; p != nil {
		p.check(i)
		return p.tpkg, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return i.gc.Import(path)
}

func topo(all []*pkgInfo, local map[string]*pkgInfo) []*pkgInfo {
	var out []*pkgInfo
	seen := map[*pkgInfo]bool{}
	var visit func(p *pkgInfo)
	visit = func(p *pkgInfo) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, f := range p.files {
			for _, i := range f.ast.Imports {
				path, _ := strconv.Unquote(i.Path.Value)
				if d := local[path]; d != nil {
					visit(d)
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range all {
		visit(p)
	}
	return out
}

func (p *pkgInfo) parse() {
	gone := map[string]bool{"HandleHTTP": true}
	for n := 0; p.std && n < len(gone); {
		n = len(gone)
		for _, n := range p.GoFiles {
			path := filepath.Join(p.Dir, n)
			src, err := os.ReadFile(path)
			if err != nil {
				die("%v", err)
			}
			strip(path, src, gone)
		}
	}
	for _, n := range p.GoFiles {
		path := filepath.Join(p.Dir, n)
		src, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		if p.std {
			src = strip(path, src, gone)
		}
		f, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		p.files = append(p.files, &srcFile{name: n, src: src, ast: f})
	}
	if p.ImportPath == "net/rpc" {
		src := []byte("package rpc\n\nvar debugLog = false\n")
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, "debuglog.go"), src, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		p.files = append(p.files, &srcFile{name: "debuglog.go", src: src, ast: f})
	}
}

// strip removes functions that use network packages from a standard library
// file, and the imports that become unused.
func strip(path string, src []byte, gone map[string]bool) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, parser.SkipObjectResolution)
	if err != nil {
		die("%v", err)
	}
	names := map[string]bool{}
	type span struct{ a, b int }
	var cut []span
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	for _, i := range f.Imports {
		ip, _ := strconv.Unquote(i.Path.Value)
		if banned[ip] {
			names[filepath.Base(ip)] = true
			cut = append(cut, span{off(i.Pos()), off(i.End())})
		}
	}
	used := map[string]bool{}
	for _, d := range f.Decls {
		bad := false
		loc := map[string]bool{}
		ast.Inspect(d, func(n ast.Node) bool {
			if s, ok := n.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok {
					loc[id.Name] = true
					if names[id.Name] {
						bad = true
					}
				}
			}
			if c, ok := n.(*ast.CallExpr); ok {
				if id, ok := c.Fun.(*ast.Ident); ok && gone[id.Name] {
					bad = true
				}
			}
			return true
		})
		if fd, ok := d.(*ast.FuncDecl); ok && (bad || gone[fd.Name.Name]) {
			if fd.Recv == nil {
				gone[fd.Name.Name] = true
			}
			cut = append(cut, span{off(d.Pos()), off(d.End())})
			continue
		}
		for n := range loc {
			used[n] = true
		}
	}
	for _, i := range f.Imports {
		ip, _ := strconv.Unquote(i.Path.Value)
		if !banned[ip] && i.Name == nil && !used[filepath.Base(ip)] {
			cut = append(cut, span{off(i.Pos()), off(i.End())})
		}
	}
	out := append([]byte(nil), src...)
	for _, c := range cut {
		for i := c.a; i < c.b; i++ {
			if out[i] != '\n' {
				out[i] = ' '
			}
		}
	}
	return out
}

func (p *pkgInfo) check(i *imp) {
	if p.tpkg != nil {
		return
	}
	var fl []*ast.File
	for _, f := range p.files {
		fl = append(fl, f.ast)
	}
	p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: i, Error: func(err error) {}}
	tp, err := conf.Check(p.ImportPath, fset, fl, p.info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	p.tpkg = tp
}

func (f *srcFile) off(p token.Pos) int { return fset.Position(p).Offset }

func (f *srcFile) ins(p token.Pos, text string) {
	o := f.off(p)
	f.edits = append(f.edits, edit{o, o, text, len(f.edits)})
}
func (f *srcFile) rep(a, b token.Pos, text string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), text, len(f.edits)})
}

// text renders the source between two offsets with the edits applied.
func (f *srcFile) text(a, b int) string {
	ed := append([]edit(nil), f.edits...)
	sort.SliceStable(ed, func(i, j int) bool {
		if ed[i].off != ed[j].off {
			return ed[i].off < ed[j].off
		}
		return ed[i].seq < ed[j].seq
	})
	var out bytes.Buffer
	pos := a
	for _, e := range ed {
		if e.off < a || e.end > b || e.off < pos {
			continue
		}
		out.Write(f.src[pos:e.off])
		out.WriteString(e.text)
		pos = e.end
	}
	out.Write(f.src[pos:b])
	return out.String()
}

func (f *srcFile) newSite(pkg string, p token.Pos) int {
	site++
	pos := fset.Position(p)
	sites = append(sites, fmt.Sprintf("%s/%s:%d", pkg, filepath.Base(pos.Filename), pos.Line))
	return site
}

type rewriter struct {
	p   *pkgInfo
	f   *srcFile
	n   int
	lit *ast.FuncLit // innermost function literal
}

func (r *rewriter) y(p token.Pos) {
	r.f.ins(p, fmt.Sprintf("simrt__.Y(%d);", r.f.newSite(r.p.ImportPath, p)))
}

func (r *rewriter) yf(p token.Pos) string {
	return fmt.Sprintf("simrt__.YF(%d)", r.f.newSite(r.p.ImportPath, p))
}

func (r *rewriter) list(l []ast.Stmt) {
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		r.y(s.Pos())
		r.maps(s)
		r.stmt(s)
	}
}

// plain tells whether evaluating an expression early has no effect and what
// it is made of exists before start.
func (r *rewriter) plain(e ast.Expr, start token.Pos) bool {
	switch x := e.(type) {
	case *ast.Ident:
		o := r.p.info.Uses[x]
		return o != nil && (o.Pos() < start || o.Parent() == r.p.tpkg.Scope() || o.Pkg() != r.p.tpkg)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, ok := r.p.info.Uses[id].(*types.PkgName); ok {
				return true
			}
		}
		return r.plain(x.X, start)
	case *ast.StarExpr:
		return r.plain(x.X, start)
	case *ast.ParenExpr:
		return r.plain(x.X, start)
	case *ast.IndexExpr:
		return r.plain(x.X, start) && r.plain(x.Index, start)
	case *ast.BasicLit:
		return true
	}
	return false
}

func (r *rewriter) src(e ast.Expr) string {
	return string(r.f.src[r.f.off(e.Pos()):r.f.off(e.End())])
}

// shared tells whether other tasks may have access to a variable.
func (r *rewriter) shared(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.Ident:
		o := r.p.info.Uses[x]
		if o == nil || o.Pkg() != r.p.tpkg {
			return false
		}
		if o.Parent() == r.p.tpkg.Scope() {
			return true
		}
		return r.lit != nil && (o.Pos() < r.lit.Pos() || o.Pos() > r.lit.End())
	case *ast.SelectorExpr:
		return true
	case *ast.StarExpr:
		return true
	case *ast.ParenExpr:
		return r.shared(x.X)
	case *ast.IndexExpr:
		return r.shared(x.X)
	}
	return false
}

// maps marks accesses to maps in a statement but not in statements inside.
func (r *rewriter) maps(s ast.Stmt) {
	if r.p.std {
		return
	}
	if l, ok := s.(*ast.LabeledStmt); ok {
		s = l.Stmt
	}
	write := map[ast.Expr]bool{}
	lhs := func(e ast.Expr) {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
		}
		if x, ok := e.(*ast.IndexExpr); ok && isMap(r.p.info.Types[x.X].Type) {
			write[x.X] = true
		}
	}
	var order []ast.Expr
	seen := map[string]bool{}
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt, *ast.GoStmt, *ast.DeferStmt:
			return false
		case *ast.AssignStmt:
			for _, e := range x.Lhs {
				lhs(e)
			}
		case *ast.IncDecStmt:
			lhs(x.X)
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && len(x.Args) > 0 && isMap(r.p.info.Types[x.Args[0]].Type) && r.p.info.Types[x.Fun].IsBuiltin() {
				write[x.Args[0]] = true
				order = append(order, x.Args[0])
			}
		case *ast.IndexExpr:
			if isMap(r.p.info.Types[x.X].Type) {
				order = append(order, x.X)
			}
		}
		return true
	})
	for _, e := range order {
		if !r.shared(e) && !sharable(e) || !r.plain(e, s.Pos()) {
			continue
		}
		t := r.src(e)
		key := fmt.Sprint(t, write[e])
		if seen[key] {
			continue
		}
		seen[key] = true
		if write[e] {
			r.f.ins(s.Pos(), fmt.Sprintf("simrt__.MW(%d, func() any { return %s });", r.f.newSite(r.p.ImportPath, e.Pos()), t))
		} else {
			r.f.ins(s.Pos(), fmt.Sprintf("simrt__.MR(func() any { return %s });", t))
		}
	}
}

// sharable: any local variable may refer to a map others have as well.
func sharable(e ast.Expr) bool {
	_, ok := e.(*ast.Ident)
	return ok
}

// split makes a read-modify-write of a shared variable two steps.
func (r *rewriter) split(s ast.Stmt) {
	if r.p.std {
		return
	}
	switch x := s.(type) {
	case *ast.IncDecStmt:
		if !r.shared(x.X) || !r.plain(x.X, s.Pos()) {
			return
		}
		r.n++
		v := r.src(x.X)
		r.f.rep(s.Pos(), s.End(), fmt.Sprintf("{ simt%d := %s; simrt__.Y(%d); simt%d%s; %s = simt%d }", r.n, v, r.f.newSite(r.p.ImportPath, s.Pos()), r.n, x.Tok, v, r.n))
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 || !r.shared(x.Lhs[0]) || !r.plain(x.Lhs[0], s.Pos()) {
			return
		}
		v := r.src(x.Lhs[0])
		calls := false
		ast.Inspect(x.Rhs[0], func(n ast.Node) bool {
			switch y := n.(type) {
			case *ast.FuncLit:
				calls = true
			case *ast.UnaryExpr:
				calls = calls || y.Op == token.ARROW
			case *ast.CallExpr:
				if tv := r.p.info.Types[y.Fun]; !tv.IsType() && !tv.IsBuiltin() {
					calls = true
				}
			}
			return true
		})
		if calls {
			return
		}
		switch x.Tok {
		case token.DEFINE:
			return
		case token.ASSIGN:
			c, ok := x.Rhs[0].(*ast.CallExpr)
			if !ok || len(c.Args) == 0 {
				return
			}
			if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "append" || !r.p.info.Types[c.Fun].IsBuiltin() || r.src(c.Args[0]) != v {
				return
			}
			r.n++
			r.f.rep(x.Pos(), c.Pos(), fmt.Sprintf("{ simt%d := ", r.n))
			r.f.ins(s.End(), fmt.Sprintf("; simrt__.Y(%d); %s = simt%d }", r.f.newSite(r.p.ImportPath, s.Pos()), v, r.n))
		default:
			r.n++
			r.f.rep(x.Pos(), x.Rhs[0].Pos(), fmt.Sprintf("{ simt%d := %s; simrt__.Y(%d); simt%d %s ", r.n, v, r.f.newSite(r.p.ImportPath, s.Pos()), r.n, x.Tok))
			r.f.ins(s.End(), fmt.Sprintf("; %s = simt%d }", v, r.n))
		}
	}
}

func (r *rewriter) chanOp(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SendStmt:
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
				found = true
			}
		}
		return true
	})
	return found
}

// exprs instruments function literals inside expressions of a node, without
// descending into statements that are handled elsewhere.
func (r *rewriter) exprs(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			outer := r.lit
			r.lit = fl
			r.block(fl.Body)
			r.lit = outer
			return false
		}
		return true
	})
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		r.list(b.List)
	}
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (r *rewriter) stmt(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		r.block(x)
	case *ast.IfStmt:
		if x.Init != nil {
			r.exprs(x.Init)
		}
		r.exprs(x.Cond)
		r.block(x.Body)
		switch e := x.Else.(type) {
		case *ast.BlockStmt:
			r.block(e)
		case *ast.IfStmt:
			r.stmt(e)
		}
	case *ast.ForStmt:
		if x.Init != nil {
			r.exprs(x.Init)
		}
		if x.Cond != nil {
			r.exprs(x.Cond)
		}
		if x.Post != nil {
			r.exprs(x.Post)
		}
		if len(x.Body.List) == 0 {
			r.y(x.Body.Rbrace)
		}
		r.block(x.Body)
	case *ast.RangeStmt:
		r.rangeStmt(x, x.Pos())
	case *ast.LabeledStmt:
		if rs, ok := x.Stmt.(*ast.RangeStmt); ok {
			r.rangeStmt(rs, x.Pos())
		} else {
			r.stmt(x.Stmt)
		}
	case *ast.SwitchStmt:
		if x.Init != nil {
			r.exprs(x.Init)
		}
		if x.Tag != nil {
			r.exprs(x.Tag)
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			for _, e := range cc.List {
				r.exprs(e)
			}
			r.list(cc.Body)
		}
	case *ast.TypeSwitchStmt:
		if x.Init != nil {
			r.exprs(x.Init)
		}
		r.exprs(x.Assign)
		for _, c := range x.Body.List {
			r.list(c.(*ast.CaseClause).Body)
		}
	case *ast.SelectStmt:
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			if cc.Comm != nil {
				r.exprs(cc.Comm)
			}
			r.f.ins(cc.Colon+1, r.yf(cc.Colon)+";")
			r.list(cc.Body)
		}
	case *ast.GoStmt:
		r.goStmt(x)
	case *ast.DeferStmt:
		r.exprs(x.Call)
	case *ast.SendStmt, *ast.ExprStmt, *ast.AssignStmt:
		r.exprs(x)
		if r.chanOp(x) {
			r.f.ins(x.End(), ";"+r.yf(x.Pos()))
		} else {
			r.split(s)
		}
	default:
		r.exprs(x)
		r.split(s)
	}
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt, start token.Pos) {
	t := r.p.info.Types[x.X].Type
	if _, ok := t.Underlying().(*types.Chan); ok {
		r.f.ins(x.Body.Lbrace+1, r.yf(x.Pos())+";")
	}
	if !isMap(t) {
		r.exprs(x.X)
		if len(x.Body.List) == 0 {
			r.y(x.Body.Rbrace)
		}
		r.block(x.Body)
		return
	}
	r.n++
	id := r.n
	src := string(r.f.src[r.f.off(x.X.Pos()):r.f.off(x.X.End())])
	name := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		return string(r.f.src[r.f.off(e.Pos()):r.f.off(e.End())])
	}
	k, v := name(x.Key), name(x.Value)
	pre := fmt.Sprintf("{ simm%d := %s; ", id, src)
	if x.Tok == token.DEFINE && (k != "_" || v != "_") {
		pre += fmt.Sprintf("%s, %s := simrt__.Zero(simm%d); ", k, v, id)
		if k != "_" {
			pre += fmt.Sprintf("_ = %s; ", k)
		}
		if v != "_" {
			pre += fmt.Sprintf("_ = %s; ", v)
		}
	}
	head := fmt.Sprintf("for _, sime%d := range simrt__.Entries(simm%d) { simk%d, simv%d, simok%d := sime%d.Get(); if !simok%d { continue }; _, _ = simk%d, simv%d; ", id, id, id, id, id, id, id, id, id)
	if k != "_" {
		head += fmt.Sprintf("%s = simk%d; ", k, id)
	}
	if v != "_" {
		head += fmt.Sprintf("%s = simv%d; ", v, id)
	}
	r.f.ins(start, pre)
	r.f.rep(x.For, x.Body.Lbrace, head)
	if len(x.Body.List) == 0 {
		r.y(x.Body.Rbrace)
	}
	r.block(x.Body)
	r.f.ins(x.Body.Rbrace+1, "}}")
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	c := x.Call
	if tv, ok := r.p.info.Types[c.Fun]; ok && tv.IsBuiltin() {
		r.f.rep(x.Go, x.Go+2, "simrt__.Go(func() { ")
		r.f.ins(c.End(), " })")
		return
	}
	r.exprs(c)
	sig, _ := r.p.info.Types[c.Fun].Type.Underlying().(*types.Signature)
	r.n++
	names := []string{fmt.Sprintf("simf%d", r.n)}
	var args []string
	for i, a := range c.Args {
		n := fmt.Sprintf("sima%d_%d", r.n, i)
		names = append(names, n)
		tv := r.p.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			var pt types.Type
			if sig != nil {
				if i < sig.Params().Len()-1 || (i < sig.Params().Len() && !sig.Variadic()) {
					pt = sig.Params().At(i).Type()
				} else if sig.Variadic() {
					pt = sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice).Elem()
				}
			}
			if pt != nil {
				q := func(p *types.Package) string {
					if p == r.p.tpkg {
						return ""
					}
					return p.Name()
				}
				r.f.ins(a.Pos(), "("+types.TypeString(pt, q)+")(")
				r.f.ins(a.End(), ")")
			}
		}
		if i == len(c.Args)-1 && c.Ellipsis.IsValid() {
			args = append(args, n+"...")
		} else {
			args = append(args, n)
		}
	}
	r.f.rep(x.Go, x.Go+2, "simrt__.Go(func() func() { "+strings.Join(names, ", ")+" := ")
	if len(c.Args) > 0 {
		r.f.rep(c.Lparen, c.Lparen+1, ", ")
	} else {
		r.f.rep(c.Lparen, c.Lparen+1, "")
	}
	if c.Ellipsis.IsValid() {
		r.f.rep(c.Ellipsis, c.Ellipsis+3, "")
	}
	// a trailing comma before the parenthesis has to go
	for o := r.f.off(c.Rparen) - 1; o > 0 && len(c.Args) > 0; o-- {
		ch := r.f.src[o]
		if ch == ',' {
			p := c.Rparen - token.Pos(r.f.off(c.Rparen)-o)
			if p >= c.Args[len(c.Args)-1].End() {
				r.f.rep(p, p+1, "")
			}
			break
		}
		if ch != ' ' && ch != '\n' && ch != '\t' {
			break
		}
	}
	r.f.rep(c.Rparen, c.Rparen+1, fmt.Sprintf("; return func() { %s(%s) } }())", names[0], strings.Join(args, ", ")))
}

func (p *pkgInfo) emit(rewrite map[string]string) map[string][]byte {
	out := map[string][]byte{}
	inits := []string{}
	var zero, initOrder []string
	reset := 0
	byFile := map[string]*srcFile{}
	for _, f := range p.files {
		byFile[fset.Position(f.ast.Pos()).Filename] = f
	}
	for fi, f := range p.files {
		r := &rewriter{p: p, f: f}
		for _, i := range f.ast.Imports {
			path, _ := strconv.Unquote(i.Path.Value)
			to, ok := rewrite[path]
			if !ok {
				continue
			}
			name := ""
			if i.Name == nil {
				name = filepath.Base(path) + " "
			}
			f.rep(i.Path.Pos(), i.Path.End(), name+strconv.Quote(to))
		}
		for _, d := range f.ast.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Body == nil {
					die("%s: function without body", x.Name.Name)
				}
				r.block(x.Body)
				if x.Recv == nil && x.Name.Name == "init" {
					n := fmt.Sprintf("simInit_%d_%d", fi, len(inits))
					inits = append(inits, n)
					f.rep(x.Name.Pos(), x.Name.End(), n)
				}
				if x.Recv == nil && x.Name.Name == "main" && p.Name == "main" {
					f.rep(x.Name.Pos(), x.Name.End(), "SimMain")
				}
			case *ast.GenDecl:
				if x.Tok == token.VAR {
					for _, s := range x.Specs {
						for _, v := range s.(*ast.ValueSpec).Values {
							r.exprs(v)
						}
					}
				}
			}
		}
		if p.Name == "main" {
			f.rep(f.ast.Name.Pos(), f.ast.Name.End(), "main_")
		}
		for _, d := range f.ast.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				if len(vs.Values) > 0 {
					continue
				}
				ty := string(f.src[f.off(vs.Type.Pos()):f.off(vs.Type.End())])
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					reset++
					fn := fmt.Sprintf("simZero_%d", reset)
					zero = append(zero, fn)
					fmt.Fprintf(&f.tail, "\nfunc %s() { var z %s; %s = z }\n", fn, ty, n.Name)
				}
			}
		}
	}
	for _, in := range p.info.InitOrder {
		blank := true
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		f := byFile[fset.Position(in.Rhs.Pos()).Filename]
		reset++
		fn := fmt.Sprintf("simVar_%d", reset)
		initOrder = append(initOrder, fn)
		fmt.Fprintf(&f.tail, "\nfunc %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), f.text(f.off(in.Rhs.Pos()), f.off(in.Rhs.End())))
	}
	for _, f := range p.files {
		f.ins(f.ast.Name.End(), "; import simrt__ \"verif.local/sim/rt\"; ")
		body := f.text(0, len(f.src))
		if p.std {
			body = "//go:build go1.27\n\n" + body
		} else {
			body = dropBuildLines(body)
		}
		out[f.name] = []byte(body + "\nvar _ = simrt__.Y\n" + f.tail.String())
	}
	name := p.Name
	if name == "main" {
		name = "main_"
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n// SimReset gives the package variables their initial values.\nfunc SimReset() {\n", name)
	for _, l := range [][]string{zero, initOrder, inits} {
		for _, fn := range l {
			fmt.Fprintf(&b, "\t%s()\n", fn)
		}
	}
	fmt.Fprintf(&b, "}\n")
	out["zz_simreset.go"] = b.Bytes()
	// file names must not carry build constraints of their own twice
	res := map[string][]byte{}
	for n, c := range out {
		res["f_"+strings.TrimSuffix(n, ".go")+"_.go"] = c
	}
	return res
}

// dropBuildLines removes build constraints, which go list has evaluated.
func dropBuildLines(s string) string {
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "package ") {
			break
		}
		if strings.HasPrefix(t, "// +build") || strings.HasPrefix(t, "//go:build") {
			lines[i] = "//"
		}
	}
	return strings.Join(lines, "\n")
}

// aliasFile re-exports everything of a package that the override does not
// define itself.
func aliasFile(path string, override []byte, gc types.Importer) []byte {
	tp, err := gc.Import(path)
	if err != nil {
		die("%v", err)
	}
	of, err := parser.ParseFile(token.NewFileSet(), "o.go", override, parser.SkipObjectResolution)
	if err != nil {
		die("%s override: %v", path, err)
	}
	have := map[string]bool{}
	for _, d := range of.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Recv == nil {
				have[x.Name.Name] = true
			}
		case *ast.GenDecl:
			for _, s := range x.Specs {
				switch y := s.(type) {
				case *ast.TypeSpec:
					have[y.Name.Name] = true
				case *ast.ValueSpec:
					for _, n := range y.Names {
						have[n.Name] = true
					}
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.27\n\npackage %s\n\nimport real_ %q\n\n", tp.Name(), path)
	for _, n := range tp.Scope().Names() {
		o := tp.Scope().Lookup(n)
		if !o.Exported() || have[n] {
			continue
		}
		switch x := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real_.%s\n", n, n)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real_.%s\n", n, n)
		case *types.TypeName:
			if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real_.%s\n", n, n)
		case *types.Func:
			if x.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real_.%s\n", n, n)
		}
	}
	return b.Bytes()
}
