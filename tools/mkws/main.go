// mkws builds the verification workspace: an instrumented copy of the code
// under test (/repo's working tree) and of the list/lock modules it is built
// on, in a scratch directory.
//
// Instrumentation is purely textual insertion at positions found by go/parser,
// so it depends on the syntax of Go, not on the names used by the code:
//
//   - every body-less linknamed memhash is replaced by vsched.MemHash (owns the
//     only source of randomness in the library: the per-process hash seed);
//   - a VerifReset() function is generated per package that re-executes every
//     package-level variable initialiser and init() (so that executions in one
//     process are independent);
//   - in mode "sched": "sync" and "sync/atomic" imports become shims whose
//     operations are scheduling points, `go` statements become managed
//     goroutines, and a scheduling point is put in front of every statement of
//     every function.
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo   = flag.String("repo", "/repo", "code under test")
	verif  = flag.String("verif", "/verif", "verif root")
	out    = flag.String("out", "", "output directory")
	mode   = flag.String("mode", "plain", "plain|sched")
	modC   = flag.String("modcache", "/root/go/pkg/mod", "module cache")
	instrs = 0
)

type edit struct {
	off, end int
	text     string
	seq      int
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "mkws: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	if *out == "" {
		die("no -out")
	}
	os.MkdirAll(*out, 0o755)
	// code under test
	doTree(*repo, filepath.Join(*out, "repo"), *mode == "sched", true)
	gomod := "module github.com/kazu/skiplistmap\n\ngo " + goVersion(filepath.Join(*repo, "go.mod")) + "\n"
	writeMod("repo", gomod, "skiplistmap")
	dep("github.com/kazu/elist_head@v0.2.8", "elist", "github.com/kazu/elist_head", "1.17", *mode == "sched", false)
	depSub("github.com/kazu/loncha@v0.4.11", "loncha", "github.com/kazu/loncha", "1.17", *mode == "sched", []string{".", "lista_encabezado"})
	if *mode == "sched" {
		copyDir(filepath.Join(*verif, "shim", "trylock"), filepath.Join(*out, "trylock"))
		writeMod("trylock", "module github.com/lk4d4/trylock\n\ngo 1.13\n", "")
	} else {
		dep("github.com/lk4d4/trylock@v0.0.0-20191027065348-ff7e133a5c54", "trylock", "github.com/lk4d4/trylock", "1.13", false, false)
	}
	dep("github.com/cespare/xxhash@v1.1.0", "xxhash", "github.com/cespare/xxhash", "1.13", false, false)
	dep("github.com/seehuhn/mt19937@v0.0.0-20180715112136-cc7708819361", "mt19937", "github.com/seehuhn/mt19937", "1.13", false, false)
	// shims
	for _, s := range []string{"vsched", "vsync", "vatomic"} {
		copyDir(filepath.Join(*verif, "shim", s), filepath.Join(*out, "shim", s))
	}
	os.WriteFile(filepath.Join(*out, "shim", "go.mod"), []byte("module verif\n\ngo 1.21\n"), 0o644)
	os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644)
	fmt.Printf("mkws: mode=%s points=%d\n", *mode, instrs)
}

var depMods = []string{"github.com/kazu/skiplistmap=repo", "github.com/kazu/elist_head=elist", "github.com/kazu/loncha=loncha",
	"github.com/lk4d4/trylock=trylock", "github.com/cespare/xxhash=xxhash", "github.com/seehuhn/mt19937=mt19937", "verif=shim"}

var depReq = map[string][]string{
	"repo":    {"elist", "loncha", "trylock", "xxhash", "mt19937", "shim"},
	"elist":   {"loncha", "mt19937", "shim"},
	"loncha":  {"mt19937", "shim"},
	"trylock": {"shim"},
}

func writeMod(dir, head, self string) {
	var b strings.Builder
	b.WriteString(head + "\n")
	for _, r := range depReq[dir] {
		for _, d := range depMods {
			kv := strings.Split(d, "=")
			if kv[1] == r {
				fmt.Fprintf(&b, "require %s v0.0.0-00010101000000-000000000000\nreplace %s => ../%s\n", kv[0], kv[0], kv[1])
			}
		}
	}
	if err := os.WriteFile(filepath.Join(*out, dir, "go.mod"), []byte(b.String()), 0o644); err != nil {
		die("%v", err)
	}
}

func goVersion(f string) string {
	b, err := os.ReadFile(f)
	if err != nil {
		return "1.17"
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "go ") {
			return strings.TrimSpace(l[3:])
		}
	}
	return "1.17"
}

func dep(modv, dir, path, gov string, instr bool, sub bool) {
	depSub(modv, dir, path, gov, instr, []string{"."})
}

func depSub(modv, dir, path, gov string, instr bool, subs []string) {
	src := filepath.Join(*modC, modv)
	for _, s := range subs {
		doDir(filepath.Join(src, s), filepath.Join(*out, dir, s), instr, false)
	}
	writeMod(dir, "module "+path+"\n\ngo "+gov+"\n", "")
}

func doTree(src, dst string, instr, reset bool) {
	filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			die("%v", err)
		}
		if !d.IsDir() {
			return nil
		}
		n := d.Name()
		if p != src && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "vendor" || n == "testdata" || n == "tmp" || n == "cmd") {
			return filepath.SkipDir
		}
		rel, _ := filepath.Rel(src, p)
		doDir(p, filepath.Join(dst, rel), instr, reset)
		return nil
	})
}

func copyDir(src, dst string) {
	os.MkdirAll(dst, 0o755)
	es, err := os.ReadDir(src)
	if err != nil {
		die("%v", err)
	}
	for _, e := range es {
		if e.IsDir() {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, e.Name()))
		if err != nil {
			die("%v", err)
		}
		os.WriteFile(filepath.Join(dst, e.Name()), b, 0o644)
	}
}

// doDir instruments one package directory.
func doDir(src, dst string, instr, reset bool) {
	es, err := os.ReadDir(src)
	if err != nil {
		die("%v", err)
	}
	os.MkdirAll(dst, 0o755)
	type pf struct {
		name string
		src  []byte
		f    *ast.File
	}
	fset := token.NewFileSet()
	var files []pf
	for _, e := range es {
		n := e.Name()
		if e.IsDir() || strings.HasSuffix(n, "_test.go") {
			continue
		}
		ext := filepath.Ext(n)
		if ext != ".go" && ext != ".s" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(src, n))
		if err != nil {
			die("%v", err)
		}
		if ext == ".s" {
			os.WriteFile(filepath.Join(dst, n), b, 0o644)
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(src, n), b, parser.ParseComments)
		if err != nil {
			die("parse: %v", err)
		}
		if len(f.Decls) == 0 {
			os.WriteFile(filepath.Join(dst, n), b, 0o644)
			continue
		}
		if hasIgnoreTag(f) {
			continue
		}
		files = append(files, pf{n, b, f})
	}
	if len(files) == 0 {
		return
	}
	pkg := ""
	var resetStmts, initNames []string
	needsReset := reset || instr || strings.Contains(src, "kazu")
	globals := map[string]bool{}
	wide, maps := map[string]bool{}, map[string]bool{}
	for i := 0; i < 2; i++ { // named types first
		for _, p := range files {
			mapNames(p.f, maps)
		}
	}
	for _, p := range files {
		wideFields(p.f, wide)
		for _, d := range p.f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, sp := range g.Specs {
					for _, n := range sp.(*ast.ValueSpec).Names {
						globals[n.Name] = true
					}
				}
			}
		}
	}
	for _, p := range files {
		if strings.HasSuffix(p.f.Name.Name, "main") {
			continue
		}
		pkg = p.f.Name.Name
		e := &editor{src: p.src, fset: fset, f: p.f, instr: instr, globals: globals, wide: wide, maps: maps}
		e.run()
		if needsReset {
			e.collectReset(&resetStmts, &initNames, strings.TrimSuffix(p.name, ".go"))
		}
		res := e.apply()
		if err := os.WriteFile(filepath.Join(dst, p.name), res, 0o644); err != nil {
			die("%v", err)
		}
	}
	if needsReset && pkg != "" {
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\n// VerifReset re-executes package initialisation.\nfunc VerifReset() {\n", pkg)
		for _, s := range resetStmts {
			fmt.Fprintf(&b, "\t%s()\n", s)
		}
		for _, n := range initNames {
			fmt.Fprintf(&b, "\t%s()\n", n)
		}
		b.WriteString("}\n")
		os.WriteFile(filepath.Join(dst, "zz_verif_reset.go"), b.Bytes(), 0o644)
	}
}

func hasIgnoreTag(f *ast.File) bool {
	for _, cg := range f.Comments {
		if cg.Pos() > f.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build ") && strings.Contains(c.Text, "ignore") {
				return true
			}
		}
	}
	return false
}

type editor struct {
	src   []byte
	fset  *token.FileSet
	f     *ast.File
	instr bool
	edits []edit
	tail  bytes.Buffer
	needV bool

	globals map[string]bool
	wide    map[string]bool // names of fields of several words
	maps    map[string]bool // names of fields and variables that are Go maps
	ticks   map[int]bool    // offsets that already have a tick
}

func (e *editor) off(p token.Pos) int { return e.fset.Position(p).Offset }
func (e *editor) add(off, end int, text string) {
	e.edits = append(e.edits, edit{off, end, text, len(e.edits)})
}

func (e *editor) run() {
	// memhash
	for _, d := range e.f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body != nil || fd.Recv != nil {
			continue
		}
		if !strings.Contains(strings.ToLower(fd.Name.Name), "hash") || fd.Type.Params == nil || fd.Type.Params.NumFields() != 3 {
			continue
		}
		if fd.Doc == nil || !strings.Contains(string(e.src[e.off(fd.Doc.Pos()):e.off(fd.Doc.End())]), "go:linkname") {
			continue
		}
		e.needV = true
		e.add(e.off(fd.Doc.Pos()), e.off(fd.End()), fmt.Sprintf("func %s(p unsafe.Pointer, h, s uintptr) uintptr { return __v.MemHash(p, h, s) }", fd.Name.Name))
	}
	if !e.instr {
		return
	}
	// imports
	for _, im := range e.f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		to := ""
		switch path {
		case "sync":
			to = `sync "verif/vsync"`
		case "sync/atomic":
			to = `atomic "verif/vatomic"`
		default:
			continue
		}
		if im.Name != nil {
			to = im.Name.Name + to[strings.Index(to, " "):]
		}
		e.add(e.off(im.Pos()), e.off(im.End()), to)
	}
	file := filepath.Base(e.fset.Position(e.f.Pos()).Filename)
	_ = file
	ast.Inspect(e.f, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.FuncDecl:
			if s.Body != nil {
				e.tick(s.Body)
			}
		case *ast.FuncLit:
			e.tick(s.Body)
		case *ast.ForStmt:
			e.tick(s.Body)
			if (s.Cond != nil && e.shared(s.Cond)) || (s.Post != nil && e.sharedStmt(s.Post)) {
				e.needV = true
				o := e.off(s.Body.Rbrace)
				e.add(o, o, ";"+e.point(s.Body.Rbrace)+"; ")
			}
		case *ast.RangeStmt:
			e.tick(s.Body)
		case *ast.BlockStmt:
			e.list(s.List)
		case *ast.CaseClause:
			e.list(s.Body)
		case *ast.CommClause:
			e.list(s.Body)
		case *ast.GoStmt:
			e.goStmt(s)
		}
		return true
	})
}

// goStmt turns `go f(a, b)` into a managed goroutine; callee and arguments are
// evaluated at the go statement, as the language requires.
func (e *editor) goStmt(s *ast.GoStmt) {
	e.needV = true
	c := s.Call
	var names []string
	for i := range c.Args {
		names = append(names, fmt.Sprintf("__a%d", i))
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	pre := "{ __f"
	for _, n := range names {
		pre += ", " + n
	}
	e.add(e.off(s.Pos()), e.off(c.Pos()), pre+" := ")
	// callee text stays; "(" becomes "," or nothing
	if len(names) > 0 {
		e.add(e.off(c.Lparen), e.off(c.Lparen)+1, ", ")
		// drop a trailing ellipsis
		if c.Ellipsis.IsValid() {
			e.add(e.off(c.Ellipsis), e.off(c.Ellipsis)+3, "")
		}
	} else {
		e.add(e.off(c.Lparen), e.off(c.Lparen)+1, "")
	}
	e.add(e.off(c.Rparen), e.off(c.Rparen)+1, "; __v.Go(func() { __f("+strings.Join(names, ", ")+ell+") }) }")
}

func (e *editor) list(l []ast.Stmt) {
	for _, s := range l {
		switch s.(type) {
		case *ast.CaseClause, *ast.CommClause:
			return
		}
		pos := s.Pos()
		for {
			ls, ok := s.(*ast.LabeledStmt)
			if !ok {
				break
			}
			switch ls.Stmt.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.SelectStmt, *ast.TypeSwitchStmt:
				goto DONE
			case *ast.EmptyStmt:
				goto DONE
			}
			s = ls.Stmt
			pos = s.Pos()
		}
	DONE:
		if d, ok := s.(*ast.DeclStmt); ok {
			if g, ok := d.Decl.(*ast.GenDecl); ok && g.Tok != token.VAR {
				continue
			}
		}
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		if !e.sharedStmt(s) {
			continue
		}
		e.needV = true
		if !e.mapUse(s, pos) {
			e.add(e.off(pos), e.off(pos), e.point(pos)+"; ")
		}
		e.rmw(s)
		e.tear(s)
	}
}

// tear makes the assignment of a value of several words to a field a sequence
// of assignments of one word, as it is for the machine.
func (e *editor) tear(s ast.Stmt) {
	a, ok := s.(*ast.AssignStmt)
	if !ok || a.Tok != token.ASSIGN || len(a.Lhs) != 1 || len(a.Rhs) != 1 {
		return
	}
	sel, ok := a.Lhs[0].(*ast.SelectorExpr)
	if !ok || !e.wide[sel.Sel.Name] {
		return
	}
	e.needV = true
	l := string(e.src[e.off(sel.Pos()):e.off(sel.End())])
	e.add(e.off(a.Pos()), e.off(a.Rhs[0].Pos()), fmt.Sprintf("{ __p := &(%s); __n := *__p; __n = ", l))
	end := e.off(a.Rhs[0].End())
	e.add(end, end, "; if !__v.Tear(__p, &__n) { *__p = __n } }")
}

// mapNames collects the names of fields, variables, parameters and types that
// are Go maps. (A name that means something else elsewhere does no harm: the
// shim looks at the value.)
func mapNames(f *ast.File, m map[string]bool) {
	isMap := func(t ast.Expr) bool {
		switch t := t.(type) {
		case *ast.MapType:
			return true
		case *ast.Ident:
			return m["type "+t.Name]
		}
		return false
	}
	isMapValue := func(x ast.Expr) bool {
		switch x := x.(type) {
		case *ast.CompositeLit:
			return isMap(x.Type)
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 0 {
				return isMap(x.Args[0])
			}
		case *ast.SelectorExpr:
			return m[x.Sel.Name]
		case *ast.Ident:
			return m[x.Name]
		}
		return false
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch d := n.(type) {
		case *ast.TypeSpec:
			if isMap(d.Type) {
				m["type "+d.Name.Name] = true
			}
		case *ast.Field:
			if isMap(d.Type) {
				for _, n := range d.Names {
					m[n.Name] = true
				}
			}
		case *ast.ValueSpec:
			for i, n := range d.Names {
				if isMap(d.Type) || i < len(d.Values) && isMapValue(d.Values[i]) {
					m[n.Name] = true
				}
			}
		case *ast.AssignStmt:
			for i, l := range d.Lhs {
				if id, ok := l.(*ast.Ident); ok && len(d.Lhs) == len(d.Rhs) && isMapValue(d.Rhs[i]) {
					m[id.Name] = true
				}
			}
		}
		return true
	})
}

// mapExpr: is this the plain name of a Go map (x, x.y, ...)?
func (e *editor) mapExpr(x ast.Expr) bool {
	last := ""
	for {
		switch y := x.(type) {
		case *ast.ParenExpr:
			x = y.X
			continue
		case *ast.SelectorExpr:
			if last == "" {
				last = y.Sel.Name
			}
			x = y.X
			continue
		case *ast.Ident:
			if last == "" {
				last = y.Name
			}
			return e.maps[last]
		}
		return false
	}
}

// mapUse puts the point for a Go map before a statement whose next action is
// the use of that map.
func (e *editor) mapUse(s ast.Stmt, pos token.Pos) bool {
	text := func(n ast.Node) string { return string(e.src[e.off(n.Pos()):e.off(n.End())]) }
	hook := func(m ast.Expr, write bool) bool {
		p := strings.TrimSuffix(strings.TrimPrefix(e.point(pos), "__v.P("), ")")
		e.add(e.off(pos), e.off(pos), fmt.Sprintf("__v.M(%s, %v, func() interface{} { return %s }); ", p, write, text(m)))
		return true
	}
	var n ast.Node = s
	switch x := s.(type) {
	case *ast.RangeStmt:
		if e.mapExpr(x.X) {
			return hook(x.X, false)
		}
		return false
	case *ast.IfStmt:
		if n = x.Cond; x.Init != nil {
			n = x.Init
		}
	case *ast.IncDecStmt:
		if ix, ok := x.X.(*ast.IndexExpr); ok && e.mapExpr(ix.X) && !hasCall(ix.Index) {
			return hook(ix.X, true)
		}
	case *ast.AssignStmt:
		if len(x.Lhs) != 1 || len(x.Rhs) != 1 {
			break
		}
		ix, ok := x.Lhs[0].(*ast.IndexExpr)
		if !ok || !e.mapExpr(ix.X) || hasCall(ix.Index) {
			break
		}
		if !hasCall(x.Rhs[0]) {
			return hook(ix.X, true)
		}
		if c, ok := x.Rhs[0].(*ast.CallExpr); ok && x.Tok == token.ASSIGN {
			if id, ok := c.Fun.(*ast.Ident); ok && pureCalls[id.Name] || ok && id.Name == "append" {
				return hook(ix.X, true)
			}
			p := strings.TrimSuffix(strings.TrimPrefix(e.point(pos), "__v.P("), ")")
			e.add(e.off(pos), e.off(pos), fmt.Sprintf("__v.P(%s); ", p))
			e.add(e.off(c.Pos()), e.off(c.Pos()), "__v.MV(")
			e.add(e.off(c.End()), e.off(c.End()), fmt.Sprintf(", %s, func() interface{} { return %s })", p, text(ix.X)))
			return true
		}
		return false
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok && len(c.Args) > 0 {
			if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && e.mapExpr(c.Args[0]) && (len(c.Args) == 1 || !hasCall(c.Args[1])) {
				return hook(c.Args[0], true)
			}
		}
	case *ast.ReturnStmt, *ast.DeclStmt, *ast.DeferStmt:
	default:
		return false
	}
	// reading: the first use must come before any call
	var found ast.Expr
	var first token.Pos
	ast.Inspect(n, func(n ast.Node) bool {
		if found != nil {
			return false
		}
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BinaryExpr:
			if x.Op == token.LAND || x.Op == token.LOR {
				n := x.X
				for {
					b, ok := n.(*ast.BinaryExpr)
					if !ok || b.Op != token.LAND && b.Op != token.LOR {
						break
					}
					n = b.X
				}
				ast.Inspect(n, func(n ast.Node) bool {
					if ix, ok := n.(*ast.IndexExpr); ok && found == nil && e.mapExpr(ix.X) && !hasCall(ix.Index) {
						found = ix.X
					}
					_, lit := n.(*ast.FuncLit)
					return !lit
				})
				if found != nil {
					first = found.Pos()
				}
				return false
			}
		case *ast.IndexExpr:
			if e.mapExpr(x.X) && !hasCall(x.Index) {
				found, first = x.X, x.Pos()
			}
		}
		return found == nil
	})
	if found == nil {
		return false
	}
	early := false
	ast.Inspect(n, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && c.End() <= first {
			early = true
		}
		return true
	})
	if early {
		return false
	}
	return hook(found, false)
}

// wideFields collects the names of struct fields that take several words.
func wideFields(f *ast.File, m map[string]bool) {
	ast.Inspect(f, func(n ast.Node) bool {
		st, ok := n.(*ast.StructType)
		if !ok {
			return true
		}
		for _, fl := range st.Fields.List {
			wide := false
			switch t := fl.Type.(type) {
			case *ast.ArrayType:
				wide = t.Len == nil
			case *ast.InterfaceType:
				wide = true
			case *ast.Ident:
				// a named type may be an interface: the shim looks at the value
				wide = t.Name == "string" || t.Name == "any" || t.Name == "error" || ast.IsExported(t.Name)
			case *ast.SelectorExpr:
				wide = true
			}
			for _, n := range fl.Names {
				if wide {
					m[n.Name] = true
				}
			}
		}
		return true
	})
}

// tick makes every function entry and loop iteration count a step.
func (e *editor) tick(b *ast.BlockStmt) {
	if len(b.List) > 0 {
		if _, decl := b.List[0].(*ast.DeclStmt); !decl && e.sharedStmt(b.List[0]) {
			return // starts with a point
		}
	}
	e.needV = true
	o := e.off(b.Lbrace) + 1
	e.add(o, o, " __v.T(); ")
}

// rmw splits x.f op= v into a read, a scheduling point and a write.
func (e *editor) rmw(s ast.Stmt) {
	var lhs, rhs ast.Expr
	op := ""
	switch s := s.(type) {
	case *ast.IncDecStmt:
		lhs, op = s.X, s.Tok.String()[:1]
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || s.Tok == token.ASSIGN || s.Tok == token.DEFINE {
			return
		}
		lhs, rhs, op = s.Lhs[0], s.Rhs[0], strings.TrimSuffix(s.Tok.String(), "=")
	default:
		return
	}
	if hasCall(lhs) || (rhs != nil && hasCall(rhs)) || !e.shared(lhs) {
		return
	}
	l := string(e.src[e.off(lhs.Pos()):e.off(lhs.End())])
	r := "1"
	if rhs != nil {
		r = string(e.src[e.off(rhs.Pos()):e.off(rhs.End())])
	}
	e.needV = true
	e.add(e.off(s.Pos()), e.off(s.End()), fmt.Sprintf("{ __t := %s %s (%s); %s; %s = __t }", l, op, r, e.point(s.Pos()), l))
}

func hasCall(x ast.Expr) (r bool) {
	ast.Inspect(x, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			r = true
		}
		return !r
	})
	return
}

// sharedStmt: may executing this statement (its header, for a compound one)
// touch memory another thread can see?
func (e *editor) sharedStmt(s ast.Stmt) bool {
	switch s := s.(type) {
	case nil:
		return false
	case *ast.LabeledStmt:
		return e.sharedStmt(s.Stmt)
	case *ast.BlockStmt:
		return false
	case *ast.IfStmt:
		return e.sharedStmt(s.Init) || e.shared(s.Cond)
	case *ast.ForStmt:
		return e.sharedStmt(s.Init) || e.shared(s.Cond)
	case *ast.SwitchStmt:
		if e.sharedStmt(s.Init) || e.shared(s.Tag) {
			return true
		}
		for _, c := range s.Body.List {
			for _, x := range c.(*ast.CaseClause).List {
				if e.shared(x) {
					return true
				}
			}
		}
		return false
	case *ast.BranchStmt:
		return false
	case *ast.RangeStmt:
		return true
	}
	return e.shared(s)
}

var pureCalls = map[string]bool{"len": true, "cap": true, "make": true, "new": true, "int": true, "int32": true, "int64": true, "uint32": true,
	"uint64": true, "uintptr": true, "string": true, "panic": true}

func (e *editor) shared(n ast.Node) (r bool) {
	if n == nil || n == ast.Node((*ast.Ident)(nil)) {
		return false
	}
	if x, ok := n.(ast.Expr); ok && x == nil {
		return false
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && pureCalls[id.Name] {
				return true
			}
			if se, ok := x.Fun.(*ast.SelectorExpr); ok {
				if id, ok := se.X.(*ast.Ident); ok && (id.Name == "bits" || id.Name == "fmt" || id.Name == "strings" || id.Name == "unsafe") {
					for _, a := range x.Args {
						if e.shared(a) {
							r = true
						}
					}
					return false
				}
			}
			// the callee has its own points; the call itself evaluates operands
			r = true
		case *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.SendStmt:
			r = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				r = true
			}
		case *ast.Ident:
			if e.globals[x.Name] {
				r = true
			}
		}
		return !r
	})
	return
}

func (e *editor) collectReset(stmts, inits *[]string, base string) {
	base = strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, base)
	var b bytes.Buffer
	cnt := 0
	for _, d := range e.f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				vs := sp.(*ast.ValueSpec)
				names := []string{}
				blank := true
				for _, n := range vs.Names {
					names = append(names, n.Name)
					if n.Name != "_" {
						blank = false
					}
				}
				if blank {
					continue
				}
				if len(vs.Values) > 0 {
					var vals []string
					skip := false
					for _, v := range vs.Values {
						t := string(e.src[e.off(v.Pos()):e.off(v.End())])
						vals = append(vals, t)
						// sentinel errors keep their identity
						if strings.Contains(t, "NewError(") || strings.HasPrefix(t, "errors.New(") {
							skip = true
						}
					}
					if skip {
						continue
					}
					fmt.Fprintf(&b, "\t%s = %s\n", strings.Join(names, ", "), strings.Join(vals, ", "))
					cnt++
				} else if vs.Type != nil {
					t := string(e.src[e.off(vs.Type.Pos()):e.off(vs.Type.End())])
					for _, n := range names {
						if n == "_" {
							continue
						}
						fmt.Fprintf(&b, "\t{ var z %s; %s = z }\n", t, n)
						cnt++
					}
				}
			}
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
				name := fmt.Sprintf("__verif_init_%s_%d", base, len(*inits))
				e.add(e.off(d.Name.Pos()), e.off(d.Name.End()), name)
				fmt.Fprintf(&e.tail, "\nfunc init() { %s() }\n", name)
				*inits = append(*inits, name)
			}
		}
	}
	if cnt > 0 {
		fn := "__verif_vars_" + base
		fmt.Fprintf(&e.tail, "\nfunc %s() {\n%s}\n", fn, b.String())
		*stmts = append(*stmts, fn)
	}
}

var sites []string

func (e *editor) point(pos token.Pos) string {
	instrs++
	p := e.fset.Position(pos)
	sites = append(sites, fmt.Sprintf("%s/%s:%d", filepath.Base(filepath.Dir(p.Filename)), filepath.Base(p.Filename), p.Line))
	return fmt.Sprintf("__v.P(%d)", len(sites))
}

func (e *editor) apply() []byte {
	if e.needV {
		off := e.off(e.f.Name.End())
		e.add(off, off, "; import __v \"verif/vsched\"")
	}
	sort.SliceStable(e.edits, func(i, j int) bool {
		if e.edits[i].off != e.edits[j].off {
			return e.edits[i].off < e.edits[j].off
		}
		return e.edits[i].seq < e.edits[j].seq
	})
	var b bytes.Buffer
	cur := 0
	for _, d := range e.edits {
		if d.off < cur {
			continue // inside a replaced region
		}
		b.Write(e.src[cur:d.off])
		b.WriteString(d.text)
		cur = d.end
		if d.end < d.off {
			cur = d.off
		}
	}
	b.Write(e.src[cur:])
	b.Write(e.tail.Bytes())
	return b.Bytes()
}
