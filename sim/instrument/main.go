// Command instrument rewrites the current working tree of the repository under
// test into an overlay for "go build -overlay": every statement is preceded by
// a scheduler yield point, and the imports of crypto/rand and sync are
// redirected to the simulator.  The rewrite is textual (insertions at AST
// positions), so line numbers and compiler directives stay as they were.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type insert struct {
	off  int
	del  int
	text string
	seq  int
}

var (
	repo = flag.String("repo", "/repo", "tree to instrument")
	out  = flag.String("out", "", "output directory")
	bare = flag.Bool("bare", false, "redirect entropy, locks and go statements only; no switch points")
)

var redirect = map[string][2]string{
	"crypto/rand":  {"rand", "verifsim/simrt/rand"},
	"sync":         {"sync", "verifsim/simrt/sync"},
	"math/rand":    {"rand", "verifsim/simrt/mrand"},
	"math/rand/v2": {"rand", "verifsim/simrt/mrand2"},
	"time":         {"time", "verifsim/simrt/clock"},
}

var site int
var sites []string
var warn []string

func main() {
	flag.Parse()
	if *out == "" {
		fmt.Fprintln(os.Stderr, "instrument: -out required")
		os.Exit(2)
	}
	dirs := map[string][]string{}
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if p != *repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			dirs[filepath.Dir(p)] = append(dirs[filepath.Dir(p)], p)
		}
		return nil
	})
	must(err)
	replace := map[string]string{}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		fset := token.NewFileSet()
		type pf struct {
			path string
			src  []byte
			f    *ast.File
		}
		var files []pf
		var asts []*ast.File
		vars := map[string]bool{}
		for _, p := range dirs[d] {
			src, err := os.ReadFile(p)
			must(err)
			f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, "instrument:", err)
				os.Exit(2)
			}
			if f.Name.Name == "main" || f.Name.Name == "documentation" {
				continue
			}
			files = append(files, pf{p, src, f})
			asts = append(asts, f)
			for _, dc := range f.Decls {
				if g, ok := dc.(*ast.GenDecl); ok && g.Tok == token.VAR {
					for _, s := range g.Specs {
						pkgSpecs[s.(*ast.ValueSpec)] = true
						for _, n := range s.(*ast.ValueSpec).Names {
							vars[n.Name] = true
						}
					}
				}
			}
		}
		hotVars, hotTypes = findHot(asts, vars)
		hotLog(d)
		for _, x := range files {
			res := rewrite(fset, x.path, x.src, x.f, vars)
			rel, _ := filepath.Rel(*repo, x.path)
			op := filepath.Join(*out, "src", rel)
			must(os.MkdirAll(filepath.Dir(op), 0o755))
			must(os.WriteFile(op, res, 0o644))
			replace[x.path] = op
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	must(os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644))
	b, _ = json.Marshal(map[string]interface{}{"sites": site, "files": len(replace), "warnings": warn, "shared": hot})
	must(os.WriteFile(filepath.Join(*out, "summary.json"), b, 0o644))
	fmt.Println(string(b))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instrument:", err)
		os.Exit(2)
	}
}

func rewrite(fset *token.FileSet, path string, src []byte, f *ast.File, vars map[string]bool) []byte {
	var ins []insert
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(o, del int, t string) { ins = append(ins, insert{o, del, t, len(ins)}) }

	yields := 0
	recvHot := ""
	yield := func(p token.Pos, s ast.Stmt) {
		if *bare {
			return
		}
		fn := "Y"
		if s != nil && mentions(s, vars) {
			fn = "YG"
		}
		if s != nil && (mentions(s, hotVars) || recvHot != "" && names(s, recvHot)) {
			fn = "YH"
		}
		add(off(p), 0, fmt.Sprintf("simrt__.%s(%d);", fn, site))
		pos := fset.Position(p)
		sites = append(sites, fmt.Sprintf("%d %s %s:%d", site, fn, strings.TrimPrefix(pos.Filename, *repo+"/"), pos.Line))
		site++
		yields++
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			yield(s.Pos(), s)
		}
	}
	for _, d := range f.Decls {
		recvHot = ""
		fd, ok := d.(*ast.FuncDecl)
		var root ast.Node = d
		if ok {
			if fd.Body == nil {
				continue
			}
			root = fd.Body
			recvHot = ""
			if n, t := receiver(fd); hotTypes[t] {
				recvHot = n
			}
			if hasDirective(fd.Doc, "//go:nosplit") || hasDirective(fd.Doc, "//go:norace") {
				warn = append(warn, "skipped "+fd.Name.Name)
				continue
			}
		}
		ast.Inspect(root, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
				warn = append(warn, "select in "+path)
			case *ast.ForStmt:
				if len(n.Body.List) == 0 {
					yield(n.Body.Lbrace+1, nil)
				}
			case *ast.RangeStmt:
				if len(n.Body.List) == 0 {
					yield(n.Body.Lbrace+1, nil)
				}
			case *ast.GoStmt:
				// go f(a, b)  =>  { f__, a0__ := ...; simrt__.Go(func(){...}) }
				c := n.Call
				if len(c.Args) == 0 {
					yields++
					add(off(n.Pos()), len("go"), "simrt__.Go(func(){")
					add(off(n.End()), 0, "})")
				} else {
					yields++
					var names []string
					for i := range c.Args {
						names = append(names, fmt.Sprintf("a%d__", i))
					}
					pre := "{" + strings.Join(names, ",") + ":="
					_ = pre
					// keep the callee text where it is, hoist the arguments
					var exprs []string
					for _, a := range c.Args {
						exprs = append(exprs, string(src[off(a.Pos()):off(a.End())]))
					}
					dots := ""
					if c.Ellipsis != token.NoPos {
						dots = "..."
					}
					add(off(n.Pos()), len("go"), "{"+strings.Join(names, ",")+":="+strings.Join(exprs, ",")+";simrt__.Go(func(){")
					add(off(c.Lparen), off(c.Rparen)-off(c.Lparen)+1, "("+strings.Join(names, ",")+dots+")})}")
				}
			case *ast.SendStmt:
				warn = append(warn, "channel send in "+path)
			case *ast.UnaryExpr:
				if n.Op == token.ARROW {
					warn = append(warn, "channel receive in "+path)
				}
			}
			return true
		})
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if r, ok := redirect[p]; ok {
			t := strconv.Quote(r[1])
			if im.Name == nil {
				t = r[0] + " " + t
			}
			add(off(im.Path.Pos()), len(im.Path.Value), t)
		}
	}
	if yields > 0 {
		add(off(f.Name.End()), 0, `;import simrt__ "verifsim/simrt"`)
	}
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	var b []byte
	last := 0
	for _, in := range ins {
		if in.off < last {
			continue // inside a deleted range (arguments of a go statement)
		}
		b = append(b, src[last:in.off]...)
		b = append(b, in.text...)
		last = in.off + in.del
	}
	return append(b, src[last:]...)
}

func hasDirective(c *ast.CommentGroup, d string) bool {
	if c == nil {
		return false
	}
	for _, l := range c.List {
		if strings.HasPrefix(l.Text, d) {
			return true
		}
	}
	return false
}

// mentions reports whether the statement itself (not the blocks nested in it)
// names a package-level variable.
func mentions(s ast.Stmt, vars map[string]bool) bool {
	return mentionsAny(s, func(id *ast.Ident) bool { return global(id, vars) })
}

func mentionsAny(s ast.Stmt, is func(*ast.Ident) bool) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			return false
		case *ast.CaseClause, *ast.CommClause:
			return false
		case *ast.SelectorExpr:
			ast.Inspect(n.X, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && is(id) {
					found = true
				}
				return !found
			})
			return false
		case *ast.Ident:
			if is(n) {
				found = true
			}
		}
		return !found
	})
	return found
}

var pkgSpecs = map[*ast.ValueSpec]bool{} // declared at package level

func global(id *ast.Ident, vars map[string]bool) bool {
	if !vars[id.Name] {
		return false
	}
	if id.Obj == nil {
		return true // declared in another file of the package
	}
	vs, ok := id.Obj.Decl.(*ast.ValueSpec)
	if !ok {
		return false // := or parameter
	}
	return pkgSpecs[vs]
}

// hotVars are the package-level variables that code outside init functions
// changes; hotTypes the types of package-level variables whose methods change
// their receiver.  Both are where state shared between calls can live, so the
// scheduler looks at them more closely.
var hotVars, hotTypes map[string]bool

func hotLog(d string) {
	rel, _ := filepath.Rel(*repo, d)
	for _, m := range []map[string]bool{hotVars, hotTypes} {
		var l []string
		for v := range m {
			l = append(l, v)
		}
		sort.Strings(l)
		for _, v := range l {
			hot = append(hot, rel+"."+v)
		}
	}
}

var hot []string

func receiver(fd *ast.FuncDecl) (name, typ string) {
	if fd.Recv == nil || len(fd.Recv.List) != 1 {
		return "", ""
	}
	f := fd.Recv.List[0]
	if len(f.Names) == 1 {
		name = f.Names[0].Name
	}
	return name, typeName(f.Type)
}

func typeName(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.StarExpr:
		return typeName(e.X)
	case *ast.UnaryExpr:
		return typeName(e.X)
	case *ast.CompositeLit:
		return typeName(e.Type)
	case *ast.ParenExpr:
		return typeName(e.X)
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "new" && len(e.Args) == 1 {
			return typeName(e.Args[0])
		}
	case *ast.Ident:
		return e.Name
	case *ast.SelectorExpr:
		return "." + e.Sel.Name
	}
	return ""
}

// base is the variable an addressable expression belongs to.
func base(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.SelectorExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		case *ast.TypeAssertExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func findHot(files []*ast.File, vars map[string]bool) (hv, ht map[string]bool) {
	hv, ht = map[string]bool{}, map[string]bool{}
	vtype := map[string]string{} // package variable -> its type, when written down
	local := map[string]bool{}   // types declared in this package
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, sp := range g.Specs {
				switch sp := sp.(type) {
				case *ast.TypeSpec:
					local[sp.Name.Name] = true
				case *ast.ValueSpec:
					if g.Tok != token.VAR {
						continue
					}
					for i, n := range sp.Names {
						t := ""
						if sp.Type != nil {
							t = typeName(sp.Type)
						} else if i < len(sp.Values) {
							t = typeName(sp.Values[i])
						}
						vtype[n.Name] = t
					}
				}
			}
		}
	}
	held := map[string]bool{}
	for _, t := range vtype {
		if local[t] {
			held[t] = true
		}
	}
	once := onceOnly(files)
	mutates := map[string]bool{} // "T.M": method M of T changes its receiver
	called := map[string]bool{}  // "T.M": called on a package variable of type T
	calledOn := map[string][]string{}
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Recv == nil && (fd.Name.Name == "init" || once[fd.Name.Name]) {
				continue
			}
			rn, rt := receiver(fd)
			alias := map[string]string{} // local name -> package variable
			root := func(e ast.Expr) *ast.Ident {
				if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
					e = u.X
				}
				return base(e)
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				if a, ok := n.(*ast.AssignStmt); ok && len(a.Lhs) == len(a.Rhs) {
					for i := range a.Rhs {
						if l, ok := a.Lhs[i].(*ast.Ident); ok {
							if id := root(a.Rhs[i]); id != nil && global(id, vars) {
								alias[l.Name] = id.Name
							}
						}
					}
				}
				return true
			})
			pkgVar := func(id *ast.Ident) string {
				if id == nil || id.Name == "_" {
					return ""
				}
				if global(id, vars) {
					return id.Name
				}
				return ""
			}
			write := func(e ast.Expr) {
				id := base(e)
				if id == nil {
					return
				}
				if v := pkgVar(id); v != "" {
					hv[v] = true
				} else if v := alias[id.Name]; v != "" && e != ast.Expr(id) {
					hv[v] = true
				}
				if rn != "" && id.Name == rn && e != ast.Expr(id) {
					mutates[rt+"."+fd.Name.Name] = true
				}
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					if n.Tok != token.DEFINE {
						for _, l := range n.Lhs {
							write(l)
						}
					}
				case *ast.IncDecStmt:
					write(n.X)
				case *ast.RangeStmt:
					if n.Tok == token.ASSIGN {
						if n.Key != nil {
							write(n.Key)
						}
						if n.Value != nil {
							write(n.Value)
						}
					}
				case *ast.CallExpr:
					if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "copy" || id.Name == "delete" || id.Name == "clear") && len(n.Args) > 0 {
						write(n.Args[0])
					}
					s, ok := n.Fun.(*ast.SelectorExpr)
					if !ok {
						break
					}
					id := base(s.X)
					v := pkgVar(id)
					if v == "" && id != nil {
						v = alias[id.Name]
					}
					if v == "" {
						break
					}
					t := vtype[v]
					switch {
					case local[t] && s.X == ast.Expr(id):
						called[t+"."+s.Sel.Name] = true
						calledOn[t+"."+s.Sel.Name] = append(calledOn[t+"."+s.Sel.Name], v)
					case strings.HasPrefix(t, ".") && !reading[s.Sel.Name]: // of a type from elsewhere
						hv[v] = true
					}
				}
				return true
			})
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, sp := range g.Specs {
				if v := sp.(*ast.ValueSpec); v.Type != nil {
					if _, ok := v.Type.(*ast.FuncType); ok {
						for _, n := range v.Names { // a choice of implementation
							delete(hv, n.Name)
						}
					}
				}
			}
		}
	}
	// a variable whose own methods change it
	for m := range mutates {
		t := m[:strings.IndexByte(m, '.')]
		if called[m] && held[t] {
			ht[t] = true
			for _, v := range calledOn[m] {
				hv[v] = true
			}
		}
	}
	return hv, ht
}

// reading are methods of types from other packages that do not change their receiver.
var reading = map[string]bool{"Bytes": true, "Cmp": true, "CmpAbs": true, "Sign": true, "Bit": true, "BitLen": true, "String": true, "Text": true,
	"FillBytes": true, "Int64": true, "Uint64": true, "IsInt64": true, "Params": true, "IsOnCurve": true, "Error": true, "Do": true}

// onceOnly finds the functions that are only run through sync.Once, from init
// functions or from package variable initialisers.
func onceOnly(files []*ast.File) map[string]bool {
	type use struct{ in string } // enclosing function, "" at package level, "!" through Once
	uses := map[string][]use{}
	fns := map[string]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
				fns[fd.Name.Name] = true
			}
		}
	}
	for _, f := range files {
		for _, d := range f.Decls {
			in := ""
			if fd, ok := d.(*ast.FuncDecl); ok {
				in = fd.Name.Name
				if fd.Recv != nil {
					in = "." + in
				}
			}
			through := map[*ast.Ident]bool{}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.FuncDecl:
					through[n.Name] = true
					uses[n.Name.Name] = append(uses[n.Name.Name], use{"!"})
				case *ast.CallExpr:
					if s, ok := n.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Do" && len(n.Args) == 1 {
						if id, ok := n.Args[0].(*ast.Ident); ok {
							through[id] = true
							uses[id.Name] = append(uses[id.Name], use{"!"})
						}
					}
				case *ast.Ident:
					if fns[n.Name] && !through[n] {
						uses[n.Name] = append(uses[n.Name], use{in})
					}
				}
				return true
			})
		}
	}
	once := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for f := range fns {
			if once[f] || f == "init" || len(uses[f]) < 2 || ast.IsExported(f) {
				continue
			}
			ok := true
			for _, u := range uses[f] {
				ok = ok && (u.in == "!" || u.in == "" || u.in == "init" || once[u.in])
			}
			if ok {
				once[f], changed = true, true
			}
		}
	}
	return once
}

func names(s ast.Stmt, name string) bool {
	return mentionsAny(s, func(id *ast.Ident) bool { return id.Name == name })
}
