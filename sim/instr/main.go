// Command instr writes instrumented copies of the library's packages and an
// overlay file for the go command. It judges code only by generic rules:
//
//   - a yield point before every statement (zzrt.Y), a hot one (zzrt.H) where the
//     statement belongs to a method of a mutable handle type (name ending in _),
//     mentions sync/atomic, or mentions a package-level variable that is ever
//     modified;
//   - a hot yield point at every dereference of a pointer to a "box" type, that
//     is, a struct type pointed to by a field of a mutable handle type (zzrt.P);
//   - sync.Mutex and friends and the go statement are replaced by simulated ones.
//
// Edits are insertions in the source text, so line numbers stay as they are.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off  int
	prio int // order among insertions at one offset
	del  int
	text string
	seq  int
}

type pkgInfo struct {
	Dir        string
	ImportPath string
	GoFiles    []string
	Export     string
	Imports    []string
}

// level is raised by the build if code comes along which the full set of rules
// makes something of that doesn't compile.
var level int

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "library module")
	out := flag.String("out", "", "output directory")
	pkgs := flag.String("pkgs", "./ipv4,./ipv6,./ip", "packages to instrument, with all they use of this module")
	flag.IntVar(&level, "level", 0, "what to leave out: 1 simulated channels, goroutines and locks, 2 also resets and dereferences, 3 everything")
	flag.Parse()
	os.MkdirAll(*out, 0o755)

	args := append([]string{"list", "-export", "-deps", "-json=Dir,ImportPath,GoFiles,Export,Imports"}, strings.Split(*pkgs, ",")...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	all := map[string]*pkgInfo{}
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		all[p.ImportPath] = &p
	}
	overlay := map[string]string{}
	var sites []string
	sites = append(sites, "?") // site 0
	var paths []string
	root, err := filepath.EvalSymlinks(*repo)
	must(err)
	for path, p := range all {
		d, err := filepath.EvalSymlinks(p.Dir)
		if err == nil && strings.HasPrefix(d+"/", root+"/") {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	if len(paths) == 0 {
		die("no packages")
	}
	stats := map[string]int{}
	for _, path := range paths {
		rel, err := filepath.Rel(*repo, all[path].Dir)
		must(err)
		instrument(all, all[path], rel, *out, overlay, &sites, stats)
	}
	ob, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0o644))
	sb, _ := json.Marshal(sites)
	must(os.WriteFile(filepath.Join(*out, "sites.json"), sb, 0o644))
	tb, _ := json.Marshal(stats)
	must(os.WriteFile(filepath.Join(*out, "stats.json"), tb, 0o644))
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func instrument(all map[string]*pkgInfo, p *pkgInfo, rel, out string, overlay map[string]string, sites *[]string, stats map[string]int) {
	fset := token.NewFileSet()
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		name := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(name)
		must(err)
		a, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, a)
		srcs = append(srcs, src)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		q := all[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check: %v", err)
	}

	// box types
	boxes := map[*types.TypeName]bool{}
	scope := tp.Scope()
	for _, n := range scope.Names() {
		tn, ok := scope.Lookup(n).(*types.TypeName)
		if !ok || !strings.HasSuffix(n, "_") {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			if ptr, ok := st.Field(i).Type().Underlying().(*types.Pointer); ok {
				if nm, ok := types.Unalias(ptr.Elem()).(*types.Named); ok && nm.Obj().Pkg() == tp {
					if _, ok := nm.Underlying().(*types.Struct); ok {
						boxes[nm.Origin().Obj()] = true
					}
				}
			}
		}
	}
	isBoxPtr := func(t types.Type) bool {
		if t == nil {
			return false
		}
		ptr, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return false
		}
		nm, ok := types.Unalias(ptr.Elem()).(*types.Named)
		return ok && boxes[nm.Origin().Obj()]
	}

	isPtrPtr := func(t types.Type) bool {
		if ptr, ok := t.Underlying().(*types.Pointer); ok {
			_, ok = ptr.Elem().Underlying().(*types.Pointer)
			return ok
		}
		return false
	}

	// package-level variables that can change
	mutable := map[types.Object]bool{}
	isPkgVar := func(o types.Object) bool {
		v, ok := o.(*types.Var)
		return ok && !v.IsField() && v.Parent() == scope && v.Name() != "_"
	}
	var root func(e ast.Expr) types.Object
	root = func(e ast.Expr) types.Object {
		switch e := e.(type) {
		case *ast.Ident:
			return info.Uses[e]
		case *ast.SelectorExpr:
			return root(e.X)
		case *ast.IndexExpr:
			return root(e.X)
		case *ast.StarExpr:
			return root(e.X)
		case *ast.ParenExpr:
			return root(e.X)
		case *ast.SliceExpr:
			return root(e.X)
		}
		return nil
	}
	mark := func(e ast.Expr) {
		if o := root(e); o != nil && isPkgVar(o) {
			mutable[o] = true
		}
	}
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok {
			switch v.Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Slice, *types.Chan:
				mutable[v] = true
			case *types.Struct:
				if s := v.Type().String(); strings.HasPrefix(s, "sync") {
					mutable[v] = true
				}
			}
		}
	}
	for _, f := range files {
		ast.Inspect(f, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					mark(n.X)
				}
			case *ast.CallExpr:
				if s, ok := n.Fun.(*ast.SelectorExpr); ok {
					if sel := info.Selections[s]; sel != nil {
						if sig, ok := sel.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
							if _, ok := sig.Recv().Type().(*types.Pointer); ok {
								mark(s.X)
							}
						}
					}
				}
			}
			return true
		})
	}

	// the functions of package time which the simulator provides
	clockNames := map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true}
	syncNames := map[string]bool{"Mutex": true, "RWMutex": true, "Once": true, "WaitGroup": true, "Pool": true,
		"Cond": true, "NewCond": true, "OnceFunc": true, "OnceValue": true, "OnceValues": true}
	isBuiltin := func(e ast.Expr, name string) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		if !ok || id.Name != name {
			return false
		}
		_, ok = info.Uses[id].(*types.Builtin)
		return ok
	}
	isChan := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Chan)
		return ok
	}
	resets := map[types.Object]string{}
	var inits []string
	stateful := len(mutable) > 0 && level < 2
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok {
			if _, ok := v.Type().Underlying().(*types.Signature); ok {
				stateful = level < 2
			}
		}
	}

	for fi, f := range files {
		src := srcs[fi]
		tf := fset.File(f.Pos())
		off := func(p token.Pos) int { return tf.Offset(p) }
		var edits []edit
		site := func(pos token.Pos) int {
			ps := fset.Position(pos)
			*sites = append(*sites, fmt.Sprintf("%s/%s:%d", rel, filepath.Base(ps.Filename), ps.Line))
			return len(*sites) - 1
		}
		usesSync, usesTime, usesRuntime := false, false, false
		commaOK := map[ast.Expr]bool{} // receives that also ask whether the channel is closed
		inSelect := map[ast.Node]bool{}

		// shallowHot: does the statement itself (not the blocks inside it, except
		// as part of expressions) touch shared package state?
		shallowHot := func(s ast.Stmt) bool {
			hot := false
			ast.Inspect(s, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BlockStmt:
					return false
				case *ast.Ident:
					if o := info.Uses[n]; o != nil && mutable[o] {
						hot = true
					}
					if pn, ok := info.Uses[n].(*types.PkgName); ok && (pn.Imported().Path() == "sync/atomic" || pn.Imported().Path() == "sync") {
						hot = true
					}
				case *ast.SelectorExpr:
					if sel := info.Selections[n]; sel != nil && sel.Obj().Pkg() != nil && strings.HasPrefix(sel.Obj().Pkg().Path(), "sync") {
						hot = true
					}
				}
				return true
			})
			return hot
		}

		var doBody func(list []ast.Stmt, handle bool)
		doBody = func(list []ast.Stmt, handle bool) {
			for _, s := range list {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				kind := "Y"
				if handle || shallowHot(s) {
					kind = "H"
				}
				stats[kind]++
				edits = append(edits, edit{off: off(s.Pos()), prio: 0, text: fmt.Sprintf("zzrt.%s(%d); ", kind, site(s.Pos()))})
			}
		}
		var walk func(n ast.Node, handle bool)
		walk = func(n ast.Node, handle bool) {
			ast.Inspect(n, func(m ast.Node) bool {
				switch m.(type) {
				case *ast.SendStmt, *ast.UnaryExpr, *ast.CallExpr, *ast.SelectStmt, *ast.GoStmt:
					if level >= 1 {
						return true
					}
				case *ast.StarExpr:
					if level >= 2 {
						return true
					}
				}
				switch m := m.(type) {
				case *ast.BlockStmt:
					doBody(m.List, handle)
				case *ast.CaseClause:
					doBody(m.Body, handle)
				case *ast.CommClause:
					doBody(m.Body, handle)
				case *ast.AssignStmt:
					if len(m.Lhs) == 2 && len(m.Rhs) == 1 {
						commaOK[ast.Unparen(m.Rhs[0])] = true
					}
				case *ast.ValueSpec:
					if len(m.Names) == 2 && len(m.Values) == 1 {
						commaOK[ast.Unparen(m.Values[0])] = true
					}
				case *ast.SendStmt:
					if inSelect[m] {
						break
					}
					stats["chan"]++
					edits = append(edits, edit{off: off(m.Pos()), prio: 1, text: "zzrt.To("},
						edit{off: off(m.Arrow), prio: -1, del: 2, text: ").Send("},
						edit{off: off(m.End()), prio: -1, text: ")"})
				case *ast.UnaryExpr:
					if m.Op != token.ARROW || inSelect[m] {
						break
					}
					stats["chan"]++
					f := ").Recv()"
					if commaOK[m] {
						f = ").Recv2()"
					}
					edits = append(edits, edit{off: off(m.OpPos), prio: 1, del: 2, text: "zzrt.From("},
						edit{off: off(m.End()), prio: -1, text: f})
				case *ast.CallExpr:
					if len(m.Args) == 1 && isChan(m.Args[0]) {
						if isBuiltin(m.Fun, "close") {
							stats["chan"]++
							edits = append(edits, edit{off: off(m.Fun.Pos()), prio: 2, del: 5, text: "zzrt.CloseChan"})
						} else if isBuiltin(m.Fun, "len") {
							stats["chan"]++
							edits = append(edits, edit{off: off(m.Fun.Pos()), prio: 2, del: 3, text: "zzrt.ChanLen"})
						}
					}
				case *ast.SelectStmt:
					stats["chan"]++
					str := func(e ast.Node) string { return string(src[off(e.Pos()):off(e.End())]) }
					def, n := "false", 0
					edits = append(edits, edit{off: off(m.Body.Rbrace), prio: -3, text: "\x00"})
					endOf := len(edits) - 1
					var cases []string
					for _, c := range m.Body.List {
						c := c.(*ast.CommClause)
						// the whole "case ... :" is replaced
						put := func(t string) {
							edits = append(edits, edit{off: off(c.Case), prio: -1, del: off(c.Colon) + 1 - off(c.Case), text: t})
						}
						recv := func(e ast.Expr) string {
							u := ast.Unparen(e).(*ast.UnaryExpr)
							inSelect[u] = true
							cases = append(cases, "zzrt.From("+str(u.X)+").Case()")
							return "zzrt.From(" + str(u.X) + ")"
						}
						switch x := c.Comm.(type) {
						case nil:
							def = "true"
							put("default:")
							continue
						case *ast.SendStmt:
							inSelect[x] = true
							cases = append(cases, "zzrt.To("+str(x.Chan)+").Case("+str(x.Value)+")")
							put(fmt.Sprintf("case %d:", n))
						case *ast.ExprStmt:
							recv(x.X)
							put(fmt.Sprintf("case %d:", n))
						case *ast.AssignStmt:
							f := recv(x.Rhs[0])
							got := ".Got()"
							if len(x.Lhs) == 2 {
								got = ".Got2()"
							}
							put(fmt.Sprintf("case %d: %s %s %s%s;", n, string(src[off(x.Lhs[0].Pos()):off(x.Lhs[len(x.Lhs)-1].End())]), x.Tok, f, got))
						}
						n++
					}
					edits[endOf].text = ""
					if def == "false" {
						edits[endOf].text = "; default: panic(\"unreachable\") "
						if n == 0 {
							edits[endOf].text = " default: panic(\"unreachable\") "
						}
					}
					edits = append(edits, edit{off: off(m.Select), prio: 1, del: 6, text: "switch zzrt.Select(" + strings.Join(append([]string{def}, cases...), ", ") + ")"})
				case *ast.ForStmt:
					if len(m.Body.List) == 0 {
						edits = append(edits, edit{off: off(m.Body.Lbrace) + 1, text: fmt.Sprintf(" zzrt.H(%d); ", site(m.Pos()))})
					}
				case *ast.RangeStmt:
					if isChan(m.X) && level < 1 {
						stats["chan"]++
						v := "_"
						if m.Key != nil {
							v = string(src[off(m.Key.Pos()):off(m.Key.End())])
						}
						get := "zzv, zzok := "
						use := ""
						if v != "_" {
							tok := ":="
							if m.Tok == token.ASSIGN {
								tok = "="
							}
							use = v + " " + tok + " zzv; "
						} else {
							use = "_ = zzv; "
						}
						edits = append(edits, edit{off: off(m.For), prio: 1, del: off(m.X.Pos()) - off(m.For), text: "for { " + get + "zzrt.From("},
							edit{off: off(m.X.End()), prio: -1, text: ").Recv2(); if !zzok { break }; " + use},
							edit{off: off(m.Body.Lbrace), prio: -1, del: 1})
					}
					if len(m.Body.List) == 0 {
						edits = append(edits, edit{off: off(m.Body.Lbrace) + 1, text: fmt.Sprintf(" zzrt.H(%d); ", site(m.Pos()))})
					}
				case *ast.SelectorExpr:
					if sel := info.Selections[m]; sel != nil && level < 2 {
						if tv, ok := info.Types[m.X]; ok && tv.IsValue() && isBoxPtr(tv.Type) {
							stats["P"]++
							edits = append(edits,
								edit{off: off(m.X.Pos()), prio: 1, text: fmt.Sprintf("zzrt.P(%d, ", site(m.Pos()))},
								edit{off: off(m.X.End()), prio: -1, text: ")"})
						}
					}
					if id, ok := m.X.(*ast.Ident); ok && level < 1 {
						if pn, ok := info.Uses[id].(*types.PkgName); ok && (pn.Imported().Path() == "time" && clockNames[m.Sel.Name] || pn.Imported().Path() == "runtime" && m.Sel.Name == "Gosched") {
							stats["sync"]++
							usesTime = usesTime || clockNames[m.Sel.Name]
							usesRuntime = usesRuntime || m.Sel.Name == "Gosched"
							edits = append(edits, edit{off: off(id.Pos()), prio: 2, del: len(id.Name), text: "zzrt"})
						}
						if pn, ok := info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "sync" {
							usesSync = true
							if syncNames[m.Sel.Name] {
								stats["sync"]++
								edits = append(edits, edit{off: off(id.Pos()), prio: 2, del: len(id.Name), text: "zzrt"})
							}
						}
					}
				case *ast.StarExpr:
					if tv, ok := info.Types[m.X]; ok && tv.IsValue() && (isBoxPtr(tv.Type) || isPtrPtr(tv.Type)) {
						stats["P"]++
						edits = append(edits,
							edit{off: off(m.X.Pos()), prio: 1, text: fmt.Sprintf("zzrt.P(%d, ", site(m.Pos()))},
							edit{off: off(m.X.End()), prio: -1, text: ")"})
					}
				case *ast.GoStmt:
					stats["go"]++
					c := m.Call
					var tuple *types.Tuple
					if len(c.Args) == 1 {
						tuple, _ = info.Types[c.Args[0]].Type.(*types.Tuple)
					}
					bi := false
					if id, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
						_, bi = info.Uses[id].(*types.Builtin)
					}
					if len(c.Args) == 0 || bi {
						edits = append(edits, edit{off: off(m.Go), prio: 1, del: 2, text: "zzrt.Go(func() {"},
							edit{off: off(c.End()), prio: -2, text: "})"})
						break
					}
					// go F(a, b)  =>  zzrt.Go(func() func() { zzf := F; zza0, zza1 := a, b; return func() { zzf(zza0, zza1) } }())
					// Constants stay in the call, which gives them their types.
					var names, pass []string
					if tuple != nil {
						for i := 0; i < tuple.Len(); i++ {
							names = append(names, fmt.Sprintf("zza%d", i))
						}
						pass = names
					} else {
						for i, a := range c.Args {
							n := fmt.Sprintf("zza%d", i)
							if tv := info.Types[a]; tv.Value != nil || tv.IsNil() {
								names = append(names, "_")
								pass = append(pass, string(src[off(a.Pos()):off(a.End())]))
								edits = append(edits, edit{off: off(a.Pos()), prio: 3, del: off(a.End()) - off(a.Pos()), text: "0"})
								continue
							}
							names = append(names, n)
							pass = append(pass, n)
						}
					}
					dots := ""
					if c.Ellipsis.IsValid() {
						dots = "..."
						edits = append(edits, edit{off: off(c.Ellipsis), del: 3})
					}
					tok := ":="
					if strings.Trim(strings.Join(names, ""), "_") == "" {
						tok = "="
					}
					fun := "zzf"
					plain := func(e ast.Expr) bool { id, ok := e.(*ast.Ident); _, fn := info.Uses[id].(*types.Func); return ok && fn }
					if sel, ok := c.Fun.(*ast.SelectorExpr); plain(c.Fun) || ok && info.Selections[sel] == nil && plain(sel.Sel) {
						fun = string(src[off(c.Fun.Pos()):off(c.Fun.End())])
						edits = append(edits, edit{off: off(m.Go), prio: 1, del: off(c.Lparen) + 1 - off(m.Go), text: "zzrt.Go(func() func() { " + strings.Join(names, ", ") + " " + tok + " "})
					} else {
						edits = append(edits,
							edit{off: off(m.Go), prio: 1, del: 2, text: "zzrt.Go(func() func() { zzf := "},
							edit{off: off(c.Lparen), prio: 0, del: 1, text: "; " + strings.Join(names, ", ") + " " + tok + " "})
					}
					edits = append(edits,
						edit{off: off(c.Rparen), prio: -1, del: 1, text: "; return func() { " + fun + "(" + strings.Join(pass, ", ") + dots + ") } }())"})
				}
				return true
			})
		}
		for _, d := range f.Decls {
			handle := false
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" && stateful {
				fn := fmt.Sprintf("zzinit%d_%d", fi, len(inits))
				inits = append(inits, fn+"()")
				edits = append(edits, edit{off: off(fd.Name.Pos()), prio: 1, del: 4, text: fn})
			}
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv != nil && len(fd.Recv.List) == 1 {
				t := fd.Recv.List[0].Type
				for {
					switch x := t.(type) {
					case *ast.StarExpr:
						t = x.X
						continue
					case *ast.IndexExpr:
						t = x.X
						continue
					case *ast.IndexListExpr:
						t = x.X
						continue
					case *ast.ParenExpr:
						t = x.X
						continue
					}
					break
				}
				if id, ok := t.(*ast.Ident); ok && strings.HasSuffix(id.Name, "_") {
					handle = true
				}
			}
			walk(d, handle)
		}
		edits = append(edits, edit{off: off(f.Name.End()), text: `; import zzrt "verifsim/rt"`})
		tail := "\nvar _ = zzrt.Y\n"
		if level >= 3 {
			edits = edits[len(edits)-1:]
		}
		if usesTime {
			tail += "var _ = " + importName(f, "time") + ".Now\n"
		}
		if usesRuntime {
			tail += "var _ = " + importName(f, "runtime") + ".Gosched\n"
		}
		for i := range edits {
			edits[i].seq = i
		}
		sort.SliceStable(edits, func(i, j int) bool {
			a, b := edits[i], edits[j]
			if a.off != b.off {
				return a.off < b.off
			}
			if a.prio != b.prio {
				return a.prio < b.prio
			}
			// starts go from the outside in, ends from the inside out
			return a.prio < 0 && a.seq > b.seq
		})
		apply := func(from, to int) string {
			var b strings.Builder
			at := from
			for _, e := range edits {
				if e.off < from || e.off > to || e.off == to && e.prio >= 0 && to < len(src) {
					continue
				}
				if e.off < at {
					continue // inside something that was replaced
				}
				b.Write(src[at:e.off])
				at = e.off
				b.WriteString(e.text)
				at += e.del
			}
			if at < to {
				b.Write(src[at:to])
			}
			return b.String()
		}
		body := apply(0, len(src))
		// package-level variables that can change get a function to restore them
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for k, id := range vs.Names {
					o := info.Defs[id]
					if o == nil || !stateful || id.Name == "_" && (len(vs.Values) == 0 || !calls(info, vs.Values[min(k, len(vs.Values)-1)])) {
						continue
					}
					fn := fmt.Sprintf("zzreset%d_%d", fi, len(resets))
					resets[o] = fn
					if len(vs.Values) != 0 && len(vs.Values) != len(vs.Names) {
						if k == 0 {
							var l []string
							for _, x := range vs.Names {
								l = append(l, x.Name)
							}
							tail += fmt.Sprintf("func %s() { %s = %s }\n", fn, strings.Join(l, ", "), apply(off(vs.Values[0].Pos()), off(vs.Values[0].End())))
						} else {
							resets[o] = ""
						}
					} else if len(vs.Values) > 0 {
						tail += fmt.Sprintf("func %s() { %s = %s }\n", fn, id.Name, apply(off(vs.Values[k].Pos()), off(vs.Values[k].End())))
					} else {
						tail += fmt.Sprintf("func %s() { zzrt.Zero(&%s) }\n", fn, id.Name)
					}
				}
			}
		}
		if fi == len(files)-1 && len(resets)+len(inits) > 0 {
			// first those without a value, then in the order of initialisation
			var calls []string
			for o, fn := range resets {
				found := false
				for _, in := range info.InitOrder {
					for _, v := range in.Lhs {
						found = found || v == o
					}
				}
				if !found && fn != "" {
					calls = append(calls, fn+"()")
				}
			}
			sort.Strings(calls)
			for _, in := range info.InitOrder {
				for _, v := range in.Lhs {
					if fn := resets[v]; fn != "" {
						calls = append(calls, fn+"()")
					}
				}
			}
			calls = append(calls, inits...)
			stats["reset"] += len(calls)
			if len(inits) > 0 {
				tail += "func init() { " + strings.Join(inits, "; ") + " }\n"
			}
			tail += "func init() { zzrt.OnReset(func() { " + strings.Join(calls, "; ") + " }) }\n"
		}
		if usesSync {
			tail += "var _ " + importName(f, "sync") + ".Locker\n"
		}
		body += tail
		name := filepath.Join(out, strings.ReplaceAll(rel, "/", "_")+"_"+filepath.Base(tf.Name()))
		must(os.WriteFile(name, []byte(body), 0o644))
		overlay[tf.Name()] = name
	}
	fmt.Fprintf(os.Stderr, "instr: %s: box types %d\n", p.ImportPath, len(boxes))
}

func importName(f *ast.File, path string) string {
	for _, im := range f.Imports {
		if im.Path.Value == `"`+path+`"` && im.Name != nil {
			return im.Name.Name
		}
	}
	return path
}

// calls reports whether an expression calls a function.
func calls(info *types.Info, e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && !info.Types[c.Fun].IsType() {
			found = true
		}
		return !found
	})
	return found
}
