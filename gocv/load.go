package main

// Loading: the current source of /repo is parsed and type-checked on every
// run.  Packages of the module are checked from source (bodies are needed);
// everything else comes from compiler export data found with go list.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const modPath = "github.com/nlpodyssey/spago"

type Package struct {
	Path  string
	Short string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
}

type FuncInfo struct {
	Key  string
	Obj  *types.Func
	Decl *ast.FuncDecl
	Pkg  *Package
}

type Program struct {
	Fset  *token.FileSet
	Pkgs  map[string]*Package
	Funcs map[string]*FuncInfo
	ByObj map[*types.Func]*FuncInfo
	// all named struct types with methods, for dynamic dispatch
	Named map[string]*types.Named
	// package-level errors made by errors.New and never written
	cerrs map[string]bool
	// package-level maps that are never written (see constMap)
	cmaps map[*types.Var]*ast.CompositeLit
}

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Deps       []string
}

func goEnv() []string {
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	return env
}

func goList(repo, tags string) ([]listPkg, error) {
	args := []string{"list", "-deps", "-export", "-json=ImportPath,Dir,GoFiles,Export,Standard,Deps"}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	args = append(args, "./...")
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	var errb bytes.Buffer
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var res []listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		res = append(res, p)
	}
	return res, nil
}

func shortPkg(path string) string {
	if path == modPath {
		return "spago"
	}
	if strings.HasPrefix(path, modPath+"/") {
		p := strings.TrimPrefix(path, modPath+"/")
		if strings.HasPrefix(p, "ghost/") {
			return "ghost"
		}
		if p == "mat/internal/rand" {
			return "irand"
		}
		return filepath.Base(p)
	}
	return path
}

func Load(repo, tags string) (*Program, error) {
	list, err := goList(repo, tags)
	if err != nil {
		return nil, err
	}
	// ghost client programs: they call the real code and are verified with it
	gdir := filepath.Join(verifDir(), "contracts", "ghost")
	if es, err := os.ReadDir(gdir); err == nil {
		for _, e := range es {
			if strings.HasSuffix(e.Name(), ".go") {
				list = append(list, listPkg{ImportPath: modPath + "/ghost/" + strings.TrimSuffix(e.Name(), ".go"), Dir: gdir, GoFiles: []string{e.Name()}})
			}
		}
	}
	return loadFrom(list)
}

func loadFrom(list []listPkg) (*Program, error) {
	prog := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*Package{}, Funcs: map[string]*FuncInfo{}, ByObj: map[*types.Func]*FuncInfo{}, Named: map[string]*types.Named{}}
	exports := map[string]string{}
	for _, p := range list {
		exports[p.ImportPath] = p.Export
	}
	gc := importer.ForCompiler(prog.Fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := prog.Pkgs[path]; ok {
			return p.Types, nil
		}
		return gc.Import(path)
	})
	for _, lp := range list { // go list -deps is in dependency order
		if lp.Standard || !(lp.ImportPath == modPath || strings.HasPrefix(lp.ImportPath, modPath+"/")) {
			continue
		}
		pkg := &Package{Path: lp.ImportPath, Short: shortPkg(lp.ImportPath)}
		for _, f := range lp.GoFiles {
			af, err := parser.ParseFile(prog.Fset, filepath.Join(lp.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			pkg.Files = append(pkg.Files, af)
		}
		pkg.Info = &types.Info{
			Types:      map[ast.Expr]types.TypeAndValue{},
			Defs:       map[*ast.Ident]types.Object{},
			Uses:       map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances:  map[*ast.Ident]types.Instance{},
			Implicits:  map[ast.Node]types.Object{},
			Scopes:     map[ast.Node]*types.Scope{},
		}
		conf := types.Config{Importer: imp, GoVersion: "go1.21"}
		tp, err := conf.Check(lp.ImportPath, prog.Fset, pkg.Files, pkg.Info)
		if err != nil && strings.HasPrefix(lp.ImportPath, modPath+"/ghost/") {
			fmt.Fprintf(os.Stderr, "ghost program %s does not compile against this tree: %v\n", lp.ImportPath, err)
			continue
		}
		if err != nil {
			return nil, fmt.Errorf("type check %s: %v", lp.ImportPath, err)
		}
		pkg.Types = tp
		prog.Pkgs[lp.ImportPath] = pkg
		for _, f := range pkg.Files {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, ok := pkg.Info.Defs[fd.Name].(*types.Func)
				if !ok {
					continue
				}
				fi := &FuncInfo{Key: funcKey(obj), Obj: obj, Decl: fd, Pkg: pkg}
				prog.ByObj[obj] = fi
				if fd.Name.Name != "init" && fd.Name.Name != "_" {
					prog.Funcs[fi.Key] = fi
				}
			}
		}
		sc := tp.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if nt, ok := tn.Type().(*types.Named); ok {
					prog.Named[pkg.Short+"."+n] = nt
				}
			}
		}
	}
	return prog, nil
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

// funcKey names a function: pkg.Func, pkg.(*T).Method or pkg.T.Method.
func funcKey(f *types.Func) string {
	f = f.Origin()
	pkg := ""
	if f.Pkg() != nil {
		pkg = shortPkg(f.Pkg().Path())
	}
	sig := f.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		ptr := false
		if p, ok := t.(*types.Pointer); ok {
			ptr = true
			t = p.Elem()
		}
		name := "?"
		switch n := types.Unalias(t).(type) {
		case *types.Named:
			name = n.Obj().Name()
		case *types.Interface:
			name = "interface"
		}
		if ptr {
			return pkg + ".(*" + name + ")." + f.Name()
		}
		return pkg + "." + name + "." + f.Name()
	}
	return pkg + "." + f.Name()
}

// allocates tells whether a function does nothing but return a new object.
func (p *Program) allocates(fn *types.Func) bool {
	if fn.Type().(*types.Signature).Recv() != nil {
		return false
	}
	for _, k := range p.Pkgs {
		if k.Types != fn.Pkg() {
			continue
		}
		for _, f := range k.Files {
			for _, d := range f.Decls {
				g, ok := d.(*ast.FuncDecl)
				if !ok || k.Info.Defs[g.Name] != fn || g.Body == nil || len(g.Body.List) != 1 {
					continue
				}
				r, ok := g.Body.List[0].(*ast.ReturnStmt)
				if !ok || len(r.Results) != 1 {
					return false
				}
				u, ok := ast.Unparen(r.Results[0]).(*ast.UnaryExpr)
				if !ok || u.Op != token.AND {
					return false
				}
				_, ok = ast.Unparen(u.X).(*ast.CompositeLit)
				return ok
			}
		}
	}
	return false
}

// constErr tells whether the variable "global.pkg.Name" is an error made by
// errors.New, or an object made by a function of the module, that no statement
// assigns or takes the address of.
func (p *Program) constErr(name string) bool {
	if p.cerrs == nil {
		c := map[string]bool{}
		vars := map[types.Object]string{}
		for _, k := range p.Pkgs {
			for _, f := range k.Files {
				for _, d := range f.Decls {
					g, ok := d.(*ast.GenDecl)
					if !ok {
						continue
					}
					for _, s := range g.Specs {
						v, ok := s.(*ast.ValueSpec)
						if !ok || len(v.Values) != len(v.Names) {
							continue
						}
						for i, id := range v.Names {
							call, ok := v.Values[i].(*ast.CallExpr)
							if !ok {
								continue
							}
							var id2 *ast.Ident
							switch x := call.Fun.(type) {
							case *ast.Ident:
								id2 = x
							case *ast.SelectorExpr:
								id2 = x.Sel
							default:
								continue
							}
							fn, ok := k.Info.Uses[id2].(*types.Func)
							if ok && (fn.FullName() == "errors.New" || fn.FullName() == "fmt.Errorf" || p.allocates(fn)) && k.Info.Defs[id] != nil {
								n := "global." + k.Short + "." + id.Name
								c[n] = true
								vars[k.Info.Defs[id]] = n
							}
						}
					}
				}
			}
		}
		for _, k := range p.Pkgs {
			drop := func(e ast.Expr) {
				var o types.Object
				switch x := ast.Unparen(e).(type) {
				case *ast.Ident:
					o = k.Info.Uses[x]
				case *ast.SelectorExpr:
					o = k.Info.Uses[x.Sel]
				}
				if n, ok := vars[o]; ok {
					c[n] = false
				}
			}
			for _, f := range k.Files {
				ast.Inspect(f, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.AssignStmt:
						for _, e := range x.Lhs {
							drop(e)
						}
					case *ast.UnaryExpr:
						if x.Op == token.AND {
							drop(x.X)
						}
					}
					return true
				})
			}
		}
		p.cerrs = c
	}
	return p.cerrs[name]
}

// constMap gives the literal that initialises a package-level map which is
// only ever read (indexed, ranged over, measured) after that.
func (p *Program) constMap(v *types.Var) (*Package, *ast.CompositeLit) {
	if p.cmaps == nil {
		p.cmaps = map[*types.Var]*ast.CompositeLit{}
	}
	var home *Package
	for _, k := range p.Pkgs {
		if k.Types == v.Pkg() {
			home = k
		}
	}
	if home == nil {
		return nil, nil
	}
	if l, ok := p.cmaps[v]; ok {
		return home, l
	}
	p.cmaps[v] = nil
	var lit *ast.CompositeLit
	okUse := map[*ast.Ident]bool{}
	var uses []*ast.Ident
	for _, k := range p.Pkgs {
		for _, f := range k.Files {
			var bad []ast.Expr
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ValueSpec:
					for i, id := range x.Names {
						if k.Info.Defs[id] == types.Object(v) && len(x.Values) == len(x.Names) {
							lit, _ = x.Values[i].(*ast.CompositeLit)
						}
					}
				case *ast.IndexExpr:
					if id, ok := x.X.(*ast.Ident); ok {
						okUse[id] = true
					}
				case *ast.RangeStmt:
					if id, ok := x.X.(*ast.Ident); ok {
						okUse[id] = true
					}
				case *ast.AssignStmt:
					bad = append(bad, x.Lhs...)
				case *ast.IncDecStmt:
					bad = append(bad, x.X)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						bad = append(bad, x.X)
					}
				case *ast.Ident:
					if k.Info.Uses[x] == types.Object(v) {
						uses = append(uses, x)
					}
				}
				return true
			})
			for _, e := range bad {
				if ix, ok := e.(*ast.IndexExpr); ok {
					e = ix.X
				}
				if id, ok := e.(*ast.Ident); ok {
					okUse[id] = false
				}
			}
		}
	}
	for _, id := range uses {
		if !okUse[id] {
			return home, nil
		}
	}
	p.cmaps[v] = lit
	return home, lit
}
