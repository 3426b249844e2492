package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Program is the repository under verification, loaded from source on every run.
type Program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by import path
	tpkgs map[string]*types.Package
	std   map[string]*types.Package
	mod   string
	root  string
	files map[string][]*ast.File
}

func modulePath(root string) string {
	b, err := os.ReadFile(filepath.Join(root, "go.mod"))
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "module ") {
			return strings.TrimSpace(strings.TrimPrefix(l, "module "))
		}
	}
	return ""
}

type imp struct {
	p       *Program
	infos   map[string]*types.Info
	loading map[string]bool
	extra   map[string][]string // import path -> additional source files (ghost clients)
	goVer   string
}

func (im *imp) Import(path string) (*types.Package, error) { return im.ImportFrom(path, "", 0) }

func (im *imp) ImportFrom(path, dir string, mode types.ImportMode) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if t, ok := im.p.tpkgs[path]; ok {
		return t, nil
	}
	if t, ok := im.p.std[path]; ok {
		return t, nil
	}
	if path == im.p.mod || strings.HasPrefix(path, im.p.mod+"/") {
		return im.loadModule(path)
	}
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.Import(path, dir, 0)
	if err != nil {
		// vendored std dependency
		bp, err = ctx.Import("vendor/"+path, dir, 0)
		if err != nil {
			return nil, err
		}
	}
	var files []*ast.File
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(im.p.fset, filepath.Join(bp.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	cfg := types.Config{Importer: im, IgnoreFuncBodies: true, FakeImportC: true, Error: func(error) {}, Sizes: types.SizesFor("gc", "amd64")}
	tp, _ := cfg.Check(path, im.p.fset, files, nil)
	if tp == nil {
		return nil, fmt.Errorf("cannot load %s", path)
	}
	tp.MarkComplete()
	im.p.std[path] = tp
	return tp, nil
}

func (im *imp) loadModule(path string) (*types.Package, error) {
	if im.loading[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	im.loading[path] = true
	dir := filepath.Join(im.p.root, strings.TrimPrefix(strings.TrimPrefix(path, im.p.mod), "/"))
	ctx := build.Default
	ctx.CgoEnabled = false
	bp, err := ctx.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	names := append([]string{}, bp.GoFiles...)
	sort.Strings(names)
	for _, f := range names {
		af, err := parser.ParseFile(im.p.fset, filepath.Join(dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	for _, f := range im.extra[path] {
		af, err := parser.ParseFile(im.p.fset, f, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	cfg := types.Config{Importer: im, FakeImportC: true, Sizes: types.SizesFor("gc", "amd64"), GoVersion: im.goVer}
	tp, err := cfg.Check(path, im.p.fset, files, info)
	if err != nil {
		return nil, err
	}
	im.p.tpkgs[path] = tp
	if c, ok := tp.Scope().Lookup("InvalidReaderMarker").(*types.Const); ok && c.Val().Kind() == constant.String {
		markerText = constant.StringVal(c.Val())
	}
	im.infos[path] = info
	im.p.files[path] = files
	return tp, nil
}

// Load type-checks the module at root and builds SSA for the given packages.
func Load(root string, rel []string, extra map[string][]string) (*Program, error) {
	p := &Program{fset: token.NewFileSet(), pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{},
		std: map[string]*types.Package{}, mod: modulePath(root), root: root, files: map[string][]*ast.File{}}
	if p.mod == "" {
		return nil, fmt.Errorf("no module in %s", root)
	}
	goVer := "go1.16"
	if b, err := os.ReadFile(filepath.Join(root, "go.mod")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "go ") {
				goVer = "go" + strings.TrimSpace(strings.TrimPrefix(l, "go "))
			}
		}
	}
	im := &imp{p: p, infos: map[string]*types.Info{}, loading: map[string]bool{}, extra: map[string][]string{}, goVer: goVer}
	for r, fs := range extra {
		im.extra[strings.TrimSuffix(p.mod+"/"+r, "/")] = fs
	}
	for _, r := range rel {
		path := strings.TrimSuffix(p.mod+"/"+r, "/")
		if _, err := im.Import(path); err != nil {
			return nil, err
		}
	}
	p.prog = ssa.NewProgram(p.fset, ssa.InstantiateGenerics)
	created := map[*types.Package]bool{}
	var createAll func(ps []*types.Package)
	createAll = func(ps []*types.Package) {
		for _, q := range ps {
			if created[q] {
				continue
			}
			created[q] = true
			createAll(q.Imports())
			if info, ok := im.infos[q.Path()]; ok {
				p.pkgs[q.Path()] = p.prog.CreatePackage(q, p.files[q.Path()], info, true)
			} else {
				p.prog.CreatePackage(q, nil, nil, true)
			}
		}
	}
	for _, tp := range p.tpkgs {
		createAll([]*types.Package{tp})
	}
	for _, sp := range p.pkgs {
		sp.Build()
	}
	return p, nil
}

// isModule reports whether fn has source in the module under verification.
func (p *Program) isModule(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		_, ok := p.pkgs[fn.Pkg.Pkg.Path()]
		return ok
	}
	// wrappers / bound methods / thunks
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		_, ok := p.pkgs[o.Pkg().Path()]
		return ok
	}
	return len(fn.Blocks) > 0
}

// shortName is the contract key of a function: "If", "(*Scanner).If", "grammar.JSON".
func (p *Program) shortName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, p.mod+"/", "")
	s = strings.ReplaceAll(s, p.mod+".", "")
	return s
}

// lookup finds a function by contract key.
func (p *Program) lookup(name string) *ssa.Function {
	return p.allFns()[name]
}

var fnCache map[string]*ssa.Function

func (p *Program) allFns() map[string]*ssa.Function {
	if fnCache != nil {
		return fnCache
	}
	fnCache = map[string]*ssa.Function{}
	for _, pk := range p.pkgs {
		for _, m := range pk.Members {
			switch m := m.(type) {
			case *ssa.Function:
				fnCache[p.shortName(m)] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						s := ms.At(i)
						if len(s.Index()) > 1 {
							continue // promoted
						}
						f := p.prog.MethodValue(s)
						if f != nil && f.Synthetic == "" {
							fnCache[p.shortName(f)] = f
						}
					}
				}
			}
		}
	}
	return fnCache
}

func (p *Program) isModulePkg(k *types.Package) bool {
	if k == nil {
		return false
	}
	_, ok := p.pkgs[k.Path()]
	return ok
}
