package main

// Loading: /repo's packages are parsed and type-checked from their current
// source; everything else comes from the compiler's export data, except the
// few standard library functions that are themselves under contract.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

type Pkg struct {
	path  string
	name  string
	files []*ast.File
	types *types.Package
	info  *types.Info
	std   bool
}

type listPkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Imports    []string
	ImportMap  map[string]string
	Error      *struct{ Err string }
}

type Loader struct {
	fset   *token.FileSet
	list   map[string]*listPkg
	pkgs   map[string]*Pkg
	gc     types.Importer
	root   string
	module string
	funcs  map[string]*FuncDecl // key -> decl
	models map[string]*FuncDecl
}

type FuncDecl struct {
	key  string
	pkg  *Pkg
	decl *ast.FuncDecl
	obj  *types.Func
}

func NewLoader(root string) (*Loader, error) {
	l := &Loader{fset: token.NewFileSet(), list: map[string]*listPkg{}, pkgs: map[string]*Pkg{}, root: root, funcs: map[string]*FuncDecl{}, models: map[string]*FuncDecl{}}
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,Imports,ImportMap,Error", "./...")
	cmd.Dir = root
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	dec := json.NewDecoder(&out)
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		q := p
		l.list[p.ImportPath] = &q
	}
	mod, _ := os.ReadFile(filepath.Join(root, "go.mod"))
	for _, ln := range strings.Split(string(mod), "\n") {
		if strings.HasPrefix(ln, "module ") {
			l.module = strings.TrimSpace(strings.TrimPrefix(ln, "module "))
		}
	}
	l.gc = importer.ForCompiler(l.fset, "gc", func(path string) (io.ReadCloser, error) {
		p := l.list[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	return l, nil
}

// loadModels reads the executable models of library functions: functions named
// pkg_Func in the .go files of the specification directories.
func (l *Loader) loadModels(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	p := &Pkg{path: "models", name: "models", std: true}
	for _, f := range fs {
		af, err := parser.ParseFile(l.fset, f, nil, 0)
		if err != nil {
			return err
		}
		p.files = append(p.files, af)
	}
	if len(fs) == 0 {
		return nil
	}
	p.info = newInfo()
	conf := types.Config{Importer: l, Sizes: types.SizesFor("gc", "amd64")}
	tp, err := conf.Check("models", l.fset, p.files, p.info)
	if err != nil {
		return err
	}
	p.types = tp
	for _, f := range p.files {
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				key := strings.Replace(fd.Name.Name, "_", ".", 1)
				l.models[key] = &FuncDecl{key: key, pkg: p, decl: fd, obj: p.info.Defs[fd.Name].(*types.Func)}
			}
		}
	}
	return nil
}

func (l *Loader) model(key string) *FuncDecl { return l.models[key] }

func newInfo() *types.Info {
	return &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Defs:       map[*ast.Ident]types.Object{},
		Uses:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
		Scopes:     map[ast.Node]*types.Scope{},
	}
}

func (l *Loader) isRepo(path string) bool {
	return path == l.module || strings.HasPrefix(path, l.module+"/")
}

// Import makes the loader a types.Importer: repo packages from source.
func (l *Loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if l.isRepo(path) {
		p, err := l.Load(path)
		if err != nil {
			return nil, err
		}
		return p.types, nil
	}
	return l.gc.Import(path)
}

func (l *Loader) Load(path string) (*Pkg, error) {
	if p, ok := l.pkgs[path]; ok {
		return p, nil
	}
	lp := l.list[path]
	if lp == nil {
		return nil, fmt.Errorf("package %s not found", path)
	}
	p := &Pkg{path: path, name: lp.Name, std: !l.isRepo(path)}
	for _, f := range lp.GoFiles {
		af, err := parser.ParseFile(l.fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		p.files = append(p.files, af)
	}
	p.info = newInfo()
	var terr error
	conf := types.Config{
		Importer: l,
		Sizes:    types.SizesFor("gc", "amd64"),
		Error: func(err error) {
			if terr == nil {
				terr = err
			}
		},
	}
	tp, _ := conf.Check(path, l.fset, p.files, p.info)
	if terr != nil && !p.std {
		return nil, terr
	}
	p.types = tp
	l.pkgs[path] = p
	for _, f := range p.files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			obj, _ := p.info.Defs[fd.Name].(*types.Func)
			if obj == nil {
				continue
			}
			k := funcKey(obj)
			l.funcs[k] = &FuncDecl{key: k, pkg: p, decl: fd, obj: obj}
		}
	}
	return p, nil
}

// funcKey names a function: pkgname.Func or pkgname.Type.Method. The two main
// packages are told apart by their directory.
func pkgLabel(p *types.Package) string {
	if p == nil {
		return ""
	}
	if p.Name() == "main" {
		return filepath.Base(p.Path())
	}
	return p.Name()
}

func funcKey(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pre := pkgLabel(f.Pkg())
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok {
			if n.Obj().Pkg() == nil {
				return n.Obj().Name() + "." + f.Name()
			}
			return pkgLabel(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + f.Name()
		}
		return pre + ".?." + f.Name()
	}
	return pre + "." + f.Name()
}

func (l *Loader) pos(p token.Pos) string {
	ps := l.fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(l.root, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// namedType finds a type of a loaded repository package by its label, "pkg.Type".
func (l *Loader) namedType(label string) types.Type {
	for _, p := range l.pkgs {
		if p.types == nil || p.std {
			continue
		}
		n := strings.TrimPrefix(label, pkgLabel(p.types)+".")
		if n == label {
			continue
		}
		if o := p.types.Scope().Lookup(n); o != nil {
			return o.Type()
		}
	}
	for path, p := range l.list {
		n := strings.TrimPrefix(label, p.Name+".")
		if !p.Standard || n == label {
			continue
		}
		if tp, err := l.gc.Import(path); err == nil {
			if o, ok := tp.Scope().Lookup(n).(*types.TypeName); ok {
				return o.Type()
			}
		}
	}
	return nil
}
