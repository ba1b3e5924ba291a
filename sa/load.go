package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loaded is the type-checked program in SSA form.
type Loaded struct {
	dir    string
	fset   *token.FileSet
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package // import path relative to the module
	all    []*packages.Package
	nfuncs int
}

func load(dir string) (*Loaded, error) {
	env := append([]string{}, os.Environ()...)
	set := func(k, v string) { env = append(env, k+"="+v) }
	set("GOFLAGS", "-mod=readonly")
	set("GOPROXY", "off")
	set("GOSUMDB", "off")
	set("GOTOOLCHAIN", "local")
	set("GOWORK", "off")
	if os.Getenv("HOME") == "" {
		set("HOME", "/root")
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env, Tests: false,
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(ps) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	l := &Loaded{dir: dir, fset: prog.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, all: ps}
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		p.Build()
		rel := strings.TrimPrefix(strings.TrimPrefix(p.Pkg.Path(), modPath), "/")
		l.pkgs[rel] = p
	}
	return l, nil
}

func (l *Loaded) posOf(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	q := l.fset.Position(p)
	f, err := filepath.Rel(l.dir, q.Filename)
	if err != nil || strings.HasPrefix(f, "..") {
		f = filepath.Base(q.Filename)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// fn finds a package-level function.
func (l *Loaded) fn(pkg, name string) *ssa.Function {
	p := l.pkgs[pkg]
	if p == nil {
		panic(undecided("package " + pkg + " not found"))
	}
	f := p.Func(name)
	if f == nil {
		panic(undecided("function " + pkg + "." + name + " not found"))
	}
	return f
}

func (l *Loaded) typ(pkg, name string) types.Type {
	p := l.pkgs[pkg]
	if p == nil {
		panic(undecided("package " + pkg + " not found"))
	}
	t := p.Type(name)
	if t == nil {
		panic(undecided("type " + pkg + "." + name + " not found"))
	}
	return t.Type()
}

// method finds the method name on t or *t.
func (l *Loaded) method(t types.Type, name string) *ssa.Function {
	for _, u := range []types.Type{t, types.NewPointer(t)} {
		ms := l.prog.MethodSets.MethodSet(u)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				if f := l.prog.MethodValue(s); f != nil {
					// prefer the declared function over the promoted wrapper
					if d, ok := s.Obj().(*types.Func); ok {
						if df := l.prog.FuncValue(d); df != nil {
							return df
						}
					}
					return f
				}
			}
		}
	}
	panic(undecided("method " + t.String() + "." + name + " not found"))
}

// sourceFuncs lists every function with a body in the module, closures included.
func (l *Loaded) sourceFuncs() []*ssa.Function {
	var out []*ssa.Function
	var addF func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	addF = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			addF(a)
		}
	}
	for _, p := range l.pkgs {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				addF(m)
			case *ssa.Type:
				if types.IsInterface(m.Type()) {
					continue
				}
				for _, u := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := l.prog.MethodSets.MethodSet(u)
					for i := 0; i < ms.Len(); i++ {
						if d, ok := ms.At(i).Obj().(*types.Func); ok {
							addF(l.prog.FuncValue(d))
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
