package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the analysed source: the root package of the module and its syntax and SSA form.
type Program struct {
	Dir    string
	Pkgs   []*packages.Package
	Root   *packages.Package
	Prog   *ssa.Program
	Pkg    *ssa.Package
	Module string
	// all functions of the root package, including anonymous, synthetic and instantiated ones
	Funcs []*ssa.Function

	unset   map[*ssa.Global]bool
	fnInfos map[*ssa.Function]*fnInfo
}

// neverSet lists the package-level variables that are only read: they keep their zero values.
func (p *Program) neverSet() map[*ssa.Global]bool {
	if p.unset != nil {
		return p.unset
	}
	p.unset = map[*ssa.Global]bool{}
	for n, m := range p.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok && n != "init$guard" {
			p.unset[g] = true
		}
	}
	fns := append([]*ssa.Function{p.Pkg.Func("init")}, p.Funcs...)
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					continue
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok {
						delete(p.unset, g)
					}
				}
			}
		}
	}
	return p.unset
}

// The overlay instantiates the generic converter for both dialects, so that its methods exist in SSA form.
const overlaySrc = `package %s

func verifInstantiate() {
	a, _ := NewJSONSchemaConverter[*JSONSchemaRAML](WithWrapper(JSONSchemaWrapper))
	_, _ = a.Convert(nil)
	b, _ := NewJSONSchemaConverter[*JSONSchema]()
	_, _ = b.Convert(nil)
	var c ShapeVisitor[*JSONSchemaRAML] = a
	_ = c
	var d ShapeVisitor[*JSONSchema] = b
	_ = d
	var e jsonSchemaWrapper[*JSONSchemaRAML] = (*JSONSchemaRAML)(nil)
	_ = e
	var f jsonSchemaWrapper[*JSONSchema] = (*JSONSchema)(nil)
	_ = f
}
`

func Load(dir string) (*Program, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOWORK=off", "GOFLAGS=-mod=readonly", "GOPROXY=off")
	overlay := map[string][]byte{
		filepath.Join(dir, "zz_verif_overlay.go"): []byte(fmt.Sprintf(overlaySrc, "raml")),
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes |
			packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Overlay: overlay,
		Tests:   false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, ssaPkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{Dir: dir, Pkgs: pkgs, Prog: prog, fnInfos: map[*ssa.Function]*fnInfo{}}
	for i, pk := range pkgs {
		if ssaPkgs[i] == nil {
			continue
		}
		ssaPkgs[i].Build()
		if pk.Module != nil && pk.PkgPath == pk.Module.Path {
			p.Root = pk
			p.Pkg = ssaPkgs[i]
			p.Module = pk.Module.Path
		}
	}
	if p.Pkg == nil {
		return nil, fmt.Errorf("load: root package not found")
	}
	p.collectFuncs()
	return p, nil
}

// InModule tells whether the function belongs to the analysed root package (not the generated parser).
func (p *Program) InModule(fn *ssa.Function) bool {
	return p.pkgOf(fn) == p.Root.PkgPath
}

func (p *Program) pkgOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func (p *Program) collectFuncs() {
	seen := map[*ssa.Function]bool{}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || !p.InModule(fn) || fn.Name() == "verifInstantiate" {
			return
		}
		if fn.TypeParams().Len() > 0 && len(fn.TypeArgs()) == 0 {
			return // generic body: analysed through its instances
		}
		if o := fn.Object(); o != nil && strings.HasSuffix(p.Prog.Fset.Position(o.Pos()).Filename, "zz_verif_overlay.go") {
			return
		}
		seen[fn] = true
		if len(fn.Blocks) > 0 {
			p.Funcs = append(p.Funcs, fn)
		}
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	all := ssautil.AllFunctions(p.Prog)
	for fn := range all {
		if fn.Synthetic != "" && fn.Synthetic != "package initializer" && fn.Origin() == nil {
			continue
		}
		add(fn)
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
}

// Method finds the method of a (possibly instantiated) named type of the root package.
func (p *Program) Method(typ types.Type, name string) *ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(typ)
	sel := ms.Lookup(p.Root.Types, name)
	if sel == nil {
		sel = ms.Lookup(nil, name)
	}
	if sel == nil {
		return nil
	}
	return p.Prog.MethodValue(sel)
}

func (p *Program) Func(name string) *ssa.Function { return p.Pkg.Func(name) }

func (p *Program) Named(name string) *types.Named {
	o := p.Root.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// PtrTo returns the type *name.
func (p *Program) PtrTo(name string) types.Type {
	n := p.Named(name)
	if n == nil {
		return nil
	}
	return types.NewPointer(n)
}

// MethodOf finds a method by type and method name; the receiver may be a pointer.
func (p *Program) MethodOf(typeName, method string) *ssa.Function {
	t := p.PtrTo(typeName)
	if t == nil {
		return nil
	}
	return p.Method(t, method)
}

func (p *Program) Pos(fn *ssa.Function) string {
	ps := p.Prog.Fset.Position(fn.Pos())
	return filepath.Base(ps.Filename)
}

// FuncName is a stable human-readable name.
func FuncName(fn *ssa.Function) string {
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/acronis/go-raml/v2.", "")
	return s
}
