package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mariotoffia/goannoy"

// Combo is one instantiation of the library's type parameters.
type Combo struct{ TV, TIX string }

func (c Combo) String() string { return c.TV + "/" + c.TIX }

var allCombos = []Combo{
	{"float32", "uint32"}, {"float64", "uint64"}, {"float32", "uint64"}, {"float64", "uint32"},
}

// Prog is the loaded, type-checked and SSA-built repository.
type Prog struct {
	repo   string
	fset   *token.FileSet
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package // by import path suffix ("index", "sort", ...)
	funcs  []*ssa.Function         // all functions with bodies that belong to the module (instances included)
	sizes  types.Sizes
	nfiles int
	// fieldFuncs: functions stored into a struct field anywhere in the module (origin type + field index).
	fieldFuncs map[string][]*ssa.Function
}

const driverDir = "zz_verif_driver"

func driverSource() []byte {
	var b strings.Builder
	b.WriteString(driverCode)
	b.WriteString("\nfunc main() {\n\tplain()\n")
	for _, c := range allCombos {
		fmt.Fprintf(&b, "\tuse[%s, %s]()\n", c.TV, c.TIX)
	}
	b.WriteString("}\n")
	return []byte(b.String())
}

func Load(repo string) (*Prog, error) {
	repo, err := filepath.Abs(repo)
	if err != nil {
		return nil, err
	}
	env := os.Environ()
	env = append(env, "GOEXPERIMENT=arenas", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repo,
		Env:  env,
		Overlay: map[string][]byte{
			filepath.Join(repo, driverDir, "main.go"): driverSource(),
		},
	}
	initial, err := packages.Load(cfg, "./...", "./"+driverDir)
	if err != nil {
		return nil, fmt.Errorf("load: %w", err)
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()

	p := &Prog{repo: repo, fset: prog.Fset, prog: prog, pkgs: map[string]*ssa.Package{}, fieldFuncs: map[string][]*ssa.Function{}}
	p.sizes = types.SizesFor("gc", "amd64")
	for _, ip := range initial {
		sp := prog.Package(ip.Types)
		if sp == nil {
			continue
		}
		p.pkgs[strings.TrimPrefix(strings.TrimPrefix(ip.PkgPath, modPath), "/")] = sp
		p.nfiles += len(ip.Syntax)
	}
	for f := range ssautil.AllFunctions(prog) {
		if len(f.Blocks) == 0 || !p.inModule(f) {
			continue
		}
		if isGenericBody(f) {
			continue
		}
		p.funcs = append(p.funcs, f)
	}
	sort.Slice(p.funcs, func(i, j int) bool { return p.funcs[i].String() < p.funcs[j].String() })
	p.collectFieldFuncs()
	return p, nil
}

// isGenericBody reports whether f is an uninstantiated generic body.
func isGenericBody(f *ssa.Function) bool {
	for g := f; g != nil; g = g.Parent() {
		if g.TypeParams().Len() > 0 && len(g.TypeArgs()) == 0 {
			return true
		}
		if r := g.Signature.Recv(); r != nil && len(g.TypeArgs()) == 0 {
			t := r.Type()
			if pt, ok := t.(*types.Pointer); ok {
				t = pt.Elem()
			}
			if n, ok := types.Unalias(t).(*types.Named); ok && n.TypeParams().Len() > 0 {
				if n.TypeArgs().Len() == 0 {
					return true
				}
				for i := 0; i < n.TypeArgs().Len(); i++ {
					if _, ok := types.Unalias(n.TypeArgs().At(i)).(*types.TypeParam); ok {
						return true
					}
				}
			}
		}
	}
	return false
}

func (p *Prog) inModulePkg(g *ssa.Package) bool {
	if g == nil {
		return false
	}
	pp := g.Pkg.Path()
	return pp == modPath || strings.HasPrefix(pp, modPath+"/")
}

func fnPkgPath(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	// synthetic wrappers: use the receiver's package
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (p *Prog) inModule(f *ssa.Function) bool {
	pp := fnPkgPath(f)
	return pp == modPath || strings.HasPrefix(pp, modPath+"/")
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(p.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// instance returns the instance of package-level generic function pkg.name for the given type arguments.
func (p *Prog) instance(pkg, name string, targs ...string) *ssa.Function {
	for _, f := range p.funcs {
		if f.Origin() == nil && f.Pkg == nil {
			continue
		}
		o := f
		if f.Origin() != nil {
			o = f.Origin()
		}
		if o.Name() != name || o.Parent() != nil || o.Signature.Recv() != nil {
			continue
		}
		if o.Pkg == nil || strings.TrimPrefix(o.Pkg.Pkg.Path(), modPath+"/") != pkg {
			continue
		}
		if len(f.TypeArgs()) != len(targs) {
			continue
		}
		ok := true
		for i, t := range f.TypeArgs() {
			if t.String() != targs[i] {
				ok = false
			}
		}
		if ok {
			return f
		}
	}
	return nil
}

// method finds method name on type t (t may be a pointer type).
func (p *Prog) method(t types.Type, name string) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return p.prog.MethodValue(s)
		}
	}
	return nil
}

// resultConcrete returns the concrete type that constructor f returns (looking through MakeInterface).
func resultConcrete(f *ssa.Function) types.Type {
	if f == nil {
		return nil
	}
	rt := f.Signature.Results().At(0).Type()
	if _, ok := rt.Underlying().(*types.Interface); !ok {
		return rt
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if r, ok := i.(*ssa.Return); ok {
				if mi, ok := r.Results[0].(*ssa.MakeInterface); ok {
					return mi.X.Type()
				}
			}
		}
	}
	return nil
}

func (p *Prog) collectFieldFuncs() {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				var fn *ssa.Function
				switch v := st.Val.(type) {
				case *ssa.Function:
					fn = v
				case *ssa.MakeClosure:
					fn, _ = v.Fn.(*ssa.Function)
				case *ssa.ChangeType:
					fn, _ = v.X.(*ssa.Function)
				}
				if fn == nil {
					continue
				}
				k := fieldKey(fa.X.Type(), fa.Field)
				p.fieldFuncs[k] = append(p.fieldFuncs[k], fn)
			}
		}
	}
}

func fieldKey(t types.Type, field int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	return fmt.Sprintf("%s#%d", types.Unalias(t).String(), field)
}

func fieldName(t types.Type, field int) string {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		return st.Field(field).Name()
	}
	return fmt.Sprint(field)
}
