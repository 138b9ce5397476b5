package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/dragmz/teal"

type Prog struct {
	Dir   string
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package // path -> package
	Teal  *ssa.Package
	Fset  *token.FileSet
	repo  map[*types.Package]bool
	lib   map[*types.Package]bool // library packages that are interpreted
	funcs []*ssa.Function
}

func Load(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedExportFile,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	ps, err := packages.Load(cfg, "./...", "slices", "maps", "sort")
	if err != nil {
		return nil, err
	}
	p := &Prog{Dir: dir, Pkgs: ps, SSA: map[string]*ssa.Package{}, repo: map[*types.Package]bool{}, lib: map[*types.Package]bool{}}
	for _, q := range ps {
		for _, e := range q.Errors {
			return nil, fmt.Errorf("%s: %v", q.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.Prog = prog
	p.Fset = prog.Fset
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		p.SSA[ps[i].PkgPath] = sp
		if strings.HasPrefix(ps[i].PkgPath, repoPath) {
			p.repo[sp.Pkg] = true
		} else {
			p.lib[sp.Pkg] = true
		}
	}
	p.Teal = p.SSA[repoPath]
	if p.Teal == nil {
		return nil, fmt.Errorf("package %s not found", repoPath)
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if p.isRepoFn(f) && f.Blocks != nil {
			p.funcs = append(p.funcs, f)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		if p.funcs[i].String() != p.funcs[j].String() {
			return p.funcs[i].String() < p.funcs[j].String()
		}
		return p.funcs[i].Pos() < p.funcs[j].Pos()
	})
	return p, nil
}

func (p *Prog) isRepoFn(f *ssa.Function) bool { return p.fnOf(f, p.repo) }

func (p *Prog) isLibFn(f *ssa.Function) bool { return f.Name() != "init" && p.fnOf(f, p.lib) }

func (p *Prog) fnOf(f *ssa.Function, in map[*types.Package]bool) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return in[f.Pkg.Pkg]
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return in[o.Pkg()]
	}
	// wrappers / bound methods
	if f.Signature.Recv() != nil {
		t := f.Signature.Recv().Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return in[n.Obj().Pkg()]
		}
	}
	return false
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	r, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// Type finds a named type of a repo package ("" = root package).
func (p *Prog) Type(sub, name string) *types.Named {
	pk := p.pkg(sub)
	if pk == nil {
		return nil
	}
	o, ok := pk.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (p *Prog) pkg(sub string) *ssa.Package {
	if sub == "" {
		return p.Teal
	}
	return p.SSA[repoPath+"/"+sub]
}

func (p *Prog) Func(sub, name string) *ssa.Function {
	pk := p.pkg(sub)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

// Method finds a method on T or *T.
func (p *Prog) Method(t types.Type, name string) *ssa.Function {
	for _, r := range []types.Type{types.NewPointer(t), t} {
		ms := p.Prog.MethodSets.MethodSet(r)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				fn := p.Prog.MethodValue(ms.At(i))
				// prefer the declared function over a wrapper
				if d := p.Prog.FuncValue(ms.At(i).Obj().(*types.Func)); d != nil {
					return d
				}
				return fn
			}
		}
	}
	return nil
}

func shortFn(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, repoPath+"/", "")
	s = strings.ReplaceAll(s, repoPath+".", "")
	return s
}
