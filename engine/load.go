package main

// Loading: the current working tree of /repo plus the overlaid harness
// packages, type-checked and lowered to go/ssa.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	ssa            *ssa.Program
	fset           *token.FileSet
	sizes          types.Sizes
	modPath        string
	repoPkgs       []*ssa.Package
	harness        *ssa.Package
	runtimeErr     types.Type
	errorStringPtr types.Type
	wrapErrorPtr   types.Type
	errorIface     *types.Interface
	stringerIface  *types.Interface

	mu       sync.Mutex
	initFail map[string]string
	methMemo sync.Map
	overlay  map[string]string // repo path -> verif path
}

// goEnv is the environment for every go command.
func goEnv() []string {
	env := os.Environ()
	set := func(k, v string) { env = append(env, k+"="+v) }
	set("GOTOOLCHAIN", "local")
	set("GOPROXY", "off")
	set("GOFLAGS", "-mod=mod")
	set("GOSUMDB", "off")
	set("GOWORK", "off")
	return env
}

// overlayFiles maps files of /verif/harness into the module.
func overlayFiles(repo, verif string) (map[string]string, error) {
	ov := map[string]string{}
	base := filepath.Join(verif, "harness")
	err := filepath.Walk(base, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(base, p)
		ov[filepath.Join(repo, rel)] = p
		return nil
	})
	return ov, err
}

func Load(repo, verif, pkgDir string) (*Program, error) {
	ov, err := overlayFiles(repo, verif)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for dst, src := range ov {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		overlay[dst] = b
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax | packages.NeedModule,
		Dir:     repo,
		Env:     goEnv(),
		Fset:    fset,
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "./"+pkgDir)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, ps := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{ssa: prog, fset: fset, sizes: types.SizesFor("gc", "amd64"), initFail: map[string]string{}, overlay: ov}
	p.harness = ps[0]
	if pkgs[0].Module != nil {
		p.modPath = pkgs[0].Module.Path
	}
	for _, sp := range prog.AllPackages() {
		path := sp.Pkg.Path()
		if p.isRepoPath(path) {
			p.repoPkgs = append(p.repoPkgs, sp)
		}
		switch path {
		case "runtime":
			if t := sp.Type("errorString"); t != nil {
				p.runtimeErr = t.Type()
			}
		case "errors":
			if t := sp.Type("errorString"); t != nil {
				p.errorStringPtr = types.NewPointer(t.Type())
			}
		case "fmt":
			if t := sp.Type("wrapError"); t != nil {
				p.wrapErrorPtr = types.NewPointer(t.Type())
			}
			if t := sp.Type("Stringer"); t != nil {
				p.stringerIface = t.Type().Underlying().(*types.Interface)
			}
		}
	}
	sort.Slice(p.repoPkgs, func(i, j int) bool { return p.repoPkgs[i].Pkg.Path() < p.repoPkgs[j].Pkg.Path() })
	p.errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	if p.runtimeErr == nil || p.errorStringPtr == nil || p.wrapErrorPtr == nil || p.stringerIface == nil {
		return nil, fmt.Errorf("loading: runtime, errors or fmt not found")
	}
	return p, nil
}

func (p *Program) isRepoPath(path string) bool {
	return (path == p.modPath || strings.HasPrefix(path, p.modPath+"/")) && !strings.Contains(path, "/zz")
}

func pkgPathOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
	}
	return ""
}

func (p *Program) isRepoFn(fn *ssa.Function) bool { return p.isRepoPath(pkgPathOf(fn)) }

func (p *Program) isHarnessFn(fn *ssa.Function) bool {
	return strings.Contains(pkgPathOf(fn), "/zz")
}

// oracle helpers are ordinary pure functions
func (p *Program) isOracleFn(fn *ssa.Function) bool {
	return p.isHarnessFn(fn) && !strings.HasSuffix(pkgPathOf(fn), symPkg)
}

func (p *Program) noteInitFail(pkg, msg string) {
	p.mu.Lock()
	p.initFail[pkg] = msg
	p.mu.Unlock()
}

// initIgnore: variables whose zero value is right although their package
// initialisation is not modelled.
func (p *Program) initIgnore(g *ssa.Global) bool { return false }

func (p *Program) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	return p.ssa.LookupMethod(t, meth.Pkg(), meth.Name())
}

func (p *Program) lookupMethodName(t types.Type, name string) *ssa.Function {
	ms := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.ssa.MethodValue(ms.At(i))
		}
	}
	return nil
}

// harnesses lists the entry points of the harness package.
func (p *Program) harnesses() []*ssa.Function {
	var out []*ssa.Function
	for name, mem := range p.harness.Members {
		if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(name, "H_") {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}
