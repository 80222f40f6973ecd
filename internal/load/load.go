// Package load type-checks /repo for one build configuration and builds its
// SSA form.
package load

import (
	"fmt"
	"go/ast"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Config is a build configuration.
type Config struct {
	Name string
	GOOS string
	Arch string
	Cgo  bool
	Tags string
	// Overlay replaces or adds files (used for the configurations whose C
	// parts cannot be compiled here).
	Overlay map[string][]byte
}

// Program is the resolved program of one configuration.
type Program struct {
	Config Config
	Prog   *ssa.Program
	Pkg    *ssa.Package
	P      *packages.Package
	Errors []string
	Files  []string
	All    []*packages.Package
}

// Load resolves the package in dir for cfg.
func Load(dir string, cfg Config) (*Program, error) {
	arch := cfg.Arch
	if arch == "" {
		arch = "amd64"
	}
	cgo := "0"
	if cfg.Cgo {
		cgo = "1"
	}
	env := append(os.Environ(), "GOOS="+cfg.GOOS, "GOARCH="+arch, "CGO_ENABLED="+cgo, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOWORK=off")
	pc := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env, Overlay: cfg.Overlay}
	if cfg.Tags != "" {
		pc.BuildFlags = []string{"-tags=" + cfg.Tags}
	}
	ps, err := packages.Load(pc, ".")
	if err != nil {
		return nil, err
	}
	if len(ps) != 1 {
		return nil, fmt.Errorf("%d packages in %s", len(ps), dir)
	}
	p := &Program{Config: cfg, P: ps[0], All: ps}
	for _, e := range ps[0].Errors {
		p.Errors = append(p.Errors, e.Error())
	}
	for _, f := range ps[0].GoFiles {
		p.Files = append(p.Files, f[strings.LastIndexByte(f, '/')+1:])
	}
	sort.Strings(p.Files)
	if len(p.Errors) > 0 || ps[0].Types == nil || ps[0].IllTyped {
		return p, fmt.Errorf("%s: package does not type-check: %s", cfg.Name, strings.Join(p.Errors, "; "))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	if pkgs[0] == nil {
		return p, fmt.Errorf("%s: no SSA form", cfg.Name)
	}
	prog.Build()
	p.Prog, p.Pkg = prog, pkgs[0]
	return p, nil
}

// Funcs lists every function of the package with a body, closures and methods
// included, in source order.
func (p *Program) Funcs() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if len(f.Blocks) > 0 && f.Synthetic == "" {
			out = append(out, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for f := range ssautil.AllFunctions(p.Prog) {
		if f.Pkg == p.Pkg && (f.Synthetic == "" || f.Name() == "init") {
			add(f)
			if f.Name() == "init" && f.Synthetic != "" {
				for _, a := range f.AnonFuncs {
					add(a)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// Syntax gives the parsed files.
func (p *Program) Syntax() []*ast.File { return p.P.Syntax }
