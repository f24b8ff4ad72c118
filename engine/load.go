package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type ssaGlobal = ssa.Global
type ssaPackage = ssa.Package

const modPath = "github.com/nanobus/iota/go"

// Harness is one entry function.
type Harness struct {
	Name  string
	Func  string // Go function
	Prop  string
	Bound string
	Opts  map[string]string
	Pkg   string // harness package directory name
	Fn    *ssa.Function
}

// Program is the loaded program.
type Program struct {
	prog     *ssa.Program
	fset     *token.FileSet
	pkgs     map[string]*ssa.Package
	rtErr    types.Type
	errIface *types.Interface
	errType  types.Type
	anyType  types.Type
	inits    []*ssa.Package // repo packages in dependency order
	mu       sync.Mutex
	ptrs     map[types.Type]types.Type
	isRepo   map[*ssa.Package]bool
}

func (P *Program) isRepoPkg(p *ssa.Package) bool { return P.isRepo[p] }

func (P *Program) isRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		path = fn.Object().Pkg().Path()
	}
	return strings.HasPrefix(path, modPath) && !strings.Contains(path, "/internal/zzverif/")
}

func (P *Program) fn(pkg, name string) *ssa.Function {
	p := P.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (P *Program) typ(pkg, name string) types.Type {
	p := P.pkgs[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func (P *Program) ptrTo(t types.Type) types.Type {
	P.mu.Lock()
	defer P.mu.Unlock()
	if p, ok := P.ptrs[t]; ok {
		return p
	}
	p := types.NewPointer(t)
	P.ptrs[t] = p
	return p
}

// harnessFiles lists the overlay: harness packages and the sv package below /repo/internal/zzverif.
func overlayFor(verif, repo, pkg string, native bool) (map[string]string, error) {
	ov := map[string]string{}
	add := func(src, dst string) error {
		ents, err := os.ReadDir(src)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				ov[filepath.Join(dst, e.Name())] = filepath.Join(src, e.Name())
			}
		}
		return nil
	}
	if err := add(filepath.Join(verif, "harness", "sv"), filepath.Join(repo, "internal/zzverif/sv")); err != nil {
		return nil, err
	}
	if err := add(filepath.Join(verif, "harness", pkg), filepath.Join(repo, "internal/zzverif", pkg)); err != nil {
		return nil, err
	}
	sp := readSpec(verif, pkg)
	for _, f := range sp.files {
		if _, ok := ov[filepath.Join(repo, "internal/zzverif", pkg, filepath.Base(f))]; ok {
			return nil, fmt.Errorf("%s: two files named %s", pkg, filepath.Base(f))
		}
		ov[filepath.Join(repo, "internal/zzverif", pkg, filepath.Base(f))] = filepath.Join(verif, "harness", f)
	}
	return ov, nil
}

// spec is how a harness package is put together.
type spec struct {
	tags  string
	files []string          // of other harness packages
	run   map[string]string // their harnesses run too, under names with this suffix
	seq   bool              // but not the concurrent ones
}

// readSpec reads the file named spec of a harness package:
//
//	tags <build tags>
//	lib <files of other harness packages>
//	run <suffix> <files of other harness packages>
//	seq true
func readSpec(verif, pkg string) spec {
	sp := spec{run: map[string]string{}}
	b, _ := os.ReadFile(filepath.Join(verif, "harness", pkg, "spec"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 2 {
			continue
		}
		switch f[0] {
		case "seq":
			sp.seq = f[1] == "true"
		case "tags":
			sp.tags = f[1]
		case "lib":
			sp.files = append(sp.files, f[1:]...)
		case "run":
			for _, x := range f[2:] {
				sp.files = append(sp.files, x)
				sp.run[x] = f[1]
			}
		}
	}
	return sp
}

// parseHarness reads //sv: directives of a harness package.
func parseHarness(verif, pkg string) ([]*Harness, error) {
	dir := filepath.Join(verif, "harness", pkg)
	fs := token.NewFileSet()
	pk, err := parser.ParseDir(fs, dir, nil, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var hs []*Harness
	sp := readSpec(verif, pkg)
	suffix := map[string]string{}
	var inc []string
	for f := range sp.run {
		inc = append(inc, f)
	}
	sort.Strings(inc)
	if len(inc) > 0 {
		files := map[string]*ast.File{}
		for _, f := range inc {
			n := filepath.Join(verif, "harness", f)
			a, err := parser.ParseFile(fs, n, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			files[n] = a
			suffix[n] = sp.run[f]
		}
		pk["+"] = &ast.Package{Name: "+", Files: files}
	}
	for _, p := range pk {
		names := make([]string, 0)
		for n := range p.Files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			for _, d := range p.Files[n].Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				var h *Harness
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//sv:harness ") {
						h = &Harness{Name: fd.Name.Name + suffix[n], Func: fd.Name.Name, Pkg: pkg, Opts: map[string]string{}}
						for _, f := range strings.Fields(c.Text[len("//sv:harness "):]) {
							k, v, _ := strings.Cut(f, "=")
							if k == "prop" {
								h.Prop = v
							} else {
								h.Opts[k] = v
							}
						}
					}
					if strings.HasPrefix(c.Text, "//sv:bound ") && h != nil {
						h.Bound += c.Text[len("//sv:bound "):] + "; "
					}
				}
				if h == nil {
					continue
				}
				if suffix[n] != "" && sp.seq && h.Opts["sched"] == "1" {
					if h.Opts["preempt"] != "0" {
						continue
					}
					h.Opts["dpreempt"] = "0"
				}
				hs = append(hs, h)
			}
		}
	}
	return hs, nil
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

func repoEnv() []string {
	return append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
}

// Load loads harness package pkg over the current tree of repo.
func Load(verif, repo, pkg string, extra map[string][]byte) (*Program, error) {
	ovf, err := overlayFor(verif, repo, pkg, false)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for k, v := range ovf {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ov[k] = b
	}
	for k, v := range extra {
		ov[k] = v
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: ov,
		Env:     repoEnv(),
		Fset:    token.NewFileSet(),
	}
	if t := readSpec(verif, pkg).tags; t != "" {
		cfg.BuildFlags = []string{"-tags", t}
	}
	ps, err := packages.Load(cfg, "./internal/zzverif/"+pkg)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 10 && (strings.HasPrefix(p.PkgPath, modPath)) {
				fmt.Fprintln(os.Stderr, "load:", e)
			}
			if strings.HasPrefix(p.PkgPath, modPath) {
				nerr++
			}
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d load errors", nerr)
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, ptrs: map[types.Type]types.Type{}, isRepo: map[*ssa.Package]bool{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
		if strings.HasPrefix(p.Pkg.Path(), modPath) {
			P.isRepo[p] = true
		}
	}
	if t := P.typ("runtime", "errorString"); t != nil {
		P.rtErr = t
	}
	P.errType = types.Universe.Lookup("error").Type()
	P.errIface = P.errType.Underlying().(*types.Interface)
	P.anyType = types.Universe.Lookup("any").Type()
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		if strings.HasPrefix(p.PkgPath, modPath) {
			if sp := P.pkgs[p.PkgPath]; sp != nil {
				P.inits = append(P.inits, sp)
			}
		}
	}
	for _, p := range ps {
		visit(p)
	}
	return P, nil
}

// initRepo runs the initialisers of the repository's packages, each without its imports' ones.
func (in *Interp) initRepo(h *Harness) {
	for _, p := range in.P.inits {
		if f := p.Func("init"); f != nil && f.Blocks != nil {
			in.runInit(f)
		}
	}
}
