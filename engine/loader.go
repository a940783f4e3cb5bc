package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/aboukirev/ouro"

var (
	repoDir  = "/repo"
	verifDir = rootDir()
)

// pkgDir returns the directory of a package below the repository.
func pkgDir(pkg string) string {
	if pkg == "ouro" {
		return "cmd/ouro"
	}
	return "net/" + pkg
}

// overlayFiles maps virtual paths below /repo to files below /verif/harness.
func overlayFiles() (map[string]string, error) {
	ov := map[string]string{}
	hd := filepath.Join(verifDir, "harness")
	dirs, err := os.ReadDir(hd)
	if err != nil {
		return nil, err
	}
	for _, d := range dirs {
		if !d.IsDir() {
			continue
		}
		fs, _ := filepath.Glob(filepath.Join(hd, d.Name(), "*.go"))
		for _, f := range fs {
			base := filepath.Base(f)
			dst := d.Name()
			name := "zz_verif_" + base
			if strings.HasPrefix(d.Name(), "verif") {
				name = base
			}
			ov[filepath.Join(repoDir, pkgDir(dst), name)] = f
		}
	}
	return ov, nil
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	if st, err := os.Stat(filepath.Join(verifDir, "bin", "gocache")); err == nil && st.IsDir() {
		env = append(env, "GOCACHE="+filepath.Join(verifDir, "bin", "gocache"))
	}
	return append(env, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
}

// harnessFuncs lists the exported VerifXxx functions per package directory.
type loadInfo struct {
	sh      *Shared
	entries map[string]map[string]*ssa.Function // pkg -> fn
}

func load(pkgs []string) (*loadInfo, error) {
	ov, err := overlayFiles()
	if err != nil {
		return nil, err
	}
	content := map[string][]byte{}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		content[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: content, Env: goEnv()}
	pats := []string{}
	for _, p := range pkgs {
		pats = append(pats, "./"+pkgDir(p))
	}
	pats = append(pats, "./net/verifnd", "./net/verifmodel")
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	sh := &Shared{prog: prog, pkgs: map[string]*ssa.Package{}, repoPkgs: map[string]bool{}, models: map[string]*ssa.Function{}, ndPkg: modPath + "/net/verifnd", modelPkg: modPath + "/net/verifmodel"}
	for _, p := range prog.AllPackages() {
		path := p.Pkg.Path()
		sh.pkgs[path] = p
		if strings.HasPrefix(path, modPath) && path != sh.ndPkg && path != sh.modelPkg {
			sh.repoPkgs[path] = true
		}
	}
	if rt := sh.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			sh.rtErr = t.Type()
		}
	}
	li := &loadInfo{sh: sh, entries: map[string]map[string]*ssa.Function{}}
	for _, p := range ps {
		sp := prog.Package(p.Types)
		sh.initPkgs = append(sh.initPkgs, sp)
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if rest, ok := strings.CutPrefix(c.Text, "//verif:model "); ok {
							sh.models[strings.TrimSpace(rest)] = sp.Func(fd.Name.Name)
						}
					}
				}
				if fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "Verif") {
					key := filepath.Base(p.PkgPath)
					if li.entries[key] == nil {
						li.entries[key] = map[string]*ssa.Function{}
					}
					li.entries[key][fd.Name.Name] = sp.Func(fd.Name.Name)
				}
			}
		}
	}
	return li, nil
}

// NewExec creates a worker and runs the package initialisers concretely.
func NewExec(sh *Shared) *Exec {
	p := NewProgram(sh)
	x := &Exec{P: p, tt: NewTermTable(), globals: map[*ssa.Global]*Arr{}, maxSteps: 1 << 40, allocCap: 1 << 40,
		methodC: map[methKey]*ssa.Function{}, hit: map[string]int64{}, rawC: map[*ssa.Function]*CFn{}, fnSeen: map[*CFn]bool{}}
	x.sol = NewSolver(x.tt)
	x.pc = NewPathCond(x.tt)
	x.initMode = true
	x.covers = map[string]bool{}
	x.modelHooks = map[string]Value{}
	g := &G{}
	x.cur = g
	x.gs = []*G{g}
	for _, sp := range sh.initPkgs {
		x.runInit(sp)
	}
	x.initMode = false
	seen := map[any]bool{}
	for _, a := range x.globals {
		markArr(a, seen)
	}
	x.fnSeen = map[*CFn]bool{}
	x.trail = nil
	x.locks = nil
	return x
}

func (x *Exec) runInit(sp *ssa.Package) {
	f := sp.Func("init")
	if f == nil {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			x.initErrs = append(x.initErrs, fmt.Sprintf("%s: %v", sp.Pkg.Path(), r))
		}
	}()
	x.callFn(x.P.cfn(f), nil, nil, nil)
}

func jsonOf(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

var _ types.Type

// rootDir is /verif; development runs may use a copy.
func rootDir() string {
	if d := os.Getenv("VX_ROOT"); d != "" {
		return d
	}
	return "/verif"
}
