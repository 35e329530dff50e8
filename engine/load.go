package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// listPkg is the part of `go list -json` output the loader needs.
type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
	ImportMap  map[string]string
	Standard   bool
	DepOnly    bool
	Error      *struct{ Err string }
}

type Program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*loadedPkg
	order []string
	sizes types.Sizes
}

type loadedPkg struct {
	lp     *listPkg
	files  []*ast.File
	paths  []string
	tpkg   *types.Package
	info   *types.Info
	ssapkg *ssa.Package
	full   bool
	errs   []error
	done   chan struct{}
}

func goEnv() []string {
	return []string{
		"HOME=/root", "GOROOT=/opt/go1.18.10",
		"PATH=/opt/go1.18.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build",
		"GOENV=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly",
		"TMPDIR=" + os.TempDir(),
	}
}

const buildTags = "math_big_pure_go,purego,appengine,osusergo,netgo"

// load lists, parses and type-checks pkgs (import paths) and their
// dependencies from source with the overlay applied, and builds SSA bodies for
// the packages interp selects.
func load(repo string, overlay map[string]string, roots []string, interp func(path string) bool) (*Program, error) {
	tmp, err := os.CreateTemp("", "gosym-overlay-*.json")
	if err != nil {
		return nil, err
	}
	defer os.Remove(tmp.Name())
	json.NewEncoder(tmp).Encode(map[string]any{"Replace": overlay})
	tmp.Close()
	args := append([]string{"list", "-e", "-json=Dir,ImportPath,Name,GoFiles,CgoFiles,Imports,ImportMap,Standard,DepOnly,Error", "-deps", "-tags", buildTags, "-overlay", tmp.Name()}, roots...)
	args[2] = "-json"
	cmd := exec.Command("/opt/go1.18.10/bin/go", args...)
	cmd.Dir = repo
	cmd.Env = append(goEnv(), "CGO_ENABLED=0")
	var stderr strings.Builder
	cmd.Stderr = &stderr
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	P := &Program{fset: token.NewFileSet(), pkgs: map[string]*loadedPkg{}, sizes: types.SizesFor("gc", "amd64")}
	dec := json.NewDecoder(out)
	for dec.More() {
		lp := &listPkg{}
		if err := dec.Decode(lp); err != nil {
			return nil, fmt.Errorf("go list: %v %s", err, stderr.String())
		}
		if lp.Error != nil && !lp.DepOnly {
			return nil, fmt.Errorf("go list: %s: %s", lp.ImportPath, lp.Error.Err)
		}
		P.pkgs[lp.ImportPath] = &loadedPkg{lp: lp, full: interp(lp.ImportPath), done: make(chan struct{})}
		P.order = append(P.order, lp.ImportPath)
	}
	if err := cmd.Wait(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for _, path := range P.order {
		p := P.pkgs[path]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(p.done)
			for _, imp := range p.lp.Imports {
				if d := P.pkgs[imp]; d != nil && imp != "unsafe" && imp != "C" {
					<-d.done
				}
			}
			sem <- struct{}{}
			defer func() { <-sem }()
			P.check(p, overlay)
		}()
	}
	wg.Wait()
	for _, path := range P.order {
		p := P.pkgs[path]
		if p.full && len(p.errs) > 0 {
			return nil, fmt.Errorf("type errors in %s: %v", path, p.errs)
		}
	}
	P.prog = ssa.NewProgram(P.fset, ssa.InstantiateGenerics)
	var toBuild []*ssa.Package
	for _, path := range P.order {
		p := P.pkgs[path]
		if path == "unsafe" {
			P.prog.CreatePackage(types.Unsafe, nil, nil, true)
			continue
		}
		if p.full {
			p.ssapkg = P.prog.CreatePackage(p.tpkg, p.files, p.info, true)
			toBuild = append(toBuild, p.ssapkg)
		} else {
			p.ssapkg = P.prog.CreatePackage(p.tpkg, nil, nil, true)
		}
	}
	var wg2 sync.WaitGroup
	for _, sp := range toBuild {
		wg2.Add(1)
		go func() { defer wg2.Done(); sem <- struct{}{}; sp.Build(); <-sem }()
	}
	wg2.Wait()
	return P, nil
}

type mapImporter struct {
	P  *Program
	lp *listPkg
}

func (m mapImporter) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if r, ok := m.lp.ImportMap[path]; ok {
		path = r
	}
	if p := m.P.pkgs[path]; p != nil && p.tpkg != nil {
		return p.tpkg, nil
	}
	return nil, fmt.Errorf("package %s not found", path)
}

func (P *Program) check(p *loadedPkg, overlay map[string]string) {
	if p.lp.ImportPath == "unsafe" {
		p.tpkg = types.Unsafe
		return
	}
	for _, f := range p.lp.GoFiles {
		full := f
		if !filepath.IsAbs(f) {
			full = filepath.Join(p.lp.Dir, f)
		}
		read := full
		if r, ok := overlay[full]; ok {
			read = r
		}
		src, err := os.ReadFile(read)
		if err != nil {
			p.errs = append(p.errs, err)
			continue
		}
		mode := parser.SkipObjectResolution
		if p.full {
			mode |= parser.ParseComments
		}
		af, err := parser.ParseFile(P.fset, full, src, mode)
		if err != nil {
			p.errs = append(p.errs, err)
		}
		if af != nil {
			p.files = append(p.files, af)
			p.paths = append(p.paths, full)
		}
	}
	conf := &types.Config{
		Importer:         mapImporter{P, p.lp},
		IgnoreFuncBodies: !p.full,
		FakeImportC:      true,
		Sizes:            P.sizes,
		GoVersion:        "go1.18",
		Error:            func(err error) { p.errs = append(p.errs, err) },
	}
	if p.full {
		p.info = &types.Info{
			Types:        map[ast.Expr]types.TypeAndValue{},
			Defs:         map[*ast.Ident]types.Object{},
			Uses:         map[*ast.Ident]types.Object{},
			Implicits:    map[ast.Node]types.Object{},
			Scopes:       map[ast.Node]*types.Scope{},
			Selections:   map[*ast.SelectorExpr]*types.Selection{},
			Instances:    map[*ast.Ident]types.Instance{},
			FileVersions: map[*ast.File]string{},
		}
	}
	p.tpkg, _ = conf.Check(p.lp.ImportPath, P.fset, p.files, p.info)
	if p.tpkg == nil {
		p.tpkg = types.NewPackage(p.lp.ImportPath, p.lp.Name)
	}
	p.tpkg.MarkComplete()
}
