package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/FAU-CDI/hangover"

type listPkg struct {
	Dir        string
	ImportPath string
	Name       string
	Standard   bool
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	Imports    []string
	ImportMap  map[string]string
	Module     *struct {
		Path      string
		Version   string
		GoVersion string
	}
	Error *struct{ Err string }
}

// Pkg is one type-checked package of the repository.
type Pkg struct {
	Path  string
	Dir   string
	Files []*ast.File
	Types *types.Package
	Info  *types.Info
	SSA   *ssa.Package
	List  *listPkg
}

// World is the resolved program under analysis.
type World struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  []*Pkg          // packages of the repository, in dependency order
	ByPth map[string]*Pkg // by import path
	All   map[string]*types.Package
	Prog  *ssa.Program
	// Fns are all source functions of the repository (generic origins, closures included)
	Fns []*ssa.Function
	// number of packages type-checked in total
	NDeps int
	// list info of all packages
	Lists map[string]*listPkg
}

// extra dependency packages whose function bodies are loaded, too
var bodyDeps = map[string]bool{
	"github.com/tkw1536/pkglib/traversal": true,
}

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "GOROOT", "GOENV", "GOWORK", "GOTOOLCHAIN", "GOSUMDB", "GOPROXY", "GOFLAGS", "GOPATH", "GOMODCACHE", "GOCACHE", "CGO_ENABLED", "PATH", "GOOS", "GOARCH", "GO111MODULE", "GOEXPERIMENT", "GODEBUG":
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOENV=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GOPROXY=off", "GOFLAGS=-mod=readonly",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+scratchDir()+"/gocache", "CGO_ENABLED=1",
	)
}

func scratchDir() string {
	d := os.Getenv("HOVERCHECK_SCRATCH")
	if d == "" {
		d = filepath.Join(os.TempDir(), "hovercheck")
	}
	os.MkdirAll(d, 0o755)
	return d
}

func goTool() string {
	const pinned = "/opt/veriftools/go1.23.12/bin/go"
	if _, err := os.Stat(pinned); err == nil {
		return pinned
	}
	return "go"
}

// LoadWorld lists, parses and type-checks everything the build covers, and builds SSA for the repository.
func LoadWorld(repo string) (*World, error) {
	// The go command may touch go.mod/go.sum with -mod=mod; the listing runs
	// on copies of both so that the tree is left alone.
	tmp, err := os.MkdirTemp(scratchDir(), "mod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		data, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), data, 0o644); err != nil {
			return nil, err
		}
	}

	cmd := exec.Command(goTool(), "list", "-deps", "-e", "-json=Dir,ImportPath,Name,Standard,GoFiles,CgoFiles,EmbedFiles,Imports,ImportMap,Module,Error", "-modfile="+filepath.Join(tmp, "go.mod"), "./...")
	cmd.Dir = repo
	cmd.Env = goEnv()
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, stderr.String())
	}

	w := &World{Repo: repo, Fset: token.NewFileSet(), ByPth: map[string]*Pkg{}, All: map[string]*types.Package{}, Lists: map[string]*listPkg{}}
	var lists []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		lists = append(lists, &p)
		w.Lists[p.ImportPath] = &p
	}
	w.NDeps = len(lists)

	inRepo := func(p string) bool { return p == modPath || strings.HasPrefix(p, modPath+"/") }

	// parse everything in parallel
	parsed := make([][]*ast.File, len(lists))
	perr := make([]error, len(lists))
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for i, p := range lists {
		if p.ImportPath == "unsafe" {
			continue
		}
		wg.Add(1)
		go func(i int, p *listPkg) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			mode := parser.SkipObjectResolution
			if inRepo(p.ImportPath) {
				mode |= parser.ParseComments
			}
			for _, name := range append(append([]string{}, p.GoFiles...), p.CgoFiles...) {
				f, err := parser.ParseFile(w.Fset, filepath.Join(p.Dir, name), nil, mode)
				if f != nil {
					parsed[i] = append(parsed[i], f)
				}
				if err != nil && perr[i] == nil {
					perr[i] = err
				}
			}
		}(i, p)
	}
	wg.Wait()

	sizes := types.SizesFor("gc", "amd64")
	var repoErrs []error
	for i, p := range lists { // -deps lists in dependency order
		if p.ImportPath == "unsafe" {
			w.All["unsafe"] = types.Unsafe
			continue
		}
		mine := inRepo(p.ImportPath)
		bodies := mine || bodyDeps[p.ImportPath]
		if mine && perr[i] != nil {
			repoErrs = append(repoErrs, perr[i])
		}
		if mine && p.Error != nil {
			repoErrs = append(repoErrs, errors.New(p.Error.Err))
		}
		conf := &types.Config{
			Importer:         importerFunc(func(path string) (*types.Package, error) { return w.imp(p, path) }),
			FakeImportC:      true,
			IgnoreFuncBodies: !bodies,
			Sizes:            sizes,
			Error: func(err error) {
				if mine {
					repoErrs = append(repoErrs, err)
				}
			},
		}
		if p.Module != nil && p.Module.GoVersion != "" {
			conf.GoVersion = "go" + p.Module.GoVersion
		}
		var info *types.Info
		if bodies {
			info = &types.Info{
				Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
				Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
				Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
			}
		}
		tp, _ := conf.Check(p.ImportPath, w.Fset, parsed[i], info)
		w.All[p.ImportPath] = tp
		if bodies {
			pk := &Pkg{Path: p.ImportPath, Dir: p.Dir, Files: parsed[i], Types: tp, Info: info, List: p}
			w.ByPth[p.ImportPath] = pk
			if mine {
				w.Pkgs = append(w.Pkgs, pk)
			}
		}
	}
	if len(repoErrs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %v", repoErrs[0])
	}
	if len(w.Pkgs) == 0 {
		return nil, errors.New("no packages found")
	}

	// SSA
	w.Prog = ssa.NewProgram(w.Fset, ssa.InstantiateGenerics)
	w.Prog.CreatePackage(types.Unsafe, nil, nil, true)
	for _, p := range lists {
		tp := w.All[p.ImportPath]
		if tp == nil || tp == types.Unsafe {
			continue
		}
		if pk := w.ByPth[p.ImportPath]; pk != nil {
			pk.SSA = w.Prog.CreatePackage(tp, pk.Files, pk.Info, true)
		} else {
			w.Prog.CreatePackage(tp, nil, nil, true)
		}
	}
	for _, pk := range w.ByPth {
		pk.SSA.Build()
	}

	for fn := range ssautil.AllFunctions(w.Prog) {
		if fn.Blocks == nil || fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		if fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "package initializer") {
			continue
		}
		if pk := w.pkgOf(fn); pk != nil && inRepo(pk.Path) {
			w.Fns = append(w.Fns, fn)
		}
	}
	// generic origins are not always reachable: add them explicitly
	seen := map[*ssa.Function]bool{}
	for _, f := range w.Fns {
		seen[f] = true
	}
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil || seen[fn] || fn.Blocks == nil {
			return
		}
		seen[fn] = true
		w.Fns = append(w.Fns, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range w.Pkgs {
		for id, obj := range pk.Info.Defs {
			_ = id
			if f, ok := obj.(*types.Func); ok {
				add(w.Prog.FuncValue(f))
			}
		}
	}
	sort.Slice(w.Fns, func(i, j int) bool {
		a, b := w.Fns[i], w.Fns[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return w, nil
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

func (w *World) imp(p *listPkg, path string) (*types.Package, error) {
	if m, ok := p.ImportMap[path]; ok {
		path = m
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if tp := w.All[path]; tp != nil {
		return tp, nil
	}
	return nil, fmt.Errorf("package %q not loaded", path)
}

func (w *World) pkgOf(fn *ssa.Function) *Pkg {
	for f := fn; f != nil; f = f.Parent() {
		if o := f.Origin(); o != nil {
			f = o
		}
		if f.Pkg != nil {
			return w.ByPth[f.Pkg.Pkg.Path()]
		}
		if obj := f.Object(); obj != nil && obj.Pkg() != nil {
			return w.ByPth[obj.Pkg().Path()]
		}
	}
	return nil
}

// rel returns the package path relative to the module
func relPath(p string) string {
	if p == modPath {
		return "."
	}
	return strings.TrimPrefix(p, modPath+"/")
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := w.Fset.Position(p)
	f := ps.Filename
	if r, err := filepath.Rel(w.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// fname is a stable, readable name for a function
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "hangover")
	return s
}
