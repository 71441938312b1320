package main

import (
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/typescript-eslint/tsgolint"

type Loaded struct {
	Pkgs    []*packages.Package
	Prog    *ssa.Program
	ByPath  map[string]*ssa.Package
	AllPkgs []*packages.Package
	Overlay map[string]string // virtual path -> real file
	Links   map[string]string // "pkgpath.Name" local (bodyless) -> target symbol
	Work    string
	Modfile string
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOROOT", "PATH", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "CGO_ENABLED", "GOFLAGS", "GONOSUMDB", "GOFLAGSX", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	root := "/opt/veriftools/go1.26.10"
	env = append(env, "GOROOT="+root, "PATH="+root+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0", "GOFLAGS=-mod=mod", "GONOSUMDB=*", "GONOSUMCHECK=1")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return env
}

// prepare writes the modfile and sums into work and computes the overlay.
func prepare(verif, repo, work string, harnessDirs []string) (*Loaded, error) {
	l := &Loaded{Overlay: map[string]string{}, Work: work}
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	l.Modfile = filepath.Join(work, "tsgolint.mod")
	if err := os.WriteFile(l.Modfile, mod, 0o644); err != nil {
		return nil, err
	}
	lines := map[string]bool{}
	for _, f := range []string{filepath.Join(repo, "go.sum"), filepath.Join(verif, "stubs/extra.sum")} {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		for _, s := range strings.Split(string(b), "\n") {
			if s != "" {
				lines[s] = true
			}
		}
	}
	var all []string
	for s := range lines {
		all = append(all, s)
	}
	sort.Strings(all)
	if err := os.WriteFile(filepath.Join(work, "tsgolint.sum"), []byte(strings.Join(all, "\n")+"\n"), 0o644); err != nil {
		return nil, err
	}
	addDir := func(from, to string) error {
		ents, err := os.ReadDir(from)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				l.Overlay[filepath.Join(to, e.Name())] = filepath.Join(from, e.Name())
			}
		}
		return nil
	}
	if _, err := os.Stat(filepath.Join(repo, "internal/collections/set.go")); err != nil {
		if err := addDir(filepath.Join(verif, "stubs/collections"), filepath.Join(repo, "internal/collections")); err != nil {
			return nil, err
		}
	}
	if err := addDir(filepath.Join(verif, "stubs/project"), filepath.Join(repo, "shim/project")); err != nil {
		return nil, err
	}
	if err := addDir(filepath.Join(verif, "models/vrt"), filepath.Join(repo, "internal/vrt")); err != nil {
		return nil, err
	}
	if err := addDir(filepath.Join(verif, "models/vmodel"), filepath.Join(repo, "internal/vmodel")); err != nil {
		return nil, err
	}
	if err := addDir(filepath.Join(verif, "models/vlint"), filepath.Join(repo, "internal/vlint")); err != nil {
		return nil, err
	}
	if err := addDir(filepath.Join(verif, "models/vfix"), filepath.Join(repo, "internal/vfix")); err != nil {
		return nil, err
	}
	// Harness files: harness/<prop>/<pkg path with __>/x.go
	for _, hd := range harnessDirs {
		ents, err := os.ReadDir(hd)
		if err != nil {
			return nil, err
		}
		for _, e := range ents {
			if e.IsDir() {
				to := filepath.Join(repo, strings.ReplaceAll(e.Name(), "__", "/"))
				fs, err := os.ReadDir(filepath.Join(hd, e.Name()))
				if err != nil {
					return nil, err
				}
				for _, f := range fs {
					if strings.HasSuffix(f.Name(), ".go") {
						l.Overlay[filepath.Join(to, "zz_"+filepath.Base(hd)+"_"+f.Name())] = filepath.Join(hd, e.Name(), f.Name())
					}
				}
			}
		}
	}
	return l, nil
}

func (l *Loaded) load(repo string, patterns []string) error {
	ov := map[string][]byte{}
	for k, v := range l.Overlay {
		b, err := os.ReadFile(v)
		if err != nil {
			return err
		}
		ov[k] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Env:        goEnv(),
		BuildFlags: []string{"-modfile=" + l.Modfile, "-tags=noasm,purego"},
		Overlay:    ov,
	}
	os.Setenv("PATH", "/opt/veriftools/go1.26.10/bin:"+os.Getenv("PATH"))
	_ = exec.Command
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return err
	}
	l.Pkgs = pkgs
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 20 {
				errs = append(errs, e.Error())
			}
		}
		l.AllPkgs = append(l.AllPkgs, p)
	})
	if len(errs) > 0 {
		return fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog := ssa.NewProgram(pkgs[0].Fset, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	l.Prog = prog
	l.ByPath = map[string]*ssa.Package{}
	l.Links = map[string]string{}
	for _, p := range l.AllPkgs {
		if p.Types == nil || p.IllTyped {
			return fmt.Errorf("ill-typed package %s", p.PkgPath)
		}
		sp := prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		l.ByPath[p.PkgPath] = sp
		for _, f := range p.Syntax {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if strings.HasPrefix(c.Text, "//go:linkname ") {
						fs := strings.Fields(c.Text)
						if len(fs) == 3 {
							l.Links[p.PkgPath+"."+fs[1]] = fs[2]
						}
					}
				}
			}
		}
	}
	return nil
}

var _ = types.Typ
