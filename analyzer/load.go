package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoRoot = "/repo/protocol"

// load type-checks /repo's non-test packages and builds their SSA form.
func load() (*ssa.Program, []*packages.Package, string, error) {
	root := os.Getenv("VSA_REPO")
	if root == "" {
		root = repoRoot
	}
	tmp, err := os.MkdirTemp("", "vsa")
	if err != nil {
		return nil, nil, "", err
	}
	defer os.RemoveAll(tmp)
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			return nil, nil, "", err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return nil, nil, "", err
		}
	}
	env := append(os.Environ(),
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0", "GOWORK=off",
		"GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "go.mod"))
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  root,
		Env:  env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, nil, "", err
	}
	mod := ""
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, nil, "", fmt.Errorf("%s: %v", p.PkgPath, e)
		}
		if p.Module != nil {
			mod = p.Module.Path
		}
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	for _, p := range prog.AllPackages() {
		if p != nil && p.Pkg != nil && strings.HasPrefix(p.Pkg.Path(), mod) {
			p.Build()
		}
	}
	return prog, pkgs, mod, nil
}
