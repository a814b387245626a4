package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// loadProgram type-checks the harness module and everything it imports from
// source and prepares it for SSA construction (bodies are built on demand).
func loadProgram(dir string) (*Program, []*ssa.Package, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./props", "./models", "runtime")
	if err != nil {
		return nil, nil, err
	}
	bad := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if bad < 20 {
				fmt.Fprintln(os.Stderr, "load:", e)
			}
			bad++
		}
	})
	if bad > 0 {
		return nil, nil, fmt.Errorf("%d load errors", bad)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{prog: prog, globals: map[*ssa.Global]int{}, replace: map[string]*ssa.Function{},
		modPath: []string{"github.com/direct-connect/go-dc", "verif/harness"}}

	// module packages in import order
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		if P.isModule(p.Path()) {
			if sp := prog.Package(p); sp != nil {
				order = append(order, sp)
			}
		}
	}
	for _, p := range pkgs {
		if p.PkgPath != "runtime" {
			visit(p.Types)
		}
	}
	for _, sp := range order {
		sp.Build()
	}
	for name, target := range replacements {
		mp := prog.ImportedPackage(target[0])
		if mp == nil {
			continue
		}
		f := mp.Func(target[1])
		if f == nil {
			return nil, nil, fmt.Errorf("model %s.%s missing", target[0], target[1])
		}
		P.replace[name] = f
	}
	return P, order, nil
}

// replacements maps functions outside of the code under test to the stubs in
// verif/harness/models that stand for them.
var replacements = map[string][2]string{
	"compress/zlib.NewReader":       {mdl, "ZlibNewReader"},
	"compress/zlib.NewWriter":       {mdl, "ZlibNewWriter"},
	"compress/zlib.NewWriterLevel":  {mdl, "ZlibNewWriterLevel"},
	"(*compress/zlib.Writer).Write": {mdl, "ZlibWriterWrite"},
	"(*compress/zlib.Writer).Flush": {mdl, "ZlibWriterFlush"},
	"(*compress/zlib.Writer).Close": {mdl, "ZlibWriterClose"},
	"(*compress/zlib.Writer).Reset": {mdl, "ZlibWriterReset"},
	"github.com/cxmcc/tiger.New":    {mdl, "TigerNew"},
	"crypto/sha256.Sum256":          {mdl, "Sha256Sum"},
	"crypto/sha256.New":             {mdl, "Sha256New"},
}

const mdl = "verif/harness/models"

func absDir(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	return a
}
