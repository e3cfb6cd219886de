package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/viant/velty"
const specPath = modPath + "/internal/vspec"

type dropped struct {
	path, why string
	data      []byte
}

// Program is the code under verification, from the current working tree of the repository
type Program struct {
	prog    *ssa.Program
	pkgs    []*ssa.Package
	byPth   map[string]*ssa.Package
	built   map[*ssa.Package]bool
	sizes   types.Sizes
	order   []*ssa.Package // package initialisation order
	nfile   int
	dropped []dropped
}

// overlayFiles maps the contract files into the packages they specify; nothing is written below the repository
func overlayFiles(contracts, repo string) (map[string][]byte, map[string]string, error) {
	res := map[string][]byte{}
	from := map[string]string{}
	err := filepath.Walk(contracts, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(contracts, path)
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		res[filepath.Join(repo, rel)] = data
		from[filepath.Join(repo, rel)] = path
		return nil
	})
	return res, from, err
}

func load(repo, contracts string) (*Program, error) {
	overlay, _, err := overlayFiles(contracts, repo)
	if err != nil {
		return nil, err
	}
	dirs := map[string]bool{}
	for name := range overlay {
		rel, _ := filepath.Rel(repo, filepath.Dir(name))
		dirs["./"+rel] = true
	}
	var patterns []string
	for d := range dirs {
		if d != "./internal/vreplay" {
			patterns = append(patterns, d)
		}
	}
	sort.Strings(patterns)
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repo,
		Overlay: overlay,
		Env:     append(os.Environ(), "CGO_ENABLED=0"),
	}
	var pkgs []*packages.Package
	var drop []dropped
	for round := 0; ; round++ {
		pkgs, err = packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		var errs []string
		bad := map[string]string{}
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				file := strings.SplitN(e.Pos, ":", 2)[0]
				if _, ok := overlay[file]; ok && !strings.Contains(file, "/internal/vspec/") {
					if bad[file] == "" {
						bad[file] = e.Error()
					}
					continue
				}
				errs = append(errs, e.Error())
			}
		})
		if len(bad) == 0 && len(errs) > 0 || round > 8 {
			return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
		}
		if len(bad) == 0 {
			break
		}
		// contracts that do not fit the code are set aside and reported
		for f, why := range bad {
			drop = append(drop, dropped{f, why, overlay[f]})
			delete(overlay, f)
		}
	}
	prog, ssapkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, byPth: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, sizes: types.SizesFor("gc", "amd64"), dropped: drop}
	for _, q := range ssapkgs {
		if q != nil {
			p.pkgs = append(p.pkgs, q)
		}
	}
	for _, q := range prog.AllPackages() {
		p.byPth[q.Pkg.Path()] = q
	}
	seen := map[*packages.Package]bool{}
	var visit func(q *packages.Package)
	visit = func(q *packages.Package) {
		if seen[q] {
			return
		}
		seen[q] = true
		var paths []string
		for k := range q.Imports {
			paths = append(paths, k)
		}
		sort.Strings(paths)
		for _, k := range paths {
			visit(q.Imports[k])
		}
		if sp := p.byPth[q.PkgPath]; sp != nil {
			p.order = append(p.order, sp)
		}
		p.nfile += len(q.CompiledGoFiles)
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	for _, q := range pkgs {
		visit(q)
	}
	return p, nil
}

func (p *Program) body(fn *ssa.Function) {
	o := fn
	if o.Origin() != nil {
		o = o.Origin()
	}
	for o.Parent() != nil {
		o = o.Parent()
	}
	pkg := o.Package()
	if pkg == nil {
		if o.Object() != nil && o.Object().Pkg() != nil {
			pkg = p.byPth[o.Object().Pkg().Path()]
		}
	}
	if pkg != nil && !p.built[pkg] {
		p.built[pkg] = true
		pkg.Build()
	}
}
