package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded harness module together with everything it imports,
// always from current source.
type Program struct {
	prog     *ssa.Program
	shim     *ssa.Package
	harness  map[string]*ssa.Function
	doc      map[string]string
	inits    []*ssa.Function
	inited   map[*ssa.Package]bool
	redirect map[string]string
	rtErr    types.Type
	tests    map[string]*ssa.Function
	repoTP   []*ssa.Package
}

// packages whose initializers are interpreted.
func wantInit(path string) bool {
	if strings.HasPrefix(path, "verifharness") || strings.HasPrefix(path, "github.com/rom1mouret/") || strings.HasPrefix(path, "gonum.org/") || strings.HasPrefix(path, "golang.org/x/text") {
		return true
	}
	switch path {
	case "io", "io/fs", "strings", "strconv", "internal/strconv", "unicode", "unicode/utf8", "bufio", "bytes", "sort", "slices", "math", "math/bits", "encoding/csv", "hash/fnv", "hash", "internal/oserror", "path/filepath", "internal/filepathlite", "internal/bytealg", "cmp", "maps", "iter":
		return true
	}
	return false
}

func load(dir string, tests bool) (*Program, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        dir,
		BuildFlags: []string{"-tags=noasm,purego"},
		Env:        append(os.Environ(), "CGO_ENABLED=0"),
	}
	pats := []string{"./h", "./shim"}
	if tests {
		cfg.Tests = true
		pats = []string{"github.com/rom1mouret/ml-essentials/...", "./shim"}
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, harness: map[string]*ssa.Function{}, doc: map[string]string{}, redirect: map[string]string{}, inited: map[*ssa.Package]bool{}, tests: map[string]*ssa.Function{}}
	for _, sp := range prog.AllPackages() {
		if sp.Pkg.Path() == "verifharness/shim" {
			p.shim = sp
		}
	}
	if p.shim == nil {
		return nil, fmt.Errorf("no shim package")
	}
	p.shim.Build()
	p.rtErr = p.shim.Type("RTError").Type()
	// harness functions
	for i, sp := range spkgs {
		if sp == nil || strings.HasSuffix(sp.Pkg.Path(), "/shim") {
			continue
		}
		if tests {
			for name, m := range sp.Members {
				if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, "Test") && f.Signature.Params().Len() == 1 {
					p.tests[sp.Pkg.Path()+"."+name] = f
					_ = i
				}
			}
			continue
		}
		for name, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && ast.IsExported(name) && f.Signature.Params().Len() == 0 {
				p.harness[name] = f
			}
		}
		for _, file := range pkgs[i].Syntax {
			for _, d := range file.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Doc != nil {
					p.doc[fd.Name.Name] = docText(fd.Doc)
				}
			}
		}
	}
	// redirects are declared in the shim package: //shim:for math/rand.Shuffle
	packages.Visit(pkgs, nil, func(pk *packages.Package) {
		if pk.PkgPath != "verifharness/shim" {
			return
		}
		for _, file := range pk.Syntax {
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if t, ok := strings.CutPrefix(c.Text, "//shim:for "); ok {
						for _, n := range strings.Fields(t) {
							p.redirect[n] = fd.Name.Name
						}
					}
				}
			}
		}
	})
	// initializers in dependency order
	seen := map[*types.Package]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		imps := append([]*types.Package(nil), tp.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if sp := prog.Package(tp); sp != nil && wantInit(tp.Path()) {
			sp.Build()
			if f := sp.Func("init"); f != nil {
				p.inits = append(p.inits, f)
				p.inited[sp] = true
			}
		}
	}
	for _, sp := range spkgs {
		if sp != nil {
			visit(sp.Pkg)
		}
	}
	return p, nil
}

func docText(g *ast.CommentGroup) string {
	var sb strings.Builder
	for _, c := range g.List {
		sb.WriteString(strings.TrimPrefix(strings.TrimPrefix(c.Text, "//"), " "))
		sb.WriteString("\n")
	}
	return sb.String()
}

func (p *Program) engine(fn *ssa.Function, cfg Config) *Engine {
	return &Engine{prog: p.prog, shimPkg: p.shim, redirects: p.redirect, rtErrT: p.rtErr, inits: p.inits, inited: p.inited, harness: fn, cfg: cfg, uninit: map[string]bool{}}
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	if _, err := os.Stat(filepath.Join(d, "harness", "go.mod")); err == nil {
		return d
	}
	return "/verif"
}
