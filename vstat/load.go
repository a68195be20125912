package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/si-co/vpir-code"

type Program struct {
	Dir     string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	ByPath  map[string]*packages.Package
	SSA     *ssa.Program
	SPkg    map[string]*ssa.Package
	Funcs   []*ssa.Function // all functions with a body declared in the repository, closures included
	srcFile map[*token.File]bool
	effects map[*ssa.Function]*effect
	glens   map[string]int64
}

// Load reads the current sources of the repository, with the session package
// (sessions/*.go of this directory, overlaid as a package of the module).
func Load(dir, sessDir string) (*Program, error) {
	overlay := map[string][]byte{}
	sess, _ := filepath.Glob(filepath.Join(sessDir, "*.go.txt"))
	for _, s := range sess {
		b, err := os.ReadFile(s)
		if err != nil {
			return nil, err
		}
		overlay[filepath.Join(dir, "zzverif", strings.TrimSuffix(filepath.Base(s), ".txt"))] = b
	}
	env := []string{}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GOFLAGS=") {
			env = append(env, e)
		}
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=1")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir, Env: env, Overlay: overlay,
	}
	pats := []string{"./..."}
	if len(sess) > 0 {
		pats = append(pats, filepath.Join(dir, "zzverif"))
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, ByPath: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}}
	for _, q := range pkgs {
		if len(q.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type-check: %v", q.PkgPath, q.Errors[0])
		}
		p.Fset = q.Fset
		p.Pkgs = append(p.Pkgs, q)
		p.ByPath[q.PkgPath] = q
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, sp := range spkgs {
		if sp != nil {
			p.SPkg[pkgs[i].PkgPath] = sp
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks != nil && p.inRepo(fn) {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Origin() != nil && fn.Origin().Pkg != nil {
		return fn.Origin().Pkg.Pkg.Path()
	}
	return ""
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	return strings.HasPrefix(fnPkgPath(fn), modPath)
}

// Func finds a package-level function or method: "lib/client.NewPIR" or "lib/client.PIR.Query".
func (p *Program) Func(name string) *ssa.Function {
	slash := strings.LastIndex(name, "/")
	dot := strings.Index(name[slash+1:], ".") + slash + 1
	path, rest := modPath+"/"+name[:dot], name[dot+1:]
	sp := p.SPkg[path]
	if sp == nil {
		return nil
	}
	if k := strings.Index(rest, "."); k >= 0 {
		tn, mn := rest[:k], rest[k+1:]
		m := sp.Members[tn]
		t, ok := m.(*ssa.Type)
		if !ok {
			return nil
		}
		for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
			ms := p.SSA.MethodSets.MethodSet(ty)
			if sel := ms.Lookup(sp.Pkg, mn); sel != nil {
				return p.SSA.MethodValue(sel)
			}
		}
		return nil
	}
	return sp.Func(rest)
}

// relFile gives the path of a position relative to the repository.
func (p *Program) relPos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	return strings.TrimPrefix(q.Filename, p.Dir+"/") + ":" + fmt.Sprint(q.Line)
}

// syntax iterates over the files of repository packages selected by prefix.
func (p *Program) files(prefix string, visit func(*packages.Package, *ast.File)) {
	for _, q := range p.Pkgs {
		if strings.HasPrefix(q.PkgPath, modPath+"/"+prefix) {
			for _, f := range q.Syntax {
				visit(q, f)
			}
		}
	}
}

// globalLen: the length of a slice variable of a package that is assigned once,
// by an initialiser, a composite literal, and never through its address.
func (p *Program) globalLen(name string) (int64, bool) {
	if p.glens == nil {
		p.glens = map[string]int64{}
		bad := map[string]bool{}
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						g, ok := (*o).(*ssa.Global)
						if !ok {
							continue
						}
						if u, isU := in.(*ssa.UnOp); isU && u.X == g {
							continue
						}
						n := int64(-1)
						if s, isS := in.(*ssa.Store); isS && s.Addr == g && (strings.HasPrefix(fn.Name(), "init")) && fn.Signature.Recv() == nil {
							if sl, ok := s.Val.(*ssa.Slice); ok && sl.Low == nil && sl.High == nil {
								if pt, ok := sl.X.Type().Underlying().(*types.Pointer); ok {
									if at, ok := pt.Elem().Underlying().(*types.Array); ok {
										n = at.Len()
									}
								}
							}
						}
						if _, dup := p.glens[g.String()]; dup || n < 0 {
							bad[g.String()] = true
						}
						p.glens[g.String()] = n
					}
				}
			}
		}
		for g := range bad {
			delete(p.glens, g)
		}
	}
	n, ok := p.glens[name]
	return n, ok
}
