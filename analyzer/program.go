package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/k0kubun/sqldef"

type Program struct {
	dir        string
	fset       *token.FileSet
	pkgs       []*packages.Package
	prog       *ssa.Program
	ssaPkg     map[string]*ssa.Package
	byPath     map[string]*packages.Package
	deferInstr map[*Term]*ssa.Defer
	eventPos   map[*Term]token.Pos
	eventFn    map[*Term]string
}

func loadProgram(dir string) (*Program, error) { return loadProgramWith(dir, nil, "./...") }

// loadProgramWith loads the program with files added in memory.
func loadProgramWith(dir string, overlay map[string][]byte, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode:    packages.LoadSyntax | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off"),
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	p := &Program{dir: dir, ssaPkg: map[string]*ssa.Package{}, byPath: map[string]*packages.Package{}, deferInstr: map[*Term]*ssa.Defer{}, eventPos: map[*Term]token.Pos{}, eventFn: map[*Term]string{}}
	for _, q := range ps {
		if len(q.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type-check: %v", q.PkgPath, q.Errors[0])
		}
		p.byPath[q.PkgPath] = q
		p.fset = q.Fset
	}
	p.pkgs = ps
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	p.loadConstMaps()
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", ps[i].PkgPath)
		}
		p.ssaPkg[s.Pkg.Path()] = s
	}
	return p, nil
}

func (p *Program) pkg(rel string) *ssa.Package {
	if rel == "" || rel == "." {
		return p.ssaPkg[modPath]
	}
	return p.ssaPkg[modPath+"/"+rel]
}

func (p *Program) fn(rel, name string) *ssa.Function {
	q := p.pkg(rel)
	if q == nil {
		return nil
	}
	return q.Func(name)
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	f := p.prog.MethodValue(sel)
	if f == nil || len(f.Blocks) == 0 {
		return nil
	}
	return f
}

func (p *Program) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), modPath)
	}
	// synthetic wrappers
	return strings.Contains(f.String(), modPath)
}

func fnPkg(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	return ""
}

// inlineAll inlines repository code except the SQL parser.
func (p *Program) inlineNoParser(fn *ssa.Function) bool {
	if !p.inRepo(fn) {
		return false
	}
	return !strings.HasPrefix(fnPkg(fn), modPath+"/sqlparser")
}

// ddlProducers: functions of package schema that turn SQL text into the list
// of parsed statements (a slice of a repository interface type).
func (p *Program) ddlProducers() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	sp := p.pkg("schema")
	for _, m := range sp.Members {
		f, ok := m.(*ssa.Function)
		if !ok {
			continue
		}
		res := f.Signature.Results()
		hasStr := false
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if isStringType(f.Signature.Params().At(i).Type()) {
				hasStr = true
			}
		}
		if res.Len() == 0 || !hasStr {
			continue
		}
		sl, ok := res.At(0).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		n, ok := sl.Elem().(*types.Named)
		if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg() != sp.Pkg {
			continue
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			out[f] = true
		}
	}
	return out
}

func (p *Program) diffEval() *Eval {
	ev := newEval(p)
	prod := p.ddlProducers()
	ev.pureFns = map[string]bool{}
	for f := range prod {
		ev.pureFns[f.String()] = true
	}
	ev.noErr = true
	ev.inline = func(fn *ssa.Function) bool { return p.inlineNoParser(fn) && !prod[fn] }
	return ev
}

// mainEval evaluates a whole command with the planner kept as one pure function.
func (p *Program) mainEval() *Eval {
	ev := newEval(p)
	ev.pureFns = map[string]bool{}
	ev.inline = func(fn *ssa.Function) bool {
		return p.inlineNoParser(fn) && fnPkg(fn) != modPath+"/schema"
	}
	for _, m := range p.pkg("schema").Members {
		if f, ok := m.(*ssa.Function); ok {
			ev.pureFns[f.String()] = true
		}
	}
	return ev
}

// functions lists the package's functions and methods that have a body, in
// source order.
func (p *Program) functions(rel string) []*ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg == pk && len(fn.Blocks) > 0 && fn.Parent() == nil && fn.Synthetic == "" {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
