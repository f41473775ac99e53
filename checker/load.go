package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/lyraproj/dgo"

// Prog is the resolved program under analysis: every non-test package of /repo, type checked and in SSA form.
type Prog struct {
	single map[types.Type]constant.Value
	Root   string
	Fset   *token.FileSet
	Pkgs   []*packages.Package
	SSA    *ssa.Program
	SPkgs  map[string]*ssa.Package
	// Funcs are all functions with source in the module, closures included, sorted by position.
	Funcs []*ssa.Function
	// Named are all named (non interface) types of the module.
	Named []*types.Named
	// Ifaces are all named interfaces of the module that have methods.
	Ifaces []*types.Interface
	// Value is dgo.Value and so on
	ifaces map[string]*types.Interface

	implCache map[string][]*ssa.Function
	dynSites  map[*ssa.Function][]*ssa.MakeClosure
	an        *Analysis
}

func loadProg(root string) (*Prog, error) {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: root, Env: env, Tests: false,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found in %s", root)
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
	}
	prog.Build()
	p := &Prog{Root: root, Fset: prog.Fset, Pkgs: pkgs, SSA: prog, SPkgs: map[string]*ssa.Package{}, ifaces: map[string]*types.Interface{},
		implCache: map[string][]*ssa.Function{}}
	for i, sp := range spkgs {
		p.SPkgs[strings.TrimPrefix(strings.TrimPrefix(pkgs[i].PkgPath, modPath), "/")] = sp
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil {
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range spkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok || m.Object().(*types.TypeName).IsAlias() {
					continue
				}
				if it, isI := n.Underlying().(*types.Interface); isI {
					if it.NumMethods() > 0 {
						p.Ifaces = append(p.Ifaces, it)
					}
					continue
				}
				p.Named = append(p.Named, n)
				for i := 0; i < n.NumMethods(); i++ {
					add(prog.FuncValue(n.Method(i)))
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].Pos() < p.Funcs[j].Pos() })
	sort.Slice(p.Named, func(i, j int) bool { return p.Named[i].String() < p.Named[j].String() })
	p.dynSites = map[*ssa.Function][]*ssa.MakeClosure{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok {
					fn := mc.Fn.(*ssa.Function)
					p.dynSites[fn] = append(p.dynSites[fn], mc)
				}
			}
		}
	}
	return p, nil
}

// iface returns the named interface of package dgo.
func (p *Prog) iface(name string) *types.Interface {
	if i, ok := p.ifaces[name]; ok {
		return i
	}
	o := p.SPkgs["dgo"].Pkg.Scope().Lookup(name)
	if o == nil {
		failf("anchor dgo.%s not found", name)
	}
	i := o.Type().Underlying().(*types.Interface)
	p.ifaces[name] = i
	return i
}

func (p *Prog) named(pkg, name string) *types.Named {
	sp := p.SPkgs[pkg]
	if sp == nil {
		failf("anchor package %s not found", pkg)
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		failf("anchor %s.%s not found", pkg, name)
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		failf("anchor %s.%s is not a named type", pkg, name)
	}
	return n
}

func (p *Prog) namedOpt(pkg, name string) *types.Named {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (p *Prog) fn(pkg, name string) *ssa.Function {
	sp := p.SPkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// methodOf returns the function that implements method name for a value of type t (promoted methods resolve to the
// declared function they promote). It returns nil if there is none.
func (p *Prog) methodOf(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			if f := p.SSA.FuncValue(s.Obj().(*types.Func)); f != nil {
				return f
			}
			return nil
		}
	}
	return nil
}

// concreteTypes lists T and *T for each named type of the module that implements i.
func (p *Prog) implementers(i *types.Interface) []types.Type {
	var r []types.Type
	for _, n := range p.Named {
		if n.TypeParams().Len() > 0 {
			continue
		}
		if types.Implements(n, i) {
			r = append(r, n)
		} else if types.Implements(types.NewPointer(n), i) {
			r = append(r, types.NewPointer(n))
		}
	}
	return r
}

// callees resolves a call to the functions of the module it may reach. ext is true if it may also reach code that is
// not part of the module (library functions, user supplied callbacks).
func (p *Prog) callees(c *ssa.CallCommon) (fns []*ssa.Function, ext bool) {
	if c.IsInvoke() {
		it := c.Value.Type()
		key := types.TypeString(it, nil) + "#" + c.Method.Name()
		if r, ok := p.implCache[key]; ok {
			return r, false
		}
		i, ok := it.Underlying().(*types.Interface)
		if !ok {
			return nil, true
		}
		seen := map[*ssa.Function]bool{}
		var r []*ssa.Function
		for _, t := range p.implementers(i) {
			if f := p.methodOf(t, c.Method.Name()); f != nil && f.Blocks != nil && !seen[f] {
				seen[f] = true
				r = append(r, f)
			}
		}
		p.implCache[key] = r
		return r, len(r) == 0
	}
	if f := staticFn(c.Value); f != nil {
		if f.Blocks != nil && p.inModule(f) {
			return []*ssa.Function{f}, false
		}
		return nil, true
	}
	return nil, true
}

// staticFn resolves a function value to the one function it is known to denote.
func staticFn(v ssa.Value) *ssa.Function {
	switch v := v.(type) {
	case *ssa.Function:
		return unwrapFn(v)
	case *ssa.MakeClosure:
		return unwrapFn(v.Fn.(*ssa.Function))
	case *ssa.ChangeType:
		return staticFn(v.X)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if st := cellStores(v.X); len(st) == 1 {
				return staticFn(st[0])
			}
		}
	}
	return nil
}

// unwrapFn follows synthetic thunks and bound method wrappers is not needed for this code base, the function itself
// is returned.
func unwrapFn(f *ssa.Function) *ssa.Function { return f }

func (p *Prog) inModule(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), modPath)
	}
	return false
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.Fset.Position(ps)
	r, err := filepath.Rel(p.Root, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

func (p *Prog) instrPos(in ssa.Instruction) string {
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	// fall back on an operand or a neighbour
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			return p.pos((*op).Pos())
		}
	}
	b := in.Block()
	if b != nil {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return p.pos(i.Pos())
			}
		}
		return p.pos(in.Parent().Pos())
	}
	return "-"
}

// fname is the short name of a function, stable under edits elsewhere.
func fname(f *ssa.Function) string {
	if s, ok := fnames[f]; ok {
		return s
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	fnames[f] = s
	return s
}

var fnames = map[*ssa.Function]string{}

var tnames = map[types.Type]string{}

func tname(t types.Type) string {
	if s, ok := tnames[t]; ok {
		return s
	}
	s := strings.ReplaceAll(types.TypeString(t, nil), modPath+"/", "")
	tnames[t] = s
	return s
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func root(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// fnPos is the position of a function.
func (p *Prog) fnPos(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	return p.pos(f.Pos())
}
