package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ownership checks: C01 (frozen values are never written), C03 (storage is not shared), C04 (only mutators have effects).

// mutators are the methods whose documentation says that they change the receiver.
var mutators = map[string]bool{"Add": true, "AddAll": true, "AddValues": true, "Insert": true, "Pop": true, "Remove": true, "RemoveAll": true,
	"RemoveValue": true, "Set": true, "Put": true, "PutAll": true, "Freeze": true, "Resolve": true}

func pkgOf(f *ssa.Function) string {
	f = root(f)
	if f.Pkg != nil {
		return strings.TrimPrefix(strings.TrimPrefix(f.Pkg.Pkg.Path(), modPath), "/")
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.TrimPrefix(strings.TrimPrefix(o.Pkg().Path(), modPath), "/")
	}
	return ""
}

var valuePkgs = map[string]bool{"internal": true, "vf": true, "tf": true, "typ": true, "util": true}

// apiRoots are the functions through which values are used: the exported functions of the packages that implement the
// values, and the methods with exported names.
func (a *Analysis) apiRoots() []*ssa.Function {
	var r []*ssa.Function
	for f := range a.sums {
		if ast.IsExported(f.Name()) && valuePkgs[pkgOf(f)] && a.usable(f) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return fname(r[i]) < fname(r[j]) })
	return r
}

// usable tells if users of the module may call an exported function or method: not the methods of types that they can
// neither name nor get hold of by an interface of the module.
func (a *Analysis) usable(f *ssa.Function) bool {
	recv := f.Signature.Recv()
	if recv == nil {
		return true
	}
	n := namedOf(recv.Type())
	if n == nil || n.Obj().Exported() {
		return true
	}
	for _, it := range a.p.Ifaces {
		if types.Implements(n, it) || types.Implements(types.NewPointer(n), it) {
			return true
		}
	}
	return false
}

// isValue tells if a parameter of type t can hold a value (as opposed to raw Go data).
func (a *Analysis) isValue(t types.Type) bool {
	vi := a.p.iface("Value")
	if types.Implements(t, vi) {
		return true
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return true
	}
	if n := namedOf(t); n != nil {
		return a.valueType(tname(n)) && !isReflectValue(n) && strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
	}
	return false
}

// rawDest tells if the effect is on Go data that the caller hands over as the destination.
func (a *Analysis) rawDest(f *ssa.Function, e Effect) bool {
	if e.R.Kind != rParam || e.R.Elem || e.R.Stor || e.R.Idx >= len(f.Params) {
		return false
	}
	pt := f.Params[e.R.Idx].Type()
	if !a.isValue(pt) {
		return true
	}
	it, ok := pt.Underlying().(*types.Interface)
	return ok && it.NumMethods() == 0 && e.Kind == "reflect"
}

func effConstruct(f *ssa.Function, e Effect) string {
	what := e.Struct
	if e.Field != "" {
		what += "." + e.Field
	}
	return fmt.Sprintf("%s writes %s (%s) of %s", fname(f), what, e.Kind, coarseRef(e.R))
}

func coarseRef(r Ref) string {
	r.Facts, r.Imm = nil, false
	return r.String()
}

func sortedEffects(s *summary) []Effect {
	var l []Effect
	for _, e := range s.effects {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].Pos != l[j].Pos {
			return l[i].Pos < l[j].Pos
		}
		if l[i].R.String() != l[j].R.String() {
			return l[i].R.String() < l[j].R.String()
		}
		return l[i].Field < l[j].Field
	})
	return l
}

func checkC01(a *Analysis, r *Report) {
	a.runSummaries()
	r.Rules = append(r.Rules,
		"frozen-write: a write, on any path of an exported function or method, to memory of a value that exists before the call is dominated by a test that the value is not frozen (or is part of resolving aliases, or sets the frozen flag)")
	r.Assumptions = append(r.Assumptions, "callbacks given by users of the module do not write to the internals of values (they cannot name them)",
		"what a frozen value contains is itself frozen (C02)", "storage is owned by one value, or shared only by immutable values (C03)")
	roots := a.apiRoots()
	r.count("api functions", len(roots))
	for _, f := range roots {
		s := a.sums[f]
		n, bad := 0, 0
		for _, e := range sortedEffects(s) {
			if e.R.Kind == rFresh || e.R.Kind == rGlobal || e.Resolve || a.rawDest(f, e) {
				continue
			}
			n++
			if e.Guarded {
				continue
			}
			if e.Freeze && e.SetTrue && a.isFlagName(e.Struct, e.Field) {
				continue
			}
			bad++
			r.ob(false, "frozen-write", effConstruct(f, e), e.Pos, fmt.Sprintf("%s writes %s although it may be frozen (%s, reached via %s)", fname(f), e.Struct+"."+e.Field, e.R, e.Via))
		}
		r.count("writes examined", n)
		if bad == 0 {
			r.ob(true, "frozen-write", fname(f), a.p.pos(f.Pos()), "")
		}
	}
	// the writes themselves: a written field of a value type with a frozen flag must be seen by the analysis
	r.atLeast("api functions", 400)
	r.atLeast("writes examined", 60)
	// every implementation of a mutator must have effects at all, or panic: one that is silently ignored is not a mutator
	flagTypes := 0
	for _, n := range a.p.Named {
		if st, ok := n.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if a.flag[st.Field(i)] {
					flagTypes++
				}
			}
		}
	}
	r.count("types with a frozen flag", flagTypes)
	r.atLeast("types with a frozen flag", 4)
	a.flagClears(r)
}

func (a *Analysis) isFlagName(st, field string) bool {
	for v := range a.flag {
		if v.Name() == field {
			return true
		}
	}
	return false
}

// flagClears checks that the flag of an existing object is never cleared.
func (a *Analysis) flagClears(r *Report) {
	r.Rules = append(r.Rules, "flag-clear: the frozen flag of an object that is not created by the same function is only ever set to true")
	n := 0
	for _, f := range a.p.Funcs {
		u := a.units[root(f)]
		if u == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !a.flag[fieldVar(fa)] {
					continue
				}
				fs, reach := u.at(st)
				if !reach {
					continue
				}
				n++
				if constTrue(st.Val) {
					r.ob(true, "flag-clear", fname(f), a.p.instrPos(st), "")
					continue
				}
				ok = true
				for _, x := range u.refine(u.refs(fa.X), fa.X, fs) {
					if x.Kind != rFresh && !fs.has(u.key(fa.X), "frozen", false) {
						ok = false
					}
				}
				r.ob(ok, "flag-clear", fname(f), a.p.instrPos(st), "the frozen flag of an existing value may be cleared")
			}
		}
	}
	r.count("flag writes", n)
	r.atLeast("flag writes", 10)
}

func checkC04(a *Analysis, r *Report) {
	a.runSummaries()
	r.Rules = append(r.Rules,
		"pure: a method or function that isn't a mutator writes no memory of its receiver or arguments",
		"pure-args: a mutator writes no memory of its arguments")
	r.Assumptions = append(r.Assumptions, "callbacks given by users of the module are not considered", "what a frozen value contains is itself frozen (C02)")
	roots := a.apiRoots()
	pure, mut := 0, 0
	for _, f := range roots {
		s := a.sums[f]
		isMut := f.Signature.Recv() != nil && mutators[f.Name()]
		bad := 0
		for _, e := range sortedEffects(s) {
			if e.R.Kind != rParam || e.Resolve || a.rawDest(f, e) {
				continue
			}
			if isMut && e.R.Idx == 0 {
				continue
			}
			if isMut && f.Name() == "Freeze" {
				continue
			}
			if e.R.Idx < len(f.Params) && a.stateParam(f.Params[e.R.Idx].Type()) {
				continue
			}
			bad++
			rule := "pure"
			if isMut {
				rule = "pure-args"
			}
			r.ob(false, rule, effConstruct(f, e), e.Pos, fmt.Sprintf("%s has a side effect on %s: %s of %s.%s in %s (via %s)", fname(f), e.R, e.Kind, e.Struct, e.Field, fname(e.In), e.Via))
		}
		if bad == 0 {
			r.ob(true, "pure", fname(f), a.p.pos(f.Pos()), "")
		}
		if isMut {
			mut++
		} else {
			pure++
		}
	}
	r.count("non-mutators", pure)
	r.count("mutators", mut)
	r.atLeast("non-mutators", 400)
	r.atLeast("mutators", 20)
}

// stateParam tells if a parameter is the state of a resolution in progress.
func (a *Analysis) stateParam(t types.Type) bool {
	n := namedOf(t)
	return n != nil && (n.Obj().Name() == "AliasAdder" || n.Obj().Name() == "aliasAdder")
}
