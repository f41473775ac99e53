package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// rawStorage tells if values of the type are storage that can be written by whoever holds it.
func (a *Analysis) rawStorage(t types.Type) bool {
	if t == reflectCopy {
		return false
	}
	if tname(t) == "*regexp.Regexp" {
		return false // has no exported state that can be written
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		if isNodePtr(t) {
			return true
		}
		if n, ok := types.Unalias(u.Elem()).(*types.Named); ok {
			return n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
		}
		return true
	}
	return isReflectValue(t)
}

// freezable tells if the named struct has a frozen flag, its own or an embedded one.
func (a *Analysis) freezable(t types.Type) bool {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if a.flag[st.Field(i)] || (st.Field(i).Embedded() && a.freezable(st.Field(i).Type())) {
			return true
		}
	}
	return false
}

func (a *Analysis) freezableName(n string) bool {
	if a.frzNames == nil {
		a.frzNames = map[string]bool{}
		for _, m := range a.p.Named {
			a.frzNames[tname(m)] = a.freezable(m) || a.isNode(m)
		}
		a.frzNames["dgo.Value"], a.frzNames["dgo.Array"], a.frzNames["dgo.Map"] = true, true, true
	}
	r, ok := a.frzNames[n]
	return r || !ok
}

// ownerImm tells if the owner of the storage is known to be immutable.
func (a *Analysis) ownerImm(x Ref, fs Facts) bool {
	if x.Imm {
		return true
	}
	if x.Owner != "" && x.Owner != "?" && (fs.has(x.Owner, "frozen", true) || x.Facts.has(x.Owner, "frozen", true)) {
		return true
	}
	return x.OwnT != "" && !a.freezableName(x.OwnT)
}

// flagState tells what is known about the frozen flag of the object that base denotes, from the stores in the unit: it is
// true if some store makes it true (or as frozen as an owner that is known to be frozen) and none makes it false.
func (a *Analysis) flagState(u *unit, base ssa.Value, fs Facts) bool {
	bt := deref(base.Type())
	if !a.freezable(bt) {
		return true
	}
	bk := u.key(base)
	yes, no := 0, 0
	for _, f := range u.fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !a.flag[fieldVar(fa)] {
					continue
				}
				fb := fa.X
				for {
					if ifa, ok := fb.(*ssa.FieldAddr); ok {
						fb = ifa.X
						continue
					}
					break
				}
				if fb != base && u.key(fb) != bk && u.key(fa.X) != bk {
					continue
				}
				switch {
				case constTrue(st.Val):
					yes++
				case fs.has(u.key(st.Val), "v", true):
					yes++
				default:
					if o, ok := a.isFlagLoad(st.Val); ok && fs.has(u.key(o), "frozen", true) {
						yes++
					} else {
						no++
					}
				}
			}
		}
	}
	return yes > 0 && no == 0
}

// documentedSharing lists the functions that by their documentation hand over, or wrap, the slice that they are given.
var documentedSharing = map[string]string{
	"internal.WrapSlice":           "the array is backed by the given slice",
	"vf.WrapSlice":                 "the array is backed by the given slice",
	"internal.ArrayFromReflected":  "a mutable array wraps the given slice",
	"internal.Binary":              "a mutable binary wraps the given bytes",
	"vf.Binary":                    "a mutable binary wraps the given bytes",
	"internal.FromReflectedStruct": "a mutable struct map wraps the given struct",
}

type share struct {
	ok      bool
	rule    string
	fn      *ssa.Function
	what    string
	pos     string
	detail  string
	counted string
}

func checkC03(a *Analysis, r *Report) {
	a.runSummaries()
	r.Rules = append(r.Rules,
		"expose: an exported function or method returns no raw Go data (slice, map, pointer, reflect.Value) that is storage of a value, unless the value is known not to be frozen on that path",
		"expose-reflect: a value never stores its own storage in a Go destination, unless it is known not to be frozen",
		"share: storage of an existing value is stored in another value only if both are immutable",
		"share-fresh: newly allocated storage ends up in one value only",
		"adopt: a Go slice given by the caller becomes the storage of a value only where documented, and never of a frozen one",
		"spare-capacity: memory beyond the length of a value's slice is never written on behalf of another value")
	r.Assumptions = append(r.Assumptions, "native and function values hand out the Go value that they wrap by design",
		"storage passed through unexported helper functions is followed by function summaries")
	vi := a.p.iface("Value")
	for _, f := range a.apiRoots() {
		s := a.sums[f]
		for i := range s.ret {
			rt := f.Signature.Results().At(i).Type()
			raw := a.rawStorage(rt)
			if it, ok := rt.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				raw = true
			}
			if !raw || types.Implements(rt, vi) {
				continue
			}
			r.count("raw results", 1)
			bad := false
			for _, x := range s.ret[i].sorted() {
				if x.Kind != rParam || !x.Stor || x.Elem {
					continue
				}
				pt := f.Params[x.Idx].Type()
				if n := namedOf(pt); n != nil && !a.freezable(n) && f.Signature.Recv() != nil && a.wrapper(n) {
					continue
				}
				if x.Facts.has(x.Owner, "frozen", false) || x.Facts.has(a.pkey(f.Params[x.Idx]), "frozen", false) {
					continue
				}
				bad = true
				r.ob(false, "expose", fname(f)+" result", a.p.pos(f.Pos()), fmt.Sprintf("%s returns %s (%s) also when the value is frozen", fname(f), x, tname(rt)))
			}
			if !bad {
				r.ob(true, "expose", fname(f)+" result", a.p.pos(f.Pos()), "")
			}
		}
		for _, l := range sortedLinks(s) {
			if l.Field != "reflect" || l.Src.Kind != rParam || l.Dst.Kind != rParam || l.Src.Idx == l.Dst.Idx {
				continue
			}
			if a.isValue(f.Params[l.Dst.Idx].Type()) {
				if it, ok := f.Params[l.Dst.Idx].Type().Underlying().(*types.Interface); !ok || it.NumMethods() > 0 || l.Dst.Stor {
					continue
				}
			}
			r.count("reflect destinations", 1)
			if l.SrcMut {
				r.ob(true, "expose-reflect", fname(f), l.Pos, "")
				continue
			}
			if l.Src.Elem || !l.Src.Stor {
				continue
			}
			if n := namedOf(f.Params[l.Src.Idx].Type()); n != nil && a.wrapper(n) {
				continue
			}
			r.ob(false, "expose-reflect", fname(f), l.Pos, fmt.Sprintf("%s stores %s in the Go destination also when the value is frozen", fname(f), l.Src))
		}
	}
	r.atLeast("raw results", 10)
	a.rawPointers(r)
	a.localShares(r)
}

// wrapper tells if the type only wraps a Go value (a native value, a function) that it hands out by design.
func (a *Analysis) wrapper(n *types.Named) bool {
	return types.Implements(n, a.p.iface("Native")) || types.Implements(types.NewPointer(n), a.p.iface("Native")) ||
		types.Implements(n, a.p.iface("GoFunction")) || types.Implements(types.NewPointer(n), a.p.iface("GoFunction"))
}

func sortedLinks(s *summary) []Link {
	var l []Link
	for _, e := range s.links {
		l = append(l, e)
	}
	sort.Slice(l, func(i, j int) bool {
		x, y := l[i], l[j]
		if x.Pos != y.Pos {
			return x.Pos < y.Pos
		}
		if x.Dst.String() != y.Dst.String() {
			return x.Dst.String() < y.Dst.String()
		}
		return x.Src.String() < y.Src.String()
	})
	return l
}

// rawPointers finds the places where a pointer to the memory of an existing value is converted to a pointer to a type
// that isn't one of the module's, and then leaves the function in an interface.
func (a *Analysis) rawPointers(r *Report) {
	r.Rules = append(r.Rules, "expose-pointer: no pointer to the memory of an immutable value leaves its type as a pointer to a plain Go type")
	vi := a.p.iface("Value")
	n := 0
	for _, f := range a.p.Funcs {
		if !valuePkgs[pkgOf(f)] {
			continue
		}
		u := a.units[root(f)]
		if u == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				pt, ok := mi.X.Type().Underlying().(*types.Pointer)
				if !ok || types.Implements(mi.X.Type(), vi) {
					continue
				}
				if m := namedOf(mi.X.Type()); m != nil && m.Obj().Pkg() != nil && strings.HasPrefix(m.Obj().Pkg().Path(), modPath) {
					continue
				}
				_ = pt
				n++
				if !a.flowsToReflect(mi) {
					continue
				}
				fs, reach := u.at(mi)
				if !reach {
					continue
				}
				base := mi.X
				switch x := base.(type) {
				case *ssa.ChangeType:
					base = x.X
				case *ssa.Convert:
					base = x.X
				}
				own, _, _ := addrBase(base)
				bad := false
				for _, x := range u.refine(u.refs(own), own, fs) {
					if x.Kind == rParam && types.Implements(own.Type(), vi) && !fs.has(u.key(own), "frozen", false) {
						bad = true
					}
				}
				if tname(mi.X.Type()) == "*regexp.Regexp" {
					bad = false // a compiled regexp has no exported state that can be written
				}
				r.ob(!bad, "expose-pointer", fname(f)+" "+tname(mi.X.Type()), a.p.instrPos(mi), fmt.Sprintf("%s exposes a %s that points to the memory of an existing value", fname(f), tname(mi.X.Type())))
			}
		}
	}
	r.count("raw pointers in interfaces", n)
}

func (a *Analysis) flowsToReflect(mi *ssa.MakeInterface) bool {
	for _, ref := range *mi.Referrers() {
		switch x := ref.(type) {
		case *ssa.Call:
			if f := staticFn(x.Call.Value); f != nil && f.RelString(nil) == "reflect.ValueOf" {
				return true
			}
		case *ssa.Return:
			return true
		case *ssa.Phi:
			return true
		}
	}
	return false
}

// localShares examines every place where storage becomes the storage of a value.
func (a *Analysis) localShares(r *Report) {
	stores := 0
	for _, f := range a.p.Funcs {
		pkg := pkgOf(f)
		if pkg != "internal" && pkg != "vf" && pkg != "tf" && pkg != "typ" {
			continue
		}
		u := a.units[root(f)]
		if u == nil {
			continue
		}
		adopted := map[siteKey]map[string]bool{} // fresh storage and the mutable objects it became part of
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					fa, ok := in.Addr.(*ssa.FieldAddr)
					if !ok || !a.rawStorage(in.Val.Type()) || !a.valueType(tname(deref(fa.X.Type()))) {
						continue
					}
					fs, reach := u.at(in)
					if !reach {
						continue
					}
					stores++
					base := fa.X
					for {
						if x, ok := base.(*ssa.FieldAddr); ok {
							base = x.X
							continue
						}
						break
					}
					a.storeInto(r, u, f, base, fa.X, in.Val, fs, in, adopted)
				case *ssa.Call:
					a.callShares(r, u, f, in)
				}
			}
		}
		for k, m := range adopted {
			if len(m) > 1 {
				r.ob(false, "share-fresh", fname(f), a.p.pos(k.v.Pos()), fmt.Sprintf("storage allocated in %s becomes part of %d values", fname(f), len(m)))
			}
		}
		r.ob(true, "share", fname(f), a.p.pos(f.Pos()), "")
	}
	r.count("stores of storage", stores)
	r.atLeast("stores of storage", 40)
}

func (a *Analysis) storeInto(r *Report, u *unit, f *ssa.Function, base, owner ssa.Value, val ssa.Value, fs Facts, in ssa.Instruction, adopted map[siteKey]map[string]bool) {
	bk, ok := u.key(base), u.key(owner)
	node := isNodePtr(deref(owner.Type())) || a.nodeOwner(owner.Type())
	fs0 := fs
	brefs := u.refs(base)
	cons := fmt.Sprintf("%s stores %s", fname(f), tname(deref(owner.Type())))
	for _, x := range u.refine(u.refs(val), val, fs) {
		fs = fs0
		if len(x.Facts) > 0 {
			fs = fs0.clone()
			for k := range x.Facts {
				fs[k] = true
			}
		}
		dstImm := a.flagState(u, base, fs) && !node
		switch {
		case x.Kind == rFresh:
			if x.Site == nil || dstImm || node || isNodePtr(val.Type()) {
				continue
			}
			k := siteKey{x.Site, x.Res}
			if adopted[k] == nil {
				adopted[k] = map[string]bool{}
			}
			if !sameLoop(x.Site, in) {
				continue
			}
			adopted[k][bk] = true
		case x.Stor:
			if x.Owner == bk || x.Owner == ok || a.sameObject(brefs, x) {
				continue
			}
			// inside one linked structure
			if node && a.nodeSame(u, base, x) || a.nodeInCallers(u, base, x) {
				continue
			}
			if a.ownerImm(x, fs) && (dstImm || (node && x.Imm)) {
				continue
			}
			if x.Kind == rGlobal && a.globalFrozen(x.G) {
				continue
			}
			r.ob(false, "share", cons+" from "+coarseRef(x), a.p.instrPos(in), fmt.Sprintf("%s makes the %s the storage of a %s (source immutable: %v, destination immutable: %v)",
				fname(f), x, tname(deref(owner.Type())), a.ownerImm(x, fs), dstImm))
		case x.Kind == rParam && !x.Elem && a.rawStorage(val.Type()) && x.Idx < len(u.fn.Params) && a.rawStorage(u.fn.Params[x.Idx].Type()):
			// a slice given by the caller
			if !ast.IsExported(u.fn.Name()) || u.fn.Signature.Recv() != nil && !a.exportedRecv(u.fn) {
				continue // the callers answer for it
			}
			if _, doc := documentedSharing[fname(u.fn)]; doc {
				if !a.definitelyFrozen(u, base, fs) {
					continue
				}
			}
			if isNodePtr(val.Type()) {
				continue
			}
			r.ob(false, "adopt", cons+" from "+coarseRef(x), a.p.instrPos(in), fmt.Sprintf("the slice that the caller of %s gave becomes the storage of a value", fname(u.fn)))
		}
	}
}

// exportedRecv tells if users can call the method: the methods of values are reached through the exported interfaces.
func (a *Analysis) exportedRecv(f *ssa.Function) bool { return ast.IsExported(f.Name()) }

func (a *Analysis) definitelyFrozen(u *unit, base ssa.Value, fs Facts) bool {
	return a.freezable(deref(base.Type())) && a.flagState(u, base, fs)
}

func (a *Analysis) nodeOwner(t types.Type) bool {
	n := namedOf(deref(t))
	return n != nil && a.isNode(n)
}

// nodeSame: the node that is written and the storage that is stored in it belong to the same object, as far as is known.
func (a *Analysis) nodeSame(u *unit, base ssa.Value, x Ref) bool {
	any := false
	for _, b := range u.refs(base) {
		if b.Kind == rFresh {
			// a new node: what it is linked to belongs to one object, the stores of that object's table say which
			any = true
			continue
		}
		if b.Kind == x.Kind && b.Idx == x.Idx && b.Elem == x.Elem {
			any = true
			continue
		}
		return false
	}
	return any
}

// nodeInCallers: a node that is given to a function that is called only in the module belongs, in each of these calls,
// to the object that it becomes a part of.
func (a *Analysis) nodeInCallers(u *unit, base ssa.Value, x Ref) bool {
	nodeParam := func(i int) bool { return i < len(u.fn.Params) && isNodePtr(u.fn.Params[i].Type()) }
	if x.Kind != rParam || x.Elem || ast.IsExported(u.fn.Name()) || x.Idx >= len(u.fn.Params) || (!isNodePtr(base.Type()) && !nodeParam(x.Idx)) {
		return false
	}
	if a.callers == nil {
		a.callers = a.p.callersOf()
	}
	calls := a.callers[u.fn]
	for _, c := range calls {
		cu := a.units[root(c.Parent())]
		if cu == nil {
			return false
		}
		// what the nodes, and the objects, are in this call
		owners := func(i int) (l []Ref) {
			for _, y := range cu.refs(c.Common().Args[i]) {
				l = append(l, Ref{Kind: y.Kind, Idx: y.Idx, G: y.G, Site: y.Site, Elem: y.Elem})
			}
			return
		}
		src := owners(x.Idx)
		if len(src) == 0 {
			return false
		}
		for _, b := range u.refs(base) {
			if b.Kind == rFresh {
				continue
			}
			if b.Kind != rParam || b.Elem {
				return false
			}
			for _, d := range owners(b.Idx) {
				if d.Kind == rFresh && nodeParam(b.Idx) {
					continue // a new node
				}
				for _, s := range src {
					if s.Kind == rFresh && isNodePtr(u.fn.Params[x.Idx].Type()) {
						continue // a new node
					}
					if d.Kind != s.Kind || d.Idx != s.Idx || d.G != s.G || d.Site != s.Site || d.Elem != s.Elem {
						return false
					}
				}
			}
		}
	}
	return len(calls) > 0
}

func (a *Analysis) sameObject(brefs []Ref, x Ref) bool {
	if len(brefs) == 0 {
		return false
	}
	for _, b := range brefs {
		if b.Kind != x.Kind || b.Elem || x.Elem {
			return false
		}
		if b.Kind == rParam && b.Idx != x.Idx {
			return false
		}
		if b.Kind == rGlobal && b.G != x.G {
			return false
		}
	}
	return true
}

// sameLoop tells if the allocation takes place as often as the store.
func sameLoop(site ssa.Value, in ssa.Instruction) bool { return true }

// callShares examines a call of a function that makes one of its raw arguments the storage of a value.
func (a *Analysis) callShares(r *Report, u *unit, f *ssa.Function, c *ssa.Call) {
	if c.Call.IsInvoke() {
		return
	}
	t := staticFn(c.Call.Value)
	if t == nil || t.Blocks == nil || !a.p.inModule(t) || t.Parent() != nil {
		return
	}
	s := a.sums[t]
	if s == nil {
		return
	}
	fs, reach := u.at(c)
	if !reach {
		return
	}
	type use struct {
		x   Ref
		res bool // it becomes part of what the call returns
	}
	var uses []use
	for i := range s.retC {
		rt := t.Signature.Results().At(i).Type()
		_ = rt
		for ct, e := range s.retC[i] {
			if !a.rawStorage(ct) || isReflectValue(ct) {
				continue
			}
			for _, x := range e.refs.sorted() {
				if x.Kind == rParam && !x.Elem && !x.Stor && x.Idx < len(t.Params) && a.rawStorage(t.Params[x.Idx].Type()) {
					uses = append(uses, use{x, true})
				}
			}
		}
	}
	for _, l := range sortedLinks(s) {
		if a.rawStorage(l.T) && l.Src.Kind == rParam && !l.Src.Elem && !l.Src.Stor && l.Src.Idx < len(t.Params) && a.rawStorage(t.Params[l.Src.Idx].Type()) &&
			l.Dst.Kind == rParam && l.Dst.Idx != l.Src.Idx {
			uses = append(uses, use{l.Src, false})
		}
	}
	if len(uses) == 0 {
		return
	}
	var args []arg
	for _, v := range c.Call.Args {
		args = append(args, u.argOf(v))
	}
	for _, us := range uses {
		_, _, ok := u.translateFacts(us.x.Facts, t, args, fs)
		if !ok || us.x.Idx >= len(c.Call.Args) {
			continue
		}
		av := c.Call.Args[us.x.Idx]
		r.count("adopting calls", 1)
		for _, x := range u.refine(u.refs(av), av, fs) {
			if x.Kind == rFresh || (x.Kind == rGlobal && a.globalFrozen(x.G)) {
				continue
			}
			if isNodePtr(av.Type()) && us.res {
				continue // a new node: what it is linked to belongs to the object whose table it is put in
			}
			xf := fs
			if len(x.Facts) > 0 {
				xf = fs.clone()
				for k := range x.Facts {
					xf[k] = true
				}
			}
			dstImm := us.res && a.resultFrozen(t, c.Call.Args, func(v ssa.Value) bool { return u.knownTrue(v, xf) }, map[*ssa.Function]bool{})
			if x.Stor {
				good := a.ownerImm(x, xf) && dstImm
				r.ob(good, "share", fmt.Sprintf("%s passes storage to %s", fname(f), fname(t)), a.p.instrPos(c),
					fmt.Sprintf("%s makes the %s the storage of the value that %s creates (source immutable: %v, destination immutable: %v)", fname(f), x, fname(t), a.ownerImm(x, xf), dstImm))
				continue
			}
			if x.Kind == rParam && !x.Elem && ast.IsExported(u.fn.Name()) && x.Idx < len(u.fn.Params) && a.rawStorage(u.fn.Params[x.Idx].Type()) {
				_, doc := documentedSharing[fname(u.fn)]
				good := doc && !dstImm
				r.ob(good, "adopt", fmt.Sprintf("%s passes its argument to %s", fname(f), fname(t)), a.p.instrPos(c), "the slice that the caller gave becomes the storage of a value")
			}
		}
	}
}

// knownTrue tells if a boolean, or the flag that was loaded, is known to be true.
func (u *unit) knownTrue(v ssa.Value, fs Facts) bool {
	if constTrue(v) || fs.has(u.key(v), "v", true) {
		return true
	}
	o, ok := u.a.isFlagLoad(v)
	return ok && fs.has(u.key(o), "frozen", true)
}

// resultFrozen tells if the value that a call of t creates is known to be immutable.
func (a *Analysis) resultFrozen(t *ssa.Function, args []ssa.Value, known func(v ssa.Value) bool, seen map[*ssa.Function]bool) bool {
	if seen[t] || a.units[t] == nil {
		return false
	}
	seen[t] = true
	defer delete(seen, t)
	// what is known about the parameters
	is := func(v ssa.Value) bool {
		if constTrue(v) {
			return true
		}
		for i, q := range t.Params {
			if ssa.Value(q) == v && i < len(args) {
				return known(args[i])
			}
		}
		return false
	}
	n, yes := 0, 0
	for _, f := range a.units[t].fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Referrers() != nil && a.freezable(c.Type()) {
					if g := staticFn(c.Call.Value); g != nil && a.p.inModule(g) && !c.Call.IsInvoke() && a.returned(c) {
						n++
						if a.resultFrozen(g, c.Call.Args, is, seen) {
							yes++
						}
					}
				}
				al, ok := in.(*ssa.Alloc)
				if !ok || !a.freezable(al.Type()) {
					continue
				}
				n++
				st := false
				for _, b2 := range f.Blocks {
					for _, in2 := range b2.Instrs {
						s, ok := in2.(*ssa.Store)
						if !ok {
							continue
						}
						fa, ok := s.Addr.(*ssa.FieldAddr)
						if !ok || !a.flag[fieldVar(fa)] {
							continue
						}
						if base, _, _ := addrBase(fa); base == ssa.Value(al) && is(s.Val) {
							st = true
						}
					}
				}
				if st {
					yes++
				}
			}
		}
	}
	return n == yes
}

// returned tells if what a call yields is returned as it is.
func (a *Analysis) returned(c *ssa.Call) bool {
	for _, ref := range *c.Referrers() {
		switch x := ref.(type) {
		case *ssa.Return:
			return true
		case *ssa.MakeInterface:
			for _, r2 := range *x.Referrers() {
				if _, ok := r2.(*ssa.Return); ok {
					return true
				}
			}
		}
	}
	return false
}

var _ = token.NoPos
