package main

import (
	"container/heap"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// The provenance and effect analysis. For every function it computes, as a summary in terms of the parameters,
//
//	ret      what each result may refer to
//	effects  the memory that exists before the call and that the call may write
//	links    the references that the call may store into memory that exists before the call
//
// A function and the closures inside it are analysed together (a unit). Calls through interfaces are resolved to all
// implementations in the module.

type rootKind int

const (
	rParam rootKind = iota
	rFresh
	rGlobal
)

// Ref says what a value may refer to: the object that the root denotes, storage inside it (Stor), or another object
// that is reachable from it (Elem).
type Ref struct {
	Kind  rootKind
	Idx   int       // parameter index
	Site  ssa.Value // Fresh: the allocation
	Res   int       // Fresh: which result of a call
	G     *ssa.Global
	Elem  bool
	Stor  bool
	Owner string // key of the object that owns the storage
	OwnT  string // type of that object
	Imm   bool   // known to be frozen, or not freezable
	NoCap bool   // a slice without spare capacity
	Facts Facts  // facts about the parameters that hold when the value refers to this
}

type refKey struct {
	kind             rootKind
	idx, res         int
	site             ssa.Value
	g                *ssa.Global
	elem, stor, i, n bool
	owner            string
}

func (r Ref) ident() refKey {
	k := refKey{kind: r.Kind, idx: r.Idx, res: r.Res, site: r.Site, g: r.G, elem: r.Elem, stor: r.Stor, i: r.Imm, n: r.NoCap}
	if r.Stor {
		k.owner = r.Owner
	}
	return k
}

// coarse is ident for use in summaries' effects.
func (r Ref) coarse() refKey {
	k := r.ident()
	k.owner = ""
	k.i, k.n = false, false
	return k
}

func (r Ref) String() string {
	s := ""
	switch r.Kind {
	case rParam:
		s = fmt.Sprintf("param %d", r.Idx)
	case rFresh:
		s = "fresh " + r.Site.Name()
	case rGlobal:
		s = "global " + r.G.Name()
	}
	if r.Elem {
		s = "element of " + s
	}
	if r.Stor {
		s = "storage of " + s
	}
	if r.Imm {
		s += " (immutable)"
	}
	if len(r.Facts) > 0 {
		s += " if " + strings.Join(r.Facts.list(), ",")
	}
	return s
}

// refSet is a set of references, in the order in which they were found.
type refSet struct {
	idx  map[refKey]int
	list []Ref
}

// add returns true if the set changed.
func (s *refSet) add(r Ref) bool {
	id := r.ident()
	if i, ok := s.idx[id]; ok {
		o := s.list[i]
		if len(o.Facts) == 0 {
			return false
		}
		m := intersect(o.Facts, r.Facts)
		if len(m) == len(o.Facts) {
			return false
		}
		o.Facts = m
		n := make([]Ref, len(s.list))
		copy(n, s.list)
		n[i] = o
		s.list = n
		return true
	}
	if s.idx == nil {
		s.idx = map[refKey]int{}
	}
	s.idx[id] = len(s.list)
	s.list = append(s.list, r)
	return true
}

func (s *refSet) sorted() []Ref {
	if s == nil {
		return nil
	}
	return s.list[:len(s.list):len(s.list)]
}

type siteKey struct {
	v   ssa.Value
	res int
}

// content is what was stored in a fresh object, one set per type of the stored value.
type content map[types.Type]*contentT

type contentT struct {
	t    types.Type
	refs refSet
}

type effKey struct {
	kind, st, field, pos   string
	r                      refKey
	guarded, set, res, frz bool
}

type linkKey struct {
	dst, src   refKey
	t          types.Type
	field, pos string
}

// Effect is a write to memory that exists before the call.
type Effect struct {
	Kind    string // store, append, copy, mapupdate, reflect, sort
	R       Ref
	Struct  string // the type of the struct, or of the slice, that is written
	Field   string
	In      *ssa.Function
	Pos     string
	Guarded bool // only takes place when the object that is written is not frozen
	SetTrue bool // stores the constant true
	Resolve bool // takes place in an AliasContainer's Resolve method, or in something it calls
	Freeze  bool // takes place in a Freeze method
	Via     string
}

func (e Effect) ident() effKey {
	return effKey{e.Kind, e.Struct, e.Field, "", e.R.coarse(), e.Guarded, e.SetTrue, e.Resolve, e.Freeze}
}

func (e Effect) String() string {
	return fmt.Sprintf("%s of %s.%s (%s) at %s in %s", e.Kind, e.Struct, e.Field, e.R, e.Pos, fname(e.In))
}

// Link is the storing of a reference in memory that exists before the call.
type Link struct {
	Dst, Src Ref
	T        types.Type
	Field    string
	Pos      string
	In       *ssa.Function
	Facts    Facts
	SrcMut   bool // what the source belongs to is known not to be frozen
}

func (l Link) ident() linkKey {
	return linkKey{l.Dst.coarse(), l.Src.coarse(), l.T, l.Field, ""}
}

type summary struct {
	ret     []*refSet
	retC    []content // what a fresh result contains
	effects map[effKey]Effect
	links   map[linkKey]Link
}

type unit struct {
	a       *Analysis
	fn      *ssa.Function
	fns     []*ssa.Function
	pts     map[ssa.Value]*refSet
	cont    map[siteKey]content
	sum     *summary
	changed bool
	bodies  map[*ssa.Function]bool
	facts   map[ssa.Instruction]Facts
	nofact  map[ssa.Instruction]bool
	keys    map[ssa.Value]string
	resSets map[*ssa.Call][]*refSet
	edges   map[[2]*ssa.BasicBlock]Facts
	dyns    map[*ssa.CallCommon][]*ssa.Function
}

func (a *Analysis) runSummaries() {
	if a.sums != nil {
		return
	}
	a.sums = map[*ssa.Function]*summary{}
	a.units = map[*ssa.Function]*unit{}
	var roots []*ssa.Function
	for _, f := range a.p.Funcs {
		if f.Parent() == nil && (f.Signature.Recv() != nil || f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#")) {
			roots = append(roots, f)
			u := &unit{a: a, fn: f, pts: map[ssa.Value]*refSet{}, cont: map[siteKey]content{}, bodies: map[*ssa.Function]bool{},
				facts: map[ssa.Instruction]Facts{}, nofact: map[ssa.Instruction]bool{}, keys: map[ssa.Value]string{}, resSets: map[*ssa.Call][]*refSet{}, edges: map[[2]*ssa.BasicBlock]Facts{}, dyns: map[*ssa.CallCommon][]*ssa.Function{}}
			var add func(*ssa.Function)
			add = func(g *ssa.Function) {
				u.fns = append(u.fns, g)
				u.bodies[g] = true
				for _, c := range g.AnonFuncs {
					add(c)
				}
			}
			add(f)
			n := f.Signature.Results().Len()
			u.sum = &summary{effects: map[effKey]Effect{}, links: map[linkKey]Link{}}
			for i := 0; i < n; i++ {
				u.sum.ret = append(u.sum.ret, &refSet{})
				u.sum.retC = append(u.sum.retC, content{})
			}
			a.units[f] = u
			a.sums[f] = u.sum
		}
	}
	// who uses whose summary
	deps := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range roots {
		for _, g := range a.units[f].fns {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					var tgts []*ssa.Function
					if c, ok := in.(ssa.CallInstruction); ok {
						tgts, _ = a.p.callees(c.Common())
					}
					if mc, ok := in.(*ssa.MakeClosure); ok {
						if m := boundMethod(mc); m != nil {
							tgts = append(tgts, a.boundTargets(mc)...)
						}
					}
					for _, op := range in.Operands(nil) {
						if fv, ok := (*op).(*ssa.Function); ok {
							tgts = append(tgts, fv)
						}
					}
					for _, t := range tgts {
						t = root(t)
						if deps[t] == nil {
							deps[t] = map[*ssa.Function]bool{}
						}
						deps[t][f] = true
					}
				}
			}
		}
	}
	inq := map[*ssa.Function]bool{}
	// callees first
	rank := map[*ssa.Function]int{}
	{
		uses := map[*ssa.Function][]*ssa.Function{}
		for t, m := range deps {
			for f := range m {
				uses[f] = append(uses[f], t)
			}
		}
		for _, l := range uses {
			sort.Slice(l, func(i, j int) bool { return fname(l[i]) < fname(l[j]) })
		}
		n := 0
		var visit func(f *ssa.Function)
		seen := map[*ssa.Function]bool{}
		visit = func(f *ssa.Function) {
			if seen[f] {
				return
			}
			seen[f] = true
			for _, t := range uses[f] {
				visit(t)
			}
			n++
			rank[f] = n
		}
		for _, f := range roots {
			visit(f)
		}
	}
	q := &funcHeap{rank: rank}
	for _, f := range roots {
		inq[f] = true
		heap.Push(q, f)
	}
	steps := 0
	for q.Len() > 0 {
		f := heap.Pop(q).(*ssa.Function)
		inq[f] = false
		steps++
		if os.Getenv("STATS") != "" && steps%1000 == 0 {
			te, tl := 0, 0
			for _, s := range a.sums {
				te += len(s.effects)
				tl += len(s.links)
			}
			for g, s := range a.sums {
				if len(s.links) > 100 {
					fmt.Println("  links", fname(g), len(s.links))
				}
			}
			fmt.Println("steps", steps, "queue", q.Len(), "effects", te, "links", tl, fname(f), len(a.sums[f].effects), len(a.sums[f].links))
		}
		if m := os.Getenv("MAX"); m != "" && fmt.Sprint(steps) == m {
			return
		}
		if steps > 200000 {
			failf("provenance analysis did not terminate")
		}
		t0 := time.Now()
		ch := a.units[f].run()
		if d := time.Since(t0); os.Getenv("STATS") != "" && d > 200*time.Millisecond {
			n := 0
			for _, c := range a.units[f].cont {
				for _, e := range c {
					n += len(e.refs.list)
				}
			}
			fmt.Println("slow", fname(f), d, len(a.sums[f].effects), len(a.sums[f].links), "content", n)
		}
		if ch {
			for d := range deps[f] {
				if !inq[d] && a.units[d] != nil {
					inq[d] = true
					heap.Push(q, d)
				}
			}
		}
	}
	a.Steps = steps
}

// boundMethod returns the method of a bound method value closure.
func boundMethod(mc *ssa.MakeClosure) *types.Func {
	f := mc.Fn.(*ssa.Function)
	if f.Synthetic != "" && strings.HasPrefix(f.Synthetic, "bound method wrapper") {
		m, _ := f.Object().(*types.Func)
		return m
	}
	return nil
}

func (a *Analysis) boundTargets(mc *ssa.MakeClosure) []*ssa.Function {
	m := boundMethod(mc)
	if m == nil {
		return nil
	}
	rt := mc.Bindings[0].Type()
	if it, ok := rt.Underlying().(*types.Interface); ok {
		var r []*ssa.Function
		for _, t := range a.p.implementers(it) {
			if f := a.p.methodOf(t, m.Name()); f != nil && f.Blocks != nil {
				r = append(r, f)
			}
		}
		return r
	}
	if f := a.p.SSA.FuncValue(m); f != nil && f.Blocks != nil && a.p.inModule(f) {
		return []*ssa.Function{f}
	}
	return nil
}

func (u *unit) key(v ssa.Value) string {
	if k, ok := u.keys[v]; ok {
		return k
	}
	k := u.a.key(v)
	u.keys[v] = k
	return k
}

func (u *unit) at(in ssa.Instruction) (Facts, bool) {
	if u.nofact[in] {
		return nil, false
	}
	if f, ok := u.facts[in]; ok {
		return f, true
	}
	f := u.a.at(in)
	if f == nil {
		u.nofact[in] = true
		return nil, false
	}
	u.facts[in] = f
	return f, true
}

func (u *unit) edge(b, s *ssa.BasicBlock) (Facts, bool) {
	k := [2]*ssa.BasicBlock{b, s}
	if f, ok := u.edges[k]; ok {
		return f, f != nil
	}
	f := u.a.edge(b, s)
	u.edges[k] = f
	return f, f != nil
}

// paramFacts keeps the facts that are about parameters of the unit's function: they stay true throughout the call.
func (u *unit) paramFacts(f Facts) Facts {
	r := Facts{}
	pre := "P:" + fname(u.fn) + ":"
	for k := range f {
		if strings.HasPrefix(k, pre) && (strings.Contains(k, "|frozen=") || strings.Contains(k, "|v=")) {
			r[k] = true
		}
	}
	return r
}

func inert(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Kind() != types.UnsafePointer
	case *types.Signature, *types.Chan:
		return true
	case *types.Tuple:
		return false
	}
	return false
}

// storageType tells if a field of type t is storage that belongs to the object, rather than a reference to another
// object
func (a *Analysis) storageType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map, *types.Array:
		return true
	case *types.Struct:
		return true
	case *types.Pointer:
		if n := namedOf(t); n != nil {
			if _, ok := n.Underlying().(*types.Struct); ok {
				return a.isNode(n)
			}
			if n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return true
			}
			return false
		}
		_ = u
		return true
	}
	return false
}

func isNodePtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	if !ok {
		return false
	}
	n := namedOf(p)
	return n != nil && nodeStruct(n)
}

// isNode tells if the struct is the node of a linked structure: it has a field of its own pointer type.
func (a *Analysis) isNode(n *types.Named) bool { return nodeStruct(n) }

func nodeStruct(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if p, ok := st.Field(i).Type().(*types.Pointer); ok && types.Identical(p.Elem(), n) {
			return true
		}
	}
	return false
}

func (u *unit) set(v ssa.Value) *refSet {
	s, ok := u.pts[v]
	if !ok {
		s = &refSet{}
		u.pts[v] = s
	}
	return s
}

func (u *unit) addAll(dst ssa.Value, rs []Ref) {
	s := u.set(dst)
	for _, r := range rs {
		if s.add(r) {
			u.changed = true
		}
	}
}

// refs yields what v may refer to.
func (u *unit) refs(v ssa.Value) []Ref {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		return nil
	case *ssa.Global:
		return []Ref{{Kind: rGlobal, G: v}}
	case *ssa.FreeVar:
		if b := binding(v); b != nil {
			return u.refs(b)
		}
		return nil
	case *ssa.Parameter:
		if v.Parent() == u.fn {
			if inert(v.Type()) {
				return nil
			}
			for i, p := range u.fn.Params {
				if p == v {
					return []Ref{{Kind: rParam, Idx: i}}
				}
			}
		}
	}
	if inert(v.Type()) {
		return nil
	}
	return u.pts[v].sorted()
}

func fresh(v ssa.Value, res int) Ref { return Ref{Kind: rFresh, Site: v, Res: res} }

func (u *unit) contentOf(k siteKey) content {
	c, ok := u.cont[k]
	if !ok {
		c = content{}
		u.cont[k] = c
	}
	return c
}

var canonTypes typeutil.Map

// canonType yields one representative for all identical types.
func canonType(t types.Type) types.Type {
	if x := canonTypes.At(t); x != nil {
		return x.(types.Type)
	}
	canonTypes.Set(t, t)
	return t
}

func (c content) add(t types.Type, r Ref) bool {
	t = canonType(t)
	e, ok := c[t]
	if !ok {
		e = &contentT{t: t}
		c[t] = e
	}
	return e.refs.add(r)
}

var mayHoldMemo = map[[2]types.Type]bool{}

func mayHold(stored, wanted types.Type) bool {
	k := [2]types.Type{stored, wanted}
	r, ok := mayHoldMemo[k]
	if !ok {
		r = mayHold1(stored, wanted)
		mayHoldMemo[k] = r
	}
	return r
}

func mayHold1(stored, wanted types.Type) bool {
	if types.Identical(stored, wanted) {
		return true
	}
	if stored == reflectCopy && isReflectValue(wanted) {
		return false
	}
	if isNodePtr(wanted) {
		// the nodes of a linked structure are private to it: what is read as a node was stored as a node (an entry that
		// is read as a value stays a value; a type assertion that turns it back into a node reads no storage)
		if _, ok := stored.Underlying().(*types.Interface); ok {
			return false
		}
		if isReflectValue(stored) || stored == reflectCopy {
			return false
		}
	}
	if _, ok := stored.Underlying().(*types.Interface); ok {
		if _, ok := wanted.Underlying().(*types.Interface); ok {
			return true
		}
		return types.AssertableTo(stored.Underlying().(*types.Interface), wanted)
	}
	if it, ok := wanted.Underlying().(*types.Interface); ok {
		return types.Implements(stored, it)
	}
	// containers of different static types: structs copied by value, slices of slices
	if _, ok := stored.Underlying().(*types.Struct); ok {
		return true
	}
	if _, ok := wanted.Underlying().(*types.Struct); ok {
		return true
	}
	return types.Identical(stored.Underlying(), wanted.Underlying())
}

// load yields what a value of type t that is read from the object (or storage) r may refer to. base is the value that
// denotes r.
func (u *unit) load(r Ref, t types.Type, base ssa.Value) []Ref {
	return u.loadBy(r, t, base, slotHolds)
}

// slotHolds tells if a slot that a value of static type stored was stored in can be read as a value of type wanted: the
// types are identical unless a struct that contains the slot was copied, or reflection was used.
func slotHolds(stored, wanted types.Type) bool {
	if types.Identical(stored, wanted) {
		return true
	}
	if types.IsInterface(stored) || types.IsInterface(wanted) {
		return false
	}
	return mayHold(stored, wanted)
}

func (u *unit) loadBy(r Ref, t types.Type, base ssa.Value, holds func(a, b types.Type) bool) []Ref {
	if inert(t) {
		return nil
	}
	switch r.Kind {
	case rFresh:
		var rs []Ref
		for _, e := range u.contentOf(siteKey{r.Site, r.Res}) {
			if holds(e.t, t) {
				for _, x := range e.refs.sorted() {
					if _, isS := e.t.Underlying().(*types.Struct); isS && e.t != reflectCopy && !types.Identical(e.t, t) {
						// a struct value was stored, read a field of it
						rs = append(rs, u.load1(x, t, base, 3)...)
					} else {
						rs = append(rs, x)
					}
				}
			}
		}
		return rs
	}
	return u.load1(r, t, base, 0)
}

func (u *unit) load1(r Ref, t types.Type, base ssa.Value, d int) []Ref {
	if r.Kind == rFresh {
		if d > 5 {
			return nil
		}
		var rs []Ref
		for _, e := range u.contentOf(siteKey{r.Site, r.Res}) {
			if mayHold(e.t, t) {
				for _, x := range e.refs.sorted() {
					rs = append(rs, x)
				}
			}
		}
		return rs
	}
	if r.Kind == rGlobal && u.a.globalFrozen(r.G) {
		if _, ok := base.(*ssa.Global); ok {
			r.Imm = true
			return []Ref{r}
		}
		return nil // born frozen and never filled
	}
	n := r
	n.Imm = false
	n.NoCap = false
	if _, ok := t.Underlying().(*types.Struct); ok && !isReflectValue(t) {
		return []Ref{r}
	}
	if r.Kind == rGlobal && base != nil {
		if _, ok := base.(*ssa.Global); ok {
			return []Ref{r}
		}
	}
	if u.a.storageType(t) {
		if !r.Stor {
			n.Stor = true
			if base != nil {
				n.Owner = u.key(base)
				n.OwnT = tname(deref(base.Type()))
			} else {
				n.Owner = "?"
			}
			if r.Imm {
				n.Facts = r.Facts.clone()
				n.Facts[fact(n.Owner, "frozen", true)] = true
			}
		}
		return []Ref{n}
	}
	n.Imm = r.Imm && !r.Stor // what a frozen value contains is frozen
	n.Stor = false
	n.Owner = ""
	n.OwnT = ""
	n.Elem = true
	return []Ref{n}
}

func isReflectValue(t types.Type) bool { return t.String() == "reflect.Value" }

// addrBase strips an address down to the pointer or slice that it is derived from.
func addrBase(addr ssa.Value) (base ssa.Value, field string, st types.Type) {
	st = deref(addr.Type())
	for {
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			if field == "" {
				field = fieldVar(a).Name()
				st = deref(a.X.Type())
			}
			addr = a.X
			continue
		case *ssa.IndexAddr:
			if field == "" {
				field = "[]"
				st = a.X.Type()
			}
			if _, ok := a.X.Type().Underlying().(*types.Slice); ok {
				return a.X, field, st
			}
			addr = a.X
			continue
		}
		return addr, field, st
	}
}

// refine narrows what v refers to by what is known.
func (u *unit) refine(rs []Ref, v ssa.Value, f Facts) []Ref {
	var out []Ref
	imm := false
	if v != nil {
		k := u.key(v)
		imm = f.has(k, "frozen", true) || f.has(k, "is:dgo.Freezable", false) || f.has(k, "is:dgo.Mutability", false)
	}
	pf := u.paramFacts(f)
	for _, r := range rs {
		if r.Facts.contradicts(f) {
			continue
		}
		if imm && !r.Stor && r.Kind != rFresh {
			r.Imm = true
		}
		if len(pf) > 0 && r.Kind != rFresh {
			m := r.Facts.clone()
			for x := range pf {
				m[x] = true
			}
			r.Facts = m
		}
		out = append(out, r)
	}
	return out
}

func (u *unit) run() bool {
	effN, linkN := len(u.sum.effects), len(u.sum.links)
	retChanged := false
	for it := 0; ; it++ {
		u.changed = false
		for _, f := range u.fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					u.instr(f, in)
				}
			}
		}
		if !u.changed {
			break
		}
		if it > 200 {
			failf("provenance of %s did not converge", fname(u.fn))
		}
	}
	// results
	for _, b := range u.fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		fs, ok := u.at(ret)
		if !ok {
			continue
		}
		for i, v := range ret.Results {
			for _, r := range u.refine(u.refs(v), v, fs) {
				if r.Kind == rFresh {
					if u.sum.ret[i].add(Ref{Kind: rFresh, Site: u.fn, Res: i}) {
						retChanged = true
					}
					seen := map[siteKey]bool{}
					var walk func(k siteKey)
					walk = func(k siteKey) {
						if seen[k] {
							return
						}
						seen[k] = true
						for _, e := range u.contentOf(k) {
							for _, x := range e.refs.sorted() {
								if x.Kind == rFresh {
									if u.sum.retC[i].add(e.t, Ref{Kind: rFresh, Site: u.fn, Res: i}) {
										retChanged = true
									}
									walk(siteKey{x.Site, x.Res})
									continue
								}
								if !u.a.storageType(e.t) {
									if x.Kind == rGlobal || x.Stor {
										continue
									}
									x = Ref{Kind: rParam, Idx: x.Idx, Elem: x.Elem, Imm: x.Imm}
								}
								if u.sum.retC[i].add(e.t, x) {
									retChanged = true
								}
							}
						}
					}
					walk(siteKey{r.Site, r.Res})
					continue
				}
				if u.sum.ret[i].add(r) {
					retChanged = true
				}
			}
		}
	}
	return retChanged || effN != len(u.sum.effects) || linkN != len(u.sum.links)
}

func (u *unit) instr(f *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.Alloc:
		u.addAll(in, []Ref{fresh(in, 0)})
	case *ssa.MakeSlice:
		u.addAll(in, []Ref{fresh(in, 0)})
	case *ssa.MakeMap:
		u.addAll(in, []Ref{fresh(in, 0)})
	case *ssa.MakeInterface:
		u.addAll(in, u.refs(in.X))
	case *ssa.ChangeInterface:
		u.addAll(in, u.refs(in.X))
	case *ssa.ChangeType:
		u.addAll(in, u.refs(in.X))
	case *ssa.Convert:
		if _, ok := in.X.Type().Underlying().(*types.Basic); ok {
			if !inert(in.Type()) {
				u.addAll(in, []Ref{fresh(in, 0)})
			}
		} else {
			u.addAll(in, u.refs(in.X))
		}
	case *ssa.TypeAssert:
		u.addAll(in, u.refs(in.X))
	case *ssa.Extract:
		switch t := in.Tuple.(type) {
		case *ssa.TypeAssert:
			if in.Index == 0 {
				u.addAll(in, u.refs(t))
			}
		case *ssa.Lookup:
			if in.Index == 0 {
				u.addAll(in, u.refs(t))
			}
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok && in.Index > 0 {
				for _, r := range u.refs(rg.X) {
					u.addAll(in, u.load(r, in.Type(), rg.X))
				}
			}
		case *ssa.Call:
			u.addAll(in, u.callResult(t, in.Index))
		}
	case *ssa.Field:
		for _, r := range u.refs(in.X) {
			u.addAll(in, u.load(r, in.Type(), in.X))
		}
	case *ssa.FieldAddr:
		u.addAll(in, u.refs(in.X))
	case *ssa.IndexAddr:
		u.addAll(in, u.refs(in.X))
	case *ssa.Index:
		for _, r := range u.refs(in.X) {
			u.addAll(in, u.load(r, in.Type(), in.X))
		}
	case *ssa.Lookup:
		t := in.Type()
		if tp, ok := t.(*types.Tuple); ok {
			t = tp.At(0).Type()
		}
		for _, r := range u.refs(in.X) {
			u.addAll(in, u.load(r, t, in.X))
		}
	case *ssa.Slice:
		rs := u.refs(in.X)
		if in.Max != nil && in.High != nil && u.key(in.Max) == u.key(in.High) {
			for i := range rs {
				rs[i].NoCap = true
			}
		}
		u.addAll(in, rs)
	case *ssa.Phi:
		for i, e := range in.Edges {
			rs := u.refs(e)
			if len(rs) == 0 {
				continue
			}
			ef, ok := u.edge(in.Block().Preds[i], in.Block())
			if !ok {
				continue
			}
			u.addAll(in, u.refine(rs, e, ef))
		}
	case *ssa.UnOp:
		if in.Op == token.MUL {
			base, _, _ := addrBase(in.X)
			for _, r := range u.refs(base) {
				u.addAll(in, u.load(r, in.Type(), base))
			}
		} else if in.Op == token.ARROW {
			return
		}
	case *ssa.Store:
		fs, ok := u.at(in)
		if !ok {
			return
		}
		u.store(in.Addr, in.Val, "store", in, fs)
	case *ssa.MapUpdate:
		fs, ok := u.at(in)
		if !ok {
			return
		}
		for _, r := range u.refs(in.Map) {
			if r.Kind == rFresh {
				u.storeFresh(r, in.Value, fs)
				u.storeFresh(r, in.Key, fs)
				continue
			}
			u.effect("mapupdate", r, in.Map, tname(in.Map.Type()), "[]", in, fs, false)
			u.link(r, in.Value, "", "[]", in, fs)
		}
	case *ssa.MakeClosure:
	case ssa.CallInstruction:
		u.call(f, in)
	}
}

// reflectCopy is the type of content that was stored using reflection: what is referred to was copied.
var reflectCopy types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "reflectCopy", nil), types.NewStruct(nil, nil), nil)

func (u *unit) storeFresh(dst Ref, v ssa.Value, fs Facts) { u.storeFreshT(dst, v, v.Type(), fs) }

func (u *unit) storeFreshT(dst Ref, v ssa.Value, t types.Type, fs Facts) {
	if inert(v.Type()) {
		return
	}
	c := u.contentOf(siteKey{dst.Site, dst.Res})
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL && t == v.Type() {
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			if st, ok := t.Underlying().(*types.Struct); ok {
				// a copy of a struct contains what the fields of the original do
				u.copyFields(c, ld.X, st, fs, 0)
				return
			}
		}
	}
	for _, x := range u.refine(u.refs(v), v, fs) {
		if c.add(t, x) {
			u.changed = true
		}
	}
}

// copyFields adds what the fields of the struct at an address contain.
func (u *unit) copyFields(c content, addr ssa.Value, st *types.Struct, fs Facts, d int) {
	base, _, _ := addrBase(addr)
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if inert(t) {
			continue
		}
		if n := namedOf(t); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) && d < 4 {
			if sub, ok := t.Underlying().(*types.Struct); ok {
				u.copyFields(c, addr, sub, fs, d+1)
				continue
			}
		}
		for _, r := range u.refs(base) {
			for _, x := range u.refine(u.load(r, t, base), nil, fs) {
				if c.add(t, x) {
					u.changed = true
				}
			}
		}
	}
}

func (u *unit) store(addr, val ssa.Value, kind string, in ssa.Instruction, fs Facts) {
	base, field, st := addrBase(addr)
	if g, ok := base.(*ssa.Global); ok {
		u.effect(kind, Ref{Kind: rGlobal, G: g}, base, tname(st), field, in, fs, constTrue(val))
		u.link(Ref{Kind: rGlobal, G: g}, val, tname(st), field, in, fs)
		return
	}
	for _, r := range u.refs(base) {
		if r.Kind == rFresh {
			u.storeFresh(r, val, fs)
			continue
		}
		u.effect(kind, r, base, tname(st), field, in, fs, constTrue(val))
		u.link(r, val, tname(st), field, in, fs)
	}
}

func constTrue(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.Kind() == constant.Bool && constant.BoolVal(c.Value)
}

// guarded tells if what is known excludes that the object which is written is frozen. base denotes the object, or the
// storage, that is written.
func (u *unit) guarded(r Ref, base ssa.Value, fs Facts) (guard, infeasible bool) {
	all := fs
	if len(r.Facts) > 0 {
		if r.Facts.contradicts(fs) {
			return false, true
		}
		all = fs.clone()
		for k := range r.Facts {
			all[k] = true
		}
	}
	k := r.Owner
	if !r.Stor {
		k = u.key(base)
	}
	if all.has(k, "frozen", false) {
		return true, false
	}
	if r.Kind == rParam && !r.Elem && !r.Stor && r.Idx < len(u.fn.Params) && all.has(u.a.pkey(u.fn.Params[r.Idx]), "frozen", false) {
		return true, false
	}
	if all.has(k, "frozen", true) && all.has(k, "frozen", false) {
		return false, true
	}
	return false, false
}

// irrelevant tells if the memory that is written isn't part of any value: the state of parsers, printers and the like.
func (a *Analysis) irrelevant(e Effect) bool {
	if e.R.Stor && e.R.OwnT != "" {
		return !a.valueType(e.R.OwnT)
	}
	if e.Kind == "store" && e.Field != "" && e.Field != "[]" {
		return !a.valueType(e.Struct)
	}
	return false
}

// valueType tells if the named type is the type of a dgo.Value, a struct that is embedded in one, or a node of one.
func (a *Analysis) valueType(name string) bool {
	if a.vtypes == nil {
		a.vtypes = map[string]bool{}
		vi := a.p.iface("Value")
		for _, n := range a.p.Named {
			if types.Implements(n, vi) || types.Implements(types.NewPointer(n), vi) {
				a.vtypes[tname(n)] = true
				if st, ok := n.Underlying().(*types.Struct); ok {
					for i := 0; i < st.NumFields(); i++ {
						if m := namedOf(st.Field(i).Type()); m != nil && st.Field(i).Embedded() {
							a.vtypes[tname(m)] = true
						}
					}
				}
			} else if a.isNode(n) {
				a.vtypes[tname(n)] = true
			} else if _, ok := n.Underlying().(*types.Struct); !ok {
				a.vtypes[tname(n)] = true
			}
		}
	}
	if a.vtypes[name] {
		return true
	}
	return !strings.Contains(name, ".") || strings.ContainsAny(name, "[*")
}

func (u *unit) effect(kind string, r Ref, base ssa.Value, st, field string, in ssa.Instruction, fs Facts, setTrue bool) {
	g, inf := u.guarded(r, base, fs)
	if inf {
		return
	}
	e := Effect{Kind: kind, R: r, Struct: st, Field: field, In: in.Parent(), Pos: u.a.p.instrPos(in), Guarded: g, SetTrue: setTrue}
	u.tag(&e)
	u.addEffect(e)
}

func (u *unit) tag(e *Effect) {
	if u.fn.Signature.Recv() != nil {
		switch u.fn.Name() {
		case "Resolve":
			e.Resolve = true
		case "Freeze":
			e.Freeze = true
		}
	}
}

func (u *unit) addEffect(e Effect) {
	if e.R.Kind == rFresh || u.a.irrelevant(e) {
		return
	}
	id := e.ident()
	if o, ok := u.sum.effects[id]; ok {
		m := intersect(o.R.Facts, e.R.Facts)
		ow := o.R.Owner
		if ow != e.R.Owner {
			ow = "?"
		}
		imm := o.R.Imm && e.R.Imm
		if len(m) == len(o.R.Facts) && ow == o.R.Owner && imm == o.R.Imm {
			return
		}
		if len(m) == 0 {
			m = nil
		}
		o.R.Facts = m
		o.R.Owner = ow
		o.R.Imm = imm
		u.sum.effects[id] = o
		u.changed = true
		return
	}
	u.sum.effects[id] = e
	u.changed = true
}

func (u *unit) link(dst Ref, val ssa.Value, st, field string, in ssa.Instruction, fs Facts) {
	u.linkT(dst, val, val.Type(), st, field, in, fs)
}

func (u *unit) linkT(dst Ref, val ssa.Value, t types.Type, st, field string, in ssa.Instruction, fs Facts) {
	if inert(val.Type()) {
		return
	}
	if field != "[]" && field != "reflect" && strings.Contains(st, ".") && !u.a.valueType(st) {
		return
	}
	for _, s := range u.refine(u.refs(val), val, fs) {
		if s.Kind == rFresh {
			continue
		}
		u.addLink(Link{Dst: dst, Src: s, T: canonType(t), Field: field, Pos: u.a.p.instrPos(in), In: in.Parent(), Facts: u.paramFacts(fs)})
	}
}

func (u *unit) addLink(l Link) {
	if l.Dst.Elem || l.Dst.Kind != rParam || l.Src.Kind == rGlobal {
		return // not needed by any rule
	}
	if l.Src.Kind == rParam && l.Src.Idx < len(u.fn.Params) {
		for _, k := range []string{l.Src.Owner, u.a.pkey(u.fn.Params[l.Src.Idx])} {
			l.SrcMut = l.SrcMut || l.Facts.has(k, "frozen", false) || l.Src.Facts.has(k, "frozen", false)
		}
		if f := u.fn; f.Signature.Recv() != nil && l.Src.Idx == 0 && !l.SrcMut {
			n := namedOf(f.Signature.Recv().Type())
			l.SrcMut = n != nil && u.a.wrapper(n) // hands out the Go value that it wraps by design
		}
	}
	id := l.ident()
	if o, ok := u.sum.links[id]; ok {
		m := intersect(o.Facts, l.Facts)
		so, do := o.Src.Owner, o.Dst.Owner
		if so != l.Src.Owner {
			so = "?"
		}
		if do != l.Dst.Owner {
			do = "?"
		}
		nc := o.Src.NoCap && l.Src.NoCap
		mt := o.SrcMut && l.SrcMut
		if mt == o.SrcMut && len(m) == len(o.Facts) && so == o.Src.Owner && do == o.Dst.Owner && nc == o.Src.NoCap {
			return
		}
		o.Facts = m
		o.SrcMut = mt
		o.Src.Owner, o.Dst.Owner, o.Src.NoCap = so, do, nc
		u.sum.links[id] = o
		u.changed = true
		return
	}
	u.sum.links[id] = l
	u.changed = true
}

// callResult yields the references of one result of a call of a function of the module; the call instruction has
// recorded them in pts under a pseudo value.
func (u *unit) callResult(c *ssa.Call, i int) []Ref {
	s := u.resSets[c]
	if i < len(s) {
		return s[i].sorted()
	}
	return nil
}

type funcHeap struct {
	l    []*ssa.Function
	rank map[*ssa.Function]int
}

func (h *funcHeap) Len() int           { return len(h.l) }
func (h *funcHeap) Less(i, j int) bool { return h.rank[h.l[i]] < h.rank[h.l[j]] }
func (h *funcHeap) Swap(i, j int)      { h.l[i], h.l[j] = h.l[j], h.l[i] }
func (h *funcHeap) Push(x interface{}) { h.l = append(h.l, x.(*ssa.Function)) }
func (h *funcHeap) Pop() interface{} {
	x := h.l[len(h.l)-1]
	h.l = h.l[:len(h.l)-1]
	return x
}
