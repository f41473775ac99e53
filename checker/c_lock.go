package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: lock discipline of types that contain a lock. C22: unsynchronised writes to shared memory.

func isLockType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && (n.Obj().Name() == "Mutex" || n.Obj().Name() == "RWMutex")
}

// lockField is the name of the lock of struct type t.
func lockField(t types.Type) string {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if isLockType(deref(st.Field(i).Type())) {
			return st.Field(i).Name()
		}
	}
	return ""
}

type lockAcc struct {
	cell   string // Type.field or Type.field! for what the field refers to
	write  bool
	need   string
	mode   int
	what   string
	pos    string
	fn     string
	entry  string
	shared bool
}

type loaderClient struct {
	r     *Report
	a     *Analysis
	pkgs  map[string]bool
	accs  []lockAcc
	gets  map[string][2]string
	puts  int
	esc   map[string]string
	probs map[string]bool
	calls int
}

func (c *loaderClient) enter(f *ssa.Function) bool { return c.pkgs[pkgOf(f)] || f.Synthetic != "" }

func (c *loaderClient) problem(l *locks, fr *lsFrame, in ssa.Instruction, rule, detail string) {
	k := rule + fname(fr.fn) + detail
	if c.probs[k] || !l.rec {
		return
	}
	c.probs[k] = true
	c.r.ob(false, rule, fname(fr.fn), c.a.p.instrPos(in), detail+" (entered from "+fname(l.entry)+")")
}

// owner finds the object with a lock that the address sym is part of.
func (l *locks) owner(sym string) (base string, t types.Type, field string) {
	for i := len(sym) - 1; i > 0; i-- {
		if sym[i] != '.' {
			continue
		}
		b := sym[:i]
		if t, ok := l.ownType[b]; ok && lockField(t) != "" {
			return b, deref(t), sym[i+1:]
		}
	}
	return "", nil, ""
}

func (c *loaderClient) access(l *locks, fr *lsFrame, in ssa.Instruction, addr string, write bool, val string, st *lsState) {
	if write {
		// an internal map that is stored elsewhere is used without the lock
		c.escape(l, fr, in, val, "stored in "+l.show(addr))
	}
	if !sharedSym(addr) {
		return
	}
	b, t, f := l.owner(addr)
	if t == nil {
		return
	}
	c.add(l, fr, in, b, t, f, write, st)
}

func (c *loaderClient) add(l *locks, fr *lsFrame, in ssa.Instruction, b string, t types.Type, f string, write bool, st *lsState) {
	if !l.rec {
		return
	}
	lk := b + "." + lockField(t)
	w := "reads "
	if write {
		w = "writes "
	}
	c.accs = append(c.accs, lockAcc{cell: tname(t) + "." + f, write: write, need: lk, mode: st.must[lk], what: w + l.show(b) + "." + f,
		pos: c.a.p.instrPos(in), fn: fname(fr.fn), entry: fname(l.entry)})
}

// content finds the guarded field that the value sym was loaded from.
func (l *locks) content(sym string) (base string, t types.Type, field string) {
	if !strings.HasPrefix(sym, "*") || !sharedSym(sym) {
		return "", nil, ""
	}
	return l.owner(sym[1:])
}

func (c *loaderClient) escape(l *locks, fr *lsFrame, in ssa.Instruction, sym, how string) {
	if !l.rec {
		return
	}
	if b, t, f := l.content(sym); t != nil {
		k := tname(t) + "." + f
		if _, ok := c.esc[k+fname(fr.fn)]; !ok {
			c.esc[k+fname(fr.fn)] = k + "\x00" + fname(fr.fn) + "\x00" + c.a.p.instrPos(in) + "\x00" + l.show(b) + "." + f + " is " + how
		}
	}
	if t, ok := l.symType[sym]; ok && strings.Contains(sym, ".") && sharedSym(sym) && !strings.HasPrefix(sym, "*") {
		// the address of a part of the object
		if _, isP := t.(*types.Pointer); isP {
			if b, ot, f := l.owner(sym); ot != nil {
				k := tname(ot) + "." + f
				c.esc[k+fname(fr.fn)] = k + "\x00" + fname(fr.fn) + "\x00" + c.a.p.instrPos(in) + "\x00the address of " + l.show(b) + "." + f + " is " + how
			}
		}
	}
}

func (c *loaderClient) call(l *locks, fr *lsFrame, ci ssa.CallInstruction, recv string, args []string, st *lsState) {
	cc := ci.Common()
	if l.rec {
		c.calls++
	}
	name := ""
	if cc.IsInvoke() {
		name = cc.Method.Name()
	} else if f := cc.StaticCallee(); f != nil {
		name = f.Name()
		if f.Signature.Recv() != nil && len(args) > 0 {
			recv, args = args[0], args[1:]
		}
	}
	if b, t, f := l.content(recv); t != nil && name != "" {
		write := mutators[name]
		c.add(l, fr, ci, b, t, f+"!", write, st)
		m := strings.TrimLeft(recv, "*")
		switch {
		case name == "Get" || name == "ContainsKey":
			if v, ok := ci.(ssa.Value); ok && len(args) > 0 {
				s := l.eval(fr, v)
				c.gets[s] = [2]string{m, args[0]}
				st.facts["got:"+s] = true
			}
		case name == "Put" && len(args) > 1:
			k := "absent:" + m + "|" + args[0]
			if l.rec {
				c.puts++
				c.r.ob(st.facts[k], "define-once", fname(fr.fn)+" puts in "+tname(t)+"."+f, c.a.p.instrPos(ci),
					"an entry is put in "+l.show(m)+" without a check, in the same locked section, that the key is absent: an existing entry may be replaced")
			}
			c.escapeArgs(l, fr, ci, args)
			for x := range st.facts {
				if strings.HasPrefix(x, "absent:") {
					delete(st.facts, x)
				}
			}
			return
		case write && l.rec:
			c.r.ob(false, "define-once", fname(fr.fn)+" calls "+name+" of "+tname(t)+"."+f, c.a.p.instrPos(ci), name+" may replace or remove existing entries of "+l.show(m))
		}
		if (name == "Equals" || name == "HashCode" || name == "String") && len(st.may) > 0 {
			c.problem(l, fr, ci, "callback-locked", name+" of "+l.show(m)+", which calls on all its values, is called with "+l.show(st.held()[0])+" locked")
		}
	} else if len(st.may) > 0 {
		switch {
		case cc.IsInvoke():
			n := namedOf(cc.Value.Type())
			nm := cc.Value.Type().String()
			if n != nil {
				nm = n.Obj().Name()
			}
			if nm != "Map" && nm != "MapEntry" && nm != "String" && nm != "Array" && !(n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync") {
				c.problem(l, fr, ci, "callback-locked", name+" of a "+nm+" that was supplied by a user is called with "+l.show(st.held()[0])+" locked")
			}
		case cc.StaticCallee() == nil:
			if _, isB := cc.Value.(*ssa.Builtin); !isB {
				c.problem(l, fr, ci, "callback-locked", "function "+l.show(recv)+" is called with "+l.show(st.held()[0])+" locked")
			}
		}
	}
	c.escapeArgs(l, fr, ci, args)
}

func (c *loaderClient) escapeArgs(l *locks, fr *lsFrame, ci ssa.CallInstruction, args []string) {
	name := ""
	if ci.Common().IsInvoke() {
		name = ci.Common().Method.Name()
	} else if f := ci.Common().StaticCallee(); f != nil {
		name = f.Name()
	}
	for _, s := range args {
		if b, t, f := l.content(s); t != nil && (name == "PutAll" || name == "Equals" || name == "Merge") {
			// read by the callee and not retained
			c.add(l, fr, ci, b, t, f+"!", false, c.cur(l, ci))
			continue
		}
		c.escape(l, fr, ci, s, "passed to "+name)
	}
}

func (c *loaderClient) cur(l *locks, ci ssa.CallInstruction) *lsState { return l.curState }

func (c *loaderClient) ret(l *locks, fr *lsFrame, in ssa.Instruction, vals []string, st *lsState) {
	for _, v := range vals {
		c.escape(l, fr, in, v, "returned")
	}
}

func (c *loaderClient) branch(l *locks, fr *lsFrame, cond ssa.Value, pol bool, st *lsState) {
	s := l.eval(fr, cond)
	if strings.HasPrefix(s, "not:") {
		s, pol = s[4:], !pol
	}
	sym := ""
	switch {
	case strings.HasPrefix(s, "isnil:"):
		if pol {
			sym = s[6:]
		}
	case !pol:
		sym = strings.TrimPrefix(s, "ok:")
	}
	if g, ok := c.gets[sym]; ok && st.facts["got:"+sym] {
		st.facts["absent:"+g[0]+"|"+g[1]] = true
	}
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

// lockEntries are the functions of the packages that can be called from elsewhere: exported ones, methods that can be
// reached through interfaces, promoted methods, and functions that are used as values.
func (a *Analysis) lockEntries(in func(f *ssa.Function) bool) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] {
			seen[f] = true
			r = append(r, f)
		}
	}
	taken := a.addressTaken()
	for _, f := range a.p.Funcs {
		if !in(f) {
			continue
		}
		if f.Parent() == nil && ast.IsExported(f.Name()) {
			add(f)
		} else if taken[f] && f.Parent() == nil {
			add(f)
		} else if f.Parent() != nil && f.Parent().Synthetic != "" {
			// a function literal in the initialization of a global
			add(f)
		}
	}
	for _, n := range a.p.Named {
		if lockField(n) == "" {
			continue
		}
		ms := a.p.SSA.MethodSets.MethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			if f := a.p.SSA.MethodValue(ms.At(i)); f != nil && ast.IsExported(f.Name()) && (in(f) || f.Synthetic != "" && in(a.p.SSA.FuncValue(ms.At(i).Obj().(*types.Func)))) {
				add(f)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return fname(r[i])+r[i].String() < fname(r[j])+r[j].String() })
	return r
}

// addressTaken are the named functions that are used as values.
func (a *Analysis) addressTaken() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops []*ssa.Value
				for i, o := range in.Operands(ops) {
					if o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok {
						if c, isC := in.(ssa.CallInstruction); isC && i == 0 && c.Common().StaticCallee() == g {
							continue
						}
						if isOnceDo(in) && !ast.IsExported(g.Name()) {
							continue // called right there
						}
						m[g] = true
					}
				}
			}
		}
	}
	return m
}

// isOnceDo tells if the instruction calls the Do method of a sync.Once.
func isOnceDo(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	return ok && !c.Common().IsInvoke() && onceDo(c.Common()) && len(c.Common().Args) == 2
}

func checkC21(a *Analysis, r *Report) {
	r.Rules = append(r.Rules,
		"guarded: whatever is changed after construction in an object that contains a lock is only accessed with that lock held, for writing when it is changed",
		"escape: what is guarded by the lock isn't handed out, stored elsewhere or passed on",
		"lock-left: no path, panics included, leaves a function with a lock held", "lock-twice: a held lock isn't locked again", "lock-nested: the lock of an object isn't acquired while that of another object of the same type is held", "unlock: a lock is released the way it was acquired",
		"callback-locked: no function value, and no method of a value or loader that a user may have supplied, is called with a lock held",
		"define-once: an entry is only put in a guarded map when the same locked section found its key absent",
		"adopt: the maps of a loader are its own or frozen, not those given to the constructor")
	r.Assumptions = append(r.Assumptions, "closures passed to methods of maps are called synchronously", "keys of loader entries are strings whose methods do not call back")
	pkgs := map[string]bool{}
	owners := 0
	for _, n := range a.p.Named {
		if lockField(n) != "" {
			pkgs[strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), modPath), "/")] = true
			owners++
		}
	}
	r.count("types with a lock", owners)
	if r.Counts["types with a lock"] == 0 {
		failf("no type with a lock found")
	}
	c := &loaderClient{r: r, a: a, pkgs: pkgs, gets: map[string][2]string{}, esc: map[string]string{}, probs: map[string]bool{}}
	l := newLocks(a, c)
	es := a.lockEntries(func(f *ssa.Function) bool { return pkgs[pkgOf(f)] })
	for _, f := range es {
		n := len(c.probs)
		l.runEntry(f)
		if len(c.probs) == n {
			r.ob(true, "discipline", fname(f), a.p.pos(f.Pos()), "")
		}
	}
	r.count("entry functions", len(es))
	r.count("functions entered", l.activs)
	r.count("lock operations", l.lockOps)
	r.count("calls examined", c.calls)
	r.count("puts", c.puts)
	guarded := map[string]bool{}
	for _, x := range c.accs {
		if x.write {
			guarded[x.cell] = true
		}
	}
	n := 0
	for _, x := range c.accs {
		if !guarded[x.cell] {
			continue
		}
		n++
		need := lsR
		if x.write {
			need = lsW
		}
		r.ob(x.mode >= need, "guarded", x.fn+" "+x.what, x.pos, fmt.Sprintf("%s without holding the lock (entered from %s)", x.what, x.entry))
	}
	r.count("guarded accesses", n)
	r.count("guarded cells", len(guarded))
	for _, e := range c.esc {
		p := strings.Split(e, "\x00")
		r.ob(!guarded[p[0]+"!"] && !guarded[p[0]], "escape", p[1]+" "+p[0], p[2], p[3]+": it can then be used without the lock")
	}
	a.loaderMaps(r, pkgs)
	r.atLeast("entry functions", 15)
	r.atLeast("guarded accesses", 5)
	r.atLeast("guarded cells", 2)
	r.atLeast("puts", 2)
	r.atLeast("lock operations", 4)
}

// loaderMaps checks that maps that become part of a loader aren't shared with whoever supplied them.
func (a *Analysis) loaderMaps(r *Report, pkgs map[string]bool) {
	a.runSummaries()
	n := 0
	for _, f := range a.p.Funcs {
		if !pkgs[pkgOf(f)] {
			continue
		}
		u := a.units[root(f)]
		if u == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				nt := namedOf(st.Val.Type())
				if nt == nil || nt.Obj().Name() != "Map" {
					continue
				}
				own := namedOf(deref(fa.X.Type()))
				if own == nil || !a.isLoader(own) {
					continue
				}
				fs, reach := u.at(st)
				if !reach {
					continue
				}
				n++
				bad := ""
				for _, x := range u.refine(u.refs(st.Val), st.Val, fs) {
					if x.Kind == rParam && !x.Imm {
						bad = x.String()
					}
				}
				r.ob(bad == "", "adopt", fname(f)+" "+tname(own)+"."+fieldVar(fa).Name(), a.p.instrPos(st), "a map that others can change or use becomes part of a loader: "+bad)
			}
		}
	}
	r.count("maps of loaders", n)
	r.atLeast("maps of loaders", 3)
}

func (a *Analysis) isLoader(n *types.Named) bool {
	i := a.p.iface("Loader")
	return types.Implements(types.NewPointer(n), i) || types.Implements(n, i)
}

// raceClient collects, for every package level variable that is written after initialization, and for every variable
// that is passed along with the lock that guards it, the locks held at each access.
type raceClient struct {
	r     *Report
	a     *Analysis
	fns   map[*ssa.Function]bool
	accs  map[string][]raceAcc
	seen  map[ssa.Instruction]bool
	probs map[string]bool
	cells func(addr string) bool
}

type raceAcc struct {
	write bool
	held  map[string]int
	pos   string
	fn    string
	entry string
	stale string
}

func (c *raceClient) enter(f *ssa.Function) bool { return c.fns[f] }

func (c *raceClient) problem(l *locks, fr *lsFrame, in ssa.Instruction, rule, detail string) {
	k := rule + fname(fr.fn) + detail
	if c.probs[k] || !l.rec {
		return
	}
	c.probs[k] = true
	c.r.ob(false, rule, fname(fr.fn), c.a.p.instrPos(in), detail+" (entered from "+fname(l.entry)+")")
}

// raceCell is the variable that an address denotes: a global, or what a parameter points to.
func raceCell(l *locks, addr string) string {
	s := strings.TrimLeft(addr, "*")
	if strings.HasPrefix(s, "g:") {
		if i := strings.IndexAny(s[2:], "[]"); i >= 0 {
			s = s[:i+2]
		}
		// fields of a global: g:pkg.name.field
		p := strings.SplitN(s[2:], ".", 3)
		if len(p) > 2 {
			s = "g:" + p[0] + "." + p[1]
		}
		return s
	}
	if strings.HasPrefix(addr, "p") && !strings.ContainsAny(addr, ".[") {
		if pt, ok := l.symType[addr].(*types.Pointer); ok {
			if _, isI := pt.Elem().Underlying().(*types.Interface); isI {
				return fname(l.entry) + " " + addr
			}
		}
	}
	return ""
}

func (c *raceClient) access(l *locks, fr *lsFrame, in ssa.Instruction, addr string, write bool, val string, st *lsState) {
	cell := raceCell(l, addr)
	if cell == "" || !l.rec {
		return
	}
	c.seen[in] = true
	h := map[string]int{}
	for k, v := range st.must {
		h[k] = v
	}
	acc := raceAcc{write: write, held: h, pos: c.a.p.instrPos(in), fn: fname(fr.fn), entry: fname(l.entry)}
	if s, ok := in.(*ssa.Store); ok {
		acc.stale = c.staleLoad(l, fr, s.Val, addr, st, map[ssa.Value]bool{})
	}
	c.accs[cell] = append(c.accs[cell], acc)
	if u, ok := in.(*ssa.UnOp); ok {
		st.facts["loaded:"+l.name(fr, u)] = true
	}
}

// staleLoad finds a value that was loaded from addr before the lock that is held now was acquired and that the stored
// value is made from.
func (c *raceClient) staleLoad(l *locks, fr *lsFrame, v ssa.Value, addr string, st *lsState, seen map[ssa.Value]bool) string {
	if v == nil || seen[v] {
		return ""
	}
	seen[v] = true
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if l.eval(fr, u.X) == addr {
			if !st.facts["loaded:"+l.name(fr, u)] {
				return c.a.p.instrPos(u)
			}
			return ""
		}
		// a field of a local object
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				for _, ref := range *al.Referrers() {
					if f2, ok := ref.(*ssa.FieldAddr); ok && f2.Field == fa.Field {
						for _, r2 := range *f2.Referrers() {
							if s, ok := r2.(*ssa.Store); ok && s.Addr == f2 {
								if p := c.staleLoad(l, fr, s.Val, addr, st, seen); p != "" {
									return p
								}
							}
						}
					}
				}
			}
		}
		if al, ok := u.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
					if p := c.staleLoad(l, fr, s.Val, addr, st, seen); p != "" {
						return p
					}
				}
			}
		}
		return ""
	}
	if _, ok := v.(*ssa.Alloc); ok {
		return ""
	}
	if in, ok := v.(ssa.Instruction); ok {
		for _, o := range in.Operands(nil) {
			if p := c.staleLoad(l, fr, *o, addr, st, seen); p != "" {
				return p
			}
		}
	}
	return ""
}

func (c *raceClient) call(l *locks, fr *lsFrame, ci ssa.CallInstruction, recv string, args []string, st *lsState) {
	if !l.rec {
		// loads that were made in the same locked section remain valid
		return
	}
	if len(st.may) == 0 {
		return
	}
	cc := ci.Common()
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		if _, isB := cc.Value.(*ssa.Builtin); !isB {
			for _, k := range st.held() {
				if !strings.HasPrefix(k, "once:") {
					c.problem(l, fr, ci, "callback-locked", "function "+l.show(recv)+" is called with "+l.show(k)+" locked")
				}
			}
		}
	}
}

func (c *raceClient) ret(l *locks, fr *lsFrame, in ssa.Instruction, vals []string, st *lsState) {}

func (c *raceClient) branch(l *locks, fr *lsFrame, cond ssa.Value, pol bool, st *lsState) {}

// initOnly are the functions that only run while packages are initialized.
func (a *Analysis) initOnly() map[*ssa.Function]bool {
	taken := a.addressTaken()
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						if callers[g] == nil {
							callers[g] = map[*ssa.Function]bool{}
						}
						callers[g][f] = true
					}
				}
			}
		}
	}
	m := map[*ssa.Function]bool{}
	for _, f := range a.p.Funcs {
		if f.Parent() == nil && f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
			m[f] = true
		}
	}
	for _, sp := range a.p.SPkgs {
		if f := sp.Func("init"); f != nil {
			m[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range a.p.Funcs {
			if m[f] || taken[f] || ast.IsExported(f.Name()) || f.Parent() != nil || f.Signature.Recv() != nil || len(callers[f]) == 0 {
				continue
			}
			all := true
			for g := range callers[f] {
				if !m[g] {
					all = false
				}
			}
			if all {
				m[f] = true
				ch = true
			}
		}
	}
	return m
}

// syncType tells if values of type t synchronize themselves.
func syncType(t types.Type) bool {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		return p == "sync" || p == "sync/atomic"
	}
	return false
}

func checkC22(a *Analysis, r *Report) {
	a.runSummaries()
	r.Rules = append(r.Rules,
		"guarded: all accesses of a package level variable that is written after initialization, and of a variable that is passed with its lock, are made with a common lock held",
		"lost-update: what is stored in such a variable is made from the content read in the same locked section",
		"shared-write: no function writes memory that is reachable from a package level variable without a lock, other than while packages are initialized",
		"cache: no function other than a mutator writes memory of its receiver or arguments without synchronization; writes made by mutators are guarded by the frozen flag",
		"atomic: a field that is accessed atomically is always accessed atomically",
		"global-frozen: a value with a frozen flag that a package level variable refers to is frozen",
		"registry: entries are added to a concurrent registry in one step")
	r.Assumptions = append(r.Assumptions, "sync, sync/atomic and reflect are as documented", "values that are not frozen are not shared between goroutines")
	ini := a.initOnly()
	inInit := func(f *ssa.Function) bool { return ini[f] || ini[root(f)] && a.calledInInit(f) }
	// variables that may be written later
	cand := map[*ssa.Global]bool{}
	nglob := 0
	refs := map[*ssa.Global][]ssa.Instruction{}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for i, o := range in.Operands(nil) {
					g, ok := (*o).(*ssa.Global)
					if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
						continue
					}
					refs[g] = append(refs[g], in)
					if syncType(deref(g.Type())) {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.Store:
						if i == 0 && !inInit(f) {
							cand[g] = true
						}
						if i == 1 {
							cand[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						if !inInit(f) && writesThrough(x.(ssa.Value), 0) {
							cand[g] = true
						}
					default:
						if !inInit(f) {
							cand[g] = true
						}
					}
				}
			}
		}
	}
	for _, sp := range a.p.SPkgs {
		for _, m := range sp.Members {
			if _, ok := m.(*ssa.Global); ok {
				nglob++
			}
		}
	}
	r.count("package level variables", nglob)
	r.count("variables written after initialization", len(cand))
	for g := range cand {
		dbgf("cand %s", g)
	}
	// functions of interest
	fns := map[*ssa.Function]bool{}
	for g := range cand {
		for _, in := range refs[g] {
			if !inInit(in.Parent()) {
				fns[in.Parent()] = true
			}
		}
	}
	locksAt := map[*ssa.Function]bool{}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if rv, _ := lockOp(c.Common()); rv != nil && pkgOf(f) != "loader" {
						fns[f] = true
						locksAt[f] = true
					}
				}
			}
		}
	}
	taken := a.addressTaken()
	for ch := true; ch; {
		ch = false
		add := func(f *ssa.Function) {
			if f != nil && !fns[f] {
				fns[f] = true
				ch = true
			}
		}
		for _, f := range a.p.Funcs {
			if fns[f] {
				if f.Parent() != nil {
					add(f.Parent())
				}
				for _, g := range f.AnonFuncs {
					add(g)
				}
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						g := c.Common().StaticCallee()
						if isOnceDo(in) {
							g, _ = c.Common().Args[1].(*ssa.Function)
						}
						if g == nil || !fns[g] {
							continue
						}
						if !ast.IsExported(g.Name()) || a.takesPointers(g) {
							add(f)
						}
					}
				}
			}
		}
	}
	c := &raceClient{r: r, a: a, fns: fns, accs: map[string][]raceAcc{}, seen: map[ssa.Instruction]bool{}, probs: map[string]bool{}}
	l := newLocks(a, c)
	n := 0
	var entries []*ssa.Function
	for f := range fns {
		if f.Parent() == nil && (ast.IsExported(f.Name()) || taken[f] || f.Signature.Recv() != nil) && !inInit(f) {
			entries = append(entries, f)
		}
	}
	sort.Slice(entries, func(i, j int) bool { return fname(entries[i]) < fname(entries[j]) })
	for _, f := range entries {
		n++
		k := len(c.probs)
		l.runEntry(f)
		if k == len(c.probs) {
			r.ob(true, "discipline", fname(f), a.p.pos(f.Pos()), "")
		}
	}
	r.count("entry functions", n)
	r.count("lock operations", l.lockOps)
	// every reference to a candidate must have been visited
	for g := range cand {
		for _, in := range refs[g] {
			if _, isLoad := in.(*ssa.UnOp); isLoad && !inInit(in.Parent()) && !c.seen[in] {
				r.ob(false, "undecided", fname(in.Parent())+" reads "+g.Name(), a.p.instrPos(in), "an access that isn't reached by the analysis")
			}
		}
	}
	var cells []string
	for k := range c.accs {
		cells = append(cells, k)
	}
	sort.Strings(cells)
	for _, k := range cells {
		accs := c.accs[k]
		written := false
		for _, x := range accs {
			written = written || x.write
		}
		if !written {
			continue
		}
		r.count("guarded variables", 1)
		common := map[string]int{}
		for i, x := range accs {
			if i == 0 {
				for n, m := range x.held {
					common[n] = m
				}
			}
		}
		// the lock that most accesses hold
		cnt := map[string]int{}
		for _, x := range accs {
			for n := range x.held {
				cnt[n]++
			}
		}
		best := ""
		for n, k := range cnt {
			if best == "" || k > cnt[best] || k == cnt[best] && n < best {
				best = n
			}
		}
		for _, x := range accs {
			need := lsR
			w := "reads"
			if x.write {
				need, w = lsW, "writes"
			}
			ok := best != "" && x.held[best] >= need
			r.ob(ok, "guarded", x.fn+" "+w+" "+strings.TrimPrefix(k, "g:"), x.pos, x.fn+" "+w+" "+strings.TrimPrefix(k, "g:")+", which is written after initialization, without a lock that is held at all accesses (entered from "+x.entry+")")
			if x.write {
				r.ob(x.stale == "", "lost-update", x.fn+" writes "+strings.TrimPrefix(k, "g:"), x.pos, "the new content is made from what was read at "+x.stale+", before the lock was acquired: concurrent additions are lost")
			}
		}
	}
	// writes to what globals refer to, and caches
	for _, f := range a.apiRootsAll() {
		s := a.sums[f]
		bad := 0
		isMut := f.Signature.Recv() != nil && mutators[f.Name()]
		for _, e := range sortedEffects(s) {
			switch {
			case e.R.Kind == rGlobal:
				if e.Resolve || ini[e.In] || inInit(e.In) {
					continue
				}
				if k := "g:" + e.R.G.Pkg.Pkg.Name() + "." + e.R.G.Name(); len(c.accs[k]) > 0 && !e.R.Elem && !e.R.Stor {
					continue // decided above
				}
				if e.Guarded {
					continue
				}
				bad++
				r.ob(false, "shared-write", fname(f)+" "+effConstruct(f, e), e.Pos, fmt.Sprintf("%s writes memory that all goroutines share: %s of %s in %s", fname(f), e.Kind, e.R, fname(e.In)))
			case e.R.Kind == rParam && !isMut && valuePkgs[pkgOf(f)]:
				if e.Resolve || a.rawDest(f, e) || e.R.Idx < len(f.Params) && a.stateParam(f.Params[e.R.Idx].Type()) {
					continue
				}
				bad++
				r.ob(false, "cache", effConstruct(f, e), e.Pos, fmt.Sprintf("%s writes its receiver or an argument without synchronization: %s of %s in %s", fname(f), e.Kind, e.R, fname(e.In)))
			case e.R.Kind == rParam && isMut && !e.Guarded && !e.Resolve && !e.Freeze && e.R.Idx == 0 && valuePkgs[pkgOf(f)]:
				bad++
				r.ob(false, "cache", effConstruct(f, e), e.Pos, fmt.Sprintf("%s writes its receiver although it may be frozen and shared", fname(f)))
			}
		}
		if bad == 0 {
			r.ob(true, "shared-write", fname(f), a.p.pos(f.Pos()), "")
		}
	}
	r.count("functions examined for shared writes", len(a.apiRootsAll()))
	a.globalFlags(r)
	a.atomics(r)
	a.registries(r)
	r.atLeast("functions examined for shared writes", 400)
	r.atLeast("guarded variables", 1)
	r.atLeast("package level variables", 50)
}

func (a *Analysis) calledInInit(f *ssa.Function) bool {
	// a function literal of an initializer is only part of the initialization when it is called there
	for p := f; p != nil; p = p.Parent() {
		if p.Parent() == nil {
			return true
		}
		called := false
		for _, b := range p.Parent().Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g == p {
						called = true
					}
				}
			}
		}
		if !called {
			return false
		}
	}
	return true
}

// takesPointers tells if f has a parameter that points to an interface: a variable that is passed by reference.
func (a *Analysis) takesPointers(f *ssa.Function) bool {
	for _, p := range f.Params {
		if pt, ok := p.Type().(*types.Pointer); ok {
			if _, isI := pt.Elem().Underlying().(*types.Interface); isI {
				return true
			}
		}
	}
	return false
}

func writesThrough(v ssa.Value, d int) bool {
	if v.Referrers() == nil || d > 4 {
		return true
	}
	for _, in := range *v.Referrers() {
		switch in := in.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if writesThrough(in, d+1) {
				return true
			}
		case *ssa.IndexAddr:
			if writesThrough(in, d+1) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// apiRootsAll are the exported functions and methods of all packages.
func (a *Analysis) apiRootsAll() []*ssa.Function {
	var r []*ssa.Function
	for f := range a.sums {
		if ast.IsExported(f.Name()) && a.usable(f) {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return fname(r[i]) < fname(r[j]) })
	return r
}

func (a *Analysis) atomics(r *Report) {
	fields := map[*types.Var]bool{}
	ok := map[*ssa.FieldAddr]bool{}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, isC := in.(ssa.CallInstruction)
				if !isC {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync/atomic" {
					continue
				}
				for _, x := range c.Common().Args {
					if fa, isF := x.(*ssa.FieldAddr); isF {
						fields[fieldVar(fa)] = true
						ok[fa] = true
					}
				}
			}
		}
	}
	r.count("fields accessed atomically", len(fields))
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, isF := in.(*ssa.FieldAddr)
				if !isF || !fields[fieldVar(fa)] {
					continue
				}
				if _, fresh := fa.X.(*ssa.Alloc); fresh {
					continue
				}
				r.ob(ok[fa], "atomic", fname(f)+" "+fieldVar(fa).Name(), a.p.instrPos(fa), "a field that is accessed atomically elsewhere is accessed without synchronization")
			}
		}
	}
}

func (a *Analysis) registries(r *Report) {
	n := 0
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, isC := in.(ssa.CallInstruction)
				if !isC {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || g.Signature.Recv() == nil || tname(deref(g.Signature.Recv().Type())) != "sync.Map" {
					continue
				}
				n++
				r.ob(g.Name() != "Store" && g.Name() != "Swap", "registry", fname(f)+" "+g.Name(), a.p.instrPos(in), "an entry is stored unconditionally: one that was added concurrently is lost")
			}
		}
	}
	r.count("registry operations", n)
}

// globalFlags checks that values with a frozen flag that package level variables are initialized with are frozen.
func (a *Analysis) globalFlags(r *Report) {
	n := 0
	for _, sp := range a.p.SPkgs {
		f := sp.Func("init")
		var fns []*ssa.Function
		if f != nil {
			fns = append(fns, f)
		}
		for _, g := range a.p.Funcs {
			if g.Pkg == sp && g.Parent() == nil && g.Signature.Recv() == nil && strings.HasPrefix(g.Name(), "init#") {
				fns = append(fns, g)
			}
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := st.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					v := st.Val
					for {
						if m, ok := v.(*ssa.MakeInterface); ok {
							v = m.X
						} else if m, ok := v.(*ssa.ChangeType); ok {
							v = m.X
						} else {
							break
						}
					}
					al, ok := v.(*ssa.Alloc)
					if !ok {
						continue
					}
					s, ok := deref(al.Type()).Underlying().(*types.Struct)
					if !ok {
						continue
					}
					fl := -1
					for i := 0; i < s.NumFields(); i++ {
						if a.flag[s.Field(i)] {
							fl = i
						}
					}
					if fl < 0 {
						continue
					}
					n++
					frozen := false
					for _, ref := range *al.Referrers() {
						if fa, ok := ref.(*ssa.FieldAddr); ok && fa.Field == fl {
							for _, r2 := range *fa.Referrers() {
								if s2, ok := r2.(*ssa.Store); ok && constTrue(s2.Val) {
									frozen = true
								}
							}
						}
					}
					r.ob(frozen, "global-frozen", g.Pkg.Pkg.Name()+"."+g.Name(), a.p.instrPos(st), "a value that all users share isn't frozen")
				}
			}
		}
	}
	r.count("shared values with a frozen flag", n)
}
