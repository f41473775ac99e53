package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Facts is a set of things known to hold, each "key|predicate=bool". The predicates are
//
//	frozen   the object denoted by key is frozen
//	is:T     the dynamic type of key is (implements) T
//	nil      key is nil
//	v        the boolean value denoted by key
type Facts map[string]bool

func (f Facts) clone() Facts {
	c := make(Facts, len(f)+2)
	for k := range f {
		c[k] = true
	}
	return c
}

func (f Facts) list() []string {
	r := make([]string, 0, len(f))
	for k := range f {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func intersect(a, b Facts) Facts {
	c := Facts{}
	for k := range a {
		if b[k] {
			c[k] = true
		}
	}
	return c
}

func fact(key, pred string, pol bool) string {
	if pol {
		return key + "|" + pred + "=true"
	}
	return key + "|" + pred + "=false"
}

// has tells if the fact is known.
func (f Facts) has(key, pred string, pol bool) bool { return f[fact(key, pred, pol)] }

// contradicts tells if the two sets cannot hold at the same time.
func (f Facts) contradicts(g Facts) bool {
	for k := range g {
		if strings.HasSuffix(k, "=true") {
			if f[strings.TrimSuffix(k, "true")+"false"] {
				return true
			}
		} else if f[strings.TrimSuffix(k, "false")+"true"] {
			return true
		}
	}
	return false
}

type boolSum struct{ t, f Facts }

// Analysis holds the memoised facts of all functions.
type Analysis struct {
	hashFn   map[*ssa.Function]bool
	callers  map[*ssa.Function][]ssa.CallInstruction
	dynWide  bool // methods of interface values are those of all implementers
	p        *Prog
	initials map[string]*ssa.Const // what fields of package level variables were initialized with
	cmpFns   map[*ssa.Function]bool
	eqFns    map[*ssa.Function]bool
	allFns   map[*ssa.Function]bool
	in       map[*ssa.Function][]Facts // facts at block entry, nil entry = unreachable
	busy     map[*ssa.Function]bool
	bsum     map[string]*boolSum
	bbusy    map[string]bool
	ens      map[*ssa.Function]Facts
	ebusy    map[*ssa.Function]bool
	flag     map[*types.Var]bool // the fields that hold a frozen flag
	sums     map[*ssa.Function]*summary
	units    map[*ssa.Function]*unit
	Steps    int
	frzNames map[string]bool
	gfrozen  map[*ssa.Global]bool
	vtypes   map[string]bool
	cellMemo map[ssa.Value]*cell
}

func newAnalysis(p *Prog) *Analysis {
	a := &Analysis{p: p, in: map[*ssa.Function][]Facts{}, busy: map[*ssa.Function]bool{}, bsum: map[string]*boolSum{}, bbusy: map[string]bool{},
		ens: map[*ssa.Function]Facts{}, ebusy: map[*ssa.Function]bool{}, flag: map[*types.Var]bool{},
		cellMemo: map[ssa.Value]*cell{}}
	p.an = a
	a.findFlags()
	return a
}

// findFlags finds the struct fields that hold the frozen flag: the boolean field that a Frozen method returns.
func (a *Analysis) findFlags() {
	for _, n := range a.p.Named {
		f := a.p.methodOf(types.NewPointer(n), "Frozen")
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				if u, ok := r.Results[0].(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						a.flag[fieldVar(fa)] = true
					}
				}
			}
		}
	}
	if len(a.flag) == 0 {
		failf("no frozen flag found")
	}
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field)
}

func fieldVarV(f *ssa.Field) *types.Var {
	return f.X.Type().Underlying().(*types.Struct).Field(f.Field)
}

// isFlag tells if v is a load of a frozen flag, and of what object.
func (a *Analysis) isFlagLoad(v ssa.Value) (ssa.Value, bool) {
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if fa, ok := v.X.(*ssa.FieldAddr); ok && a.flag[fieldVar(fa)] {
				return fa.X, true
			}
		}
	case *ssa.Field:
		if a.flag[fieldVarV(v)] {
			return v.X, true
		}
	}
	return nil, false
}

// cell is a variable that lives in memory, typically because a closure captures it.
type cell struct {
	stores []ssa.Value // values stored
	where  []*ssa.Store
	opaque bool // the address is used for other things than loads and stores
}

// cellOf describes the variable at the given address, or nil if it isn't a variable of the function.
func (a *Analysis) cellOf(addr ssa.Value) *cell {
	if c, ok := a.cellMemo[addr]; ok {
		return c
	}
	al := resolveCell(addr)
	if al == nil {
		a.cellMemo[addr] = nil
		return nil
	}
	if c, ok := a.cellMemo[al]; ok {
		a.cellMemo[addr] = c
		return c
	}
	c := &cell{}
	collectCell(al, c, map[ssa.Value]bool{})
	a.cellMemo[al] = c
	a.cellMemo[addr] = c
	return c
}

func cellStores(addr ssa.Value) []ssa.Value {
	al := resolveCell(addr)
	if al == nil {
		return nil
	}
	c := &cell{}
	collectCell(al, c, map[ssa.Value]bool{})
	if c.opaque {
		return nil
	}
	return c.stores
}

func resolveCell(addr ssa.Value) *ssa.Alloc {
	for {
		switch v := addr.(type) {
		case *ssa.Alloc:
			return v
		case *ssa.FreeVar:
			b := binding(v)
			if b == nil {
				return nil
			}
			addr = b
		default:
			return nil
		}
	}
}

// binding finds what a free variable of a closure is bound to where the closure is made.
func binding(v *ssa.FreeVar) ssa.Value {
	fn := v.Parent()
	idx := -1
	for i, fv := range fn.FreeVars {
		if fv == v {
			idx = i
		}
	}
	par := fn.Parent()
	if par == nil || idx < 0 {
		return nil
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc.Bindings[idx]
			}
		}
	}
	return nil
}

func collectCell(addr ssa.Value, c *cell, seen map[ssa.Value]bool) {
	if seen[addr] {
		return
	}
	seen[addr] = true
	refs := addr.Referrers()
	if refs == nil {
		c.opaque = true
		return
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == addr {
				c.stores = append(c.stores, r.Val)
				c.where = append(c.where, r)
			} else {
				c.opaque = true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == addr && i < len(fn.FreeVars) {
					collectCell(fn.FreeVars[i], c, seen)
				}
			}
		default:
			c.opaque = true
		}
	}
}

// key is a canonical name for the object that v denotes. Two values with the same key denote the same object.
func (a *Analysis) key(v ssa.Value) string { return a.keyD(v, 0) }

func (a *Analysis) keyD(v ssa.Value, d int) string {
	if d > 20 {
		return a.uniq(v)
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		return a.pkey(v)
	case *ssa.FreeVar:
		if b := binding(v); b != nil {
			return a.keyD(b, d+1)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch x := v.X.(type) {
			case *ssa.FieldAddr:
				return a.keyD(x.X, d+1) + "." + fieldVar(x).Name()
			case *ssa.Global:
				return "G:" + x.RelString(nil)
			case *ssa.Alloc, *ssa.FreeVar:
				if c := a.cellOf(x); c != nil && !c.opaque && len(c.stores) == 1 {
					return a.keyD(c.stores[0], d+1)
				}
			}
		}
	case *ssa.Field:
		return a.keyD(v.X, d+1) + "." + fieldVarV(v).Name()
	case *ssa.FieldAddr:
		return a.keyD(v.X, d+1) + "." + fieldVar(v).Name()
	case *ssa.TypeAssert:
		if !v.CommaOk {
			return a.keyD(v.X, d+1)
		}
	case *ssa.Extract:
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok && v.Index == 0 {
			return a.keyD(ta.X, d+1)
		}
	case *ssa.ChangeInterface:
		return a.keyD(v.X, d+1)
	case *ssa.MakeInterface:
		return a.keyD(v.X, d+1)
	case *ssa.ChangeType:
		return a.keyD(v.X, d+1)
	case *ssa.Const:
		return "C:" + v.String()
	case *ssa.Phi:
		k := ""
		for _, e := range v.Edges {
			if e == v {
				continue
			}
			if _, isPhi := e.(*ssa.Phi); isPhi {
				return a.uniq(v)
			}
			ek := a.keyD(e, d+1)
			if k == "" {
				k = ek
			} else if k != ek {
				return a.uniq(v)
			}
		}
		if k != "" {
			return k
		}
	}
	return a.uniq(v)
}

func (a *Analysis) pkey(v *ssa.Parameter) string {
	fn := v.Parent()
	for i, p := range fn.Params {
		if p == v {
			return fmt.Sprintf("P:%s:%d", fname(fn), i)
		}
	}
	return a.uniq(v)
}

func (a *Analysis) uniq(v ssa.Value) string {
	fn := v.Parent()
	n := "-"
	if fn != nil {
		n = fname(fn)
	}
	return "V:" + n + ":" + v.Name()
}

// cond yields the facts that hold when the boolean c has the given value.
func (a *Analysis) cond(c ssa.Value, pol bool) Facts { return a.condD(c, pol, 0) }

func (a *Analysis) condD(c ssa.Value, pol bool, d int) Facts {
	r := Facts{}
	if d > 10 {
		return r
	}
	r[fact(a.key(c), "v", pol)] = true
	switch c := c.(type) {
	case *ssa.UnOp:
		switch c.Op {
		case token.NOT:
			return a.condD(c.X, !pol, d+1)
		case token.MUL:
			if x, ok := a.isFlagLoad(c); ok {
				r[fact(a.key(x), "frozen", pol)] = true
				return r
			}
			if ce := a.cellOf(c.X); ce != nil && !ce.opaque && len(ce.stores) == 1 {
				return a.condD(ce.stores[0], pol, d+1)
			}
		}
	case *ssa.Field:
		if x, ok := a.isFlagLoad(c); ok {
			r[fact(a.key(x), "frozen", pol)] = true
		}
	case *ssa.Extract:
		if ta, ok := c.Tuple.(*ssa.TypeAssert); ok && c.Index == 1 {
			r[fact(a.key(ta.X), "is:"+tname(ta.AssertedType), pol)] = true
			return r
		}
		if call, ok := c.Tuple.(*ssa.Call); ok {
			for k := range a.callCond(call, c.Index, pol) {
				r[k] = true
			}
		}
	case *ssa.BinOp:
		if c.Op == token.EQL || c.Op == token.NEQ {
			eq := pol == (c.Op == token.EQL)
			x, y := c.X, c.Y
			if _, ok := x.(*ssa.Const); ok {
				x, y = y, x
			}
			if k, ok := y.(*ssa.Const); ok {
				if k.IsNil() {
					r[fact(a.key(x), "nil", eq)] = true
				} else if k.Value != nil && k.Value.Kind() == constant.Bool {
					return a.condD(x, eq == constant.BoolVal(k.Value), d+1)
				}
			}
			if mi, ok := y.(*ssa.MakeInterface); ok && eq {
				r[fact(a.key(x), "is:"+tname(mi.X.Type()), true)] = true
			}
			for i := 0; i < 2; i++ {
				if g := loadedGlobal(y); g != nil {
					r[fact(a.key(x), "eqg:"+g.Pkg.Pkg.Path()+"."+g.Name(), eq)] = true
				}
				x, y = y, x
			}
		}
	case *ssa.Call:
		for k := range a.callCond(c, 0, pol) {
			r[k] = true
		}
	case *ssa.Phi:
		// the value of a && b, or a || b
		var acc Facts
		for i, e := range c.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) != pol {
				continue
			}
			ef := a.edge(c.Block().Preds[i], c.Block()).clone()
			for k := range a.condD(e, pol, d+1) {
				ef[k] = true
			}
			if acc == nil {
				acc = ef
			} else {
				acc = intersect(acc, ef)
			}
		}
		for k := range acc {
			r[k] = true
		}
	}
	return r
}

// loadedGlobal is the package variable that v is the value of, or nil.
func loadedGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.ChangeInterface:
			v = x.X
			continue
		case *ssa.UnOp:
			if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
				return g
			}
		}
		return nil
	}
}

func (a *Analysis) callCond(c *ssa.Call, idx int, pol bool) Facts {
	r := Facts{}
	cc := c.Common()
	if cc.IsInvoke() {
		if cc.Method.Name() == "Frozen" && len(cc.Args) == 0 {
			r[fact(a.key(cc.Value), "frozen", pol)] = true
		}
		return r
	}
	f := staticFn(cc.Value)
	if f == nil || f.Blocks == nil || !a.p.inModule(f) {
		return r
	}
	if f.Name() == "Frozen" && f.Signature.Recv() != nil && len(cc.Args) == 1 {
		r[fact(a.key(cc.Args[0]), "frozen", pol)] = true
		return r
	}
	s := a.boolSummary(f, idx)
	if s == nil {
		return r
	}
	fs := s.f
	if pol {
		fs = s.t
	}
	for k := range a.translate(fs, f, cc.Args) {
		r[k] = true
	}
	return r
}

// translate turns facts about the parameters of f into facts about the arguments of a call of f.
func (a *Analysis) translate(fs Facts, f *ssa.Function, args []ssa.Value) Facts {
	r := Facts{}
	if len(fs) == 0 {
		return r
	}
	var pre, rep []string
	for i := range f.Params {
		if i < len(args) {
			pre = append(pre, a.pkey(f.Params[i]))
			rep = append(rep, a.key(args[i]))
		}
	}
	for k := range fs {
		for i, p := range pre {
			if strings.HasPrefix(k, p) && len(k) > len(p) && (k[len(p)] == '|' || k[len(p)] == '.') {
				r[rep[i]+k[len(p):]] = true
			}
		}
	}
	return r
}

func (a *Analysis) boolSummary(f *ssa.Function, idx int) *boolSum {
	k := fmt.Sprintf("%s#%d", fname(f), idx)
	if s, ok := a.bsum[k]; ok {
		return s
	}
	if a.bbusy[k] || a.busy[f] {
		return nil
	}
	a.bbusy[k] = true
	defer delete(a.bbusy, k)
	s := &boolSum{}
	upd := func(dst *Facts, fs Facts) {
		if *dst == nil {
			*dst = fs.clone()
		} else {
			*dst = intersect(*dst, fs)
		}
	}
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || idx >= len(ret.Results) {
			continue
		}
		bf := a.at(ret)
		if bf == nil {
			continue
		}
		a.retCases(ret.Results[idx], bf, upd, s, 0)
	}
	a.bsum[k] = s
	return s
}

func (a *Analysis) retCases(v ssa.Value, bf Facts, upd func(*Facts, Facts), s *boolSum, d int) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
		if constant.BoolVal(c.Value) {
			upd(&s.t, bf)
		} else {
			upd(&s.f, bf)
		}
		return
	}
	if ph, ok := v.(*ssa.Phi); ok && d < 4 {
		for i, e := range ph.Edges {
			ef := a.edge(ph.Block().Preds[i], ph.Block())
			if ef == nil {
				continue
			}
			m := bf.clone()
			for k := range ef {
				m[k] = true
			}
			a.retCases(e, m, upd, s, d+1)
		}
		return
	}
	for _, pol := range []bool{true, false} {
		m := bf.clone()
		for k := range a.cond(v, pol) {
			m[k] = true
		}
		if pol {
			upd(&s.t, m)
		} else {
			upd(&s.f, m)
		}
	}
}

// ensures yields the facts about its parameters that hold whenever f returns normally.
func (a *Analysis) ensures(f *ssa.Function) Facts {
	if e, ok := a.ens[f]; ok {
		return e
	}
	if a.ebusy[f] || a.busy[f] {
		return nil
	}
	a.ebusy[f] = true
	defer delete(a.ebusy, f)
	var acc Facts
	n := 0
	for _, b := range f.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		fs := a.at(ret)
		if fs == nil {
			continue
		}
		n++
		keep := Facts{}
		for k := range fs {
			if strings.Contains(k, "|frozen=") || strings.Contains(k, "|is:") || strings.Contains(k, "|nil=") {
				keep[k] = true
			}
		}
		if acc == nil {
			acc = keep
		} else {
			acc = intersect(acc, keep)
		}
	}
	a.ens[f] = acc
	return acc
}

// blockIn computes the facts at the entry of each block.
func (a *Analysis) blockIn(f *ssa.Function) []Facts {
	if r, ok := a.in[f]; ok {
		return r
	}
	if a.busy[f] {
		return nil
	}
	a.busy[f] = true
	defer delete(a.busy, f)
	in := make([]Facts, len(f.Blocks))
	entry := Facts{}
	if f.Parent() != nil {
		// What is known where the closure is made is known inside it, as far as frozen flags and types are concerned
		if mcs := a.p.dynSites[f]; len(mcs) == 1 && !a.busy[f.Parent()] {
			if fs := a.at(mcs[0]); fs != nil {
				for k := range fs {
					entry[k] = true
				}
			}
		}
	}
	in[0] = entry
	work := []*ssa.BasicBlock{f.Blocks[0]}
	if f.Recover != nil {
		in[f.Recover.Index] = Facts{}
		work = append(work, f.Recover)
	}
	cache := map[*ssa.BasicBlock][]string{}
	for steps := 0; len(work) > 0 && steps < 20000; steps++ {
		b := work[0]
		work = work[1:]
		out := in[b.Index].clone()
		add, ok := cache[b]
		if !ok {
			for _, ins := range b.Instrs {
				add = append(add, a.gen(ins)...)
			}
			cache[b] = add
		}
		for _, k := range add {
			out[k] = true
		}
		for si, s := range b.Succs {
			e := out
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && !(len(b.Succs) == 2 && b.Succs[0] == b.Succs[1]) {
				e = out.clone()
				cf := a.condLocal(iff.Cond, si == 0, in, f)
				if out.contradicts(cf) {
					continue // infeasible
				}
				for k := range cf {
					e[k] = true
				}
			}
			if in[s.Index] == nil {
				in[s.Index] = e.clone()
				work = append(work, s)
			} else {
				m := intersect(in[s.Index], e)
				if len(m) != len(in[s.Index]) {
					in[s.Index] = m
					work = append(work, s)
				}
			}
		}
	}
	a.in[f] = in
	return in
}

// condLocal is cond for use while the facts of the function are being computed (phi edges are then not available).
func (a *Analysis) condLocal(c ssa.Value, pol bool, in []Facts, f *ssa.Function) Facts {
	return a.cond(c, pol)
}

// gen yields the facts established by an instruction.
func (a *Analysis) gen(in ssa.Instruction) []string {
	switch in := in.(type) {
	case *ssa.Call:
		if f := staticFn(in.Call.Value); f != nil && f.Blocks != nil && a.p.inModule(f) && !in.Call.IsInvoke() {
			if e := a.ensures(f); len(e) > 0 {
				var r []string
				for k := range a.translate(e, f, in.Call.Args) {
					r = append(r, k)
				}
				return r
			}
		}
	case *ssa.TypeAssert:
		if !in.CommaOk {
			return []string{fact(a.key(in.X), "is:"+tname(in.AssertedType), true)}
		}
	}
	return nil
}

// at yields the facts that hold just before the instruction, nil if it cannot be reached.
func (a *Analysis) at(in ssa.Instruction) Facts {
	b := in.Block()
	if b == nil {
		return Facts{}
	}
	all := a.blockIn(b.Parent())
	if all == nil {
		return Facts{}
	}
	if all[b.Index] == nil {
		return nil
	}
	r := all[b.Index].clone()
	for _, i := range b.Instrs {
		if i == in {
			break
		}
		for _, k := range a.gen(i) {
			r[k] = true
		}
	}
	return r
}

// edge yields the facts that hold when control passes from block b to s, nil if that cannot happen.
func (a *Analysis) edge(b, s *ssa.BasicBlock) Facts {
	f := b.Parent()
	if a.busy[f] {
		return Facts{}
	}
	last := b.Instrs[len(b.Instrs)-1]
	out := a.at(last)
	if out == nil {
		return nil
	}
	if iff, ok := last.(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
		cf := a.cond(iff.Cond, b.Succs[0] == s)
		if out.contradicts(cf) {
			return nil
		}
		for k := range cf {
			out[k] = true
		}
	}
	return out
}
