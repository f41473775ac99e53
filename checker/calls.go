package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// arg is an actual argument: the value, if there is one, and what it may refer to.
type arg struct {
	v    ssa.Value
	refs []Ref
	t    types.Type
}

func (u *unit) argOf(v ssa.Value) arg { return arg{v: v, refs: u.refs(v), t: v.Type()} }

// addRes records references of a result of the call.
func (u *unit) addRes(c ssa.CallInstruction, i int, rs []Ref) {
	call, ok := c.(*ssa.Call)
	if !ok {
		return
	}
	if _, isT := call.Type().(*types.Tuple); !isT {
		if i == 0 {
			u.addAll(call, rs)
		}
		return
	}
	s := u.resSets[call]
	n := call.Type().(*types.Tuple).Len()
	for len(s) < n {
		s = append(s, &refSet{})
	}
	u.resSets[call] = s
	for _, r := range rs {
		if i < n && s[i].add(r) {
			u.changed = true
		}
	}
}

func (u *unit) resType(c ssa.CallInstruction, i int) types.Type {
	sig := c.Common().Signature()
	if i < sig.Results().Len() {
		return sig.Results().At(i).Type()
	}
	return nil
}

func (u *unit) call(f *ssa.Function, c ssa.CallInstruction) {
	cc := c.Common()
	fs, ok := u.at(c)
	if !ok {
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		u.builtin(b, c, fs)
		return
	}
	var args []arg
	if cc.IsInvoke() {
		args = append(args, u.argOf(cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, u.argOf(a))
	}
	// closures that are handed to the callee
	u.bindClosures(c, cc.Args, args, fs)

	if cc.IsInvoke() {
		fns, _ := u.a.p.callees(cc)
		for _, t := range u.narrow(cc, fns, fs) {
			u.apply(c, t, args, fs)
		}
		if len(fns) == 0 {
			u.external(c, cc.Method.FullName(), args, fs)
		}
		return
	}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok && boundMethod(mc) != nil {
		full := append([]arg{u.argOf(mc.Bindings[0])}, args...)
		for _, t := range u.a.boundTargets(mc) {
			u.apply(c, t, full, fs)
		}
		return
	}
	t := staticFn(cc.Value)
	if t == nil {
		// a function value: a callback that the user of the module supplies, its result is not ours
		if !inert(cc.Value.Type()) {
			return
		}
		return
	}
	if u.bodies[t] && t != u.fn {
		// a closure of this unit
		for i, a := range args {
			if i < len(t.Params) {
				u.addAll(t.Params[i], u.refine(a.refs, a.v, fs))
			}
		}
		for _, b := range t.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				for i, v := range ret.Results {
					u.addRes(c, i, u.refs(v))
				}
			}
		}
		return
	}
	if t.Blocks != nil && u.a.p.inModule(t) && t.Parent() == nil {
		u.apply(c, t, args, fs)
		return
	}
	u.external(c, t.RelString(nil), args, fs)
}

// narrow drops implementations that what is known about the receiver excludes.
func (u *unit) narrow(cc *ssa.CallCommon, fns []*ssa.Function, fs Facts) []*ssa.Function {
	k := u.key(cc.Value)
	if mi, ok := cc.Value.(*ssa.MakeInterface); ok {
		if m := u.a.p.methodOf(mi.X.Type(), cc.Method.Name()); m != nil {
			return []*ssa.Function{m}
		}
	}
	dt, ok := u.dyns[cc]
	if !ok {
		if ts, known := u.a.dynTypes(cc.Value); known && len(ts) > 0 {
			dt = []*ssa.Function{}
			for _, t := range ts {
				if m := u.a.p.methodOf(t, cc.Method.Name()); m != nil && m.Blocks != nil {
					dt = append(dt, m)
				}
			}
		}
		u.dyns[cc] = dt
	}
	if dt != nil {
		fns = dt
	}
	pre := k + "|is:"
	var not []string
	for x := range fs {
		if strings.HasPrefix(x, pre) && strings.HasSuffix(x, "=false") {
			not = append(not, strings.TrimSuffix(x[len(pre):], "=false"))
		}
	}
	if len(not) == 0 {
		return fns
	}
	var r []*ssa.Function
	for _, f := range fns {
		drop := false
		if f.Signature.Recv() != nil {
			n := tname(f.Signature.Recv().Type())
			for _, x := range not {
				if x == n {
					drop = true
				}
			}
		}
		if !drop {
			r = append(r, f)
		}
	}
	return r
}

// bindClosures binds the parameters of closures that are passed to a call to what the call's other arguments contain.
func (u *unit) bindClosures(c ssa.CallInstruction, vals []ssa.Value, args []arg, fs Facts) {
	for _, v := range vals {
		var clo *ssa.Function
		var mc *ssa.MakeClosure
		x := v
		if ct, ok := x.(*ssa.ChangeType); ok {
			x = ct.X
		}
		switch x := x.(type) {
		case *ssa.MakeClosure:
			clo = x.Fn.(*ssa.Function)
			mc = x
		case *ssa.Function:
			clo = x
		default:
			if _, isF := v.Type().Underlying().(*types.Signature); isF {
				clo = staticFn(v)
			}
		}
		if clo == nil {
			continue
		}
		bind := func(t types.Type) []Ref {
			if inert(t) {
				return nil
			}
			var rs []Ref
			for _, a := range args {
				if a.v == v {
					continue
				}
				if _, isF := a.t.Underlying().(*types.Signature); isF {
					continue
				}
				for _, r := range a.refs {
					if u.a.storageType(t) && !u.a.storageType(a.t) {
						continue
					}
					rs = append(rs, u.loadBy(r, t, a.v, mayHold)...)
				}
			}
			return rs
		}
		if mc != nil && boundMethod(mc) != nil {
			sig := boundMethod(mc).Type().(*types.Signature)
			full := []arg{u.argOf(mc.Bindings[0])}
			for i := 0; i < sig.Params().Len(); i++ {
				full = append(full, arg{refs: bind(sig.Params().At(i).Type()), t: sig.Params().At(i).Type()})
			}
			for _, t := range u.a.boundTargets(mc) {
				u.applyEff(c, t, full, fs)
			}
			continue
		}
		if u.bodies[clo] && clo != u.fn {
			for _, p := range clo.Params {
				u.addAll(p, bind(p.Type()))
			}
		} else if clo.Blocks != nil && clo.Parent() == nil && u.a.p.inModule(clo) {
			var full []arg
			for _, p := range clo.Params {
				full = append(full, arg{refs: bind(p.Type()), t: p.Type()})
			}
			u.applyEff(c, clo, full, fs)
		}
	}
}

// apply uses the summary of t at a call.
func (u *unit) apply(c ssa.CallInstruction, t *ssa.Function, args []arg, fs Facts) {
	u.applyEff(c, t, args, fs)
	s := u.a.sums[t]
	if s == nil {
		return
	}
	call, _ := c.(*ssa.Call)
	if call == nil {
		return
	}
	// a frozen copy is frozen at every depth (that it is, is C02's business)
	frz := t.Name() == "FrozenCopy" && t.Signature.Recv() != nil
	for i := range s.ret {
		var out []Ref
		for _, r := range s.ret[i].sorted() {
			if r.Kind == rFresh {
				out = append(out, fresh(call, i))
				continue
			}
			for _, x := range u.translate(r, t, args, fs) {
				if frz {
					x.Imm = true
				}
				out = append(out, x)
			}
		}
		dst := u.contentOf(siteKey{call, i})
		for _, e := range s.retC[i] {
			for _, r := range e.refs.sorted() {
				if r.Kind == rFresh {
					if dst.add(e.t, fresh(call, i)) {
						u.changed = true
					}
					continue
				}
				for _, x := range u.translate(r, t, args, fs) {
					if frz {
						x.Imm = true
					}
					if dst.add(e.t, x) {
						u.changed = true
					}
				}
			}
		}
		u.addRes(c, i, out)
	}
}

// translateFacts turns facts about the parameters of t into facts about the caller's values. ok is false when a fact
// is known to be false at the call.
func (u *unit) translateFacts(fs Facts, t *ssa.Function, args []arg, here Facts) (out, local Facts, ok bool) {
	out, local = Facts{}, Facts{}
	if len(fs) == 0 {
		return out, local, true
	}
	for i, p := range t.Params {
		if i >= len(args) || args[i].v == nil {
			continue
		}
		pk := u.a.pkey(p)
		for k := range fs {
			if !strings.HasPrefix(k, pk) || len(k) <= len(pk) || (k[len(pk)] != '|' && k[len(pk)] != '.') {
				continue
			}
			rest := k[len(pk):]
			if cv, isC := args[i].v.(*ssa.Const); isC && cv.Value != nil && cv.Value.Kind() == constant.Bool {
				want := strings.HasSuffix(rest, "=true")
				if constant.BoolVal(cv.Value) != want {
					return nil, nil, false
				}
				continue
			}
			local[u.key(args[i].v)+rest] = true
			if rest == "|v=true" || rest == "|v=false" {
				// what the truth of the argument implies
				for x := range u.a.cond(args[i].v, rest == "|v=true") {
					local[x] = true
				}
			}
		}
	}
	if here != nil && local.contradicts(here) {
		return nil, nil, false
	}
	out = u.paramFacts(local)
	return out, local, true
}

// translate turns a reference in terms of t's parameters into references of the caller.
func (u *unit) translate(r Ref, t *ssa.Function, args []arg, here Facts) []Ref {
	if r.Kind == rGlobal {
		r.Facts = nil
		if u.a.globalFrozen(r.G) {
			r.Imm = true
		}
		return []Ref{r}
	}
	if r.Idx >= len(args) {
		return nil
	}
	pf, local, ok := u.translateFacts(r.Facts, t, args, here)
	if !ok {
		return nil
	}
	a := args[r.Idx]
	self := t.Params[r.Idx]
	var out []Ref
	for _, x := range a.refs {
		if x.Facts.contradicts(local) {
			continue
		}
		if (r.Elem || r.Stor) && x.Kind == rGlobal && u.a.globalFrozen(x.G) {
			continue
		}
		ys := []Ref{x}
		if r.Elem || r.Stor {
			if x.Kind == rFresh {
				if r.Elem {
					ys = u.deep(siteKey{x.Site, x.Res}, map[siteKey]bool{})
					if r.Stor {
						for i := range ys {
							if ys[i].Kind != rFresh && !ys[i].Stor {
								ys[i].Stor, ys[i].Owner, ys[i].OwnT = true, "?", r.OwnT
							}
						}
					}
				} else {
					ys = u.deepStor(siteKey{x.Site, x.Res}, map[siteKey]bool{})
				}
				ys = append(ys, x) // its own storage
			} else {
				y := x
				y.NoCap = false
				if r.Elem {
					y.Elem = true
					y.Imm = y.Imm && !y.Stor // what a frozen value contains is frozen
					y.Stor = false
					y.Owner, y.OwnT = "", ""
				}
				if r.Stor && !y.Stor {
					y.Stor = true
					y.Owner = "?"
					y.OwnT = r.OwnT
					if !r.Elem && r.Owner == u.a.pkey(self) && a.v != nil {
						y.Owner = u.key(a.v)
					}
				}
				ys = []Ref{y}
			}
		}
		for _, y := range ys {
			if here != nil && y.Facts.contradicts(here) {
				continue
			}
			if r.Imm && !y.Stor {
				y.Imm = true
			}
			if y.Elem && y.Kind == rParam && here != nil && y.Idx < len(u.fn.Params) && here.has(u.a.pkey(u.fn.Params[y.Idx]), "frozen", true) {
				y.Imm = true // what a frozen value contains is frozen (that is C02's business)
			}
			if y.Kind == rGlobal && u.a.globalFrozen(y.G) {
				y.Imm = true
			}
			if !r.Elem && !r.Stor && r.Facts.has(u.a.pkey(self), "frozen", true) && y.Kind != rFresh && !y.Stor {
				y.Imm = true
			}
			if r.NoCap {
				y.NoCap = true
			}
			if y.Kind != rFresh && len(pf) > 0 {
				m := y.Facts.clone()
				for k := range pf {
					m[k] = true
				}
				y.Facts = m
			}
			out = append(out, y)
		}
	}
	return out
}

// deep yields the objects that are reachable from a fresh object.
func (u *unit) deep(k siteKey, seen map[siteKey]bool) []Ref {
	if seen[k] {
		return nil
	}
	seen[k] = true
	var out []Ref
	for _, e := range u.contentOf(k) {
		stor := u.a.storageType(e.t) && !isReflectValue(e.t) && e.t != reflectCopy
		for _, r := range e.refs.sorted() {
			if r.Kind == rFresh {
				if !stor {
					out = append(out, r)
				}
				out = append(out, u.deep(siteKey{r.Site, r.Res}, seen)...)
				continue
			}
			if !stor {
				out = append(out, r)
			}
			if !r.Elem && !(r.Kind == rGlobal && u.a.globalFrozen(r.G)) {
				// elements of what is stored
				y := r
				y.Elem, y.Stor, y.Owner, y.OwnT, y.NoCap = true, false, "", "", false
				out = append(out, y)
			}
		}
	}
	return out
}

// globalFrozen tells if the variable is initialised with an object that is born frozen, and never assigned.
func (a *Analysis) globalFrozen(g *ssa.Global) bool {
	if r, ok := a.gfrozen[g]; ok {
		return r
	}
	n, frozen := 0, false
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || st.Addr != ssa.Value(g) {
					continue
				}
				n++
				if al, ok := st.Val.(*ssa.Alloc); ok && al.Referrers() != nil {
					for _, r := range *al.Referrers() {
						if fa, ok := r.(*ssa.FieldAddr); ok && a.flag[fieldVar(fa)] {
							for _, rr := range *fa.Referrers() {
								if s2, ok := rr.(*ssa.Store); ok && constTrue(s2.Val) {
									frozen = true
								}
							}
						}
					}
				}
			}
		}
	}
	if a.gfrozen == nil {
		a.gfrozen = map[*ssa.Global]bool{}
	}
	a.gfrozen[g] = frozen && n == 1
	return frozen && n == 1
}

// deepStor yields what the storage of a fresh object may be.
func (u *unit) deepStor(k siteKey, seen map[siteKey]bool) []Ref {
	if seen[k] {
		return nil
	}
	seen[k] = true
	var out []Ref
	for _, e := range u.contentOf(k) {
		if !u.a.storageType(e.t) || isReflectValue(e.t) || e.t == reflectCopy {
			continue
		}
		for _, r := range e.refs.sorted() {
			out = append(out, r)
			if r.Kind == rFresh {
				out = append(out, u.deepStor(siteKey{r.Site, r.Res}, seen)...)
			}
		}
	}
	return out
}

// applyEff applies the effects and links of t.
func (u *unit) applyEff(c ssa.CallInstruction, t *ssa.Function, args []arg, fs Facts) {
	s := u.a.sums[t]
	if s == nil {
		return
	}
	for _, e := range s.effects {
		if e.R.Kind == rGlobal {
			continue // reported where it takes place
		}
		if e.R.Idx >= len(args) {
			continue
		}
		base := args[e.R.Idx]
		for _, r := range u.translate(e.R, t, args, fs) {
			if r.Kind == rFresh {
				continue
			}
			n := e
			n.R = r
			if !n.Guarded {
				if !e.R.Elem && base.v != nil {
					g, inf := u.guarded(r, base.v, fs)
					if inf {
						continue
					}
					if g {
						n.Guarded = true
					}
				}
			} else if r.Imm {
				// only writes when not frozen, and this is frozen
				continue
			}
			n.Via = fname(t)
			u.tag(&n)
			u.addEffect(n)
		}
	}
	for _, l := range s.links {
		srcs := []Ref{l.Src}
		if l.Src.Kind == rParam {
			srcs = u.translate(l.Src, t, args, fs)
		} else if l.Src.Kind == rFresh {
			continue
		}
		dsts := []Ref{l.Dst}
		if l.Dst.Kind == rParam {
			if l.Dst.Idx >= len(args) {
				continue
			}
			dsts = nil
			for _, x := range args[l.Dst.Idx].refs {
				if x.Kind != rFresh {
					if x.Elem {
						continue
					}
					if l.Dst.Stor && !x.Stor {
						x.Stor = true
						x.Owner = "?"
						x.OwnT = l.Dst.OwnT
					}
					dsts = append(dsts, x)
					continue
				}
				dsts = append(dsts, x)
				if l.Dst.Stor {
					for _, e := range u.contentOf(siteKey{x.Site, x.Res}) {
						if u.a.storageType(e.t) {
							for _, y := range e.refs.sorted() {
								if y.Kind == rFresh && y.ident() != x.ident() {
									dsts = append(dsts, y)
								}
							}
						}
					}
				}
			}
		}
		pf, _, ok := u.translateFacts(l.Facts, t, args, fs)
		if !ok {
			continue
		}
		for _, d := range dsts {
			for _, x := range srcs {
				if d.Kind == rFresh {
					if u.contentOf(siteKey{d.Site, d.Res}).add(l.T, x) {
						u.changed = true
					}
					continue
				}
				n := l
				n.Dst, n.Src, n.Facts = d, x, pf
				u.addLink(n)
			}
		}
	}
}

func (u *unit) builtin(b *ssa.Builtin, c ssa.CallInstruction, fs Facts) {
	args := c.Common().Args
	switch b.Name() {
	case "append":
		v, ok := c.(*ssa.Call)
		if !ok {
			return
		}
		st, _ := v.Type().Underlying().(*types.Slice)
		fr := fresh(v, 0)
		var dst []Ref
		for _, r := range u.refs(args[0]) {
			if r.NoCap {
				// always reallocates, unless nothing is appended
				u.copyElems(fr, r, st.Elem(), args[0], fs)
				continue
			}
			if r.Kind != rFresh {
				u.effect("append", r, args[0], tname(args[0].Type()), "[]", c, fs, false)
			}
			u.copyElems(fr, r, st.Elem(), args[0], fs)
			dst = append(dst, r)
		}
		dst = append(dst, fr)
		if len(args) > 1 {
			for _, d := range dst {
				for _, s := range u.refs(args[1]) {
					u.copyElems(d, s, st.Elem(), args[1], fs)
					if d.Kind != rFresh {
						for _, x := range u.load(s, st.Elem(), args[1]) {
							u.addLink(Link{Dst: d, Src: x, T: canonType(st.Elem()), Field: "[]", Pos: u.a.p.instrPos(c), In: c.Parent(), Facts: u.paramFacts(fs)})
						}
					}
				}
			}
		}
		u.addAll(v, dst)
	case "copy":
		for _, d := range u.refs(args[0]) {
			st, ok := args[0].Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			if d.Kind != rFresh {
				u.effect("copy", d, args[0], tname(args[0].Type()), "[]", c, fs, false)
			}
			for _, s := range u.refs(args[1]) {
				u.copyElems(d, s, st.Elem(), args[1], fs)
			}
		}
	case "delete", "clear":
		for _, d := range u.refs(args[0]) {
			if d.Kind != rFresh {
				u.effect("delete", d, args[0], tname(args[0].Type()), "[]", c, fs, false)
			}
		}
	}
}

// copyElems makes the fresh object d contain the elements of s.
func (u *unit) copyElems(d, s Ref, et types.Type, sv ssa.Value, fs Facts) {
	if d.Kind != rFresh || inert(et) {
		return
	}
	c := u.contentOf(siteKey{d.Site, d.Res})
	for _, x := range u.load(s, et, sv) {
		if c.add(et, x) {
			u.changed = true
		}
	}
}

// external models calls of functions outside the module.
func (u *unit) external(c ssa.CallInstruction, name string, args []arg, fs Facts) {
	v, _ := c.(*ssa.Call)
	name = strings.TrimPrefix(name, "(")
	pass := func(i int) {
		if v != nil && i < len(args) {
			u.addRes(c, 0, args[i].refs)
		}
	}
	mut := func(i int, kind string) {
		if i >= len(args) {
			return
		}
		for _, r := range args[i].refs {
			if r.Kind != rFresh {
				u.effect(kind, r, args[i].v, tname(args[i].t), "[]", c, fs, false)
			}
		}
	}
	switch {
	case strings.HasPrefix(name, "sort."):
		switch strings.TrimPrefix(name, "sort.") {
		case "Slice", "SliceStable", "Sort", "Stable", "Strings", "Ints", "Float64s":
			mut(0, "sort")
		case "Reverse":
			pass(0)
		}
	case strings.HasPrefix(name, "slices."):
		n := strings.TrimPrefix(name, "slices.")
		if i := strings.IndexByte(n, '['); i >= 0 {
			n = n[:i]
		}
		switch {
		case strings.HasPrefix(n, "Sort"), n == "Reverse":
			mut(0, "sort")
		case strings.HasPrefix(n, "Delete"), strings.HasPrefix(n, "Compact"), n == "Insert", n == "Replace":
			mut(0, "slices")
			pass(0)
		case n == "Clip", n == "Grow":
			pass(0)
		case n == "Clone", n == "Concat":
			if v != nil && len(args) > 0 {
				fr := fresh(v, 0)
				if st, ok := v.Type().Underlying().(*types.Slice); ok {
					for _, a := range args {
						for _, r := range a.refs {
							u.copyElems(fr, r, st.Elem(), a.v, fs)
						}
					}
				}
				u.addRes(c, 0, []Ref{fr})
			}
		}
	case name == "reflect.ValueOf", name == "reflect.Indirect":
		pass(0)
	case strings.HasPrefix(name, "reflect.Value)."):
		m := strings.TrimPrefix(name, "reflect.Value).")
		switch {
		case m == "Elem" || m == "Field" || m == "FieldByName" || m == "FieldByIndex" || m == "Index" || m == "Addr" || m == "Interface" ||
			m == "Convert" || m == "Slice" || m == "Slice3" || m == "Bytes" || m == "UnsafePointer" || m == "Pointer":
			pass(0)
		case m == "MapIndex" || m == "MapKeys" || m == "MapRange":
			// the value that is stored in the map
			if v != nil && len(args) > 0 {
				for _, r := range args[0].refs {
					x := r
					if x.Kind != rFresh {
						x.Elem, x.Stor, x.Owner, x.OwnT = true, false, "", ""
					}
					u.addRes(c, 0, []Ref{x})
				}
			}
		case strings.HasPrefix(m, "Set") || m == "Grow" || m == "Clear":
			mut(0, "reflect")
			if len(args) > 0 {
				for _, d := range args[0].refs {
					for _, s := range args[1:] {
						if d.Kind == rFresh {
							u.storeFreshT(d, s.v, reflectCopy, fs)
						} else {
							u.linkT(d, s.v, reflectCopy, "", "reflect", c, fs)
						}
					}
				}
			}
		case m == "Call":
			if v != nil {
				u.addRes(c, 0, []Ref{fresh(v, 0)})
			}
		}
	case strings.HasPrefix(name, "reflect."):
		m := strings.TrimPrefix(name, "reflect.")
		switch m {
		case "New", "MakeSlice", "MakeMap", "MakeMapWithSize", "Zero", "NewAt", "MakeFunc":
			if v != nil {
				u.addRes(c, 0, []Ref{fresh(v, 0)})
			}
		case "Append", "AppendSlice":
			mut(0, "append")
			pass(0)
		case "Copy":
			mut(0, "copy")
		}
	case strings.HasSuffix(name, "Encoding).Encode"), strings.HasSuffix(name, "Encoding).Decode"):
		mut(1, "copy")
	case strings.HasSuffix(name, ".Read"), strings.HasSuffix(name, "io.ReadFull"):
		if strings.HasSuffix(name, "io.ReadFull") {
			mut(1, "copy")
		} else if len(args) > 1 {
			mut(1, "copy")
		}
	case strings.HasPrefix(name, "encoding/binary."):
	case strings.HasPrefix(name, "bytes."):
		switch strings.TrimPrefix(name, "bytes.") {
		case "NewBuffer", "NewReader", "TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix", "Split", "Fields":
			pass(0)
		}
	case strings.HasSuffix(name, "bytes.Buffer).Bytes"), strings.HasSuffix(name, "bytes.Buffer).Next"):
		pass(0)
	case strings.HasSuffix(name, "bytes.Buffer).Write"), strings.HasSuffix(name, "strings.Builder).Write"):
	default:
		if v != nil {
			for i := 0; i < c.Common().Signature().Results().Len(); i++ {
				if rt := u.resType(c, i); rt != nil && !inert(rt) {
					u.addRes(c, i, []Ref{fresh(v, i)})
				}
			}
		}
	}
}
