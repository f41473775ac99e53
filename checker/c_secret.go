package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: a sensitive value is never disclosed.

// secrets is a taint analysis: what derives from the content of a source, and where does it end up?
type secrets struct {
	a         *Analysis
	source    func(v ssa.Value) bool         // v is the content
	container func(fa *ssa.FieldAddr) bool   // what is stored in the field is protected again
	reveals   map[*ssa.Function]map[int]bool // results that derive from content
	sums      map[string]*secretSum
	always    func(g *ssa.Function) bool // results may derive from content even when no argument does
}

type secretSum struct {
	res   map[int]bool
	eff   map[int]bool // parameters whose content then derives from it
	leaks []secretLeak
}

type secretLeak struct {
	f    *ssa.Function
	in   ssa.Instruction
	what string
}

// sanitized tells if a type cannot carry what identifies a value.
func sanitized(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Bool || b.Kind() == types.UntypedBool)
}

// isGeneric tells if a call strips a type from what is specific.
func (s *secrets) isGeneric(cc *ssa.CallCommon, g *ssa.Function) bool {
	rs := cc.Signature().Results()
	return callName(cc, g) == "Generic" && rs.Len() == 1 && types.Implements(rs.At(0).Type(), s.a.p.iface("Type"))
}

// isWriter tells if something that is written ends up in t.
func isWriter(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "Write", "WriteString", "WriteByte":
			return true
		}
	}
	return false
}

// run analyses a function, with its closures.
func (s *secrets) run(f *ssa.Function, tainted map[int]bool, d int) *secretSum {
	var idx []int
	for i := range tainted {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	k := fmt.Sprint(fname(f), f.Pos(), idx)
	if r, ok := s.sums[k]; ok {
		return r
	}
	r := &secretSum{res: map[int]bool{}, eff: map[int]bool{}}
	s.sums[k] = r
	if f.Blocks == nil || d > 12 {
		return r
	}
	fam := []*ssa.Function{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		fam = append(fam, f)
		for _, g := range f.AnonFuncs {
			add(g)
		}
	}
	add(f)
	t := map[ssa.Value]bool{}
	for i, p := range f.Params {
		if tainted[i] {
			t[p] = true
		}
	}
	changed := true
	leaks := map[string]secretLeak{}
	leak := func(in ssa.Instruction, what string) {
		leaks[s.a.p.instrPos(in)+what] = secretLeak{f: in.Parent(), in: in, what: what}
	}
	mark := func(v ssa.Value) {
		if v != nil && !t[v] && !sanitized(v.Type()) {
			t[v] = true
			changed = true
		}
	}
	// spoil makes what an address or reference leads to derived from the content
	var spoil func(v ssa.Value, in ssa.Instruction, n int)
	spoil = func(v ssa.Value, in ssa.Instruction, n int) {
		if t[v] || n > 20 {
			return
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			if !s.container(x) {
				spoil(x.X, in, n+1)
			}
		case *ssa.IndexAddr:
			spoil(x.X, in, n+1)
		case *ssa.UnOp:
			mark(x)
			if x.Op == token.MUL {
				spoil(x.X, in, n+1)
				for _, st := range cellStores(x.X) {
					spoil(st, in, n+1)
				}
			}
		case *ssa.Parameter:
			if x.Parent() == f {
				for i, p := range f.Params {
					if p == x && !r.eff[i] {
						r.eff[i] = true
						changed = true
					}
				}
				mark(x)
				return
			}
			mark(x)
		case *ssa.FreeVar:
			mark(x)
			if b := binding(x); b != nil {
				spoil(b, in, n+1)
			}
		case *ssa.Global:
			leak(in, "is stored in "+x.Name())
		case *ssa.Slice:
			mark(x)
			spoil(x.X, in, n+1)
		case *ssa.ChangeType:
			mark(x)
			spoil(x.X, in, n+1)
		case *ssa.ChangeInterface:
			mark(x)
			spoil(x.X, in, n+1)
		case *ssa.MakeInterface:
			mark(x)
			spoil(x.X, in, n+1)
		case *ssa.TypeAssert:
			mark(x)
			spoil(x.X, in, n+1)
		case *ssa.Phi:
			mark(x)
			for _, e := range x.Edges {
				spoil(e, in, n+1)
			}
		case *ssa.Extract:
			mark(x)
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
				spoil(ta.X, in, n+1)
			}
		case *ssa.Const, *ssa.Function, *ssa.Builtin:
		default:
			mark(v)
		}
	}
	for pass := 0; changed && pass < 50; pass++ {
		changed = false
		eachInstr(fam, func(in ssa.Instruction) {
			v, isV := in.(ssa.Value)
			if isV && s.source(v) {
				mark(v)
			}
			switch x := in.(type) {
			case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface,
				*ssa.Convert, *ssa.TypeAssert, *ssa.Slice, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.SliceToArrayPointer, *ssa.MultiConvert, *ssa.BinOp, *ssa.Phi:
				if fa, ok := x.(*ssa.FieldAddr); ok && s.container(fa) {
					break
				}
				for _, o := range in.Operands(nil) {
					if *o != nil && t[*o] {
						mark(v)
					}
				}
			case *ssa.Extract:
				if t[x.Tuple] && !sanitized(x.Type()) {
					if c, ok := x.Tuple.(*ssa.Call); ok {
						if g := staticFn(c.Call.Value); g != nil && !c.Call.IsInvoke() && s.a.p.inModule(g) && g.Blocks != nil && !s.resultTainted(c, g, x.Index, t, d) {
							break
						}
					}
					mark(x)
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if i >= len(fn.FreeVars) {
						continue
					}
					if t[b] {
						mark(fn.FreeVars[i])
					}
					if fn.Parent() == nil && t[b] { // a bound method
						mark(x)
					}
				}
			case *ssa.Store:
				if t[x.Val] {
					spoil(x.Addr, in, 0)
				}
			case *ssa.MapUpdate:
				if t[x.Key] || t[x.Value] {
					spoil(x.Map, in, 0)
				}
			case *ssa.Send:
				if t[x.X] {
					leak(in, "is sent to a channel")
				}
			case *ssa.Panic:
				if t[x.X] {
					leak(in, "is part of a panic")
				}
			case *ssa.Return:
				if in.Parent() != f {
					break
				}
				for i, o := range x.Results {
					if t[o] && !sanitized(o.Type()) && !r.res[i] {
						r.res[i] = true
						changed = true
					}
				}
			case ssa.CallInstruction:
				s.call(x, t, mark, spoil, leak, d)
			}
		})
	}
	for _, k := range sortedKeys(leaks) {
		r.leaks = append(r.leaks, leaks[k])
	}
	return r
}

func sortedKeys[T any](m map[string]T) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// resultTainted tells if a certain result of a call derives from the content.
func (s *secrets) resultTainted(c *ssa.Call, g *ssa.Function, i int, t map[ssa.Value]bool, d int) bool {
	if s.reveals[g][i] {
		return true
	}
	in := map[int]bool{}
	for j, x := range c.Call.Args {
		if t[x] {
			in[j] = true
		}
	}
	return s.run(g, in, d+1).res[i]
}

func (s *secrets) call(c ssa.CallInstruction, t map[ssa.Value]bool, mark func(ssa.Value), spoil func(ssa.Value, ssa.Instruction, int), leak func(ssa.Instruction, string), d int) {
	cc := c.Common()
	v, _ := c.(ssa.Value)
	var args []ssa.Value
	if cc.IsInvoke() {
		args = append(args, cc.Value)
	}
	args = append(args, cc.Args...)
	any := !cc.IsInvoke() && t[cc.Value] // a method that is bound to it
	for _, x := range args {
		if t[x] {
			any = true
		}
	}
	var g *ssa.Function
	if !cc.IsInvoke() {
		g = staticFn(cc.Value)
	}
	if g != nil && s.reveals[g] != nil && v != nil {
		mark(v)
	}
	if !any && !(g != nil && s.always != nil && s.always(g)) {
		return
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			if t[args[1]] {
				spoil(args[0], c, 0)
			}
		case "print", "println":
			leak(c, "is printed")
		case "delete", "close", "recover":
		default:
			if v != nil {
				mark(v)
			}
		}
		return
	}
	if s.isGeneric(cc, g) {
		return
	}
	name := callName(cc, g)
	if g != nil && g.Name() == "Value" && len(args) == 1 && s.a.p.inModule(g) && v != nil && types.Implements(v.Type(), s.a.p.iface("Value")) {
		mark(v) // dgo values are not converted
		return
	}
	// what is called with it is called with content
	for i, x := range args {
		if i == 0 && cc.IsInvoke() {
			continue
		}
		for {
			ct, ok := x.(*ssa.ChangeType)
			if !ok {
				break
			}
			x = ct.X
		}
		if mc, ok := x.(*ssa.MakeClosure); ok {
			for _, p := range mc.Fn.(*ssa.Function).Params {
				mark(p)
			}
		}
	}
	switch {
	case g != nil && s.a.p.inModule(g) && g.Blocks != nil:
		in := map[int]bool{}
		for i, x := range args {
			if t[x] {
				in[i] = true
			}
		}
		sum := s.run(g, in, d+1)
		for _, l := range sum.leaks {
			leak(l.in, l.what)
		}
		for i := range sum.eff {
			if i < len(args) && !t[args[i]] {
				spoil(args[i], c, 0)
			}
		}
		if v != nil && len(sum.res) > 0 {
			mark(v)
		}
	default:
		for i, x := range args {
			if t[x] {
				continue
			}
			if isWriter(x.Type()) {
				if al := allocRoot(x); al != nil {
					spoil(x, c, 0)
				} else {
					leak(c, "is written by "+name)
				}
			} else if i == 0 && (cc.IsInvoke() || g != nil && g.Signature.Recv() != nil) && (cc.Signature().Results().Len() == 0 || mutators[name]) {
				spoil(x, c, 0)
			}
		}
		if g != nil && g.Pkg != nil {
			switch g.Pkg.Pkg.Path() {
			case "log", "os", "log/slog":
				leak(c, "is passed to "+fname(g))
			case "fmt":
				if strings.HasPrefix(name, "Print") {
					leak(c, "is printed")
				}
			}
		}
		if v != nil {
			mark(v)
		}
	}
}

// onlyIfRich finds the places that unwrap values only when rich data is wanted.
func (s *secrets) onlyIfRich(site ssa.CallInstruction, seen map[*ssa.Function]bool) bool {
	f := root(site.Parent())
	if s.richIn(f, site, nil) {
		return true
	}
	// all that call the function
	if seen[f] || ast.IsExported(f.Name()) && f.Signature.Recv() == nil {
		return false
	}
	seen[f] = true
	n := 0
	ok := true
	eachInstr(s.a.p.Funcs, func(in ssa.Instruction) {
		c, is := in.(ssa.CallInstruction)
		if !is || c.Common().IsInvoke() || staticFn(c.Common().Value) != f {
			return
		}
		n++
		if root(in.Parent()) == f || !s.onlyIfRich(c, seen) {
			ok = false
		}
	})
	return ok && n > 0
}

// richIn tells if all paths from the start of f to a call know that rich data is wanted.
func (s *secrets) richIn(f *ssa.Function, site ssa.CallInstruction, _ map[string]bool) bool {
	ip := newInterp(s.a)
	ip.limit = 30000
	reached, plain := false, false
	n := 0
	ip.load = func(st *ist, path string, t types.Type) (AV, bool) {
		if strings.HasSuffix(path, ".RichData") && isBool(t) {
			return AV{K: 's', S: "rich", T: types.Typ[types.Bool]}, true
		}
		return AV{}, false
	}
	target := root(site.Parent())
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		cc := c.Common()
		if c == site {
			reached = true
			if b, known := st.rel["rich"]; !known || !b {
				plain = true
			}
			return []iout{{st: st, exit: true}}, true
		}
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil, false
		}
		if g != nil && g.Blocks != nil && s.a.p.inModule(g) && g.Pkg == target.Pkg && !cc.IsInvoke() && root(g) != f {
			if s.a.noReturn(g) {
				return []iout{{st: st, exit: true}}, true
			}
			takes := root(g) != g || g.Parent() != nil
			for _, x := range args {
				if x.K == 'f' {
					takes = true
				}
			}
			if takes || g.Signature.Results().Len() == 1 && isBool(g.Signature.Results().At(0).Type()) || mentionsField(g, "RichData") && !staticallyReaches(g, f, map[*ssa.Function]bool{}) {
				return nil, false
			}
		}
		if g != nil && root(g) == f && g != f {
			return nil, false
		}
		for _, x := range args {
			if fn := ip.fns[x.S]; x.K == 'f' && fn != nil && fn.Blocks != nil && n < 50 {
				// may be called, once or more
				n++
				var fa []AV
				for i, p := range fn.Params {
					fa = append(fa, AV{K: 's', S: fmt.Sprint("cb", n, i), T: canonOrNil(p.Type())})
				}
				ip.run(fn, append(fa, ip.binds[x.S]...), st.clone())
			}
		}
		return nil2(ip, st, c, cc), true
	}
	ip.inline = func(g *ssa.Function) bool { return s.a.p.inModule(g) }
	var args []AV
	for i := range f.Params {
		args = append(args, AV{K: 's', S: fmt.Sprint("arg", i), T: canonOrNil(f.Params[i].Type())})
	}
	ip.run(f, args, newIst())
	dbgf("unwrap %s in %s: reached %v plain %v %s", s.a.p.instrPos(site), fname(f), reached, plain, ip.bad)
	return reached && !plain && ip.bad == ""
}

// staticallyReaches tells if f may be called, directly, by g or what it calls.
func staticallyReaches(g, f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return false
	}
	seen[g] = true
	found := false
	eachInstr(withClosures(g), func(in ssa.Instruction) {
		if c, ok := in.(ssa.CallInstruction); ok && !found {
			if h := staticFn(c.Common().Value); h != nil && (h == f || h.Pkg == f.Pkg && staticallyReaches(h, f, seen)) {
				found = true
			}
		}
	})
	return found
}

func mentionsField(g *ssa.Function, name string) bool {
	found := false
	eachInstr([]*ssa.Function{g}, func(in ssa.Instruction) {
		if fa, ok := in.(*ssa.FieldAddr); ok && fieldVar(fa).Name() == name {
			found = true
		}
		if fa, ok := in.(*ssa.Field); ok && fieldVarV(fa).Name() == name {
			found = true
		}
	})
	return found
}

func checkC16(a *Analysis, r *Report) {
	p := a.p
	r.Rules = []string{
		"flow: what derives from the content of a sensitive value (its field, or the result of Unwrap) is in no result except the one of Unwrap, and never written, printed, stored elsewhere, or part of a panic; truth values, hash codes, values that are sensitive again, and the generic form of its type are exempt, and so is what the streamer unwraps when rich data is enabled",
		"generic: each kind of type that holds the value that it is the type of has a generic form, and that doesn't derive from the value",
		"format: package fmt is told how to format a sensitive value for all verbs (fmt.Formatter); otherwise some verbs print its fields",
	}
	ifc := p.iface("Sensitive")
	kinds := p.implementers(ifc)
	if len(kinds) == 0 {
		failf("no implementation of dgo.Sensitive found")
	}
	isKind := func(t types.Type) bool {
		n := namedOf(deref(t))
		for _, k := range kinds {
			if n != nil && namedOf(deref(k)) == n {
				return true
			}
		}
		return false
	}
	exempt := map[ssa.Value]bool{}
	s := &secrets{a: a, reveals: map[*ssa.Function]map[int]bool{}, sums: map[string]*secretSum{}}
	s.source = func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
				return isKind(fa.X.Type())
			}
			return x.Op == token.MUL && isKind(x.Type()) && !types.IsInterface(x.Type()) && types.IsInterface(x.Type())
		case *ssa.Field:
			return isKind(x.X.Type())
		case *ssa.Call:
			cc := x.Common()
			if b, ok := x.Type().(*types.Basic); ok && b.Kind() == types.Int { // a hash code
				for _, arg := range cc.Args {
					if mi, ok := arg.(*ssa.MakeInterface); ok {
						arg = mi.X
					}
					if isKind(arg.Type()) && !types.IsInterface(arg.Type()) {
						return true
					}
				}
			}
			return cc.IsInvoke() && cc.Method.Name() == "Unwrap" && types.Implements(cc.Value.Type(), ifc) && !exempt[x]
		}
		return false
	}
	s.container = func(fa *ssa.FieldAddr) bool { return isKind(fa.X.Type()) }
	// who unwraps?
	eachInstr(p.Funcs, func(in ssa.Instruction) {
		c, ok := in.(*ssa.Call)
		if !ok {
			return
		}
		cc := c.Common()
		if cc.IsInvoke() && cc.Method.Name() == "Unwrap" && types.Implements(cc.Value.Type(), ifc) {
			r.count("places that unwrap", 1)
			if c.Parent().Pkg != nil && c.Parent().Pkg.Pkg.Name() == "streamer" && s.onlyIfRich(c, map[*ssa.Function]bool{}) {
				exempt[c] = true
				r.count("places that unwrap when rich data is enabled", 1)
			}
		}
	})
	unwrap := map[*ssa.Function]bool{}
	for _, k := range kinds {
		if f := p.methodOf(k, "Unwrap"); f != nil {
			unwrap[f] = true
		}
	}
	// functions that reveal something
	for changed, n := true, 0; changed && n < 20; n++ {
		changed = false
		s.sums = map[string]*secretSum{}
		for _, f := range p.Funcs {
			if f.Parent() != nil || f.Blocks == nil || unwrap[f] && false {
				continue
			}
			sum := s.run(f, map[int]bool{}, 0)
			for i := range sum.res {
				if s.reveals[f] == nil {
					s.reveals[f] = map[int]bool{}
				}
				if !s.reveals[f][i] {
					s.reveals[f][i] = true
					changed = true
				}
			}
		}
	}
	called := map[*ssa.Function]bool{} // only called directly
	for _, f := range p.Funcs {
		if f.Signature.Recv() == nil || !p.methodOfSomeInterface(f) {
			called[f] = !ast.IsExported(f.Name())
		}
	}
	readers := 0
	for _, f := range p.Funcs {
		if f.Parent() != nil || f.Blocks == nil {
			continue
		}
		reads := false
		eachInstr(withClosures(f), func(in ssa.Instruction) {
			if v, ok := in.(ssa.Value); ok && s.source(v) {
				reads = true
			}
		})
		sum := s.run(f, map[int]bool{}, 0)
		if !reads && len(sum.leaks) == 0 && len(s.reveals[f]) == 0 {
			continue
		}
		readers++
		dbgf("reader %s: reveals %v eff %v", fname(f), s.reveals[f], sum.eff)
		open := false
		for i := range s.reveals[f] {
			if b, ok := f.Signature.Results().At(i).Type().(*types.Basic); !ok || b.Kind() != types.Int {
				open = true // not a hash code
			}
		}
		if open && !unwrap[f] {
			r.ob(called[f], "flow", fname(f), p.fnPos(f), "a result of "+fname(f)+" derives from the content of a sensitive value")
		} else {
			r.ob(true, "flow", fname(f), p.fnPos(f), "")
		}
		for _, l := range sum.leaks {
			r.ob(false, "flow", fname(f)+" "+l.what, p.instrPos(l.in), "what derives from the content of a sensitive value "+l.what)
		}
		for i := range sum.eff {
			if called[f] {
				continue // followed into its callers
			}
			r.ob(false, "flow", fmt.Sprint(fname(f), " parameter ", i), p.fnPos(f), "what derives from the content of a sensitive value is passed to parameter "+f.Params[i].Name())
		}
	}
	r.count("functions that read the content", readers)
	for _, k := range kinds {
		f := p.methodOf(k, "Format")
		r.ob(f != nil && f.Signature.Params().Len() == 2 && f.Signature.Results().Len() == 0, "format", tname(k), p.fnPos(p.methodOf(k, "String")), tname(k)+" has no Format method: formatting with verbs such as %d or %#v prints its fields")
	}
	checkGenerics(a, r)
	r.atLeast("functions that read the content", 8)
	r.atLeast("places that unwrap", 2)
	r.atLeast("kinds of types of single values", 12)
}

func withClosures(f *ssa.Function) (l []*ssa.Function) {
	l = []*ssa.Function{f}
	for _, g := range f.AnonFuncs {
		l = append(l, withClosures(g)...)
	}
	return l
}

// methodOfSomeInterface tells if a method can be called through an interface of the module.
func (p *Prog) methodOfSomeInterface(f *ssa.Function) bool {
	return ast.IsExported(f.Name()) || f.Name() == "deepEqual" || f.Name() == "deepHashCode" || f.Name() == "deepCompare"
}

// checkGenerics applies the rule about generic types.
func checkGenerics(a *Analysis, r *Report) {
	p := a.p
	ti := p.iface("Type")
	// fields of kinds of types that hold the value that they are the type of
	holds := map[*types.Named]map[int]bool{}
	add := func(n *types.Named, i int) {
		if n == nil {
			return
		}
		if holds[n] == nil {
			holds[n] = map[int]bool{}
		}
		holds[n][i] = true
	}
	for _, t := range p.implementers(p.iface("Value")) {
		f := p.methodOf(t, "Type")
		if f == nil || f.Blocks == nil || len(f.Params) == 0 || isSensitiveKind(p, t) {
			continue
		}

		var self func(v ssa.Value, d int) bool
		self = func(v ssa.Value, d int) bool {
			if d > 8 {
				return false
			}
			switch x := v.(type) {
			case *ssa.Parameter:
				return x == f.Params[0]
			case *ssa.ChangeType:
				return self(x.X, d+1)
			case *ssa.MakeInterface:
				return self(x.X, d+1)
			case *ssa.ChangeInterface:
				return self(x.X, d+1)
			case *ssa.Convert:
				return self(x.X, d+1)
			case *ssa.TypeAssert:
				return self(x.X, d+1)
			case *ssa.FieldAddr:
				return self(x.X, d+1)
			case *ssa.Field:
				return self(x.X, d+1)
			case *ssa.UnOp:
				return x.Op == token.MUL && self(x.X, d+1)
			case *ssa.Phi:
				for _, e := range x.Edges {
					if self(e, d+1) {
						return true
					}
				}
			}
			return false
		}
		eachInstr([]*ssa.Function{f}, func(in ssa.Instruction) {
			st, ok := in.(*ssa.Store)
			if !ok || !self(st.Val, 0) {
				return
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
				n := namedOf(deref(fa.X.Type()))
				if n != nil && (types.Implements(n, ti) || types.Implements(types.NewPointer(n), ti)) {
					add(n, fa.Field)
				}
			}
		})
	}
	exact := p.iface("ExactType")
	for _, t := range p.implementers(exact) {
		n := namedOf(deref(t))
		f := p.methodOf(t, "ExactValue")
		if n == nil || f == nil || f.Blocks == nil {
			continue
		}
		if holds[n] == nil {
			holds[n] = map[int]bool{}
		}
		eachInstr([]*ssa.Function{f}, func(in ssa.Instruction) {
			if fa, ok := in.(*ssa.FieldAddr); ok && namedOf(deref(fa.X.Type())) == n {
				add(n, fa.Field)
			}
			if fa, ok := in.(*ssa.Field); ok && namedOf(fa.X.Type()) == n {
				add(n, fa.Field)
			}
		})
	}
	for _, t := range p.implementers(p.iface("GenericType")) {
		n := namedOf(deref(t))
		if st, ok := n.Underlying().(*types.Struct); ok && holds[n] == nil {
			for i := 0; i < st.NumFields(); i++ {
				if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
					add(n, i)
				}
			}
		}
	}
	var l []*types.Named
	for n := range holds {
		l = append(l, n)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Obj().Name() < l[j].Obj().Name() })
	for _, n := range l {
		if n.Obj().Pkg().Name() == "parser" {
			continue
		}
		r.count("kinds of types of single values", 1)
		var t types.Type = n
		if !types.Implements(n, ti) {
			t = types.NewPointer(n)
		}
		f := p.methodOf(t, "Generic")
		if f == nil || f.Blocks == nil {
			r.ob(false, "generic", tname(t), p.fnPos(p.methodOf(t, "TypeIdentifier")), tname(t)+" holds a value but has no generic form, so that the type of a sensitive value is described with the value")
			continue
		}
		s := &secrets{a: a, reveals: map[*ssa.Function]map[int]bool{}, sums: map[string]*secretSum{}}
		s.container = func(*ssa.FieldAddr) bool { return false }
		s.source = func(v ssa.Value) bool {
			switch x := v.(type) {
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
					return namedOf(deref(fa.X.Type())) == n && holds[n][fa.Field]
				}
			case *ssa.Field:
				return namedOf(x.X.Type()) == n && holds[n][x.Field]
			}
			return false
		}
		s.always = func(g *ssa.Function) bool {
			return g.Signature.Recv() != nil && namedOf(deref(g.Signature.Recv().Type())) == n
		}
		// the type itself
		whole := false
		eachInstr([]*ssa.Function{f}, func(in ssa.Instruction) {
			if ret, ok := in.(*ssa.Return); ok {
				for _, x := range ret.Results {
					if mi, ok := x.(*ssa.MakeInterface); ok && mi.X == f.Params[0] {
						whole = true
					}
				}
			}
		})
		sum := s.run(f, map[int]bool{}, 0)
		r.ob(!whole && len(sum.res) == 0, "generic", tname(t), p.fnPos(f), "the generic form of "+tname(t)+" derives from the value that it holds")
	}
}

func isSensitiveKind(p *Prog, t types.Type) bool { return types.Implements(t, p.iface("Sensitive")) }
