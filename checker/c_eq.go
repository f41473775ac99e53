package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The names of the receiver and the argument in the exploration of operations on two values.
const (
	pairX = "‹x›"
	pairY = "‹y›"
)

func pairSwap(s string) string { return strings.NewReplacer(pairX, pairY, pairY, pairX).Replace(s) }

func pairSides(s string) (x, y bool) { return strings.Contains(s, pairX), strings.Contains(s, pairY) }

// pairRun is the exploration of x.m(y) where the dynamic types of x and y are known.
type pairRun struct {
	outs []iout
	bad  string
	ip   *interp

	small map[string]bool // what was converted from a type with few values
}

// selfFields finds, for the types that wrap others, the embedded interface fields that are always set to the value that
// embeds them.
func selfField(p *Prog, t types.Type) (string, bool) {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return "", false
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	path := ""
	var find func(st *types.Struct, pre string) bool
	find = func(st *types.Struct, pre string) bool {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if !f.Embedded() {
				continue
			}
			if it, ok := f.Type().Underlying().(*types.Interface); ok && types.Implements(t, it) && pre != "" {
				path = pre + "." + f.Name()
				return true
			}
			if es, ok := f.Type().Underlying().(*types.Struct); ok && find(es, pre+"."+f.Name()) {
				return true
			}
		}
		return false
	}
	if !find(st, "") {
		return "", false
	}
	return path, true
}

// keepsNumber tells if a conversion from f to g, where g is an integer type, doesn't change integers.
func keepsNumber(f, g *types.Basic) bool {
	if f.Info()&types.IsInteger == 0 {
		return true // not about integers
	}
	size := func(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }
	fu, gu := f.Info()&types.IsUnsigned != 0, g.Info()&types.IsUnsigned != 0
	switch {
	case fu == gu:
		return size(f) <= size(g)
	case fu:
		return size(f) < size(g)
	}
	return false
}

// runPair interprets the method m of type s given an argument of type t.
func runPair(a *Analysis, s, t types.Type, m string, extra func(ip *interp)) *pairRun {
	f := a.p.methodOf(s, m)
	if f == nil || f.Blocks == nil {
		return nil
	}
	ip := newInterp(a)
	ip.limit = 6000
	ip.flat, ip.rawLoop = true, true
	kinds := map[string]types.Type{pairX: s, pairY: t}
	ip.binop = func(st *ist, in *ssa.BinOp, x, y AV) (AV, bool) {
		if in.Op == token.EQL || in.Op == token.NEQ {
			// kinds with just one value
			one := func(v AV) types.Type {
				if t := kinds[v.S]; t != nil && v.K == 's' && oneValue(a.p, t) != nil {
					return t
				}
				if v.K == 'c' && v.T != nil && oneValue(a.p, v.T) != nil {
					return v.T
				}
				return nil
			}
			if s, t := one(x), one(y); s != nil && t != nil && types.Identical(s, t) {
				return ip.boolean(in.Op == token.EQL), true
			}
		}
		// a function is never kept as a native value
		for _, v := range []string{pairX, pairY} {
			if (x.S == "Kind(s"+v+")" || y.S == "Kind(s"+v+")") && kinds[v] != nil && strings.HasSuffix(tname(kinds[v]), "internal.native") && (in.Op == token.EQL || in.Op == token.NEQ) {
				for _, k := range []AV{x, y} {
					if k.K == 'c' && ip.consts[k.S].ExactString() == "19" {
						return ip.boolean(in.Op == token.NEQ), true
					}
				}
			}
		}
		return AV{}, false
	}
	whole := func(v AV) bool { return (v.K == 's' || v.K == 'p') && (v.S == pairX || v.S == pairY) }
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) }
	self := map[string]string{}
	if f, ok := selfField(a.p, s); ok {
		self[pairX] = f
	}
	if f, ok := selfField(a.p, t); t != nil && ok {
		self[pairY] = f
	}
	ip.load = func(st *ist, path string, tp types.Type) (AV, bool) {
		root, rest, _ := strings.Cut(path, ".")
		if f, ok := self[root]; ok && strings.HasSuffix(f, "."+rest) {
			return AV{K: 's', S: root, T: map[string]types.Type{pairX: s, pairY: t}[root]}, true
		}
		return AV{}, false
	}
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		cc := c.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil, false
		}
		name := callName(cc, g)
		one := func(v AV) ([]iout, bool) { return []iout{{st: st, res: []AV{v}}}, true }
		rs := cc.Signature().Results()
		if len(args) > 0 && whole(args[0]) {
			if outs, ok := pairEach(ip, st, name, cc, args); ok {
				return outs, true
			}
			if g != nil && g.Blocks != nil && hasDefer(g) {
				return pairUnknown(ip, st, name, cc, args), true
			}
			switch name {
			case "Get":
				return pairUnknown(ip, st, name, cc, args), true
			case "Len":
				return one(AV{K: 's', S: "Len(" + args[0].S + ")", T: types.Typ[types.Int]})
			case "Element":
				return one(ip.typed(st, AV{K: 's', S: "Element(" + args[0].S + ")[?]"}, rs.At(0).Type()))
			case "Map":
				return one(AV{K: 's', S: "Map(" + args[0].S + ")", T: args[0].T})
			case "String", "TypeString", "HashCode", "Error", "Type", "Generic", "Freeze", "FrozenCopy":
				if a.delegate(g) {
					return nil, false
				}
				return pairUnknown(ip, st, name, cc, args), true
			}
		}
		if rs.Len() == 1 && isBool(rs.At(0).Type()) {
			if seenHit(g) {
				return one(ip.boolean(false)) // nothing is compared twice
			}
			if name == "ContainsAll" || a.containsAll()[g] {
				var l []string
				for _, x := range args {
					if hx, hy := pairSides(x.S); hx || hy {
						l = append(l, x.S)
					}
				}
				return one(AV{K: 's', S: "contains{" + strings.Join(l, "|") + "}", T: types.Typ[types.Bool]})
			}
			if l, ok := a.equalityArgs(cc, g, name, args); ok && !(whole(l[0]) && whole(l[1]) && g != nil && a.p.inModule(g)) {
				// the equality of parts
				return one(pairEq(l[0], l[1]))
			}
		}
		for _, x := range args {
			if whole(x) && g != nil && a.p.inModule(g) {
				return nil, false
			}
		}
		if g != nil && g.Blocks != nil && a.p.inModule(g) {
			if len(args) == 1 && args[0].K == 'n' {
				return nil, false
			}
			switch name {
			case "Get", "Find", "Value", "ValueFromReflected", "TypeFromReflected", "Element", "String":
				return pairUnknown(ip, st, name, cc, args), true
			}
			return nil, false
		}
		return pairUnknown(ip, st, name, cc, args), true
	}
	if extra != nil {
		extra(ip)
	}
	r := &pairRun{ip: ip, small: map[string]bool{}}
	ip.conv = func(st *ist, in *ssa.Convert, x AV) (AV, bool) {
		f, ok := in.X.Type().Underlying().(*types.Basic)
		if g, ok2 := in.Type().Underlying().(*types.Basic); ok && ok2 && g.Info()&types.IsInteger != 0 {
			if !keepsNumber(f, g) {
				if x.K == 's' && len(x.S) < 200 {
					return AV{K: 's', S: g.Name() + "(" + x.S + ")", T: in.Type()}, true
				}
				return AV{}, false
			}
			switch f.Kind() {
			case types.Uint8, types.Int8, types.Uint16, types.Int16:
				r.small[x.S] = true
			}
		}
		return AV{}, false
	}
	eqBinop := ip.binop
	ip.binop = func(st *ist, in *ssa.BinOp, x, y AV) (AV, bool) {
		if v, ok := eqBinop(st, in, x, y); ok {
			return v, true
		}
		b, ok := in.Type().Underlying().(*types.Basic)
		if !ok || in.Op != token.SUB || x.K == 'c' && y.K == 'c' || x.K == 0 || y.K == 0 || len(x.S)+len(y.S) > 200 {
			return AV{}, false
		}
		switch b.Kind() {
		case types.Int, types.Int32, types.Int64:
			return AV{}, false
		}
		if b.Info()&types.IsInteger == 0 {
			return AV{}, false
		}
		// a difference that wraps around
		return AV{K: 's', S: b.Name() + relAV(token.SUB, x, y, nil).S, T: in.Type()}, true
	}
	st := newIst()
	st.dyn[pairX], st.dyn[pairY] = s, t
	value := func(name string, t types.Type) AV {
		if t == nil {
			return AV{K: 'n'}
		}
		return AV{K: 's', S: name, T: t}
	}
	args := []AV{value(pairX, s)}
	for i := 1; i < len(f.Params); i++ {
		args = append(args, value(pairY, t))
	}
	r.outs = ip.run(f, args, st)
	r.bad = ip.bad
	return r
}

// delegate tells if all that g does is to call something outside of the module.
func (a *Analysis) delegate(g *ssa.Function) bool {
	if g == nil || len(g.Blocks) != 1 || len(g.Params) != 1 || !a.p.inModule(g) {
		return false
	}
	calls := 0
	for _, in := range g.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.Call:
			calls++
			if f := in.Common().StaticCallee(); f != nil && a.p.inModule(f) {
				return false
			} else if m := in.Common().Method; f == nil && (m == nil || m.Pkg() != nil && strings.HasPrefix(m.Pkg().Path(), modPath)) {
				return false
			}
		case *ssa.FieldAddr, *ssa.Field, *ssa.UnOp, *ssa.ChangeType, *ssa.Convert, *ssa.Return, *ssa.DebugRef:
		default:
			return false
		}
	}
	return calls == 1
}

func callName(cc *ssa.CallCommon, g *ssa.Function) string {
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if g != nil {
		return g.Name()
	}
	return ""
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// pairEq is the equality of two parts, in no particular order.
func pairEq(x, y AV) AV {
	xs, ys := string(x.K)+x.S, string(y.K)+y.S
	if xs > ys {
		xs, ys = ys, xs
	}
	return AV{K: 's', S: "eq{" + xs + "|" + ys + "}", T: types.Typ[types.Bool]}
}

// equalityArgs returns the two values that a call finds out if they are equal.
func (a *Analysis) equalityArgs(cc *ssa.CallCommon, g *ssa.Function, name string, args []AV) ([2]AV, bool) {
	if cc.IsInvoke() {
		if name == "Equals" && len(args) == 2 {
			return [2]AV{args[0], args[1]}, true
		}
		if name == "deepEqual" && len(args) == 3 {
			return [2]AV{args[0], args[2]}, true
		}
		return [2]AV{}, false
	}
	if g == nil {
		return [2]AV{}, false
	}
	if !a.p.inModule(g) || g.Blocks == nil {
		if strings.Contains(name, "Equal") && len(args) == 2 {
			return [2]AV{args[0], args[1]}, true
		}
		return [2]AV{}, false
	}
	if !a.equality()[g] {
		return [2]AV{}, false
	}
	var l []AV
	for i, p := range g.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok || i >= len(args) {
			continue
		}
		l = append(l, args[i])
	}
	if len(l) == 2 {
		return [2]AV{l[0], l[1]}, true
	}
	return [2]AV{}, false
}

// equality returns the functions that compare two arbitrary values: they take two of them and lead to Equals.
func (a *Analysis) equality() map[*ssa.Function]bool {
	if a.eqFns != nil {
		return a.eqFns
	}
	a.eqFns = map[*ssa.Function]bool{}
	for _, f := range a.p.Funcs {
		rs := f.Signature.Results()
		if rs.Len() != 1 || !isBool(rs.At(0).Type()) {
			continue
		}
		if f.Signature.Recv() != nil {
			if f.Name() == "Equals" || f.Name() == "deepEqual" {
				a.eqFns[f] = true
			}
			continue
		}
		n, other := 0, 0
		for _, p := range f.Params {
			switch p.Type().Underlying().(type) {
			case *types.Interface:
				n++
			case *types.Slice:
			default:
				other++
			}
		}
		if n != 2 || other != 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "Equals" {
					a.eqFns[f] = true
				}
			}
		}
	}
	return a.eqFns
}

// containsAll returns the functions that tell if all of something is found elsewhere.
func (a *Analysis) containsAll() map[*ssa.Function]bool {
	if a.allFns != nil {
		return a.allFns
	}
	a.allFns = map[*ssa.Function]bool{}
	for _, f := range a.p.Funcs {
		if f.Name() != "ContainsAll" || f.Signature.Recv() == nil {
			continue
		}
		a.allFns[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Signature.Recv() != nil && g.Signature.Results().Len() == 1 && isBool(g.Signature.Results().At(0).Type()) {
						a.allFns[g] = true
					}
				}
			}
		}
	}
	return a.allFns
}

// pairUnknown yields symbols that name the function and its arguments as the results of a call.
func pairUnknown(ip *interp, st *ist, name string, cc *ssa.CallCommon, args []AV) []iout {
	var l []string
	for _, x := range args {
		l = append(l, string(x.K)+x.S)
	}
	id := name + "(" + strings.Join(l, ",") + ")"
	if len(id) > 300 {
		id = id[:300]
	}
	var res []AV
	rs := cc.Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		s := id
		if i > 0 {
			s = fmt.Sprint(id, "#", i)
		}
		res = append(res, ip.typed(st, AV{K: 's', S: s}, rs.At(i).Type()))
	}
	return []iout{{st: st, res: res}}
}

// facts returns what is known in the outcome about x and y: relations between the two and everything known.
func (r *pairRun) facts(o iout) (between, all []string) {
	norm := func(s string) string {
		if ir, ok := r.ip.rels[s]; ok && ir.op == token.EQL {
			x, y := string(ir.x.K)+ir.x.S, string(ir.y.K)+ir.y.S
			if y < x {
				x, y = y, x
			}
			return "=={" + x + "|" + y + "}"
		}
		return s
	}
	for k, b := range o.st.rel {
		hx, hy := pairSides(k)
		if !hx && !hy {
			continue
		}
		rel := b && hx && hy
		if ir, ok := r.ip.rels[k]; ok && ir.op == token.LSS && hx && hy {
			rel = true
		}
		if hx != hy && plainFact(k) {
			rel = true
		}
		k = norm(k)
		if !b {
			k = "!" + k
		}
		if rel {
			between = append(between, k)
		}
		all = append(all, k)
	}
	// a boolean that is compared with one on the other side isn't of interest in itself, and elements aren't told apart
	n := []string{}
	for _, k := range between {
		b := strings.TrimPrefix(k, "!")
		drop := false
		for _, e := range between {
			if strings.HasPrefix(e, "=={") && b != e && (strings.HasPrefix(e, "=={s"+b+"|") || strings.HasSuffix(e, "|s"+b+"}")) {
				drop = true
			}
		}
		if !drop {
			n = append(n, k)
		}
	}
	between = n
	for i, k := range between {
		if strings.HasPrefix(k, "eq{") && strings.Contains(k, "[") {
			x, y, _ := strings.Cut(k[3:len(k)-1], "|")
			xx, xy := pairSides(x)
			yx, yy := pairSides(y)
			if xx != xy && yx != yy && xx != yx {
				between[i] = "eq{" + pairX + "[]|" + pairY + "[]}"
			}
		}
	}
	sort.Strings(between)
	sort.Strings(all)
	between = slices.Compact(between)
	return
}

// plainFact tells if the fact is the value of a boolean.
func plainFact(k string) bool {
	for _, p := range []string{"(", "is:", "nil:", "eq{"} {
		if strings.HasPrefix(k, p) {
			return false
		}
	}
	return !strings.Contains(k, "Get(") && !strings.Contains(k, "Find(") && !strings.Contains(k, "[") && !strings.Contains(k, "lement")
}

// resort puts the operands of symmetric facts in order after a swap.
func resort(l []string) []string {
	var r []string
	for _, k := range l {
		neg := strings.HasPrefix(k, "!")
		k = strings.TrimPrefix(k, "!")
		for _, p := range []string{"=={", "eq{", "within{"} {
			if strings.HasPrefix(k, p) && strings.HasSuffix(k, "}") {
				if i := strings.Index(k, "|"); i > 0 {
					x, y := k[len(p):i], k[i+1:len(k)-1]
					if y < x {
						x, y = y, x
					}
					k = p + x + "|" + y + "}"
				}
			}
		}
		if neg {
			k = "!" + k
		}
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// positives returns the outcomes in which the result is true, as what they establish.
func (r *pairRun) positives() map[string]bool {
	set := map[string]bool{}
	for _, o := range r.outs {
		if o.exit || len(o.res) == 0 {
			continue
		}
		b, known := r.ip.boolOf(o.st, o.res[0])
		if known && !b {
			continue
		}
		if !known {
			o.st = o.st.clone()
			r.ip.assume(o.st, o.res[0], true)
		}
		between, all := r.facts(o)
		between = pairSize(resort(between))
		if len(between) > 0 {
			set[strings.Join(between, " & ")] = true
		} else {
			set["only "+strings.Join(resort(all), " & ")] = true
		}
	}
	return set
}

// pairSize replaces that everything in one is found in the other by something symmetric provided that the sizes are known
// to be the same. It then holds in the other direction too, since the elements that are found are distinct.
func pairSize(l []string) []string {
	size, found := false, false
	var same *strings.Replacer
	for _, k := range l {
		if strings.HasPrefix(k, "=={") {
			x, y, _ := strings.Cut(k[3:len(k)-1], "|")
			sz := func(s string) bool {
				s = s[1:]
				return (strings.HasPrefix(s, "Len(") || strings.HasPrefix(s, "len(")) && strings.Count(s, ".") <= 1
			}
			if sz(x) && sz(y) {
				size = true
				if _, xy := pairSides(x); xy {
					x, y = y, x
				}
				if xx, xy := pairSides(x); xx && !xy && x[1:] != y[1:] {
					same = strings.NewReplacer(y[1:], x[1:])
				}
			}
		}
		if strings.Contains(k, "Get(") || strings.HasPrefix(k, "contains{") {
			found = true
		}
	}
	if same != nil {
		m := []string{}
		for _, k := range l {
			if !strings.HasPrefix(k, "=={") {
				k = same.Replace(k)
			}
			m = append(m, k)
		}
		l = resort(m)
	}
	if !size || !found {
		return l
	}
	r := []string{}
	for _, k := range l {
		if strings.HasPrefix(k, "contains{") {
			x, y, _ := strings.Cut(k[9:len(k)-1], "|")
			if _, xy := pairSides(x); xy {
				x, y = y, x
			}
			k = "within{" + x + "|" + y + "}"
		} else if strings.Contains(k, "Get(") {
			k = "all found"
		}
		if len(r) == 0 || r[len(r)-1] != k {
			r = append(r, k)
		}
	}
	return resort(r)
}

func checkC07(a *Analysis, r *Report) {
	p := a.p
	var ts []types.Type
	for _, s := range p.implementers(p.iface("Value")) {
		if abstractKind(p, s) {
			continue
		}
		ts = append(ts, s)
	}
	r.count("kinds", len(ts))
	runs := map[[2]types.Type]map[string]bool{}
	bad := map[[2]types.Type]string{}
	for _, s := range ts {
		for _, t := range ts {
			x := runPair(a, s, t, "Equals", nil)
			if x == nil {
				continue
			}
			r.count("pairs", 1)
			r.count("outcomes", len(x.outs))
			k := [2]types.Type{s, t}
			runs[k] = x.positives()
			if x.bad != "" {
				bad[k] = x.bad
				dbgf("bad %s %s: %s\n", tname(s), tname(t), x.bad)
			}
			if len(runs[k]) > 0 {
				r.count("pairs of kinds with equal values", 1)
			}
			for c := range runs[k] {
				dbgf("%s %s: %s", tname(s), tname(t), c)
			}
		}
	}
	for i, s := range ts {
		for j, t := range ts {
			if j < i {
				continue
			}
			st, tt := runs[[2]types.Type{s, t}], runs[[2]types.Type{t, s}]
			what := ""
			for _, d := range [][2]map[string]bool{{st, tt}, {tt, st}} {
				rev := map[string]bool{}
				for c := range d[1] {
					rev[pairCanon(c)] = true
				}
				for c := range d[0] {
					if !rev[pairCanon(pairSwap(c))] {
						what = c
					}
				}
			}
			k := [2]types.Type{s, t}
			if b := bad[k] + bad[[2]types.Type{t, s}]; b != "" && what == "" {
				what = "undecided: " + b
			}
			r.ob(what == "", "symmetric", tname(s)+" "+tname(t), "", fmt.Sprintf("one of them may find the other equal while the opposite isn't true: %s", what))
		}
	}
}

func pairCanon(c string) string {
	only := strings.HasPrefix(c, "only ")
	c = strings.TrimPrefix(c, "only ")
	c = strings.Join(pairSize(resort(strings.Split(c, " & "))), " & ")
	if only {
		c = "only " + c
	}
	return c
}

// abstractKind tells if no value has the type s, it is just embedded in others.
func abstractKind(p *Prog, s types.Type) bool {
	pt, ok := s.(*types.Pointer)
	if !ok {
		return false
	}
	if _, ok := pt.Elem().Underlying().(*types.Struct); !ok {
		return false
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.ChangeType, *ssa.Convert, *ssa.Alloc:
					if types.Identical(x.(ssa.Value).Type(), s) {
						return false
					}
				}
			}
		}
	}
	return true
}

// oneValue returns the only value of the basic type s that is ever made, if there is just one.
func oneValue(p *Prog, s types.Type) constant.Value {
	if _, ok := s.Underlying().(*types.Basic); !ok {
		return nil
	}
	if v, ok := p.single[s]; ok {
		return v
	}
	vals := map[string]constant.Value{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(*ssa.MakeInterface); ok && types.Identical(x.X.Type(), s) {
					if c, ok := x.X.(*ssa.Const); ok && c.Value != nil {
						vals[c.Value.ExactString()] = c.Value
					} else if _, param := x.X.(*ssa.Parameter); !param {
						vals["?"], vals["??"] = nil, nil
					}
				}
			}
		}
	}
	var v constant.Value
	if len(vals) == 1 {
		for _, v = range vals {
		}
	}
	if p.single == nil {
		p.single = map[types.Type]constant.Value{}
	}
	p.single[s] = v
	return v
}

// seenHit tells if f looks for something among what has been seen already: it does nothing but comparing its arguments to
// the elements of a slice.
func seenHit(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || len(f.Params) < 2 || f.Signature.Recv() != nil {
		return false
	}
	n := 0
	for _, p := range f.Params {
		switch u := p.Type().Underlying().(type) {
		case *types.Slice:
			if _, ok := u.Elem().Underlying().(*types.Interface); !ok {
				return false
			}
			n++
		case *types.Interface:
		default:
			return false
		}
	}
	if n != 1 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
					return false
				}
			}
		}
	}
	return true
}

func hasDefer(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

// pairEach handles the methods of args[0] that call a given function with its elements. The function is called with no
// element or one that stands for any of them.
func pairEach(ip *interp, st *ist, name string, cc *ssa.CallCommon, args []AV) ([]iout, bool) {
	if len(args) < 2 || args[1].K != 'f' || ip.fns[args[1].S] == nil || ip.fns[args[1].S].Blocks == nil {
		return nil, false
	}
	all, any, each := strings.HasPrefix(name, "All"), strings.HasPrefix(name, "Any"), strings.HasPrefix(name, "Each")
	if !all && !any && !each {
		return nil, false
	}
	outs := []iout{}
	ret := func(st *ist, v ...AV) { outs = append(outs, iout{st: st, res: v}) }
	none := st.clone()
	if each {
		ret(none)
	} else {
		ret(none, ip.boolean(all))
	}
	fn := ip.fns[args[1].S]
	var fargs []AV
	for i, p := range fn.Params {
		what := fmt.Sprint("element of ", args[0].S)
		if i > 0 {
			what = fmt.Sprint("index ", i, " of ", args[0].S)
		}
		fargs = append(fargs, ip.typed(st, AV{K: 's', S: what}, p.Type()))
	}
	for i := range fn.FreeVars {
		if b := ip.binds[args[1].S]; i < len(b) {
			fargs = append(fargs, b[i])
		}
	}
	for _, o := range ip.run(fn, fargs, st.fork()) {
		if o.exit || each {
			outs = append(outs, iout{st: o.st, exit: o.exit})
			continue
		}
		if b, known := ip.boolOf(o.st, o.res[0]); known {
			ret(o.st, ip.boolean(b))
			continue
		}
		yes, no := o.st, o.st.clone()
		ip.assume(yes, o.res[0], true)
		ip.assume(no, o.res[0], false)
		ret(yes, ip.boolean(true))
		ret(no, ip.boolean(false))
	}
	return outs, true
}
