package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// hterm is what a hash is computed from: an atom, a constant, or an operation on terms.
type hterm struct {
	op   string // "" for an atom, "c" for a constant, "nth" for what is at a position when all are in order
	atom string
	c    int64
	args []*hterm
}

// str is the canonical form. Sums and products are brought to the form of a polynomial.
func (t *hterm) str() string {
	switch t.op {
	case "":
		return t.atom
	case "c", "+", "*", "-":
		p := t.poly()
		var ms []string
		for m, k := range p {
			if k != 0 {
				ms = append(ms, fmt.Sprintf("%d%s", k, m))
			}
		}
		sort.Strings(ms)
		if len(ms) == 1 && strings.HasPrefix(ms[0], "1·") && strings.Count(ms[0], "·") == 1 {
			return strings.TrimPrefix(ms[0], "1·")
		}
		if len(ms) == 0 {
			return "0"
		}
		return "(" + strings.Join(ms, " + ") + ")"
	}
	var l []string
	var flat func(t *hterm, op string)
	flat = func(x *hterm, op string) {
		if x.op == op && (op == "^" || op == "|" || op == "&") {
			for _, y := range x.args {
				flat(y, op)
			}
			return
		}
		l = append(l, x.str())
	}
	for _, x := range t.args {
		flat(x, t.op)
	}
	switch t.op {
	case "^", "|", "&", "nth":
		sort.Strings(l)
	}
	return fmt.Sprintf("%s%d{%s}", t.op, t.c, strings.Join(l, ", "))
}

func (t *hterm) poly() map[string]int64 {
	r := map[string]int64{}
	switch t.op {
	case "c":
		r[""] = t.c
	case "+", "-":
		for i, x := range t.args {
			for m, k := range x.poly() {
				if i > 0 && t.op == "-" {
					k = -k
				}
				r[m] += k
			}
		}
	case "*":
		r[""] = 1
		for _, x := range t.args {
			n := map[string]int64{}
			for m, k := range r {
				for m2, k2 := range x.poly() {
					f := strings.Split(m+m2, "·")
					sort.Strings(f)
					s := strings.Join(f, "·")
					for strings.HasPrefix(s, "··") {
						s = s[len("·"):]
					}
					n[s] += k * k2
				}
			}
			r = n
		}
	default:
		r["·"+t.str()] = 1
	}
	return r
}

func (t *hterm) rename(f func(string) string) *hterm {
	n := &hterm{op: t.op, c: t.c}
	if t.op == "" {
		n.atom = f(t.atom)
		return n
	}
	for _, x := range t.args {
		n.args = append(n.args, x.rename(f))
	}
	return n
}

// hcond is a condition about the value that is hashed: a relation between two things, or a boolean.
type hcond struct {
	atom string // or
	op   token.Token
	x, y AV
	val  bool
}

func (c hcond) key(f func(string) string) string {
	if c.atom != "" {
		return f(c.atom)
	}
	x, y := f(string(c.x.K)+c.x.S), f(string(c.y.K)+c.y.S)
	if c.op == token.EQL && y < x {
		x, y = y, x
	}
	return x + c.op.String() + y
}

// hout is one outcome of the computation of a hash.
type hout struct {
	conds  []hcond
	lo, hi int // the number of elements
	term   *hterm
}

type hashRun struct {
	outs   []hout
	elems  int // the most elements that were hashed
	bad    string
	raw    map[string]bool // what is an argument of a function of Go data
	caches map[string]bool
}

var (
	hashElemAt = regexp.MustCompile(`(‹[xy]›)(?:\.\w+)?\[(\d+)\]`)
	hashNodeAt = regexp.MustCompile(`(‹[xy]›)\.first((?:\.next)*)`)
	hashLen    = regexp.MustCompile(`^(len\(‹[xy]›(\.\w+)?\)|Len\(‹[xy]›\)|‹[xy]›\.len|len\(‹[xy]›\.\w+\))$`)
	hashPart   = regexp.MustCompile(`‹[xy]›`)
)

// hashName gives elements the same name, wherever they are kept.
func hashName(s string) string {
	s = hashElemAt.ReplaceAllString(s, "$1[$2]")
	return hashNodeAt.ReplaceAllStringFunc(s, func(m string) string {
		i := strings.Count(m, ".next")
		return m[:len(pairX)] + fmt.Sprintf("[%d]", i)
	})
}

// hashFns are the functions whose result is the hash of the value that they are given, and nothing else.
func (a *Analysis) hashFns() map[*ssa.Function]bool {
	if a.hashFn != nil {
		return a.hashFn
	}
	a.hashFn = map[*ssa.Function]bool{}
	for changed := true; changed; {
		changed = false
		for _, f := range a.p.Funcs {
			rs := f.Signature.Results()
			if a.hashFn[f] || f.Blocks == nil || f.Signature.Recv() != nil || f.Parent() != nil || rs.Len() != 1 || !isInt(rs.At(0).Type()) {
				continue
			}
			var of ssa.Value
			for _, q := range f.Params {
				if _, ok := q.Type().Underlying().(*types.Interface); ok {
					if of != nil {
						of = nil
						break
					}
					of = q
				}
			}
			if of == nil {
				continue
			}
			var from func(v ssa.Value) bool
			from = func(v ssa.Value) bool {
				switch x := v.(type) {
				case *ssa.Parameter:
					return x == of
				case *ssa.TypeAssert:
					return from(x.X)
				case *ssa.Extract:
					return from(x.Tuple)
				case *ssa.ChangeInterface:
					return from(x.X)
				}
				return false
			}
			ok, calls := true, 0
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ret, isR := in.(*ssa.Return)
					if !isR {
						continue
					}
					var result func(v ssa.Value) bool
					result = func(v ssa.Value) bool {
						switch x := v.(type) {
						case *ssa.Const:
							return true
						case *ssa.Phi:
							for _, e := range x.Edges {
								if !result(e) {
									return false
								}
							}
							return true
						case *ssa.Call:
							if x.Call.IsInvoke() && (x.Call.Method.Name() == "HashCode" || x.Call.Method.Name() == "deepHashCode") {
								calls++
								return from(x.Call.Value)
							}
							if g := x.Call.StaticCallee(); g != nil && a.hashFn[g] {
								for _, y := range x.Call.Args {
									if from(y) {
										calls++
										return true
									}
								}
							}
						}
						return false
					}
					ok = ok && result(ret.Results[0])
				}
			}
			if ok && calls > 0 {
				a.hashFn[f] = true
				changed = true
			}
		}
	}
	return a.hashFn
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// rawData tells if values of the type are Go data: numbers, strings, and slices of those.
func rawData(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Slice:
		return rawData(u.Elem())
	}
	return false
}

// rawFn tells if the function computes something from Go data only, by content.
func rawFn(g *ssa.Function) bool {
	if g.Signature.Recv() != nil || g.Signature.Params().Len() == 0 || g.Blocks == nil {
		return false
	}
	for i := 0; i < g.Signature.Params().Len(); i++ {
		if !rawData(g.Signature.Params().At(i).Type()) {
			return false
		}
	}
	slice := false
	for i := 0; i < g.Signature.Params().Len(); i++ {
		if _, ok := g.Signature.Params().At(i).Type().Underlying().(*types.Slice); ok || g.Signature.Params().At(i).Type().Underlying() == types.Typ[types.String] {
			slice = true
		}
	}
	if !slice {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				return false
			case *ssa.UnOp:
				if _, ok := x.X.(*ssa.Global); ok {
					return false
				}
			case *ssa.Convert:
				if bt, ok := x.Type().Underlying().(*types.Basic); ok && (bt.Kind() == types.UnsafePointer || bt.Kind() == types.Uintptr) {
					return false
				}
			case ssa.CallInstruction:
				bi, ok := x.Common().Value.(*ssa.Builtin)
				if ok && bi.Name() != "len" {
					return false
				}
				if !ok && (x.Common().StaticCallee() == nil || !rawFn(x.Common().StaticCallee())) {
					return false
				}
			}
		}
	}
	return true
}

// whole values
func pairWhole(v AV) bool { return (v.K == 's' || v.K == 'p') && (v.S == pairX || v.S == pairY) }

// opaqueWhole tells if the results of g, a method of a value, are named after it: they are new objects, or it needs a lock.
func opaqueWhole(g *ssa.Function) bool {
	if freshResult(g) {
		return true
	}
	if g == nil || g.Blocks == nil || len(g.Params) != 1 || g.Signature.Results().Len() == 0 {
		return false
	}
	if g.Signature.Results().Len() == 1 && (isBool(g.Signature.Results().At(0).Type()) || isInt(g.Signature.Results().At(0).Type())) {
		return false
	}
	if hasDefer(g) {
		return true
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && (callName(c.Common(), c.Common().StaticCallee()) == "RLock" || callName(c.Common(), c.Common().StaticCallee()) == "Lock") {
				return true
			}
		}
	}
	return false
}

// freshResult tells if f has no parameters but the receiver and returns a new object.
func freshResult(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || len(f.Params) != 1 || f.Signature.Results().Len() != 1 {
		return false
	}
	if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				mi, ok := r.Results[0].(*ssa.MakeInterface)
				if !ok {
					return false
				}
				if _, ok := mi.X.(*ssa.Alloc); !ok {
					return false
				}
			}
		}
	}
	return true
}

// equalityFacts is what makes a value of type s equal to one of type t, the alternatives. Results of methods that are new
// objects are named after the method.
func equalityFacts(a *Analysis, s, t types.Type) (map[string]bool, map[string]string, string) {
	mapped := map[string]string{}
	x := runPair(a, s, t, "Equals", func(ip *interp) {
		call := ip.call
		ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
			if len(args) > 0 && pairWhole(args[0]) {
				if len(args) == 1 && opaqueWhole(g) {
					return pairUnknown(ip, st, g.Name(), c.Common(), args), true
				}
				if callName(c.Common(), g) == "Map" && len(args) > 1 && args[1].K == 'f' && ip.fns[args[1].S] != nil {
					mapped["Map("+args[0].S+")"] = hashMapped(ip, st, ip.fns[args[1].S], ip.binds[args[1].S], args[0].S)
				}
			}
			return call(st, c, g, args)
		}
	})
	if x == nil {
		return nil, nil, ""
	}
	return x.positives(), mapped, x.bad
}

// hashMapped describes what a function makes of an element.
func hashMapped(ip *interp, st *ist, fn *ssa.Function, binds []AV, of string) string {
	args := []AV{ip.typed(st, AV{K: 's', S: of + "[0]"}, fn.Params[0].Type())}
	args = append(args, binds...)
	r := ""
	for _, o := range ip.run(fn, args, st.fork()) {
		if o.exit || len(o.res) != 1 {
			continue
		}
		if d := o.res[0].S; r == "" || r == d {
			r = d
		} else {
			return ""
		}
	}
	return r
}

// hashOf interprets the method HashCode of the type s for the value called sym.
func hashOf(a *Analysis, s types.Type, sym string) *hashRun {
	f := a.p.methodOf(s, "HashCode")
	if f == nil || f.Blocks == nil {
		return nil
	}
	r := &hashRun{raw: map[string]bool{}, caches: map[string]bool{}}
	ip := newInterp(a)
	ip.limit, ip.flat, ip.uniq, ip.turns, ip.many = 40000, true, true, 3, 200
	sq := seqs(ip)
	seqLoad := ip.load
	self, _ := selfField(a.p, s)
	caches := hashCaches(a, s)
	ip.load = func(st *ist, path string, t types.Type) (AV, bool) {
		if self != "" && strings.HasPrefix(path, sym+".") && strings.HasSuffix(self, "."+path[len(sym)+1:]) {
			return AV{K: 's', S: sym, T: s}, true
		}
		if f, ok := strings.CutPrefix(path, sym+"."); ok && caches[f] {
			r.caches[f] = true
			return ip.zero(t, path), true // as if it wasn't computed yet
		}
		return seqLoad(st, path, t)
	}
	terms := map[string]*hterm{}
	ids := map[string]string{}
	termOf := func(v AV) *hterm {
		if t := terms[v.S]; t != nil {
			return t
		}
		if v.K == 'c' {
			k := ip.consts[v.S]
			if i, ok := constant.Int64Val(constant.ToInt(k)); ok {
				return &hterm{op: "c", c: i}
			}
			if i, ok := constant.Uint64Val(constant.ToInt(k)); ok {
				return &hterm{op: "c", c: int64(i)}
			}
		}
		return &hterm{atom: v.S}
	}
	intern := func(t *hterm, ty types.Type) AV {
		s := t.str()
		if t2 := t; t2.op == "+" || t2.op == "*" || t2.op == "-" {
			p := t.poly()
			if len(p) == 1 {
				if k, ok := p[""]; ok {
					return ip.integer(k, ty)
				}
			}
		}
		if ids[s] == "" {
			ids[s] = fmt.Sprintf("h#%d;", len(ids))
			terms[ids[s]] = t
		}
		return AV{K: 's', S: ids[s], T: ty}
	}
	ip.binop = func(st *ist, in *ssa.BinOp, x, y AV) (AV, bool) {
		op := in.Op.String()
		switch in.Op {
		case token.ADD, token.SUB, token.MUL, token.XOR, token.OR, token.AND, token.SHL, token.SHR, token.QUO, token.REM, token.AND_NOT:
		default:
			return AV{}, false
		}
		if !isInt(in.Type()) || x.K == 0 || y.K == 0 || x.K == 'c' && y.K == 'c' {
			return AV{}, false
		}
		if n, ok := ip.intOf(y); ok && y.K == 'c' && in.Op == token.SHL && n >= 0 && n < 63 {
			return intern(&hterm{op: "*", args: []*hterm{termOf(x), {op: "c", c: 1 << n}}}, in.Type()), true
		}
		if in.Op == token.MUL && (ip.isZero(x) || ip.isZero(y)) {
			return ip.integer(0, in.Type()), true
		}
		if hashLen.MatchString(x.S) && (in.Op == token.ADD || in.Op == token.SUB) && y.K == 'c' {
			return AV{}, false
		}
		return intern(&hterm{op: op, args: []*hterm{termOf(x), termOf(y)}}, in.Type()), true
	}
	ip.conv = func(st *ist, in *ssa.Convert, x AV) (AV, bool) {
		f, ok := in.X.Type().Underlying().(*types.Basic)
		g, ok2 := in.Type().Underlying().(*types.Basic)
		if !ok || !ok2 || g.Info()&types.IsNumeric == 0 || x.K != 's' {
			return AV{}, false
		}
		if f.Info()&types.IsInteger != 0 && g.Info()&types.IsInteger != 0 {
			size := func(b *types.Basic) int64 { return types.SizesFor("gc", "amd64").Sizeof(b) }
			if size(g) == 8 && (size(f) == 8 || f.Info()&types.IsUnsigned != 0) || size(g) == size(f) && f.Info()&types.IsUnsigned == g.Info()&types.IsUnsigned {
				return AV{K: 's', S: x.S, T: in.Type()}, true
			}
		}
		return intern(&hterm{op: g.Name(), args: []*hterm{termOf(x)}}, in.Type()), true
	}
	value := a.p.iface("Value")
	hashed := func(v AV) AV { return AV{K: 's', S: "hash{" + v.S + "}", T: types.Typ[types.Int]} }
	entry := func(v AV) bool {
		return v.T != nil && types.Implements(v.T, a.p.iface("MapEntry")) && strings.Contains(hashName(v.S), sym+"[")
	}
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) }
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		cc := c.Common()
		if outs, ok := sq(st, c, args); ok {
			return outs, true
		}
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil, false
		}
		name := callName(cc, g)
		one := func(v AV) ([]iout, bool) { return []iout{{st: st, res: []AV{v}}}, true }
		rs := cc.Signature().Results()
		if rs.Len() == 1 && isBool(rs.At(0).Type()) && seenHit(g) {
			return one(ip.boolean(false))
		}
		if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync/atomic" && len(args) > 0 {
			if f, ok := strings.CutPrefix(args[0].S, sym+"."); ok && caches[f] {
				switch {
				case strings.HasPrefix(name, "Load"):
					r.caches[f] = true
					return one(ip.integer(0, rs.At(0).Type()))
				default:
					return []iout{{st: st, res: []AV{}}}, true
				}
			}
		}
		if g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices" && strings.HasPrefix(name, "Sort")) && len(args) > 0 && strings.HasPrefix(args[0].S, "@") {
			// what is in the slice is put in order
			l := ip.filled(st, args[0])
			if x, ok := ip.list(st, args[0]); ok {
				l = x
			}
			all := &hterm{op: "nth"}
			for _, x := range l {
				all.args = append(all.args, termOf(x))
			}
			for i := range l {
				st.mem[fmt.Sprintf("%s[%d]", args[0].S, i)] = intern(&hterm{op: "nth", c: int64(i), args: all.args}, types.Typ[types.Int])
			}
			return []iout{{st: st, res: []AV{}}}, true
		}
		if len(args) > 0 && pairWhole(args[0]) {
			if len(args) == 1 && opaqueWhole(g) {
				return pairUnknown(ip, st, name, cc, args), true
			}
			switch name {
			case "Len":
				return one(AV{K: 's', S: "Len(" + args[0].S + ")", T: types.Typ[types.Int]})
			case "Element", "Get":
				if len(args) == 2 {
					if i, ok := ip.intOf(args[1]); ok {
						return one(ip.typed(st, AV{K: 's', S: fmt.Sprintf("%s[%d]", args[0].S, i)}, rs.At(0).Type()))
					}
				}
			case "String", "TypeString", "Error", "Type", "Generic":
				if a.delegate(g) {
					return nil, false
				}
				return pairUnknown(ip, st, name, cc, args), true
			}
			if outs, ok := hashEach(ip, st, name, args, a); ok {
				return outs, true
			}
		}
		// the hash of a part
		of := -1
		if name == "HashCode" || name == "deepHashCode" || g != nil && a.hashFns()[g] {
			for i, x := range args {
				if i == 0 && (name == "HashCode" || name == "deepHashCode") && (cc.IsInvoke() || g != nil && g.Signature.Recv() != nil) {
					of = 0
				}
				if g != nil && a.hashFns()[g] && i < len(g.Params) {
					if _, ok := g.Params[i].Type().Underlying().(*types.Interface); ok {
						of = i
					}
				}
				_ = x
			}
		}
		if of >= 0 && of < len(args) && !pairWhole(args[of]) {
			v := args[of]
			if d, ok := st.dyn[v.S]; ok && v.T == nil {
				v.T = d
			}
			switch {
			case v.K == 'n':
				return nil, false
			case entry(v) && g != nil:
				return nil, false
			case v.K == 's' || v.K == 'p':
				return one(hashed(v))
			}
			return nil, false
		}
		if g != nil && a.p.inModule(g) && g.Blocks != nil {
			if rawFn(g) {
				for _, x := range args {
					if x.K == 'c' {
						continue
					}
					r.raw[x.S] = true
				}
				return pairUnknown(ip, st, name, cc, args), true
			}
			for i, x := range args {
				if i < len(g.Params) && types.Implements(g.Params[i].Type(), value) && x.K == 's' && !pairWhole(x) && hashPart.MatchString(x.S) && g.Signature.Recv() != nil && i == 0 && !entry(x) {
					return pairUnknown(ip, st, name, cc, args), true
				}
			}
			if n := g.Signature.Recv(); n == nil && (name == "ValueFromReflected" || name == "Value") {
				return pairUnknown(ip, st, name, cc, args), true
			}
			return nil, false
		}
		return pairUnknown(ip, st, name, cc, args), true
	}
	st := newIst()
	st.dyn[sym] = s
	for _, o := range ip.run(f, []AV{{K: 's', S: sym, T: s}}, st) {
		if o.exit || len(o.res) != 1 {
			continue
		}
		h := hout{lo: 0, hi: 1 << 30}
		for k, b := range o.st.rel {
			if ir, ok := ip.rels[k]; ok && (ir.op == token.EQL || ir.op == token.LSS) {
				if h.size(ip, ir, b) {
					continue
				}
				h.conds = append(h.conds, hcond{op: ir.op, x: ir.x, y: ir.y, val: b})
				continue
			}
			if n, ok := strings.CutPrefix(k, "nil:"); ok {
				if d, ok := hashNodeDepth(n); ok {
					h.bound(b, d)
					continue
				}
			}
			h.conds = append(h.conds, hcond{atom: k, val: b})
		}
		if n, ok := ip.intOf(o.st.mem["#each:"+sym]); ok && o.st.mem["#each:"+sym].K == 'c' {
			h.bound(true, int(n))
			h.bound(false, int(n)-1)
		}
		if h.lo > h.hi || nativePointer(ip, o.st) {
			continue
		}
		t := termOf(o.res[0])
		if o.res[0].K == 0 {
			ip.bad = "the result isn't known"
		}
		h.term = t.rename(hashName)
		for i := 0; i < 4; i++ {
			if strings.Contains(h.term.str(), fmt.Sprintf("%s[%d]", sym, i)) && i+1 > r.elems {
				r.elems = i + 1
			}
		}
		r.outs = append(r.outs, h)
	}
	r.bad = ip.bad
	return r
}

// address tells if the value is a channel, or something else where being deeply equal is to have the same address.
func (h hout) address() bool {
	for _, c := range h.conds {
		switch k := c.key(hashName); k {
		case "cInt:18==sKind(s" + pairY + ")", "cInt:19==sKind(s" + pairY + ")", "cInt:26==sKind(s" + pairY + ")":
			if c.val {
				return true
			}
		}
	}
	return false
}

// nativePointer tells if the state is that of a native pointer to something other than a struct. What other pointers point
// to becomes the value.
func nativePointer(ip *interp, st *ist) bool {
	ptr, other := false, false
	for k, b := range st.rel {
		ir, ok := ip.rels[k]
		if !ok || ir.op != token.EQL {
			continue
		}
		for _, d := range [][2]AV{{ir.x, ir.y}, {ir.y, ir.x}} {
			n, ok := ip.intOf(d[0])
			if !ok || d[0].K != 'c' {
				continue
			}
			if strings.HasPrefix(d[1].S, "Kind(s‹") && n == 22 && b {
				ptr = true
			}
			if strings.HasPrefix(d[1].S, "Kind(sElem(s‹") && n == 25 && !b {
				other = true
			}
		}
	}
	return ptr && other
}

// unstable finds what may be another time in what a hash is computed from, and what isn't known.
func (t *hterm) unstable() string {
	bad := ""
	t.rename(func(s string) string {
		for _, u := range []string{"u:", "loop:", "Now(", "Since(", "Int63", "Intn(", "Int31", "Uint32(", "Sum64(", "MakeSeed("} {
			if strings.Contains(s, u) {
				bad = s
			}
		}
		return s
	})
	return bad
}

// hashEach handles the methods of args[0] that call a given function for each element.
func hashEach(ip *interp, st *ist, name string, args []AV, a *Analysis) ([]iout, bool) {
	if len(args) != 2 || args[1].K != 'f' || ip.fns[args[1].S] == nil || ip.fns[args[1].S].Blocks == nil {
		return nil, false
	}
	fn := ip.fns[args[1].S]
	kind := ""
	for _, k := range []string{"Each", "All", "Any"} {
		if strings.HasPrefix(name, k) && (k == "Each") == (fn.Signature.Results().Len() == 0) {
			kind = k
		}
	}
	if kind == "" {
		return nil, false
	}
	done := func(s *ist, stopped bool) iout {
		if kind == "Each" {
			return iout{st: s}
		}
		return iout{st: s, res: []AV{ip.boolean((kind == "All") != stopped)}}
	}
	sts := []*ist{st}
	var outs []iout
	for n := 0; ; n++ {
		for _, s := range sts {
			s = s.clone()
			s.mem["#each:"+args[0].S] = ip.integer(int64(n), types.Typ[types.Int])
			outs = append(outs, done(s, false))
		}
		if n == 3 {
			return outs, true
		}
		var next []*ist
		for _, s := range sts {
			var fargs []AV
			for i, p := range fn.Params {
				v := AV{K: 's', S: fmt.Sprintf("%s[%d]", args[0].S, n)}
				switch {
				case i > 0:
					v = ip.integer(int64(n), types.Typ[types.Int])
				case strings.HasPrefix(name, kind+"Key"):
					v.S += ".key"
				case strings.HasPrefix(name, kind+"Value") || name == "Each" && types.Implements(args[0].T, a.p.iface("Map")):
					v.S += ".value"
				}
				v = ip.typed(s, v, p.Type())
				if i == 0 && types.Implements(p.Type(), a.p.iface("MapEntry")) {
					for _, t := range a.p.implementers(a.p.iface("MapEntry")) {
						if tname(t) == "*internal.mapEntry" {
							v.T = t
						}
					}
				}
				fargs = append(fargs, v)
			}
			fargs = append(fargs, ip.binds[args[1].S]...)
			for _, o := range ip.run(fn, fargs, s.fork()) {
				if o.exit {
					continue
				}
				if kind == "Each" {
					next = append(next, o.st)
					continue
				}
				for _, goOn := range []bool{true, false} {
					b, known := ip.boolOf(o.st, o.res[0])
					if known && b != goOn {
						continue
					}
					t := o.st
					if !known {
						t = t.clone()
						ip.assume(t, o.res[0], goOn)
					}
					if goOn == (kind == "All") {
						next = append(next, t)
					} else {
						outs = append(outs, done(t, true))
					}
				}
			}
		}
		sts = next
		if len(sts) == 0 {
			return outs, true
		}
	}
}

// hashNodeDepth tells how many nodes there are before the one with this name.
func hashNodeDepth(s string) (int, bool) {
	m := hashNodeAt.FindStringSubmatch(s)
	if m == nil || m[0] != s {
		return 0, false
	}
	return strings.Count(m[2], ".next"), true
}

func (h *hout) bound(atMost bool, n int) {
	if atMost && n < h.hi {
		h.hi = n
	}
	if !atMost && n+1 > h.lo {
		h.lo = n + 1
	}
}

// size finds what a relation says about the number of elements.
func (h *hout) size(ip *interp, r irel, b bool) bool {
	x, y := r.x, r.y
	if r.op == token.EQL {
		if x.K != 'n' && x.K != 'c' {
			x, y = y, x
		}
		if d, ok := hashNodeDepth(y.S); ok && x.K == 'n' {
			h.bound(b, d)
			return true
		}
		if n, ok := ip.intOf(x); ok && x.K == 'c' && hashLen.MatchString(y.S) {
			if b {
				h.bound(true, int(n))
				h.bound(false, int(n)-1)
			} else if n == 0 {
				h.bound(false, 0)
			}
			return true
		}
		return false
	}
	if n, ok := ip.intOf(x); ok && x.K == 'c' && hashLen.MatchString(y.S) { // n < size
		h.bound(!b, int(n))
		return true
	}
	if n, ok := ip.intOf(y); ok && y.K == 'c' && hashLen.MatchString(x.S) { // size < n
		if b {
			h.bound(true, int(n)-1)
		} else {
			h.bound(false, int(n)-1)
		}
		return true
	}
	return false
}

// hashCaches are the fields of s that are written by the functions that compute its hash.
func hashCaches(a *Analysis, s types.Type) map[string]bool {
	r := map[string]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	addr := func(v ssa.Value, f *ssa.Function) {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok || len(f.Params) == 0 || fa.X != ssa.Value(f.Params[0]) || !isInt(deref(fa.Type())) {
			return
		}
		r[fieldName(fa)] = true
	}
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					addr(x.Addr, f)
				case ssa.CallInstruction:
					g := x.Common().StaticCallee()
					if g == nil {
						continue
					}
					if g.Pkg != nil && g.Pkg.Pkg.Path() == "sync/atomic" && (strings.HasPrefix(g.Name(), "Store") || strings.HasPrefix(g.Name(), "Swap") || strings.HasPrefix(g.Name(), "CompareAndSwap")) {
						addr(x.Common().Args[0], f)
					}
					if rv := g.Signature.Recv(); rv != nil && types.Identical(rv.Type(), s) {
						visit(g)
					}
				}
			}
		}
	}
	for _, n := range []string{"HashCode", "deepHashCode"} {
		visit(a.p.methodOf(s, n))
	}
	return r
}

// hashCacheRule examines the fields that keep the hash of a value of type s.
func hashCacheRule(a *Analysis, r *Report, s types.Type, h *hashRun) {
	var fields []string
	for f := range h.caches {
		fields = append(fields, f)
	}
	sort.Strings(fields)
	if len(fields) > 0 && a.freezable(deref(s)) {
		a.runSummaries()
	}
	for _, cache := range fields {
		r.count("kept hashes", 1)
		what := ""
		say := func(f string, x ...interface{}) {
			if what == "" {
				what = fmt.Sprintf(f, x...)
			}
		}
		// what the hash is computed from
		from := map[string]bool{}
		fixed := ""
		for _, o := range h.outs {
			o.term.rename(func(at string) string {
				for _, m := range hashFields.FindAllStringSubmatch(at, -1) {
					if m[1] == "" {
						fixed = "its elements, or a method of the value"
					} else {
						from[m[1]] = true
					}
				}
				return at
			})
			for _, c := range o.conds {
				for _, m := range hashFields.FindAllStringSubmatch(c.key(hashName), -1) {
					if m[1] != "" && m[1] != cache {
						from[m[1]] = true
					}
				}
			}
		}
		owner := namedOf(deref(s))
		isField := func(v ssa.Value, name string) (*ssa.FieldAddr, bool) {
			fa, ok := v.(*ssa.FieldAddr)
			if !ok || owner == nil || fieldName(fa) != name {
				return nil, false
			}
			n := namedOf(deref(fa.X.Type()))
			return fa, n != nil && types.Identical(n.Underlying(), owner.Underlying())
		}
		if st, ok := owner.Underlying().(*types.Struct); ok && fixed == "" {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				if !from[f.Name()] {
					continue
				}
				if _, isB := f.Type().Underlying().(*types.Basic); !isB && (rawData(f.Type()) || a.freezable(f.Type()) || types.IsInterface(f.Type())) {
					fixed = "the content of " + f.Name()
				}
			}
		}
		for _, f := range a.p.Funcs {
			u := a.units[root(f)]
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					var ad, val ssa.Value
					switch x := in.(type) {
					case *ssa.Store:
						ad, val = x.Addr, x.Val
					case ssa.CallInstruction:
						g := x.Common().StaticCallee()
						if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync/atomic" || strings.HasPrefix(g.Name(), "Load") || len(x.Common().Args) < 2 {
							continue
						}
						ad, val = x.Common().Args[0], x.Common().Args[1]
					default:
						continue
					}
					fresh := func(fa *ssa.FieldAddr) bool {
						_, ok := fa.X.(*ssa.Alloc)
						return ok
					}
					if fa, ok := isField(ad, cache); ok && !fresh(fa) {
						if k, ok := val.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int && constant.Sign(k.Value) == 0 {
							continue
						}
						if f.Name() != "HashCode" && f.Name() != "deepHashCode" && !hashHelper(a, f, s) {
							say("%s changes the kept hash", fname(f))
						}
						frozen := false
						if u != nil && a.freezable(deref(s)) {
							if fs, ok := u.at(in); ok {
								frozen = fs.has(u.key(fa.X), "frozen", true)
							}
						}
						if fixed != "" && !frozen {
							say("%s keeps a hash that depends on %s, which can change", fname(f), fixed)
						}
						if !frozen {
							for n := range from {
								if w := a.fieldWriter(isField, n); w != "" {
									say("the hash that %s keeps depends on the field %s, which %s changes", fname(f), n, w)
								}
							}
						}
					}
				}
			}
		}
		r.ob(what == "", "cache", tname(s)+" "+cache, "", what)
	}
}

var hashFields = regexp.MustCompile(`‹x›(?:\.(\w+))?`)

// fieldWriter finds a function that writes a field of something it didn't create.
func (a *Analysis) fieldWriter(isField func(v ssa.Value, name string) (*ssa.FieldAddr, bool), name string) string {
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				if fa, ok := isField(st.Addr, name); ok {
					if _, ok := fa.X.(*ssa.Alloc); !ok {
						return fname(f)
					}
				}
			}
		}
	}
	return ""
}

// hashHelper tells if f is a method of s that is used to compute hashes only.
func hashHelper(a *Analysis, f *ssa.Function, s types.Type) bool {
	rv := f.Signature.Recv()
	if rv == nil || !types.Identical(rv.Type(), s) {
		return false
	}
	rs := f.Signature.Results()
	return rs.Len() <= 1 && (rs.Len() == 0 || isInt(rs.At(0).Type()))
}

func fieldName(fa *ssa.FieldAddr) string {
	return deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name()
}

// hashSubst are the alternatives for what the parts of y are called when they are the same as parts of x.
type hashSubst struct {
	atom func(string) string // in terms
	cond func(string) string // in conditions
	size bool                // the sizes are the same
	deep bool                // what can be reached is the same, but not the addresses
	perm []int               // the positions of y's elements in x, if they are elsewhere
}

// permutes tells if the elements, all of them, can be in that order.
func (sb hashSubst) permutes(o hout) bool {
	if o.lo != o.hi {
		return true
	}
	for i := 0; i < o.lo && i < len(sb.perm); i++ {
		if sb.perm[i] >= o.lo {
			return false
		}
	}
	return true
}

func swapName(s, from, to string) string {
	var sb strings.Builder
	for {
		i := strings.Index(s, from)
		if i < 0 {
			sb.WriteString(s)
			return sb.String()
		}
		rest := s[i+len(from):]
		sb.WriteString(s[:i])
		if rest != "" && (rest[0] == '_' || rest[0] >= '0' && rest[0] <= '9' || rest[0]|0x20 >= 'a' && rest[0]|0x20 <= 'z') {
			sb.WriteString(from)
		} else {
			sb.WriteString(to)
		}
		s = rest
	}
}

// substs derives from the facts of a conjunction how y's parts can be renamed.
func substs(conj string, mapped map[string]string, raw map[string]bool) []hashSubst {
	type pair struct{ x, y string }
	var same, eq []pair // identical, and equal
	ordered, perm, size, whole := false, false, false, false
	mx, my := "", ""
	for _, k := range strings.Split(strings.TrimPrefix(conj, "only "), " & ") {
		var pre string
		for _, q := range []string{"=={", "eq{", "within{"} {
			if strings.HasPrefix(k, q) {
				pre = q
			}
		}
		if k == "all found" {
			perm = true
			continue
		}
		if pre == "" {
			continue
		}
		x, y, _ := strings.Cut(k[len(pre):len(k)-1], "|")
		if _, xy := pairSides(x); xy {
			x, y = y, x
		}
		xx, xy := pairSides(x)
		yx, yy := pairSides(y)
		if !xx || xy || yx || !yy {
			continue
		}
		if pre == "within{" {
			perm = true
			mx, my = mapped[x], mapped[y]
			continue
		}
		if x == pairX+"[]" {
			ordered = true
			continue
		}
		x, y = x[1:], y[1:]
		switch {
		case x == pairX && y == pairY && pre == "=={":
			whole = true
		case hashLen.MatchString(x) && hashLen.MatchString(y):
			size = true
		case strings.HasSuffix(x, "[?]") && strings.HasSuffix(y, "[?]"):
			same = append(same, pair{strings.TrimSuffix(x, "[?]"), strings.TrimSuffix(y, "[?]")})
		case pre == "=={":
			same = append(same, pair{x, y})
		default:
			eq = append(eq, pair{x, y})
		}
	}
	if whole {
		f := func(s string) string {
			for _, b := range []string{"Float64bits(", "Float32bits(", "FormatFloat(", "Signbit(", "Sprint"} {
				if strings.Contains(s, b) {
					return s // zero and negative zero are equal
				}
			}
			return strings.ReplaceAll(s, pairY, pairX)
		}
		return []hashSubst{{f, f, true, false, nil}}
	}
	deep := false
	for _, q := range eq {
		if strings.HasPrefix(q.x, "Interface(") && q.y == swapName(q.x, pairX, pairY) {
			deep = true
		}
	}
	perms := [][]int{nil}
	if ordered {
		perms = [][]int{{0, 1, 2, 3}}
	} else if perm {
		perms = [][]int{{0, 1, 2}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}, {1, 2, 0}, {2, 0, 1}}
	}
	var r []hashSubst
	for _, pi := range perms {
		pi := pi
		atom := func(s string) string {
			if deep && !strings.Contains(s, "Pointer(") && !strings.Contains(s, "Addr(") {
				return strings.ReplaceAll(s, pairY, pairX)
			}
			for _, q := range same {
				s = swapName(s, q.y, q.x)
			}
			for _, q := range eq {
				s = strings.ReplaceAll(s, "hash{"+q.y+"}", "hash{"+q.x+"}")
				if raw[q.y] && !strings.Contains(s, "cap(") {
					s = swapName(s, q.y, q.x)
				}
				if q.x == pairX && q.y == pairY {
					for _, u := range []string{"UnixNano(", "Unix(", "UnixMicro(", "UnixMilli("} {
						for _, k := range []string{"s", "p"} {
							s = strings.ReplaceAll(s, u+k+q.y+")", u+k+q.x+")")
						}
					}
				}
			}
			if pi != nil {
				n := make([]string, 0, 16)
				for j, i := range pi {
					yj, xi := fmt.Sprintf("%s[%d]", pairY, j), fmt.Sprintf("«%d»", i)
					for _, t := range []string{"", ".key", ".value"} {
						if my != "" {
							n = append(n, "hash{"+strings.ReplaceAll(my, pairY+"[0]", yj)+"}", "hash{"+xi+"}")
						} else if mx != "" {
							n = append(n, "hash{"+yj+"}", "hash{"+strings.ReplaceAll(mx, pairX+"[0]", xi)+"}")
						} else {
							n = append(n, "hash{"+yj+t+"}", "hash{"+xi+t+"}", "hash{Type(s"+yj+t+")}", "hash{Type(s"+xi+t+")}")
						}
					}
				}
				s = strings.NewReplacer(n...).Replace(s)
				for i := 0; i < 4; i++ {
					s = strings.ReplaceAll(s, fmt.Sprintf("«%d»", i), fmt.Sprintf("%s[%d]", pairX, i))
				}
			}
			return s
		}
		cond := func(s string) string {
			if deep {
				return strings.ReplaceAll(s, pairY, pairX)
			}
			for _, q := range same {
				s = swapName(s, q.y, q.x)
			}
			return s
		}
		r = append(r, hashSubst{atom, cond, size || perm || ordered, deep, pi})
	}
	return r
}

// hashEq renames the sides of a comparison with a constant.
func hashCondKey(c hcond, sb hashSubst) string {
	if c.atom == "" && c.op == token.EQL {
		for _, d := range [][2]AV{{c.x, c.y}, {c.y, c.x}} {
			if d[0].K == 'c' || d[0].K == 'n' {
				s := hashName(d[1].S)
				if n := sb.atom("hash{" + s + "}"); n != "hash{"+s+"}" {
					d[1].S = n[5 : len(n)-1]
				} else {
					d[1].S = s
				}
				return hcond{op: c.op, x: d[0], y: d[1]}.key(sb.cond)
			}
		}
	}
	return c.key(func(s string) string { return sb.cond(hashName(s)) })
}

func hashCompatible(x, y hout, sb hashSubst, only map[string]bool) bool {
	if sb.size && (x.lo > y.hi || y.lo > x.hi) {
		return false
	}
	known := map[string]bool{}
	for k, b := range only {
		known[k] = b
	}
	add := func(k string, b bool) bool {
		if o, ok := known[k]; ok && o != b {
			return false
		}
		known[k] = b
		return true
	}
	id := func(s string) string { return s }
	for _, c := range x.conds {
		if !add(hashCondKey(c, hashSubst{id, id, false, false, nil}), c.val) {
			return false
		}
	}
	for _, c := range y.conds {
		if !add(hashCondKey(c, sb), c.val) {
			return false
		}
	}
	return true
}

func checkC06(a *Analysis, r *Report) {
	p := a.p
	r.Rules = []string{
		"agree: whenever Equals finds two values equal, what follows about their parts makes what their HashCode methods compute the same term",
		"stable: a hash isn't computed from anything but the value",
		"defined: the address of a native value is only asked for when it has one",
		"cache: a hash that is kept with a value is computed from what never changes",
	}
	var ts []types.Type
	for _, s := range p.implementers(p.iface("Value")) {
		if !abstractKind(p, s) {
			ts = append(ts, s)
		}
	}
	r.count("kinds", len(ts))
	hx, hy := map[types.Type]*hashRun{}, map[types.Type]*hashRun{}
	for _, t := range ts {
		hx[t], hy[t] = hashOf(a, t, pairX), hashOf(a, t, pairY)
		if hx[t] == nil {
			continue
		}
		r.count("hash outcomes", len(hx[t].outs))
		for _, o := range hx[t].outs {
			var cs []string
			for _, c := range o.conds {
				cs = append(cs, fmt.Sprint(c.key(hashName), "=", c.val))
			}
			sort.Strings(cs)
			dbgf("hash %s: [%d,%d] %s: %s", tname(t), o.lo, o.hi, strings.Join(cs, " & "), o.term.str())
		}
		if len(hx[t].outs) == 0 || hx[t].bad != "" {
			r.ob(false, "agree", tname(t), "", fmt.Sprintf("the hash of a %s cannot be decided: %s", tname(t), hx[t].bad))
		}
		unstable, undefined := "", ""
		for _, o := range hx[t].outs {
			if u := o.term.unstable(); u != "" {
				unstable = u
			}
			if !strings.Contains(o.term.str(), "Pointer(s‹x›)") {
				continue
			}
			for _, c := range o.conds {
				if k := c.key(hashName); c.val && (k == "cInt:12==sKind(s‹x›)" || k == "cInt:25==sKind(s‹x›)") {
					undefined = k
				}
			}
		}
		r.ob(unstable == "", "stable", tname(t), "", fmt.Sprintf("the hash of a %s is computed from %s, which isn't known to be the same each time", tname(t), unstable))
		r.ob(undefined == "", "defined", tname(t), "", fmt.Sprintf("there is no pointer in a %s when %s", tname(t), undefined))
		hashCacheRule(a, r, t, hx[t])
	}
	for _, s := range ts {
		for _, t := range ts {
			if hx[s] == nil || hy[t] == nil {
				continue
			}
			facts, mapped, bad := equalityFacts(a, s, t)
			if len(facts) == 0 {
				continue
			}
			r.count("pairs of kinds with equal values", 1)
			var conjs []string
			for c := range facts {
				conjs = append(conjs, c)
			}
			sort.Strings(conjs)
			what := ""
			if bad != "" {
				what = "undecided: " + bad
			}
			for _, c := range conjs {
				if hashSubsumed(c, facts) {
					continue
				}
				r.count("ways of being equal", 1)
				raw := map[string]bool{}
				for k := range hx[s].raw {
					raw[k] = true
				}
				for k := range hy[t].raw {
					raw[k] = true
				}
				for _, sb := range substs(c, mapped, raw) {
					only := map[string]bool{}
					for _, k := range strings.Split(strings.TrimPrefix(c, "only "), " & ") {
						k, neg := strings.CutPrefix(k, "!")
						if sx, sy := pairSides(k); sx == sy {
							continue
						}
						if strings.HasPrefix(k, "=={") {
							x, y, _ := strings.Cut(k[3:len(k)-1], "|")
							x, y = sb.cond(hashName(x)), sb.cond(hashName(y))
							k = min(x, y) + "==" + max(x, y)
						} else {
							k = sb.cond(hashName(k))
						}
						only[k] = !neg
					}
					for _, x := range hx[s].outs {
						for _, y := range hy[t].outs {
							if !sb.permutes(y) || !hashCompatible(x, y, sb, only) {
								continue
							}
							r.count("comparisons", 1)
							ys := y.term.rename(sb.atom).str()
							if sb.deep && y.address() {
								ys = y.term.rename(sb.cond).str()
							}
							xs := x.term.str()
							if xs != ys && what == "" {
								what = fmt.Sprintf("equal because of %s, the hash of one is %s and that of the other %s", c, xs, ys)
							}
						}
					}
				}
			}
			r.ob(what == "", "agree", tname(s)+" "+tname(t), "", fmt.Sprintf("a %s and a %s that are equal may have different hashes: %s", tname(s), tname(t), what))
		}
	}
	r.atLeast("pairs of kinds with equal values", 60)
	r.atLeast("comparisons", 100)
	r.Assumptions = append(r.Assumptions,
		"up to three elements; what happens for later ones is the same",
		"equal parts have equal hashes (induction), and a part isn't the value itself: the hash of cyclic values isn't examined",
		"Go values that are deeply equal are turned into equal values, native pointers point to structs")
	r.atLeast("kept hashes", 0)
}

// hashSubsumed tells if the conjunction is another one without what it says about elements: there are none.
func hashSubsumed(c string, facts map[string]bool) bool {
	l := strings.Split(c, " & ")
	for d := range facts {
		if d == c {
			continue
		}
		has := map[string]bool{}
		for _, k := range strings.Split(d, " & ") {
			has[k] = true
		}
		all := true
		for _, k := range l {
			if !has[k] {
				all = false
			}
			delete(has, k)
		}
		if !all {
			continue
		}
		for k := range has {
			if k != "all found" && !strings.Contains(k, "[]") && !strings.Contains(k, "[?]") {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}
