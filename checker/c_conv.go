package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: conversions between integers and from floats to integers preserve the value or fail.

// irange is a range of numbers. A nil bound is unbounded.
type irange struct {
	lo, hi         constant.Value
	loOpen, hiOpen bool
	nan            bool // may be a NaN
}

func (r irange) String() string {
	b := func(v constant.Value) string {
		if v == nil {
			return "unbounded"
		}
		return v.String()
	}
	s := fmt.Sprint(b(r.lo), "..", b(r.hi))
	if r.nan {
		s += " or NaN"
	}
	return s
}

func (r *irange) min(v constant.Value, open bool) {
	if v = number(v); v == nil {
		return
	}
	if r.lo == nil || constant.Compare(v, token.GTR, r.lo) || open && constant.Compare(v, token.EQL, r.lo) {
		r.lo, r.loOpen = v, open
	}
}

func (r *irange) max(v constant.Value, open bool) {
	if v = number(v); v == nil {
		return
	}
	if r.hi == nil || constant.Compare(v, token.LSS, r.hi) || open && constant.Compare(v, token.EQL, r.hi) {
		r.hi, r.hiOpen = v, open
	}
}

func (r *irange) meet(o irange) {
	if o.lo != nil {
		r.min(o.lo, o.loOpen)
	}
	if o.hi != nil {
		r.max(o.hi, o.hiOpen)
	}
	r.nan = r.nan && o.nan
}

func number(v constant.Value) constant.Value {
	switch v.Kind() {
	case constant.Int, constant.Float:
		return v
	}
	return nil
}

// rangeOfType is the range of a numeric type; int and uint have 64 bits.
func rangeOfType(t types.Type) (r irange, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsNumeric == 0 {
		return r, false
	}
	sg := func(n uint) irange {
		h := constant.Shift(constant.MakeInt64(1), token.SHL, n-1)
		return irange{lo: constant.UnaryOp(token.SUB, h, 0), hi: constant.BinaryOp(h, token.SUB, constant.MakeInt64(1))}
	}
	us := func(n uint) irange {
		h := constant.Shift(constant.MakeInt64(1), token.SHL, n)
		return irange{lo: constant.MakeInt64(0), hi: constant.BinaryOp(h, token.SUB, constant.MakeInt64(1))}
	}
	switch b.Kind() {
	case types.Int, types.Int64:
		return sg(64), true
	case types.Int32:
		return sg(32), true
	case types.Int16:
		return sg(16), true
	case types.Int8:
		return sg(8), true
	case types.Uint, types.Uint64, types.Uintptr:
		return us(64), true
	case types.Uint32:
		return us(32), true
	case types.Uint16:
		return us(16), true
	case types.Uint8:
		return us(8), true
	case types.Float32, types.Float64:
		return irange{nan: true}, true
	}
	return r, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// fits tells if every number of r can be converted to the integers of t. Fractions may be lost.
func (r irange) fits(t irange, fromFloat bool) bool {
	if r.nan || r.lo == nil || r.hi == nil {
		return false
	}
	lo, hi, loOpen, hiOpen := r.lo, r.hi, r.loOpen, r.hiOpen
	one := constant.MakeInt64(1)
	if fromFloat {
		// what is truncated
		l, h := constant.BinaryOp(t.lo, token.SUB, one), constant.BinaryOp(t.hi, token.ADD, one)
		return (constant.Compare(lo, token.GTR, l) || loOpen && constant.Compare(lo, token.EQL, l)) &&
			(constant.Compare(hi, token.LSS, h) || hiOpen && constant.Compare(hi, token.EQL, h))
	}
	if loOpen {
		lo = constant.BinaryOp(lo, token.ADD, one)
	}
	if hiOpen {
		hi = constant.BinaryOp(hi, token.SUB, one)
	}
	return constant.Compare(lo, token.GEQ, t.lo) && constant.Compare(hi, token.LEQ, t.hi)
}

type convCheck struct {
	a    *Analysis
	ip   *interp
	inst map[string]instFact // what the truth of an instance check tells
}

type instFact struct {
	sym string
	r   irange
}

// rangeOf is what is known about a number.
func (c *convCheck) rangeOf(st *ist, v AV, t types.Type, d int) irange {
	r, ok := rangeOfType(t)
	if !ok {
		return irange{nan: true}
	}
	ip := c.ip
	if v.K == 'c' {
		if k := number(ip.consts[v.S]); k != nil {
			r.nan = false
			r.min(k, false)
			r.max(k, false)
		}
		return r
	}
	if v.K != 's' || d > 6 {
		return r
	}
	if strings.HasPrefix(v.S, "math.Modf(") && strings.HasSuffix(v.S, "#1") {
		// the fraction is NaN or infinite only if the integer is
		r.nan = false
		r.min(constant.MakeInt64(-1), true)
		r.max(constant.MakeInt64(1), true)
	}
	if strings.HasPrefix(v.S, "len(") || strings.HasPrefix(v.S, "cap(") {
		r.min(constant.MakeInt64(0), false)
	}
	if o, ok := ip.rels[v.S]; ok {
		switch o.op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			if isFloat(t) {
				x, y := c.rangeOf(st, o.x, t, d+1), c.rangeOf(st, o.y, t, d+1)
				// a constant factor
				if y.lo != nil && y.hi != nil && constant.Compare(y.lo, token.EQL, y.hi) && constant.Sign(y.lo) > 0 && !x.nan && (o.op == token.MUL || o.op == token.QUO) {
					if x.lo != nil {
						r.min(constant.BinaryOp(constant.ToFloat(x.lo), o.op, constant.ToFloat(y.lo)), x.loOpen)
					}
					if x.hi != nil {
						r.max(constant.BinaryOp(constant.ToFloat(x.hi), o.op, constant.ToFloat(y.lo)), x.hiOpen)
					}
					r.nan = false
				}
			}
		case token.AND:
			for _, p := range [][2]AV{{o.x, o.y}, {o.y, o.x}} {
				if k := c.rangeOf(st, p[1], t, d+1); k.lo != nil && k.hi != nil && constant.Compare(k.lo, token.EQL, k.hi) && constant.Sign(k.lo) >= 0 {
					r.min(constant.MakeInt64(0), false)
					r.max(k.hi, false)
				}
			}
		case token.REM:
			if k := c.rangeOf(st, o.y, t, d+1); k.lo != nil && k.hi != nil && constant.Compare(k.lo, token.EQL, k.hi) && constant.Sign(k.lo) > 0 {
				r.max(k.hi, true)
				if constant.Sign(c.rangeOf(st, o.x, t, d+1).lo) >= 0 {
					r.min(constant.MakeInt64(0), false)
				} else {
					r.min(constant.UnaryOp(token.SUB, k.hi, 0), true)
				}
			}
		}
	}
	for s, b := range st.rel {
		if f, ok := c.inst[s]; ok && b && f.sym == v.S {
			r.meet(f.r)
		}
		o, ok := ip.rels[s]
		if !ok {
			continue
		}
		var k constant.Value
		left := false
		switch {
		case o.x.K == 's' && o.x.S == v.S && o.y.K == 'c':
			k, left = ip.consts[o.y.S], true
		case o.y.K == 's' && o.y.S == v.S && o.x.K == 'c':
			k = ip.consts[o.x.S]
		}
		if k == nil {
			continue
		}
		k = number(k)
		if k == nil {
			continue
		}
		if isFloat(t) {
			if f, _ := constant.Float64Val(k); !math.IsInf(f, 0) {
				k = constant.MakeFloat64(f)
			}
		}
		switch o.op {
		case token.EQL:
			if b {
				r.min(k, false)
				r.max(k, false)
				r.nan = false
			} else if !isFloat(t) {
				if r.lo != nil && constant.Compare(k, token.EQL, r.lo) {
					r.loOpen = true
				}
				if r.hi != nil && constant.Compare(k, token.EQL, r.hi) {
					r.hiOpen = true
				}
			}
		case token.LSS:
			switch {
			case left && b: // v < k
				r.max(k, true)
				r.nan = false
			case left && !b:
				r.min(k, false)
			case b: // k < v
				r.min(k, true)
				r.nan = false
			default:
				r.max(k, false)
			}
		case token.LEQ:
			switch {
			case left && b: // v <= k
				r.max(k, false)
				r.nan = false
			case left && !b:
				r.min(k, true)
			case b: // k <= v
				r.min(k, false)
				r.nan = false
			default:
				r.max(k, true)
			}
		}
	}
	return r
}

// instRange determines the integers that the type in v admits: a constant range, or an element of a table of them.
func (c *convCheck) instRange(v ssa.Value, d int) (irange, bool) {
	if d > 8 {
		return irange{}, false
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return c.instRange(v.X, d+1)
	case *ssa.ChangeInterface:
		return c.instRange(v.X, d+1)
	case *ssa.TypeAssert:
		return c.instRange(v.X, d+1)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.TypeAssert:
			return c.instRange(t.X, d+1)
		case *ssa.Lookup:
			return c.instRange2(t, d)
		}
	case *ssa.FreeVar:
		if b := binding(v); b != nil {
			return c.instRange(b, d+1)
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return irange{}, false
		}
		if g, ok := v.X.(*ssa.Global); ok {
			var r irange
			n := 0
			for _, s := range c.globalStores(g) {
				x, ok := c.instRange(s, d+1)
				if !ok {
					return irange{}, false
				}
				r = x
				n++
			}
			return r, n == 1
		}
		if cl := c.a.cellOf(v.X); cl != nil && !cl.opaque && len(cl.stores) == 1 {
			return c.instRange(cl.stores[0], d+1)
		}
	case *ssa.Lookup:
		return c.instRange2(v, d)
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f != nil && len(v.Call.Args) == 3 {
			lo, ok1 := v.Call.Args[0].(*ssa.Const)
			hi, ok2 := v.Call.Args[1].(*ssa.Const)
			in, ok3 := v.Call.Args[2].(*ssa.Const)
			if ok1 && ok2 && ok3 && isInteger(lo.Type()) && isInteger(hi.Type()) {
				return irange{lo: lo.Value, hi: hi.Value, hiOpen: !constant.BoolVal(in.Value)}, true
			}
		}
	}
	return irange{}, false
}

func (c *convCheck) globalStores(g *ssa.Global) []ssa.Value {
	var r []ssa.Value
	for _, f := range c.a.p.allWithInit(g.Pkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == g {
					r = append(r, s.Val)
				}
			}
		}
	}
	return r
}

func (p *Prog) allWithInit(pk *ssa.Package) []*ssa.Function {
	fns := p.Funcs
	for _, f := range fns {
		if f == pk.Func("init") {
			return fns
		}
	}
	if f := pk.Func("init"); f != nil {
		fns = append(append([]*ssa.Function{}, fns...), f)
	}
	return fns
}

// instRange2 is instRange for an element of a package level map.
func (c *convCheck) instRange2(l *ssa.Lookup, d int) (irange, bool) {
	k, ok := l.Index.(*ssa.Const)
	u, ok2 := l.X.(*ssa.UnOp)
	if !ok || !ok2 || k.Value == nil {
		return irange{}, false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return irange{}, false
	}
	var r irange
	n := 0
	maps := map[ssa.Value]bool{}
	for _, s := range c.globalStores(g) {
		maps[s] = true
	}
	for _, f := range c.a.p.allWithInit(g.Pkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				m, ok := in.(*ssa.MapUpdate)
				if !ok {
					continue
				}
				ours := maps[m.Map]
				if x, ok := m.Map.(*ssa.UnOp); ok && x.X == g {
					ours = true
				}
				kk, ok := m.Key.(*ssa.Const)
				if !ours || ok && kk.Value != nil && !constant.Compare(kk.Value, token.EQL, k.Value) {
					continue
				}
				x, ok2 := c.instRange(m.Value, d+1)
				if !ok || !ok2 {
					return irange{}, false
				}
				r = x
				n++
			}
		}
	}
	return r, n == 1
}

// hashOnly are the functions that compute hash codes, and what only they call.
func (a *Analysis) hashOnly() map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	callers := a.p.callersOf()
	for ch := true; ch; {
		ch = false
		for _, f := range a.p.Funcs {
			if m[f] {
				continue
			}
			if n := strings.ToLower(f.Name()); strings.HasSuffix(n, "hashcode") && f.Signature.Recv() != nil {
				m[f] = true
				ch = true
				continue
			}
			if f.Parent() != nil && m[f.Parent()] {
				m[f] = true
				ch = true
				continue
			}
			if f.Object() != nil && f.Object().Exported() {
				continue
			}
			cs := callers[f]
			all := len(cs) > 0
			for _, c := range cs {
				if !m[c.Parent()] {
					all = false
				}
			}
			if all {
				m[f] = true
				ch = true
			}
		}
	}
	return m
}

// callersOf are the static calls of each function. A function that is used in another way has a nil entry.
func (p *Prog) callersOf() map[*ssa.Function][]ssa.CallInstruction {
	r := map[*ssa.Function][]ssa.CallInstruction{}
	used := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, isC := in.(ssa.CallInstruction)
				if isC {
					if g := c.Common().StaticCallee(); g != nil {
						r[g] = append(r[g], c)
					}
				}
				for _, o := range in.Operands(nil) {
					if g, ok := (*o).(*ssa.Function); ok && !(isC && c.Common().Value == g) {
						used[g] = true
					}
				}
			}
		}
	}
	for g := range used {
		r[g] = nil
	}
	return r
}

// sizesOnly tells if a number is only used for sizes, capacities and comparisons.
func (c *convCheck) sizesOnly(v ssa.Value, callers map[*ssa.Function][]ssa.CallInstruction, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	rs := v.Referrers()
	if rs == nil {
		return false
	}
	for _, ref := range *rs {
		switch x := ref.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				continue
			}
			if !c.sizesOnly(x, callers, seen) {
				return false
			}
		case *ssa.Convert, *ssa.ChangeType, *ssa.Phi:
			if !c.sizesOnly(x.(ssa.Value), callers, seen) {
				return false
			}
		case *ssa.MakeSlice, *ssa.MakeMap, *ssa.IndexAddr, *ssa.DebugRef:
		case *ssa.Return:
			cs := callers[x.Parent()]
			if len(cs) == 0 {
				return false
			}
			for _, cc := range cs {
				if cv := cc.Value(); cv == nil || !c.sizesOnly(cv, callers, seen) {
					return false
				}
			}
		case ssa.CallInstruction:
			g := x.Common().StaticCallee()
			if g == nil || g.Blocks == nil || !c.a.p.inModule(g) {
				return false
			}
			for i, a := range x.Common().Args {
				if a == v && !c.sizesOnly(g.Params[i], callers, seen) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func isRuneType(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Name() == "rune"
}

// sites are the instructions of f that may change a number.
func (c *convCheck) sites(f *ssa.Function) []ssa.Instruction {
	var r []ssa.Instruction
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Convert:
				from, ok1 := rangeOfType(in.X.Type())
				to, ok2 := rangeOfType(in.Type())
				if !ok1 || !ok2 || isFloat(in.Type()) || isRuneType(in.X.Type()) || isRuneType(in.Type()) || from.fits(to, isFloat(in.X.Type())) {
					continue
				}
				if _, k := in.X.(*ssa.Const); k {
					continue
				}
				r = append(r, in)
			case *ssa.Call:
				if g := in.Call.StaticCallee(); g != nil && pkgPath(g) == "reflect" {
					switch g.Name() {
					case "SetInt", "SetUint", "Convert":
						r = append(r, in)
					}
				}
			}
		}
	}
	return r
}

// explore runs f, with unknown arguments, and tells which of the sites change a number. Functions in via are inlined.
func (c *convCheck) explore(f *ssa.Function, want map[ssa.Instruction]bool, via map[*ssa.Function]bool) (bad map[ssa.Instruction]string, undecided string) {
	bad = map[ssa.Instruction]string{}
	ip := newInterp(c.a)
	c.ip = ip
	c.inst = map[string]instFact{}
	pend := map[string]ssa.Instruction{}
	orig := map[string]AV{}
	ip.inline = func(g *ssa.Function) bool {
		if via[g] && g != f {
			return true
		}
		// helpers that decide something about numbers
		for _, k := range ip.stack {
			if strings.HasPrefix(k, g.String()+"[") {
				return false
			}
		}
		if g == f || !c.a.p.inModule(g) || len(g.Blocks) > 20 {
			return false
		}
		num := false
		for _, pa := range g.Params {
			if _, ok := rangeOfType(pa.Type()); ok {
				num = true
			}
		}
		return num
	}
	ip.conv = func(st *ist, in *ssa.Convert, x AV) (AV, bool) {
		from, ok1 := rangeOfType(in.X.Type())
		to, ok2 := rangeOfType(in.Type())
		if !ok1 || !ok2 || x.K != 's' && x.K != 'c' {
			return AV{}, false
		}
		sym := AV{K: 's', S: tname(in.Type()) + "(" + x.S + ")", T: canonOrNil(in.Type())}
		if x.K == 'c' {
			k := ip.consts[x.S]
			if isFloat(in.Type()) == isFloat(in.X.Type()) {
				if n := number(k); n != nil && (irange{lo: n, hi: n}).fits(to, false) {
					x.T = canonOrNil(in.Type())
					return x, true
				}
			}
			return sym, true
		}
		if isFloat(in.Type()) {
			if isFloat(in.X.Type()) {
				x.T = canonOrNil(in.Type())
				return x, true
			}
			// it loses digits at most
			return sym, true
		}
		safe := from.fits(to, isFloat(in.X.Type()))
		if !safe {
			rg := c.rangeOf(st, x, in.X.Type(), 0)
			safe = rg.fits(to, isFloat(in.X.Type()))
			if !safe && want[in] {
				pend[sym.S] = in
				orig[sym.S] = x
				st.ev["conv:"+sym.S] = true
				bad[in] = "" // reached
				st.ev["range:"+sym.S+":"+rg.String()] = true
			}
		}
		if safe && !isFloat(in.X.Type()) {
			x.T = canonOrNil(in.Type())
			return x, true
		}
		return sym, true
	}
	ip.call = func(st *ist, ci ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		cc := ci.Common()
		if cc.IsInvoke() && cc.Method.Name() == "Instance" && len(args) == 2 && args[1].K == 's' {
			if rg, ok := c.instRange(cc.Value, 0); ok {
				sym := AV{K: 's', S: fmt.Sprintf("Instance(%s,%s)", rg, args[1].S), T: types.Typ[types.Bool]}
				c.inst[sym.S] = instFact{args[1].S, rg}
				return []iout{{st: st, res: []AV{sym}}}, true
			}
		}
		if cc.IsInvoke() && cc.Method.Name() == "GoInt" && len(args) == 1 && args[0].K == 's' {
			// the number that the value is
			v := args[0]
			v.T = canonOrNil(cc.Method.Type().(*types.Signature).Results().At(0).Type())
			return []iout{{st: st, res: []AV{v}}}, true
		}
		in, _ := ci.(ssa.Instruction)
		if g == nil || pkgPath(g) != "reflect" || !want[in] {
			return nil, false
		}
		if g.Name() == "Convert" {
			bad[in] = "reflect.Value.Convert changes numbers that the type cannot represent"
			return nil, false
		}
		over := "OverflowInt"
		if g.Name() == "SetUint" {
			over = "OverflowUint"
		}
		ok := false
		for s, b := range st.rel {
			if !b && strings.HasSuffix(s, over+"("+string(args[0].K)+args[0].S+","+string(args[1].K)+args[1].S+")") {
				ok = true
			}
			if o, isR := ip.rels[s]; isR && b && o.op == token.EQL {
				// a certain kind
				for _, p := range [][2]AV{{o.x, o.y}, {o.y, o.x}} {
					if p[1].K == 'c' && strings.HasSuffix(p[0].S, "Kind("+string(args[0].K)+args[0].S+")") {
						kk, _ := constant.Int64Val(ip.consts[p[1].S])
						kinds := map[int64]types.BasicKind{2: types.Int, 3: types.Int8, 4: types.Int16, 5: types.Int32, 6: types.Int64, 7: types.Uint, 8: types.Uint8, 9: types.Uint16, 10: types.Uint32, 11: types.Uint64, 12: types.Uintptr}
						if bk, has := kinds[kk]; has {
							tr, _ := rangeOfType(types.Typ[bk])
							if c.rangeOf(st, args[1], ci.Common().Args[1].Type(), 0).fits(tr, false) {
								ok = true
							}
						}
					}
				}
			}
		}
		if !ok {
			bad[in] = "the number is stored although it has not been checked that the destination can represent it"
		}
		return nil, false
	}
	st := newIst()
	var args []AV
	for i, pa := range f.Params {
		args = append(args, ip.typed(st, AV{K: 's', S: fmt.Sprint("p", i)}, pa.Type()))
	}
	for i, fv := range f.FreeVars {
		args = append(args, AV{K: 'p', S: fmt.Sprint("fv", i), T: canonOrNil(fv.Type())})
	}
	for _, o := range ip.run(f, args, st) {
		if o.exit {
			continue
		}
		for e := range o.st.ev {
			s, ok := strings.CutPrefix(e, "conv:")
			if !ok {
				continue
			}
			in := pend[s]
			if c.roundTrip(o.st, s, orig[s], in.(*ssa.Convert)) {
				continue
			}
			rg := ""
			for e := range o.st.ev {
				if x, ok := strings.CutPrefix(e, "range:"+s+":"); ok {
					rg = x
				}
			}
			bad[in] = "the number may be changed by the conversion, it is " + rg
		}
	}
	for in, s := range bad {
		if s == "" {
			delete(bad, in)
		}
	}
	return bad, ip.bad
}

// roundTrip tells if the number was found to be equal to what it was converted from, or if a number that has no sign
// was found to have none afterwards either.
func (c *convCheck) roundTrip(st *ist, sym string, from AV, in *ssa.Convert) bool {
	if f, ok := rangeOfType(in.X.Type()); ok && !isFloat(in.X.Type()) && constant.Sign(f.lo) == 0 {
		if t, ok := rangeOfType(in.Type()); ok && constant.Sign(t.lo) < 0 && constant.Compare(f.hi, token.LEQ, constant.BinaryOp(constant.BinaryOp(t.hi, token.MUL, constant.MakeInt64(2)), token.ADD, constant.MakeInt64(1))) {
			if r := c.rangeOf(st, AV{K: 's', S: sym}, in.Type(), 0); constant.Sign(r.lo) >= 0 {
				return true
			}
		}
	}
	for s, b := range st.rel {
		o, ok := c.ip.rels[s]
		if !ok || !b || o.op != token.EQL {
			continue
		}
		for _, p := range [][2]AV{{o.x, o.y}, {o.y, o.x}} {
			if p[1].S == from.S && (p[0].S == sym || strings.HasSuffix(p[0].S, "("+sym+")")) {
				return true
			}
		}
	}
	return false
}

func checkC11(a *Analysis, r *Report) {
	r.Rules = append(r.Rules,
		"range: on every path to a conversion between numeric types that can change a number, the number is known to be in the range of the target (comparisons, type, instance checks), or it is compared with the original afterwards",
		"store: reflect.Value.SetInt and SetUint are reached only after OverflowInt or OverflowUint said no, or when the kind of the destination admits the number",
		"text: the error of a conversion of text to an integer is examined (shared with C20)")
	r.Assumptions = append(r.Assumptions, "int and uint have 64 bits", "hash codes, sizes and characters are no integer values")
	c := &convCheck{a: a}
	hash := a.hashOnly()
	callers := a.p.callersOf()
	conv := 0
	var found map[ssa.Instruction]string
	var visit func(f *ssa.Function, want map[ssa.Instruction]bool, via map[*ssa.Function]bool, d int) (map[ssa.Instruction]string, string)
	visit = func(f *ssa.Function, want map[ssa.Instruction]bool, via map[*ssa.Function]bool, d int) (map[ssa.Instruction]string, string) {
		bad, und := c.explore(f, want, via)
		if len(bad) == 0 && und == "" || d > 2 || f.Object() != nil && f.Object().Exported() || len(callers[f]) == 0 {
			return bad, und
		}
		// a helper: what its callers know counts
		v2 := map[*ssa.Function]bool{f: true}
		for g := range via {
			v2[g] = true
		}
		all := map[ssa.Instruction]string{}
		done := map[*ssa.Function]bool{}
		for _, cl := range callers[f] {
			g := cl.Parent()
			if done[g] {
				continue
			}
			done[g] = true
			if hash[g] {
				continue
			}
			if _, isCall := cl.(*ssa.Call); !isCall {
				return bad, und
			}
			b, u := visit(g, want, v2, d+1)
			if u != "" {
				return bad, u
			}
			for in, s := range b {
				all[in] = s + " (called from " + fname(g) + ")"
			}
		}
		return all, ""
	}
	for _, f := range a.p.Funcs {
		if f.Synthetic != "" {
			continue
		}
		want := map[ssa.Instruction]bool{}
		var order []ssa.Instruction
		for _, in := range c.sites(f) {
			conv++
			if hash[f] {
				r.count("conversions for hash codes", 1)
				continue
			}
			if v, ok := in.(*ssa.Convert); ok && c.sizesOnly(v, callers, map[ssa.Value]bool{}) {
				r.count("conversions for sizes", 1)
				continue
			}
			want[in] = true
			order = append(order, in)
		}
		if len(want) == 0 {
			continue
		}
		var und string
		found, und = visit(f, want, map[*ssa.Function]bool{}, 0)
		n := map[string]int{}
		for _, in := range order {
			rule, what := "range", ""
			switch x := in.(type) {
			case *ssa.Convert:
				what = fmt.Sprintf("%s to %s", tname(x.X.Type()), tname(x.Type()))
			case *ssa.Call:
				rule, what = "store", x.Call.StaticCallee().Name()
			}
			n[what]++
			con := fname(f) + " " + what
			if n[what] > 1 {
				con = fmt.Sprint(con, " #", n[what])
			}
			msg := found[in]
			if und != "" {
				msg = "not decided: " + und
			}
			r.ob(msg == "", rule, con, a.p.instrPos(in), msg)
		}
	}
	r.count("conversions that can change a number", conv)
	r.atLeast("conversions that can change a number", 8)
	// text
	e := &errCheck{a: a, memo: map[*ssa.Parameter]int{}, sources: map[ssa.Instruction]bool{}}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := cl.Call.StaticCallee()
				if g == nil || !(pkgPath(g) == "strconv" && (g.Name() == "ParseInt" || g.Name() == "ParseUint" || g.Name() == "Atoi") || pkgPath(g) == "encoding/json" && g.Name() == "Int64") {
					continue
				}
				e.sources[in] = true
				r.count("conversions of text", 1)
				ev := e.errValue(cl)
				con := fname(f) + " calls " + fname(g)
				msg := ""
				if ev == nil {
					msg = "the error is ignored"
				} else if !comparedWithNil(ev) {
					msg = "the error is not examined"
				} else if s := usedWhenFailed(cl, ev, b, i); s != "" {
					msg = "the number is used although the conversion failed, at " + s
				}
				r.ob(msg == "", "text", con, a.p.instrPos(in), msg)
			}
		}
	}
	r.atLeast("conversions of text", 3)
	_ = sort.Strings
}

func comparedWithNil(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		if b, ok := ref.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) && (isNilConst(b.X) || isNilConst(b.Y)) {
			return true
		}
	}
	return false
}

// usedWhenFailed finds a use of the number that the call c yields, on a path where the error ev isn't nil.
func usedWhenFailed(c *ssa.Call, ev ssa.Value, b *ssa.BasicBlock, i int) string {
	vals := map[ssa.Value]bool{}
	for _, ref := range *c.Referrers() {
		if x, ok := ref.(*ssa.Extract); ok && x != ev {
			vals[x] = true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	res := ""
	var walk func(b, prev *ssa.BasicBlock, i int)
	walk = func(b, prev *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if x, ok := in.(*ssa.Extract); ok && x.Tuple == ssa.Value(c) {
				continue
			}
			if ph, ok := in.(*ssa.Phi); ok {
				for k, e := range ph.Edges {
					if vals[e] && b.Preds[k] == prev {
						vals[ph] = true
					}
				}
				continue
			}
			for _, o := range in.Operands(nil) {
				if vals[*o] {
					res = c.Parent().Prog.Fset.Position(in.Pos()).String()
					if !in.Pos().IsValid() {
						res = "the end of block " + fmt.Sprint(b.Index)
					}
				}
			}
		}
		t, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for k, s := range b.Succs {
			if isIf {
				if bo, ok := t.Cond.(*ssa.BinOp); ok && (bo.X == ev && isNilConst(bo.Y) || bo.Y == ev && isNilConst(bo.X)) {
					if (bo.Op == token.EQL) == (k == 0) {
						continue // no error
					}
				}
			}
			if !seen[s] {
				seen[s] = true
				walk(s, b, 0)
			}
		}
	}
	walk(b, nil, i+1)
	return res
}
