package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// zbound is an upper bound of the difference of two terms.
type zbound struct {
	c      *big.Rat // nil when there is none
	strict bool
}

func (b zbound) less(o zbound) bool {
	switch {
	case b.c == nil:
		return false
	case o.c == nil:
		return true
	}
	c := b.c.Cmp(o.c)
	return c < 0 || c == 0 && b.strict && !o.strict
}

func (b zbound) add(o zbound) zbound {
	if b.c == nil || o.c == nil {
		return zbound{}
	}
	return zbound{new(big.Rat).Add(b.c, o.c), b.strict || o.strict}
}

// zone is a conjunction of bounds of differences of terms. Term zero is the number zero.
type zone struct {
	idx   map[string]int
	m     [][]zbound
	whole bool // about integers
}

func newZone(whole bool) *zone {
	return &zone{idx: map[string]int{"0": 0}, m: [][]zbound{{{}}}, whole: whole}
}

func (z *zone) clone() *zone {
	n := &zone{idx: map[string]int{}, whole: z.whole}
	for k, v := range z.idx {
		n.idx[k] = v
	}
	for _, r := range z.m {
		n.m = append(n.m, append([]zbound(nil), r...))
	}
	return n
}

func (z *zone) at(s string) int {
	if i, ok := z.idx[s]; ok {
		return i
	}
	i := len(z.idx)
	z.idx[s] = i
	for j := range z.m {
		z.m[j] = append(z.m[j], zbound{})
	}
	z.m = append(z.m, make([]zbound, i+1))
	return i
}

// zterm is a term plus a number.
type zterm struct {
	name string
	off  *big.Rat
}

func (t zterm) String() string {
	if t.name == "0" || t.off.Sign() != 0 {
		return t.name + "+" + t.off.RatString()
	}
	return t.name
}

// le adds x <= y, or x < y.
func (z *zone) le(x, y zterm, strict bool) {
	b := zbound{new(big.Rat).Sub(y.off, x.off), strict}
	if z.whole && strict {
		b = zbound{b.c.Sub(b.c, big.NewRat(1, 1)), false}
	}
	i, j := z.at(x.name), z.at(y.name)
	if b.less(z.m[i][j]) {
		z.m[i][j] = b
	}
}

// empty tells if nothing satisfies all bounds.
func (z *zone) empty() bool {
	n := len(z.m)
	m := z.clone().m
	for i := 0; i < n; i++ {
		if zero := (zbound{new(big.Rat), false}); zero.less(m[i][i]) {
			m[i][i] = zero
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if b := m[i][k].add(m[k][j]); b.less(m[i][j]) {
					m[i][j] = b
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if m[i][i].c.Sign() < 0 || m[i][i].c.Sign() == 0 && m[i][i].strict {
			return true
		}
	}
	return false
}

// zcond is a comparison of two terms.
type zcond struct {
	x, y   zterm
	op     token.Token // LEQ, LSS, EQL or NEQ
	strict bool
}

// with returns the zones that result when the condition holds.
func (z *zone) with(c zcond) []*zone {
	switch c.op {
	case token.NEQ:
		n := z.clone()
		z.le(c.x, c.y, true)
		n.le(c.y, c.x, true)
		return []*zone{z, n}
	case token.EQL:
		z.le(c.x, c.y, false)
		z.le(c.y, c.x, false)
	default:
		z.le(c.x, c.y, c.op == token.LSS)
	}
	return []*zone{z}
}

// rangeRun is what interpretation found, together with the means to ask about the numbers.
type rangeRun struct {
	*pairRun
	whole bool
	limit types.Type
}

func (r *rangeRun) number(v AV) (*big.Rat, bool) {
	k := constant.ToFloat(r.ip.consts[v.S])
	if x := constant.ToInt(r.ip.consts[v.S]); x.Kind() == constant.Int {
		k = x
	}
	q, ok := new(big.Rat).SetString(k.ExactString())
	return q, ok
}

// term returns what a number is called in the zone.
func (r *rangeRun) term(v AV) (zterm, bool) {
	switch v.K {
	case 'c':
		if k := r.ip.consts[v.S].Kind(); k != constant.Int && k != constant.Float {
			return zterm{}, false
		}
		q, ok := r.number(v)
		return zterm{"0", q}, ok
	case 's':
		if ir, ok := r.ip.rels[v.S]; ok && (ir.op == token.ADD || ir.op == token.SUB) {
			x, ok := r.term(ir.x)
			y, ok2 := r.term(ir.y)
			switch {
			case ok && ok2 && y.name == "0" && ir.op == token.ADD:
				return zterm{x.name, new(big.Rat).Add(x.off, y.off)}, true
			case ok && ok2 && x.name == "0" && ir.op == token.ADD:
				return zterm{y.name, new(big.Rat).Add(x.off, y.off)}, true
			case ok && ok2 && y.name == "0":
				return zterm{x.name, new(big.Rat).Sub(x.off, y.off)}, true
			}
		}
		return zterm{v.S, new(big.Rat)}, true
	}
	return zterm{}, false
}

// zones returns the zones for what is known in the state, under the conditions.
func (r *rangeRun) zones(st *ist, terms []AV, conds ...zcond) []*zone {
	z := []*zone{newZone(r.whole)}
	apply := func(c zcond) {
		var n []*zone
		for _, x := range z {
			n = append(n, x.with(c)...)
		}
		z = n
	}
	var keys []string
	for k := range st.rel {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, v := range terms {
		r.bounds(v, apply)
	}
	for _, k := range keys {
		ir, ok := r.ip.rels[k]
		if !ok || ir.x.T != nil && isBool(ir.x.T) {
			continue
		}
		x, ok := r.term(ir.x)
		y, ok2 := r.term(ir.y)
		if !ok || !ok2 {
			continue
		}
		c := zcond{x: x, y: y}
		switch {
		case ir.op == token.EQL && st.rel[k]:
			c.op = token.EQL
		case ir.op == token.EQL:
			c.op = token.NEQ
		case ir.op == token.LSS && st.rel[k]:
			c.op = token.LSS
		case ir.op == token.LSS:
			c.x, c.y, c.op = y, x, token.LEQ
		case ir.op == token.LEQ && st.rel[k]:
			c.op = token.LEQ
		case ir.op == token.LEQ:
			c.x, c.y, c.op = y, x, token.LSS
		default:
			continue
		}
		r.bounds(ir.x, apply)
		r.bounds(ir.y, apply)
		apply(c)
	}
	for _, c := range conds {
		apply(c)
	}
	return z
}

// bounds adds the bounds that the number has because of its type.
func (r *rangeRun) bounds(v AV, apply func(c zcond)) {
	t, ok := r.term(v)
	if !ok || v.K != 's' {
		return
	}
	num := func(lo, hi *big.Rat) {
		apply(zcond{x: zterm{"0", lo}, y: zterm{t.name, new(big.Rat)}, op: token.LEQ})
		apply(zcond{x: zterm{t.name, new(big.Rat)}, y: zterm{"0", hi}, op: token.LEQ})
	}
	max := new(big.Rat).SetInt64(math.MaxInt64)
	switch {
	case !r.whole:
		// infinity is what the type of all floats ends with
		f := new(big.Rat).SetFloat64(math.MaxFloat64)
		num(new(big.Rat).Neg(f), f)
	case strings.HasPrefix(t.name, "len(") || strings.HasPrefix(t.name, "Len("):
		num(new(big.Rat), max)
	default:
		num(new(big.Rat).SetInt64(math.MinInt64), max)
	}
}

// possible tells if the state may occur when the conditions hold.
func (r *rangeRun) possible(st *ist, terms []AV, conds ...zcond) bool {
	for _, z := range r.zones(st, terms, conds...) {
		if !z.empty() {
			return true
		}
	}
	return false
}

// limits is what a type says about its range.
type limits struct {
	st        *ist
	min, max  AV
	inclusive bool
}

// loopy tells if the function has a loop.
func loopy(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// limitsOf interprets Min, Max and Inclusive of the value, which has the given type.
func (r *rangeRun) limitsOf(st *ist, v AV, t types.Type) []limits {
	p := r.ip.a.p
	one := func(l []limits, m string, set func(l limits, v AV) []limits) []limits {
		f := p.methodOf(t, m)
		if f == nil || f.Blocks == nil {
			return l
		}
		var n []limits
		for _, x := range l {
			if loopy(f) {
				n = append(n, set(x, AV{K: 's', S: m + "(" + string(v.K) + v.S + ")", T: types.Typ[types.Int]})...)
				continue
			}
			for _, o := range r.ip.run(f, []AV{v}, x.st.clone()) {
				if o.exit || len(o.res) != 1 {
					continue
				}
				y := x
				y.st = o.st
				n = append(n, set(y, o.res[0])...)
			}
		}
		return n
	}
	l := []limits{{st: st.clone(), inclusive: true}}
	l = one(l, "Min", func(l limits, v AV) []limits { l.min = v; return []limits{l} })
	l = one(l, "Max", func(l limits, v AV) []limits { l.max = v; return []limits{l} })
	return one(l, "Inclusive", func(l limits, v AV) []limits {
		var n []limits
		for _, b := range []bool{false, true} {
			if k, known := r.ip.boolOf(l.st, v); known && k != b {
				continue
			}
			y := l
			y.st, y.inclusive = l.st.clone(), b
			r.ip.assume(y.st, v, b)
			if r.boolsOK(y.st) {
				n = append(n, y)
			}
		}
		return n
	})
}

// boolsOK tells if what is known about booleans and their equality isn't contradictory.
func (r *rangeRun) boolsOK(st *ist) bool {
	for k, b := range st.rel {
		ir, ok := r.ip.rels[k]
		if !ok || ir.op != token.EQL || ir.x.T == nil || !isBool(ir.x.T) {
			continue
		}
		x, ok := r.ip.boolOf(st, ir.x)
		y, ok2 := r.ip.boolOf(st, ir.y)
		if ok && ok2 && (x == y) != b {
			return false
		}
	}
	return true
}

// rangedKinds returns the types that have a range or a size.
func rangedKinds(p *Prog) []types.Type {
	var l []types.Type
	for _, t := range p.implementers(p.iface("Type")) {
		if !abstractKind(p, t) && p.methodOf(t, "Min") != nil && p.methodOf(t, "Max") != nil {
			l = append(l, t)
		}
	}
	return l
}

// limitType returns the type of the limits of a kind.
func limitType(p *Prog, t types.Type) types.Type {
	return p.methodOf(t, "Min").Signature.Results().At(0).Type()
}

func runRange(a *Analysis, s, t types.Type, m string) *rangeRun {
	x := runPair(a, s, t, m, func(ip *interp) {
		prev := ip.call
		whole := func(v AV) bool { return (v.K == 's' || v.K == 'p') && (v.S == pairX || v.S == pairY) }
		ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
			cc := c.Common()
			name := callName(cc, g)
			switch name {
			case "Min", "Max":
				if g != nil && loopy(g) && len(args) == 1 {
					return []iout{{st: st, res: []AV{{K: 's', S: name + "(" + string(args[0].K) + args[0].S + ")", T: types.Typ[types.Int]}}}}, true
				}
			case "Len":
				if g != nil && a.p.inModule(g) && !loopy(g) && !cc.IsInvoke() {
					return nil, false
				}
			case "Hit":
				return []iout{{st: st, res: []AV{ip.boolean(false)}}}, true
			}
			if len(args) == 1 && whole(args[0]) && a.p.inModule(c.Parent()) {
				if rt := boolResult(cc); types.Implements(rt, a.p.iface("Type")) && types.IsInterface(rt) {
					return pairUnknown(ip, st, name, cc, args), true
				}
			}
			if n := len(args); n > 1 && isBool(boolResult(cc)) && (strings.HasSuffix(name, "Assignable") || strings.HasSuffix(name, "AssignableTo") || strings.HasSuffix(name, "Instance")) {
				parts := true
				for _, v := range args {
					parts = parts && !whole(v)
				}
				if parts && name != "IsInstance" {
					return pairUnknown(ip, st, name, cc, args), true
				}
			}
			return prev(st, c, g, args)
		}
	})
	if x == nil {
		return nil
	}
	lt := limitType(a.p, s)
	return &rangeRun{pairRun: x, whole: !isFloat(lt), limit: lt}
}

func boolResult(cc *ssa.CallCommon) types.Type {
	if rs := cc.Signature().Results(); rs.Len() == 1 {
		return rs.At(0).Type()
	}
	return types.Typ[types.Invalid]
}

// answers returns the states where the answer may be the given.
func (r *rangeRun) answers(b bool) []*ist {
	var l []*ist
	for _, o := range r.outs {
		if o.exit || len(o.res) != 1 {
			continue
		}
		k, known := r.ip.boolOf(o.st, o.res[0])
		if known && k != b {
			continue
		}
		st := o.st.clone()
		if !known {
			r.ip.assume(st, o.res[0], b)
		}
		if r.boolsOK(st) {
			l = append(l, st)
		}
	}
	return l
}

// measures returns the terms that may be the number or the size of the argument, which is of the given type.
func (r *rangeRun) measures(st *ist, t types.Type) []AV {
	var l []AV
	if r.whole || isFloat(t.Underlying()) {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			return []AV{{K: 's', S: pairY, T: t}, {K: 's', S: "int64(" + pairY + ")", T: types.Typ[types.Int64]}}
		}
	}
	seen := map[string]bool{}
	add := func(v AV) {
		if v.K == 's' && !seen[v.S] {
			seen[v.S] = true
			l = append(l, v)
		}
	}
	for k := range st.rel {
		if ir, ok := r.ip.rels[k]; ok {
			for _, v := range []AV{ir.x, ir.y} {
				if n := strings.TrimPrefix(strings.ToLower(v.S), "len("); n != strings.ToLower(v.S) && strings.HasPrefix(n, pairY) && !strings.ContainsAny(n[:len(n)-1], "()[]") {
					add(v)
				}
			}
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].S < l[j].S })
	if f := r.ip.a.p.methodOf(t, "Len"); f != nil && f.Blocks != nil && !loopy(f) {
		for _, o := range r.ip.run(f, []AV{{K: 's', S: pairY, T: t}}, st.clone()) {
			if !o.exit && len(o.res) == 1 {
				add(o.res[0])
			}
		}
	}
	if len(l) == 0 {
		add(AV{K: 's', S: "len(" + pairY + ")", T: types.Typ[types.Int]})
	}
	return l
}

// cond returns the condition x op y.
func (r *rangeRun) cond(x AV, op token.Token, y AV) (zcond, bool) {
	tx, ok := r.term(x)
	ty, ok2 := r.term(y)
	return zcond{x: tx, y: ty, op: op}, ok && ok2
}

// may tells if the state may occur with x op y. It is not known if x or y aren't numbers.
func (r *rangeRun) may(st *ist, measure, x AV, op token.Token, y AV) bool {
	c, ok := r.cond(x, op, y)
	if !ok {
		return true
	}
	return r.possible(st, []AV{x, y}, append(r.sized(measure), c)...)
}

func checkC12(a *Analysis, r *Report) {
	rangeCreated(a, r)
	p := a.p
	kinds := rangedKinds(p)
	exact := p.iface("ExactType")
	var values []types.Type
	for _, t := range p.implementers(p.iface("Value")) {
		if !abstractKind(p, t) && !types.Implements(t, p.iface("Type")) {
			values = append(values, t)
		}
	}
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String} {
		values = append(values, types.Typ[k])
	}
	values = append(values, types.NewSlice(types.Typ[types.Byte]))
	for _, s := range kinds {
		r.count("types with a range or a size", 1)
		if !types.Implements(s, exact) && !loopy(p.methodOf(s, "Min")) && !loopy(p.methodOf(s, "Max")) {
			n := 0
			for _, v := range values {
				x := runRange(a, s, v, "Instance")
				if x == nil {
					continue
				}
				id := tname(s) + " " + tname(v)
				pos := p.fnPos(p.methodOf(s, "Instance"))
				yes := x.answers(true)
				what := x.bad
				for _, st := range yes {
					for _, l := range x.limitsOf(st, AV{K: 's', S: pairX, T: s}, s) {
						ok := false
						for _, m := range x.measures(l.st, v) {
							over := token.LSS
							if !l.inclusive {
								over = token.LEQ
							}
							ok = ok || !x.may(l.st, m, m, token.LSS, l.min) && !x.may(l.st, m, l.max, over, m)
						}
						if !ok {
							what = fmt.Sprintf("a value is accepted although nothing tells that it is in the range from %s to %s, known is %v", l.min.S, l.max.S, knownIn(l.st))
						}
					}
				}
				if len(yes) > 0 || x.bad != "" {
					n++
					r.ob(what == "", "admits-only", id, pos, what)
				}
				if len(yes) == 0 {
					continue
				}
				what = ""
				for _, st := range x.answers(false) {
					if excused(x, st) {
						continue
					}
					for _, l := range x.limitsOf(st, AV{K: 's', S: pairX, T: s}, s) {
						ok := false
						for _, m := range x.measures(l.st, v) {
							op := token.LEQ
							if !l.inclusive {
								op = token.LSS
							}
							c, ok1 := x.cond(l.min, token.LEQ, m)
							d, ok2 := x.cond(m, op, l.max)
							ok = ok || ok1 && ok2 && !x.possible(l.st, []AV{m, l.min, l.max}, c, d)
						}
						if !ok {
							what = fmt.Sprintf("a value may be refused although it is in the range from %s to %s, known is %v", l.min.S, l.max.S, knownIn(l.st))
						}
					}
				}
				r.ob(what == "", "admits-all", id, pos, what)
			}
			r.ob(n > 0, "admits-only", tname(s), p.fnPos(p.methodOf(s, "Instance")), "no kind of value is ever an instance")
		}
		if types.Implements(s, exact) || loopy(p.methodOf(s, "Min")) || loopy(p.methodOf(s, "Max")) || hasDefer(p.methodOf(s, "Instance")) {
			continue
		}
		for _, t := range kinds {
			if !types.Identical(limitType(p, s), limitType(p, t)) {
				continue
			}
			x := runRange(a, s, t, "Assignable")
			if x == nil {
				continue
			}
			yes := x.answers(true)
			what := x.bad
			for _, st := range yes {
				if st.rel[relAV(token.EQL, AV{K: 's', S: pairX}, AV{K: 's', S: pairY}, nil).S] {
					continue // the same type
				}
				if x.exceeds(st, s, t) {
					what = fmt.Sprintf("it may be assignable although the other has a value outside of its range, known is %v", knownIn(st))
				}
			}
			if len(yes) > 0 || what != "" {
				r.ob(what == "", "assignable", tname(s)+" "+tname(t), p.fnPos(p.methodOf(s, "Assignable")), what)
			}
		}
	}
}

// sized returns the condition that a size isn't negative.
func (r *rangeRun) sized(m AV) []zcond {
	if b, ok := r.limit.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
		z, _ := r.cond(r.ip.integer(0, m.T), token.LEQ, m)
		return []zcond{z}
	}
	return nil
}

// exceeds tells if there may be a number, or a size, in the range of the argument that isn't in the range of the receiver.
func (r *rangeRun) exceeds(st *ist, s, t types.Type) bool {
	m := AV{K: 's', S: "‹m›", T: limitType(r.ip.a.p, s)}
	op := map[bool]token.Token{true: token.LEQ, false: token.LSS}
	for _, l := range r.limitsOf(st, AV{K: 's', S: pairX, T: s}, s) {
		for _, k := range r.limitsOf(l.st, AV{K: 's', S: pairY, T: t}, t) {
			c, ok1 := r.cond(k.min, token.LEQ, m)
			d, ok2 := r.cond(m, op[k.inclusive], k.max)
			e, ok3 := r.cond(m, token.LSS, l.min)
			f, ok4 := r.cond(l.max, op[!l.inclusive], m)
			if !ok1 || !ok2 || !ok3 || !ok4 {
				return true
			}
			conds := []zcond{c, d}
			conds = append(conds, r.sized(m)...)
			terms := []AV{m, l.min, l.max, k.min, k.max}
			for _, out := range []zcond{e, f} {
				if r.possible(k.st, terms, append(conds, out)...) {
					return true
				}
			}
		}
	}
	return false
}

// excused tells if something other than numbers was the reason for a refusal.
func excused(r *rangeRun, st *ist) bool {
	for k, b := range st.rel {
		if _, ok := r.ip.rels[k]; !ok && !b && strings.ContainsAny(k, "({") {
			return true
		}
	}
	return false
}

func knownIn(st *ist) []string {
	var l []string
	for k, b := range st.rel {
		if !b {
			k = "!" + k
		}
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// rangeNew returns the functions that create types with limits from two numbers.
func rangeNew(p *Prog) map[*ssa.Function][]int {
	m := map[*ssa.Function][]int{}
	for _, f := range p.Funcs {
		rs := f.Signature.Results()
		if f.Signature.Recv() != nil || rs.Len() != 1 || f.Blocks == nil || f.Parent() != nil {
			continue
		}
		it, ok := rs.At(0).Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		obj, _, _ := types.LookupFieldOrMethod(it, false, nil, "Min")
		min, ok := obj.(*types.Func)
		if !ok {
			continue
		}
		lt := min.Signature().Results().At(0).Type()
		var l []int
		for i, x := range f.Params {
			if types.Identical(x.Type(), lt) {
				l = append(l, i)
			}
		}
		if len(l) == 2 {
			m[f] = l
		}
	}
	return m
}

func rangeCreated(a *Analysis, r *Report) {
	p := a.p
	fs := rangeNew(p)
	for _, f := range p.Funcs {
		nums := fs[f]
		if nums == nil {
			continue
		}
		r.count("constructors of types with limits", 1)
		ip := newInterp(a)
		ip.limit = 6000
		ip.flat = true
		ip.inline = func(g *ssa.Function) bool { return p.inModule(g) }
		ip.load = func(st *ist, path string, t types.Type) (AV, bool) { return ip.initial(path) }
		ip.asserted = func(st *ist, in *ssa.TypeAssert, v AV, ok bool) {
			if !ok && !in.CommaOk {
				st.ev["assertion"] = true // not about the numbers
			}
		}
		ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
			if _, ok := c.Common().Value.(*ssa.Builtin); ok {
				return nil, false
			}
			if g != nil && g.Blocks != nil && p.inModule(g) && !loopy(g) && !hasDefer(g) {
				return nil, false
			}
			return pairUnknown(ip, st, callName(c.Common(), g), c.Common(), args), true
		}
		lt := f.Params[nums[0]].Type()
		x := &rangeRun{pairRun: &pairRun{ip: ip}, whole: !isFloat(lt), limit: lt}
		var args []AV
		incl := AV{}
		for i, v := range f.Params {
			av := AV{K: 's', S: fmt.Sprintf("‹p%d›", i), T: nil}
			if !types.IsInterface(v.Type()) {
				av.T = v.Type()
			}
			if isBool(v.Type()) {
				incl = av
			}
			args = append(args, av)
		}
		outs := ip.run(f, args, newIst())
		what := ip.bad
		n := 0
		for _, o := range outs {
			for _, swap := range []bool{false, true} {
				lo, hi := args[nums[0]], args[nums[1]]
				if swap {
					lo, hi = hi, lo
				}
				for _, in := range []bool{true, false} {
					o := o
					o.st = o.st.clone()
					if k, known := ip.boolOf(o.st, incl); incl.K == 's' && known && k != in || incl.K == 0 && !in {
						continue
					}
					n++
					if incl.K == 's' {
						ip.assume(o.st, incl, in)
					}
					if s := x.created(o, lo, hi, in); s != "" {
						what = s
					}
				}
			}
		}
		r.count("outcomes of constructors", n)
		if n == 0 && what == "" {
			what = "no outcome"
		}
		r.ob(what == "", "created", f.String(), p.fnPos(f), what)
	}
	r.atLeast("constructors of types with limits", 4)
}

// created tells what is wrong with the limits of a created type.
func (r *rangeRun) created(o iout, lo, hi AV, incl bool) string {
	m := AV{K: 's', S: "‹m›", T: lo.T}
	op := map[bool]token.Token{true: token.LEQ, false: token.LSS}
	must := func(x AV, op token.Token, y AV) zcond {
		c, ok := r.cond(x, op, y)
		if !ok {
			panic("not a number")
		}
		return c
	}
	base := append(r.sized(m), r.sized(hi)...)
	base = append(base, must(lo, token.LEQ, hi))
	terms := []AV{m, lo, hi}
	below, above := must(m, token.LSS, lo), must(hi, op[!incl], m)
	inLo, inHi := must(lo, token.LEQ, m), must(m, op[incl], hi)
	if o.exit {
		if !o.st.ev["assertion"] && r.possible(o.st, terms, append(base, inLo, inHi)...) {
			return "it panics although there are numbers in the range"
		}
		return ""
	}
	v := o.res[0]
	if v.T == nil || types.IsInterface(v.T) {
		return "it isn't known what is returned"
	}
	for _, l := range r.limitsOf(o.st, v, v.T) {
		a, ok1 := r.cond(l.min, token.LEQ, m)
		b, ok2 := r.cond(m, op[l.inclusive], l.max)
		c, ok3 := r.cond(m, token.LSS, l.min)
		d, ok4 := r.cond(l.max, op[!l.inclusive], m)
		if !ok1 || !ok2 || !ok3 || !ok4 {
			return fmt.Sprintf("the limits %s and %s of the created %s aren't known", l.min, l.max, tname(v.T))
		}
		terms := append(terms, l.min, l.max)
		for _, out := range []zcond{below, above} {
			if r.possible(l.st, terms, append(base, a, b, out)...) {
				return fmt.Sprintf("the created %s may admit a number outside of the given range", tname(v.T))
			}
		}
		for _, out := range []zcond{c, d} {
			if r.possible(l.st, terms, append(base, inLo, inHi, out)...) {
				dbgf("created %s min %v max %v %v", v, l.min, l.max, knownIn(l.st))
				return fmt.Sprintf("the created %s may not admit a number in the given range", tname(v.T))
			}
		}
	}
	return ""
}

// initial returns the number or boolean that a field of what a package level variable points to was initialized with,
// for variables that are initialized with new memory and never assigned.
func (ip *interp) initial(path string) (AV, bool) {
	i := strings.LastIndex(path, ".")
	if i < 0 {
		return AV{}, false
	}
	if ip.a.initials == nil {
		ip.a.initials = map[string]*ssa.Const{}
		assigned := map[*ssa.Global]int{}
		for _, f := range ip.a.p.Funcs {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := s.Addr.(*ssa.Global)
					if !ok {
						continue
					}
					assigned[g]++
					m, ok := s.Val.(*ssa.Alloc)
					if !ok || f.Name() != "init" || m.Referrers() == nil {
						continue
					}
					for _, ref := range *m.Referrers() {
						fa, ok := ref.(*ssa.FieldAddr)
						if !ok || fa.Referrers() == nil {
							continue
						}
						for _, fr := range *fa.Referrers() {
							if fs, ok := fr.(*ssa.Store); ok && fs.Addr == fa {
								if c, ok := fs.Val.(*ssa.Const); ok && c.Value != nil {
									st := types.Unalias(m.Type()).(*types.Pointer).Elem().Underlying().(*types.Struct)
									ip.a.initials[g.String()+"."+st.Field(fa.Field).Name()] = c
								}
							}
						}
					}
				}
			}
		}
		for g, n := range assigned {
			if n > 1 {
				for k := range ip.a.initials {
					if strings.HasPrefix(k, g.String()+".") {
						delete(ip.a.initials, k)
					}
				}
			}
		}
	}
	c := ip.a.initials[path]
	if c == nil {
		return AV{}, false
	}
	return ip.konst(c.Value, c.Type()), true
}
