package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How two terms may be related: less, equal, greater, not ordered.
const (
	ordLT = 1 << iota
	ordEQ
	ordGT
	ordUN
	ordAny = ordLT | ordEQ | ordGT | ordUN
)

// ordering is what is known in an outcome: how terms are related, and what booleans are.
type ordering struct {
	rel   map[[2]string]int
	facts map[string]bool
}

func flipOrd(m int) int {
	r := m & (ordEQ | ordUN)
	if m&ordLT != 0 {
		r |= ordGT
	}
	if m&ordGT != 0 {
		r |= ordLT
	}
	return r
}

func (o *ordering) restrict(x, y string, m int) {
	if x > y {
		x, y, m = y, x, flipOrd(m)
	}
	k := [2]string{x, y}
	if old, ok := o.rel[k]; ok {
		m &= old
	}
	o.rel[k] = m
}

func boolOrd(b bool) string {
	return fmt.Sprintf("b%v", b)
}

// orderingOf extracts the relations from the state of an outcome. Swapped exchanges the names of the two values.
func (r *pairRun) orderingOf(st *ist, swapped bool) *ordering {
	o := &ordering{rel: map[[2]string]int{}, facts: map[string]bool{}}
	name := func(s string) string {
		if swapped {
			return pairSwap(s)
		}
		return s
	}
	for k, b := range st.rel {
		ir, ok := r.ip.rels[k]
		if !ok {
			// a boolean, that equality may relate to other booleans
			o.facts[name(k)] = b
			o.restrict("s"+name(k), boolOrd(b), ordEQ)
			o.restrict(boolOrd(true), boolOrd(false), ordGT)
			continue
		}
		x, y := ir.x, ir.y
		// a difference compared with zero
		for _, d := range []bool{false, true} {
			if dr, ok := r.ip.rels[x.S]; ok && x.K == 's' && dr.op == token.SUB && r.ip.isZero(y) && (ir.op == token.EQL || r.narrow(dr.x) && r.narrow(dr.y)) {
				if d {
					x, y = dr.y, dr.x
				} else {
					x, y = dr.x, dr.y
				}
				break
			}
			x, y = y, x
		}
		total := ordLT | ordEQ | ordGT
		if f := func(v AV) bool { return v.T != nil && isFloat(v.T) }; f(x) || f(y) || strings.HasPrefix(x.S, "cmp ") {
			total = ordAny
		}
		m := 0
		switch ir.op {
		case token.EQL:
			m = ordEQ
		case token.LSS:
			m = ordLT
		case token.LEQ:
			m = ordLT | ordEQ
		default:
			o.facts[name(k)] = b
			continue
		}
		if !b {
			m = total &^ m
		}
		o.restrict(name(string(x.K)+x.S), name(string(y.K)+y.S), m)
	}
	return o
}

// compatible tells if two orderings may hold at once.
func (o *ordering) compatible(p *ordering) bool {
	for k, b := range o.facts {
		if c, ok := p.facts[k]; ok && b != c {
			return false
		}
	}
	for k, m := range o.rel {
		if n, ok := p.rel[k]; ok && m&n == 0 || m == 0 {
			return false
		}
	}
	for _, m := range p.rel {
		if m == 0 {
			return false
		}
	}
	return true
}

func composeOrd(a, b int) int {
	if a&ordUN != 0 || b&ordUN != 0 {
		return ordAny
	}
	r := 0
	for x := ordLT; x <= ordGT; x <<= 1 {
		for y := ordLT; y <= ordGT; y <<= 1 {
			switch {
			case a&x == 0 || b&y == 0:
			case x == ordEQ:
				r |= y
			case y == ordEQ || x == y:
				r |= x
			default:
				r |= ordLT | ordEQ | ordGT
			}
		}
	}
	return r
}

// consistent tells if two compatible orderings aren't contradictory when it is considered that order is transitive.
func (o *ordering) consistent(p *ordering, konst func(s string) constant.Value) bool {
	idx := map[string]int{}
	var names []string
	at := func(s string) int {
		i, ok := idx[s]
		if !ok {
			i = len(idx)
			idx[s] = i
			names = append(names, s)
		}
		return i
	}
	for _, q := range []*ordering{o, p} {
		for k := range q.rel {
			at(k[0])
			at(k[1])
		}
	}
	n := len(idx)
	m := make([][]int, n)
	for i := range m {
		m[i] = make([]int, n)
		for j := range m[i] {
			m[i][j] = ordAny
			if x, y := konst(names[i]), konst(names[j]); x != nil && y != nil && x.Kind() == constant.Int && y.Kind() == constant.Int {
				switch {
				case constant.Compare(x, token.LSS, y):
					m[i][j] = ordLT
				case constant.Compare(x, token.GTR, y):
					m[i][j] = ordGT
				default:
					m[i][j] = ordEQ
				}
			}
		}
		m[i][i] = ordEQ
	}
	for _, q := range []*ordering{o, p} {
		for k, r := range q.rel {
			i, j := at(k[0]), at(k[1])
			m[i][j] &= r
			m[j][i] &= flipOrd(r)
		}
	}
	for ch := true; ch; {
		ch = false
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if m[i][j] == ordAny {
					continue
				}
				for k := 0; k < n; k++ {
					if r := m[i][k] & composeOrd(m[i][j], m[j][k]); r != m[i][k] {
						m[i][k] = r
						m[k][i] = flipOrd(r)
						ch = true
						if r == 0 {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// reflexive tells if the ordering may hold when both values are the same.
func (o *ordering) reflexive() bool {
	for k, m := range o.rel {
		if k[0] == pairSwap(k[1]) && m&ordEQ == 0 {
			return false
		}
	}
	for k, b := range o.facts {
		if c, ok := o.facts[pairSwap(k)]; ok && c != b {
			return false
		}
	}
	return true
}

// comparers returns the functions that compare two arbitrary values: they take two of them and lead to CompareTo.
func (a *Analysis) comparers() map[*ssa.Function]bool {
	if a.cmpFns != nil {
		return a.cmpFns
	}
	a.cmpFns = map[*ssa.Function]bool{}
	for _, f := range a.p.Funcs {
		rs := f.Signature.Results()
		if rs.Len() != 2 || !isBool(rs.At(1).Type()) {
			continue
		}
		if f.Signature.Recv() != nil {
			continue
		}
		n := 0
		for _, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Interface); ok {
				n++
			}
		}
		if n != 2 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() && c.Common().Method.Name() == "CompareTo" {
					a.cmpFns[f] = true
				}
			}
		}
	}
	return a.cmpFns
}

// compareHook makes the comparison of parts have the outcomes less, equal, greater and not comparable.
func compareHook(a *Analysis, ip *interp) {
	prev := ip.call
	whole := func(v AV) bool { return v.S == pairX || v.S == pairY || v.K == 'c' || v.K == 'n' }
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		cc := c.Common()
		name := callName(cc, g)
		rs := cc.Signature().Results()
		var l []AV
		lib := false
		switch {
		case cc.IsInvoke() && name == "CompareTo" && len(args) == 2:
			l = args
		case cc.IsInvoke() && name == "deepCompare" && len(args) == 3:
			l = []AV{args[0], args[2]}
		case g != nil && a.comparers()[g]:
			for i, p := range g.Params {
				if _, ok := p.Type().Underlying().(*types.Interface); ok && i < len(args) {
					l = append(l, args[i])
				}
			}
		case g != nil && (!a.p.inModule(g) || g.Blocks == nil) && (strings.HasPrefix(name, "Compare") || strings.HasPrefix(name, "Cmp")) && len(args) == 2 && rs.Len() == 1:
			l, lib = args, true
		}
		if len(l) != 2 || !lib && whole(l[0]) && whole(l[1]) {
			return prev(st, c, g, args)
		}
		var outs []iout
		x, y := AV{K: 's', S: "cmp " + l[0].S}, AV{K: 's', S: "cmp " + l[1].S}
		if lib {
			x.S, y.S = l[0].S, l[1].S
		}
		lt, gt, eq := relAV(token.LSS, x, y, types.Typ[types.Bool]), relAV(token.LSS, y, x, types.Typ[types.Bool]), relAV(token.EQL, x, y, types.Typ[types.Bool])
		ip.note(lt, token.LSS, x, y)
		ip.note(gt, token.LSS, y, x)
		ip.note(eq, token.EQL, x, y)
		for v := -1; v <= 2; v++ {
			if lib && v == 2 {
				continue
			}
			s := st.clone()
			known := false
			for k, b := range map[string]bool{lt.S: v == -1, gt.S: v == 1, eq.S: v == 0} {
				if o, ok := s.rel[k]; ok && o != b {
					known = true
				}
				s.rel[k] = b
			}
			if known {
				continue
			}
			switch {
			case lib:
				outs = append(outs, iout{st: s, res: []AV{ip.integer(int64(v), rs.At(0).Type())}})
			case v == 2:
				outs = append(outs, iout{st: s, res: []AV{ip.integer(0, rs.At(0).Type()), ip.boolean(false)}})
			default:
				outs = append(outs, iout{st: s, res: []AV{ip.integer(int64(v), rs.At(0).Type()), ip.boolean(true)}})
			}
		}
		return outs, true
	}
}

// cmpOut is an outcome of a comparison.
type cmpOut struct {
	ord, swap *ordering
	sign      int
	ok        bool
	known     bool
	konst     func(s string) constant.Value
}

func (o cmpOut) String() string {
	switch {
	case !o.known:
		return "something that isn't known"
	case !o.ok:
		return "not comparable"
	}
	return []string{"less", "equal", "greater"}[o.sign+1]
}

func cmpOuts(r *pairRun) []cmpOut {
	var l []cmpOut
	konst := func(s string) constant.Value {
		if strings.HasPrefix(s, "c") {
			return r.ip.consts[s[1:]]
		}
		return nil
	}
	add := func(st *ist, v AV, ok bool) {
		o := cmpOut{ord: r.orderingOf(st, false), swap: r.orderingOf(st, true), ok: ok, known: true, konst: konst}
		if ok {
			switch {
			case v.K == 'c':
				o.sign = constant.Sign(r.ip.consts[v.S])
			case r.ip.rels[v.S].op == token.SUB && r.narrow(r.ip.rels[v.S].x) && r.narrow(r.ip.rels[v.S].y):
				// a difference that cannot overflow: one outcome for each sign
				d := r.ip.rels[v.S]
				for s, m := range map[int]int{-1: ordLT, 0: ordEQ, 1: ordGT} {
					n := cmpOut{ord: r.orderingOf(st, false), swap: r.orderingOf(st, true), ok: true, known: true, sign: s, konst: konst}
					x, y := string(d.x.K)+d.x.S, string(d.y.K)+d.y.S
					n.ord.restrict(x, y, m)
					n.swap.restrict(pairSwap(x), pairSwap(y), m)
					l = append(l, n)
				}
				return
			default:
				o.known = false
			}
		}
		l = append(l, o)
	}
	for _, o := range r.outs {
		if o.exit || len(o.res) != 2 {
			continue
		}
		if b, known := r.ip.boolOf(o.st, o.res[1]); known {
			add(o.st, o.res[0], b)
			continue
		}
		y, n := o.st.clone(), o.st.clone()
		r.ip.assume(y, o.res[1], true)
		r.ip.assume(n, o.res[1], false)
		add(y, o.res[0], true)
		add(n, o.res[0], false)
	}
	return l
}

// narrow tells if the value is known to be small.
func (r *pairRun) narrow(v AV) bool {
	if strings.HasPrefix(v.S, "len(") || strings.HasPrefix(v.S, "Len(") {
		return true
	}
	return r.small[v.S]
}

func checkC08(a *Analysis, r *Report) {
	p := a.p
	cmp := p.iface("Comparable")
	var ts []types.Type
	for _, s := range p.implementers(p.iface("Value")) {
		if !abstractKind(p, s) {
			ts = append(ts, s)
		}
	}
	nilType := types.Type(nil)
	for _, s := range ts {
		if strings.HasSuffix(tname(s), "internal.nilValue") {
			nilType = s
		}
	}
	if nilType == nil {
		failf("the kind of nil wasn't found")
		return
	}
	runs := map[[2]types.Type][]cmpOut{}
	bad := map[[2]types.Type]string{}
	comparable := func(t types.Type) bool { return types.Implements(t, cmp) }
	for _, s := range ts {
		if !comparable(s) {
			continue
		}
		r.count("comparable kinds", 1)
		for _, t := range append([]types.Type{nil}, ts...) {
			x := runPairNil(a, s, t)
			if x == nil {
				continue
			}
			k := [2]types.Type{s, t}
			runs[k] = cmpOuts(x)
			r.count("pairs", 1)
			r.count("outcomes", len(x.outs))
			bad[k] = x.bad
			if x.bad == "" && len(runs[k]) == 0 {
				bad[k] = "no outcome"
			}
		}
	}
	for _, s := range ts {
		if !comparable(s) {
			continue
		}
		// nil is the lowest
		want := 1
		if s == nilType {
			want = 0
		}
		for _, n := range []types.Type{nil, nilType} {
			what := bad[[2]types.Type{s, n}]
			for _, o := range runs[[2]types.Type{s, n}] {
				if !o.known || !o.ok || o.sign != want {
					what = "it is " + o.String()
				}
			}
			id := "nil value"
			if n == nil {
				id = "Go nil"
			}
			r.ob(what == "", "nil-lowest", tname(s)+" "+id, p.fnPos(p.methodOf(s, "CompareTo")), fmt.Sprintf("comparing a %s with nil must tell that nil is less: %s", tname(s), what))
		}
	}
	for i, s := range ts {
		for j, t := range ts {
			k, rk := [2]types.Type{s, t}, [2]types.Type{t, s}
			switch {
			case !comparable(s) || comparable(t) && j < i:
				continue
			case t == nilType:
				continue // covered above
			}
			pos := p.fnPos(p.methodOf(s, "CompareTo"))
			what := bad[k]
			if s == nilType {
				for _, o := range runs[k] {
					if !o.known || !o.ok || o.sign >= 0 {
						what = "nil is " + o.String()
					}
				}
				r.ob(what == "", "nil-lowest", tname(t), pos, fmt.Sprintf("nil must be less than a %s: %s", tname(t), what))
				continue
			}
			if !comparable(t) {
				for _, o := range runs[k] {
					if o.ok || !o.known {
						what = "it may be " + o.String()
					}
				}
				r.ob(what == "", "agree", tname(s)+" "+tname(t), pos, fmt.Sprintf("a %s cannot be compared with a %s, so the opposite must not be possible: %s", tname(t), tname(s), what))
				continue
			}
			what += bad[rk]
			n := 0
			for _, o := range runs[k] {
				if !o.known {
					what = o.String()
				}
				for _, q := range runs[rk] {
					if !o.known || !q.known || !o.ord.compatible(q.swap) {
						continue
					}
					n++
					if (o.ok != q.ok || o.ok && o.sign != -q.sign) && o.ord.consistent(q.swap, o.konst) {
						what = fmt.Sprintf("a %s is %s when compared with a %s which may at the same time be %s when compared with it", tname(s), o, tname(t), q)
						dbgf("%s %s\n  %v %v\n  %v %v", tname(s), tname(t), o.ord.rel, o.ord.facts, q.swap.rel, q.swap.facts)
					}
				}
			}
			r.count("pairs of outcomes", n)
			r.ob(what == "", "antisymmetric", tname(s)+" "+tname(t), pos, what)
			if s == t {
				what = bad[k]
				for _, o := range runs[k] {
					if o.ord.reflexive() && (!o.known || !o.ok || o.sign != 0) {
						what = "it is " + o.String()
						dbgf("self %s %v %v", tname(s), o.ord.rel, o.ord.facts)
					}
				}
				r.ob(what == "", "reflexive", tname(s), pos, fmt.Sprintf("a %s must compare as equal to itself: %s", tname(s), what))
			}
		}
	}
}

// runPairNil explores s.CompareTo(t), where a t that is nil stands for Go's nil.
func runPairNil(a *Analysis, s, t types.Type) *pairRun {
	return runPair(a, s, t, "CompareTo", func(ip *interp) { compareHook(a, ip) })
}
