package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: recursion through types and values that may contain themselves is guarded.

// guardOps maps the methods that are guarded, and those that aren't, to the operation they perform.
var guardOps = map[string]string{
	"deepEqual": "Equals", "deepHashCode": "HashCode", "deepCompare": "CompareTo",
	"DeepAssignable": "Assignable", "AssignableTo": "Assignable", "DeepInstance": "Instance",
	"Equals": "Equals", "HashCode": "HashCode", "CompareTo": "CompareTo", "Assignable": "Assignable", "Instance": "Instance",
}

// guardDeep tells which interface is implemented by what an operation may descend into.
var guardDeep = map[string]string{"Equals": "deepEqual", "HashCode": "deepEqual", "CompareTo": "deepCompare", "Assignable": "DeepAssignable", "Instance": "DeepInstance"}

var guardMethod = map[string]string{"Equals": "deepEqual", "HashCode": "deepHashCode", "CompareTo": "deepCompare", "Assignable": "DeepAssignable", "Instance": "DeepInstance"}

type guardCall struct {
	from    *ssa.Function
	to      []*ssa.Function
	op      string // for calls of methods
	in      ssa.CallInstruction
	passed  bool // the guard is passed on
	dropped bool // no guard at all is passed
	checked bool // what is descended into was looked up and found not to be in the guard
	plain   bool // the operation without a guard
}

type guards struct {
	a       *Analysis
	param   map[*ssa.Function]int // functions with a guard
	work    []*ssa.Function
	relev   map[*ssa.Function]bool
	calls   map[string]*guardCall
	outcome int
	bad     map[*ssa.Function]string
}

func (g *guards) isGuardType(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "RecursionGuard"
}

func (g *guards) isSeenType(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), g.a.p.named("dgo", "Value"))
}

func (g *guards) add(f *ssa.Function, i int) {
	if _, ok := g.param[f]; !ok && f.Blocks != nil {
		g.param[f] = i
		g.work = append(g.work, f)
	}
}

// derives collects the values that the guard flows to and registers the functions that get it.
func (g *guards) derives(f *ssa.Function) {
	der := map[ssa.Value]bool{f.Params[g.param[f]]: true}
	var fns []*ssa.Function
	var coll func(f *ssa.Function)
	coll = func(f *ssa.Function) {
		fns = append(fns, f)
		for _, x := range f.AnonFuncs {
			coll(x)
		}
	}
	coll(f)
	for ch := true; ch; {
		ch = false
		mark := func(v ssa.Value) {
			if !der[v] {
				der[v] = true
				ch = true
			}
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Store:
						if der[in.Val] {
							if al := resolveCell(in.Addr); al != nil {
								mark(al)
							}
						}
					case *ssa.Phi:
						for _, e := range in.Edges {
							if der[e] {
								mark(in)
							}
						}
					case *ssa.UnOp:
						if al := resolveCell(in.X); al != nil && der[al] {
							mark(in)
						}
					case *ssa.Slice:
						if der[in.X] {
							mark(in)
						}
					case *ssa.ChangeInterface:
						if der[in.X] {
							mark(in)
						}
					case *ssa.Call:
						cc := in.Common()
						for i, x := range cc.Args {
							if !der[x] {
								continue
							}
							if b, ok := cc.Value.(*ssa.Builtin); ok {
								if b.Name() == "append" && i == 0 {
									mark(in)
								}
								continue
							}
							if t := staticFn(cc.Value); t != nil && t.Blocks != nil && g.a.p.inModule(t) && i < len(t.Params) {
								g.add(t, i)
								if g.isGuardType(in.Type()) || g.isSeenType(in.Type()) {
									mark(in)
								}
							}
						}
						if cc.IsInvoke() && der[cc.Value] && g.isGuardType(in.Type()) {
							mark(in)
						}
					}
				}
			}
		}
	}
}

// relevant tells which functions without a guard lead to an operation of interest.
func (g *guards) relevance() {
	g.relev = map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range g.a.p.Funcs {
			if g.relev[f] || f.Blocks == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := c.Common()
					is := false
					if cc.IsInvoke() {
						is = guardOps[cc.Method.Name()] != "" && g.value(cc.Value.Type())
					} else if t := staticFn(cc.Value); t != nil {
						_, gd := g.param[t]
						is = gd && !g.hits(t) || g.relev[t]
					}
					if is {
						g.relev[f] = true
						ch = true
					}
				}
			}
		}
	}
}

func (g *guards) value(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	return i.NumMethods() > 0
}

// hits tells if f is a function that searches the guard.
func (g *guards) hits(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if _, ok := g.param[f]; !ok || rs.Len() != 1 || !types.Identical(rs.At(0).Type(), types.Typ[types.Bool]) {
		return false
	}
	if f.Signature.Recv() != nil {
		return false
	}
	var ok func(f *ssa.Function, d int) bool
	ok = func(f *ssa.Function, d int) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, is := in.(ssa.CallInstruction); is {
					cc := c.Common()
					if cc.IsInvoke() {
						return false
					}
					if t := staticFn(cc.Value); t != nil && (d > 3 || t.Blocks == nil || !ok(t, d+1)) {
						return false
					}
				}
			}
		}
		return true
	}
	return ok(f, 0)
}

// lookup tells if f is a method of maps where keys, which are frozen and hence don't contain themselves, are compared.
func (g *guards) lookup(f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil || guardOps[f.Name()] != "" {
		return false
	}
	i := g.a.p.iface("Map")
	if !types.Implements(r.Type(), i) {
		return false
	}
	for k := 0; k < i.NumMethods(); k++ {
		if i.Method(k).Name() == f.Name() {
			return true
		}
	}
	return false
}

func (g *guards) run(f *ssa.Function) {
	a := g.a
	ip := newInterp(a)
	isGuard := func(v AV) bool { return v.K == 's' && (v.S == "guard" || v.S == "guard+") }
	opOf := func(name string) string { return guardOps[name] }
	rec := func(st *ist, c ssa.CallInstruction, to []*ssa.Function, op string, recv, gv AV, plain bool) {
		k := fmt.Sprintf("%s@%d:%s", fname(f), c.Pos(), op)
		for _, t := range to {
			k += fname(t)
		}
		x := g.calls[k]
		if x == nil {
			x = &guardCall{from: f, to: to, op: op, in: c, passed: true, checked: true, plain: plain}
			g.calls[k] = x
		}
		if plain {
			return
		}
		none := st.rel["(n==sguard)"]
		own := gv.K == 'p' && strings.HasPrefix(gv.S, "@") || gv.K == 'n'
		switch {
		case isGuard(gv) || none && own:
		case gv.K == 'n':
			x.dropped = true
		default:
			x.passed = false
		}
		hit, known := st.rel["hit"]
		app := "," + st.mem["$app"].S + ","
		same := st.mem["$hit"].K == 0 || st.mem["$hit"].S == st.mem["$app"].S
		if op != "" && c.Common().IsInvoke() {
			same = same && strings.Contains(app, ","+recv.S+",")
		}
		if !known && gv.S == "guard+" {
			// the guard may be searched right here
			l := strings.Split(st.mem["$app"].S, ",")
			empty, found := false, 0
			for k, b := range st.rel {
				if !b && strings.Contains(k, "len(guard)") {
					empty = true
				}
			}
			searched := true
			for _, v := range l {
				searched = searched && st.ev["search:"+v]
				for k, b := range st.rel {
					if b && strings.Contains(k, "guard[") && strings.Contains("("+strings.Replace(k, "==", ")(", 1)+")", "s"+v+")") {
						found++
						break
					}
				}
			}
			known, hit = empty || searched, found == len(l)
		}
		if !(none && gv.K != 'n' || known && !hit && gv.S == "guard+" && same) {
			x.checked = false
		}
	}
	depth := 0
	ip.call = func(st *ist, c ssa.CallInstruction, fn *ssa.Function, args []AV) ([]iout, bool) {
		cc := c.Common()
		one := func(v AV) ([]iout, bool) { return []iout{{st: st, res: []AV{v}}}, true }
		unknown := func() ([]iout, bool) {
			for _, x := range args {
				if x.K == 'f' && ip.fns[x.S] != nil && ip.fns[x.S].Blocks != nil && a.p.inModule(ip.fns[x.S]) && depth < 3 {
					cl := ip.fns[x.S]
					var as []AV
					for i, p := range cl.Params {
						as = append(as, ip.typed(st, AV{K: 's', S: fmt.Sprintf("cb:%s#%d", fname(cl), i)}, p.Type()))
					}
					depth++
					ip.run(cl, append(as, ip.binds[x.S]...), st)
					depth--
				}
			}
			return []iout{{st: st, res: revUnknown(ip, st, c, cc.Signature())}}, true
		}
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" && len(args) > 1 && isGuard(args[0]) {
				st.mem["$app"] = AV{K: 's', S: appended(st, args[1])}
				return one(AV{K: 's', S: "guard+", T: args[0].T})
			}
			return nil, false
		}
		name := ""
		switch {
		case cc.IsInvoke():
			name = cc.Method.Name()
		case fn != nil:
			name = fn.Name()
		}
		if len(args) > 0 && (isGuard(args[0]) || g.isGuardType(recvType(cc))) {
			switch name {
			case "Append":
				delete(st.rel, "hit")
				delete(st.mem, "$hit")
				l := []string{args[1].S, args[2].S}
				st.mem["$app"] = AV{K: 's', S: strings.Join(l, ",")}
				return one(AV{K: 's', S: "guard+"})
			case "Swap":
				return one(args[0])
			case "Hit":
				return one(AV{K: 's', S: "hit"})
			}
		}
		if fn != nil {
			if i, ok := g.param[fn]; ok && i < len(args) {
				if g.hits(fn) && isGuard(args[i]) {
					var l []string
					for j, x := range args {
						if j != i {
							l = append(l, x.S)
						}
					}
					st.mem["$hit"] = AV{K: 's', S: strings.Join(l, ",")}
					return one(AV{K: 's', S: "hit"})
				}
				if rt := cc.Signature().Results(); rt.Len() == 1 && (g.isGuardType(rt.At(0).Type()) || g.isSeenType(rt.At(0).Type())) {
					return nil, false
				}
				op := ""
				if fn.Signature.Recv() != nil {
					op = opOf(name)
				}
				rec(st, c, []*ssa.Function{fn}, op, args[0], args[i], false)
				return unknown()
			}
		}
		if cc.IsInvoke() && args[0].T == nil {
			op := opOf(name)
			if op == "" || !g.value(cc.Value.Type()) {
				return unknown()
			}
			to, _ := a.p.callees(cc)
			gi := -1
			for i := 0; i < cc.Signature().Params().Len(); i++ {
				if t := cc.Signature().Params().At(i).Type(); g.isGuardType(t) || i == 0 && g.isSeenType(t) {
					gi = i + 1
				}
			}
			if gi >= 0 {
				rec(st, c, to, op, args[0], args[gi], false)
				return unknown()
			}
			for k, b := range st.rel {
				if !b && strings.HasPrefix(k, "is:") && strings.HasSuffix(k, guardDeep[op]+":"+args[0].S) {
					return unknown()
				}
			}
			if args[0].K != 's' {
				return unknown()
			}
			rec(st, c, nil, op, args[0], unknownAV, true)
			return unknown()
		}
		if fn != nil && fn.Blocks != nil && a.p.inModule(fn) && g.relev[fn] && !g.lookup(fn) && fn.Name() != "Value" {
			return nil, false
		}
		return unknown()
	}
	ip.inline = func(fn *ssa.Function) bool { return a.p.inModule(fn) }
	ip.binop = func(st *ist, in *ssa.BinOp, x, y AV) (AV, bool) {
		if strings.HasPrefix(y.S, "guard[") {
			x, y = y, x
		}
		if strings.HasPrefix(x.S, "guard[") && (in.Op == token.EQL || in.Op == token.NEQ) {
			st.ev["search:"+y.S] = true
		}
		return AV{}, false
	}
	ip.backEdge = func(st *ist, from, to *ssa.BasicBlock) bool {
		// what was found out about the elements of one turn doesn't matter in the next
		for k := range st.rel {
			if (!strings.Contains(k, "guard") || strings.Contains(k, "guard[")) && k != "hit" && !strings.HasPrefix(k, "is:") {
				delete(st.rel, k)
			}
		}
		for k, v := range st.env {
			if v.K == 'c' && ip.consts[v.S].Kind() == constant.Int {
				st.env[k] = unknownAV
			}
		}
		return true
	}
	st := newIst()
	var args []AV
	for i, p := range f.Params {
		v := AV{K: 's', S: p.Name()}
		switch {
		case i == g.param[f]:
			v.S = "guard"
		case i == 0 && f.Signature.Recv() != nil:
			v.S, v.T = "t", canonOrNil(p.Type())
		default:
			v = ip.typed(st, AV{K: 's', S: fmt.Sprint("arg", i)}, p.Type())
		}
		args = append(args, v)
	}
	for range ip.run(f, args, st) {
		g.outcome++
	}
	if ip.bad != "" {
		g.bad[f] = ip.bad
	}
}

// appended yields the values that are passed as a variable number of arguments.
func appended(st *ist, v AV) string {
	var l []string
	for i := 0; ; i++ {
		x, ok := st.mem[fmt.Sprintf("%s[%d]", v.S, i)]
		if !ok {
			return strings.Join(l, ",")
		}
		l = append(l, x.S)
	}
}

func recvType(cc *ssa.CallCommon) types.Type {
	if cc.IsInvoke() {
		return cc.Value.Type()
	}
	if r := cc.Signature().Recv(); r != nil {
		return r.Type()
	}
	return types.Typ[types.Invalid]
}

func checkC14(a *Analysis, r *Report) {
	p := a.p
	r.Rules = []string{
		"passed: every function that is given a recursion guard passes it, or what it derives from it (Append, Swap, append), to every function that takes one; a new guard is started only when there is none",
		"kept: no function that has a guard performs, on something that may be deep, an operation without the guard which may lead back to its own operation",
		"checked: every cycle of calls between functions with a guard passes a call where the values were added to the guard and the guard was found not to contain them already",
		"untouched: Append, Swap and Hit write to nothing that existed before the call",
		"pair: the guard is hit when the same values have been paired before, not when each has been seen on its own",
	}
	g := &guards{a: a, param: map[*ssa.Function]int{}, calls: map[string]*guardCall{}, bad: map[*ssa.Function]string{}}
	for _, f := range p.Funcs {
		if f.Blocks == nil || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		for i, x := range f.Params {
			if g.isGuardType(x.Type()) && !(i == 0 && f.Signature.Recv() != nil) {
				g.add(f, i)
			}
		}
		if f.Signature.Recv() != nil && len(f.Params) > 1 && g.isSeenType(f.Params[1].Type()) {
			switch guardOps[f.Name()] {
			case "":
			default:
				g.add(f, 1)
			}
		}
	}
	for len(g.work) > 0 {
		f := g.work[0]
		g.work = g.work[1:]
		g.derives(f)
	}
	g.relevance()
	var fs []*ssa.Function
	for f := range g.param {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		if g.hits(f) {
			guardHits(a, r, f, g.param[f])
		} else {
			g.run(f)
		}
		r.ob(g.bad[f] == "", "decided", fname(f), p.pos(f.Pos()), g.bad[f])
	}
	r.count("functions with a guard", len(fs))
	r.count("outcomes", g.outcome)
	guardPlain(a, r, g)
	var ks []string
	for k := range g.calls {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	// the operations that functions are part of
	ops := map[*ssa.Function]map[string]bool{}
	for _, f := range fs {
		ops[f] = map[string]bool{}
		if f.Signature.Recv() != nil && guardOps[f.Name()] != "" {
			ops[f][guardOps[f.Name()]] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, k := range ks {
			c := g.calls[k]
			for _, t := range c.to {
				if (t.Signature.Recv() == nil || guardOps[t.Name()] == "") && !c.dropped {
					for o := range ops[c.from] {
						if ops[t] != nil && !ops[t][o] {
							ops[t][o] = true
							ch = true
						}
					}
				}
			}
		}
	}
	// a function that is used by one operation only is part of that one
	edges := map[string]map[string]bool{}
	next := map[*ssa.Function]map[*ssa.Function]*guardCall{}
	for _, k := range ks {
		c := g.calls[k]
		to := map[string]bool{}
		if c.op != "" {
			to[c.op] = true
		}
		for o := range ops[c.from] {
			if edges[o] == nil {
				edges[o] = map[string]bool{}
			}
			for x := range to {
				edges[o][x] = true
			}
			if c.op == "" {
				for x := range ops[c.to[0]] {
					edges[o][x] = true
				}
			}
		}
		if !c.plain && !c.checked {
			if next[c.from] == nil {
				next[c.from] = map[*ssa.Function]*guardCall{}
			}
			for _, t := range c.to {
				next[c.from][t] = c
			}
		}
	}
	reach := func(from, to string) bool {
		seen := map[string]bool{}
		var walk func(x string) bool
		walk = func(x string) bool {
			if x == to {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for y := range edges[x] {
				if walk(y) {
					return true
				}
			}
			return false
		}
		return walk(from)
	}
	for _, k := range ks {
		c := g.calls[k]
		what := c.op
		if what == "" {
			what = fname(c.to[0])
		}
		con := fname(c.from) + " " + what
		if c.plain || c.dropped {
			bad := ""
			to := map[string]bool{}
			if c.op != "" {
				to[c.op] = true
			} else {
				to = ops[c.to[0]]
			}
			for o := range ops[c.from] {
				for x := range to {
					if reach(x, o) {
						bad = o
					}
				}
			}
			dbgf("plain %s bad=%q\n", k, bad)
			r.count("operations without a guard", 1)
			r.ob(bad == "", "kept", con, p.instrPos(c.in), fmt.Sprintf("%s has a recursion guard but uses %s without one on something that may be deep", fname(c.from), what))
			if c.plain {
				continue
			}
		}
		dbgf("call %s passed=%v checked=%v\n", k, c.passed, c.checked)
		r.count("guarded calls", 1)
		r.ob(c.passed, "passed", con, p.instrPos(c.in), fmt.Sprintf("%s doesn't pass its recursion guard on to %s", fname(c.from), what))
	}
	// cycles without a check
	color := map[*ssa.Function]int{}
	var cyc []string
	var walk func(f *ssa.Function, path []string)
	walk = func(f *ssa.Function, path []string) {
		color[f] = 1
		var ts []*ssa.Function
		for t := range next[f] {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return fname(ts[i]) < fname(ts[j]) })
		for _, t := range ts {
			switch color[t] {
			case 0:
				walk(t, append(path, fname(t)))
			case 1:
				i := 0
				for i < len(path) && path[i] != fname(t) {
					i++
				}
				cyc = append(cyc, strings.Join(append(path[i:], fname(t)), " -> "))
			}
		}
		color[f] = 2
	}
	for _, f := range fs {
		if color[f] == 0 {
			walk(f, []string{fname(f)})
		}
	}
	for _, c := range cyc {
		r.ob(false, "checked", c, "", "a cycle of calls that never looks at the recursion guard: "+c)
	}
	r.ob(len(cyc) == 0, "checked", "all cycles", "", "")
	guardImpl(a, r)
	r.atLeast("functions with a guard", 60)
	r.atLeast("guarded calls", 80)
}

// guardPlainOK lists the types that aren't deep although their operations use the one of their content, and why that
// content cannot contain the value itself.
var guardPlainOK = map[string]string{
	"*internal.exactType":        "the exact type of values that have no content",
	"*internal.exactBinaryType":  "as above",
	"*internal.exactBooleanType": "as above",
	"*internal.exactErrorType":   "as above",
	"*internal.exactFloatType":   "as above",
	"*internal.exactIntegerType": "as above",
	"*internal.exactNamed":       "the exact type of a value of a named type, which isn't a collection",
	"*internal.exactRegexpType":  "as exactType",
	"*internal.exactStringType":  "as exactType",
	"*internal.exactTimeType":    "as exactType",
	"*internal.ciStringType":     "the exact type of a string",
	"*internal.mapKeyError":      "an error, created for values that exist already",
	"*internal.typeError":        "an error, created for values that exist already",
	"*internal.sizeError":        "an error, created for values that exist already",
	"*internal.parameterized":    "its parameters are immutable values",
	"*internal.metaType":         "Assignable uses the type that it is the type of",
	"*internal.named":            "asks for the type of a Go type",
	"*internal.nativeType":       "asks for the type of a Go type",
	"*internal.native":           "the hash code is computed from a snapshot of Go values",
	"*loader.childLoader":        "loaders form a tree",
	"*loader.loader":             "loaders form a tree",
	"*loader.mapLoader":          "loaders form a tree",
}

// guardPlain checks the operations of types that aren't deep.
func guardPlain(a *Analysis, r *Report, g *guards) {
	p := a.p
	saved := g.calls
	for _, t := range p.implementers(p.iface("Value")) {
		if guardPlainOK[tname(t)] != "" {
			continue
		}
		for _, m := range []string{"Equals", "HashCode", "CompareTo", "Assignable", "Instance"} {
			f := p.methodOf(t, m)
			if f == nil || f.Blocks == nil || p.methodOf(t, guardMethod[m]) != nil {
				continue
			}
			if _, ok := g.param[f]; ok {
				continue
			}
			g.calls = map[string]*guardCall{}
			g.param[f] = -1
			g.run(f)
			delete(g.param, f)
			r.count("operations of types that are not deep", 1)
			r.ob(g.bad[f] == "", "decided", fname(f), p.pos(f.Pos()), g.bad[f])
			for _, c := range g.calls {
				// asking another type about this one is how that one gets to say something
				r.ob(!c.plain || c.op != m, "deep", tname(t)+"."+m, p.instrPos(c.in), fmt.Sprintf("%s uses %s of what it consists of, but has no method %s that is given a recursion guard", fname(f), c.op, guardMethod[m]))
			}
		}
	}
	g.calls = saved
}

// guardImpl checks the implementations of the recursion guard and the functions that search it.
func guardImpl(a *Analysis, r *Report) {
	p := a.p
	ts := p.implementers(p.iface("RecursionGuard"))
	r.count("recursion guards", len(ts))
	r.atLeast("recursion guards", 1)
	for _, t := range ts {
		guardImplOf(a, r, t)
	}
}

// guardEv tells what is known about the values that were appended: which elements of what they were found to be equal
// to in st.
func guardEv(st *ist) (as, bs map[string]bool, noB bool) {
	as, bs = map[string]bool{}, map[string]bool{}
	for k, b := range st.rel {
		if !b {
			continue
		}
		if k == "(n==sb)" {
			noB = true
		}
		x, y, ok := strings.Cut(strings.Trim(k, "()"), "==")
		if !ok {
			continue
		}
		for i := 0; i < 2; i++ {
			switch x {
			case "sa":
				as[y] = true
			case "sb":
				bs[y] = true
			}
			x, y = y, x
		}
	}
	return
}

func guardImplOf(a *Analysis, r *Report, t types.Type) {
	p := a.p
	ap, hit, swap := p.methodOf(t, "Append"), p.methodOf(t, "Hit"), p.methodOf(t, "Swap")
	st, _ := deref(t).Underlying().(*types.Struct)
	if st == nil || ap == nil || hit == nil || swap == nil {
		r.ob(false, "pair", tname(t), "", "a recursion guard that isn't a struct cannot be decided")
		return
	}
	type field struct {
		name string
		flag bool
	}
	var fields []field
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		b, ok := f.Type().Underlying().(*types.Basic)
		fields = append(fields, field{f.Name(), ok && b.Info()&types.IsBoolean != 0})
	}
	ip := newInterp(a)
	ip.inline = func(f *ssa.Function) bool { return p.inModule(f) }
	ip.slice = func(st *ist, in *ssa.Slice, x AV) (AV, bool) {
		if x.K == 's' && in.Low == nil && strings.HasPrefix(x.S, "s.") {
			return x, true
		}
		return x, false
	}
	ip.call = func(st *ist, c ssa.CallInstruction, fn *ssa.Function, args []AV) ([]iout, bool) {
		if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" && len(args) == 2 {
			return []iout{{st: st, res: []AV{{K: 's', S: "app(" + args[0].S + ")," + appended(st, args[1]) + ",", T: args[0].T}}}}, true
		}
		if fn != nil && fn.Signature.Recv() == nil && len(args) > 1 && strings.HasPrefix(args[0].S, "s.") && fn.Signature.Results().Len() == 1 {
			if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
				l := ""
				for _, x := range args[1:] {
					l += x.S + ","
				}
				return []iout{{st: st, res: []AV{{K: 's', S: "app(" + args[0].S + ")," + l, T: args[0].T}}}}, true
			}
		}
		return nil, false
	}
	init := func() *ist {
		s := newIst()
		for _, f := range fields {
			if f.flag {
				s.mem["s."+f.name] = ip.boolean(false)
			}
		}
		return s
	}
	val := func(o iout, f string) AV { return ip.read(o.st, o.res[0].S+"."+f, nil) }
	wrote := map[*ssa.Function]string{}
	touched := func(f *ssa.Function, o iout) {
		bad := ""
		for k, v := range o.st.mem {
			n, ok := strings.CutPrefix(k, "s.")
			if !ok {
				continue
			}
			if b, known := ip.boolOf(o.st, v); known && !b && !strings.ContainsAny(n, ".[") {
				continue
			}
			bad = fmt.Sprintf("%s writes %s of the guard, which is used by those that hold it already", fname(f), n)
		}
		if bad != "" {
			wrote[f] = bad
		}
	}
	// where a and b are looked for, and the flags that are set for each
	la, lb := map[string]bool{}, map[string]bool{}
	fa, fb := map[string]bool{}, map[string]bool{}
	base := func(k string) string {
		k = strings.TrimPrefix(strings.TrimPrefix(k, "s"), "s.")
		return strings.TrimLeft(k[:strings.IndexAny(k+"[", "[.")], ".")
	}
	outs := ip.run(ap, []AV{{K: 's', S: "s", T: t}, {K: 's', S: "a"}, {K: 's', S: "b"}}, init())
	for _, o := range outs {
		if o.exit {
			continue
		}
		as, bs, noB := guardEv(o.st)
		if noB {
			continue
		}
		for k := range as {
			la[base(k)] = true
		}
		for k := range bs {
			lb[base(k)] = true
		}
		for _, f := range fields {
			if b, known := ip.boolOf(o.st, val(o, f.name)); f.flag && known && b {
				if len(bs) == 0 {
					fa[f.name] = true
				}
				if len(as) == 0 {
					fb[f.name] = true
				}
			}
		}
	}
	lossy, hits, unpaired := "", "", ""
	n := 0
	for _, o := range outs {
		if o.exit || len(o.res) != 1 {
			continue
		}
		n++
		touched(ap, o)
		as, bs, noB := guardEv(o.st)
		had := func(x string, ls map[string]bool, ev map[string]bool) bool {
			if len(ev) > 0 {
				return true
			}
			for _, f := range fields {
				if s := val(o, f.name).S; strings.HasPrefix(s, "app(s."+f.name+"),") && strings.Contains(s, ","+x+",") && (noB || ls[f.name]) {
					return true
				}
			}
			return false
		}
		if !had("a", la, as) || !noB && !had("b", lb, bs) {
			lossy = fname(ap) + " doesn't remember the value that it is given where it is looked for later on"
		}
		for _, h := range ip.run(hit, []AV{o.res[0]}, o.st) {
			if h.exit {
				continue
			}
			touched(hit, h)
			if b, known := ip.boolOf(h.st, h.res[0]); known && !b {
				continue
			}
			if len(as) == 0 || len(bs) == 0 && !noB {
				hits = fname(hit) + " answers yes although not both of the values have been appended before"
			}
			if !noB && !paired(as, bs) {
				unpaired = fname(hit) + " answers yes when each of the values has been appended before, although not together"
			}
		}
	}
	bad := ""
	for _, o := range ip.run(swap, []AV{{K: 's', S: "s", T: t}}, newIst()) {
		if o.exit || len(o.res) != 1 {
			continue
		}
		touched(swap, o)
		n++
		chk := func(x, y map[string]bool) {
			for f := range x {
				if y[f] {
					continue
				}
				ok := false
				for g := range y {
					if !x[g] && val(o, f).S == "s."+g {
						ok = true
					}
				}
				if !ok {
					bad = fmt.Sprintf("%s doesn't exchange %s with its counterpart", fname(swap), f)
				}
			}
		}
		chk(la, lb)
		chk(lb, la)
		chk(fa, fb)
		chk(fb, fa)
	}
	dbgf("guard %s lists %v %v flags %v %v outcomes %d\n", tname(t), la, lb, fa, fb, n)
	for _, m := range []*ssa.Function{ap, hit, swap} {
		r.ob(wrote[m] == "", "untouched", fname(m), p.pos(m.Pos()), wrote[m])
	}
	r.count("outcomes of guards", n)
	r.ob(ip.bad == "" && n > 3, "decided", tname(t), p.pos(ap.Pos()), "cannot be decided: "+ip.bad)
	r.ob(lossy == "" && len(la) > 0 && len(lb) > 0, "remembers", tname(t), p.pos(ap.Pos()), lossy)
	r.ob(hits == "", "both", tname(t), p.pos(hit.Pos()), hits)
	r.ob(unpaired == "", "pair", tname(t), p.pos(hit.Pos()), unpaired)
	r.ob(bad == "", "swap", tname(t), p.pos(swap.Pos()), bad)
}

// paired tells if a and b were found to be equal to values that are next to each other in a list of pairs, or that are
// parts of the same element.
func paired(as, bs map[string]bool) bool {
	for x := range as {
		for y := range bs {
			i, j := strings.LastIndex(x, "["), strings.LastIndex(y, "[")
			if i < 0 || i != j || x[:i] != y[:i] {
				continue
			}
			var p, q int
			var u, v string
			if k, _ := fmt.Sscanf(x[i:], "[%d]%s", &p, &u); k == 0 {
				continue
			}
			if k, _ := fmt.Sscanf(y[i:], "[%d]%s", &q, &v); k == 0 {
				continue
			}
			if p == q && u != v || p+1 == q && p%2 == 0 {
				return true
			}
		}
	}
	return false
}

// guardHits checks a function that searches the guard.
func guardHits(a *Analysis, r *Report, f *ssa.Function, gi int) {
	ip := newInterp(a)
	ip.inline = func(f *ssa.Function) bool { return a.p.inModule(f) }
	var args []AV
	names := []string{"a", "b"}
	n := 0
	for i := range f.Params {
		if i == gi {
			args = append(args, AV{K: 's', S: "guard"})
		} else {
			if n < 2 {
				args = append(args, AV{K: 's', S: names[n]})
			}
			n++
		}
	}
	bad := ""
	yes := 0
	for _, o := range ip.run(f, args, newIst()) {
		if o.exit {
			continue
		}
		b, known := ip.boolOf(o.st, o.res[0])
		if known && !b {
			continue
		}
		as, bs, _ := guardEv(o.st)
		far := false
		for k := range as {
			far = far || strings.Contains(k, "[?]")
		}
		for k := range bs {
			far = far || strings.Contains(k, "[?]")
		}
		if far {
			continue // deeper than what is kept apart
		}
		yes++
		if len(as) == 0 || n == 2 && !paired(as, bs) {
			bad = fname(f) + " finds values in the guard that were not added to it together"
		}
	}
	r.count("functions that search a guard", 1)
	r.ob(bad == "" && ip.bad == "" && yes > 0 && n <= 2, "pair", fname(f), a.p.pos(f.Pos()), bad+ip.bad)
}
