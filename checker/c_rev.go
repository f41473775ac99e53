package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C13: every type lets a type that decides assignability itself (dgo.ReverseAssignable) do so before it answers no.

func (p *Prog) reverseTypes() []types.Type { return p.implementers(p.iface("ReverseAssignable")) }

// revRun explores an assignability method of t for an argument of type o and returns the reasons why it may answer no
// without having asked.
func revRun(a *Analysis, f *ssa.Function, t, o types.Type) (bad []string, outcomes int, undecided string) {
	ip := newInterp(a)
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) }
	fam := map[string]bool{"Assignable": true, "DeepAssignable": true}
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		cc := c.Common()
		name := ""
		switch {
		case cc.IsInvoke():
			name = cc.Method.Name()
		case g != nil && g.Signature.Recv() != nil:
			name = g.Name()
		default:
			if g == nil || !a.p.inModule(g) {
				return nil, false
			}
			// a helper is of interest when it gets the other type
			for _, x := range args {
				if x.S == "other" && (x.K == 's' || x.K == 'p') {
					return nil, false
				}
			}
			return []iout{{st: st, res: revUnknown(ip, st, c, cc.Signature())}}, true
		}
		at := func(i int) AV {
			if i >= 0 && i < len(args) {
				return args[i]
			}
			return unknownAV
		}
		last := at(len(args) - 1)
		res := func() []iout {
			r := revUnknown(ip, st, c, cc.Signature())
			return []iout{{st: st, res: r}}
		}
		mine := func(v AV) bool { return (v.K == 's' || v.K == 'p') && (v.S == "t" || strings.HasPrefix(v.S, "t.")) }
		switch {
		case name == "Hit" && len(args) == 1:
			// recursion is the subject of C14
			return []iout{{st: st, res: []AV{ip.boolean(false)}}}, true
		case name == "AssignableTo" && at(0).S == "other":
			r := res()
			if mine(last) {
				st.ev["asked"] = true
				st.ev["by:"+r[0].res[0].S] = true
			}
			return r, true
		case fam[name] && last.S == "other":
			if at(0).S == "t" {
				return nil, false
			}
			if g != nil && g.Blocks != nil && at(0).T != nil && mine(at(0)) {
				return nil, false // a part whose type is known
			}
			r := res()
			st.ev["deleg:"+r[0].res[0].S] = true
			if mine(at(0)) && !strings.ContainsAny(at(0).S, "[") {
				st.ev["wrapped"] = true
			}
			return r, true
		case fam[name] && at(0).S == "t":
			// it breaks the other type into parts on its own
			r := res()
			if strings.HasPrefix(last.S, "other.") {
				st.ev["parts"] = true
			}
			return r, true
		}
		for _, x := range args {
			if (x.S == "other" || x.S == "t") && g != nil && name != "Equals" && name != "String" && name != "Type" {
				return nil, false
			}
		}
		return res(), true
	}
	asserted := map[string]bool{}
	ip.asserted = func(st *ist, in *ssa.TypeAssert, x AV, ok bool) {
		if ok && x.S == "other" {
			if _, isI := in.AssertedType.Underlying().(*types.Interface); !isI {
				asserted[in.Parent().String()] = true
				st.ev["known"] = true
			}
		}
	}
	st := newIst()
	st.dyn["t"] = t
	st.dyn["other"] = o
	var args []AV
	for i, p := range f.Params {
		switch {
		case i == 0:
			args = append(args, AV{K: 's', S: "t", T: t})
		case i == len(f.Params)-1:
			args = append(args, AV{K: 's', S: "other", T: o})
		default:
			args = append(args, AV{K: 's', S: "guard"}.typedNil(p))
		}
	}
	seen := map[string]bool{}
	for _, out := range ip.run(f, args, st) {
		if out.exit || revSame(out.st) {
			continue
		}
		outcomes++
		if len(out.res) != 1 {
			continue
		}
		v := out.res[0]
		ev := out.st.ev
		if v.K == 'c' {
			if k := ip.consts[v.S]; k.Kind() == constant.Bool && constant.BoolVal(k) {
				continue
			}
		}
		no := v.K == 'c'
		s := strings.TrimPrefix(v.S, "!")
		var ok bool
		switch {
		case ev["asked"]:
			// the answer isn't ignored
			ok = no || ev["by:"+s]
			if no {
				// no after a yes?
				for e := range ev {
					if by, is := strings.CutPrefix(e, "by:"); is {
						if b, known := out.st.rel[by]; !known || b {
							ok = false
						} else {
							ok = true
						}
					}
				}
			} else if !ok && ev["known"] {
				ok = true
			}
		case ev["deleg:"+s] && ev["wrapped"]:
			ok = true
		case ev["wrapped"]:
			ok = true
		case ev["known"]:
			ok = !no || ev["parts"] || revDepends(out.st)
		case ev["deleg:"+s] && !no:
			ok = false
		}
		if !ok {
			m := fmt.Sprintf("it answers %s", map[bool]string{true: "no", false: strings.TrimPrefix(v.S, "!")}[no])
			if !seen[m] {
				seen[m] = true
				bad = append(bad, m)
			}
		}
	}
	sort.Strings(bad)
	return bad, outcomes, ip.bad
}

// revSame tells if the other type was found to be identical to this type or a part of it.
func revSame(st *ist) bool {
	for k, b := range st.rel {
		if b && (strings.HasPrefix(k, "(st") || strings.HasPrefix(k, "(sother==st")) && strings.Contains(k, "==") && strings.Contains(k, "sother") {
			return true
		}
	}
	return false
}

// revDepends tells if the state was reached after the content of the other type was consulted.
func revDepends(st *ist) bool {
	for k := range st.rel {
		if strings.Contains(k, "other.") {
			return true
		}
	}
	return false
}

func revUnknown(ip *interp, st *ist, c ssa.CallInstruction, sig *types.Signature) []AV {
	var res []AV
	f := c.Parent()
	nm := "call"
	if v, ok := c.(ssa.Value); ok {
		nm = v.Name()
	}
	for i := 0; i < sig.Results().Len(); i++ {
		v := AV{K: 's', S: fmt.Sprintf("r:%d:%s:%s#%d", len(ip.stack), fname(f), nm, i)}
		delete(st.rel, v.S)
		delete(st.dyn, v.S)
		res = append(res, ip.typed(st, v, sig.Results().At(i).Type()))
	}
	return res
}

// typedNil keeps a symbol as it is, unless its parameter's type is known.
func (v AV) typedNil(p *ssa.Parameter) AV {
	v.T = canonOrNil(p.Type())
	return v
}

func checkC13(a *Analysis, r *Report) {
	p := a.p
	r.Rules = []string{
		"asked: for each type T and each type O that implements dgo.ReverseAssignable, every path of T.Assignable and T.DeepAssignable given an O that doesn't answer yes calls AssignableTo on the O (with T), and returns its answer, or works through the parts of the O, or hands the O to the one type that T wraps",
	}
	ts := p.implementers(p.iface("Type"))
	r.Rules = append(r.Rules, "family: the unconstrained type of a kind (each constant internal.Default...Type) answers yes, on every path, for every type whose instances are represented in the same way: the same Go type, or dgo.ArrayType, or dgo.MapType")
	r.Rules = append(r.Rules, "say: a combined type's AssignableTo consults its parts one by one with no part left out; for any of and one of it answers yes if every part (and at least one) is assignable, otherwise no; for all of it answers yes if every part is, and no if none is")
	os := p.reverseTypes()
	n := 0
	for _, t := range ts {
		for _, m := range []string{"Assignable", "DeepAssignable"} {
			f := p.methodOf(t, m)
			if f == nil || f.Blocks == nil {
				continue
			}
			for _, o := range os {
				bad, outs, und := revRun(a, f, t, o)
				n++
				r.count("outcomes", outs)
				c := fmt.Sprintf("%s.%s <- %s", tname(t), m, tname(o))
				switch {
				case und != "":
					r.ob(false, "asked", c, p.pos(f.Pos()), "cannot be decided: "+und)
				default:
					r.ob(len(bad) == 0, "asked", c, p.pos(f.Pos()), fmt.Sprintf("%s given a %s: %s without asking it (AssignableTo)", fname(f), tname(o), strings.Join(bad, ", ")))
				}
			}
		}
	}
	revSay(a, r, os)
	revFamilies(a, r, ts)
	r.count("types", len(ts))
	r.count("reverse assignable types", len(os))
	r.count("pairs", n)
	r.atLeast("types", 35)
	r.atLeast("reverse assignable types", 4)
	r.Assumptions = append(r.Assumptions, "types implemented outside of the module are not considered")
}

// reflectOf tells which package level variable t's method ReflectType returns, if it always is the same one.
func reflectOf(a *Analysis, t types.Type) string {
	f := a.p.methodOf(t, "ReflectType")
	if f == nil || f.Blocks == nil {
		return ""
	}
	ip := newInterp(a)
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) && g.Signature.Recv() != nil }
	st := newIst()
	st.dyn["t"] = t
	s := ""
	for _, o := range ip.run(f, []AV{{K: 's', S: "t", T: t}}, st) {
		if o.exit {
			continue
		}
		if len(o.res) != 1 || o.res[0].K != 's' || s != "" && s != o.res[0].S {
			return ""
		}
		s = o.res[0].S
	}
	if !strings.HasPrefix(s, modPath) {
		return ""
	}
	return s
}

func revFamilies(a *Analysis, r *Report, ts []types.Type) {
	p := a.p
	sc := p.SPkgs["internal"].Pkg.Scope()
	of := map[types.Type]string{}
	for _, o := range ts {
		of[o] = reflectOf(a, o)
	}
	anyS := reflectOf(a, sc.Lookup("DefaultAnyType").Type())
	for _, name := range sc.Names() {
		c, ok := sc.Lookup(name).(*types.Const)
		if !ok || !c.Exported() || !strings.HasPrefix(name, "Default") || !strings.HasSuffix(name, "Type") || name == "DefaultDgoStringType" {
			continue // the type dgo is a constrained string
		}
		t := canonType(c.Type())
		f := p.methodOf(t, "Assignable")
		if f == nil || f.Blocks == nil {
			continue
		}
		var fam *types.Interface
		for _, n := range []string{"ArrayType", "MapType"} {
			if i := p.iface(n); types.Implements(t, i) {
				fam = i
			}
		}
		mine := reflectOf(a, t)
		if fam == nil && (mine == "" || mine == anyS) {
			continue
		}
		r.count("unconstrained types", 1)
		for _, o := range ts {
			if fam != nil && !types.Implements(o, fam) || fam == nil && of[o] != mine {
				continue
			}
			ip := newInterp(a)
			ip.inline = func(g *ssa.Function) bool { return p.inModule(g) }
			st := newIst()
			st.dyn["other"] = o
			bad := ""
			for _, out := range ip.run(f, []AV{ip.konst(c.Val(), t), {K: 's', S: "other", T: o}}, st) {
				if out.exit {
					continue
				}
				if b, known := ip.boolOf(out.st, out.res[0]); !known || !b {
					bad = "no"
				}
			}
			if ip.bad != "" {
				bad = "undecided: " + ip.bad
			}
			r.count("family pairs", 1)
			r.ob(bad == "", "family", fmt.Sprintf("%s <- %s", name, tname(o)), p.pos(f.Pos()),
				fmt.Sprintf("%s may not accept a %s (%s), all instances of which are its instances", name, tname(o), bad))
		}
	}
	r.atLeast("unconstrained types", 7)
	r.atLeast("family pairs", 20)
}

// revSay checks the answers of the combined types.
func revSay(a *Analysis, r *Report, os []types.Type) {
	p := a.p
	n := 0
	for _, o := range os {
		f := p.methodOf(o, "AssignableTo")
		op := operatorOf(a, o)
		if f == nil || f.Blocks == nil || op == "" {
			continue
		}
		n++
		bad, outs, und := revSayRun(a, f, o, op == "and")
		r.count("answers", outs)
		if und != "" {
			bad = []string{"cannot be decided: " + und}
		}
		r.ob(len(bad) == 0, "say", fname(f), p.pos(f.Pos()), fname(f)+": "+strings.Join(bad, "; "))
	}
	r.count("combined types", n)
	r.atLeast("combined types", 4)
}

// operatorOf tells which combination t is, by its constant Operator.
func operatorOf(a *Analysis, t types.Type) string {
	f := a.p.methodOf(t, "Operator")
	if f == nil || f.Blocks == nil {
		return ""
	}
	ip := newInterp(a)
	st := newIst()
	names := map[string]string{}
	sc := a.p.SPkgs["dgo"].Pkg.Scope()
	for n, s := range map[string]string{"OpAnd": "and", "OpOr": "or", "OpOne": "one"} {
		if c, ok := sc.Lookup(n).(*types.Const); ok {
			names[c.Val().ExactString()] = s
		}
	}
	s := ""
	for _, o := range ip.run(f, []AV{{K: 's', S: "t", T: t}}, st) {
		if len(o.res) == 1 && o.res[0].K == 'c' {
			s = names[ip.consts[o.res[0].S].ExactString()]
		}
	}
	return s
}

func revSayRun(a *Analysis, f *ssa.Function, o types.Type, and bool) (bad []string, n int, undecided string) {
	ip := newInterp(a)
	ip.limit = 20000
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) }
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		if _, ok := c.Common().Value.(*ssa.Builtin); ok {
			return nil, false
		}
		name := ""
		if c.Common().IsInvoke() {
			name = c.Common().Method.Name()
		} else if g != nil {
			name = g.Name()
		}
		switch {
		case name == "Type" && len(args) == 1 && strings.HasPrefix(args[0].S, "t."):
			return []iout{{st: st, res: []AV{{K: 's', S: args[0].S + "#type"}}}}, true
		case name == "Assignable" || name == "DeepAssignable":
			var rcv, arg AV
			if len(args) > 0 {
				arg = args[len(args)-1]
			}
			if g != nil && g.Signature.Recv() == nil && len(args) > 1 {
				rcv = args[len(args)-2]
			} else if len(args) > 0 {
				rcv = args[0]
			}
			i := strings.Index(arg.S, "[")
			if rcv.S != "other" || i < 0 || !strings.HasPrefix(arg.S, "t.") {
				st.ev["strange"] = true
			} else {
				st.ev["at:"+arg.S[i+1:strings.Index(arg.S, "]")]] = true
			}
			no := st.clone()
			no.ev["no"] = true
			st.ev["yes"] = true
			return []iout{{st: st, res: []AV{ip.boolean(true)}}, {st: no, res: []AV{ip.boolean(false)}}}, true
		}
		return nil, false
	}
	st := newIst()
	st.dyn["t"] = o
	var args []AV
	for i := range f.Params {
		switch {
		case i == 0:
			args = append(args, AV{K: 's', S: "t", T: o})
		case i == len(f.Params)-1:
			args = append(args, AV{K: 's', S: "other"})
		default:
			args = append(args, AV{K: 's', S: "guard"})
		}
	}
	set := map[string]bool{}
	for _, out := range ip.run(f, args, st) {
		if out.exit {
			continue
		}
		n++
		ev := out.st.ev
		b, known := ip.boolOf(out.st, out.res[0])
		_, und := ev["at:?"]
		consulted := 0
		for i := 0; ev[fmt.Sprint("at:", i)]; i++ {
			consulted++
		}
		total := 0
		for k := range ev {
			if strings.HasPrefix(k, "at:") {
				total++
			}
		}
		switch {
		case ev["strange"]:
			set["it asks about something else than a part of it"] = true
		case !known:
			set["its answer doesn't follow from the answers about its parts"] = true
		case b && !and && ev["no"]:
			set["it answers yes although a part of it isn't assignable"] = true
		case b && !and && !ev["yes"]:
			set["it answers yes without asking about any part"] = true
		case b && and && ev["no"] && !ev["yes"]:
			set["it answers yes although no part is assignable"] = true
		case !b && !ev["no"] && (and || ev["yes"]):
			set["it answers no although every part is assignable"] = true
		case b && !und && !ev["no"] && total != consulted:
			set["it leaves out a part"] = true
		}
		if known && b && !und && (!and || !ev["yes"]) && len(set) == 0 {
			// at the end of the parts?
			end := false
			for k, v := range out.st.rel {
				if !v && strings.Contains(k, "<slen(t.") && strings.HasPrefix(k, "(c"+ip.integer(int64(consulted), types.Typ[types.Int]).S+"<") {
					end = true
				}
				if strings.Contains(k, "loop:") {
					end = true
				}
			}
			if !end {
				set["it leaves out a part"] = true
			}
		}
	}
	for m := range set {
		bad = append(bad, m)
	}
	sort.Strings(bad)
	return bad, n, ip.bad
}
