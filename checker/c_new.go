package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: what a type creates was found to be an instance of it.

// newRun explores f, which creates a value for the type that is its parameter ti, and returns the results that may be
// returned without having been found to be an instance.
func newRun(a *Analysis, f *ssa.Function, ti int, t types.Type) (bad []string, outcomes int, undecided string) {
	ip := newInterp(a)
	mine := func(v AV) bool { return (v.K == 's' || v.K == 'p') && v.S == "t" }
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) }
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		cc := c.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil, false
		}
		name := ""
		switch {
		case cc.IsInvoke():
			name = cc.Method.Name()
		case g != nil:
			name = g.Name()
		}
		mut := a.mutates(c, g)
		at := func(i int) AV {
			if i >= 0 && i < len(args) {
				return args[i]
			}
			return unknownAV
		}
		if mut {
			// what is changed isn't known to be an instance anymore
			delete(st.rel, "inst:"+at(0).S)
		}
		tested := func(s string) ([]iout, bool) {
			v := AV{K: 's', S: "inst:" + s}
			return []iout{{st: st, res: []AV{v}}}, true
		}
		switch {
		case (name == "Instance" || name == "DeepInstance") && len(args) >= 2:
			r := at(0)
			if g != nil && g.Signature.Recv() == nil {
				r = at(len(args) - 2)
			}
			if mine(r) {
				return tested(at(len(args) - 1).S)
			}
		case name == "New" && mine(at(0)) && cc.IsInvoke() && at(0).T == nil:
			// the type's own method, which is checked for every type
			r := revUnknown(ip, st, c, cc.Signature())
			r[0].S = "created:" + r[0].S
			return []iout{{st: st, res: r}}, true
		case (name == "Assignable" || name == "DeepAssignable") && len(args) >= 2:
			r, v := at(0), at(len(args)-1)
			if g != nil && g.Signature.Recv() == nil {
				r = at(len(args) - 2)
			}
			if s, ok := strings.CutPrefix(v.S, "Type("); ok && mine(r) {
				return tested(strings.TrimSuffix(s, ")")[1:])
			}
		case name == "Type" && len(args) == 1:
			return []iout{{st: st, res: []AV{{K: 's', S: "Type(" + string(at(0).K) + at(0).S + ")"}}}}, true
		}
		if name == "String" || name == "Error" || name == "Generic" || name == "Name" {
			return nil2(ip, st, c, cc), true
		}
		helper := false
		for _, x := range args {
			if mine(x) {
				helper = true
			}
		}
		if g != nil && !helper && a.p.inModule(g) && g.Signature.Recv() == nil {
			// results of other functions don't matter, except for functions that don't return
			if a.noReturn(g) {
				return []iout{{st: st, exit: true}}, true
			}
		}
		if helper && g != nil && g.Blocks != nil && a.p.inModule(g) {
			return nil, false
		}
		return nil2(ip, st, c, cc), true
	}
	st := newIst()
	if t != nil {
		st.dyn["t"] = t
	}
	var args []AV
	for i := range f.Params {
		if i == ti {
			args = append(args, AV{K: 's', S: "t", T: t})
		} else {
			args = append(args, AV{K: 's', S: fmt.Sprint("arg", i)})
		}
	}
	seen := map[string]bool{}
	for _, out := range ip.run(f, args, st) {
		if out.exit {
			continue
		}
		outcomes++
		v := out.res[0]
		if strings.HasPrefix(v.S, "created:") || out.st.rel["inst:"+v.S] {
			continue
		}
		if !seen[v.S] {
			seen[v.S] = true
			bad = append(bad, v.String())
		}
	}
	sort.Strings(bad)
	return bad, outcomes, ip.bad
}

func nil2(ip *interp, st *ist, c ssa.CallInstruction, cc *ssa.CallCommon) []iout {
	return []iout{{st: st, res: revUnknown(ip, st, c, cc.Signature())}}
}

// mutates tells if a call may change its receiver.
func (a *Analysis) mutates(c ssa.CallInstruction, g *ssa.Function) bool {
	cc := c.Common()
	if cc.IsInvoke() {
		i, ok := cc.Value.Type().Underlying().(*types.Interface)
		return ok && i != nil && mutators[cc.Method.Name()]
	}
	return g != nil && g.Signature.Recv() != nil && mutators[g.Name()]
}

// noReturn tells if f never returns normally.
func (a *Analysis) noReturn(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
	}
	return f.Recover == nil
}

func checkC15(a *Analysis, r *Report) {
	p := a.p
	r.Rules = []string{
		"checked: on every path of every method New of a type (dgo.Factory), and of internal.New, the result is a value that this very type was asked about (Instance, or Assignable for the type of the value) with a positive answer, and that wasn't changed afterwards",
		"own: a type that redefines Instance of a type that it embeds has its own New",
	}
	ifc := p.iface("Factory")
	for _, t := range p.implementers(ifc) {
		if !types.Implements(t, p.iface("Type")) {
			continue
		}
		f := p.methodOf(t, "New")
		if f == nil || f.Blocks == nil {
			continue
		}
		bad, outs, und := newRun(a, f, 0, t)
		r.count("types that create", 1)
		r.count("outcomes", outs)
		if und != "" {
			bad = append(bad, "cannot be decided: "+und)
		}
		r.ob(len(bad) == 0, "checked", tname(t)+".New", p.pos(f.Pos()), fmt.Sprintf("%s may return a value (%s) that wasn't found to be an instance of the type", fname(f), strings.Join(bad, ", ")))
		r.ob(outs > 0, "returns", tname(t)+".New", p.pos(f.Pos()), fname(f)+" never returns")
		if d := embedDepth(p, t, "New"); d > 0 {
			i := embedDepth(p, t, "Instance")
			r.ob(i >= d || newNarrower[tname(t)], "own", tname(t), p.pos(f.Pos()), fmt.Sprintf("%s redefines Instance, but uses %s which asks the embedded type", tname(t), fname(f)))
		}
	}
	f := p.fn("internal", "New")
	if f == nil {
		failf("anchor internal.New not found")
	}
	bad, outs, und := newRun(a, f, 0, nil)
	if und != "" {
		bad = append(bad, "cannot be decided: "+und)
	}
	r.count("outcomes", outs)
	r.ob(len(bad) == 0 && outs > 1, "checked", "New", p.pos(f.Pos()), fmt.Sprintf("New may return a value (%s) that wasn't found to be an instance of the type", strings.Join(bad, ", ")))
	r.atLeast("types that create", 18)
	r.Assumptions = append(r.Assumptions,
		"Instance is right about what it answers (the subject of other properties)",
		"*internal.ciStringType creates with the embedded exact type, whose only instance is one of its own")
}

// newNarrower lists types that embed a type that has fewer instances than themselves.
var newNarrower = map[string]bool{"*internal.ciStringType": true}

// embedDepth tells how many embedded fields are passed to get to t's method.
func embedDepth(p *Prog, t types.Type, name string) int {
	s := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < s.Len(); i++ {
		if s.At(i).Obj().Name() == name {
			return len(s.At(i).Index()) - 1
		}
	}
	return -1
}
