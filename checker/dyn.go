package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// dynTypes yields the concrete types that the interface value v can have, if they can all be determined.
func (a *Analysis) dynTypes(v ssa.Value) ([]types.Type, bool) {
	set := map[types.Type]bool{}
	if !a.dyn(v, set, map[interface{}]bool{}, 0) {
		return nil, false
	}
	var r []types.Type
	for t := range set {
		r = append(r, t)
	}
	sort.Slice(r, func(i, j int) bool { return tname(r[i]) < tname(r[j]) })
	return r, true
}

type dynRes struct {
	f *ssa.Function
	i int
}

func (a *Analysis) dyn(v ssa.Value, set map[types.Type]bool, seen map[interface{}]bool, d int) bool {
	if d > 30 {
		return false
	}
	if _, ok := v.Type().Underlying().(*types.Interface); !ok {
		if _, isT := v.Type().(*types.Tuple); !isT {
			set[canonType(v.Type())] = true
			return true
		}
	}
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return a.dyn(v.X, set, seen, d+1)
	case *ssa.ChangeInterface:
		return a.dyn(v.X, set, seen, d+1)
	case *ssa.TypeAssert:
		return a.dyn(v.X, set, seen, d+1)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !a.dyn(e, set, seen, d+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		switch v.X.(type) {
		case *ssa.Alloc, *ssa.FreeVar:
			c := a.cellOf(v.X)
			if c == nil || c.opaque {
				return false
			}
			for _, s := range c.stores {
				if !a.dyn(s, set, seen, d+1) {
					return false
				}
			}
			return true
		}
		return false
	case *ssa.FreeVar:
		if b := binding(v); b != nil {
			return a.dyn(b, set, seen, d+1)
		}
		return false
	case *ssa.Call:
		return a.dynCall(v, 0, set, seen, d)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.Call:
			return a.dynCall(t, v.Index, set, seen, d)
		case *ssa.TypeAssert:
			if v.Index == 0 {
				return a.dyn(t.X, set, seen, d+1)
			}
		}
	}
	return false
}

func (a *Analysis) dynCall(c *ssa.Call, i int, set map[types.Type]bool, seen map[interface{}]bool, d int) bool {
	var fns []*ssa.Function
	if c.Call.IsInvoke() {
		ts := map[types.Type]bool{}
		if !a.dyn(c.Call.Value, ts, seen, d+1) {
			it, ok := c.Call.Value.Type().Underlying().(*types.Interface)
			if !ok || !a.dynWide {
				return false
			}
			for _, t := range a.p.implementers(it) {
				if f := a.p.methodOf(t, c.Call.Method.Name()); f != nil && f.Blocks != nil && !delegated(t, c.Call.Method.Name()) {
					ts[t] = true
				}
			}
		}
		for t := range ts {
			f := a.p.methodOf(t, c.Call.Method.Name())
			if f == nil || f.Blocks == nil {
				return false
			}
			fns = append(fns, f)
		}
	} else if f := staticFn(c.Call.Value); f != nil && f.Blocks != nil && a.p.inModule(f) {
		fns = []*ssa.Function{f}
	} else {
		return false
	}
	for _, f := range fns {
		if !a.dynFn(f, i, set, seen, d) {
			return false
		}
	}
	return true
}

// dynFn adds the types that result i of f can have.
func (a *Analysis) dynFn(f *ssa.Function, i int, set map[types.Type]bool, seen map[interface{}]bool, d int) bool {
	k := dynRes{f, i}
	if !seen[k] {
		seen[k] = true
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if i >= len(r.Results) || !a.dyn(r.Results[i], set, seen, d+1) {
					return false
				}
			}
		}
	}
	return true
}
