package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C23: the order in which a Go map happens to be iterated never reaches a result.

// oregion is code that runs once for each element of something that has no order: the body of a loop, or a function
// that is called for each element.
type oregion struct {
	f      *ssa.Function
	head   *ssa.BasicBlock // nil for a function
	blocks map[*ssa.BasicBlock]bool
	elems  map[ssa.Value]bool // what differs between elements
	keys   map[ssa.Value]bool // those that are unique
	what   string
	pos    string
	index  ssa.Value // the index of a loop over a slice without order
}

type orders struct {
	a       *Analysis
	r       *Report
	bad     map[string]bool
	writes  map[string]int            // function#parameter: 1 no, 2 yes
	params  map[*ssa.Parameter]string // slices without order that are passed: what becomes of them, "" or "sorted"
	results map[*ssa.Function]map[int]string
	queue   []func()
	seen    map[string]bool
	less    map[*ssa.Function]bool
}

func (o *orders) fail(rule, construct, pos, detail string) {
	k := rule + construct + detail
	if !o.bad[k] {
		o.bad[k] = true
		o.r.ob(false, rule, construct, pos, detail)
	}
}

// slicePath names a variable of the function, a field of one, or a field of something else.
func slicePath(addr ssa.Value) string {
	switch v := addr.(type) {
	case *ssa.Alloc:
		return fmt.Sprintf("%p", v)
	case *ssa.FreeVar:
		if al := resolveCell(v); al != nil {
			return fmt.Sprintf("%p", al)
		}
		return fmt.Sprintf("%p", v)
	case *ssa.FieldAddr:
		return slicePath(v.X) + "." + fieldVar(v).Name()
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return "*" + slicePath(v.X)
		}
	case *ssa.Global:
		return v.RelString(nil)
	}
	return fmt.Sprintf("%p", addr)
}

// family returns the function that f is nested in, and all functions nested in that one.
func family(f *ssa.Function) []*ssa.Function {
	var l []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		l = append(l, f)
		for _, g := range f.AnonFuncs {
			add(g)
		}
	}
	add(root(f))
	return l
}

func eachInstr(fs []*ssa.Function, do func(in ssa.Instruction)) {
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				do(in)
			}
		}
	}
}

// class returns all values of a function that may be the same slice (or interface of it) as v.
func (o *orders) class(v ssa.Value) (vals map[ssa.Value]bool, paths map[string]bool) {
	vals, paths = map[ssa.Value]bool{v: true}, map[string]bool{}
	fam := family(v.Parent())
	link := func(x, y ssa.Value) bool {
		if vals[x] == vals[y] {
			return false
		}
		vals[x], vals[y] = true, true
		return true
	}
	for ch := true; ch; {
		ch = false
		eachInstr(fam, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Phi:
				for _, e := range in.Edges {
					if _, ok := e.(*ssa.Const); !ok && link(in, e) {
						ch = true
					}
				}
			case *ssa.Slice:
				if link(in, in.X) {
					ch = true
				}
			case *ssa.ChangeType:
				if link(in, in.X) {
					ch = true
				}
			case *ssa.MakeInterface:
				if sliceOrArray(in.X.Type()) && link(in, in.X) {
					ch = true
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					if _, ok := in.Call.Args[0].(*ssa.Const); !ok && link(in, in.Call.Args[0]) {
						ch = true
					}
				}
			case *ssa.UnOp:
				if in.Op == token.MUL {
					p := slicePath(in.X)
					if paths[p] && !vals[in] || vals[in] && !paths[p] {
						if sliceOrArray(in.Type()) {
							vals[in], paths[p] = true, true
							ch = true
						}
					}
				}
			case *ssa.Store:
				p := slicePath(in.Addr)
				if c, ok := in.Val.(*ssa.Const); ok && c.IsNil() {
					return
				}
				if (vals[in.Val] && !paths[p] || paths[p] && !vals[in.Val]) && sliceOrArray(in.Val.Type()) {
					vals[in.Val], paths[p] = true, true
					ch = true
				}
			}
		})
	}
	return
}

func sliceOrArray(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	case *types.Pointer:
		_, ok := u.Elem().Underlying().(*types.Array)
		return ok
	case *types.Interface:
		return u.NumMethods() == 0 || types.TypeString(t, nil) == "sort.Interface"
	}
	return false
}

func isSort(g *ssa.Function) bool {
	if g == nil || g.Pkg == nil && g.Object() == nil {
		return false
	}
	o := g.Object()
	if g.Origin() != nil {
		o = g.Origin().Object()
	}
	if o == nil || o.Pkg() == nil {
		return false
	}
	switch o.Pkg().Path() {
	case "sort":
		switch o.Name() {
		case "Slice", "SliceStable", "Sort", "Stable", "Ints", "Strings", "Float64s":
			return true
		}
	case "slices":
		return strings.HasPrefix(o.Name(), "Sort")
	}
	return false
}

// unordered checks the uses of a slice whose elements are in random order. It returns "sorted" when it is put in order
// before the function returns.
func (o *orders) unordered(v ssa.Value, from ssa.Instruction, what string) string {
	f := v.Parent()
	vals, paths := o.class(v)
	id := fmt.Sprintf("slice %p", v)
	for x := range vals {
		if k := fmt.Sprintf("slice %p", x); k < id {
			id = k
		}
	}
	if from != nil {
		id += fmt.Sprintf("@%p", from)
	}
	if o.seen[id] {
		return ""
	}
	o.seen[id] = true
	o.r.count("slices without order", 1)
	fam := family(f)
	var sorts []ssa.Instruction
	lessOf := map[*ssa.Function]bool{}
	eachInstr(fam, func(in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		cc := c.Common()
		g := cc.StaticCallee()
		if g == nil {
			return
		}
		if isSort(g) && len(cc.Args) > 0 && vals[cc.Args[0]] {
			if _, ok := in.(*ssa.Call); ok {
				sorts = append(sorts, in)
				o.comparator(c, lessOf)
			}
			return
		}
		if o.a.p.inModule(g) && g.Blocks != nil {
			for i, x := range cc.Args {
				if vals[x] && i < len(g.Params) && sliceOrArray(x.Type()) && o.after(in, from) && !o.inLess(in, lessOf) {
					if o.param(g, i, what) == "sorted" {
						sorts = append(sorts, in)
					}
				}
			}
		}
	})
	ordered := func(in ssa.Instruction) bool {
		for _, s := range sorts {
			if precedes(s, in) {
				return true
			}
		}
		return false
	}
	isSortCall := func(in ssa.Instruction) bool {
		for _, s := range sorts {
			if s == in {
				return true
			}
		}
		return false
	}
	loops := map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	eachInstr(fam, func(in ssa.Instruction) {
		if o.inLess(in, lessOf) || isSortCall(in) || ordered(in) || !o.after(in, from) {
			return
		}
		name, pos := fname(in.Parent()), o.a.p.instrPos(in)
		uses := false
		for _, op := range in.Operands(nil) {
			if *op != nil && vals[*op] {
				uses = true
			}
		}
		if !uses {
			return
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface, *ssa.DebugRef, *ssa.BinOp, *ssa.If, *ssa.MakeClosure, *ssa.UnOp:
			return
		case *ssa.TypeAssert:
			return
		case *ssa.Return:
			for i, x := range in.Results {
				if vals[x] {
					o.result(in.Parent(), i, what, pos)
				}
			}
			return
		case *ssa.Store:
			p := in.Addr
			if !vals[in.Val] {
				return
			}
			for {
				if fa, ok := p.(*ssa.FieldAddr); ok {
					p = fa.X
					continue
				}
				break
			}
			if resolveCell(p) != nil {
				return
			}
			// it is kept somewhere, unless it is put in order later
			for _, s := range sorts {
				if s.Parent() == in.Parent() && (in.Block().Dominates(s.Block()) || precedes(in, s)) && mustFollow(in, s) {
					return
				}
			}
			o.fail("kept", name, pos, fmt.Sprintf("%s keeps a slice whose elements are in the order of %s", name, what))
			return
		case *ssa.IndexAddr, *ssa.Index:
			var idx, x ssa.Value
			if ia, ok := in.(*ssa.IndexAddr); ok {
				idx, x = ia.Index, ia.X
				if onlyStored(ia) {
					return
				}
			} else {
				idx, x = in.(*ssa.Index).Index, in.(*ssa.Index).X
			}
			_ = x
			g := in.Parent()
			if loops[g] == nil {
				loops[g] = loopsOf(g)
			}
			reg := o.indexLoop(g, in.(ssa.Value), idx, loops[g])
			if reg == nil {
				if c, ok := idx.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && o.single(in, vals) {
					return
				}
				o.fail("picked", name, pos, fmt.Sprintf("%s picks an element of a slice whose elements are in the order of %s", name, what))
				return
			}
			reg.what, reg.pos = what, pos
			o.region(reg)
			return
		case ssa.CallInstruction:
			cc := in.Common()
			if b, ok := cc.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
					return
				case "append":
					if vals[cc.Args[0]] {
						return
					}
					if v, ok := in.(*ssa.Call); ok {
						o.unordered(v, in, what)
					}
					return
				case "copy":
					if !vals[cc.Args[0]] {
						o.unordered(cc.Args[0], in, what)
					}
					return
				}
			}
			g := cc.StaticCallee()
			if g != nil && o.a.p.inModule(g) && g.Blocks != nil {
				return // done above
			}
			n := callName(cc, g)
			o.fail("passed", name, pos, fmt.Sprintf("%s passes a slice whose elements are in the order of %s to %s", name, what, n))
			return
		case *ssa.MapUpdate:
			o.fail("kept", name, pos, fmt.Sprintf("%s keeps a slice whose elements are in the order of %s", name, what))
		}
	})
	_ = paths
	// in order whenever the function returns?
	for _, s := range sorts {
		all := s.Parent() == f
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !precedes(s, ret) {
				all = false
			}
		}
		if all {
			return "sorted"
		}
	}
	return ""
}

// after tells if the instruction may run after another one.
func (o *orders) after(in, from ssa.Instruction) bool {
	if from == nil || in.Parent() != from.Parent() {
		return true
	}
	if in.Block() == from.Block() {
		if precedes(from, in) {
			return true
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), from.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if b == in.Block() {
			return true
		}
		work = append(work, b.Succs...)
	}
	return false
}

func (o *orders) inLess(in ssa.Instruction, less map[*ssa.Function]bool) bool {
	for f := in.Parent(); f != nil; f = f.Parent() {
		if less[f] {
			return true
		}
	}
	return false
}

// precedes tells if s always runs before in.
func precedes(s, in ssa.Instruction) bool {
	if s.Parent() != in.Parent() {
		// a closure that is made after s
		for f := in.Parent(); f != nil && f.Parent() != nil; f = f.Parent() {
			for _, b := range f.Parent().Blocks {
				for _, x := range b.Instrs {
					if mc, ok := x.(*ssa.MakeClosure); ok && mc.Fn == f {
						return precedes(s, mc)
					}
				}
			}
		}
		return false
	}
	if s.Block() != in.Block() {
		return s.Block().Dominates(in.Block())
	}
	for _, x := range s.Block().Instrs {
		if x == s {
			return x != in
		}
		if x == in {
			return false
		}
	}
	return false
}

// mustFollow tells if each path from in to a return passes s.
func mustFollow(in, s ssa.Instruction) bool {
	if in.Block() == s.Block() {
		return precedes(in, s)
	}
	seen := map[*ssa.BasicBlock]bool{s.Block(): true}
	work := []*ssa.BasicBlock{in.Block()}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return false
		}
		for _, x := range b.Succs {
			if !seen[x] {
				seen[x] = true
				work = append(work, x)
			}
		}
	}
	return true
}

// onlyStored tells if an element is only set.
func onlyStored(ia *ssa.IndexAddr) bool {
	if ia.Referrers() == nil {
		return true
	}
	for _, r := range *ia.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == ia {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.IndexAddr:
			if !onlyStored(r) {
				return false
			}
		case *ssa.FieldAddr:
			for _, q := range *r.Referrers() {
				if s, ok := q.(*ssa.Store); !ok || s.Val == r {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// single tells if the slice is known to have no more than one element.
func (o *orders) single(in ssa.Instruction, vals map[ssa.Value]bool) bool {
	for b := in.Block(); b != nil; b = b.Idom() {
		d := b.Idom()
		if d == nil {
			return false
		}
		iff, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		isLen := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := c.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "len" && vals[c.Call.Args[0]]
		}
		one := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			return ok && c.Value != nil && c.Value.ExactString() == "1"
		}
		if (isLen(bo.X) && one(bo.Y) || isLen(bo.Y) && one(bo.X)) && (bo.Op == token.EQL && d.Succs[0].Dominates(in.Block()) || bo.Op == token.NEQ && d.Succs[1].Dominates(in.Block())) {
			return true
		}
	}
	return false
}

// indexLoop returns the loop that an index goes through a slice in.
func (o *orders) indexLoop(g *ssa.Function, elem, idx ssa.Value, loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) *oregion {
	in := elem.(ssa.Instruction)
	var best *oregion
	for h, body := range loops {
		if !body[in.Block()] || best != nil && len(best.blocks) <= len(body) {
			continue
		}
		var phi ssa.Value
		dep := dependsOn(idx, func(v ssa.Value) bool {
			p, ok := v.(*ssa.Phi)
			if ok && p.Block() == h {
				phi = p
				return true
			}
			// a variable of the loop that is captured
			if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL && resolveCell(ld.X) != nil && storedIn(resolveCell(ld.X), body) {
				phi = v
				return true
			}
			return false
		})
		if dep {
			best = &oregion{f: g, head: h, blocks: body, elems: map[ssa.Value]bool{elem: true}, keys: map[ssa.Value]bool{elem: true}, index: phi}
		}
	}
	return best
}

func storedIn(al *ssa.Alloc, body map[*ssa.BasicBlock]bool) bool {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == al && body[s.Block()] {
			return true
		}
	}
	return false
}

// dependsOn tells if a value is computed from one that is looked for.
func dependsOn(v ssa.Value, is func(v ssa.Value) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		if is(v) {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && walk(*op) {
				return true
			}
		}
		if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
			// what is stored in a local variable
			if al := allocRoot(ld.X); al != nil {
				for _, s := range storesTo(al) {
					if walk(s.Val) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(v)
}

// allocRoot returns the local variable that an address is (a part of).
func allocRoot(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = x.X
		default:
			return resolveCell(v)
		}
	}
}

func storesTo(al *ssa.Alloc) []*ssa.Store {
	var l []*ssa.Store
	eachInstr(family(al.Parent()), func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok && allocRoot(s.Addr) == al {
			l = append(l, s)
		}
	})
	return l
}

// result makes the callers of a function continue with a slice without order.
func (o *orders) result(f *ssa.Function, i int, what, pos string) {
	if o.results[f] == nil {
		o.results[f] = map[int]string{}
	}
	if _, ok := o.results[f][i]; ok {
		return
	}
	o.results[f][i] = what
	n := 0
	eachInstr(o.a.p.Funcs, func(in ssa.Instruction) {
		c, ok := in.(ssa.CallInstruction)
		if !ok {
			return
		}
		fns, _ := o.a.p.callees(c.Common())
		for _, g := range fns {
			if g != f {
				continue
			}
			n++
			v := c.Value()
			if v == nil {
				continue
			}
			if f.Signature.Results().Len() == 1 {
				o.unordered(v, v, what)
				continue
			}
			for _, r := range *v.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && e.Index == i {
					o.unordered(e, e, what)
				}
			}
		}
	})
	if n == 0 || token.IsExported(f.Name()) && f.Parent() == nil {
		o.fail("returned", fname(f), pos, fmt.Sprintf("%s returns a slice whose elements are in the order of %s", fname(f), what))
	}
}

func (o *orders) param(g *ssa.Function, i int, what string) string {
	p := g.Params[i]
	if s, ok := o.params[p]; ok {
		return s
	}
	o.params[p] = ""
	s := o.unordered(p, nil, what)
	o.params[p] = s
	return s
}

// pureExternal tells if a function of another package doesn't change its arguments and writes nothing.
func pureExternal(g *ssa.Function) bool {
	o := g.Object()
	if g.Origin() != nil {
		o = g.Origin().Object()
	}
	if o == nil || o.Pkg() == nil {
		return false
	}
	n := o.Name()
	switch o.Pkg().Path() {
	case "strings":
		return g.Signature.Recv() == nil || strings.Contains(g.Signature.Recv().Type().String(), "Reader") == false && (n == "String" || n == "Len")
	case "strconv", "math", "math/big", "unicode", "unicode/utf8", "errors", "bytes", "regexp", "sync/atomic", "math/bits", "hash/fnv", "path", "time", "encoding/base64":
		return n != "Write" && n != "WriteString" && n != "ReadFrom"
	case "fmt":
		return strings.HasPrefix(n, "Sprint") || n == "Errorf"
	case "sync":
		switch n {
		case "Lock", "Unlock", "RLock", "RUnlock", "Load", "Do":
			return true
		}
		return false
	case "reflect":
		return !strings.HasPrefix(n, "Set") && n != "Send" && n != "Call" && n != "Append" && n != "Copy"
	case "sort":
		return strings.HasPrefix(n, "Search")
	}
	return false
}

// writesParam tells if a function may change what a parameter leads to.
func (o *orders) writesParam(f *ssa.Function, i int) bool {
	k := fmt.Sprintf("%p#%d", f, i)
	if s := o.writes[k]; s != 0 {
		return s == 2
	}
	o.writes[k] = 1
	if o.writesFrom(f, []ssa.Value{f.Params[i]}) {
		o.writes[k] = 2
		return true
	}
	return false
}

func (o *orders) writesFrom(f *ssa.Function, start []ssa.Value) bool {
	der := map[ssa.Value]bool{}
	for _, v := range start {
		der[v] = true
	}
	for ch := true; ch; {
		ch = false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || der[v] {
					continue
				}
				switch in := in.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Index, *ssa.UnOp, *ssa.Phi, *ssa.TypeAssert, *ssa.ChangeType, *ssa.ChangeInterface,
					*ssa.MakeInterface, *ssa.Slice, *ssa.Extract, *ssa.Lookup, *ssa.Convert, *ssa.MakeClosure:
					for _, op := range v.(ssa.Instruction).Operands(nil) {
						if *op != nil && der[*op] && !inert(v.Type()) {
							der[v] = true
							ch = true
						}
					}
				case *ssa.Call:
					// a result may be the argument, or a part of it
					if inert(v.Type()) || o.makesNew(in) {
						continue
					}
					for _, op := range in.Operands(nil) {
						if *op != nil && der[*op] {
							der[v] = true
							ch = true
						}
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if der[in.Addr] && allocRoot(in.Addr) == nil {
					return true
				}
			case *ssa.MapUpdate:
				if der[in.Map] {
					return true
				}
			case *ssa.Send:
				if der[in.Chan] {
					return true
				}
			case ssa.CallInstruction:
				if _, ok := in.(*ssa.Go); ok {
					return true
				}
				if o.callWrites(in, func(v ssa.Value) bool { return der[v] }) != "" {
					return true
				}
			}
		}
	}
	return false
}

// makesNew tells if the result of a call is always new.
func (o *orders) makesNew(c *ssa.Call) bool {
	switch callName(&c.Call, c.Call.StaticCallee()) {
	case "Copy", "FrozenCopy", "ThawedCopy", "String":
		return true
	}
	return false
}

// writers are methods of values and types that change nothing but caches.
var orderPure = map[string]bool{"String": true, "HashCode": true, "Equals": true, "Type": true, "TypeIdentifier": true, "CompareTo": true, "Error": true, "Generic": true, "Assignable": true, "Instance": true, "Frozen": true, "Len": true, "Name": true, "Get": true}

// callWrites tells which argument that is of interest a call may write to.
func (o *orders) callWrites(c ssa.CallInstruction, is func(v ssa.Value) bool) string {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy", "delete", "clear":
			if is(cc.Args[0]) {
				return b.Name()
			}
		}
		return ""
	}
	if cc.IsInvoke() {
		n := cc.Method.Name()
		interesting := is(cc.Value)
		for _, x := range cc.Args {
			if is(x) {
				interesting = true
			}
		}
		if !interesting || orderPure[n] {
			return ""
		}
		fns, ext := o.a.p.callees(cc)
		if ext || len(fns) == 0 {
			if reflectType(cc.Value.Type()) {
				return ""
			}
			if is(cc.Value) {
				return n
			}
			return ""
		}
		for _, g := range fns {
			if is(cc.Value) && o.writesParam(g, 0) {
				return n
			}
			for j, x := range cc.Args {
				if is(x) && j+1 < len(g.Params) && o.writesParam(g, j+1) {
					return n
				}
			}
		}
		return ""
	}
	if g := staticFn(cc.Value); g != nil {
		if g.Blocks != nil && o.a.p.inModule(g) {
			for j, x := range cc.Args {
				if is(x) && j < len(g.Params) && o.writesParam(g, j) {
					return g.Name()
				}
			}
			var fv []ssa.Value
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				for j, x := range mc.Bindings {
					if is(x) {
						fv = append(fv, g.FreeVars[j])
					}
				}
			}
			if len(fv) > 0 && o.writesFrom(g, fv) {
				return g.Name()
			}
			return ""
		}
		if pureExternal(g) {
			return ""
		}
		for _, x := range cc.Args {
			if is(x) && !inert(x.Type()) {
				return g.Name()
			}
		}
		return ""
	}
	// a function value: it may write to anything it knows
	if is(cc.Value) {
		return "a function value"
	}
	return ""
}

func reflectType(t types.Type) bool { return types.TypeString(t, nil) == "reflect.Type" }

// region checks that the code that runs for each element does nothing that depends on the order of the elements.
func (o *orders) region(g *oregion) {
	k := fmt.Sprintf("region %p %p", g.f, g.head)
	if o.seen[k] {
		return
	}
	o.seen[k] = true
	o.r.count("regions", 1)
	p := o.a.p
	name := fname(g.f)
	bad := func(rule string, in ssa.Instruction, f string, args ...interface{}) {
		pos := g.pos
		if in != nil {
			pos = p.instrPos(in)
		}
		o.fail(rule, name, pos, name+" "+fmt.Sprintf(f, args...)+" in the order of "+g.what)
	}
	in := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return ok && g.blocks[i.Block()]
	}
	o.r.ob(true, "commutative", name, g.pos, "")
	// what is carried from one element to the next
	carried := map[ssa.Value]bool{}
	if g.head != nil {
		for _, i := range g.head.Instrs {
			if ph, ok := i.(*ssa.Phi); ok {
				carried[ph] = true
			}
		}
	}
	cells := map[string][]*ssa.Store{} // variables that are set
	local := func(al *ssa.Alloc) bool { return al != nil && g.blocks[al.Block()] }
	for b := range g.blocks {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok || local(allocRoot(s.Addr)) {
				continue
			}
			if sliceElem(s.Addr) != nil {
				continue
			}
			cells[slicePath(s.Addr)] = append(cells[slicePath(s.Addr)], s)
		}
	}
	// variables that are set before they are used belong to one element
	for path, ss := range cells {
		al := allocRoot(ss[0].Addr)
		if al == nil {
			continue
		}
		own := true
		eachInstr(family(g.f), func(i ssa.Instruction) {
			ld, ok := i.(*ssa.UnOp)
			if !ok || ld.Op != token.MUL || slicePath(ld.X) != path {
				return
			}
			for _, s := range ss {
				if precedes(s, ld) && (g.blocks[ld.Block()] || ld.Parent() != g.f) {
					return
				}
			}
			own = false
		})
		if own {
			delete(cells, path)
		}
	}
	for b := range g.blocks {
		for _, i := range b.Instrs {
			if ld, ok := i.(*ssa.UnOp); ok && ld.Op == token.MUL && cells[slicePath(ld.X)] != nil {
				carried[ld] = true
			}
		}
	}
	isCarried := func(v ssa.Value) bool { return carried[v] }
	depCarried := func(v ssa.Value) bool { return dependsOn(v, isCarried) }
	varying := func(v ssa.Value) bool {
		return dependsOn(v, func(v ssa.Value) bool {
			if g.elems[v] || carried[v] {
				return true
			}
			if ph, ok := v.(*ssa.Phi); ok && g.blocks[ph.Block()] {
				return true
			}
			return false
		})
	}

	// leaves: what may become the value of a variable
	type leaf struct {
		v    ssa.Value
		from *ssa.BasicBlock
	}
	var leaves func(v ssa.Value, from *ssa.BasicBlock, seen map[ssa.Value]bool, self func(v ssa.Value) bool) []leaf
	leaves = func(v ssa.Value, from *ssa.BasicBlock, seen map[ssa.Value]bool, self func(v ssa.Value) bool) []leaf {
		if ph, ok := v.(*ssa.Phi); ok && g.blocks[ph.Block()] && ph.Block() != g.head && !self(v) {
			if seen[ph] {
				return nil
			}
			seen[ph] = true
			var l []leaf
			for j, e := range ph.Edges {
				l = append(l, leaves(e, ph.Block().Preds[j], seen, self)...)
			}
			return l
		}
		return []leaf{{v, from}}
	}
	accum := map[ssa.Value]bool{} // carried values that count or collect
	var unordered []ssa.Value
	conds := map[ssa.Value]bool{} // conditions about carried values that are understood
	judge := func(ls []leaf, self func(v ssa.Value) bool, t types.Type, at ssa.Instruction, label string) {
		selfDep := func(v ssa.Value) bool { return dependsOn(v, self) }
		var konst ssa.Value
		collects := false
		for _, l := range ls {
			switch {
			case self(l.v):
			case !varying(l.v):
				if konst != nil && !sameConst(konst, l.v) {
					bad("last", at, "sets %s to what belongs to the last element", label)
					return
				}
				konst = l.v
			case o.commutes(l.v, self, depCarried, carried, t):
				collects = true
			case isAppend(l.v) && self(stripSlice(l.v.(*ssa.Call).Call.Args[0])):
				unordered = append(unordered, l.v)
				for _, x := range l.v.(*ssa.Call).Call.Args[1:] {
					if depCarried(x) && !selfDep(x) {
						bad("carried", at, "collects values in %s that depend on the elements before,", label)
					}
				}
				collects = true
			case isBool(t) && !depCarried2(l.v, self, carried) && o.boolGuard(g, l.from, l.v, self, conds):
			case o.selected(g, l.from, l.v, self, carried, conds):
			case g.index != nil && isCounter(l.v, self):
				collects = true
			default:
				bad("last", at, "sets %s to something that belongs to one of the elements, found", label)
				return
			}
		}
		if konst != nil && collects {
			bad("last", at, "resets %s", label)
		}
	}
	if g.head != nil {
		for _, i := range g.head.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				continue
			}
			self := func(v ssa.Value) bool { return v == ph }
			var ls []leaf
			for j, e := range ph.Edges {
				if g.blocks[g.head.Preds[j]] {
					ls = append(ls, leaves(e, g.head.Preds[j], map[ssa.Value]bool{}, self)...)
				}
			}
			only := true
			for _, l := range ls {
				if l.v != ph {
					only = false
				}
			}
			if !only {
				accum[ph] = true
			}
			label := ph.Comment
			if label == "" {
				label = "a variable"
			}
			judge(ls, self, ph.Type(), ph, label)
		}
	}
	for path, ss := range cells {
		path := path
		self := func(v ssa.Value) bool {
			ld, ok := v.(*ssa.UnOp)
			return ok && ld.Op == token.MUL && slicePath(ld.X) == path
		}
		var ls []leaf
		for _, s := range ss {
			ls = append(ls, leaves(s.Val, s.Block(), map[ssa.Value]bool{}, self)...)
		}
		// a field of an element
		if fa, ok := ss[0].Addr.(*ssa.FieldAddr); ok && varying(fa.X) && !depCarried(fa.X) {
			for _, l := range ls {
				if depCarried(l.v) {
					bad("carried", ss[0], "sets a field of an element to what depends on other elements,")
				}
			}
			continue
		}
		label := "a variable"
		if al := allocRoot(ss[0].Addr); al != nil && al.Comment != "" {
			label = al.Comment
		} else if fa, ok := ss[0].Addr.(*ssa.FieldAddr); ok {
			label = "the field " + fieldVar(fa).Name()
		}
		judge(ls, self, deref(ss[0].Addr.Type()), ss[0], label)
	}

	// effects
	outer := func(v ssa.Value) bool {
		// something that other elements know too
		if _, ok := v.(*ssa.Const); ok {
			return false
		}
		if inert(v.Type()) {
			return false
		}
		if carried[v] {
			return true
		}
		return !in(v) && !g.elems[v] || !varying(v) && !in(v) || in(v) && o.outerRooted(g, v)
	}
	for b := range g.blocks {
		panics := endsInPanic(b)
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Store:
				ia := sliceElem(i.Addr)
				if ia == nil {
					continue
				}
				if local(allocRoot(ia)) {
					continue
				}
				if depCarriedBut(i.Val, isCarried, g.index) {
					bad("carried", i, "stores values that depend on the elements before,")
				}
				if !varying(ia.Index) && !in(ia.X) {
					if varying(i.Val) {
						bad("last", i, "sets an element of a slice to what belongs to one of the elements, found")
					}
					continue
				}
				if in(ia.X) && !outer(ia.X) {
					continue
				}
				unordered = append(unordered, ia.X)
			case *ssa.MapUpdate:
				if in(i.Map) && !outer(i.Map) || panics {
					continue
				}
				switch {
				case depCarried(i.Key):
					bad("carried", i, "keeps entries that depend on the elements before,")
				case !varying(i.Value):
				case o.uniqueKey(g, i.Key):
					if depCarried(i.Value) {
						bad("carried", i, "keeps entries that depend on the elements before,")
					}
				case o.mapAccumulates(i):
				default:
					bad("last", i, "keeps the last entry for a key that isn't unique, found")
				}
			case *ssa.Send:
				bad("effect", i, "sends")
			case ssa.CallInstruction:
				if panics {
					continue
				}
				cc := i.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" && outer(cc.Args[0]) {
						unordered = append(unordered, cc.Args[0])
					}
					continue
				}
				if g.head != nil && isMapIter(cc) {
					continue
				}
				for _, x := range cc.Args {
					if depCarriedBut(x, isCarried, g.index) && !o.pureSelect(i, conds) {
						bad("carried", i, "calls %s with what depends on the elements before,", callName(cc, cc.StaticCallee()))
						break
					}
				}
				slices := func(v ssa.Value) bool {
					_, ok := v.Type().Underlying().(*types.Slice)
					return ok
				}
				if w := o.callWrites(i, func(v ssa.Value) bool { return outer(v) && !slices(v) }); w != "" {
					bad("effect", i, "calls %s, which changes something,", w)
				}
				if w := o.callWrites(i, func(v ssa.Value) bool { return outer(v) && slices(v) }); w != "" {
					for _, x := range cc.Args {
						if outer(x) && slices(x) {
							unordered = append(unordered, x)
						}
					}
				}
				if cc.StaticCallee() == nil && !cc.IsInvoke() && staticFn(cc.Value) == nil {
					// a function that was passed sees the order of the elements
					bad("effect", i, "calls a function that was passed to it")
				}
			case *ssa.If:
				if g.head != nil && i.Block() == g.head || conds[i.Cond] {
					continue
				}
				if depCarriedBut(i.Cond, func(v ssa.Value) bool {
					return carried[v] && accum[v] || carried[v] && g.head == nil || isLoad(v) && carried[v]
				}, g.index) && !condKnown(i.Cond, conds) && !o.loopTest(g, i) {
					bad("carried", i, "decides depending on the elements before,")
				}
			case *ssa.Go, *ssa.Defer:
			}
		}
	}

	// the end of the loop before all elements are seen
	if g.head != nil {
		o.exits(g, bad, varying, accum, in)
	}
	for _, v := range unordered {
		var from ssa.Instruction
		if i, ok := v.(ssa.Instruction); ok && g.blocks[i.Block()] {
			from = i
		} else if g.head != nil {
			from = g.head.Instrs[0]
		}
		if g.head == nil {
			from = nil
		}
		o.unordered(v, from, g.what)
	}
}

// sliceElem returns the element that an address is (a part of).
func sliceElem(addr ssa.Value) *ssa.IndexAddr {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			if y := sliceElem(x.X); y != nil {
				return y
			}
			return x
		default:
			return nil
		}
	}
}

func isLoad(v ssa.Value) bool { _, ok := v.(*ssa.UnOp); return ok }

func condKnown(v ssa.Value, conds map[ssa.Value]bool) bool {
	if conds[v] {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		return condKnown(u.X, conds)
	}
	return false
}

func depCarriedBut(v ssa.Value, is func(v ssa.Value) bool, index ssa.Value) bool {
	idx := func(x ssa.Value) bool {
		return index != nil && x == index
	}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if v == nil || seen[v] || idx(v) {
			return false
		}
		seen[v] = true
		if _, ok := v.Type().Underlying().(*types.Slice); ok && is(v) {
			return false // a collection
		}
		if is(v) {
			return true
		}
		i, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		if _, ok := i.(*ssa.Phi); ok && is(v) {
			return true
		}
		for _, op := range i.Operands(nil) {
			if *op != nil && walk(*op) {
				return true
			}
		}
		return false
	}
	return walk(v)
}

func depCarried2(v ssa.Value, self func(v ssa.Value) bool, carried map[ssa.Value]bool) bool {
	return dependsOn(v, func(v ssa.Value) bool { return carried[v] || self(v) })
}

func sameConst(x, y ssa.Value) bool {
	if x == y {
		return true
	}
	c, ok := x.(*ssa.Const)
	d, ok2 := y.(*ssa.Const)
	if !ok || !ok2 {
		return false
	}
	if c.Value == nil || d.Value == nil {
		return c.Value == d.Value
	}
	return constant.Compare(c.Value, token.EQL, d.Value)
}

func isAppend(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func stripSlice(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func isCounter(v ssa.Value, self func(v ssa.Value) bool) bool {
	bo, ok := v.(*ssa.BinOp)
	if !ok || bo.Op != token.ADD && bo.Op != token.SUB {
		return false
	}
	_, ok = bo.Y.(*ssa.Const)
	return ok && self(bo.X)
}

// commutes tells if v is the variable combined with something by an operation where order doesn't matter.
func (o *orders) commutes(v ssa.Value, self, depCarried func(v ssa.Value) bool, carried map[ssa.Value]bool, t types.Type) bool {
	bo, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 && b.Info()&types.IsBoolean == 0 {
		return false
	}
	// the chain of the same operation that leads to the variable
	group := func(op token.Token) int {
		switch op {
		case token.ADD, token.SUB:
			return 1
		case token.MUL:
			return 2
		case token.AND:
			return 3
		case token.OR:
			return 4
		case token.XOR:
			return 5
		}
		return 0
	}
	gr := group(bo.Op)
	if gr == 0 {
		return false
	}
	var chain func(v ssa.Value) bool
	chain = func(v ssa.Value) bool {
		if self(v) {
			return true
		}
		b, ok := v.(*ssa.BinOp)
		if !ok || group(b.Op) != gr {
			return false
		}
		if chain(b.X) {
			return !depCarried(b.Y)
		}
		return b.Op != token.SUB && chain(b.Y) && !depCarried(b.X)
	}
	return chain(bo)
}

// boolGuard tells if a condition becomes the value of a variable only when the variable has a certain value: a
// disjunction or conjunction.
func (o *orders) boolGuard(g *oregion, from *ssa.BasicBlock, v ssa.Value, self func(v ssa.Value) bool, conds map[ssa.Value]bool) bool {
	for b := from; b != nil && g.blocks[b]; b = b.Idom() {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && (b != from || true) {
			c := iff.Cond
			if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
				c = u.X
			}
			if self(c) {
				conds[iff.Cond] = true
				conds[c] = true
				return true
			}
		}
	}
	return false
}

// selected tells if an element is kept because it compares with the one that was kept before.
func (o *orders) selected(g *oregion, from *ssa.BasicBlock, v ssa.Value, self func(v ssa.Value) bool, carried map[ssa.Value]bool, conds map[ssa.Value]bool) bool {
	found := false
	// the conditions that are decided on the way to the block
	for b := range g.blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		if b != from && !b.Dominates(from) {
			// one of several conditions that lead here
			direct := false
			for _, pr := range from.Preds {
				if pr == b {
					direct = true
					continue
				}
				if i2, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If); !ok || !nilTest(i2.Cond, self) && !o.comparison(i2.Cond, v, self, carried) {
					direct = false
					break
				}
			}
			if !direct {
				continue
			}
		}
		if o.comparison(iff.Cond, v, self, carried) {
			// it is this condition that leads here
			conds[iff.Cond] = true
			found = true
		}
	}
	if found {
		for b := range g.blocks {
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
				if nilTest(iff.Cond, self) {
					conds[iff.Cond] = true
				}
			}
		}
	}
	return found
}

// nilTest tells if a condition is about the variable being set.
func nilTest(c ssa.Value, self func(v ssa.Value) bool) bool {
	if bo, ok := c.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		_, ok := bo.Y.(*ssa.Const)
		return ok && self(bo.X)
	}
	return self(c)
}

// comparison tells if a condition compares something of an element with something of the variable.
func (o *orders) comparison(c ssa.Value, v ssa.Value, self func(v ssa.Value) bool, carried map[ssa.Value]bool) bool {
	for {
		u, ok := c.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		c = u.X
	}
	var x, y ssa.Value
	switch c := c.(type) {
	case *ssa.BinOp:
		switch c.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			x, y = c.X, c.Y
			// the result of a comparison
			for _, z := range []ssa.Value{x, y} {
				if e, ok := z.(*ssa.Extract); ok {
					z = e.Tuple
				}
				if call, ok := z.(*ssa.Call); ok {
					if n := callName(&call.Call, call.Call.StaticCallee()); strings.Contains(n, "Compare") || strings.Contains(n, "compare") {
						return o.compares(&call.Call, self, carried)
					}
				}
			}
		default:
			return false
		}
	case *ssa.Call:
		n := strings.ToLower(callName(&c.Call, c.Call.StaticCallee()))
		if strings.Contains(n, "less") || strings.Contains(n, "before") {
			return o.compares(&c.Call, self, carried)
		}
		return false
	default:
		return false
	}
	lossy := func(v ssa.Value) bool {
		return dependsOn(v, func(v ssa.Value) bool {
			switch v := v.(type) {
			case *ssa.BinOp:
				return true
			case *ssa.Call:
				b, ok := v.Call.Value.(*ssa.Builtin)
				return ok && b.Name() == "len" || callName(&v.Call, v.Call.StaticCallee()) == "Len" || callName(&v.Call, v.Call.StaticCallee()) == "HashCode"
			}
			return false
		})
	}
	xs, ys := dependsOn(x, self), dependsOn(y, self)
	if xs == ys {
		return false
	}
	if carriedOther := func(v ssa.Value) bool {
		return dependsOn(v, func(v ssa.Value) bool { return carried[v] && !self(v) })
	}; carriedOther(x) || carriedOther(y) {
		return false
	}
	return !directLossy(x, lossy) && !directLossy(y, lossy)
}

// directLossy ignores computations that the variable itself was created with.
func directLossy(v ssa.Value, lossy func(v ssa.Value) bool) bool {
	switch x := v.(type) {
	case *ssa.BinOp:
		return true
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		n := callName(&x.Call, x.Call.StaticCallee())
		if ok && b.Name() == "len" || n == "Len" || n == "HashCode" {
			return true
		}
		return false
	case *ssa.Convert:
		return directLossy(x.X, lossy)
	}
	return false
}

func (o *orders) compares(cc *ssa.CallCommon, self func(v ssa.Value) bool, carried map[ssa.Value]bool) bool {
	n, m := 0, 0
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for _, x := range args {
		if dependsOn(x, self) {
			n++
		} else if _, ok := x.(*ssa.Const); !ok {
			m++
		}
	}
	return n == 1 && m == 1
}

// pureSelect tells if a call is (part of) a condition that was understood.
func (o *orders) pureSelect(c ssa.CallInstruction, conds map[ssa.Value]bool) bool {
	v := c.Value()
	if v == nil {
		return false
	}
	for k := range conds {
		if dependsOn(k, func(x ssa.Value) bool { return x == v }) {
			return true
		}
	}
	// it is only used in an understood condition
	return false
}

// loopTest tells if an if statement ends a loop over a slice by its index.
func (o *orders) loopTest(g *oregion, i *ssa.If) bool {
	if g.index == nil {
		return false
	}
	bo, ok := i.Cond.(*ssa.BinOp)
	return ok && dependsOn(bo.X, func(v ssa.Value) bool { return v == g.index }) != dependsOn(bo.Y, func(v ssa.Value) bool { return v == g.index })
}

// outerRooted tells if a value that is computed in the region is something that doesn't belong to an element.
func (o *orders) outerRooted(g *oregion, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return o.outerV(g, x.X)
	case *ssa.IndexAddr:
		return o.outerV(g, x.X)
	case *ssa.UnOp:
		if al := allocRoot(x.X); al != nil {
			if g.blocks[al.Block()] {
				return false
			}
			for _, s := range storesTo(al) {
				if s.Parent() == g.f && g.blocks[s.Block()] {
					if o.outerV(g, s.Val) {
						return true
					}
					continue
				}
				return true
			}
			return false
		}
		return o.outerV(g, x.X)
	case *ssa.TypeAssert:
		return o.outerV(g, x.X)
	case *ssa.ChangeType:
		return o.outerV(g, x.X)
	case *ssa.ChangeInterface:
		return o.outerV(g, x.X)
	case *ssa.MakeInterface:
		return o.outerV(g, x.X)
	case *ssa.Slice:
		return o.outerV(g, x.X)
	case *ssa.Extract:
		return o.outerV(g, x.Tuple)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != x && o.outerV(g, e) {
				return true
			}
		}
	case *ssa.MakeClosure:
		for _, e := range x.Bindings {
			if o.outerV(g, e) {
				return true
			}
		}
	}
	return false
}

func (o *orders) outerV(g *oregion, v ssa.Value) bool {
	if g.elems[v] {
		return false
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return false
	}
	if i, ok := v.(ssa.Instruction); ok && g.blocks[i.Block()] {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == g.head {
			return true
		}
		return o.outerRooted(g, v)
	}
	return true
}

// uniqueKey tells if a key differs for each element.
func (o *orders) uniqueKey(g *oregion, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.ChangeType:
		return o.uniqueKey(g, x.X)
	case *ssa.ChangeInterface:
		return o.uniqueKey(g, x.X)
	case *ssa.MakeInterface:
		return o.uniqueKey(g, x.X)
	case *ssa.TypeAssert:
		return o.uniqueKey(g, x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al := resolveCell(x.X); al != nil {
				if ss := storesTo(al); len(ss) == 1 {
					return o.uniqueKey(g, ss[0].Val)
				}
			}
			return g.keys[x.X]
		}
	}
	return g.keys[v]
}

// mapAccumulates tells if what is stored is what was there before combined with something, in any order.
func (o *orders) mapAccumulates(u *ssa.MapUpdate) bool {
	self := func(v ssa.Value) bool {
		l, ok := v.(*ssa.Lookup)
		return ok && l.X == u.Map && l.Index == u.Key
	}
	none := func(v ssa.Value) bool { return false }
	return o.commutes(u.Value, self, none, nil, u.Value.Type())
}

func endsInPanic(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
	return ok
}

func isMapIter(cc *ssa.CallCommon) bool {
	g := cc.StaticCallee()
	if g == nil || g.Signature.Recv() == nil {
		return false
	}
	return strings.HasSuffix(g.Signature.Recv().Type().String(), "reflect.MapIter")
}

// exits checks what happens when a loop ends early.
func (o *orders) exits(g *oregion, bad func(rule string, in ssa.Instruction, f string, args ...interface{}), varying func(v ssa.Value) bool, accum map[ssa.Value]bool, in func(v ssa.Value) bool) {
	outcome := ""
	for u := range g.blocks {
		if u == g.head {
			continue
		}
		for _, w := range u.Succs {
			if g.blocks[w] {
				continue
			}
			if iff, ok := u.Instrs[len(u.Instrs)-1].(*ssa.If); ok && o.loopTest(g, iff) {
				continue
			}
			if o.oneElement(g, u, w) {
				continue
			}
			// the blocks that only belong to this exit
			last := w.Instrs[len(w.Instrs)-1]
			if endsInPanic(w) {
				continue
			}
			var where ssa.Instruction = last
			found := false
			sig := ""
			use := func(v ssa.Value) {
				if v == nil {
					return
				}
				if c, ok := v.(*ssa.Const); ok {
					sig += "|" + c.String()
					return
				}
				if in(v) || g.elems[v] || varying(v) && dependsOn(v, func(v ssa.Value) bool { return g.elems[v] || in(v) }) {
					found = true
				}
			}
			seen := map[*ssa.BasicBlock]bool{}
			var visit func(from, b *ssa.BasicBlock)
			visit = func(from, b *ssa.BasicBlock) {
				own := len(b.Preds) == 1 || w.Dominates(b)
				for _, i := range b.Instrs {
					if ph, ok := i.(*ssa.Phi); ok {
						for j, pr := range b.Preds {
							if pr == from {
								use(ph.Edges[j])
							}
						}
						continue
					}
					if !own {
						break
					}
					switch i := i.(type) {
					case *ssa.DebugRef:
					case *ssa.Return:
						for _, x := range i.Results {
							use(x)
						}
					default:
						for _, op := range i.Operands(nil) {
							if *op != nil {
								if _, ok := (*op).(*ssa.Const); !ok {
									use(*op)
								}
							}
						}
					}
				}
				if seen[b] || !own {
					return
				}
				seen[b] = true
				for _, s := range b.Succs {
					visit(b, s)
				}
			}
			visit(u, w)
			if found {
				bad("first", where, "uses what was found first")
			}
			if outcome != "" && sig != "" && outcome != sig {
				bad("first", where, "ends with what was found first")
			}
			if sig != "" {
				outcome = sig
			}
			// counts and collections are incomplete
			for v := range accum {
				if v == g.index {
					continue
				}
				for _, r := range *v.Referrers() {
					if !g.blocks[r.Block()] && (w.Dominates(r.Block()) || reaches(w, r.Block())) {
						if ph, ok := r.(*ssa.Phi); ok {
							used := false
							for j, e := range ph.Edges {
								if e == v && (ph.Block().Preds[j] == u || w.Dominates(ph.Block().Preds[j]) || ph.Block().Preds[j] == w) {
									used = true
								}
							}
							if !used {
								continue
							}
						}
						bad("first", r, "uses what was collected before it ended early")
					}
				}
			}
		}
	}
}

func reaches(from, to *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(from)
}

// oneElement tells if an exit is taken for the element with a certain key only.
func (o *orders) oneElement(g *oregion, u, w *ssa.BasicBlock) bool {
	to := w
	for b := u; b != nil && g.blocks[b]; b = b.Idom() {
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if bo, ok := iff.Cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				i := 0
				if bo.Op == token.NEQ {
					i = 1
				}
				s := b.Succs[i]
				if s == to && (len(s.Preds) == 1 || b == u) || s.Dominates(u) && len(s.Preds) == 1 {
					x, y := bo.X, bo.Y
					if o.uniqueKey(g, y) {
						x, y = y, x
					}
					if o.uniqueKey(g, x) && !dependsOn(y, func(v ssa.Value) bool { return g.elems[v] }) {
						return true
					}
				}
			}
		}
	}
	return false
}

// comparator checks that elements that a sort function can't tell apart are the same.
func (o *orders) comparator(c ssa.CallInstruction, lessOf map[*ssa.Function]bool) {
	cc := c.Common()
	g := cc.StaticCallee()
	name := g.Name()
	if g.Origin() != nil {
		name = g.Origin().Name()
	}
	switch name {
	case "Slice", "SliceStable":
		l := staticFn(cc.Args[1])
		if l == nil || l.Blocks == nil {
			o.fail("sorted", fname(c.Parent()), o.a.p.instrPos(c), "the function that decides the order isn't known")
			return
		}
		lessOf[l] = true
		o.total(l, 0, c)
	case "Sort", "Stable":
		mi, ok := cc.Args[0].(*ssa.MakeInterface)
		if !ok {
			return
		}
		l := o.a.p.methodOf(mi.X.Type(), "Less")
		if l == nil || l.Blocks == nil || !o.a.p.inModule(l) {
			return
		}
		lessOf[l] = true
		o.total(l, 1, c)
	}
}

// total interprets a function that tells if one element goes before another.
func (o *orders) total(l *ssa.Function, skip int, c ssa.CallInstruction) {
	if o.less[l] {
		return
	}
	o.less[l] = true
	o.r.count("comparators", 1)
	a := o.a
	ip := newInterp(a)
	ip.limit = 20000
	ip.flat = true
	ip.symIndex = true
	var binds []AV
	for _, fv := range l.FreeVars {
		k := byte('s')
		if b := binding(fv); b != nil && resolveCell(b) != nil {
			k = 'p'
		}
		binds = append(binds, AV{K: k, S: "bound:" + fv.Name()})
	}
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) }
	ip.call = func(st *ist, ci ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		cc := ci.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil, false
		}
		n := callName(cc, g)
		rs := cc.Signature().Results()
		if n == "Equals" && len(args) >= 2 {
			return []iout{{st: st, res: []AV{pairEq(args[0], args[1])}}}, true
		}
		if rs.Len() == 2 || n == "String" || n == "TypeIdentifier" || n == "HashCode" || n == "Name" || n == "Type" || g == nil || g.Blocks == nil || !a.p.inModule(g) {
			return pairUnknown(ip, st, n, cc, args), true
		}
		return nil, false
	}
	compareHook(a, ip)
	st := newIst()
	var args []AV
	for i := range l.Params {
		switch {
		case i < skip:
			args = append(args, AV{K: 's', S: "recv"})
		case i == skip:
			args = append(args, AV{K: 's', S: pairX, T: types.Typ[types.Int]})
		default:
			args = append(args, AV{K: 's', S: pairY, T: types.Typ[types.Int]})
		}
	}
	outs := ip.run(l, append(args, binds...), st)
	name, pos := fname(c.Parent()), a.p.instrPos(c)
	if ip.bad != "" {
		o.fail("sorted", name, pos, "the order cannot be decided: "+ip.bad)
		return
	}
	r := &pairRun{ip: ip, outs: outs, small: map[string]bool{}}
	konst := func(s string) constant.Value {
		if s != "" && s[0] == 'c' {
			return ip.consts[s[1:]]
		}
		return nil
	}
	// the parts of an element
	var parts []string
	elem := types.Type(nil)
	eachInstr([]*ssa.Function{l}, func(in ssa.Instruction) {
		if ia, ok := in.(*ssa.IndexAddr); ok && elem == nil && (ia.Index == l.Params[skip] || ia.Index == l.Params[skip+1]) {
			elem = deref(ia.Type())
		}
	})
	if elem != nil {
		switch u := elem.Underlying().(type) {
		case *types.Array:
			for i := int64(0); i < u.Len(); i++ {
				parts = append(parts, fmt.Sprintf("[%s][%d]", pairX, i))
			}
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if types.IsInterface(u.Field(i).Type()) {
					parts = append(parts, fmt.Sprintf("[%s].%s", pairX, u.Field(i).Name()))
				}
			}
		}
	}
	var ties []*ist
	for _, out := range outs {
		if out.exit || len(out.res) != 1 {
			continue
		}
		if b, known := ip.boolOf(out.st, out.res[0]); known {
			if !b {
				ties = append(ties, out.st)
			}
			continue
		}
		s := out.st.clone()
		ip.assume(s, out.res[0], false)
		ties = append(ties, s)
	}
	ords, seen := []*ordering{}, map[string]bool{}
	var swapped []*ordering
	for _, x := range ties {
		s := newIst()
		for k, b := range x.rel {
			if !strings.HasPrefix(k, "nil:") {
				s.rel[k] = b
			}
		}
		if k := s.sharedKey(); !seen[k] {
			seen[k] = true
			ords = append(ords, r.orderingOf(s, false))
			swapped = append(swapped, r.orderingOf(s, true))
		}
	}
	o.r.count("comparator outcomes", len(ords))
	for _, x := range ords {
		for _, y := range swapped {
			if !x.compatible(y) || !x.consistent(y, konst) {
				continue
			}
			// neither goes before the other: their content must be the same
			if missing := o.tieEvidence(x, y, parts); missing != "" {
				dbgf("tie %v // %v", x, y)
				o.fail("sorted", name, pos, fmt.Sprintf("%s sorts elements that are in random order, but neither of two elements goes before the other although %s", name, missing))
				return
			}
		}
	}
}

// tieEvidence tells why two elements that weren't ordered may still be different.
func (o *orders) tieEvidence(x, y *ordering, parts []string) string {
	eq := func(k [2]string) bool {
		m := ordAny
		if v, ok := x.rel[k]; ok {
			m &= v
		}
		if v, ok := y.rel[k]; ok {
			m &= v
		}
		return m == ordEQ
	}
	keys := map[[2]string]bool{}
	for k := range x.rel {
		keys[k] = true
	}
	for k := range y.rel {
		keys[k] = true
	}
	var same []string
	for k := range keys {
		if k[0] != pairSwap(k[1]) || k[0] == k[1] {
			continue
		}
		n := k[0] + k[1]
		if eq(k) && !strings.Contains(n, "cmp ") && !strings.Contains(n, "HashCode(") && !strings.Contains(n, "len(") && !strings.Contains(n, "Len(") && !strings.Contains(n, "TypeIdentifier(") {
			same = append(same, n)
		}
	}
	for f, b := range x.facts {
		if b && strings.HasPrefix(f, "eq{") && f != pairSwap(f) {
			same = append(same, f)
		}
	}
	if len(same) == 0 {
		return "they may be different"
	}
	for _, part := range parts {
		found := false
		for _, f := range same {
			if strings.Contains(f, part) {
				found = true
			}
		}
		if !found {
			return "they may differ in " + part[strings.Index(part, "]")+1:]
		}
	}
	return ""
}

func checkC23(a *Analysis, r *Report) {
	p := a.p
	r.Rules = []string{
		"commutative: code that runs for each element of a Go map (loops over maps, reflect's map iterators, callbacks of sync.Map.Range), or of a slice that was made from one, only does what yields the same in any order: it sets entries of other Go maps with unique keys, sums up, takes the smallest, sets a flag, ends with a constant, or collects",
		"put in order: a slice with elements that were collected in random order (including the keys that reflect returns), in whatever function it ends up, is sorted before it is kept, indexed, passed on or returned",
		"sorted: elements that the sort function cannot tell apart are the same",
	}
	o := &orders{a: a, r: r, bad: map[string]bool{}, writes: map[string]int{}, params: map[*ssa.Parameter]string{}, results: map[*ssa.Function]map[int]string{}, seen: map[string]bool{}, less: map[*ssa.Function]bool{}}
	n := 0
	for _, f := range p.Funcs {
		loops := loopsOf(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Next:
					if in.IsString {
						continue
					}
					n++
					what := "a Go map"
					g := &oregion{f: f, elems: map[ssa.Value]bool{in: true}, keys: map[ssa.Value]bool{}, what: what, pos: p.instrPos(in)}
					for _, ref := range *in.Referrers() {
						if e, ok := ref.(*ssa.Extract); ok && e.Index > 0 {
							g.elems[e] = true
							if e.Index == 1 || o.uniqueValues(in) {
								g.keys[e] = true
							}
						}
					}
					o.loopAt(g, b, loops)
				case *ssa.Call:
					s := in.Call.StaticCallee()
					if s == nil || s.Signature.Recv() == nil {
						if s != nil && s.Pkg != nil && s.Pkg.Pkg.Path() == "maps" {
							o.unordered(in, in, "a Go map")
							n++
						}
						continue
					}
					rt := s.Signature.Recv().Type().String()
					switch {
					case rt == "reflect.Value" && s.Name() == "MapKeys":
						n++
						o.unordered(in, in, "the keys of a reflected map")
					case rt == "*reflect.MapIter" && s.Name() == "Next":
						n++
						g := &oregion{f: f, elems: map[ssa.Value]bool{in: true}, keys: map[ssa.Value]bool{}, what: "a reflected map", pos: p.instrPos(in)}
						it := in.Call.Args[0]
						eachInstr([]*ssa.Function{f}, func(x ssa.Instruction) {
							if c, ok := x.(*ssa.Call); ok && isMapIter(&c.Call) && c != in && (c.Call.Args[0] == it || slicePath(c.Call.Args[0]) == slicePath(it)) {
								g.elems[c] = true
								if c.Call.StaticCallee().Name() == "Key" {
									g.keys[c] = true
								}
							}
						})
						o.loopAt(g, b, loops)
					case rt == "*sync.Map" && s.Name() == "Range":
						n++
						cb := staticFn(in.Call.Args[1])
						if cb == nil || cb.Blocks == nil || !p.inModule(cb) {
							o.fail("callback", fname(f), p.instrPos(in), "the function that is called for each entry isn't known")
							continue
						}
						g := &oregion{f: cb, blocks: map[*ssa.BasicBlock]bool{}, elems: map[ssa.Value]bool{}, keys: map[ssa.Value]bool{}, what: "a sync.Map", pos: p.instrPos(in)}
						for _, b := range cb.Blocks {
							g.blocks[b] = true
						}
						for i, x := range cb.Params {
							g.elems[x] = true
							if i == len(cb.Params)-2 {
								g.keys[x] = true
							}
						}
						o.region(g)
					}
				}
			}
		}
	}
	r.count("sources of random order", n)
	r.ob(true, "sources", "all", "-", "")
	r.atLeast("sources of random order", 1)
	r.Assumptions = append(r.Assumptions,
		"calls of String, HashCode, Equals, Type and other methods that read do not depend on or record the order in which they are called (caches aside)",
		"values of the same kind with the same string are the same")
}

// uniqueValues tells if the map that is iterated is a table that has each value once.
func (o *orders) uniqueValues(n *ssa.Next) bool {
	rg, ok := n.Iter.(*ssa.Range)
	if !ok {
		return false
	}
	gl := loadedGlobal(rg.X)
	if gl == nil {
		return false
	}
	seen := map[string]bool{}
	uniq, any := true, false
	for _, f := range o.a.p.Funcs {
		eachInstr([]*ssa.Function{f}, func(in ssa.Instruction) {
			if u, ok := in.(*ssa.MapUpdate); ok && loadedGlobal(u.Map) == gl {
				uniq = false
			}
		})
	}
	eachInstr([]*ssa.Function{gl.Pkg.Func("init")}, func(in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok || s.Addr != gl {
			return
		}
		mk, ok := s.Val.(*ssa.MakeMap)
		if !ok {
			uniq = false
			return
		}
		for _, r := range *mk.Referrers() {
			u, ok := r.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			any = true
			c, ok := u.Value.(*ssa.Const)
			if !ok || seen[c.String()] {
				uniq = false
				continue
			}
			seen[c.String()] = true
		}
	})
	return uniq && any
}

func (o *orders) loopAt(g *oregion, b *ssa.BasicBlock, loops map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool) {
	var head *ssa.BasicBlock
	for h, body := range loops {
		if body[b] && (head == nil || len(body) < len(loops[head])) {
			head = h
		}
	}
	if head == nil {
		// the first element only
		o.fail("picked", fname(g.f), g.pos, fmt.Sprintf("%s uses what happens to be the first element of %s", fname(g.f), g.what))
		return
	}
	g.head, g.blocks = head, loops[head]
	o.region(g)
	_ = sort.Strings
}
