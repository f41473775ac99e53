package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C10: collections never contain an unset element. C02: what a frozen collection contains is frozen.
//
// Every function that stores in the storage of a collection is interpreted, with the helpers that it uses inlined. Loops
// are followed for two turns, and a loop that ends has established how many elements there are. At the end of each path
// the content of each collection that was created or changed, and that can be reached, is determined: each element is a
// value that was stored, or belongs to storage of another collection that satisfied the property from the start.

type elemCheck struct {
	a       *Analysis
	ip      *interp
	fz      *types.Interface
	value   *types.Interface
	fields  map[string]bool // fields of values that are slices of values
	mapT    types.Type
	closure map[*ssa.Function]bool
	helps   map[*ssa.Function]bool
	sinks   map[*ssa.Function]bool
	entered map[*ssa.Function]bool
	nonNil  map[*ssa.Function]int
	tnames  map[string]types.Type
	subs    map[string]subSlice
	subIDs  map[string]string
	cats    map[string][]AV
	catIDs  map[string]string
	unset   bool // C10, otherwise C02
	root    *ssa.Function
	set     map[string]bool
	counts  map[string]int
	always  map[string]bool
	makes   map[string]string // what a constructor returns
	strict  bool
	hard    map[types.Type]bool
}

type subSlice struct {
	base        AV
	lo, hi, max AV // K 0: absent
	zero        bool
}

func newElemCheck(a *Analysis) *elemCheck {
	p := a.p
	e := &elemCheck{a: a, fz: p.iface("Freezable"), value: p.iface("Value"), fields: map[string]bool{}, sinks: map[*ssa.Function]bool{},
		closure: map[*ssa.Function]bool{}, helps: map[*ssa.Function]bool{}, entered: map[*ssa.Function]bool{}, nonNil: map[*ssa.Function]int{},
		tnames: map[string]types.Type{}, counts: map[string]int{}, always: map[string]bool{}, hard: map[types.Type]bool{}, mapT: types.NewPointer(p.named("internal", "hashMap"))}
	valueT := p.named("dgo", "Value")
	sliceT := types.NewSlice(valueT)
	for _, n := range p.Named {
		s, ok := n.Underlying().(*types.Struct)
		if !ok || !types.Implements(types.NewPointer(n), e.value) {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if types.Identical(s.Field(i).Type(), sliceT) {
				e.fields["."+s.Field(i).Name()] = true
			}
		}
	}
	entry := p.named("internal", "mapEntry")
	pkg := p.SPkgs["internal"].Pkg
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		if f.Pkg == nil || f.Blocks == nil {
			continue
		}
		eachInstr([]*ssa.Function{f}, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				switch ad := in.Addr.(type) {
				case *ssa.FieldAddr:
					fv := fieldVar(ad)
					n, _ := types.Unalias(deref(ad.X.Type())).(*types.Named)
					if n == nil || n.Obj().Pkg() != pkg {
						break
					}
					if n == entry && types.Identical(fv.Type(), valueT) || types.Identical(fv.Type(), sliceT) && types.Implements(types.NewPointer(n), e.value) || fv.Name() == "frozen" {
						e.sinks[f] = true
					}
				case *ssa.IndexAddr:
					if types.Identical(ad.X.Type(), sliceT) && f.Pkg.Pkg == pkg && !scratch(ad.X) {
						e.sinks[f] = true
					} else if _, param := ad.X.(*ssa.Parameter); param && f.Pkg.Pkg == pkg && valuesIn(ad.X.Type(), valueT) {
						e.helps[f] = true
					}
				}
			case ssa.CallInstruction:
				cc := in.Common()
				if b, ok := cc.Value.(*ssa.Builtin); ok {
					if (b.Name() == "append" || b.Name() == "copy") && types.Identical(cc.Args[0].Type(), sliceT) && f.Pkg.Pkg == pkg {
						e.sinks[f] = true
					}
					return
				}
				if cc.IsInvoke() {
					switch cc.Method.Name() {
					case "FrozenCopy", "Freeze", "Replace":
						e.helps[f] = true
					}
				}
				if g := cc.StaticCallee(); g != nil {
					calls[f] = append(calls[f], g)
				}
			}
		})
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if t := f.Signature.Results().At(i).Type(); types.Identical(t, sliceT) || f.Pkg.Pkg == pkg && valuesIn(t, valueT) {
				e.helps[f] = true
			}
		}
		for _, g := range f.AnonFuncs {
			calls[f] = append(calls[f], g)
		}
	}
	gives := func(f *ssa.Function) bool {
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if t := f.Signature.Results().At(i).Type(); !types.IsInterface(t) && types.Implements(t, e.fz) {
				return true
			}
		}
		return false
	}
	inner := func(g *ssa.Function) bool {
		return g.Parent() != nil || g.Object() == nil || !g.Object().Exported()
	}
	for f := range e.sinks {
		e.closure[f] = true
	}
	for ch := true; ch; {
		ch = false
		for f, gs := range calls {
			for _, g := range gs {
				if e.closure[g] && !e.closure[f] && (inner(g) || inner(f) && gives(f)) {
					e.closure[f], ch = true, true
				}
				if e.helps[g] && !e.helps[f] && inner(g) && inner(f) {
					e.helps[f], ch = true, true
				}
			}
		}
	}
	return e
}

// valuesIn tells if the type is that of a slice, or a slice of arrays, of values.
func valuesIn(t, valueT types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	el := s.Elem()
	if a, ok := el.Underlying().(*types.Array); ok {
		el = a.Elem()
	} else if a, ok := el.Underlying().(*types.Slice); ok {
		el = a.Elem()
	}
	return types.Identical(el, valueT)
}

// scratch tells if a slice was made by the function that uses it, and is neither stored, returned, nor passed on.
func scratch(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var made func(v ssa.Value) bool
	made = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.MakeSlice:
		case *ssa.Phi:
			for _, x := range v.Edges {
				if !made(x) {
					return false
				}
			}
		case *ssa.Slice:
			if !made(v.X) {
				return false
			}
		case *ssa.Call:
			// a copy
			g := v.Common().StaticCallee()
			if g == nil || !copies(g) {
				return false
			}
		default:
			return false
		}
		for _, ref := range *v.Referrers() {
			switch ref := ref.(type) {
			case *ssa.IndexAddr, *ssa.DebugRef:
			case *ssa.Phi:
				if !made(ref) {
					return false
				}
			case *ssa.Slice:
				if !made(ref) {
					return false
				}
			case *ssa.Call:
				if b, ok := ref.Common().Value.(*ssa.Builtin); !ok || b.Name() == "append" || b.Name() == "copy" && ref.Common().Args[0] != v {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return made(v)
}

// copies tells if what a function returns is a slice that it made.
func copies(g *ssa.Function) bool {
	n := 0
	for _, b := range g.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if len(ret.Results) != 1 {
				return false
			}
			if _, ok := ret.Results[0].(*ssa.MakeSlice); !ok {
				return false
			}
			n++
		}
	}
	return n > 0
}

// alwaysFrozen tells if a field, that is an array itself, is frozen in each value that is created.
func (e *elemCheck) alwaysFrozen(n *types.Named, field string) bool {
	k := n.Obj().Name() + "." + field
	if b, ok := e.always[k]; ok {
		return b
	}
	r, found := true, 0
	for _, f := range e.a.p.Funcs {
		filled, set := 0, 0
		eachInstr([]*ssa.Function{f}, func(in ssa.Instruction) {
			s, ok := in.(*ssa.Store)
			if !ok {
				return
			}
			in1, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				return
			}
			if deref(in1.X.Type()) == types.Type(n) && fieldVar(in1).Name() == field {
				// assigned as a whole
				filled++
				if ld, ok := s.Val.(*ssa.UnOp); ok {
					if al, ok := ld.X.(*ssa.Alloc); ok {
						for _, ref := range *al.Referrers() {
							fa, ok := ref.(*ssa.FieldAddr)
							if !ok || fieldVar(fa).Name() != "frozen" {
								continue
							}
							for _, ref := range *fa.Referrers() {
								if s, ok := ref.(*ssa.Store); ok {
									if c, ok := s.Val.(*ssa.Const); ok && constant.BoolVal(c.Value) {
										set++
									}
								}
							}
						}
					}
				}
				return
			}
			in2, ok := in1.X.(*ssa.FieldAddr)
			if !ok || deref(in2.X.Type()) != types.Type(n) || fieldVar(in2).Name() != field {
				return
			}
			switch al, fresh := in2.X.(*ssa.Alloc); {
			case fieldVar(in1).Name() == "frozen":
				c, ok := s.Val.(*ssa.Const)
				if !ok || !constant.BoolVal(c.Value) {
					r = false
				}
				set++
			case fresh && al.Heap:
				filled++
			}
		})
		if filled > set {
			r = false
		}
		found += filled
	}
	r = r && found > 0
	e.always[k] = r
	return r
}

func (e *elemCheck) say(f string, x ...interface{}) { e.set[fmt.Sprintf(f, x...)] = true }

// canModify tells if values of a static type may be of a kind that can be modified.
func (e *elemCheck) canModify(t types.Type) bool {
	if b, ok := e.hard[t]; ok {
		return b
	}
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		b := types.Implements(t, e.fz)
		e.hard[t] = b
		return b
	}
	if !types.Implements(t, e.value) {
		return true
	}
	b := false
	for _, c := range e.a.p.implementers(it) {
		if !types.Implements(c, e.fz) {
			continue
		}
		if f := e.a.p.methodOf(c, "Freeze"); f != nil && !e.a.noReturn(f) {
			b = true
		}
	}
	if b2, ok := t.(*types.Named); ok && b2.Obj().Pkg() != nil && !e.a.p.inModulePkg(b2.Obj().Pkg()) {
		b = true
	}
	e.hard[t] = b
	return b
}

func (p *Prog) inModulePkg(k *types.Package) bool {
	return k.Path() == modPath || strings.HasPrefix(k.Path(), modPath+"/")
}

var (
	nodePath = regexp.MustCompile(`^(.*)\.(?:first(?:\.next)*|last(?:\.prev)*|table\[[^\[\]]*\](?:\.hashNext)*)$`)
	elemSym  = regexp.MustCompile(`^e(elem|key)‹(.*)›\d+$`)
)

// baseOf strips an offset.
func baseOf(p string) string {
	if i := strings.LastIndex(p, "«"); i >= 0 && strings.HasSuffix(p, "»") {
		return p[:i]
	}
	return p
}

func (e *elemCheck) isField(p string) (owner string, ok bool) {
	p = baseOf(p)
	if i := strings.LastIndexByte(p, '.'); i > 0 && e.fields[p[i:]] {
		return p[:i], true
	}
	return "", false
}

// indexOf splits the path of an element.
func indexOf(p string) (base, ix string, ok bool) {
	if !strings.HasSuffix(p, "]") {
		return "", "", false
	}
	d := 0
	for i := len(p) - 1; i >= 0; i-- {
		switch p[i] {
		case ']':
			d++
		case '[':
			d--
			if d == 0 {
				return p[:i], p[i+1 : len(p)-1], true
			}
		}
	}
	return "", "", false
}

// elemOf tells what a symbol is an element of: its owner, or the parts of a slice that was made from others.
func (e *elemCheck) elemOf(s string) (owner string, key bool, parts []AV, ok bool) {
	if m := elemSym.FindStringSubmatch(s); m != nil {
		return m[2], m[1] == "key", nil, true
	}
	for _, k := range []string{".mapEntry.key", ".key"} {
		if o, ok := strings.CutSuffix(s, k); ok {
			return o, true, nil, true
		}
	}
	for _, k := range []string{".mapEntry.value", ".value"} {
		if o, ok := strings.CutSuffix(s, k); ok {
			o = strings.TrimSuffix(o, ".mapEntry")
			if m := nodePath.FindStringSubmatch(o); m != nil {
				return m[1], false, nil, true
			}
			return o, false, nil, k != ".value" || !strings.HasSuffix(o, ")")
		}
	}
	if m := nodePath.FindStringSubmatch(strings.TrimSuffix(s, ".mapEntry")); m != nil {
		return m[1], false, nil, true
	}
	if b, _, ok := indexOf(s); ok {
		b = baseOf(b)
		if sb, ok := e.subs[b]; ok {
			return e.elemOf(sb.base.S + "[?]")
		}
		if ps, ok := e.cats[b]; ok {
			return "", false, ps, true
		}
		if o, ok := e.isField(b); ok {
			return o, false, nil, true
		}
	}
	if c, ok := e.ip.sources[s]; ok && len(c.args) > 0 && c.ix == 0 {
		name := sourceName(c)
		switch name {
		case "Key":
			return c.args[0].S, true, nil, true
		case "Value":
			if len(c.args) == 1 {
				o := c.args[0].S
				if m := nodePath.FindStringSubmatch(strings.TrimSuffix(o, ".mapEntry")); m != nil {
					o = m[1]
				}
				return o, false, nil, true
			}
		case "Get", "Arg":
			return c.args[0].S, false, nil, true
		}
	}
	return "", false, nil, false
}

func sourceName(c callSource) string {
	if cc := c.call.Common(); cc.IsInvoke() {
		return cc.Method.Name()
	}
	if c.fn != nil && c.fn.Signature.Recv() != nil {
		return c.fn.Name()
	}
	if c.fn != nil {
		return fname(c.fn)
	}
	return ""
}

func flagOf(owner string) string { return "flag(" + owner + ")" }

// frozen tells if a value is frozen, or cannot be modified.
func (e *elemCheck) frozen(st *ist, v AV, d int) bool {
	if d > 12 {
		return false
	}
	switch v.K {
	case 'c', 'f', 'n':
		return true
	case 0:
		return false
	}
	t := v.T
	if t == nil {
		t = st.dyn[v.S]
	}
	if t != nil && !types.IsInterface(t) && !types.Implements(t, e.fz) {
		return true
	}
	if freshAV(v) {
		return e.frozenFresh(st, v, t, d)
	}
	if strings.HasPrefix(v.S, "frozen(") {
		return true
	}
	if b, ok := st.rel[flagOf(v.S)]; ok && b {
		return true
	}
	if t != nil && e.inModule(t) {
		if s, ok := deref(t).Underlying().(*types.Struct); ok && e.frozenFields(st, v.S, s, d) {
			return true
		}
	}
	if _, ok := st.mem["#froze:"+v.S]; ok {
		return true
	}
	if b, ok := st.rel["is:dgo.Freezable:"+v.S]; ok && !b {
		return true
	}
	if s, ok := e.ip.static[v.S]; ok && s != nil && !e.canModify(s) {
		return true
	}
	for n, s := range e.tnames {
		if st.rel["is:"+n+":"+v.S] && !e.canModify(s) {
			return true
		}
	}
	// what is the same as something that is frozen
	for k, b := range st.rel {
		if r, ok := e.ip.rels[k]; ok && b && r.op == token.EQL && r.x.K == 's' && r.y.K == 's' {
			if r.x.S == v.S && e.frozen(st, r.y, d+6) || r.y.S == v.S && e.frozen(st, r.x, d+6) {
				return true
			}
		}
	}
	if owner, key, parts, ok := e.elemOf(v.S); ok {
		if key {
			return true
		}
		if parts != nil {
			for _, x := range parts {
				if !e.content(st, x, func(y AV) bool { return e.frozen(st, y, d+1) }, func(o string) bool { return e.frozenOwner(st, o, d+1) }, nil) {
					return false
				}
			}
			return true
		}
		return e.frozenOwner(st, owner, d+1)
	}
	if c, ok := e.ip.sources[v.S]; ok && sourceName(c) == "Replace" && len(c.args) > 1 {
		return e.frozen(st, c.args[len(c.args)-1], d+1)
	}
	return false
}

func (e *elemCheck) frozenOwner(st *ist, owner string, d int) bool {
	if b, ok := st.rel[flagOf(owner)]; ok && b {
		return true
	}
	if strings.HasPrefix(owner, "@") {
		return false
	}
	if i := strings.LastIndexByte(owner, '.'); i > 0 {
		if t := e.ip.static[owner[:i]]; t != nil {
			if n, ok := deref(t).(*types.Named); ok && e.alwaysFrozen(n, owner[i+1:]) {
				return true
			}
		}
	}
	return e.frozen(st, AV{K: 's', S: owner}, d+1)
}

// frozenFresh tells if something that was created is frozen. If it has a flag then its content is examined elsewhere.
func (e *elemCheck) frozenFresh(st *ist, v AV, t types.Type, d int) bool {
	if strings.HasPrefix(v.S, "@put") {
		return e.frozen(st, st.mem[v.S+".mapEntry.value"], d+1)
	}
	if t == nil {
		return false
	}
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	return e.frozenFields(st, v.S, s, d)
}

func (e *elemCheck) inModule(t types.Type) bool {
	n, _ := deref(t).(*types.Named)
	return n != nil && n.Obj().Pkg() != nil && e.a.p.inModulePkg(n.Obj().Pkg())
}

func (e *elemCheck) frozenFields(st *ist, at string, s *types.Struct, d int) bool {
	if b, ok := st.rel[flagOf(at)]; ok && b {
		return true
	}
	holds := false
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); f.Name() == "frozen" {
			x := e.ip.read(st, at+".frozen", f.Type())
			b, known := e.ip.boolOf(st, x)
			return known && b
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if n, ok := deref(f.Type()).(*types.Named); ok && n.Obj().Name() == "hashNode" {
			continue
		}
		if sub, ok := f.Type().Underlying().(*types.Struct); ok && e.inModule(f.Type()) {
			if !e.frozenFields(st, at+"."+f.Name(), sub, d+1) {
				return false
			}
			holds = true
			continue
		}
		if types.IsInterface(f.Type()) && f.Name() != "key" {
			if x := e.ip.read(st, at+"."+f.Name(), f.Type()); !e.frozen(st, x, d+1) {
				return false
			}
			holds = true
		}
	}
	return holds
}

// isSet tells if a value isn't nil.
func (e *elemCheck) isSet(st *ist, v AV, d int) bool {
	switch v.K {
	case 'c', 'p', 'f':
		return true
	case 's':
	default:
		return false
	}
	if d > 12 || strings.HasPrefix(v.S, "zero:") {
		return false
	}
	if v.T != nil || st.dyn[v.S] != nil {
		return true
	}
	if b, ok := st.rel["nil:"+v.S]; ok {
		return !b
	}
	if b, ok := st.rel[relAV(token.EQL, AV{K: 'n'}, AV{K: 's', S: v.S}, nil).S]; ok {
		return !b
	}
	for n := range e.tnames {
		if st.rel["is:"+n+":"+v.S] {
			return true
		}
	}
	if s, ok := strings.CutPrefix(v.S, "frozen("); ok {
		return e.isSet(st, AV{K: 's', S: strings.TrimSuffix(s, ")")}, d+1)
	}
	if strings.HasPrefix(v.S, "value(") {
		return true
	}
	if c, ok := e.ip.sources[v.S]; ok {
		return e.callSet(st, c, d)
	}
	if elemSym.MatchString(v.S) {
		return true
	}
	if b, _, ok := indexOf(v.S); ok {
		if _, ok := e.isField(b); ok {
			return true
		}
		_, _, parts, ok := e.elemOf(v.S)
		if !ok {
			return false
		}
		for _, x := range parts {
			if !e.content(st, x, func(y AV) bool { return e.isSet(st, y, d+1) }, func(string) bool { return true }, nil) {
				return false
			}
		}
		return true
	}
	// a field of something
	i := strings.LastIndexByte(v.S, '.')
	t := e.ip.static[v.S]
	return i > 0 && !strings.HasSuffix(v.S, ")") && t != nil && types.IsInterface(t) && types.Implements(t, e.value)
}

// callSet tells if the result of a call isn't nil.
func (e *elemCheck) callSet(st *ist, c callSource, d int) bool {
	var fs []*ssa.Function
	if c.fn != nil {
		fs = append(fs, c.fn)
	} else if cc := c.call.Common(); cc.IsInvoke() {
		it, _ := cc.Value.Type().Underlying().(*types.Interface)
		if it == nil {
			return false
		}
		for _, t := range e.a.p.implementers(it) {
			if f := e.a.p.methodOf(t, cc.Method.Name()); f != nil {
				fs = append(fs, f)
			}
		}
		if cc.Method.Name() == "Replace" {
			return e.isSet(st, c.args[len(c.args)-1], d+1)
		}
	}
	if len(fs) == 0 {
		return false
	}
	for _, f := range fs {
		if c.ix != 0 || !e.returnsSet(f) {
			return false
		}
	}
	for i, x := range c.args {
		var t types.Type
		if c.call.Common().IsInvoke() {
			if i == 0 {
				continue
			}
			i--
		}
		if i < len(c.call.Common().Args) {
			t = c.call.Common().Args[i].Type()
		}
		if t != nil && types.IsInterface(t) && types.Implements(t, e.value) && !e.isSet(st, x, d+1) {
			return false
		}
	}
	return true
}

// returnsSet tells if the first result of a function is never nil, provided that what it is given isn't.
func (e *elemCheck) returnsSet(f *ssa.Function) bool {
	if b, ok := e.nonNil[f]; ok {
		return b != 1
	}
	e.nonNil[f] = 2 // until it is known
	defer func(b bool) { e.strict = b }(e.strict)
	e.strict = false
	r := f.Blocks != nil
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) > 0 && r {
			r = e.ssaSet(ret.Results[0], b, map[ssa.Value]bool{})
			if !r {
				dbgf("not known to be set: %s result %s", fname(f), ret.Results[0])
			}
		}
	}
	if r {
		e.nonNil[f] = 3
	} else {
		e.nonNil[f] = 1
	}
	return r
}

// alwaysSet tells if the result of a function is never nil, whatever it is given.
func (e *elemCheck) alwaysSet(f *ssa.Function) bool {
	if e.strict || f.Blocks == nil {
		return false
	}
	e.strict = true
	defer func() { e.strict = false }()
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !e.ssaSet(ret.Results[0], b, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

// ssaSet tells if v isn't nil in block b.
func (e *elemCheck) ssaSet(v ssa.Value, b *ssa.BasicBlock, seen map[ssa.Value]bool) bool {
	if _, ok := v.Type().Underlying().(*types.Interface); !ok {
		return true
	}
	if seen[v] {
		return true
	}
	// found to be set
	for x := b; x != nil; x = x.Idom() {
		for _, pr := range x.Preds {
			if len(x.Preds) != 1 {
				break
			}
			cond, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			yes := pr.Succs[0] == x
			switch c := cond.Cond.(type) {
			case *ssa.BinOp:
				k, isC := c.Y.(*ssa.Const)
				if isC && k.IsNil() && c.X == v && (c.Op == token.NEQ) == yes && (c.Op == token.NEQ || c.Op == token.EQL) {
					return true
				}
			case *ssa.Extract:
				if !yes {
					continue
				}
				ex, ok := v.(*ssa.Extract)
				same := ok && ex.Tuple == c.Tuple && ex.Index == 0
				switch t := c.Tuple.(type) {
				case *ssa.TypeAssert:
					if t.X == v || same {
						return true
					}
				case *ssa.Lookup:
					if ld, ok := t.X.(*ssa.UnOp); ok && same {
						if _, ok := ld.X.(*ssa.Global); ok && types.Implements(v.Type(), e.value) {
							return true
						}
					}
				}
			}
		}
	}
	switch v := v.(type) {
	case *ssa.Const:
		return !v.IsNil()
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return e.ssaSet(v.X, b, seen)
	case *ssa.Phi:
		seen[v] = true
		for i, x := range v.Edges {
			pb := v.Block().Preds[i]
			if !e.ssaSet(x, pb, seen) && !e.edgeSet(x, pb, v.Block()) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		return !e.strict && types.Implements(v.Type(), e.value)
	case *ssa.TypeAssert:
		return !v.CommaOk
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		switch x := v.X.(type) {
		case *ssa.FieldAddr, *ssa.Global:
			return types.Implements(v.Type(), e.value)
		case *ssa.IndexAddr:
			ld, ok := x.X.(*ssa.UnOp)
			if !ok {
				return false
			}
			_, ok = ld.X.(*ssa.FieldAddr)
			return ok
		}
		return false
	case *ssa.Call:
		cc := v.Common()
		if cc.IsInvoke() {
			it := cc.Value.Type().Underlying().(*types.Interface)
			n := 0
			for _, t := range e.a.p.implementers(it) {
				if f := e.a.p.methodOf(t, cc.Method.Name()); f != nil {
					n++
					if !e.returnsSet(f) {
						return false
					}
				}
			}
			return n > 0
		}
		if g := cc.StaticCallee(); g != nil && e.returnsSet(g) {
			for _, x := range cc.Args {
				if types.IsInterface(x.Type()) && types.Implements(x.Type(), e.value) && !e.ssaSet(x, b, seen) {
					return e.alwaysSet(g)
				}
			}
			return true
		}
	}
	return false
}

// edgeSet tells if v isn't nil on an edge.
func (e *elemCheck) edgeSet(v ssa.Value, from, to *ssa.BasicBlock) bool {
	cond, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	yes := from.Succs[0] == to
	if c, ok := cond.Cond.(*ssa.BinOp); ok {
		k, isC := c.Y.(*ssa.Const)
		return isC && k.IsNil() && c.X == v && (c.Op == token.NEQ) == yes && (c.Op == token.NEQ || c.Op == token.EQL)
	}
	return false
}

// sizeName gives different expressions for the size of a collection the same name.
func (e *elemCheck) sizeName(s string) string {
	if p, ok := strings.CutPrefix(s, "len("); ok {
		p = strings.TrimSuffix(p, ")")
		if sb, ok := e.subs[p]; ok && sb.hi.K == 0 && sb.zero {
			return e.sizeName("len(" + sb.base.S + ")")
		}
		if o, ok := e.isField(p); ok && baseOf(p) == p {
			return "#" + o
		}
		return s
	}
	if p, ok := strings.CutPrefix(s, "Len("); ok {
		return "#" + strings.TrimSuffix(p, ")")
	}
	if p, ok := strings.CutSuffix(s, ".len"); ok {
		return "#" + p
	}
	return s
}

// bounds tells what is known about a size.
func (e *elemCheck) bounds(st *ist, v AV) (lb, ub int) {
	ub = -1
	if n, ok := e.ip.intOf(v); ok {
		return int(n), int(n)
	}
	if v.K != 's' {
		return 0, -1
	}
	// the size of something that starts later
	name, add := v.S, 0
	if p, ok := strings.CutPrefix(name, "len("); ok {
		p = strings.TrimSuffix(p, ")")
		if b := baseOf(p); b != p {
			fmt.Sscan(p[len(b)+len("«"):], &add)
			lb, ub = e.bounds(st, AV{K: 's', S: "len(" + b + ")"})
			if lb -= add; lb < 0 {
				lb = 0
			}
			if ub >= 0 {
				ub -= add
			}
			if ub < -1 {
				ub = 0
			}
		}
	}
	name = e.sizeName(name)
	max := func(n int) {
		if ub < 0 || n < ub {
			ub = n
		}
	}
	min := func(n int) {
		if n > lb {
			lb = n
		}
	}
	if x, ok := st.mem["#size:"+strings.TrimPrefix(name, "#")]; ok && strings.HasPrefix(name, "#") {
		if n, ok := e.ip.intOf(x); ok {
			return int(n), int(n)
		}
	}
	for k, b := range st.rel {
		if p, ok := strings.CutPrefix(k, "nil:"); ok {
			if m := listPath.FindStringSubmatch(p); m != nil && name == "#"+m[1] {
				if n := strings.Count(m[2], ".next"); b {
					max(n)
				} else {
					min(n + 1)
				}
			}
		}
		r, ok := e.ip.rels[k]
		if !ok {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := r.x, r.y
			if i == 1 {
				x, y = y, x
			}
			if x.K == 'n' && y.K == 's' && r.op == token.EQL {
				if m := listPath.FindStringSubmatch(y.S); m != nil && name == "#"+m[1] {
					if n := strings.Count(m[2], ".next"); b {
						max(n)
					} else {
						min(n + 1)
					}
				}
			}
			n64, isC := e.ip.intOf(x)
			if !isC || y.K != 's' || e.sizeName(y.S) != name {
				continue
			}
			n := int(n64)
			switch {
			case r.op == token.EQL && b:
				max(n)
				min(n)
			case r.op == token.LSS && i == 0 && !b: // !(n < size)
				max(n)
			case r.op == token.LSS && i == 0: // n < size
				min(n + 1)
			case r.op == token.LSS && b: // size < n
				max(n - 1)
			case r.op == token.LSS:
				min(n)
			}
		}
	}
	return
}

// possible tells if what is assumed about sizes isn't contradictory.
func (e *elemCheck) possible(st *ist) bool {
	for k := range st.rel {
		r, ok := e.ip.rels[k]
		if !ok {
			continue
		}
		for _, x := range []AV{r.x, r.y} {
			if x.K == 's' && strings.HasPrefix(x.S, "len(") {
				if lb, ub := e.bounds(st, x); ub >= 0 && lb > ub {
					return false
				}
			}
		}
	}
	return true
}

var listPath = regexp.MustCompile(`^(.*)\.first((?:\.next)*)$`)

// linear splits a number in a symbol and a constant.
func (e *elemCheck) linear(v AV, d int) (string, int) {
	if n, ok := e.ip.intOf(v); ok {
		return "", int(n)
	}
	if r, ok := e.ip.rels[v.S]; ok && d < 20 && (r.op == token.ADD || r.op == token.SUB) {
		if n, ok := e.ip.intOf(r.y); ok {
			s, c := e.linear(r.x, d+1)
			if r.op == token.SUB {
				n = -n
			}
			return s, c + int(n)
		}
		if n, ok := e.ip.intOf(r.x); ok && r.op == token.ADD {
			s, c := e.linear(r.y, d+1)
			return s, c + int(n)
		}
	}
	return e.sizeName(v.S), 0
}

// within tells if a position is at most the length of a slice.
func (e *elemCheck) within(st *ist, pos, slice AV) bool {
	size := e.length(st, slice)
	s, c := e.linear(pos, 0)
	if s == "" {
		lb, _ := e.bounds(st, size)
		return c <= lb
	}
	if z, d := e.linear(size, 0); s == z && c <= d {
		return true
	}
	if _, ok := st.mem["#low:"+slice.S+"|"+pos.S]; ok {
		return true
	}
	for k, b := range st.rel {
		r, ok := e.ip.rels[k]
		if !ok || r.op != token.LSS {
			continue
		}
		x, y := r.x, r.y
		if x.S == pos.S && b && e.sizeName(y.S) == e.sizeName(size.S) || y.S == pos.S && !b && e.sizeName(x.S) == e.sizeName(size.S) {
			return true
		}
	}
	return false
}

func (e *elemCheck) length(st *ist, v AV) AV {
	if v.K == 'n' {
		return e.ip.integer(0, types.Typ[types.Int])
	}
	if x, ok := st.mem[v.S+".#len"]; ok {
		return x
	}
	if n, ok := e.ip.arrays[v.S]; ok && v.K == 'p' {
		return e.ip.integer(n, types.Typ[types.Int])
	}
	return AV{K: 's', S: "len(" + v.S + ")"}
}

// content tells if each element of a slice satisfies do, where those of a collection that exists do if own says so.
func (e *elemCheck) content(st *ist, s AV, do func(AV) bool, own func(owner string) bool, why *string) bool {
	fail := func(f string, x ...interface{}) bool {
		if why != nil {
			*why = fmt.Sprintf(f, x...)
		}
		return false
	}
	each := func(x AV) bool {
		return do(x) || fail("%s", e.show(st, x))
	}
	stored := func(path, not string) bool {
		for k, x := range st.mem {
			if i, ok := strings.CutPrefix(k, path+"["); ok && strings.HasSuffix(i, "]") && i != not+"]" && !each(x) {
				return false
			}
		}
		return true
	}
	switch {
	case s.K == 'n':
		return true
	case s.K == 'p':
		l, ok := e.ip.list(st, s)
		if !ok {
			return fail("unknown elements")
		}
		for _, x := range l {
			if !each(x) {
				return false
			}
		}
		return true
	case s.K != 's':
		return fail("unknown elements")
	}
	if parts, ok := e.cats[s.S]; ok {
		for _, x := range parts {
			if !e.content(st, x, do, own, why) {
				return false
			}
		}
		return stored(s.S, "")
	}
	if sb, ok := e.subs[s.S]; ok {
		not := ""
		if sb.hi.K != 0 {
			capped := sb.base
			if b, ok := e.subs[capped.S]; ok && b.max.K != 0 && e.within(st, b.max, b.base) {
				capped = AV{}
			}
			if capped.K != 0 && !e.within(st, sb.hi, capped) {
				return fail("what is beyond the length of a slice")
			}
			not = sb.hi.S
			if sb.hi.K == 'c' {
				not = e.ip.consts[sb.hi.S].ExactString()
			}
		}
		if _, own2 := e.isField(sb.base.S); own2 && not != "" {
			if x, ok := st.mem[sb.base.S+"["+not+"]"]; ok && x.K == 'n' {
				defer func() { st.mem[sb.base.S+"["+not+"]"] = x }()
				delete(st.mem, sb.base.S+"["+not+"]")
			}
		}
		return e.content(st, sb.base, do, own, why) && stored(s.S, "")
	}
	if strings.HasPrefix(s.S, "@") {
		size := st.mem[s.S+".#len"]
		src, copied := st.mem[s.S+".#copy"]
		_, ub := e.bounds(st, size)
		srcLb, srcUb := 0, -1
		same := false
		if copied {
			srcLb, srcUb = e.bounds(st, e.length(st, src))
			a, c := e.linear(size, 0)
			b, d := e.linear(e.length(st, src), 0)
			same = a == b && c <= d || e.within(st, size, src)
		}
		if ub < 0 {
			if copied && same {
				return e.content(st, src, do, own, why) && stored(s.S, "")
			}
			return fail("elements that aren't known to be set")
		}
		for i := 0; i < ub; i++ {
			x, ok := st.mem[fmt.Sprintf("%s[%d]", s.S, i)]
			switch {
			case ok:
			case copied && (same || i < srcLb):
				x = e.ip.read(st, fmt.Sprintf("%s[%d]", src.S, i), e.a.p.named("dgo", "Value"))
			default:
				_ = srcUb
				x = AV{K: 'n'}
			}
			if !each(x) {
				return false
			}
		}
		return true
	}
	// storage that existed
	path := baseOf(s.S)
	if o, ok := e.isField(path); ok && own(o) {
		return stored(path, "")
	}
	_, ub := e.bounds(st, AV{K: 's', S: "len(" + path + ")"})
	if ub < 0 {
		return fail("the elements of %s", s.S)
	}
	for i := 0; i < ub; i++ {
		if !each(e.ip.read(st, fmt.Sprintf("%s[%d]", path, i), e.a.p.named("dgo", "Value"))) {
			return false
		}
	}
	return true
}

func (e *elemCheck) show(st *ist, v AV) string {
	switch v.K {
	case 'n':
		return "nil"
	case 0:
		return "something unknown"
	}
	return v.S
}

// asValue is the result of converting x to a value.
func (e *elemCheck) asValue(st *ist, x AV) AV {
	switch x.K {
	case 'p', 'f':
		return x
	case 's':
		if strings.HasPrefix(x.S, "value(") || strings.HasPrefix(x.S, "frozen(") {
			return x
		}
		if x.T != nil {
			if types.Implements(x.T, e.value) {
				return x
			}
		} else if st.rel["is:dgo.Value:"+x.S] {
			return x
		} else if t, ok := e.ip.static[x.S]; ok && types.IsInterface(t) && types.Implements(t, e.value) && e.isSet(st, x, 0) {
			return x
		}
		s := "value(" + x.S + ")"
		if t, ok := x.T, x.T != nil; ok {
			if _, basic := t.Underlying().(*types.Basic); basic {
				s = "frozen(" + s + ")"
			}
		}
		return AV{K: 's', S: s}
	case 'c':
		return AV{K: 's', S: "frozen(value(" + x.S + "))"}
	case 'n':
		return AV{K: 's', S: "frozen(value(nil))"}
	}
	return AV{K: 's', S: "value(?)"}
}

var eachMethods = map[string]bool{"Each": true, "EachEntry": true, "EachKey": true, "EachValue": true, "EachWithIndex": true}
var visitMethods = map[string]bool{"All": true, "AllKeys": true, "AllValues": true, "Any": true, "AnyKey": true, "AnyValue": true, "Find": true, "One": true}

func (e *elemCheck) stop(name string) bool {
	switch name {
	case "ValueFromReflected", "ThawedCopy", "deepEqual", "Equals", "HashCode", "deepHashCode", "String", "CompareTo", "deepCompare", "Type":
		return true
	}
	return false
}

func (e *elemCheck) interp() {
	ip := newInterp(e.a)
	e.ip = ip
	e.subs, e.subIDs, e.cats, e.catIDs = map[string]subSlice{}, map[string]string{}, map[string][]AV{}, map[string]string{}
	ip.uniq, ip.turns, ip.many, ip.symIndex, ip.copies, ip.deferred = true, 2, 1000, true, true, true
	ip.static, ip.sources = map[string]types.Type{}, map[string]callSource{}
	valueT := e.a.p.named("dgo", "Value")
	sq := seqs(ip)
	load, slice := ip.load, ip.slice
	ip.load = func(st *ist, path string, t types.Type) (AV, bool) {
		if _, ok := st.mem[path]; ok {
			return AV{}, false
		}
		if o, ok := strings.CutSuffix(path, ".frozen"); ok && !strings.HasPrefix(path, "@") {
			return AV{K: 's', S: flagOf(o), T: types.Typ[types.Bool]}, true
		}
		if b, ix, ok := indexOf(path); ok {
			if sb, ok := e.subs[b]; ok && sb.zero && !strings.Contains(ix, "‹") {
				return ip.read(st, sb.base.S+"["+ix+"]", t), true
			}
			if strings.HasPrefix(b, "@") && types.Identical(t, valueT) {
				// an unknown element of a created slice
				if src, ok := st.mem[b+".#copy"]; ok {
					if _, err := fmt.Sscan(ix, new(int)); err != nil {
						return ip.typed(st, AV{K: 's', S: src.S + "[" + ix + "]"}, t), true
					}
				}
			}
		}
		if !strings.HasPrefix(path, "@") {
			// something that is no longer where it was found
			for i := len(path) - 1; i > 0; i-- {
				if path[i] == '.' {
					if v, ok := st.mem[path[:i]]; ok {
						if v.K == 'p' || v.K == 'n' {
							return ip.typed(st, AV{K: 's', S: path}, t), true
						}
						break
					}
				}
			}
		}
		return load(st, path, t)
	}
	ip.asserted = func(st *ist, in *ssa.TypeAssert, x AV, ok bool) {
		if types.IsInterface(in.AssertedType) {
			e.tnames[tname(in.AssertedType)] = in.AssertedType
		}
	}
	ip.slice = func(st *ist, in *ssa.Slice, x AV) (AV, bool) {
		opt := func(v ssa.Value) AV {
			if v == nil {
				return AV{}
			}
			return ip.val(st, v)
		}
		lo, hi, max := opt(in.Low), opt(in.High), opt(in.Max)
		if in.Low != nil && lo.K == 0 || in.High != nil && hi.K == 0 {
			return AV{}, false
		}
		if lo.K != 0 && x.K == 's' {
			st.mem["#low:"+x.S+"|"+lo.S] = AV{K: 't'}
		}
		if in.Max == nil {
			if v, ok := slice(st, in, x); ok {
				return v, true
			}
		}
		if x.K != 's' {
			return AV{}, false
		}
		if _, ok := in.X.Type().Underlying().(*types.Slice); !ok {
			return AV{}, false
		}
		k := fmt.Sprint(x.S, "|", lo, "|", hi, "|", max)
		id, ok := e.subIDs[k]
		if !ok {
			id = fmt.Sprintf("sub%d", len(e.subIDs)+1)
			e.subIDs[k] = id
			n, isC := ip.intOf(lo)
			e.subs[id] = subSlice{x, lo, hi, max, lo.K == 0 || isC && n == 0}
		}
		if hi.K != 0 && e.subs[id].zero {
			st.mem[id+".#len"] = hi
		}
		return AV{K: 's', S: id, T: x.T}, true
	}
	ip.inline = func(g *ssa.Function) bool {
		if !e.a.p.inModule(g) || e.stop(g.Name()) {
			return false
		}
		return e.closure[g] || e.helps[g] || g.Parent() != nil || g.Synthetic != ""
	}
	ip.enter = func(st *ist, g *ssa.Function, args []AV) { e.entered[g] = true }
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		cc := c.Common()
		one := func(v AV) ([]iout, bool) { return []iout{{st: st, res: []AV{v}}}, true }
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy":
				if len(args) == 2 {
					_, fresh := st.mem[args[0].S+".#len"]
					if !(fresh && strings.HasPrefix(args[0].S, "@")) {
						st.mem[fmt.Sprintf("#in:%s~%d", args[0].S, st.tally("#ins"))] = args[1]
					}
				}
			case "append":
				if outs, ok := sq(st, c, args); ok {
					return outs, true
				}
				if len(args) == 2 && types.Identical(cc.Args[0].Type(), types.NewSlice(valueT)) && args[0].K != 0 && args[1].K != 0 {
					k := fmt.Sprint(args)
					// what is known of the parts may differ
					for _, x := range args {
						if strings.HasPrefix(x.S, "@") {
							l, _ := ip.list(st, x)
							k += fmt.Sprint(l)
						}
					}
					id, ok := e.catIDs[k]
					if !ok {
						id = fmt.Sprintf("cat%d", len(e.catIDs)+1)
						e.catIDs[k] = id
						e.cats[id] = append([]AV{}, args...)
					}
					return one(AV{K: 's', S: id, T: canonOrNil(cc.Signature().Results().At(0).Type())})
				}
			}
			return sq(st, c, args)
		}
		name := ""
		switch {
		case cc.IsInvoke():
			name = cc.Method.Name()
		case g != nil:
			name = g.Name()
		}
		if !e.unset && g != nil {
			// Go values
			switch {
			case fname(g) == "(reflect.Value).Field" && len(args) == 2 && args[0].K == 's':
				x := AV{K: 's', S: fmt.Sprintf("Field(%s,%s)", args[0].S, args[1].S), T: canonOrNil(cc.Signature().Results().At(0).Type())}
				st.mem["#field:"+x.S] = args[0]
				return one(x)
			case name == "ValueFromReflected" && len(args) > 0 && args[0].K == 's':
				return one(ip.typed(st, AV{K: 's', S: "value(" + args[0].S + ")"}, valueT))
			case name == "ReflectTo" && len(args) == 2 && g.Signature.Recv() == nil && args[1].K == 's':
				st.mem["#refl:"+args[1].S] = args[0]
				return []iout{{st: st}}, true
			}
		}
		module := cc.IsInvoke() || g != nil && e.a.p.inModule(g)
		if !module || name == "" {
			for _, x := range args {
				if freshAV(x) {
					st.mem["#esc:"+x.S] = x
				}
			}
			return nil, false
		}
		method := cc.IsInvoke() || g.Signature.Recv() != nil
		fresh := len(args) > 0 && freshAV(args[0])
		isMap := len(args) > 0 && args[0].T != nil && types.Identical(args[0].T, e.mapT)
		switch {
		case !method && name == "Value" && len(args) == 1 && g.Pkg != nil && g.Pkg.Pkg.Name() == "internal":
			return one(e.asValue(st, args[0]))
		case method && name == "FrozenCopy" && len(args) == 1:
			if args[0].K == 's' && args[0].T == nil {
				st.rel["nil:"+args[0].S] = false
			}
			return one(ip.typed(st, AV{K: 's', S: "frozen(" + args[0].S + ")"}, cc.Signature().Results().At(0).Type()))
		case method && name == "Copy" && len(args) == 2 && !(fresh && false):
			if b, known := ip.boolOf(st, args[1]); known && b {
				return one(ip.typed(st, AV{K: 's', S: "frozen(" + args[0].S + ")"}, cc.Signature().Results().At(0).Type()))
			}
			if !e.closure[g] {
				return nil, false
			}
		case method && name == "Freeze" && len(args) == 1 && (cc.IsInvoke() || !e.helps[g]):
			st.mem["#froze:"+args[0].S] = AV{K: 't'}
			return []iout{{st: st}}, true
		case method && name == "Frozen" && len(args) == 1 && !fresh:
			return one(AV{K: 's', S: flagOf(args[0].S), T: types.Typ[types.Bool]})
		case method && name == "Len" && len(args) == 1 && !fresh:
			return one(AV{K: 's', S: "Len(" + args[0].S + ")", T: types.Typ[types.Int]})
		case method && isMap && name == "Put" && len(args) == 3:
			if !fresh {
				return one(AV{K: 's', S: "old", T: nil})
			}
			at := args[0].S + ".first"
			for st.mem[at].K == 'p' {
				at = st.mem[at].S + ".next"
			}
			nd := fmt.Sprintf("@put~%d", st.tally("#new:put"))
			st.mem[at] = AV{K: 'p', S: nd}
			k := e.asValue(st, args[1])
			st.mem[nd+".mapEntry.key"], st.mem[nd+".mapEntry.value"] = AV{K: 's', S: "frozen(" + k.S + ")"}, e.asValue(st, args[2])
			return one(AV{K: 'n'})
		case method && isMap && name == "PutAll" && len(args) == 2 && fresh:
			st.mem[fmt.Sprintf("#all:%s~%d", args[0].S, st.tally("#alls"))] = args[1]
			return []iout{{st: st}}, true
		case method && isMap && (name == "Remove" || name == "RemoveAll" || name == "Get"):
			return nil2(ip, st, c, cc), true
		case method && (eachMethods[name] || visitMethods[name]) && !fresh && len(args) > 1:
			return e.visit(st, c, name, args)
		}
		if g != nil && len(g.Signature.Results().String()) > 0 {
			// recursion
			for _, k := range ip.stack {
				if !strings.HasPrefix(k, g.String()+"[") {
					continue
				}
				if g.Signature.Results().Len() == 1 && types.Identical(g.Signature.Results().At(0).Type(), types.NewSlice(valueT)) {
					var l []AV
					for _, x := range args {
						if x.T != nil && types.Identical(x.T, types.NewSlice(valueT)) || x.K == 'n' {
							l = append(l, x)
						}
					}
					id := e.catIDs[fmt.Sprint("rec", l)]
					if id == "" {
						id = fmt.Sprintf("cat%d", len(e.catIDs)+1)
						e.catIDs[fmt.Sprint("rec", l)] = id
						e.cats[id] = l
					}
					return one(AV{K: 's', S: id, T: types.NewSlice(valueT)})
				}
				return nil2(ip, st, c, cc), true
			}
		}
		if g == nil || !ip.inline(g) {
			for _, x := range args {
				if freshAV(x) {
					st.mem["#esc:"+x.S] = x
				}
			}
		}
		return nil, false
	}
}

// visit calls back for each element of a collection.
func (e *elemCheck) visit(st *ist, c ssa.CallInstruction, name string, args []AV) ([]iout, bool) {
	ip, cc := e.ip, c.Common()
	fv := args[1]
	if fv.K != 'f' {
		return nil2(ip, st, c, cc), true
	}
	fn := ip.fns[fv.S]
	if fn == nil || fn.Blocks == nil {
		return nil2(ip, st, c, cc), true
	}
	kind := "elem"
	if strings.HasSuffix(name, "Key") || strings.HasSuffix(name, "Keys") {
		kind = "key"
	}
	var outs []iout
	done := func(s *ist, n int) {
		if eachMethods[name] {
			// another size is impossible
			lb, ub := e.bounds(s, AV{K: 's', S: "Len(" + args[0].S + ")"})
			if n < lb || ub >= 0 && n > ub {
				return
			}
			s.mem["#size:"+args[0].S] = ip.integer(int64(n), types.Typ[types.Int])
		}
		outs = append(outs, iout{st: s, res: revUnknown(ip, s, c, cc.Signature())})
	}
	sts := []*ist{st}
	for n := 0; n < 3; n++ {
		var next []*ist
		for _, s := range sts {
			done(s.clone(), n)
			if n == 2 {
				continue
			}
			var as []AV
			for j, q := range fn.Params {
				x := AV{K: 's', S: fmt.Sprintf("e%s‹%s›%d", kind, args[0].S, n)}
				if j > 0 {
					x = ip.integer(int64(n), types.Typ[types.Int])
				}
				as = append(as, ip.typed(s, x, q.Type()))
			}
			as = append(as, ip.binds[fv.S]...)
			ip.stack = append(ip.stack, "visit:"+fn.String())
			for _, o := range ip.run(fn, as, s) {
				if o.exit {
					outs = append(outs, o)
					continue
				}
				next = append(next, o.st)
			}
			ip.stack = ip.stack[:len(ip.stack)-1]
		}
		sts = next
	}
	return outs, true
}

// reach finds what was created and can be reached from something.
func (e *elemCheck) reach(st *ist, from []AV) map[string]AV {
	r := map[string]AV{}
	for len(from) > 0 {
		v := from[len(from)-1]
		from = from[:len(from)-1]
		if parts, ok := e.cats[v.S]; ok {
			from = append(from, parts...)
			continue
		}
		if sb, ok := e.subs[v.S]; ok {
			from = append(from, sb.base)
			continue
		}
		if v.K == 'f' {
			from = append(from, e.ip.binds[v.S]...)
			continue
		}
		if !freshAV(v) || r[v.S].K != 0 {
			continue
		}
		r[v.S] = v
		for k, x := range st.mem {
			if strings.HasPrefix(k, v.S+".") || strings.HasPrefix(k, v.S+"[") {
				from = append(from, x)
			}
		}
	}
	return r
}

func (e *elemCheck) explore(f *ssa.Function, extra map[int]AV) (outcomes int, undecided string) {
	e.interp()
	ip := e.ip
	e.root = f
	st := newIst()
	var args []AV
	for i, q := range f.Params {
		x := ip.typed(st, AV{K: 's', S: q.Name()}, q.Type())
		if _, ok := extra[i]; ok {
			x = ip.boolean(true)
		}
		args = append(args, x)
	}
	for i, q := range f.FreeVars {
		args = append(args, AV{K: 's', S: fmt.Sprint("free", i, q.Name())})
	}
	for _, out := range ip.run(f, args, st) {
		if out.exit || !e.possible(out.st) {
			continue
		}
		outcomes++
		if e.unset {
			e.checkSet(out)
		} else {
			e.checkFrozen(out, f, args)
		}
	}
	return outcomes, ip.bad
}

// changed lists the objects whose content or flag was set.
func (e *elemCheck) changed(st *ist, res []AV) (objs []string, reached map[string]AV) {
	from := append([]AV{}, res...)
	for k, v := range st.mem {
		if !strings.HasPrefix(k, "@") {
			from = append(from, v)
		}
	}
	reached = e.reach(st, from)
	set := map[string]bool{}
	live := func(o string) bool {
		if !strings.HasPrefix(o, "@") {
			return true
		}
		for id := range reached {
			if o == id || strings.HasPrefix(o, id+".") || strings.HasPrefix(o, id+"[") {
				return true
			}
		}
		return false
	}
	for k := range st.mem {
		if strings.HasPrefix(k, "#") {
			continue
		}
		p := k
		if b, _, ok := indexOf(p); ok {
			p = b
		}
		if o, ok := e.isField(p); ok && live(o) {
			set[o] = true
		}
		if o, ok := strings.CutSuffix(k, ".frozen"); ok && live(o) {
			set[o] = true
		}
		if o, ok := strings.CutSuffix(k, ".first"); ok && live(o) {
			set[o] = true
		}
		if m := nodePath.FindStringSubmatch(strings.TrimSuffix(strings.TrimSuffix(k, ".value"), ".mapEntry")); m != nil && strings.HasSuffix(k, ".value") {
			set[m[1]] = true
		}
	}
	for o := range set {
		objs = append(objs, o)
	}
	sort.Strings(objs)
	return
}

// slices lists the slices of an object.
func (e *elemCheck) slices(st *ist, o string) (l []AV) {
	for f := range e.fields {
		if v, ok := st.mem[o+f]; ok {
			l = append(l, v)
			continue
		}
		if strings.HasPrefix(o, "@") {
			continue
		}
		for k := range st.mem {
			if strings.HasPrefix(k, o+f+"[") {
				l = append(l, AV{K: 's', S: o + f})
				break
			}
		}
	}
	return
}

// copies lists what was copied to existing storage.
func (e *elemCheck) copies(st *ist) (l []AV) {
	for k, v := range st.mem {
		if strings.HasPrefix(k, "#in:") {
			l = append(l, v)
		}
	}
	return
}

func (e *elemCheck) checkSet(out iout) {
	st := out.st
	objs, reached := e.changed(st, out.res)
	isSet := func(x AV) bool { return e.isSet(st, x, 0) }
	yes := func(string) bool { return true }
	why := ""
	for _, o := range objs {
		for _, s := range e.slices(st, o) {
			e.counts["slices"]++
			if !e.content(st, s, isSet, yes, &why) {
				e.say("an array may contain %s", why)
				dbgf("%s: %s %s slice %v\n mem %v\n rel %v\n", fname(e.root), o, why, s, st.mem, st.rel)
			}
		}
	}
	for _, s := range e.copies(st) {
		if !e.content(st, s, isSet, yes, &why) {
			e.say("an array may contain %s", why)
		}
	}
	for k, v := range st.mem {
		if strings.HasPrefix(k, "#") || !strings.HasSuffix(k, ".key") && !strings.HasSuffix(k, ".value") {
			continue
		}
		o := strings.TrimSuffix(k[:strings.LastIndexByte(k, '.')], ".mapEntry")
		if strings.HasPrefix(o, "@") {
			if _, ok := reached[o]; !ok {
				continue
			}
			_, k1 := st.mem[o+".mapEntry.key"]
			_, k2 := st.mem[o+".key"]
			if !k1 && !k2 {
				continue // not an entry
			}
		} else if !nodePath.MatchString(o) {
			continue
		}
		e.counts["entries"]++
		if !isSet(v) {
			e.say("the %s of an entry may be %s", k[strings.LastIndexByte(k, '.')+1:], e.show(st, v))
		}
	}
}

func (e *elemCheck) checkFrozen(out iout, f *ssa.Function, args []AV) {
	st := out.st
	objs, reached := e.changed(st, out.res)
	// keys
	for k, v := range st.mem {
		o, ok := strings.CutSuffix(k, ".key")
		if !ok || strings.HasPrefix(k, "#") {
			continue
		}
		o = strings.TrimSuffix(o, ".mapEntry")
		if strings.HasPrefix(o, "@") && reached[o].K == 0 {
			continue
		}
		e.counts["keys"]++
		if !e.frozen(st, v, 0) {
			e.say("a key may be modified: %s", e.show(st, v))
			dbgf("%s: key %v\n mem %v\n rel %v\n", fname(e.root), v, st.mem, st.rel)
		}
	}
	for _, o := range objs {
		var flag AV
		if v, ok := st.mem[o+".frozen"]; ok {
			flag = v
		} else if strings.HasPrefix(o, "@") {
			continue
		} else {
			flag = AV{K: 's', S: flagOf(o)}
		}
		s := st
		if b, known := e.ip.boolOf(st, flag); known {
			if !b {
				continue
			}
		} else if flag.K == 's' {
			s = st.clone()
			e.ip.assume(s, flag, true)
			if b, known := e.ip.boolOf(s, flag); !known || !b {
				continue
			}
		}
		e.counts["collections"]++
		e.frozenContent(s, o, reached)
	}
	// constructors
	if f.Signature.Recv() == nil && f.Parent() == nil && len(out.res) > 0 && f.Signature.Params().Len() > 0 {
		x := out.res[0]
		if t := f.Signature.Results().At(0).Type(); types.Implements(t, e.value) && e.canModify(t) && x.K != 'n' {
			switch fz := e.frozen(st, x, 0); {
			case fz && freshAV(x):
				e.makes["frozen"] = ""
			case fz:
			case freshAV(x):
				e.makes["not frozen"] = ""
			default:
				e.makes["other"] = e.show(st, x)
			}
		}
	}
	// what is said to be frozen
	name := f.Name()
	if f.Signature.Recv() == nil || len(args) == 0 {
		return
	}
	recv := args[0]
	t := deref(f.Params[0].Type())
	switch {
	case (name == "FrozenCopy" || name == "Copy" && len(args) == 2 && args[1].K == 'c') && len(out.res) == 1:
		e.counts["frozen copies"]++
		if x := out.res[0]; !e.frozen(st, x, 0) {
			e.say("it may return something that isn't frozen: %s", e.show(st, x))
			dbgf("%s: res %v\n mem %v\n rel %v\n", fname(e.root), x, st.mem, st.rel)
		}
		e.goFields(st)
		x := out.res[0]
		for _, w := range wrapped(t) {
			if v, _ := refersTo(st, x.S+w); freshAV(x) && strings.HasPrefix(v.S, recv.S+".") {
				e.say("the copy refers to what the original refers to")
			}
		}
	case name == "Freeze" && len(args) == 1:
		e.counts["freezing methods"]++
		if !e.isFrozen(st, recv, t) {
			e.say("it may end without having frozen the value")
		}
		if b, ok := st.rel[flagOf(recv.S)]; !ok || !b {
			for _, w := range wrapped(t) {
				if v, ok := refersTo(st, recv.S+w); !ok || strings.HasPrefix(v.S, recv.S+".") {
					e.say("what is frozen may still refer to what its creator has")
				}
			}
		}
		if !e.isFrozen(st, recv, t) {
			dbgf("%s: mem %v\n rel %v\n", fname(e.root), st.mem, st.rel)
		}
	case name == "Frozen" && len(args) == 1 && len(out.res) == 1:
		s := st
		if b, known := e.ip.boolOf(st, out.res[0]); known && !b {
			return
		} else if !known {
			s = st.clone()
			e.ip.assume(s, out.res[0], true)
		}
		e.counts["frozen methods"]++
		if !e.isFrozen(s, recv, t) {
			e.say("it may answer true for something that can be modified")
			dbgf("%s: mem %v\n rel %v\n", fname(e.root), s.mem, s.rel)
		}
	}
}

// goFields examines what becomes of the fields of a Go struct when it is copied. What isn't replaced by something frozen
// must be something that cannot be modified.
func (e *elemCheck) goFields(st *ist) {
	ip := e.ip
	structs := map[string]bool{}
	for k, v := range st.mem {
		f, ok := strings.CutPrefix(k, "#field:")
		if !ok {
			continue
		}
		structs[v.S] = true
		e.counts["fields of Go structs"]++
		if x, ok := st.mem["#refl:"+f]; ok {
			if !e.frozen(st, x, 0) {
				e.say("a field of a Go struct may be set to something that isn't frozen: %s", e.show(st, x))
			}
			continue
		}
		kind, pointer := -1, true
		for k, b := range st.rel {
			r, ok := ip.rels[k]
			if !ok || r.op != token.EQL {
				continue
			}
			for i := 0; i < 2; i++ {
				x, y := r.x, r.y
				if i == 1 {
					x, y = y, x
				}
				n, isC := ip.intOf(x)
				if !isC || y.S != "(reflect.Value).Kind(s"+f+")" {
					continue
				}
				if b {
					kind = int(n)
				} else if n == 22 {
					pointer = false
				}
			}
		}
		if b, ok := st.rel["(reflect.Value).IsNil(s"+f+")"]; ok && b {
			continue
		}
		if kind >= 1 && kind <= 16 || kind == 24 {
			continue
		}
		if kind >= 0 {
			pointer = kind == 22
		}
		if pointer || !e.frozen(st, AV{K: 's', S: "value(" + f + ")"}, 0) {
			e.say("a field of a Go struct may keep a reference to something that can be modified")
			dbgf("%s: field %s %v", fname(e.root), f, st.rel)
		}
	}
	for s := range structs {
		n := AV{K: 's', S: "(reflect.Value).NumField(s" + s + ")"}
		_, ub := e.bounds(st, n)
		for i := 0; i < ub; i++ {
			if _, ok := st.mem[fmt.Sprintf("#field:Field(%s,Int:%d)", s, i)]; !ok {
				e.say("a field of a Go struct may be left as it is")
			}
		}
	}
}

// refersTo tells what was stored in a field, of which the parts may have been stored one by one.
func refersTo(st *ist, path string) (AV, bool) {
	if v, ok := st.mem[path]; ok {
		return v, true
	}
	for k, v := range st.mem {
		if strings.HasPrefix(k, path+".") && !strings.HasSuffix(k, "flag") {
			return v, true
		}
	}
	return AV{}, false
}

// wrapped lists the fields of a type that refer to what its creator may have.
func wrapped(t types.Type) (l []string) {
	s, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	flag := false
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		switch {
		case f.Name() == "frozen":
			flag = true
		case f.Type().String() == "reflect.Value" || f.Type().String() == "[]byte":
			l = append(l, "."+f.Name())
		}
	}
	if !flag {
		return nil
	}
	return
}

// isFrozen tells if a receiver is frozen: its flag is set, or what it contains is frozen.
func (e *elemCheck) isFrozen(st *ist, recv AV, t types.Type) bool {
	if b, ok := st.rel[flagOf(recv.S)]; ok && b {
		return true
	}
	s, ok := t.Underlying().(*types.Struct)
	return ok && e.frozenFields(st, recv.S, s, 0)
}

// frozenContent examines what a frozen object contains.
func (e *elemCheck) frozenContent(st *ist, o string, reached map[string]AV) {
	do := func(x AV) bool { return e.frozen(st, x, 0) }
	own := func(o string) bool { return e.frozenOwner(st, o, 0) }
	why := ""
	bad := func(w string) {
		e.say("a frozen collection may contain %s", w)
		dbgf("%s: %s %s\n mem %v\n rel %v\n", fname(e.root), o, w, st.mem, st.rel)
	}
	ss := e.slices(st, o)
	_, flagSet := st.mem[o+".frozen"]
	if !strings.HasPrefix(o, "@") && flagSet {
		t := e.ip.static[o]
		if t == nil {
			t = e.root.Params[0].Type()
		}
		if st, ok := deref(t).Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if n := "." + st.Field(i).Name(); e.fields[n] && len(ss) == 0 {
					ss = append(ss, AV{K: 's', S: o + n})
				}
			}
		}
	}
	for _, s := range ss {
		if s.K == 's' {
			if ow, ok := e.isField(s.S); ok && strings.HasPrefix(ow, "@") {
				continue
			}
		}
		if !e.content(st, s, do, own, &why) {
			bad(why)
		}
	}
	// entries
	from := []AV{}
	for k, v := range st.mem {
		if strings.HasPrefix(k, o+".") {
			from = append(from, v)
		}
		if strings.HasPrefix(k, "#all:"+o+"~") {
			if !e.frozen(st, v, 0) {
				bad("the values of " + e.show(st, v))
			}
		}
	}
	mine := e.reach(st, from)
	existing := false
	for k, v := range st.mem {
		p, ok := strings.CutSuffix(k, ".value")
		if !ok || strings.HasPrefix(k, "#") {
			continue
		}
		p = strings.TrimSuffix(p, ".mapEntry")
		if strings.HasPrefix(p, "@") {
			if mine[p].K == 0 {
				continue
			}
		} else {
			m := nodePath.FindStringSubmatch(p)
			if m == nil || m[1] != o {
				continue
			}
			existing = true
		}
		if !do(v) {
			bad(e.show(st, v))
		}
	}
	_ = existing
	// the entries that were there
	t := e.ip.static[o]
	if !strings.HasPrefix(o, "@") && flagSet && t != nil && types.Identical(t, e.mapT) && !own(o) {
		_, ub := e.bounds(st, AV{K: 's', S: "Len(" + o + ")"})
		if ub < 0 {
			bad("entries that were there before")
		}
		at := o + ".first"
		for i := 0; i < ub; i++ {
			if x := e.ip.read(st, at+".mapEntry.value", e.a.p.named("dgo", "Value")); !do(x) {
				bad(e.show(st, x))
			}
			at += ".next"
		}
	}
}

func (e *elemCheck) decide(r *Report) {
	p := e.a.p
	var roots []*ssa.Function
	for f := range e.closure {
		if f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		roots = append(roots, f)
	}
	if !e.unset {
		for _, t := range p.implementers(e.fz) {
			for _, n := range []string{"Freeze", "Frozen", "FrozenCopy", "Copy"} {
				if f := p.methodOf(t, n); f != nil && f.Blocks != nil && f.Synthetic == "" && !e.closure[f] {
					e.closure[f] = true
					roots = append(roots, f)
				}
			}
		}
	}
	order := func(l []*ssa.Function) {
		sort.Slice(l, func(i, j int) bool { return fname(l[i]) < fname(l[j]) })
	}
	order(roots)
	one := func(f *ssa.Function) {
		e.set, e.makes = map[string]bool{}, map[string]string{}
		var extra []map[int]AV
		extra = append(extra, nil)
		if f.Name() == "Copy" && len(f.Params) == 2 {
			extra = append(extra, map[int]AV{1: {}})
		}
		und, outs := "", 0
		for _, x := range extra {
			o, u := e.explore(f, x)
			outs += o
			if u != "" {
				und = u
			}
		}
		if x, ok := e.makes["other"]; ok && len(e.makes) == 2 {
			if _, ok := e.makes["frozen"]; ok {
				e.say("it makes frozen collections, but may return something that isn't: %s", x)
			}
		}
		var bad []string
		for s := range e.set {
			bad = append(bad, s)
		}
		sort.Strings(bad)
		if und != "" {
			bad = append(bad, "cannot be decided: "+und)
		}
		if len(bad) > 4 {
			bad = bad[:4]
		}
		r.count("functions", 1)
		r.count("outcomes", outs)
		rule := "frozen"
		if e.unset {
			rule = "set"
		}
		r.ob(len(bad) == 0, rule, fname(f), p.pos(f.Pos()), fname(f)+": "+strings.Join(bad, "; "))
	}
	for _, f := range roots {
		one(f)
	}
	var rest []*ssa.Function
	for f := range e.sinks {
		if !e.entered[f] && f.Name() != "init" && f.Synthetic == "" {
			rest = append(rest, f)
		}
	}
	order(rest)
	for _, f := range rest {
		one(f)
	}
	for k, n := range e.counts {
		r.count(k, n)
	}
}

var elemAssumptions = []string{
	"an Iterable of the module visits as many elements as its Len tells, and AliasAdder.Replace returns a proper value when it is given one",
	"collections that existed when a function was called satisfied the property",
	"loops are followed for two turns; what is true for the elements of the first two turns is true for the others",
	"a field of a value, with an interface of the module as its type, is set unless it is explicitly compared with nil",
}

func checkC10(a *Analysis, r *Report) {
	r.Rules = []string{
		"set: at the end of each path through a function that stores elements, each element of an array, and each key and value of a map entry, that was created or changed and can be reached is a proper value; the length of the storage doesn't exceed what was stored",
	}
	r.Assumptions = elemAssumptions
	e := newElemCheck(a)
	e.unset = true
	e.decide(r)
	r.atLeast("functions", 80)
	r.atLeast("slices", 300)
	r.atLeast("entries", 100)
}

func checkC02(a *Analysis, r *Report) {
	r.Rules = []string{
		"frozen: at the end of each path through a function that creates or changes collections, each collection that can be reached and whose flag may be set contains only values that are frozen or of kinds that cannot be modified, and each map key that was stored is such a value",
		"frozen: FrozenCopy, and Copy when it is told so, return something frozen; Freeze freezes the value and each element; Frozen only answers true when the content is frozen",
		"frozen: freezing or copying a value that wraps a Go struct or a slice of bytes replaces what it refers to, and each field that may refer to something that can be modified",
		"frozen: a constructor that makes frozen collections never returns one that isn't",
	}
	r.Assumptions = append([]string{"a function named Freeze, Frozen or FrozenCopy of another type does what its name tells; each such method of the module is examined itself"}, elemAssumptions...)
	e := newElemCheck(a)
	e.decide(r)
	r.atLeast("functions", 90)
	r.atLeast("collections", 300)
	r.atLeast("keys", 100)
	r.atLeast("frozen copies", 10)
	r.atLeast("freezing methods", 8)
	r.atLeast("fields of Go structs", 4)
}
