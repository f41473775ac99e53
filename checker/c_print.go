package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: every kind of type can be named and printed.

// globalMaps makes lookups with known keys, in maps that are filled during initialization, yield what is there.
func globalMaps(a *Analysis, ip *interp) {
	memo := map[string]map[string]AV{}
	content := func(path string) map[string]AV {
		if m, ok := memo[path]; ok {
			return m
		}
		memo[path] = nil
		i := strings.LastIndex(path, ".")
		if i < 0 {
			return nil
		}
		var gl *ssa.Global
		for _, pkg := range a.p.SSA.AllPackages() {
			if pkg.Pkg.Path() == path[:i] {
				gl, _ = pkg.Members[path[i+1:]].(*ssa.Global)
			}
		}
		if gl == nil {
			return nil
		}
		if _, ok := deref(gl.Type()).Underlying().(*types.Map); !ok {
			return nil
		}
		m := map[string]AV{}
		fns := []*ssa.Function{gl.Pkg.Func("init")}
		for _, f := range a.p.Funcs {
			if f.Pkg == gl.Pkg && f.Parent() == nil && strings.HasPrefix(f.Name(), "init#") {
				fns = append(fns, f)
			}
		}
		eachInstr(fns, func(in ssa.Instruction) {
			u, ok := in.(*ssa.MapUpdate)
			if !ok {
				return
			}
			mine := loadedGlobal(u.Map) == gl
			if refs := u.Map.Referrers(); refs != nil {
				for _, r := range *refs {
					if s, ok := r.(*ssa.Store); ok && s.Addr == gl {
						mine = true
					}
				}
			}
			k, ok := u.Key.(*ssa.Const)
			if !mine || !ok || k.Value == nil {
				return
			}
			m[k.Value.ExactString()] = initialValue(ip, u.Value)
		})
		memo[path] = m
		return m
	}
	ip.load = func(st *ist, path string, t types.Type) (AV, bool) { return globalArray(a, ip, path) }
	ip.mapSet = func(st *ist, in *ssa.MapUpdate) {
		m, k := ip.val(st, in.Map), ip.val(st, in.Key)
		if m.S != "" && k.K == 'c' {
			st.mem["{"+m.S+"}"+ip.consts[k.S].ExactString()] = ip.val(st, in.Value)
		} else {
			st.mem["{"+m.S+"}*"] = unknownAV
		}
	}
	ip.lookup = func(st *ist, in *ssa.Lookup, key AV) ([]AV, bool) {
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok || key.K != 'c' {
			return nil, false
		}
		m := ip.val(st, in.X)
		k := ip.consts[key.S].ExactString()
		if v, ok := st.mem["{"+m.S+"}"+k]; ok {
			return []AV{v, ip.boolean(true)}, true
		}
		none := func() ([]AV, bool) {
			return []AV{ip.zero(in.X.Type().Underlying().(*types.Map).Elem(), ""), ip.boolean(false)}, true
		}
		if c := content(m.S); c != nil {
			if v, ok := c[k]; ok {
				return []AV{v, ip.boolean(true)}, true
			}
			return none()
		}
		if _, ok := st.mem["{"+m.S+"}*"]; !ok {
			for p := range st.mem {
				if strings.HasPrefix(p, "{"+m.S+"}") {
					return none() // a map that was made
				}
			}
		}
		return nil, false
	}
}

// globalArray yields the elements of global arrays and slices that are filled during initialization.
func globalArray(a *Analysis, ip *interp, path string) (AV, bool) {
	i, j := strings.LastIndex(path, "["), strings.LastIndex(path, ".")
	if i < j || !strings.HasSuffix(path, "]") || j < 0 {
		return AV{}, false
	}
	idx, err := strconv.Atoi(path[i+1 : len(path)-1])
	if err != nil {
		return AV{}, false
	}
	var gl *ssa.Global
	for _, pkg := range a.p.SSA.AllPackages() {
		if pkg.Pkg.Path() == path[:j] {
			gl, _ = pkg.Members[path[j+1:i]].(*ssa.Global)
		}
	}
	if gl == nil {
		return AV{}, false
	}
	var et types.Type
	switch t := deref(gl.Type()).Underlying().(type) {
	case *types.Array:
		et = t.Elem()
	case *types.Slice:
		et = t.Elem()
	default:
		return AV{}, false
	}
	var root ssa.Value = gl
	res, found, filled := AV{}, false, false
	init := []*ssa.Function{gl.Pkg.Func("init")}
	eachInstr(init, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok && s.Addr == gl {
			filled = true
			switch v := s.Val.(type) {
			case *ssa.Slice:
				root = v.X
			case *ssa.UnOp:
				root = v.X
			}
		}
	})
	eachInstr(init, func(in ssa.Instruction) {
		s, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		if ia, ok := s.Addr.(*ssa.IndexAddr); ok && ia.X == root {
			filled = true
			if c, ok := ia.Index.(*ssa.Const); ok && c.Value != nil && c.Int64() == int64(idx) {
				res, found = initialValue(ip, s.Val), true
			}
		}
	})
	if !found && filled {
		return ip.zero(et, ""), true
	}
	return res, found
}

// initialValue describes a value that is set during initialization.
func initialValue(ip *interp, v ssa.Value) AV {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return AV{K: 'n'}
		}
		return ip.konst(x.Value, x.Type())
	case *ssa.Function:
		ip.fns[x.String()] = x
		return AV{K: 'f', S: x.String()}
	case *ssa.ChangeType:
		return initialValue(ip, x.X)
	case *ssa.ChangeInterface:
		return initialValue(ip, x.X)
	case *ssa.MakeInterface:
		r := initialValue(ip, x.X)
		r.T = canonType(x.X.Type())
		if r.K == 0 {
			r.K, r.S = 's', "initial:"+x.X.Name()
		}
		return r
	case *ssa.UnOp:
		if g := loadedGlobal(x); g != nil {
			return AV{K: 's', S: g.Pkg.Pkg.Path() + "." + g.Name(), T: globalDyn(g)}
		}
	}
	return AV{K: 's', S: "initial:" + v.Name()}
}

// globalDyn returns the dynamic type of what a variable is initialized with.
func globalDyn(g *ssa.Global) types.Type {
	if !types.IsInterface(deref(g.Type())) {
		return canonOrNil(deref(g.Type()))
	}
	var t types.Type
	eachInstr([]*ssa.Function{g.Pkg.Func("init")}, func(in ssa.Instruction) {
		if s, ok := in.(*ssa.Store); ok && s.Addr == g {
			switch v := s.Val.(type) {
			case *ssa.MakeInterface:
				t = canonType(v.X.Type())
			case *ssa.UnOp:
				if o := loadedGlobal(v); o != nil && o != g {
					t = globalDyn(o)
				}
			}
		}
	})
	return t
}

// printRun is the printing of a type of a certain kind.
type printRun struct {
	outputs map[string]bool // constant outputs, those that are continued end with …
	failed  []string        // assertions about the type that do not hold
	panics  bool
	bad     string
}

func runPrint(a *Analysis, f *ssa.Function, t types.Type) *printRun {
	r := &printRun{outputs: map[string]bool{}}
	ip := newInterp(a)
	ip.limit = 40000
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) }
	globalMaps(a, ip)
	typeI := a.p.named("dgo", "Type")
	emit := func(st *ist, v AV) {
		out := ""
		if o, ok := st.mem["‹out›"]; ok {
			out = constant.StringVal(ip.consts[o.S])
		}
		if strings.HasSuffix(out, "…") {
			return
		}
		add := "…"
		if v.K == 'c' {
			switch c := ip.consts[v.S]; c.Kind() {
			case constant.String:
				add = constant.StringVal(c)
			case constant.Int:
				if i, ok := constant.Int64Val(c); ok {
					add = string(rune(i))
				}
			}
		}
		if out+add == "" {
			return
		}
		st.mem["‹out›"] = ip.konst(constant.MakeString(out+add), types.Typ[types.String])
	}
	mine := func(v AV) bool { return v.K == 's' && v.S == "‹t›" }
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		cc := c.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil, false
		}
		name := callName(cc, g)
		unknown := func() ([]iout, bool) { return nil2(ip, st, c, cc), true }
		rs := cc.Signature().Results()
		switch {
		case strings.HasPrefix(name, "Write") && len(args) >= 2:
			emit(st, args[len(args)-1])
			return unknown()
		case strings.HasPrefix(name, "Fprint") && len(args) >= 2:
			v := args[1]
			if v.K == 'c' && strings.HasPrefix(name, "Fprintf") {
				s, _, more := strings.Cut(constant.StringVal(ip.consts[v.S]), "%")
				emit(st, ip.konst(constant.MakeString(s), types.Typ[types.String]))
				if more {
					emit(st, unknownAV)
				}
			} else {
				emit(st, unknownAV)
			}
			return unknown()
		case name == "GetName":
			return []iout{{st: st, res: []AV{{K: 'n'}}}}, true
		case g == nil || !a.p.inModule(g) || g.Blocks == nil:
			return unknown()
		case seenHit(g) || name == "RecursionHit":
			return []iout{{st: st, res: []AV{ip.boolean(false)}}}, true
		case name == "TypeIdentifier" || g.Signature.Recv() != nil && namedOf(g.Signature.Recv().Type()) != nil && namedOf(g.Signature.Recv().Type()).Obj().Name() == "TypeIdentifier":
			return nil, false
		}
		pure := len(args) > 0
		for _, x := range args {
			if x.K != 'c' {
				pure = false
			}
		}
		if pure {
			return nil, false
		}
		if g.Pkg != f.Pkg && !(g.Pkg == nil && a.p.inModule(g)) {
			if _, ok := paramWriter(g); ok {
				emit(st, unknownAV)
			}
			return unknown()
		}
		// printing of some other type
		other, same := false, false
		ps := g.Signature.Params()
		off := len(g.Params) - ps.Len()
		for i := 0; i < ps.Len(); i++ {
			if types.Identical(ps.At(i).Type(), typeI) && off+i < len(args) {
				if mine(args[off+i]) {
					same = true
				} else {
					other = true
				}
			}
		}
		if other && !same {
			emit(st, unknownAV)
			return unknown()
		}
		_ = rs
		return nil, false
	}
	seen := map[string]bool{}
	ip.asserted = func(st *ist, in *ssa.TypeAssert, x AV, ok bool) {
		if mine(x) && !ok && !in.CommaOk {
			k := fmt.Sprintf("%s at %s", types.TypeString(in.AssertedType, func(p *types.Package) string { return p.Name() }), a.p.instrPos(in))
			if !seen[k] {
				seen[k] = true
				r.failed = append(r.failed, k)
			}
		}
	}
	st := newIst()
	st.dyn["‹t›"] = t
	var args []AV
	for i, p := range f.Params {
		if types.Identical(p.Type(), typeI) {
			args = append(args, AV{K: 's', S: "‹t›", T: t})
		} else {
			args = append(args, AV{K: 's', S: fmt.Sprint("arg", i)})
		}
	}
	normal := false
	for _, o := range ip.run(f, args, st) {
		if o.exit {
			continue
		}
		normal = true
		out := ""
		if v, ok := o.st.mem["‹out›"]; ok {
			out = constant.StringVal(ip.consts[v.S])
		}
		r.outputs[out] = true
	}
	r.panics = !normal
	r.bad = ip.bad
	sort.Strings(r.failed)
	return r
}

// paramWriter tells if a function has something to write to as parameter.
func paramWriter(g *ssa.Function) (int, bool) {
	for i, p := range g.Params {
		if it, ok := p.Type().Underlying().(*types.Interface); ok {
			for j := 0; j < it.NumMethods(); j++ {
				if it.Method(j).Name() == "Write" || it.Method(j).Name() == "WriteString" {
					return i, true
				}
			}
		}
	}
	return 0, false
}

// typeIDs interprets TypeIdentifier of a type.
func typeIDs(a *Analysis, t types.Type) (ids []int64, bad string) {
	f := a.p.methodOf(t, "TypeIdentifier")
	if f == nil || f.Blocks == nil {
		return nil, "no TypeIdentifier"
	}
	ip := newInterp(a)
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) }
	globalMaps(a, ip)
	st := newIst()
	st.dyn["‹t›"] = t
	set := map[int64]bool{}
	for _, o := range ip.run(f, []AV{{K: 's', S: "‹t›", T: t}}, st) {
		if o.exit {
			continue
		}
		if o.res[0].K != 'c' {
			return nil, "the identifier isn't a constant"
		}
		i, _ := constant.Int64Val(ip.consts[o.res[0].S])
		set[i] = true
	}
	for i := range set {
		ids = append(ids, i)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids, ip.bad
}

// idLabel interprets TypeIdentifier.String for one identifier.
func idLabel(a *Analysis, f *ssa.Function, id constant.Value, t types.Type) (label string, bad string) {
	ip := newInterp(a)
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) }
	globalMaps(a, ip)
	res := map[string]bool{}
	for _, o := range ip.run(f, []AV{ip.konst(id, t)}, newIst()) {
		if o.exit {
			return "", "it has no name"
		}
		if o.res[0].K != 'c' || ip.consts[o.res[0].S].Kind() != constant.String {
			return "", "its name isn't a constant"
		}
		res[constant.StringVal(ip.consts[o.res[0].S])] = true
	}
	if len(res) != 1 {
		return "", "its name cannot be decided"
	}
	for s := range res {
		label = s
	}
	if label == "" {
		return "", "its name is empty"
	}
	return label, ip.bad
}

// parsedWord is what the parser makes of a word.
type parsedWord struct {
	kinds []types.Type
	sure  []types.Type // what it is when nothing but the word is read
	open  bool         // what it may be isn't fully known
	alias bool         // the word may be taken for the name of something else
	n     int
}

func runWord(a *Analysis, f *ssa.Function, word string) *parsedWord {
	r := &parsedWord{}
	ip := newInterp(a)
	ip.limit = 20000
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) }
	globalMaps(a, ip)
	results := map[string][]types.Type{}
	wordFns := map[*ssa.Function]bool{f: true}
	tok := a.p.named("parser", "Token")
	isTok := func(t types.Type) bool {
		n := namedOf(deref(t))
		return n != nil && n == tok
	}
	ip.load = func(st *ist, path string, t types.Type) (AV, bool) {
		if path == "‹tok›.Value" {
			return ip.konst(constant.MakeString(word), types.Typ[types.String]), true
		}
		return globalArray(a, ip, path)
	}
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		cc := c.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil, false
		}
		if callName(cc, g) == "NextToken" {
			st.ev["more"] = true
		}
		mine := false // something is done with the word
		for _, x := range args {
			if x.S == "‹tok›" || x.K == 'c' && ip.consts[x.S].Kind() == constant.String && constant.StringVal(ip.consts[x.S]) == word {
				mine = true
			}
		}
		if g != nil && g.Pkg == f.Pkg && g.Blocks != nil && !cc.IsInvoke() {
			if mine {
				wordFns[g] = true
				return nil, false
			}
			if rs := g.Signature.Results(); wordFns[c.Parent()] && rs.Len() == 1 && types.Implements(rs.At(0).Type(), a.p.iface("Value")) {
				return nil, false // parses what starts with the word
			}
		}
		if mine && cc.Signature().Results().Len() > 0 && types.IsInterface(cc.Signature().Results().At(0).Type()) {
			st.ev["alias"] = true
		}
		res := nil2(ip, st, c, cc)
		if v, ok := c.(ssa.Value); ok && len(res) == 1 && len(res[0].res) == 1 && res[0].res[0].K == 's' && res[0].res[0].T == nil {
			var l []types.Type
			known := false
			if g != nil && !cc.IsInvoke() {
				set := map[types.Type]bool{}
				a.dynWide = true
				if call, ok := v.(*ssa.Call); ok && types.IsInterface(v.Type()) {
					known = staticFn(call.Call.Value) != nil && a.dyn(v, set, map[interface{}]bool{}, 0) || a.dynFn(g, 0, set, map[interface{}]bool{}, 0)
				}
				a.dynWide = false
				for t := range set {
					l = append(l, t)
				}
			}
			if known {
				results[res[0].res[0].S] = l
			}
		}
		return res, true
	}
	var args []AV
	for i, p := range f.Params {
		switch {
		case isTok(p.Type()):
			args = append(args, AV{K: 's', S: "‹tok›", T: canonOrNil(p.Type())})
		case isBool(p.Type()):
			args = append(args, ip.boolean(false))
		default:
			args = append(args, AV{K: 's', S: fmt.Sprint("arg", i), T: canonOrNil(p.Type())})
		}
	}
	seen := map[types.Type]bool{}
	for _, o := range ip.run(f, args, newIst()) {
		if o.exit {
			continue
		}
		r.n++
		if o.st.ev["alias"] {
			r.alias = true
		}
		v := o.res[0]
		l, known := results[v.S]
		if v.T != nil {
			l, known = []types.Type{v.T}, true
		}
		if !known {
			r.open = true
		}
		if len(l) == 1 && !o.st.ev["more"] {
			r.sure = append(r.sure, l[0])
		}
		for _, t := range l {
			if !seen[t] {
				seen[t] = true
				r.kinds = append(r.kinds, t)
			}
		}
	}
	if ip.bad != "" {
		dbgf("word %s: %s", word, ip.bad)
		r.alias = true
	}
	return r
}

// wordParser finds the function that makes something of a word.
func wordParser(a *Analysis) *ssa.Function {
	tok := a.p.named("parser", "Token")
	for _, f := range a.p.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Name() != "parser" || f.Parent() != nil || f.Signature.Results().Len() != 1 || !types.IsInterface(f.Signature.Results().At(0).Type()) {
			continue
		}
		takes := false
		for _, p := range f.Params {
			if n := namedOf(deref(p.Type())); n != nil && n == tok {
				takes = true
			}
		}
		if !takes {
			continue
		}
		w := runWord(a, f, "int")
		if w.n > 0 && !w.alias && len(w.kinds) == 1 && strings.Contains(strings.ToLower(tname(w.kinds[0])), "integer") {
			return f
		}
	}
	return nil
}

// kindInterfaces returns what tells kinds of types apart: the interfaces of package dgo for types that a type implements.
func kindInterfaces(a *Analysis, t types.Type) []string {
	var l []string
	pkg := a.p.named("dgo", "Type").Obj().Pkg()
	base := a.p.iface("Type")
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || !tn.Exported() {
			continue
		}
		it, ok := tn.Type().Underlying().(*types.Interface)
		if !ok || !(strings.HasSuffix(n, "Type")) || n == "Type" || it.NumMethods() == 0 {
			continue
		}
		if types.Implements(types.NewInterfaceType(nil, []types.Type{tn.Type()}), base) && types.Implements(t, it) {
			l = append(l, n)
		}
	}
	sort.Strings(l)
	return l
}

func checkC17(a *Analysis, r *Report) {
	p := a.p
	r.Rules = []string{
		"identifier: TypeIdentifier of each kind of type yields one constant; kinds with the same identifier implement the same interfaces for types; identifiers of exact values belong to types that have an exact value",
		"name: TypeIdentifier.String, interpreted for each declared identifier, yields a name, and identifiers of different families don't share it",
		"printed: printing, interpreted for each kind of type, works: what is assumed about the type holds, and something is printed",
		"word: the word that is printed for a kind of type, or that what is printed starts with, is known to the type parser and yields a type of the same name",
	}
	ti := p.named("dgo", "TypeIdentifier")
	str := p.methodOf(ti, "String")
	if str == nil || str.Blocks == nil {
		failf("anchor TypeIdentifier.String not found")
	}
	// the identifiers
	type ident struct {
		name  string
		v     int64
		label string
	}
	byVal := map[int64]*ident{}
	var ids []*ident
	scope := ti.Obj().Pkg().Scope()
	limit := int64(-1)
	for _, n := range scope.Names() {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok || !types.Identical(c.Type(), ti) {
			continue
		}
		v, _ := constant.Int64Val(c.Val())
		if !c.Exported() {
			limit = v
			continue
		}
		r.count("identifiers", 1)
		id := &ident{name: n, v: v}
		if o := byVal[v]; o != nil {
			r.ob(false, "identifier", n, p.pos(c.Pos()), fmt.Sprintf("%s and %s are the same identifier", n, o.name))
			continue
		}
		byVal[v] = id
		ids = append(ids, id)
		label, bad := idLabel(a, str, c.Val(), ti)
		id.label = label
		r.ob(bad == "", "name", n, p.pos(c.Pos()), fmt.Sprintf("%s: %s", n, bad))
	}
	stem := func(s string) string { return strings.TrimSuffix(strings.TrimPrefix(s, "Ti"), "Exact") }
	for i, x := range ids {
		for _, y := range ids[:i] {
			if x.label != y.label || x.label == "" {
				continue
			}
			ok := false
			for _, z := range ids {
				if z.label == x.label && strings.Contains(stem(x.name), stem(z.name)) && strings.Contains(stem(y.name), stem(z.name)) {
					ok = true
				}
			}
			r.ob(ok, "name", y.name+" "+x.name, p.pos(str.Pos()), fmt.Sprintf("%s and %s have the same name %q", y.name, x.name, x.label))
		}
	}
	// the kinds of types
	ifc := p.iface("Type")
	byID := map[int64][]types.Type{}
	idOf := map[string]int64{}
	var kinds []types.Type
	for _, t := range p.implementers(ifc) {
		if n := namedOf(t); n == nil || n.Obj().Pkg().Name() != "internal" && !p.inModule(p.methodOf(t, "TypeIdentifier")) {
			continue
		}
		if n := namedOf(t); n != nil && n.Obj().Pkg().Name() == "parser" && n.Obj().Name() == "unknownIdentifier" {
			continue
		}
		if abstractKind(p, t) || delegated(t, "TypeIdentifier") {
			continue
		}
		l, bad := typeIDs(a, t)
		if bad == "" && len(l) != 1 {
			bad = fmt.Sprintf("it has %d identifiers", len(l))
		}
		f := p.methodOf(t, "TypeIdentifier")
		r.count("kinds of types", 1)
		r.ob(bad == "", "identifier", tname(t), p.fnPos(f), fmt.Sprintf("%s: %s", tname(t), bad))
		if bad != "" {
			continue
		}
		byID[l[0]] = append(byID[l[0]], t)
		idOf[tname(t)] = l[0]
		kinds = append(kinds, t)
	}
	exact := p.iface("ExactType")
	for v, l := range byID {
		name := fmt.Sprint(v)
		if id := byVal[v]; id != nil {
			name = id.name
		} else {
			r.ob(false, "identifier", tname(l[0]), "-", fmt.Sprintf("the identifier %d of %s isn't declared", v, tname(l[0])))
		}
		for _, t := range l[1:] {
			x, y := kindInterfaces(a, l[0]), kindInterfaces(a, t)
			r.ob(strings.Join(x, " ") == strings.Join(y, " "), "identifier", tname(t), p.fnPos(p.methodOf(t, "TypeIdentifier")), fmt.Sprintf("%s and %s are of different kinds (%v, %v) but have the same identifier %s", tname(l[0]), tname(t), x, y, name))
		}
		for _, t := range l {
			if v > limit && limit >= 0 {
				r.ob(types.Implements(t, exact) || oneValue(p, t) != nil, "identifier", tname(t), p.fnPos(p.methodOf(t, "TypeIdentifier")), fmt.Sprintf("%s has the identifier of an exact type but has no exact value", tname(t)))
			}
		}
	}
	print := p.fn("stringer", "TypeStringWithAliasMap")
	if print == nil {
		failf("anchor stringer.TypeStringWithAliasMap not found")
	}
	words := wordParser(a)
	if words == nil {
		failf("the function of the parser that knows the words for types wasn't found")
	}
	parsed := map[string]*parsedWord{}
	for _, t := range kinds {
		if idOf[tname(t)] == 0 && byVal[0] != nil && byVal[0].name == "TiAlias" || strings.Contains(tname(t), "alias") {
			continue // only used during parsing
		}
		pr := runPrint(a, print, t)
		pos := p.fnPos(print)
		dbgf("print %s: %v failed %v", tname(t), pr.outputs, pr.failed)
		r.count("printed kinds", 1)
		if pr.bad != "" {
			r.ob(false, "printed", tname(t), pos, "cannot be decided: "+pr.bad)
			continue
		}
		r.ob(len(pr.failed) == 0 && !pr.panics, "printed", tname(t), pos, fmt.Sprintf("printing a type of kind %s fails: it isn't a %s", tname(t), strings.Join(pr.failed, ", ")))
		mine := byVal[idOf[tname(t)]]
		if s, ok := deref(t).Underlying().(*types.Struct); ok && s.NumFields() > 0 {
			only := len(pr.outputs) > 0
			for out := range pr.outputs {
				if out == "" || out != leadingWord(out) {
					only = false
				}
			}
			r.ob(!only, "printed", tname(t), pos, fmt.Sprintf("all types of kind %s are printed as the same word", tname(t)))
		}
		for out := range pr.outputs {
			w := leadingWord(out)
			if w == "" {
				continue
			}
			pw := parsed[w]
			if pw == nil {
				pw = runWord(a, words, w)
				parsed[w] = pw
				dbgf("word %s: %v alias %v n %d", w, pw.kinds, pw.alias, pw.n)
			}
			ok := pw.n > 0 && !pw.alias
			same := pw.open
			for _, k := range kindsOf(a, pw.kinds) {
				if id, has := idOf[tname(k)]; has && mine != nil && byVal[id] != nil && byVal[id].label == mine.label {
					same = true
				}
			}
			what := "the parser doesn't know"
			if ok && !same {
				what = fmt.Sprintf("for the parser is a %v", pw.kinds)
			}
			if out == w {
				r.count("words for kinds", 1)
				// nothing but the word: it must be the type itself
				l := pw.sure
				if len(l) == 0 {
					l, same = pw.kinds, pw.open
				} else {
					same = false
				}
				for _, k := range kindsOf(a, l) {
					if id, has := idOf[tname(k)]; has && mine != nil && byVal[id] != nil && byVal[id].label == mine.label {
						same = true
					}
				}
			}
			r.ob(ok && same, "word", tname(t)+" "+w, pos, fmt.Sprintf("a type of kind %s is printed as %q, a word that %s", tname(t), out, what))
		}
	}
	r.atLeast("identifiers", 40)
	r.atLeast("kinds of types", 44)
	r.atLeast("words for kinds", 8)
}

// delegated tells if a method is one of an interface that is embedded in t.
func delegated(t types.Type, name string) bool {
	obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
	f, ok := obj.(*types.Func)
	if !ok {
		return false
	}
	recv := f.Type().(*types.Signature).Recv()
	return recv != nil && types.IsInterface(recv.Type())
}

// kindsOf replaces kinds of values that aren't types with the kinds of their types.
func kindsOf(a *Analysis, l []types.Type) (r []types.Type) {
	for _, t := range l {
		if types.Implements(t, a.p.iface("Type")) {
			r = append(r, t)
			continue
		}
		set := map[types.Type]bool{}
		if f := a.p.methodOf(t, "Type"); f != nil && f.Blocks != nil {
			a.dynFn(f, 0, set, map[interface{}]bool{}, 0)
		}
		for t := range set {
			r = append(r, t)
		}
	}
	return r
}

func leadingWord(s string) string {
	i := 0
	for i < len(s) && (s[i] >= 'a' && s[i] <= 'z' || i > 0 && s[i] == ' ' && i+1 < len(s) && s[i+1] >= 'a' && s[i+1] <= 'z') {
		i++
	}
	return s[:i]
}
