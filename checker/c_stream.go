package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// wire interprets what writes and what reads serialized data, on graphs of values whose content is unknown. Arrays and
// maps are modelled by what they contain, in order, everything else by a symbol. What the writer tells the consumer is
// kept as a list of events.
type wire struct {
	a       *Analysis
	ip      *interp
	kinds   map[string]types.Type // the dynamic types of symbols
	scripts map[string]wscript
	doers   int
	arr     types.Type
	hmap    types.Type
	str     types.Type
	integer types.Type
	named   types.Type
	anyType types.Type
	iface   map[string]*types.Interface
	sens    types.Type
	bin     types.Type
	tim     types.Type
	unwrap  map[string]AV   // what sensitive values contain
	known   map[string]AV   // the operands of symbols
	initFor map[string]AV   // the arguments that recreate named values
	cats    map[string][]AV // the parts of texts
	sink    *[]AV           // collects what is formatted
	syms    int
}

type wev struct {
	op  string // add, ref, array, map, end
	v   AV
	end int // the index of the end
}

type wscript struct {
	obj AV
	evs []wev
	lo  int
	hi  int
}

func newWire(a *Analysis) *wire {
	p := a.p
	w := &wire{a: a, kinds: map[string]types.Type{}, scripts: map[string]wscript{}, unwrap: map[string]AV{}, known: map[string]AV{}, initFor: map[string]AV{}, cats: map[string][]AV{}, iface: map[string]*types.Interface{}}
	first := func(iface, prefer string) types.Type {
		var r types.Type
		for _, t := range p.implementers(p.iface(iface)) {
			if !strings.Contains(tname(t), "internal.") {
				continue
			}
			if r == nil || strings.HasSuffix(tname(t), prefer) {
				r = canonType(t)
			}
		}
		if r == nil {
			failf("no implementation of dgo.%s", iface)
		}
		return r
	}
	w.arr, w.hmap, w.str, w.integer = first("Array", ".array"), first("Map", ".hashMap"), first("String", ".hstring"), first("Integer", ".intVal")
	w.named, w.anyType = first("NamedType", ".named"), first("Type", ".anyType")
	w.sens, w.bin, w.tim = first("Sensitive", ".sensitive"), first("Binary", ".binary"), first("Time", ".timeVal")
	for _, n := range []string{"Integer", "Float", "Boolean", "Nil", "String", "Map", "Array", "Sensitive", "Binary", "Time", "Type", "Value"} {
		w.iface[n] = p.iface(n)
	}
	ip := newInterp(a)
	w.ip = ip
	ip.uniq, ip.flat, ip.copies, ip.nested, ip.many, ip.depth, ip.limit = true, true, true, true, 1<<20, 60, 30000
	ip.inline = func(g *ssa.Function) bool {
		if strings.HasPrefix(g.Name(), "Binary") || strings.HasPrefix(g.Name(), "Time") {
			return p.inModule(g) // makes values from text
		}
		return p.inModule(g) && (g.Pkg == nil || strings.HasSuffix(g.Pkg.Pkg.Path(), "/streamer") || strings.Contains(g.Pkg.Pkg.Path(), "/streamer/"))
	}
	ip.call = w.call
	ip.recursed = func(st *ist, f *ssa.Function) { ip.bad = "the recursion of " + fname(f) + " doesn't end" }
	ip.load = func(st *ist, path string, t types.Type) (AV, bool) {
		if _, ok := st.mem[path]; !ok && !strings.HasPrefix(path, "@") && types.IsInterface(t) && strings.HasSuffix(tname(t), "dgo.String") {
			return w.sym(path, w.str), true
		}
		return AV{}, false
	}
	ip.binop = w.compare
	ip.lookup = func(st *ist, in *ssa.Lookup, key AV) ([]AV, bool) {
		if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
			return nil, false
		}
		v, ok := st.mem["#map!"+ip.val(st, in.X).S+"!"+mapKey(key)]
		if !ok {
			v = ip.zero(in.X.Type().Underlying().(*types.Map).Elem(), "zero:map")
		}
		return []AV{v, ip.boolean(ok)}, true
	}
	ip.mapSet = func(st *ist, in *ssa.MapUpdate) {
		st.mem["#map!"+ip.val(st, in.Map).S+"!"+mapKey(ip.val(st, in.Key))] = ip.val(st, in.Value)
	}
	ip.made = func(st *ist, in *ssa.MakeSlice) (AV, bool) {
		n, ok := w.intOf(ip.val(st, in.Len))
		if !ok {
			return AV{}, false
		}
		return w.newSlice(st, n, canonOrNil(in.Type())), true
	}
	ip.slice = func(st *ist, in *ssa.Slice, x AV) (AV, bool) {
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok && x.K == 'p' {
				if _, ok := st.mem[x.S+"#n"]; !ok {
					st.mem[x.S+"#n"] = wnum(int(at.Len()))
				}
			}
		}
		n, ok := w.sliceLen(st, x)
		if !ok {
			return AV{}, false
		}
		lo, hi := 0, n
		if in.Low != nil {
			if lo, ok = w.intOf(ip.val(st, in.Low)); !ok {
				return AV{}, false
			}
		}
		if in.High != nil {
			if hi, ok = w.intOf(ip.val(st, in.High)); !ok {
				return AV{}, false
			}
		}
		if lo == 0 && hi == n {
			x.T = canonOrNil(in.Type())
			return x, true
		}
		// what is shared isn't modelled
		r := w.newSlice(st, hi-lo, canonOrNil(in.Type()))
		for i := lo; i < hi; i++ {
			if v, ok := st.mem[fmt.Sprintf("%s[%d]", x.S, i)]; ok {
				st.mem[fmt.Sprintf("%s[%d]", r.S, i-lo)] = v
			}
		}
		return r, true
	}
	ip.conv = func(st *ist, in *ssa.Convert, x AV) (AV, bool) {
		if strings.HasSuffix(in.Type().Underlying().String(), "[]byte") && x.K == 'c' {
			return AV{K: 's', S: "text:" + constant.StringVal(ip.consts[x.S])}, true
		}
		if _, ok := w.cats[x.S]; ok || x.K == 's' && strings.HasPrefix(x.S, "json(") {
			return x, true
		}
		return AV{}, false
	}
	return w
}

func wnum(n int) AV { return AV{K: 't', S: fmt.Sprint(n)} }

func mapKey(v AV) string { return string(v.K) + v.S }

func (w *wire) intOf(v AV) (int, bool) {
	i, ok := w.ip.intOf(v)
	return int(i), ok
}

func (w *wire) size(st *ist, id string) int {
	n := 0
	fmt.Sscan(st.mem[id+"#n"].S, &n)
	return n
}

func (w *wire) newSlice(st *ist, n int, t types.Type) AV {
	id := fmt.Sprintf("@sl~%d", st.tally("#new:sl"))
	st.mem[id+"#n"] = wnum(n)
	return AV{K: 'p', S: id, T: t}
}

func (w *wire) sliceLen(st *ist, x AV) (int, bool) {
	if x.K == 'n' {
		return 0, true
	}
	if _, ok := st.mem[x.S+"#n"]; ok {
		return w.size(st, x.S), true
	}
	return 0, false
}

// coll creates an array or a map. The keys and the values of a map alternate.
func (w *wire) coll(st *ist, t types.Type, elems ...AV) AV {
	id := fmt.Sprintf("@coll~%d", st.tally("#new:coll"))
	v := AV{K: 'p', S: id, T: t}
	w.fill(st, v, elems)
	return v
}

func (w *wire) fill(st *ist, c AV, elems []AV) {
	st.mem[c.S+"#n"] = wnum(len(elems))
	for i, e := range elems {
		st.mem[fmt.Sprint(c.S, "#", i)] = e
	}
}

func (w *wire) elems(st *ist, c AV) []AV {
	var r []AV
	for i := 0; i < w.size(st, c.S); i++ {
		r = append(r, st.mem[fmt.Sprint(c.S, "#", i)])
	}
	return r
}

func isColl(v AV) bool { return v.K == 'p' && strings.HasPrefix(v.S, "@coll~") }

func (w *wire) isMap(v AV) bool { return v.T != nil && types.Implements(v.T, w.iface["Map"]) }

// sym creates a symbol for a value.
func (w *wire) sym(s string, t types.Type, operands ...AV) AV {
	w.kinds[s] = t
	if len(operands) > 0 {
		w.known[s] = operands[len(operands)-1]
	}
	return AV{K: 's', S: s, T: t}
}

// is tells if v implements an interface of package dgo.
func (w *wire) is(v AV, iface string) bool {
	return v.T != nil && types.Implements(v.T, w.iface[iface])
}

// str converts a Go string to a value.
func (w *wire) text(v AV) AV {
	if s, ok := strings.CutPrefix(v.S, "GoString("); ok && v.K == 's' {
		s = strings.TrimSuffix(s, ")")
		t := w.kinds[s]
		if t == nil || !types.Implements(t, w.iface["String"]) {
			t = w.str
		}
		return AV{K: 's', S: s, T: t}
	}
	return w.sym("str("+v.S+")", w.str)
}

// value converts what vf.Value is given.
func (w *wire) value(v AV) AV {
	if v.T == nil || types.Implements(v.T, w.iface["Value"]) {
		return v
	}
	if b, ok := v.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return w.text(v)
	}
	return w.back(v, w.integer)
}

// back converts a native number or boolean that was taken from a value to that value.
func (w *wire) back(v AV, t types.Type) AV {
	for _, p := range []string{"GoInt(", "GoFloat(", "GoBool("} {
		if s, ok := strings.CutPrefix(v.S, p); ok && v.K == 's' {
			s = strings.TrimSuffix(s, ")")
			return AV{K: 's', S: s, T: w.kinds[s]}
		}
	}
	return w.sym("val("+v.S+")", t)
}

// compare decides if values are the same. Different symbols stand for different values.
func (w *wire) compare(st *ist, in *ssa.BinOp, x, y AV) (AV, bool) {
	// strings are all long enough to be deduplicated, or none is
	if strings.HasPrefix(x.S, "len(") != strings.HasPrefix(y.S, "len(") {
		op := in.Op
		if strings.HasPrefix(y.S, "len(") {
			op = map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
		}
		long := AV{K: 's', S: "long", T: types.Typ[types.Bool]}
		switch op {
		case token.GTR, token.GEQ:
			return long, true
		case token.LSS, token.LEQ:
			return not(long), true
		}
	}
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && in.Op == token.ADD && b.Info()&types.IsString != 0 && x.K != 0 && y.K != 0 && !(x.K == 'c' && y.K == 'c') {
		return w.cat(x, y), true
	}
	if in.Op != token.EQL && in.Op != token.NEQ {
		return AV{}, false
	}
	ans := func(b bool) (AV, bool) { return w.ip.boolean(b == (in.Op == token.EQL)), true }
	if x.K == 'n' || y.K == 'n' || x.K == 0 || y.K == 0 || x.K == 'c' && y.K == 'c' {
		return AV{}, false
	}
	t := in.X.Type()
	b, basic := t.Underlying().(*types.Basic)
	if basic && b.Info()&types.IsString == 0 {
		return AV{}, false
	}
	if !basic && !types.IsInterface(t) {
		if _, ok := t.Underlying().(*types.Pointer); !ok {
			return AV{}, false
		}
	}
	for i := 0; i < 2; i++ {
		if x.K == 's' && x.T != nil && types.Implements(x.T, w.iface["Nil"]) && (strings.HasSuffix(y.S, ".Nil") || y.T != nil && types.Identical(x.T, y.T)) {
			return ans(true)
		}
		x, y = y, x
	}
	return ans(x.K == y.K && x.S == y.S)
}

// seq continues each normal outcome.
func seq(outs []iout, f func(o iout) []iout) []iout {
	var r []iout
	for _, o := range outs {
		if o.exit {
			r = append(r, o)
			continue
		}
		r = append(r, f(o)...)
	}
	return r
}

// apply calls a function value.
func (w *wire) apply(st *ist, fv AV, args ...AV) []iout {
	if sc, ok := w.scripts[fv.S]; ok && fv.K == 'f' {
		return w.drive(st, sc.obj, sc.evs, sc.lo, sc.hi)
	}
	f := w.ip.fns[fv.S]
	if fv.K != 'f' || f == nil || f.Blocks == nil {
		w.ip.bad = "a function isn't known"
		return nil
	}
	if len(w.ip.stack) >= w.ip.depth {
		w.ip.bad = "the calls are too deep"
		return nil
	}
	w.ip.stack = append(w.ip.stack, fv.S)
	outs := w.ip.run(f, append(append([]AV{}, args...), w.ip.binds[fv.S]...), st)
	w.ip.stack = w.ip.stack[:len(w.ip.stack)-1]
	return outs
}

func (w *wire) method(st *ist, obj AV, name string, args ...AV) []iout {
	f := w.a.p.methodOf(obj.T, name)
	if f == nil || f.Blocks == nil {
		w.ip.bad = "no method " + name
		return nil
	}
	w.ip.stack = append(w.ip.stack, name)
	outs := w.ip.run(f, append([]AV{obj}, args...), st)
	w.ip.stack = w.ip.stack[:len(w.ip.stack)-1]
	return outs
}

// drive tells a consumer about events lo..hi.
func (w *wire) drive(st *ist, obj AV, evs []wev, lo, hi int) []iout {
	outs := []iout{{st: st.fork()}}
	for i := lo; i < hi; i++ {
		e := evs[i]
		at := i
		if e.op == "array" || e.op == "map" {
			i = e.end
		}
		outs = seq(outs, func(o iout) []iout {
			switch e.op {
			case "add":
				return w.method(o.st, obj, "Add", e.v)
			case "ref":
				return w.method(o.st, obj, "AddRef", e.v)
			}
			w.doers++
			id := fmt.Sprintf("script:%d", w.doers)
			w.scripts[id] = wscript{obj, evs, at + 1, e.end}
			n := map[string]string{"array": "AddArray", "map": "AddMap"}[e.op]
			return w.method(o.st, obj, n, e.v, AV{K: 'f', S: id})
		})
	}
	return outs
}

func (w *wire) event(st *ist, op string, v AV) {
	n := w.size(st, "#ev")
	st.mem["#ev#n"] = wnum(n + 1)
	st.mem[fmt.Sprintf("#ev#%d.op", n)] = AV{K: 't', S: op}
	st.mem[fmt.Sprintf("#ev#%d.v", n)] = v
}

func (w *wire) events(st *ist) []wev {
	var evs []wev
	var open []int
	for i := 0; i < w.size(st, "#ev"); i++ {
		e := wev{op: st.mem[fmt.Sprintf("#ev#%d.op", i)].S, v: st.mem[fmt.Sprintf("#ev#%d.v", i)]}
		switch e.op {
		case "array", "map":
			open = append(open, i)
		case "end":
			evs[open[len(open)-1]].end = i
			open = open[:len(open)-1]
		}
		evs = append(evs, e)
	}
	return evs
}

func showEvents(evs []wev) string {
	var l []string
	for _, e := range evs {
		switch e.op {
		case "array":
			l = append(l, "[")
		case "map":
			l = append(l, "{")
		case "end":
			l = append(l, "end")
		default:
			l = append(l, e.op+" "+e.v.S)
		}
	}
	return strings.Join(l, " ")
}

// cat is a text that consists of parts.
func (w *wire) cat(parts ...AV) AV {
	l := []string{}
	for _, x := range parts {
		l = append(l, string(rune(x.K))+x.S)
	}
	s := "cat(" + strings.Join(l, "+") + ")"
	w.cats[s] = parts
	return AV{K: 's', S: s, T: types.Typ[types.String]}
}

func (w *wire) put(st *ist, tok AV) {
	if w.sink != nil {
		*w.sink = append(*w.sink, tok)
		return
	}
	n := w.size(st, "#out")
	st.mem["#out#n"] = wnum(n + 1)
	st.mem[fmt.Sprint("#out#", n)] = tok
}

// write adds what is written.
func (w *wire) write(st *ist, x AV) {
	if t, ok := strings.CutPrefix(x.S, "text:"); ok && x.K == 's' {
		w.put(st, AV{K: 't', S: t})
		return
	}
	if l, ok := w.cats[x.S]; ok && x.K == 's' {
		for _, part := range l {
			w.write(st, part)
		}
		return
	}
	if x.K == 't' {
		w.put(st, x)
		return
	}
	if n, ok := w.sliceLen(st, x); ok {
		for i := 0; i < n; i++ {
			b, ok := w.intOf(st.mem[fmt.Sprintf("%s[%d]", x.S, i)])
			if !ok {
				w.ip.bad = "a byte that is written isn't known"
				return
			}
			w.put(st, AV{K: 't', S: string(rune(b))})
		}
		return
	}
	if x.K == 'c' && w.ip.consts[x.S].Kind() == constant.String {
		w.put(st, AV{K: 't', S: constant.StringVal(w.ip.consts[x.S])})
		return
	}
	w.put(st, x)
}

func (w *wire) varargs(st *ist, x AV) ([]AV, bool) {
	n, ok := w.sliceLen(st, x)
	if !ok {
		return nil, false
	}
	var r []AV
	for i := 0; i < n; i++ {
		r = append(r, st.mem[fmt.Sprintf("%s[%d]", x.S, i)])
	}
	return r, true
}

// format writes formatted output.
func (w *wire) format(st *ist, f string, args []AV) {
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 || i+1 == len(f) {
			break
		}
		if i > 0 {
			w.put(st, AV{K: 't', S: f[:i]})
		}
		verb := f[i+1]
		f = f[i+2:]
		if verb == '%' {
			w.put(st, AV{K: 't', S: "%"})
			continue
		}
		if len(args) == 0 {
			w.ip.bad = "too few arguments for what is written"
			return
		}
		a := args[0]
		args = args[1:]
		if a.T != nil && types.Implements(a.T, w.iface["String"]) {
			a = AV{K: 's', S: "GoString(" + a.S + ")", T: types.Typ[types.String]}
		}
		switch {
		case a.K == 'c' && w.ip.consts[a.S].Kind() == constant.Int:
			w.put(st, AV{K: 't', S: w.ip.consts[a.S].ExactString()})
		case verb == 'q':
			w.put(st, AV{K: 's', S: "json(" + a.S + ")", T: a.T})
			w.known["json("+a.S+")"] = a
		default:
			w.write(st, a)
		}
	}
	if f != "" {
		w.put(st, AV{K: 't', S: f})
	}
}

// call models what the streamer uses of other packages, and the consumer.
func (w *wire) call(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
	ip := w.ip
	cc := c.Common()
	ret := func(v ...AV) ([]iout, bool) { return []iout{{st: st, res: v}}, true }
	none := AV{K: 'n'}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
			if n, ok := w.sliceLen(st, args[0]); ok {
				return ret(ip.integer(int64(n), types.Typ[types.Int]))
			}
		case "append":
			n, ok := w.sliceLen(st, args[0])
			m, ok2 := w.sliceLen(st, args[1])
			if !ok || !ok2 {
				return nil, false
			}
			r := w.newSlice(st, n+m, canonOrNil(cc.Args[0].Type()))
			for i := 0; i < n+m; i++ {
				from, j := args[0].S, i
				if i >= n {
					from, j = args[1].S, i-n
				}
				if v, ok := st.mem[fmt.Sprintf("%s[%d]", from, j)]; ok {
					st.mem[fmt.Sprintf("%s[%d]", r.S, i)] = v
				}
			}
			return ret(r)
		}
		return nil, false
	}
	name := ""
	if cc.IsInvoke() {
		name = cc.Method.Name()
	} else if g != nil {
		name = g.Name()
	} else {
		fv := ip.val(st, cc.Value)
		if _, ok := w.scripts[fv.S]; ok && fv.K == 'f' {
			return w.apply(st, fv), true
		}
		return nil, false
	}
	if len(args) > 0 && args[0].K == 's' && args[0].S == "consumer" && cc.IsInvoke() {
		switch name {
		case "Add":
			w.event(st, "add", args[1])
			return ret()
		case "AddRef":
			w.event(st, "ref", args[1])
			return ret()
		case "AddArray", "AddMap":
			w.event(st, strings.ToLower(name[3:]), args[1])
			outs := w.apply(st, args[2])
			for i := range outs {
				outs[i].res = nil
				w.event(outs[i].st, "end", AV{K: 't'})
			}
			return outs, true
		case "CanDoBinary", "CanDoComplexKeys", "CanDoTime":
			return ret(AV{K: 's', S: name, T: types.Typ[types.Bool]})
		}
	}
	pkg := ""
	if g != nil && g.Pkg != nil {
		pkg = g.Pkg.Pkg.Path()
		pkg = pkg[strings.LastIndexByte(pkg, '/')+1:]
	}
	if g != nil && pkg == "" && g.Object() != nil && g.Object().Pkg() != nil {
		pkg = g.Object().Pkg().Path()
		pkg = pkg[strings.LastIndexByte(pkg, '/')+1:]
	}
	if name == "ParseType" && (cc.IsInvoke() || g.Signature.Recv() != nil) && len(args) == 3 {
		return ret(w.sym("ParseType("+args[0].S+","+args[2].S+")", w.anyType, args[2]))
	}
	if cc.IsInvoke() && len(args) == 1 && args[0].K == 's' && args[0].S == "D" {
		return ret(w.sym(name+"(D)", w.str))
	}
	if cc.IsInvoke() && len(args) > 0 && args[0].K == 's' && args[0].S == "AM" {
		switch name {
		case "GetName":
			no := st.clone()
			no.rel["unaliased"] = true
			return []iout{{st: st, res: []AV{w.sym("alias("+args[1].S+")", w.str)}}, {st: no, res: []AV{none}}}, true
		case "Add":
			st.mem["#alias!"+args[1].S] = args[2]
			return ret()
		}
	}
	recv := cc.IsInvoke() || g != nil && g.Signature.Recv() != nil
	if recv && len(args) > 0 {
		if outs, ok := w.methodCall(st, c, name, args); ok {
			return outs, true
		}
	}
	if g == nil || recv {
		return nil, false
	}
	switch pkg + "." + name {
	case "vf.String", "internal.String":
		return ret(w.text(args[0]))
	case "vf.Value", "internal.Value":
		return ret(w.value(args[0]))
	case "vf.Integer", "internal.Integer", "vf.Float", "internal.Float", "vf.Boolean", "internal.Boolean":
		return ret(w.back(args[0], w.integer))
	case "vf.Values", "internal.Values", "vf.MutableValues", "internal.MutableValues", "vf.Strings", "internal.Strings":
		if as, ok := w.varargs(st, args[0]); ok {
			for i := range as {
				as[i] = w.value(as[i])
			}
			return ret(w.coll(st, w.arr, as...))
		}
	case "vf.Map", "internal.Map", "vf.MutableMap", "internal.MutableMap":
		if as, ok := w.varargs(st, args[0]); ok && len(as)%2 == 0 {
			for i := range as {
				as[i] = w.value(as[i])
			}
			return ret(w.coll(st, w.hmap, as...))
		}
	case "vf.ArrayWithCapacity", "internal.ArrayWithCapacity":
		return ret(w.coll(st, w.arr))
	case "vf.MapWithCapacity", "internal.MapWithCapacity":
		return ret(w.coll(st, w.hmap))
	case "vf.Sensitive", "internal.Sensitive":
		s := "Sensitive(" + args[0].S + ")"
		w.unwrap[s] = args[0]
		return ret(w.sym(s, w.sens, args[0]))
	case "time.Parse":
		v := AV{K: 's', S: "read:" + args[0].S + "|" + args[1].S, T: canonOrNil(cc.Signature().Results().At(0).Type())}
		w.known[v.S] = args[1]
		return ret(v, none)
	case "tf.Named", "internal.NamedType", "tf.NamedType", "internal.Named":
		return ret(w.sym("Named("+args[0].S+")", w.named, args[0]))
	case "vf.New", "internal.New":
		return ret(w.sym("New("+args[0].S+"|"+args[1].S+")", nil, args[1]))
	case "json.Marshal":
		s := "json(" + args[0].S + ")"
		w.known[s] = args[0]
		return ret(AV{K: 's', S: s, T: args[0].T}, none)
	case "fmt.Fprintf":
		if as, ok := w.varargs(st, args[2]); ok && args[1].K == 'c' {
			w.format(st, constant.StringVal(ip.consts[args[1].S]), as)
			return ret(ip.integer(1, types.Typ[types.Int]), none)
		}
	case "fmt.Sprintf":
		if as, ok := w.varargs(st, args[1]); ok && args[0].K == 'c' && w.sink == nil {
			var l []AV
			w.sink = &l
			w.format(st, constant.StringVal(ip.consts[args[0].S]), as)
			w.sink = nil
			return ret(w.cat(l...))
		}
	case "fmt.Fprint":
		if as, ok := w.varargs(st, args[1]); ok {
			for _, x := range as {
				w.write(st, x)
			}
			return ret(ip.integer(1, types.Typ[types.Int]), none)
		}
	case "io.WriteString":
		w.write(st, args[1])
		return ret(ip.integer(1, types.Typ[types.Int]), none)
	case "strconv.Atoi", "strconv.ParseInt":
		if s := strings.TrimPrefix(args[0].S, "digits|"); args[0].K == 's' {
			return w.integerOf(st, s)
		}
	case "strconv.ParseFloat":
		if s := strings.TrimPrefix(args[0].S, "digits|"); args[0].K == 's' {
			return w.floatOf(st, s)
		}
	case "strconv.FormatInt":
		if args[0].K == 'c' {
			return ret(ip.konst(constant.MakeString(ip.consts[args[0].S].ExactString()), types.Typ[types.String]))
		}
	case "strconv.Itoa":
		if args[0].K == 'c' {
			return ret(ip.konst(constant.MakeString(ip.consts[args[0].S].ExactString()), types.Typ[types.String]))
		}
	}
	return nil, false
}

// each visits n elements one after another.
func (w *wire) each(st *ist, n int, f func(o iout, i int) []iout) []iout {
	outs := []iout{{st: st.fork()}}
	for i := 0; i < n; i++ {
		outs = seq(outs, func(o iout) []iout { return f(o, i) })
	}
	return outs
}

func drop(outs []iout, res ...AV) []iout {
	for i := range outs {
		outs[i].res = res
	}
	return outs
}

// methodCall models the methods of values.
func (w *wire) methodCall(st *ist, c ssa.CallInstruction, name string, args []AV) ([]iout, bool) {
	ip := w.ip
	x := args[0]
	none := AV{K: 'n'}
	ret := func(v ...AV) ([]iout, bool) { return []iout{{st: st, res: v}}, true }
	num := func(n int) ([]iout, bool) { return ret(ip.integer(int64(n), types.Typ[types.Int])) }
	if name == "Write" && len(args) == 2 || name == "WriteString" && len(args) == 2 || name == "WriteByte" {
		if name == "WriteByte" {
			if b, ok := w.intOf(args[1]); ok {
				w.put(st, AV{K: 't', S: string(rune(b))})
				return ret(none)
			}
			return nil, false
		}
		w.write(st, args[1])
		return ret(ip.integer(1, types.Typ[types.Int]), none)
	}
	if name == "Token" && len(args) == 1 {
		n := w.size(st, "#tokpos")
		if n >= w.size(st, "#tok") {
			return ret(none, AV{K: 's', S: "io.EOF"})
		}
		st.mem["#tokpos#n"] = wnum(n + 1)
		return ret(st.mem[fmt.Sprint("#tok#", n)], none)
	}
	if name == "More" && len(args) == 1 && !isColl(x) {
		n := w.size(st, "#tokpos")
		more := n < w.size(st, "#tok")
		if more {
			if t := st.mem[fmt.Sprint("#tok#", n)]; t.K == 'c' && t.T != nil && strings.HasSuffix(tname(t.T), "json.Delim") {
				if d, _ := w.intOf(t); d == '}' || d == ']' {
					more = false
				}
			}
		}
		return ret(ip.boolean(more))
	}
	if s, ok := strings.CutPrefix(x.S, "@entry|"); ok {
		l := strings.Split(s, "|")
		i := 0
		fmt.Sscan(l[1], &i)
		switch name {
		case "Key":
			return ret(st.mem[fmt.Sprint(l[0], "#", 2*i)])
		case "Value":
			return ret(st.mem[fmt.Sprint(l[0], "#", 2*i+1)])
		}
		return nil, false
	}
	if isColl(x) {
		el := w.elems(st, x)
		if w.isMap(x) {
			find := func(k AV) int {
				k = w.value(k)
				for i := 0; i+1 < len(el); i += 2 {
					if el[i].S == k.S {
						return i
					}
				}
				return -1
			}
			put := func(k, v AV) AV {
				k, v = w.value(k), w.value(v)
				if i := find(k); i >= 0 {
					old := el[i+1]
					el[i+1] = v
					return old
				}
				el = append(el, k, v)
				return none
			}
			entry := func(i int) AV { return AV{K: 's', S: fmt.Sprintf("@entry|%s|%d", x.S, i)} }
			switch name {
			case "Len":
				return num(len(el) / 2)
			case "StringKeys":
				for i := 0; i < len(el); i += 2 {
					if !w.is(el[i], "String") {
						return ret(ip.boolean(false))
					}
				}
				return ret(ip.boolean(true))
			case "Get":
				if i := find(args[1]); i >= 0 {
					return ret(el[i+1])
				}
				return ret(none)
			case "ContainsKey":
				return ret(ip.boolean(find(args[1]) >= 0))
			case "Put":
				old := put(args[1], args[2])
				w.fill(st, x, el)
				return ret(old)
			case "PutAll":
				o := w.elems(st, args[1])
				for i := 0; i+1 < len(o); i += 2 {
					put(o[i], o[i+1])
				}
				w.fill(st, x, el)
				return ret()
			case "Without", "Remove":
				i := find(args[1])
				if name == "Remove" {
					old := none
					if i >= 0 {
						old = el[i+1]
						w.fill(st, x, append(append([]AV{}, el[:i]...), el[i+2:]...))
					}
					return ret(old)
				}
				if i < 0 {
					return ret(x)
				}
				return ret(w.coll(st, x.T, append(append([]AV{}, el[:i]...), el[i+2:]...)...))
			case "EachEntry":
				return drop(w.each(st, len(el)/2, func(o iout, i int) []iout { return w.apply(o.st, args[1], entry(i)) })), true
			case "EachKey", "EachValue", "Each":
				k := 1
				if name == "EachKey" {
					k = 0
				}
				return drop(w.each(st, len(el)/2, func(o iout, i int) []iout { return w.apply(o.st, args[1], el[2*i+k]) })), true
			case "Keys", "Values":
				k := 1
				if name == "Keys" {
					k = 0
				}
				var l []AV
				for i := 0; i+1 < len(el); i += 2 {
					l = append(l, el[i+k])
				}
				return ret(w.coll(st, w.arr, l...))
			case "Copy", "FrozenCopy", "ThawedCopy":
				return ret(w.coll(st, x.T, el...))
			case "Equals":
				return ret(ip.boolean(x.S == args[1].S))
			}
		} else {
			switch name {
			case "Len":
				return num(len(el))
			case "Get":
				i, ok := w.intOf(args[1])
				if !ok {
					return nil, false
				}
				if i < 0 || i >= len(el) {
					return []iout{{st: st, exit: true}}, true
				}
				return ret(el[i])
			case "Set":
				i, ok := w.intOf(args[1])
				if !ok {
					return nil, false
				}
				if i < 0 || i >= len(el) {
					return []iout{{st: st, exit: true}}, true
				}
				old := el[i]
				el[i] = w.value(args[2])
				w.fill(st, x, el)
				return ret(old)
			case "Add":
				w.fill(st, x, append(el, w.value(args[1])))
				return ret()
			case "AddAll", "WithAll":
				n := append(append([]AV{}, el...), w.elems(st, args[1])...)
				if name == "WithAll" {
					return ret(w.coll(st, x.T, n...))
				}
				w.fill(st, x, n)
				return ret()
			case "AddValues":
				if as, ok := w.varargs(st, args[1]); ok {
					for _, a := range as {
						el = append(el, w.value(a))
					}
					w.fill(st, x, el)
					return ret()
				}
			case "Remove":
				i, ok := w.intOf(args[1])
				if !ok || i < 0 || i >= len(el) {
					return nil, false
				}
				w.fill(st, x, append(append([]AV{}, el[:i]...), el[i+1:]...))
				return ret(el[i])
			case "Pop":
				if len(el) == 0 {
					return ret(none, ip.boolean(false))
				}
				w.fill(st, x, el[:len(el)-1])
				return ret(el[len(el)-1], ip.boolean(true))
			case "Slice":
				i, ok := w.intOf(args[1])
				j, ok2 := w.intOf(args[2])
				if ok && ok2 && i >= 0 && i <= j && j <= len(el) {
					return ret(w.coll(st, x.T, el[i:j]...))
				}
			case "ToMap", "ToMapFromEntries":
				if name == "ToMap" && len(el)%2 == 0 {
					m := w.coll(st, w.hmap)
					outs, _ := w.methodCall(st, c, "PutAll", []AV{m, {K: 'p', S: x.S, T: x.T}})
					for i := range outs {
						outs[i].res = []AV{m}
					}
					return outs, true
				}
				if name == "ToMap" {
					st.rel["uneven"] = true
					return ret(w.coll(st, w.hmap, append(append([]AV{}, el...), none)...))
				}
			case "Each", "EachWithIndex":
				return drop(w.each(st, len(el), func(o iout, i int) []iout {
					if name == "Each" {
						return w.apply(o.st, args[1], el[i])
					}
					return w.apply(o.st, args[1], el[i], ip.integer(int64(i), types.Typ[types.Int]))
				})), true
			case "Copy", "FrozenCopy", "ThawedCopy":
				return ret(w.coll(st, x.T, el...))
			case "Equals":
				return ret(ip.boolean(x.S == args[1].S))
			}
		}
		return nil, false
	}
	if x.K != 's' && x.K != 'c' {
		return nil, false
	}
	switch name {
	case "GoString", "String":
		if strings.HasPrefix(x.S, "num:") || strings.HasPrefix(x.S, "num(") {
			return ret(AV{K: 's', S: "digits|" + x.S, T: types.Typ[types.String]})
		}
		if t := w.kinds[x.S]; t == nil || len(args) != 1 {
			return nil, false
		}
		if w.is(x, "String") {
			name = "GoString"
			if s, ok := strings.CutPrefix(x.S, "str("); ok {
				s = strings.TrimSuffix(s, ")")
				k := byte('s')
				if _, ok := ip.consts[s]; ok {
					k = 'c'
				}
				return ret(AV{K: k, S: s, T: types.Typ[types.String]})
			}
		}
		s := name + "(" + x.S + ")"
		w.known[s] = x
		return ret(AV{K: 's', S: s, T: types.Typ[types.String]})
	case "GoInt", "GoFloat", "GoBool":
		if w.kinds[x.S] == nil {
			return nil, false
		}
		return ret(AV{K: 's', S: name + "(" + x.S + ")", T: map[string]types.Type{"GoInt": types.Typ[types.Int64], "GoFloat": types.Typ[types.Float64], "GoBool": types.Typ[types.Bool]}[name]})
	case "Unwrap":
		if v, ok := w.unwrap[x.S]; ok {
			return ret(v)
		}
	case "Equals":
		y := w.value(args[1])
		return ret(ip.boolean(x.S == y.S))
	case "Type":
		if w.kinds[x.S] != nil && len(args) == 1 {
			s := "Type(" + x.S + ")"
			return ret(AV{K: 's', S: s})
		}
	case "Name":
		if strings.HasPrefix(x.S, "Type(") {
			return ret(AV{K: 's', S: "Name(" + x.S + ")", T: types.Typ[types.String]})
		}
	case "Strict", "WithPadding":
		return ret(AV{K: 's', S: name + " " + x.S, T: x.T})
	case "DecodeString":
		if len(args) == 2 {
			v := AV{K: 's', S: "read:" + encodingOf(x.S) + "|" + args[1].S, T: types.NewSlice(types.Typ[types.Byte])}
			w.known[v.S] = args[1]
			return ret(v, none)
		}
	case "EncodeToString":
		return ret(AV{K: 's', S: "written:" + encodingOf(x.S) + "|", T: types.Typ[types.String]})
	case "Format":
		if len(args) == 2 && args[1].K == 'c' {
			return ret(AV{K: 's', S: "written:" + args[1].S + "|", T: types.Typ[types.String]})
		}
	case "ExtractInitArg":
		if v, ok := w.initFor[args[1].S]; ok {
			return ret(v)
		}
	case "New":
		if len(args) == 2 {
			return ret(w.sym("New("+x.S+"|"+args[1].S+")", w.named, args[1]))
		}
	case "Int64":
		return w.integerOf(st, x.S)
	case "Float64":
		return w.floatOf(st, x.S)
	}
	return nil, false
}

// integerOf converts a number of JSON.
func (w *wire) integerOf(st *ist, num string) ([]iout, bool) {
	ip, none := w.ip, AV{K: 'n'}
	ret := func(v ...AV) ([]iout, bool) { return []iout{{st: st, res: v}}, true }
	if s, ok := strings.CutPrefix(num, "num:"); ok {
		return ret(ip.konst(constant.MakeFromLiteral(s, token.INT, 0), types.Typ[types.Int64]), none)
	}
	if s, ok := strings.CutPrefix(num, "num("); ok {
		s = strings.TrimSuffix(s, ")")
		if strings.HasPrefix(s, "GoInt(") {
			return ret(AV{K: 's', S: s, T: types.Typ[types.Int64]}, none)
		}
		st.rel["nil:@err"] = false
		return ret(ip.integer(0, types.Typ[types.Int64]), AV{K: 's', S: "@err"})
	}
	return nil, false
}

func (w *wire) floatOf(st *ist, num string) ([]iout, bool) {
	if s, ok := strings.CutPrefix(num, "num("); ok {
		return []iout{{st: st, res: []AV{{K: 's', S: strings.TrimSuffix(s, ")"), T: types.Typ[types.Float64]}, {K: 'n'}}}}, true
	}
	return nil, false
}

// encodingOf drops what only makes an encoding refuse more.
func encodingOf(s string) string { return strings.ReplaceAll(s, "Strict ", "") }

// same tells how what was read differs from what was written.
func (w *wire) same(st *ist, got, want AV, seen map[string]bool) string {
	k := got.S + "|" + want.S
	if seen[k] {
		return ""
	}
	seen[k] = true
	if isColl(want) {
		if !isColl(got) || w.isMap(got) != w.isMap(want) {
			return fmt.Sprintf("%s instead of %s", w.show(st, got), w.show(st, want))
		}
		g, x := w.elems(st, got), w.elems(st, want)
		if len(g) != len(x) {
			return fmt.Sprintf("%s instead of %s", w.show(st, got), w.show(st, want))
		}
		for i := range g {
			if s := w.same(st, g[i], x[i], seen); s != "" {
				return s
			}
		}
		return ""
	}
	if got.S == want.S && got.K == want.K {
		return ""
	}
	bad := fmt.Sprintf("%s instead of %s", w.show(st, got), w.show(st, want))
	str := func(s string) bool { return s == "String("+want.S+")" }
	switch {
	case w.is(want, "Sensitive"):
		if in, ok := w.unwrap[got.S]; ok {
			return w.same(st, in, w.unwrap[want.S], seen)
		}
	case w.is(want, "Binary"), w.is(want, "Time"):
		if w.is(got, "Binary") != w.is(want, "Binary") {
			return bad
		}
		if o, form := w.origin(st, got); str(o.S) {
			if wf := w.textForm(want.T); wf != form {
				return fmt.Sprintf("text of %s that is written using %s is read using %s", tname(want.T), wf, form)
			}
			return ""
		}
	case w.is(want, "Nil"):
		if w.is(got, "Nil") {
			return ""
		}
	case w.is(want, "Type"):
		if o, ok := w.known[got.S]; ok && strings.HasPrefix(got.S, "ParseType(") && o.S == "str(String("+want.S+"))" {
			return ""
		}
	default:
		if o, ok := w.known[got.S]; ok && strings.HasPrefix(got.S, "New(Named(Name(Type("+want.S+")))|") {
			return w.same(st, o, w.initFor[want.S], seen)
		}
	}
	return bad
}

func (w *wire) show(st *ist, v AV) string {
	if isColl(v) {
		var l []string
		for _, e := range w.elems(st, v) {
			if isColl(e) {
				l = append(l, "...")
			} else {
				l = append(l, e.S)
			}
		}
		if w.isMap(v) {
			return "{" + strings.Join(l, ", ") + "}"
		}
		return "[" + strings.Join(l, ", ") + "]"
	}
	if v.K == 'n' {
		return "nil"
	}
	return v.S
}

// textForm tells how a value is converted to text: the layout of time, or the encoding.
func (w *wire) textForm(t types.Type) string {
	f := w.a.p.methodOf(t, "String")
	if f == nil || f.Blocks == nil {
		return ""
	}
	form := ""
	w.ip.steps = 0
	for _, o := range w.ip.run(f, []AV{{K: 's', S: "v", T: t}}, newIst()) {
		if o.exit {
			continue
		}
		x := ""
		if len(o.res) == 1 {
			x, _, _ = strings.Cut(strings.TrimPrefix(o.res[0].S, "written:"), "|")
		}
		if form != "" && x != form {
			return ""
		}
		form = x
	}
	return form
}

// origin tells what a created value was made from.
func (w *wire) origin(st *ist, v AV) (from AV, form string) {
	if v.K == 'p' {
		for _, f := range []string{"", "#copy", ".bytes"} {
			if x, ok := st.mem[v.S+f]; ok {
				v = x
			}
		}
	}
	if s, ok := strings.CutPrefix(v.S, "read:"); ok && v.K == 's' {
		form, _, _ = strings.Cut(s, "|")
		return w.known[v.S], form
	}
	return AV{}, ""
}

type wcase struct {
	name string
	root AV
	kind types.Type
	st   *ist
}

// cases builds the graphs in which a value of kind t occurs.
func (w *wire) cases(t types.Type) []wcase {
	var r []wcase
	add := func(name string, build func(st *ist) AV) {
		st := newIst()
		st.rel["nil:D"], st.rel["nil:AM"], st.rel["nil:consumer"] = false, false, false
		r = append(r, wcase{name, build(st), t, st})
	}
	fresh := func() AV {
		w.syms++
		return w.sym(fmt.Sprintf("x%d;", w.syms), t)
	}
	i := func(n string) AV { return w.sym("i"+n, w.integer) }
	s := func(n string) AV { return w.sym("s"+n, w.str) }
	arr := func(st *ist, e ...AV) AV { return w.coll(st, w.arr, e...) }
	obj := func(st *ist, e ...AV) AV { return w.coll(st, w.hmap, e...) }
	around := func(what string, x func(st *ist) AV) {
		add(what+" after a reference", func(st *ist) AV {
			v := x(st)
			return arr(st, i("1"), v, i("2"), v)
		})
		add(what+" in maps", func(st *ist) AV {
			v := x(st)
			m := obj(st, s("1"), v)
			return obj(st, s("2"), m, s("3"), arr(st, v, s("1"), m), s("4"), v, s("5"), obj(st, s("1"), i("5")))
		})
		add(what+" as value of a map with other keys", func(st *ist) AV {
			v := x(st)
			return arr(st, obj(st, i("1"), v, arr(st, i("2")), s("1")), s("1"), v)
		})
	}
	switch {
	case types.Implements(t, w.iface["Map"]):
		mk := func(f func(st *ist, self AV) []AV) func(st *ist) AV {
			return func(st *ist) AV {
				m := w.coll(st, t)
				w.fill(st, m, f(st, m))
				return m
			}
		}
		around("empty map", mk(func(*ist, AV) []AV { return nil }))
		around("map", mk(func(st *ist, _ AV) []AV { return []AV{s("k1"), i("3"), s("k2"), arr(st, s("k1"))} }))
		around("map with other keys", mk(func(st *ist, _ AV) []AV { return []AV{i("5"), s("5"), s("6"), arr(st, i("6"))} }))
		around("map that contains itself", mk(func(st *ist, m AV) []AV { return []AV{s("k1"), m, s("k2"), i("7")} }))
		around("map with other keys that contains itself", mk(func(st *ist, m AV) []AV { return []AV{i("8"), m, i("9"), arr(st, m)} }))
	case types.Implements(t, w.iface["Array"]):
		mk := func(f func(st *ist, self AV) []AV) func(st *ist) AV {
			return func(st *ist) AV {
				m := w.coll(st, t)
				w.fill(st, m, f(st, m))
				return m
			}
		}
		around("empty array", mk(func(*ist, AV) []AV { return nil }))
		around("array", mk(func(st *ist, _ AV) []AV { return []AV{s("5"), arr(st, s("5"), i("3"))} }))
		around("array that contains itself", mk(func(st *ist, m AV) []AV { return []AV{i("8"), m} }))
	case types.Implements(t, w.iface["Sensitive"]):
		around("sensitive", func(st *ist) AV {
			x := fresh()
			w.unwrap[x.S] = arr(st, i("4"), s("9"))
			return x
		})
		add("sensitive with an array that is used elsewhere", func(st *ist) AV {
			x := fresh()
			p := arr(st, s("9"))
			w.unwrap[x.S] = p
			return arr(st, x, p, x)
		})
	case w.isNamed(t):
		for k, mk := range []func(st *ist) AV{
			func(st *ist) AV { return i("4") },
			func(st *ist) AV { return arr(st, i("4")) },
			func(st *ist) AV { return w.coll(st, w.hmap) },
			func(st *ist) AV { return obj(st, s("k1"), i("4")) },
			func(st *ist) AV { return obj(st, s("k1"), i("4"), s("k2"), arr(st, s("k1"))) },
		} {
			around(fmt.Sprintf("named value with %s", []string{"a scalar", "an array", "an empty map", "a map", "a map with two entries"}[k]), func(st *ist) AV {
				x := fresh()
				w.initFor[x.S] = mk(st)
				return x
			})
		}
	default:
		around("value", func(st *ist) AV { return fresh() })
	}
	return r
}

// isNamed tells if values of kind t can only be streamed by a named type.
func (w *wire) isNamed(t types.Type) bool {
	for n, i := range w.iface {
		if n != "Value" && types.Implements(t, i) {
			return false
		}
	}
	return true
}

// option creates the options of a streamer.
func (w *wire) options(st *ist, dedup int64, rich AV) AV {
	id := "@options"
	st.mem[id+".DedupLevel"] = w.ip.integer(dedup, types.Typ[types.Int])
	st.mem[id+".Dialect"] = AV{K: 's', S: "D"}
	st.mem[id+".RichData"] = rich
	return AV{K: 'p', S: id}
}

// explain are the assumptions of a path that aren't about the numbers of elements.
func explain(st *ist) string {
	var l []string
	for k, v := range st.rel {
		if strings.HasPrefix(k, "CanDo") || k == "unaliased" {
			if !v {
				k = "not " + k
			}
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// beyond tells which event asks more of a consumer than what it said that it is capable of.
func (w *wire) beyond(st *ist, evs []wev) string {
	can := func(what string) bool { return st.rel["CanDo"+what] }
	isMap, count := []bool{false}, []int{0}
	for _, e := range evs {
		top := len(count) - 1
		if e.op != "end" {
			if isMap[top] && count[top]%2 == 0 && !can("ComplexKeys") && (e.op != "add" || !w.is(e.v, "String")) {
				return "a key that isn't a string"
			}
			count[top]++
		}
		switch e.op {
		case "add":
			switch {
			case w.is(e.v, "Binary"):
				if !can("Binary") {
					return "a binary"
				}
			case w.is(e.v, "Time"):
				if !can("Time") {
					return "a time"
				}
			case w.is(e.v, "Integer"), w.is(e.v, "Float"), w.is(e.v, "Boolean"), w.is(e.v, "Nil"), w.is(e.v, "String"):
			case e.v.K == 'n':
			default:
				return "no data: " + w.show(st, e.v)
			}
		case "array", "map":
			isMap, count = append(isMap, e.op == "map"), append(count, 0)
		case "end":
			isMap, count = isMap[:top], count[:top]
		}
	}
	return ""
}

// plain creates what events describe. Everything that is added, other than references, has a number.
func (w *wire) plain(st *ist, evs []wev) (*ist, AV) {
	top := w.coll(st, w.arr)
	stack, vals := []AV{top}, []AV{}
	add := func(v AV) {
		c := stack[len(stack)-1]
		n := w.size(st, c.S)
		st.mem[fmt.Sprint(c.S, "#", n)] = v
		st.mem[c.S+"#n"] = wnum(n + 1)
	}
	for _, e := range evs {
		switch e.op {
		case "add":
			add(e.v)
			vals = append(vals, e.v)
		case "ref":
			if n, ok := w.intOf(e.v); ok && n >= 0 && n < len(vals) {
				add(vals[n])
			} else {
				add(AV{K: 's', S: "what doesn't exist"})
			}
		case "array", "map":
			t := w.arr
			if e.op == "map" {
				t = w.hmap
			}
			v := w.coll(st, t)
			add(v)
			vals = append(vals, v)
			stack = append(stack, v)
		case "end":
			stack = stack[:len(stack)-1]
		}
	}
	if l := w.elems(st, top); len(l) > 0 {
		return st, l[0]
	}
	return st, AV{K: 'n'}
}

// dialects checks the names that are used by each dialect, and the parser for its types.
func dialects(a *Analysis, r *Report) {
	p := a.p
	newFn := p.fn("streamer", "New")
	tn, _ := newFn.Pkg.Pkg.Scope().Lookup("Dialect").(*types.TypeName)
	if tn == nil {
		failf("anchor of package streamer not found: Dialect")
	}
	iface := tn.Type().Underlying().(*types.Interface)
	for _, t := range p.implementers(iface) {
		r.count("dialects", 1)
		keys, names := map[string]string{}, map[string]string{}
		for i := 0; i < iface.NumMethods(); i++ {
			m := iface.Method(i)
			f := p.methodOf(t, m.Name())
			if f == nil || f.Blocks == nil {
				continue
			}
			in := keys
			switch {
			case m.Name() == "ParseType":
				r.ob(leadsTo(p, f, func(g *ssa.Function) bool {
					return g.Pkg != nil && p.inModule(g) && strings.HasSuffix(g.Pkg.Pkg.Path(), "/parser") && strings.HasPrefix(g.Name(), "Parse") && g.Signature.Recv() == nil
				}), "types", tname(t), p.pos(f.Pos()), "types are written in the syntax of dgo, which isn't what the type parser of this dialect understands")
				continue
			case f.Signature.Params().Len() > 0:
				continue
			case strings.HasSuffix(m.Name(), "TypeName"):
				in = names
			case !strings.HasSuffix(m.Name(), "Key"):
				continue
			}
			s, ok := constText(p, f)
			if !ok {
				r.count("names that aren't constants", 1)
				continue
			}
			r.count("names", 1)
			other, dup := in[s]
			r.ob(!dup && s != "", "keys", tname(t)+" "+m.Name(), p.pos(f.Pos()), fmt.Sprintf("%q is also what %s returns", s, other))
			in[s] = m.Name()
		}
	}
	r.atLeast("dialects", 2)
	r.atLeast("names", 12)
}

// constText is the text of the string value that a function always returns.
func constText(p *Prog, f *ssa.Function) (string, bool) {
	for depth := 0; depth < 10; depth++ {
		var v ssa.Value
		for _, b := range f.Blocks {
			if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
				if v != nil {
					return "", false
				}
				v = ret.Results[0]
			}
		}
		for v != nil {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			case *ssa.UnOp:
				g, ok := x.X.(*ssa.Global)
				v = nil
				if ok && g.Pkg != nil {
					n := 0
					for _, m := range p.Funcs {
						for _, b := range m.Blocks {
							for _, in := range b.Instrs {
								if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
									v = st.Val
									n++
								}
							}
						}
					}
					if n != 1 {
						return "", false
					}
				}
				continue
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil {
					return "", false
				}
				if len(x.Call.Args) == 1 {
					if c, ok := x.Call.Args[0].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
						return constant.StringVal(c.Value), true
					}
				}
				if len(g.Params) > 0 || g.Blocks == nil {
					return "", false
				}
				f = g
			}
			break
		}
		if v == nil {
			break
		}
	}
	return "", false
}

// leadsTo tells if direct calls lead from a function to what is wanted.
func leadsTo(p *Prog, f *ssa.Function, want func(g *ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if g == nil || seen[g] || !p.inModule(g) {
			return false
		}
		seen[g] = true
		if want(g) {
			return true
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if h, ok := (*op).(*ssa.Function); ok && visit(h) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

// read tells a decoder about events and yields the outcomes with the decoded value.
func (w *wire) read(st *ist, evs []wev, make func(st *ist) []iout) []iout {
	w.ip.steps = 0
	return seq(make(st.fork()), func(o iout) []iout {
		if len(o.res) == 0 || o.res[0].T == nil {
			w.ip.bad = "what collects values isn't known"
			return nil
		}
		obj := o.res[0]
		return seq(w.drive(o.st, obj, evs, 0, len(evs)), func(o iout) []iout { return w.method(o.st, obj, "Value") })
	})
}

// jsonTokens splits what was written to tokens, and says what is wrong with it.
func (w *wire) jsonTokens(st *ist) (toks []AV, bad string) {
	type piece struct {
		ch  byte
		val AV
	}
	var ps []piece
	for i := 0; i < w.size(st, "#out"); i++ {
		v := st.mem[fmt.Sprint("#out#", i)]
		if v.K != 't' {
			ps = append(ps, piece{val: v})
			continue
		}
		for j := 0; j < len(v.S); j++ {
			ps = append(ps, piece{ch: v.S[j]})
		}
	}
	pos := 0
	delim := w.a.p.SSA.ImportedPackage("encoding/json").Type("Delim").Type()
	number := w.a.p.SSA.ImportedPackage("encoding/json").Type("Number").Type()
	var value func() bool
	fail := func(s string) bool {
		if bad == "" {
			bad = s
		}
		return false
	}
	peek := func() byte {
		for pos < len(ps) && (ps[pos].ch == ' ' || ps[pos].ch == '\n') {
			pos++
		}
		if pos < len(ps) {
			return ps[pos].ch
		}
		return 1
	}
	str := func() (AV, bool) {
		pos++
		if pos < len(ps) && ps[pos].ch == 0 {
			v := ps[pos].val
			pos++
			if peek() != '"' {
				return v, fail("a string isn't terminated")
			}
			pos++
			return v, true
		}
		b := ""
		for pos < len(ps) && ps[pos].ch != '"' {
			if ps[pos].ch == 0 || ps[pos].ch == '\\' {
				return AV{}, fail("a string isn't known")
			}
			b += string(rune(ps[pos].ch))
			pos++
		}
		pos++
		return w.ip.konst(constant.MakeString(b), types.Typ[types.String]), true
	}
	scalar := func() (AV, bool) {
		if pos >= len(ps) {
			return AV{}, fail("a value is missing")
		}
		p := ps[pos]
		switch {
		case p.ch == 0:
			pos++
			o, ok := w.known[p.val.S]
			if !ok || !strings.HasPrefix(p.val.S, "json(") {
				return AV{}, fail("what is written isn't encoded: " + p.val.S)
			}
			if b, ok := o.T.Underlying().(*types.Basic); ok && b.Info()&(types.IsString|types.IsBoolean) != 0 {
				return o, true
			}
			return AV{K: 's', S: "num(" + o.S + ")", T: canonType(number)}, true
		case p.ch == '"':
			return str()
		case p.ch >= '0' && p.ch <= '9' || p.ch == '-':
			b := ""
			for pos < len(ps) && (ps[pos].ch >= '0' && ps[pos].ch <= '9' || ps[pos].ch == '-') {
				b += string(rune(ps[pos].ch))
				pos++
			}
			return AV{K: 's', S: "num:" + b, T: canonType(number)}, true
		}
		for _, l := range []string{"null", "true", "false"} {
			n := 0
			for n < len(l) && pos+n < len(ps) && ps[pos+n].ch == l[n] {
				n++
			}
			if n == len(l) {
				pos += n
				if l == "null" {
					return AV{K: 'n'}, true
				}
				return w.ip.boolean(l == "true"), true
			}
		}
		return AV{}, fail(fmt.Sprintf("%q where a value is expected", p.ch))
	}
	dl := func(b byte) { toks = append(toks, w.ip.integer(int64(b), delim)) }
	value = func() bool {
		switch b := peek(); b {
		case '[', '{':
			end := b + 2
			dl(b)
			pos++
			for first := true; peek() != end; first = false {
				if !first {
					if peek() != ',' {
						return fail("elements aren't separated")
					}
					pos++
				}
				if b == '{' {
					p := peek()
					k, ok := scalar()
					if !ok {
						return false
					}
					if p != '"' && (k.T == nil || k.K == 's' && k.T != types.Typ[types.String]) {
						return fail("a key isn't a string: " + k.S)
					}
					toks = append(toks, k)
					if peek() != ':' {
						return fail("a key is not followed by a value")
					}
					pos++
				}
				if !value() {
					return false
				}
			}
			dl(end)
			pos++
			return true
		}
		v, ok := scalar()
		if ok {
			toks = append(toks, v)
		}
		return ok
	}
	if value() && peek() != 1 {
		fail("there's more after the value")
	}
	return toks, bad
}

func checkC19(a *Analysis, r *Report) {
	p := a.p
	r.Rules = []string{
		"roundtrip: for graphs with a value of each kind that occurs several times, for each level of deduplication and what a consumer may be capable of: what the streamer tells a consumer makes the decoder of the same dialect create an equal graph",
		"json: what is written as JSON is well formed, and read as an equal graph by the reader with the same dialect",
		"capable: only data is added, binaries, times, and keys that aren't strings only after the consumer said that it is capable of that",
		"collect: collectors that don't decode create what the streamer tells them, with references to the elements that the streamer counted",
		"keys: the special keys of a dialect are different strings, and the names of its types are different strings",
		"types: the type parser of a dialect understands the syntax in which types are written",
	}
	newFn, decFn := p.fn("streamer", "New"), p.fn("streamer", "DataDecoder")
	mar, unm := p.fn("streamer", "MarshalJSON"), p.fn("streamer", "UnmarshalJSON")
	if newFn == nil || decFn == nil || mar == nil || unm == nil {
		failf("anchor of package streamer not found")
	}
	var kinds []types.Type
	for _, t := range p.implementers(p.iface("Value")) {
		if strings.Contains(tname(t), "internal.") {
			kinds = append(kinds, canonType(t))
		}
	}
	pos := p.pos(newFn.Pos())
	// exported functions without parameters that create something that collects values
	var collectors []*ssa.Function
	coll, _ := newFn.Pkg.Pkg.Scope().Lookup("Collector").(*types.TypeName)
	for _, m := range newFn.Pkg.Members {
		if f, ok := m.(*ssa.Function); ok && coll != nil && token.IsExported(f.Name()) && len(f.Params) == 0 && f.Signature.Results().Len() == 1 && types.Identical(f.Signature.Results().At(0).Type(), coll.Type()) {
			collectors = append(collectors, f)
			r.count("collectors", 1)
		}
	}
	sort.Slice(collectors, func(i, j int) bool { return collectors[i].Name() < collectors[j].Name() })
	dialects(a, r)
	t0 := time.Now()
	some := map[string]int{}
	dialect, null := AV{K: 's', S: "D"}, AV{K: 'n'}
	for _, t := range kinds {
		r.count("kinds of values", 1)
		bad := map[string]map[string]bool{}
		say := func(rule, f string, x ...interface{}) {
			if bad[rule] == nil {
				bad[rule] = map[string]bool{}
			}
			bad[rule][fmt.Sprintf(f, x...)] = true
		}
		w := newWire(a)
		isType := types.Implements(t, w.iface["Type"])
		cases := w.cases(t)
		// types, and values that are recreated by a named type, aren't told apart
		if cat := map[bool]string{true: "type", false: "named"}[isType]; isType || w.isNamed(t) {
			if some[cat]++; some[cat] > 2 {
				cases = cases[:1]
			}
		}
		for _, c := range cases {
			cyclic := strings.Contains(c.name, "itself")
			for dedup := int64(0); dedup <= 2; dedup++ {
				if cyclic && dedup == 0 {
					continue
				}
				ams := []AV{null}
				if isType {
					ams = append(ams, AV{K: 's', S: "AM"})
				}
				for _, am := range ams {
					st := c.st.fork()
					w.ip.steps = 0
					opts := w.options(st, dedup, AV{K: 's', S: "rich", T: types.Typ[types.Bool]})
					outs := seq(w.ip.run(newFn, []AV{am, opts}, st), func(o iout) []iout {
						return w.method(o.st, o.res[0], "Stream", c.root, AV{K: 's', S: "consumer"})
					})
					if w.ip.bad != "" {
						say("roundtrip", "cannot be decided: %s", w.ip.bad)
						w.ip.bad = ""
						continue
					}
					normal := 0
					dbgf("%s %s dedup %d: %d outcomes, %d steps %s\n", tname(t), c.name, dedup, len(outs), w.ip.steps, time.Since(t0))
					for _, o := range outs {
						where := fmt.Sprintf("%s, deduplication level %d, %s", c.name, dedup, explain(o.st))
						if o.exit {
							if w.refusalOK(o.st, t) {
								continue
							}
							say("roundtrip", "%s: the value is refused", where)
							continue
						}
						normal++
						evs := w.events(o.st)
						r.count("traces", 1)
						aas := []AV{null}
						if am.K == 's' {
							aas = append(aas, am)
						}
						for _, aa := range aas {
							w.verdict(say, "roundtrip", where, evs, c.root, w.read(o.st, evs, func(st *ist) []iout { return w.ip.run(decFn, []AV{aa, dialect}, st) }), o.st, aa)
						}
						if s := w.beyond(o.st, evs); s != "" {
							say("capable", "%s: %s (%s)", where, s, showEvents(evs))
						}
						st, plain := w.plain(o.st.fork(), evs)
						for _, cf := range collectors {
							r.count("collected traces", 1)
							w.verdict(say, "collect", fname(cf)+": "+where, evs, plain, w.read(st, evs, func(st *ist) []iout { return w.ip.run(cf, nil, st) }), o.st, null)
						}
					}
					if normal == 0 {
						say("roundtrip", "%s: nothing is written", c.name)
					}
				}
			}
			// JSON
			for _, d := range []AV{dialect, null} {
				st := c.st.fork()
				w.ip.steps = 0
				outs := w.ip.run(mar, []AV{c.root, d}, st)
				if w.ip.bad != "" {
					say("json", "cannot be decided: %s", w.ip.bad)
					w.ip.bad = ""
					continue
				}
				for _, o := range outs {
					if o.exit {
						if !w.refusalOK(o.st, t) {
							say("json", "%s: the value is refused", c.name)
						}
						continue
					}
					r.count("texts", 1)
					toks, wrong := w.jsonTokens(o.st)
					if wrong != "" {
						say("json", "%s: what is written isn't JSON: %s", c.name, wrong)
						continue
					}
					s := o.st.fork()
					s.mem["#tok#n"] = wnum(len(toks))
					for i, t := range toks {
						s.mem[fmt.Sprint("#tok#", i)] = t
					}
					w.ip.steps = 0
					w.verdict(say, "json", c.name, nil, c.root, w.ip.run(unm, []AV{{K: 's', S: "bytes"}, d}, s), o.st, null)
				}
			}
		}
		for _, rule := range []string{"roundtrip", "json", "capable", "collect"} {
			if rule == "collect" && len(collectors) == 0 {
				continue
			}
			var l []string
			for s := range bad[rule] {
				l = append(l, s)
			}
			sort.Strings(l)
			if len(l) > 4 {
				l = append(l[:4], fmt.Sprintf("and %d more", len(l)-4))
			}
			r.ob(len(l) == 0, rule, tname(t), pos, strings.Join(l, "; "))
		}
	}
	r.atLeast("kinds of values", 60)
	r.atLeast("traces", 1000)
	r.atLeast("texts", 300)
	r.Assumptions = append(r.Assumptions,
		"graphs are examined by shape: each kind of value occurs twice or more, also behind a reference, as value of a map, and as value of a map with other keys than strings; what the values contain is symbolic",
		"all strings are longer than the threshold for deduplication, or none is; maps of the user don't contain the special keys; the names of named types aren't the type names of the dialect",
		"what strconv, encoding/json, encoding/base64 and time print, they also parse; floats are written with a fraction",
		"the parser of types understands what the String method of types prints (not decided here)")
}

// refusalOK tells if values of kind t may be refused on a path.
func (w *wire) refusalOK(st *ist, t types.Type) bool {
	if rich, ok := st.rel["rich"]; ok && !rich {
		return true
	}
	if !w.isNamed(t) {
		return false
	}
	for k, v := range st.rel {
		if strings.HasPrefix(k, "is:dgo.NamedType:Type(") && !v {
			return true
		}
	}
	return false
}

// verdict compares what was read with what was written.
func (w *wire) verdict(say func(rule, f string, x ...interface{}), rule, where string, evs []wev, root AV, outs []iout, from *ist, aliases AV) {
	tr := ""
	if evs != nil {
		tr = " (" + showEvents(evs) + ")"
	}
	if w.ip.bad != "" {
		say(rule, "%s: cannot be decided: %s%s", where, w.ip.bad, tr)
		w.ip.bad = ""
		return
	}
	if len(outs) == 0 {
		say(rule, "%s: nothing is read%s", where, tr)
	}
	for _, o := range outs {
		switch {
		case o.exit:
			say(rule, "%s: reading fails%s", where, tr)
		case o.st.rel["uneven"]:
			say(rule, "%s: a map has a key without a value%s", where, tr)
		case len(o.res) == 0:
			say(rule, "%s: nothing is read%s", where, tr)
		default:
			if s := w.same(o.st, o.res[0], root, map[string]bool{}); s != "" {
				say(rule, "%s: %s is read%s", where, s, tr)
			}
		}
	}
}
