package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An abstract interpreter over the SSA form. Values are constants, symbols (named unknowns, possibly with a known
// dynamic type) and addresses of the form root.field.field. The state of each path is kept apart until two paths have
// the same state. Branches on unknown conditions are explored both ways, consistently for the same condition.

type AV struct {
	K byte // 0 unknown, 'c' constant, 'n' nil, 's' symbol, 'p' address, 'f' function
	S string
	T types.Type // concrete dynamic type, if known
}

var unknownAV = AV{}

func (v AV) String() string {
	t := ""
	if v.T != nil {
		t = ":" + tname(v.T)
	}
	if v.K == 0 {
		return "?"
	}
	return string(v.K) + v.S + t
}

type ist struct {
	env map[ssa.Value]AV
	tup map[ssa.Value][]AV
	mem map[string]AV
	rel map[string]bool
	dyn map[string]types.Type
	ev  map[string]bool

	defers []AV // the closures that this call deferred
}

func newIst() *ist {
	return &ist{env: map[ssa.Value]AV{}, tup: map[ssa.Value][]AV{}, mem: map[string]AV{}, rel: map[string]bool{}, dyn: map[string]types.Type{}, ev: map[string]bool{}}
}

func (s *ist) clone() *ist {
	c := &ist{env: make(map[ssa.Value]AV, len(s.env)), tup: make(map[ssa.Value][]AV, len(s.tup)), mem: make(map[string]AV, len(s.mem)),
		rel: make(map[string]bool, len(s.rel)), dyn: make(map[string]types.Type, len(s.dyn)), ev: make(map[string]bool, len(s.ev))}
	for k, v := range s.env {
		c.env[k] = v
	}
	for k, v := range s.tup {
		c.tup[k] = v
	}
	for k, v := range s.mem {
		c.mem[k] = v
	}
	for k, v := range s.rel {
		c.rel[k] = v
	}
	for k, v := range s.dyn {
		c.dyn[k] = v
	}
	for k := range s.ev {
		c.ev[k] = true
	}
	c.defers = s.defers
	return c
}

// frame state shared with callers: everything but the registers
func (s *ist) fork() *ist {
	c := s.clone()
	c.env = map[ssa.Value]AV{}
	c.tup = map[ssa.Value][]AV{}
	return c
}

func (s *ist) sharedKey() string {
	var l []string
	for k, v := range s.mem {
		l = append(l, "m"+k+"="+v.String())
	}
	for k, v := range s.rel {
		l = append(l, fmt.Sprint("r", k, v))
	}
	for k, v := range s.dyn {
		l = append(l, "d"+k+"="+tname(v))
	}
	for k := range s.ev {
		l = append(l, "e"+k)
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (s *ist) key() string {
	var l []string
	for k, v := range s.env {
		l = append(l, k.Name()+"="+v.String())
	}
	for k, v := range s.tup {
		l = append(l, fmt.Sprint(k.Name(), "=", v))
	}
	sort.Strings(l)
	return strings.Join(l, ";") + "|" + s.sharedKey()
}

type iout struct {
	st   *ist
	res  []AV
	exit bool // panics
}

func (o iout) key() string { return fmt.Sprint(o.res, o.exit, o.st.sharedKey()) }

// irel is an operation on two values.
type irel struct {
	op   token.Token
	x, y AV
}

type interp struct {
	a      *Analysis
	consts map[string]constant.Value
	fns    map[string]*ssa.Function
	binds  map[string][]AV
	live   map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	steps  int
	limit  int
	depth  int
	stack  []string
	bad    string // why the exploration is incomplete

	// call may handle a call. When it returns false, functions for which inline answers true are inlined and the others
	// yield unknown results.
	call     func(st *ist, c ssa.CallInstruction, f *ssa.Function, args []AV) ([]iout, bool)
	inline   func(f *ssa.Function) bool
	load     func(st *ist, path string, t types.Type) (AV, bool)
	backEdge func(st *ist, from, to *ssa.BasicBlock) bool // false: don't follow
	recursed func(st *ist, f *ssa.Function)
	binop    func(st *ist, in *ssa.BinOp, x, y AV) (AV, bool)
	enter    func(st *ist, f *ssa.Function, args []AV)
	asserted func(st *ist, in *ssa.TypeAssert, x AV, ok bool) // the outcome of a type assertion
	conv     func(st *ist, in *ssa.Convert, x AV) (AV, bool)
	arrays   map[string]int64                                   // the sizes of created arrays
	rels     map[string]irel                                    // what symbols for operations stand for
	lookup   func(st *ist, in *ssa.Lookup, key AV) ([]AV, bool) // the result of a map lookup, one or two values
	slice    func(st *ist, in *ssa.Slice, x AV) (AV, bool)      // the result of slicing x
	flat     bool                                               // an embedded struct isn't told apart from what embeds it
	rawLoop  bool                                               // an element of a slice of Go data isn't told from another when it is one of a loop
	textRead func(st *ist, index AV) (AV, bool)                 // the byte of a string
	mapSet   func(st *ist, in *ssa.MapUpdate)                   // an entry of a map is set
	symIndex bool                                               // elements are told apart by the symbols of indices
	uniq     bool                                               // what is created in each turn of a loop is told apart
	copies   bool                                               // storing a struct copies its fields, wherever they come from
	turns    int                                                // number of turns of a loop after which a path isn't followed
	nested   bool                                               // the content of loops is known: all turns and recursions are followed
	deferred bool                                               // deferred closures are called at the end
	many     int                                                // number of values at the start of a loop before they are generalized
	made     func(st *ist, in *ssa.MakeSlice) (AV, bool)        // a slice is created
	static   map[string]types.Type                              // the static type of symbols, if not nil
	sources  map[string]callSource                              // the calls that symbols are the results of, if not nil
}

type callSource struct {
	call ssa.CallInstruction
	fn   *ssa.Function
	args []AV
	ix   int
}

func newInterp(a *Analysis) *interp {
	return &interp{a: a, consts: map[string]constant.Value{}, fns: map[string]*ssa.Function{}, binds: map[string][]AV{},
		live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, rels: map[string]irel{}, arrays: map[string]int64{}, limit: 200000, depth: 16, many: 8}
}

func (ip *interp) konst(v constant.Value, t types.Type) AV {
	s := fmt.Sprint(v.Kind(), ":", v.ExactString())
	if len(s) > 60 && v.Kind() == constant.Float {
		if f, exact := constant.Float64Val(v); exact {
			s = fmt.Sprintf("Float:%x", f)
		}
	}
	ip.consts[s] = v
	return AV{K: 'c', S: s, T: canonOrNil(t)}
}

func (ip *interp) boolean(b bool) AV { return ip.konst(constant.MakeBool(b), types.Typ[types.Bool]) }

func (ip *interp) integer(i int64, t types.Type) AV { return ip.konst(constant.MakeInt64(i), t) }

func canonOrNil(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	return canonType(t)
}

// boolOf tells the truth of v in st, if known.
func (ip *interp) boolOf(st *ist, v AV) (val, known bool) {
	switch v.K {
	case 'c':
		if k := ip.consts[v.S]; k != nil && k.Kind() == constant.Bool {
			return constant.BoolVal(k), true
		}
	case 's':
		s, neg := strings.CutPrefix(v.S, "!")
		if b, ok := st.rel[s]; ok {
			return b != neg, true
		}
	}
	return false, false
}

// tally counts in the state.
func (s *ist) tally(k string) int {
	n := 1
	if v, ok := s.mem[k]; ok {
		fmt.Sscan(v.S, &n)
		n++
	}
	s.mem[k] = AV{K: 't', S: fmt.Sprint(n)}
	return n
}

func (ip *interp) assume(st *ist, v AV, b bool) {
	if v.K == 's' {
		s, neg := strings.CutPrefix(v.S, "!")
		st.rel[s] = b != neg
	}
}

func not(v AV) AV {
	if s, ok := strings.CutPrefix(v.S, "!"); ok {
		v.S = s
	} else {
		v.S = "!" + v.S
	}
	return v
}

func (ip *interp) liveness(f *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := ip.live[f]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range f.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	isReg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for ch := true; ch; {
		ch = false
		for i := len(f.Blocks) - 1; i >= 0; i-- {
			b := f.Blocks[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					l[v] = true
				}
				for _, x := range s.Instrs {
					p, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					for k, pr := range s.Preds {
						if pr == b && isReg(p.Edges[k]) {
							l[p.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				x := b.Instrs[k]
				if v, ok := x.(ssa.Value); ok {
					delete(l, v)
				}
				if _, ok := x.(*ssa.Phi); ok {
					continue
				}
				for _, o := range x.Operands(nil) {
					if isReg(*o) {
						l[*o] = true
					}
				}
			}
			// phis are live when the block's instructions start
			if len(l) != len(in[b]) {
				in[b] = l
				ch = true
			}
		}
	}
	ip.live[f] = in
	return in
}

func (ip *interp) val(st *ist, v ssa.Value) AV {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if v.IsNil() {
				return AV{K: 'n'}
			}
			return AV{K: 's', S: "zero:" + tname(v.Type()), T: canonOrNil(v.Type())}
		}
		return ip.konst(v.Value, v.Type())
	case *ssa.Global:
		return AV{K: 'p', S: v.Pkg.Pkg.Path() + "." + v.Name()}
	case *ssa.Function:
		s := v.String()
		ip.fns[s] = v
		return AV{K: 'f', S: s}
	}
	if x, ok := st.env[v]; ok {
		return x
	}
	return unknownAV
}

// run explores f from its start. The shared part of st is used, and the outcomes are returned.
func (ip *interp) run(f *ssa.Function, args []AV, st *ist) []iout {
	s := st.fork
	if ip.nested {
		s = st.frame
	}
	return ip.runWith(f, args, s())
}

// frame is a new frame with the same shared part. The state of the caller isn't used any longer, except for its registers.
func (s *ist) frame() *ist {
	c := *s
	c.env = map[ssa.Value]AV{}
	c.tup = map[ssa.Value][]AV{}
	c.defers = nil
	return &c
}

func (ip *interp) runWith(f *ssa.Function, args []AV, s *ist) []iout {
	for i, p := range f.Params {
		if i < len(args) {
			s.env[p] = args[i]
		}
	}
	for i, p := range f.FreeVars {
		if k := len(f.Params) + i; k < len(args) {
			s.env[p] = args[k]
		}
	}
	if ip.enter != nil {
		ip.enter(s, f, args)
	}
	return ip.runFrom(f, f.Blocks[0], nil, s)
}

type iwork struct {
	b, prev *ssa.BasicBlock
	st      *ist
}

func (ip *interp) runFrom(f *ssa.Function, start, prev *ssa.BasicBlock, st *ist) []iout {
	live := ip.liveness(f)
	seen := map[string]bool{}
	visits := map[*ssa.BasicBlock]int{}
	wide := map[string]map[string]bool{}
	var outs []iout
	outSeen := map[string]bool{}
	out := func(o iout) {
		if ip.nested {
			o.st = o.st.frame()
			outs = append(outs, o)
			return
		}
		o.st = o.st.fork()
		if k := o.key(); !outSeen[k] {
			outSeen[k] = true
			outs = append(outs, o)
		}
	}
	work := []iwork{{start, prev, st}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		ip.steps++
		if ip.steps > ip.limit {
			ip.bad = "too many states in " + fname(f)
			return outs
		}
		// phis
		if w.prev != nil {
			pi := -1
			for i, p := range w.b.Preds {
				if p == w.prev {
					pi = i
				}
			}
			vals := map[ssa.Value]AV{}
			for _, in := range w.b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				vals[p] = ip.val(w.st, p.Edges[pi])
			}
			for k, v := range vals {
				w.st.env[k] = v
			}
		}
		l := live[w.b]
		for v := range w.st.env {
			if _, phi := v.(*ssa.Phi); phi && v.(*ssa.Phi).Block() == w.b {
				continue
			}
			if !l[v] {
				delete(w.st.env, v)
			}
		}
		for v := range w.st.tup {
			if !l[v] {
				delete(w.st.tup, v)
			}
		}
		visits[w.b]++
		if !ip.nested && w.prev != nil && w.b.Dominates(w.prev) {
			ip.widen(f, w.b, w.st, wide)
		}
		if visits[w.b] > 30000 {
			ip.bad = "too many states in " + fname(f)
			return outs
		}
		if !ip.nested {
			k := fmt.Sprint(w.b.Index, "|", w.st.key())
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		sts := []*ist{w.st}
		for _, in := range w.b.Instrs {
			if len(sts) == 0 {
				break
			}
			switch in := in.(type) {
			case *ssa.Phi:
			case *ssa.If:
				for _, s := range sts {
					c := ip.val(s, in.Cond)
					b, known := ip.boolOf(s, c)
					for i, succ := range w.b.Succs {
						if known && b != (i == 0) {
							continue
						}
						ns := s
						if !known {
							ns = s.clone()
							ip.assume(ns, c, i == 0)
							if c.K != 's' {
								if _, isC := in.Cond.(*ssa.Const); !isC {
									ns.env[in.Cond] = ip.boolean(i == 0)
								}
							}
						}
						ip.push(&work, w.b, succ, ns)
					}
				}
				sts = nil
			case *ssa.Jump:
				for _, s := range sts {
					ip.push(&work, w.b, w.b.Succs[0], s)
				}
				sts = nil
			case *ssa.Return:
				for _, s := range sts {
					var res []AV
					for _, r := range in.Results {
						res = append(res, ip.val(s, r))
					}
					out(iout{st: s, res: res})
				}
				sts = nil
			case *ssa.Panic:
				for _, s := range sts {
					out(iout{st: s, exit: true})
				}
				sts = nil
			default:
				var next []*ist
				for _, s := range sts {
					ns, exits := ip.step(f, in, s)
					next = append(next, ns...)
					for _, e := range exits {
						out(iout{st: e, exit: true})
					}
				}
				if len(next) > 1 {
					ks := map[string]bool{}
					u := next[:0]
					for _, s := range next {
						if k := s.key(); !ks[k] {
							ks[k] = true
							u = append(u, s)
						}
					}
					next = u
				}
				sts = next
			}
		}
		if ip.bad != "" {
			return outs
		}
	}
	return outs
}

// widen replaces what has had many values at the start of a turn of a loop by a symbol that stands for any value.
func (ip *interp) widen(f *ssa.Function, b *ssa.BasicBlock, st *ist, wide map[string]map[string]bool) {
	many := func(k, v string) bool {
		k = fmt.Sprint(b.Index, ":", k)
		if wide[k] == nil {
			wide[k] = map[string]bool{}
		}
		wide[k][v] = true
		return len(wide[k]) > ip.many
	}
	fresh := func(sym string, t types.Type) AV {
		v := AV{K: 's', S: sym}
		has := func(s string) bool { return strings.Contains(s, sym) }
		for k := range st.rel {
			if has(k) {
				delete(st.rel, k)
			}
		}
		for k := range st.dyn {
			if has(k) {
				delete(st.dyn, k)
			}
		}
		for k, x := range st.env {
			if has(x.S) {
				st.env[k] = AV{K: 's', S: "u:" + fname(f) + ":" + k.Name() + ":old"}
			}
		}
		for k, x := range st.mem {
			if has(k) {
				delete(st.mem, k)
			} else if has(x.S) {
				st.mem[k] = unknownAV
			}
		}
		if t != nil {
			v = ip.typed(st, v, t)
		}
		return v
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if v, ok := st.env[p]; ok && many(p.Name(), v.String()) {
			st.env[p] = fresh(fmt.Sprintf("loop:%s:%s", fname(f), p.Name()), p.Type())
		}
	}
	var ks []string
	for k := range st.mem {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if v, ok := st.mem[k]; ok && many("mem "+k, v.String()) {
			st.mem[k] = fresh(fmt.Sprintf("loop:%s:%d:%s", fname(f), b.Index, k), nil)
		}
	}
}

func (ip *interp) push(work *[]iwork, from, to *ssa.BasicBlock, st *ist) {
	turn := ""
	if ip.turns > 0 {
		turn = fmt.Sprintf("#turn:%s#%d:%d", fname(from.Parent()), len(ip.stack), to.Index)
	}
	if !to.Dominates(from) {
		if ip.turns > 0 {
			delete(st.mem, turn)
		}
	} else {
		if ip.backEdge != nil && !ip.backEdge(st, from, to) {
			return
		}
		if ip.turns > 0 && st.tally(turn) > ip.turns {
			return
		}
	}
	if !ip.nested {
		st = st.clone()
	}
	*work = append(*work, iwork{to, from, st})
}

// zero is the zero value of a type, for the content of new memory.
func (ip *interp) zero(t types.Type, path string) AV {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return ip.konst(constant.MakeBool(false), t)
		case u.Info()&types.IsString != 0:
			return ip.konst(constant.MakeString(""), t)
		case u.Info()&types.IsNumeric != 0:
			return ip.konst(constant.MakeInt64(0), t)
		}
	case *types.Struct, *types.Array:
		return AV{K: 's', S: path, T: canonOrNil(t)}
	}
	return AV{K: 'n'}
}

func (ip *interp) read(st *ist, path string, t types.Type) AV {
	if ip.load != nil {
		if v, ok := ip.load(st, path, t); ok {
			return v
		}
	}
	if v, ok := st.mem[path]; ok {
		return v
	}
	// a field of something that was assigned as a whole
	for i := len(path) - 1; i > 0; i-- {
		if path[i] == '.' || path[i] == '[' {
			if v, ok := st.mem[path[:i]]; ok {
				if v.K == 's' {
					return ip.read(st, v.S+path[i:], t)
				}
				return unknownAV
			}
		}
	}
	if strings.HasPrefix(path, "@") {
		if strings.Contains(path, "[?]") {
			return unknownAV
		}
		return ip.zero(t, path)
	}
	return ip.typed(st, AV{K: 's', S: path}, t)
}

// typed adds the dynamic type to a symbol.
func (ip *interp) typed(st *ist, v AV, t types.Type) AV {
	if v.K != 's' {
		return v
	}
	if ip.static != nil && t != nil {
		if o, ok := ip.static[v.S]; !ok || !types.Identical(o, t) && types.IsInterface(o) && types.IsInterface(t) && types.AssignableTo(t, o) {
			ip.static[v.S] = t
		}
	}
	if d, ok := st.dyn[v.S]; ok {
		v.T = d
	} else if c := canonOrNil(t); c != nil {
		v.T = c
	}
	return v
}

func (ip *interp) implements(t types.Type, it types.Type) bool {
	i, ok := it.Underlying().(*types.Interface)
	return ok && types.Implements(t, i)
}

// step executes one instruction.
func (ip *interp) step(f *ssa.Function, in ssa.Instruction, st *ist) (next, exits []*ist) {
	one := []*ist{st}
	site := func() string { return "u:" + fname(f) + ":" + in.(ssa.Value).Name() }
	set := func(v AV) []*ist {
		st.env[in.(ssa.Value)] = v
		return one
	}
	switch in := in.(type) {
	case *ssa.Alloc:
		id := fmt.Sprintf("@%s#%d:%s", fname(f), len(ip.stack), in.Name())
		if ip.uniq && in.Heap {
			id = fmt.Sprintf("%s~%d", id, st.tally("#new:"+id))
		}
		for k := range st.mem {
			if k == id || strings.HasPrefix(k, id+".") || strings.HasPrefix(k, id+"[") {
				delete(st.mem, k)
			}
		}
		return set(AV{K: 'p', S: id, T: canonOrNil(in.Type())}), nil
	case *ssa.FieldAddr:
		x := ip.val(st, in.X)
		if x.K == 'n' {
			return nil, one // nil dereference
		}
		if x.K != 'p' && x.K != 's' {
			return set(unknownAV), nil
		}
		return set(AV{K: 'p', S: x.S + ip.field(fieldVar(in)), T: canonOrNil(in.Type())}), nil
	case *ssa.Field:
		x := ip.val(st, in.X)
		if x.K != 's' && x.K != 'p' {
			return set(unknownAV), nil
		}
		return set(ip.read(st, x.S+ip.field(fieldVarV(in)), in.Type())), nil
	case *ssa.IndexAddr:
		x := ip.val(st, in.X)
		if x.K != 'p' && x.K != 's' {
			return set(unknownAV), nil
		}
		return set(AV{K: 'p', S: x.S + ip.index(st, in.Index, deref(in.Type())), T: canonOrNil(in.Type())}), nil
	case *ssa.Index:
		x := ip.val(st, in.X)
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && ip.textRead != nil {
			if v, ok := ip.textRead(st, ip.val(st, in.Index)); ok {
				v.T = canonOrNil(in.Type())
				return set(v), nil
			}
		}
		if x.K != 'p' && x.K != 's' {
			return set(ip.typed(st, AV{K: 's', S: site()}, in.Type())), nil
		}
		return set(ip.read(st, x.S+ip.index(st, in.Index, in.Type()), in.Type())), nil
	case *ssa.UnOp:
		x := ip.val(st, in.X)
		switch in.Op {
		case token.MUL:
			switch x.K {
			case 'p', 's':
				return set(ip.read(st, x.S, in.Type())), nil
			case 'n':
				return nil, one
			}
			return set(ip.typed(st, AV{K: 's', S: site()}, in.Type())), nil
		case token.NOT:
			if b, ok := ip.boolOf(st, x); ok {
				return set(ip.boolean(!b)), nil
			}
			if x.K == 's' {
				return set(not(x)), nil
			}
		default:
			if x.K == 'c' && in.Op != token.ARROW {
				if k := ip.consts[x.S]; k.Kind() == constant.Int || k.Kind() == constant.Float {
					return set(ip.konst(constant.UnaryOp(in.Op, k, 0), in.Type())), nil
				}
			}
			if x.K == 's' {
				return set(AV{K: 's', S: "(" + in.Op.String() + x.S + ")", T: canonOrNil(in.Type())}), nil
			}
		}
		return set(ip.typed(st, AV{K: 's', S: site()}, in.Type())), nil
	case *ssa.BinOp:
		return set(ip.binary(st, in, site())), nil
	case *ssa.Store:
		ad := ip.val(st, in.Addr)
		v := ip.val(st, in.Val)
		if ad.K == 'p' || ad.K == 's' {
			for k := range st.mem {
				if strings.HasPrefix(k, ad.S+".") || strings.HasPrefix(k, ad.S+"[") {
					delete(st.mem, k)
				}
			}
			if i := strings.LastIndex(ad.S, "[?]"); i >= 0 {
				for k := range st.mem {
					if strings.HasPrefix(k, ad.S[:i]+"[") {
						st.mem[k] = unknownAV
					}
				}
			}
			if sub, ok := in.Val.Type().Underlying().(*types.Struct); ok && v.K == 's' && (ip.copies || strings.HasPrefix(v.S, "@")) && v.S != ad.S {
				ip.copyStruct(st, ad.S, v.S, sub)
				if ip.nested {
					st.mem[ad.S+"#copy"] = v
				}
				return one, nil
			}
			if ip.nested {
				// what is changed is no copy
				for i, c := range ad.S {
					if c == '.' || c == '[' {
						delete(st.mem, ad.S[:i]+"#copy")
					}
				}
				delete(st.mem, ad.S+"#copy")
			}
			st.mem[ad.S] = v
		}
		return one, nil
	case *ssa.MakeInterface:
		x := ip.val(st, in.X)
		if x.T == nil {
			x.T = canonOrNil(in.X.Type())
		}
		if x.K == 'n' || x.K == 0 {
			x = AV{K: 's', S: "typednil:" + tname(in.X.Type()), T: canonOrNil(in.X.Type())}
			if ip.val(st, in.X).K == 0 {
				x.S = site()
			}
		}
		return set(x), nil
	case *ssa.ChangeInterface:
		return set(ip.val(st, in.X)), nil
	case *ssa.ChangeType:
		if x := ip.val(st, in.X); ip.nested && x.K == 's' {
			x.T = canonOrNil(in.Type())
			return set(x), nil
		}
		x := ip.val(st, in.X)
		if x.K != 'n' && x.K != 0 {
			x.T = canonOrNil(in.Type())
		}
		return set(x), nil
	case *ssa.Convert:
		if ip.conv != nil {
			if v, ok := ip.conv(st, in, ip.val(st, in.X)); ok {
				return set(v), nil
			}
		}
		return set(ip.convert(st, in, site())), nil
	case *ssa.TypeAssert:
		return ip.typeAssert(st, in)
	case *ssa.Extract:
		if t, ok := st.tup[in.Tuple]; ok && in.Index < len(t) {
			return set(t[in.Index]), nil
		}
		return set(ip.typed(st, AV{K: 's', S: site()}, in.Type())), nil
	case *ssa.MakeClosure:
		var b []AV
		for _, x := range in.Bindings {
			b = append(b, ip.val(st, x))
		}
		fn := in.Fn.(*ssa.Function)
		id := fmt.Sprint(fn.String(), b)
		ip.fns[id] = fn
		ip.binds[id] = b
		return set(AV{K: 'f', S: id}), nil
	case *ssa.Slice:
		x := ip.val(st, in.X)
		if ip.slice != nil {
			if v, ok := ip.slice(st, in, x); ok {
				return set(v), nil
			}
		}
		if x.K == 'p' && in.Low == nil && in.High == nil {
			if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := pt.Elem().Underlying().(*types.Array); ok {
					ip.arrays[x.S] = at.Len()
				}
			}
			x.T = canonOrNil(in.Type())
			return set(x), nil
		}
		return set(ip.typed(st, AV{K: 's', S: site()}, in.Type())), nil
	case *ssa.Lookup:
		if ip.lookup != nil {
			if v, ok := ip.lookup(st, in, ip.val(st, in.Index)); ok {
				if in.CommaOk {
					st.tup[in] = v
					return one, nil
				}
				return set(v[0]), nil
			}
		}
		if tp, ok := in.Type().(*types.Tuple); ok {
			st.tup[in] = []AV{ip.typed(st, AV{K: 's', S: site()}, tp.At(0).Type()), AV{K: 's', S: site() + "#1", T: types.Typ[types.Bool]}.forget(st)}
			return one, nil
		}
		return set(ip.typed(st, AV{K: 's', S: site()}, in.Type())), nil
	case *ssa.MakeSlice:
		if ip.made != nil {
			if v, ok := ip.made(st, in); ok {
				return set(v), nil
			}
		}
		return set(ip.typed(st, AV{K: 's', S: site()}, in.Type())), nil
	case *ssa.Call:
		return ip.doCall(f, in, st)
	case *ssa.MapUpdate:
		if ip.mapSet != nil {
			ip.mapSet(st, in)
		}
		return one, nil
	case *ssa.Defer:
		if fv := ip.val(st, in.Call.Value); (ip.nested || ip.deferred) && !in.Call.IsInvoke() && fv.K == 'f' {
			// what is passed is bound like what a closure captures
			if g := ip.fns[fv.S]; g != nil && g.Blocks != nil && ip.inline(g) {
				id := fmt.Sprintf("%s!deferred%d", fv.S, len(ip.binds))
				var args []AV
				for _, x := range in.Call.Args {
					args = append(args, ip.val(st, x))
				}
				ip.fns[id], ip.binds[id] = g, append(args, ip.binds[fv.S]...)
				st.defers = append(st.defers[:len(st.defers):len(st.defers)], AV{K: 'f', S: id})
			}
		}
		return one, nil
	case *ssa.RunDefers:
		return ip.runDefers(st)
	case *ssa.Go, *ssa.DebugRef, *ssa.Send:
		return one, nil
	case ssa.Value:
		if tp, ok := in.Type().(*types.Tuple); ok {
			var t []AV
			for i := 0; i < tp.Len(); i++ {
				t = append(t, ip.typed(st, AV{K: 's', S: fmt.Sprint("u:", fname(f), ":", in.Name(), "#", i)}, tp.At(i).Type()))
				if _, isB := tp.At(i).Type().Underlying().(*types.Basic); isB {
					delete(st.rel, t[i].S)
				}
			}
			st.tup[in] = t
			return one, nil
		}
		return set(ip.typed(st, AV{K: 's', S: site()}, in.Type())), nil
	}
	return one, nil
}

// copyStruct copies what a struct contains.
func (ip *interp) copyStruct(st *ist, to, from string, t *types.Struct) {
	delete(st.mem, to)
	for i := 0; i < t.NumFields(); i++ {
		f := ip.field(t.Field(i))
		if sub, ok := t.Field(i).Type().Underlying().(*types.Struct); ok && f != "" {
			if _, ok := st.mem[from+f]; !ok {
				ip.copyStruct(st, to+f, from+f, sub)
				continue
			}
		}
		st.mem[to+f] = ip.read(st, from+f, t.Field(i).Type())
	}
}

func (ip *interp) field(v *types.Var) string {
	if ip.flat && v.Embedded() {
		if _, ok := v.Type().Underlying().(*types.Struct); ok {
			return "" // a method that is promoted sees the whole
		}
	}
	return "." + v.Name()
}

func (ip *interp) index(st *ist, i ssa.Value, elem types.Type) string {
	x := ip.val(st, i)
	if ip.rawLoop && loopIndex(i) {
		if _, ok := elem.Underlying().(*types.Basic); ok {
			return "[?]"
		}
	}
	if x.K == 'c' {
		return "[" + ip.consts[x.S].ExactString() + "]"
	}
	if ip.symIndex && x.K == 's' {
		return "[" + x.S + "]"
	}
	return "[?]"
}

// loopIndex tells if v counts the turns of a loop.
func loopIndex(v ssa.Value) bool {
	if b, ok := v.(*ssa.BinOp); ok {
		if _, c := b.Y.(*ssa.Const); c && (b.Op == token.ADD || b.Op == token.SUB) {
			v = b.X
		}
	}
	_, ok := v.(*ssa.Phi)
	return ok
}

func (ip *interp) convert(st *ist, in *ssa.Convert, site string) AV {
	x := ip.val(st, in.X)
	num := func(t types.Type) int {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return 0
		}
		switch {
		case b.Info()&types.IsInteger != 0:
			return 1
		case b.Info()&types.IsFloat != 0:
			return 2
		}
		return 0
	}
	f, t := num(in.X.Type()), num(in.Type())
	if x.K == 'c' && f == 1 && t == 1 {
		x.T = canonOrNil(in.Type())
		return x
	}
	if x.K == 's' && f == t && f != 0 {
		x.T = canonOrNil(in.Type())
		return x
	}
	if x.K == 's' && len(x.S) < 200 {
		return AV{K: 's', S: tname(in.Type()) + "(" + x.S + ")", T: canonOrNil(in.Type())}
	}
	return ip.typed(st, AV{K: 's', S: site}, in.Type())
}

func (ip *interp) binary(st *ist, in *ssa.BinOp, site string) AV {
	x, y := ip.val(st, in.X), ip.val(st, in.Y)
	if ip.binop != nil {
		if v, ok := ip.binop(st, in, x, y); ok {
			return v
		}
	}
	op := in.Op
	switch op {
	case token.EQL, token.NEQ:
		if r, ok := ip.equal(st, x, y, in.X.Type()); ok {
			return ip.boolean(r == (op == token.EQL))
		}
	}
	if x.K == 'c' && y.K == 'c' {
		kx, ky := ip.consts[x.S], ip.consts[y.S]
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			if kx.Kind() == ky.Kind() || kx.Kind() != constant.Bool && kx.Kind() != constant.String && ky.Kind() != constant.Bool && ky.Kind() != constant.String {
				return ip.boolean(constant.Compare(kx, op, ky))
			}
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR, token.AND_NOT:
			if kx.Kind() == constant.Int && ky.Kind() == constant.Int || op == token.ADD && kx.Kind() == constant.String && ky.Kind() == constant.String {
				return ip.konst(constant.BinaryOp(kx, op, ky), in.Type())
			}
		case token.SHL, token.SHR:
			if s, ok := constant.Uint64Val(ky); ok && kx.Kind() == constant.Int && s < 64 {
				return ip.konst(constant.Shift(kx, op, uint(s)), in.Type())
			}
		}
	}
	op, x, y = ip.lenNorm(op, x, y)
	if y.K == 'c' && strings.HasPrefix(x.S, "len(") && ip.consts[y.S].Kind() == constant.Int && constant.Sign(ip.consts[y.S]) < 0 && (op == token.GTR || op == token.LEQ) {
		return ip.boolean(op == token.GTR)
	}
	if op == token.AND && (ip.isZero(x) || ip.isZero(y)) {
		return ip.integer(0, in.Type())
	}
	if x.K == 0 || y.K == 0 || len(x.S)+len(y.S) > 300 {
		return ip.typed(st, AV{K: 's', S: site}, in.Type()).forget(st)
	}
	if op == token.GTR || op == token.GEQ {
		if isFloat(in.X.Type()) {
			op, x, y = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op], y, x
		}
	}
	v := relAV(op, x, y, canonOrNil(in.Type()))
	if op == token.LEQ && isFloat(in.X.Type()) {
		// it isn't the opposite of another comparison because of NaN
		v = AV{K: 's', S: "(" + string(x.K) + x.S + "<=" + string(y.K) + y.S + ")", T: canonOrNil(in.Type())}
		ip.rels[v.S] = irel{op, x, y}
		return v
	}
	ip.note(v, op, x, y)
	return v
}

// lenNorm brings comparisons of a length with a constant to the form k < len or its opposite, where that is possible.
func (ip *interp) lenNorm(op token.Token, x, y AV) (token.Token, AV, AV) {
	flip := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}
	if flip[op] == 0 {
		return op, x, y
	}
	if x.K == 'c' {
		if o, a, b := ip.lenNorm(flip[op], y, x); b.K == 'c' {
			return flip[o], b, a
		}
		return op, x, y
	}
	if y.K != 'c' || x.K != 's' || ip.consts[y.S].Kind() != constant.Int {
		return op, x, y
	}
	k := ip.consts[y.S]
	if r, ok := ip.rels[x.S]; ok && r.y.K == 'c' && strings.HasPrefix(r.x.S, "len(") && ip.consts[r.y.S].Kind() == constant.Int {
		switch r.op {
		case token.SUB:
			x, k = r.x, constant.BinaryOp(k, token.ADD, ip.consts[r.y.S])
		case token.ADD:
			x, k = r.x, constant.BinaryOp(k, token.SUB, ip.consts[r.y.S])
		}
	}
	if !strings.HasPrefix(x.S, "len(") {
		return op, x, y
	}
	if constant.Sign(k) == 0 {
		switch op {
		case token.EQL:
			op = token.LEQ
		case token.NEQ:
			op = token.GTR
		}
	}
	// len < k is the same as !(k-1 < len)
	switch op {
	case token.LSS:
		op, k = token.LEQ, constant.BinaryOp(k, token.SUB, constant.MakeInt64(1))
	case token.GEQ:
		op, k = token.GTR, constant.BinaryOp(k, token.SUB, constant.MakeInt64(1))
	}
	return op, x, ip.konst(k, y.T)
}

// note records what a symbol stands for.
func (ip *interp) note(v AV, op token.Token, x, y AV) {
	switch op {
	case token.NEQ:
		op = token.EQL
	case token.GTR, token.LEQ:
		op, x, y = token.LSS, y, x
	case token.GEQ:
		op = token.LSS
	}
	ip.rels[strings.TrimPrefix(v.S, "!")] = irel{op, x, y}
}

// forget makes the truth of a symbol unknown, it is about to be evaluated anew.
func (v AV) forget(st *ist) AV {
	delete(st.rel, v.S)
	return v
}

func (ip *interp) isZero(x AV) bool {
	if x.K != 'c' {
		return false
	}
	k := ip.consts[x.S]
	return k.Kind() == constant.Int && constant.Sign(k) == 0
}

func relAV(op token.Token, x, y AV, t types.Type) AV {
	s := func(a, o, b string) AV { return AV{K: 's', S: "(" + a + o + b + ")", T: t} }
	xs, ys := string(x.K)+x.S, string(y.K)+y.S
	switch op {
	case token.EQL, token.NEQ:
		if xs > ys {
			xs, ys = ys, xs
		}
		r := s(xs, "==", ys)
		if op == token.NEQ {
			r = not(r)
		}
		return r
	case token.LSS:
		return s(xs, "<", ys)
	case token.GTR:
		return s(ys, "<", xs)
	case token.GEQ:
		return not(s(xs, "<", ys))
	case token.LEQ:
		return not(s(ys, "<", xs))
	}
	return s(xs, op.String(), ys)
}

// equal decides x == y if that is possible.
func (ip *interp) equal(st *ist, x, y AV, t types.Type) (val, known bool) {
	if x.K == 0 || y.K == 0 {
		return false, false
	}
	if x.K == 'n' && y.K == 'n' {
		return true, true
	}
	if x.K == 'n' {
		x, y = y, x
	}
	if y.K == 'n' {
		switch x.K {
		case 'c', 'p', 'f':
			return false, true
		case 's':
			if _, isI := t.Underlying().(*types.Interface); isI && x.T != nil {
				return false, true
			}
			if strings.HasPrefix(x.S, "typednil:") {
				return true, true
			}
			if b, ok := st.rel["nil:"+x.S]; ok {
				return b, true
			}
		}
		return false, false
	}
	if x.T != nil && y.T != nil && !types.Identical(x.T, y.T) {
		if _, isI := t.Underlying().(*types.Interface); isI {
			return false, true
		}
	}
	if x.K == 'c' && y.K == 'c' {
		return false, false // compared by the caller
	}
	if x.K == y.K && x.S == y.S {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return false, false
		}
		return true, true
	}
	if x.K == 'p' && y.K == 'p' && strings.HasPrefix(x.S, "@") != strings.HasPrefix(y.S, "@") {
		return false, true
	}
	return false, false
}

func (ip *interp) typeAssert(st *ist, in *ssa.TypeAssert) (next, exits []*ist) {
	x := ip.val(st, in.X)
	if x.K == 's' && x.T == nil {
		if d, ok := st.dyn[x.S]; ok {
			x.T = d
		}
	}
	_, toI := in.AssertedType.Underlying().(*types.Interface)
	done := func(s *ist, ok bool, v AV) {
		if ip.asserted != nil {
			ip.asserted(s, in, v, ok)
		}
		if !in.CommaOk {
			if ok {
				s.env[in] = v
				next = append(next, s)
			} else {
				exits = append(exits, s)
			}
			return
		}
		if !ok {
			v = ip.zero(in.AssertedType, "zero:"+tname(in.AssertedType))
		}
		s.tup[in] = []AV{v, ip.boolean(ok)}
		next = append(next, s)
	}
	switch {
	case x.K == 'n':
		done(st, false, x)
		return
	case x.T != nil:
		ok := false
		if toI {
			ok = ip.implements(x.T, in.AssertedType)
		} else {
			ok = types.Identical(x.T, canonType(in.AssertedType))
		}
		done(st, ok, x)
		return
	case x.K == 's':
		k := "is:" + tname(in.AssertedType) + ":" + x.S
		if b, ok := st.rel[k]; ok {
			done(st, b, x)
			return
		}
		yes, no := st, st.clone()
		yes.rel[k] = true
		yes.rel["nil:"+x.S] = false
		no.rel[k] = false
		v := x
		if !toI {
			v.T = canonType(in.AssertedType)
			yes.dyn[x.S] = v.T
			for r, a := range yes.env {
				if a.K == 's' && a.S == x.S && a.T == nil {
					a.T = v.T
					yes.env[r] = a
				}
			}
		}
		done(yes, true, v)
		done(no, false, x)
		return
	}
	no := st.clone()
	done(st, true, ip.typed(st, AV{K: 's', S: "u:" + fname(in.Parent()) + ":" + in.Name()}, in.AssertedType))
	done(no, false, x)
	return
}

func (ip *interp) doCall(f *ssa.Function, in *ssa.Call, st *ist) (next, exits []*ist) {
	cc := in.Common()
	var args []AV
	var fn *ssa.Function
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "panic" {
			return nil, []*ist{st}
		}
		if ip.call != nil {
			var as []AV
			for _, x := range cc.Args {
				as = append(as, ip.val(st, x))
			}
			if outs, ok := ip.call(st, in, nil, as); ok {
				return ip.finishCall(in, st, outs)
			}
		}
		if (b.Name() == "len" || b.Name() == "cap") && len(cc.Args) == 1 {
			if x := ip.val(st, cc.Args[0]); x.K == 'n' {
				st.env[in] = ip.integer(0, in.Type())
				return []*ist{st}, nil
			}
			if x := ip.val(st, cc.Args[0]); x.K == 's' || x.K == 'p' {
				if n, ok := ip.arrays[x.S]; ok && x.K == 'p' {
					st.env[in] = ip.integer(n, in.Type())
					return []*ist{st}, nil
				}
				st.env[in] = AV{K: 's', S: b.Name() + "(" + x.S + ")", T: canonOrNil(in.Type())}
				return []*ist{st}, nil
			}
		}
		st.env[in] = ip.typed(st, AV{K: 's', S: "u:" + fname(f) + ":" + in.Name()}, in.Type()).forget(st)
		return []*ist{st}, nil
	}
	if cc.IsInvoke() {
		recv := ip.val(st, cc.Value)
		if recv.K == 's' && recv.T == nil {
			if d, ok := st.dyn[recv.S]; ok {
				recv.T = d
			}
		}
		if recv.K == 'n' {
			return nil, []*ist{st}
		}
		args = append(args, recv)
		if recv.T != nil {
			fn = ip.a.p.methodOf(recv.T, cc.Method.Name())
		}
	} else {
		fv := ip.val(st, cc.Value)
		if fv.K == 'f' {
			fn = ip.fns[fv.S]
		} else {
			fn = cc.StaticCallee()
		}
	}
	for _, x := range cc.Args {
		args = append(args, ip.val(st, x))
	}
	if fv := ip.val(st, cc.Value); !cc.IsInvoke() && fv.K == 'f' {
		args = append(args, ip.binds[fv.S]...)
	}
	if ip.call != nil {
		if outs, ok := ip.call(st, in, fn, args); ok {
			return ip.finishCall(in, st, outs)
		}
	}
	if fn != nil && fn.Blocks != nil && ip.inline != nil && ip.inline(fn) {
		key := fmt.Sprint(fn.String(), args)
		rec := false
		for _, k := range ip.stack {
			if k == key && !ip.nested {
				rec = true
			}
		}
		if !rec && len(ip.stack) < ip.depth {
			ip.stack = append(ip.stack, key)
			outs := ip.run(fn, args, st)
			ip.stack = ip.stack[:len(ip.stack)-1]
			return ip.finishCall(in, st, outs)
		}
		if ip.recursed != nil {
			ip.recursed(st, fn)
		}
	}
	// unknown results
	name := ""
	if cc.IsInvoke() {
		name = cc.Method.Name()
	} else if fn != nil {
		name = fname(fn)
	} else {
		name = "u:" + fname(f) + ":" + in.Name()
	}
	opaque := false
	var sb strings.Builder
	for i, x := range args {
		if x.K == 0 {
			opaque = true
		}
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteByte(x.K)
		sb.WriteString(x.S)
	}
	id := name + "(" + sb.String() + ")"
	if opaque || len(id) > 300 {
		id = "u:" + fname(f) + ":" + in.Name()
		for k := range st.rel {
			if strings.Contains(k, id) {
				delete(st.rel, k)
			}
		}
	}
	rs := cc.Signature().Results()
	var res []AV
	for i := 0; i < rs.Len(); i++ {
		s := id
		if i > 0 {
			s = fmt.Sprint(id, "#", i)
		}
		if ip.sources != nil {
			ip.sources[s] = callSource{in, fn, args, i}
		}
		res = append(res, ip.typed(st, AV{K: 's', S: s}, rs.At(i).Type()))
	}
	return ip.finishCall(in, st, []iout{{st: st, res: res}})
}

// runDefers calls what was deferred, the last first.
func (ip *interp) runDefers(st *ist) (next, exits []*ist) {
	n := len(st.defers)
	if n == 0 {
		return []*ist{st}, nil
	}
	d := st.defers[n-1]
	st.defers = st.defers[:n-1]
	for _, o := range ip.run(ip.fns[d.S], ip.binds[d.S], st) {
		s := o.st.frame()
		for k, v := range st.env {
			s.env[k] = v
		}
		for k, v := range st.tup {
			s.tup[k] = v
		}
		s.defers = st.defers
		if o.exit {
			exits = append(exits, s)
			continue
		}
		more, x := ip.runDefers(s)
		next, exits = append(next, more...), append(exits, x...)
	}
	return next, exits
}

// finishCall continues in the caller with the outcomes of a call.
func (ip *interp) finishCall(in *ssa.Call, st *ist, outs []iout) (next, exits []*ist) {
	for _, o := range outs {
		s := o.st
		if s != st {
			if ip.nested {
				s = s.frame()
			} else {
				s = s.fork()
			}
			for k, v := range st.env {
				s.env[k] = v
			}
			for k, v := range st.tup {
				s.tup[k] = v
			}
			s.defers = st.defers
		} else if len(outs) > 1 {
			s = st.clone()
		}
		if o.exit {
			exits = append(exits, s)
			continue
		}
		if len(o.res) == 1 {
			s.env[in] = o.res[0]
		} else {
			s.tup[in] = o.res
		}
		next = append(next, s)
	}
	return
}
