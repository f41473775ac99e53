package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A lockset analysis that interprets functions in the context of their callers: functions of interest are entered at
// each call, values are named by access paths from the parameters of the entry function and from globals, and the locks
// that must be held, may be held, and are released by deferred calls are tracked for every path.

// lsMode is how a lock is held.
const (
	lsR = 1
	lsW = 2
)

type lsDefer struct {
	frame int
	sym   string // lock
	op    string // Unlock or RUnlock
	call  *ssa.Defer
}

type lsState struct {
	must   map[string]int
	may    map[string]bool
	defers []lsDefer
	facts  map[string]bool
}

func newLsState() *lsState {
	return &lsState{must: map[string]int{}, may: map[string]bool{}, facts: map[string]bool{}}
}

func (s *lsState) clone() *lsState {
	c := newLsState()
	for k, v := range s.must {
		c.must[k] = v
	}
	for k, v := range s.may {
		c.may[k] = v
	}
	for k, v := range s.facts {
		c.facts[k] = v
	}
	c.defers = append([]lsDefer{}, s.defers...)
	return c
}

// join merges o into s and tells if s changed.
func (s *lsState) join(o *lsState) bool {
	ch := false
	for k, v := range s.must {
		ov := o.must[k]
		if ov < v {
			ch = true
			if ov == 0 {
				delete(s.must, k)
			} else {
				s.must[k] = ov
			}
		}
	}
	for k := range o.may {
		if !s.may[k] {
			s.may[k] = true
			ch = true
		}
	}
	for k := range s.facts {
		if !o.facts[k] {
			delete(s.facts, k)
			ch = true
		}
	}
	n := 0
	for n < len(s.defers) && n < len(o.defers) && s.defers[n] == o.defers[n] {
		n++
	}
	if n < len(s.defers) {
		s.defers = s.defers[:n]
		ch = true
	}
	return ch
}

func (s *lsState) held() []string {
	var l []string
	for k := range s.may {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

type lsFrame struct {
	id     int
	fn     *ssa.Function
	args   []string
	free   []string
	types  map[string]types.Type
	rets   []string // symbols of the results, "" when they differ
	hasRet bool
	active map[*ssa.Function]int
}

type lsClosure struct {
	fn   *ssa.Function
	free []string
}

// lsEvent is what a client is told about while the final states are visited.
type lsClient interface {
	// call is told about calls of functions that are not entered, and may change the facts of st. recv is the symbol of the
	// receiver or function value. Only the calls made when l.rec is set are final.
	call(l *locks, fr *lsFrame, c ssa.CallInstruction, recv string, args []string, st *lsState)
	// access is told about reads and writes of memory denoted by symbols that are not local.
	access(l *locks, fr *lsFrame, in ssa.Instruction, addr string, write bool, val string, st *lsState)
	// ret is told about the results of the entry function and of dynamic function values.
	ret(l *locks, fr *lsFrame, in ssa.Instruction, vals []string, st *lsState)
	// branch may add facts that hold when cond is pol.
	branch(l *locks, fr *lsFrame, cond ssa.Value, pol bool, st *lsState)
	// problem reports a violation of the discipline itself.
	problem(l *locks, fr *lsFrame, in ssa.Instruction, rule, detail string)
	// enter tells if calls of f are followed.
	enter(f *ssa.Function) bool
}

type locks struct {
	a         *Analysis
	c         lsClient
	rec       bool
	mem       map[string]string
	closures  map[string]lsClosure
	ownType   map[string]types.Type // type of the pointer whose fields a symbol was used to address
	busy      map[*ssa.Phi]bool
	entry     *ssa.Function
	symType   map[string]types.Type
	curState  *lsState
	steps     int
	lockOps   int
	activs    int
	depth     int
	frameIDs  map[string]int
	callStack []string
}

func newLocks(a *Analysis, c lsClient) *locks {
	return &locks{a: a, c: c, mem: map[string]string{}, closures: map[string]lsClosure{}, symType: map[string]types.Type{}, frameIDs: map[string]int{}}
}

// runEntry interprets an entry function with symbolic parameters.
func (l *locks) runEntry(f *ssa.Function) {
	l.entry = f
	l.mem, l.closures, l.symType = map[string]string{}, map[string]lsClosure{}, map[string]types.Type{}
	l.ownType, l.busy = map[string]types.Type{}, map[*ssa.Phi]bool{}
	var args []string
	for i, p := range f.Params {
		s := "p" + strconv.Itoa(i)
		l.symType[s] = p.Type()
		args = append(args, s)
	}
	var free []string
	for i, p := range f.FreeVars {
		s := "fv" + strconv.Itoa(i)
		l.symType[s] = p.Type()
		free = append(free, s)
	}
	l.rec = false
	l.run(f, args, free, newLsState(), map[*ssa.Function]int{}, true, "e")
	l.rec = true
	l.run(f, args, free, newLsState(), map[*ssa.Function]int{}, true, "e")
	l.rec = false
}

func (l *locks) frameID(key string) int {
	id, ok := l.frameIDs[key]
	if !ok {
		id = len(l.frameIDs) + 1
		l.frameIDs[key] = id
	}
	return id
}

// key identifies the states that are kept apart: those that differ in what is locked and deferred.
func (s *lsState) key() string {
	var sb strings.Builder
	for _, k := range s.held() {
		fmt.Fprintf(&sb, "%s=%d;", k, s.must[k])
	}
	for _, d := range s.defers {
		fmt.Fprintf(&sb, "|%d:%s:%d", d.frame, d.sym, d.call.Pos())
	}
	return sb.String()
}

type lsSet map[string]*lsState

func (m lsSet) add(s *lsState) bool {
	k := s.key()
	if o, ok := m[k]; ok {
		return o.join(s)
	}
	if len(m) > 64 {
		failf("too many lock states")
	}
	m[k] = s.clone()
	return true
}

func (m lsSet) list() []*lsState {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*lsState
	for _, k := range ks {
		r = append(r, m[k].clone())
	}
	return r
}

// run interprets f from state st and returns the states after it returns (none when it doesn't) and the result symbols.
func (l *locks) run(f *ssa.Function, args, free []string, st *lsState, active map[*ssa.Function]int, top bool, ctx string) ([]*lsState, []string) {
	l.steps++
	if l.steps > 200000 {
		failf("lock analysis of %s does not end", fname(l.entry))
	}
	na := map[*ssa.Function]int{}
	for k, v := range active {
		na[k] = v
	}
	na[f]++
	if l.rec {
		l.activs++
	}
	fr := &lsFrame{id: l.frameID(ctx), fn: f, args: args, free: free, active: na}
	in := make([]lsSet, len(f.Blocks))
	in[0] = lsSet{}
	in[0].add(st)
	work := []int{0}
	rec := l.rec
	l.rec = false
	iter := 0
	exit := lsSet{}
	flow := func(i int, s *lsState) {
		if in[i] == nil {
			in[i] = lsSet{}
		}
		if !in[i].add(s) {
			return
		}
		for _, w := range work {
			if w == i {
				return
			}
		}
		work = append(work, i)
	}
	step := func(bi int, final bool) {
		b := f.Blocks[bi]
		sts := in[bi].list()
		for _, ins := range b.Instrs {
			next := lsSet{}
			for _, s := range sts {
				for _, n := range l.instr(fr, ins, s, top, ctx) {
					next.add(n)
				}
			}
			sts = next.list()
		}
		last := b.Instrs[len(b.Instrs)-1]
		for _, s := range sts {
			switch last := last.(type) {
			case *ssa.Return:
				exit.add(s)
				var rs []string
				for _, v := range last.Results {
					rs = append(rs, l.eval(fr, v))
				}
				if !fr.hasRet {
					fr.rets, fr.hasRet = rs, true
				} else {
					for i := range rs {
						if fr.rets[i] != rs[i] {
							fr.rets[i] = ""
						}
					}
				}
			case *ssa.If:
				for k, sc := range b.Succs {
					ns := s.clone()
					l.c.branch(l, fr, last.Cond, k == 0, ns)
					if !final {
						flow(sc.Index, ns)
					}
				}
			default:
				if !final {
					for _, sc := range b.Succs {
						flow(sc.Index, s)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		iter++
		if iter > 10000 {
			failf("lock analysis of %s does not end", fname(f))
		}
		bi := work[0]
		work = work[1:]
		step(bi, false)
	}
	l.rec = rec
	exit = lsSet{}
	fr.hasRet, fr.rets = false, nil
	for bi := range f.Blocks {
		if in[bi] != nil {
			step(bi, true)
		}
	}
	return exit.list(), fr.rets
}

// lockOp recognizes calls of the methods of sync.Mutex, sync.RWMutex and sync.Locker.
func lockOp(cc *ssa.CallCommon) (recv ssa.Value, op string) {
	if cc.IsInvoke() {
		if n := namedOf(cc.Value.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			return cc.Value, cc.Method.Name()
		}
		return nil, ""
	}
	f := cc.StaticCallee()
	if f == nil || f.Signature.Recv() == nil || len(cc.Args) == 0 {
		return nil, ""
	}
	n := namedOf(deref(f.Signature.Recv().Type()))
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" || (n.Obj().Name() != "Mutex" && n.Obj().Name() != "RWMutex") {
		return nil, ""
	}
	return cc.Args[0], f.Name()
}

func (l *locks) instr(fr *lsFrame, in ssa.Instruction, st *lsState, top bool, ctx string) []*lsState {
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL {
			ad := l.eval(fr, in.X)
			if l.rec && sharedSym(ad) {
				l.c.access(l, fr, in, ad, false, "", st)
			}
		}
	case *ssa.Store:
		ad := l.eval(fr, in.Addr)
		val := l.eval(fr, in.Val)
		if strings.HasPrefix(ad, "a:") && !strings.Contains(ad, ".") {
			if old, ok := l.mem[ad]; ok && old != val {
				l.mem[ad] = "?" + ad
			} else {
				l.mem[ad] = val
			}
		}
		if l.rec {
			l.c.access(l, fr, in, ad, true, val, st)
		}
	case *ssa.MapUpdate:
		m := l.eval(fr, in.Map)
		if l.rec && sharedSym(m) {
			l.c.access(l, fr, in, m+"[]", true, l.eval(fr, in.Value), st)
		}
	case *ssa.Lookup:
		m := l.eval(fr, in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok && l.rec && sharedSym(m) {
			l.c.access(l, fr, in, m+"[]", false, "", st)
		}
	case *ssa.Range:
		m := l.eval(fr, in.X)
		if _, ok := in.X.Type().Underlying().(*types.Map); ok && l.rec && sharedSym(m) {
			l.c.access(l, fr, in, m+"[]", false, "", st)
		}
	case *ssa.MakeClosure:
		l.eval(fr, in)
	case *ssa.Defer:
		if rv, op := lockOp(&in.Call); rv != nil {
			st.defers = append(st.defers, lsDefer{fr.id, l.eval(fr, rv), op, in})
			return []*lsState{st}
		}
		st.defers = append(st.defers, lsDefer{fr.id, "", "", in})
	case *ssa.RunDefers:
		return l.runDefers(fr, in, st, ctx)
	case *ssa.Go:
		// a new goroutine holds no locks
		l.callFn(fr, in, newLsState(), ctx)
	case *ssa.Call:
		return l.callFn(fr, in, st, ctx)
	case *ssa.Panic:
		if l.rec {
			left := map[string]bool{}
			for k := range st.may {
				left[k] = true
			}
			for _, d := range st.defers {
				if d.op == "Unlock" || d.op == "RUnlock" {
					delete(left, d.sym)
				} else if d.op == "" {
					for _, s := range l.unlocks(d) {
						for k := range left {
							if strings.HasSuffix(k, s) {
								delete(left, k)
							}
						}
					}
				}
			}
			for k := range left {
				l.c.problem(l, fr, in, "lock-left", "a panic leaves "+l.show(k)+" locked")
			}
		}
		return nil
	case *ssa.Return:
		if l.rec && top && ctx == "e" {
			for _, k := range st.held() {
				l.c.problem(l, fr, in, "lock-left", fname(fr.fn)+" returns with "+l.show(k)+" locked")
			}
			var vs []string
			for _, v := range in.Results {
				vs = append(vs, l.eval(fr, v))
			}
			l.c.ret(l, fr, in, vs, st)
		}
	}
	return []*lsState{st}
}

// unlocks are the locks that a deferred closure releases.
func (l *locks) unlocks(d lsDefer) []string {
	mc, ok := d.call.Call.Value.(*ssa.MakeClosure)
	var f *ssa.Function
	if ok {
		f = mc.Fn.(*ssa.Function)
	} else if f = d.call.Call.StaticCallee(); f == nil {
		return nil
	}
	var r []string
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if rv, op := lockOp(&c.Call); rv != nil && (op == "Unlock" || op == "RUnlock") {
					// the suffix identifies the lock well enough
					if fa, ok := rv.(*ssa.FieldAddr); ok {
						r = append(r, "."+fieldVar(fa).Name())
					}
				}
			}
		}
	}
	return r
}

func (l *locks) runDefers(fr *lsFrame, in ssa.Instruction, st *lsState, ctx string) []*lsState {
	sts := []*lsState{st}
	var done []*lsState
	for len(sts) > 0 {
		s := sts[0]
		sts = sts[1:]
		i := len(s.defers) - 1
		if i < 0 || s.defers[i].frame != fr.id {
			done = append(done, s)
			continue
		}
		d := s.defers[i]
		s.defers = s.defers[:i:i]
		if d.op != "" {
			l.lock(fr, in, d.sym, d.op, s)
			sts = append(sts, s)
			continue
		}
		sts = append(sts, l.callFn(fr, d.call, s, ctx)...)
	}
	return done
}

func (l *locks) lock(fr *lsFrame, in ssa.Instruction, sym, op string, st *lsState) {
	if l.rec {
		l.lockOps++
	}
	prob := func(rule, d string) {
		if l.rec {
			l.c.problem(l, fr, in, rule, d)
		}
	}
	switch op {
	case "Lock", "RLock":
		if st.may[sym] {
			prob("lock-twice", "locks "+l.show(sym)+" that may already be locked by the same goroutine")
		}
		for _, k := range st.held() {
			if k != sym && lastField(k) == lastField(sym) && !strings.HasPrefix(k, "once:") {
				prob("lock-nested", "locks "+l.show(sym)+" while holding "+l.show(k)+": two goroutines that do so in different order never end")
			}
		}
		st.may[sym] = true
		st.must[sym] = lsR
		if op == "Lock" {
			st.must[sym] = lsW
		}
		st.facts = map[string]bool{}
	case "Unlock", "RUnlock":
		m := st.must[sym]
		want := lsW
		if op == "RUnlock" {
			want = lsR
		}
		if m != want {
			prob("unlock", op+" of "+l.show(sym)+" that isn't locked that way on all paths")
		}
		delete(st.must, sym)
		delete(st.may, sym)
		st.facts = map[string]bool{}
	default:
		prob("lock-op", "the effect of "+op+" is not known")
	}
}

func (l *locks) callFn(fr *lsFrame, c ssa.CallInstruction, st *lsState, ctx string) []*lsState {
	cc := c.Common()
	if rv, op := lockOp(cc); rv != nil {
		l.lock(fr, c, l.eval(fr, rv), op, st)
		return []*lsState{st}
	}
	var args []string
	for _, x := range cc.Args {
		args = append(args, l.eval(fr, x))
	}
	recv := ""
	var f *ssa.Function
	var free []string
	if cc.IsInvoke() {
		recv = l.eval(fr, cc.Value)
	} else if sf := cc.StaticCallee(); sf != nil {
		f = sf
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			free = l.closures[l.eval(fr, mc)].free
		}
	} else if _, ok := cc.Value.(*ssa.Builtin); ok {
		return []*lsState{st}
	} else {
		recv = l.eval(fr, cc.Value)
		if cl, ok := l.closures[recv]; ok {
			f, free = cl.fn, cl.free
		}
	}
	here := ctx + "/" + fmt.Sprint(c.Pos()) + c.String()
	if f != nil && f.Synthetic != "" && f.Blocks == nil {
		f = nil
	}
	if f != nil && f.Blocks != nil && (l.c.enter(f)) && fr.active[f] < 2 && len(fr.active) < 40 {
		ex, rets := l.run(f, args, free, st, fr.active, false, here)
		if v, ok := c.(ssa.Value); ok {
			base := l.name(fr, v)
			if len(rets) == 1 && rets[0] != "" {
				l.mem["r:"+base] = rets[0]
			} else {
				for i, s := range rets {
					if s != "" {
						l.mem["r:"+base+"#"+strconv.Itoa(i)] = s
					}
				}
			}
		}
		return ex
	}
	l.curState = st
	l.c.call(l, fr, c, recv, args, st)
	// closures that are passed may be called by the callee, any number of times
	for i, x := range cc.Args {
		cl, ok := l.closures[args[i]]
		if !ok || !l.c.enter(cl.fn) || fr.active[cl.fn] >= 2 {
			continue
		}
		_ = x
		ca := make([]string, len(cl.fn.Params))
		for k, p := range cl.fn.Params {
			ca[k] = "cb:" + here + ":" + strconv.Itoa(k)
			l.symType[ca[k]] = p.Type()
		}
		cur := st
		if onceDo(cc) {
			n := st.clone()
			k := "once:" + args[0]
			n.must[k], n.may[k] = lsW, true
			cur = n
		}
		ex, _ := l.run(cl.fn, ca, cl.free, cur, fr.active, false, here+"/cb"+strconv.Itoa(i))
		if onceDo(cc) {
			// everything that was done by the first call happened before the return of any call
			st.must["once:"+args[0]] = lsR
			continue
		}
		for _, e := range ex {
			if e.key() == st.key() {
				st.join(e)
			} else if l.rec {
				l.c.problem(l, fr, c, "lock-left", "a function value that is passed on changes what is locked")
			}
		}
	}
	return []*lsState{st}
}

// onceDo recognizes (*sync.Once).Do.
func onceDo(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	return f != nil && f.Name() == "Do" && f.Signature.Recv() != nil && tname(deref(f.Signature.Recv().Type())) == "sync.Once"
}

func (l *locks) name(fr *lsFrame, v ssa.Value) string {
	return strconv.Itoa(fr.id) + ":" + v.Name()
}

// sharedSym tells if a symbol is an address that other goroutines may know.
func sharedSym(s string) bool {
	for strings.HasPrefix(s, "*") {
		s = s[1:]
	}
	for _, p := range []string{"a:", "k:", "fn:", "cl:", "u:", "isnil:", "not:"} {
		if strings.HasPrefix(s, p) {
			return false
		}
	}
	return true
}

func (l *locks) show(s string) string {
	if l.entry != nil {
		for i, p := range l.entry.Params {
			k := "p" + strconv.Itoa(i)
			t := strings.TrimLeft(s, "*")
			if t == k || strings.HasPrefix(t, k+".") {
				return strings.Replace(t, k, p.Name(), 1)
			}
		}
	}
	return strings.TrimPrefix(strings.TrimLeft(s, "*"), "g:")
}

// eval names the value v.
func (l *locks) eval(fr *lsFrame, v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == v {
				if i < len(fr.args) {
					return fr.args[i]
				}
			}
		}
		return "?" + v.Name()
	case *ssa.FreeVar:
		for i, p := range fr.fn.FreeVars {
			if p == v && i < len(fr.free) {
				return fr.free[i]
			}
		}
		return "?" + v.Name()
	case *ssa.Global:
		s := "g:" + v.Pkg.Pkg.Name() + "." + v.Name()
		l.symType[s] = v.Type()
		return s
	case *ssa.Const:
		return "k:" + v.String()
	case *ssa.Function:
		s := "fn:" + fname(v)
		l.closures[s] = lsClosure{fn: v}
		return s
	case *ssa.FieldAddr:
		b := l.eval(fr, v.X)
		l.ownType[b] = v.X.Type()
		s := b + "." + fieldVar(v).Name()
		l.symType[s] = v.Type()
		return s
	case *ssa.Field:
		return l.eval(fr, v.X) + "." + fieldVarV(v).Name()
	case *ssa.IndexAddr:
		return l.eval(fr, v.X) + "[]"
	case *ssa.UnOp:
		if v.Op == token.MUL {
			ad := l.eval(fr, v.X)
			if m, ok := l.mem[ad]; ok {
				return m
			}
			s := "*" + ad
			l.symType[s] = v.Type()
			return s
		}
		if v.Op == token.NOT {
			return negSym(l.eval(fr, v.X))
		}
		return "u:" + l.name(fr, v)
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			x, y := v.X, v.Y
			if isNilConst(x) {
				x, y = y, x
			}
			if isNilConst(y) {
				s := "isnil:" + l.eval(fr, x)
				if v.Op == token.NEQ {
					s = negSym(s)
				}
				return s
			}
		}
	case *ssa.Alloc:
		s := "a:" + l.name(fr, v)
		l.symType[s] = v.Type()
		return s
	case *ssa.MakeInterface:
		return l.eval(fr, v.X)
	case *ssa.ChangeInterface:
		return l.eval(fr, v.X)
	case *ssa.ChangeType:
		return l.eval(fr, v.X)
	case *ssa.TypeAssert:
		return l.eval(fr, v.X)
	case *ssa.Convert:
		return l.eval(fr, v.X)
	case *ssa.Extract:
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok {
			if v.Index == 0 {
				return l.eval(fr, ta.X)
			}
			return "ok:" + l.eval(fr, ta.X)
		}
		if s, ok := l.mem["r:"+l.name(fr, v.Tuple)+"#"+strconv.Itoa(v.Index)]; ok {
			return s
		}
		return "c:" + l.name(fr, v.Tuple) + "#" + strconv.Itoa(v.Index)
	case *ssa.MakeClosure:
		s := "cl:" + l.name(fr, v)
		var free []string
		for _, b := range v.Bindings {
			free = append(free, l.eval(fr, b))
		}
		l.closures[s] = lsClosure{v.Fn.(*ssa.Function), free}
		return s
	case *ssa.Call:
		if s, ok := l.mem["r:"+l.name(fr, v)]; ok {
			return s
		}
		return "c:" + l.name(fr, v)
	case *ssa.Phi:
		if !l.busy[v] {
			l.busy[v] = true
			same, n := "", 0
			for _, e := range v.Edges {
				if s := l.eval(fr, e); s != same && e != v {
					same = s
					n++
				}
			}
			delete(l.busy, v)
			if n == 1 {
				return same
			}
		}
		return "phi:" + l.name(fr, v)
	}
	return "v:" + l.name(fr, v)
}

func negSym(s string) string {
	if strings.HasPrefix(s, "not:") {
		return s[4:]
	}
	return "not:" + s
}

func lastField(s string) string { return s[strings.LastIndex(s, ".")+1:] }
