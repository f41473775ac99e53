package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C20: every error that an operation reports is reported on, on every path.

func isErrorType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// errResult is the index of the error result of a call, or -1.
func errResult(cc *ssa.CallCommon) int {
	rs := cc.Signature().Results()
	if n := rs.Len(); n > 0 && isErrorType(rs.At(n-1).Type()) {
		return n - 1
	}
	return -1
}

// infallible tells if the error of a call is documented to always be nil.
func infallible(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	benign := func(t types.Type) bool {
		s := tname(deref(t))
		return s == "bytes.Buffer" || s == "strings.Builder"
	}
	if f.Signature.Recv() != nil && benign(f.Signature.Recv().Type()) {
		switch f.Name() {
		case "Write", "WriteString", "WriteByte", "WriteRune":
			return true
		case "ReadRune", "ReadByte", "Read", "ReadString", "ReadBytes":
			// the only error is the end of the buffer
			return true
		}
	}
	// output functions that write to such a buffer
	if f.Pkg != nil && (f.Pkg.Pkg.Path() == "fmt" || f.Pkg.Pkg.Path() == "io") && len(cc.Args) > 0 {
		if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok && benign(mi.X.Type()) {
			return true
		}
	}
	return false
}

type errCheck struct {
	a       *Analysis
	memo    map[*ssa.Parameter]int // 1 in progress, 2 checked, 3 not
	sources map[ssa.Instruction]bool
}

// aliases are the values that hold the error v: conversions, phis and variables.
func (e *errCheck) aliases(v ssa.Value) map[ssa.Value]bool {
	m := map[ssa.Value]bool{v: true}
	work := []ssa.Value{v}
	add := func(x ssa.Value) {
		if !m[x] {
			m[x] = true
			work = append(work, x)
		}
	}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x.Referrers() == nil {
			continue
		}
		for _, in := range *x.Referrers() {
			switch in := in.(type) {
			case *ssa.Phi:
				add(in)
			case *ssa.ChangeInterface:
				add(in)
			case *ssa.MakeInterface:
				add(in)
			case *ssa.ChangeType:
				add(in)
			case *ssa.TypeAssert:
			case *ssa.Store:
				if al := resolveCell(in.Addr); in.Val == x && al != nil {
					for _, r := range *al.Referrers() {
						if u, ok := r.(*ssa.UnOp); ok {
							add(u)
						}
					}
				}
			}
		}
	}
	return m
}

const (
	esUnchecked = 0
	esFailed    = 1
)

// follow explores all paths from instruction index i of block b and returns the position of a normal return that is
// reached without the error having been reported, or "".
func (e *errCheck) follow(b *ssa.BasicBlock, i int, v ssa.Value, origin ssa.Instruction) string {
	al := e.aliases(v)
	type node struct {
		b  *ssa.BasicBlock
		st int
	}
	seen := map[node]bool{}
	var walk func(b *ssa.BasicBlock, i, st int) string
	walk = func(b *ssa.BasicBlock, i, st int) string {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if in == origin {
				return e.a.p.instrPos(in) + " (the operation is repeated without a check)"
			}
			switch in := in.(type) {
			case *ssa.Panic:
				return ""
			case *ssa.Return:
				for _, x := range in.Results {
					if al[x] {
						return ""
					}
					if isErrorType(x.Type()) && st == esFailed {
						if k, ok := x.(*ssa.Const); !ok || !k.IsNil() {
							return ""
						}
					}
				}
				return e.a.p.instrPos(in)
			case *ssa.Store:
				// stored where the caller or an enclosing function finds it
				if al[in.Val] && resolveCell(in.Addr) == nil {
					return ""
				}
				if c := resolveCell(in.Addr); al[in.Val] && c != nil && c.Parent() != in.Parent() {
					return ""
				}
			case ssa.CallInstruction:
				cc := in.Common()
				if st == esFailed && e.sources[in] {
					return "" // another attempt, which has an obligation of its own
				}
				for k, x := range cc.Args {
					if !al[x] {
						continue
					}
					g := cc.StaticCallee()
					if g != nil && g.Blocks != nil && e.a.p.inModule(g) {
						if k < len(g.Params) && e.param(g.Params[k]) {
							return ""
						}
						continue
					}
					if cl, ok := in.(*ssa.Call); ok && isErrorType(cl.Type()) {
						al[cl] = true // wrapped
						for w := range e.aliases(cl) {
							al[w] = true
						}
					}
				}
			case *ssa.If:
				cond := in.Cond
				pol := true
				for {
					u, ok := cond.(*ssa.UnOp)
					if !ok {
						break
					}
					cond, pol = u.X, !pol
				}
				bo, ok := cond.(*ssa.BinOp)
				isT := -1
				if ok && (al[bo.X] && isNilConst(bo.Y) || al[bo.Y] && isNilConst(bo.X)) {
					// index of the successor where the error is nil
					isT = 1
					if (bo.Op.String() == "==") == pol {
						isT = 0
					}
				}
				if ok && (al[bo.X] && isEOF(bo.Y) || al[bo.Y] && isEOF(bo.X)) && expectsEnd(origin) {
					// the end of the input is what is expected
					isT = 1
					if (bo.Op.String() == "==") == pol {
						isT = 0
					}
				}
				for k, s := range b.Succs {
					ns := st
					if isT >= 0 {
						if k == isT {
							continue
						}
						ns = esFailed
					}
					if seen[node{s, ns}] {
						continue
					}
					seen[node{s, ns}] = true
					if r := walk(s, 0, ns); r != "" {
						return r
					}
				}
				return ""
			}
		}
		for _, s := range b.Succs {
			if seen[node{s, st}] {
				continue
			}
			seen[node{s, st}] = true
			if r := walk(s, 0, st); r != "" {
				return r
			}
		}
		return ""
	}
	return walk(b, i, esUnchecked)
}

// param tells if a function reports the error that it is given.
func (e *errCheck) param(p *ssa.Parameter) bool {
	switch e.memo[p] {
	case 2:
		return true
	case 1, 3:
		return false
	}
	e.memo[p] = 1
	f := p.Parent()
	ok := e.follow(f.Blocks[0], 0, p, nil) == ""
	e.memo[p] = 3
	if ok {
		e.memo[p] = 2
	}
	return ok
}

func checkC20(a *Analysis, r *Report) {
	r.Rules = append(r.Rules,
		"error: the error result of every call is, on every path that follows, compared with nil, and where it isn't nil the path ends in a panic, returns an error, hands the error to a function that does, or makes another attempt",
		"recover: what is recovered from a panic is, unless nil, raised again, becomes the error that is reported, or makes a predicate answer no",
		"null: the encoder only writes null for the nil value", "rest: the decoder does not ignore what follows the value it decodes")
	r.Assumptions = append(r.Assumptions, "writing to a bytes.Buffer or strings.Builder never fails")
	e := &errCheck{a: a, memo: map[*ssa.Parameter]int{}, sources: map[ssa.Instruction]bool{}}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && errResult(c.Common()) >= 0 && !infallible(c.Common()) {
					e.sources[in] = true
				}
			}
		}
	}
	n := 0
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				if bi, isB := cc.Value.(*ssa.Builtin); isB {
					if bi.Name() == "recover" {
						n++
						r.count("recoveries", 1)
						v := c.(ssa.Value)
						al := e.aliases(v)
						_ = al
						res := e.followRecover(b, i+1, v)
						r.ob(res == "", "recover", fname(f), a.p.instrPos(in), "what is recovered is dropped on the path that ends at "+res)
					}
					continue
				}
				if !e.sources[in] {
					continue
				}
				n++
				k := errResult(cc)
				name := "a function value"
				if cc.IsInvoke() {
					name = cc.Method.Name()
				} else if g := cc.StaticCallee(); g != nil {
					name = fname(g)
				}
				con := fname(f) + " calls " + name
				v, isV := c.(ssa.Value)
				if _, isCall := in.(*ssa.Call); !isCall || !isV {
					r.ob(false, "error", con, a.p.instrPos(in), "the error of a deferred or concurrent call is lost")
					continue
				}
				var ev ssa.Value
				if cc.Signature().Results().Len() == 1 {
					ev = v
				} else {
					for _, ref := range *v.Referrers() {
						if ex, ok := ref.(*ssa.Extract); ok && ex.Index == k {
							ev = ex
						}
					}
					// the whole result may be passed on or returned
					if ev == nil {
						r.ob(false, "error", con, a.p.instrPos(in), "the error of "+name+" is ignored")
						continue
					}
				}
				res := e.follow(b, i+1, ev, in)
				r.ob(res == "", "error", con, a.p.instrPos(in), "the error of "+name+" is not reported on the path that ends at "+res)
			}
		}
	}
	r.count("calls that may fail", len(e.sources))
	r.atLeast("calls that may fail", 20)
	r.atLeast("recoveries", 2)
	a.nullRule(r)
	a.restRule(r)
}

// followRecover looks for a path where what was recovered isn't nil and that ends normally without storing it.
func (e *errCheck) followRecover(b *ssa.BasicBlock, i int, v ssa.Value) string {
	al := e.aliases(v)
	// values that are made from what was recovered
	for ch := true; ch; {
		ch = false
		for _, bb := range b.Parent().Blocks {
			for _, in := range bb.Instrs {
				x, ok := in.(ssa.Value)
				if !ok || al[x] {
					continue
				}
				for _, o := range in.Operands(nil) {
					if *o != nil && al[*o] {
						al[x] = true
						ch = true
					}
				}
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) string
	walk = func(b *ssa.BasicBlock, i int) string {
		for ; i < len(b.Instrs); i++ {
			switch in := b.Instrs[i].(type) {
			case *ssa.Panic:
				return ""
			case *ssa.Store:
				if isErrorType(deref(in.Addr.Type())) {
					if k, ok := in.Val.(*ssa.Const); !ok || !k.IsNil() {
						return ""
					}
				}
				// a predicate answers no
				if k, ok := in.Val.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "false" {
					if c := resolveCell(in.Addr); c != nil && c.Parent() != in.Parent() && isPredicate(c.Parent()) {
						return ""
					}
				}
			case *ssa.Return:
				return e.a.p.instrPos(in)
			case *ssa.If:
				skip := -1
				if bo, ok := in.Cond.(*ssa.BinOp); ok && (al[bo.X] && isNilConst(bo.Y) || al[bo.Y] && isNilConst(bo.X)) {
					skip = 1
					if bo.Op.String() == "==" {
						skip = 0
					}
				}
				for k, s := range b.Succs {
					if k == skip || seen[s] {
						continue
					}
					seen[s] = true
					if r := walk(s, 0); r != "" {
						return r
					}
				}
				return ""
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if r := walk(s, 0); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return walk(b, i)
}

func isEOF(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok {
		if g, ok := u.X.(*ssa.Global); ok {
			return g.Name() == "EOF" && g.Pkg.Pkg.Path() == "io"
		}
	}
	return false
}

// expectsEnd tells if the function that makes a call does something else than to pass on what the call returns, in
// which case it may be that it expects the call to find the end of its input.
func expectsEnd(origin ssa.Instruction) bool {
	c, ok := origin.(*ssa.Call)
	if !ok {
		return false
	}
	rs := c.Call.Signature().Results()
	fs := c.Parent().Signature.Results()
	for i := 0; i < rs.Len()-1; i++ {
		for k := 0; k < fs.Len(); k++ {
			if types.Identical(rs.At(i).Type(), fs.At(k).Type()) {
				return false
			}
		}
	}
	return rs.Len() > 1
}

// isPredicate tells if the only result of f is a boolean.
func isPredicate(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() != 1 {
		return false
	}
	b, ok := rs.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Bool
}

// nullRule: the text null is only written for the nil value.
func (a *Analysis) nullRule(r *Report) {
	n := 0
	for _, f := range a.p.Funcs {
		if !strings.HasPrefix(pkgOf(f), "streamer") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					k, ok := (*o).(*ssa.Const)
					if !ok || k.Value == nil || k.Value.ExactString() != `"null"` {
						continue
					}
					n++
					good := false
					for x := range a.at(in) {
						if strings.Contains(x, "|eqg:") && strings.HasSuffix(x, ".Nil=true") {
							good = true
						}
						if strings.Contains(x, "|is:") && strings.HasSuffix(x, "=true") && (strings.Contains(x, "Nil=") || strings.Contains(x, "nilValue=") || strings.Contains(x, "nilType=")) {
							good = true
						}
					}
					r.ob(good, "null", fname(f), a.p.instrPos(in), "null is written for values that aren't known to be the nil value")
				}
			}
		}
	}
	r.count("null constants", n)
}

// restRule: the function that decodes a complete text asks the decoder for what follows.
func (a *Analysis) restRule(r *Report) {
	n := 0
	for _, f := range a.p.Funcs {
		if !strings.HasPrefix(pkgOf(f), "streamer") || f.Parent() != nil {
			continue
		}
		makes, asks := false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					continue
				}
				g := c.Call.StaticCallee()
				if g.Name() == "NewDecoder" && g.Pkg != nil && g.Pkg.Pkg.Path() == "encoding/json" {
					makes = true
				}
			}
		}
		if !makes {
			continue
		}
		n++
		asks = a.reachesEOF(f, map[*ssa.Function]bool{})
		r.ob(asks, "rest", fname(f), a.p.pos(f.Pos()), "text after the decoded value is ignored: nothing checks for the end of the input")
	}
	r.count("complete decoders", n)
	r.atLeast("complete decoders", 1)
}

// reachesEOF tells if f, or a function it calls, compares with io.EOF other than to replace it.
func (a *Analysis) reachesEOF(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] || f.Blocks == nil || !strings.HasPrefix(pkgOf(f), "streamer") {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if bo, ok := in.(*ssa.BinOp); ok {
				for _, x := range []ssa.Value{bo.X, bo.Y} {
					if u, ok := x.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && g.Name() == "EOF" && a.eofAccepted(bo) {
							return true
						}
					}
				}
			}
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && a.reachesEOF(g, seen) {
					return true
				}
				if c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "More" {
					return true
				}
			}
		}
	}
	return false
}

// eofAccepted tells if the branch where the comparison with io.EOF holds can end normally, and the other can't.
func (a *Analysis) eofAccepted(bo *ssa.BinOp) bool {
	for _, ref := range *bo.Referrers() {
		in, ok := ref.(*ssa.If)
		if !ok {
			continue
		}
		eq, ne := 0, 1
		if bo.Op.String() == "!=" {
			eq, ne = 1, 0
		}
		if returns(in.Block().Succs[eq], map[*ssa.BasicBlock]bool{in.Block(): true}) && !returns(in.Block().Succs[ne], map[*ssa.BasicBlock]bool{in.Block(): true}) {
			return true
		}
	}
	return false
}

func returns(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return false
	}
	seen[b] = true
	if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		return true
	}
	for _, s := range b.Succs {
		if returns(s, seen) {
			return true
		}
	}
	return false
}
