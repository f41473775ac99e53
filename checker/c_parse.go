package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: the lexers and parsers end for every input and do not accept what they cannot represent.

// parseCtx knows the reader, the token and the functions that deliver them.
type parseCtx struct {
	a        *Analysis
	reader   *types.Named // the string reader
	tok      *types.Named // the token
	tables   map[string]map[int64]int64
	reads    map[*ssa.Function]bool // methods of the reader that yield a rune
	tokReads map[*ssa.Function]bool // functions that yield a token, other than lexers
	lexers   map[*ssa.Function]bool // functions that make a token from what a reader yields
	pkgs     map[string]bool
	advMemo  map[*ssa.Function]int
	mayMemo  map[*ssa.Function]bool
	argMemo  map[*ssa.Function][]map[int]int64
}

func newParseCtx(a *Analysis) *parseCtx {
	p := &parseCtx{a: a, tables: map[string]map[int64]int64{}, reads: map[*ssa.Function]bool{}, tokReads: map[*ssa.Function]bool{}, lexers: map[*ssa.Function]bool{}, pkgs: map[string]bool{}, advMemo: map[*ssa.Function]int{}, mayMemo: map[*ssa.Function]bool{}, argMemo: map[*ssa.Function][]map[int]int64{}}
	p.reader = a.p.named("util", "StringReader")
	p.tok = a.p.named("parser", "Token")
	isPtr := func(t types.Type, n *types.Named) bool {
		pt, ok := t.(*types.Pointer)
		return ok && types.Identical(pt.Elem(), n)
	}
	for _, f := range a.p.Funcs {
		sig := f.Signature
		if sig.Recv() != nil && isPtr(sig.Recv().Type(), p.reader) && sig.Results().Len() == 1 && sig.Params().Len() == 0 {
			if b, ok := sig.Results().At(0).Type().(*types.Basic); ok && b.Kind() == types.Int32 && b.Name() == "rune" {
				p.reads[f] = true
			}
		}
		if sig.Results().Len() == 1 && isPtr(sig.Results().At(0).Type(), p.tok) && f.Parent() == nil {
			lex := false
			for i := 0; i < sig.Params().Len(); i++ {
				if isPtr(sig.Params().At(i).Type(), p.reader) {
					lex = true
				}
			}
			if lex {
				p.lexers[f] = true
				p.pkgs[pkgOf(f)] = true
			} else {
				p.tokReads[f] = true
			}
		}
	}
	p.pkgs["parser"] = true
	p.findTables()
	return p
}

func (p *parseCtx) isTok(t types.Type) bool {
	pt, ok := t.(*types.Pointer)
	return ok && types.Identical(pt.Elem(), p.tok)
}

// findTables determines the content that package level arrays of integers can have at each index, from the stores of
// the init functions. The value is the union of the bits that may be stored.
func (p *parseCtx) findTables() {
	for _, pk := range p.a.p.SPkgs {
		var fns []*ssa.Function
		for _, f := range p.a.p.Funcs {
			if f.Pkg == pk && strings.HasPrefix(f.Name(), "init") {
				fns = append(fns, f)
			}
		}
		if f := pk.Func("init"); f != nil {
			fns = append(fns, f)
		}
		for _, f := range fns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					ia, ok := s.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					g, ok := ia.X.(*ssa.Global)
					if !ok {
						continue
					}
					name := g.Pkg.Pkg.Path() + "." + g.Name()
					if p.tables[name] == nil {
						p.tables[name] = map[int64]int64{}
					}
					bits := int64(-1)
					if k, ok := s.Val.(*ssa.Const); ok && k.Value != nil {
						bits, _ = constant.Int64Val(constant.ToInt(k.Value))
					}
					idx, ok := indexSet(ia.Index, 0)
					if !ok {
						for i := int64(0); i < 128; i++ {
							p.tables[name][i] |= bits
						}
					}
					for _, i := range idx {
						p.tables[name][i] |= bits
					}
				}
			}
		}
	}
}

// indexSet determines the values of an index: a constant, a counter between constants, or an element of a literal.
func indexSet(v ssa.Value, d int) ([]int64, bool) {
	if d > 5 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return nil, false
		}
		i, ok := constant.Int64Val(constant.ToInt(v.Value))
		return []int64{i}, ok
	case *ssa.Convert:
		return indexSet(v.X, d+1)
	case *ssa.UnOp:
		ia, ok := v.X.(*ssa.IndexAddr)
		if !ok {
			return nil, false
		}
		base := ia.X
		if s, ok := base.(*ssa.Slice); ok {
			base = s.X
		}
		al, ok := base.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		var r []int64
		for _, ref := range *al.Referrers() {
			if x, ok := ref.(*ssa.IndexAddr); ok {
				for _, rr := range *x.Referrers() {
					if st, ok := rr.(*ssa.Store); ok {
						is, ok := indexSet(st.Val, d+1)
						if !ok {
							return nil, false
						}
						r = append(r, is...)
					}
				}
			}
		}
		return r, true
	case *ssa.Phi:
		var lo int64
		haveLo, step := false, false
		for _, e := range v.Edges {
			switch e := e.(type) {
			case *ssa.Const:
				lo, haveLo = e.Int64(), true
			case *ssa.BinOp:
				if k, ok := e.Y.(*ssa.Const); ok && e.Op == token.ADD && e.X == v && k.Int64() == 1 {
					step = true
				}
			}
		}
		if !haveLo || !step || len(v.Edges) != 2 {
			return nil, false
		}
		for _, ref := range *v.Referrers() {
			b, ok := ref.(*ssa.BinOp)
			if !ok || b.X != v {
				continue
			}
			k, ok := b.Y.(*ssa.Const)
			if !ok {
				continue
			}
			hi := k.Int64()
			switch b.Op {
			case token.LEQ:
			case token.LSS:
				hi--
			default:
				continue
			}
			var r []int64
			for i := lo; i <= hi && i-lo < 1000; i++ {
				r = append(r, i)
			}
			return r, true
		}
	}
	return nil, false
}

// interp makes an interpreter where every read of a rune yields what rune does and every read of a token yields a
// token of the end.
func (p *parseCtx) interp(rn func() AV) *interp {
	ip := newInterp(p.a)
	ip.inline = func(f *ssa.Function) bool {
		if !p.pkgs[pkgOf(f)] && pkgOf(f) != "util" {
			return false
		}
		if p.mayRead(f, map[*ssa.Function]bool{}) {
			return true
		}
		for _, pa := range f.Params {
			if _, ok := pa.Type().Underlying().(*types.Basic); !ok {
				return false
			}
		}
		return true
	}
	ip.load = func(st *ist, path string, t types.Type) (AV, bool) {
		for n, tab := range p.tables {
			if strings.HasPrefix(path, n+"[") {
				var i int64
				if _, err := fmt.Sscanf(path[len(n):], "[%d]", &i); err == nil {
					return ip.integer(tab[i], t), true
				}
				return unknownAV, true
			}
		}
		if path == "endtoken.Type" {
			return ip.integer(0, t), true
		}
		if path == "endtoken.Value" {
			return ip.konst(constant.MakeString(""), t), true
		}
		return unknownAV, false
	}
	ip.call = func(st *ist, c ssa.CallInstruction, f *ssa.Function, args []AV) ([]iout, bool) {
		if f != nil && p.reads[f] {
			return []iout{{st: st, res: []AV{rn()}}}, true
		}
		if p.isTokRead(c, f) {
			return []iout{{st: st, res: []AV{{K: 'p', S: "endtoken"}}}}, true
		}
		return nil, false
	}
	return ip
}

// mayRead tells if f, or what it calls, reads a rune or a token.
func (p *parseCtx) mayRead(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if v, ok := p.mayMemo[f]; ok {
		return v
	}
	if seen[f] {
		return false
	}
	seen[f] = true
	r := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && !r {
				g := c.Common().StaticCallee()
				r = g != nil && p.reads[g] || p.isTokRead(c, nil) || g != nil && p.mayRead(g, seen)
			}
		}
	}
	if len(seen) == 1 || r {
		p.mayMemo[f] = r
	}
	return r
}

// isTokRead tells if a call yields a token that isn't made by a lexer of which the source is inlined.
func (p *parseCtx) isTokRead(c ssa.CallInstruction, f *ssa.Function) bool {
	if f != nil && p.lexers[f] {
		return false
	}
	rs := c.Common().Signature().Results()
	return rs.Len() == 1 && p.isTok(rs.At(0).Type())
}

// advances tells if f, on every path that returns, reads a rune with a method that moves on.
func (p *parseCtx) advances(f *ssa.Function, tok bool) bool {
	if f == nil || f.Blocks == nil {
		return false
	}
	switch p.advMemo[f] {
	case 1:
		return true // assumed while in progress, the cycle is checked on its own
	case 2:
		return true
	case 3:
		return false
	}
	p.advMemo[f] = 1
	r := !p.avoids(f.Blocks[0], 0, func(b *ssa.BasicBlock) bool {
		_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		return ok
	}, nil)
	p.advMemo[f] = 3
	if r {
		p.advMemo[f] = 2
	}
	return r
}

// isAdvance tells if a call always reads at least one rune or token.
func (p *parseCtx) isAdvance(c ssa.CallInstruction) bool {
	f := c.Common().StaticCallee()
	if f != nil && p.reads[f] {
		return p.moves(f)
	}
	rs := c.Common().Signature().Results()
	if rs.Len() == 1 && p.isTok(rs.At(0).Type()) {
		// a method that yields a token: it reads, unless it keeps what it has read for the next call
		if f == nil {
			return false
		}
		if p.lexers[f] {
			return p.advances(f, false)
		}
		return p.consumes(f)
	}
	if f != nil && (p.pkgs[pkgOf(f)]) {
		return p.advances(f, true)
	}
	if c.Common().IsInvoke() {
		return false
	}
	return false
}

// moves tells if a method of the reader changes the position of the reader on each path where a rune of the text is
// returned.
func (p *parseCtx) moves(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), p.reader) {
					return true
				}
			}
		}
	}
	return false
}

// consumes tells if a method that yields a token also removes it: it never stores the token that it yields, it only
// clears what was stored. A method that stores it is a look-ahead.
func (p *parseCtx) consumes(f *ssa.Function) bool {
	clears := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if fa, ok := in.Addr.(*ssa.FieldAddr); ok && p.isTok(in.Val.Type()) {
					_ = fa
					if isNilConst(in.Val) {
						clears = true
					}
				}
			}
		}
	}
	return clears
}

// avoids tells if there is a path from instruction i of block b to a block for which goal holds, that does not read.
func (p *parseCtx) avoids(b *ssa.BasicBlock, i int, goal func(*ssa.BasicBlock) bool, within map[*ssa.BasicBlock]bool) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if c, ok := b.Instrs[i].(*ssa.Call); ok && p.isAdvance(c) {
				return false
			}
		}
		if goal(b) {
			return true
		}
		for _, s := range b.Succs {
			if within != nil && !within[s] {
				continue
			}
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(b, i)
}

// natural loops of f: header to body
func loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			body := r[s]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{s: true}
				r[s] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return r
}

// boundedLoop tells if a loop ends because of a counter, or because it ranges over something.
func boundedLoop(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	for b := range body {
		t, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || !b.Dominates(h) && !h.Dominates(b) {
			continue
		}
		exits := false
		for _, s := range b.Succs {
			if !body[s] {
				exits = true
			}
		}
		if !exits {
			continue
		}
		// the exit must be on every path around the loop
		all := true
		for _, pr := range h.Preds {
			if body[pr] && !b.Dominates(pr) {
				all = false
			}
		}
		if !all {
			continue
		}
		switch c := t.Cond.(type) {
		case *ssa.Extract:
			if _, ok := c.Tuple.(*ssa.Next); ok {
				return true
			}
		case *ssa.BinOp:
			for _, x := range []ssa.Value{c.X, c.Y} {
				if counter(x, h, body) {
					return true
				}
			}
		}
	}
	return false
}

// counter tells if v is a number that changes by a constant in each turn of the loop, or such a number changed.
func counter(v ssa.Value, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, k := b.Y.(*ssa.Const); k {
			v = b.X
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != h {
		return false
	}
	dir := 0
	for i, e := range ph.Edges {
		if !body[h.Preds[i]] {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ph {
			return false
		}
		k, ok := b.Y.(*ssa.Const)
		if !ok || k.Value == nil {
			return false
		}
		d := constant.Sign(k.Value)
		if b.Op == token.SUB {
			d = -d
		} else if b.Op != token.ADD {
			return false
		}
		if d == 0 || dir != 0 && d != dir {
			return false
		}
		dir = d
	}
	return dir != 0
}

func checkC18(a *Analysis, r *Report) {
	r.Rules = append(r.Rules,
		"number: the error of every conversion of text to a number, or other value, that the parsers make is reported",
		"step: every loop of a lexer or parser that isn't bounded by a counter reads a rune or a token in each turn, and every cycle of calls between parser functions reads a token",
		"end: when nothing but the end of the text is read, no loop of a lexer or parser completes a turn and no parser function is entered again (abstract interpretation)",
		"number: conversions of text to numbers yield 64 bits", "utf8: bytes that are not valid UTF-8 are reported",
		"escape: a character that follows a backslash is reported, unless the function compares it with a constant or a parameter, or keeps the backslash",
		"nul: the reader yields the end mark only at the end", "move: the reader moves on whenever it yields a rune of the text",
		"named: no rune of the text becomes a token that the parser takes for a named token (number, string, identifier, end)",
		"unfinished: a function that has read the end of the text, or the token for it, never returns, unless it skips what it reads (abstract interpretation, text and tokens may end anywhere)",
		"skip: each token is examined before the next one is read", "rest: parsing ends with the end of the text")
	r.Assumptions = append(r.Assumptions, "text is finite; regexp.MustCompile panics for malformed expressions", "depth of nesting is limited by the stack")
	p := newParseCtx(a)
	if len(p.reads) < 2 || len(p.lexers) < 2 {
		failf("C18: reader methods %d, lexers %d", len(p.reads), len(p.lexers))
	}
	// number
	e := &errCheck{a: a, memo: map[*ssa.Parameter]int{}, sources: map[ssa.Instruction]bool{}}
	var fns []*ssa.Function
	for _, f := range a.p.Funcs {
		if p.pkgs[pkgOf(f)] {
			fns = append(fns, f)
		}
	}
	r.count("parser functions", len(fns))
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && errResult(c.Common()) >= 0 && !infallible(c.Common()) {
					e.sources[in] = true
				}
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				if !e.sources[in] {
					continue
				}
				c := in.(*ssa.Call)
				name := "a function"
				if g := c.Call.StaticCallee(); g != nil {
					name = fname(g)
				}
				r.count("conversions", 1)
				ev := e.errValue(c)
				con := fname(f) + " calls " + name
				if g := c.Call.StaticCallee(); g != nil && pkgPath(g) == "strconv" && strings.HasPrefix(g.Name(), "Parse") {
					k, ok := c.Call.Args[len(c.Call.Args)-1].(*ssa.Const)
					if b, isI := c.Call.Args[len(c.Call.Args)-1].Type().(*types.Basic); isI && b.Kind() == types.Int {
						r.ob(ok && (k.Int64() == 64 || k.Int64() == 0 && g.Name() == "ParseInt"), "number", con+" with 64 bits", a.p.instrPos(in), "the number that "+name+" yields has less than 64 bits")
					}
				}
				if ev == nil {
					r.ob(false, "number", con, a.p.instrPos(in), "the error of "+name+" is ignored")
					continue
				}
				res := e.follow(b, i+1, ev, in)
				r.ob(res == "", "number", con, a.p.instrPos(in), "the error of "+name+" is not reported on the path that ends at "+res)
			}
		}
	}
	r.atLeast("conversions", 4)
	p.steps(r, fns)
	p.ends(r, fns)
	p.readerRules(r)
	p.namedRule(r)
	p.skipRule(r, fns)
	p.unfinishedText(r, fns)
	p.escapes(r, fns)
	p.unfinishedTokens(r, fns)
	p.restRule(r, fns)
}

// errValue is the error result of a call.
func (e *errCheck) errValue(c *ssa.Call) ssa.Value {
	if c.Call.Signature().Results().Len() == 1 {
		return c
	}
	k := errResult(c.Common())
	for _, ref := range *c.Referrers() {
		if ex, ok := ref.(*ssa.Extract); ok && ex.Index == k {
			return ex
		}
	}
	return nil
}

// steps: loops and call cycles read.
func (p *parseCtx) steps(r *Report, fns []*ssa.Function) {
	a := p.a
	for _, f := range fns {
		for h, body := range loopsOf(f) {
			if boundedLoop(h, body) {
				r.count("bounded loops", 1)
				continue
			}
			r.count("reading loops", 1)
			// a path around the loop that doesn't read
			back := func(b *ssa.BasicBlock) bool {
				for _, s := range b.Succs {
					if s == h {
						return true
					}
				}
				return false
			}
			bad := p.avoids(h, 0, back, body)
			r.ob(!bad, "step", fname(f)+" loop", a.p.pos(blockPos(h)), "a turn of the loop need not read anything")
		}
	}
	r.atLeast("reading loops", 8)
	// call cycles: only edges that are reached without reading
	edges := map[*ssa.Function][]*ssa.Function{}
	n := 0
	for _, f := range fns {
		seen := map[*ssa.BasicBlock]bool{}
		var walk func(b *ssa.BasicBlock)
		walk = func(b *ssa.BasicBlock) {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				fs, _ := a.p.callees(c.Common())
				for _, g := range fs {
					if p.pkgs[pkgOf(g)] {
						edges[f] = append(edges[f], g)
						n++
					}
				}
				if p.isAdvance(c) {
					return
				}
			}
			for _, s := range b.Succs {
				if !seen[s] {
					seen[s] = true
					walk(s)
				}
			}
		}
		if len(f.Blocks) > 0 {
			walk(f.Blocks[0])
		}
	}
	r.count("calls before anything is read", n)
	state := map[*ssa.Function]int{}
	var path []string
	var dfs func(f *ssa.Function) string
	dfs = func(f *ssa.Function) string {
		state[f] = 1
		path = append(path, fname(f))
		for _, g := range edges[f] {
			if state[g] == 1 {
				return strings.Join(append(path, fname(g)), " -> ")
			}
			if state[g] == 0 {
				if s := dfs(g); s != "" {
					return s
				}
			}
		}
		path = path[:len(path)-1]
		state[f] = 2
		return ""
	}
	for _, f := range fns {
		if state[f] == 0 {
			path = nil
			c := dfs(f)
			r.ob(c == "", "step", fname(f)+" calls", a.p.pos(f.Pos()), "calls go round without reading anything: "+c)
			if c != "" {
				break
			}
		}
	}
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return b.Parent().Pos()
}

// ends: with nothing left to read, nothing goes round.
func (p *parseCtx) ends(r *Report, fns []*ssa.Function) {
	a := p.a
	for _, f := range fns {
		loops := loopsOf(f)
		var hs []*ssa.BasicBlock
		for h := range loops {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
		for _, h := range hs {
			body := loops[h]
			if boundedLoop(h, body) {
				continue
			}
			ip := p.interp(nil)
			ip.call = p.endCalls(ip)
			round := false
			ip.backEdge = func(st *ist, from, to *ssa.BasicBlock) bool {
				if to == h {
					// what was read before the end may be good for some more turns
					for i := 0; i < 3; i++ {
						if k := fmt.Sprint("turn", i); !st.ev[k] {
							st.ev[k] = true
							return true
						}
					}
					round = true
					return false
				}
				return true
			}
			st := newIst()
			p.unknowns(ip, f, st)
			ip.runFrom(f, h, nil, st)
			con := fname(f) + " loop"
			if ip.bad != "" {
				r.ob(false, "end", con, a.p.pos(blockPos(h)), "not decided: "+ip.bad)
				continue
			}
			r.ob(!round, "end", con, a.p.pos(blockPos(h)), "the loop goes on although there is nothing left to read")
		}
		// entered with a token of the end
		takes := false
		for _, pa := range f.Params {
			if p.isTok(pa.Type()) {
				takes = true
			}
		}
		if !takes {
			continue
		}
		ip := p.interp(nil)
		ip.call = p.endCalls(ip)
		again := ""
		ip.recursed = func(st *ist, g *ssa.Function) { again = fname(g) }
		st := newIst()
		p.unknowns(ip, f, st)
		var args []AV
		for _, pa := range f.Params {
			if p.isTok(pa.Type()) {
				args = append(args, AV{K: 'p', S: "endtoken"})
			} else {
				args = append(args, st.env[pa])
			}
		}
		ip.stack = append(ip.stack, fmt.Sprint(f.String(), args))
		ip.run(f, args, st)
		r.count("functions entered at the end", 1)
		if ip.bad != "" {
			r.ob(false, "end", fname(f), a.p.pos(f.Pos()), "not decided: "+ip.bad)
			continue
		}
		r.ob(again == "", "end", fname(f), a.p.pos(f.Pos()), "there is nothing left to read but the call leads to "+again+" again")
	}
	r.atLeast("functions entered at the end", 5)
}

func (p *parseCtx) endCalls(ip *interp) func(st *ist, c ssa.CallInstruction, f *ssa.Function, args []AV) ([]iout, bool) {
	return func(st *ist, c ssa.CallInstruction, f *ssa.Function, args []AV) ([]iout, bool) {
		if f != nil && p.reads[f] {
			rs := f.Signature.Results()
			return []iout{{st: st, res: []AV{ip.integer(0, rs.At(0).Type())}}}, true
		}
		if p.isTokRead(c, f) {
			return []iout{{st: st, res: []AV{{K: 'p', S: "endtoken"}}}}, true
		}
		return nil, false
	}
}

// unknowns names the parameters of f.
func (p *parseCtx) unknowns(ip *interp, f *ssa.Function, st *ist) {
	for i, pa := range f.Params {
		v := ip.typed(st, AV{K: 's', S: fmt.Sprint("p", i)}, pa.Type())
		if _, ok := pa.Type().Underlying().(*types.Pointer); ok {
			v.K = 'p'
		}
		st.env[pa] = v
	}
}

// readerRules: the reader yields the end mark only at the end, and moves on.
func (p *parseCtx) readerRules(r *Report) {
	a := p.a
	var fs []*ssa.Function
	for f := range p.reads {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	n := 0
	for _, f := range fs {
		if !p.moves(f) {
			continue
		}
		n++
		// assume that the text holds NUL characters
		ip := newInterp(a)
		ip.inline = func(g *ssa.Function) bool { return pkgOf(g) == "util" }
		ip.textRead = func(st *ist, index AV) (AV, bool) {
			st.ev["text"] = true
			return ip.integer(0, nil), true
		}
		bad := ""
		for _, o := range p.readerRun(ip, f) {
			if !o.exit && o.st.ev["text"] {
				bad = "a NUL character in the text is taken for the end of the text"
			}
		}
		if ip.bad != "" {
			bad = ip.bad
		}
		r.ob(bad == "", "nul", fname(f), a.p.pos(f.Pos()), bad)
		// the position moves: the field that was the index has increased
		ip = newInterp(a)
		ip.inline = func(g *ssa.Function) bool { return pkgOf(g) == "util" }
		ip.textRead = func(st *ist, index AV) (AV, bool) {
			st.ev["text:"+index.S] = true
			return AV{K: 's', S: "byte"}, true
		}
		bad = ""
		texts := 0
		for _, o := range p.readerRun(ip, f) {
			for e := range o.st.ev {
				ix, ok := strings.CutPrefix(e, "text:")
				if !ok || o.exit {
					continue
				}
				texts++
				v, set := o.st.mem[ix]
				if !set || v.K != 's' || !(strings.HasPrefix(v.S, "(s"+ix+"+") || strings.HasSuffix(v.S, "+s"+ix+")")) || strings.Contains(v.S, "+cInt:0)") || strings.Contains(v.S, "+cInt:-") {
					bad = "a rune of the text is returned but the position is not moved"
				}
			}
		}
		if ip.bad != "" {
			bad = ip.bad
		}
		if texts == 0 {
			bad = "not decided: no read of the text was found"
		}
		r.ob(bad == "", "move", fname(f), a.p.pos(f.Pos()), bad)
	}
	for _, f := range fs {
		ip := newInterp(a)
		ip.inline = func(g *ssa.Function) bool { return pkgOf(g) == "util" }
		ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
			if g == nil || pkgPath(g) != "unicode/utf8" || !strings.HasPrefix(g.Name(), "Decode") {
				return nil, false
			}
			st.ev["decode"] = true
			rs := g.Signature.Results()
			return []iout{{st: st, res: []AV{ip.integer(0xfffd, rs.At(0).Type()), ip.integer(1, rs.At(1).Type())}}}, true
		}
		bad, dec := "", false
		for _, o := range p.readerRun(ip, f) {
			if o.st.ev["decode"] {
				dec = true
				if !o.exit {
					bad = "bytes that are not valid UTF-8 are replaced by another character"
				}
			}
		}
		if ip.bad != "" {
			bad = ip.bad
		}
		if dec {
			r.count("methods that decode UTF-8", 1)
			r.ob(bad == "", "utf8", fname(f), a.p.pos(f.Pos()), bad)
		}
	}
	r.atLeast("methods that decode UTF-8", 1)
	r.count("reading methods", n)
	r.atLeast("reading methods", 1)
}

func (p *parseCtx) readerRun(ip *interp, f *ssa.Function) []iout {
	st := newIst()
	p.unknowns(ip, f, st)
	return ip.run(f, []AV{st.env[f.Params[0]]}, st)
}

func pkgPath(f *ssa.Function) string {
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}

// namedRule: the type of a named token is never made from a rune.
func (p *parseCtx) namedRule(r *Report) {
	a := p.a
	// named types: constants below the printable characters that tokens are given or compared with
	named := map[int64]bool{}
	isTypeField := func(v ssa.Value) bool {
		if u, ok := v.(*ssa.UnOp); ok {
			v = u.X
		}
		fa, ok := v.(*ssa.FieldAddr)
		return ok && types.Identical(deref(fa.X.Type()), p.tok) && fieldVar(fa).Name() == "Type"
	}
	for _, f := range a.p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if k, ok := in.Val.(*ssa.Const); ok && isTypeField(in.Addr) && k.Value != nil && k.Int64() < 32 {
						named[k.Int64()] = true
					}
				case *ssa.BinOp:
					for _, pr := range [][2]ssa.Value{{in.X, in.Y}, {in.Y, in.X}} {
						if k, ok := pr[1].(*ssa.Const); ok && isTypeField(pr[0]) && k.Value != nil && k.Int64() < 32 {
							named[k.Int64()] = true
						}
					}
				}
			}
		}
	}
	r.count("named tokens", len(named))
	r.atLeast("named tokens", 6)
	var fs []*ssa.Function
	for f := range p.lexers {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, f := range fs {
		// those that are only called by another lexer get their rune from it
		runeArg := false
		for _, pa := range f.Params {
			if b, ok := pa.Type().(*types.Basic); ok && b.Kind() == types.Int32 {
				runeArg = true
			}
		}
		if runeArg {
			continue
		}
		for k := range named {
			if k == 0 {
				continue
			}
			bad := ""
			ip := p.interp(nil)
			ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
				if g != nil && p.reads[g] {
					return []iout{{st: st, res: []AV{ip.integer(k, g.Signature.Results().At(0).Type())}}}, true
				}
				return nil, false
			}
			st := newIst()
			p.unknowns(ip, f, st)
			var args []AV
			for _, pa := range f.Params {
				args = append(args, st.env[pa])
			}
			for _, o := range ip.run(f, args, st) {
				if !o.exit && len(o.res) == 1 && o.res[0].K == 'p' {
					v := o.st.mem[o.res[0].S+".Type"]
					if v.K == 'c' && ip.consts[v.S].ExactString() == fmt.Sprint(k) {
						bad = fmt.Sprintf("the character %q becomes the named token number %d", rune(k), k)
					}
				} else if !o.exit && len(o.res) == 1 && o.res[0].K != 'p' {
					bad = "not decided which token the character becomes"
				}
			}
			if ip.bad != "" {
				bad = ip.bad
			}
			r.ob(bad == "", "named", fmt.Sprint(fname(f), " character ", k), a.p.pos(f.Pos()), bad)
		}
	}
}

// skipRule: the type of a token is examined before the next token is read.
func (p *parseCtx) skipRule(r *Report, fns []*ssa.Function) {
	a := p.a
	n := 0
	for _, f := range fns {
		if p.tokReads[f] {
			continue // the token goes to the caller
		}
		for _, b := range f.Blocks {
			for i, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !p.isTokRead(c, c.Call.StaticCallee()) || !p.isConsume(c) {
					continue
				}
				n++
				if p.peeked(c, 0) {
					r.ob(true, "skip", fname(f), a.p.instrPos(in), "")
					continue
				}
				bad := p.unexamined(b, i+1, c, map[ssa.Value]bool{c: true})
				r.ob(bad == "", "skip", fname(f), a.p.instrPos(in), "a token is skipped: it was not looked at before it was read and "+bad)
			}
		}
	}
	r.count("tokens read", n)
	r.atLeast("tokens read", 20)
}

func (p *parseCtx) isConsume(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	if f == nil {
		// through an interface: all implementations consume
		fs, _ := p.a.p.callees(c.Common())
		for _, g := range fs {
			if g.Blocks != nil && !p.consumes(unwrapThunk(g)) {
				return false
			}
		}
		return len(fs) > 0
	}
	return p.consumes(f)
}

func unwrapThunk(f *ssa.Function) *ssa.Function {
	if f.Synthetic == "" {
		return f
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil {
					return unwrapThunk(g)
				}
			}
		}
	}
	return f
}

// examines tells if in looks at the type of one of the tokens vs, or hands it to a function that is given it to do so.
func (p *parseCtx) examines(in ssa.Instruction, vs map[ssa.Value]bool) bool {
	switch in := in.(type) {
	case *ssa.FieldAddr:
		return vs[in.X] && fieldVar(in).Name() == "Type"
	case *ssa.Call:
		for i, x := range in.Call.Args {
			if !vs[x] {
				continue
			}
			g := in.Call.StaticCallee()
			if g == nil || g.Blocks == nil {
				return true
			}
			if p.unexamined(g.Blocks[0], 0, nil, map[ssa.Value]bool{g.Params[i]: true}) == "" {
				return true
			}
		}
	case *ssa.Return:
		for _, x := range in.Results {
			if vs[x] {
				return true
			}
		}
	case *ssa.Panic:
		return true
	}
	return false
}

var unexMemo = map[ssa.Value]string{}

// unexamined looks for a path on which a token isn't examined before the function returns or the next token is read.
func (p *parseCtx) unexamined(b *ssa.BasicBlock, i int, origin *ssa.Call, vs map[ssa.Value]bool) string {
	if origin == nil {
		for v := range vs {
			if s, ok := unexMemo[v]; ok {
				return s
			}
			unexMemo[v] = ""
			s := p.unexamined1(b, i, vs)
			unexMemo[v] = s
			return s
		}
	}
	return p.unexamined1(b, i, vs)
}

func (p *parseCtx) unexamined1(b *ssa.BasicBlock, i int, vs map[ssa.Value]bool) string {
	for ch := true; ch; {
		ch = false
		for _, bb := range b.Parent().Blocks {
			for _, in := range bb.Instrs {
				if ph, ok := in.(*ssa.Phi); ok && !vs[ph] {
					for _, e := range ph.Edges {
						if vs[e] {
							vs[ph] = true
							ch = true
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) string
	walk = func(b *ssa.BasicBlock, i int) string {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if p.examines(in, vs) {
				return ""
			}
			if _, ok := in.(*ssa.Return); ok {
				return "not before the return at " + p.a.p.instrPos(in)
			}
			if c, ok := in.(*ssa.Call); ok && (p.isTokRead(c, c.Call.StaticCallee()) || p.isAdvance(c)) {
				return "not before " + p.a.p.instrPos(in)
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if r := walk(s, 0); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return walk(b, i)
}

// peeked tells if the token that c reads was looked at with a look-ahead, and found to have one particular type.
func (p *parseCtx) peeked(c *ssa.Call, d int) bool {
	// walk backwards from c: each path has an edge where the type of a token that was looked at equals a constant,
	// and nothing is read in between
	seen := map[*ssa.BasicBlock]bool{}
	f := c.Parent()
	dom := f.Blocks[0]
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i >= 0; i-- {
			if x, ok := b.Instrs[i].(*ssa.Call); ok && x != c && p.isAdvance(x) {
				return false
			}
		}
		if b == dom {
			return p.calledPeeked(f, d)
		}
		for _, pr := range b.Preds {
			if p.equalEdge(pr, b) {
				continue
			}
			if seen[pr] {
				continue
			}
			seen[pr] = true
			if !walk(pr, len(pr.Instrs)-1) {
				return false
			}
		}
		return true
	}
	i := 0
	for k, x := range c.Block().Instrs {
		if x == c {
			i = k - 1
		}
	}
	return walk(c.Block(), i)
}

// calledPeeked tells if all calls of f are made when a token was looked at, as for peeked.
func (p *parseCtx) calledPeeked(f *ssa.Function, d int) bool {
	n := 0
	for _, g := range p.a.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != f {
					continue
				}
				n++
				if d > 2 || !p.peeked(c, d+1) {
					return false
				}
			}
		}
	}
	return n > 0
}

// equalEdge tells if the edge is taken only if the type of a token that was looked at (not removed) has a certain value.
func (p *parseCtx) equalEdge(from, to *ssa.BasicBlock) bool {
	t, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	return p.equalCond(t.Cond, from.Succs[0] == to, 0)
}

func (p *parseCtx) equalCond(v ssa.Value, pol bool, d int) bool {
	if d > 5 {
		return false
	}
	switch c := v.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			return p.equalCond(c.X, !pol, d+1)
		}
	case *ssa.Phi:
		// && and ||
		for i, e := range c.Edges {
			if k, ok := e.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) != pol {
					continue
				}
				if !p.equalEdge(c.Block().Preds[i], c.Block()) {
					return false
				}
				continue
			}
			if !p.equalCond(e, pol, d+1) && !p.equalEdge(c.Block().Preds[i], c.Block()) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		if pol != (c.Op == token.EQL) || c.Op != token.EQL && c.Op != token.NEQ {
			return false
		}
		for _, x := range []ssa.Value{c.X, c.Y} {
			u, ok := x.(*ssa.UnOp)
			if !ok {
				continue
			}
			fa, ok := u.X.(*ssa.FieldAddr)
			if ok && types.Identical(deref(fa.X.Type()), p.tok) && fieldVar(fa).Name() == "Type" && p.lookedAt(fa.X, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

// lookedAt tells if a token comes from a look-ahead.
func (p *parseCtx) lookedAt(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Call:
		return p.isTokRead(v, v.Call.StaticCallee()) && !p.isConsume(v)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !p.lookedAt(e, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// restRule: a parser returns only when the token that was read last is the end.
func (p *parseCtx) restRule(r *Report, fns []*ssa.Function) {
	a := p.a
	n := 0
	for _, f := range fns {
		if f.Name() != "Parse" || f.Signature.Recv() == nil || len(f.Params) != 2 || !p.isTok(f.Params[1].Type()) || f.Synthetic != "" {
			continue
		}
		n++
		// forward: has the end been seen since the last read
		seen := map[string]bool{}
		bad := ""
		var walk func(b *ssa.BasicBlock, i int, end bool)
		walk = func(b *ssa.BasicBlock, i int, end bool) {
			for ; i < len(b.Instrs); i++ {
				switch in := b.Instrs[i].(type) {
				case *ssa.Call:
					if p.isTokRead(in, in.Call.StaticCallee()) || p.isAdvance(in) {
						end = false
					}
				case *ssa.Return:
					if !end {
						bad = a.p.instrPos(in)
					}
				}
			}
			for _, s := range b.Succs {
				e := end || p.endEdge(b, s)
				k := fmt.Sprint(s.Index, e)
				if !seen[k] {
					seen[k] = true
					walk(s, 0, e)
				}
			}
		}
		walk(f.Blocks[0], 0, false)
		r.ob(bad == "", "rest", fname(f), a.p.pos(f.Pos()), "the text need not have ended at the return at "+bad)
	}
	r.count("parsers", n)
	r.atLeast("parsers", 2)
}

// endEdge tells if the edge is taken only if the type of a token is that of the end.
func (p *parseCtx) endEdge(from, to *ssa.BasicBlock) bool {
	t, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	pol := from.Succs[0] == to
	v := t.Cond
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		v, pol = u.X, !pol
	}
	c, ok := v.(*ssa.BinOp)
	if !ok || c.Op != token.EQL && c.Op != token.NEQ || pol != (c.Op == token.EQL) {
		return false
	}
	for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
		k, ok := pr[1].(*ssa.Const)
		if !ok || k.Value == nil || constant.Sign(k.Value) != 0 {
			continue
		}
		if u, ok := pr[0].(*ssa.UnOp); ok {
			if fa, ok := u.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), p.tok) && fieldVar(fa).Name() == "Type" {
				return true
			}
		}
	}
	return false
}

// nonZero decides comparisons of things that are known not to be the end with zero.
func nonZero(ip *interp, prefix string) func(st *ist, in *ssa.BinOp, x, y AV) (AV, bool) {
	return func(st *ist, in *ssa.BinOp, x, y AV) (AV, bool) {
		if y.K == 's' {
			x, y = y, x
		}
		if x.K == 's' && strings.HasPrefix(x.S, prefix) && ip.isZero(y) && (in.Op == token.EQL || in.Op == token.NEQ) {
			return ip.boolean(in.Op == token.NEQ), true
		}
		return unknownAV, false
	}
}

func forgetSym(st *ist, s string) {
	for k := range st.rel {
		if strings.Contains(k, s) {
			delete(st.rel, k)
		}
	}
}

// unfinishedText: functions that collect the text of a token.
func (p *parseCtx) unfinishedText(r *Report, fns []*ssa.Function) {
	a := p.a
	n := 0
	for _, f := range fns {
		if !p.collects(f) {
			continue
		}
		n++
		ip := p.interp(nil)
		ip.binop = nonZero(ip, "rune:")
		ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
			if g == nil || !p.reads[g] {
				return nil, false
			}
			t := g.Signature.Results().At(0).Type()
			moves := p.moves(g)
			sym := AV{K: 's', S: fmt.Sprintf("rune:%s:%s", fname(c.Parent()), c.Value().Name()), T: canonOrNil(t)}
			if st.ev["E"] {
				if moves {
					st.ev["consumed"] = true
				}
				return []iout{{st: st, res: []AV{ip.integer(0, t)}}}, true
			}
			forgetSym(st, sym.S)
			some := st
			var outs []iout
			if !st.ev["N"] || !moves && g.Name() != "Peek" {
				if !moves && g.Name() != "Peek" {
					// a look further ahead says nothing about the next rune
					return []iout{{st: st, res: []AV{ip.typed(st, AV{K: 's', S: "u" + sym.S}, t)}}}, true
				}
				none := st.clone()
				none.ev["E"] = true
				if moves {
					none.ev["consumed"] = true
				}
				outs = append(outs, iout{st: none, res: []AV{ip.integer(0, t)}})
			}
			if moves {
				delete(some.ev, "N")
			} else {
				some.ev["N"] = true
			}
			return append(outs, iout{st: some, res: []AV{sym}}), true
		}
		bad := false
		for _, fs := range p.funcArgs(f) {
			st := newIst()
			p.unknowns(ip, f, st)
			var args []AV
			for i, pa := range f.Params {
				v := st.env[pa]
				if b, ok := pa.Type().(*types.Basic); ok && b.Kind() == types.Int32 {
					v.S = "rune:param"
				}
				if g := fs[i]; g != nil {
					v = AV{K: 'f', S: g.String()}
					ip.fns[v.S] = g
				}
				args = append(args, v)
			}
			for _, o := range ip.run(f, args, st) {
				if !o.exit && o.st.ev["consumed"] {
					bad = true
				}
			}
		}
		if ip.bad != "" {
			r.ob(false, "unfinished", fname(f), a.p.pos(f.Pos()), "not decided: "+ip.bad)
			continue
		}
		r.ob(!bad, "unfinished", fname(f), a.p.pos(f.Pos()), "the function may return although the text has ended unexpectedly")
	}
	r.count("functions that collect text", n)
	r.atLeast("functions that collect text", 5)
}

// collects tells if f collects the text of a token.
func (p *parseCtx) collects(f *ssa.Function) bool {
	takes, makes := false, f.Signature.Results().Len() > 0
	for _, pa := range f.Params {
		if pt, ok := pa.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), p.reader) {
			takes = true
		}
		if _, ok := pa.Type().Underlying().(*types.Interface); ok {
			makes = true
		}
	}
	return takes && makes && !p.lexers[f] && f.Parent() == nil
}

// escapes: a backslash that is followed by an arbitrary character doesn't vanish. All reads are explored with a
// backslash, and what follows it is the euro sign, which no constant or parameter equals.
func (p *parseCtx) escapes(r *Report, fns []*ssa.Function) {
	a := p.a
	n := 0
	for _, f := range fns {
		if !p.collects(f) {
			continue
		}
		n++
		ip := p.interp(nil)
		ip.inline = func(g *ssa.Function) bool { return p.pkgs[pkgOf(g)] }
		const euro = 0x20ac
		lost := false
		ip.lookup = func(st *ist, in *ssa.Lookup, key AV) ([]AV, bool) {
			if key.K != 'c' || ip.consts[key.S].ExactString() != fmt.Sprint(euro) {
				return nil, false
			}
			t := in.Type()
			if tp, ok := t.(*types.Tuple); ok {
				t = tp.At(0).Type()
			}
			return []AV{ip.zero(t, "zero:"+tname(t)), ip.boolean(false)}, true
		}
		isRune := func(v AV, r int64) bool {
			if v.K != 'c' {
				return false
			}
			k, ok := constant.Int64Val(constant.ToInt(ip.consts[v.S]))
			return ok && k == r
		}
		ip.binop = func(st *ist, in *ssa.BinOp, x, y AV) (AV, bool) {
			if (in.Op == token.EQL || in.Op == token.NEQ) && (isRune(x, euro) && y.K != 'c' || isRune(y, euro) && x.K != 'c') {
				return ip.boolean(in.Op == token.NEQ), true
			}
			if (in.Op == token.EQL || in.Op == token.NEQ) && (isRune(x, '\\') && y.K == 's' || isRune(y, '\\') && x.K == 's') {
				return ip.boolean(in.Op == token.NEQ), true // the backslash is no end mark
			}
			return unknownAV, false
		}
		ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
			if g == nil || !p.reads[g] {
				if g == nil || !ip.inline(g) {
					for _, x := range args {
						if isRune(x, '\\') {
							st.ev["kept"] = true
						}
						if x.K == 'c' && ip.consts[x.S].Kind() == constant.String && strings.Contains(constant.StringVal(ip.consts[x.S]), "\\") {
							st.ev["kept"] = true
						}
					}
				}
				return nil, false
			}
			t := g.Signature.Results().At(0).Type()
			sym := AV{K: 's', S: fmt.Sprintf("rune:%s:%s", fname(c.Parent()), c.Value().Name()), T: canonOrNil(t)}
			moves := p.moves(g)
			if !moves && g.Name() != "Peek" {
				return []iout{{st: st, res: []AV{ip.typed(st, AV{K: 's', S: "u" + sym.S}, t)}}}, true
			}
			switch {
			case st.ev["euro"]:
				// the next read
				if !st.ev["kept"] {
					lost = true
				}
				return []iout{{st: st, exit: true}}, true
			case st.ev["bs"]:
				if moves {
					st.ev["euro"] = true
				}
				return []iout{{st: st, res: []AV{ip.integer(euro, t)}}}, true
			}
			var outs []iout
			if !st.ev["peeked"] {
				b := st.clone()
				if moves {
					b.ev["bs"] = true
				} else {
					b.ev["peeked"], b.ev["pbs"] = true, true
				}
				outs = append(outs, iout{st: b, res: []AV{ip.integer('\\', t)}})
				forgetSym(st, sym.S)
			} else if st.ev["pbs"] {
				if moves {
					st.ev["bs"] = true
				}
				return []iout{{st: st, res: []AV{ip.integer('\\', t)}}}, true
			} else {
				sym = st.mem["peeked"]
			}
			if moves {
				delete(st.ev, "peeked")
				delete(st.mem, "peeked")
			} else {
				st.ev["peeked"] = true
				st.mem["peeked"] = sym
			}
			return append(outs, iout{st: st, res: []AV{sym}}), true
		}
		st := newIst()
		p.unknowns(ip, f, st)
		var args []AV
		for _, pa := range f.Params {
			args = append(args, st.env[pa])
		}
		for _, o := range ip.run(f, args, st) {
			if !o.exit && o.st.ev["euro"] && !o.st.ev["kept"] {
				lost = true
			}
		}
		if ip.bad != "" {
			r.ob(false, "escape", fname(f), a.p.pos(f.Pos()), "not decided: "+ip.bad)
			continue
		}
		r.ob(!lost, "escape", fname(f), a.p.pos(f.Pos()), "a backslash that is followed by an unknown character is dropped")
	}
	r.count("functions examined for escapes", n)
}

// unfinishedTokens: functions that read tokens.
func (p *parseCtx) unfinishedTokens(r *Report, fns []*ssa.Function) {
	a := p.a
	n := 0
	memo := map[*ssa.Function]int{}
	var explore func(f *ssa.Function, endParam bool, ints map[int]int64) (returns, returnsConsumed bool, bad string)
	dies := func(f *ssa.Function) bool {
		switch memo[f] {
		case 1, 2:
			return true
		case 3:
			return false
		}
		memo[f] = 1
		ret := false
		for _, ints := range p.constArgs(f) {
			rt, _, bad := explore(f, true, ints)
			if rt || bad != "" {
				ret = true
			}
		}
		memo[f] = 2
		if ret {
			memo[f] = 3
		}
		return !ret
	}
	explore = func(f *ssa.Function, endParam bool, ints map[int]int64) (returns, returnsConsumed bool, bad string) {
		ip := p.interp(nil)
		ip.inline = func(g *ssa.Function) bool {
			return p.pkgs[pkgOf(g)] && !p.mayRead(g, map[*ssa.Function]bool{}) && basicParams(g)
		}
		ip.binop = nonZero(ip, "tok:")
		end := AV{K: 'p', S: "endtoken"}
		ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
			if p.isTokRead(c, g) {
				consume := p.isConsume(c.(*ssa.Call))
				if st.ev["E"] {
					if consume {
						st.ev["consumed"] = true
					}
					return []iout{{st: st, res: []AV{end}}}, true
				}
				sym := AV{K: 'p', S: fmt.Sprintf("tok:%s:%s", fname(c.Parent()), c.Value().Name())}
				if st.ev["N"] {
					sym = st.mem["peeked"]
				} else {
					forgetSym(st, sym.S)
				}
				var outs []iout
				if !st.ev["N"] {
					none := st.clone()
					none.ev["E"] = true
					if consume {
						none.ev["consumed"] = true
					}
					outs = append(outs, iout{st: none, res: []AV{end}})
				}
				if consume {
					delete(st.ev, "N")
					delete(st.mem, "peeked")
				} else {
					st.ev["N"] = true
					st.mem["peeked"] = sym
				}
				return append(outs, iout{st: st, res: []AV{sym}}), true
			}
			if g == nil && hasEnd(args) {
				gs, _ := a.p.callees(c.Common())
				all := len(gs) > 0
				for _, x := range gs {
					if x = unwrapThunk(x); x.Blocks == nil || !dies(x) {
						all = false
					}
				}
				if all {
					return []iout{{st: st, exit: true}}, true
				}
			}
			if g == nil || !p.pkgs[pkgOf(g)] || !p.mayRead(g, map[*ssa.Function]bool{}) && !hasEnd(args) {
				return nil, false
			}
			if hasEnd(args) {
				if dies(g) {
					return []iout{{st: st, exit: true}}, true
				}
			} else if st.ev["E"] && p.isAdvance(c) {
				return []iout{{st: st, exit: true}}, true
			}
			// something is read
			delete(st.ev, "N")
			delete(st.mem, "peeked")
			rs := c.Common().Signature().Results()
			var res []AV
			for i := 0; i < rs.Len(); i++ {
				v := ip.typed(st, AV{K: 's', S: fmt.Sprintf("res:%s:%s:%d", fname(c.Parent()), c.Value().Name(), i)}, rs.At(i).Type())
				forgetSym(st, v.S)
				res = append(res, v)
			}
			return []iout{{st: st, res: res}}, true
		}
		st := newIst()
		p.unknowns(ip, f, st)
		var args []AV
		for i, pa := range f.Params {
			v := st.env[pa]
			if p.isTok(pa.Type()) {
				v.S = "tok:param"
				if endParam {
					v = end
					st.ev["E"] = true
				}
			}
			if k, ok := ints[i]; ok {
				v = ip.integer(k, pa.Type())
			}
			args = append(args, v)
		}
		for _, o := range ip.run(f, args, st) {
			if !o.exit {
				returns = true
				if o.st.ev["consumed"] {
					returnsConsumed = true
				}
			}
		}
		return returns, returnsConsumed, ip.bad
	}
	for _, f := range fns {
		if p.lexers[f] || p.tokReads[f] || f.Name() == "Parse" && f.Signature.Recv() != nil || !p.mayRead(f, map[*ssa.Function]bool{}) || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		lex := false
		for _, pa := range f.Params {
			if pt, ok := pa.Type().(*types.Pointer); ok && types.Identical(pt.Elem(), p.reader) {
				lex = true
			}
		}
		if lex {
			continue
		}
		n++
		ok, msg := true, ""
		for _, ints := range p.constArgs(f) {
			_, c, bad := explore(f, false, ints)
			if bad != "" {
				ok, msg = false, "not decided: "+bad
			} else if c {
				ok, msg = false, "the function may return although it has read the token for the end of the text"
			}
		}
		r.ob(ok, "unfinished", fname(f), a.p.pos(f.Pos()), msg)
	}
	r.count("functions that read tokens", n)
	r.atLeast("functions that read tokens", 15)
}

func hasEnd(args []AV) bool {
	for _, x := range args {
		if x.K == 'p' && x.S == "endtoken" {
			return true
		}
	}
	return false
}

func basicParams(g *ssa.Function) bool {
	for _, pa := range g.Params {
		if _, ok := pa.Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return true
}

// constArgs are the combinations of constant integers that f is called with, by the index of the parameter.
func (p *parseCtx) constArgs(f *ssa.Function) []map[int]int64 {
	if r, ok := p.argMemo[f]; ok {
		return r
	}
	p.argMemo[f] = []map[int]int64{{}} // for recursion
	r := p.constArgs1(f)
	p.argMemo[f] = r
	return r
}

// constCall are the combinations of constant arguments of one call. A parameter that is passed on has the values that
// the caller is called with.
func (p *parseCtx) constCall(g *ssa.Function, c *ssa.Call) []map[int]int64 {
	passed := false
	for _, x := range c.Call.Args {
		if pa, ok := x.(*ssa.Parameter); ok && isInteger(pa.Type()) {
			passed = true
		}
	}
	outer := []map[int]int64{{}}
	if passed {
		outer = p.constArgs(g)
	}
	var r []map[int]int64
	for _, o := range outer {
		m := map[int]int64{}
		for i, x := range c.Call.Args {
			switch x := x.(type) {
			case *ssa.Const:
				if x.Value != nil && x.Value.Kind() == constant.Int {
					m[i], _ = constant.Int64Val(x.Value)
				}
			case *ssa.Parameter:
				for k, pa := range g.Params {
					if v, ok := o[k]; ok && pa == x {
						m[i] = v
					}
				}
			}
		}
		r = append(r, m)
	}
	return r
}

// funcArgs are the combinations of functions that the calls of a function pass, by parameter. A parameter has no function
// when it isn't known.
func (p *parseCtx) funcArgs(f *ssa.Function) []map[int]*ssa.Function {
	takes := false
	for _, pa := range f.Params {
		if _, ok := pa.Type().Underlying().(*types.Signature); ok {
			takes = true
		}
	}
	none := []map[int]*ssa.Function{{}}
	if !takes {
		return none
	}
	var r []map[int]*ssa.Function
	seen := map[string]bool{}
	for _, g := range p.a.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != f {
					continue
				}
				m, key := map[int]*ssa.Function{}, ""
				for i, x := range c.Common().Args {
					x = stripType(x)
					if mc, ok := x.(*ssa.MakeClosure); ok && len(mc.Bindings) == 0 {
						x = mc.Fn
					}
					if fn, ok := x.(*ssa.Function); ok {
						m[i] = fn
						key += fmt.Sprint(i, fn.String(), " ")
					}
				}
				if !seen[key] {
					seen[key] = true
					r = append(r, m)
				}
			}
		}
	}
	if len(r) == 0 {
		return none
	}
	return r
}

func stripType(v ssa.Value) ssa.Value {
	for {
		x, ok := v.(*ssa.ChangeType)
		if !ok {
			return v
		}
		v = x.X
	}
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (p *parseCtx) constArgs1(f *ssa.Function) []map[int]int64 {
	var r []map[int]int64
	seen := map[string]bool{}
	for _, g := range p.a.p.Funcs {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != f {
					continue
				}
				for _, m := range p.constCall(g, c) {
					if k := fmt.Sprint(m); !seen[k] {
						seen[k] = true
						r = append(r, m)
					}
				}
			}
		}
	}
	if len(r) == 0 {
		r = append(r, map[int]int64{})
	}
	return r
}
