package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: a map has one entry per key, and its table, its list and its length describe the same entries.
//
// Every function that changes the structure of a hash map is interpreted, with helpers inlined, on a symbolic heap: the
// content of each memory cell that is read before it is written is a symbol that is named after the cell. On each path
// the difference between the heap before and after must be explained by entries that were added at the end, entries that
// were taken out, or a structure that was built anew, and each of these must be complete.

type mapHeap struct {
	a          *Analysis
	ip         *interp
	sameHash   bool // all keys have the same hash
	node       map[string]string
	origin     map[string]string
	ixs        map[string][2]AV
	ixID       map[string]string
	nodeT      types.Type
	tableT     types.Type
	mapT       types.Type
	closure    map[*ssa.Function]bool
	mentions   map[*ssa.Function]bool
	entered    map[*ssa.Function]bool
	set        map[string]bool
	results    []AV
	forms      map[string]map[*ssa.Function]bool
	root       *ssa.Function
	havocs     int
	impossible bool
	added      int
	removed    int
	rebuilt    int
	summaries  map[string]bool
}

func (h *mapHeap) say(f string, x ...interface{}) { h.set[fmt.Sprintf(f, x...)] = true }

func (h *mapHeap) sym(path string) string {
	if s, ok := h.node[path]; ok {
		return s
	}
	s := fmt.Sprintf("n%d", len(h.node)+1)
	h.node[path] = s
	h.origin[s] = path
	return s
}

// keyOf strips copying from the name of a key.
func keyOf(s string) string {
	for {
		t, ok := strings.CutPrefix(s, "frozen(")
		if !ok {
			return s
		}
		s = strings.TrimSuffix(t, ")")
	}
}

func (h *mapHeap) eq(x, y AV) AV {
	a, b := keyOf(x.S), keyOf(y.S)
	if a == b {
		return h.ip.boolean(true)
	}
	if a > b {
		a, b = b, a
	}
	return AV{K: 's', S: "eq:" + a + "~" + b, T: types.Typ[types.Bool]}
}

func (h *mapHeap) unequal(st *ist, x, y string) bool {
	v, known := h.ip.boolOf(st, h.eq(AV{K: 's', S: x}, AV{K: 's', S: y}))
	return known && !v
}

func (h *mapHeap) isNil(st *ist, v AV) bool {
	if v.K == 'n' {
		return true
	}
	b, ok := h.nilness(st, v)
	return ok && b
}

func (h *mapHeap) notNil(st *ist, v AV) bool {
	if v.K == 'p' {
		return true
	}
	b, ok := h.nilness(st, v)
	return ok && !b
}

func (h *mapHeap) nilness(st *ist, v AV) (bool, bool) {
	if v.K != 's' {
		return false, false
	}
	if b, ok := st.rel["nil:"+v.S]; ok {
		return b, true
	}
	b, ok := st.rel[relAV(token.EQL, AV{K: 'n'}, v, nil).S]
	return b, ok
}

func freshAV(v AV) bool { return (v.K == 'p' || v.K == 's') && strings.HasPrefix(v.S, "@") }

func sameAV(x, y AV) bool { return x.K == y.K && x.S == y.S }

// rightSlot tells if ix is where entries with the given key belong in table t.
func (h *mapHeap) rightSlot(st *ist, t AV, ix, key string) bool {
	d, ok := h.ixs[ix]
	if !ok {
		return false
	}
	hc := "hc(" + keyOf(key) + ")"
	if h.sameHash {
		hc = "hc()"
	}
	size := AV{K: 's', S: "len(" + t.S + ")"}
	if v, ok := st.mem[t.S+".#len"]; ok {
		size = v
	}
	for i := 0; i < 2; i++ {
		x, y := d[i], d[1-i]
		if !strings.Contains(y.S, hc) {
			continue
		}
		form := strings.ReplaceAll(y.S, hc, "H")
		if r, ok := h.ip.rels[x.S]; ok && r.op == token.SUB && sameAV(AV{K: r.x.K, S: r.x.S}, AV{K: size.K, S: size.S}) {
			if n, ok := h.ip.intOf(r.y); ok && n == 1 {
				h.form(form)
				return true
			}
		}
		if n, ok := h.ip.intOf(x); ok {
			if l, ok := h.ip.intOf(size); ok && n == l-1 {
				h.form(form)
				return true
			}
		}
	}
	return false
}

// form notes how the slot is computed.
func (h *mapHeap) form(f string) {
	m := h.forms[f]
	if m == nil {
		m = map[*ssa.Function]bool{}
		h.forms[f] = m
	}
	m[h.root] = true
}

// linear splits a number in a symbol and a constant.
func (h *mapHeap) linear(v AV, d int) (string, int) {
	if n, ok := h.ip.intOf(v); ok {
		return "", int(n)
	}
	if r, ok := h.ip.rels[v.S]; ok && d < 20 && (r.op == token.ADD || r.op == token.SUB) {
		if n, ok := h.ip.intOf(r.y); ok {
			s, c := h.linear(r.x, d+1)
			if r.op == token.SUB {
				n = -n
			}
			return s, c + int(n)
		}
		if n, ok := h.ip.intOf(r.x); ok && r.op == token.ADD {
			s, c := h.linear(r.y, d+1)
			return s, c + int(n)
		}
	}
	return v.S, 0
}

// position tells which entry of which list a node is that existed from the start.
func (h *mapHeap) position(n string) (list string, pos int) {
	for i := 0; i < 50; i++ {
		o := h.origin[n]
		if m, ok := strings.CutSuffix(o, ".first"); ok {
			return m, pos
		}
		p, ok := strings.CutSuffix(o, ".next")
		if !ok {
			return "", 0
		}
		n = p
		pos++
	}
	return "", 0
}

func (h *mapHeap) read(st *ist, cell string) AV {
	t := h.nodeT
	if strings.HasSuffix(cell, ".table") {
		t = h.tableT
	}
	if strings.HasSuffix(cell, ".len") {
		t = types.Typ[types.Int]
	}
	return h.ip.read(st, cell, t)
}

func (h *mapHeap) keyAt(st *ist, n string) AV {
	return h.ip.read(st, n+".mapEntry.key", h.a.p.named("dgo", "Value"))
}

// check decides if the map at address m is consistent.
func (h *mapHeap) check(st *ist, m string, why string, explained map[string]bool) {
	base := st.mem[m+".#base"].S
	if base == "" && !strings.HasPrefix(m, "@") {
		base = m
	}
	first, last, table, size := h.read(st, m+".first"), h.read(st, m+".last"), h.read(st, m+".table"), h.read(st, m+".len")
	first0, last0, table0 := AV{K: 'n'}, AV{K: 'n'}, AV{K: 'n'}
	if base != "" {
		first0, last0, table0 = AV{K: 's', S: h.sym(base + ".first")}, AV{K: 's', S: h.sym(base + ".last")}, AV{K: 's', S: h.sym(base + ".table")}
	}
	for _, f := range []string{".first", ".last", ".table", ".len"} {
		explained[m+f] = true
	}
	bad := func(f string, x ...interface{}) {
		h.say("%s: %s", why, fmt.Sprintf(f, x...))
		dbgf("%s %s: %s\n  mem %v\n  rel %v\n  node %v", m, why, fmt.Sprintf(f, x...), st.mem, st.rel, h.node)
	}

	if base != "" {
		nn := h.notNil(st, first0) || h.notNil(st, last0)
		if nn && (h.isNil(st, first0) || h.isNil(st, last0) || h.isNil(st, table0)) {
			h.impossible = true // the map was consistent
			return
		}
	}
	if l, ok := strings.CutSuffix(size.S, ".len"); ok && base == "" && !h.escapes(st, m) &&
		h.node[l+".first"] == first.S && h.node[l+".last"] == last.S && h.node[l+".table"] == table.S {
		return // another name of a map, while the function runs
	}
	// the table
	slots := map[string]bool{}
	slot := func(cell string) {
		if s, ok := strings.CutPrefix(cell, table.S+"["); ok && strings.HasSuffix(s, "]") {
			slots[strings.TrimSuffix(s, "]")] = true
		}
	}
	for c := range st.mem {
		slot(c)
	}
	for c := range h.node {
		slot(c)
	}
	var ixs []string
	for s := range slots {
		ixs = append(ixs, s)
	}
	sort.Strings(ixs)
	in := map[string]string{} // the slot of each new entry in the table
	chains := map[string][]string{}
	var removed []string
	newTable := false
	switch {
	case table.K == 'n' || h.isNil(st, table):
	case base != "" && sameAV(AV{K: table.K, S: table.S}, table0):
		for _, ix := range ixs {
			cell := table.S + "[" + ix + "]"
			explained[cell] = true
			var old []string
			at := map[string]int{}
			for c := cell; ; {
				n, ok := h.node[c]
				if !ok || len(old) > 20 {
					break
				}
				at[n] = len(old)
				old = append(old, n)
				c = n + ".hashNext"
				explained[c] = true
			}
			cur := h.read(st, cell)
			pos := 0
			for i := 0; i < 40; i++ {
				if freshAV(cur) {
					if _, dup := in[cur.S]; dup {
						bad("an entry is twice in the table")
						break
					}
					in[cur.S] = ix
					chains[ix] = append(chains[ix], cur.S)
					if pos > 0 {
						// behind entries that were there
						pos = len(old)
					}
					cur = h.read(st, cur.S+".hashNext")
					continue
				}
				p, known := at[cur.S]
				if cur.K == 's' && !known {
					if o := h.origin[cur.S]; len(old) > 0 && o == old[len(old)-1]+".hashNext" || len(old) == 0 && o == cell {
						p, known = len(old), true
					}
				}
				if cur.K == 'n' {
					p, known = len(old), true
				}
				if !known || p < pos {
					bad("an entry of the table is followed by one from elsewhere")
					break
				}
				for _, o := range old[pos:p] {
					if !h.isNil(st, AV{K: 's', S: o}) {
						removed = append(removed, o)
						if !h.found(st, table, ix, o) {
							bad("an entry is taken out of the table that wasn't found to have the key that was looked for in its slot")
						}
					}
				}
				if p >= len(old) {
					break
				}
				chains[ix] = append(chains[ix], cur.S)
				pos = p + 1
				if pos == len(old) {
					// what follows wasn't looked at
					if _, w := st.mem[cur.S+".hashNext"]; !w {
						break
					}
				}
				cur = h.read(st, cur.S+".hashNext")
			}
		}
	case freshAV(table):
		newTable = true
		for _, ix := range ixs {
			cell := table.S + "[" + ix + "]"
			for cur := h.read(st, cell); cur.K != 'n'; cur = h.read(st, cur.S+".hashNext") {
				if !freshAV(cur) {
					bad("the table contains an entry of another table")
					break
				}
				if _, dup := in[cur.S]; dup {
					bad("an entry is twice in the table")
					break
				}
				in[cur.S] = ix
				chains[ix] = append(chains[ix], cur.S)
			}
		}
	default:
		bad("the table is shared with another map")
	}
	for n, ix := range in {
		if k := h.keyAt(st, n); !h.rightSlot(st, table, ix, k.S) {
			bad("an entry isn't put in the slot that belongs to its key")
		} else if !h.frozenKey(st, k) {
			bad("the key of a new entry isn't frozen")
		}
	}

	// the list
	empty := base == "" || h.isNil(st, first0) || h.isNil(st, last0) || h.isNil(st, table0)
	none := func(v AV) bool {
		return h.isNil(st, v) || empty && (sameAV(v, first0) || sameAV(v, last0))
	}
	same := func(x, y AV) bool { return sameAV(x, y) || none(x) && none(y) }
	var nodes []string
	walk := func(cur, prev AV) AV {
		for i := 0; !none(cur); i++ {
			if !freshAV(cur) || i > 40 {
				bad("the list contains an entry of another list")
				break
			}
			nodes = append(nodes, cur.S)
			if p := h.read(st, cur.S+".prev"); !same(p, prev) {
				bad("the link back to the previous entry of the list is wrong")
			}
			prev = cur
			cur = h.read(st, cur.S+".next")
		}
		return prev
	}
	if empty || newTable {
		tail := walk(first, AV{K: 'n'})
		if !same(last, tail) {
			bad("the end of the list isn't its last entry")
		}
		// entries that are copies of those of some list
		copies, from := 0, ""
		contiguous := true
		for _, n := range nodes {
			k := strings.TrimSuffix(h.keyAt(st, n).S, ".mapEntry.key")
			if _, ok := h.origin[k]; !ok {
				continue
			}
			l, pos := h.position(k)
			if l == "" {
				continue
			}
			if from != "" && l != from || pos != copies {
				contiguous = false
			}
			from = l
			copies++
		}
		s, c := h.linear(size, 0)
		if l, ok := strings.CutSuffix(s, ".len"); ok && h.isNil(st, AV{K: 's', S: h.sym(l + ".table")}) {
			s = ""
		}
		switch {
		case s == "" || empty && base != "" && s == base+".len":
			if c != len(nodes) {
				bad("the length is %d for %d entries", c, len(nodes))
			}
		case strings.HasSuffix(s, ".len"):
			// complete?
			l := strings.TrimSuffix(s, ".len")
			end := AV{K: 's', S: h.sym(l + ".first")}
			for i := 0; i < copies && from == l; i++ {
				end = AV{K: 's', S: h.sym(end.S + ".next")}
			}
			switch {
			case from != "" && from != l:
				bad("the length is that of another map")
			case !h.isNil(st, end):
				bad("the length is that of a map of which not all entries were copied")
			case !contiguous:
				bad("the entries aren't in the order of the map that they are copied from")
			case c != len(nodes)-copies:
				bad("the length grows by %d when %d entries are added", c, len(nodes)-copies)
			}
		default:
			bad("the length is unknown")
		}
		h.rebuilt++
	} else {
		wantFirst, wantLast := first0, last0
		for i, e := range removed {
			for _, o := range removed[:i] {
				for _, l := range []string{".prev", ".next"} {
					if h.isNil(st, AV{K: 's', S: h.sym(e + l)}) && h.isNil(st, AV{K: 's', S: h.sym(o + l)}) {
						h.impossible = true // only one of them can be first or last
						return
					}
				}
			}
		}
		for _, e := range removed {
			prev, next := AV{K: 's', S: h.sym(e + ".prev")}, AV{K: 's', S: h.sym(e + ".next")}
			switch {
			case h.isNil(st, prev):
				wantFirst = next
			case h.notNil(st, prev):
				explained[prev.S+".next"] = true
				if !same(h.read(st, prev.S+".next"), next) {
					bad("an entry is taken out of the table but not of the list (what precedes it isn't linked to what follows)")
				}
			default:
				bad("an entry is taken out of the table and stays in the list")
			}
			switch {
			case h.isNil(st, next):
				wantLast = prev
			case h.notNil(st, next):
				explained[next.S+".prev"] = true
				if !same(h.read(st, next.S+".prev"), prev) {
					bad("an entry is taken out of the table but not of the list (what follows isn't linked back to what precedes it)")
				}
			default:
				bad("an entry is taken out of the table and stays at the end of the list")
			}
		}
		if !same(first, wantFirst) {
			bad("the start of the list isn't its first entry")
		}
		added := h.read(st, last0.S+".next")
		if freshAV(added) {
			explained[last0.S+".next"] = true
			if !h.notNil(st, first0) && !h.notNil(st, last0) {
				bad("it isn't known if there is a last entry that is followed by the new one")
			}
			wantLast = walk(added, last0)
		}
		if !same(last, wantLast) {
			bad("the end of the list isn't its last entry")
		}
		s, c := h.linear(size, 0)
		if s != base+".len" || c != len(nodes)-len(removed) {
			bad("the length changes by %d (%s) when %d entries are added and %d taken out", c, s, len(nodes), len(removed))
		}
	}
	listed := map[string]bool{}
	for _, n := range nodes {
		if listed[n] {
			bad("an entry is twice in the list")
		}
		listed[n] = true
		if _, ok := in[n]; !ok {
			bad("an entry is in the list and not in the table")
		}
	}
	for n := range in {
		if !listed[n] {
			bad("an entry is in the table and not in the list")
		}
	}
	// one entry per key
	for n, ix := range in {
		k := h.keyAt(st, n)
		if o := strings.TrimSuffix(k.S, ".mapEntry.key"); h.origin[o] != "" {
			if l, _ := h.position(o); l != "" {
				continue // a copy
			}
		}
		h.added++
		if !newTable && !empty && !h.absent(st, table0, k.S) {
			bad("an entry is added without having found that the key is absent")
			continue
		}
		if newTable && table0.K == 's' && h.absent(st, table0, k.S) && !h.sharesSlot(st, chains[ix], n, k.S, true) {
			continue
		}
		if h.sharesSlot(st, chains[ix], n, k.S, false) {
			bad("an entry is added without having found that no other entry in its slot has that key")
		}
	}
	h.removed += len(removed)
}

// escapes tells if something that outlives the function refers to the allocation that some address is in.
func (h *mapHeap) escapes(st *ist, m string) bool {
	root := m
	if i := strings.LastIndex(m, "~"); i >= 0 {
		if j := strings.Index(m[i:], "."); j >= 0 {
			root = m[:i+j]
		}
	}
	if !strings.HasPrefix(m, "@") {
		return true
	}
	in := func(s string) bool { return s == root || strings.HasPrefix(s, root+".") }
	for k, v := range st.mem {
		if in(v.S) && !in(k) {
			return true
		}
	}
	for _, v := range h.results {
		if in(v.S) {
			return true
		}
	}
	return false
}

// sharesSlot tells if there is another new entry in a slot whose key isn't known to be different.
func (h *mapHeap) sharesSlot(st *ist, chain []string, n, key string, added bool) bool {
	for _, o := range chain {
		if o == n || h.origin[o] != "" {
			continue
		}
		ok := h.keyAt(st, o).S
		if added {
			if l, _ := h.position(strings.TrimSuffix(ok, ".mapEntry.key")); l != "" {
				continue // a copy
			}
		}
		if !h.unequal(st, key, ok) {
			return true
		}
	}
	return false
}

// absent tells if a key was found to be absent from a table that existed from the start.
func (h *mapHeap) absent(st *ist, t AV, key string) bool {
	for c := range h.node {
		ix, ok := strings.CutPrefix(c, t.S+"[")
		if !ok || !strings.HasSuffix(ix, "]") || !h.rightSlot(st, t, strings.TrimSuffix(ix, "]"), key) {
			continue
		}
		for cell := c; ; {
			n, ok := h.node[cell]
			if !ok {
				break
			}
			if h.isNil(st, AV{K: 's', S: n}) {
				return true
			}
			if !h.unequal(st, key, n+".mapEntry.key") {
				break
			}
			cell = n + ".hashNext"
		}
	}
	return false
}

// found tells if the key of an entry was found equal to some key that belongs in the slot.
func (h *mapHeap) found(st *ist, t AV, ix, n string) bool {
	k := n + ".mapEntry.key"
	for r, b := range st.rel {
		s, ok := strings.CutPrefix(r, "eq:")
		if !ok || !b {
			continue
		}
		x, y, _ := strings.Cut(s, "~")
		if y == k {
			x, y = y, x
		}
		if x == k && h.rightSlot(st, t, ix, y) {
			return true
		}
	}
	return false
}

func (h *mapHeap) frozenKey(st *ist, k AV) bool {
	if strings.HasPrefix(k.S, "frozen(") || strings.HasSuffix(k.S, ".mapEntry.key") || strings.HasPrefix(k.S, "Key(") {
		return true
	}
	fz := h.a.p.iface("Freezable")
	if k.T != nil && !types.Implements(k.T, fz) {
		return true
	}
	b, ok := st.rel["is:dgo.Freezable:"+k.S]
	return ok && !b
}

// havoc makes the content of a map unknown (and consistent).
func (h *mapHeap) havoc(st *ist, m AV) {
	h.havocs++
	base := fmt.Sprintf("changed%d", st.tally("#havoc"))
	st.mem[m.S+".#base"] = AV{K: 't', S: base}
	st.mem[m.S+".first"] = AV{K: 's', S: h.sym(base + ".first")}
	st.mem[m.S+".last"] = AV{K: 's', S: h.sym(base + ".last")}
	st.mem[m.S+".table"] = AV{K: 's', S: h.sym(base + ".table")}
	st.mem[m.S+".len"] = AV{K: 's', S: base + ".len"}
}

// havocIn makes the content of the maps in some memory unknown.
func (h *mapHeap) havocIn(st *ist, at AV, t types.Type) {
	if n, ok := types.Unalias(t).(*types.Named); ok && types.Identical(types.NewPointer(n), h.mapT) {
		h.havoc(st, at)
		return
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			h.havocIn(st, AV{K: 'p', S: at.S + "." + s.Field(i).Name()}, s.Field(i).Type())
		}
	}
}

// plain tells if a function is a formula of numbers.
func plain(f *ssa.Function) bool {
	if len(f.Blocks) != 1 || f.Signature.Recv() != nil {
		return false
	}
	for _, t := range []*types.Tuple{f.Signature.Params(), f.Signature.Results()} {
		for i := 0; i < t.Len(); i++ {
			if b, ok := t.At(i).Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
				return false
			}
		}
	}
	for _, in := range f.Blocks[0].Instrs {
		if _, ok := in.(ssa.CallInstruction); ok {
			return false
		}
	}
	return true
}

var structural = map[string]bool{".next": true, ".prev": true, ".hashNext": true, ".first": true, ".last": true, ".len": true, ".table": true, ".key": true}

func (h *mapHeap) run(f *ssa.Function, lookup bool) (outcomes int, undecided string) {
	ip := newInterp(h.a)
	h.ip, h.root = ip, f
	h.node, h.origin, h.ixs, h.ixID = map[string]string{}, map[string]string{}, map[string][2]AV{}, map[string]string{}
	ip.uniq, ip.turns, ip.many, ip.symIndex = true, 2, 1000, true
	ip.copies = true
	sq := seqs(ip)
	load := ip.load
	isT := func(t, u types.Type) bool { return types.Identical(t, u) }
	ip.load = func(st *ist, path string, t types.Type) (AV, bool) {
		if _, ok := st.mem[path]; !ok && !strings.HasPrefix(path, "@") && (isT(t, h.nodeT) || isT(t, h.tableT)) {
			return AV{K: 's', S: h.sym(path), T: canonOrNil(t)}, true
		}
		return load(st, path, t)
	}
	ip.binop = func(st *ist, in *ssa.BinOp, x, y AV) (AV, bool) {
		switch in.Op {
		case token.AND:
			if x.K == 'c' && y.K == 'c' {
				return AV{}, false
			}
			k := fmt.Sprint(x.K, x.S, "&", y.K, y.S)
			id, ok := h.ixID[k]
			if !ok {
				id = fmt.Sprintf("ix%d", len(h.ixID)+1)
				h.ixID[k] = id
				h.ixs[id] = [2]AV{x, y}
			}
			return AV{K: 's', S: id, T: canonOrNil(in.Type())}, true
		case token.EQL, token.NEQ:
			if _, ok := in.X.Type().Underlying().(*types.Interface); ok && x.K == 's' && y.K == 's' && (strings.HasSuffix(x.S, ".key") || strings.HasSuffix(y.S, ".key")) {
				r := h.eq(x, y)
				if in.Op == token.NEQ && r.K == 's' {
					r = not(r)
				}
				return r, true
			}
		}
		return AV{}, false
	}
	ip.inline = func(g *ssa.Function) bool { return h.a.p.inModule(g) && (h.closure[g] || h.mentions[g] || plain(g)) }
	ip.enter = func(st *ist, g *ssa.Function, args []AV) { h.entered[g] = true }
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		if outs, ok := sq(st, c, args); ok {
			return outs, true
		}
		cc := c.Common()
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return nil, false
		}
		name := ""
		switch {
		case cc.IsInvoke():
			name = cc.Method.Name()
		case g != nil:
			name = g.Name()
		}
		one := func(v AV) ([]iout, bool) { return []iout{{st: st, res: []AV{v}}}, true }
		switch {
		case (name == "HashCode" || name == "deepHashCode") && len(args) > 0:
			k := keyOf(args[len(args)-1].S)
			if name == "HashCode" {
				k = keyOf(args[0].S)
			}
			if h.sameHash {
				k = ""
			}
			return one(AV{K: 's', S: "hc(" + k + ")", T: types.Typ[types.Int]})
		case (name == "Equals" || name == "equals" || name == "deepEqual") && len(args) >= 2:
			x, y := args[len(args)-2], args[len(args)-1]
			if name == "deepEqual" {
				x = args[0]
			}
			return one(h.eq(x, y))
		case (name == "frozenCopy" || name == "FrozenCopy") && len(args) == 1:
			return one(AV{K: 's', S: "frozen(" + keyOf(args[0].S) + ")", T: args[0].T})
		}
		recvMap := len(args) > 0 && args[0].T != nil && isT(args[0].T, h.mapT)
		if g != nil && recvMap && g.Signature.Recv() != nil && g.Object() != nil && g.Object().Exported() {
			if mutators[name] {
				h.check(st, args[0].S, fmt.Sprintf("when %s is called", name), map[string]bool{})
				h.havoc(st, args[0])
				h.summaries[name] = true
				return nil2(ip, st, c, cc), true
			}
			fn := false
			for i := 0; i < g.Signature.Params().Len(); i++ {
				if _, ok := g.Signature.Params().At(i).Type().Underlying().(*types.Signature); ok {
					fn = true
				}
			}
			if !fn && name != "Len" {
				return nil2(ip, st, c, cc), true
			}
		}
		if !cc.IsInvoke() && g == nil {
			// a function that is given may do anything with what is passed to it
			for i, x := range cc.Args {
				if i < len(args) && args[i].K == 'p' {
					h.havocIn(st, args[i], deref(x.Type()))
				}
				if m, ok := x.(*ssa.MakeInterface); ok && i < len(args) && args[i].K == 'p' {
					h.havocIn(st, args[i], deref(m.X.Type()))
				}
			}
		}
		if cc.IsInvoke() && g == nil {
			// something that calls back for each of its elements
			for i, x := range args[1:] {
				if x.K != 'f' {
					continue
				}
				fn := ip.fns[x.S]
				if fn == nil || fn.Blocks == nil {
					continue
				}
				sts := []*ist{st}
				var outs []iout
				done := func(s *ist) {
					outs = append(outs, iout{st: s, res: revUnknown(ip, s, c, cc.Signature())})
				}
				for n := 0; n < 3; n++ {
					var next []*ist
					for _, s := range sts {
						done(s.clone())
						var as []AV
						for j := range fn.Params {
							as = append(as, AV{K: 's', S: fmt.Sprintf("%s%d:%d.%d", args[0].S, i, n, j)})
						}
						as = append(as, ip.binds[x.S]...)
						if n == 2 {
							continue
						}
						for _, o := range ip.run(fn, as, s) {
							if o.exit {
								outs = append(outs, o)
								continue
							}
							next = append(next, o.st)
						}
					}
					sts = next
				}
				return outs, true
			}
		}
		return nil, false
	}
	st := newIst()
	var args []AV
	for i, q := range f.Params {
		args = append(args, ip.typed(st, AV{K: 's', S: fmt.Sprint("a", i)}, q.Type()))
	}
	for _, out := range ip.run(f, args, st) {
		if out.exit {
			continue
		}
		outcomes++
		s := out.st
		if lookup {
			h.lookup(s, args[0], out.res)
			continue
		}
		h.results = out.res
		h.impossible = false
		all := h.set
		h.set = map[string]bool{}
		maps := map[string]bool{}
		for i, q := range f.Params {
			if isT(q.Type(), h.mapT) {
				maps[args[i].S] = true
			}
		}
		for k := range s.mem {
			if !strings.HasPrefix(k, "@") || !strings.Contains(k, "~") {
				continue // what is only used as a local variable is of interest when it is copied
			}
			for _, f := range []string{".first", ".last", ".table", ".len"} {
				if m, ok := strings.CutSuffix(k, f); ok {
					maps[m] = true
				}
			}
		}
		explained := map[string]bool{}
		var ms []string
		for m := range maps {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			h.check(s, m, "at the end", explained)
		}
		for k := range s.mem {
			if strings.HasPrefix(k, "@") || strings.HasPrefix(k, "#") || explained[k] {
				continue
			}
			i := strings.LastIndexAny(k, ".]")
			if i < 0 || !structural[k[i:]] && (k[i] != ']' || !strings.HasPrefix(k, "n") || h.origin[k[:strings.Index(k, "[")]] == "") {
				continue
			}
			if k[i:] == ".key" || h.origin[k[:i]] != "" || k[i] == ']' {
				h.say("at the end: %s of an existing entry or table is changed, which is neither adding nor taking out an entry", k[i:])
			}
		}
		for b := range h.set {
			if !h.impossible {
				all[b] = true
			}
		}
		h.set = all
	}
	return outcomes, ip.bad
}

// lookup decides if what was found for a key is in the slot of that key, and if something was.
func (h *mapHeap) lookup(st *ist, m AV, res []AV) {
	if len(res) != 1 {
		h.say("it isn't known what is found")
		return
	}
	table := AV{K: 's', S: h.sym(m.S + ".table")}
	n, ok := strings.CutSuffix(res[0].S, ".mapEntry.value")
	if ok && res[0].K == 's' {
		good := false
		for c := range h.node {
			ix, ok := strings.CutPrefix(c, table.S+"[")
			if !ok || !strings.HasSuffix(ix, "]") {
				continue
			}
			for i := 0; i < 20 && h.node[c] != ""; i++ {
				if h.node[c] == n && h.found(st, table, strings.TrimSuffix(ix, "]"), n) {
					good = true
				}
				c = h.node[c] + ".hashNext"
			}
		}
		if !good {
			h.say("the value of an entry is found that isn't in the slot of the key or has another key")
		}
		return
	}
	if !h.isNil(st, res[0]) {
		h.say("it isn't known what is found")
		return
	}
	if h.isNil(st, table) {
		return
	}
	// nothing is found
	is := func(op token.Token, x AV, n int64, want bool) bool {
		v, known := h.ip.boolOf(st, relAV(op, x, h.ip.integer(n, types.Typ[types.Int]), types.Typ[types.Bool]))
		return known && v == want
	}
	for _, x := range []AV{{K: 's', S: "len(" + table.S + ")"}, {K: 's', S: m.S + ".len"}} {
		if is(token.EQL, x, 0, true) || is(token.GTR, x, 0, false) || is(token.LSS, x, 1, true) {
			return
		}
		for s, r := range h.ip.rels {
			if n, ok := h.ip.intOf(r.y); ok && n == 1 && r.op == token.SUB && r.x.S == x.S {
				y := AV{K: 's', S: s}
				if is(token.LSS, y, 0, true) || is(token.GEQ, y, 0, false) || is(token.GTR, y, -1, false) || is(token.EQL, y, -1, true) {
					return
				}
			}
		}
	}
	for _, d := range h.ixs {
		for _, v := range d {
			if k := strings.Index(v.S, "hc("); k >= 0 {
				key, depth := v.S[k+3:], 1
				for i, c := range key {
					if c == '(' {
						depth++
					} else if c == ')' {
						if depth--; depth == 0 {
							key = key[:i]
							break
						}
					}
				}
				if h.absent(st, table, key) {
					return
				}
			}
		}
	}
	h.say("nothing is found although not all entries in the slot of the key have been compared")
}

// mapWriters finds the functions that change the structure of maps, and all that call them.
func (h *mapHeap) mapWriters() (writers map[*ssa.Function]bool) {
	p := h.a.p
	writers = map[*ssa.Function]bool{}
	h.closure, h.mentions = map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	nodeN, mapN, entryN := p.named("internal", "hashNode"), p.named("internal", "hashMap"), p.named("internal", "mapEntry")
	h.nodeT, h.mapT, h.tableT = types.NewPointer(nodeN), types.NewPointer(mapN), types.NewSlice(types.NewPointer(nodeN))
	is := func(t types.Type) bool {
		return types.Identical(t, h.nodeT) || types.Identical(t, h.mapT) || types.Identical(t, h.tableT)
	}
	fields := map[string]bool{"hashNode.next": true, "hashNode.prev": true, "hashNode.hashNext": true, "hashMap.first": true, "hashMap.last": true,
		"hashMap.len": true, "hashMap.table": true, "mapEntry.key": true}
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		if f.Blocks == nil {
			continue
		}
		for i := 0; i < f.Signature.Params().Len(); i++ {
			h.mentions[f] = h.mentions[f] || is(f.Signature.Params().At(i).Type())
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			h.mentions[f] = h.mentions[f] || is(f.Signature.Results().At(i).Type())
		}
		if rv := f.Signature.Recv(); rv != nil && is(rv.Type()) {
			h.mentions[f] = true
		}
		eachInstr([]*ssa.Function{f}, func(in ssa.Instruction) {
			switch in := in.(type) {
			case *ssa.Store:
				switch ad := in.Addr.(type) {
				case *ssa.FieldAddr:
					if n, ok := types.Unalias(deref(ad.X.Type())).(*types.Named); ok && (n == nodeN || n == mapN || n == entryN) && fields[n.Obj().Name()+"."+fieldVar(ad).Name()] {
						writers[f] = true
					}
				case *ssa.IndexAddr:
					if types.Identical(ad.X.Type(), h.tableT) {
						writers[f] = true
					}
				}
				if n, ok := types.Unalias(in.Val.Type()).(*types.Named); ok && (n == nodeN || n == mapN) {
					writers[f] = true
				}
			case *ssa.Alloc:
				if t := deref(in.Type()); t == types.Type(mapN) || t == types.Type(nodeN) {
					writers[f] = true
				}
			case ssa.CallInstruction:
				if g := in.Common().StaticCallee(); g != nil {
					calls[f] = append(calls[f], g)
				}
			case *ssa.MakeClosure:
				calls[f] = append(calls[f], in.Fn.(*ssa.Function))
			}
		})
		for _, an := range f.AnonFuncs {
			calls[f] = append(calls[f], an)
		}
	}
	for f := range writers {
		h.closure[f] = true
	}
	for changed := true; changed; {
		changed = false
		for f, gs := range calls {
			if h.closure[f] {
				continue
			}
			for _, g := range gs {
				if h.closure[g] && (g.Parent() != nil || g.Object() == nil || !g.Object().Exported()) {
					h.closure[f] = true
					changed = true
					break
				}
			}
		}
	}
	return writers
}

func checkC05(a *Analysis, r *Report) {
	p := a.p
	r.Rules = []string{
		"consistent: on every path of every function that changes the structure of a hash map, what is different afterwards is that entries were added to the end of the list and to the slot of their key, taken out of both, or that everything was built anew, and the length changed accordingly",
		"unique: an entry is added only when no entry with an equal key was found in the slot of its key",
		"found: a lookup finds the value of an entry with an equal key in the slot of that key, and finds nothing only when there is no such entry in that slot",
		"slot: the slot of a key is computed in the same way everywhere",
		"own: the entries and the table of a map are its own, and the key of an entry is frozen and never changes",
	}
	entered := map[*ssa.Function]bool{}
	h := &mapHeap{a: a, entered: entered, summaries: map[string]bool{}, forms: map[string]map[*ssa.Function]bool{}}
	writers := h.mapWriters()
	var roots []*ssa.Function
	for f := range h.closure {
		if f.Synthetic != "" || f.Parent() != nil || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		roots = append(roots, f)
	}
	sort.Slice(roots, func(i, j int) bool { return fname(roots[i]) < fname(roots[j]) })
	for _, f := range roots {
		set := map[string]bool{}
		outs := 0
		und := ""
		for _, same := range []bool{false, true} {
			h.set, h.sameHash = set, same
			o, u := h.run(f, false)
			outs += o
			if u != "" {
				und = u
			}
		}
		var bad []string
		for s := range set {
			bad = append(bad, s)
		}
		sort.Strings(bad)
		if und != "" {
			bad = append(bad, "cannot be decided: "+und)
		}
		if len(bad) > 4 {
			bad = bad[:4]
		}
		r.count("functions", 1)
		r.count("outcomes", outs)
		r.ob(len(bad) == 0, "consistent", fname(f), p.pos(f.Pos()), fname(f)+": "+strings.Join(bad, "; "))
	}
	for _, f := range p.Funcs {
		if rv := f.Signature.Recv(); rv == nil || !types.Identical(rv.Type(), h.mapT) || f.Name() != "Get" {
			continue
		}
		h.set, h.sameHash = map[string]bool{}, false
		outs, und := h.run(f, true)
		var bad []string
		for s := range h.set {
			bad = append(bad, s)
		}
		sort.Strings(bad)
		if und != "" {
			bad = append(bad, "cannot be decided: "+und)
		}
		r.count("outcomes of lookups", outs)
		r.ob(len(bad) == 0, "found", fname(f), p.pos(f.Pos()), fname(f)+": "+strings.Join(bad, "; "))
	}
	best := ""
	for f, m := range h.forms {
		if n := len(h.forms[best]); len(m) > n || len(m) == n && f > best {
			best = f
		}
	}
	for f, m := range h.forms {
		for g := range m {
			if f == best {
				r.ob(true, "slot", fname(g), p.pos(g.Pos()), "")
				continue
			}
			r.ob(false, "slot", fname(g), p.pos(g.Pos()), fmt.Sprintf("%s: the slot of a key is computed from its hash code H as %s, and elsewhere as %s", fname(g), f, best))
		}
	}
	var ws []*ssa.Function
	for f := range writers {
		ws = append(ws, f)
	}
	sort.Slice(ws, func(i, j int) bool { return fname(ws[i]) < fname(ws[j]) })
	callers := p.callersOf()
	for _, f := range ws {
		r.count("functions that change entries", 1)
		used := len(callers[f]) > 0 || f.Parent() != nil
		if f.Name() == "init" || f.Synthetic != "" || !used && !(f.Object() != nil && f.Object().Exported()) {
			continue
		}
		r.ob(entered[f], "covered", fname(f), p.pos(f.Pos()), fname(f)+" changes the structure of maps, and no analysed function leads there")
	}
	r.count("additions", h.added)
	r.count("removals", h.removed)
	r.count("rebuilt", h.rebuilt)
	r.atLeast("outcomes of lookups", 8)
	r.atLeast("functions", 12)
	r.atLeast("additions", 10)
	r.atLeast("removals", 4)
	r.atLeast("rebuilt", 20)
	r.Assumptions = append(r.Assumptions,
		"equal keys have equal hash codes (C06)",
		"loops are followed for two entries; two entries that were there from the start and were reached in different ways are different",
		"a callback doesn't change the map")
}
