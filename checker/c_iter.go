package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: iteration visits each element once, in order, and quantifiers answer as their name says.
//
// Each method is interpreted with a receiver whose content is symbolic. The callback is a symbol too: what it is given,
// and the order of that, is recorded in the state of each path together with what it answered. Loops are followed until
// the fourth turn.

type iterSpec struct {
	part string // what is visited: entry, key or value
	rule string
}

var arrayIter = map[string]iterSpec{
	"All": {"value", "all"}, "Any": {"value", "any"}, "One": {"value", "one"}, "Each": {"value", "each"}, "EachWithIndex": {"value", "each"},
	"Find": {"value", "findmapped"}, "Select": {"value", "select"}, "Reject": {"value", "reject"}, "Map": {"value", "map"}, "Reduce": {"value", "reduce"},
	"InterfaceSlice": {"value", "list"},
}

var mapIter = map[string]iterSpec{
	"All": {"entry", "all"}, "AllKeys": {"key", "all"}, "AllValues": {"value", "all"},
	"Any": {"entry", "any"}, "AnyKey": {"key", "any"}, "AnyValue": {"value", "any"},
	"Each": {"entry", "each"}, "EachEntry": {"entry", "each"}, "EachKey": {"key", "each"}, "EachValue": {"value", "each"},
	"Find": {"entry", "find"}, "Map": {"entry", "mapmap"}, "Keys": {"key", "list"}, "Values": {"value", "list"},
}

// seqs adds slices that are built element by element to an interpreter. A created slice is a symbol that starts with @,
// its length is kept as its field #len.
func seqs(ip *interp) func(st *ist, c ssa.CallInstruction, args []AV) ([]iout, bool) {
	n := 0
	intern := map[string]string{}
	seq := func(st *ist, l []AV, t types.Type) AV {
		k := fmt.Sprint(l)
		id, ok := intern[k]
		if !ok {
			n++
			id = fmt.Sprintf("@seq%d", n)
			intern[k] = id
		}
		for i, v := range l {
			st.mem[fmt.Sprintf("%s[%d]", id, i)] = v
		}
		st.mem[id+".#len"] = ip.integer(int64(len(l)), types.Typ[types.Int])
		return AV{K: 's', S: id, T: canonOrNil(t)}
	}
	ip.made = func(st *ist, in *ssa.MakeSlice) (AV, bool) {
		id := fmt.Sprintf("@make:%s#%d:%s", fname(in.Parent()), len(ip.stack), in.Name())
		id = fmt.Sprintf("%s~%d", id, st.tally("#new:"+id))
		st.mem[id+".#len"] = ip.val(st, in.Len)
		return AV{K: 's', S: id, T: canonOrNil(in.Type())}, true
	}
	ip.slice = func(st *ist, in *ssa.Slice, x AV) (AV, bool) {
		if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok && x.K == 'p' && in.Low == nil && in.High != nil {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				if hi, ok := ip.intOf(ip.val(st, in.High)); ok && hi <= at.Len() {
					// this is what make with a constant size is
					var l []AV
					for i := int64(0); i < hi; i++ {
						l = append(l, AV{K: 'n'})
					}
					return seq(st, l, in.Type()), true
				}
			}
		}
		if x.K != 's' {
			return AV{}, false
		}
		if _, ok := in.X.Type().Underlying().(*types.Slice); !ok {
			return AV{}, false
		}
		lo, known := int64(0), true
		if in.Low != nil {
			lo, known = ip.intOf(ip.val(st, in.Low))
		}
		if !known {
			return AV{}, false
		}
		if strings.HasPrefix(x.S, "@") {
			hi, ok := ip.intOf(st.mem[x.S+".#len"])
			if in.High != nil {
				hi, ok = ip.intOf(ip.val(st, in.High))
			}
			if !ok || lo > hi || hi > 100 {
				return AV{}, false
			}
			var l []AV
			for i := lo; i < hi; i++ {
				v, ok := st.mem[fmt.Sprintf("%s[%d]", x.S, i)]
				if !ok {
					v = AV{K: 'n'}
				}
				l = append(l, v)
			}
			return seq(st, l, in.Type()), true
		}
		if in.High != nil {
			return AV{}, false
		}
		return AV{K: 's', S: offset(x.S, int(lo)), T: x.T}, true
	}
	ip.load = func(st *ist, path string, t types.Type) (AV, bool) {
		if m := offsetAt.FindStringSubmatch(path); m != nil {
			var o, i int
			fmt.Sscan(m[2], &o)
			fmt.Sscan(m[3], &i)
			return ip.read(st, fmt.Sprintf("%s[%d]%s", m[1], o+i, m[4]), t), true
		}
		if m := elemAt.FindStringSubmatch(path); m != nil {
			if _, ok := st.mem[path]; !ok {
				if src, ok := st.mem[m[1]+".#copy"]; ok {
					return ip.read(st, src.S+m[2], t), true
				}
			}
		}
		return AV{}, false
	}
	return func(st *ist, c ssa.CallInstruction, args []AV) ([]iout, bool) {
		b, ok := c.Common().Value.(*ssa.Builtin)
		if !ok || len(args) == 0 {
			return nil, false
		}
		switch b.Name() {
		case "len":
			if v, ok := st.mem[args[0].S+".#len"]; ok && args[0].K == 's' {
				return []iout{{st: st, res: []AV{v}}}, true
			}
		case "copy":
			if len(args) == 2 && strings.HasPrefix(args[0].S, "@") && args[1].K == 's' {
				if _, ok := st.mem[args[0].S+".#len"]; ok {
					st.mem[args[0].S+".#copy"] = args[1]
				}
			}
			return nil, false
		case "append":
			if len(args) != 2 {
				return nil, false
			}
			x, xok := ip.list(st, args[0])
			y, yok := ip.list(st, args[1])
			if xok && yok {
				v := seq(st, append(append([]AV{}, x...), y...), c.Common().Signature().Results().At(0).Type())
				return []iout{{st: st, res: []AV{v}}}, true
			}
		}
		return nil, false
	}
}

var elemAt = regexp.MustCompile(`^(@(?:make|seq)[^\[\]]*)(\[\d+\].*)$`)

var offsetAt = regexp.MustCompile(`^(.*)«(\d+)»\[(\d+)\](.*)$`)

// offset is the path of a slice that starts n elements later.
func offset(path string, n int) string {
	if n == 0 {
		return path
	}
	if i := strings.LastIndex(path, "«"); i >= 0 && strings.HasSuffix(path, "»") {
		var o int
		fmt.Sscan(path[i+len("«"):], &o)
		return offset(path[:i], o+n)
	}
	return fmt.Sprintf("%s«%d»", path, n)
}

func (ip *interp) intOf(v AV) (int64, bool) {
	if v.K != 'c' {
		return 0, false
	}
	k := ip.consts[v.S]
	if k == nil || k.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(k)
}

// list is what a slice contains, if that is known.
func (ip *interp) list(st *ist, v AV) ([]AV, bool) {
	n := int64(-1)
	switch {
	case v.K == 'n':
		return nil, true
	case v.K == 'p':
		if k, ok := ip.arrays[v.S]; ok {
			n = k
		}
	case v.K == 's' && strings.HasPrefix(v.S, "@"):
		if _, ok := st.mem[v.S+".#copy"]; ok {
			return nil, false
		}
		if k, ok := ip.intOf(st.mem[v.S+".#len"]); ok {
			n = k
		}
	}
	if n < 0 || n > 100 {
		return nil, false
	}
	var l []AV
	for i := int64(0); i < n; i++ {
		x, ok := st.mem[fmt.Sprintf("%s[%d]", v.S, i)]
		if !ok {
			x = AV{K: 'n'}
		}
		l = append(l, x)
	}
	return l, true
}

// filled is what was stored in a slice, from the first element to the last that was stored.
func (ip *interp) filled(st *ist, v AV) []AV {
	var l []AV
	for i := 0; i < 100; i++ {
		x, ok := st.mem[fmt.Sprintf("%s[%d]", v.S, i)]
		if !ok {
			break
		}
		l = append(l, x)
	}
	return l
}

// links are the fields that connect an entry with others.
var links = map[string]bool{".next": true, ".prev": true, ".hashNext": true}

// describe tells what a value is made from. Created entries and strings are described by their content.
func (ip *interp) describe(st *ist, v AV, d int) string {
	if v.K != 'p' || !strings.HasPrefix(v.S, "@") || d > 3 {
		return v.S
	}
	var ks []string
	for k := range st.mem {
		if strings.HasPrefix(k, v.S+".") && !links[k[strings.LastIndex(k, "."):]] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteByte('{')
	for _, k := range ks {
		if x := st.mem[k]; x.K != 'n' && x.K != 0 {
			fmt.Fprintf(&sb, "%s:%s ", strings.TrimPrefix(k[len(v.S):], ".mapEntry"), ip.describe(st, x, d+1))
		}
	}
	sb.WriteByte('}')
	return sb.String()
}

var (
	iterElem  = regexp.MustCompile(`v\.slice\[(\d+)\]`)
	iterNode  = regexp.MustCompile(`v\.first((?:\.next)*)(?:\.mapEntry)?(\.key|\.value)?`)
	iterField = regexp.MustCompile(`Field\([^()]*(?:\([^()]*\)[^()]*)*,cInt:(\d+)\)(\.Name)?`)
)

// element tells which element of the receiver a description is about: its position and what of it.
func element(desc string) (pos int, part string) {
	pos = -1
	see := func(p int, what string) {
		if pos >= 0 && pos != p {
			pos = -2
		}
		if pos == -1 {
			pos = p
		}
		switch {
		case part == "" || part == what:
			part = what
		default:
			part = "entry"
		}
	}
	num := func(s string) (n int) { fmt.Sscan(s, &n); return }
	for _, m := range iterElem.FindAllStringSubmatch(desc, -1) {
		see(num(m[1]), "value")
	}
	for _, m := range iterNode.FindAllStringSubmatch(desc, -1) {
		what := strings.TrimPrefix(m[2], ".")
		if what == "" {
			what = "entry"
		}
		see(len(m[1])/len(".next"), what)
	}
	for _, m := range iterField.FindAllStringSubmatch(desc, -1) {
		what := "value"
		if m[2] != "" {
			what = "key"
		}
		see(num(m[1]), what)
	}
	return
}

// atMost is the greatest number of elements that the receiver may have in st, -1 if any.
func (ip *interp) atMost(st *ist) int {
	ub := -1
	bound := func(n int) {
		if ub < 0 || n < ub {
			ub = n
		}
	}
	size := func(v AV) (off int, ok bool) {
		s := v.S
		switch {
		case v.K != 's':
			return 0, false
		case s == "v.len" || strings.Contains(s, "NumField("):
			return 0, true
		case strings.HasPrefix(s, "len(v.slice"):
			s = strings.TrimSuffix(strings.TrimPrefix(s, "len("), ")")
			if s == "v.slice" {
				return 0, true
			}
			if i := strings.Index(s, "«"); i > 0 {
				fmt.Sscan(s[i+len("«"):], &off)
				return off, s[:i] == "v.slice"
			}
		}
		return 0, false
	}
	for k, b := range st.rel {
		if p, ok := strings.CutPrefix(k, "nil:"); ok && b && iterList.MatchString(p) {
			bound(strings.Count(p, ".next"))
		}
		r, ok := ip.rels[k]
		if !ok {
			continue
		}
		for i := 0; i < 2; i++ {
			x, y := r.x, r.y
			if i == 1 {
				x, y = y, x
			}
			off, ok := size(y)
			n, isC := ip.intOf(x)
			switch {
			case x.K == 'n' && y.K == 's' && r.op == token.EQL && b && iterList.MatchString(y.S):
				bound(strings.Count(y.S, ".next"))
			case !ok || !isC:
			case r.op == token.EQL && b:
				bound(int(n) + off)
			case r.op == token.LSS && i == 0 && !b: // !(n < size)
				bound(int(n) + off)
			case r.op == token.LSS && i == 1 && b: // size < n
				bound(int(n) + off - 1)
			}
		}
	}
	return ub
}

var iterList = regexp.MustCompile(`^v\.first(\.next)*$`)

type iterCall struct {
	args []AV
	desc []string
}

// iterRun interprets f, a method of t.
func iterRun(a *Analysis, f *ssa.Function, t types.Type, sp iterSpec) (bad []string, outcomes, longest int, undecided string) {
	ip := newInterp(a)
	ip.uniq, ip.turns, ip.many, ip.copies = true, 4, 200, true
	stop := map[string]bool{"internal.Value": true, "internal.ValueFromReflected": true, "internal.frozenCopy": true, "internal.equals": true, "internal.hash": true, "internal.deepHashCode": true}
	ip.inline = func(g *ssa.Function) bool { return a.p.inModule(g) && !stop[fname(g)] }
	calls := map[string]iterCall{}
	sq := seqs(ip)
	ip.call = func(st *ist, c ssa.CallInstruction, g *ssa.Function, args []AV) ([]iout, bool) {
		if outs, ok := sq(st, c, args); ok {
			return outs, true
		}
		cc := c.Common()
		if g != nil && fname(g) == "(*internal.hashMap).Put" && len(args) == 3 {
			// a new entry at the end
			at := args[0].S + ".first"
			for st.mem[at].K == 'p' {
				at = st.mem[at].S + ".next"
			}
			nd := fmt.Sprintf("@put~%d", st.tally("#new:put"))
			st.mem[at] = AV{K: 'p', S: nd}
			st.mem[nd+".mapEntry.key"], st.mem[nd+".mapEntry.value"] = args[1], args[2]
			return []iout{{st: st, res: []AV{{K: 'n'}}}}, true
		}
		if _, ok := cc.Value.(*ssa.Builtin); ok || cc.IsInvoke() {
			return nil, false
		}
		if fv := ip.val(st, cc.Value); fv.K != 's' || fv.S != "callback" {
			return nil, false
		}
		n := st.tally("#calls") - 1
		ic := iterCall{args: args}
		for _, x := range args {
			ic.desc = append(ic.desc, ip.describe(st, x, 0))
		}
		k := fmt.Sprint(ic.desc)
		calls[k] = ic
		st.mem[fmt.Sprint("#call:", n)] = AV{K: 't', S: k}
		var res []AV
		for i := 0; i < cc.Signature().Results().Len(); i++ {
			res = append(res, ip.typed(st, AV{K: 's', S: fmt.Sprintf("answer%d;", n)}, cc.Signature().Results().At(i).Type()))
		}
		return []iout{{st: st, res: res}}, true
	}
	st := newIst()
	st.dyn["v"] = t
	args := []AV{{K: 's', S: "v", T: t}}
	for _, q := range f.Params[1:] {
		if _, ok := q.Type().Underlying().(*types.Signature); ok {
			args = append(args, AV{K: 's', S: "callback"})
		} else {
			args = append(args, AV{K: 's', S: "arg"})
		}
	}
	set := map[string]bool{}
	for _, out := range ip.run(f, args, st) {
		if out.exit {
			continue
		}
		outcomes++
		n := 0
		for {
			if _, ok := out.st.mem[fmt.Sprint("#call:", n)]; !ok {
				break
			}
			n++
		}
		if n > longest {
			longest = n
		}
		answer := func(o *ist, j int) (bool, bool) {
			return ip.boolOf(o, AV{K: 's', S: fmt.Sprintf("answer%d;", j)})
		}
		var ics []iterCall
		for j := 0; j < n; j++ {
			ics = append(ics, calls[out.st.mem[fmt.Sprint("#call:", j)].S])
		}
		ub := ip.atMost(out.st)
		say := func(f string, x ...interface{}) { set[fmt.Sprintf(f, x...)] = true }
		// the order
		okOrder := true
		for j, ic := range ics {
			e := 0
			if sp.rule == "reduce" {
				e = 1
			}
			if e >= len(ic.desc) {
				continue
			}
			d := ic.desc[e]
			if sp.rule == "mapmap" || sp.rule == "map" {
				d = answers.ReplaceAllString(d, "")
			}
			pos, part := element(d)
			if pos != j || part != sp.part && !(sp.rule == "mapmap" && part != "") {
				say("call %d is given %s, which isn't the %s at position %d", j+1, ic.desc[e], sp.part, j)
				okOrder = false
				break
			}
			if len(ic.args) == 2 && sp.rule == "each" {
				if i, ok := ip.intOf(ic.args[1]); !ok || int(i) != j {
					say("call %d is given an index other than %d", j+1, j)
				}
			}
		}
		if !okOrder {
			continue
		}
		end := ub >= 0 && ub <= n
		all := func(rule string) {
			if !end {
				say("%s after %d elements, without having found that there are no more", rule, n)
			}
		}
		var res AV
		if len(out.res) > 0 {
			res = out.res[0]
		}
		switch sp.rule {
		case "each":
			all("it ends")
		case "all", "any", "one":
			cases := []bool{true, false}
			if b, known := ip.boolOf(out.st, res); known {
				cases = []bool{b}
			}
			for _, b := range cases {
				o := out.st.clone()
				ip.assume(o, res, b)
				yes, no, open := 0, 0, 0
				for j := 0; j < n; j++ {
					switch v, known := answer(o, j); {
					case !known:
						open++
					case v:
						yes++
					default:
						no++
					}
				}
				ok := false
				switch {
				case sp.rule == "all" && b:
					ok = end && yes == n
				case sp.rule == "all":
					ok = no > 0
				case sp.rule == "any" && b:
					ok = yes > 0
				case sp.rule == "any":
					ok = end && no == n
				case b:
					ok = end && yes == 1 && open == 0
				default:
					ok = yes > 1 || end && yes == 0 && open == 0
				}
				if !ok {
					say("it answers %v after %d elements of which %d satisfied the predicate and %d did not (all elements: %v)", b, n, yes, no, end)
				}
			}
		case "find", "findmapped":
			first, open := -1, false
			for j := 0; j < n && first < 0; j++ {
				v, known := answer(out.st, j)
				if sp.rule == "findmapped" {
					v, known = out.st.rel[fmt.Sprintf("nil:answer%d;", j)]
					if r, ok := out.st.rel[relAV(token.EQL, AV{K: 'n'}, AV{K: 's', S: fmt.Sprintf("answer%d;", j)}, nil).S]; ok {
						v, known = r, true
					}
					v = !v
				}
				if !known {
					open = true
				} else if v {
					first = j
				}
			}
			switch {
			case open:
				say("the answer for an element is ignored")
			case first < 0:
				if res.K != 'n' {
					say("it returns %s though nothing was found", res)
				}
				all("it returns nothing")
			case sp.rule == "find" && res.S != ics[first].args[0].S, sp.rule == "findmapped" && res.S != fmt.Sprintf("answer%d;", first):
				say("it returns %s when the element at position %d is found", res, first)
			}
		case "select", "reject":
			all("it ends")
			var want []int
			open := false
			for j := 0; j < n; j++ {
				v, known := answer(out.st, j)
				if !known {
					open = true
				}
				if v == (sp.rule == "select") {
					want = append(want, j)
				}
			}
			got, ok := ip.arrayContent(out.st, res, n)
			switch {
			case open:
				say("the answer for an element is ignored")
			case !ok:
				say("it isn't known what the result contains")
			default:
				var l []int
				for _, d := range got {
					p, _ := element(d)
					l = append(l, p)
				}
				if fmt.Sprint(l) != fmt.Sprint(want) {
					say("the result contains the elements at positions %v, not those at %v", l, want)
				}
			}
		case "list", "map":
			got, ok := ip.arrayContent(out.st, res, ub)
			switch {
			case !ok:
				say("it isn't known what the result contains")
			case ub < 0 || len(got) != ub:
				say("the result has %d elements when the number of elements is at most %d", len(got), ub)
			}
			for j, d := range got {
				if sp.rule == "map" {
					if m := answers.FindAllString(d, -1); len(m) == 0 || m[0] != fmt.Sprintf("answer%d;", j) {
						say("the result has %s at position %d", d, j)
					}
					continue
				}
				if pos, part := element(d); pos != j || part != sp.part {
					say("the result has %s at position %d", d, j)
				}
			}
		case "reduce":
			all("it ends")
			for j := 0; j <= n; j++ {
				d := ip.describe(out.st, res, 0)
				if j < n {
					d = ics[j].desc[0]
				}
				if j == 0 {
					if !strings.Contains(d, "arg") || strings.Contains(d, "answer") {
						say("the first memo is %s", d)
					}
				} else if m := answers.FindAllString(d, -1); len(m) == 0 || m[0] != fmt.Sprintf("answer%d;", j-1) {
					say("memo %d is %s", j+1, d)
				}
			}
		case "mapmap":
			if n == 0 && ub < 0 {
				all("it ends")
			}
			first, ok := out.st.mem[res.S+".first"]
			if !ok {
				first = AV{K: 'n'}
			}
			j := 0
			for ; first.K == 'p' && j < 10; j++ {
				field := func(s string) string { return ip.describe(out.st, out.st.mem[first.S+".mapEntry."+s], 0) }
				if p, part := element(field("key")); p != j || part != "key" {
					say("the result has the key %s at position %d", field("key"), j)
				}
				if m := answers.FindAllString(field("value"), -1); len(m) == 0 || m[0] != fmt.Sprintf("answer%d;", j) {
					say("the result has the value %s at position %d", field("value"), j)
				}
				nx, ok := out.st.mem[first.S+".next"]
				if !ok {
					nx = AV{K: 'n'}
				}
				first = nx
			}
			if first.K != 'n' || j != n {
				say("the result has %d entries, and %d were mapped", j, n)
			}
			all("it ends")
		}
	}
	for s := range set {
		bad = append(bad, s)
	}
	sort.Strings(bad)
	return bad, outcomes, longest, ip.bad
}

var answers = regexp.MustCompile(`answer\d+;`)

// arrayContent describes the elements of an array or a slice. What is beyond n elements isn't known to exist.
func (ip *interp) arrayContent(st *ist, v AV, n int) ([]string, bool) {
	if v.S == "v" {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("v.slice[%d]", i))
		}
		return l, true
	}
	s := v
	if v.K == 'p' {
		var ok bool
		if s, ok = st.mem[v.S+".slice"]; !ok {
			s = AV{K: 'n'}
		}
	}
	l, ok := ip.list(st, s)
	if !ok {
		if s.K != 's' || !strings.HasPrefix(s.S, "@make") {
			return nil, false
		}
		l = ip.filled(st, s)
	}
	var ds []string
	for _, x := range l {
		ds = append(ds, ip.describe(st, x, 0))
	}
	return ds, true
}

func checkC09(a *Analysis, r *Report) {
	p := a.p
	r.Rules = []string{
		"order: the n-th call of the callback is given the element (entry, key, or value) at position n, and its index if it takes one",
		"complete: an iteration ends normally, and a quantifier gives an answer that is about all elements, only after as many calls as there are elements",
		"answer: All, Any, One, Find, Select, Reject, Map, and Reduce return what follows from the answers of the callback, on every path",
	}
	for _, k := range []struct {
		iface string
		specs map[string]iterSpec
	}{{"Array", arrayIter}, {"Map", mapIter}} {
		var names []string
		for n := range k.specs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, t := range p.implementers(p.iface(k.iface)) {
			for _, n := range names {
				f := p.methodOf(t, n)
				if f == nil || f.Blocks == nil || f.Synthetic != "" || embedDepth(p, t, n) > 0 {
					continue
				}
				bad, outs, longest, und := iterRun(a, f, t, k.specs[n])
				if und != "" {
					bad = append(bad, "cannot be decided: "+und)
				}
				r.count("methods", 1)
				r.count("outcomes", outs)
				if outs == 0 || longest == 0 && k.specs[n].rule != "list" {
					bad = append(bad, "nothing is visited")
				}
				if len(bad) > 4 {
					bad = bad[:4]
				}
				r.ob(len(bad) == 0, k.specs[n].rule, fname(f), p.pos(f.Pos()), fname(f)+": "+strings.Join(bad, "; "))
			}
		}
	}
	r.atLeast("methods", 36)
	r.Assumptions = append(r.Assumptions,
		"loops are followed up to the fourth element, what happens for later elements is the same",
		"the linked list and the length of a map agree (C05), and a callback doesn't change the collection that is iterated")
}
