package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["L04"] = checkL04 }

// L04: a piece of text is added to a content element that is already there only when everything that element's drawing
// depends on has been compared with what the new piece was to be drawn with.

type mergeSite struct {
	fn    *ssa.Function
	st    ssa.Instruction // the store, or the call that leads to it
	have  ssa.Value       // the element extended
	block *ssa.BasicBlock // where it is known which element that is
	from  *ssa.BasicBlock // predecessor, for an edge into block
	fresh []ssa.Value
}

// a function on the way from the place that extends the text to the one that chose the element
type level struct {
	fn  *ssa.Function
	at  ssa.Instruction
	ptr ssa.Value
}

type textMerge struct {
	levels []level
	p      *Prog
	res    *Result
	t      *types.Named
	text   string // the field that is extended
	used   map[string]types.Type
	set    map[string]bool // fields worked out again afterwards
	memo   map[*types.Named]string
}

func checkL04(p *Prog) *Result {
	res := newResult("must-equality facts: every field path the text element's drawing and measuring read must be compared equal on every path to the place where an existing element is extended",
		"two elements whose compared fields are equal draw alike; floating-point equality is exact", "the font file parsed behind a font object does not change while a document is built (F03)")
	it, _ := p.Root.Pkg.Scope().Lookup("ICacheContent").(*types.TypeName)
	if it == nil {
		res.add("anchor", "", "ICacheContent", "", "the interface of the content elements was not found")
		return res
	}
	iface, ok := it.Type().Underlying().(*types.Interface)
	if !ok {
		res.add("anchor", "", "ICacheContent", "", "not an interface")
		return res
	}
	sites := 0
	for _, n := range p.namedTypes() {
		if types.IsInterface(n) || !(types.Implements(types.NewPointer(n), iface) || types.Implements(n, iface)) || structOf(n) == nil {
			continue
		}
		m := &textMerge{p: p, res: res, t: n, memo: map[*types.Named]string{}}
		sites += m.check()
	}
	res.floor("places where an element is extended", sites, 1)
	return res
}

// extends: a store that makes a string field of an element longer.
func (m *textMerge) extends(ins ssa.Instruction) (*ssa.FieldAddr, bool) {
	st, ok := ins.(*ssa.Store)
	if !ok || !isString(st.Val.Type()) {
		return nil, false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || !types.Identical(deref(fa.X.Type()), m.t) {
		return nil, false
	}
	var from func(v ssa.Value, depth int) bool
	from = func(v ssa.Value, depth int) bool {
		if depth > 8 {
			return true
		}
		switch y := v.(type) {
		case *ssa.UnOp:
			if y.Op == token.MUL {
				a, ok := y.X.(*ssa.FieldAddr)
				return ok && a.Field == fa.Field && types.Identical(deref(a.X.Type()), m.t)
			}
		case *ssa.BinOp:
			return from(y.X, depth+1) || from(y.Y, depth+1)
		case *ssa.Phi:
			for _, e := range y.Edges {
				if from(e, depth+1) {
					return true
				}
			}
		case *ssa.Call:
			for _, a := range y.Call.Args {
				if from(a, depth+1) {
					return true
				}
			}
		case *ssa.Convert:
			return from(y.X, depth+1)
		case *ssa.Slice:
			return from(y.X, depth+1)
		case *ssa.Alloc:
			whole, _ := allocStores(y)
			for _, s := range whole {
				if from(s.Val, depth+1) {
					return true
				}
			}
			for _, r := range *y.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(ia) && from(s.Val, depth+1) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	if from(st.Val, 0) {
		return fa, true
	}
	return nil, false
}

func (m *textMerge) check() int {
	type ext struct {
		fn *ssa.Function
		st *ssa.Store
		fa *ssa.FieldAddr
	}
	var exts []ext
	for _, f := range m.p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := m.extends(ins); ok {
					exts = append(exts, ext{f, ins.(*ssa.Store), fa})
				}
			}
		}
	}
	n := 0
	for _, x := range exts {
		m.text = "." + fieldName(x.fa.X.Type(), x.fa.Field)
		n += m.receiver(x.fn, x.st, x.fa.X, 0)
	}
	return n
}

// receiver finds what elements a pointer may be, and judges those that were there before.
func (m *textMerge) receiver(fn *ssa.Function, at ssa.Instruction, v ssa.Value, depth int) int {
	if depth > 5 {
		m.res.add("unresolved", fname(fn), v.Name(), m.p.insPos(at), "the element extended could not be traced")
		return 1
	}
	if pr, ok := v.(*ssa.Parameter); ok {
		n := 0
		calls := m.p.staticCallers()[fn]
		m.levels = append(m.levels, level{fn, at, v})
		defer func() { m.levels = m.levels[:len(m.levels)-1] }()
		for _, c := range calls {
			if i := paramIndex(pr); i < len(c.Common().Args) {
				n += m.receiver(c.Parent(), c, c.Common().Args[i], depth+1)
			}
		}
		if len(calls) == 0 {
			m.res.add("unresolved", fname(fn), pr.Name(), m.p.insPos(at), "an element handed in from nowhere is extended")
			return 1
		}
		return n
	}
	s := &mergeSite{fn: fn, st: at}
	var news []ssa.Value
	type edge struct {
		v        ssa.Value
		from, to *ssa.BasicBlock
	}
	var olds []edge
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, from, to *ssa.BasicBlock)
	walk = func(v ssa.Value, from, to *ssa.BasicBlock) {
		switch y := v.(type) {
		case *ssa.Alloc:
			news = append(news, v)
			return
		case *ssa.Phi:
			if seen[v] {
				return
			}
			seen[v] = true
			for i, e := range y.Edges {
				walk(e, y.Block().Preds[i], y.Block())
			}
			return
		case *ssa.Const:
			return
		}
		olds = append(olds, edge{v, from, to})
	}
	walk(v, nil, at.Block())
	s.fresh = news
	for _, o := range olds {
		o := o
		m.site(fn, at, v, o.v, o.from, o.to, news)
	}
	if len(olds) == 0 {
		return 0
	}
	return len(olds)
}

// candidates: the values that may be the new piece.
func (m *textMerge) candidates(fn *ssa.Function, news []ssa.Value) []ssa.Value {
	out := append([]ssa.Value(nil), news...)
	for _, pr := range fn.Params {
		if types.Identical(deref(pr.Type()), m.t) {
			out = append(out, pr)
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if al, ok := ins.(*ssa.Alloc); ok && types.Identical(deref(al.Type()), m.t) {
				out = append(out, al)
			}
		}
	}
	return out
}

func (m *textMerge) site(fn *ssa.Function, at ssa.Instruction, ptr, have ssa.Value, from, to *ssa.BasicBlock, news []ssa.Value) {
	res := m.res
	q := m.p.newPreds(fn, m.equalBy)
	if m.textOnly(fn, news) {
		return
	}
	facts := q.at(at.Block())
	if from != nil {
		facts = q.edge(from, to)
		if ph, ok := ptr.(*ssa.Phi); ok && ph.Block() != at.Block() {
			// what is known at the store holds there as well
			facts = union(facts, q.at(at.Block()))
		}
	}
	if facts == nil {
		return // never taken
	}
	res.Counts["elements extended"]++
	E := q.expr(have)
	m.levels = append(m.levels, level{fn, at, ptr})
	defer func() { m.levels = m.levels[:len(m.levels)-1] }()
	m.needs()
	if lastOf(E) == "" {
		res.add("adjacent", fname(fn), "element extended", m.p.insPos(at), "the element extended is not the last one of the page's list (%s)", E)
	}
	// derived fields are worked out again after every extension
	m.rederived(fn, at)
	best, bestMissing := "", []string(nil)
	first := true
	for _, c := range m.candidates(fn, news) {
		N := q.expr(c)
		if N == E {
			continue
		}
		var missing []string
		for _, path := range sortedTypes(m.used) {
			if m.set[path] || path == m.text {
				continue
			}
			if !m.covered(facts, E, N, path, m.used[path], 0) {
				missing = append(missing, path)
			}
		}
		if first || len(missing) < len(bestMissing) {
			best, bestMissing, first = N, missing, false
		}
	}
	if first {
		res.add("unresolved", fname(fn), "new piece", m.p.insPos(at), "no value holding the new piece of text was found beside the element extended")
		return
	}
	for _, path := range bestMissing {
		res.add("compared", fname(fn), "field "+path[1:], m.p.insPos(at), "a text run is extended without knowing that %s is the same for the new piece; the drawing depends on it%s", tname(m.t)+path, m.advanceNote(path))
	}
	for _, path := range sortedTypes(m.used) {
		res.sample("%s: %s compared: %v", fname(fn), path, !contains(bestMissing, path))
	}
	res.Counts["field paths the drawing reads"] = len(m.used)
	m.marks(facts, E, best, fn, at)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func sortedTypes(m map[string]types.Type) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// textOnly: a function for the library's user that gets nothing but the text to add: there is no style to compare.
func (m *textMerge) textOnly(fn *ssa.Function, news []ssa.Value) bool {
	if len(m.candidates(fn, news)) > 0 || len(m.p.staticCallers()[fn]) > 0 {
		return false
	}
	for i, pr := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		if !isString(pr.Type()) {
			return false
		}
	}
	return true
}

// lastOf: the list an expression names the last element of.
func lastOf(e string) string {
	i := strings.LastIndex(e, "[(len(")
	if i < 0 {
		return ""
	}
	list := e[:i]
	if e == list+"[(len("+list+") - const:1)]" {
		return list
	}
	return ""
}

// covered: the facts say that the field path is the same in both.
func (m *textMerge) covered(f factSet, E, N, path string, t types.Type, depth int) bool {
	if m.advances(path) {
		for s := range m.set {
			a, b := E+path, E+s
			if a > b {
				a, b = b, a
			}
			if f.eq("("+a+" + "+b+")", N+path) {
				return true
			}
		}
		return false
	}
	if f.eq(E, N) {
		return true
	}
	for pre := path; pre != ""; pre = pre[:strings.LastIndex(pre, ".")] {
		if f.eq(E+pre, N+pre) {
			return true
		}
	}
	if st := structOf(t); st != nil && depth < 3 {
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
			for i := 0; i < st.NumFields(); i++ {
				if !m.covered(f, E, N, path+"."+st.Field(i).Name(), st.Field(i).Type(), depth+1) {
					return false
				}
			}
			return st.NumFields() > 0
		}
	}
	return false
}

// advances: the coordinate the drawing moves along: what the element takes from the current horizontal position.
func (m *textMerge) advances(path string) bool {
	if s, ok := m.memo[m.t]; ok {
		return s == path
	}
	m.memo[m.t] = ""
	count := map[string]int{}
	for k, sts := range m.p.allStores() {
		if k.typ != tname(m.t) {
			continue
		}
		for _, st := range sts {
			v := st.val
			for i := 0; i < 4; i++ {
				u, ok := v.(*ssa.UnOp)
				if !ok || u.Op != token.MUL {
					break
				}
				if fa, ok := u.X.(*ssa.FieldAddr); ok && tname(deref(fa.X.Type())) == "Current" && fieldName(fa.X.Type(), fa.Field) == "X" {
					if fa2, ok := st.ins.(*ssa.Store).Addr.(*ssa.FieldAddr); ok {
						count["."+fieldName(fa2.X.Type(), fa2.Field)]++
					}
				}
				if al, ok := u.X.(*ssa.Alloc); ok {
					if whole, _ := allocStores(al); len(whole) == 1 {
						v = whole[0].Val
						continue
					}
				}
				break
			}
		}
	}
	best := ""
	for k, n := range count {
		if n > count[best] {
			best = k
		}
	}
	m.memo[m.t] = best
	return best == path
}

func (m *textMerge) advanceNote(path string) string {
	if m.advances(path) {
		return " (the new piece must start where the run ends)"
	}
	return ""
}

// needs collects what drawing and measuring the element read.
func (m *textMerge) needs() {
	m.used, m.set = map[string]types.Type{}, map[string]bool{}
	starts := map[*ssa.Function]bool{}
	for _, f := range m.p.Funcs {
		if f.Name() == "write" && f.Signature.Recv() != nil && types.Identical(deref(f.Signature.Recv().Type()), m.t) {
			starts[f] = true
		}
	}
	for _, c := range m.allWorkedOut() {
		starts[c.Common().StaticCallee()] = true
	}
	fns := map[*ssa.Function]bool{}
	for f := range starts {
		for g := range m.p.reach(f) {
			fns[g] = true
		}
	}
	for f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch y := ins.(type) {
				case *ssa.FieldAddr:
					if types.Identical(deref(y.X.Type()), m.t) {
						m.use(y, "."+fieldName(y.X.Type(), y.Field), deref(y.Type()), 0)
					}
				case *ssa.Field:
					if types.Identical(y.X.Type(), m.t) {
						m.useValue(y, "."+fieldName(y.X.Type(), y.Field), y.Type(), 0)
					}
				}
			}
		}
	}
	for _, c := range m.allWorkedOut() {
		for g := range m.p.reach(c.Common().StaticCallee()) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), m.t) {
							m.set["."+fieldName(fa.X.Type(), fa.Field)] = true
						}
					}
				}
			}
		}
	}
	for _, l := range m.levels {
		for _, b := range l.fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fa.X == l.ptr && dominates(l.at, ins) {
						m.set["."+fieldName(fa.X.Type(), fa.Field)] = true
					}
				}
			}
		}
	}
}

func (m *textMerge) allWorkedOut() []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, l := range m.levels {
		out = append(out, m.workedOut(l.fn, l.at, l.ptr)...)
	}
	return out
}

// workedOut: the calls after the extension that work the element's derived fields out again.
func (m *textMerge) workedOut(fn *ssa.Function, at ssa.Instruction, ptr ssa.Value) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok || c == at {
				continue
			}
			f := c.Common().StaticCallee()
			if f == nil || !m.p.owns(f) || !dominates(at, ins) {
				continue
			}
			for _, a := range c.Common().Args {
				if a == ptr {
					out = append(out, c)
					break
				}
			}
		}
	}
	return out
}

// rederived: the fields worked out from the text are worked out again whatever happens after the extension.
func (m *textMerge) rederived(fn *ssa.Function, at ssa.Instruction) {
	var bad *ssa.Return
	for _, l := range m.levels {
		calls := m.workedOut(l.fn, l.at, l.ptr)
		var left *ssa.Return
		for _, r := range returnsOf(l.fn) {
			if !reachesIns(l.at, r) {
				continue
			}
			ok := false
			for _, c := range calls {
				if dominates(c, r) {
					ok = true
				}
			}
			if !ok {
				left = r
			}
		}
		if left == nil {
			return
		}
		bad = left
	}
	m.res.add("measured", fname(fn), "derived fields", m.p.insPos(bad), "after the text of an element has been extended the function can return without measuring the element again")
}

func (m *textMerge) use(a ssa.Value, path string, t types.Type, depth int) {
	if a.Referrers() == nil {
		return
	}
	for _, r := range *a.Referrers() {
		switch y := r.(type) {
		case *ssa.Store:
			if y.Addr == a {
				continue
			}
			m.used[path] = t
		case *ssa.FieldAddr:
			m.use(y, path+"."+fieldName(y.X.Type(), y.Field), deref(y.Type()), depth+1)
		case *ssa.UnOp:
			m.useValue(y, path, t, depth)
		case *ssa.DebugRef:
		default:
			if ci, ok := r.(ssa.CallInstruction); ok && m.passed(ci, a, path, t) {
				continue
			}
			m.used[path] = t
		}
	}
}

func (m *textMerge) useValue(v ssa.Value, path string, t types.Type, depth int) {
	if _, ok := t.Underlying().(*types.Struct); !ok {
		m.used[path] = t
		return
	}
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.Field:
			m.useValue(y, path+"."+fieldName(y.X.Type(), y.Field), y.Type(), depth+1)
		case *ssa.DebugRef:
		case *ssa.Store:
			// a copy of its own
			if al, ok := y.Addr.(*ssa.Alloc); ok && depth < 4 {
				m.use(al, path, t, depth+2)
				continue
			}
			m.used[path] = t
		default:
			if ci, ok := r.(ssa.CallInstruction); ok && m.passed(ci, v, path, t) {
				continue
			}
			m.used[path] = t
		}
	}
}

// passed: a struct handed to a function of the module: the fields that one reads.
func (m *textMerge) passed(ci ssa.CallInstruction, v ssa.Value, path string, t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	f := ci.Common().StaticCallee()
	if !ok || f == nil || !m.p.owns(f) || f.Blocks == nil {
		return false
	}
	fields, whole := m.p.readFields(m.p.reach(f), n)
	if whole {
		return false
	}
	st := structOf(n)
	if st == nil {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if fields["."+st.Field(i).Name()] {
			m.used[path+"."+st.Field(i).Name()] = st.Field(i).Type()
		}
	}
	return true
}

// equalBy: an interface's own comparison, when every implementation compares all that it draws from.
func (m *textMerge) equalBy(cc *ssa.CallCommon) bool {
	key := tname(cc.Value.Type()) + "." + cc.Method.Name()
	impls := m.p.implsOf(cc)
	if len(impls) == 0 {
		return false
	}
	all := true
	for _, f := range impls {
		if f.Signature.Recv() == nil || len(f.Params) != 2 {
			return false
		}
		n, ok := deref(f.Signature.Recv().Type()).(*types.Named)
		if !ok {
			return false
		}
		q := &preds{p: m.p, fn: f, env: map[ssa.Value]string{f.Params[0]: "A", f.Params[1]: "B"}, id: fname(f), count: new(int), depth: 1}
		q.solve()
		var acc factSet
		for _, r := range returnsOf(f) {
			if q.known[r.Block()] {
				acc = meet(acc, union(q.at(r.Block()), q.cond(r.Results[0], true)))
			}
		}
		if acc == nil {
			continue // never the same
		}
		m.res.Counts["comparisons of "+key]++
		ifc, ok := cc.Value.Type().Underlying().(*types.Interface)
		if !ok {
			return false
		}
		fns := map[*ssa.Function]bool{}
		for i := 0; i < ifc.NumMethods(); i++ {
			if mth := m.p.methodOf(n, ifc.Method(i).Name()); mth != nil && mth != f {
				for g := range m.p.reach(mth) {
					fns[g] = true
				}
			}
		}
		sub := &textMerge{p: m.p, res: m.res, t: n, memo: map[*types.Named]string{n: ""}, used: map[string]types.Type{}, set: map[string]bool{}}
		for g := range fns {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					switch y := ins.(type) {
					case *ssa.FieldAddr:
						if types.Identical(deref(y.X.Type()), n) {
							sub.use(y, "."+fieldName(y.X.Type(), y.Field), deref(y.Type()), 0)
						}
					case *ssa.Field:
						if types.Identical(y.X.Type(), n) {
							sub.useValue(y, "."+fieldName(y.X.Type(), y.Field), y.Type(), 0)
						}
					}
				}
			}
		}
		if !acc["is:B"] && !acc.eq("A", "B") && !hardAssert(f, f.Params[1]) {
			m.res.add("kind", fname(f), "kind", m.p.pos(f.Pos()), "says that two colours are the same without knowing that both are of its kind")
			all = false
		}
		for _, path := range sortedTypes(sub.used) {
			if !sub.covered(acc, "A", "B", path, sub.used[path], 0) {
				m.res.add("compared", fname(f), "field "+path[1:], m.p.pos(f.Pos()), "says that two values are the same without comparing %s, which is drawn", tname(n)+path)
				all = false
			}
		}
	}
	_ = all // reported above, at the comparison itself
	return true
}

// hardAssert: the argument is taken to be of one kind, anything else panics.
func hardAssert(f *ssa.Function, pr *ssa.Parameter) bool {
	for _, r := range *pr.Referrers() {
		if ta, ok := r.(*ssa.TypeAssert); ok && !ta.CommaOk {
			return true
		}
	}
	return false
}

// marks: an element whose text may be replaced later must not be extended: what tells it apart is compared.
func (m *textMerge) marks(f factSet, E, N string, fn *ssa.Function, at ssa.Instruction) {
	replaced := 0
	for _, sts := range m.p.allStores() {
		for _, s := range sts {
			fa, ok := s.ins.(*ssa.Store).Addr.(*ssa.FieldAddr)
			if !ok || !types.Identical(deref(fa.X.Type()), m.t) || "."+fieldName(fa.X.Type(), fa.Field) != m.text {
				continue
			}
			if _, isAlloc := fa.X.(*ssa.Alloc); isAlloc {
				continue
			}
			if _, isExt := m.extends(s.ins); isExt {
				continue
			}
			replaced++
		}
	}
	if replaced == 0 {
		return
	}
	m.res.Counts["places that replace an element's text"] = replaced
	// the elements put in the list as they are, and those that go through the place that extends
	type maker struct {
		al     *ssa.Alloc
		consts map[string]string
	}
	var kept, merged []maker
	for _, g := range m.p.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				al, ok := ins.(*ssa.Alloc)
				if !ok || !types.Identical(deref(al.Type()), m.t) {
					continue
				}
				whole, fields := allocStores(al)
				if len(whole) > 0 || len(fields) == 0 {
					continue
				}
				mk := maker{al, map[string]string{}}
				for i := 0; i < structOf(m.t).NumFields(); i++ {
					name := "." + structOf(m.t).Field(i).Name()
					mk.consts[name] = "zero"
					for _, s := range fields[i] {
						if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil {
							mk.consts[name] = c.Value.ExactString()
							if mk.consts[name] == "false" || mk.consts[name] == "0" || mk.consts[name] == `""` {
								mk.consts[name] = "zero"
							}
						} else {
							mk.consts[name] = ""
						}
					}
				}
				if m.goesTo(al, fn) {
					merged = append(merged, mk)
				} else if m.listed(al) {
					kept = append(kept, mk)
				}
			}
		}
	}
	for _, k := range kept {
		for _, o := range merged {
			ok := false
			for name, c := range k.consts {
				if c != "" && o.consts[name] != "" && c != o.consts[name] && f.eq(E+name, N+name) {
					ok = true
				}
			}
			if !ok {
				m.res.add("replaceable", fname(fn), "element of "+fname(k.al.Parent()), m.p.insPos(at), "an element made by %s, whose text is replaced later, can be extended by a piece made by %s: nothing that tells them apart is compared", fname(k.al.Parent()), fname(o.al.Parent()))
			}
		}
	}
	m.res.Counts["kinds of element kept apart"] = len(kept) * len(merged)
}

// goesTo: the element is handed (by value or by reference) to the function.
func (m *textMerge) goesTo(al *ssa.Alloc, fn *ssa.Function) bool {
	if al.Parent() == fn {
		return true
	}
	var to func(v ssa.Value, depth int) bool
	to = func(v ssa.Value, depth int) bool {
		if depth > 5 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.UnOp:
				if y.Op == token.MUL && to(y, depth+1) {
					return true
				}
			case *ssa.Return:
				for _, c := range m.p.staticCallers()[y.Parent()] {
					if cv, ok := c.(*ssa.Call); ok && to(cv, depth+1) {
						return true
					}
				}
			case *ssa.Store:
				if a, ok := y.Addr.(*ssa.Alloc); ok && y.Val == v && to(a, depth+1) {
					return true
				}
			case ssa.CallInstruction:
				f := y.Common().StaticCallee()
				if f == fn {
					return true
				}
				if f != nil && m.p.owns(f) {
					for i, a := range y.Common().Args {
						if a == v && i < len(f.Params) && to(f.Params[i], depth+1) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return to(al, 0)
}

func (m *textMerge) listed(al *ssa.Alloc) bool {
	var to func(v ssa.Value, depth int) bool
	to = func(v ssa.Value, depth int) bool {
		if depth > 5 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch y := r.(type) {
			case *ssa.MakeInterface:
				return true
			case *ssa.UnOp:
				if y.Op == token.MUL && to(y, depth+1) {
					return true
				}
			case *ssa.Store:
				if a, ok := y.Addr.(*ssa.Alloc); ok && y.Val == v && to(a, depth+1) {
					return true
				}
			case *ssa.Return:
				for _, c := range m.p.staticCallers()[y.Parent()] {
					if cv, ok := c.(*ssa.Call); ok && to(cv, depth+1) {
						return true
					}
				}
			}
		}
		return false
	}
	return to(al, 0)
}
