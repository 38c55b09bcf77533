package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The page positions are measured on: whenever another page becomes the current one, the current page size becomes
// that page's own (its option's, or the default when it has none).

type pageTurn struct {
	p        *Prog
	res      *Result
	index    fieldKey // Current.IndexOfPageObj
	size     fieldKey // Current.pageSize
	def      fieldKey // Config.PageSize
	option   fieldKey // PageObj.pageOption
	optSize  fieldKey // PageOption.PageSize
	covering map[*ssa.Function]int
	touch    map[*ssa.Function]bool
}

func storesField(ins ssa.Instruction, k fieldKey) *ssa.Store {
	st, ok := ins.(*ssa.Store)
	if !ok {
		return nil
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok || fkey(fa.X.Type(), fa.Field) != k {
		return nil
	}
	return st
}

// fieldNamed: the field of a type of the package.
func (p *Prog) fieldNamed(typ, field string) (fieldKey, bool) {
	n := p.namedType(typ)
	if n == nil || structOf(n) == nil {
		return fieldKey{}, false
	}
	for i := 0; i < structOf(n).NumFields(); i++ {
		if structOf(n).Field(i).Name() == field {
			return fkey(n, i), true
		}
	}
	return fieldKey{}, false
}

func checkPageTurn(p *Prog, res *Result) {
	t := &pageTurn{p: p, res: res, covering: map[*ssa.Function]int{}, touch: map[*ssa.Function]bool{}}
	for _, a := range []struct {
		typ, field string
		k          *fieldKey
	}{{"Current", "IndexOfPageObj", &t.index}, {"Current", "pageSize", &t.size}, {"Config", "PageSize", &t.def}, {"PageObj", "pageOption", &t.option}, {"PageOption", "PageSize", &t.optSize}} {
		k, ok := p.fieldNamed(a.typ, a.field)
		if !ok {
			res.add("anchor", "", a.typ+"."+a.field, "", "the field was not found")
			return
		}
		*a.k = k
	}
	var hit []*ssa.Function
	for _, k := range []fieldKey{t.index, t.size, t.option} {
		for _, st := range p.allStores()[k] {
			hit = append(hit, st.fn)
		}
	}
	for f := range p.reachers(hit...) {
		t.touch[f] = true
	}
	for _, st := range p.allStores()[t.index] {
		if _, ok := st.val.(*ssa.Const); ok {
			continue // no page is current
		}
		res.Counts["page changes"]++
		t.change(st.fn, st.ins, 0)
	}
	res.floor("page changes", res.Counts["page changes"], 1)
}

// change: the instruction makes another page current.
func (t *pageTurn) change(fn *ssa.Function, at ssa.Instruction, depth int) {
	if !t.uncovered(fn, at) {
		t.root(fn, at)
		return
	}
	callers := t.p.staticCallers()[fn]
	if len(callers) == 0 || depth > 4 || t.public(fn) {
		t.res.add("page", fname(fn), "size not changed", t.p.insPos(at), "another page becomes the current one and the current page size can stay that of the page before")
		return
	}
	for _, c := range callers {
		t.change(c.Parent(), c, depth+1)
	}
}

func (t *pageTurn) public(fn *ssa.Function) bool {
	for _, f := range t.p.publicFuncs() {
		if f == fn {
			return true
		}
	}
	return false
}

// covers: the instruction sets the current page size whenever it runs.
func (t *pageTurn) covers(ins ssa.Instruction) bool {
	if storesField(ins, t.size) != nil {
		return true
	}
	c, ok := ins.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Call.StaticCallee()
	if f == nil || !t.touch[f] || f.Blocks == nil {
		return false
	}
	switch t.covering[f] {
	case 1:
		return true
	case 2:
		return false
	}
	t.covering[f] = 2
	if !t.path(f.Blocks[0], 0, nil) {
		t.covering[f] = 1
	}
	return t.covering[f] == 1
}

// path: there is a way from an instruction to the given one (or to a return) without setting the page size.
func (t *pageTurn) path(b *ssa.BasicBlock, i int, to ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock, i int) bool
	rec = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if to != nil && ins == to {
				return true
			}
			if t.covers(ins) {
				return false
			}
			if r, ok := ins.(*ssa.Return); ok && to == nil {
				return !failsReturn(r)
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if rec(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return rec(b, i)
}

// uncovered: the instruction can run on a way through the function on which the page size is not set.
func (t *pageTurn) uncovered(fn *ssa.Function, at ssa.Instruction) bool {
	if !t.path(fn.Blocks[0], 0, at) {
		return false
	}
	i := 0
	for k, ins := range at.Block().Instrs {
		if ins == at {
			i = k + 1
		}
	}
	return t.path(at.Block(), i, nil)
}

type turnEvent struct {
	q     *preds
	ins   *ssa.Store
	top   ssa.Instruction // the instruction of the outermost function it happens in
	facts factSet
}

// root judges a function in which a page becomes current and the page size is set.
func (t *pageTurn) root(fn *ssa.Function, at ssa.Instruction) {
	q := t.p.newPreds(fn, nil)
	var sizes, options, indexes []turnEvent
	var visit func(q *preds, top ssa.Instruction, facts factSet, depth int)
	visit = func(q *preds, top ssa.Instruction, facts factSet, depth int) {
		for _, b := range q.fn.Blocks {
			for _, ins := range b.Instrs {
				tp := top
				if tp == nil {
					tp = ins
				}
				here := union(facts, q.at(b))
				if st := storesField(ins, t.size); st != nil {
					sizes = append(sizes, turnEvent{q, st, tp, here})
				}
				if st := storesField(ins, t.option); st != nil {
					options = append(options, turnEvent{q, st, tp, here})
				}
				if st := storesField(ins, t.index); st != nil {
					indexes = append(indexes, turnEvent{q, st, tp, here})
				}
				if c, ok := ins.(*ssa.Call); ok && depth < 5 {
					if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil && t.touch[f] && f != q.fn {
						visit(q.enter(f, &c.Call), tp, here, depth+1)
					}
				}
			}
		}
	}
	visit(q, nil, factSet{}, 0)
	for _, s := range sizes {
		t.setting(fn, s, s.ins.Val, s.facts, options, indexes)
	}
}

// setting: one value the current page size is set to.
func (t *pageTurn) setting(fn *ssa.Function, s turnEvent, v ssa.Value, facts factSet, options, indexes []turnEvent) {
	report := func(construct, format string, a ...interface{}) {
		t.res.add("page", fname(s.q.fn), construct, t.p.insPos(s.ins), format, a...)
	}
	switch y := v.(type) {
	case *ssa.Phi:
		for i, e := range y.Edges {
			f := s.q.edge(y.Block().Preds[i], y.Block())
			if f != nil {
				t.setting(fn, s, e, union(facts, f), options, indexes)
			}
		}
		return
	case *ssa.Call:
		// a helper that picks the size
		if f := y.Call.StaticCallee(); f != nil && t.p.owns(f) && f.Blocks != nil && s.q.depth < 6 {
			sub := s.q.enter(f, &y.Call)
			for _, r := range returnsOf(f) {
				if sub.known[r.Block()] {
					t.setting(fn, turnEvent{sub, s.ins, s.top, s.facts}, r.Results[0], union(facts, sub.at(r.Block())), options, indexes)
				}
			}
			return
		}
	}
	t.res.Counts["page sizes set"]++
	if fa, ok := v.(*ssa.FieldAddr); ok && fkey(fa.X.Type(), fa.Field) == t.def {
		// the default: only for a page that has no size of its own
		for f := range facts {
			if t.noSize(f) {
				return
			}
		}
		if !t.staysDefault(s) {
			return
		}
		report("default size", "the default page size is made current though the page may have one of its own")
		return
	}
	name := s.q.expr(v)
	opt := strings.TrimSuffix(name, "."+t.sizeName())
	if opt == name {
		report("size", "the page size made current is neither that of the page's option nor the default")
		return
	}
	if !facts["some:"+name] {
		report("missing size", "the size in the page's option is made current without knowing that there is one")
	}
	// which page has that option?
	for _, o := range options {
		if o.q.expr(o.ins.Val) == opt && (dominates(o.top, s.top) || dominates(s.top, o.top) || o.top == s.top) {
			t.late(fn, opt, o, s)
			return
		}
	}
	for _, x := range indexes {
		if _, ok := x.ins.Val.(*ssa.Const); ok {
			continue
		}
		idx := x.q.expr(x.ins.Val)
		if strings.HasSuffix(opt, "["+idx+"]."+fieldNameOf(t.option, t.p)) {
			return
		}
	}
	report("other page", "the page size made current is not known to be that of the page that becomes current")
}

// staysDefault: the default size can stay current without it being known that the page has none of its own.
func (t *pageTurn) staysDefault(s turnEvent) bool {
	if s.ins.Parent() != s.q.fn {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock, i int) bool
	rec = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if t.covers(b.Instrs[i]) {
				return false
			}
			if _, ok := b.Instrs[i].(*ssa.Return); ok {
				return true
			}
		}
	next:
		for _, n := range b.Succs {
			if seen[n] {
				continue
			}
			for f := range s.q.edge(b, n) {
				if t.noSize(f) {
					continue next
				}
			}
			seen[n] = true
			if rec(n, 0) {
				return true
			}
		}
		return false
	}
	for i, ins := range s.ins.Block().Instrs {
		if ins == ssa.Instruction(s.ins) {
			return rec(s.ins.Block(), i+1)
		}
	}
	return true
}

// noSize: the fact says that a page option has no size.
func (t *pageTurn) noSize(f string) bool {
	if !strings.HasPrefix(f, "=") {
		return false
	}
	ab := strings.Split(f[1:], "\x00")
	n := "." + t.sizeName()
	for i := range ab {
		if ab[i] == "nil" {
			for _, o := range ab {
				if strings.HasSuffix(o, n) {
					return true
				}
			}
		}
	}
	return false
}

// late: the size is set to the option's before the option's own size has its final value.
func (t *pageTurn) late(fn *ssa.Function, opt string, o, s turnEvent) {
	for _, st := range t.p.allStores()[t.optSize] {
		if st.fn != fn {
			continue
		}
		fa, ok := st.ins.(*ssa.Store)
		if !ok {
			continue
		}
		ad, ok := fa.Addr.(*ssa.FieldAddr)
		if !ok {
			continue
		}
		if al, ok := ad.X.(*ssa.Alloc); !ok || o.q.opaqueRoot(al) != opt {
			continue
		}
		for _, top := range []ssa.Instruction{o.top, s.top} {
			if reachesIns(top, st.ins) {
				t.res.add("page", fname(fn), "late size", t.p.insPos(st.ins), "the size in the page's option is changed after it was used")
				return
			}
		}
	}
}

func (q *preds) opaqueRoot(v ssa.Value) string {
	for q.parent != nil {
		q = q.parent
	}
	return q.opaque(v)
}

func (t *pageTurn) sizeName() string { return fieldNameOf(t.optSize, t.p) }

func fieldNameOf(k fieldKey, p *Prog) string {
	for _, n := range p.namedTypes() {
		if st := structOf(n); st != nil && k.idx < st.NumFields() && fkey(n, k.idx) == k {
			return st.Field(k.idx).Name()
		}
	}
	return "?"
}

// checkHeightSet: every element that keeps the page height it was made on is given one where it is made.
func checkHeightSet(p *Prog, res *Result, h *heights) {
	moving := map[fieldKey]bool{}
	for k, s := range h.fields {
		for d := range s.m {
			if d != still {
				moving[k] = true
			}
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				al, ok := ins.(*ssa.Alloc)
				if !ok {
					continue
				}
				st := structOf(al.Type())
				if _, named := deref(al.Type()).(*types.Named); !named || st == nil {
					continue
				}
				whole, fields := allocStores(al)
				for i := 0; i < st.NumFields(); i++ {
					k := fkey(al.Type(), i)
					if !moving[k] {
						continue
					}
					res.Counts["places an element is made"]++
					if len(whole) > 0 || len(fields[i]) > 0 || p.setLater(al, k, 0) || p.unread(k, fields) || !usedAsWhole(al) {
						continue
					}
					res.add("height", fname(fn), deref(al.Type()).(*types.Named).Obj().Name()+"."+st.Field(i).Name(), p.insPos(al), "an element is made without the height or position that moves with the page")
				}
			}
		}
	}
}

// usedAsWhole: the variable is handed on, not only read and written field by field.
func usedAsWhole(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == ssa.Value(al) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// setLater: a function the variable is handed to sets the field.
func (p *Prog) setLater(v ssa.Value, k fieldKey, depth int) bool {
	refs := v.Referrers()
	if refs == nil || depth > 4 {
		return false
	}
	for _, r := range *refs {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if fkey(r.X.Type(), r.Field) != k {
				continue
			}
			for _, r2 := range *r.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(r) {
					return true
				}
			}
		case *ssa.Store:
			if r.Addr == v {
				return true
			}
		case *ssa.Return:
			// whoever gets it may set it
			for _, c := range p.staticCallers()[r.Parent()] {
				if cv, ok := c.(ssa.Value); ok && len(r.Results) == 1 && p.setLater(cv, k, depth+1) {
					return true
				}
			}
		case ssa.CallInstruction:
			f := r.Common().StaticCallee()
			if f == nil || !p.owns(f) {
				continue
			}
			for i, a := range r.Common().Args {
				if a == v && i < len(f.Params) && p.setLater(f.Params[i], k, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// unread: with the constants the variable is made with, the field is not read: every read is under a condition on a
// field that has the other value.
func (p *Prog) unread(k fieldKey, fields map[int][]*ssa.Store) bool {
	consts := map[int]bool{}
	for i, sts := range fields {
		if len(sts) == 1 {
			if c, ok := sts[0].Val.(*ssa.Const); ok && isBool(c.Type()) && c.Value != nil {
				consts[i] = constBool(c)
			}
		}
	}
	if len(consts) == 0 {
		return false
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var base ssa.Value
				switch x := ins.(type) {
				case *ssa.FieldAddr:
					if fkey(x.X.Type(), x.Field) != k || onlyStored(x) {
						continue
					}
					base = x.X
				case *ssa.Field:
					if fkey(x.X.Type(), x.Field) != k {
						continue
					}
					base = x.X
				default:
					continue
				}
				if !ruledOut(b, base, k, consts) {
					return false
				}
			}
		}
	}
	return true
}

func onlyStored(fa *ssa.FieldAddr) bool {
	for _, r := range *fa.Referrers() {
		if st, ok := r.(*ssa.Store); !ok || st.Addr != ssa.Value(fa) {
			return false
		}
	}
	return true
}

func ruledOut(b *ssa.BasicBlock, base ssa.Value, k fieldKey, consts map[int]bool) bool {
	for x := b; x.Idom() != nil; x = x.Idom() {
		up := x.Idom()
		iff, ok := up.Instrs[len(up.Instrs)-1].(*ssa.If)
		if !ok || up.Succs[0] == up.Succs[1] || len(x.Preds) != 1 {
			continue
		}
		cond, neg := stripNot(iff.Cond)
		if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
			if c, ok := bo.Y.(*ssa.Const); ok && isBool(c.Type()) {
				cond, neg = bo.X, neg != (constBool(c) == (bo.Op == token.NEQ))
			}
		}
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			continue
		}
		fa, ok := u.X.(*ssa.FieldAddr)
		if !ok || fkey(fa.X.Type(), fa.Field).typ != k.typ || fa.X != base {
			continue
		}
		want := up.Succs[0] == x
		if v, ok := consts[fa.Field]; ok && (want != neg) != v {
			return true
		}
	}
	return false
}
