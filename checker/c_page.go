package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["L07"] = checkL07 }

// pageState is what has happened since the call that adds a page began.
type pageState struct {
	pages, count int8 // page objects added, times the number of pages was raised (2: more than once)
	index        bool // the new page is the current one
	size         bool // the current size was set
	detached     bool // the content of the page before is no longer the current one
	x, y         bool // the cursor is at the origin
	head, foot   int8 // times the callbacks ran
	headNil      int8 // 1: there is no such callback, 2: there is one
	footNil      int8
}

type pageRun struct {
	p        *Prog
	res      *Result
	pv       *prov
	vc       *valCtx
	root     *ssa.Function
	relevant map[*ssa.Function]bool
	taken    []*ssa.Function
	head     fieldKey
	foot     fieldKey
	index    fieldKey
	size     fieldKey
	content  fieldKey
	count    fieldKey
	x, y     fieldKey
	hasCount bool
	callback map[ssa.Instruction]bool
	steps    int
	said     map[string]bool
}

func checkL07(p *Prog) *Result {
	res := newResult("typestate of the page being started, over every path with the calls inlined; coverage of the loop that lists the pages",
		"header and footer callbacks only draw")
	r := &pageRun{p: p, res: res, pv: p.provenance(), said: map[string]bool{}, callback: map[ssa.Instruction]bool{}}
	if r.pv.addFn == nil {
		res.add("anchor", "-", "object list", "-", "the function that appends an object to the document and returns its position was not found")
		return res
	}
	r.vc = r.pv.vc
	r.taken = p.takenFuncs()
	if !r.anchors() {
		return res
	}
	r.findRelevant()
	roots := r.roots()
	for _, fn := range roots {
		r.start(fn)
	}
	res.floor("calls that add a page", len(roots), 1)
	res.floor("callback sites", len(r.callback), 1)
	r.tree()
	return res
}

// callbackField: the field an exported call of that name keeps its function in.
func (r *pageRun) callbackField(name string) (fieldKey, bool) {
	for _, fn := range r.p.Funcs {
		if fn.Name() != name || recvName(fn) != "GoPdf" || len(fn.Params) < 2 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || r.vc.resolve(BV{st.Val, r.vc.root(fn)}).v != ssa.Value(fn.Params[1]) {
					continue
				}
				if !alwaysRuns(st) {
					r.res.add("callback", fname(fn), name, r.p.insPos(st), "%s does not always keep the function it is given", name)
				}
				return fkey(fa.X.Type(), fa.Field), true
			}
		}
	}
	r.res.add("anchor", "-", name, "-", "where %s keeps its function was not found", name)
	return fieldKey{}, false
}

func (r *pageRun) anchors() bool {
	var ok1, ok2 bool
	r.head, ok1 = r.callbackField("AddHeader")
	r.foot, ok2 = r.callbackField("AddFooter")
	if !ok1 || !ok2 {
		return false
	}
	good := true
	get := func(typ, field string, to *fieldKey) {
		k, ok := r.p.fieldNamed(typ, field)
		if !ok {
			r.res.add("anchor", "-", typ+"."+field, "-", "field %s.%s not found", typ, field)
			good = false
		}
		*to = k
	}
	get("Current", "IndexOfPageObj", &r.index)
	get("Current", "pageSize", &r.size)
	get("Current", "X", &r.x)
	get("Current", "Y", &r.y)
	// the field with the position of the current content
	found := false
	for k, list := range r.p.allStores() {
		for _, s := range list {
			if call, ok := s.val.(*ssa.Call); ok && call.Call.StaticCallee() == r.pv.addFn && r.addsKind(BV{call, r.vc.root(s.fn)}, "ContentObj") && k.typ == "GoPdf" {
				if found && r.content != k {
					r.res.add("anchor", "-", "content", "-", "the position of the current content is kept in more than one field")
					good = false
				}
				r.content, found = k, true
			}
		}
	}
	if !found {
		r.res.add("anchor", "-", "content", "-", "where the position of the current content is kept was not found")
		good = false
	}
	// the number of pages
	for _, fn := range r.p.Funcs {
		if fn.Name() == "GetNumberOfPages" && recvName(fn) == "GoPdf" {
			for _, ret := range returnsOf(fn) {
				if u, ok := retVals(ret)[0].(*ssa.UnOp); ok && u.Op == token.MUL {
					if fa, ok := u.X.(*ssa.FieldAddr); ok {
						r.count, r.hasCount = fkey(fa.X.Type(), fa.Field), true
					}
				}
			}
		}
	}
	return good
}

func (r *pageRun) addsKind(b BV, kind string) bool {
	call, ok := b.v.(*ssa.Call)
	if !ok || call.Call.StaticCallee() != r.pv.addFn {
		return false
	}
	args := call.Call.Args
	for _, t := range r.pv.dynTypes(BV{args[len(args)-1], b.fr}, 0) {
		if t == kind {
			return true
		}
	}
	return false
}

func (r *pageRun) fieldOf(addr ssa.Value) (fieldKey, bool) {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		return fkey(fa.X.Type(), fa.Field), true
	}
	return fieldKey{}, false
}

// event: the instruction does something the state is about.
func (r *pageRun) event(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.Store:
		if k, ok := r.fieldOf(x.Addr); ok {
			return k == r.index || k == r.size || k == r.content || k == r.x || k == r.y || r.hasCount && k == r.count
		}
	case ssa.CallInstruction:
		cc := x.Common()
		if cc.StaticCallee() == r.pv.addFn {
			return r.addsKind(BV{ins.(ssa.Value), r.vc.root(ins.Parent())}, "PageObj")
		}
	case *ssa.UnOp:
		if k, ok := r.fieldOf(x.X); ok {
			return k == r.head || k == r.foot
		}
	}
	return false
}

func (r *pageRun) findRelevant() {
	r.relevant = map[*ssa.Function]bool{}
	var starts []*ssa.Function
	for _, fn := range r.p.Funcs {
	scan:
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && c.Call.StaticCallee() == r.pv.addFn {
					if r.event(ins) {
						starts = append(starts, fn)
						break scan
					}
					continue
				}
				if _, ok := ins.(*ssa.Defer); ok {
					continue
				}
				if r.event(ins) {
					starts = append(starts, fn)
					break scan
				}
			}
		}
	}
	for f := range r.p.reachers(starts...) {
		r.relevant[f] = true
	}
}

// roots: the exported functions that add a page without going through another exported function.
func (r *pageRun) roots() []*ssa.Function {
	adds := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for _, fn := range r.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok && c.Call.StaticCallee() == r.pv.addFn && r.addsKind(BV{c, r.vc.root(fn)}, "PageObj") && !adds[fn] {
					adds[fn] = true
					work = append(work, fn)
				}
			}
		}
	}
	var out []*ssa.Function
	for len(work) > 0 {
		fn := work[0]
		work = work[1:]
		exported := fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported()
		if exported {
			out = append(out, fn)
			continue
		}
		n := 0
		for _, c := range r.p.staticCallers()[fn] {
			n++
			if q := c.Parent(); !adds[q] {
				adds[q] = true
				work = append(work, q)
			}
		}
		if n == 0 && fn.Parent() != nil && !adds[fn.Parent()] {
			adds[fn.Parent()] = true
			work = append(work, fn.Parent())
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

func (r *pageRun) bad(rule, construct string, ins ssa.Instruction, format string, a ...any) {
	fn := fname(ins.Parent())
	k := rule + fn + construct
	if r.said[k] {
		return
	}
	r.said[k] = true
	r.res.add(rule, fn, construct, r.p.insPos(ins), format, a...)
}

func (r *pageRun) start(fn *ssa.Function) {
	r.root = fn
	outs := r.run(fn, r.vc.root(fn), []pageState{{}}, 0)
	for _, o := range outs {
		r.done(o.s, o.at)
	}
}

// done: a path of the call that adds a page ends.
func (r *pageRun) done(s pageState, at ssa.Instruction) {
	if s.pages == 0 {
		if s.head > 0 || s.foot > 0 {
			r.bad("order", "no page", at, "a header or footer ran although no page was added")
		}
		return
	}
	r.complete(s, at, "the call that adds a page ends")
	if s.head == 0 && s.headNil != 1 {
		r.bad("callback", "header", at, "a path adds a page without running the header")
	}
	if s.foot == 0 && s.footNil != 1 {
		r.bad("callback", "footer", at, "a path adds a page without running the footer")
	}
}

// complete: what must be so whenever callbacks or the caller see the page.
func (r *pageRun) complete(s pageState, at ssa.Instruction, when string) {
	switch {
	case s.pages == 0:
		r.bad("state", "page", at, "%s before the page is part of the document", when)
	case s.pages > 1:
		r.bad("state", "pages", at, "%s and more than one page was added", when)
	}
	if r.hasCount && s.count != 1 {
		r.bad("state", "count", at, "%s and the number of pages has been raised %s", when, []string{"not at all", "", "more than once"}[s.count])
	}
	if !s.index {
		r.bad("state", "current", at, "%s and the new page is not the current one", when)
	}
	if !s.size {
		r.bad("state", "size", at, "%s and the size of the new page has not been set", when)
	}
	if !s.detached {
		r.bad("state", "content", at, "%s and the content of the page before is still the current one", when)
	}
	if !s.x || !s.y {
		r.bad("state", "cursor", at, "%s and the cursor is not at the origin of the page (x: %v, y: %v)", when, s.x, s.y)
	}
}

type pageOut struct {
	s  pageState
	at ssa.Instruction
}

func (r *pageRun) run(fn *ssa.Function, fr *Frame, in []pageState, depth int) []pageOut {
	var outs []pageOut
	if depth > 12 {
		r.bad("unresolved", "depth", fn.Blocks[0].Instrs[0], "calls are nested too deep to follow")
		return nil
	}
	seen := make([]map[pageState]bool, len(fn.Blocks))
	type job struct {
		b *ssa.BasicBlock
		s pageState
	}
	var work []job
	push := func(b *ssa.BasicBlock, s pageState) {
		if seen[b.Index] == nil {
			seen[b.Index] = map[pageState]bool{}
		}
		if !seen[b.Index][s] {
			seen[b.Index][s] = true
			work = append(work, job{b, s})
		}
	}
	for _, s := range in {
		push(fn.Blocks[0], s)
	}
	ended := map[pageOut]bool{}
	for len(work) > 0 {
		j := work[len(work)-1]
		work = work[:len(work)-1]
		cur := []pageState{j.s}
		for _, ins := range j.b.Instrs {
			if r.steps++; r.steps > 400000 {
				r.bad("unresolved", "steps", ins, "too many paths to follow")
				return outs
			}
			switch x := ins.(type) {
			case *ssa.If:
				for _, s := range cur {
					for i, t := range j.b.Succs {
						if s2, ok := r.branch(s, fr, x.Cond, i == 0); ok {
							push(t, s2)
						}
					}
				}
			case *ssa.Jump:
				for _, s := range cur {
					push(j.b.Succs[0], s)
				}
			case *ssa.Return:
				for _, s := range cur {
					o := pageOut{s, x}
					if !ended[o] {
						ended[o] = true
						outs = append(outs, o)
					}
				}
			case *ssa.Store:
				for i := range cur {
					cur[i] = r.stored(cur[i], fr, x)
				}
			case *ssa.RunDefers:
				for i := len(fn.Blocks) - 1; i >= 0; i-- {
					for k := len(fn.Blocks[i].Instrs) - 1; k >= 0; k-- {
						if d, ok := fn.Blocks[i].Instrs[k].(*ssa.Defer); ok && (dominates(d, x) || reachesBlock(d.Block(), j.b)) {
							next := r.called(cur, fr, d, depth)
							if !dominates(d, x) {
								next = append(next, cur...)
							}
							cur = dedupPages(next)
						}
					}
				}
			case *ssa.Call:
				cur = dedupPages(r.called(cur, fr, x, depth))
			case *ssa.Go:
				for _, f := range r.p.calleesAt(x, r.taken) {
					if r.relevant[f] {
						r.bad("unresolved", "goroutine", x, "page state is changed by a goroutine")
					}
				}
			}
		}
	}
	return outs
}

func dedupPages(in []pageState) []pageState {
	seen := map[pageState]bool{}
	var out []pageState
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// loadedField: the field the value was read from, through parameters.
func (r *pageRun) loadedField(b BV) (fieldKey, bool) {
	b = r.vc.resolve(b)
	if u, ok := b.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return r.fieldOf(r.vc.resolve(BV{u.X, b.fr}).v)
	}
	return fieldKey{}, false
}

func (r *pageRun) branch(s pageState, fr *Frame, cond ssa.Value, taken bool) (pageState, bool) {
	c, neg := stripNot(cond)
	bo, ok := c.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ || !isNilConst(bo.Y) {
		return s, true
	}
	k, ok := r.loadedField(BV{bo.X, fr})
	if !ok || k != r.head && k != r.foot {
		return s, true
	}
	isNil := (taken != neg) == (bo.Op == token.EQL)
	v := int8(2)
	if isNil {
		v = 1
	}
	f := &s.headNil
	if k == r.foot {
		f = &s.footNil
	}
	if *f != 0 && *f != v {
		return s, false
	}
	*f = v
	return s, true
}

func (r *pageRun) stored(s pageState, fr *Frame, st *ssa.Store) pageState {
	k, ok := r.fieldOf(r.vc.resolve(BV{st.Addr, fr}).v)
	if !ok {
		// the whole of the current state
		if n := tname(st.Val.Type()); n == "Current" {
			if _, local := r.vc.resolve(BV{st.Addr, fr}).v.(*ssa.Alloc); !local {
				s.index, s.size, s.x, s.y = false, false, false, false
			}
		}
		return s
	}
	if k.typ == "GoPdf" && tname(st.Val.Type()) == "Current" {
		s.index, s.size, s.x, s.y = false, false, false, false
		return s
	}
	v := r.vc.resolve(BV{st.Val, fr})
	switch {
	case k == r.index:
		s.index = r.addsKind(v, "PageObj")
	case k == r.size:
		s.size = true
	case k == r.content:
		if r.addsKind(v, "ContentObj") {
			break // new content belongs to the page it is added for
		}
		n, ok := constIntOf(r.vc, v)
		s.detached = ok && n < 0
	case r.hasCount && k == r.count:
		base, d := r.vc.affine(v)
		if f, ok := r.loadedField(base); ok && f == r.count && d == 1 {
			if s.count < 2 {
				s.count++
			}
		} else {
			s.count = 2
		}
	case k == r.x:
		s.x = r.margin(v, "Left")
	case k == r.y:
		s.y = r.margin(v, "Top")
	}
	return s
}

func constIntOf(vc *valCtx, b BV) (int64, bool) {
	base, k := vc.affine(b)
	return k, base.v == nil
}

// margin: the value is that margin of the document.
func (r *pageRun) margin(b BV, side string) bool {
	u, ok := b.v.(*ssa.UnOp)
	if !ok {
		if f, ok := b.v.(*ssa.Field); ok {
			return tname(f.X.Type()) == "Margins" && fieldName(f.X.Type(), f.Field) == side
		}
		return false
	}
	fa, ok := r.vc.resolve(BV{u.X, b.fr}).v.(*ssa.FieldAddr)
	return ok && tname(deref(fa.X.Type())) == "Margins" && fieldName(deref(fa.X.Type()), fa.Field) == side
}

func (r *pageRun) called(cur []pageState, fr *Frame, ci ssa.CallInstruction, depth int) []pageState {
	cc := ci.Common()
	if cc.StaticCallee() == r.pv.addFn {
		v, _ := ci.(ssa.Value)
		if v == nil || !r.addsKind(BV{v, fr}, "PageObj") {
			return cur
		}
		for i := range cur {
			if cur[i].pages < 2 {
				cur[i].pages++
			}
			cur[i].index = false
		}
		return cur
	}
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return cur
		}
		if k, ok := r.loadedField(BV{cc.Value, fr}); ok && (k == r.head || k == r.foot) {
			r.callback[ci] = true
			for i := range cur {
				cur[i] = r.ran(cur[i], k == r.head, ci)
			}
			return cur
		}
	}
	var fns []*ssa.Function
	if mc := r.vc.resolve(BV{cc.Value, fr}); !cc.IsInvoke() && mc.v != nil {
		switch x := mc.v.(type) {
		case *ssa.MakeClosure:
			fns = []*ssa.Function{x.Fn.(*ssa.Function)}
		case *ssa.Function:
			fns = []*ssa.Function{x}
		}
	}
	if fns == nil {
		fns = r.p.calleesAt(ci, r.taken)
	}
	var out []pageState
	plain := len(fns) == 0
	for _, f := range fns {
		if !r.relevant[f] || f.Blocks == nil || fr.inChain(f) {
			plain = true
			continue
		}
		nf := r.vc.enter(fr, ci, f)
		for _, o := range r.run(f, nf, cur, depth+1) {
			out = append(out, o.s)
		}
	}
	if plain {
		out = append(out, cur...)
	}
	return out
}

// ran: a callback runs.
func (r *pageRun) ran(s pageState, head bool, at ssa.Instruction) pageState {
	if head {
		r.complete(s, at, "the header runs")
		if s.head > 0 {
			r.bad("callback", "header twice", at, "the header can run more than once for a page")
		}
		if s.foot > 0 {
			r.bad("order", "header", at, "the header runs after the footer")
		}
		s.head = 1
	} else {
		r.complete(s, at, "the footer runs")
		if s.foot > 0 {
			r.bad("callback", "footer twice", at, "the footer can run more than once for a page")
		}
		if s.head == 0 && s.headNil != 1 {
			r.bad("order", "footer", at, "the footer runs before the header")
		}
		s.foot = 1
	}
	s.x, s.y = false, false
	return s
}

// tree: the page tree lists every page of the document, in the order they were added.
func (r *pageRun) tree() {
	e := r.p.emission()
	n := 0
	seen := map[string]bool{}
	for _, f := range e.liveObj {
		if recvName(f) != "PagesObj" {
			continue
		}
		for _, rs := range e.objs[f].r.refs {
			if !strings.HasPrefix(rs.path, "Kids/") || rs.src.v == nil || seen[rs.pos] {
				continue
			}
			seen[rs.pos] = true
			n++
			r.listed(f, rs)
		}
	}
	r.res.floor("places that list pages", n, 1)
}

func (r *pageRun) listed(w *ssa.Function, rs refSite) {
	say := func(construct, format string, a ...any) {
		r.res.add("tree", fname(w), construct, rs.pos, format, a...)
	}
	r.listedBy(rs.src, nil, say, map[ssa.Value]bool{})
}

// counter: the loop counter a number is made of, and what is added to it.
func (r *pageRun) counter(base BV) (induction, BV, bool) {
	ind, ok := r.vc.inductionOf(base)
	if ok && ind.exact {
		return ind, base, true
	}
	phi, isPhi := base.v.(*ssa.Phi)
	if !ok || !isPhi || !rangeForm(ind) {
		return ind, base, false
	}
	for _, e := range phi.Edges { // the loop goes by the counter plus one
		if bo, ok := e.(*ssa.BinOp); ok && bo.X == ssa.Value(phi) {
			if ind, ok := r.vc.inductionOf(BV{bo, base.fr}); ok && ind.exact {
				ind.start-- // off counts from the value before
				return ind, BV{bo, base.fr}, true
			}
		}
	}
	return ind, base, false
}

// listedBy: the number comes from a loop that passes every object; below are the places in helpers that list it.
func (r *pageRun) listedBy(src BV, below []ssa.Instruction, say func(string, string, ...any), seen map[ssa.Value]bool) {
	base, off := r.vc.affine(src)
	if base.v == nil {
		say("number", "the number of a page in the page tree is a constant")
		return
	}
	if par, ok := base.v.(*ssa.Parameter); ok && !seen[par] && len(below) < 4 {
		seen[par] = true
		ins := r.siteOf(base, par.Parent().Blocks[0])
		if ins == nil {
			ins = r.passedOn(base, below)
		}
		if ins == nil {
			say("site", "where a page is added to the page tree was not found")
			return
		}
		r.conditions(ins, nil, say)
		calls := 0
		for _, b := range r.pv.callerArgs(par) {
			if off != 0 {
				say("number", "the number of a page in the page tree is changed on the way (%s)", r.p.insPos(ins))
			}
			calls++
			r.listedBy(b.BV, append(append([]ssa.Instruction{}, below...), ins), say, seen)
		}
		if calls == 0 {
			say("loop", "pages are not listed by a loop that counts through the objects of the document")
		}
		return
	}
	ind, base, ok := r.counter(base)
	if !ok {
		say("loop", "pages are not listed by a loop that counts through the objects of the document")
		return
	}
	isList := func(t types.Type) bool { return r.pv.isList(t) }
	what, d := r.vc.count(ind.bound, isList, 0)
	first := ind.start + off
	if what != "OBJS" || d != 0 {
		say("bound", "the loop that lists the pages does not run to the end of the objects (%s%+d)", what, d)
	}
	if first != 1 {
		say("start", "the loop that lists the pages begins with object number %d", first)
	}
	// what decides whether an object is listed
	ins := r.siteOf(base, ind.head)
	if ins == nil {
		ins = r.passedOn(base, below)
	}
	if ins == nil {
		say("site", "where a page is added to the page tree was not found")
		return
	}
	r.conditions(ins, ind.head, say)
	sites := append(append([]ssa.Instruction{}, below...), ins)
	r.appended(sites[0], say)
	r.counted(sites, say)
	r.res.sample("%s: pages listed by the loop at %s", r.p.insPos(ins), r.p.insPos(ind.head.Instrs[0]))
}

// passedOn: the call that hands the number to the helper that lists it.
func (r *pageRun) passedOn(b BV, below []ssa.Instruction) ssa.Instruction {
	if len(below) == 0 {
		return nil
	}
	helper := below[len(below)-1].Parent()
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) ssa.Instruction
	rec = func(v ssa.Value) ssa.Instruction {
		if seen[v] || v.Referrers() == nil {
			return nil
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.BinOp, *ssa.Convert:
				if isInteger(x.(ssa.Value).Type()) {
					if out := rec(x.(ssa.Value)); out != nil {
						return out
					}
				}
			case ssa.CallInstruction:
				for _, f := range r.p.calleesAt(x, r.taken) {
					if f == helper {
						return x
					}
				}
			}
		}
		return nil
	}
	return rec(b.v)
}

// conditions: only the kind of an object decides whether it is listed.
func (r *pageRun) conditions(ins ssa.Instruction, head *ssa.BasicBlock, say func(string, string, ...any)) {
	for b := ins.Block(); b != head && b != nil; b = b.Idom() {
		if len(b.Preds) != 1 {
			continue
		}
		iff, ok := b.Preds[0].Instrs[len(b.Preds[0].Instrs)-1].(*ssa.If)
		if !ok || b.Preds[0] == head {
			continue
		}
		if !r.kindTest(iff.Cond) {
			say("condition", "whether a page is listed depends on %s (%s)", iff.Cond, r.p.insPos(iff))
		}
	}
}

// siteOf: the instruction in the loop that turns the counter into text or keeps it.
func (r *pageRun) siteOf(b BV, head *ssa.BasicBlock) ssa.Instruction {
	var out ssa.Instruction
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || out != nil || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			if !head.Dominates(u.Block()) {
				continue
			}
			switch x := u.(type) {
			case *ssa.BinOp:
				if isInteger(x.Type()) && !isBool(x.Type()) && x.Block() != head {
					rec(x)
				}
			case *ssa.Convert, *ssa.MakeInterface:
				rec(x.(ssa.Value))
			case *ssa.Store: // argument list
				if ia, ok := x.Addr.(*ssa.IndexAddr); ok {
					if al, ok := ia.X.(*ssa.Alloc); ok {
						for _, w := range *al.Referrers() {
							if sl, ok := w.(*ssa.Slice); ok {
								for _, c := range *sl.Referrers() {
									if ci, ok := c.(ssa.CallInstruction); ok && r.mayBeKids(ci) {
										out = ci
									}
								}
							}
						}
					}
				}
			case *ssa.Call:
				if r.mayBeKids(x) {
					out = x
				}
			}
		}
	}
	rec(b.v)
	return out
}

// mayBeKids: the text or list the call makes ends up in the page tree (and not in the entry of another object).
func (r *pageRun) mayBeKids(ci ssa.CallInstruction) bool {
	v, ok := ci.(ssa.Value)
	if !ok {
		return false
	}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value, depth int) bool
	rec = func(v ssa.Value, depth int) bool {
		if seen[v] || depth > 8 || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && x.Val == v {
					if tname(deref(fa.X.Type())) == "PagesObj" {
						return true
					}
				}
			case ssa.Value:
				switch x.(type) {
				case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.Call, *ssa.Extract:
					if rec(x, depth+1) {
						return true
					}
				}
			}
		}
		return false
	}
	if rec(v, 0) {
		return true
	}
	// written to a builder whose text is kept
	switch methodName(fullCallee(ci.Common())) {
	case "Fprintf", "Fprint", "WriteString", "Write":
		return true
	}
	return false
}

// kindTest: the condition is about the kind of the object.
func (r *pageRun) kindTest(c ssa.Value) bool {
	c, _ = stripNot(c)
	switch x := c.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		a, b := x.X, x.Y
		if _, ok := a.(*ssa.Const); ok {
			a, b = b, a
		}
		if _, ok := b.(*ssa.Const); !ok {
			return false
		}
		call, ok := a.(*ssa.Call)
		return ok && isString(a.Type()) && call.Call.IsInvoke()
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.TypeAssert)
		return ok && x.Index == 1
	}
	return false
}

// appended: a page is put behind those already listed.
func (r *pageRun) appended(ins ssa.Instruction, say func(string, string, ...any)) {
	call, ok := ins.(*ssa.Call)
	if !ok {
		return
	}
	isKids := func(v ssa.Value) bool {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		k, ok := r.loadedField(BV{v, r.vc.root(ins.Parent())})
		if ok && k.typ == "PagesObj" {
			return true
		}
		_, ok = v.(*ssa.Phi)
		return ok && isString(v.Type())
	}
	if strings.HasSuffix(fullCallee(&call.Call), "fmt.Sprintf") && len(call.Call.Args) == 2 {
		list := r.pv.it.varargs(BV{call.Call.Args[1], r.vc.root(ins.Parent())})
		num, old := -1, -1
		for i, a := range list {
			if isKids(a.v) {
				old = i
			} else if num < 0 {
				num = i
			}
		}
		if old >= 0 && num >= 0 && old > num {
			say("order", "a page is listed before those added earlier")
		}
		if old >= 0 {
			return
		}
	}
	// text put together with +
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			bo, ok := u.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || !isString(bo.Type()) {
				continue
			}
			if bo.X == v && r.mentionsKids(bo.Y, isKids, 0) {
				say("order", "a page is listed before those added earlier")
			}
			rec(bo)
		}
	}
	rec(call)
}

func (r *pageRun) mentionsKids(v ssa.Value, is func(ssa.Value) bool, depth int) bool {
	if is(v) {
		return true
	}
	if bo, ok := v.(*ssa.BinOp); ok && depth < 5 {
		return r.mentionsKids(bo.X, is, depth+1) || r.mentionsKids(bo.Y, is, depth+1)
	}
	return false
}

// counted: a counter of the page tree is raised exactly where a page is listed.
func (r *pageRun) counted(sites []ssa.Instruction, say func(string, string, ...any)) {
	atSite := func(ins ssa.Instruction) bool {
		for _, s := range sites {
			if s.Parent() == ins.Parent() && (s.Block() == ins.Block() || dominates(s, ins) && sameRuns(s, ins)) {
				return true
			}
		}
		return false
	}
	for k, list := range r.p.allStores() {
		if k.typ != "PagesObj" {
			continue
		}
		nt := r.p.namedType(k.typ)
		if nt == nil || !isInteger(nt.Underlying().(*types.Struct).Field(k.idx).Type()) {
			continue
		}
		raised := map[ssa.Instruction]bool{}
		for _, s := range list {
			if _, ok := constIntOf(r.vc, BV{s.val, r.vc.root(s.fn)}); ok {
				continue
			}
			inSite := false
			for _, x := range sites {
				inSite = inSite || x.Parent() == s.fn
			}
			base, d := r.vc.affine(BV{s.val, r.vc.root(s.fn)})
			if f, ok := r.loadedField(base); ok && f == k {
				if d != 1 {
					say("count", "the number of pages in the page tree is raised by %d for a page (%s)", d, r.p.insPos(s.ins))
				} else {
					raised[s.ins] = true
				}
				continue
			}
			if phi, ok := base.v.(*ssa.Phi); ok && inSite && d == 0 {
				// a local counter
				seen := map[ssa.Value]bool{}
				var rec func(v ssa.Value)
				rec = func(v ssa.Value) {
					if seen[v] {
						return
					}
					seen[v] = true
					switch x := v.(type) {
					case *ssa.Phi:
						for _, e := range x.Edges {
							rec(e)
						}
					case *ssa.BinOp:
						if c, ok := constInt(x.Y); ok && x.Op == token.ADD && c == 1 {
							raised[x] = true
						} else {
							say("count", "the number of pages in the page tree is not raised by one for a page (%s)", r.p.insPos(x))
						}
						rec(x.X)
					case *ssa.Const:
						if c, ok := constInt(x); !ok || c != 0 {
							say("count", "the number of pages in the page tree does not start with zero (%s)", r.p.insPos(phi))
						}
					}
				}
				rec(phi)
			}
		}
		for ins := range raised {
			if !atSite(ins) {
				say("count", "the number of pages in the page tree is raised where no page is listed (%s)", r.p.insPos(ins))
			}
		}
		if len(raised) > 1 {
			say("count", "the number of pages in the page tree is raised in %d places", len(raised))
		}
		r.res.Counts["page counters"] += len(raised)
	}
	r.res.floor("page counters", r.res.Counts["page counters"], 1)
}

// sameRuns: after the first instruction the second always runs before the first can run again.
func sameRuns(a, b ssa.Instruction) bool { return !reachesAround(a, a, b) }
