package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The effect engine: for every function, which memory it writes and which references it stores where,
// named from the function's own point of view. A location is a root (parameter, captured variable,
// global variable, or an allocation) and an access path. What a function does to locations rooted in
// its parameters is translated into the names of its caller at each call.

const maxSteps = 10

type loc struct {
	root  string
	steps []string
	key   string
}

// ext: memory that exists before the function is called.
func (l *loc) ext() bool { return l.root[0] != 'S' }

func (l *loc) String() string { return l.key }

type akind int

const (
	aAddr akind = iota // a reference to the location
	aLeaf              // the reference held in the location (outside memory only)
	aAgg               // the struct or array held in the location
)

type aval struct {
	l *loc
	k akind
}

type avals map[aval]bool

type factKey struct {
	v  aval
	st *ssa.Store // direct store to a local variable, nil otherwise
}

type effWrite struct {
	l   *loc
	ins ssa.Instruction
	how string
}

type wkey struct {
	l   *loc
	ins ssa.Instruction
}

type summary struct {
	facts   map[*loc]map[aval]bool
	writes  map[wkey]string
	returns []avals
	size    int
}

type eff struct {
	p     *Prog
	locs  map[string]*loc
	sites map[string]ssa.Value // site root -> the value that is allocated
	ids   map[ssa.Instruction]int
	sum   map[*ssa.Function]*summary
	full  map[*ssa.Function]*fx
	taken []*ssa.Function
	cut   map[*ssa.Function]bool // functions taken to have no effects
}

func (p *Prog) effects() *eff {
	if p.effMemo != nil {
		return p.effMemo
	}
	e := &eff{p: p, locs: map[string]*loc{}, sites: map[string]ssa.Value{}, ids: map[ssa.Instruction]int{}, sum: map[*ssa.Function]*summary{}, full: map[*ssa.Function]*fx{}, taken: p.takenFuncs()}
	p.effMemo = e
	e.solve()
	return e
}

func (e *eff) at(root string, steps ...string) *loc {
	if len(steps) > maxSteps {
		steps = append(append([]string{}, steps[:maxSteps]...), "?")
	}
	k := root + "|" + strings.Join(steps, "")
	if l, ok := e.locs[k]; ok {
		return l
	}
	l := &loc{root, append([]string{}, steps...), k}
	e.locs[k] = l
	return l
}

func (e *eff) add(l *loc, steps ...string) *loc {
	if len(steps) == 0 {
		return l
	}
	if n := len(l.steps); n > 0 && l.steps[n-1] == "?" {
		return l
	}
	for i, s := range steps {
		if s == "?" {
			steps = steps[:i+1]
			break
		}
	}
	return e.at(l.root, append(append([]string{}, l.steps...), steps...)...)
}

func (e *eff) site(v ssa.Value) string {
	ins, _ := v.(ssa.Instruction)
	id, ok := e.ids[ins]
	if !ok {
		id = len(e.ids) + 1
		e.ids[ins] = id
	}
	r := fmt.Sprintf("S%d", id)
	e.sites[r] = v
	return r
}

func hasRefs(t types.Type) bool { return hasRefs1(t, 0) }

func hasRefs1(t types.Type, depth int) bool {
	if depth > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs1(u.Field(i).Type(), depth+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasRefs1(u.Elem(), depth+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs1(u.At(i).Type(), depth+1) {
				return true
			}
		}
		return false
	}
	return true
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// leaves lists the paths of the references inside a value of type t.
func leaves(t types.Type, depth int) [][]string {
	if depth > 6 || !hasRefs(t) {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out [][]string
		for i := 0; i < u.NumFields(); i++ {
			for _, r := range leaves(u.Field(i).Type(), depth+1) {
				out = append(out, append([]string{"." + u.Field(i).Name()}, r...))
			}
		}
		return out
	case *types.Array:
		var out [][]string
		for _, r := range leaves(u.Elem(), depth+1) {
			out = append(out, append([]string{"[]"}, r...))
		}
		return out
	}
	return [][]string{{}}
}

// fx is the analysis of one function.
type fx struct {
	e     *eff
	fn    *ssa.Function
	vals  map[ssa.Value]avals
	tup   map[ssa.Value][]avals
	facts map[*loc]map[factKey]bool
	// by root, for wildcard lookups
	roots   map[string][]*loc
	writes  map[wkey]string
	ret     []avals
	changed bool
	reaches map[*ssa.UnOp]map[*ssa.Store]bool
}

func (e *eff) solve() {
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for f, es := range e.p.graph() {
		for _, ed := range es {
			if callers[ed.callee] == nil {
				callers[ed.callee] = map[*ssa.Function]bool{}
			}
			callers[ed.callee][f] = true
		}
	}
	for _, f := range e.p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					if c := e.closureFn(mc); c != nil {
						if callers[c] == nil {
							callers[c] = map[*ssa.Function]bool{}
						}
						callers[c][f] = true
					}
				}
			}
		}
	}
	// callees first
	order := []*ssa.Function{}
	mark := map[*ssa.Function]bool{}
	g := e.p.graph()
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if mark[f] {
			return
		}
		mark[f] = true
		for _, ed := range g[f] {
			rec(ed.callee)
		}
		for _, a := range f.AnonFuncs {
			rec(a)
		}
		order = append(order, f)
	}
	for _, f := range e.p.Funcs {
		rec(f)
	}
	inq := map[*ssa.Function]bool{}
	queue := append([]*ssa.Function{}, order...)
	for _, f := range order {
		inq[f] = true
	}
	pos := map[*ssa.Function]int{}
	for i, f := range order {
		pos[f] = i
	}
	rounds := map[*ssa.Function]int{}
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		inq[f] = false
		if f.Blocks == nil || e.cut[f] {
			continue
		}
		rounds[f]++
		if rounds[f] > 40 {
			panic("effects of " + fname(f) + " do not settle")
		}
		x := e.analyse(f)
		s := x.summarise()
		old := e.sum[f]
		e.sum[f] = s
		e.full[f] = x
		if old != nil && old.size == s.size {
			continue
		}
		var cs []*ssa.Function
		for c := range callers[f] {
			if !inq[c] {
				cs = append(cs, c)
				inq[c] = true
			}
		}
		sort.Slice(cs, func(i, j int) bool { return pos[cs[i]] < pos[cs[j]] })
		queue = append(queue, cs...)
	}
}

func (e *eff) closureFn(mc *ssa.MakeClosure) *ssa.Function {
	f, _ := mc.Fn.(*ssa.Function)
	if f == nil {
		return nil
	}
	if f.Synthetic != "" {
		f = e.p.unwrap(f)
	}
	if f == nil || f.Blocks == nil || !e.p.owns(f) {
		return nil
	}
	return f
}

func (e *eff) analyse(fn *ssa.Function) *fx {
	x := &fx{e: e, fn: fn, vals: map[ssa.Value]avals{}, tup: map[ssa.Value][]avals{}, facts: map[*loc]map[factKey]bool{}, roots: map[string][]*loc{}, writes: map[wkey]string{}, reaches: map[*ssa.UnOp]map[*ssa.Store]bool{}}
	for i := 0; i < 60; i++ {
		x.changed = false
		x.reaches = map[*ssa.UnOp]map[*ssa.Store]bool{}
		for _, b := range fn.DomPreorder() {
			for _, ins := range b.Instrs {
				x.step(ins)
			}
		}
		if fn.Recover != nil {
			for _, ins := range fn.Recover.Instrs {
				x.step(ins)
			}
		}
		if !x.changed {
			return x
		}
	}
	panic("effects inside " + fname(fn) + " do not settle")
}

func (x *fx) summarise() *summary {
	s := &summary{facts: map[*loc]map[aval]bool{}, writes: map[wkey]string{}, returns: x.ret}
	need := []string{}
	seen := map[string]bool{}
	want := func(v aval) {
		if !v.l.ext() && !seen[v.l.root] {
			seen[v.l.root] = true
			need = append(need, v.l.root)
		}
	}
	put := func(l *loc) {
		for fk := range x.facts[l] {
			if s.facts[l] == nil {
				s.facts[l] = map[aval]bool{}
			}
			if !s.facts[l][fk.v] {
				s.facts[l][fk.v] = true
				s.size++
			}
			want(fk.v)
		}
	}
	for l := range x.facts {
		if l.ext() {
			put(l)
		}
	}
	for _, r := range x.ret {
		for v := range r {
			want(v)
			s.size++
		}
	}
	for len(need) > 0 {
		r := need[0]
		need = need[1:]
		for _, l := range x.roots[r] {
			put(l)
		}
	}
	for k, h := range x.writes {
		if k.l.ext() {
			s.writes[k] = h
			s.size++
		}
	}
	return s
}

func (x *fx) set(v ssa.Value, a avals) {
	cur := x.vals[v]
	for k := range a {
		if !cur[k] {
			if cur == nil {
				cur = avals{}
				x.vals[v] = cur
			}
			cur[k] = true
			x.changed = true
		}
	}
}

func (x *fx) setTup(v ssa.Value, i, n int, a avals) {
	t := x.tup[v]
	if t == nil {
		t = make([]avals, n)
		x.tup[v] = t
	}
	for k := range a {
		if !t[i][k] {
			if t[i] == nil {
				t[i] = avals{}
			}
			t[i][k] = true
			x.changed = true
		}
	}
}

func (x *fx) fact(l *loc, v aval, st *ssa.Store) {
	if v.k == aLeaf && !v.l.ext() {
		return
	}
	m := x.facts[l]
	if m == nil {
		m = map[factKey]bool{}
		x.facts[l] = m
		x.roots[l.root] = append(x.roots[l.root], l)
	}
	k := factKey{v, st}
	if l.ext() && v.l == l && v.k != aAddr {
		return // holds what it held
	}
	if !m[k] {
		m[k] = true
		x.changed = true
	}
}

func (x *fx) write(l *loc, ins ssa.Instruction, how string) {
	k := wkey{l, ins}
	if _, ok := x.writes[k]; !ok {
		x.writes[k] = how
		x.changed = true
	}
}

// get gives what a value may refer to.
func (x *fx) get(v ssa.Value) avals {
	if v == nil || !hasRefs(v.Type()) {
		return nil
	}
	switch y := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Function:
		return nil
	case *ssa.Global:
		return avals{aval{x.e.at("G:" + y.Pkg.Pkg.Name() + "." + y.Name()), aAddr}: true}
	case *ssa.Parameter:
		k := aLeaf
		if isAgg(y.Type()) {
			k = aAgg
		}
		return avals{aval{x.e.at(fmt.Sprintf("P%d", paramIndex(y))), k}: true}
	case *ssa.FreeVar:
		return avals{aval{x.e.at("C", "*", fmt.Sprintf(".$%d", freeIndex(y))), aLeaf}: true}
	}
	return x.vals[v]
}

// deref: the locations references point to.
func (x *fx) deref(a avals) []*loc {
	var out []*loc
	for v := range a {
		switch v.k {
		case aAddr:
			out = append(out, v.l)
		case aLeaf:
			out = append(out, x.e.add(v.l, "*"))
		case aAgg: // a boxed struct that a method is called on, or the like
			out = append(out, v.l)
		}
	}
	return out
}

// lookup: the reference held at a location.
func (x *fx) lookup(l *loc) avals { return x.lookupAt(l, nil) }

// lookupAt: with reach given, direct stores to the local variable count only when listed.
func (x *fx) lookupAt(l *loc, reach map[*ssa.Store]bool) avals {
	out := avals{}
	if l.ext() {
		out[aval{l, aLeaf}] = true
	}
	take := func(m *loc) {
		for fk := range x.facts[m] {
			if reach != nil && fk.st != nil && !reach[fk.st] {
				continue
			}
			out[fk.v] = true
		}
	}
	if n := len(l.steps); n > 0 && l.steps[n-1] == "?" {
		pre := l.steps[:n-1]
		for _, m := range x.roots[l.root] {
			if hasPrefix(m.steps, pre) {
				take(m)
			}
		}
		return out
	}
	take(l)
	for _, m := range x.roots[l.root] {
		if n := len(m.steps); n > 0 && m.steps[n-1] == "?" && hasPrefix(l.steps, m.steps[:n-1]) {
			take(m)
		}
	}
	return out
}

func hasPrefix(s, pre []string) bool {
	if len(s) < len(pre) {
		return false
	}
	for i := range pre {
		if s[i] != pre[i] {
			return false
		}
	}
	return true
}

// load reads a value of type t.
func (x *fx) load(l *loc, t types.Type, reach map[*ssa.Store]bool) avals {
	if !hasRefs(t) {
		return nil
	}
	if isAgg(t) {
		return avals{aval{l, aAgg}: true}
	}
	return x.lookupAt(l, reach)
}

// part takes a field or element of a struct or array value.
func (x *fx) part(a avals, step string, t types.Type) avals {
	out := avals{}
	for v := range a {
		switch v.k {
		case aAgg:
			for w := range x.load(x.e.add(v.l, step), t, nil) {
				out[w] = true
			}
		default:
			for _, l := range x.deref(avals{v: true}) {
				for w := range x.load(x.e.add(l, step), t, nil) {
					out[w] = true
				}
			}
		}
	}
	return out
}

// store records that the value a of type t is put at l.
func (x *fx) store(l *loc, a avals, t types.Type, st *ssa.Store) {
	if !hasRefs(t) {
		return
	}
	if !isAgg(t) {
		for v := range a {
			x.fact(l, v, st)
		}
		return
	}
	for _, lf := range leaves(t, 0) {
		for v := range a {
			m := v.l
			if v.k == aLeaf {
				m = x.e.add(m, "*")
			}
			for w := range x.lookup(x.e.add(m, lf...)) {
				x.fact(x.e.add(l, lf...), w, st)
			}
		}
	}
}

// static: the local variable and path an address denotes. Addresses taken from a local pointer variable
// are followed when only one assignment to that variable can be seen there.
func (x *fx) static(v ssa.Value) (*ssa.Alloc, []string) { return x.staticN(v, 0) }

func (x *fx) staticN(v ssa.Value, depth int) (*ssa.Alloc, []string) {
	var steps []string
	rev := func() []string {
		for i, j := 0, len(steps)-1; i < j; i, j = i+1, j-1 {
			steps[i], steps[j] = steps[j], steps[i]
		}
		return steps
	}
	for {
		switch y := v.(type) {
		case *ssa.Alloc:
			return y, rev()
		case *ssa.FieldAddr:
			steps = append(steps, "."+fieldName(y.X.Type(), y.Field))
			v = y.X
		case *ssa.UnOp:
			if y.Op != token.MUL || depth > 3 {
				return nil, nil
			}
			if _, ok := y.Type().Underlying().(*types.Pointer); !ok {
				return nil, nil
			}
			al, ps := x.staticN(y.X, depth+1)
			if al == nil {
				return nil, nil
			}
			r := x.reaching(y, al, ps)
			if len(r) != 1 {
				return nil, nil
			}
			for fk := range x.facts[x.e.at(x.e.site(al), ps...)] {
				if fk.st == nil {
					return nil, nil
				}
			}
			for st := range r {
				a2, p2 := x.staticN(st.Addr, depth+1)
				if a2 != al || len(p2) != len(ps) {
					return nil, nil
				}
				base, bs := x.staticN(st.Val, depth+1)
				if base == nil {
					return nil, nil
				}
				return base, append(append([]string{}, bs...), rev()...)
			}
		default:
			return nil, nil
		}
	}
}

// reaching: the direct stores to a local variable (or parts of it) that a load may see.
func (x *fx) reaching(ld *ssa.UnOp, al *ssa.Alloc, steps []string) map[*ssa.Store]bool {
	if r, ok := x.reaches[ld]; ok {
		return r
	}
	out := map[*ssa.Store]bool{}
	x.reaches[ld] = out
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, from int)
	back = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			st, ok := b.Instrs[i].(*ssa.Store)
			if !ok {
				if b.Instrs[i] == ssa.Instruction(al) {
					return
				}
				continue
			}
			a, ss := x.static(st.Addr)
			if a != al {
				continue
			}
			if hasPrefix(steps, ss) {
				out[st] = true
				return // the whole of what is loaded is set here
			}
			if hasPrefix(ss, steps) {
				out[st] = true // a part of it
			}
		}
		for _, pr := range b.Preds {
			if !seen[pr] {
				seen[pr] = true
				back(pr, len(pr.Instrs)-1)
			}
		}
	}
	b := ld.Block()
	for i, ins := range b.Instrs {
		if ins == ssa.Instruction(ld) {
			back(b, i-1)
		}
	}
	return out
}

func (x *fx) step(ins ssa.Instruction) {
	e := x.e
	switch y := ins.(type) {
	case *ssa.Alloc:
		x.set(y, avals{aval{e.at(e.site(y)), aAddr}: true})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := y.(ssa.Value)
		x.set(v, avals{aval{e.at(e.site(v)), aAddr}: true})
	case *ssa.MakeClosure:
		l := e.at(e.site(y))
		x.set(y, avals{aval{l, aAddr}: true})
		for i, b := range y.Bindings {
			for v := range x.get(b) {
				x.fact(e.add(l, fmt.Sprintf(".$%d", i)), v, nil)
			}
		}
		if f := e.closureFn(y); f != nil {
			args := make([]avals, len(f.Params))
			if mf, _ := y.Fn.(*ssa.Function); mf != f && len(f.Params) > 0 && len(y.Bindings) > 0 {
				args[0] = x.get(y.Bindings[0])
			}
			x.apply(f, args, avals{aval{l, aAddr}: true})
		}
	case *ssa.MakeInterface:
		x.set(y, x.get(y.X))
	case *ssa.ChangeInterface:
		x.set(y, x.get(y.X))
	case *ssa.ChangeType:
		x.set(y, x.get(y.X))
	case *ssa.Convert:
		if isString(y.X.Type()) && !isString(y.Type()) {
			x.set(y, avals{aval{e.at(e.site(y)), aAddr}: true})
		} else if hasRefs(y.Type()) {
			x.set(y, x.get(y.X))
		}
	case *ssa.SliceToArrayPointer:
		x.set(y, x.get(y.X))
	case *ssa.Phi:
		if hasRefs(y.Type()) {
			for _, ed := range y.Edges {
				x.set(y, x.get(ed))
			}
		}
	case *ssa.FieldAddr:
		for _, l := range x.deref(x.get(y.X)) {
			x.set(y, avals{aval{e.add(l, "."+fieldName(y.X.Type(), y.Field)), aAddr}: true})
		}
	case *ssa.IndexAddr:
		for _, l := range x.deref(x.get(y.X)) {
			x.set(y, avals{aval{e.add(l, "[]"), aAddr}: true})
		}
	case *ssa.Field:
		if hasRefs(y.Type()) {
			x.set(y, x.part(x.get(y.X), "."+fieldName(y.X.Type(), y.Field), y.Type()))
		}
	case *ssa.Index:
		if hasRefs(y.Type()) {
			x.set(y, x.part(x.get(y.X), "[]", y.Type()))
		}
	case *ssa.Lookup:
		if isString(y.X.Type()) {
			return
		}
		et := y.Type()
		if y.CommaOk {
			et = et.(*types.Tuple).At(0).Type()
		}
		for _, l := range x.deref(x.get(y.X)) {
			r := x.load(e.add(l, "[]"), et, nil)
			if y.CommaOk {
				x.setTup(y, 0, 2, r)
			} else {
				x.set(y, r)
			}
		}
	case *ssa.Range:
		x.set(y, x.get(y.X))
	case *ssa.Next:
		if y.IsString {
			return
		}
		tt := y.Type().(*types.Tuple)
		for _, l := range x.deref(x.get(y.Iter)) {
			x.setTup(y, 1, 3, x.load(e.add(l, "[k]"), tt.At(1).Type(), nil))
			x.setTup(y, 2, 3, x.load(e.add(l, "[]"), tt.At(2).Type(), nil))
		}
	case *ssa.Extract:
		if t := x.tup[y.Tuple]; t != nil && hasRefs(y.Type()) {
			x.set(y, t[y.Index])
		}
	case *ssa.TypeAssert:
		if y.CommaOk {
			x.setTup(y, 0, 2, x.get(y.X))
		} else {
			x.set(y, x.get(y.X))
		}
	case *ssa.Slice:
		if !isString(y.X.Type()) {
			x.set(y, x.get(y.X))
		}
	case *ssa.UnOp:
		switch y.Op {
		case token.MUL:
			if !hasRefs(y.Type()) {
				return
			}
			if al, steps := x.static(y.X); al != nil {
				reach := x.reaching(y, al, steps)
				base := e.at(e.site(al), steps...)
				if isAgg(y.Type()) {
					snap := e.at(e.site(y))
					for _, lf := range leaves(y.Type(), 0) {
						r := map[*ssa.Store]bool{}
						for st := range reach {
							_, ss := x.static(st.Addr)
							full := append(append([]string{}, steps...), lf...)
							if hasPrefix(full, ss) && !x.killed(st, ss, full, y, al) {
								r[st] = true
							}
						}
						for v := range x.lookupAt(e.add(base, lf...), r) {
							x.fact(e.add(snap, lf...), v, nil)
						}
					}
					x.set(y, avals{aval{snap, aAgg}: true})
					return
				}
				x.set(y, x.lookupAt(base, reach))
				return
			}
			for _, l := range x.deref(x.get(y.X)) {
				x.set(y, x.load(l, y.Type(), nil))
			}
		case token.ARROW:
			for _, l := range x.deref(x.get(y.X)) {
				r := x.load(e.add(l, "[]"), y.Type(), nil)
				if y.CommaOk {
					x.setTup(y, 0, 2, r)
				} else {
					x.set(y, r)
				}
			}
		}
	case *ssa.Store:
		var direct *ssa.Store
		if al, _ := x.static(y.Addr); al != nil {
			direct = y
		}
		for _, l := range x.deref(x.get(y.Addr)) {
			x.write(l, y, "assigned")
			x.store(l, x.get(y.Val), y.Val.Type(), direct)
		}
	case *ssa.MapUpdate:
		for _, l := range x.deref(x.get(y.Map)) {
			x.write(e.add(l, "[]"), y, "map entry set")
			x.store(e.add(l, "[]"), x.get(y.Value), y.Value.Type(), nil)
			x.store(e.add(l, "[k]"), x.get(y.Key), y.Key.Type(), nil)
		}
	case *ssa.Send:
		for _, l := range x.deref(x.get(y.Chan)) {
			x.store(e.add(l, "[]"), x.get(y.X), y.X.Type(), nil)
		}
	case *ssa.Select:
		// no channels in this code base beyond pipes; received references are unknown
	case *ssa.Return:
		if x.fn.Recover == ins.Block() && len(y.Results) == 0 {
			return
		}
		if x.ret == nil {
			x.ret = make([]avals, len(y.Results))
		}
		for i, r := range y.Results {
			for v := range x.get(r) {
				if x.ret[i] == nil {
					x.ret[i] = avals{}
				}
				if !x.ret[i][v] {
					x.ret[i][v] = true
					x.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		x.call(y)
	}
}

// killed: the store st (to path ss) is overwritten for the path full on every way to the load.
func (x *fx) killed(st *ssa.Store, ss, full []string, ld *ssa.UnOp, al *ssa.Alloc) bool {
	// walk forward from st; is there a way to ld without a store to a prefix of full?
	seen := map[*ssa.BasicBlock]bool{}
	var fwd func(b *ssa.BasicBlock, i int) bool
	fwd = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if ins == ssa.Instruction(ld) {
				return true
			}
			if s2, ok := ins.(*ssa.Store); ok && s2 != st {
				if a, p2 := x.static(s2.Addr); a == al && hasPrefix(full, p2) {
					return false
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if fwd(s, 0) {
					return true
				}
			}
		}
		return false
	}
	b := st.Block()
	for i, ins := range b.Instrs {
		if ins == ssa.Instruction(st) {
			return !fwd(b, i+1)
		}
	}
	return false
}

func (x *fx) call(ci ssa.CallInstruction) {
	e := x.e
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		x.builtin(ci, b)
		return
	}
	var args []avals
	var fv avals
	if cc.IsInvoke() {
		args = append(args, x.get(cc.Value))
	} else {
		fv = x.get(cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, x.get(a))
	}
	cands := e.p.calleesAt(ci, e.taken)
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		if f := e.closureFn(mc); f != nil {
			cands = []*ssa.Function{f}
		}
	}
	res, _ := ci.(ssa.Value)
	nres := cc.Signature().Results().Len()
	for _, f := range cands {
		a := args
		if f.Signature.Recv() != nil && !cc.IsInvoke() && len(f.Params) == len(args)+1 {
			// a bound method called as a function value
			recv := avals{}
			for _, l := range x.deref(fv) {
				for v := range x.lookup(e.add(l, ".$0")) {
					recv[v] = true
				}
			}
			a = append([]avals{recv}, args...)
		}
		ret := x.apply(f, a, fv)
		if res == nil {
			continue
		}
		if e.p.poolTakers()[f] {
			// each call hands out an object of its own
			x.set(res, avals{aval{e.at(e.site(res)), aAddr}: true})
			continue
		}
		for i, r := range ret {
			if nres == 1 {
				x.set(res, r)
			} else if i < nres {
				x.setTup(res, i, nres, r)
			}
		}
	}
	if len(cands) == 0 || cc.IsInvoke() && !e.ownIface(cc.Value.Type()) {
		x.external(ci, args)
	}
}

// ownIface: an interface whose implementations are all in the analysed packages (it has an unexported method).
func (e *eff) ownIface(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if !it.Method(i).Exported() {
			return true
		}
	}
	return false
}

// apply translates the effects of f into the names of the caller and gives its results.
func (x *fx) apply(f *ssa.Function, args []avals, fv avals) []avals {
	s := x.e.sum[f]
	if s == nil {
		return nil
	}
	tr := &trans{x: x, args: args, fv: fv, locs: map[*loc][]*loc{}, busy: map[*loc]bool{}}
	for l, vs := range s.facts {
		ls := tr.loc(l)
		if len(ls) == 0 {
			continue
		}
		for v := range vs {
			for w := range tr.val(v) {
				for _, m := range ls {
					x.fact(m, w, nil)
				}
			}
		}
	}
	for k, how := range s.writes {
		for _, m := range tr.loc(k.l) {
			x.write(m, k.ins, how)
		}
	}
	out := make([]avals, len(s.returns))
	for i, r := range s.returns {
		out[i] = avals{}
		for v := range r {
			for w := range tr.val(v) {
				out[i][w] = true
			}
		}
	}
	return out
}

type trans struct {
	x    *fx
	args []avals
	fv   avals
	locs map[*loc][]*loc
	busy map[*loc]bool
}

// walk follows a path of the callee; it ends in locations (isLoc) or in values.
func (t *trans) walk(l *loc) (ls []*loc, vs avals, isLoc bool) {
	x, e := t.x, t.x.e
	switch l.root[0] {
	case 'G', 'S':
		return []*loc{l}, nil, true
	case 'X':
		return nil, nil, true
	case 'C':
		vs = t.fv
	case 'P':
		var i int
		fmt.Sscanf(l.root, "P%d", &i)
		if i < len(t.args) {
			vs = t.args[i]
		}
	}
	for _, s := range l.steps {
		if !isLoc {
			switch s {
			case "*":
				ls = x.deref(vs)
				isLoc = true
			case "?":
				for _, m := range x.deref(vs) {
					ls = append(ls, e.add(m, "?"))
				}
				isLoc = true
			default:
				// a part of a struct value
				nv := avals{}
				ls = nil
				for v := range vs {
					m := v.l
					if v.k == aLeaf {
						m = e.add(m, "*")
					}
					nv[aval{e.add(m, s), aAgg}] = true
				}
				vs = nv
			}
			continue
		}
		switch s {
		case "*":
			var nl []*loc
			seen := map[*loc]bool{}
			for _, m := range ls {
				for _, d := range x.deref(x.lookup(m)) {
					if !seen[d] {
						seen[d] = true
						nl = append(nl, d)
					}
				}
			}
			ls = nl
		default:
			nl := make([]*loc, 0, len(ls))
			for _, m := range ls {
				nl = append(nl, e.add(m, s))
			}
			ls = nl
		}
	}
	return ls, vs, isLoc
}

func (t *trans) loc(l *loc) []*loc {
	if r, ok := t.locs[l]; ok {
		return r
	}
	ls, _, isLoc := t.walk(l)
	if !isLoc {
		ls = nil
	}
	t.locs[l] = ls
	return ls
}

func (t *trans) val(v aval) avals {
	ls, vs, isLoc := t.walk(v.l)
	out := avals{}
	if !isLoc {
		switch v.k {
		case aAgg:
			return vs
		case aLeaf:
			// a reference inside a struct value, or the argument itself
			for w := range vs {
				if w.k == aAgg && len(v.l.steps) > 0 {
					for u := range t.x.lookup(w.l) {
						out[u] = true
					}
				} else {
					out[w] = true
				}
			}
		}
		return out
	}
	for _, l := range ls {
		switch v.k {
		case aAddr:
			out[aval{l, aAddr}] = true
		case aAgg:
			out[aval{l, aAgg}] = true
		case aLeaf:
			for u := range t.x.lookup(l) {
				out[u] = true
			}
		}
	}
	return out
}

// noSpare: appending to this slice always allocates.
func noSpare(v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Const:
		return y.IsNil()
	case *ssa.Slice:
		return y.Max != nil && y.Max == y.High
	}
	return false
}

func (x *fx) builtin(ci ssa.CallInstruction, b *ssa.Builtin) {
	e := x.e
	cc := ci.Common()
	switch b.Name() {
	case "append":
		res, ok := ci.(*ssa.Call)
		if !ok {
			return
		}
		s := e.at(e.site(res))
		out := avals{aval{s, aAddr}: true}
		et := res.Type().Underlying().(*types.Slice).Elem()
		dst := []*loc{s}
		old := x.get(cc.Args[0])
		for _, l := range x.deref(old) {
			x.copyElems(s, l, et)
			if !noSpare(cc.Args[0]) {
				dst = append(dst, l)
				x.write(e.add(l, "[]"), ci, "appended to")
			}
		}
		if !noSpare(cc.Args[0]) {
			for v := range old {
				out[v] = true
			}
		}
		if len(cc.Args) > 1 && !isString(cc.Args[1].Type()) {
			for _, m := range x.deref(x.get(cc.Args[1])) {
				for _, d := range dst {
					x.copyElems(d, m, et)
				}
			}
		}
		x.set(res, out)
	case "copy":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		for _, l := range x.deref(x.get(cc.Args[0])) {
			x.write(e.add(l, "[]"), ci, "copied into")
			if !isString(cc.Args[1].Type()) {
				for _, m := range x.deref(x.get(cc.Args[1])) {
					x.copyElems(l, m, et)
				}
			}
		}
	case "delete", "clear":
		for _, l := range x.deref(x.get(cc.Args[0])) {
			x.write(e.add(l, "[]"), ci, "entry removed")
		}
	}
}

func (x *fx) copyElems(dst, src *loc, et types.Type) {
	if !hasRefs(et) {
		return
	}
	e := x.e
	for _, lf := range leaves(et, 0) {
		p := append([]string{"[]"}, lf...)
		for v := range x.lookup(e.add(src, p...)) {
			x.fact(e.add(dst, p...), v, nil)
		}
	}
}

// readsOnly: package functions that only read the slices, maps and pointers they are given.
func readsOnly(full string) bool {
	for _, pre := range []string{"fmt.", "errors.", "strings.", "(strings.", "unicode.", "unicode/", "math.", "crypto/md5.Sum", "encoding/hex.EncodeToString", "encoding/hex.DecodeString",
		"bytes.", "strconv.Format", "strconv.Parse", "strconv.Itoa", "strconv.Atoi", "strconv.Quote", "time.", "(time.", "regexp.", "(*regexp.Regexp)", "path", "os.ReadFile", "os.WriteFile", "os.Open", "ioutil.WriteFile", "io/ioutil.WriteFile",
		"image.", "(image.", "image/color.", "(image/color.", "(*image.", "encoding/binary.Size", "log.", "sort.Search", "sort.IsSorted", "sort.SliceIsSorted", "slices.Contains", "slices.Index", "slices.Equal", "maps.Keys", "reflect.TypeOf", "io.WriteString", "io.ReadAll", "io/ioutil.ReadAll", "crypto/rc4.NewCipher",
		"(encoding/binary.bigEndian).Uint", "(encoding/binary.littleEndian).Uint", "(encoding/binary.ByteOrder).Uint", "crypto/sha", "hash/"} {
		if strings.HasPrefix(full, pre) && !strings.HasPrefix(full, "bytes.NewBuffer") {
			return true
		}
	}
	return false
}

func methodName(full string) string {
	if i := strings.LastIndex(full, "."); i >= 0 {
		return full[i+1:]
	}
	return full
}

// external models a call of a function outside the analysed packages.
func (x *fx) external(ci ssa.CallInstruction, args []avals) {
	e := x.e
	cc := ci.Common()
	full := fullCallee(cc)
	sig := cc.Signature()
	isMethod := cc.IsInvoke() || sig.Recv() != nil
	name := methodName(full)
	var types0 []types.Type
	if cc.IsInvoke() {
		types0 = append(types0, cc.Value.Type())
	}
	for _, a := range cc.Args {
		types0 = append(types0, a.Type())
	}
	ins := ci.(ssa.Instruction)
	ro := readsOnly(full)
	for i, t := range types0 {
		if !hasRefs(t) {
			continue
		}
		recv := i == 0 && isMethod
		switch u := t.Underlying().(type) {
		case *types.Slice:
			hit := false
			switch {
			case recv:
				hit = !ro
			case ro:
			case name == "Write" || name == "WriteString" || name == "WriteByte" || name == "Fprintf" || name == "Encode" && i == 1 && strings.Contains(full, "hex"):
			case strings.HasPrefix(full, "(*math/big.") && name != "FillBytes" && !(name == "SetBits"):
			case full == "(*crypto/rc4.Cipher).XORKeyStream" && i == 2, strings.HasSuffix(full, ".Encrypt") && i == 2, strings.HasSuffix(full, ".Decrypt") && i == 2:
			default:
				hit = true
			}
			if hit {
				for _, l := range x.deref(args[i]) {
					x.extWrite(e.add(l, "[]"), ins, "written by "+full)
				}
			}
		case *types.Pointer, *types.Interface, *types.Map:
			_ = u
			if recv && pureMethod(full, name) {
				continue
			}
			if ro && !(i == 0 && (strings.HasPrefix(full, "fmt.Fprint") || full == "io.WriteString" || full == "io.ReadAll" || full == "io/ioutil.ReadAll")) {
				continue
			}
			if pt, ok := t.Underlying().(*types.Pointer); ok && !recv {
				// a pointer to a value handed to a library function: it may be filled in
				if nt, ok := pt.Elem().(*types.Named); ok && nt.Obj().Pkg() != nil && e.p.inPkg[nt.Obj().Pkg()] && !strings.Contains(full, "Read") && !strings.Contains(full, "Unmarshal") && !strings.Contains(full, "Decode") {
					continue
				}
			}
			for _, l := range x.deref(args[i]) {
				x.extWrite(l, ins, "written by "+full)
			}
		}
	}
	// what a method of a library value may keep
	if isMethod && len(args) > 1 && !ro && !pureMethod(full, name) {
		for i := 1; i < len(args); i++ {
			if _, isSl := types0[i].Underlying().(*types.Slice); isSl && keepsNoSlice(name) {
				continue
			}
			for _, l := range x.deref(args[0]) {
				for v := range args[i] {
					x.fact(e.add(l, "?"), v, nil)
				}
			}
		}
	}
	// results
	v, ok := ci.(ssa.Value)
	if !ok {
		return
	}
	n := sig.Results().Len()
	for i := 0; i < n; i++ {
		rt := sig.Results().At(i).Type()
		if !hasRefs(rt) || isErrorType(rt) {
			continue
		}
		s := e.at(e.site(v))
		out := avals{}
		if isAgg(rt) {
			out[aval{s, aAgg}] = true
		} else {
			out[aval{s, aAddr}] = true
		}
		if !copies(full) {
			for j, a := range args {
				if isMethod && j == 0 {
					continue
				}
				for w := range a {
					x.fact(e.add(s, "?"), w, nil)
				}
			}
			if isMethod && full != "(*sync.Pool).Get" {
				for _, l := range x.deref(args[0]) {
					q := e.add(l, "?")
					if !isAgg(rt) {
						out[aval{q, aAddr}] = true
						for w := range x.lookup(q) {
							out[w] = true
						}
					} else {
						for w := range x.lookup(q) {
							x.fact(e.add(s, "?"), w, nil)
						}
					}
				}
			}
		}
		if n == 1 {
			x.set(v, out)
		} else {
			x.setTup(v, i, n, out)
		}
	}
}

// extWrite: a library function writes into a value; it may write everything that value holds.
func (x *fx) extWrite(l *loc, ins ssa.Instruction, how string) {
	seen := map[*loc]bool{}
	var rec func(l *loc, d int)
	rec = func(l *loc, d int) {
		if seen[l] || d > 6 {
			return
		}
		seen[l] = true
		x.write(l, ins, how)
		if !l.ext() {
			for v := range x.lookup(x.e.add(l, "?")) {
				for _, m := range x.deref(avals{v: true}) {
					rec(m, d+1)
				}
			}
		}
	}
	rec(l, 0)
}

func keepsNoSlice(name string) bool {
	return strings.HasPrefix(name, "Write") || strings.HasPrefix(name, "Read") || name == "XORKeyStream" || name == "SetBytes" || name == "Sum" || strings.HasPrefix(name, "Put") || strings.HasPrefix(name, "Uint") || strings.HasPrefix(name, "Append")
}

// copies: the result of the function shares nothing with its arguments.
func copies(full string) bool {
	switch full {
	case "io.ReadAll", "io/ioutil.ReadAll", "os.ReadFile", "bytes.Clone", "bytes.Repeat", "bytes.Join", "bytes.ToUpper", "bytes.ToLower", "bytes.ReplaceAll", "bytes.Replace", "slices.Clone", "maps.Clone",
		"strings.Split", "strings.Fields", "strings.SplitN", "encoding/hex.DecodeString", "crypto/rc4.NewCipher", "(*sync.Pool).Get", "os.Open", "os.Create":
		return true
	}
	return strings.HasPrefix(full, "fmt.") || strings.HasPrefix(full, "errors.") || strings.HasPrefix(full, "time.") || strings.HasPrefix(full, "image/") && methodName(full) == "Decode" || strings.HasPrefix(full, "image.Decode")
}

// pureMethod: library methods that do not change their receiver.
func pureMethod(full, name string) bool {
	switch name {
	case "Bytes", "String", "Len", "Cap", "Error", "Bounds", "At", "ColorModel", "RGBA", "Name", "Is", "Format", "Year", "Size", "IsZero", "Load", "RLock", "Available", "Buffered", "GetImportedObjHashPos", "Range":
		return true
	}
	return strings.HasPrefix(full, "(time.") || strings.HasPrefix(full, "(image") || strings.HasPrefix(full, "(*image") || strings.HasPrefix(full, "(reflect.")
}
