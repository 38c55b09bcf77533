package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["O02"] = checkO02 }

// serialisers: the write methods of the objects and content elements of a document: implementations of the
// unexported write method of an interface of the library.
func (p *Prog) serialisers() []*ssa.Function {
	var ifs []*types.Interface
	for _, m := range p.Root.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		it, ok := t.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			if it.Method(i).Name() == "write" {
				ifs = append(ifs, it)
			}
		}
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, n := range p.namedTypes() {
		for _, it := range ifs {
			for _, t := range []types.Type{n, types.NewPointer(n)} {
				if _, isIf := n.Underlying().(*types.Interface); isIf || !types.Implements(t, it) {
					continue
				}
				if f := p.methodOf(n, "write"); f != nil && !seen[f] {
					seen[f] = true
					out = append(out, f)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// outputRoutes: the public calls of the document from which objects are serialised.
func (p *Prog) outputRoutes(ser []*ssa.Function) []*ssa.Function {
	doc := p.namedType("GoPdf")
	if doc == nil {
		return nil
	}
	objs := map[*ssa.Function]bool{}
	for _, f := range ser {
		objs[f] = true
	}
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		r := fn.Signature.Recv()
		if r == nil || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || !types.Identical(deref(r.Type()), doc) {
			continue
		}
		for g := range p.reach(fn) {
			if objs[g] {
				out = append(out, fn)
				break
			}
		}
	}
	return out
}

type stateWrite struct {
	key  string
	ins  ssa.Instruction
	how  string
	app  bool // an append to a list
	path string
}

// fieldOfAddr: the struct field an address lies in (through elements of slices, arrays and maps held in it).
func fieldOfAddr(v ssa.Value, depth int) string {
	if depth > 8 {
		return ""
	}
	switch y := v.(type) {
	case *ssa.FieldAddr:
		return fieldPath(y.X.Type(), y.Field)
	case *ssa.IndexAddr:
		return fieldOfAddr(y.X, depth+1)
	case *ssa.Slice:
		return fieldOfAddr(y.X, depth+1)
	case *ssa.UnOp:
		if y.Op == token.MUL {
			return fieldOfAddr(y.X, depth+1)
		}
	case *ssa.Field:
		return fieldPath(y.X.Type(), y.Field)
	case *ssa.MakeInterface:
		return fieldOfAddr(y.X, depth+1)
	case *ssa.ChangeType:
		return fieldOfAddr(y.X, depth+1)
	case *ssa.TypeAssert:
		return fieldOfAddr(y.X, depth+1)
	case *ssa.Extract:
		return fieldOfAddr(y.Tuple, depth+1)
	case *ssa.Lookup:
		return fieldOfAddr(y.X, depth+1)
	}
	return ""
}

func isBufferType(t types.Type) bool {
	n, ok := deref(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer" || n.Obj().Pkg().Path() == "strings" && n.Obj().Name() == "Builder")
}

// getter: a read-only call of an interface of the library that users implement.
func getter(how string) bool {
	i := strings.LastIndex(how, ").Get")
	return strings.HasPrefix(how, "written by (") && i > 0
}

type outputCheck struct {
	p      *Prog
	res    *Result
	routes []*ssa.Function
	in     map[*ssa.Function]bool // functions that run during output
	writes []stateWrite
	leadM  map[*ssa.Function]map[*ssa.Function]bool
	stores map[string][]*ssa.Store
}

func checkO02(p *Prog) *Result {
	res := newResult("interprocedural effect analysis of serialising; order of reads and writes of document state during output",
		"interfaces a user implements (fonts of the old kind, readers) do not change when their getters are called",
		"the third-party importer does not change the objects it has handed over")
	e := p.effects()
	ser := p.serialisers()
	// 1. serialising an object or element changes nothing but the destination
	for _, fn := range ser {
		s := e.sum[fn]
		said := map[string]bool{}
		for _, k := range sortedWrites(s) {
			if k.l.root != "P0" && k.l.root[0] != 'G' {
				continue
			}
			if k.l.root[0] == 'G' {
				if g := p.globalOf(k.l); g != nil && syncType(deref(g.Type())) != "" {
					continue
				}
				if p.globalOf(k.l) == nil {
					continue // a variable of another package (os.Stderr)
				}
			}
			if getter(s.writes[k]) || p.isLock(fn, k.l) {
				continue
			}
			n := niceLoc(fn, k.l)
			if said[n] {
				continue
			}
			said[n] = true
			res.add("serialise", fname(fn), n, p.insPos(k.ins), "writing the object out changes it: %s is %s (in %s)", n, s.writes[k], fname(k.ins.Parent()))
		}
		kept := map[string]bool{}
		e.held(s, func(dst *loc, v aval) {
			if dst.root == "P0" && v.l.root != "P0" && !kept[dst.key] {
				kept[dst.key] = true
				res.add("serialise", fname(fn), "keeps "+niceLoc(fn, dst), p.pos(fn.Pos()), "writing the object out leaves a reference in %s", niceLoc(fn, dst))
			}
		})
	}
	// 2. output as a whole
	c := &outputCheck{p: p, res: res, routes: p.outputRoutes(ser)}
	c.run(ser)
	// 3. bytes handed to the caller stay as they are
	p.returnedBuffers(res, c)
	res.floor("serialising methods", len(ser), 30)
	res.floor("output routes", len(c.routes), 3)
	res.floor("functions that run during output", len(c.in), 100)
	res.floor("changes of document state during output", len(c.writes), 1)
	return res
}

// isLock: the location is a mutex.
func (p *Prog) isLock(fn *ssa.Function, l *loc) bool {
	t := typeAt(fn, l)
	if t == nil {
		return false
	}
	switch syncType(t) {
	case "Mutex", "RWMutex", "Once", "Pool":
		return true
	}
	return false
}

func (c *outputCheck) run(ser []*ssa.Function) {
	p, e := c.p, c.p.effects()
	c.in = p.reach(c.routes...)
	isSer := map[*ssa.Function]bool{}
	for _, f := range ser {
		isSer[f] = true
	}
	under := p.reach(ser...)
	seen := map[ssa.Instruction]bool{}
	for _, r := range c.routes {
		s := e.sum[r]
		for _, k := range sortedWrites(s) {
			if k.l.root != "P0" || seen[k.ins] || getter(s.writes[k]) || p.isLock(r, k.l) {
				continue
			}
			// the output buffer of the document
			if c.inBuffer(r, k.l) {
				continue
			}
			seen[k.ins] = true
			if under[k.ins.Parent()] && !c.alsoOutside(k.ins.Parent(), isSer) {
				continue // reported above for the serialising method
			}
			w := stateWrite{ins: k.ins, how: s.writes[k], path: niceLoc(r, k.l)}
			switch y := k.ins.(type) {
			case *ssa.Store:
				w.key = fieldOfAddr(y.Addr, 0)
				if w.key != "" && c.kept(w.key, y.Val, 0) {
					continue
				}
				if cl, ok := y.Val.(*ssa.Call); ok {
					if b, ok := cl.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
						w.app = true
					}
				}
			case *ssa.MapUpdate:
				w.key = fieldOfAddr(y.Map, 0)
			case ssa.CallInstruction:
				args := y.Common().Args
				if b, ok := y.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
					w.app = true
				}
				if len(args) > 0 {
					w.key = fieldOfAddr(args[0], 0)
				}
			}
			if w.key == "" {
				w.key = "?" + lastField(k.l.steps)
			}
			c.writes = append(c.writes, w)
		}
	}
	// reads of fields, during output and during building
	reads := map[string][]ssa.Instruction{}
	building := map[string]ssa.Instruction{}
	outside := c.buildingFuncs()
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				k := readOf(ins)
				if k == "" {
					continue
				}
				if c.in[fn] {
					reads[k] = append(reads[k], ins)
				}
				if outside[fn] {
					if building[k] == nil {
						building[k] = ins
					}
				}
			}
		}
	}
	c.stores = map[string][]*ssa.Store{}
	for f := range c.in {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if k := fieldOfAddr(st.Addr, 0); k != "" {
						c.stores[k] = append(c.stores[k], st)
					}
				}
			}
		}
	}
	for _, w := range c.writes {
		if w.app {
			if !c.guarded(w) {
				c.res.add("added", fname(w.ins.Parent()), w.path, p.insPos(w.ins), "every output adds to %s: the document grows each time it is written (no condition that the first output makes false)", w.path)
			}
			continue
		}
		if g := c.staleGuard(w); g != nil {
			c.res.add("skipped", fname(w.ins.Parent()), w.path, p.insPos(w.ins), "%s is brought up to date only under a condition (%s) that output itself changes: what is built after the first output is not taken over", w.path, p.insPos(g))
		}
		for _, r := range reads[w.key] {
			if r == w.ins || !c.mayPrecede(r, w.ins) || c.resetBefore(w.key, r, 0, map[*ssa.Function]bool{}) {
				continue
			}
			if c.onlyGuards(r) {
				continue
			}
			c.res.add("depends", fname(w.ins.Parent()), w.path, p.insPos(w.ins), "output changes %s, which output itself reads before (%s in %s): writing the document again gives something else", w.path, p.insPos(r), fname(r.Parent()))
			break
		}
		if b := building[w.key]; b != nil {
			c.res.add("building", fname(w.ins.Parent()), w.path, p.insPos(w.ins), "output changes %s, which %s reads: building cannot go on as before after output", w.path, fname(b.Parent()))
		}
	}
}

// inBuffer: the memory of a buffer field of the document that collects the output.
func (c *outputCheck) inBuffer(fn *ssa.Function, l *loc) bool {
	for i := range l.steps {
		t := typeAt(fn, &loc{root: l.root, steps: l.steps[:i+1]})
		if t == nil {
			return false
		}
		if isBufferType(t) {
			return true
		}
	}
	return false
}

// alsoOutside: the function also runs during output in other ways than below a serialising method.
func (c *outputCheck) alsoOutside(fn *ssa.Function, ser map[*ssa.Function]bool) bool {
	seen := map[*ssa.Function]bool{}
	g := c.p.graph()
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == fn {
			return true
		}
		if seen[f] || ser[f] {
			return false
		}
		seen[f] = true
		for _, ed := range g[f] {
			if rec(ed.callee) {
				return true
			}
		}
		return false
	}
	for _, r := range c.routes {
		if rec(r) {
			return true
		}
	}
	return false
}

// buildingFuncs: what public calls other than the output routes run.
func (c *outputCheck) buildingFuncs() map[*ssa.Function]bool {
	isRoute := map[*ssa.Function]bool{}
	for _, r := range c.routes {
		isRoute[r] = true
	}
	seen := map[*ssa.Function]bool{}
	g := c.p.graph()
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] || isRoute[f] {
			return
		}
		seen[f] = true
		for _, ed := range g[f] {
			rec(ed.callee)
		}
	}
	doc := c.p.namedType("GoPdf")
	for _, f := range c.p.documentCalls() {
		if !isRoute[f] && types.Identical(deref(f.Signature.Recv().Type()), doc) {
			rec(f)
		}
	}
	return seen
}

// readOf: the field an instruction reads.
func readOf(ins ssa.Instruction) string {
	switch y := ins.(type) {
	case *ssa.UnOp:
		if y.Op == token.MUL {
			if fa, ok := y.X.(*ssa.FieldAddr); ok {
				if _, isPtr := y.Type().Underlying().(*types.Pointer); isPtr {
					return fieldPath(fa.X.Type(), fa.Field)
				}
				return fieldPath(fa.X.Type(), fa.Field)
			}
		}
	case *ssa.Field:
		return fieldPath(y.X.Type(), y.Field)
	}
	return ""
}

// leads: the instructions of fn that are the target or lead to the function it is in.
func (c *outputCheck) leads(fn *ssa.Function, target ssa.Instruction) []ssa.Instruction {
	var out []ssa.Instruction
	if target.Parent() == fn {
		out = append(out, target)
	}
	up := c.leadTo(target.Parent())
	for _, ed := range c.p.graph()[fn] {
		if ed.callee == target.Parent() || up[ed.callee] {
			if ed.site != nil {
				out = append(out, ed.site.(ssa.Instruction))
			}
		}
	}
	return out
}

func (c *outputCheck) leadTo(f *ssa.Function) map[*ssa.Function]bool {
	if c.leadM == nil {
		c.leadM = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	if m, ok := c.leadM[f]; ok {
		return m
	}
	m := c.p.reachers(f)
	c.leadM[f] = m
	return m
}

// mayPrecede: in one run of an output route, r can be executed before w.
func (c *outputCheck) mayPrecede(r, w ssa.Instruction) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] || !c.in[f] {
			return false
		}
		seen[f] = true
		as, bs := c.leads(f, r), c.leads(f, w)
		for _, a := range as {
			for _, b := range bs {
				if a != b && reachesIns(a, b) {
					return true
				}
				if a == b {
					if a == r && a == w {
						continue
					}
					for _, ed := range c.p.graph()[f] {
						if ed.site != nil && ed.site.(ssa.Instruction) == a && rec(ed.callee) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	for _, rt := range c.routes {
		if rec(rt) {
			return true
		}
	}
	return false
}

// resetBefore: on every way through output to the read, the field has been given a value that owes nothing
// to the last output.
func (c *outputCheck) resetBefore(key string, r ssa.Instruction, depth int, busy map[*ssa.Function]bool) bool {
	fn := r.Parent()
	if depth > 6 || busy[fn] {
		return false
	}
	for _, st := range c.stores[key] {
		if st.Parent() == fn && st != r && dominates(st, r) && c.freshValue(st.Val) {
			return true
		}
	}
	for _, ed := range c.p.graph()[fn] {
		if ed.site == nil || !dominates(ed.site.(ssa.Instruction), r) {
			continue
		}
		for _, st := range c.stores[key] {
			if st.Parent() == ed.callee && alwaysRuns(st) && c.freshValue(st.Val) {
				return true
			}
		}
	}
	// in every caller that runs during output
	n := 0
	busy[fn] = true
	defer delete(busy, fn)
	for f := range c.in {
		for _, ed := range c.p.graph()[f] {
			if ed.callee != fn || ed.site == nil {
				continue
			}
			n++
			if !c.resetBefore(key, ed.site.(ssa.Instruction), depth+1, busy) {
				return false
			}
		}
	}
	for _, rt := range c.routes {
		if rt == fn {
			return false
		}
	}
	return n > 0
}

// freshValue: a constant, a new slice or map, or a value made of such.
func (c *outputCheck) freshValue(v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Slice:
		if al, ok := y.X.(*ssa.Alloc); ok {
			_ = al
			return true
		}
	case *ssa.MakeInterface:
		return c.freshValue(y.X)
	}
	return false
}

// kept: the value stored is the one the field has.
func (c *outputCheck) kept(key string, v ssa.Value, depth int) bool {
	if i, ok := v.(ssa.Instruction); ok && readOf(i) == key {
		return true
	}
	pm, ok := v.(*ssa.Parameter)
	if !ok || depth > 3 {
		return false
	}
	n := 0
	for f := range c.in {
		for _, ed := range c.p.graph()[f] {
			if ed.callee != pm.Parent() {
				continue
			}
			ci, ok := ed.site.(ssa.CallInstruction)
			if !ok || ci.Common().StaticCallee() != pm.Parent() {
				return false
			}
			n++
			if !c.kept(key, ci.Common().Args[paramIndex(pm)], depth+1) {
				return false
			}
		}
	}
	return n > 0
}

// onlyGuards: the value read decides only whether things are added to the document.
func (c *outputCheck) onlyGuards(r ssa.Instruction) bool {
	v, ok := r.(ssa.Value)
	if !ok {
		return false
	}
	ifs := branchesOn(v, 0)
	if len(ifs) == 0 {
		return false
	}
	for _, br := range ifs {
		for _, w := range c.writes {
			if w.app {
				continue
			}
			for _, l := range c.leads(r.Parent(), w.ins) {
				if controlledBy(br, l.Block()) {
					return false
				}
			}
		}
		// and nothing is written to the destination under it
		for _, b := range r.Parent().Blocks {
			if !controlledBy(br, b) {
				continue
			}
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					for _, a := range ci.Common().Args {
						if isWriter(a.Type()) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func isWriter(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == "Write" {
			s := ms.At(i).Obj().Type().(*types.Signature)
			if s.Params().Len() == 1 && isBytes(s.Params().At(0).Type()) {
				return true
			}
		}
	}
	return false
}

// branchesOn: the conditional branches a value decides; nil when it is used in any other way.
func branchesOn(v ssa.Value, depth int) []*ssa.If {
	if depth > 4 || v.Referrers() == nil {
		return nil
	}
	var out []*ssa.If
	for _, r := range *v.Referrers() {
		switch y := r.(type) {
		case *ssa.DebugRef:
		case *ssa.If:
			out = append(out, y)
		case *ssa.BinOp:
			switch y.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				return nil
			}
			o := branchesOn(y, depth+1)
			if o == nil {
				return nil
			}
			out = append(out, o...)
		case *ssa.UnOp:
			if y.Op != token.NOT {
				return nil
			}
			o := branchesOn(y, depth+1)
			if o == nil {
				return nil
			}
			out = append(out, o...)
		case *ssa.Phi:
			o := branchesOn(y, depth+1)
			if o == nil {
				return nil
			}
			out = append(out, o...)
		default:
			return nil
		}
	}
	return out
}

// controlledBy: the block runs only for one outcome of the branch.
func controlledBy(br *ssa.If, b *ssa.BasicBlock) bool {
	for _, s := range br.Block().Succs {
		if len(s.Preds) == 1 && s.Dominates(b) {
			return true
		}
	}
	return false
}

// guarded: the addition happens under a condition on a field that output sets, and that is not reset.
func (c *outputCheck) guarded(w stateWrite) bool {
	ok := false
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function, g bool) bool // every way from f to w is guarded
	rec = func(f *ssa.Function, g bool) bool {
		all := true
		for _, l := range c.leads(f, w.ins) {
			lg := g || c.guardAt(l)
			if lg {
				ok = true
				continue
			}
			if l == w.ins {
				all = false
				continue
			}
			for _, ed := range c.p.graph()[f] {
				if ed.site == nil || ed.site.(ssa.Instruction) != l || !(ed.callee == w.ins.Parent() || c.leadTo(w.ins.Parent())[ed.callee]) {
					continue
				}
				if seen[ed.callee] {
					continue
				}
				seen[ed.callee] = true
				if !rec(ed.callee, false) {
					all = false
				}
				delete(seen, ed.callee)
			}
		}
		return all
	}
	for _, r := range c.routes {
		if !rec(r, false) {
			return false
		}
	}
	return ok
}

// guardAt: the instruction runs only under a test of a field that output itself sets afterwards.
func (c *outputCheck) guardAt(ins ssa.Instruction) bool {
	fn := ins.Parent()
	for _, b := range fn.Blocks {
		for _, r := range b.Instrs {
			k := readOf(r)
			if k == "" {
				continue
			}
			set := false
			for _, w := range c.writes {
				if w.key == k && !w.app && c.mayPrecede(ins, w.ins) {
					set = true
				}
			}
			if !set || c.resetBefore(k, r, 0, map[*ssa.Function]bool{}) {
				continue
			}
			v, ok := r.(ssa.Value)
			if !ok {
				continue
			}
			for _, br := range branchesOn(v, 0) {
				if controlledBy(br, ins.Block()) {
					return true
				}
			}
		}
	}
	return false
}

// staleGuard: a condition on state set by output under which the update happens: later outputs leave it out.
func (c *outputCheck) staleGuard(w stateWrite) ssa.Instruction {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) ssa.Instruction
	rec = func(f *ssa.Function) ssa.Instruction {
		if seen[f] {
			return nil
		}
		seen[f] = true
		for _, l := range c.leads(f, w.ins) {
			if g := c.outputGuard(l, w.key); g != nil {
				return g
			}
			for _, ed := range c.p.graph()[f] {
				if ed.site != nil && ed.site.(ssa.Instruction) == l && (ed.callee == w.ins.Parent() || c.leadTo(w.ins.Parent())[ed.callee]) {
					if g := rec(ed.callee); g != nil {
						return g
					}
				}
			}
		}
		return nil
	}
	for _, r := range c.routes {
		if g := rec(r); g != nil {
			return g
		}
	}
	return nil
}

// outputGuard: the test of state that output changes under which the instruction runs.
func (c *outputCheck) outputGuard(ins ssa.Instruction, self string) ssa.Instruction {
	fn := ins.Parent()
	stream := fn.Signature.Recv() != nil && fn.Name() == "Read" && fn.Signature.Params().Len() == 1 && isBytes(fn.Signature.Params().At(0).Type())
	for _, b := range fn.Blocks {
		for _, r := range b.Instrs {
			k, changed := readOf(r), false
			if cl, ok := r.(*ssa.Call); ok && len(cl.Call.Args) == 1 && isBufferType(cl.Call.Args[0].Type()) {
				// what is in the output buffer; a stream that hands out the output goes on with it
				if k = fieldOfAddr(cl.Call.Args[0], 0); k != "" {
					changed = !stream
				}
			}
			if k == "" || k == self {
				continue
			}
			for _, w := range c.writes {
				if w.key == k && !w.app {
					changed = true
				}
			}
			if !changed {
				continue
			}
			for _, br := range branchesOn(r.(ssa.Value), 0) {
				if controlledBy(br, ins.Block()) && !c.resetBefore(k, r, 0, map[*ssa.Function]bool{}) {
					return r
				}
			}
		}
	}
	return nil
}

// returnedBuffers: a field of buffer type whose bytes are handed to the caller is not cleared and filled
// again, but replaced, before the next output.
func (p *Prog) returnedBuffers(res *Result, c *outputCheck) {
	handed := map[string]*ssa.Function{}
	for _, fn := range p.publicFuncs() {
		for _, r := range returnsOf(fn) {
			for _, v := range retVals(r) {
				if k := p.bufferField(v, 0); k != "" {
					handed[k] = fn
				}
			}
		}
	}
	n := 0
	var keys []string
	for k := range handed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		n++
		for _, fn := range p.Funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					cc := ci.Common()
					full := fullCallee(cc)
					if (full == "(*bytes.Buffer).Reset" || full == "(*bytes.Buffer).Truncate") && fieldOfAddr(cc.Args[0], 0) == k {
						res.add("returned", fname(fn), full, p.insPos(ins), "%s hands out the bytes of %s, and the buffer is cleared for reuse here: the next output overwrites the bytes the caller has", fname(handed[k]), k)
						continue
					}
					// the buffer is passed on to be written: it must be new
					for ai, a := range cc.Args {
						if fieldOfAddr(a, 0) != k || !isWriter(a.Type()) || strings.HasPrefix(full, "(*bytes.Buffer).") {
							continue
						}
						if p.setBefore(k, ins) {
							continue
						}
						if cal := cc.StaticCallee(); cal != nil && cal.Blocks != nil && p.owns(cal) && p.setBeforeUses(k, cal, ai) {
							continue
						}
						res.add("returned", fname(fn), full, p.insPos(ins), "%s hands out the bytes of %s, and the buffer is written again here without being replaced", fname(handed[k]), k)
					}
				}
			}
		}
	}
	res.Counts["buffers whose bytes are handed out"] = n
}

// bufferField: the field whose buffer the bytes belong to.
func (p *Prog) bufferField(v ssa.Value, depth int) string {
	if depth > 4 {
		return ""
	}
	switch y := v.(type) {
	case *ssa.Call:
		if fullCallee(&y.Call) == "(*bytes.Buffer).Bytes" {
			if fa, ok := y.Call.Args[0].(*ssa.FieldAddr); ok {
				return fieldPath(fa.X.Type(), fa.Field)
			}
			return fieldOfAddr(y.Call.Args[0], 0)
		}
		if f := y.Call.StaticCallee(); f != nil && f.Blocks != nil && p.owns(f) {
			for _, r := range returnsOf(f) {
				for _, x := range retVals(r) {
					if k := p.bufferField(x, depth+1); k != "" {
						return k
					}
				}
			}
		}
	case *ssa.Extract:
		return p.bufferField(y.Tuple, depth+1)
	case *ssa.Slice:
		return p.bufferField(y.X, depth+1)
	case *ssa.Phi:
		for _, e := range y.Edges {
			if k := p.bufferField(e, depth+1); k != "" {
				return k
			}
		}
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok {
			whole, _ := allocStores(al)
			for _, st := range whole {
				if k := p.bufferField(st.Val, depth+1); k != "" {
					return k
				}
			}
		}
	}
	return ""
}

// setBefore: the field is assigned anew on every way to the instruction, within its function.
func (p *Prog) setBefore(key string, at ssa.Instruction) bool {
	for _, b := range at.Parent().Blocks {
		for _, ins := range b.Instrs {
			if ins == at || !dominates(ins, at) {
				continue
			}
			if p.assigns(key, ins, 0) {
				return true
			}
		}
	}
	return false
}

func (p *Prog) assigns(key string, ins ssa.Instruction, depth int) bool {
	switch y := ins.(type) {
	case *ssa.Store:
		if fa, ok := y.Addr.(*ssa.FieldAddr); ok {
			return fieldPath(fa.X.Type(), fa.Field) == key
		}
	case ssa.CallInstruction:
		f := y.Common().StaticCallee()
		if f == nil || f.Blocks == nil || !p.owns(f) || depth > 3 {
			return false
		}
		for _, b := range f.Blocks {
			for _, i2 := range b.Instrs {
				if alwaysRuns(i2) && p.assigns(key, i2, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// setBeforeUses: the function assigns the field anew before anything uses its i-th parameter.
func (p *Prog) setBeforeUses(key string, fn *ssa.Function, i int) bool {
	if i >= len(fn.Params) {
		return false
	}
	for _, r := range *fn.Params[i].Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		if !p.setBefore(key, r) {
			return false
		}
	}
	return true
}

// fieldPath: "Type.field".
func fieldPath(t types.Type, i int) string {
	return fkey(t, i).typ + "." + fieldName(t, i)
}
