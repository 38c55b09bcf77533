package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["L06"] = checkL06 }

// L06: when an object already made is used again, the question asked to find it covers everything the object was made from.

type keyed struct {
	p       *Prog
	res     *Result
	adders  map[*ssa.Function]bool
	doc     *types.Named
	touches map[*ssa.Function]map[string]int // 1 looked up, 2 saved
	reset   map[*ssa.Function]bool
	start   map[*ssa.Function]bool
	inserts map[string][]insertion // by table
}

type tableUse struct {
	table string // struct type and field
	q     *preds
	ins   ssa.Instruction
	look  *ssa.Lookup
	upd   *ssa.MapUpdate
	hits  []factSet // of a search: what is known of the entry found
	entry string
}

type insertion struct {
	fn     *ssa.Function
	obj    *ssa.Alloc // the object added with it
	consts map[string]string
	stored map[string]string // what each field of the entry was stored from
}

func checkL06(p *Prog) *Result {
	res := newResult("backward slices: everything the reused object is built from must be among what the lookup key (or the entry's compared fields) is built from; the key must tell its parts apart; tables are emptied with the document",
		"an image file is not changed while a document is built; an ImageHolder supplied by the caller gives different data different IDs; MD5/SHA digests do not collide")
	k := &keyed{p: p, res: res, adders: map[*ssa.Function]bool{}, touches: map[*ssa.Function]map[string]int{}, inserts: map[string][]insertion{}}
	k.doc = p.namedType("GoPdf")
	if k.doc == nil {
		res.add("anchor", "", "GoPdf", "", "the document type was not found")
		return res
	}
	k.findAdders()
	if len(k.adders) == 0 {
		res.add("anchor", "", "pdfObjs", "", "no function that adds an object to the document was found")
		return res
	}
	k.scan()
	n := k.sites()
	res.floor("lookups of objects already made", n, 4)
	k.identities()
	k.resets()
	return res
}

// objectsField: the document's list of objects.
func (k *keyed) objectsField(fa *ssa.FieldAddr) bool {
	if !types.Identical(deref(fa.X.Type()), k.doc) {
		return false
	}
	sl, ok := deref(fa.Type()).Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n, ok := sl.Elem().(*types.Named)
	return ok && n.Obj().Name() == "IObj"
}

func (k *keyed) findAdders() {
	k.reset = map[*ssa.Function]bool{}
	for _, sts := range k.p.allStores() {
		for _, s := range sts {
			st := s.ins.(*ssa.Store)
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || !k.objectsField(fa) {
				continue
			}
			if c, ok := st.Val.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					k.adders[s.fn] = true
					continue
				}
			}
			k.reset[s.fn] = true
		}
	}
	// a function that only passes on what it adds
	for changed := true; changed; {
		changed = false
		for _, f := range k.p.Funcs {
			if k.adders[f] || f.Signature.Results().Len() != 1 || !isInteger(f.Signature.Results().At(0).Type()) || len(f.Blocks) != 1 {
				continue
			}
			for _, r := range returnsOf(f) {
				if c, ok := r.Results[0].(*ssa.Call); ok && k.adders[c.Call.StaticCallee()] {
					if len(c.Call.Args) == 2 && !allocBehind(c.Call.Args[1]) {
						k.adders[f] = true
						changed = true
					}
				}
			}
		}
	}
	// what runs only when a document is started
	k.start = map[*ssa.Function]bool{}
	startFns := map[*ssa.Function]bool{}
	other := map[*ssa.Function]bool{}
	for _, f := range k.p.publicFuncs() {
		rs := k.p.reach(f)
		starts := false
		for r := range k.reset {
			if rs[r] {
				starts = true
			}
		}
		for g := range rs {
			if starts {
				startFns[g] = true
			} else {
				other[g] = true
			}
		}
	}
	for f := range startFns {
		if !other[f] {
			k.start[f] = true
		}
	}
}

func allocBehind(v ssa.Value) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	_, ok := v.(*ssa.Alloc)
	return ok
}

// tableOf: the struct field a map (or list) is loaded from.
func (k *keyed) tableOf(v ssa.Value) string {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	return tname(deref(fa.X.Type())) + "." + fieldName(fa.X.Type(), fa.Field)
}

func (k *keyed) scan() {
	g := k.p.graph()
	for _, f := range k.p.Funcs {
		m := map[string]int{}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch y := ins.(type) {
				case *ssa.Lookup:
					if _, isMap := y.X.Type().Underlying().(*types.Map); isMap && y.CommaOk {
						if t := k.tableOf(y.X); t != "" {
							m[t] |= 1
						}
					}
				case *ssa.MapUpdate:
					if t := k.tableOf(y.Map); t != "" {
						m[t] |= 2
					}
				case *ssa.Range:
					if t := k.tableOf(y.X); t != "" {
						if _, isMap := y.X.Type().Underlying().(*types.Map); isMap {
							m[t] |= 1
						}
					}
				}
			}
		}
		k.touches[f] = m
	}
	for round := 0; round < 3; round++ {
		next := map[*ssa.Function]map[string]int{}
		for _, f := range k.p.Funcs {
			m := map[string]int{}
			for t, v := range k.touches[f] {
				m[t] = v
			}
			for _, e := range g[f] {
				if e.site != nil && e.site.Common().StaticCallee() == e.callee {
					for t, v := range k.touches[e.callee] {
						m[t] |= v
					}
				}
			}
			next[f] = m
		}
		k.touches = next
	}
}

// uses lists the uses of a table in a function and what it calls.
func (k *keyed) uses(q *preds, table string, depth int) []*tableUse {
	var out []*tableUse
	for _, b := range q.fn.Blocks {
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.Lookup:
				if y.CommaOk && k.tableOf(y.X) == table {
					out = append(out, &tableUse{table: table, q: q, ins: ins, look: y})
				}
			case *ssa.MapUpdate:
				if k.tableOf(y.Map) == table {
					out = append(out, &tableUse{table: table, q: q, ins: ins, upd: y})
				}
			case *ssa.Next:
				if rg, ok := y.Iter.(*ssa.Range); ok && k.tableOf(rg.X) == table {
					u := &tableUse{table: table, q: q, ins: ins}
					k.search(u, y)
					out = append(out, u)
				}
			case ssa.CallInstruction:
				f := y.Common().StaticCallee()
				if f != nil && k.p.owns(f) && f.Blocks != nil && depth < 3 && k.touches[f][table] != 0 && !inFrames(q, f) {
					out = append(out, k.uses(q.enter(f, y.Common()), table, depth+1)...)
				}
			}
		}
	}
	return out
}

func inFrames(q *preds, f *ssa.Function) bool {
	for ; q != nil; q = q.parent {
		if q.fn == f {
			return true
		}
	}
	return false
}

// search: what is known of the entry a search through a table ends with.
func (k *keyed) search(u *tableUse, nx *ssa.Next) {
	d := &determ{p: k.p, res: u.q.dummy()}
	l := d.natural(nx)
	if l == nil {
		return
	}
	q := u.q
	for v := range l.val {
		u.entry = q.expr(v)
	}
	add := func(from, to *ssa.BasicBlock) {
		if f := q.edge(from, to); f != nil {
			u.hits = append(u.hits, f)
		}
	}
	for b := range l.body {
		if b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if !l.body[s] {
				add(b, s)
			}
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if f := q.at(b); f != nil {
				u.hits = append(u.hits, f)
			}
		}
	}
	// a result kept from round to round
	seen := map[*ssa.Phi]bool{}
	var kept func(ph, top *ssa.Phi)
	kept = func(ph, top *ssa.Phi) {
		if seen[ph] {
			return
		}
		seen[ph] = true
		for i, e := range ph.Edges {
			pr := ph.Block().Preds[i]
			if !l.body[pr] || e == ssa.Value(top) {
				continue
			}
			if p2, ok := e.(*ssa.Phi); ok && l.body[p2.Block()] {
				kept(p2, top)
				continue
			}
			add(pr, ph.Block())
		}
	}
	for _, ins := range l.head.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			seen = map[*ssa.Phi]bool{}
			kept(ph, ph)
		}
	}
}

func (q *preds) dummy() *Result { return newResult("") }

// sites judges every function that looks for an object and makes it if it is not there.
func (k *keyed) sites() int {
	n := 0
	g := k.p.graph()
	type pair struct {
		fn    *ssa.Function
		table string
		uses  []*tableUse
		q     *preds
	}
	var ps []pair
	for _, f := range k.p.Funcs {
		for _, table := range sortedInts(k.touches[f]) {
			if k.touches[f][table] != 3 {
				continue
			}
			minimal := true
			for _, e := range g[f] {
				if e.site != nil && e.site.Common().StaticCallee() == e.callee && e.callee != f && k.touches[e.callee][table] == 3 {
					minimal = false
				}
			}
			if !minimal {
				continue
			}
			q := k.p.newPreds(f, nil)
			us := k.uses(q, table, 0)
			if !k.aboutObjects(us, f) {
				continue
			}
			ps = append(ps, pair{f, table, us, q})
			for _, u := range us {
				if u.upd != nil {
					k.inserts[table] = append(k.inserts[table], k.insertion(u, q))
				}
			}
		}
	}
	for _, pr := range ps {
		var look, upd []*tableUse
		for _, u := range pr.uses {
			if u.upd != nil {
				upd = append(upd, u)
			} else {
				look = append(look, u)
			}
		}
		if len(look) == 0 || len(upd) == 0 {
			k.res.add("unresolved", fname(pr.fn), pr.table, k.p.pos(pr.fn.Pos()), "the lookup or the entry of this table of reused objects could not be followed")
			continue
		}
		for _, l := range look {
			for _, u := range upd {
				n++
				if l.look != nil {
					k.keyed(pr.fn, pr.q, l, u)
				} else {
					k.searched(pr.fn, pr.q, l, u)
				}
			}
		}
		k.res.sample("%s: %s", fname(pr.fn), pr.table)
	}
	// a table of objects that is filled somewhere without being asked first
	for _, table := range sortedIns(k.inserts) {
		for _, f := range k.p.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					mu, ok := ins.(*ssa.MapUpdate)
					if !ok || k.tableOf(mu.Map) != table {
						continue
					}
					known := false
					for _, pr := range ps {
						for _, u := range pr.uses {
							if u.ins == ins {
								known = true
							}
						}
					}
					if !known {
						k.res.add("unresolved", fname(f), table, k.p.insPos(ins), "a table of reused objects is filled where no lookup of it could be found")
					}
				}
			}
		}
	}
	return n
}

func sortedInts(m map[string]int) []string {
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func sortedIns(m map[string][]insertion) []string {
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

// aboutObjects: what is saved carries the number of an object added to the document.
func (k *keyed) aboutObjects(us []*tableUse, f *ssa.Function) bool {
	for _, u := range us {
		if u.upd == nil {
			continue
		}
		s := &slice{k: k, out: map[string]bool{}, seen: map[string]bool{}}
		s.leaves(u.q, u.upd.Value, "", 0)
		s.leaves(u.q, u.upd.Key, "", 0)
		if s.added {
			return true
		}
	}
	return false
}

// ---- slices

type slice struct {
	k     *keyed
	out   map[string]bool
	seen  map[string]bool
	added bool // the number of a new object is part of it
	objs  []*ssa.Alloc
}

// leaves collects the inputs a value (or the part of it at a path) is worked out from, named in the outermost frame.
func (s *slice) leaves(q *preds, v ssa.Value, path string, depth int) {
	if depth > 300 {
		s.out["?deep"] = true
		return
	}
	key := fmt.Sprintf("%s|%p|%s", q.id, v, path)
	if s.seen[key] {
		return
	}
	s.seen[key] = true
	switch y := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin, nil:
	case *ssa.MakeClosure:
		for _, b := range y.Bindings {
			if !s.isDoc(b.Type()) {
				s.leaves(q, b, "", depth+1)
			}
		}
	case *ssa.Parameter:
		if q.parent != nil {
			i := paramIndex(y)
			args := q.call.Args
			if q.call.IsInvoke() {
				args = append([]ssa.Value{q.call.Value}, args...)
			}
			if i < len(args) {
				s.leaves(q.parent, args[i], path, depth+1)
			}
			return
		}
		s.input(q.expr(y)+path, y.Type(), path)
	case *ssa.FreeVar:
		s.out["?"+q.expr(y)] = true
	case *ssa.Global:
		s.global(y)
	case *ssa.UnOp:
		s.leaves(q, y.X, path, depth+1)
	case *ssa.FieldAddr:
		s.leaves(q, y.X, "."+fieldName(y.X.Type(), y.Field)+path, depth+1)
	case *ssa.Field:
		s.leaves(q, y.X, "."+fieldName(y.X.Type(), y.Field)+path, depth+1)
	case *ssa.MakeInterface:
		s.leaves(q, y.X, path, depth+1)
	case *ssa.ChangeType:
		s.leaves(q, y.X, path, depth+1)
	case *ssa.ChangeInterface:
		s.leaves(q, y.X, path, depth+1)
	case *ssa.TypeAssert:
		s.leaves(q, y.X, path, depth+1)
	case *ssa.Alloc:
		s.alloc(q, y, path, depth)
	case *ssa.Extract:
		switch t := y.Tuple.(type) {
		case *ssa.Call:
			s.call(q, t, y.Index, path, depth)
		case *ssa.Lookup:
			s.leaves(q, t.Index, "", depth+1)
		case *ssa.TypeAssert:
			s.leaves(q, t.X, path, depth+1)
		default:
			s.out["?"+q.expr(y)] = true
		}
	case *ssa.Call:
		s.call(q, y, 0, path, depth)
	case *ssa.Lookup:
		s.leaves(q, y.Index, "", depth+1)
		if s.k.tableOf(y.X) == "" {
			s.leaves(q, y.X, "", depth+1)
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			s.leaves(q, e, path, depth+1)
		}
		s.decided(q, y.Block(), nil, depth)
	case *ssa.BinOp:
		if isNilConst(y.X) || isNilConst(y.Y) {
			o := y.X
			if isNilConst(o) {
				o = y.Y
			}
			e := q.expr(o)
			if strings.HasPrefix(e, "$") && plainPath(e) {
				s.out["("+e+" != nil)"] = true
				return
			}
		}
		s.leaves(q, y.X, "", depth+1)
		s.leaves(q, y.Y, "", depth+1)
	default:
		if ins, ok := v.(ssa.Instruction); ok {
			for _, o := range ins.Operands(nil) {
				if *o != nil {
					s.leaves(q, *o, "", depth+1)
				}
			}
		}
	}
}

func plainPath(e string) bool { return !strings.ContainsAny(e, "(<[{ ") }

func (s *slice) isDoc(t types.Type) bool { return types.Identical(deref(t), s.k.doc) }

func (s *slice) input(e string, t types.Type, path string) {
	if s.isDoc(t) {
		if path == "" {
			return // the document itself: what it holds is counted where it is read
		}
		f := strings.SplitN(path[1:], ".", 2)[0]
		if s.k.fixedField(f) {
			return
		}
		s.out["document"+path] = true
		return
	}
	s.out[e] = true
}

// fixedField: a field of the document that is set when it is started and not afterwards.
func (k *keyed) fixedField(f string) bool {
	st := structOf(k.doc)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() != f {
			continue
		}
		for _, s := range k.p.allStores()[fkey(k.doc, i)] {
			if !k.start[s.fn] {
				return false
			}
		}
		return true
	}
	return false
}

func (s *slice) global(g *ssa.Global) {
	if g.Object() != nil {
		for _, f := range s.k.p.Funcs {
			if isInit(f) {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
						s.out["global:"+g.Name()] = true
					}
				}
			}
		}
	}
}

// alloc: a local variable or new object: what is stored in it (at a path).
func (s *slice) alloc(q *preds, al *ssa.Alloc, path string, depth int) {
	s.objs = append(s.objs, al)
	first := ""
	if path != "" {
		first = strings.SplitN(path[1:], ".", 2)[0]
	}
	whole, fields := allocStores(al)
	st := structOf(al.Type())
	rest := ""
	if first != "" {
		rest = path[1+len(first):]
	}
	overwritten := map[string]bool{}
	for i, sts := range fields {
		name := ""
		if st != nil && i < st.NumFields() {
			name = st.Field(i).Name()
		}
		if first != "" && name != first {
			continue
		}
		for _, x := range sts {
			s.leaves(q, x.Val, rest, depth+1)
			s.decided(q, x.Block(), al.Block(), depth)
			for _, w := range whole {
				if dominates(w, x) && alwaysRunsAfter(w, x) {
					overwritten[name] = true
				}
			}
		}
	}
	for _, w := range whole {
		if first == "" && len(overwritten) > 0 && st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if n := st.Field(i).Name(); !overwritten[n] {
					s.leaves(q, w.Val, "."+n, depth+1)
				}
			}
			continue
		}
		if overwritten[first] {
			continue
		}
		s.leaves(q, w.Val, path, depth+1)
	}
	s.elements(q, al, depth)
	// what is handed to the object's own methods goes into it
	for _, r := range *al.Referrers() {
		s.setter(q, r, al, al.Block(), depth)
		if mi, ok := r.(*ssa.MakeInterface); ok {
			for _, r2 := range *mi.Referrers() {
				s.setter(q, r2, mi, al.Block(), depth)
			}
		}
	}
}

// alwaysRunsAfter: the second store follows the first on every way out that matters (same block or a dominated one).
func alwaysRunsAfter(a, b ssa.Instruction) bool {
	return a.Block() == b.Block() || a.Block().Dominates(b.Block())
}

func (s *slice) elements(q *preds, al *ssa.Alloc, depth int) {
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				s.leaves(q, st.Val, "", depth+1)
			}
		}
	}
}

func (s *slice) setter(q *preds, r ssa.Instruction, obj ssa.Value, made *ssa.BasicBlock, depth int) {
	ci, ok := r.(ssa.CallInstruction)
	if !ok {
		return
	}
	f := ci.Common().StaticCallee()
	if f != nil && s.k.adders[f] {
		return
	}
	if f == nil || !s.k.p.owns(f) {
		if bi, ok := ci.Common().Value.(*ssa.Builtin); ok && bi != nil {
			return
		}
	}
	if f != nil && s.k.p.owns(f) && f.Blocks != nil && !s.k.writesParam(f, ci.Common(), obj) {
		return
	}
	for _, a := range ci.Common().Args {
		if a != obj {
			s.leaves(q, a, "", depth+1)
		}
	}
	s.decided(q, r.Block(), made, depth)
}

// writesParam: the callee may write what the argument points to.
func (k *keyed) writesParam(f *ssa.Function, cc *ssa.CallCommon, obj ssa.Value) bool {
	e := k.p.effects()
	sum := e.sum[f]
	if sum == nil {
		return true
	}
	for i, a := range cc.Args {
		if a != obj {
			continue
		}
		for w := range sum.writes {
			if w.l != nil && w.l.root == fmt.Sprintf("P%d", i) {
				// its own fields; what lies behind them (a reader's position) is not part of it
				own := true
				for j, st := range w.l.steps {
					if j > 0 && st == "*" {
						own = false
					}
				}
				if own {
					return true
				}
			}
		}
	}
	return false
}

// decided: the conditions under which a store happens, other than those under which the object is made at all.
func (s *slice) decided(q *preds, b, made *ssa.BasicBlock, depth int) {
	for _, bb := range q.fn.Blocks {
		iff, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.If)
		if !ok || bb == b && made == nil {
			continue
		}
		if made != nil && (!controlledBy(iff, b) || controlledBy(iff, made)) {
			continue
		}
		if made == nil {
			// the branch that decides which way a join is reached
			if b.Idom() != bb {
				continue
			}
		}
		if errCheck(iff.Cond) {
			continue
		}
		s.leaves(q, iff.Cond, "", depth+1)
	}
}

func errCheck(c ssa.Value) bool {
	bo, ok := c.(*ssa.BinOp)
	return ok && (isErrorType(bo.X.Type()) || isErrorType(bo.Y.Type()))
}

func (s *slice) call(q *preds, c *ssa.Call, idx int, path string, depth int) {
	cc := &c.Call
	f := cc.StaticCallee()
	if f != nil && s.k.adders[f] {
		s.added = true
		for _, a := range cc.Args {
			if !s.isDoc(a.Type()) {
				s.leaves(q, a, "", depth+1)
			}
		}
		return
	}
	if cc.IsInvoke() {
		e := q.expr(c)
		if strings.HasPrefix(e, "$") {
			s.out[e] = true
			return
		}
		s.leaves(q, cc.Value, "", depth+1)
		for _, a := range cc.Args {
			s.leaves(q, a, "", depth+1)
		}
		return
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		_ = bi
		for _, a := range cc.Args {
			s.leaves(q, a, "", depth+1)
		}
		return
	}
	if f != nil && s.k.p.owns(f) && f.Blocks != nil && q.depth < 6 && !inFrames(q, f) {
		sub := q.enter(f, cc)
		for _, r := range returnsOf(f) {
			if idx < len(r.Results) {
				if failsReturn(r) {
					continue
				}
				s.leaves(sub, r.Results[idx], path, depth+1)
				s.decided(sub, r.Block(), sub.fn.Blocks[0], depth)
			}
		}
		return
	}
	for _, a := range cc.Args {
		s.leaves(q, a, "", depth+1)
	}
	if f == nil {
		s.leaves(q, cc.Value, "", depth+1)
	}
}

// ---- keys

type keyPart struct {
	lit  string
	hole string // input
	verb string
	typ  types.Type
}

// one way a key can come out, and what is known of the inputs when it does
type keyAlt struct {
	parts []keyPart
	facts factSet
}

func joinAlts(a, b []keyAlt) []keyAlt {
	var out []keyAlt
	for _, x := range a {
		for _, y := range b {
			f := union(x.facts, y.facts)
			if f == nil || contradicts(f) {
				continue
			}
			out = append(out, keyAlt{append(append([]keyPart(nil), x.parts...), y.parts...), f})
		}
	}
	return out
}

func contradicts(f factSet) bool {
	for s := range f {
		if strings.HasPrefix(s, "some:") && f.eq(s[len("some:"):], "nil") {
			return true
		}
	}
	return false
}

// template takes a key apart; ok=false when its form is not understood (its inputs are known all the same).
func (k *keyed) template(q *preds, v ssa.Value, depth int) ([]keyAlt, bool) {
	one := func(p ...keyPart) ([]keyAlt, bool) { return []keyAlt{{p, factSet{}}}, true }
	if depth > 60 {
		return nil, false
	}
	switch y := v.(type) {
	case *ssa.Const:
		if s, ok := constString(y); ok {
			return one(keyPart{lit: s})
		}
		return nil, false
	case *ssa.BinOp:
		if y.Op == token.ADD {
			a, ok1 := k.template(q, y.X, depth+1)
			b, ok2 := k.template(q, y.Y, depth+1)
			out := joinAlts(a, b)
			return out, ok1 && ok2 && len(out) <= 300
		}
	case *ssa.Parameter:
		if q.parent != nil {
			i := paramIndex(y)
			args := q.call.Args
			if q.call.IsInvoke() {
				args = append([]ssa.Value{q.call.Value}, args...)
			}
			if i < len(args) {
				return k.template(q.parent, args[i], depth+1)
			}
		}
	case *ssa.Phi:
		var out []keyAlt
		for i, e := range y.Edges {
			pr := y.Block().Preds[i]
			if y.Block().Dominates(pr) {
				return nil, false // grows in a loop
			}
			as, ok := k.template(q, e, depth+1)
			if !ok {
				return nil, false
			}
			f := q.edge(pr, y.Block())
			if f == nil {
				continue
			}
			out = append(out, joinAlts(as, []keyAlt{{nil, f}})...)
		}
		return out, len(out) <= 300
	case *ssa.Call:
		full := fullCallee(&y.Call)
		switch full {
		case "fmt.Sprintf":
			return k.format(q, y, depth)
		case "strconv.Itoa":
			return one(keyPart{hole: q.expr(y.Call.Args[0]), verb: "d", typ: y.Call.Args[0].Type()})
		case "strings.Join":
			if sep, ok := constString(y.Call.Args[1]); ok {
				return k.joined(q, y.Call.Args[0], sep, depth+1)
			}
			return nil, false
		}
		f := y.Call.StaticCallee()
		if f != nil && k.p.owns(f) && f.Blocks != nil && !inFrames(q, f) {
			sub := q.enter(f, &y.Call)
			var out []keyAlt
			for _, r := range returnsOf(f) {
				if len(r.Results) != 1 {
					return nil, false
				}
				as, ok := k.template(sub, r.Results[0], depth+1)
				if !ok {
					return nil, false
				}
				out = append(out, joinAlts(as, []keyAlt{{nil, sub.at(r.Block())}})...)
			}
			return out, len(out) <= 300
		}
		if !y.Call.IsInvoke() {
			return nil, false
		}
	case *ssa.ChangeType:
		return k.template(q, y.X, depth+1)
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			if whole, fields := allocStores(al); len(whole) == 1 && len(fields) == 0 {
				return k.template(q, whole[0].Val, depth+1)
			}
			return nil, false
		}
	}
	e := q.expr(v)
	if strings.HasPrefix(e, "$") && isString(v.Type()) {
		return one(keyPart{hole: e, verb: "s", typ: v.Type()})
	}
	return nil, false
}

// joined: the parts of a list put one after the other.
func (k *keyed) joined(q *preds, v ssa.Value, sep string, depth int) ([]keyAlt, bool) {
	if depth > 60 {
		return nil, false
	}
	switch y := v.(type) {
	case *ssa.Const:
		return []keyAlt{{nil, factSet{}}}, y.Value == nil
	case *ssa.Slice:
		if al, ok := y.X.(*ssa.Alloc); ok {
			if arr, ok := deref(al.Type()).Underlying().(*types.Array); ok {
				out := []keyAlt{{nil, factSet{}}}
				vals := make([]ssa.Value, arr.Len())
				for _, r := range *al.Referrers() {
					if ia, ok := r.(*ssa.IndexAddr); ok {
						i, _ := constInt(ia.Index)
						for _, r2 := range *ia.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && i < arr.Len() {
								vals[i] = st.Val
							}
						}
					}
				}
				for i, e := range vals {
					if e == nil {
						return nil, false
					}
					as, ok := k.template(q, e, depth+1)
					if !ok {
						return nil, false
					}
					if i > 0 && sep != "" {
						out = joinAlts(out, []keyAlt{{[]keyPart{{lit: sep}}, factSet{}}})
					}
					out = joinAlts(out, as)
				}
				return out, true
			}
		}
	case *ssa.MakeSlice:
		if n, ok := constInt(y.Len); ok && n == 0 {
			return []keyAlt{{nil, factSet{}}}, true
		}
	case *ssa.Call:
		if bi, ok := y.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			a, ok1 := k.joined(q, y.Call.Args[0], sep, depth+1)
			b, ok2 := k.joined(q, y.Call.Args[1], sep, depth+1)
			if !ok1 || !ok2 {
				return nil, false
			}
			var out []keyAlt
			for _, x := range a {
				mid := []keyAlt{{nil, factSet{}}}
				if len(x.parts) > 0 && sep != "" {
					mid = []keyAlt{{[]keyPart{{lit: sep}}, factSet{}}}
				}
				out = append(out, joinAlts(joinAlts([]keyAlt{x}, mid), b)...)
			}
			return out, len(out) <= 300
		}
	case *ssa.Phi:
		var out []keyAlt
		for i, e := range y.Edges {
			pr := y.Block().Preds[i]
			if y.Block().Dominates(pr) {
				return nil, false
			}
			as, ok := k.joined(q, e, sep, depth+1)
			if !ok {
				return nil, false
			}
			if f := q.edge(pr, y.Block()); f != nil {
				out = append(out, joinAlts(as, []keyAlt{{nil, f}})...)
			}
		}
		return out, len(out) <= 300
	}
	return nil, false
}

func (k *keyed) format(q *preds, c *ssa.Call, depth int) ([]keyAlt, bool) {
	f, ok := constString(c.Call.Args[0])
	if !ok {
		return nil, false
	}
	var args []ssa.Value
	if sl, ok := c.Call.Args[1].(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			n := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			args = make([]ssa.Value, n)
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					i, _ := constInt(ia.Index)
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok && i < n {
							args[i] = st.Val
						}
					}
				}
			}
		}
	}
	out := []keyAlt{{nil, factSet{}}}
	put := func(p keyPart) { out = joinAlts(out, []keyAlt{{[]keyPart{p}, factSet{}}}) }
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			put(keyPart{lit: f[i : i+j]})
			i += j
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil, false
		}
		verb := f[i+1 : j+1]
		i = j + 1
		if verb == "%" {
			put(keyPart{lit: "%"})
			continue
		}
		if ai >= len(args) || args[ai] == nil {
			return nil, false
		}
		v := args[ai]
		ai++
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		if strings.HasSuffix(verb, "s") || strings.HasSuffix(verb, "v") {
			if isString(v.Type()) {
				if sub, ok := k.template(q, v, depth+1); ok {
					out = joinAlts(out, sub)
					continue
				}
			}
		}
		e := q.expr(v)
		if !strings.HasPrefix(e, "$") {
			return nil, false
		}
		put(keyPart{hole: e, verb: verb, typ: v.Type()})
	}
	return out, true
}

// merged: literals that stand side by side put together.
func merged(parts []keyPart) []keyPart {
	var ps []keyPart
	for _, p := range parts {
		if p.hole == "" && p.lit == "" {
			continue
		}
		if n := len(ps); n > 0 && p.hole == "" && ps[n-1].hole == "" {
			ps[n-1].lit += p.lit
			continue
		}
		ps = append(ps, p)
	}
	return ps
}

func partsText(parts []keyPart, named bool) string {
	var sb strings.Builder
	for _, p := range merged(parts) {
		switch {
		case p.hole != "" && named:
			fmt.Fprintf(&sb, "{%s%%%s}", strings.TrimPrefix(p.hole, "$"), p.verb)
		case p.hole != "":
			sb.WriteByte(0)
		default:
			sb.WriteString(p.lit)
		}
	}
	return sb.String()
}

func keyText(alts []keyAlt) string {
	seen := map[string]bool{}
	for _, a := range alts {
		seen[partsText(a.parts, true)] = true
	}
	var out []string
	for s := range seen {
		out = append(out, s)
	}
	sort.Strings(out)
	return strings.Join(out, " | ")
}

// keyed: a lookup by key.
func (k *keyed) keyed(fn *ssa.Function, q *preds, l, u *tableUse) {
	res := k.res
	where := k.p.insPos(u.ins)
	lp, ok1 := k.template(l.q, l.look.Index, 0)
	up, ok2 := k.template(u.q, u.upd.Key, 0)
	ks := &slice{k: k, out: map[string]bool{}, seen: map[string]bool{}}
	ks.leaves(l.q, l.look.Index, "", 0)
	us := &slice{k: k, out: map[string]bool{}, seen: map[string]bool{}}
	us.leaves(u.q, u.upd.Key, "", 0)
	if ok1 && ok2 && keyText(lp) != keyText(up) {
		res.add("same key", fname(fn), l.table, where, "the object is looked up as %q and saved as %q", keyText(lp), keyText(up))
	} else if !(ok1 && ok2) && setText(ks.out) != setText(us.out) {
		res.add("same key", fname(fn), l.table, where, "the object is looked up by %s and saved by %s", setText(ks.out), setText(us.out))
	}
	vs := &slice{k: k, out: map[string]bool{}, seen: map[string]bool{}}
	vs.leaves(u.q, u.upd.Value, "", 0)
	res.Counts["keys taken apart"]++
	if !ok1 {
		res.Counts["keys of another form (inputs only)"]++
		k.covered(fn, where, l.table, vs.out, ks.out)
		return
	}
	holes := map[string]bool{}
	for _, a := range lp {
		for _, pt := range a.parts {
			if pt.hole != "" {
				holes[pt.hole] = true
			}
		}
	}
	bad := map[string]bool{}
	for _, a := range lp {
		have := map[string]bool{}
		for _, pt := range a.parts {
			if pt.hole != "" {
				have[pt.hole] = true
			}
		}
		for h := range holes {
			if a.facts.eq(h, "nil") {
				have[h] = true
			}
		}
		for s := range vs.out {
			base := strings.TrimSuffix(strings.TrimPrefix(s, "("), " != nil)")
			if holes[base] && !have[base] && !bad[base] {
				bad[base] = true
				res.add("covered", fname(fn), l.table+" "+strings.TrimPrefix(base, "$"), where, "the key can come out as %q although %s is given: two uses that differ in it would share the object", partsText(a.parts, true), strings.TrimPrefix(base, "$"))
			}
		}
		res.Counts["forms of keys"]++
	}
	k.covered(fn, where, l.table, vs.out, holes)
	k.distinct(fn, l, lp)
	k.precision(fn, l, lp, vs)
	res.sample("key of %s: %s", l.table, partsText(longest(lp), true))
}

func longest(alts []keyAlt) []keyPart {
	var out []keyPart
	for _, a := range alts {
		if len(a.parts) > len(out) {
			out = a.parts
		}
	}
	return out
}

func setText(m map[string]bool) string {
	var out []string
	for s := range m {
		out = append(out, s)
	}
	sort.Strings(out)
	return strings.Join(out, ", ")
}

func (k *keyed) covered(fn *ssa.Function, where, table string, need, have map[string]bool) {
	var names []string
	for s := range need {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		k.res.Counts["inputs of reused objects"]++
		ok := have[s]
		base := strings.TrimSuffix(strings.TrimPrefix(s, "("), " != nil)")
		for h := range have {
			if s == h || base == h || strings.HasPrefix(base, h+".") || h == base+".ID()" {
				ok = true
			}
		}
		if !ok {
			k.res.add("covered", fname(fn), table+" "+strings.TrimPrefix(s, "$"), where, "the object found in %s is made from %s, which the question asked to find it does not cover: two uses that differ in it would share the object", table, strings.TrimPrefix(s, "$"))
		}
	}
}

// distinct: different inputs give different keys.
func (k *keyed) distinct(fn *ssa.Function, l *tableUse, alts []keyAlt) {
	said := map[string]bool{}
	add := func(format string, a ...interface{}) {
		s := fmt.Sprintf(format, a...)
		if !said[s] {
			said[s] = true
			k.res.add("distinct", fname(fn), "key of "+l.table, k.p.insPos(l.ins), "%s", s)
		}
	}
	shapes := map[string]keyAlt{}
	for _, a := range alts {
		ps := merged(a.parts)
		for i, p := range ps {
			if p.hole == "" || i+1 >= len(ps) {
				continue
			}
			nx := ps[i+1]
			switch {
			case nx.hole != "":
				add("%s and %s stand side by side in the key: different values can give the same key", p.hole, nx.hole)
			case !isString(p.typ) && mayContain(p.typ, nx.lit[0]):
				add("the %q after %s in the key may be part of the value itself", nx.lit[:1], p.hole)
			}
		}
		shape := partsText(a.parts, false)
		if o, dup := shapes[shape]; dup && partsText(o.parts, true) != partsText(a.parts, true) {
			add("the key comes out as %q for one set of inputs and as %q for another: the two cannot be told apart", partsText(o.parts, true), partsText(a.parts, true))
		}
		shapes[shape] = a
	}
}

func mayContain(t types.Type, c byte) bool {
	switch {
	case isInteger(t):
		return c >= '0' && c <= '9' || c == '-'
	case isFloat(t):
		return c >= '0' && c <= '9' || strings.IndexByte("+-.eE", c) >= 0
	}
	return true
}

func decimals(verb string) (int, bool) {
	if !strings.HasSuffix(verb, "f") && !strings.HasSuffix(verb, "F") {
		return 0, false
	}
	i := strings.IndexByte(verb, '.')
	if i < 0 {
		return 6, true
	}
	n, err := strconv.Atoi(verb[i+1 : len(verb)-1])
	return n, err == nil
}

// precision: a number in the key has at least as many decimals as the object is written with.
func (k *keyed) precision(fn *ssa.Function, l *tableUse, alts []keyAlt, vs *slice) {
	var parts []keyPart
	seen := map[keyPart]bool{}
	for _, a := range alts {
		for _, pt := range a.parts {
			if pt.hole != "" && !seen[pt] {
				seen[pt] = true
				parts = append(parts, pt)
			}
		}
	}
	kinds := map[string]bool{}
	for _, al := range vs.objs {
		kinds[tname(deref(al.Type()))] = true
	}
	for _, p := range parts {
		if p.hole == "" || !isFloat(p.typ) {
			continue
		}
		n, ok := decimals(p.verb)
		if !ok {
			if strings.HasSuffix(p.verb, "v") || strings.HasSuffix(p.verb, "g") {
				if !strings.Contains(p.verb, ".") {
					continue
				}
			}
			k.res.add("precision", fname(fn), "key of "+l.table, k.p.insPos(l.ins), "%s goes into the key as %%%s, which may drop digits", p.hole, p.verb)
			continue
		}
		// how the objects made here print their numbers
		for _, f := range k.p.Funcs {
			if f.Name() != "write" || f.Signature.Recv() == nil || !kinds[tname(deref(f.Signature.Recv().Type()))] {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					c, ok := ins.(*ssa.Call)
					if !ok || (fullCallee(&c.Call) != "fmt.Sprintf" && fullCallee(&c.Call) != "fmt.Fprintf") {
						continue
					}
					for _, a := range c.Call.Args {
						s, ok := constString(a)
						if !ok {
							continue
						}
						for _, verb := range verbsOf(s) {
							if m, ok := decimals(verb); ok && m > n {
								k.res.add("precision", fname(fn), "key of "+l.table, k.p.insPos(l.ins), "%s goes into the key with %d decimals but is written with %d (%s)", p.hole, n, m, fname(f))
							}
						}
					}
				}
			}
		}
		k.res.Counts["numbers in keys"]++
	}
}

func verbsOf(f string) []string {
	var out []string
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j < len(f) {
			out = append(out, f[i+1:j+1])
		}
		i = j
	}
	return out
}

// ---- searches

// insertion: what an entry put into a table was made from, and the object it stands for.
func (k *keyed) insertion(u *tableUse, top *preds) insertion {
	in := insertion{fn: u.q.fn, consts: map[string]string{}, stored: map[string]string{}}
	s := &slice{k: k, out: map[string]bool{}, seen: map[string]bool{}}
	s.leaves(u.q, u.upd.Value, "", 0)
	s.leaves(u.q, u.upd.Key, "", 0)
	in.obj = k.objectAdded(s)
	if eq, al := entryAlloc(u); al != nil {
		in.fn = eq.fn
		st := structOf(al.Type())
		_, fields := allocStores(al)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			name := st.Field(i).Name()
			in.consts[name] = "zero"
			for _, x := range fields[i] {
				in.consts[name] = ""
				if c, ok := x.Val.(*ssa.Const); ok && c.Value != nil {
					in.consts[name] = c.Value.ExactString()
				}
				in.stored[name] = eq.expr(x.Val)
			}
			if in.consts[name] == "false" {
				in.consts[name] = "zero"
			}
		}
	}
	return in
}

func entryAlloc(u *tableUse) (*preds, *ssa.Alloc) {
	q, v := u.q, u.upd.Value
	for i := 0; i < 8; i++ {
		if pr, ok := v.(*ssa.Parameter); ok && q.parent != nil && paramIndex(pr) < len(q.call.Args) {
			v, q = q.call.Args[paramIndex(pr)], q.parent
			continue
		}
		ld, ok := v.(*ssa.UnOp)
		if !ok {
			return nil, nil
		}
		al, ok := ld.X.(*ssa.Alloc)
		if !ok {
			return nil, nil
		}
		whole, fields := allocStores(al)
		if len(whole) == 1 && len(fields) == 0 {
			v = whole[0].Val
			continue
		}
		return q, al
	}
	return nil, nil
}

// objectAdded: the object whose number the entry carries.
func (k *keyed) objectAdded(s *slice) *ssa.Alloc {
	var best *ssa.Alloc
	for _, al := range s.objs {
		if al.Referrers() == nil {
			continue
		}
		for _, r := range *al.Referrers() {
			mi, ok := r.(*ssa.MakeInterface)
			if !ok {
				continue
			}
			for _, r2 := range *mi.Referrers() {
				if ci, ok := r2.(ssa.CallInstruction); ok && k.adders[ci.Common().StaticCallee()] {
					best = al
				}
			}
		}
	}
	return best
}

func (k *keyed) searched(fn *ssa.Function, q *preds, l, u *tableUse) {
	res := k.res
	where := k.p.insPos(l.ins)
	mine := k.insertion(u, q)
	if mine.obj == nil {
		res.add("unresolved", fname(fn), l.table, k.p.insPos(u.ins), "the object an entry of this table stands for could not be found")
		return
	}
	if len(l.hits) == 0 || l.entry == "" {
		res.add("unresolved", fname(fn), l.table, where, "what a search of this table finds could not be worked out")
		return
	}
	vs := &slice{k: k, out: map[string]bool{}, seen: map[string]bool{}}
	// the object is found where it is made: in the frame of its function
	vs.leaves(k.frameOf(q, mine.obj.Parent()), mine.obj, "", 0)
	for _, f := range l.hits {
		have := map[string]bool{}
		for name, e := range mine.stored {
			if f.eq(l.entry+"."+name, e) {
				have[e] = true
			}
		}
		k.covered(fn, where, l.table, vs.out, have)
		res.Counts["searches judged"]++
		// entries made elsewhere
		for _, o := range k.inserts[l.table] {
			if o.obj == mine.obj {
				continue
			}
			excluded := false
			for name, c := range o.consts {
				if c == "" {
					continue
				}
				e := l.entry + "." + name
				if f["false:"+e] && c != "zero" || f["true:"+e] && c == "zero" {
					excluded = true
				}
			}
			if excluded {
				res.Counts["entries of another kind kept apart"]++
				continue
			}
			if d := k.differ(mine.obj, o.obj); d != "" {
				res.add("kind", fname(fn), l.table+" from "+fname(o.fn), where, "the search can find an object made by %s, which differs from the one made here (%s)", fname(o.fn), d)
			}
		}
	}
}

func (k *keyed) frameOf(q *preds, f *ssa.Function) *preds {
	if q.fn == f {
		return q
	}
	for _, c := range q.subs {
		if r := k.frameOf(c, f); r != nil {
			return r
		}
	}
	if q.parent == nil {
		return k.p.newPreds(f, nil)
	}
	return nil
}

// differ: a fixed field in which two objects differ.
func (k *keyed) differ(a, b *ssa.Alloc) string {
	if b == nil {
		return "unknown"
	}
	if !types.Identical(a.Type(), b.Type()) {
		return tname(a.Type()) + " and " + tname(b.Type())
	}
	ca, cb := fixedFields(a), fixedFields(b)
	st := structOf(a.Type())
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if ca[i] != cb[i] {
			return st.Field(i).Name()
		}
	}
	return ""
}

// fixedFields: the constants stored in an object's fields.
func fixedFields(al *ssa.Alloc) map[int]string {
	out := map[int]string{}
	whole, fields := allocStores(al)
	for _, w := range whole {
		if u, ok := w.Val.(*ssa.UnOp); ok {
			if al2, ok := u.X.(*ssa.Alloc); ok && al2 != al {
				for i, c := range fixedFields(al2) {
					out[i] = c
				}
			}
		}
	}
	for i, sts := range fields {
		for _, s := range sts {
			if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() != "false" && c.Value.ExactString() != "0" {
				out[i] += "|" + c.Value.ExactString()
			}
		}
	}
	return out
}

// ---- identities of images

// identities: an image holder made by the library identifies its data.
func (k *keyed) identities() {
	tn, _ := k.p.Root.Pkg.Scope().Lookup("ImageHolder").(*types.TypeName)
	if tn == nil {
		return
	}
	iface, ok := tn.Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	n := 0
	for _, t := range k.p.namedTypes() {
		if structOf(t) == nil || !types.Implements(types.NewPointer(t), iface) && !types.Implements(t, iface) {
			continue
		}
		id := k.p.methodOf(t, "ID")
		if id == nil {
			continue
		}
		// the field the method returns
		field := -1
		for _, r := range returnsOf(id) {
			if u, ok := r.Results[0].(*ssa.UnOp); ok {
				if fa, ok := u.X.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), t) {
					field = fa.Field
					continue
				}
			}
			if f, ok := r.Results[0].(*ssa.Field); ok {
				field = f.Field
				continue
			}
			k.res.add("identity", fname(id), "ID", k.p.insPos(r), "the identity of an image is not kept with its data")
		}
		if field < 0 {
			continue
		}
		for _, s := range k.p.allStores()[fkey(t, field)] {
			n++
			k.identity(s, t)
		}
	}
	k.res.floor("image identities", n, 2)
}

func (k *keyed) identity(s fieldStore, t *types.Named) {
	fa := s.ins.(*ssa.Store).Addr.(*ssa.FieldAddr)
	q := k.p.newPreds(s.fn, nil)
	// what goes into the holder
	var data []string
	for _, b := range s.fn.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok || len(ci.Common().Args) != 2 {
				continue
			}
			switch methodName(fullCallee(ci.Common())) {
			case "Write", "WriteString":
				if within(ci.Common().Args[0], fa.X) {
					data = append(data, dataName(q, ci.Common().Args[1]))
				}
			}
		}
	}
	if len(data) == 0 {
		k.res.add("identity", fname(s.fn), "data", k.p.insPos(s.ins), "the data the identity stands for was not found")
		return
	}
	for _, d := range data {
		if why := k.identifies(q, s.val, d, 0); why != "" {
			k.res.add("identity", fname(s.fn), "identity", k.p.insPos(s.ins), "the identity given to an image does not tell its data apart: %s", why)
		}
	}
}

func within(v, base ssa.Value) bool {
	for i := 0; i < 4; i++ {
		if v == base {
			return true
		}
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		v = fa.X
	}
	return false
}

// dataName names a byte slice, whether it was converted or not.
func dataName(q *preds, v ssa.Value) string {
	for {
		switch y := v.(type) {
		case *ssa.Convert:
			v = y.X
			continue
		case *ssa.MakeInterface:
			v = y.X
			continue
		}
		return q.expr(v)
	}
}

// identifies: "" when the value is different for different data.
func (k *keyed) identifies(q *preds, v ssa.Value, data string, depth int) string {
	if depth > 20 {
		return "its derivation is too long to follow"
	}
	if dataName(q, v) == data {
		return ""
	}
	switch y := v.(type) {
	case *ssa.Convert:
		return k.identifies(q, y.X, data, depth+1)
	case *ssa.ChangeType:
		return k.identifies(q, y.X, data, depth+1)
	case *ssa.MakeInterface:
		return k.identifies(q, y.X, data, depth+1)
	case *ssa.BinOp:
		if y.Op == token.ADD {
			if k.identifies(q, y.X, data, depth+1) == "" {
				return ""
			}
			return k.identifies(q, y.Y, data, depth+1)
		}
	case *ssa.Slice:
		if y.Low != nil || y.High != nil {
			return "only part of the digest (or of the data) is used"
		}
		if al, ok := y.X.(*ssa.Alloc); ok {
			whole, _ := allocStores(al)
			if len(whole) == 1 {
				return k.identifies(q, whole[0].Val, data, depth+1)
			}
		}
		return k.identifies(q, y.X, data, depth+1)
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok {
			whole, _ := allocStores(al)
			if len(whole) == 1 {
				return k.identifies(q, whole[0].Val, data, depth+1)
			}
		}
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			return k.identifiesCall(q, c, y.Index, data, depth)
		}
	case *ssa.Call:
		return k.identifiesCall(q, y, 0, data, depth)
	case *ssa.Parameter:
		if q.parent != nil {
			i := paramIndex(y)
			if i < len(q.call.Args) {
				return k.identifies(q.parent, q.call.Args[i], data, depth+1)
			}
		}
		// the path the data was read from
		if k.readFrom(q, y, data) {
			return ""
		}
	case *ssa.Phi:
		for _, e := range y.Edges {
			if why := k.identifies(q, e, data, depth+1); why != "" {
				return why
			}
		}
		return ""
	}
	return "it is not worked out from the data"
}

func (k *keyed) readFrom(q *preds, path ssa.Value, data string) bool {
	for _, b := range q.fn.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			full := fullCallee(&c.Call)
			if full != "os.ReadFile" && full != "io/ioutil.ReadFile" || c.Call.Args[0] != path {
				continue
			}
			for _, r := range *c.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index == 0 && q.expr(ex) == data {
					return true
				}
			}
		}
	}
	return false
}

func (k *keyed) identifiesCall(q *preds, c *ssa.Call, idx int, data string, depth int) string {
	cc := &c.Call
	full := fullCallee(cc)
	switch full {
	case "fmt.Sprintf":
		f, ok := constString(cc.Args[0])
		if !ok {
			return "its format is not fixed"
		}
		for _, v := range verbsOf(f) {
			if strings.Contains(v, ".") {
				return "only part of the digest is printed"
			}
		}
		fallthrough
	case "fmt.Sprint":
		sl, ok := cc.Args[len(cc.Args)-1].(*ssa.Slice)
		if !ok {
			return "its arguments could not be followed"
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok {
			return "its arguments could not be followed"
		}
		why := "it is not worked out from the data"
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok {
						w := k.identifies(q, st.Val, data, depth+1)
						if w == "" {
							return ""
						}
						why = w
					}
				}
			}
		}
		return why
	case "encoding/hex.EncodeToString", "(*encoding/base64.Encoding).EncodeToString":
		return k.identifies(q, cc.Args[len(cc.Args)-1], data, depth+1)
	case "crypto/md5.Sum", "crypto/sha1.Sum", "crypto/sha256.Sum256", "crypto/sha512.Sum512":
		return k.identifies(q, cc.Args[0], data, depth+1)
	}
	if cc.IsInvoke() && cc.Method.Name() == "Sum" {
		h := cc.Value
		for _, b := range q.fn.Blocks {
			for _, ins := range b.Instrs {
				w, ok := ins.(ssa.CallInstruction)
				if !ok || !dominates(ins, c) {
					continue
				}
				wc := w.Common()
				if wc.IsInvoke() && wc.Method.Name() == "Write" && wc.Value == h && dataName(q, wc.Args[0]) == data {
					return strongHash(h)
				}
				if full := fullCallee(wc); full == "io.WriteString" && len(wc.Args) == 2 {
					if mi, ok := wc.Args[0].(*ssa.ChangeInterface); ok && mi.X == h && dataName(q, wc.Args[1]) == data {
						return strongHash(h)
					}
				}
				if full := fullCallee(wc); full == "io.Copy" && len(wc.Args) == 2 {
					if mi, ok := wc.Args[0].(*ssa.ChangeInterface); ok && mi.X == h && readerOf(q, wc.Args[1], data) {
						return strongHash(h)
					}
				}
			}
		}
		return "the digest is not taken of all the data kept"
	}
	f := cc.StaticCallee()
	if f != nil && k.p.owns(f) && f.Blocks != nil && q.depth < 4 {
		sub := q.enter(f, cc)
		for _, r := range returnsOf(f) {
			if failsReturn(r) {
				continue
			}
			if why := k.identifies(sub, r.Results[idx], data, depth+1); why != "" {
				return why
			}
		}
		return ""
	}
	return "it is not worked out from the data"
}

func readerOf(q *preds, v ssa.Value, data string) bool {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		v = mi.X
	}
	c, ok := v.(*ssa.Call)
	if !ok || len(c.Call.Args) != 1 {
		return false
	}
	switch fullCallee(&c.Call) {
	case "bytes.NewReader", "bytes.NewBuffer":
		return dataName(q, c.Call.Args[0]) == data
	}
	return false
}

// strongHash: a digest wide enough to tell data apart.
func strongHash(h ssa.Value) string {
	c, ok := h.(*ssa.Call)
	if !ok {
		return ""
	}
	full := fullCallee(&c.Call)
	for _, p := range []string{"hash/crc32", "hash/crc64", "hash/adler32", "hash/fnv", "hash/maphash"} {
		if strings.HasPrefix(full, p) {
			return "a checksum does not tell data apart"
		}
	}
	return ""
}

// ---- resets

// resets: where the list of objects is emptied the tables of reused objects are emptied too.
func (k *keyed) resets() {
	n := 0
	for f := range k.reset {
		rs := k.p.reach(f)
		for _, table := range sortedIns(k.inserts) {
			n++
			if !k.emptied(rs, table) {
				k.res.add("emptied", fname(f), table, k.p.pos(f.Pos()), "the list of objects is started afresh but %s keeps the numbers of objects of the document before", table)
			}
		}
	}
	k.res.floor("tables emptied with the document", n, 4)
}

// emptied: the field, or what it is part of, is given a fresh value.
func (k *keyed) emptied(fns map[*ssa.Function]bool, table string) bool {
	i := strings.LastIndex(table, ".")
	owner, field := table[:i], table[i+1:]
	fresh := func(f *ssa.Function, own string, fld string) bool { return false }
	_ = fresh
	for f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if tname(deref(fa.X.Type())) == owner && fieldName(fa.X.Type(), fa.Field) == field {
					if _, ok := st.Val.(*ssa.MakeMap); ok {
						if _, local := fa.X.(*ssa.Alloc); !local {
							return true
						}
					}
				}
				// the whole owner, made anew
				if tname(deref(fa.Type())) == owner && newValue(k.p, st.Val, owner) {
					return true
				}
			}
		}
	}
	return false
}

// newValue: the value does not come from an existing one.
func newValue(p *Prog, v ssa.Value, owner string) bool {
	switch y := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Call:
		f := y.Call.StaticCallee()
		if f == nil || !p.owns(f) {
			return false
		}
		for _, r := range returnsOf(f) {
			if !newValue(p, r.Results[0], owner) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		al, ok := y.X.(*ssa.Alloc)
		if !ok {
			return false
		}
		whole, fields := allocStores(al)
		for _, w := range whole {
			if !newValue(p, w.Val, owner) {
				return false
			}
		}
		for _, sts := range fields {
			for _, s := range sts {
				if _, isMap := s.Val.Type().Underlying().(*types.Map); isMap {
					if _, ok := s.Val.(*ssa.MakeMap); !ok {
						return false
					}
				}
			}
		}
		return true
	}
	return false
}
