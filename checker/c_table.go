package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// F05: the table of used characters keeps, for each character once, its glyph, in the order of registration; the
// widths, the map to Unicode and the glyph program list all of it. Decided on path summaries of the table's methods,
// of every place that registers, and of the functions that write the three lists.

func init() { checks["F05"] = checkF05 }

type chartab struct {
	p          *Prog
	res        *Result
	table      *types.Named
	fk, fv, fi fieldKey // characters, glyphs, position by character
	set        *ssa.Function
	writers    map[*ssa.Function]bool // functions that change the table, called by the registering method only
	touch      map[*ssa.Function]bool // functions that come to use the table
	kind       map[*ssa.Function]string
	needs      bool // the registering method must only be called for a character that is not there
}

func checkF05(p *Prog) *Result {
	res := newResult("path summaries of the table's methods, of each registration, and of the loops over the table",
		"Callers outside the package do not write the exported lists of the table.",
		"User callbacks invoked while a character is registered do not register characters themselves.")
	t := &chartab{p: p, res: res, writers: map[*ssa.Function]bool{}, kind: map[*ssa.Function]string{}}
	if !t.anchors() {
		res.add("anchor", "-", "anchors", "-", "the table of characters, its lists or its registering method were not found")
		return res
	}
	t.onlyWriters()
	t.methods()
	t.registrations()
	t.widths()
	t.unicode()
	t.program()
	return res
}

func (t *chartab) anchors() bool {
	p := t.p
	t.table = p.namedType("MapOfCharacterToGlyphIndex")
	if t.table == nil || structOf(t.table) == nil {
		return false
	}
	st := structOf(t.table)
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if isRune(u.Elem()) {
				t.fk = fkey(t.table, i)
				n++
			} else if isInteger(u.Elem()) {
				t.fv = fkey(t.table, i)
				n++
			}
		case *types.Map:
			if isRune(u.Key()) && isInteger(u.Elem()) {
				t.fi = fkey(t.table, i)
				n++
			}
		}
	}
	t.set = p.methodOf(t.table, "Set")
	if t.set != nil {
		t.writers[t.set] = true
	}
	if n != 3 || t.set == nil {
		return false
	}
	var direct []*ssa.Function
	for _, f := range p.Funcs {
		if t.usesFields(f) {
			direct = append(direct, f)
		}
	}
	t.touch = p.reachers(direct...)
	return true
}

func (t *chartab) isField(k fieldKey) bool { return k == t.fk || k == t.fv || k == t.fi }

func (t *chartab) usesFields(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.FieldAddr:
				if t.isField(fkey(x.X.Type(), x.Field)) {
					return true
				}
			case *ssa.Field:
				if t.isField(fkey(x.X.Type(), x.Field)) {
					return true
				}
			}
		}
	}
	return false
}

// onlyWriters: what changes the table is the registering method, helpers only it calls, and the making of a table.
func (t *chartab) onlyWriters() {
	p, res := t.p, t.res
	callers := p.staticCallers()
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if t.writers[f] || !p.owns(f) {
				continue
			}
			cs := callers[f]
			ok := len(cs) > 0 || f.Parent() != nil && t.writers[f.Parent()]
			for _, c := range cs {
				if !t.writers[c.Parent()] {
					ok = false
				}
			}
			for _, g := range p.takenFuncs() {
				if g == f && f.Parent() == nil {
					ok = false
				}
			}
			if ok && (f.Object() == nil || !f.Object().Exported()) {
				t.writers[f] = true
				changed = true
			}
		}
	}
	n := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && t.isField(fkey(fa.X.Type(), fa.Field)) {
						n++
						if t.writers[f] || t.fresh(fa.X) {
							continue
						}
						res.add("writer", fname(f), fieldName(fa.X.Type(), fa.Field), p.insPos(ins), "the table of characters is changed outside its registering method")
					}
					if types.Identical(x.Val.Type(), t.table) && !t.fresh(x.Addr) {
						res.add("writer", fname(f), "whole table", p.insPos(ins), "a table of characters is overwritten as a whole")
					}
				}
			}
		}
	}
	res.Counts["stores to the table"] = n
	res.floor("stores to the table", n, 3)
	// the lists and the map are not changed through another name
	work := map[ssa.Value]bool{}
	var queue []ssa.Value
	push := func(v ssa.Value) {
		if v != nil && !work[v] {
			work[v] = true
			queue = append(queue, v)
		}
	}
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && t.isField(fkey(fa.X.Type(), fa.Field)) {
						push(u)
					}
				}
				if fl, ok := ins.(*ssa.Field); ok && t.isField(fkey(fl.X.Type(), fl.Field)) {
					push(fl)
				}
			}
		}
	}
	bad := func(f *ssa.Function, ins ssa.Instruction, what string) {
		if t.writers[f] {
			return
		}
		res.add("alias", fname(f), what, p.insPos(ins), "a list of the table of characters is handed to something that may change it (%s)", what)
	}
	for len(queue) > 0 {
		v := queue[0]
		queue = queue[1:]
		for _, r := range *v.Referrers() {
			f := r.Parent()
			switch x := r.(type) {
			case *ssa.Phi:
				push(x)
			case *ssa.Slice:
				push(x)
			case *ssa.ChangeType:
				push(x)
			case *ssa.MakeInterface:
				push(x)
			case *ssa.IndexAddr:
				for _, r2 := range *x.Referrers() {
					if s, ok := r2.(*ssa.Store); ok && s.Addr == x {
						bad(f, s, "store to an element")
					}
				}
			case *ssa.MapUpdate:
				if x.Map == v {
					bad(f, x, "store in the map")
				}
			case *ssa.Return:
				for i, rv := range x.Results {
					if rv != v {
						continue
					}
					for _, c := range callers[f] {
						if cv, ok := c.(*ssa.Call); ok {
							if len(x.Results) == 1 {
								push(cv)
							} else {
								for _, r2 := range *cv.Referrers() {
									if e, ok := r2.(*ssa.Extract); ok && e.Index == i {
										push(e)
									}
								}
							}
						}
					}
				}
			case *ssa.Store:
				if al, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
					for _, r2 := range *al.Referrers() {
						if u, ok := r2.(*ssa.UnOp); ok {
							push(u)
						}
						if mc, ok := r2.(*ssa.MakeClosure); ok {
							for i, bd := range mc.Bindings {
								if bd != al {
									continue
								}
								for _, r3 := range *mc.Fn.(*ssa.Function).FreeVars[i].Referrers() {
									if u, ok := r3.(*ssa.UnOp); ok {
										push(u)
									}
								}
							}
						}
					}
					continue
				}
				if x.Val == v {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok && t.isField(fkey(fa.X.Type(), fa.Field)) {
						continue
					}
					bad(f, x, "store")
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						if cc.Args[0] == v {
							bad(f, x, "append")
							if cv, ok := x.(*ssa.Call); ok {
								push(cv)
							}
						}
					case "copy":
						if cc.Args[0] == v {
							bad(f, x, "copy")
						}
					case "delete", "clear":
						bad(f, x, bi.Name())
					}
					continue
				}
				cal := cc.StaticCallee()
				if cal != nil && cal.Blocks != nil && p.owns(cal) {
					for i, a := range cc.Args {
						if a == v && i < len(cal.Params) {
							push(cal.Params[i])
						}
					}
					continue
				}
				if n := fullCallee(cc); !strings.HasPrefix(n, "fmt.") {
					bad(f, x, "call of "+n)
				}
			}
		}
	}
}

// fresh: the address of (part of) a table made in the same function.
func (t *chartab) fresh(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
			continue
		}
		return false
	}
}

// sum makes a summary of f in which calls that come to use the table are expanded.
func (t *chartab) sum(f *ssa.Function, also func(*ssa.Function, *ssa.CallCommon) bool) *psum {
	s := t.p.newPsum(func(g *ssa.Function, cc *ssa.CallCommon) bool {
		return t.p.owns(g) && (t.touch[g] || also != nil && also(g, cc))
	})
	s.rewrite = t.rewrite
	t.model(s)
	s.run(f)
	return s
}

// model lets calls of the table's methods, once they have been looked at, mean what they were found to do.
func (t *chartab) model(s *psum) {
	s.model = func(st *pst, f *ssa.Function, args []*nd) *nd {
		k := t.kind[f]
		if k == "" {
			return nil
		}
		fld := func(fk fieldKey) *nd {
			a := s.fieldAddr(args[0], types.NewPointer(t.table), fk.idx)
			return s.load(st, a, structOf(t.table).Field(fk.idx).Type())
		}
		switch k {
		case "keys":
			return fld(t.fk)
		case "vals":
			return fld(t.fv)
		}
		has, get := s.lookup(st, s.content(st, fld(t.fi)), args[1], types.Typ[types.Int])
		if k == "has" {
			return has
		}
		if k == "index" {
			return ndAtom("tuple", get, has)
		}
		e := t.rewrite(ndAtom("elem", fld(t.fv), get))
		e.typ = types.Typ[types.Uint]
		return ndAtom("tuple", e, has)
	}
}

// rewrite uses what the registering method keeps true: both lists have the same length, and the position kept
// for a character of the list is its index.
func (t *chartab) rewrite(n *nd) *nd {
	switch n.op {
	case "len":
		if x := n.a[0]; x.op == "ld" && len(x.a) == 2 && x.a[1].s == t.fv.String() {
			return ndAtom("len", ndAtom("ld", x.a[0], ndAtom(t.fk.String())))
		}
		if x := n.a[0]; strings.Contains(x.s, "\x01"+t.fv.String()+"@") && !strings.Contains(x.s, "(\x00") && len(x.a) == 0 {
			return ndAtom("len", ndAtom(strings.Replace(x.s, "\x01"+t.fv.String()+"@", "\x01"+t.fk.String()+"@", 1)))
		}
	case "maplen":
		if x := t.ofMap(n.a[0]); x != "" {
			return ndAtom("len", ndAtom("ld", n.a[0].a[0].a[0], ndAtom(t.fk.String())))
		}
	case "has", "get":
		x := t.ofMap(n.a[0])
		if x == "" {
			return n
		}
		k := n.a[1]
		if k.op == "elem" && k.a[0].op == "ld" && k.a[0].a[0].s == x && k.a[0].a[1].s == t.fk.String() {
			if n.op == "has" {
				return ndTrue
			}
			return k.a[1]
		}
		if n.op == "get" {
			c := *n
			c.typ = types.Typ[types.Uint] // positions are not negative
			return &c
		}
	}
	return n
}

// ofMap gives the table whose map of positions, as it was at the start, x is.
func (t *chartab) ofMap(x *nd) string {
	if x.op == "map" && x.a[0].op == "ld" && len(x.a[0].a) == 2 && x.a[0].a[1].s == t.fi.String() {
		return x.a[0].a[0].s
	}
	return ""
}

func (t *chartab) lists(recv *nd) (K, V, M *nd) {
	K = ndAtom("ld", recv, ndAtom(t.fk.String()))
	V = ndAtom("ld", recv, ndAtom(t.fv.String()))
	M = ndAtom("map", ndAtom("ld", recv, ndAtom(t.fi.String())))
	return
}

func (t *chartab) methods() {
	p, res := t.p, t.res
	P0, P1, P2 := ndAtom("P0"), ndAtom("P1"), ndAtom("P2")
	K, V, M := t.lists(P0)
	has, get := ndAtom("has", M, P1), ndAtom("get", M, P1)
	done := 0
	fail := func(f *ssa.Function, ins ssa.Instruction, what, format string, a ...interface{}) {
		pos := "-"
		if ins != nil {
			pos = p.insPos(ins)
		}
		res.add("method", fname(f), what, pos, format, a...)
	}
	// registering
	s := t.sum(t.set, nil)
	if s.gave != "" {
		fail(t.set, nil, "Set", "the registering method could not be summarised: %s", s.gave)
	}
	n := 0
	for _, r := range s.rets {
		if r.panic {
			continue
		}
		n++
		t.setPath(s, r, K, V, M, P1, P2, has, get)
	}
	if n == 0 {
		fail(t.set, nil, "Set", "the registering method never returns")
	}
	done++
	kinds := map[*ssa.Function]string{}
	for _, f := range p.Funcs {
		if recvName(f) != t.table.Obj().Name() || f.Parent() != nil || f == t.set || f.Synthetic != "" || t.writers[f] {
			continue
		}
		sg := f.Signature
		var what string
		switch {
		case sg.Params().Len() == 1 && isRune(sg.Params().At(0).Type()) && sg.Results().Len() == 1 && isBool(sg.Results().At(0).Type()):
			what = "has"
		case sg.Params().Len() == 1 && isRune(sg.Params().At(0).Type()) && sg.Results().Len() == 2 && isBool(sg.Results().At(1).Type()) && isInteger(sg.Results().At(0).Type()):
			what = "value"
			if f.Name() == "Index" || !f.Object().Exported() && types.Identical(sg.Results().At(0).Type(), types.Typ[types.Int]) {
				what = "index"
			}
		case sg.Params().Len() == 0 && sg.Results().Len() == 1:
			if sl, ok := sg.Results().At(0).Type().Underlying().(*types.Slice); ok {
				what = "vals"
				if isRune(sl.Elem()) {
					what = "keys"
				}
			}
		}
		if what == "" || !f.Object().Exported() && what != "index" && what != "value" && what != "has" {
			continue
		}
		s := t.sum(f, nil)
		if s.gave != "" {
			fail(f, nil, f.Name(), "the method could not be summarised: %s", s.gave)
			continue
		}
		done++
		kinds[f] = what
		for _, r := range s.rets {
			if r.panic {
				continue
			}
			switch what {
			case "keys", "vals":
				L := K
				if what == "vals" {
					L = V
				}
				if !copyOf(r.vals[0], L) {
					fail(f, r.ins, f.Name(), "gives %s instead of the whole list", short(r.vals[0]))
				}
				continue
			}
			there, known, at := t.search(s, r, K, P1, has, get)
			ok := r.vals[len(r.vals)-1]
			switch {
			case ok.s == has.s:
			case ok.op == "true" || ok.op == "false":
				if !known {
					fail(f, r.ins, f.Name(), "answers %s on a path where it is not known whether the character is registered", ok)
				} else if there != (ok.op == "true") {
					fail(f, r.ins, f.Name(), "answers %s for a character that %s registered", ok, map[bool]string{true: "is", false: "is not"}[there])
				}
			default:
				fail(f, r.ins, f.Name(), "the answer %s is not whether the character is registered", short(ok))
				continue
			}
			if what == "has" || ok.op == "false" {
				continue
			}
			v := r.vals[0]
			good := false
			for _, i := range []*nd{get, at} {
				if i == nil {
					continue
				}
				if what == "index" && v.s == i.s || what == "value" && v.op == "elem" && v.a[0].s == V.s && v.a[1].s == i.s {
					good = true
				}
				if what == "index" && v.op == "elem" && v.a[0].s == V.s && v.a[1].s == i.s && f.Name() != "Index" {
					good = true
				}
			}
			if !good {
				fail(f, r.ins, f.Name(), "gives %s, which is not what was registered for the character", short(v))
			}
		}
	}
	t.kind = kinds
	res.Counts["methods of the table"] = done
	res.floor("methods of the table", done, 4)
	// tables start empty
	for _, f := range p.Funcs {
		if !t.makes(f) {
			continue
		}
		s := t.sum(f, nil)
		if s.gave != "" {
			continue
		}
		for _, r := range s.rets {
			for _, v := range r.vals {
				if v.op != "new" || v.typ == nil || !types.Identical(deref(v.typ), t.table) {
					continue
				}
				m := r.st.mem[memKey(v, t.fi.String())]
				if m == nil || r.st.mem[memKey(m, "map")] == nil || r.st.mem[memKey(m, "map")].op != "empty" {
					fail(f, r.ins, "new table", "a new table does not start with an empty map of positions")
				}
				for _, fl := range []fieldKey{t.fk, t.fv} {
					if l := r.st.mem[memKey(v, fl.String())]; l != nil && !(s.length(l).isNum() && s.length(l).k == 0) {
						fail(f, r.ins, "new table", "a new table does not start empty")
					}
				}
			}
		}
	}
}

func (t *chartab) makes(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if al, ok := ins.(*ssa.Alloc); ok && types.Identical(deref(al.Type()), t.table) {
				return true
			}
		}
	}
	return false
}

func short(n *nd) string {
	if n == nil {
		return "nothing"
	}
	s := strings.ReplaceAll(n.s, "github.com/signintech/gopdf.", "")
	s = strings.ReplaceAll(s, "MapOfCharacterToGlyphIndex#", "field ")
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return strings.ReplaceAll(s, "\x01", ".")
}

// copyOf: the list itself, or a copy of all of it.
func copyOf(x, l *nd) bool {
	if x.s == l.s {
		return true
	}
	if x.op == "cat" && x.a[1].s == l.s {
		b := x.a[0]
		return b.op == "nil" || strings.HasPrefix(b.op, "mk") && len(b.a) == 1 && b.a[0].isNum() && b.a[0].k == 0 || b.op == "slc" && b.a[2].isNum() && b.a[2].k == 0
	}
	return false
}

// setPath: on this path the registering method puts the character at the end of both lists, and its index in the map;
// a character that is already there may instead get its new glyph in its place.
func (t *chartab) setPath(s *psum, r *pret, K, V, M, k, v, has, get *nd) {
	p, res := t.p, t.res
	mem := func(base *nd, f string, otherwise *nd) *nd {
		if x := r.st.mem[memKey(base, f)]; x != nil {
			return x
		}
		return otherwise
	}
	k2, v2 := mem(ndAtom("P0"), t.fk.String(), K), mem(ndAtom("P0"), t.fv.String(), V)
	tbl := mem(ndAtom("P0"), t.fi.String(), M.a[0])
	m2 := mem(tbl, "map", M)
	there, known, at := t.search(s, r, K, k, has, get)
	fail := func(what, format string, a ...interface{}) {
		res.add("method", fname(t.set), what, p.insPos(r.ins), format, a...)
	}
	if known && there {
		same := k2.s == K.s && v2.s == V.s && m2.s == M.s
		stored := false
		for _, e := range effsSince(r.st, nil) {
			if e.kind == "store" && e.addr.op == "&i" {
				ok := e.addr.a[0].s == V.s && (e.addr.a[1].s == get.s || at != nil && e.addr.a[1].s == at.s) && e.val.s == v.s
				if ok {
					stored = true
				} else if e.addr.a[0].op != "new" {
					fail("Set", "registering a character again changes %s", short(e.addr))
				}
			}
		}
		if !same || !stored {
			t.needs = true
		}
		if !same && !(k2.op == "app" && v2.op == "app") {
			fail("Set", "registering a character again leaves the lists as %s and %s", short(k2), short(v2))
		}
		return
	}
	if !known {
		t.needs = true
	}
	for _, e := range effsSince(r.st, nil) {
		switch {
		case e.kind == "delete":
			fail("Set", "registering a character removes one")
		case e.kind == "store" && e.addr.op == "&i" && e.addr.a[0].op != "new":
			fail("Set", "registering a character changes %s", short(e.addr))
		}
	}
	if want := ndAtom("app", K, k); k2.s != want.s {
		fail("Set", "on a path the list of characters becomes %s instead of having the character put at its end once", short(k2))
	}
	if want := ndAtom("app", V, v); v2.s != want.s {
		fail("Set", "on a path the list of glyphs becomes %s instead of having the glyph put at its end once", short(v2))
	}
	if want := ndAtom("put", M, k, ndAtom("len", K)); m2.s != want.s {
		fail("Set", "on a path the position kept for the character is not the one it has in the list: %s", short(m2))
	}
}

// search says whether the path has found out that the character is in the table, and where.
func (t *chartab) search(s *psum, r *pret, K, k, has, get *nd) (there, known bool, at *nd) {
	if v, ok := r.st.known[has.s]; ok {
		return v, true, get
	}
	for _, f := range factsSince(r.st, nil) {
		if f.cond.op != "eq0" || !f.want {
			continue
		}
		if i := sameElem(f.cond, K, k); i != nil {
			return true, true, i
		}
	}
	// a search that went through the whole list
	for _, lp := range s.sortedLoops() {
		its := s.itersOf(lp)
		var c *cover
		ok := len(its) > 0
		for _, it := range its {
			found := false
			for _, f := range factsSince(it.st, lp.facts) {
				if f.cond.op == "eq0" && !f.want {
					if i := sameElem(f.cond, K, k); i != nil {
						if cv := s.covers(lp, ndAtom("len", K), i); cv != nil {
							c, found = cv, true
						}
					}
				}
			}
			ok = ok && found
		}
		if ok && c != nil && s.over(c, r.st, ndAtom("len", K)) {
			return false, true, nil
		}
	}
	return false, false, nil
}

// sameElem: the condition compares an element of the list with x; it gives the index.
func sameElem(cond, list, x *nd) *nd {
	d := cond.a[0]
	if d.op != "+" || d.k != 0 || len(d.lin) != 2 {
		return nil
	}
	var i *nd
	other := false
	for s, a := range d.at {
		if s == x.s {
			other = true
		} else if a.op == "elem" && a.a[0].s == list.s {
			i = a.a[1]
		}
	}
	if other {
		return i
	}
	// both elements of the list: x is an element too
	return nil
}

// registrations: wherever a character is registered it is known not to be there yet.
func (t *chartab) registrations() {
	p, res := t.p, t.res
	sites := map[ssa.Instruction]bool{}
	type root struct {
		f     *ssa.Function
		depth int
	}
	var queue []root
	callers := p.staticCallers()
	seen := map[*ssa.Function]bool{}
	for _, c := range callers[t.set] {
		f := c.Parent()
		if !t.writers[f] && !seen[f] {
			seen[f] = true
			queue = append(queue, root{f, 0})
		}
	}
	for _, f := range p.takenFuncs() {
		if f == t.set {
			res.add("registration", fname(f), "function value", "-", "the registering method is used as a value")
		}
	}
	sort.Slice(queue, func(i, j int) bool { return fname(queue[i].f) < fname(queue[j].f) })
	for len(queue) > 0 {
		q := queue[0]
		queue = queue[1:]
		s := p.newPsum(func(g *ssa.Function, cc *ssa.CallCommon) bool { return p.owns(g) && t.touch[g] })
		s.rewrite = t.rewrite
		t.model(s)
		bad := map[ssa.Instruction]*peff{}
		var order []ssa.Instruction
		s.onEff = func(st *pst, e *peff) {
			if e.kind != "put" || !t.writers[e.fn] {
				return
			}
			sites[e.ins] = true
			has, _ := s.lookup(st, e.args[1], e.args[0], nil)
			if v, ok := s.decided(st, has); ok && !v {
				return
			}
			if bad[e.ins] == nil {
				bad[e.ins] = e
				order = append(order, e.ins)
			}
		}
		s.run(q.f)
		if s.gave != "" {
			res.add("registration", fname(q.f), "undecided", p.pos(q.f.Pos()), "the paths that register characters could not be listed: %s", s.gave)
			continue
		}
		if !t.needs || len(bad) == 0 {
			continue
		}
		param := true
		for _, e := range bad {
			if !e.args[0].any(func(n *nd) bool { return strings.HasPrefix(n.op, "P") && len(n.a) == 0 }) {
				param = false
			}
		}
		cs := callers[q.f]
		if param && q.depth < 3 && len(cs) > 0 && (q.f.Object() == nil || !q.f.Object().Exported()) {
			for _, c := range cs {
				if f := c.Parent(); !seen[f] {
					seen[f] = true
					queue = append(queue, root{f, q.depth + 1})
				}
			}
			continue
		}
		for _, ins := range order {
			e := bad[ins]
			res.add("registration", fname(q.f), "registers", p.insPos(e.ins), "a character (%s) is registered on a path where it may be registered already, so it is listed twice: %s", short(e.args[0]), strings.ReplaceAll(showFactsShort(factsSince(&pst{facts: e.fact}, nil)), "github.com/signintech/gopdf.", ""))
		}
	}
	res.Counts["functions that register characters"] = len(seen)
	res.floor("functions that register characters", len(seen), 1)
}

func showFactsShort(fs []*pfact) string {
	var out []string
	for _, f := range fs {
		t := short(f.cond)
		if !f.want {
			t = "not " + t
		}
		out = append(out, t)
	}
	if len(out) > 6 {
		out = out[len(out)-6:]
	}
	return strings.Join(out, "; ")
}

// writesText: a call that puts formatted text somewhere.
func writesText(e *peff) bool {
	if e.kind != "call" {
		return false
	}
	if strings.HasPrefix(e.name, "fmt.") {
		return true
	}
	m := methodName(e.name)
	return e.name == "io.WriteString" || strings.HasPrefix(m, "Write")
}

func errorReturn(r *pret) bool {
	if r.panic {
		return true
	}
	if len(r.vals) == 0 {
		return false
	}
	sig := r.ins.Parent().Signature.Results()
	last := r.vals[len(r.vals)-1]
	return isErrorType(sig.At(sig.Len()-1).Type()) && last.op != "nil"
}

// takesWriter: the callee gets somewhere to write to, or lists to fill.
func takesWriter(g *ssa.Function, cc *ssa.CallCommon) bool {
	sg := g.Signature
	for i := 0; i < sg.Params().Len(); i++ {
		switch tt := sg.Params().At(i).Type().(type) {
		case *types.Pointer:
			if _, ok := tt.Elem().Underlying().(*types.Slice); ok {
				return true
			}
			if n := tname(tt.Elem()); n == "bytes.Buffer" || n == "strings.Builder" {
				return true
			}
		default:
			if types.IsInterface(tt) && types.NewMethodSet(tt).Lookup(nil, "Write") != nil {
				return true
			}
			if tt.String() == "io.Writer" {
				return true
			}
		}
	}
	return false
}

// elemsIn lists the elements of the list that occur in x.
func elemsIn(x *nd, list string) []*nd {
	var out []*nd
	x.any(func(n *nd) bool {
		if n.op == "elem" && n.a[0].s == list {
			out = append(out, n)
		}
		return false
	})
	return out
}

// output finds the loop in which, on every way through one iteration, text is written that satisfies want, and
// checks that it covers the list and is always gone through to its end.
func (t *chartab) output(rule string, f *ssa.Function, s *psum, want func(it *piter) (*nd, *nd), missing string) {
	p, res := t.p, t.res
	if s.gave != "" {
		res.add(rule, fname(f), "undecided", p.pos(f.Pos()), "the paths could not be listed: %s", s.gave)
		return
	}
	found := 0
	for _, lp := range s.sortedLoops() {
		its := s.itersOf(lp)
		var idx, list *nd
		good := 0
		for _, it := range its {
			if i, l := want(it); i != nil {
				idx, list = i, l
				good++
			}
		}
		if good == 0 {
			continue
		}
		found++
		where := p.pos(lp.fn.Pos())
		if len(lp.head.Instrs) > 0 {
			where = p.insPos(lp.head.Instrs[len(lp.head.Instrs)-1])
		}
		if good < len(its) {
			for _, it := range its {
				if i, _ := want(it); i == nil {
					res.add(rule, fname(f), "entry left out", where, "one way through the loop writes no (or not the right) entry: %s", showFactsShort(factsSince(it.st, lp.facts)))
				}
			}
		}
		length := s.length(list)
		length = t.rewrite(length)
		c := s.covers(lp, length, idx)
		if c == nil {
			res.add(rule, fname(f), "not all", where, "the loop does not go over the whole list: index %s", short(idx))
			continue
		}
		for _, r := range s.rets {
			if !errorReturn(r) && !s.over(c, r.st, length) {
				res.add(rule, fname(f), "left early", where, "a path leaves the list before its end without an error: %s", showFactsShort(factsSince(r.st, nil)))
				break
			}
		}
		if n := len(res.Samples); n < 12 {
			res.sample("%s: one entry for each element of %s", fname(f), short(list))
		}
	}
	if found == 0 {
		res.add(rule, fname(f), "missing", p.pos(f.Pos()), "%s", missing)
	}
}

func (t *chartab) methodNamed(typ, m string) *ssa.Function {
	n := t.p.namedType(typ)
	if n == nil {
		return nil
	}
	return t.p.methodOf(n, m)
}

// widths: the font's list of widths has one entry, glyph and width of that glyph, for every glyph of the table.
func (t *chartab) widths() {
	f := t.methodNamed("CIDFontObj", "write")
	wf := t.methodNamed("SubsetFontObj", "GlyphIndexToPdfWidth")
	if f == nil || wf == nil {
		t.res.add("anchor", "-", "CIDFontObj.write", "-", "the writer of the widths was not found")
		return
	}
	s := t.sum(f, takesWriter)
	width := "call:" + wf.String()
	t.output("widths", f, s, func(it *piter) (*nd, *nd) {
		var g *nd
		for _, e := range effsSince(it.st, it.loop.eff) {
			if !writesText(e) {
				continue
			}
			for _, a := range e.args {
				w := a.any(func(n *nd) bool { return n.op == width })
				if !w {
					if g == nil {
						if x := t.glyphElem(a); x != nil {
							g = x
						}
					}
					continue
				}
				if g == nil {
					return nil, nil
				}
				ok := false
				a.any(func(n *nd) bool {
					if n.op == width && len(n.a) > 0 && n.a[len(n.a)-1].s == g.s {
						ok = true
					}
					return false
				})
				if !ok {
					return nil, nil
				}
				return g.a[1], g.a[0]
			}
		}
		return nil, nil
	}, "no loop writes glyph and width for the glyphs of the table")
}

// glyphElem: the value is a glyph of the table (possibly formatted).
func (t *chartab) glyphElem(a *nd) *nd { return t.elemOf(a, t.fv) }

func (t *chartab) elemOf(a *nd, f fieldKey) *nd {
	var out *nd
	n := 0
	a.any(func(x *nd) bool {
		if x.op == "elem" && x.a[0].op == "ld" && len(x.a[0].a) == 2 && x.a[0].a[1].s == f.String() {
			if out == nil || out.s != x.s {
				n++
			}
			out = x
		}
		return false
	})
	if n != 1 || a.op == "+" {
		return nil
	}
	return out
}

// builtFrom: the list x is made by one loop that covers the table and puts, each time, the element of the table's list
// f at the loop's index.
func (t *chartab) builtFrom(s *psum, x *nd) (f fieldKey, table string, cov *cover) {
	lp, init, next := s.carried(x)
	if lp == nil || len(next) == 0 {
		return
	}
	for _, i := range init {
		if i != nil && !(s.length(i).isNum() && s.length(i).k == 0) {
			return
		}
	}
	var el *nd
	for _, n := range next {
		if n == nil || n.op != "app" || len(n.a) != 2 || n.a[0].s != x.s {
			return
		}
		if el != nil && el.s != n.a[1].s {
			return
		}
		el = n.a[1]
	}
	if el.op != "elem" || el.a[0].op != "ld" || len(el.a[0].a) != 2 {
		return
	}
	var fk fieldKey
	switch el.a[0].a[1].s {
	case t.fk.String():
		fk = t.fk
	case t.fv.String():
		fk = t.fv
	default:
		return
	}
	length := ndAtom("len", ndAtom("ld", el.a[0].a[0], ndAtom(t.fk.String())))
	c := s.covers(lp, length, el.a[1])
	if c == nil {
		return
	}
	return fk, el.a[0].a[0].s, c
}

// unicode: the map to Unicode has an entry for every glyph of the table, with a character registered with that glyph.
func (t *chartab) unicode() {
	f := t.methodNamed("UnicodeMap", "write")
	if f == nil {
		t.res.add("anchor", "-", "UnicodeMap.write", "-", "the writer of the map to Unicode was not found")
		return
	}
	s := t.p.newPsum(func(g *ssa.Function, cc *ssa.CallCommon) bool {
		if !t.p.owns(g) {
			return false
		}
		if t.touch[g] || takesWriter(g, cc) {
			return true
		}
		return t.holdsLists(g)
	})
	s.rewrite = t.rewrite
	t.model(s)
	s.run(f)
	// paths on which a search for something that is in the list found nothing do not exist
	t.output("unicode", f, s, func(it *piter) (*nd, *nd) {
		if t.impossible(s, it.st) {
			// counted as any other way: give the same answer as the rest
			for _, o := range s.itersOf(it.loop) {
				if o != it && !t.impossible(s, o.st) {
					if i, l := t.unicodeEntry(s, o); i != nil {
						return i, l
					}
				}
			}
			return nil, nil
		}
		return t.unicodeEntry(s, it)
	}, "no loop writes glyph and character for the glyphs of the table")
}

// holdsLists: a method of a type of the package that only keeps lists (the helper that collects the pairs).
func (t *chartab) holdsLists(g *ssa.Function) bool {
	rn := recvName(g)
	if rn == "" {
		for i := 0; i < g.Signature.Results().Len(); i++ {
			if t.listType(deref(g.Signature.Results().At(i).Type())) {
				return true
			}
		}
		return false
	}
	n := t.p.namedType(rn)
	return n != nil && t.listType(n)
}

func (t *chartab) listType(ty types.Type) bool {
	n, ok := ty.(*types.Named)
	if !ok {
		return false
	}
	st := structOf(n)
	if st == nil || st.NumFields() == 0 {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		switch u := st.Field(i).Type().Underlying().(type) {
		case *types.Slice:
			if _, ok := u.Elem().Underlying().(*types.Basic); !ok {
				return false
			}
		case *types.Map:
			if _, ok := u.Elem().Underlying().(*types.Basic); !ok {
				return false
			}
		case *types.Basic:
		default:
			return false
		}
	}
	return true
}

// impossible: the path went through a whole list without finding what is an element of that list.
func (t *chartab) impossible(s *psum, st *pst) bool {
	for _, lp := range s.sortedLoops() {
		its := s.itersOf(lp)
		if len(its) == 0 {
			continue
		}
		all := true
		var c *cover
		var length *nd
		for _, it := range its {
			hit := false
			for _, f := range factsSince(it.st, lp.facts) {
				if f.cond.op != "eq0" || f.want {
					continue
				}
				d := f.cond.a[0]
				if d.op != "+" || d.k != 0 || len(d.lin) != 2 {
					continue
				}
				var es []*nd
				for _, a := range d.at {
					if a.op == "elem" {
						es = append(es, a)
					}
				}
				if len(es) != 2 || es[0].a[0].s != es[1].a[0].s {
					continue
				}
				for _, e := range es {
					length = t.rewrite(s.length(e.a[0]))
					if cv := s.covers(lp, length, e.a[1]); cv != nil {
						c, hit = cv, true
					}
				}
			}
			all = all && hit
		}
		if all && c != nil && s.over(c, st, length) {
			if v, ok := s.decided(st, ndEqual(length, ndNum(0), true)); ok && v {
				continue
			}
			return true
		}
	}
	return false
}

// unicodeEntry finds in one way through a loop the writing of glyph, glyph, character.
func (t *chartab) unicodeEntry(s *psum, it *piter) (*nd, *nd) {
	for _, e := range effsSince(it.st, it.loop.eff) {
		if !writesText(e) {
			continue
		}
		var els []*nd
		for _, a := range e.args {
			var el *nd
			a.any(func(x *nd) bool {
				if x.op == "elem" && el == nil {
					el = x
				}
				return false
			})
			if el != nil {
				if a.op == "+" {
					return nil, nil
				}
				els = append(els, el)
			}
		}
		if len(els) < 2 {
			continue
		}
		ch := els[len(els)-1]
		g := els[0]
		for _, x := range els[:len(els)-1] {
			if x.s != g.s {
				return nil, nil
			}
		}
		// straight from the table
		gd, cd := t.elemOf(g, t.fv), t.elemOf(ch, t.fk)
		if gd != nil && cd != nil {
			if gd.a[0].a[0].s == cd.a[0].a[0].s && gd.a[1].s == cd.a[1].s {
				return gd.a[1], gd.a[0]
			}
			return nil, nil
		}
		// from lists made of the table, in step
		gf, gt, gc := t.builtFrom(s, g.a[0])
		cf, ct, cc := t.builtFrom(s, ch.a[0])
		if gc == nil || cc == nil || gf != t.fv || cf != t.fk || gt != ct || gc.lp != cc.lp {
			return nil, nil
		}
		same := g.a[1].s == ch.a[1].s
		if !same {
			// the character at a place that holds the same glyph
			other := ndAtom("elem", g.a[0], ch.a[1])
			eq := ndEqual(other, g, true)
			if v, ok := it.st.known[eq.s]; ok && v {
				same = true
			}
		}
		if !same {
			return nil, nil
		}
		// the making of the lists was not left early
		if !s.over(gc, it.st, ndAtom("len", ndAtom("ld", ndAtom(gt), ndAtom(t.fk.String())))) {
			return nil, nil
		}
		return g.a[1], g.a[0]
	}
	return nil, nil
}

// program: the glyph program starts from all glyphs of the table.
func (t *chartab) program() {
	p, res := t.p, t.res
	f := t.methodNamed("PdfDictionaryObj", "write")
	if f == nil {
		res.add("anchor", "-", "PdfDictionaryObj.write", "-", "the writer of the glyph program was not found")
		return
	}
	n := 0
	reach := p.reach(f)
	var fs []*ssa.Function
	for g := range reach {
		fs = append(fs, g)
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	for _, g := range fs {
		if g.Blocks == nil || !p.owns(g) || recvName(g) == t.table.Obj().Name() || !t.usesList(g) {
			continue
		}
		n++
		s := t.sum(g, takesWriter)
		if s.gave != "" {
			res.add("program", fname(g), "undecided", p.pos(g.Pos()), "the paths could not be listed: %s", s.gave)
			continue
		}
		for _, r := range s.rets {
			if errorReturn(r) {
				continue
			}
			ok := false
			for _, v := range r.vals {
				if t.holdsAll(s, r.st, v, 0) {
					ok = true
				}
			}
			if !ok {
				res.add("program", fname(g), "glyphs", p.insPos(r.ins), "the list of glyphs given back does not hold every glyph of the table: %s", showFactsShort(factsSince(r.st, nil)))
				break
			}
		}
	}
	res.Counts["functions that collect the glyphs of the program"] = n
	res.floor("functions that collect the glyphs of the program", n, 1)
}

// usesList: f itself takes the list of glyphs or characters.
func (t *chartab) usesList(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.FieldAddr:
				if k := fkey(x.X.Type(), x.Field); k == t.fk || k == t.fv {
					return true
				}
			case ssa.CallInstruction:
				if c := x.Common().StaticCallee(); c != nil && recvName(c) == t.table.Obj().Name() {
					if r := c.Signature.Results(); r.Len() == 1 {
						if _, ok := r.At(0).Type().Underlying().(*types.Slice); ok {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// holdsAll: the list x holds every glyph of the table.
func (t *chartab) holdsAll(s *psum, st *pst, x *nd, depth int) bool {
	if x == nil || depth > 8 {
		return false
	}
	if x.op == "ld" && len(x.a) == 2 && x.a[1].s == t.fv.String() {
		return true
	}
	if x.op == "app" {
		return t.holdsAll(s, st, x.a[0], depth+1)
	}
	if x.op == "cat" {
		return t.holdsAll(s, st, x.a[0], depth+1) || t.holdsAll(s, st, x.a[1], depth+1)
	}
	lp, init, next := s.carried(x)
	if lp == nil {
		return false
	}
	if el := t.alwaysAppended(s, x, next); el != nil && el.op == "elem" && el.a[0].op == "ld" && len(el.a[0].a) == 2 && el.a[0].a[1].s == t.fv.String() {
		length := ndAtom("len", ndAtom("ld", el.a[0].a[0], ndAtom(t.fk.String())))
		if c := s.covers(lp, length, el.a[1]); c != nil && s.over(c, st, length) {
			return true
		}
	}
	for _, i := range init {
		if !t.holdsAll(s, st, i, depth+1) {
			return false
		}
	}
	for _, n := range next {
		if !growsFrom(s, n, x, 0) {
			return false
		}
	}
	return true
}

// alwaysAppended: every way through the loop puts the same element (of the table) on the list.
func (t *chartab) alwaysAppended(s *psum, x *nd, next []*nd) *nd {
	var el *nd
	for i, n := range next {
		if n == nil || n.op != "app" || n.a[0].s != x.s {
			return nil
		}
		var mine *nd
		for _, e := range n.a[1:] {
			if e.op == "elem" && (el == nil || e.s == el.s) {
				mine = e
			}
		}
		if mine == nil || i > 0 && mine.s != el.s {
			return nil
		}
		el = mine
	}
	return el
}

// growsFrom: the list x is the list a, possibly with more at its end.
func growsFrom(s *psum, x, a *nd, depth int) bool {
	if x == nil || depth > 8 {
		return false
	}
	if x.s == a.s {
		return true
	}
	if x.op == "app" || x.op == "cat" {
		return growsFrom(s, x.a[0], a, depth+1)
	}
	lp, init, next := s.carried(x)
	if lp == nil {
		return false
	}
	for _, i := range init {
		if !growsFrom(s, i, a, depth+1) {
			return false
		}
	}
	for _, n := range next {
		if !growsFrom(s, n, x, depth+1) {
			return false
		}
	}
	return true
}
