package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// F04: the glyphs of the subset are closed under composition. Decided on the path summary of the function that
// collects the glyphs: a loop goes over the very list it extends; each glyph whose description is composite is read
// component by component; each component is on the list before the next one is read; the reading moves on by the length
// of the component's entry for every combination of its flags, and stops only when there is no further one.

func init() { checks["F04"] = checkF04 }

type closure struct {
	p    *Prog
	res  *Result
	t    *chartab
	kind map[*ssa.Function]string // readers of two bytes: "u" or "s"
	loca string
	off  string
	data string
}

func checkF04(p *Prog) *Result {
	res := newResult("path summary of the collection of glyphs: induction over the growing list, evaluation of every combination of component flags",
		"At most one of the three scale flags of a component is set, as the format demands.",
		"The tables of the font have been read as the font file has them.")
	t := &chartab{p: p, res: res, writers: map[*ssa.Function]bool{}, kind: map[*ssa.Function]string{}}
	c := &closure{p: p, res: res, t: t, kind: map[*ssa.Function]string{}}
	f := t.methodNamed("PdfDictionaryObj", "write")
	if !t.anchors() || !c.anchors() || f == nil {
		res.add("anchor", "-", "anchors", "-", "the table of characters, the tables of the font or the writer of the glyph program were not found")
		return res
	}
	var fs []*ssa.Function
	for g := range p.reach(f) {
		if g.Blocks != nil && p.owns(g) && recvName(g) != t.table.Obj().Name() && t.usesList(g) {
			fs = append(fs, g)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fname(fs[i]) < fname(fs[j]) })
	n := 0
	for _, g := range fs {
		n++
		c.collect(g, f)
	}
	res.Counts["functions that collect the glyphs of the program"] = n
	res.floor("functions that collect the glyphs of the program", n, 1)
	return res
}

func (c *closure) anchors() bool {
	if n := c.p.namedType("TTFParser"); n != nil {
		st := structOf(n)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "LocaTable":
				c.loca = fkey(n, i).String()
			case "cacheFontData":
				c.data = fkey(n, i).String()
			}
		}
	}
	if n := c.p.namedType("TableDirectoryEntry"); n != nil {
		st := structOf(n)
		for i := 0; st != nil && i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Offset" {
				c.off = fkey(n, i).String()
			}
		}
	}
	return c.loca != "" && c.off != ""
}

// sum summarises g with everything of the package entered; two bytes read as a number are a value of their own.
func (c *closure) sum(g *ssa.Function) *psum {
	s := c.p.newPsum(func(f *ssa.Function, cc *ssa.CallCommon) bool {
		return c.p.owns(f) && recvName(f) != c.t.table.Obj().Name()
	})
	s.model = func(st *pst, f *ssa.Function, args []*nd) *nd {
		k := c.reader(f)
		if k == "" || len(args) != 2 {
			return nil
		}
		v := word(args[0], args[1])
		if k == "s" {
			v = ndAtom("sext16", v)
		}
		if f.Signature.Results().Len() == 1 {
			return v
		}
		return ndAtom("tuple", v, ndNum(2))
	}
	s.rewrite = func(n *nd) *nd { return wordOf(n) }
	s.run(g)
	return s
}

// word is the number in the two bytes of data at off.
func word(data, off *nd) *nd {
	for data.op == "slc" && len(data.a) == 3 {
		off = ndSum(off, 1, data.a[1], 1)
		data = data.a[0]
	}
	return ndAtom("u16", data, off)
}

// wordOf recognises the ways two bytes are put together.
func wordOf(n *nd) *nd {
	if strings.HasPrefix(n.op, "call:") && strings.HasSuffix(n.op, "bigEndian).Uint16") && len(n.a) > 0 {
		if d := n.a[len(n.a)-1]; d.op == "slc" {
			return word(d, ndNum(0))
		}
	}
	var hi, lo *nd
	switch {
	case n.op == "|" && len(n.a) == 2:
		hi, lo = n.a[0], n.a[1]
		if lo.op == "+" {
			hi, lo = lo, hi
		}
	case n.op == "+" && n.k == 0 && len(n.lin) == 2:
		for k, f := range n.lin {
			if f == 256 {
				hi = ndSum(n.at[k], 256, ndNum(0), 0)
			} else if f == 1 {
				lo = n.at[k]
			}
		}
	}
	if hi == nil || lo == nil || hi.op != "+" || len(hi.lin) != 1 || hi.k != 0 || lo.op != "elem" {
		return n
	}
	for k, f := range hi.lin {
		if h := hi.at[k]; f == 256 && h.op == "elem" && h.a[0].s == lo.a[0].s {
			if d := ndSub(lo.a[1], h.a[1]); d.isNum() && d.k == 1 {
				return word(h.a[0], h.a[1])
			}
		}
	}
	return n
}

// reader: the function gives the number in the two bytes at the place it is told, with or without sign.
func (c *closure) reader(f *ssa.Function) string {
	if k, ok := c.kind[f]; ok {
		return k
	}
	c.kind[f] = ""
	sg := f.Signature
	if f.Blocks == nil || len(f.Params) != 2 || sg.Results().Len() < 1 || sg.Results().Len() > 2 || !isInteger(sg.Results().At(0).Type()) {
		return ""
	}
	if sl, ok := f.Params[0].Type().Underlying().(*types.Slice); !ok || !types.Identical(sl.Elem().Underlying(), types.Typ[types.Uint8]) || !isInteger(f.Params[1].Type()) {
		return ""
	}
	s := c.p.newPsum(func(g *ssa.Function, cc *ssa.CallCommon) bool { return c.p.owns(g) })
	s.rewrite = wordOf
	if !s.run(f) || len(s.iters) > 0 || len(s.rets) == 0 {
		return ""
	}
	p0, p1 := ndAtom("P0"), ndAtom("P1")
	two := ndAtom("slc", p0, p1, ndAdd(p1, 2)).s
	u, sg16 := true, true
	for _, x := range []int64{0, 1, 255, 256, 0x7fff, 0x8000, 0x8001, 0xffff} {
		n := 0
		for _, r := range s.rets {
			env := func(a *nd) (int64, bool) {
				switch {
				case a.s == word(p0, p1).s:
					return x, true
				case strings.HasPrefix(a.op, "call:(*math/big.Int).") && len(a.a) == 1:
					for _, e := range effsSince(r.st, nil) {
						if e.kind == "call" && strings.HasSuffix(e.name, "(*math/big.Int).SetBytes") && len(e.args) == 2 && e.args[0].s == a.a[0].s && e.args[1].s == two {
							return x, true
						}
					}
				}
				return 0, false
			}
			if len(r.vals) == 2 && !(r.vals[1].isNum() && r.vals[1].k == 2) {
				return ""
			}
			if may, sure := holds(r.st.facts, nil, env); !may {
				continue
			} else if !sure {
				return ""
			}
			v, ok := evalNd(r.vals[0], env)
			if !ok {
				return ""
			}
			n++
			u = u && v == x
			sg16 = sg16 && v == int64(int16(x))
		}
		if n == 0 {
			return ""
		}
	}
	switch {
	case u:
		c.kind[f] = "u"
	case sg16:
		c.kind[f] = "s"
	}
	return c.kind[f]
}

// holds evaluates the facts since until: may says that none is false, sure that all could be evaluated.
func holds(f, until *pfact, env func(*nd) (int64, bool)) (may, sure bool) {
	sure = true
	for ; f != until && f != nil; f = f.up {
		v, ok := evalCond(f.cond, env)
		if !ok {
			sure = false
			continue
		}
		if v != f.want {
			return false, false
		}
	}
	return true, sure
}

func evalCond(n *nd, env func(*nd) (int64, bool)) (bool, bool) {
	switch n.op {
	case "true":
		return true, true
	case "false":
		return false, true
	case "not":
		v, ok := evalCond(n.a[0], env)
		return !v, ok
	case "lt0", "eq0":
		v, ok := evalNd(n.a[0], env)
		if n.op == "lt0" {
			return v < 0, ok
		}
		return v == 0, ok
	}
	if v, ok := env(n); ok {
		return v != 0, true
	}
	return false, false
}

func evalNd(n *nd, env func(*nd) (int64, bool)) (int64, bool) {
	if n.op == "+" {
		t := n.k
		for k, f := range n.lin {
			v, ok := evalNd(n.at[k], env)
			if !ok {
				return 0, false
			}
			t += f * v
		}
		return t, true
	}
	if v, ok := env(n); ok {
		return v, true
	}
	if len(n.a) == 1 {
		v, ok := evalNd(n.a[0], env)
		if !ok {
			return 0, false
		}
		switch n.op {
		case "sext16", "int16":
			return int64(int16(v)), true
		case "int8":
			return v & 255, true
		case "int32":
			return v & 0xffffffff, true
		}
		return 0, false
	}
	if len(n.a) != 2 {
		return 0, false
	}
	switch n.op {
	case "&", "|", "^", "&^", ">>", "<<", "*", "/", "%":
	default:
		return 0, false
	}
	x, ok1 := evalNd(n.a[0], env)
	y, ok2 := evalNd(n.a[1], env)
	if !ok1 || !ok2 {
		return 0, false
	}
	switch n.op {
	case "&":
		return x & y, true
	case "|":
		return x | y, true
	case "^":
		return x ^ y, true
	case "&^":
		return x &^ y, true
	case ">>":
		if y >= 0 && y < 63 {
			return x >> uint(y), true
		}
	case "<<":
		if y >= 0 && y < 40 {
			return x << uint(y), true
		}
	case "*":
		return x * y, true
	case "/":
		if y != 0 {
			return x / y, true
		}
	case "%":
		if y != 0 {
			return x % y, true
		}
	}
	return 0, false
}

// insideLoop: loop l is run within one iteration of loop o.
func insideLoop(l, o *ploop) bool {
	if l.key() == o.key() {
		return false
	}
	body := loopBody(o.head)
	if l.id == o.id && l.fn == o.fn {
		return body[l.head]
	}
	if !strings.HasPrefix(l.id, o.id+"/") {
		return false
	}
	call := strings.SplitN(strings.TrimPrefix(l.id, o.id+"/"), "/", 2)[0]
	for b := range body {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok && v.Name() == call {
				return true
			}
		}
	}
	return false
}

// parts is the loop that reads the components of one glyph.
type parts struct {
	lp    *ploop
	ph    *ssa.Phi
	pos   *nd // where the loop stands
	c     int64
	data  *nd
	flags *nd
	comp  *nd
	on    [][]*nd // for each way through: the lists the component is on
}

// partLoops finds the loops that look at flags of a component.
func (c *closure) partLoops(s *psum) []*parts {
	var out []*parts
	for _, lp := range s.sortedLoops() {
		for ph, a := range lp.atom {
			if !isInteger(ph.Type()) || lp.kept(ph) {
				continue
			}
			if pt := c.partLoop(s, lp, ph, a); pt != nil {
				out = append(out, pt)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].pos.s < out[j].pos.s })
	return out
}

func (c *closure) partLoop(s *psum, lp *ploop, ph *ssa.Phi, a *nd) *parts {
	var pt *parts
	look := func(n *nd) {
		n.any(func(x *nd) bool {
			if x.op == "&" && len(x.a) == 2 {
				for _, w := range x.a {
					if w.op != "u16" {
						continue
					}
					if d := ndSub(w.a[1], a); d.isNum() && (pt == nil || d.k < pt.c) {
						pt = &parts{lp: lp, ph: ph, pos: a, c: d.k, data: w.a[0], flags: w, comp: word(w.a[0], ndAdd(a, d.k+2))}
					}
				}
			}
			return false
		})
	}
	for _, it := range s.itersOf(lp) {
		for _, f := range factsSince(it.st, lp.facts) {
			look(f.cond)
		}
		for _, v := range it.next {
			if v != nil {
				look(v)
			}
		}
	}
	return pt
}

// start of the description of a glyph: position in the font file = offset of the table + place of the glyph. It gives
// the index of the place and what is left.
func (c *closure) glyphStart(n *nd) (loca, g *nd, rest int64, ok bool) {
	if n.op != "+" || len(n.lin) != 2 {
		return nil, nil, 0, false
	}
	off := false
	for k, f := range n.lin {
		x := n.at[k]
		switch {
		case f != 1:
			return nil, nil, 0, false
		case x.op == "elem" && x.a[0].op == "ld" && len(x.a[0].a) == 2 && x.a[0].a[1].s == c.loca:
			loca, g = x, x.a[1]
		case (x.op == "fld" || x.op == "ld") && x.a[len(x.a)-1].s == c.off && x.has(`"glyf"`):
			off = true
		}
	}
	return loca, g, n.k, off && loca != nil
}

func (c *closure) collect(g, top *ssa.Function) {
	p, res := c.p, c.res
	name := fname(g)
	s := c.sum(g)
	if s.gave != "" {
		res.add("closure", name, "undecided", p.pos(g.Pos()), "the paths could not be listed: %s", s.gave)
		return
	}
	pts := c.partLoops(s)
	if len(pts) == 0 {
		// the components may be looked for by a caller
		n := 0
		for _, ci := range p.staticCallers()[g] {
			if up := ci.Parent(); g != top && up != g && p.reach(top)[up] && p.owns(up) {
				n++
				c.collect(up, top)
			}
		}
		if n == 0 {
			res.add("closure", name, "no loop over components", p.pos(g.Pos()), "nothing reads the components of the glyphs that are collected")
		}
		return
	}
	for _, pt := range pts {
		c.judge(s, g, pt)
	}
	res.Counts["loops over components"] += len(pts)
}

func (c *closure) judge(s *psum, g *ssa.Function, pt *parts) {
	p, res := c.p, c.res
	name := fname(g)
	cl := pt.lp
	at := p.pos(cl.head.Instrs[0].Pos())
	for _, ins := range cl.head.Instrs {
		if ins.Pos().IsValid() {
			at = p.insPos(ins)
			break
		}
	}
	where := fname(cl.fn)
	res.sample("components read in %s, flags at %s", where, short(pt.flags))

	// the first component lies ten bytes after the start of the glyph's description
	var list, idx, loca *nd
	var drv *ploop
	for _, l2 := range s.loops[cl.key()] {
		lo, gl, k, ok := c.glyphStart(ndAdd(l2.init[pt.ph], pt.c))
		if !ok || gl.op != "elem" {
			res.add("closure", where, "start", at, "the components are not read from the description of a glyph of the list: %s", short(l2.init[pt.ph]))
			return
		}
		if k != 10 {
			res.add("closure", where, "start", at, "the first component is read %d bytes after the start of the glyph's description, not 10", k)
			return
		}
		if list != nil && (list.s != gl.a[0].s || idx.s != gl.a[1].s) {
			res.add("closure", where, "start", at, "the components of glyphs of different lists are read by one loop")
			return
		}
		list, idx, loca = gl.a[0], gl.a[1], lo
	}
	drv, inits, nexts := s.carried(list)
	if drv == nil || !insideLoop(cl, drv) {
		res.add("closure", name, "list", at, "components are only looked for in the glyphs of a list that does not grow: components of components are missed (%s)", short(list))
		return
	}
	// the running list
	dpos := p.pos(drv.fn.Pos())
	length := ndAtom("len", list)
	cov := s.covers(drv, length, idx)
	if cov == nil {
		res.add("closure", name, "list", dpos, "the loop does not go over every glyph of the list it extends: index %s", short(idx))
		return
	}
	for _, n := range nexts {
		if !growsFrom(s, n, list, 0) {
			res.add("closure", name, "list", dpos, "the list of glyphs loses some while components are added: %s", short(n))
			return
		}
	}
	_ = inits
	for _, r := range s.rets {
		if errorReturn(r) || r.panic {
			continue
		}
		ok := false
		for _, v := range r.vals {
			if v.s == list.s {
				ok = true
			}
		}
		if ok && s.over(cov, r.st, length) {
			continue
		}
		if !ok && s.over(cov, r.st, length) && !c.isList(r) {
			continue
		}
		res.add("closure", name, "result", p.insPos(r.ins), "the list given back is not the one whose components have all been added (%s): %s", short(firstNd(r.vals)), showFactsShort(factsSince(r.st, nil)))
	}

	// one component
	n := 0
	for _, it := range s.itersOf(cl) {
		n++
		facts := factsSince(it.st, cl.facts)
		on := c.recorded(s, pt, list, c.listsAt(it), facts, nil)
		if len(on) == 0 {
			res.add("closure", where, "component", c.from(it, at), "a component may be passed without being on the list: %s", showFactsShort(facts))
		} else {
			pt.on = append(pt.on, on)
		}
		c.step(pt, it, facts, where, c.from(it, at))
	}
	// ways out
	var leaves int
	out := func(st *pst, lists, ends []*nd, pos string) {
		facts := factsSince(st, nil)
		var mine []*pfact
		for _, f := range facts {
			if f.cond.has(pt.pos.s) || c.ofLoop(cl, f.cond) {
				mine = append(mine, f)
			}
		}
		via := len(mine) > 0
		for _, l := range lists {
			if l != nil && (l.has("@"+cl.key()) || c.ofLoop(cl, l)) {
				via = true
			}
		}
		if !via {
			if why := c.plain(s, pt, loca, facts); why != "" {
				res.add("closure", name, "glyph", pos, "a glyph may be passed without looking for its components: %s", why)
			}
			return
		}
		leaves++
		c.leave(s, pt, list, ends, st, mine, where, pos)
	}
	for _, it := range s.iters {
		if it.loop.key() == cl.key() || insideLoop(it.loop, cl) || !(it.loop.key() == drv.key() || insideLoop(it.loop, drv) && insideLoop(cl, it.loop)) {
			continue
		}
		out(it.st, c.listsAt(it), c.listEnd(it, drv, list), c.from(it, at))
	}
	res.Counts["ways through one component"] += n
	res.Counts["ways out of the components of a glyph"] += leaves
	res.floor("ways through one component", n, 2)
	res.floor("ways out of the components of a glyph", leaves, 1)
}

func firstNd(v []*nd) *nd {
	if len(v) > 0 {
		return v[0]
	}
	return ndNil
}

func (c *closure) from(it *piter, at string) string {
	for i := len(it.from.Instrs) - 1; i >= 0; i-- {
		if it.from.Instrs[i].Pos().IsValid() {
			return c.p.insPos(it.from.Instrs[i])
		}
	}
	return at
}

// isList: the path gives back a list of glyphs.
func (c *closure) isList(r *pret) bool {
	for _, t := range retTypes(r.ins) {
		if sl, ok := t.Underlying().(*types.Slice); ok && isInteger(sl.Elem()) && !isBytes(t) {
			return true
		}
	}
	return false
}

func retTypes(ins ssa.Instruction) (out []types.Type) {
	if r, ok := ins.(*ssa.Return); ok {
		for _, v := range r.Results {
			out = append(out, v.Type())
		}
	}
	return
}

// listsAt gives every list there is at the end of the iteration.
func (c *closure) listsAt(it *piter) []*nd {
	var out []*nd
	for _, v := range it.st.mem {
		if v != nil {
			out = append(out, v)
		}
	}
	for _, v := range it.next {
		if v != nil {
			out = append(out, v)
		}
	}
	return out
}

// listEnd gives what the list of the driving loop is at the end of the iteration.
func (c *closure) listEnd(it *piter, drv *ploop, list *nd) []*nd {
	var out []*nd
	if strings.HasSuffix(list.s, "@"+drv.key()) {
		out = append(out, it.st.mem[strings.TrimSuffix(list.s, "@"+drv.key())])
	}
	for ph, v := range it.next {
		if _, ok := ph.Type().Underlying().(*types.Slice); ok && v != nil && drv.atom[ph] != nil && drv.atom[ph].s == list.s {
			out = append(out, v)
		}
	}
	return out
}

// ofLoop: the value depends on something the loop changes.
func (c *closure) ofLoop(lp *ploop, n *nd) bool {
	if n.any(func(x *nd) bool { return strings.HasSuffix(x.s, "@"+lp.key()) }) {
		return true
	}
	for ph, a := range lp.atom {
		if !lp.kept(ph) && n.has(a.s) {
			return true
		}
	}
	return false
}

// recorded gives lists the component is on.
func (c *closure) recorded(s *psum, pt *parts, list *nd, lists []*nd, facts []*pfact, st *pst) (on []*nd) {
	bottom := func(x *nd) *nd {
		for x.op == "app" || x.op == "cat" {
			x = x.a[0]
		}
		return x
	}
	grows := func(x *nd) bool {
		lp, _, next := s.carried(x)
		if lp == nil {
			return true
		}
		for _, n := range next {
			if !growsFrom(s, n, x, 0) {
				return false
			}
		}
		return true
	}
	var walk func(x *nd)
	walk = func(x *nd) {
		switch x.op {
		case "cat":
			walk(x.a[0])
			walk(x.a[1])
		case "app":
			for _, e := range x.a[1:] {
				if e.s == pt.comp.s && grows(bottom(x)) {
					on = append(on, bottom(x))
				}
			}
			walk(x.a[0])
		default:
			if st == nil {
				return
			}
			lp, _, next := s.carriedOn(x, st)
			if lp == nil {
				return
			}
			if el := c.t.alwaysAppended(s, x, next); el != nil {
				length := s.length(el.a[0])
				if cov := s.covers(lp, length, el.a[1]); cov != nil && s.over(cov, st, length) {
					walk(el.a[0])
				}
			}
		}
	}
	for _, l := range lists {
		if l != nil {
			walk(l)
		}
	}
	for _, f := range facts {
		if !f.want {
			continue
		}
		if f.cond.op == "eq0" {
			for k := range f.cond.a[0].lin {
				e := f.cond.a[0].at[k]
				if e.op != "elem" {
					continue
				}
				d1, d2 := ndSub(e, pt.comp), ndSub(pt.comp, e)
				if f.cond.a[0].s != d1.s && f.cond.a[0].s != d2.s {
					continue
				}
				if grows(bottom(e.a[0])) {
					on = append(on, bottom(e.a[0]))
				}
			}
		}
		if f.cond.op == "has" || f.cond.op == "get" {
			if len(f.cond.a) >= 2 && f.cond.a[1].s == pt.comp.s && c.mirrors(s, f.cond.a[0], list) {
				on = append(on, list)
			}
		}
	}
	return
}

// holdsList: everything on the list b is on the list x.
func (c *closure) holdsList(s *psum, st *pst, x, b *nd, depth int) bool {
	if x == nil || depth > 8 {
		return false
	}
	if x.s == b.s || b == ndNil {
		return true
	}
	switch x.op {
	case "app":
		return c.holdsList(s, st, x.a[0], b, depth+1)
	case "cat":
		return c.holdsList(s, st, x.a[0], b, depth+1) || c.holdsList(s, st, x.a[1], b, depth+1)
	}
	lp, init, next := s.carriedOn(x, st)
	if lp == nil {
		return false
	}
	if el := c.t.alwaysAppended(s, x, next); el != nil && c.holdsList(s, st, el.a[0], b, depth+1) {
		length := s.length(el.a[0])
		if cov := s.covers(lp, length, el.a[1]); cov != nil && s.over(cov, st, length) {
			return true
		}
	}
	for _, i := range init {
		if !c.holdsList(s, st, i, b, depth+1) {
			return false
		}
	}
	for _, n := range next {
		if !growsFrom(s, n, x, 0) {
			return false
		}
	}
	return len(init) > 0
}

// mirrors: everything that is put into the set is on the list.
func (c *closure) mirrors(s *psum, set, list *nd) bool {
	base := mapBase(set)
	if !strings.HasPrefix(base, "new") {
		return false
	}
	check := func(st *pst, lists []*nd) bool {
		for _, e := range effsSince(st, nil) {
			if e.kind != "put" || e.addr == nil || e.addr.s != base || len(e.args) == 0 {
				continue
			}
			key := e.args[0]
			ok := key.op == "elem" && (growsFrom(s, list, key.a[0], 0) || growsFrom(s, key.a[0], list, 0))
			if _, init, _ := s.carried(list); key.op == "elem" {
				for _, i := range init {
					ok = ok || growsFrom(s, i, key.a[0], 0)
				}
			}
			for _, m := range st.mem {
				if m != nil && appends(m, key) {
					ok = true
				}
			}
			for _, m := range lists {
				if m != nil && appends(m, key) {
					ok = true
				}
			}
			if !ok {
				return false
			}
		}
		return true
	}
	for _, it := range s.iters {
		var ls []*nd
		for _, v := range it.next {
			ls = append(ls, v)
		}
		if !check(it.st, ls) {
			return false
		}
	}
	return true
}

func appends(l, x *nd) bool {
	for l != nil && l.op == "app" {
		for _, e := range l.a[1:] {
			if e.s == x.s {
				return true
			}
		}
		l = l.a[0]
	}
	return false
}

// mapBase is the map whose content the value describes.
func mapBase(n *nd) string {
	for n != nil {
		switch n.op {
		case "put", "del":
			n = n.a[0]
			continue
		case "map":
			return n.a[0].s
		}
		if i := strings.Index(n.s, "\x01map@"); i >= 0 {
			return n.s[:i]
		}
		break
	}
	return ""
}

// masks are the bits of the flags that are looked at.
func (c *closure) masks(pt *parts, nodes []*nd) []int64 {
	bits := map[int64]bool{1: true, 8: true, 32: true, 64: true, 128: true}
	for _, n := range nodes {
		n.any(func(x *nd) bool {
			if (x.op == "&" || x.op == "&^" || x.op == ">>") && len(x.a) == 2 {
				for i := range x.a {
					if x.a[i].isNum() && x.a[1-i].has(pt.flags.s) {
						m := x.a[i].k
						if x.op == ">>" {
							m = 1 << uint(m&15)
						}
						for b := int64(1); b < 1<<16; b <<= 1 {
							if m&b != 0 {
								bits[b] = true
							}
						}
					}
				}
			}
			return false
		})
	}
	var out []int64
	for b := range bits {
		out = append(out, b)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// each calls fn for every combination of flags the facts allow.
func (c *closure) each(pt *parts, facts []*pfact, also *nd, fn func(flags int64, env func(*nd) (int64, bool)) bool) {
	var nodes []*nd
	for _, f := range facts {
		nodes = append(nodes, f.cond)
	}
	if also != nil {
		nodes = append(nodes, also)
	}
	bits := c.masks(pt, nodes)
	for m := 0; m < 1<<uint(len(bits)); m++ {
		fl := int64(0)
		for i, b := range bits {
			if m>>uint(i)&1 != 0 {
				fl |= b
			}
		}
		n := 0
		for _, b := range []int64{8, 64, 128} {
			if fl&b != 0 {
				n++
			}
		}
		if n > 1 {
			continue
		}
		env := func(a *nd) (int64, bool) {
			if a.s == pt.flags.s {
				return fl, true
			}
			return 0, false
		}
		may := true
		for _, f := range facts {
			if v, ok := evalCond(f.cond, env); ok && v != f.want {
				may = false
			}
		}
		if may && !fn(fl, env) {
			return
		}
	}
}

// step: the next component lies behind this one.
func (c *closure) step(pt *parts, it *piter, facts []*pfact, where, pos string) {
	delta := ndSub(it.next[pt.ph], pt.pos)
	c.each(pt, facts, delta, func(fl int64, env func(*nd) (int64, bool)) bool {
		want := int64(6)
		if fl&1 != 0 {
			want = 8
		}
		switch {
		case fl&8 != 0:
			want += 2
		case fl&64 != 0:
			want += 4
		case fl&128 != 0:
			want += 8
		}
		got, ok := evalNd(delta, env)
		if !ok {
			c.res.add("closure", where, "step", pos, "the distance to the next component is not a function of the flags: %s", short(delta))
			return false
		}
		if got != want {
			c.res.add("closure", where, "step", pos, "with flags %#x the next component is read %d bytes on, it lies %d bytes on", fl, got, want)
			return false
		}
		return true
	})
}

// leave: a way out of the loop must have seen that there is no further component.
func (c *closure) leave(s *psum, pt *parts, list *nd, ends []*nd, st *pst, facts []*pfact, where, pos string) {
	cl := pt.lp
	// what has been found so far is on the list when the next glyph is looked at
	kept := func(on []*nd) bool {
		for _, b := range on {
			for _, e := range ends {
				if c.holdsList(s, st, e, b, 0) {
					return true
				}
			}
		}
		return false
	}
	for _, on := range pt.on {
		if !kept(on) {
			c.res.add("closure", where, "list", pos, "components that were found (on %s) do not come to the list that is gone over (%s)", short(on[0]), short(firstNd(ends)))
			return
		}
	}
	// nothing more to read
	for _, f := range facts {
		if c.pastEnd(pt, f) {
			return
		}
	}
	reads := false
	for _, f := range facts {
		if f.cond.has(pt.flags.s) {
			reads = true
		}
	}
	if reads {
		more := int64(-1)
		c.each(pt, facts, nil, func(fl int64, env func(*nd) (int64, bool)) bool {
			if fl&32 != 0 {
				more = fl
				return false
			}
			return true
		})
		if more >= 0 {
			c.res.add("closure", where, "left early", pos, "the loop is left although the flags (%#x) say that another component follows: %s", more, showFactsShort(facts))
			return
		}
		if !kept(c.recorded(s, pt, list, ends, facts, st)) {
			c.res.add("closure", where, "component", pos, "the last component may be passed without being on the list: %s", showFactsShort(facts))
		}
		return
	}
	// left at the head of the loop: the running value it looks at must say so
	for _, f := range facts {
		for ph, a := range cl.atom {
			if cl.kept(ph) || !f.cond.has(a.s) || a.s == pt.pos.s {
				continue
			}
			ok := true
			// before the first: the condition must not allow leaving
			for _, l2 := range s.loops[cl.key()] {
				env := func(x *nd) (int64, bool) {
					if x.s == a.s {
						switch l2.init[ph].op {
						case "true":
							return 1, true
						case "false":
							return 0, true
						}
						return evalNd(l2.init[ph], func(*nd) (int64, bool) { return 0, false })
					}
					return 0, false
				}
				if v, known := evalCond(f.cond, env); !known || v == f.want {
					ok = false
				}
			}
			// after each: only without a further one
			for _, it := range s.itersOf(cl) {
				nf := factsSince(it.st, cl.facts)
				nx := it.next[ph]
				if nx == nil {
					ok = false
					continue
				}
				c.each(pt, nf, nx, func(fl int64, env func(*nd) (int64, bool)) bool {
					e2 := func(x *nd) (int64, bool) {
						if x.s == a.s {
							if v, k := evalNd(nx, env); k {
								return v, true
							}
							if v, k := evalCond(nx, env); k {
								if v {
									return 1, true
								}
								return 0, true
							}
							return 0, false
						}
						return env(x)
					}
					v, known := evalCond(f.cond, e2)
					if !known || v == f.want && fl&32 != 0 {
						ok = false
						return false
					}
					return true
				})
			}
			if ok {
				return
			}
		}
	}
	c.res.add("closure", where, "left early", pos, "the loop over the components is left without having seen that there is no further one: %s", showFactsShort(facts))
}

// pastEnd: the condition says that no component fits in before the end of the data.
func (c *closure) pastEnd(pt *parts, f *pfact) bool {
	if f.cond.op != "lt0" {
		return false
	}
	x := f.cond.a[0]
	if !f.want {
		x = ndSum(x, -1, ndNum(-1), 1) // not x<0: -x-1 < 0
	}
	// end - pos - k < 0 with k at most what a component takes
	if x.lin[pt.pos.s] != -1 {
		return false
	}
	rest := ndSum(x, 1, pt.pos, 1)
	end := ndAdd(rest, -rest.k)
	isEnd := end.s == ndAtom("len", pt.data).s
	if _, _, _, ok := c.glyphStart(end); ok {
		isEnd = true
	}
	return isEnd && -rest.k <= pt.c+4
}

// plain: the path shows that the glyph has no components. It gives why it does not.
func (c *closure) plain(s *psum, pt *parts, loca *nd, facts []*pfact) string {
	next := ndAtom("elem", loca.a[0], ndAdd(loca.a[1], 1))
	for _, f := range facts {
		if !f.cond.has(loca.a[1].s) {
			continue
		}
		x := f.cond
		switch x.op {
		case "eq0":
			// no description
			if f.want && (x.a[0].s == ndSub(next, loca).s || x.a[0].s == ndSub(loca, next).s) {
				return ""
			}
		case "lt0":
			// length <= 0, or the description would lie past the end of the data or of the table
			y := x.a[0]
			if !f.want {
				y = ndSum(y, -1, ndNum(-1), 1)
			}
			if y.s == ndAdd(ndSub(next, loca), -1).s {
				return ""
			}
			g := loca.a[1]
			if y.lin[g.s] == -1 && len(y.lin) == 2 {
				if y.lin[ndAtom("len", loca.a[0]).s] == 1 && y.k >= -2 {
					return ""
				}
			}
			if y.lin[loca.s] == -1 && y.lin[ndAtom("len", pt.data).s] == 1 && y.k >= -10 {
				return ""
			}
		}
		// at least no contour: every negative number of contours would have been decided otherwise
		ok, seen := true, false
		for _, v := range []int64{-1, -2, -32768} {
			env := func(a *nd) (int64, bool) {
				if a.op == "u16" {
					if lo, _, k, is := c.glyphStart(a.a[1]); is && k == 0 && lo.s == loca.s && a.a[0].s == pt.data.s {
						seen = true
						return v & 0xffff, true
					}
				}
				return 0, false
			}
			if got, known := evalCond(x, env); !known || got == f.want {
				ok = false
			}
		}
		if ok && seen {
			return ""
		}
	}
	return showFactsShort(facts)
}
