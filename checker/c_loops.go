package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// L08: every loop makes progress towards a bound. For each loop a measure is found among what it changes (numbers, and
// lengths of lists and texts, and differences of the two): on every way through one iteration the measures, in order,
// do not fall back before one of them advances, and what advances is bounded by something the loop does not change (or
// by the end of the data that is accessed, or of the input that is read). Functions that call themselves do so on a part
// of what they were given.

func init() { checks["L08"] = checkL08 }

type loops struct {
	p   *Prog
	res *Result
	c   *closure
	rd  map[*ssa.Function]int
	of  *psum
	mem map[string]bool
	dir map[string]int
}

func checkL08(p *Prog) *Result {
	res := newResult("ranking measures for every loop on path summaries, bounded by facts on each path; structural descent of recursive calls",
		"Input that is read ends; what a caller hands over (writers, callbacks, trees of outline entries) is finite and returns.",
		"Library calls return.")
	l := &loops{p: p, res: res, rd: map[*ssa.Function]int{}}
	l.c = &closure{p: p, res: res, kind: map[*ssa.Function]string{}}
	n, how := 0, map[string]int{}
	for _, f := range p.Funcs {
		if f.Blocks == nil || !p.owns(f) {
			continue
		}
		var heads []*ssa.BasicBlock
		for _, b := range f.Blocks {
			if isHeader(b) {
				heads = append(heads, b)
			}
		}
		if len(heads) == 0 {
			continue
		}
		left := map[*ssa.BasicBlock]string{}
		for _, h := range heads {
			n++
			if !reachable(f)[h] {
				continue
			}
			left[h] = "not looked at"
		}
		for pass := 0; pass < 3 && len(left) > 0; pass++ {
			s := l.sum(f, pass)
			if s.gave == "" && pass > 0 && len(s.iters) > 600 {
				s.gave = "too many"
			}
			if s.gave != "" {
				for h := range left {
					if left[h] == "not looked at" {
						left[h] = "the paths could not be listed: " + s.gave
					}
				}
				continue
			}
			for _, lp := range s.sortedLoops() {
				if lp.id != "" || lp.fn != f {
					continue
				}
				if _, open := left[lp.head]; !open {
					continue
				}
				why, by := l.rank(s, lp)
				if why == "" {
					how[by]++
					delete(left, lp.head)
				} else {
					left[lp.head] = why
				}
			}
			// a loop no path comes to
			if pass == 0 {
				for h := range left {
					if left[h] == "not looked at" {
						left[h] = "no path to the loop was found"
					}
				}
			}
		}
		for h, why := range left {
			pos := p.pos(f.Pos())
			for _, ins := range h.Instrs {
				if ins.Pos().IsValid() {
					pos = p.insPos(ins)
				}
			}
			res.add("loop", fname(f), "loop "+loopName(heads, h), pos, "the loop may run without end: %s", why)
		}
	}
	for k, v := range how {
		res.Counts["loops bounded by "+k] = v
	}
	res.Counts["loops"] = n
	res.floor("loops", n, 60)
	l.recursion()
	return res
}

func loopName(heads []*ssa.BasicBlock, h *ssa.BasicBlock) string {
	for i, x := range heads {
		if x == h {
			return strconv.Itoa(i + 1)
		}
	}
	return "?"
}

func reachable(f *ssa.Function) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if m[b] {
			return
		}
		m[b] = true
		for _, x := range b.Succs {
			visit(x)
		}
	}
	visit(f.Blocks[0])
	return m
}

// sum: with nothing entered; with those entered that are handed a place to change or something to read from; with
// everything entered.
func (l *loops) sum(f *ssa.Function, pass int) *psum {
	s := l.p.newPsum(func(g *ssa.Function, cc *ssa.CallCommon) bool {
		if !l.p.owns(g) {
			return false
		}
		if pass == 2 {
			return true
		}
		for _, a := range cc.Args {
			if pt, ok := a.Type().Underlying().(*types.Pointer); ok {
				switch pt.Elem().Underlying().(type) {
				case *types.Basic, *types.Slice:
					return true
				}
			}
			if pass == 1 && readsFrom(a.Type()) {
				return true
			}
		}
		return g.Parent() != nil
	})
	s.max = 150000
	s.ownCalls = true
	s.model = func(st *pst, g *ssa.Function, args []*nd) *nd {
		k := l.c.reader(g)
		if k == "" || len(args) != 2 {
			return nil
		}
		v := word(args[0], args[1])
		if k == "s" {
			v = ndAtom("sext16", v)
		}
		if g.Signature.Results().Len() == 1 {
			return v
		}
		return ndAtom("tuple", v, ndNum(2))
	}
	s.rewrite = wordOf
	s.run(f)
	return s
}

func readsFrom(t types.Type) bool {
	m := types.NewMethodSet(t)
	for i := 0; i < m.Len(); i++ {
		if m.At(i).Obj().Name() == "Read" {
			return true
		}
	}
	return false
}

// measure is something the loop changes, as it is at the start of an iteration, and what it is at the end.
type measure struct {
	name string
	at   *nd
	next func(it *piter) *nd
	typ  types.Type
}

func (l *loops) rank(s *psum, lp *ploop) (why, by string) {
	its := s.itersOf(lp)
	if len(its) == 0 {
		return "", "nothing: never repeated"
	}
	if why, is := l.ranges(s, lp, its); is {
		if why == "" {
			return "", "the map or text gone over"
		}
		return why, ""
	}
	var nums, lens []*measure
	for ph, a := range lp.atom {
		ph := ph
		if lp.kept(ph) {
			continue
		}
		switch {
		case isInteger(ph.Type()):
			nums = append(nums, &measure{ph.Comment, a, func(it *piter) *nd { return it.next[ph] }, ph.Type()})
		case isList(ph.Type()):
			lens = append(lens, &measure{"len(" + ph.Comment + ")", s.length(a), func(it *piter) *nd { return s.length(it.next[ph]) }, nil})
		}
	}
	for c := range s.changes[lp.key()] {
		if strings.HasPrefix(c, "φ") || strings.HasPrefix(c, "*") {
			continue
		}
		key := strings.SplitN(c, "\x00", 2)[0]
		a := ndAtom(key + "@" + lp.key())
		num, list := true, true
		isNum, isLst := false, false
		for _, it := range its {
			x := it.st.mem[key]
			if x == nil {
				num, list = false, false
				break
			}
			if x.s == a.s {
				continue
			}
			switch x.op {
			case "app", "cat", "slc", "join", "nil":
				num, isLst = false, true
			case "+":
				list, isNum = false, true
			}
		}
		num, list = num && isNum, list && isLst
		name := key
		if i := strings.LastIndexAny(name, ".\x01"); i >= 0 {
			name = name[i+1:]
		}
		if num {
			nums = append(nums, &measure{name, a, func(it *piter) *nd { return it.st.mem[key] }, nil})
		}
		if list {
			lens = append(lens, &measure{"len(" + name + ")", s.length(a), func(it *piter) *nd { return s.length(it.st.mem[key]) }, nil})
		}
	}
	neg := func(m *measure) *measure {
		return &measure{"-" + m.name, ndSum(m.at, -1, ndNum(0), 0), func(it *piter) *nd { return ndSum(m.next(it), -1, ndNum(0), 0) }, m.typ}
	}
	diff := func(a, b *measure) *measure {
		return &measure{a.name + "-" + b.name, ndSub(a.at, b.at), func(it *piter) *nd { return ndSub(a.next(it), b.next(it)) }, nil}
	}
	var ms []*measure
	for _, m := range nums {
		ms = append(ms, m, neg(m))
	}
	for _, m := range lens {
		ms = append(ms, m, neg(m))
	}
	for _, a := range nums {
		for _, b := range lens {
			ms = append(ms, diff(a, b), diff(b, a))
		}
		for _, b := range nums {
			if a != b {
				ms = append(ms, diff(a, b))
			}
		}
	}
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].name < ms[j].name })
	rest := map[*piter]bool{}
	for _, it := range its {
		if !l.last(s, lp, it, nums, lens) {
			rest[it] = true
		}
	}
	used := map[*measure]bool{}
	var names []string
	kind := "a bound the loop does not change"
	for len(rest) > 0 {
		found := false
		for _, m := range ms {
			if used[m] {
				continue
			}
			var gone []*piter
			ok := true
			for _, it := range its {
				if !rest[it] {
					continue
				}
				d := ndSub(m.next(it), m.at)
				switch {
				case l.least(s, it.st, d, 1, 3):
					if b := l.bounded(s, lp, it, m, d); b != "" {
						gone = append(gone, it)
						if b != "bound" {
							kind = b
						}
					} else if !l.least(s, it.st, d, 0, 3) {
						ok = false
					}
				case !l.least(s, it.st, d, 0, 3):
					ok = false
				}
				if !ok {
					break
				}
			}
			if !ok || len(gone) == 0 {
				continue
			}
			for _, it := range gone {
				delete(rest, it)
			}
			used[m] = true
			names = append(names, m.name)
			found = true
			break
		}
		if !found {
			break
		}
	}
	if len(rest) == 0 {
		if len(names) > 1 {
			l.res.sample("%s: %s", fname(lp.fn), strings.Join(names, ", then "))
		}
		return "", kind
	}
	// input that ends, lengths in fractions
	var open *piter
	for _, it := range its {
		if rest[it] {
			switch {
			case l.consumes(s, lp, it):
				kind = "the end of the input read"
			case l.fraction(s, lp, it):
				kind = "a sum of equal positive steps"
			default:
				if open == nil {
					open = it
				}
			}
		}
	}
	if open == nil {
		return "", kind
	}
	return "one way through it advances nothing that has a bound: " + showFactsShort(factsSince(open.st, open.loop.facts)), ""
}

// least: x is at least k on the path; what a loop passed on the way only adds to is no less than it was before.
func (l *loops) least(s *psum, st *pst, x *nd, k int64, depth int) bool {
	if l.of != s {
		l.of, l.mem, l.dir = s, map[string]bool{}, map[string]int{}
	}
	key := strconv.Itoa(int(k)) + "|" + strconv.Itoa(depth) + "|" + ptrName(st.facts) + "|" + ptrName(st.eff) + "|" + x.s
	if v, ok := l.mem[key]; ok {
		return v
	}
	ok := s.atLeast(st, x, k, depth)
	lin, at := x.lin, x.at
	if x.op != "+" {
		lin, at = map[string]int64{x.s: 1}, map[string]*nd{x.s: x}
	}
	carried := false
	if !ok && !x.isNum() {
		for a, c := range lin {
			lp, init, _ := s.carriedOn(at[a], st)
			if lp == nil || len(init) == 0 {
				continue
			}
			carried = true
			d := l.direction(s, lp, at[a])
			if d == 0 || (d > 0) != (c > 0) {
				continue
			}
			all := true
			for _, i := range init {
				if i == nil || i.has(a) || !l.least(s, st, ndSum(ndSum(x, 1, at[a], -c), 1, i, c), k, depth) {
					all = false
				}
			}
			if all {
				ok = true
				break
			}
		}
	}
	if !ok && !x.isNum() {
		for a, c := range lin {
			// the size of a character of a text that is not empty
			q := at[a]
			if c > 0 && q.op == "#1" && len(q.a) == 1 && strings.HasPrefix(q.a[0].op, "call:unicode/utf8.Decode") && len(q.a[0].a) > 0 &&
				l.least(s, st, s.length(q.a[0].a[0]), 1, 2) && l.least(s, st, ndSum(ndSum(x, 1, q, -c), 1, ndNum(1), c), k, depth) {
				ok = true
			}
		}
	}
	if !ok && carried && depth > 1 {
		for _, g := range notNegative(st, x) {
			if l.least(s, st, ndSub(x, g), k, 1) {
				ok = true
				break
			}
		}
	}
	if !ok && x.op == "+" && depth > 0 {
		for _, q := range x.at {
			c := int64(0)
			if len(q.a) == 2 && q.a[1].isNum() {
				switch k := q.a[1].k; {
				case q.op == "/" && k > 0 && k < 1<<20:
					c = k
				case q.op == ">>" && k > 0 && k < 20:
					c = 1 << uint(k)
				}
			}
			n := x.lin[q.s]
			if c == 0 || n < 0 && q.op == "/" && !l.least(s, st, q.a[0], 0, depth-1) {
				continue
			}
			// x >= k when c*x > c*(k-1); c*q lies between what is divided less c-1, and what is divided
			y := ndSum(ndSum(x, c, q, -n*c), 1, q.a[0], n)
			if n > 0 {
				y = ndAdd(y, -n*(c-1))
			}
			if l.least(s, st, y, c*(k-1)+1, depth-1) {
				ok = true
				break
			}
		}
	}
	l.mem[key] = ok
	return ok
}

func ptrName(p interface{}) string { return fmt.Sprintf("%p", p) }

// direction: 1 when the loop never makes the carried number less, -1 when never more.
func (l *loops) direction(s *psum, lp *ploop, a *nd) int {
	key := lp.key() + "|" + a.s
	if d, ok := l.dir[key]; ok {
		return d
	}
	l.dir[key] = 0
	up, down := true, true
	for _, it := range s.itersOf(lp) {
		nx := l.valueAt(s, lp, it, a)
		if nx == nil {
			up, down = false, false
			break
		}
		d := ndSub(nx, a)
		up = up && l.least(s, it.st, d, 0, 2)
		down = down && l.least(s, it.st, ndSub(a, nx), 0, 2)
	}
	if up {
		l.dir[key] = 1
	} else if down {
		l.dir[key] = -1
	}
	return l.dir[key]
}

func isList(t types.Type) bool {
	if isString(t) {
		return true
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// ranges: the loop goes over a map or the characters of a text.
func (l *loops) ranges(s *psum, lp *ploop, its []*piter) (why string, is bool) {
	var nx *ssa.Next
	for _, ins := range lp.head.Instrs {
		if x, ok := ins.(*ssa.Next); ok {
			nx = x
		}
	}
	if nx == nil {
		return "", false
	}
	rg, ok := nx.Iter.(*ssa.Range)
	if !ok || loopBody(lp.head)[rg.Block()] {
		return "the iterator is made anew in the loop", true
	}
	if nx.IsString {
		return "", true
	}
	for b := range loopBody(lp.head) {
		for _, ins := range b.Instrs {
			if up, ok := ins.(*ssa.MapUpdate); ok && (up.Map == rg.X || sameMapLoad(up.Map, rg.X)) && !sameKey(up, nx) {
				return "entries are added to the map that is gone over", true
			}
		}
	}
	return "", true
}

func sameMapLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	if x.X == y.X {
		return true
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.X == g.X && f.Field == g.Field
}

func sameKey(up *ssa.MapUpdate, nx *ssa.Next) bool {
	e, ok := up.Key.(*ssa.Extract)
	return ok && e.Tuple == nx && e.Index == 1
}

// steady: the value does not depend on anything the loop changes.
func (l *loops) steady(s *psum, lp *ploop, x *nd) bool {
	if l.c.ofLoop(lp, x) {
		return false
	}
	bad := false
	x.any(func(n *nd) bool {
		// values made in the loop: results of calls, numbers of other loops within it
		if strings.HasPrefix(n.op, "call:") || strings.HasPrefix(n.op, "φ") || strings.Contains(n.op, "@") {
			for _, it := range s.itersOf(lp) {
				for _, e := range effsSince(it.st, it.loop.eff) {
					if e.val != nil && e.val.s == n.s && strings.HasPrefix(n.op, "call:") {
						bad = true
					}
				}
			}
			for _, o := range s.sortedLoops() {
				if insideLoop(o, lp) && l.c.ofLoop(o, n) {
					bad = true
				}
			}
		}
		return false
	})
	return !bad
}

// bounded: what advances has a bound.
func (l *loops) bounded(s *psum, lp *ploop, it *piter, m *measure, d *nd) string {
	facts := factsSince(it.st, it.loop.facts)
	for _, f := range facts {
		var xs []*nd // each known to be negative
		switch {
		case f.cond.op == "lt0" && f.want:
			xs = []*nd{f.cond.a[0]}
		case f.cond.op == "lt0":
			xs = []*nd{ndSum(f.cond.a[0], -1, ndNum(-1), 1)}
		case f.cond.op == "eq0" && f.want:
			xs = []*nd{ndAdd(f.cond.a[0], -1), ndSum(f.cond.a[0], -1, ndNum(-1), 1)}
		case f.cond.op == "eq0":
			// other than the bound, met in steps of one from below
			if d.isNum() && d.k == 1 && l.startsBelow(s, lp, m, f.cond.a[0]) {
				return "bound"
			}
			continue
		default:
			continue
		}
		for _, x := range xs {
			rest := ndSub(m.at, x) // m = x + rest, x negative
			ok, wide := true, false
			if rest.op != "+" {
				rest = ndSum(rest, 1, ndNum(0), 0)
			}
			if rest.op == "+" {
				for k, c := range rest.lin {
					if c < 0 && nonNeg(rest.at[k]) {
						continue
					}
					if !l.steady(s, lp, rest.at[k]) {
						ok = false
					}
					wide = true
				}
			} else {
				ok, wide = l.steady(s, lp, rest), true
			}
			if !ok {
				if l.growsNew(s, lp, it, rest) {
					return "a set that holds each of finitely many values once"
				}
				continue
			}
			if m.typ != nil && l.wraps(m, x, wide) {
				continue
			}
			return "bound"
		}
	}
	// the end of data that is accessed at the place
	if l.accessed(s, lp, it, m) {
		return "the end of the data accessed"
	}
	return ""
}

// wraps: the number starts again at the other end of its range before it comes to the bound.
func (l *loops) wraps(m *measure, x *nd, wide bool) bool {
	b, ok := m.typ.Underlying().(*types.Basic)
	if !ok {
		return true
	}
	down := strings.HasPrefix(m.name, "-")
	if b.Info()&types.IsUnsigned != 0 && down && lower(ndSum(x, -1, ndNum(-1), 1)) >= 0 {
		return true // "not below zero" is no bound
	}
	bits := intBits(m.typ)
	if bits >= 32 {
		return false
	}
	if wide {
		return true
	}
	max := int64(1)<<uint(bits-1) - 1
	if b.Info()&types.IsUnsigned != 0 {
		max = int64(1)<<uint(bits) - 1
	}
	r := ndSub(m.at, x) // the bound
	return !(r.isNum() && r.k <= max)
}

// startsBelow: x is the difference to the bound, which the measure does not start above.
func (l *loops) startsBelow(s *psum, lp *ploop, m *measure, x *nd) bool {
	for _, y := range []*nd{x, ndSum(x, -1, ndNum(0), 0)} {
		rest := ndSub(m.at, y) // the bound
		if !l.steady(s, lp, rest) {
			continue
		}
		ok := true
		for _, l2 := range s.loops[lp.key()] {
			var first *nd
			for ph, a := range lp.atom {
				if a.s == m.at.s {
					first = l2.init[ph]
				} else if ndSum(a, -1, ndNum(0), 0).s == m.at.s {
					first = ndSum(l2.init[ph], -1, ndNum(0), 0)
				}
			}
			if first == nil || lower(ndSub(rest, first)) < 0 {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// accessed: in every iteration data that stays the same is read or written at the place, so the end of it ends the loop.
func (l *loops) accessed(s *psum, lp *ploop, it *piter, m *measure) bool {
	hit := false
	look := func(n *nd) {
		n.any(func(x *nd) bool {
			if (x.op == "elem" || x.op == "slc" || x.op == "u16" || x.op == "&i") && len(x.a) >= 2 {
				if dd := ndSub(x.a[1], m.at); (dd.isNum() || l.steady(s, lp, dd)) && l.steady(s, lp, x.a[0]) {
					hit = true
				}
			}
			return hit
		})
	}
	for _, f := range factsSince(it.st, it.loop.facts) {
		look(f.cond)
	}
	for _, e := range effsSince(it.st, it.loop.eff) {
		if e.addr != nil {
			look(e.addr)
		}
		for _, a := range e.args {
			look(a)
		}
	}
	return hit
}

// growsNew: the bound is the length of a list that only takes values that are not on it yet, of which there are finitely
// many.
func (l *loops) growsNew(s *psum, lp *ploop, it *piter, rest *nd) bool {
	if rest.op == "+" {
		if len(rest.lin) != 1 {
			return false
		}
		for k, c := range rest.lin {
			if c != 1 {
				return false
			}
			rest = rest.at[k]
		}
	}
	if rest.op != "len" {
		return false
	}
	list := rest.a[0]
	lp2, _, _ := s.carried(list)
	if lp2 == nil || lp2.key() != lp.key() {
		return false
	}
	for _, i2 := range s.itersOf(lp) {
		if !l.onlyNew(s, i2.st, l.valueAt(s, lp, i2, list), list, 0) {
			return false
		}
	}
	return true
}

// valueAt is what the carried value x is at the end of the iteration.
func (l *loops) valueAt(s *psum, lp *ploop, it *piter, x *nd) *nd {
	for ph, a := range lp.atom {
		if a.s == x.s {
			return it.next[ph]
		}
	}
	if strings.HasSuffix(x.s, "@"+lp.key()) {
		return it.st.mem[strings.TrimSuffix(x.s, "@"+lp.key())]
	}
	return nil
}

func (l *loops) onlyNew(s *psum, st *pst, x, base *nd, depth int) bool {
	if x == nil || depth > 8 {
		return false
	}
	if x.s == base.s {
		return true
	}
	if x.op == "app" {
		if len(x.a) != 2 || !small(x.a[1]) || !l.absent(s, st, x.a[0], x.a[1]) {
			return false
		}
		return l.onlyNew(s, st, x.a[0], base, depth+1)
	}
	lp, init, _ := s.carriedOn(x, st)
	if lp == nil || len(init) == 0 {
		return false
	}
	for _, i := range init {
		if !l.onlyNew(s, st, i, base, depth+1) {
			return false
		}
	}
	for _, it := range s.itersOf(lp) {
		if !l.onlyNew(s, it.st, l.valueAt(s, lp, it, x), x, depth+1) {
			return false
		}
	}
	return true
}

// small: one of finitely many numbers.
func small(x *nd) bool {
	return x.op == "u16" || x.op == "sext16" || x.op == "int16" || x.op == "int8" || x.isNum() || x.typ != nil && isInteger(x.typ) && intBits(x.typ) <= 16
}

// absent: the path has looked through the list and not found the value.
func (l *loops) absent(s *psum, st *pst, list, v *nd) bool {
	for f := st.facts; f != nil; f = f.up {
		if (f.cond.op == "has" || f.cond.op == "get") && !f.want && len(f.cond.a) >= 2 && f.cond.a[1].s == v.s {
			// a set of those on the list, which the value is put into
			for _, e := range effsSince(st, nil) {
				if e.kind == "put" && len(e.args) > 0 && e.args[0].s == v.s && e.addr != nil && e.addr.s == mapBase(f.cond.a[0]) {
					return true
				}
			}
		}
	}
	for _, lp := range s.sortedLoops() {
		for _, l2 := range s.loops[lp.key()] {
			all, any := true, false
			var idx, of *nd
			for _, it := range s.itersOf(lp) {
				if it.loop != l2 {
					continue
				}
				any = true
				seen := false
				for _, f := range factsSince(it.st, l2.facts) {
					if f.cond.op != "eq0" || f.want {
						continue
					}
					for k := range f.cond.a[0].lin {
						e := f.cond.a[0].at[k]
						if e.op == "elem" && (f.cond.a[0].s == ndSub(e, v).s || f.cond.a[0].s == ndSub(v, e).s) {
							seen, idx, of = true, e.a[1], e.a[0]
						}
					}
				}
				all = all && seen
			}
			if !any || !all || of == nil || !growsFrom(s, of, list, 0) && of.s != list.s {
				continue
			}
			length := s.length(of)
			if c := s.covers(lp, length, idx); c != nil && s.over(c, st, length) {
				return true
			}
		}
	}
	return false
}

// last: after this iteration the loop is not gone through again.
func (l *loops) last(s *psum, lp *ploop, it *piter, nums, lens []*measure) bool {
	all := append(append([]*measure{}, nums...), lens...)
	for _, f := range factsSince(it.st, it.loop.facts) {
		if f.cond.op != "lt0" || f.ins == nil || f.ins.Block() != lp.head {
			continue
		}
		x := f.cond.a[0]
		y := x
		for _, m := range all {
			c := int64(0)
			if x.op == "+" {
				c = x.lin[m.at.s]
			} else if x.s == m.at.s {
				c = 1
			}
			if c != 0 {
				nx := m.next(it)
				if nx == nil {
					return false
				}
				y = ndSum(ndSum(y, 1, m.at, -c), 1, nx, c)
			}
		}
		if y.s == x.s {
			continue
		}
		if f.want && l.least(s, it.st, y, 0, 2) || !f.want && l.least(s, it.st, ndSum(y, -1, ndNum(0), 0), 1, 2) {
			return true
		}
	}
	return false
}

// consumes: the iteration reads from an input, at least one byte, and goes on only without an error; it does not go back.
func (l *loops) consumes(s *psum, lp *ploop, it *piter) bool {
	ok := false
	for _, e := range effsSince(it.st, it.loop.eff) {
		if e.kind != "call" {
			continue
		}
		m := methodName(e.name)
		switch {
		case e.name == "(*bufio.Scanner).Scan":
			if v, k := s.decided(it.st, e.val); k && v {
				ok = true
			}
		case m == "Seek":
			n := len(e.args)
			if n < 2 || !(e.args[n-1].isNum() && e.args[n-1].k == 1) || !l.least(s, it.st, e.args[n-2], 0, 3) {
				return false
			}
		case m == "Reset" || m == "UnreadByte" || m == "UnreadRune":
			return false
		case m == "Read" || m == "ReadByte" || m == "ReadRune" || e.name == "io.ReadFull" || e.name == "io.ReadAtLeast":
			nilErr := false
			for i := 0; i < 3; i++ {
				er := ndAtom("#"+strconv.Itoa(i), e.val)
				if v, k := s.decided(it.st, ndEqual(er, ndNil, false)); k && v {
					nilErr = true
				}
			}
			if !nilErr {
				continue
			}
			if m == "ReadByte" || m == "ReadRune" {
				ok = true
				continue
			}
			for _, a := range e.args {
				if strings.HasPrefix(a.op, "mk") || a.op == "slc" {
					if l.least(s, it.st, s.length(a), 1, 2) {
						ok = true
					}
				}
			}
		}
	}
	return ok
}

// fraction: a sum of equal positive steps is compared with a constant.
func (l *loops) fraction(s *psum, lp *ploop, it *piter) bool {
	for ph, a := range lp.atom {
		if !isFloat(ph.Type()) || lp.kept(ph) {
			continue
		}
		nx := it.next[ph]
		if nx == nil || nx.op != "f+" || len(nx.a) != 2 {
			continue
		}
		d := nx.a[1]
		if nx.a[1].s == a.s {
			d = nx.a[0]
		} else if nx.a[0].s != a.s {
			continue
		}
		if !l.steady(s, lp, d) || !l.positive(s, it.st, d) {
			continue
		}
		for _, f := range factsSince(it.st, it.loop.facts) {
			if len(f.cond.a) == 2 && (f.cond.op == "f<" || f.cond.op == "f<=") && f.want && f.cond.a[0].s == a.s && l.steady(s, lp, f.cond.a[1]) ||
				len(f.cond.a) == 2 && (f.cond.op == "f>" || f.cond.op == "f>=") && f.want && f.cond.a[1].s == a.s && l.steady(s, lp, f.cond.a[0]) {
				return true
			}
		}
	}
	return false
}

// positive: a quotient or product of positive constants and numbers known to be at least one.
func (l *loops) positive(s *psum, st *pst, d *nd) bool {
	switch {
	case strings.HasPrefix(d.op, "c:"):
		return !strings.HasPrefix(d.op, "c:-") && d.op != "c:0"
	case strings.HasPrefix(d.op, "conv:float") && len(d.a) == 1:
		return l.least(s, st, d.a[0], 1, 2)
	case (d.op == "f/" || d.op == "f*" || d.op == "f+") && len(d.a) == 2:
		return l.positive(s, st, d.a[0]) && l.positive(s, st, d.a[1])
	case d.isNum():
		return d.k > 0
	}
	return false
}

// recursion: a function that comes to be called from itself is called on a part of what it was given.
func (l *loops) recursion() {
	p := l.p
	taken := p.takenFuncs()
	n := 0
	type edge struct {
		f, g *ssa.Function
		ins  ssa.Instruction
	}
	var flat []edge // calls that hand on what was given as it is
	for _, f := range p.Funcs {
		if f.Blocks == nil || !p.owns(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, g := range p.calleesAt(ci, taken) {
					if g.Blocks == nil || !p.owns(g) || g != f && !p.reach(g)[f] {
						continue
					}
					n++
					switch {
					case l.descends(f, ci, below), l.converted(f, ci), l.counts(f, g):
					case l.descends(f, ci, partOf):
						flat = append(flat, edge{f, g, ins})
					default:
						l.res.add("recursion", fname(f), "call of "+fname(g), p.insPos(ins), "the function comes to call itself on something that is not a part of what it was given")
					}
				}
			}
		}
	}
	for _, e := range flat {
		seen := map[*ssa.Function]bool{}
		var back func(f *ssa.Function) bool
		back = func(f *ssa.Function) bool {
			if f == e.f {
				return true
			}
			if seen[f] {
				return false
			}
			seen[f] = true
			for _, o := range flat {
				if o.f == f && back(o.g) {
					return true
				}
			}
			return false
		}
		if back(e.g) {
			l.res.add("recursion", fname(e.f), "call of "+fname(e.g), p.insPos(e.ins), "the function comes to call itself on what it was given, not on a part of it")
		}
	}
	l.res.Counts["calls that lead back to the caller"] = n
}

// descends: an argument of the call is reached from a parameter through at least one element or reference.
func (l *loops) descends(f *ssa.Function, ci ssa.CallInstruction, in func(ssa.Value, map[ssa.Value]bool) bool) bool {
	cc := ci.Common()
	vs := append([]ssa.Value{}, cc.Args...)
	if cc.IsInvoke() {
		vs = []ssa.Value{cc.Value}
	}
	for _, v := range vs {
		if len(vs) > 1 && !refLike(v.Type()) {
			continue
		}
		if in(v, map[ssa.Value]bool{}) {
			return true
		}
	}
	return false
}

// counts: a number or a length among the parameters comes nearer to a bound with every call of the function by itself.
func (l *loops) counts(f, g *ssa.Function) bool {
	if f != g {
		return false
	}
	s := l.p.newPsum(func(h *ssa.Function, cc *ssa.CallCommon) bool { return h != f && h.Parent() != nil && l.p.owns(h) })
	s.max, s.ownCalls = 100000, true
	if !s.run(f) || s.gave != "" {
		return false
	}
	type call struct {
		st   *pst
		args []*nd
		f    *pfact
	}
	var calls []call
	seen := map[ssa.Instruction]bool{}
	add := func(st *pst) {
		for _, e := range effsSince(st, nil) {
			if ci, ok := e.ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
				calls = append(calls, call{st, e.args, nil})
				seen[e.ins] = true
			}
		}
	}
	for _, r := range s.rets {
		add(r.st)
	}
	for _, it := range s.iters {
		add(it.st)
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f && !seen[ins] {
				return false
			}
		}
	}
	if len(calls) == 0 {
		return false
	}
	for i, prm := range f.Params {
		P := ndAtom("P" + strconv.Itoa(i))
		for _, sign := range []int64{1, -1} {
			ok := true
			for _, c := range calls {
				if len(c.args) != len(f.Params) {
					return false
				}
				was, now, bits := P, c.args[i], 64
				switch {
				case isList(prm.Type()):
					was, now = s.length(P), s.length(now)
				case isInteger(prm.Type()):
					bits = intBits(prm.Type())
				default:
					ok = false
					continue
				}
				d := ndSub(now, was)
				if sign < 0 {
					d = ndSub(was, now)
				}
				ok = ok && l.least(s, c.st, d, 1, 3) && (sign < 0 && was != P || l.callBound(c.st, was, sign, d, c.args, bits))
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// callBound: on the path the parameter is compared with something that is handed on as it is.
func (l *loops) callBound(st *pst, P *nd, sign int64, d *nd, args []*nd, bits int) bool {
	m := P
	if sign < 0 {
		m = ndSum(P, -1, ndNum(0), 0)
	}
	for f := st.facts; f != nil; f = f.up {
		var x *nd
		switch {
		case f.cond.op == "lt0" && f.want:
			x = f.cond.a[0]
		case f.cond.op == "lt0":
			x = ndSum(f.cond.a[0], -1, ndNum(-1), 1)
		default:
			continue
		}
		rest := ndSub(m, x)
		if rest.isNum() {
			if bits >= 32 || d.isNum() {
				return true
			}
			continue
		}
		ok := rest.op == "+" || rest.op == "len" || strings.HasPrefix(rest.op, "P")
		rest.any(func(n *nd) bool {
			if strings.HasPrefix(n.op, "P") {
				i, err := strconv.Atoi(n.op[1:])
				if err != nil || i >= len(args) || args[i].s != n.s {
					ok = false
				}
			} else if n.op != "+" && n.op != "len" && !n.isNum() {
				ok = false
			}
			return false
		})
		if ok && bits >= 32 {
			return true
		}
	}
	return false
}

func refLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Interface, *types.Struct, *types.Map:
		return true
	}
	return false
}

// below: the value is loaded from inside a parameter.
func below(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr, *ssa.FieldAddr:
			return partOf(a, map[ssa.Value]bool{})
		case *ssa.Alloc:
			// a variable holding such a value
			n := 0
			whole, _ := allocStores(a)
			for _, st := range whole {
				n++
				if !below(st.Val, seen) {
					return false
				}
			}
			return n > 0
		default:
			return below(a, seen)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !below(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Field:
		return partOf(x.X, map[ssa.Value]bool{})
	case *ssa.Lookup, *ssa.Extract:
		return partOf(v, map[ssa.Value]bool{})
	case *ssa.ChangeType:
		return below(x.X, seen)
	case *ssa.TypeAssert:
		return below(x.X, seen)
	case *ssa.MakeInterface:
		return below(x.X, seen)
	case *ssa.FieldAddr:
		// a part of a part
		return below(x.X, seen)
	}
	return false
}

// partOf: the place belongs to a parameter.
func partOf(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case *ssa.Alloc:
		n := 0
		whole, _ := allocStores(x)
		for _, st := range whole {
			n++
			if !partOf(st.Val, seen) {
				return false
			}
		}
		return n > 0
	case *ssa.UnOp:
		return x.Op == token.MUL && partOf(x.X, seen)
	case *ssa.IndexAddr:
		return partOf(x.X, seen)
	case *ssa.FieldAddr:
		return partOf(x.X, seen)
	case *ssa.Field:
		return partOf(x.X, seen)
	case *ssa.Slice:
		return partOf(x.X, seen)
	case *ssa.Lookup:
		return partOf(x.X, seen)
	case *ssa.Extract:
		if nx, ok := x.Tuple.(*ssa.Next); ok {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return partOf(rg.X, seen)
			}
		}
		return partOf(x.Tuple, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !partOf(e, seen) {
				return false
			}
		}
		return true
	case *ssa.TypeAssert:
		return partOf(x.X, seen)
	}
	return false
}

// converted: the data is of one named format, and the call is on what an encoder of another one makes of it.
func (l *loops) converted(f *ssa.Function, ci ssa.CallInstruction) bool {
	s := l.p.newPsum(func(*ssa.Function, *ssa.CallCommon) bool { return false })
	if !s.run(f) {
		return false
	}
	n := 0
	check := func(st *pst) bool {
		for _, e := range effsSince(st, nil) {
			if e.ins != ci.(ssa.Instruction) {
				continue
			}
			n++
			var format, enc string
			for _, g := range factsSince(st, nil) {
				if g.want && g.cond.op == "eq" && len(g.cond.a) == 2 {
					for i := range g.cond.a {
						if x := g.cond.a[1-i]; g.cond.a[i].op == "lit" && x.op == "#1" && len(x.a) == 1 && (strings.HasPrefix(x.a[0].op, "call:image.DecodeConfig") || strings.HasPrefix(x.a[0].op, "call:image.Decode")) {
							format, _ = strconv.Unquote(g.cond.a[i].s)
						}
					}
				}
			}
			var buf *nd
			for _, e2 := range effsSince(st, nil) {
				if e2.kind == "call" && strings.HasPrefix(e2.name, "image/") && strings.HasSuffix(e2.name, ".Encode") && len(e2.args) > 0 {
					enc = strings.TrimSuffix(strings.TrimPrefix(e2.name, "image/"), ".Encode")
					buf = e2.args[0]
				}
			}
			if format == "" || enc == "" || enc == format || buf == nil {
				return false
			}
			uses := false
			for _, a := range e.args {
				uses = uses || a.has(buf.s)
			}
			if !uses {
				return false
			}
		}
		return true
	}
	for _, r := range s.rets {
		if !check(r.st) {
			return false
		}
	}
	for _, it := range s.iters {
		if !check(it.st) {
			return false
		}
	}
	return n > 0
}
