package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path summaries. A function is summarised by its paths: the conditions taken, the changes made, in order, and the
// values given back, all in terms of the values it starts with. Calls are expanded where the user of the summary asks
// for it. A loop is summarised by one iteration that starts with nothing known about the values the loop changes.
// No path is searched for: every combination of branches is listed, and a condition is only simplified when
// it is decided by a condition already taken.

// nd is a value. Integers are sums of other values times a factor, plus a constant.
type nd struct {
	op   string
	a    []*nd
	lin  map[string]int64
	at   map[string]*nd
	k    int64
	s    string
	fn   *ssa.Function
	bind []*nd
	typ  types.Type
}

func (n *nd) String() string { return n.s }

func ndNum(k int64) *nd {
	return &nd{op: "+", k: k, s: strconv.FormatInt(k, 10)}
}

func ndAtom(op string, args ...*nd) *nd {
	n := &nd{op: op, a: args}
	if len(args) == 0 {
		n.s = op
		return n
	}
	parts := make([]string, len(args))
	for i, x := range args {
		parts[i] = x.s
	}
	n.s = op + "(" + strings.Join(parts, ",") + ")"
	return n
}

func (n *nd) isNum() bool { return n.op == "+" && len(n.lin) == 0 }

// sum gives n*x + m*y.
func ndSum(x *nd, n int64, y *nd, m int64) *nd {
	r := &nd{op: "+", lin: map[string]int64{}, at: map[string]*nd{}}
	add := func(z *nd, f int64) {
		if z.op == "+" {
			r.k += f * z.k
			for s, c := range z.lin {
				r.lin[s] += f * c
				r.at[s] = z.at[s]
			}
			return
		}
		r.lin[z.s] += f
		r.at[z.s] = z
	}
	add(x, n)
	add(y, m)
	for s, c := range r.lin {
		if c == 0 {
			delete(r.lin, s)
			delete(r.at, s)
		}
	}
	if len(r.lin) == 0 {
		return ndNum(r.k)
	}
	if r.k == 0 && len(r.lin) == 1 {
		for s, c := range r.lin {
			if c == 1 {
				return r.at[s]
			}
		}
	}
	ks := make([]string, 0, len(r.lin))
	for s := range r.lin {
		ks = append(ks, s)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString("{")
	for i, s := range ks {
		c := r.lin[s]
		switch {
		case c == 1 && i > 0:
			b.WriteString("+")
		case c == 1:
		case c == -1:
			b.WriteString("-")
		default:
			if c > 0 && i > 0 {
				b.WriteString("+")
			}
			b.WriteString(strconv.FormatInt(c, 10) + "*")
		}
		b.WriteString(s)
	}
	if r.k > 0 {
		b.WriteString("+")
	}
	if r.k != 0 {
		b.WriteString(strconv.FormatInt(r.k, 10))
	}
	b.WriteString("}")
	r.s = b.String()
	return r
}

func ndAdd(x *nd, k int64) *nd { return ndSum(x, 1, ndNum(k), 1) }
func ndSub(x, y *nd) *nd       { return ndSum(x, 1, y, -1) }

// has says whether x occurs in n.
func (n *nd) has(x string) bool {
	if n == nil {
		return false
	}
	if n.s == x {
		return true
	}
	if !strings.Contains(n.s, x) {
		return false
	}
	for _, y := range n.a {
		if y.has(x) {
			return true
		}
	}
	for _, y := range n.at {
		if y.has(x) {
			return true
		}
	}
	for _, y := range n.bind {
		if y.has(x) {
			return true
		}
	}
	return false
}

// any says whether f holds for n or a part of it.
func (n *nd) any(f func(*nd) bool) bool {
	if n == nil {
		return false
	}
	if f(n) {
		return true
	}
	for _, y := range n.a {
		if y.any(f) {
			return true
		}
	}
	for _, y := range n.at {
		if y.any(f) {
			return true
		}
	}
	for _, y := range n.bind {
		if y.any(f) {
			return true
		}
	}
	return false
}

var (
	ndTrue  = ndAtom("true")
	ndFalse = ndAtom("false")
	ndNil   = ndAtom("nil")
)

func ndBool(b bool) *nd {
	if b {
		return ndTrue
	}
	return ndFalse
}

func ndNot(x *nd) *nd {
	switch x.op {
	case "true":
		return ndFalse
	case "false":
		return ndTrue
	case "not":
		return x.a[0]
	case "lt0":
		return ndLess(ndSum(x.a[0], -1, ndNum(1), -1))
	}
	return ndAtom("not", x)
}

// ndLess is x < 0 for integers.
func ndLess(x *nd) *nd {
	if x.isNum() {
		return ndBool(x.k < 0)
	}
	if lower(x) >= 0 {
		return ndFalse
	}
	if lower(ndSum(x, -1, ndNum(0), 0)) > 0 {
		return ndTrue
	}
	return ndAtom("lt0", x)
}

func ndEqual(x, y *nd, integer bool) *nd {
	if integer {
		d := ndSub(x, y)
		if d.isNum() {
			return ndBool(d.k == 0)
		}
		m := ndSum(d, -1, ndNum(0), 0)
		if m.s < d.s {
			d = m
		}
		return ndAtom("eq0", d)
	}
	if x.s == y.s {
		return ndTrue
	}
	if y.s < x.s {
		x, y = y, x
	}
	if isLit(x) && isLit(y) {
		return ndFalse
	}
	return ndAtom("eq", x, y)
}

func isLit(x *nd) bool { return x.op == "lit" || x.op == "nil" || x.isNum() || ndFresh(x) }

// ndFresh: the address of a value made on the path is not nil and differs from the others.
func ndFresh(x *nd) bool { return x.op == "new" }

func ndLit(s string) *nd { return &nd{op: "lit", s: strconv.Quote(s)} }

type pfact struct {
	cond *nd
	want bool
	ins  ssa.Instruction
	up   *pfact
}

type peff struct {
	kind string // store, put, delete, call, defer, go, panic, send
	addr *nd
	val  *nd
	args []*nd
	name string
	ins  ssa.Instruction
	fn   *ssa.Function
	fact *pfact
	n    int
	up   *peff
}

type pmem struct {
	key  string
	base string
	fld  string
	val  *nd
	any  bool // every address with this field may have changed
	up   *pmem
}

type pst struct {
	facts *pfact
	known map[string]bool
	eff   *peff
	mem   map[string]*nd
	logs  []pmem
	nmem  int
}

func (s *pst) clone() *pst {
	c := *s
	c.known = make(map[string]bool, len(s.known))
	for k, v := range s.known {
		c.known[k] = v
	}
	c.mem = make(map[string]*nd, len(s.mem))
	for k, v := range s.mem {
		c.mem[k] = v
	}
	c.logs = s.logs[:len(s.logs):len(s.logs)]
	return &c
}

type pframe struct {
	fn    *ssa.Function
	id    string
	env   map[ssa.Value]*nd
	up    *pframe
	depth int
	loops map[*ssa.BasicBlock]*ploop

	unrolled map[*ssa.BasicBlock]punroll
}

type ploop struct {
	head  *ssa.BasicBlock
	fn    *ssa.Function
	id    string // frame
	eff   *peff
	facts *pfact
	init  map[*ssa.Phi]*nd
	atom  map[*ssa.Phi]*nd
	nOut  int
	mem0  map[string]*nd // what the memory held when the loop was entered
}

func (f *pframe) clone() *pframe {
	c := *f
	c.env = make(map[ssa.Value]*nd, len(f.env)+8)
	for k, v := range f.env {
		c.env[k] = v
	}
	c.loops = make(map[*ssa.BasicBlock]*ploop, len(f.loops))
	for k, v := range f.loops {
		c.loops[k] = v
	}
	c.unrolled = make(map[*ssa.BasicBlock]punroll, len(f.unrolled))
	for k, v := range f.unrolled {
		c.unrolled[k] = v
	}
	return &c
}

// piter is one way through one iteration of a loop.
type piter struct {
	loop *ploop
	next map[*ssa.Phi]*nd
	st   *pst
	from *ssa.BasicBlock
}

// pret is one way through the function.
type pret struct {
	vals  []*nd
	st    *pst
	ins   ssa.Instruction
	panic bool
}

type psum struct {
	p        *Prog
	inline   func(f *ssa.Function, cc *ssa.CallCommon) bool
	rewrite  func(n *nd) *nd
	model    func(st *pst, f *ssa.Function, args []*nd) *nd // a value for the call, instead of going into it
	known    func(st *pst, cond *nd) (bool, bool)
	onEff    func(st *pst, e *peff)
	iters    []*piter
	rets     []*pret
	loops    map[string][]*ploop // every way a loop was entered
	steps    int
	max      int
	gave     string
	n        int
	quiet    int
	ownCalls bool // calls that may give something else each time have results of their own
	writes   map[*ssa.Function]map[string]bool
	changes  map[string]map[string]bool // loop -> what it changes
	start    *pst
	params   map[int]*nd // what the parameters are, where it is known
	unroll   bool        // loops that run a known number of times are gone through
}

func (p *Prog) newPsum(inline func(f *ssa.Function, cc *ssa.CallCommon) bool) *psum {
	return &psum{p: p, inline: inline, max: 400000, writes: map[*ssa.Function]map[string]bool{}, changes: map[string]map[string]bool{}, loops: map[string][]*ploop{}}
}

func newPst() *pst { return &pst{known: map[string]bool{}, mem: map[string]*nd{}} }

// run summarises fn.
func (s *psum) run(fn *ssa.Function) bool {
	st := newPst()
	if s.start != nil {
		st = s.start.clone()
	}
	fr := &pframe{fn: fn, id: "", env: map[ssa.Value]*nd{}, loops: map[*ssa.BasicBlock]*ploop{}}
	for i, pr := range fn.Params {
		a := ndAtom("P" + strconv.Itoa(i))
		a.typ = pr.Type()
		if k := s.params[i]; k != nil {
			a = k
		}
		fr.env[pr] = a
	}
	for i, fv := range fn.FreeVars {
		a := ndAtom("C" + strconv.Itoa(i))
		a.typ = fv.Type()
		fr.env[fv] = a
	}
	s.block(fr, fn.Blocks[0], nil, st, func(r *pret) { s.rets = append(s.rets, r) })
	return s.gave == ""
}

func (s *psum) giveUp(why string) {
	if s.gave == "" {
		s.gave = why
	}
}

func (s *psum) fresh(what string, t types.Type) *nd {
	s.n++
	a := ndAtom("?" + what + "#" + strconv.Itoa(s.n))
	a.typ = t
	return a
}

// block enters b from prev.
func (s *psum) block(fr *pframe, b, prev *ssa.BasicBlock, st *pst, k func(*pret)) {
	if s.gave != "" {
		return
	}
	s.steps++
	if s.steps > s.max {
		s.giveUp("too many paths")
		return
	}
	phis := map[*ssa.Phi]*nd{}
	if prev != nil {
		for _, ins := range b.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, pb := range b.Preds {
				if pb == prev {
					phis[ph] = s.get(fr, st, ph.Edges[i])
				}
			}
		}
	}
	s.leaveUnrolled(fr, b)
	if isHeader(b) {
		back := prev != nil && b.Dominates(prev)
		u, in := fr.unrolled[b]
		if back && in || !back && s.unroll && s.unrolls(fr, b, phis, st) {
			if !in {
				u = punroll{base: fr.id, body: loopBody(b)}
			}
			u.n++
			if u.n > maxUnroll+2 {
				s.giveUp("a loop that does not end")
				return
			}
			if fr.unrolled == nil {
				fr.unrolled = map[*ssa.BasicBlock]punroll{}
			}
			fr.unrolled[b] = u
			fr.id = u.base + "~" + strconv.Itoa(u.n)
			for ph, v := range phis {
				fr.env[ph] = v
			}
			s.instrs(fr, b, 0, st, k)
			return
		}
		if back {
			lp := fr.loops[b]
			if lp != nil && s.quiet == 0 {
				s.iters = append(s.iters, &piter{loop: lp, next: phis, st: st, from: prev})
			}
			if lp != nil {
				s.changed(lp, st, phis)
			}
			return
		}
		s.enterLoop(fr, b, phis, st, k)
		return
	}
	for ph, v := range phis {
		fr.env[ph] = v
	}
	s.instrs(fr, b, 0, st, k)
}

func isHeader(b *ssa.BasicBlock) bool {
	for _, pr := range b.Preds {
		if b.Dominates(pr) {
			return true
		}
	}
	return false
}

func (lp *ploop) key() string {
	return lp.id + "/" + lp.fn.String() + "." + strconv.Itoa(lp.head.Index)
}

// changed notes what one iteration changes.
func (s *psum) changed(lp *ploop, st *pst, phis map[*ssa.Phi]*nd) {
	m := s.changes[lp.key()]
	if m == nil {
		m = map[string]bool{}
		s.changes[lp.key()] = m
	}
	for _, l := range st.logs[lp.nOut:] {
		if l.any {
			m["*"+l.fld] = true
		} else {
			m[l.key+"\x00"+l.base+"\x00"+l.fld] = true
		}
	}
	for ph, v := range phis {
		if v.s != lp.init[ph].s && v.s != lp.atom[ph].s {
			m["φ"+ph.Name()] = true
		}
	}
}

func (s *psum) enterLoop(fr *pframe, h *ssa.BasicBlock, phis map[*ssa.Phi]*nd, st *pst, k func(*pret)) {
	start := func(fr *pframe, st *pst) *ploop {
		lp := &ploop{head: h, fn: fr.fn, id: fr.id, eff: st.eff, facts: st.facts, init: phis, atom: map[*ssa.Phi]*nd{}}
		lp.mem0 = make(map[string]*nd, len(st.mem))
		for k, v := range st.mem {
			lp.mem0[k] = v
		}
		m := s.changes[lp.key()]
		for ph := range phis {
			a := phis[ph]
			if m["φ"+ph.Name()] {
				a = ndAtom("φ" + fr.id + "." + ph.Name())
				if f := ph.Parent(); f != nil {
					a = ndAtom("φ" + fr.id + "." + f.Name() + "." + ph.Name())
				}
				a.typ = ph.Type()
			}
			lp.atom[ph] = a
			fr.env[ph] = a
		}
		ks := make([]string, 0, len(m))
		for c := range m {
			ks = append(ks, c)
		}
		sort.Strings(ks)
		for _, c := range ks {
			switch {
			case strings.HasPrefix(c, "φ"):
			case strings.HasPrefix(c, "*"):
				s.havocField(st, c[1:], "@"+lp.key())
			default:
				q := strings.SplitN(c, "\x00", 3)
				s.havocKey(st, q[0], q[1], q[2], "@"+lp.key())
			}
		}
		// what was known of values that the loop changes is not known any more: conditions are about values, and a
		// changed value has another name
		lp.nOut = len(st.logs)
		fr.loops[h] = lp
		return lp
	}
	s.quiet++
	effs := s.onEff
	s.onEff = nil
	done := false
	for round := 0; round < 6 && !done; round++ {
		f2, s2 := fr.clone(), st.clone()
		lp := start(f2, s2)
		before := len(s.changes[lp.key()])
		s.instrs(f2, h, 0, s2, func(*pret) {})
		done = len(s.changes[lp.key()]) == before
	}
	s.quiet--
	s.onEff = effs
	if !done {
		s.giveUp("a loop whose changes were not settled")
		return
	}
	lp := start(fr, st)
	if s.quiet == 0 {
		s.loops[lp.key()] = append(s.loops[lp.key()], lp)
	}
	s.instrs(fr, h, 0, st, k)
}

func (s *psum) havocKey(st *pst, key, base, fld, why string) {
	a := ndAtom(key + why)
	if old := st.mem[key]; old != nil {
		a.typ = old.typ
	}
	st.mem[key] = a
	st.logs = append(st.logs, pmem{key: key, base: base, fld: fld, val: a})
}

func (s *psum) havocField(st *pst, fld, why string) {
	for key := range st.mem {
		if memField(key) == fld {
			st.mem[key] = ndAtom(key + why)
		}
	}
	st.logs = append(st.logs, pmem{fld: fld, any: true, base: why})
}

// memField is the field part of a memory key "base\x01field".
func memField(key string) string {
	if i := strings.LastIndex(key, "\x01"); i >= 0 {
		return key[i+1:]
	}
	return ""
}

func memKey(base *nd, fld string) string { return base.s + "\x01" + fld }

// addrParts splits an address into what it is within and the field.
func addrParts(a *nd) (base *nd, fld string) {
	switch a.op {
	case "&f", "&i":
		return a.a[0], a.fldName()
	}
	t := "?"
	if a.typ != nil {
		t = types.TypeString(deref(a.typ), nil)
	}
	return a, "*" + t
}

func (n *nd) fldName() string {
	if n.op == "&i" {
		return "[]" + types.TypeString(deref(n.typ), nil)
	}
	return n.a[1].s
}

func addrKey(a *nd) string {
	b, f := addrParts(a)
	if a.op == "&i" {
		return b.s + "[" + a.a[1].s + "]\x01" + f
	}
	return memKey(b, f)
}

// mayAlias: two bases of the same field may be the same thing.
func (s *psum) mayAlias(a, b string) bool {
	if a == b {
		return true
	}
	ra, rb := madeIn(a), madeIn(b)
	if ra == "" && rb == "" {
		return true
	}
	if ra != rb || a == ra || b == rb {
		return false
	}
	i, ok1 := rowOf(a, ra)
	j, ok2 := rowOf(b, rb)
	return !ok1 || !ok2 || i == j
}

// rowOf is the element with a known number that the base is, within what is made.
func rowOf(a, made string) (int64, bool) {
	if !strings.HasPrefix(a, "&i("+made+",") {
		return 0, false
	}
	k, err := strconv.ParseInt(strings.TrimSuffix(a[len("&i("+made+","):], ")"), 10, 64)
	return k, err == nil
}

// madeIn is what is made on this path that the base is, or lies within.
func madeIn(a string) string {
	for strings.HasPrefix(a, "&f(") || strings.HasPrefix(a, "&i(") {
		a = a[3:]
	}
	end := ","
	if strings.HasPrefix(a, "mk") {
		end = ")" // with its length
		if i := strings.IndexByte(a, ')'); i < 0 || strings.IndexByte(a[:i], ',') >= 0 || strings.Count(a[:i], "(") != 1 {
			return ""
		}
	} else if !strings.HasPrefix(a, "new") {
		return ""
	}
	if i := strings.Index(a, end); i >= 0 {
		a = a[:i]
		if end == ")" {
			a += end
		}
	}
	return a
}

func (s *psum) store(st *pst, a, v *nd) {
	b, f := addrParts(a)
	key := addrKey(a)
	if v.op == "struct" || isStructVal(v) {
		s.storeStruct(st, a, v)
	}
	if v.typ != nil {
		if at := smallArray(v.typ); at != nil {
			for i := int64(0); i < at.Len(); i++ {
				s.store(st, elemAddr(a, at, i), s.elemOf(v, at, ndNum(i)))
			}
		}
	}
	for in := a; in.op == "&f"; in = in.a[0] {
		// a value kept for the whole that this is part of is no longer what is there
		wb, wf := addrParts(in.a[0])
		for k2, v2 := range st.mem {
			if memField(k2) != wf || !s.mayAlias(k2[:strings.LastIndex(k2, "\x01")], wb.s) {
				continue
			}
			if v2.op == "struct" || isStructVal(v2) {
				delete(st.mem, k2)
			}
		}
	}
	for k2 := range st.mem {
		if k2 == key || memField(k2) != f {
			continue
		}
		b2 := k2[:strings.LastIndex(k2, "\x01")]
		if a.op == "&i" {
			if i := strings.LastIndex(b2, "["); i >= 0 && s.mayAlias(b2[:i], b.s) && !(b2[:i] == b.s && distinctIdx(b2[i:], a.a[1])) {
				st.mem[k2] = s.fresh("mem", nil)
			}
			continue
		}
		if s.mayAlias(b2, b.s) {
			st.mem[k2] = s.fresh("mem", nil)
		}
	}
	st.mem[key] = v
	st.logs = append(st.logs, pmem{key: key, base: b.s, fld: f, val: v})
}

func distinctIdx(br string, idx *nd) bool {
	br = strings.TrimSuffix(strings.TrimPrefix(br, "["), "]")
	if n, err := strconv.ParseInt(br, 10, 64); err == nil && idx.isNum() {
		return n != idx.k
	}
	return false
}

func isStructVal(v *nd) bool {
	if v.typ == nil {
		return false
	}
	_, ok := v.typ.Underlying().(*types.Struct)
	return ok
}

func (s *psum) storeStruct(st *pst, a, v *nd) {
	t, ok := v.typ.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < t.NumFields(); i++ {
		fa := s.fieldAddr(a, v.typ, i)
		s.store(st, fa, s.fieldOf(v, v.typ, i))
	}
}

func (s *psum) fieldAddr(base *nd, t types.Type, i int) *nd {
	f := fkey(t, i)
	n := ndAtom("&f", base, ndAtom(f.String()))
	if sf, ok := deref(t).Underlying().(*types.Struct); ok {
		n.typ = types.NewPointer(sf.Field(i).Type())
	}
	return n
}

func (s *psum) fieldOf(v *nd, t types.Type, i int) *nd {
	if v.op == "struct" {
		return v.a[i]
	}
	if v.op == "zero" {
		if st, ok := t.Underlying().(*types.Struct); ok {
			return s.zero(st.Field(i).Type())
		}
	}
	n := ndAtom("fld", v, ndAtom(fkey(t, i).String()))
	if st, ok := t.Underlying().(*types.Struct); ok {
		n.typ = st.Field(i).Type()
	}
	return n
}

func (s *psum) zero(t types.Type) *nd {
	var n *nd
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return ndNum(0)
		case u.Info()&types.IsBoolean != 0:
			return ndFalse
		case u.Info()&types.IsString != 0:
			return ndLit("")
		}
		n = ndAtom("zero")
	case *types.Struct:
		n = ndAtom("zero")
	case *types.Array:
		n = ndAtom("zero")
	default:
		n = ndNil
		return n
	}
	n.typ = t
	return n
}

func (s *psum) load(st *pst, a *nd, t types.Type) *nd {
	key := addrKey(a)
	if at := smallArray(t); at != nil {
		n := &nd{op: "array", typ: t}
		for i := int64(0); i < at.Len(); i++ {
			n.a = append(n.a, s.load(st, elemAddr(a, at, i), at.Elem()))
		}
		n.s = ndAtom("array", n.a...).s
		return n
	}
	if v, ok := st.mem[key]; ok {
		return v
	}
	b, f := addrParts(a)
	if _, ok := t.Underlying().(*types.Struct); ok {
		su := t.Underlying().(*types.Struct)
		n := &nd{op: "struct", typ: t}
		for i := 0; i < su.NumFields(); i++ {
			n.a = append(n.a, s.load(st, s.fieldAddr(a, t, i), su.Field(i).Type()))
		}
		n.s = ndAtom("struct", n.a...).s
		return n
	}
	ver := ""
	for i := len(st.logs) - 1; i >= 0; i-- {
		l := st.logs[i]
		if l.fld != f {
			continue
		}
		if l.any {
			ver = l.base
			break
		}
		if s.mayAlias(l.base, b.s) {
			ver = "~" + l.val.s
			break
		}
	}
	if ver == "" && s.inNew(a) {
		return s.zero(t)
	}
	var n *nd
	if a.op == "&i" {
		if ver == "" {
			n = ndAtom("elem", a.a[0], a.a[1])
		} else {
			n = ndAtom("elem"+ver, a.a[0], a.a[1])
		}
	} else if a.op == "&f" {
		n = ndAtom("ld"+ver, a.a[0], a.a[1])
	} else {
		n = ndAtom("ld"+ver, a)
	}
	n.typ = t
	if s.rewrite != nil {
		n = s.rewrite(n)
	}
	if ver != "" {
		st.mem[key] = n
	}
	return n
}

// smallArray: an array whose elements are kept one by one.
func smallArray(t types.Type) *types.Array {
	at, ok := t.Underlying().(*types.Array)
	if !ok || at.Len() > 16 {
		return nil
	}
	return at
}

func elemAddr(a *nd, at *types.Array, i int64) *nd {
	n := ndAtom("&i", a, ndNum(i))
	n.typ = types.NewPointer(at.Elem())
	return n
}

// elemOf is an element of an array value.
func (s *psum) elemOf(v *nd, at *types.Array, i *nd) *nd {
	if v.op == "array" && i.isNum() && i.k >= 0 && i.k < int64(len(v.a)) {
		return v.a[i.k]
	}
	if v.op == "zero" {
		return s.zero(at.Elem())
	}
	n := ndAtom("elem", v, i)
	n.typ = at.Elem()
	return n
}

// inNew: an address within something made on this path, and not through a pointer kept there.
func (s *psum) inNew(a *nd) bool {
	for a.op == "&f" || a.op == "&i" {
		a = a.a[0]
	}
	return a.op == "new"
}

// newID names what an instruction makes, by the calls that led to it.
func (s *psum) newID(fr *pframe, v ssa.Value) *nd {
	n := &nd{op: "new", s: "new" + fr.id + "." + fr.fn.Name() + "." + v.Name(), typ: v.Type()}
	return n
}

func (s *psum) get(fr *pframe, st *pst, v ssa.Value) *nd {
	if x, ok := fr.env[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return s.zero(x.Type())
		}
		switch x.Value.Kind() {
		case constant.Bool:
			return ndBool(constant.BoolVal(x.Value))
		case constant.String:
			return ndLit(constant.StringVal(x.Value))
		case constant.Int:
			if isInteger(x.Type()) {
				if k, ok := constant.Int64Val(x.Value); ok {
					return ndNum(k)
				}
			}
		}
		return ndAtom("c:" + x.Value.ExactString())
	case *ssa.Function:
		n := ndAtom("fn:" + x.String())
		n.fn = x
		return n
	case *ssa.Global:
		n := ndAtom("G:" + x.String())
		n.typ = x.Type()
		return n
	case *ssa.Builtin:
		return ndAtom("builtin:" + x.Name())
	}
	n := ndAtom("<" + fr.id + "." + v.Name() + ">")
	n.typ = v.Type()
	return n
}

func (s *psum) instrs(fr *pframe, b *ssa.BasicBlock, from int, st *pst, k func(*pret)) {
	for i := from; i < len(b.Instrs); i++ {
		if s.gave != "" {
			return
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Jump:
			s.block(fr, b.Succs[0], b, st, k)
			return
		case *ssa.If:
			c := s.get(fr, st, x.Cond)
			if v, ok := s.decided(st, c); ok {
				n := 1
				if v {
					n = 0
				}
				s.block(fr, b.Succs[n], b, st, k)
				return
			}
			f2, s2 := fr.clone(), st.clone()
			s.assume(st, c, true, x)
			s.block(fr, b.Succs[0], b, st, k)
			s.assume(s2, c, false, x)
			s.block(f2, b.Succs[1], b, s2, k)
			return
		case *ssa.Return:
			var vs []*nd
			for _, r := range x.Results {
				vs = append(vs, s.get(fr, st, r))
			}
			k(&pret{vals: vs, st: st, ins: x})
			return
		case *ssa.Panic:
			s.effect(st, &peff{kind: "panic", ins: x, fn: fr.fn})
			k(&pret{st: st, ins: x, panic: true})
			return
		case *ssa.Store:
			a, v := s.get(fr, st, x.Addr), s.get(fr, st, x.Val)
			s.store(st, a, v)
			s.effect(st, &peff{kind: "store", addr: a, val: v, ins: x, fn: fr.fn})
		case *ssa.MapUpdate:
			m, kk, v := s.get(fr, st, x.Map), s.get(fr, st, x.Key), s.get(fr, st, x.Value)
			s.effect(st, &peff{kind: "put", addr: m, val: v, args: []*nd{kk, s.content(st, m)}, ins: x, fn: fr.fn})
			s.setContent(st, m, ndAtom("put", s.content(st, m), kk, v))
		case *ssa.Go:
			s.effect(st, &peff{kind: "go", ins: x, fn: fr.fn})
			s.touch(st, s.writesOfCall(x))
		case *ssa.Defer:
			var as []*nd
			for _, a := range x.Call.Args {
				as = append(as, s.get(fr, st, a))
			}
			s.effect(st, &peff{kind: "defer", ins: x, fn: fr.fn, args: as})
		case *ssa.Send:
			s.effect(st, &peff{kind: "send", ins: x, fn: fr.fn})
		case *ssa.Call:
			if s.callIns(fr, b, i, x, st, k) {
				return
			}
		case ssa.Value:
			n := s.value(fr, st, x)
			if s.rewrite != nil {
				n = s.rewrite(n)
			}
			if n.typ == nil && n != ndNil && n.op != "true" && n.op != "false" {
				c := *n
				c.typ = x.Type()
				n = &c
			}
			fr.env[x] = n
		}
	}
}

func (s *psum) effect(st *pst, e *peff) {
	e.up, e.fact = st.eff, st.facts
	if st.eff != nil {
		e.n = st.eff.n + 1
	}
	st.eff = e
	if s.onEff != nil && s.quiet == 0 {
		s.onEff(st, e)
	}
}

func (s *psum) assume(st *pst, c *nd, want bool, ins ssa.Instruction) {
	for c.op == "not" {
		c, want = c.a[0], !want
	}
	st.facts = &pfact{c, want, ins, st.facts}
	st.known[c.s] = want
	if c.op == "lt0" {
		st.known[ndNot(c).s] = !want
	}
}

func (s *psum) decided(st *pst, c *nd) (bool, bool) {
	neg := false
	for c.op == "not" {
		c, neg = c.a[0], !neg
	}
	if c.op == "true" || c.op == "false" {
		return (c.op == "true") != neg, true
	}
	if v, ok := st.known[c.s]; ok {
		return v != neg, true
	}
	if s.known != nil {
		if v, ok := s.known(st, c); ok {
			return v != neg, true
		}
	}
	if c.op == "lt0" || c.op == "eq0" {
		if v, ok := implied(st, c); ok {
			return v != neg, true
		}
	}
	return false, false
}

// implied decides a comparison by the comparisons of the same difference already made.
func implied(st *pst, c *nd) (bool, bool) {
	x := c.a[0]
	lo, hi := int64(-1<<40), int64(1<<40) // bounds of x
	if b := lower(x); b > lo {
		lo = b
	}
	var not []int64
	for f := st.facts; f != nil; f = f.up {
		if f.cond.op != "lt0" && f.cond.op != "eq0" {
			continue
		}
		y := f.cond.a[0]
		var d *nd
		sign := int64(1)
		if d = ndSub(x, y); !d.isNum() {
			sign = -1
			if d = ndSum(x, 1, y, 1); !d.isNum() {
				continue
			}
		}
		// x = sign*y + d
		switch {
		case f.cond.op == "eq0" && f.want:
			lo, hi = d.k, d.k
		case f.cond.op == "eq0":
			not = append(not, d.k)
		case f.want: // y <= -1
			if sign > 0 && d.k-1 < hi {
				hi = d.k - 1
			}
			if sign < 0 && d.k+1 > lo {
				lo = d.k + 1
			}
		default: // y >= 0
			if sign > 0 && d.k > lo {
				lo = d.k
			}
			if sign < 0 && d.k < hi {
				hi = d.k
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, n := range not {
			if n == lo {
				lo, changed = lo+1, true
			}
			if n == hi {
				hi, changed = hi-1, true
			}
		}
	}
	if c.op == "lt0" {
		if hi < 0 {
			return true, true
		}
		if lo >= 0 {
			return false, true
		}
		return false, false
	}
	if lo > 0 || hi < 0 {
		return false, true
	}
	if lo == 0 && hi == 0 {
		return true, true
	}
	for _, n := range not {
		if n == 0 {
			return false, true
		}
	}
	return false, false
}

// atLeast: the path knows that x is at least k, by adding up what it knows.
func (s *psum) atLeast(st *pst, x *nd, k int64, depth int) bool {
	if lower(x) >= k {
		return true
	}
	if depth == 0 || x.op == "+" && len(x.lin) > 8 {
		return false
	}
	for _, g := range notNegative(st, x) {
		if s.atLeast(st, ndSub(x, g), k, depth-1) {
			return true
		}
	}
	return false
}

// notNegative lists what the path knows not to be negative and that shares something with x.
func notNegative(st *pst, x *nd) []*nd {
	var gs []*nd
	for f := st.facts; f != nil; f = f.up {
		if f.cond.op != "lt0" && f.cond.op != "eq0" || f.cond.op == "eq0" && !f.want {
			continue
		}
		y := f.cond.a[0]
		shares := false
		if y.op == "+" {
			for a := range y.lin {
				shares = shares || x.has(a)
			}
		} else {
			shares = x.has(y.s)
		}
		if !shares {
			continue
		}
		switch {
		case f.cond.op == "eq0":
			gs = append(gs, y, ndSum(y, -1, ndNum(0), 0))
		case f.want:
			gs = append(gs, ndSum(y, -1, ndNum(-1), 1))
		default:
			gs = append(gs, y)
		}
	}
	return gs
}

// lower is a bound from below that follows from what the value is: lengths are not negative.
func lower(x *nd) int64 {
	const none = int64(-1 << 40)
	if x.op == "+" {
		lo := x.k
		for s, c := range x.lin {
			if c < 0 || !nonNeg(x.at[s]) {
				return none
			}
		}
		return lo
	}
	if nonNeg(x) {
		return 0
	}
	return none
}

func nonNeg(x *nd) bool {
	if x.op == "len" || x.op == "cap" {
		return true
	}
	if x.typ != nil {
		if b, ok := x.typ.Underlying().(*types.Basic); ok {
			return b.Info()&types.IsUnsigned != 0
		}
	}
	return false
}

func (s *psum) content(st *pst, m *nd) *nd {
	if m.op == "new" {
		if v, ok := st.mem[memKey(m, "map")]; ok {
			return v
		}
		return ndAtom("empty")
	}
	if v, ok := st.mem[memKey(m, "map")]; ok {
		return v
	}
	ver := ""
	for i := len(st.logs) - 1; i >= 0; i-- {
		l := st.logs[i]
		if l.fld == "map" && l.any {
			ver = l.base
			break
		}
		if l.fld == "map" && s.mayAlias(l.base, m.s) {
			ver = "~" + l.val.s
			break
		}
	}
	return ndAtom("map"+ver, m)
}

func (s *psum) setContent(st *pst, m, c *nd) {
	key := memKey(m, "map")
	for k2 := range st.mem {
		if k2 != key && memField(k2) == "map" && s.mayAlias(k2[:strings.LastIndex(k2, "\x01")], m.s) {
			st.mem[k2] = s.fresh("map", nil)
		}
	}
	st.mem[key] = c
	st.logs = append(st.logs, pmem{key: key, base: m.s, fld: "map", val: c})
}

// lookup gives whether key is in the map, and the value.
func (s *psum) lookup(st *pst, c, key *nd, t types.Type) (has, val *nd) {
	for c.op == "put" {
		if c.a[1].s == key.s {
			return ndTrue, c.a[2]
		}
		d := ndSub(c.a[1], key)
		if isLit(c.a[1]) && isLit(key) || st != nil && knownDifferent(st, d) {
			c = c.a[0]
			continue
		}
		break
	}
	if c.op == "empty" {
		return ndFalse, s.zero(t)
	}
	has, val = ndAtom("has", c, key), ndAtom("get", c, key)
	val.typ = t
	if s.rewrite != nil {
		has, val = s.rewrite(has), s.rewrite(val)
	}
	return
}

func (s *psum) value(fr *pframe, st *pst, v ssa.Value) *nd {
	g := func(x ssa.Value) *nd { return s.get(fr, st, x) }
	switch x := v.(type) {
	case *ssa.Alloc:
		n := s.newID(fr, x)
		// made anew
		for k := range st.mem {
			if strings.HasPrefix(k, n.s+"\x01") || strings.HasPrefix(k, n.s+"[") || strings.Contains(k, "("+n.s+",") {
				delete(st.mem, k)
			}
		}
		return n
	case *ssa.FieldAddr:
		return s.fieldAddr(g(x.X), x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		b, i := g(x.X), g(x.Index)
		if b.op == "slc" {
			b, i = b.a[0], ndSum(i, 1, b.a[1], 1)
		}
		n := ndAtom("&i", b, i)
		n.typ = x.Type()
		return n
	case *ssa.Field:
		return s.fieldOf(g(x.X), x.X.Type(), x.Field)
	case *ssa.Index:
		if at, ok := x.X.Type().Underlying().(*types.Array); ok {
			return s.elemOf(g(x.X), at, g(x.Index))
		}
		n := ndAtom("elem", g(x.X), g(x.Index))
		n.typ = x.Type()
		return n
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			return s.load(st, g(x.X), x.Type())
		case token.NOT:
			return ndNot(g(x.X))
		case token.SUB:
			if isInteger(x.Type()) {
				return ndSum(g(x.X), -1, ndNum(0), 0)
			}
		case token.ARROW:
			return s.fresh("recv", x.Type())
		}
		return ndAtom(x.Op.String(), g(x.X))
	case *ssa.BinOp:
		return s.binop(x, g(x.X), g(x.Y))
	case *ssa.Convert:
		return s.convert(g(x.X), x.X.Type(), x.Type())
	case *ssa.ChangeType:
		return g(x.X)
	case *ssa.ChangeInterface:
		return g(x.X)
	case *ssa.MakeInterface:
		return g(x.X)
	case *ssa.MakeMap, *ssa.MakeChan:
		n := s.newID(fr, v)
		st.mem[memKey(n, "map")] = ndAtom("empty")
		return n
	case *ssa.MakeSlice:
		n := ndAtom("mk"+fr.id+"."+x.Name(), g(x.Len))
		n.typ = x.Type()
		return n
	case *ssa.MakeClosure:
		n := &nd{op: "clo", fn: x.Fn.(*ssa.Function), s: "clo" + fr.id + "." + x.Name()}
		for _, b := range x.Bindings {
			n.bind = append(n.bind, g(b))
		}
		return n
	case *ssa.Slice:
		b := g(x.X)
		lo := ndNum(0)
		if x.Low != nil {
			lo = g(x.Low)
		}
		var hi *nd
		if x.High != nil {
			hi = g(x.High)
		} else if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				hi = ndNum(at.Len())
			}
		} else {
			hi = s.length(b)
		}
		if b.op == "slc" {
			lo, hi = ndSum(b.a[1], 1, lo, 1), ndSum(b.a[1], 1, hi, 1)
			b = b.a[0]
		} else if lo.isNum() && lo.k == 0 && x.High == nil && b.op != "new" {
			return b
		}
		return ndAtom("slc", b, lo, hi)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			n := ndAtom("elem", g(x.X), g(x.Index))
			n.typ = x.Type()
			return n
		}
		t := x.X.Type().Underlying().(*types.Map).Elem()
		has, val := s.lookup(st, s.content(st, g(x.X)), g(x.Index), t)
		if x.CommaOk {
			return ndAtom("tuple", val, has)
		}
		if v, ok := s.decided(st, has); ok && !v {
			return s.zero(t)
		}
		return val
	case *ssa.Extract:
		t := g(x.Tuple)
		if t.op == "tuple" && x.Index < len(t.a) {
			return t.a[x.Index]
		}
		n := ndAtom("#"+strconv.Itoa(x.Index), t)
		n.typ = x.Type()
		return n
	case *ssa.Range:
		return ndAtom("range", g(x.X))
	case *ssa.Next:
		r := g(x.Iter)
		id := "@" + fr.id + "." + x.Name()
		ok, key, val := ndAtom("more"+id, r), ndAtom("key"+id, r), ndAtom("item"+id, r)
		if tt, is := x.Type().(*types.Tuple); is {
			key.typ, val.typ = tt.At(1).Type(), tt.At(2).Type()
		}
		delete(st.known, ok.s)
		return ndAtom("tuple", ok, key, val)
	case *ssa.TypeAssert:
		n := ndAtom("as:"+types.TypeString(x.AssertedType, nil), g(x.X))
		n.typ = x.AssertedType
		if x.CommaOk {
			return ndAtom("tuple", n, ndAtom("is:"+types.TypeString(x.AssertedType, nil), g(x.X)))
		}
		return n
	}
	return s.fresh(v.Name(), v.Type())
}

func (s *psum) length(b *nd) *nd {
	switch b.op {
	case "slc":
		return ndSub(b.a[2], b.a[1])
	case "app":
		return ndAdd(s.length(b.a[0]), int64(len(b.a)-1))
	case "cat", "join":
		return ndSum(s.length(b.a[0]), 1, s.length(b.a[1]), 1)
	case "nil":
		return ndNum(0)
	case "lit":
		if u, err := strconv.Unquote(b.s); err == nil {
			return ndNum(int64(len(u)))
		}
	}
	if strings.HasPrefix(b.op, "mk") && len(b.a) == 1 {
		return b.a[0]
	}
	return ndAtom("len", b)
}

func (s *psum) convert(x *nd, from, to types.Type) *nd {
	if isInteger(from) && isInteger(to) {
		a, b := intBits(from), intBits(to)
		if a == b && a < 64 && unsignedInt(from) && !unsignedInt(to) && !x.isNum() {
			n := ndAtom("sext"+strconv.Itoa(a), x)
			n.typ = to
			return n
		}
		if b >= a || x.isNum() && x.k >= 0 && (b >= 63 || x.k < 1<<uint(b-1)) {
			return x
		}
		n := ndAtom("int"+strconv.Itoa(b), x)
		n.typ = to
		return n
	}
	n := ndAtom("conv:"+types.TypeString(to, nil), x)
	n.typ = to
	return n
}

func unsignedInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func intBits(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (s *psum) binop(x *ssa.BinOp, a, b *nd) *nd {
	integer := isInteger(x.X.Type())
	switch x.Op {
	case token.EQL:
		return s.equal(a, b, integer)
	case token.NEQ:
		return ndNot(s.equal(a, b, integer))
	}
	if integer {
		switch x.Op {
		case token.ADD:
			return ndSum(a, 1, b, 1)
		case token.SUB:
			return ndSub(a, b)
		case token.MUL:
			if a.isNum() {
				return ndSum(b, a.k, ndNum(0), 0)
			}
			if b.isNum() {
				return ndSum(a, b.k, ndNum(0), 0)
			}
		case token.SHL:
			if b.isNum() && b.k >= 0 && b.k < 32 {
				return ndSum(a, 1<<uint(b.k), ndNum(0), 0)
			}
		case token.LSS:
			return ndLess(ndSub(a, b))
		case token.GTR:
			return ndLess(ndSub(b, a))
		case token.LEQ:
			return ndLess(ndAdd(ndSub(a, b), -1))
		case token.GEQ:
			return ndLess(ndAdd(ndSub(b, a), -1))
		case token.AND:
			if a.isNum() && b.isNum() {
				return ndNum(a.k & b.k)
			}
			if a.s > b.s {
				a, b = b, a
			}
		case token.OR:
			if a.isNum() && b.isNum() {
				return ndNum(a.k | b.k)
			}
			if a.s > b.s {
				a, b = b, a
			}
		case token.AND_NOT:
			if a.isNum() && b.isNum() {
				return ndNum(a.k &^ b.k)
			}
		case token.XOR:
			if a.isNum() && b.isNum() && a.k >= 0 && b.k >= 0 {
				return ndNum(a.k ^ b.k)
			}
		case token.SHR:
			if a.isNum() && b.isNum() && a.k >= 0 && b.k >= 0 && b.k < 63 {
				return ndNum(a.k >> uint(b.k))
			}
		case token.QUO:
			if a.isNum() && b.isNum() && b.k != 0 {
				return ndNum(a.k / b.k)
			}
		case token.REM:
			if a.isNum() && b.isNum() && b.k != 0 {
				return ndNum(a.k % b.k)
			}
		}
	}
	op := x.Op.String()
	switch {
	case isString(x.X.Type()) && x.Op == token.ADD:
		op = "join"
	case !integer && !isBool(x.X.Type()) && !isString(x.X.Type()):
		op = "f" + op
	}
	n := ndAtom(op, a, b)
	n.typ = x.Type()
	return n
}

func (s *psum) equal(a, b *nd, integer bool) *nd {
	if a.op == "true" || a.op == "false" {
		a, b = b, a
	}
	if b.op == "true" {
		return a
	}
	if b.op == "false" {
		return ndNot(a)
	}
	if a == ndNil && (b.op == "clo" || b.op == "app" || b.fn != nil || b.op == "&f" || b.op == "&i") ||
		b == ndNil && (a.op == "clo" || a.op == "app" || a.fn != nil || a.op == "&f" || a.op == "&i") {
		return ndFalse
	}
	return ndEqual(a, b, integer)
}

// callIns handles a call; it gives true when the rest of the path has been followed.
func (s *psum) callIns(fr *pframe, b *ssa.BasicBlock, i int, x *ssa.Call, st *pst, k func(*pret)) bool {
	cc := x.Common()
	var args []*nd
	for _, a := range cc.Args {
		args = append(args, s.get(fr, st, a))
	}
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		n := s.builtin(fr, st, bi.Name(), x, args)
		if s.rewrite != nil {
			n = s.rewrite(n)
		}
		fr.env[x] = n
		return false
	}
	var callee *ssa.Function
	var bind []*nd
	if !cc.IsInvoke() {
		v := s.get(fr, st, cc.Value)
		if v.fn != nil {
			callee, bind = v.fn, v.bind
		}
	}
	if callee != nil {
		if f := s.p.unwrap(callee); f != nil {
			if len(f.Params) == len(args) || f == callee {
				callee = f
			}
		}
		if s.model != nil {
			if v := s.model(st, callee, args); v != nil {
				fr.env[x] = v
				return false
			}
		}
		rec := 0
		for up := fr; up != nil; up = up.up {
			if up.fn == callee {
				rec++
			}
		}
		if callee.Blocks != nil && len(callee.Params) == len(args) && len(callee.FreeVars) == len(bind) && rec == 0 && fr.depth < 12 && s.inline(callee, cc) {
			s.n++
			f2 := &pframe{fn: callee, id: fr.id + "/" + x.Name(), env: map[ssa.Value]*nd{}, up: fr, depth: fr.depth + 1, loops: map[*ssa.BasicBlock]*ploop{}}
			for j, pr := range callee.Params {
				f2.env[pr] = args[j]
			}
			for j, fv := range callee.FreeVars {
				f2.env[fv] = bind[j]
			}
			s.block(f2, callee.Blocks[0], nil, st, func(r *pret) {
				if r.panic {
					k(r)
					return
				}
				f3 := fr.clone()
				switch len(r.vals) {
				case 0:
				case 1:
					f3.env[x] = r.vals[0]
				default:
					f3.env[x] = ndAtom("tuple", r.vals...)
				}
				s.instrs(f3, b, i+1, r.st, k)
			})
			return true
		}
	}
	name := fullCallee(cc)
	if callee != nil && name == "" {
		name = callee.String()
	}
	if cc.IsInvoke() {
		args = append([]*nd{s.get(fr, st, cc.Value)}, args...)
	} else if name == "" {
		v := s.get(fr, st, cc.Value)
		name = "dyn:" + v.s
	}
	as := s.spread(st, args)
	if s.ownCalls && hasState(cc, callee) {
		as = append(append([]*nd{}, as...), ndAtom("by "+fr.id+"."+x.Name()))
	}
	n := ndAtom("call:"+name, as...)
	n.typ = x.Type()
	s.effect(st, &peff{kind: "call", name: name, args: s.spread(st, args), ins: x, fn: fr.fn, val: n})
	s.touch(st, s.writesOfCall(x))
	if callee != nil && callee.Blocks != nil && s.p.owns(callee) {
		if tt, ok := x.Type().(*types.Tuple); ok && tt.Len() > 1 {
			t := ndAtom("tuple")
			for j := 0; j < tt.Len(); j++ {
				if c := constResult(callee, j); c != nil {
					t.a = append(t.a, s.get(fr, st, c))
					continue
				}
				e := ndAtom("#"+strconv.Itoa(j), n)
				e.typ = tt.At(j).Type()
				t.a = append(t.a, e)
			}
			t.s = ndAtom("tuple", t.a...).s
			fr.env[x] = t
			return false
		}
	}
	if s.rewrite != nil {
		n = s.rewrite(n)
	}
	fr.env[x] = n
	return false
}

// hasState: the call may give something else each time.
func hasState(cc *ssa.CallCommon, callee *ssa.Function) bool {
	if cc.IsInvoke() || callee == nil || len(cc.Args) == 0 {
		return true
	}
	for _, a := range cc.Args {
		switch a.Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature:
			return true
		}
	}
	return false
}

// constResult: the function gives the same constant on every return.
func constResult(f *ssa.Function, i int) *ssa.Const {
	var c *ssa.Const
	for _, r := range returnsOf(f) {
		if i >= len(r.Results) {
			return nil
		}
		k, ok := r.Results[i].(*ssa.Const)
		if !ok || k.Value == nil || c != nil && c.Value.ExactString() != k.Value.ExactString() {
			return nil
		}
		c = k
	}
	return c
}

// spread shows the elements of argument lists made at the call.
func (s *psum) spread(st *pst, args []*nd) []*nd {
	var out []*nd
	for _, a := range args {
		if a.op == "slc" && a.a[0].op == "new" && a.a[1].isNum() && a.a[2].isNum() && a.a[2].k-a.a[1].k <= 16 {
			for j := a.a[1].k; j < a.a[2].k; j++ {
				e := ndAtom("&i", a.a[0], ndNum(j))
				if pt, ok := a.a[0].typ.Underlying().(*types.Pointer); ok {
					if at, ok := pt.Elem().Underlying().(*types.Array); ok {
						e.typ = types.NewPointer(at.Elem())
						out = append(out, s.load(st, e, at.Elem()))
					}
				}
			}
			continue
		}
		out = append(out, a)
	}
	return out
}

func (s *psum) builtin(fr *pframe, st *pst, name string, x *ssa.Call, args []*nd) *nd {
	switch name {
	case "len":
		if _, ok := x.Call.Args[0].Type().Underlying().(*types.Map); ok {
			return ndAtom("maplen", s.content(st, args[0]))
		}
		return s.length(args[0])
	case "append":
		base := args[0]
		if len(args) < 2 {
			return base
		}
		add := args[1]
		var n *nd
		if add.op == "slc" && add.a[0].op == "new" && add.a[1].isNum() && add.a[2].isNum() {
			els := s.spread(st, []*nd{add})
			n = ndAtom("app", append([]*nd{base}, els...)...)
			if base.op == "app" {
				n = ndAtom("app", append(append([]*nd{}, base.a...), els...)...)
			}
		} else {
			n = ndAtom("cat", base, add)
		}
		n.typ = x.Type()
		return n
	case "delete":
		s.effect(st, &peff{kind: "delete", addr: args[0], args: args[1:], ins: x, fn: fr.fn})
		s.setContent(st, args[0], ndAtom("del", s.content(st, args[0]), args[1]))
		return ndNil
	case "copy":
		s.effect(st, &peff{kind: "copy", addr: args[0], val: args[1], ins: x, fn: fr.fn})
		if sl, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); ok {
			s.havocField(st, "[]"+types.TypeString(sl.Elem(), nil), fmt.Sprintf("@copy%s.%s", fr.id, x.Name()))
		}
		return ndAtom("copied", args...)
	case "cap":
		n := ndAtom("cap", args[0])
		return n
	}
	return ndAtom("builtin:"+name, args...)
}

// touch forgets the fields a call may change.
func (s *psum) touch(st *pst, w map[string]bool) {
	if len(w) == 0 {
		return
	}
	ks := make([]string, 0, len(w))
	for f := range w {
		ks = append(ks, f)
	}
	sort.Strings(ks)
	s.n++
	for _, f := range ks {
		s.havocField(st, f, "@call#"+strconv.Itoa(s.n))
	}
}

func (s *psum) writesOfCall(ci ssa.CallInstruction) map[string]bool {
	out := map[string]bool{}
	for _, f := range s.p.calleesAt(ci, s.p.takenFuncs()) {
		if !s.p.owns(f) {
			continue
		}
		for w := range s.writesOf(f) {
			out[w] = true
		}
	}
	return out
}

// writesOf lists the fields, elements and maps that f, or what it calls, may change.
func (s *psum) writesOf(f *ssa.Function) map[string]bool {
	if w, ok := s.writes[f]; ok {
		return w
	}
	out := map[string]bool{}
	s.writes[f] = out
	for g := range s.p.reach(f) {
		if g.Blocks == nil {
			continue
		}
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					switch a := x.Addr.(type) {
					case *ssa.FieldAddr:
						out[fkey(a.X.Type(), a.Field).String()] = true
						if su, ok := x.Val.Type().Underlying().(*types.Struct); ok {
							for i := 0; i < su.NumFields(); i++ {
								out[fkey(x.Val.Type(), i).String()] = true
							}
						}
					case *ssa.IndexAddr:
						if al, ok := a.X.(*ssa.Alloc); ok && !al.Heap {
							continue
						}
						out["[]"+types.TypeString(x.Val.Type(), nil)] = true
					case *ssa.Alloc:
					default:
						out["*"+types.TypeString(x.Val.Type(), nil)] = true
						if su, ok := x.Val.Type().Underlying().(*types.Struct); ok {
							for i := 0; i < su.NumFields(); i++ {
								out[fkey(x.Val.Type(), i).String()] = true
							}
						}
					}
				case *ssa.MapUpdate:
					if _, ok := x.Map.(*ssa.MakeMap); !ok {
						out["map"] = true
					}
				}
			}
		}
	}
	return out
}

// effsSince lists the effects after e, in order.
func effsSince(st *pst, e *peff) []*peff {
	var out []*peff
	for x := st.eff; x != nil && x != e; x = x.up {
		out = append(out, x)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// factsSince lists the conditions taken after f, in order.
func factsSince(st *pst, f *pfact) []*pfact {
	var out []*pfact
	for x := st.facts; x != nil && x != f; x = x.up {
		out = append(out, x)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func showFacts(fs []*pfact) string {
	var out []string
	for _, f := range fs {
		t := f.cond.s
		if !f.want {
			t = "not " + t
		}
		out = append(out, t)
	}
	return strings.Join(out, "; ")
}

// itersOf lists the ways through one iteration of a loop.
func (s *psum) itersOf(lp *ploop) []*piter {
	var out []*piter
	for _, it := range s.iters {
		if it.loop.key() == lp.key() {
			out = append(out, it)
		}
	}
	return out
}

// carried finds the loop that the value x stands for the running value of, with what it was before the loop (for every
// way the loop is entered) and what each way through one iteration makes of it.
func (s *psum) carried(x *nd) (lp *ploop, init, next []*nd) { return s.carriedOn(x, nil) }

// carriedOn looks only at the way the loop was entered on the given path.
func (s *psum) carriedOn(x *nd, st *pst) (lp *ploop, init, next []*nd) {
	on := func(l *ploop) bool {
		if st == nil {
			return true
		}
		for f := st.facts; ; f = f.up {
			if f == l.facts {
				break
			}
			if f == nil {
				return false
			}
		}
		for e := st.eff; ; e = e.up {
			if e == l.eff {
				return true
			}
			if e == nil {
				return false
			}
		}
	}
	for _, l := range s.sortedLoops() {
		for ph, a := range l.atom {
			if a.s == x.s && !l.kept(ph) {
				for _, l2 := range s.loops[l.key()] {
					if on(l2) {
						init = append(init, l2.init[ph])
					}
				}
				for _, it := range s.itersOf(l) {
					if on(it.loop) {
						next = append(next, it.next[ph])
					}
				}
				return l, init, next
			}
		}
		if !strings.HasSuffix(x.s, "@"+l.key()) {
			continue
		}
		key := strings.TrimSuffix(x.s, "@"+l.key())
		for _, l2 := range s.loops[l.key()] {
			if on(l2) {
				init = append(init, l2.mem0[key])
			}
		}
		for _, it := range s.itersOf(l) {
			if on(it.loop) {
				next = append(next, it.st.mem[key])
			}
		}
		return l, init, next
	}
	return nil, nil, nil
}

// kept: the loop does not change the variable.
func (lp *ploop) kept(ph *ssa.Phi) bool { return lp.atom[ph].s == lp.init[ph].s }

func (s *psum) sortedLoops() []*ploop {
	ks := make([]string, 0, len(s.loops))
	for k := range s.loops {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*ploop
	for _, k := range ks {
		out = append(out, s.loops[k][0])
	}
	return out
}

// cover says how a loop goes over the list l by the index idx: every index once, upwards or downwards.
type cover struct {
	lp   *ploop
	done *nd // the condition under which the loop is over
}

func (s *psum) covers(lp *ploop, length, idx *nd) *cover {
	for ph, a := range lp.atom {
		c := ndSub(idx, a)
		if !c.isNum() || lp.kept(ph) {
			continue
		}
		its := s.itersOf(lp)
		if len(its) == 0 {
			return nil
		}
		step := int64(0)
		for i, it := range its {
			d := ndSub(it.next[ph], a)
			if !d.isNum() || i > 0 && d.k != step {
				return nil
			}
			step = d.k
		}
		for _, l2 := range s.loops[lp.key()] {
			if l2.init[ph].s != lp.init[ph].s {
				return nil
			}
		}
		first := ndSum(lp.init[ph], 1, c, 1)
		switch step {
		case 1:
			if !first.isNum() || first.k != 0 {
				return nil
			}
			return &cover{lp, ndNot(ndLess(ndSub(idx, length)))}
		case -1:
			if d := ndSub(first, length); !d.isNum() || d.k != -1 {
				return nil
			}
			return &cover{lp, ndLess(idx)}
		}
		return nil
	}
	return nil
}

// over says whether the path went through the whole loop (or the list is known to be empty).
func (s *psum) over(c *cover, st *pst, length *nd) bool {
	if v, ok := s.decided(st, ndEqual(length, ndNum(0), true)); ok && v {
		return true
	}
	x := c.done
	want := true
	for x.op == "not" {
		x, want = x.a[0], !want
	}
	if v, ok := st.known[x.s]; ok && v == want {
		return true
	}
	if x.op == "lt0" {
		// left when the index is exactly the length
		y := x.a[0]
		if !want {
			for _, e := range []*nd{y, ndSum(y, -1, ndNum(0), 0)} {
				if v, ok := st.known["eq0("+e.s+")"]; ok && v {
					return true
				}
			}
		}
	}
	return false
}

// knownDifferent: the path knows that the difference is not zero.
func knownDifferent(st *pst, d *nd) bool {
	for _, x := range []*nd{d, ndSum(d, -1, ndNum(0), 0)} {
		if v, ok := st.known["eq0("+x.s+")"]; ok && !v {
			return true
		}
	}
	return false
}
