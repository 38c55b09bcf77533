package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["L02"] = checkL02 }

// L02: vertical positions are measured from the bottom of the page they are on.
//
// Every number written is followed back to what it is computed from, and its rate of change with the
// height of the page is worked out. A point on the page must move with the top of the page: its
// vertical coordinate at rate 1, its horizontal one and every size at rate 0, and nothing at all may
// depend on the default page height. Transformations (cm) are followed: what is written after one must
// move so that the point on the page moves at rate 1.

// operand describes an operand of a content operator.
func operand(t tok) string {
	switch t.kind {
	case tInt, tReal:
		if t.src > 0 {
			if strings.HasPrefix(t.text, "-") {
				return "-s" + strconv.Itoa(t.src)
			}
			return "s" + strconv.Itoa(t.src)
		}
		if !strings.Contains(t.text, "H") {
			return "=" + t.text
		}
		return "?"
	}
	return "."
}

// coordSite is a place where a coordinate is written.
type coordSite struct {
	fn, pos, what string
	need          string
	have          map[string]bool
	srcs          map[ssa.Value]BV
}

func (r *reporter) coord(what, arg string, need string) {
	if r.mute > 0 || arg == "." || need == "" || !needHeights {
		return
	}
	if r.coords == nil {
		r.coords = map[string]*coordSite{}
	}
	k := r.pos + "|" + what + "|" + need
	c := r.coords[k]
	if c == nil {
		c = &coordSite{fn: r.fn, pos: r.pos, what: what, need: need, have: map[string]bool{}, srcs: map[ssa.Value]BV{}}
		r.coords[k] = c
	}
	if strings.HasPrefix(arg, "s") || strings.HasPrefix(arg, "-s") {
		n, _ := strconv.Atoi(strings.TrimLeft(arg, "-s"))
		if src := r.srcTab[n-1]; src.v != nil {
			c.srcs[src.v] = src
		}
	}
	for d := range r.ratesFor(arg, need) {
		c.have[d] = true
	}
}

// needHeights: rates of change are wanted in this run.
var needHeights bool

// place judges the operands of one content operator and follows the transformation.
func (n *contentParser) place(r *reporter, op string, args []string) {
	if n.flips == "" {
		n.flips = "1"
	}
	cur := n.flips[len(n.flips)-1]
	top := string(cur)
	if cur == '-' {
		top = "-1"
	}
	set := func(c byte) { n.flips = n.flips[:len(n.flips)-1] + string(c) }
	points := func(k int) {
		for i := 0; i < k && i < len(args); i++ {
			if i%2 == 0 {
				r.coord(fmt.Sprintf("x operand %d of %s", i+1, op), args[i], "0")
			} else {
				r.coord(fmt.Sprintf("y operand %d of %s", i+1, op), args[i], top)
			}
		}
	}
	rest := func(from int) {
		for i := from; i < len(args); i++ {
			r.coord(fmt.Sprintf("operand %d of %s", i+1, op), args[i], "0")
		}
	}
	if !needHeights {
		return
	}
	switch op {
	case "q":
		n.flips += string(cur)
	case "Q":
		if len(n.flips) > 1 {
			n.flips = n.flips[:len(n.flips)-1]
		} else {
			n.flips = "1"
		}
	case "BT":
		n.moved = false
	case "m", "l", "c", "v", "y":
		points(len(args))
	case "re":
		points(2)
		rest(2)
	case "Td", "TD":
		if n.moved {
			rest(0)
		} else {
			points(2)
		}
		n.moved = true
	case "Tm":
		n.moved = true
		for i := 0; i < 5 && i < len(args); i++ {
			r.coord(fmt.Sprintf("operand %d of Tm", i+1), args[i], "0")
		}
		if len(args) == 6 {
			r.coord("y operand of Tm", args[5], top)
		}
	case "cm":
		if len(args) != 6 {
			return
		}
		for i := 0; i < 5; i++ {
			r.coord(fmt.Sprintf("operand %d of cm", i+1), args[i], "0")
		}
		// what the translation does not do, the points written next have to do
		rates := r.ratesFor(args[5], top)
		var did string
		switch {
		case len(rates) == 1:
			for k := range rates {
				did = k
			}
		default:
			r.report("flip", "the vertical part of the transformation moves with the page height at rate %s", rateNames(rates))
			set('?')
			return
		}
		r.coord("y operand of cm", args[5], did)
		if did == "?" || cur == '?' {
			set('?')
			return
		}
		d, _ := strconv.ParseFloat(did, 64)
		t := map[byte]float64{'1': 1, '-': -1, '0': 0}[cur]
		left := t - d
		if left == 0 {
			set('0')
			return
		}
		lit := func(i int) (float64, bool) {
			if !strings.HasPrefix(args[i], "=") {
				return 0, false
			}
			v, err := strconv.ParseFloat(args[i][1:], 64)
			return v, err == nil
		}
		b, ok1 := lit(1)
		c, ok2 := lit(2)
		dd, ok3 := lit(3)
		if !ok1 || !ok2 || !ok3 || b != 0 || c != 0 || dd == 0 {
			r.report("flip", "a transformation that turns or scales is applied to points that move with the page height")
			set('?')
			return
		}
		switch left / dd {
		case 1:
			set('1')
		case -1:
			set('-')
		default:
			r.report("flip", "a transformation makes the points that follow move with the page height at rate %v", left/dd)
			set('?')
		}
	default:
		rest(0)
	}
}

// place judges numbers in the arrays of an object that hold positions on a page.
func (o *objParser) place(r *reporter, t tok) {
	if len(o.stack) < 2 {
		return
	}
	f := o.stack[len(o.stack)-1]
	if f.kind != 'A' {
		return
	}
	up := o.stack[len(o.stack)-2]
	if up.kind != 'D' {
		return
	}
	what, need := "", ""
	switch up.k {
	case "Rect", "QuadPoints":
		what = fmt.Sprintf("x of /%s [%d]", up.k, f.n)
		need = "0"
		if f.n%2 == 1 {
			what, need = fmt.Sprintf("y of /%s [%d]", up.k, f.n), "1"
		}
	case "MediaBox":
		switch f.n {
		case 0, 1, 2:
			what, need = fmt.Sprintf("/MediaBox [%d]", f.n), "0"
		case 3:
			what, need = "height of /MediaBox", pageHeight(up)
		}
	case "Dest", "D":
		switch {
		case f.nm == "XYZ" && f.n == 2:
			what, need = "left of /Dest", "0"
		case f.nm == "XYZ" && f.n == 3:
			what, need = "top of /Dest", "1"
		case (f.nm == "FitH" || f.nm == "FitBH") && f.n == 2:
			what, need = "top of /Dest", "1"
		case f.nm == "FitR" && f.n >= 2:
			what, need = "side of /Dest", []string{"0", "1"}[f.n%2]
		}
	}
	if need != "" {
		r.coord(what, operand(t), need)
	}
}

// pageHeight: the rate of the height of the box of a page, or of the pages that have none of their own.
func pageHeight(f dframe) string {
	for _, k := range f.keys {
		switch k {
		case "Type=name:Pages":
			return rate{g: 1}.String()
		case "Type=name:Page":
			return rate{o: 1}.String()
		}
	}
	return ""
}

// ratesFor: the rates of an operand that needs a certain one.
func (r *reporter) ratesFor(arg, need string) map[string]bool {
	m := r.rates(arg)
	if len(m) > 1 && m[need] && !m["?"] {
		n, _ := strconv.Atoi(strings.TrimLeft(arg, "-s"))
		if r.p.heights(r.vc).always(r.srcTab[n-1], r.facts(), arg[0] == '-', need) {
			return map[string]bool{need: true}
		}
	}
	return m
}

// facts: what is known where the operand was written.
func (r *reporter) facts() []fact {
	return append(append([]fact(nil), r.it.curFacts...), r.seen...)
}

func (r *reporter) rates(arg string) map[string]bool {
	switch {
	case strings.HasPrefix(arg, "="):
		return map[string]bool{"0": true}
	case strings.HasPrefix(arg, "s"), strings.HasPrefix(arg, "-s"):
		n, _ := strconv.Atoi(strings.TrimLeft(arg, "-s"))
		src := r.srcTab[n-1]
		if src.v == nil {
			break
		}
		s := r.p.heights(r.vc).rate(src, r.facts())
		if arg[0] == '-' {
			s = s.scale(-1)
		}
		return s.strings()
	}
	return map[string]bool{"?": true}
}

// ---- rates of change ------------------------------------------------------

// rate of change with the height of the current page (h), with the default height (g) and with the
// height in the option of some page (o).
type rate struct{ h, g, o float64 }

func (d rate) String() string {
	s := strconv.FormatFloat(d.h, 'g', -1, 64)
	if d.g != 0 {
		s += fmt.Sprintf(" and %v times the default height", d.g)
	}
	if d.o != 0 {
		s += fmt.Sprintf(" and %v times the height in a page option", d.o)
	}
	return s
}

func (d rate) plus(e rate, k float64) rate {
	// adding zero turns a negative zero into a plain one
	return rate{d.h + k*e.h + 0, d.g + k*e.g + 0, d.o + k*e.o + 0}
}

type rateSet struct {
	m   map[rate]bool
	any bool // not known
}

func (s rateSet) strings() map[string]bool {
	out := map[string]bool{}
	for d := range s.m {
		out[d.String()] = true
	}
	if s.any {
		out["?"] = true
	}
	return out
}

func rateNames(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, " or ")
}

func rates(ds ...rate) rateSet {
	s := rateSet{m: map[rate]bool{}}
	for _, d := range ds {
		s.m[d] = true
	}
	return s
}

var still = rate{}

func (s rateSet) join(t rateSet) rateSet {
	out := rateSet{m: map[rate]bool{}, any: s.any || t.any}
	for d := range s.m {
		out.m[d] = true
	}
	for d := range t.m {
		out.m[d] = true
	}
	if len(out.m) > 6 {
		out.any = true
	}
	return out
}

func (s rateSet) combine(t rateSet, f func(a, b rate) rate) rateSet {
	out := rateSet{m: map[rate]bool{}, any: s.any || t.any}
	if len(s.m) > 6 || len(t.m) > 6 {
		return rateSet{m: map[rate]bool{}, any: true}
	}
	for a := range s.m {
		for b := range t.m {
			out.m[f(a, b)] = true
		}
	}
	return out
}

func (s rateSet) scale(k float64) rateSet {
	out := rateSet{m: map[rate]bool{}, any: s.any}
	for a := range s.m {
		out.m[still.plus(a, k)] = true
	}
	return out
}

func (s rateSet) moves() bool {
	if s.any {
		return true
	}
	for d := range s.m {
		if d != still {
			return true
		}
	}
	return false
}

func (s rateSet) same(t rateSet) bool {
	if s.any != t.any || len(s.m) != len(t.m) {
		return false
	}
	for d := range s.m {
		if !t.m[d] {
			return false
		}
	}
	return true
}

type heights struct {
	p      *Prog
	vc     *valCtx
	fields map[fieldKey]rateSet
	params map[*ssa.Parameter]rateSet
	memo   map[string]rateSet
	memos  map[string]map[string]rateSet
	facts  []fact
	open   map[string]bool // conditions met that are not known
	busy   map[string]int
	low    int
	want   map[fieldKey]bool
	public map[*ssa.Function]bool
	called map[*ssa.Function]bool
	wantP  map[*ssa.Parameter]bool
}

// heights solves the rates of all fields and parameters that are asked for.
func (p *Prog) heights(vc *valCtx) *heights {
	if p.heightMemo == nil {
		p.heightMemo = &heights{p: p, vc: vc, fields: map[fieldKey]rateSet{}, params: map[*ssa.Parameter]rateSet{}, memos: map[string]map[string]rateSet{}, busy: map[string]int{}, want: map[fieldKey]bool{}, wantP: map[*ssa.Parameter]bool{}}
	}
	return p.heightMemo
}

// isSize: a width or height of a Rect.
func (h *heights) isSize(k fieldKey) bool {
	n := h.p.namedType("Rect")
	return n != nil && k.typ == fkey(n, 0).typ
}

// rate: the rates of change the value can have.
func (h *heights) rate(b BV, facts []fact) rateSet {
	defer func() { h.facts, h.memo = nil, nil }()
	for round := 0; ; round++ {
		nf, np := len(h.want), len(h.wantP)
		h.facts, h.memo = facts, h.memoFor(facts)
		out := h.eval(b, 0)
		if len(h.want) == nf && len(h.wantP) == np || round > 40 {
			return out
		}
		h.solve()
	}
}

func (h *heights) memoFor(facts []fact) map[string]rateSet {
	var sb strings.Builder
	for _, f := range facts {
		fmt.Fprintf(&sb, "|%s=%v", f.key, f.val)
	}
	m := h.memos[sb.String()]
	if m == nil {
		m = map[string]rateSet{}
		h.memos[sb.String()] = m
	}
	return m
}

// solve brings the rates of all fields and parameters asked for so far up to date.
func (h *heights) solve() {
	h.memos = map[string]map[string]rateSet{}
	h.facts = nil
	for round := 0; round < 60; round++ {
		h.memo = map[string]rateSet{}
		nf, np := len(h.want), len(h.wantP)
		changed := false
		for k := range h.want {
			if n := h.field(k); !n.same(h.fields[k]) {
				h.fields[k] = n.join(h.fields[k])
				changed = true
			}
		}
		for q := range h.wantP {
			if n := h.param(q); !n.same(h.params[q]) {
				h.params[q] = n.join(h.params[q])
				changed = true
			}
		}
		if !changed && len(h.want) == nf && len(h.wantP) == np {
			return
		}
	}
}

// field: everything stored to a field anywhere.
func (h *heights) field(k fieldKey) rateSet {
	out := rates()
	for _, st := range h.p.allStores()[k] {
		if localOnly(st.ins) {
			continue
		}
		out = out.join(h.eval(BV{st.val, h.vc.root(st.fn)}, 0))
	}
	if len(h.p.allStores()[k]) == 0 {
		return rates(still)
	}
	return out
}

// param: what the callers pass.
func (h *heights) param(q *ssa.Parameter) rateSet {
	out := rates()
	fn := q.Parent()
	i := paramIndex(q)
	n := 0
	for _, c := range h.p.staticCallers()[fn] {
		if i < len(c.Common().Args) {
			out = out.join(h.eval(BV{c.Common().Args[i], h.vc.root(c.Parent())}, 0))
			n++
		}
	}
	if h.public == nil {
		h.public = map[*ssa.Function]bool{}
		for _, f := range h.p.publicFuncs() {
			h.public[f] = true
		}
		h.called = map[*ssa.Function]bool{}
		for _, es := range h.p.graph() {
			for _, e := range es {
				h.called[e.callee] = true
			}
		}
	}
	// what callers of the package hand to the document does not move; methods of other types that
	// nothing here calls are not part of building a document
	doc := n == 0 && fn.Signature.Recv() == nil || strings.HasSuffix(recvName(fn), "GoPdf")
	if h.public[fn] && doc || n == 0 && h.called[fn] {
		out = out.join(rates(still))
	}
	return out
}

func (h *heights) eval(b BV, depth int) rateSet {
	if !isFloat(b.v.Type()) && !isInteger(b.v.Type()) {
		if _, tup := b.v.Type().(*types.Tuple); !tup {
			return rates(still)
		}
	}
	if depth > 60 {
		return rateSet{any: true}
	}
	b = h.vc.resolve(b)
	id := h.vc.id(b)
	if s, ok := h.memo[id]; ok {
		return s
	}
	if at, ok := h.busy[id]; ok {
		if at < h.low {
			h.low = at
		}
		return rates()
	}
	outer, at := h.low, len(h.busy)
	h.low = at
	h.busy[id] = at
	s := h.eval1(b, depth)
	delete(h.busy, id)
	if h.low >= at {
		h.memo[id] = s
	}
	if outer < h.low {
		h.low = outer
	}
	return s
}

func (h *heights) eval1(b BV, depth int) rateSet {
	switch y := b.v.(type) {
	case *ssa.Const:
		return rates(still)
	case *ssa.BinOp:
		x, z := h.eval(BV{y.X, b.fr}, depth+1), h.eval(BV{y.Y, b.fr}, depth+1)
		switch y.Op {
		case token.ADD:
			return x.combine(z, func(a, b rate) rate { return a.plus(b, 1) })
		case token.SUB:
			return x.combine(z, func(a, b rate) rate { return a.plus(b, -1) })
		case token.MUL, token.QUO:
			if !x.moves() && !z.moves() {
				return rates(still)
			}
			if !z.moves() {
				if ks := h.constants(BV{y.Y, b.fr}, 0); len(ks) > 0 {
					out := rates()
					for _, k := range ks {
						if y.Op == token.QUO {
							if k == 0 {
								return rateSet{any: true}
							}
							k = 1 / k
						}
						out = out.join(x.scale(k))
					}
					return out
				}
			}
			if y.Op == token.MUL && !x.moves() {
				if ks := h.constants(BV{y.X, b.fr}, 0); len(ks) > 0 {
					out := rates()
					for _, k := range ks {
						out = out.join(z.scale(k))
					}
					return out
				}
			}
			return rateSet{any: true}
		default:
			if !x.moves() && !z.moves() {
				return rates(still)
			}
			return rateSet{any: true}
		}
	case *ssa.UnOp:
		switch y.Op {
		case token.SUB:
			return h.eval(BV{y.X, b.fr}, depth+1).scale(-1)
		case token.MUL:
			return h.load(BV{y.X, b.fr}, y, depth+1)
		}
		return rates(still)
	case *ssa.Phi:
		out := rates()
		for i, e := range y.Edges {
			if !h.excluded(h.vc.wayIn(y, i, b.fr)) {
				out = out.join(h.eval(BV{e, b.fr}, depth+1))
			}
		}
		return out
	case *ssa.Convert:
		return h.eval(BV{y.X, b.fr}, depth+1)
	case *ssa.ChangeType:
		return h.eval(BV{y.X, b.fr}, depth+1)
	case *ssa.Field:
		return h.fieldRate(BV{y.X, b.fr}, y.X.Type(), y.Field, depth+1)
	case *ssa.Index:
		if u, ok := h.vc.resolve(BV{y.X, b.fr}).v.(*ssa.UnOp); ok && u.Op == token.MUL {
			at := h.vc.resolve(BV{u.X, h.vc.resolve(BV{y.X, b.fr}).fr})
			return h.element(at, y.Index, depth)
		}
		return rateSet{any: true}
	case *ssa.Parameter:
		if _, ok := h.params[y]; !ok {
			h.wantP[y] = true
			h.params[y] = rates()
		}
		return h.params[y]
	case *ssa.Extract:
		if c, ok := y.Tuple.(*ssa.Call); ok {
			return h.call(c, y.Index, b.fr, depth+1)
		}
	case *ssa.Call:
		return h.call(y, 0, b.fr, depth+1)
	}
	return rates(still)
}

// excluded: the branches were not taken on the path; those not known about are remembered.
func (h *heights) excluded(way []outcome) bool {
	if refuted(h.facts, way) {
		return true
	}
	if h.open != nil {
	next:
		for _, o := range way {
			for _, f := range h.facts {
				if f.key == o.key {
					continue next
				}
			}
			h.open[o.key] = true
		}
	}
	return false
}

// always: whatever the conditions that are not known on the path are, the rate is the one needed.
func (h *heights) always(b BV, facts []fact, neg bool, need string) bool {
	h.rate(b, facts) // fields and parameters are up to date
	h.open = map[string]bool{}
	h.facts, h.memo = facts, map[string]rateSet{}
	h.eval(b, 0)
	var hard []string
	for k := range h.open {
		hard = append(hard, k)
	}
	h.open, h.facts, h.memo = nil, nil, nil
	sort.Strings(hard)
	if len(hard) > 6 {
		return false
	}
	for i := 0; i < 1<<uint(len(hard)); i++ {
		fs := append([]fact(nil), facts...)
		for j, k := range hard {
			fs = append(fs, fact{key: k, val: i>>uint(j)&1 == 1})
		}
		s := h.rate(b, fs)
		if neg {
			s = s.scale(-1)
		}
		if n := s.strings(); len(n) != 0 && !(len(n) == 1 && n[need]) {
			return false
		}
	}
	return true
}

// constants: the constants a value can be, nil when it can be anything else.
func (h *heights) constants(b BV, depth int) []float64 {
	b = h.vc.resolve(b)
	switch y := b.v.(type) {
	case *ssa.Convert:
		return h.constants(BV{y.X, b.fr}, depth)
	case *ssa.Phi:
		if depth > 5 {
			return nil
		}
		var out []float64
		for i, e := range y.Edges {
			if h.excluded(h.vc.wayIn(y, i, b.fr)) {
				continue
			}
			ks := h.constants(BV{e, b.fr}, depth+1)
			if len(ks) == 0 || len(out) > 4 {
				return nil
			}
			out = append(out, ks...)
		}
		return out
	case *ssa.UnOp:
		if y.Op == token.SUB {
			out := append([]float64(nil), h.constants(BV{y.X, b.fr}, depth)...)
			for i := range out {
				out[i] = -out[i]
			}
			return out
		}
	case *ssa.Const:
		if y.Value != nil && (isFloat(y.Type()) || isInteger(y.Type())) {
			return []float64{y.Float64()}
		}
	}
	return nil
}

func (h *heights) call(c *ssa.Call, idx int, fr *Frame, depth int) rateSet {
	var fns []*ssa.Function
	if c.Call.IsInvoke() {
		fns = h.p.implsOf(&c.Call)
	} else if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil && h.p.owns(f) {
		fns = []*ssa.Function{f}
	}
	if len(fns) > 0 && fr != nil && fr.depth < 12 {
		out := rates()
		for _, f := range fns {
			if fr.inChain(f) {
				continue
			}
			sub := h.vc.enter(fr, c, f)
			for _, r := range returnsOf(f) {
				if idx < len(r.Results) && !failsReturn(r) && !h.excluded(h.vc.wayTo(r.Block(), nil, sub)) {
					out = out.join(h.eval(BV{retVals(r)[idx], sub}, depth+1))
				}
			}
		}
		return out
	}
	// another package's function, or too deep: still when nothing that moves goes in
	for _, a := range c.Call.Args {
		if h.eval(BV{a, fr}, depth+1).moves() {
			return rateSet{any: true}
		}
	}
	return rates(still)
}

// load: the value at an address.
func (h *heights) load(a BV, at ssa.Instruction, depth int) rateSet {
	a = h.vc.resolve(a)
	switch y := a.v.(type) {
	case *ssa.FieldAddr:
		base := h.vc.resolve(BV{y.X, a.fr})
		if al, ok := base.v.(*ssa.Alloc); ok {
			whole, fields := allocStores(al)
			if fs := fields[y.Field]; len(fs) > 0 || len(whole) > 0 {
				fs, whole = latest(fs, append(whole, fs...), at), latest(whole, fs, at)
				out := rates()
				for _, st := range fs {
					out = out.join(h.eval(BV{st.Val, h.vc.frameOfStore(base.fr, st)}, depth+1))
				}
				for _, st := range whole {
					out = out.join(h.fieldRate(BV{st.Val, h.vc.frameOfStore(base.fr, st)}, al.Type(), y.Field, depth+1))
				}
				if len(whole) == 0 {
					if _, into := escapesTo(al); into {
						out = out.join(h.wholeField(fkey(al.Type(), y.Field)))
					}
				}
				return out
			}
		}
		if d, ok := h.pageSize(base, y.X.Type(), y.Field, depth); ok {
			return d
		}
		return h.wholeField(fkey(y.X.Type(), y.Field))
	case *ssa.Alloc:
		whole, _ := allocStores(y)
		out := rates()
		for _, st := range whole {
			out = out.join(h.eval(BV{st.Val, h.vc.frameOfStore(a.fr, st)}, depth+1))
		}
		if len(whole) == 0 {
			return rates(still)
		}
		return out
	case *ssa.IndexAddr:
		return h.element(h.vc.resolve(BV{y.X, a.fr}), y.Index, depth)
	}
	return rates(still)
}

// element: an element of the array at an address.
func (h *heights) element(base BV, index ssa.Value, depth int) rateSet {
	al, ok := base.v.(*ssa.Alloc)
	if !ok || depth > 60 {
		return rates(still)
	}
	want, known := constInt(index)
	out := rates()
	n := 0
	for _, ref := range *al.Referrers() {
		switch ref := ref.(type) {
		case *ssa.IndexAddr:
			if k, isK := constInt(ref.Index); known && isK && k != want {
				continue
			}
			for _, r2 := range *ref.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ref) {
					out = out.join(h.eval(BV{st.Val, h.vc.frameOfStore(base.fr, st)}, depth+1))
					n++
				}
			}
		case *ssa.Store:
			if ref.Addr != ssa.Value(al) {
				continue
			}
			n++
			v := h.vc.resolve(BV{ref.Val, h.vc.frameOfStore(base.fr, ref)})
			if u, ok := v.v.(*ssa.UnOp); ok && u.Op == token.MUL {
				out = out.join(h.element(h.vc.resolve(BV{u.X, v.fr}), index, depth+1))
			} else {
				out = out.join(rates(still))
			}
		}
	}
	if n == 0 {
		return rates(still)
	}
	return out
}

// latest: the stores whose value can still be there at the load, which is not so when another store always comes
// between.
func latest(sts, all []*ssa.Store, at ssa.Instruction) []*ssa.Store {
	var out []*ssa.Store
next:
	for _, w := range sts {
		for _, f := range all {
			if f != w && f.Parent() == at.Parent() && w.Parent() == at.Parent() && reachesIns(w, f) && dominates(f, at) && !reachesAround(w, at, f) {
				continue next
			}
		}
		out = append(out, w)
	}
	return out
}

// reachesAround: there is a way from a to b that does not pass c.
func reachesAround(a, b, c ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(blk *ssa.BasicBlock, i int) bool
	rec = func(blk *ssa.BasicBlock, i int) bool {
		for ; i < len(blk.Instrs); i++ {
			switch blk.Instrs[i] {
			case b:
				return true
			case c:
				return false
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if rec(s, 0) {
					return true
				}
			}
		}
		return false
	}
	for i, ins := range a.Block().Instrs {
		if ins == a {
			return rec(a.Block(), i+1)
		}
	}
	return true
}

// localOnly: the store is to a field of a variable of its own that is only used field by field.
func localOnly(ins ssa.Instruction) bool {
	st, ok := ins.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := st.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == ssa.Value(al) {
				return false
			}
		case *ssa.FieldAddr:
			for _, r2 := range *r.Referrers() {
				switch r2 := r2.(type) {
				case *ssa.DebugRef, *ssa.UnOp:
				case *ssa.Store:
					if r2.Val == ssa.Value(r) {
						return false
					}
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

func (h *heights) wholeField(k fieldKey) rateSet {
	if h.isSize(k) {
		// the size of something that is not a page
		return rates(still)
	}
	if _, ok := h.fields[k]; !ok {
		h.want[k] = true
		h.fields[k] = rates()
	}
	return h.fields[k]
}

// fieldRate: a field of a structure value.
func (h *heights) fieldRate(v BV, t types.Type, i int, depth int) rateSet {
	if depth > 60 {
		return rateSet{any: true}
	}
	v = h.vc.resolve(v)
	switch y := v.v.(type) {
	case *ssa.UnOp:
		if y.Op == token.MUL {
			ad := h.vc.resolve(BV{y.X, v.fr})
			if al, ok := ad.v.(*ssa.Alloc); ok {
				whole, fields := allocStores(al)
				out := rates()
				n := 0
				for _, st := range fields[i] {
					out = out.join(h.eval(BV{st.Val, h.vc.frameOfStore(ad.fr, st)}, depth+1))
					n++
				}
				for _, st := range whole {
					out = out.join(h.fieldRate(BV{st.Val, h.vc.frameOfStore(ad.fr, st)}, t, i, depth+1))
					n++
				}
				if n > 0 {
					return out
				}
			}
			if d, ok := h.pageSize(ad, t, i, depth); ok {
				return d
			}
		}
	case *ssa.Phi:
		out := rates()
		for k, e := range y.Edges {
			if e != ssa.Value(y) && !h.excluded(h.vc.wayIn(y, k, v.fr)) {
				out = out.join(h.fieldRate(BV{e, v.fr}, t, i, depth+1))
			}
		}
		return out
	}
	return h.wholeField(fkey(t, i))
}

// escapesTo: the variable's address is handed to a function that can write it.
func escapesTo(al *ssa.Alloc) (ssa.CallInstruction, bool) {
	for _, r := range *al.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok {
			return c, true
		}
	}
	return nil, false
}

// pageSize: the height of the page size behind a pointer.
func (h *heights) pageSize(base BV, t types.Type, i int, depth int) (rateSet, bool) {
	if n := h.p.namedType("Rect"); n == nil || !types.Identical(deref(t), n) {
		return rateSet{}, false
	}
	name := fieldName(t, i)
	if name != "H" && name != "W" {
		return rateSet{}, false
	}
	kinds := h.sizeOf(base, depth, map[string]bool{})
	if len(kinds) == 0 {
		return rateSet{}, false
	}
	if name == "W" {
		return rates(still), true
	}
	out := rates()
	for k := range kinds {
		switch k {
		case 'h':
			out = out.join(rates(rate{h: 1}))
		case 'g':
			out = out.join(rates(rate{g: 1}))
		case 'o':
			out = out.join(rates(rate{o: 1}))
		default:
			out = out.join(rates(still))
		}
	}
	return out, true
}

// sizeOf: which page size a pointer to a Rect can be: h the current page's, g the default, o of some page object.
func (h *heights) sizeOf(b BV, depth int, seen map[string]bool) map[byte]bool {
	out := map[byte]bool{}
	b = h.vc.resolve(b)
	id := h.vc.id(b)
	if seen[id] || depth > 60 {
		return out
	}
	seen[id] = true
	add := func(m map[byte]bool) {
		for k := range m {
			out[k] = true
		}
	}
	addr := ssa.Value(nil)
	switch y := b.v.(type) {
	case *ssa.UnOp:
		if y.Op == token.MUL {
			addr = h.vc.resolve(BV{y.X, b.fr}).v
		}
	case *ssa.FieldAddr:
		addr = y
	case *ssa.Field:
		switch n := tname(deref(y.X.Type())); {
		case strings.HasSuffix(n, "PageOption") && fieldName(y.X.Type(), y.Field) == "PageSize":
			out['o'] = true
		}
		return out
	case *ssa.Phi:
		for _, e := range y.Edges {
			add(h.sizeOf(BV{e, b.fr}, depth+1, seen))
		}
		return out
	case *ssa.Call:
		if f := y.Call.StaticCallee(); f != nil && h.p.owns(f) && f.Blocks != nil && b.fr != nil && b.fr.depth < 8 && !b.fr.inChain(f) {
			sub := h.vc.enter(b.fr, y, f)
			for _, r := range returnsOf(f) {
				if len(r.Results) > 0 {
					add(h.sizeOf(BV{retVals(r)[0], sub}, depth+1, seen))
				}
			}
		}
		return out
	case *ssa.Parameter:
		fn := y.Parent()
		i := paramIndex(y)
		for _, c := range h.p.staticCallers()[fn] {
			if i < len(c.Common().Args) {
				add(h.sizeOf(BV{c.Common().Args[i], h.vc.root(c.Parent())}, depth+1, seen))
			}
		}
		if len(out) > 0 {
			out['x'] = true
		}
		return out
	}
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return out
	}
	owner, f := strings.TrimPrefix(tname(deref(fa.X.Type())), "gopdf."), fieldName(fa.X.Type(), fa.Field)
	if i := strings.LastIndex(owner, "."); i >= 0 {
		owner = owner[i+1:]
	}
	switch owner + "." + f {
	case "Current.pageSize":
		out['h'] = true
	case "Config.PageSize":
		out['g'] = true
	case "PageOption.PageSize":
		out['o'] = true
	}
	return out
}

func checkL02(p *Prog) *Result {
	needHeights = true
	e := p.emission()
	res := newResult("rate of change of every written coordinate with the page height",
		"the rates of unit conversions and of values handed in by callers are not followed: what a caller passes does not move with the page")
	judge := func(r *reporter) {
		for _, x := range r.list("flip") {
			res.add("turn", x.fn, x.msg, x.pos, "%s", x.msg)
		}
		var ks []string
		for k := range r.coords {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c := r.coords[k]
			res.Counts["operands"]++
			switch {
			case strings.HasSuffix(c.what, "y operand of cm"):
				res.Counts["transformations"]++
			case c.what == "height of /MediaBox":
				res.Counts["page boxes"]++
			case strings.Contains(c.what, "/"):
				res.Counts["operands in objects"]++
			}
			res.sample("%s: %s moves with the page height at rate %s", c.fn, c.what, rateNames(c.have))
			if len(c.have) == 0 {
				c.have["?"] = true
			}
			for d := range c.have {
				if d != c.need {
					res.add("rate", c.fn, c.what, c.pos, "%s moves with the page height at rate %s, not %s", c.what, rateNames(c.have), c.need)
					break
				}
			}
		}
	}
	for _, f := range e.cacheFns {
		judge(e.contents[f].r)
	}
	for _, f := range e.liveObj {
		judge(e.objs[f].r)
	}
	checkHeightSet(p, res, p.heights(e.vc))
	checkPageTurn(p, res)
	for k, n := range map[string]int{"operands": 100, "transformations": 5, "page boxes": 2, "places an element is made": 10, "page sizes set": 2} {
		res.floor(k, res.Counts[k], n)
	}
	return res
}
