package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Must-facts about equality: what is known to be equal (or nil, or true) on every path to a point. Values are named by
// what they are read from (a parameter, a field path, an element), so that the same reading in different functions gets
// the same name once the arguments are put in for the parameters.

type factSet map[string]bool // nil: everything (an unreachable point)

func eqFact(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return "=\x00" + a + "\x00" + b
}

func (f factSet) eq(a, b string) bool { return a == b || f[eqFact(a, b)] }

func (f factSet) pairs() [][2]string {
	var out [][2]string
	for k := range f {
		if strings.HasPrefix(k, "=\x00") {
			s := strings.Split(k, "\x00")
			out = append(out, [2]string{s[1], s[2]})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0]+"\x00"+out[i][1] < out[j][0]+"\x00"+out[j][1] })
	return out
}

// close adds what follows by transitivity.
func (f factSet) close() factSet {
	if f == nil {
		return nil
	}
	for changed := true; changed; {
		changed = false
		ps := f.pairs()
		for i := range ps {
			for j := range ps {
				if i == j {
					continue
				}
				for _, m := range [][4]string{{ps[i][0], ps[i][1], ps[j][0], ps[j][1]}, {ps[i][0], ps[i][1], ps[j][1], ps[j][0]}, {ps[i][1], ps[i][0], ps[j][0], ps[j][1]}, {ps[i][1], ps[i][0], ps[j][1], ps[j][0]}} {
					if m[0] == m[2] && m[1] != m[3] && !f[eqFact(m[1], m[3])] {
						f[eqFact(m[1], m[3])] = true
						changed = true
					}
				}
			}
		}
		if len(f) > 400 {
			break
		}
	}
	return f
}

func meet(a, b factSet) factSet {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	out := factSet{}
	for k := range a {
		if b[k] {
			out[k] = true
		}
	}
	return out
}

func union(a factSet, more ...factSet) factSet {
	if a == nil {
		return nil
	}
	out := factSet{}
	for k := range a {
		out[k] = true
	}
	for _, m := range more {
		if m == nil {
			return nil
		}
		for k := range m {
			out[k] = true
		}
	}
	return out.close()
}

type preds struct {
	p     *Prog
	fn    *ssa.Function
	env   map[ssa.Value]string // parameters
	id    string
	depth int
	in    map[*ssa.BasicBlock]factSet
	known map[*ssa.BasicBlock]bool
	busy  map[ssa.Value]bool
	count *int
	subs  map[*ssa.CallCommon]*preds
	// where a sub-frame was entered from
	parent *preds
	call   *ssa.CallCommon
	copies map[string]string
	// equalBy decides whether two values are the same when an interface's own comparison says so
	equalBy func(cc *ssa.CallCommon) bool
}

func (p *Prog) newPreds(fn *ssa.Function, equalBy func(cc *ssa.CallCommon) bool) *preds {
	n := 0
	q := &preds{p: p, fn: fn, env: map[ssa.Value]string{}, id: fname(fn), count: &n, equalBy: equalBy}
	for _, pr := range fn.Params {
		q.env[pr] = "$" + pr.Name()
	}
	q.solve()
	return q
}

func (q *preds) enter(f *ssa.Function, cc *ssa.CallCommon) *preds {
	if c := q.subs[cc]; c != nil {
		return c
	}
	*q.count++
	c := &preds{p: q.p, fn: f, env: map[ssa.Value]string{}, id: fmt.Sprintf("%s#%d", fname(f), *q.count), depth: q.depth + 1, count: q.count, equalBy: q.equalBy, parent: q, call: cc}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, args...)
	}
	for i, pr := range f.Params {
		if i < len(args) {
			c.env[pr] = q.expr(args[i])
		}
	}
	c.solve()
	if q.subs == nil {
		q.subs = map[*ssa.CallCommon]*preds{}
	}
	q.subs[cc] = c
	return c
}

// copied: fields of local copies that still are what they were copied from.
func (q *preds) copied() map[string]string {
	for q.parent != nil {
		q = q.parent
	}
	if q.copies == nil {
		q.copies = map[string]string{}
	}
	return q.copies
}

func (q *preds) dot(base, field string) string {
	s := base + "." + field
	if t, ok := q.copied()[s]; ok {
		return t
	}
	return s
}

func (q *preds) opaque(v ssa.Value) string { return "<" + q.id + "." + v.Name() + ">" }

// expr names a value.
func (q *preds) expr(v ssa.Value) string {
	if q.busy == nil {
		q.busy = map[ssa.Value]bool{}
	}
	if q.busy[v] {
		return q.opaque(v)
	}
	q.busy[v] = true
	s := q.expr1(v)
	delete(q.busy, v)
	if len(s) > 600 {
		return q.opaque(v)
	}
	return s
}

func (q *preds) expr1(v ssa.Value) string {
	switch y := v.(type) {
	case *ssa.Parameter:
		if s, ok := q.env[y]; ok {
			return s
		}
		return q.opaque(v)
	case *ssa.Const:
		if y.Value == nil {
			return "nil"
		}
		return "const:" + y.Value.ExactString()
	case *ssa.Global:
		return "global:" + y.Name()
	case *ssa.Alloc:
		whole, fields := allocStores(y)
		if len(whole) == 1 && len(fields) == 0 {
			return q.expr(whole[0].Val)
		}
		if len(whole) == 1 {
			// a copy with some fields changed
			me, st := q.opaque(y), structOf(y.Type())
			if st == nil {
				return me
			}
			w := q.expr(whole[0].Val)
			for i := 0; i < st.NumFields(); i++ {
				if fields[i] == nil {
					q.copied()[me+"."+st.Field(i).Name()] = w + "." + st.Field(i).Name()
				}
			}
			return me
		}
	case *ssa.UnOp:
		switch y.Op {
		case token.MUL:
			return q.expr(y.X)
		case token.SUB:
			return "(-" + q.expr(y.X) + ")"
		}
	case *ssa.FieldAddr:
		return q.dot(q.expr(y.X), fieldName(y.X.Type(), y.Field))
	case *ssa.Field:
		return q.dot(q.expr(y.X), fieldName(y.X.Type(), y.Field))
	case *ssa.IndexAddr:
		return q.expr(y.X) + "[" + q.expr(y.Index) + "]"
	case *ssa.Index:
		return q.expr(y.X) + "[" + q.expr(y.Index) + "]"
	case *ssa.Lookup:
		if !y.CommaOk {
			return q.expr(y.X) + "{" + q.expr(y.Index) + "}"
		}
	case *ssa.TypeAssert:
		if !y.CommaOk {
			return q.expr(y.X)
		}
	case *ssa.Extract:
		switch t := y.Tuple.(type) {
		case *ssa.TypeAssert:
			if y.Index == 0 {
				return q.expr(t.X)
			}
		case *ssa.Call:
			return q.callExpr(t, y.Index, y)
		}
	case *ssa.MakeInterface:
		return q.expr(y.X)
	case *ssa.ChangeInterface:
		return q.expr(y.X)
	case *ssa.ChangeType:
		return q.expr(y.X)
	case *ssa.Convert:
		return tname(y.Type()) + "(" + q.expr(y.X) + ")"
	case *ssa.BinOp:
		a, b := q.expr(y.X), q.expr(y.Y)
		if (y.Op == token.ADD && !isString(y.Type()) || y.Op == token.MUL) && a > b {
			a, b = b, a
		}
		return "(" + a + " " + y.Op.String() + " " + b + ")"
	case *ssa.Call:
		if bi, ok := y.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") {
			return bi.Name() + "(" + q.expr(y.Call.Args[0]) + ")"
		}
		if y.Call.IsInvoke() && len(y.Call.Args) == 0 && isString(y.Type()) {
			return q.expr(y.Call.Value) + "." + y.Call.Method.Name() + "()"
		}
		return q.callExpr(y, 0, y)
	}
	return q.opaque(v)
}

// callExpr: what a call returns, when every return that is not nil returns the same thing.
func (q *preds) callExpr(c *ssa.Call, idx int, v ssa.Value) string {
	f := c.Call.StaticCallee()
	if f == nil || !q.p.owns(f) || f.Blocks == nil || q.depth > 4 {
		return q.opaque(v)
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok {
				if _, local := st.Addr.(*ssa.Alloc); !local {
					return q.opaque(v)
				}
			}
		}
	}
	sub := q.enter(f, &c.Call)
	out := ""
	for _, r := range returnsOf(f) {
		if idx >= len(r.Results) {
			return q.opaque(v)
		}
		if isNilConst(r.Results[idx]) {
			continue
		}
		s := sub.expr(r.Results[idx])
		if out != "" && s != out {
			return q.opaque(v)
		}
		out = s
	}
	if out == "" || strings.Contains(out, "<"+sub.id+".") {
		return q.opaque(v)
	}
	return out
}

func (q *preds) solve() {
	q.in = map[*ssa.BasicBlock]factSet{}
	q.known = map[*ssa.BasicBlock]bool{}
	if len(q.fn.Blocks) == 0 {
		return
	}
	q.in[q.fn.Blocks[0]] = factSet{}
	q.known[q.fn.Blocks[0]] = true
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			visit(s)
		}
		order = append(order, b)
	}
	visit(q.fn.Blocks[0])
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	for round := 0; round < 20; round++ {
		changed := false
		for _, b := range order[1:] {
			var acc factSet
			any := false
			for _, pr := range b.Preds {
				if !q.known[pr] {
					continue
				}
				any = true
				acc = meet(acc, q.edge(pr, b))
			}
			if !any {
				continue
			}
			if !q.known[b] || !sameFacts(q.in[b], acc) {
				q.in[b], q.known[b] = acc, true
				changed = true
			}
		}
		if !changed {
			return
		}
	}
	// not settled: claim nothing
	for _, b := range q.fn.Blocks[1:] {
		q.in[b], q.known[b] = factSet{}, true
	}
}

func sameFacts(a, b factSet) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// edge: what is known on the edge from a block to another.
func (q *preds) edge(from, to *ssa.BasicBlock) factSet {
	if !q.known[from] {
		return nil
	}
	f := q.in[from]
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return f
	}
	want := from.Succs[0] == to
	f = union(f, q.cond(iff.Cond, want))
	if !want {
		f = union(f, q.walked(from, iff, f))
	}
	return f
}

// walked: on leaving a loop over the indices of a list, the elements compared on every round are all equal.
func (q *preds) walked(h *ssa.BasicBlock, iff *ssa.If, f factSet) factSet {
	out := factSet{}
	if f == nil {
		return out
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return out
	}
	var ph *ssa.Phi
	start := int64(0)
	if x, ok := bo.X.(*ssa.Phi); ok {
		ph = x
	} else if x, ok := bo.X.(*ssa.BinOp); ok && x.Op == token.ADD {
		if c, ok := constInt(x.Y); ok && c == 1 {
			ph, _ = x.X.(*ssa.Phi)
			start = -1
		}
	}
	if ph == nil || ph.Block() != h {
		return out
	}
	for i, pr := range h.Preds {
		if h.Dominates(pr) {
			if start == -1 && ph.Edges[i] == bo.X {
				continue
			}
			if st, ok := ph.Edges[i].(*ssa.BinOp); ok && st.Op == token.ADD && st.X == ssa.Value(ph) {
				if c, ok := constInt(st.Y); ok && c == 1 {
					continue
				}
			}
			return out
		}
		if c, ok := constInt(ph.Edges[i]); !ok || c != start {
			return out
		}
	}
	idx, bound := q.expr(bo.X), q.expr(bo.Y)
	var every factSet
	n := 0
	for _, pr := range h.Preds {
		if h.Dominates(pr) && q.known[pr] {
			every = meet(every, q.edge(pr, h))
			n++
		}
	}
	if n == 0 {
		return out
	}
	suf := "[" + idx + "]"
	for _, ab := range every.pairs() {
		if strings.HasSuffix(ab[0], suf) && strings.HasSuffix(ab[1], suf) {
			a, b := strings.TrimSuffix(ab[0], suf), strings.TrimSuffix(ab[1], suf)
			la, lb := "len("+a+")", "len("+b+")"
			if f.eq(la, lb) && (bound == la || bound == lb || f.eq(bound, la)) {
				out[eqFact(a, b)] = true
			}
		}
	}
	return out
}

// cond: what follows from a condition holding (or not).
func (q *preds) cond(v ssa.Value, want bool) factSet {
	out := factSet{}
	switch y := v.(type) {
	case *ssa.Const:
		if constBool(y) != want {
			return nil
		}
	case *ssa.UnOp:
		if y.Op == token.NOT {
			return q.cond(y.X, !want)
		}
		if y.Op == token.MUL {
			out[fmt.Sprintf("%v:%s", want, q.expr(y))] = true
		}
	case *ssa.BinOp:
		if y.Op != token.EQL && y.Op != token.NEQ {
			return out
		}
		a, b := q.expr(y.X), q.expr(y.Y)
		if (y.Op == token.EQL) == want {
			out[eqFact(a, b)] = true
			return out
		}
		if isBool(y.X.Type()) {
			// b != true
			for _, ab := range [][2]ssa.Value{{y.X, y.Y}, {y.Y, y.X}} {
				if c, ok := ab[1].(*ssa.Const); ok {
					return q.cond(ab[0], !constBool(c))
				}
			}
		}
		for _, ab := range [][2]ssa.Value{{y.X, y.Y}, {y.Y, y.X}} {
			if isNilConst(ab[1]) {
				out["some:"+q.expr(ab[0])] = true
				switch c := ab[0].(type) {
				case *ssa.Call:
					return union(out, q.result(&c.Call, 0, false, true))
				case *ssa.Extract:
					if cc, ok := c.Tuple.(*ssa.Call); ok {
						return union(out, q.result(&cc.Call, c.Index, false, true))
					}
				}
			}
		}
	case *ssa.Phi:
		var acc factSet
		for i, e := range y.Edges {
			if c, ok := e.(*ssa.Const); ok && constBool(c) != want {
				continue
			}
			pr := y.Block().Preds[i]
			if !q.known[pr] {
				continue
			}
			f := q.edge(pr, y.Block())
			if _, ok := e.(*ssa.Const); !ok && f != nil {
				f = union(f, q.cond(e, want))
			}
			acc = meet(acc, f)
		}
		return acc
	case *ssa.Extract:
		switch t := y.Tuple.(type) {
		case *ssa.TypeAssert:
			if want {
				out["is:"+q.expr(t.X)] = true
			}
		case *ssa.Call:
			return q.result(&t.Call, y.Index, want, false)
		}
	case *ssa.Call:
		cc := &y.Call
		switch full := fullCallee(cc); {
		case want && (full == "reflect.DeepEqual" || full == "bytes.Equal" || full == "slices.Equal" || full == "strings.EqualFold" && false):
			out[eqFact(q.expr(cc.Args[0]), q.expr(cc.Args[1]))] = true
		case cc.IsInvoke():
			if want && len(cc.Args) == 1 && q.equalBy != nil && q.equalBy(cc) {
				out[eqFact(q.expr(cc.Value), q.expr(cc.Args[0]))] = true
			}
		default:
			return q.result(cc, 0, want, false)
		}
	}
	return out
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func constBool(c *ssa.Const) bool { return c.Value != nil && c.Value.ExactString() == "true" }

// result: what a callee has found out when its result is true (false, not nil).
func (q *preds) result(cc *ssa.CallCommon, idx int, want, some bool) factSet {
	f := cc.StaticCallee()
	if f == nil || !q.p.owns(f) || f.Blocks == nil || q.depth > 4 {
		return factSet{}
	}
	sub := q.enter(f, cc)
	var acc factSet
	for _, r := range returnsOf(f) {
		if idx >= len(r.Results) || !sub.known[r.Block()] {
			continue
		}
		v := r.Results[idx]
		fs := sub.in[r.Block()]
		if some {
			if isNilConst(v) {
				continue
			}
			if ph, ok := v.(*ssa.Phi); ok {
				var in factSet
				for i, e := range ph.Edges {
					if !isNilConst(e) {
						in = meet(in, sub.edge(ph.Block().Preds[i], ph.Block()))
					}
				}
				if in != nil {
					fs = union(fs, in)
				}
			}
		} else {
			fs = union(fs, sub.cond(v, want))
		}
		acc = meet(acc, fs)
	}
	return acc
}

// at: what is known at a block.
func (q *preds) at(b *ssa.BasicBlock) factSet { return q.in[b] }
