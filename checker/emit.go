package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interp runs functions abstractly, following everything written to one target writer and feeding
// it to a grammar automaton (Mach).
type Interp struct {
	impSeen map[BV]bool // values looked at while asking whether one comes from the page importer
	p       *Prog
	vc      *valCtx
	r       *reporter
	cur     ssa.Instruction

	// objectCall, when set, replaces calls to the object-writing interface method by an HObject event.
	onIns      func(fr *Frame, ins ssa.Instruction, t target, s PS) PS
	onWrite    func(fr *Frame, ci ssa.CallInstruction, before PS, out []PS) []PS
	onOther    func(fr *Frame, ci ssa.CallInstruction, w BV)
	curFr      *Frame
	objectCall func(c *ssa.CallCommon) bool

	strMemo  map[string]*strRes
	steps    int
	condUse  map[*ssa.Function]map[string]int
	overflow bool
	funcs    map[*ssa.Function]bool
	paths    int
	curFacts []fact
}

type strRes struct {
	busy bool
	hit  bool
	out  []Mach
}

// reps are the representative characters of caller text.
var reps = []byte{'a', '0', ' ', '\n', '\r', '\t', '(', ')', '<', '>', '[', ']', '{', '}', '/', '%', '\\', '#', 0xE9}

type fact struct {
	key  string
	val  bool
	deps []ssa.Value
	cond BV
}

// PS is a path state.
type PS struct {
	m      Mach
	facts  []fact
	env    map[ssa.Value]int // integer induction variables: -1,0 exact, 1 means >=1
	defers []*ssa.Defer
	marks  []string // "obs:<call>><buf>", "stale:<call>><buf>", "open:<writer>><buf>"
	fidx   int
}

func (s PS) key() string {
	var sb strings.Builder
	sb.WriteString(s.m.Key())
	for _, f := range s.facts {
		fmt.Fprintf(&sb, "|%s=%v", f.key, f.val)
	}
	var e []string
	for k, v := range s.env {
		e = append(e, fmt.Sprintf("%p=%d", k, v))
	}
	sort.Strings(e)
	sb.WriteString("|" + strings.Join(e, ",") + "|")
	for _, d := range s.defers {
		fmt.Fprintf(&sb, "%p,", d)
	}
	sb.WriteString(strings.Join(s.marks, ";"))
	return sb.String()
}

func (s PS) with(m Mach) PS { s.m = m; return s }

func (s PS) mark(k string) PS {
	for _, x := range s.marks {
		if x == k {
			return s
		}
	}
	s.marks = append(append([]string(nil), s.marks...), k)
	sort.Strings(s.marks)
	return s
}

func (s PS) unmark(k string) PS {
	var out []string
	for _, x := range s.marks {
		if x != k {
			out = append(out, x)
		}
	}
	s.marks = out
	return s
}

func (s PS) fact(key string) (bool, bool) {
	for _, f := range s.facts {
		if f.key == key {
			return f.val, true
		}
	}
	return false, false
}

func newInterp(p *Prog, vc *valCtx, r *reporter) *Interp {
	it := &Interp{p: p, vc: vc, r: r, strMemo: map[string]*strRes{}, condUse: map[*ssa.Function]map[string]int{}, funcs: map[*ssa.Function]bool{}}
	r.it = it
	return it
}

func (it *Interp) at(ins ssa.Instruction) {
	it.cur = ins
	it.r.pos = it.p.insPos(ins)
	it.r.fn = fname(ins.Parent())
}

// target identifies the writer being followed.
type target struct {
	bv BV
}

func (it *Interp) isTarget(t target, b BV) bool {
	return it.writerRoot(b) == it.writerRoot(t.bv)
}

type vkey struct {
	v  ssa.Value
	fr *Frame
}

// writerRoot resolves a writer through forwarding wrappers to the underlying buffer/parameter.
func (it *Interp) writerRoot(b BV) vkey {
	for n := 0; n < 20; n++ {
		b = it.vc.resolve(b)
		v := b.v
		if ex, ok := v.(*ssa.Extract); ok {
			v = ex.Tuple
		}
		if call, ok := v.(*ssa.Call); ok {
			if i, ok := wrapOf(call); ok {
				b = BV{call.Call.Args[i], b.fr}
				continue
			}
		}
		if ph, ok := v.(*ssa.Phi); ok {
			// all alternatives lead to the same underlying writer
			var root *vkey
			same := true
			for _, e := range ph.Edges {
				if e == ph {
					continue
				}
				k := it.writerRoot(BV{e, b.fr})
				if root == nil {
					root = &k
				} else if *root != k {
					same = false
				}
			}
			if same && root != nil {
				return *root
			}
		}
		break
	}
	if isGlobalish(b.v) {
		return vkey{b.v, nil}
	}
	return vkey{b.v, b.fr}
}

func (it *Interp) rootID(b BV) string {
	k := it.writerRoot(b)
	return it.vc.id(BV{k.v, k.fr})
}

// run executes fr.fn from its entry with the given states, following target. It returns the states
// at error-free returns, or at stop (before executing it) when stop is given.
func (it *Interp) run(fr *Frame, t target, starts []PS, stop ssa.Instruction) []PS {
	fn := fr.fn
	it.funcs[fn] = true
	use := it.condUses(fn)
	type item struct {
		b    *ssa.BasicBlock
		from *ssa.BasicBlock
		s    PS
	}
	seen := map[string]bool{}
	var work []item
	var out []PS
	outSeen := map[string]bool{}
	addOut := func(s PS) {
		k := s.key()
		if !outSeen[k] {
			outSeen[k] = true
			out = append(out, s)
		}
	}
	push := func(b, from *ssa.BasicBlock, s PS) {
		fi := -1
		if from != nil {
			fi = from.Index
		}
		k := fmt.Sprintf("%d<%d|%s", b.Index, fi, s.key())
		if seen[k] {
			return
		}
		seen[k] = true
		work = append(work, item{b, from, s})
	}
	for _, s := range starts {
		push(fn.Blocks[0], nil, s)
	}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		it.steps++
		if it.steps > 400000 {
			if !it.overflow {
				it.overflow = true
				it.r.report("unresolved", "analysis did not converge within its step bound in %s", fname(fn))
			}
			return out
		}
		states := []PS{w.s}
		// phis
		for _, ins := range w.b.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, s := range states {
				states[i] = it.phi(phi, w.from, s)
			}
		}
		done := false
		for _, ins := range w.b.Instrs {
			if done {
				break
			}
			if ins == stop {
				for _, s := range states {
					addOut(s)
				}
				done = true
				break
			}
			switch x := ins.(type) {
			case *ssa.Phi:
				continue
			case *ssa.If:
				for _, s := range states {
					it.branch(fr, x, s, use, func(succ int, s2 PS) { push(w.b.Succs[succ], w.b, s2) })
				}
				done = true
			case *ssa.Jump:
				for _, s := range states {
					push(w.b.Succs[0], w.b, s)
				}
				done = true
			case *ssa.Return:
				for _, s := range states {
					if stop == nil && !it.errorReturn(fr, x, s) {
						addOut(s)
					}
				}
				done = true
			case *ssa.Panic:
				done = true
			case *ssa.Defer:
				for i := range states {
					states[i].defers = append(append([]*ssa.Defer(nil), states[i].defers...), x)
				}
			case *ssa.RunDefers:
				var nx []PS
				for _, s := range states {
					ds := s.defers
					s.defers = nil
					cur := []PS{s}
					for i := len(ds) - 1; i >= 0; i-- {
						it.at(ds[i])
						var n2 []PS
						for _, c := range cur {
							n2 = append(n2, it.call(fr, ds[i], t, c)...)
						}
						cur = n2
					}
					nx = append(nx, cur...)
				}
				states = nx
			case ssa.CallInstruction:
				it.at(x)
				var nx []PS
				for _, s := range states {
					s = it.kill(x, s)
					nx = append(nx, it.call(fr, x, t, s)...)
				}
				states = dedupPS(nx)
			default:
				if it.onIns != nil {
					for i, s := range states {
						states[i] = it.onIns(fr, ins, t, s)
					}
				}
				if v, ok := ins.(ssa.Value); ok {
					for i, s := range states {
						states[i] = it.kill2(v, s)
					}
				}
			}
		}
	}
	return out
}

func dedupPS(in []PS) []PS {
	if len(in) < 2 {
		return in
	}
	seen := map[string]bool{}
	var out []PS
	for _, s := range in {
		k := s.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	return out
}

func (it *Interp) kill(x ssa.CallInstruction, s PS) PS {
	if v, ok := x.(ssa.Value); ok {
		return it.kill2(v, s)
	}
	return s
}

// kill2 drops facts about a value that is being recomputed.
func (it *Interp) kill2(v ssa.Value, s PS) PS {
	hit := false
	for _, f := range s.facts {
		for _, d := range f.deps {
			if d == v {
				hit = true
			}
		}
	}
	if !hit {
		return s
	}
	var out []fact
	for _, f := range s.facts {
		keep := true
		for _, d := range f.deps {
			if d == v {
				keep = false
			}
		}
		if keep {
			out = append(out, f)
		}
	}
	s.facts = out
	return s
}

func (it *Interp) phi(phi *ssa.Phi, from *ssa.BasicBlock, s PS) PS {
	s = it.kill2(phi, s)
	if !isInteger(phi.Type()) {
		return s
	}
	var e ssa.Value
	for i, p := range phi.Block().Preds {
		if p == from {
			e = phi.Edges[i]
		}
	}
	if e == nil {
		return s
	}
	n, ok := envInt(e, s.env)
	env := map[ssa.Value]int{}
	for k, v := range s.env {
		if k != phi {
			env[k] = v
		}
	}
	if ok {
		env[phi] = n
	}
	s.env = env
	return s
}

// envInt evaluates v over the induction domain {-1, 0, >=1}.
func envInt(v ssa.Value, env map[ssa.Value]int) (int, bool) {
	switch x := v.(type) {
	case *ssa.Const:
		if n, ok := constInt(x); ok {
			if n >= 1 {
				return 1, true
			}
			if n == 0 || n == -1 {
				return int(n), true
			}
		}
	case *ssa.Phi:
		n, ok := env[x]
		return n, ok
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if k, ok := constInt(x.Y); ok && k >= 1 {
				if n, ok := envInt(x.X, env); ok {
					if n == -1 && k == 1 {
						return 0, true
					}
					return 1, true
				}
			}
		}
	}
	return 0, false
}

func cmpInduction(op token.Token, n int, k int64) (bool, bool) {
	if n >= 1 { // value is some integer >= 1
		switch op {
		case token.EQL:
			if k <= 0 {
				return false, true
			}
		case token.NEQ:
			if k <= 0 {
				return true, true
			}
		case token.GTR:
			if k <= 0 {
				return true, true
			}
		case token.GEQ:
			if k <= 1 {
				return true, true
			}
		case token.LSS:
			if k <= 1 {
				return false, true
			}
		case token.LEQ:
			if k <= 0 {
				return false, true
			}
		}
		return false, false
	}
	v, _ := foldBin(op, constant.MakeInt64(int64(n)), constant.MakeInt64(k), types.Typ[types.Int])
	if v == nil {
		return false, false
	}
	return constant.BoolVal(v), true
}

// condUses counts structurally equal branch conditions in fn.
func (it *Interp) condUses(fn *ssa.Function) map[string]int {
	if u := it.condUse[fn]; u != nil {
		return u
	}
	u := map[string]int{}
	fr := it.vc.root(fn)
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if x, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			c, _ := stripNot(x.Cond)
			k, _ := it.vc.condKey(BV{normCmp(c), fr})
			k, _ = normKey(k)
			u[k]++
		}
	}
	it.condUse[fn] = u
	return u
}

func stripNot(v ssa.Value) (ssa.Value, bool) {
	neg := false
	for {
		u, ok := v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			return v, neg
		}
		v, neg = u.X, !neg
	}
}

func normCmp(v ssa.Value) ssa.Value { return v }

// normKey turns a != into == with negation so both forms share a key.
func normKey(k string) (string, bool) {
	if strings.HasPrefix(k, "PROT!=") {
		return "PROT==nil", true
	}
	return k, false
}

// branchKey is the name under which the outcome of a condition is remembered; inv: the opposite outcome is.
func (vc *valCtx) branchKey(b BV) (key string, deps []ssa.Value, inv bool) {
	key, deps = vc.condKey(b)
	if r := vc.resolve(b); r.v != nil {
		if bo, ok := r.v.(*ssa.BinOp); ok && bo.Op == token.NEQ && !strings.HasPrefix(key, "PROT") {
			// canonical form uses ==
			key2, _ := vc.condKey(BV{bo.X, r.fr})
			key3, _ := vc.condKey(BV{bo.Y, r.fr})
			key = "(" + key2 + "==" + key3 + ")"
			inv = true
		}
	}
	if nk, n := normKey(key); n {
		key, inv = nk, true
	}
	return key, deps, inv
}

// outcome is what a branch that was taken says: the condition of that name had that value.
type outcome struct {
	key  string
	val  bool
	deps []ssa.Value
	cond BV
}

// taken: what the branch from one block to the other says. Nothing in a loop: what is known on the path may be about
// another round.
func (vc *valCtx) taken(from, to *ssa.BasicBlock, fr *Frame) (outcome, bool) {
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] || inLoop(from) {
		return outcome{}, false
	}
	cond, neg := stripNot(iff.Cond)
	key, deps, inv := vc.branchKey(BV{cond, fr})
	return outcome{key, ((from.Succs[0] == to) != neg) != inv, deps, BV{cond, fr}}, true
}

// wayTo: the branches that have to be taken to reach a block from one that dominates it (nil: from the entry).
func (vc *valCtx) wayTo(b, top *ssa.BasicBlock, fr *Frame) []outcome {
	var out []outcome
	for ; b != top && b.Idom() != nil; b = b.Idom() {
		if len(b.Preds) == 1 {
			if o, ok := vc.taken(b.Preds[0], b, fr); ok {
				out = append(out, o)
			}
		}
	}
	return out
}

// wayIn: the branches that have to be taken for the i-th edge of the phi.
func (vc *valCtx) wayIn(phi *ssa.Phi, i int, fr *Frame) []outcome {
	to := phi.Block()
	if inLoop(to) {
		return nil
	}
	from := to.Preds[i]
	out := vc.wayTo(from, to.Idom(), fr)
	if o, ok := vc.taken(from, to, fr); ok {
		out = append(out, o)
	}
	return out
}

// refuted: what is known on the path rules the branches out.
func refuted(facts []fact, way []outcome) bool {
	for _, o := range way {
		for _, f := range facts {
			if f.key == o.key && f.val != o.val {
				return true
			}
		}
	}
	return false
}

// chosen: the machine after the branches were taken to choose the text; those the function asks about again are
// remembered.
func (it *Interp) chosen(m Mach, way []outcome, fr *Frame) Mach {
	for _, o := range way {
		if known(it.curFacts, o.key) || known(m.seen, o.key) {
			continue
		}
		m.seen = append(append([]fact(nil), m.seen...), fact{o.key, o.val, o.deps, o.cond})
		sort.Slice(m.seen, func(i, j int) bool { return m.seen[i].key < m.seen[j].key })
	}
	return m
}

func known(facts []fact, key string) bool {
	for _, f := range facts {
		if f.key == key {
			return true
		}
	}
	return false
}

// inLoop: the block can run again after it has run.
func inLoop(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if reachesBlock(s, b) {
			return true
		}
	}
	return false
}

func (it *Interp) branch(fr *Frame, x *ssa.If, s PS, use map[string]int, push func(int, PS)) {
	cond, neg := stripNot(x.Cond)
	take := func(v bool) { // v: value of the stripped condition
		if v != neg {
			push(0, s)
		} else {
			push(1, s)
		}
	}
	// induction variables and constants
	if bo, ok := cond.(*ssa.BinOp); ok {
		if k, ok := constInt(bo.Y); ok {
			if n, ok := envInt(bo.X, s.env); ok {
				if v, ok := cmpInduction(bo.Op, n, k); ok {
					take(v)
					return
				}
			}
		}
	}
	if k, ok := it.vc.evalConst(BV{cond, fr}, nil, 0); ok && k.Kind() == constant.Bool {
		take(constant.BoolVal(k))
		return
	}
	// the receiver of the writer itself is not nil
	if bo, ok := cond.(*ssa.BinOp); ok && isNilConst(bo.Y) && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		if r := it.vc.resolve(BV{bo.X, fr}); r.fr != nil && r.fr.up == nil {
			if pr, ok := r.v.(*ssa.Parameter); ok && pr.Parent().Signature.Recv() != nil && paramIndex(pr) == 0 {
				take(bo.Op == token.NEQ)
				return
			}
		}
	}
	key, deps, eqNeg := it.vc.branchKey(BV{cond, fr})
	if v, ok := s.fact(key); ok {
		take(v != eqNeg)
		return
	}
	keep := use[it.rootKey(fr, cond)] > 1 || strings.HasPrefix(key, "PROT") || it.keepFact(fr, cond)
	for _, v := range []bool{true, false} {
		s2 := s
		if keep {
			s2.facts = append(append([]fact(nil), s.facts...), fact{key, v != eqNeg, deps, BV{cond, fr}})
			if eqNeg {
				// cond is the != form: remember under which polarity it was seen
				s2.facts[len(s2.facts)-1].cond = BV{cond, fr}
			}
			sort.Slice(s2.facts, func(i, j int) bool { return s2.facts[i].key < s2.facts[j].key })
		}
		if v != neg {
			push(0, s2)
		} else {
			push(1, s2)
		}
	}
}

func (it *Interp) rootKey(fr *Frame, cond ssa.Value) string {
	k, _ := it.vc.condKey(BV{cond, it.vc.root(fr.fn)})
	k, _ = normKey(k)
	return k
}

// keepFact: conditions about errors (decide which returns are failures) and about single characters
// (decide which characters reach an emission).
func (it *Interp) keepFact(fr *Frame, cond ssa.Value) bool {
	bo, ok := cond.(*ssa.BinOp)
	if ok {
		if isErrorType(bo.X.Type()) || isErrorType(bo.Y.Type()) {
			return true
		}
		if b, ok := bo.X.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Byte || b.Kind() == types.Rune || b.Kind() == types.Uint8 || b.Kind() == types.Int32) {
			return true
		}
	}
	if call, ok := cond.(*ssa.Call); ok {
		for _, a := range call.Call.Args {
			if b, ok := a.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Byte || b.Kind() == types.Rune || b.Kind() == types.Uint8 || b.Kind() == types.Int32) {
				return true
			}
		}
	}
	if _, ok := cond.(*ssa.Phi); ok {
		return true
	}
	return false
}

// errorReturn: the return certainly reports a failure.
func (it *Interp) errorReturn(fr *Frame, x *ssa.Return, s PS) bool {
	if len(x.Results) == 0 {
		return false
	}
	last := retVals(x)[len(x.Results)-1]
	if !isErrorType(last.Type()) {
		return false
	}
	return it.nonNilErr(BV{last, fr}, s, x.Block())
}

func (it *Interp) nonNilErr(b BV, s PS, blk *ssa.BasicBlock) bool {
	if isNilConst(b.v) {
		return false
	}
	if ph, ok := b.v.(*ssa.Phi); ok {
		for _, e := range ph.Edges {
			if !it.nonNilErr(BV{e, b.fr}, s, blk) {
				return false
			}
		}
		return true
	}
	r := it.vc.resolve(b)
	switch y := r.v.(type) {
	case *ssa.Call:
		switch fullCallee(&y.Call) {
		case "errors.New", "fmt.Errorf":
			return true
		}
	case *ssa.UnOp:
		if g, ok := y.X.(*ssa.Global); ok && g != nil {
			return true // package-level error value
		}
	case *ssa.MakeInterface:
		return true
	case *ssa.Alloc:
		return true
	}
	if _, isIface := r.v.Type().Underlying().(*types.Interface); !isIface {
		return true
	}
	k1, _ := it.vc.condKey(b)
	if v, ok := s.fact("(" + k1 + "==nil:error)"); ok && !v {
		return true
	}
	return false
}

// call interprets a call; the hooks see writes to the target as one step.
func (it *Interp) call(fr *Frame, ci ssa.CallInstruction, t target, s PS) []PS {
	if it.onWrite == nil {
		return it.call0(fr, ci, t, s)
	}
	cc := ci.Common()
	direct := it.objectCall != nil && it.objectCall(cc)
	if w, op := emissionOp(cc, fullCallee(cc)); op != "" && !direct {
		wb := BV{cc.Value, fr}
		if w >= 0 {
			wb = BV{cc.Args[w], fr}
		}
		direct = it.isTarget(t, wb)
		if !direct {
			it.onOther(fr, ci, wb)
		}
	}
	it.curFr = fr
	out := it.call0(fr, ci, t, s)
	if direct {
		out = it.onWrite(fr, ci, s, out)
	}
	return out
}

// ---- calls ------------------------------------------------------------------

func (it *Interp) call0(fr *Frame, ci ssa.CallInstruction, t target, s PS) []PS {
	it.at(ci)
	it.curFacts = s.facts
	it.r.prot = 0
	if v, ok := s.fact("PROT==nil"); ok {
		it.r.prot = -1
		if !v {
			it.r.prot = 1
		}
	}
	it.r.marks = s.marks
	cc := ci.Common()
	full := fullCallee(cc)
	args := cc.Args
	recv := BV{}
	switch full {
	case "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
		if v, ok := ci.(*ssa.Call); ok {
			return []PS{it.observe(s, fr, v, BV{args[0], fr})}
		}
	}
	if cc.IsInvoke() {
		recv = BV{cc.Value, fr}
	}
	arg := func(i int) BV { return BV{args[i], fr} }
	multi := func(ms []Mach) []PS {
		var out []PS
		for _, m := range ms {
			n := s
			for _, f := range m.seen {
				n.facts = append(append([]fact(nil), n.facts...), f)
			}
			sort.Slice(n.facts, func(i, j int) bool { return n.facts[i].key < n.facts[j].key })
			m.seen = nil
			out = append(out, n.with(m))
		}
		return out
	}
	// which operand is the writer, and what is written
	if it.objectCall != nil && it.objectCall(cc) {
		for i := range args {
			if it.isTarget(t, arg(i)) {
				return multi(s.m.hole(it.r, Hole{Kind: HObject, Src: BV{cc.Value, fr}}))
			}
		}
	}
	w, op := emissionOp(cc, full)
	if op != "" {
		var wb BV
		if w == -1 {
			wb = recv
		} else {
			wb = arg(w)
		}
		id := it.rootID(wb)
		if !it.isTarget(t, wb) {
			if op == "close" || op == "reset" {
				if op == "close" {
					s = it.closeMark(s, wb)
				}
				return []PS{s.dirty(id)}
			}
			if op == "flush" {
				if strings.HasPrefix(full, "(*bufio.") {
					s = it.closeMark(s, wb)
				}
				return []PS{s.dirty(id)}
			}
			return []PS{s.dirty(id)}
		}
		rest := args
		if w >= 0 {
			rest = args[w+1:]
		}
		ra := func(i int) BV { return BV{rest[i], fr} }
		switch op {
		case "fprintf":
			f, ok := it.constStr(ra(0))
			if !ok {
				it.r.report("unresolved", "format string is not a constant")
				return nil
			}
			return multi(it.format(f, it.varargs(BV{rest[1], fr}), []Mach{s.m}))
		case "fprint", "fprintln":
			return multi(it.sprint(it.varargs(ra(0)), op == "fprintln", []Mach{s.m}))
		case "str":
			return multi(it.str(ra(0), s.m))
		case "bytes":
			return multi(it.bytes(ra(0), s.m))
		case "byte", "rune":
			return multi(it.char(ra(0), s.m))
		case "copyto": // buf.WriteTo(w): receiver is the source
			return multi(it.bufData(it.copySource(cc, fr), s.m))
		case "copyfrom": // io.Copy(w, r), w.ReadFrom(r)
			return multi(it.bufData(it.vc.resolve(ra(0)), s.m))
		case "opaque":
			return multi(s.m.hole(it.r, Hole{Kind: HOpaque, Src: wb}))
		case "reset":
			return []PS{s.with(Mach{mode: ' ', ps: s.m.ps})}
		case "close":
			return []PS{it.closeMark(s, wb)}
		case "flush":
			if strings.HasPrefix(full, "(*bufio.") {
				s = it.closeMark(s, wb)
			}
			return []PS{s}
		}
		return []PS{s}
	}
	if i, ok := wrapOfCommon(full); ok && i < len(args) {
		if v, ok := ci.(ssa.Value); ok {
			base := it.rootID(arg(i))
			return []PS{s.mark("open:" + it.vc.id(BV{v, fr}) + ">" + base)}
		}
	}
	// repo functions that receive the target
	callees := it.vc.callees(fr, ci)
	touches := false
	for i := range args {
		if it.reaches(t, arg(i)) {
			touches = true
		}
	}
	if cc.IsInvoke() && it.reaches(t, recv) {
		touches = true
	}
	if !cc.IsInvoke() && cc.StaticCallee() == nil {
		if mc, ok := it.vc.resolve(BV{cc.Value, fr}).v.(*ssa.MakeClosure); ok {
			if it.captures(t, mc, it.vc.resolve(BV{cc.Value, fr}).fr) {
				touches = true
			}
		}
	} else if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		if it.captures(t, mc, fr) {
			touches = true
		}
	}
	if !touches {
		// not the followed output; a buffer it is given may change
		for i := range args {
			if isWriterLike(args[i].Type()) {
				s = s.dirty(it.rootID(arg(i)))
			}
		}
		return []PS{s}
	}
	if len(callees) == 0 {
		if isBenign(full) {
			return []PS{s}
		}
		it.r.report("unresolved", "the output is handed to %s, which cannot be followed", orDyn(full))
		return nil
	}
	if fr.depth > 14 {
		it.r.report("unresolved", "call nesting too deep")
		return nil
	}
	var out []PS
	for _, f := range callees {
		if fr.inChain(f) {
			it.r.report("unresolved", "recursive output function %s", fname(f))
			continue
		}
		nf := it.vc.enter(fr, ci, f)
		inner := s
		inner.defers = nil
		for _, o := range it.run(nf, t, []PS{inner}, nil) {
			o.defers = s.defers
			o.env = s.env
			it.at(ci)
			// facts about the callee's own frame values stay harmless; keep only shared ones
			o.facts = keepShared(o.facts, nf)
			out = append(out, o)
		}
	}
	// result facts: the call returned without error on these paths, but its error result may also be
	// non-nil on failing paths; those paths end in failure returns upstream.
	if v, ok := ci.(*ssa.Call); ok {
		out = it.assumeNoError(fr, v, out)
	}
	return dedupPS(out)
}

// assumeNoError records that an inlined call succeeded, so the caller's error branch is not taken
// with a success state.
func (it *Interp) assumeNoError(fr *Frame, v *ssa.Call, in []PS) []PS {
	var ev ssa.Value
	res := v.Call.Signature().Results()
	switch {
	case res.Len() == 1 && isErrorType(res.At(0).Type()):
		ev = v
	case res.Len() > 1 && isErrorType(res.At(res.Len()-1).Type()):
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if ex, ok := r.(*ssa.Extract); ok && ex.Index == res.Len()-1 {
					ev = ex
				}
			}
		}
	}
	if ev == nil {
		return in
	}
	k, deps := it.vc.condKey(BV{ev, fr})
	key := "(" + k + "==nil:error)"
	for i := range in {
		if _, ok := in[i].fact(key); ok {
			continue
		}
		f := append(append([]fact(nil), in[i].facts...), fact{key, true, deps, BV{}})
		sort.Slice(f, func(a, b int) bool { return f[a].key < f[b].key })
		in[i].facts = f
	}
	return in
}

func keepShared(fs []fact, callee *Frame) []fact {
	var out []fact
	for _, f := range fs {
		own := false
		for _, d := range f.deps {
			if ins, ok := d.(ssa.Instruction); ok && ins.Parent() == callee.fn {
				own = true
			}
		}
		if !own && !strings.Contains(f.key, fmt.Sprintf("#%d@", callee.id)) {
			out = append(out, f)
		}
	}
	return out
}

func orDyn(s string) string {
	if s == "" {
		return "a function value"
	}
	return s
}

func isBenign(full string) bool {
	switch full {
	case "(*bytes.Buffer).Len", "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String", "(*bytes.Buffer).Grow", "(*bytes.Buffer).Cap", "(*strings.Builder).Len", "(*strings.Builder).String", "(*strings.Builder).Grow", "builtin.len", "(*sync.Pool).Put":
		return true
	}
	return false
}

func wrapOfCommon(full string) (int, bool) {
	switch full {
	case "compress/zlib.NewWriter", "compress/zlib.NewWriterLevel", "bufio.NewWriter", "bufio.NewWriterSize", "compress/flate.NewWriter":
		return 0, true
	}
	return 0, false
}

func (it *Interp) closeMark(s PS, wb BV) PS {
	b := it.vc.resolve(wb)
	v := b.v
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	pre := "open:" + it.vc.id(BV{v, b.fr}) + ">"
	for _, m := range s.marks {
		if strings.HasPrefix(m, pre) {
			s = s.unmark(m)
		}
	}
	return s
}

// observe records that a buffer's length or contents were read by call (id obs).
func (it *Interp) observe(s PS, fr *Frame, call *ssa.Call, buf BV) PS {
	x := it.vc.id(BV{call, fr}) + ">" + it.rootID(buf)
	return s.unmark("stale:" + x).mark("obs:" + x)
}

// dirty: the buffer identified by id changes, so everything read from it before is out of date.
func (s PS) dirty(id string) PS {
	for _, m := range s.marks {
		if strings.HasPrefix(m, "obs:") && strings.HasSuffix(m, ">"+id) {
			s = s.unmark(m).mark("stale:" + m[4:])
		}
	}
	return s
}

// stale: the value read by call from a buffer is out of date (the buffer was changed since).
func (r *reporter) stale(call BV) bool {
	k := "stale:" + r.vc.id(call) + ">"
	for _, m := range r.marks {
		if strings.HasPrefix(m, k) {
			return true
		}
	}
	return false
}

// unflushed: a compressing or buffering writer that forwards to the buffer has not been closed.
func (r *reporter) unflushed(ident string) bool {
	id := strings.TrimPrefix(ident, "buf:")
	for _, m := range r.marks {
		if strings.HasPrefix(m, "open:") && strings.HasSuffix(m, ">"+id) {
			return true
		}
	}
	return false
}

// reaches: b is the target, or a struct/closure that holds it.
func (it *Interp) reaches(t target, b BV) bool {
	if it.isTarget(t, b) {
		return true
	}
	r := it.vc.resolve(b)
	if mc, ok := r.v.(*ssa.MakeClosure); ok {
		return it.captures(t, mc, r.fr)
	}
	if al, ok := r.v.(*ssa.Alloc); ok {
		_, fields := allocStores(al)
		for _, fs := range fields {
			for _, st := range fs {
				if isWriterLike(st.Val.Type()) && it.isTarget(t, BV{st.Val, it.vc.frameOfStore(r.fr, st)}) {
					return true
				}
			}
		}
	}
	return false
}

// captures: a function literal has the output among its captured variables.
func (it *Interp) captures(t target, mc *ssa.MakeClosure, fr *Frame) bool {
	for _, x := range mc.Bindings {
		if al, ok := x.(*ssa.Alloc); ok {
			whole, _ := allocStores(al)
			for _, st := range whole {
				if isWriterLike(st.Val.Type()) && it.isTarget(t, BV{st.Val, it.vc.frameOfStore(fr, st)}) {
					return true
				}
			}
		}
		if _, ok := x.(*ssa.MakeClosure); !ok && it.reaches(t, BV{x, fr}) {
			return true
		}
	}
	return false
}

func isWriterLike(t types.Type) bool {
	s := t.String()
	return s == "io.Writer" || s == "*bytes.Buffer" || s == "*strings.Builder" || s == "io.WriteCloser" || strings.HasSuffix(s, "zlib.Writer") || strings.HasSuffix(s, "bufio.Writer") || types.IsInterface(t)
}

// emissionOp classifies a call as writing to a writer: the index of the writer operand (-1: invoke
// receiver) and the kind of write.
func emissionOp(cc *ssa.CallCommon, full string) (int, string) {
	switch full {
	case "fmt.Fprintf":
		return 0, "fprintf"
	case "fmt.Fprint":
		return 0, "fprint"
	case "fmt.Fprintln":
		return 0, "fprintln"
	case "io.WriteString":
		return 0, "str"
	case "io.Copy", "io.CopyN", "io.CopyBuffer":
		return 0, "copyfrom"
	case "encoding/binary.Write":
		return 0, "opaque"
	}
	if strings.HasPrefix(full, "(*bytes.Buffer).WriteTo") || full == "(*bytes.Reader).WriteTo" || full == "(*strings.Reader).WriteTo" {
		return 1, "copyto"
	}
	if cc.IsInvoke() {
		switch cc.Method.Name() {
		case "Write":
			if len(cc.Args) == 1 && isBytes(cc.Args[0].Type()) {
				return -1, "bytes"
			}
		case "WriteString":
			return -1, "str"
		case "WriteByte":
			return -1, "byte"
		case "Close":
			return -1, "close"
		}
		return 0, ""
	}
	for _, typ := range []string{"(*bytes.Buffer)", "(*strings.Builder)", "(*bufio.Writer)", "(*compress/zlib.Writer)", "(*compress/flate.Writer)", "(*os.File)"} {
		if !strings.HasPrefix(full, typ+".") {
			continue
		}
		switch full[len(typ)+1:] {
		case "Write":
			return 0, "bytes"
		case "WriteString":
			return 0, "str"
		case "WriteByte":
			return 0, "byte"
		case "WriteRune":
			return 0, "rune"
		case "ReadFrom":
			return 0, "copyfrom"
		case "Reset", "Truncate":
			return 0, "reset"
		case "Close":
			return 0, "close"
		case "Flush":
			return 0, "flush"
		}
	}
	return 0, ""
}

func (it *Interp) copySource(cc *ssa.CallCommon, fr *Frame) BV { return BV{cc.Args[0], fr} }

// varargs lists the arguments packed into a variadic slice, in order.
func (it *Interp) varargs(b BV) []BV {
	b = it.vc.resolve(b)
	sl, ok := b.v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	m := map[int64]BV{}
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			n, _ := constInt(ia.Index)
			for _, u := range *ia.Referrers() {
				if st, ok := u.(*ssa.Store); ok {
					m[n] = BV{st.Val, b.fr}
				}
			}
		}
	}
	out := make([]BV, len(m))
	for i := range out {
		out[i] = m[int64(i)]
	}
	return out
}

func (it *Interp) constStr(b BV) (string, bool) {
	k, ok := it.vc.evalConst(b, nil, 0)
	if !ok || k.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k), true
}
