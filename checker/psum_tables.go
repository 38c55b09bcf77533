package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops that run a known number of times are gone through one time after the other, and tables of the package that
// are never changed have the values they are made with.

type punroll struct {
	n    int
	base string
	body map[*ssa.BasicBlock]bool
}

const maxUnroll = 64

// counting describes the header of a loop "for i := a; i < n; i += c".
func counting(h *ssa.BasicBlock) (ph *ssa.Phi, bound ssa.Value, off, step int64, ok bool) {
	if len(h.Instrs) == 0 {
		return
	}
	br, is := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !is {
		return
	}
	c, is := br.Cond.(*ssa.BinOp)
	if !is || c.Op != token.LSS || c.Block() != h {
		return
	}
	plus := func(v ssa.Value) (*ssa.Phi, int64, bool) {
		if p, ok := v.(*ssa.Phi); ok {
			return p, 0, true
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if p, ok := b.X.(*ssa.Phi); ok {
				if k, ok := constInt(b.Y); ok {
					return p, k, true
				}
			}
		}
		return nil, 0, false
	}
	ph, off, is = plus(c.X)
	if !is || ph.Block() != h {
		return
	}
	body := loopBody(h)
	if !body[h.Succs[0]] || body[h.Succs[1]] {
		return
	}
	if ins, is := c.Y.(ssa.Instruction); is && body[ins.Block()] && ins.Block() != h {
		return
	}
	for i, pb := range h.Preds {
		if !h.Dominates(pb) {
			continue
		}
		q, k, is := plus(ph.Edges[i])
		if !is || q != ph || k <= 0 || step != 0 && step != k {
			return
		}
		step = k
	}
	return ph, c.Y, off, step, step > 0
}

// countable: the loop runs a number of times that is known from its code alone.
func countable(h *ssa.BasicBlock) bool {
	_, bound, _, _, ok := counting(h)
	if !ok {
		return false
	}
	if k, ok := constInt(bound); ok {
		return k <= maxUnroll
	}
	c, ok := bound.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return false
	}
	if sl, ok := c.Call.Args[0].(*ssa.Slice); ok {
		_, ok := sl.X.(*ssa.Alloc)
		return ok && sl.Low == nil && sl.High == nil
	}
	return false
}

// openLoops: a function with a loop that may run any number of times.
func openLoops(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		if isHeader(b) && !countable(b) {
			return true
		}
	}
	return false
}

// unrolls: the loop is entered, and the number of times it runs is known.
func (s *psum) unrolls(fr *pframe, h *ssa.BasicBlock, phis map[*ssa.Phi]*nd, st *pst) bool {
	ph, bound, off, step, ok := counting(h)
	if !ok || phis[ph] == nil || !phis[ph].isNum() {
		return false
	}
	b := s.peek(fr, st, bound, h)
	return b != nil && b.isNum() && (b.k-off-phis[ph].k)/step <= maxUnroll
}

// peek works out a bound that is computed anew at the head of the loop, before going there.
func (s *psum) peek(fr *pframe, st *pst, v ssa.Value, h *ssa.BasicBlock) *nd {
	if ins, ok := v.(ssa.Instruction); !ok || ins.Block() != h {
		return s.get(fr, st, v)
	}
	switch x := v.(type) {
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if _, isMap := x.Call.Args[0].Type().Underlying().(*types.Map); !isMap {
				if a := s.peek(fr, st, x.Call.Args[0], h); a != nil {
					return s.length(a)
				}
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if a := s.peek(fr, st, x.X, h); a != nil {
				return s.load(st, a, x.Type())
			}
		}
	case *ssa.FieldAddr:
		if a := s.peek(fr, st, x.X, h); a != nil {
			return s.fieldAddr(a, x.X.Type(), x.Field)
		}
	case *ssa.Field:
		if a := s.peek(fr, st, x.X, h); a != nil {
			return s.fieldOf(a, x.X.Type(), x.Field)
		}
	}
	return nil
}

func (s *psum) leaveUnrolled(fr *pframe, b *ssa.BasicBlock) {
	out := ""
	left := false
	for h, u := range fr.unrolled {
		if !u.body[b] {
			if !left || len(u.base) < len(out) {
				out = u.base
			}
			left = true
			delete(fr.unrolled, h)
		}
	}
	if left {
		fr.id = out
	}
}

// ---------------------------------------------------------------- tables

// tables gives the package's tables that are never changed.
type tables struct {
	p  *Prog
	ce *ceval
	ok map[*ssa.Global]int
}

func (t *tables) global(name string) *ssa.Global {
	name = strings.TrimPrefix(name, "G:")
	if !strings.HasPrefix(name, t.p.Root.Pkg.Path()+".") {
		return nil
	}
	g, _ := t.p.Root.Members[name[strings.LastIndexByte(name, '.')+1:]].(*ssa.Global)
	if g == nil {
		return nil
	}
	if t.ok == nil {
		t.ok = map[*ssa.Global]int{}
	}
	if t.ok[g] == 0 {
		t.ok[g] = 1
		if !t.p.onlyRead(g) {
			t.ok[g] = 2
		}
	}
	if t.ok[g] == 2 {
		return nil
	}
	return g
}

// onlyRead: outside of the initialisation of variables a package variable is only looked into.
func (p *Prog) onlyRead(g *ssa.Global) bool {
	looked := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Lookup:
				if x.X != v {
					return false
				}
			case *ssa.Range, *ssa.Index, *ssa.DebugRef:
			case *ssa.IndexAddr:
				for _, r2 := range *x.Referrers() {
					if u, ok := r2.(*ssa.UnOp); !ok || u.Op != token.MUL {
						return false
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, f := range p.Funcs {
		if f.Synthetic != "" && f.Name() == "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					switch x := ins.(type) {
					case *ssa.UnOp:
						if x.Op != token.MUL {
							return false
						}
						switch x.Type().Underlying().(type) {
						case *types.Map, *types.Slice, *types.Array:
							if !looked(x) {
								return false
							}
						case *types.Basic:
						default:
							return false
						}
					case *ssa.IndexAddr: // an array
						for _, r2 := range *x.Referrers() {
							if u, ok := r2.(*ssa.UnOp); !ok || u.Op != token.MUL {
								return false
							}
						}
					case *ssa.DebugRef:
					default:
						return false
					}
				}
			}
		}
	}
	return true
}

// look works out what is read from a table.
func (t *tables) look(n *nd) *nd {
	var of func(x *nd) cval
	of = func(x *nd) cval {
		switch {
		case strings.HasPrefix(x.op, "G:") || x.op == "atom" && strings.HasPrefix(x.s, "G:") || len(x.a) == 0 && strings.HasPrefix(x.s, "G:"):
			if g := t.global(x.s); g != nil {
				return t.ce.global(g).v
			}
		case strings.HasPrefix(x.op, "ld") && len(x.a) == 1:
			return of(x.a[0])
		case strings.HasPrefix(x.op, "map") && len(x.a) == 1:
			return of(x.a[0])
		}
		return nil
	}
	switch {
	case (n.op == "has" || n.op == "get") && len(n.a) == 2:
		m, ok := of(n.a[0]).(cMapRef)
		if !ok {
			return nil
		}
		var key cval
		if x, ok := litText(n.a[1]); ok {
			key = cStr(x)
		} else if n.a[1].isNum() {
			key = cNum{k: float64(n.a[1].k)}
		} else {
			return nil
		}
		i, has := m.m.at[cKey(key)]
		if n.op == "has" {
			return ndBool(has)
		}
		if has {
			return ndOf(m.m.vals[i], n.typ)
		}
	case n.op == "elem" && len(n.a) == 2 && n.a[1].isNum():
		if sl, ok := of(n.a[0]).(cSlice); ok {
			if vs, ok := sl.obj.v.(cStruct); ok && n.a[1].k >= 0 && int(n.a[1].k) < sl.len && sl.off+int(n.a[1].k) < len(vs) {
				return ndOf(vs[sl.off+int(n.a[1].k)], n.typ)
			}
		}
	case n.op == "len" && len(n.a) == 1:
		switch x := of(n.a[0]).(type) {
		case cSlice:
			return ndNum(int64(x.len))
		}
	case strings.HasPrefix(n.op, "ld") && len(n.a) == 1:
		switch x := of(n.a[0]).(type) {
		case cStr, cNum, cBool:
			return ndOf(x, n.typ)
		}
	}
	return nil
}

// ndOf gives a constant as a term.
func ndOf(c cval, t types.Type) *nd {
	switch x := c.(type) {
	case cStr:
		n := ndLit(string(x))
		n.typ = t
		return n
	case cBool:
		return ndBool(bool(x))
	case cNum:
		if x.pow != "" {
			return nil
		}
		if t != nil && isFloat(t) {
			n := ndAtom("c:" + constant.MakeFloat64(x.k).ExactString())
			n.typ = t
			return n
		}
		if x.k == math.Trunc(x.k) && math.Abs(x.k) < 1e15 {
			return ndNum(int64(x.k))
		}
	}
	return nil
}
