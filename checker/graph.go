package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// edge is one possible call.
type edge struct {
	site   ssa.CallInstruction
	callee *ssa.Function
}

// graph gives the calls of every analysed function: static calls, interface calls (every analysed
// implementation), calls of function values (every analysed function of the same signature whose
// value is taken somewhere), and closures created (they may run while the creator runs).
func (p *Prog) graph() map[*ssa.Function][]edge {
	if p.graphMemo != nil {
		return p.graphMemo
	}
	g := map[*ssa.Function][]edge{}
	p.graphMemo = g
	taken := p.takenFuncs()
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				for _, f := range p.calleesAt(ci, taken) {
					g[fn] = append(g[fn], edge{ci, f})
				}
			}
		}
	}
	return g
}

// takenFuncs lists the analysed functions used as values.
func (p *Prog) takenFuncs() []*ssa.Function {
	if p.takenMemo != nil {
		return p.takenMemo
	}
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(v ssa.Value) {
		f, ok := v.(*ssa.Function)
		if !ok || seen[f] {
			return
		}
		f2 := f
		if f.Synthetic != "" {
			f2 = p.unwrap(f)
		}
		if f2 != nil && f2.Blocks != nil && p.owns(f2) && !seen[f2] {
			seen[f2] = true
			out = append(out, f2)
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					add(mc.Fn)
				}
				var callee ssa.Value
				if ci, ok := ins.(ssa.CallInstruction); ok && !ci.Common().IsInvoke() {
					callee = ci.Common().Value
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && (*op != callee || !isCallOp(ins, op)) {
						add(*op)
					}
				}
			}
		}
	}
	p.takenMemo = out
	return out
}

func isCallOp(ins ssa.Instruction, op *ssa.Value) bool {
	ci, ok := ins.(ssa.CallInstruction)
	return ok && op == &ci.Common().Value
}

func (p *Prog) calleesAt(ci ssa.CallInstruction, taken []*ssa.Function) []*ssa.Function {
	cc := ci.Common()
	if f := cc.StaticCallee(); f != nil {
		if f.Synthetic != "" && f.Blocks != nil {
			if u := p.unwrap(f); u != nil {
				f = u
			}
		}
		if f.Blocks != nil && p.owns(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	if cc.IsInvoke() {
		return p.implsOf(cc)
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok {
		return nil
	}
	sig, ok := cc.Value.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range taken {
		if types.Identical(sigNoRecv(f.Signature), sigNoRecv(sig)) {
			out = append(out, f)
		}
	}
	return out
}

func sigNoRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// reach is the set of functions reachable from the starts (included).
func (p *Prog) reach(starts ...*ssa.Function) map[*ssa.Function]bool {
	g := p.graph()
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, e := range g[f] {
			rec(e.callee)
		}
	}
	for _, f := range starts {
		rec(f)
	}
	return seen
}

// reachers is the set of functions from which a target is reachable (targets included).
func (p *Prog) reachers(targets ...*ssa.Function) map[*ssa.Function]bool {
	g := p.graph()
	rev := map[*ssa.Function][]*ssa.Function{}
	for f, es := range g {
		for _, e := range es {
			rev[e.callee] = append(rev[e.callee], f)
		}
	}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, c := range rev[f] {
			rec(c)
		}
	}
	for _, f := range targets {
		rec(f)
	}
	return seen
}
