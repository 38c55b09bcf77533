package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["O01"] = checkO01
}

func checkO01(p *Prog) *Result {
	res := newResult("forward dataflow of every error result: it must be shown nil, reported by the function's own error result, or recorded by a writer that remembers its first error and is asked for it before the call succeeds",
		"bytes.Buffer, strings.Builder and hashes never fail; closing a file that was only read cannot lose data",
		"an exported function without an error result cannot report (its callers inside the library are expected to use the variant that can)")
	ef := newErrFlow(p, res)
	fns := 0
	live := p.reach(p.publicFuncs()...)
	for _, f := range p.takenFuncs() {
		for g := range p.reach(f) {
			live[g] = true
		}
	}
	for _, f := range p.Funcs {
		fns++
		if !live[f] {
			res.Counts["functions nothing calls (skipped)"]++
			continue
		}
		for _, l := range ef.function(f) {
			res.add(l.rule, fname(f), l.construct, p.insPos(l.at), "%s", l.msg)
		}
	}
	// a writer that remembers its error must be asked for it
	sticky := 0
	for _, n := range p.namedTypes() {
		i, ok := ef.sticky(n)
		if !ok {
			continue
		}
		sticky++
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					var v ssa.Value
					switch x := ins.(type) {
					case *ssa.Alloc:
						if deref(x.Type()) == types.Type(n) {
							v = x
						}
					case *ssa.Call:
						if deref(x.Type()) == types.Type(n) && x.Type() != types.Type(n) {
							v = x
						}
					}
					if v == nil || returnsValue(f, v) {
						continue
					}
					ef.asked(f, n, i, res)
				}
			}
		}
	}
	// inside the library an exported function that cannot report is not used where it hides a failure
	hide := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if errIndex(f.Signature) < 0 && ef.exportedNoError(f) {
			sub := newErrFlow(p, res)
			k := 0
			sub.function(f)
			k = sub.exc["the public call has no error result"]
			if k > 0 {
				hide[f] = true
			}
		}
	}
	for again := true; again; {
		again = false
		for g, es := range p.graph() {
			for _, e := range es {
				if hide[e.callee] && !hide[g] && ef.exportedNoError(g) {
					hide[g] = true
					again = true
				}
			}
		}
	}
	names := []string{}
	for f := range hide {
		names = append(names, fname(f))
		for g, es := range p.graph() {
			for _, e := range es {
				if e.callee == f && !hide[g] {
					res.add("hidden", fname(g), fname(f), p.insPos(e.site), "%s cannot report the failures inside it and is called here, inside the library", fname(f))
				}
			}
		}
	}
	sort.Strings(names)
	for _, n := range names {
		res.sample("cannot report: %s", n)
	}
	for w, n := range ef.exc {
		res.Counts["errors accepted: "+w] = n
	}
	res.floor("functions", fns, 400)
	res.floor("calls with an error result", ef.calls, 400)
	res.floor("writers that remember their first error", sticky, 0)
	return res
}

func returnsValue(f *ssa.Function, v ssa.Value) bool {
	for _, r := range returnsOf(f) {
		for _, x := range retVals(r) {
			if x == v {
				return true
			}
		}
	}
	return false
}

// asked: every return of f that can be taken without an error gives the remembered error.
func (ef *errFlow) asked(f *ssa.Function, n *types.Named, field int, res *Result) {
	ei := errIndex(f.Signature)
	for _, r := range returnsOf(f) {
		if ei < 0 {
			res.add("forgotten", fname(f), n.Obj().Name(), ef.p.insPos(r), "the error remembered by the %s made in this function is never asked for", n.Obj().Name())
			return
		}
		v := retVals(r)[ei]
		if ef.definitelyErr(v, r.Block(), 0) || ef.loadsField(v, n, field, 0) {
			continue
		}
		// before any write the writer has nothing to remember
		if !ef.madeBefore(f, n, r) {
			continue
		}
		res.add("forgotten", fname(f), n.Obj().Name(), ef.p.insPos(r), "this return can report success without asking the %s for the error it remembers", n.Obj().Name())
	}
}

func (ef *errFlow) loadsField(v ssa.Value, n *types.Named, field, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return fkey(fa.X.Type(), fa.Field) == fkey(n, field)
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			whole, _ := allocStores(al)
			for _, st := range whole {
				if !ef.loadsField(st.Val, n, field, depth+1) {
					return false
				}
			}
			return len(whole) > 0
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !ef.loadsField(e, n, field, depth+1) && !ef.definitelyErr(e, x.Block().Preds[i], 0) && !nonNilOnEdge(e, x.Block().Preds[i], x.Block()) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || f.Blocks == nil || !ef.p.owns(f) {
			return false
		}
		ei := errIndex(f.Signature)
		if ei < 0 {
			return false
		}
		for _, r := range returnsOf(f) {
			v := retVals(r)[ei]
			if !ef.loadsField(v, n, field, depth+1) && !ef.definitelyErr(v, r.Block(), 0) {
				return false
			}
		}
		return true
	}
	return false
}

// madeBefore: the writer exists where r returns.
func (ef *errFlow) madeBefore(f *ssa.Function, n *types.Named, r *ssa.Return) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || deref(v.Type()) != types.Type(n) {
				continue
			}
			if reachesIns(ins, r) {
				return true
			}
		}
	}
	return false
}
