package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// emission is the result of running the emission interpreter over every writer of the library.
type emission struct {
	p        *Prog
	vc       *valCtx
	objIface *types.Named
	objWrite string // method name of the object writer
	cacheW   string
	cacheIf  *types.Named
	liveObj  []*ssa.Function // write methods of live object types
	cacheFns []*ssa.Function
	objs     map[*ssa.Function]*emitRun
	contents map[*ssa.Function]*emitRun
}

type emitRun struct {
	fn     *ssa.Function
	r      *reporter
	it     *Interp
	finals []PS
}

func isIOWriter(t types.Type) bool { return t.String() == "io.Writer" }

// writerIface finds the interface whose method has the given signature shape.
func (p *Prog) writerIface(second func(types.Type) bool) (best *types.Named, bestM string) {
	sc := p.Root.Pkg.Scope()
	most := 0
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		it, ok := nt.Underlying().(*types.Interface)
		if !ok {
			continue
		}
		for i := 0; i < it.NumMethods(); i++ {
			m := it.Method(i)
			sg := m.Type().(*types.Signature)
			if sg.Params().Len() == 2 && isIOWriter(sg.Params().At(0).Type()) && second(sg.Params().At(1).Type()) && sg.Results().Len() == 1 && isErrorType(sg.Results().At(0).Type()) {
				if n := len(p.liveImpls(nt, m.Name())); n > most {
					best, bestM, most = nt, m.Name(), n
				}
			}
		}
	}
	return
}

// liveImpls lists the methods m of concrete types that are converted to iface somewhere.
func (p *Prog) liveImpls(iface *types.Named, m string) []*ssa.Function {
	live := map[string]types.Type{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mi, ok := ins.(*ssa.MakeInterface); ok && types.Identical(mi.Type(), iface) {
					live[tname(mi.X.Type())] = mi.X.Type()
				}
			}
		}
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, t := range live {
		sel := p.SSA.MethodSets.MethodSet(t).Lookup(p.Root.Pkg, m)
		if sel == nil {
			continue
		}
		f := p.unwrap(p.SSA.MethodValue(sel))
		if f != nil && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func recvName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		return strings.TrimPrefix(tname(deref(r.Type())), "*")
	}
	return fname(fn)
}

func (p *Prog) emission() *emission {
	if p.emitMemo != nil {
		return p.emitMemo
	}
	e := &emission{p: p, vc: newValCtx(p), objs: map[*ssa.Function]*emitRun{}, contents: map[*ssa.Function]*emitRun{}}
	p.emitMemo = e
	e.objIface, e.objWrite = p.writerIface(func(t types.Type) bool { return types.Identical(t, types.Typ[types.Int]) })
	e.cacheIf, e.cacheW = p.writerIface(func(t types.Type) bool { return p.isProtection(t) })
	if e.objIface != nil {
		e.liveObj = p.liveImpls(e.objIface, e.objWrite)
	}
	if e.cacheIf != nil {
		e.cacheFns = p.liveImpls(e.cacheIf, e.cacheW)
	}
	for _, f := range e.liveObj {
		e.objs[f] = e.runObj(f)
	}
	for _, f := range e.cacheFns {
		e.contents[f] = e.runContent(f)
	}
	return e
}

func (e *emission) start(fn *ssa.Function, ps parser) *emitRun {
	r := newReporter(e.p, e.vc, recvName(fn))
	it := newInterp(e.p, e.vc, r)
	fr := e.vc.root(fn)
	var w ssa.Value
	for _, q := range fn.Params {
		if isIOWriter(q.Type()) {
			w = q
		}
	}
	run := &emitRun{fn: fn, r: r, it: it}
	if w == nil {
		r.report("unresolved", "no writer parameter")
		return run
	}
	fin := it.run(fr, target{BV{w, fr}}, []PS{{m: Mach{mode: ' ', ps: ps}}}, nil)
	r.fn, r.pos = fname(fn), e.p.pos(fn.Pos())
	for _, s := range fin {
		m, ok := s.m.finish(r)
		if !ok {
			continue
		}
		run.finals = append(run.finals, s.with(m))
	}
	if len(run.finals) == 0 && len(r.findings) == 0 {
		r.report("unresolved", "no error-free path through the writer was found")
	}
	return run
}

func (e *emission) runObj(fn *ssa.Function) *emitRun {
	run := e.start(fn, &objParser{})
	r := run.r
	for _, s := range run.finals {
		o := s.m.ps.(*objParser)
		switch {
		case o.phase == 0 && len(o.stack) == 0:
			r.report("syntax", "an error-free path writes an empty object body")
		case o.phase == 0:
			r.report("syntax", "an error-free path leaves %d dictionary or array delimiter(s) open (%s)", len(o.stack), o.path())
		case o.phase == 2:
			r.report("syntax", "an error-free path leaves the stream open")
		}
	}
	return run
}

func (e *emission) runContent(fn *ssa.Function) *emitRun {
	run := e.start(fn, &contentParser{flips: "1"})
	r := run.r
	for _, s := range run.finals {
		c := s.m.ps.(*contentParser)
		switch {
		case c.ops != "":
			r.report("content", "an error-free path ends with operands %q but no operator", c.ops)
		case c.arr > 0:
			r.report("content", "an error-free path leaves an array operand open")
		case c.text:
			r.report("content", "an error-free path leaves a text object (BT) open")
		case c.path != 0:
			r.report("content", "an error-free path leaves a path that is neither painted nor ended")
		}
		if len(c.flips) > 0 && c.flips[len(c.flips)-1] != '1' {
			r.report("flip", "an error-free path leaves a transformation after which points are no longer measured from the bottom of the page")
		}
	}
	return run
}

func (r *reporter) list(kinds ...string) []emitFinding {
	var out []emitFinding
	for _, f := range r.findings {
		for _, k := range kinds {
			if f.kind == k {
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

func dumpEmission(p *Prog) {
	e := p.emission()
	fmt.Println("object interface", e.objIface, e.objWrite, "content", e.cacheIf, e.cacheW)
	show := func(fns []*ssa.Function, m map[*ssa.Function]*emitRun) {
		for _, f := range fns {
			run := m[f]
			fmt.Printf("== %s: finals %d steps %d funcs %d events %d\n", fname(f), len(run.finals), run.it.steps, len(run.it.funcs), run.r.events)
			seen := map[string]bool{}
			for _, s := range run.finals {
				var k string
				switch o := s.m.ps.(type) {
				case *objParser:
					k = fmt.Sprintf("   ph%d %s keys=%v len=%s body=%s", o.phase, o.top, o.keys, o.lenID, o.body_)
				case *contentParser:
					k = fmt.Sprintf("   q=%d", o.q)
				}
				if !seen[k] && len(seen) < 12 {
					seen[k] = true
					fmt.Println(k)
				}
			}
			for _, x := range run.r.list("syntax", "escape", "content", "length", "unresolved") {
				fmt.Printf("   !! %s %s %s: %s\n", x.kind, x.pos, x.fn, x.msg)
			}
		}
	}
	show(e.liveObj, e.objs)
	show(e.cacheFns, e.contents)
}

// dumpRefs prints the reference, name and string sites (development aid).
func dumpRefs(p *Prog) {
	e := p.emission()
	show := func(fns []*ssa.Function, m map[*ssa.Function]*emitRun) {
		for _, f := range fns {
			r := m[f].r
			fmt.Println("==", fname(f))
			var out []string
			for _, x := range r.refs {
				s := fmt.Sprintf("   ref %s %s lit=%d", x.pos, x.path, x.lit)
				if x.src.v != nil {
					s += fmt.Sprintf(" src=%s: %s in %s", x.src.v.Name(), x.src.v, x.src.v.Parent())
				}
				out = append(out, s)
			}
			for _, x := range r.names {
				s := fmt.Sprintf("   name %s %s %q key=%v", x.pos, x.path, x.text, x.resource)
				for _, b := range x.srcs {
					s += fmt.Sprintf(" src=%s: %s", b.v.Name(), b.v)
				}
				out = append(out, s)
			}
			for _, x := range r.strs {
				s := fmt.Sprintf("   str %s %s prot=%d hex=%v", x.pos, x.path, x.prot, x.hex)
				for _, b := range x.srcs {
					s += fmt.Sprintf(" src=%s: %s", b.v.Name(), b.v)
				}
				out = append(out, s)
			}
			sort.Strings(out)
			for _, s := range out {
				fmt.Println(s)
			}
		}
	}
	show(e.liveObj, e.objs)
	show(e.cacheFns, e.contents)
}
