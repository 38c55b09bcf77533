package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["O08"] = checkO08
}

// sameObj: v denotes the object o (through local variables, captures, conversions).
func sameObj(v, o ssa.Value, depth int) bool {
	if v == o {
		return true
	}
	if depth > 10 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return sameObj(x.X, o, depth+1)
	case *ssa.ChangeInterface:
		return sameObj(x.X, o, depth+1)
	case *ssa.ChangeType:
		return sameObj(x.X, o, depth+1)
	case *ssa.FreeVar:
		b := bindingOf(x)
		return b != nil && sameObj(b, o, depth+1)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return false
		}
		c := x.X
		if fv, ok := c.(*ssa.FreeVar); ok {
			c = bindingOf(fv)
		}
		if al, ok := c.(*ssa.Alloc); ok {
			whole, _ := allocStores(al)
			return len(whole) == 1 && sameObj(whole[0].Val, o, depth+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !sameObj(e, o, depth+1) {
				return false
			}
		}
		return len(x.Edges) > 0
	}
	return false
}

type pipeCheck struct {
	p       *Prog
	res     *Result
	closing map[string]bool
	closes  int
	bufs    int
}

// mustOn computes whether on every path from the start of fn to each of its returns an instruction
// with the effect runs (deferred effects count from the defer on). Paths that panic do not count.
func mustOn(fn *ssa.Function, start ssa.Instruction, effect func(ins ssa.Instruction) bool) (bad *ssa.Return) {
	done := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) *ssa.Return
	walk = func(b *ssa.BasicBlock, i int) *ssa.Return {
		for ; i < len(b.Instrs); i++ {
			if effect(b.Instrs[i]) {
				return nil
			}
			if r, ok := b.Instrs[i].(*ssa.Return); ok {
				return r
			}
		}
		for _, s := range b.Succs {
			if done[s] {
				continue
			}
			done[s] = true
			if r := walk(s, 0); r != nil {
				return r
			}
		}
		return nil
	}
	if start == nil {
		return walk(fn.Blocks[0], 0)
	}
	for i, ins := range start.Block().Instrs {
		if ins == start {
			return walk(start.Block(), i+1)
		}
	}
	return nil
}

// bodyOf: the function a call runs and how it names the object o: a predicate on its values.
func (pc *pipeCheck) bodyOf(c ssa.CallInstruction, o ssa.Value) (*ssa.Function, func(ssa.Value) bool) {
	cc := c.Common()
	var f *ssa.Function
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		f = mc.Fn.(*ssa.Function)
	} else {
		f = cc.StaticCallee()
	}
	if f == nil || f.Blocks == nil || !pc.p.owns(f) {
		return nil, nil
	}
	param := map[ssa.Value]bool{}
	for i, a := range cc.Args {
		if i < len(f.Params) && sameObj(a, o, 0) {
			param[f.Params[i]] = true
		}
	}
	return f, func(v ssa.Value) bool {
		if f.Parent() != nil && sameObj(v, o, 0) {
			return true
		}
		for pr := range param {
			if sameObj(v, pr, 0) {
				return true
			}
		}
		return false
	}
}

// does: the instruction has the effect on the object itself, or calls a function that has it on every path.
func (pc *pipeCheck) does(ins ssa.Instruction, is func(ssa.Value) bool, direct func(c *ssa.CallCommon) bool, depth int) bool {
	c, ok := ins.(ssa.CallInstruction)
	if !ok || depth > 5 {
		return false
	}
	if _, isGo := ins.(*ssa.Go); isGo {
		return false
	}
	cc := c.Common()
	for _, a := range append([]ssa.Value{cc.Value}, cc.Args...) {
		if a != nil && is(a) && direct(cc) {
			return true
		}
	}
	var f *ssa.Function
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		f = mc.Fn.(*ssa.Function)
	} else {
		f = cc.StaticCallee()
	}
	if f == nil || f.Blocks == nil || !pc.p.owns(f) {
		return false
	}
	params := map[ssa.Value]bool{}
	for i, a := range cc.Args {
		if i < len(f.Params) && is(a) {
			params[f.Params[i]] = true
		}
	}
	if len(params) == 0 && f.Parent() == nil {
		return false
	}
	inner := func(v ssa.Value) bool {
		if f.Parent() != nil && is(v) {
			return true
		}
		for pr := range params {
			if sameObj(v, pr, 0) {
				return true
			}
		}
		return false
	}
	return mustOn(f, nil, func(i ssa.Instruction) bool { return pc.does(i, inner, direct, depth+1) }) == nil
}

func closesPipe(c *ssa.CallCommon) bool {
	n := fullCallee(c)
	return n == "(*io.PipeWriter).Close" || n == "(*io.PipeWriter).CloseWithError" || c.IsInvoke() && c.Method.Name() == "Close"
}

func drains(c *ssa.CallCommon) bool {
	switch fullCallee(c) {
	case "io.ReadAll", "io.Copy", "io/ioutil.ReadAll", "(*bytes.Buffer).ReadFrom",
		"(*io.PipeReader).Close", "(*io.PipeReader).CloseWithError":
		return true
	}
	return c.IsInvoke() && c.Method.Name() == "Close"
}

func checkO08(p *Prog) *Result {
	res := newResult("typestate of every pipe: the writing goroutine closes its end on every path with the failure of every encoding step handed over, a buffered writer in front of it is flushed before, and the reading side reads to the end or closes on every path",
		"a failure inside the encoder is reported by its error result, not by a panic")
	pc := &pipeCheck{p: p, res: res}
	pipes := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				switch fullCallee(&c.Call) {
				case "io.Pipe":
					pipes++
					pc.pipe(f, c)
				case "bufio.NewWriter", "bufio.NewWriterSize":
					pc.buffered(f, c)
				}
			}
		}
	}
	res.floor("pipes", pipes, 0)
	res.floor("closing points", pc.closes, 0)
	res.floor("buffered writers", pc.bufs, 0)
	if pipes == 0 {
		res.sample("no pipe is created anywhere: image values are encoded without a background goroutine")
	}
	res.floor("functions scanned", len(p.Funcs), 400)
	return res
}

func (pc *pipeCheck) pipe(f *ssa.Function, c *ssa.Call) {
	p, res := pc.p, pc.res
	var r, w ssa.Value
	for _, u := range *c.Referrers() {
		if ex, ok := u.(*ssa.Extract); ok {
			if ex.Index == 0 {
				r = ex
			} else {
				w = ex
			}
		}
	}
	if r == nil || w == nil {
		res.add("unused", fname(f), "pipe", p.insPos(c), "one end of the pipe is not used")
		return
	}
	// the goroutine that writes
	var gos []*ssa.Go
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if g, ok := ins.(*ssa.Go); ok {
				body, is := pc.bodyOf(g, w)
				if body == nil {
					continue
				}
				if usesObj(body, is) {
					gos = append(gos, g)
					pc.writer(f, g, body, is)
				}
			}
		}
	}
	if len(gos) != 1 {
		res.add("undecided", fname(f), "pipe", p.insPos(c), "%d goroutines use the writing end of this pipe; this rule expects one", len(gos))
		return
	}
	// the reading side
	isR := func(v ssa.Value) bool { return overReader(v, r, 0) }
	if bad := mustOn(f, gos[0], func(ins ssa.Instruction) bool { return pc.does(ins, isR, drains, 0) }); bad != nil {
		res.add("abandoned", fname(f), "reading end", p.insPos(bad), "this return is reached after the goroutine was started without reading the pipe to its end or closing it: the goroutine blocks forever")
	}
	// and nobody reads before the goroutine is started
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok && ci != ssa.CallInstruction(gos[0]) {
				if pc.does(ins, isR, drains, 0) && dominates(ins, gos[0]) {
					res.add("order", fname(f), "reading end", p.insPos(ins), "the pipe is read before the goroutine that writes it is started")
				}
			}
		}
	}
}

// overReader: v is r or a buffered reader over it.
func overReader(v, r ssa.Value, depth int) bool {
	if sameObj(v, r, 0) {
		return true
	}
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Call:
		n := fullCallee(&x.Call)
		if strings.HasPrefix(n, "bufio.NewReader") || n == "io.TeeReader" {
			return overReader(x.Call.Args[0], r, depth+1)
		}
	case *ssa.MakeInterface:
		return overReader(x.X, r, depth+1)
	case *ssa.ChangeInterface:
		return overReader(x.X, r, depth+1)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			whole, _ := allocStores(al)
			return len(whole) == 1 && overReader(whole[0].Val, r, depth+1)
		}
	}
	return false
}

func usesObj(f *ssa.Function, is func(ssa.Value) bool) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op != nil && is(*op) {
					return true
				}
			}
		}
	}
	return false
}

// writer judges the function of the goroutine.
func (pc *pipeCheck) writer(f *ssa.Function, g *ssa.Go, body *ssa.Function, is func(ssa.Value) bool) {
	p, res := pc.p, pc.res
	if bad := mustOn(body, nil, func(ins ssa.Instruction) bool { return pc.does(ins, is, closesPipe, 0) }); bad != nil {
		res.add("open", fname(body), "writing end", p.insPos(bad), "the goroutine ends here without closing its end of the pipe: the reader waits forever")
	}
	// failures are handed over: at every close, no error may be open except the one passed
	pc.handed(body, is, map[*ssa.Function]bool{})
}

// handed follows the functions that close the pipe.
func (pc *pipeCheck) handed(body *ssa.Function, is func(ssa.Value) bool, seen map[*ssa.Function]bool) {
	if seen[body] {
		return
	}
	seen[body] = true
	p, res := pc.p, pc.res
	ef := newErrFlow(p, res)
	lost := map[ssa.Instruction]ssa.Instruction{}
	visited := map[ssa.Instruction]bool{}
	ef.onCall = func(c ssa.CallInstruction, st oblig) {
		cc := c.Common()
		hit := false
		for _, a := range append([]ssa.Value{cc.Value}, cc.Args...) {
			hit = hit || a != nil && is(a)
		}
		if !hit || !closesPipe(cc) {
			return
		}
		visited[c] = true
		if _, deferred := c.(*ssa.Defer); deferred {
			return // judged below: it runs after everything else
		}
		for k, org := range st {
			if len(cc.Args) > 1 {
				if cell(cc.Args[1]) == k || ef.definitelyErr(cc.Args[1], c.Block(), 0) {
					continue
				}
			}
			lost[c] = org
		}
	}
	for _, l := range ef.function(body) {
		if l.rule == "overwritten" {
			res.add("failure lost", fname(body), l.construct, p.insPos(l.at), "%s", l.msg)
		}
	}
	pc.closes += len(visited)
	for c, org := range lost {
		res.add("failure lost", fname(body), callLabelOf(org), p.insPos(c), "the pipe is closed here although %s may have failed: the reader takes the truncated image for complete", callLabelOf(org))
	}
	for _, b := range body.Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok {
				continue
			}
			cc := d.Common()
			if len(cc.Args) > 0 && is(cc.Args[0]) && closesPipe(cc) {
				// a deferred plain Close after a failure: only the first close counts, so every failing
				// path must have handed its error over before
				for _, l := range newErrFlow(p, res).function(body) {
					if l.rule == "lost" || l.rule == "dropped" {
						res.add("failure lost", fname(body), l.construct, p.insPos(l.at), "the pipe is closed without an error after this: %s", l.msg)
					}
				}
			}
		}
	}
	for _, l := range newErrFlow(p, res).function(body) {
		if l.rule == "dropped" {
			res.add("failure lost", fname(body), l.construct, p.insPos(l.at), "%s", l.msg)
		}
	}
	// helpers the writer is handed to
	for _, b := range body.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			cc := c.Common()
			var h *ssa.Function
			if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
				h = mc.Fn.(*ssa.Function)
			} else {
				h = cc.StaticCallee()
			}
			if h == nil || h.Blocks == nil || !p.owns(h) {
				continue
			}
			params := map[ssa.Value]bool{}
			for i, a := range cc.Args {
				if i < len(h.Params) && is(a) {
					params[h.Params[i]] = true
				}
			}
			if len(params) == 0 && h.Parent() == nil {
				continue
			}
			pc.handed(h, func(v ssa.Value) bool {
				if h.Parent() != nil && is(v) {
					return true
				}
				for pr := range params {
					if sameObj(v, pr, 0) {
						return true
					}
				}
				return false
			}, seen)
		}
	}
}

// buffered: what was written to a buffered writer is flushed before its pipe is closed, and before the
// function that made it reports success.
func (pc *pipeCheck) buffered(f *ssa.Function, c *ssa.Call) {
	p, res := pc.p, pc.res
	pc.bufs++
	isB := func(v ssa.Value) bool { return sameObj(v, c, 0) }
	under := c.Call.Args[0]
	isW := func(v ssa.Value) bool {
		u := under
		if mi, ok := u.(*ssa.MakeInterface); ok {
			u = mi.X
		}
		return v == u || sameObj(v, u, 0) || loadsSame(v, u)
	}
	const (
		clean = 1
		dirty = 2
	)
	in := map[*ssa.BasicBlock]int{c.Block(): clean}
	work := []*ssa.BasicBlock{c.Block()}
	ei := errIndex(f.Signature)
	ef := newErrFlow(p, res)
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		st := in[b]
		from := b != c.Block()
		for _, ins := range b.Instrs {
			if ins == ssa.Instruction(c) {
				from = true
				continue
			}
			if !from {
				continue
			}
			if ci, ok := ins.(ssa.CallInstruction); ok {
				cc := ci.Common()
				isFlush := fullCallee(cc) == "(*bufio.Writer).Flush" && isB(cc.Args[0])
				_, deferred := ins.(*ssa.Defer)
				if isFlush {
					if !deferred {
						st = clean
					}
					continue
				}
				touched := false
				for _, a := range cc.Args {
					touched = touched || isB(a)
				}
				if touched {
					st = dirty
				}
				if closesPipe(cc) && !deferred && st&dirty != 0 {
					for _, a := range append([]ssa.Value{cc.Value}, cc.Args...) {
						if a != nil && isW(a) {
							if len(cc.Args) > 1 && ef.definitelyErr(cc.Args[1], ins.Block(), 0) {
								continue
							}
							res.add("unflushed", fname(f), "buffered writer", p.insPos(ins), "the destination is closed here while the buffered writer over it still holds data: the image is truncated")
						}
					}
				}
			}
			if r, ok := ins.(*ssa.Return); ok && st&dirty != 0 && b != f.Recover {
				if ei >= 0 && ef.definitelyErr(retVals(r)[ei], b, 0) {
					continue
				}
				if returnsValue(f, c) {
					continue
				}
				res.add("unflushed", fname(f), "buffered writer", p.insPos(ins), "this return can report success while the buffered writer still holds data")
			}
		}
		for i, s := range b.Succs {
			ns := st
			if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && b.Succs[0] != b.Succs[1] {
				// a failure is known on this edge: the data need not be complete any more, and the
				// failure itself must be handed over (see handed)
				if v, nilWhen, ok := nilTest(iff.Cond); ok && types.Identical(v.Type(), types.Universe.Lookup("error").Type()) && (i == 0) != nilWhen {
					ns = clean
				}
			}
			if o := in[s] | ns; o != in[s] {
				in[s] = o
				work = append(work, s)
			}
		}
	}
}

// loadsSame: two loads of one local variable that is assigned once.
func loadsSame(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	if x.X == y.X {
		return true
	}
	return false
}
