package main

import (
	"go/ast"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// F02: what is read is read in full, or the failure is passed on. On every path of every function that reads (itself or
// through others) the error of each reading call is known to be nil before the path goes on to an end without an error
// or to another round of a loop; a call that may give less than was asked for is followed by a comparison of the
// amounts; a loop that reads until a mark ends only with that mark, by its count, or with an error.

func init() { checks["F02"] = checkF02 }

type reads struct {
	p     *Prog
	res   *Result
	taken []*ssa.Function
	in    map[*ssa.Function]bool // reads, itself or through what it calls
	loops map[*ssa.BasicBlock]bool
}

// readKind: "full" gives all or an error, "part" may give less, "scan" ends without saying why.
func readKind(name string, cc *ssa.CallCommon) string {
	switch name {
	case "io.ReadAll", "io.ReadFull", "io.ReadAtLeast", "io.CopyN", "io.Copy", "io/ioutil.ReadAll", "io/ioutil.ReadFile", "os.ReadFile",
		"encoding/binary.Read", "image.Decode", "image.DecodeConfig", "compress/zlib.NewReader",
		"(*bufio.Reader).ReadBytes", "(*bufio.Reader).ReadString", "(*bufio.Reader).Peek", "(*bufio.Reader).Discard":
		return "full"
	case "(*bufio.Scanner).Scan":
		return "scan"
	}
	m := methodName(name)
	switch {
	case strings.HasPrefix(name, "image/") && (strings.HasSuffix(name, ".Decode") || strings.HasSuffix(name, ".DecodeAll") || strings.HasSuffix(name, ".DecodeConfig")):
		return "full"
	case m == "ReadByte" || m == "ReadRune":
		return "full"
	case m == "Seek" && errorResult(cc.Signature()) >= 0:
		if n := len(cc.Args); n >= 2 && (name == "(*bytes.Reader).Seek" || name == "(*strings.Reader).Seek") {
			off, ok1 := constInt(cc.Args[n-2])
			from, ok2 := constInt(cc.Args[n-1])
			if ok1 && ok2 && off >= 0 && (from == 0 || from == 1) {
				return "" // does not fail
			}
		}
		return "full" // what is read next would be something else
	case m == "Read" || m == "ReadAt":
		sg := cc.Signature()
		if sg.Params().Len() >= 1 && isBytes(sg.Params().At(0).Type()) && sg.Results().Len() == 2 {
			return "part"
		}
	}
	return ""
}

func checkF02(p *Prog) *Result {
	res := newResult("path summaries of every function that reads: errors of reading calls known nil, amounts compared, ends of reading loops",
		"A reading call of the library that reports no error and the full amount has delivered the data.")
	r := &reads{p: p, res: res, taken: p.takenFuncs(), in: map[*ssa.Function]bool{}, loops: map[*ssa.BasicBlock]bool{}}
	calls := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.Funcs {
		if f.Blocks == nil || !p.owns(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if readKind(fullCallee(ci.Common()), ci.Common()) != "" && !r.ownRead(ci) {
					r.in[f] = true
					res.Counts["reading calls of the library"]++
				}
				for _, g := range p.calleesAt(ci, r.taken) {
					if g.Blocks != nil && p.owns(g) {
						calls[f] = append(calls[f], g)
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for f, gs := range calls {
			for _, g := range gs {
				if r.in[g] && !r.in[f] {
					r.in[f], again = true, true
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if r.in[f] && f.Parent() == nil && (errorResult(f.Signature) >= 0 || ast.IsExported(f.Name())) {
			r.function(f)
		}
	}
	res.floor("reading calls of the library", res.Counts["reading calls of the library"], 12)
	res.floor("paths", res.Counts["paths"], 200)
	return res
}

// ownRead: the call is of the library's own io.Reader.
func (r *reads) ownRead(ci ssa.CallInstruction) bool {
	f := ci.Common().StaticCallee()
	return f != nil && r.p.owns(f)
}

func errorResult(sg *types.Signature) int {
	for i := sg.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sg.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func (r *reads) function(f *ssa.Function) {
	p := r.p
	s := p.newPsum(func(g *ssa.Function, cc *ssa.CallCommon) bool {
		return p.owns(g) && r.in[g] && (errorResult(g.Signature) < 0 || g.Parent() != nil)
	})
	s.ownCalls = true
	s.max = 150000
	if !s.run(f) || s.gave != "" {
		r.res.add("undecided", fname(f), "paths", p.pos(f.Pos()), "the paths could not be listed: %s", s.gave)
		return
	}
	r.res.Counts["functions"]++
	seen := map[string]bool{}
	add := func(rule string, e *peff, what string) {
		k := rule + p.insPos(e.ins)
		if !seen[k] {
			seen[k] = true
			r.res.add(rule, fname(f), "call of "+short(ndAtom(e.name)), p.insPos(e.ins), "%s", what)
		}
	}
	for _, rt := range s.rets {
		if rt.panic {
			continue
		}
		r.res.Counts["paths"]++
		var given *nd
		if i := errorResult(rt.ins.Parent().Signature); i >= 0 && i < len(rt.vals) && rt.ins.Parent() == f {
			given = rt.vals[i]
			if s.isFailure(rt.st, given) {
				continue
			}
		}
		r.ends(s, f, rt)
		r.path(s, rt.st, effsSince(rt.st, nil), given, rt.vals, add, "the function returns without an error although the reading may have failed")
	}
	for _, it := range s.iters {
		r.res.Counts["paths"]++
		r.path(s, it.st, effsSince(it.st, it.loop.eff), nil, nil, add, "the loop goes on although the reading may have failed")
	}
}

// ends: a loop that reads until a mark is left, other than with an error, only where it has seen the mark.
func (r *reads) ends(s *psum, f *ssa.Function, rt *pret) {
	for _, lp := range s.sortedLoops() {
		if lp.id != "" || lp.fn != f || s.counted(lp) {
			continue
		}
		reading := false
		for _, it := range s.itersOf(lp) {
			for _, e := range effsSince(it.st, it.loop.eff) {
				reading = reading || e.kind == "call" && r.isReading(e)
			}
		}
		if !reading {
			continue
		}
		if !r.loops[lp.head] {
			r.loops[lp.head] = true
			r.res.Counts["loops that read until a mark"]++
		}
		body := loopBody(lp.head)
		for _, l2 := range s.loops[lp.key()] {
			if !passed(rt.st, l2) {
				continue
			}
			var last *pfact
			for _, g := range factsSince(rt.st, l2.facts) {
				if g.ins != nil && g.ins.Parent() == f && body[g.ins.Block()] {
					last = g
				}
			}
			if last == nil || !isMark(last) && last.cond.op != "call:(*bufio.Scanner).Scan" {
				what := "nothing"
				pos := r.p.pos(f.Pos())
				if last != nil {
					what = showFactsShort([]*pfact{last})
					pos = r.p.insPos(last.ins)
				}
				r.res.add("end", fname(f), "loop", pos, "a loop that reads until the end of the data is left on %s: what follows may be missing without an error", what)
			}
		}
	}
}

func (r *reads) isReading(e *peff) bool {
	ci, ok := e.ins.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if readKind(e.name, ci.Common()) != "" {
		return true
	}
	for _, g := range r.p.calleesAt(ci, r.taken) {
		if r.in[g] {
			return true
		}
	}
	return false
}

// passed: the path entered the loop this way.
func passed(st *pst, l *ploop) bool {
	for f := st.facts; f != l.facts; f = f.up {
		if f == nil {
			return false
		}
	}
	for e := st.eff; e != l.eff; e = e.up {
		if e == nil {
			return false
		}
	}
	return true
}

// isMark: something is known to be equal to a text, or to a number that is not zero.
func isMark(g *pfact) bool {
	if !g.want {
		return false
	}
	switch {
	case g.cond.op == "eq":
		for _, a := range g.cond.a {
			if a.op == "nil" {
				return false
			}
		}
		return true
	case g.cond.op == "eq0":
		x := g.cond.a[0]
		return x.op == "+" && x.k != 0
	case strings.HasPrefix(g.cond.op, "call:bytes.Equal"), strings.HasPrefix(g.cond.op, "call:strings.EqualFold"):
		return true
	}
	return false
}

// counted: the loop counts its rounds or goes over something.
func (s *psum) counted(lp *ploop) bool {
	for _, ins := range lp.head.Instrs {
		if _, ok := ins.(*ssa.Next); ok {
			return true
		}
	}
	its := s.itersOf(lp)
	for ph, a := range lp.atom {
		if !isInteger(ph.Type()) || lp.kept(ph) {
			continue
		}
		all := len(its) > 0
		for _, it := range its {
			nx := it.next[ph]
			d := ndNum(0)
			if nx != nil {
				d = ndSub(nx, a)
			}
			cmp := false
			for _, g := range factsSince(it.st, it.loop.facts) {
				cmp = cmp || (g.cond.op == "lt0" || g.cond.op == "eq0") && g.cond.a[0].has(a.s)
			}
			amount := strings.HasPrefix(d.op, "#0") && len(d.a) == 1 && strings.HasPrefix(d.a[0].op, "call:") // by what was read
			all = all && cmp && (d.isNum() && d.k != 0 || amount)
		}
		if all {
			return true
		}
	}
	return false
}

// isFailure: the error is one.
func (s *psum) isFailure(st *pst, e *nd) bool {
	if e.op == "nil" {
		return false
	}
	if v, ok := s.decided(st, ndEqual(e, ndNil, false)); ok {
		return !v
	}
	switch {
	case strings.HasPrefix(e.op, "call:errors.") || strings.HasPrefix(e.op, "call:fmt.Errorf"):
		return true
	case e.op == "ld" && len(e.a) == 1 && strings.HasPrefix(e.a[0].op, "G:"):
		return true
	case e.op == "struct" || e.op == "new":
		return true
	}
	return false
}

// path: every reading on the path is known to have succeeded.
func (r *reads) path(s *psum, st *pst, effs []*peff, given *nd, vals []*nd, add func(string, *peff, string), what string) {
	for _, e := range effs {
		if e.kind != "call" {
			continue
		}
		if e.name == "log.Fatal" || e.name == "log.Fatalf" || e.name == "log.Fatalln" || e.name == "os.Exit" {
			return
		}
	}
	for _, e := range effs {
		if e.kind != "call" && e.kind != "defer" && e.kind != "go" {
			continue
		}
		ci, ok := e.ins.(ssa.CallInstruction)
		if !ok {
			continue
		}
		cc := ci.Common()
		kind := readKind(e.name, cc)
		if kind != "" && r.ownRead(ci) {
			kind = ""
		}
		if kind == "" {
			own := false
			for _, g := range r.p.calleesAt(ci, r.taken) {
				own = own || r.in[g]
			}
			if !own || errorResult(cc.Signature()) < 0 {
				continue
			}
			kind = "full"
		}
		if e.val == nil {
			add("error", e, "the outcome of the reading is not looked at")
			continue
		}
		r.res.Counts["readings on paths"]++
		if kind == "scan" {
			if v, ok := s.decided(st, e.val); ok && v {
				continue
			}
			if !r.scanned(s, st, effs, e, given) {
				add("error", e, what+": the scanner is not asked for its error")
			}
			continue
		}
		i := errorResult(cc.Signature())
		er := e.val
		if cc.Signature().Results().Len() > 1 {
			er = ndAtom("#"+itoa(i), e.val)
		}
		isNil := given != nil && given.s == er.s
		if v, ok := s.decided(st, ndEqual(er, ndNil, false)); ok && v {
			isNil = true
		}
		if s.isNamedError(st, er) {
			isNil = true
		}
		if kind == "part" {
			n := ndAtom("#0", e.val)
			var buf *nd
			for _, a := range e.args {
				if strings.HasPrefix(a.op, "mk") || a.op == "slc" || a.typ != nil && isBytes(a.typ) {
					buf = a
				}
			}
			handed := false // the amount is the caller's to look at
			for _, v := range vals {
				handed = handed || v.s == n.s
			}
			if handed && given != nil && given.s == er.s {
				continue
			}
			if buf == nil || !s.atLeast(st, ndSub(n, s.length(buf)), 0, 2) {
				add("amount", e, "the amount read is not compared with the amount asked for: what follows may work on data that was filled in part")
				continue
			}
			continue // everything asked for was delivered
		}
		if !isNil {
			add("error", e, what)
		}
	}
}

// isNamedError: the error is known to be a particular one, which the path deals with.
func (s *psum) isNamedError(st *pst, er *nd) bool {
	for f := st.facts; f != nil; f = f.up {
		if !f.want || f.cond.op != "eq" || len(f.cond.a) != 2 {
			continue
		}
		for i, a := range f.cond.a {
			if o := f.cond.a[1-i]; a.s == er.s && o.op == "ld" && len(o.a) == 1 && strings.HasPrefix(o.a[0].op, "G:") && !strings.Contains(o.s, "io.") {
				return true
			}
		}
	}
	return false
}

// scanned: after the last line the scanner is asked for its error.
func (r *reads) scanned(s *psum, st *pst, effs []*peff, e *peff, given *nd) bool {
	for _, o := range effs {
		if o.kind == "call" && o.name == "(*bufio.Scanner).Err" && len(o.args) > 0 && len(e.args) > 0 && o.args[0].s == e.args[0].s {
			if given != nil && given.s == o.val.s {
				return true
			}
			if v, ok := s.decided(st, ndEqual(o.val, ndNil, false)); ok && v {
				return true
			}
		}
	}
	return false
}
