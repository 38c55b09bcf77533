package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S03"] = checkS03
	checks["S05"] = checkS05
	checks["S06"] = checkS06
	checks["S07"] = checkS07
}

// addRuns copies the emission findings of the given kinds.
func (res *Result) addRuns(runs map[*ssa.Function]*emitRun, fns []*ssa.Function, kinds ...string) {
	for _, f := range fns {
		run := runs[f]
		for _, x := range run.r.list(kinds...) {
			res.add(x.kind, x.fn, recvName(f)+": "+x.msg, x.pos, "%s (while writing %s)", x.msg, recvName(f))
		}
	}
}

func (e *emission) counts(res *Result, runs map[*ssa.Function]*emitRun, fns []*ssa.Function, what string) {
	finals, events := 0, 0
	funcs := map[*ssa.Function]bool{}
	for _, f := range fns {
		finals += len(runs[f].finals)
		events += runs[f].r.events
		for g := range runs[f].it.funcs {
			funcs[g] = true
		}
		res.sample("%s: %d error-free path classes, %d output events", fname(f), len(runs[f].finals), runs[f].r.events)
	}
	res.Counts[what+" output path classes"] = finals
	res.Counts[what+" output events"] = events
	res.Counts[what+" functions interpreted"] = len(funcs)
	_ = finals
}

var emitAssume = []string{
	"fmt, io, bytes, strings, strconv and compress/zlib write what their documentation says",
	"data imported by the gofpdi importer is complete PDF syntax (trusted token)",
	"numbers written with %f/%d are finite",
}

func checkS03(p *Prog) *Result {
	e := p.emission()
	res := newResult("abstract interpretation of every object writer against an automaton for PDF object syntax: every error-free path writes exactly one complete object", emitAssume...)
	res.floor("object writers", len(e.liveObj), 14)
	e.counts(res, e.objs, e.liveObj, "object")
	res.addRuns(e.objs, e.liveObj, "syntax", "unresolved")
	run := p.fileAnalysis()
	if run.err != "" {
		res.add("anchor", "-", "document writer", "-", "%s", run.err)
		return res
	}
	for _, x := range run.r.list("syntax") {
		res.add(x.kind, x.fn, "trailer: "+x.msg, x.pos, "%s (while writing the trailer)", x.msg)
	}
	n := 0
	for _, s := range run.finals {
		if f, ok := s.m.ps.(*fileParser); ok && f.ph == 'z' {
			n++
		}
	}
	res.floor("trailer path classes", n, 1)
	return res
}

func checkS06(p *Prog) *Result {
	e := p.emission()
	res := newResult("abstract interpretation of every page content element against the content operator grammar: known operators, operand kinds and counts, q/Q and BT/ET balance, every path painted or ended", emitAssume...)
	res.floor("content writers", len(e.cacheFns), 12)
	e.counts(res, e.contents, e.cacheFns, "content")
	res.addRuns(e.contents, e.cacheFns, "content", "unresolved", "syntax")
	return res
}

func checkS07(p *Prog) *Result {
	e := p.emission()
	res := newResult("every character of caller-controlled text is followed, by character class, through replacers, encoders and conversions into the string, name or stream it is written to; no class may end or change its context", emitAssume...)
	res.floor("object writers", len(e.liveObj), 14)
	res.floor("content writers", len(e.cacheFns), 12)
	e.counts(res, e.objs, e.liveObj, "object")
	e.counts(res, e.contents, e.cacheFns, "content")
	res.addRuns(e.objs, e.liveObj, "escape")
	res.addRuns(e.contents, e.cacheFns, "escape")
	return res
}

func checkS05(p *Prog) *Result {
	e := p.emission()
	res := newResult("typestate of every stream buffer along every path: the value written as Length is the length of exactly the data written between stream and endstream, read after the last write and after the compressing writer was closed; nothing else is written there", emitAssume...)
	streams := 0
	kinds := map[string]bool{}
	for _, f := range e.liveObj {
		run := e.objs[f]
		for _, s := range run.finals {
			o := s.m.ps.(*objParser)
			if o.phase != 3 || o.top == "trusted" {
				continue
			}
			streams++
			kinds[recvName(f)] = true
			ok := false
			for _, k := range o.keys {
				if k == "Length=int" {
					ok = true
				}
			}
			if !ok {
				res.add("length", fname(f), recvName(f)+": no Length", p.pos(f.Pos()), "a stream dictionary of %s has no direct integer Length", recvName(f))
			}
		}
	}
	res.Counts["stream path classes"] = streams
	res.floor("stream object types", len(kinds), 5)
	res.addRuns(e.objs, e.liveObj, "length", "unresolved")
	return res
}
