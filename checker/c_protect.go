package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P01"] = checkP01
}

// protOrigins lists where a protection value may come from: "doc" (the document's own field), "nil",
// "new", "api" (parameter of an exported function nobody here calls) or "?".
type protFlow struct {
	p    *Prog
	vc   *valCtx
	doc  fieldKey
	busy map[string]bool
	// fields of objects through which the value passes
	fields map[fieldKey]bool
}

func (p *Prog) protFlow() *protFlow {
	pf := &protFlow{p: p, vc: newValCtx(p), busy: map[string]bool{}, fields: map[fieldKey]bool{}}
	pv := p.provenance()
	dt := deref(pv.addFn.Params[0].Type())
	st, ok := dt.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			if p.isProtection(st.Field(i).Type()) {
				pf.doc = fkey(dt, i)
			}
		}
	}
	return pf
}

type protSrc struct {
	kind string
	pos  string
}

func (pf *protFlow) of(b BV, depth int) []protSrc {
	b = pf.vc.resolve(b)
	pos := ""
	if i, ok := b.v.(ssa.Instruction); ok {
		pos = pf.p.insPos(i)
	}
	one := func(k string) []protSrc { return []protSrc{{k, pos}} }
	key := fmt.Sprintf("%p/%p", b.v, b.fr)
	if pf.busy[key] {
		return nil
	}
	if depth > 30 {
		return one("?")
	}
	pf.busy[key] = true
	defer delete(pf.busy, key)
	switch x := b.v.(type) {
	case *ssa.Const:
		return one("nil")
	case *ssa.Phi:
		var out []protSrc
		for _, e := range x.Edges {
			out = append(out, pf.of(BV{e, b.fr}, depth+1)...)
		}
		return out
	case *ssa.Parameter:
		var out []protSrc
		n := 0
		for _, c := range pf.p.staticCallers()[x.Parent()] {
			i := paramIndex(x)
			if c.Common().IsInvoke() {
				i--
			}
			if i < 0 || i >= len(c.Common().Args) {
				continue
			}
			n++
			out = append(out, pf.of(BV{c.Common().Args[i], pf.vc.root(c.Parent())}, depth+1)...)
		}
		if n == 0 {
			if ast := x.Parent().Object(); ast != nil && ast.Exported() {
				return one("api")
			}
			return nil // never called
		}
		return out
	case *ssa.Alloc:
		return one("new")
	case *ssa.Field:
		return pf.field(fkey(x.X.Type(), x.Field), depth)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.FieldAddr:
				return pf.field(fkey(a.X.Type(), a.Field), depth)
			case *ssa.Alloc:
				var out []protSrc
				whole, _ := allocStores(a)
				for _, st := range whole {
					out = append(out, pf.of(BV{st.Val, pf.vc.frameOfStore(b.fr, st)}, depth+1)...)
				}
				if len(out) == 0 {
					return one("nil")
				}
				return out
			}
		}
	case *ssa.Call:
		var out []protSrc
		fs := pf.p.calleesAt(x, pf.p.takenFuncs())
		for _, f := range fs {
			if f.Blocks == nil {
				return one("?")
			}
			for _, r := range returnsOf(f) {
				for _, v := range retVals(r) {
					if pf.p.isProtection(v.Type()) {
						fr := pf.vc.root(f)
						if x.Call.StaticCallee() == f {
							fr = pf.vc.enter(b.fr, x, f)
						}
						out = append(out, pf.of(BV{v, fr}, depth+1)...)
					}
				}
			}
		}
		if len(fs) == 0 {
			return one("?")
		}
		return out
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return pf.of(BV{c, b.fr}, depth+1)
		}
	}
	return one("?")
}

func (pf *protFlow) field(k fieldKey, depth int) []protSrc {
	if k == pf.doc {
		return []protSrc{{"doc", ""}}
	}
	pf.fields[k] = true
	var out []protSrc
	for _, st := range pf.p.allStores()[k] {
		out = append(out, pf.of(BV{st.val, pf.vc.root(st.fn)}, depth+1)...)
	}
	return out
}

// handsOver reports whether the instruction stores v (or a copy of it) in the object list.
func (pv *prov) copiesWhole(u ssa.Instruction, v ssa.Value) bool {
	ld, ok := u.(*ssa.UnOp)
	return ok && ld.Op == token.MUL && ld.X == v
}

func checkP01(p *Prog) *Result {
	e := p.emission()
	pv := p.provenance()
	res := newResult("dataflow from the cipher to every place where stream data and strings are written: on every path with protection on the data must be the cipher's output under a key derived by the document's protection from the number of the object being written, on every path with protection off it must be plain; the protection value every writer consults must originate from the document's, set for every object that gets data",
		"RC4 and MD5 do what their documentation says", "the document information dictionary is a direct object of the trailer, where the format forbids encryption")
	if pv.addFn == nil {
		res.add("anchor", "-", "object list", "-", "the function that appends an object to the document was not found")
		return res
	}
	pf := p.protFlow()
	if pf.doc.typ == "" {
		res.add("anchor", "-", "document protection", "-", "the document's protection field was not found")
		return res
	}
	kinds := p.objKinds()
	bodies, strs := 0, 0
	for _, w := range e.liveObj {
		run := e.objs[w]
		rn := recvName(w)
		self := w.Params[len(w.Params)-1]
		if anyAlt(kinds[rn], "encryption") {
			continue
		}
		isSelf := func(b BV) bool {
			b = run.it.vc.resolve(b)
			return b.v == ssa.Value(self)
		}
		judge := func(what, pos string, d bodyInfo, prot int, lit bool) {
			if d.prot != 0 {
				if prot != 0 && prot != d.prot {
					return // alternative excluded on this path
				}
				prot = d.prot
			}
			switch {
			case d.enc && prot != 1:
				res.add("protection", fname(w), rn+" "+what, pos, "%s is encrypted without a test that protection is on", what)
			case d.enc && !isSelf(d.objID):
				res.add("key", fname(w), rn+" "+what, pos, "%s is encrypted with a key that is not derived from the number of the object being written", what)
			case d.enc && lit:
				res.add("plain", fname(w), rn+" "+what, pos, "%s contains literal characters in addition to the encrypted text", what)
			case !d.enc && prot == 1:
				res.add("plain", fname(w), rn+" "+what, pos, "%s is written without encryption although protection is on", what)
			case !d.enc && prot == 0:
				res.add("plain", fname(w), rn+" "+what, pos, "%s is written without encryption on a path that does not depend on whether protection is on", what)
			}
		}
		var bs []bodySite
		for _, b := range run.r.bodies {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].pos+bs[i].ident < bs[j].pos+bs[j].ident })
		for _, b := range bs {
			bodies++
			judge("the stream of "+rn, b.pos, b.bodyInfo, b.prot, false)
			res.sample("stream %s %s enc=%v prot=%d", rn, b.pos, b.enc, b.prot)
		}
		var ss []strSite
		for _, s := range run.r.strs {
			ss = append(ss, s)
		}
		sort.Slice(ss, func(i, j int) bool {
			return fmt.Sprint(ss[i].pos, ss[i].path, ss[i].prot) < fmt.Sprint(ss[j].pos, ss[j].path, ss[j].prot)
		})
		for _, s := range ss {
			what := "string " + s.path
			if len(s.srcs) == 0 {
				if s.lit {
					strs++
					judge(what, s.pos, bodyInfo{}, s.prot, s.lit)
				}
				continue // empty string
			}
			strs++
			res.sample("string %s %s prot=%d", rn, s.path, s.prot)
			for _, src := range s.srcs {
				for _, d := range run.it.dataAlts(src, 0) {
					judge(what, s.pos, d, s.prot, s.lit)
				}
			}
		}
		for _, f := range run.finals {
			if o, ok := f.m.ps.(*objParser); ok && o.top == "trusted" {
				res.add("imported", fname(w), rn, p.pos(w.Pos()), "data taken over from another file is written as it is: its strings and streams are not encrypted when protection is on")
				break
			}
		}
		// keys are made by the document's protection
		pv.protUses(res, pf, w)
	}
	pv.protFields(res, pf)
	pv.protSetup(res, pf)
	p.cipherForm(res)
	res.floor("stream writing sites", bodies, 8)
	res.floor("string writing sites", strs, 5)
	return res
}

// protUses: every protection value a writer consults originates from the document.
func (pv *prov) protUses(res *Result, pf *protFlow, w *ssa.Function) {
	p := pv.p
	n := 0
	for f := range p.reachNoContent(w) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var v ssa.Value
				switch x := ins.(type) {
				case *ssa.BinOp:
					if isNilConst(x.Y) && p.isProtection(x.X.Type()) {
						v = x.X
					} else if isNilConst(x.X) && p.isProtection(x.Y.Type()) {
						v = x.Y
					}
				case *ssa.Call:
					if sc := x.Call.StaticCallee(); sc != nil && len(x.Call.Args) > 0 && p.isProtection(x.Call.Args[0].Type()) {
						v = x.Call.Args[0]
					}
				}
				if v == nil {
					continue
				}
				n++
				for _, s := range pf.of(BV{v, pf.vc.root(f)}, 0) {
					switch s.kind {
					case "doc", "api":
					case "nil":
						res.add("origin", fname(f), recvName(w)+" nil", p.insPos(ins), "the protection consulted here can be nil (set at %s) although the document is protected", s.pos)
					default:
						res.add("origin", fname(f), recvName(w)+" "+s.kind, p.insPos(ins), "the protection consulted here is not the document's (from %s)", s.pos)
					}
				}
			}
		}
	}
	res.Counts["protection uses in writers"] += n
}

// protFields: every object that has a protection field of its own gets it wherever the object is
// created and given data.
func (pv *prov) protFields(res *Result, pf *protFlow) {
	p := pv.p
	n := 0
	var ks []fieldKey
	for k := range pf.fields {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	for _, k := range ks {
		data := pv.bodyFields(k)
		res.sample("data fields of %s: %v", k.typ, data)
		for _, f := range p.Funcs {
			for _, b := range f.Blocks {
				for i, ins := range b.Instrs {
					al, ok := ins.(*ssa.Alloc)
					if !ok || tname(deref(al.Type())) != k.typ || deref(al.Type()).Underlying() == nil {
						continue
					}
					if whole, _ := allocStores(al); len(whole) > 0 && !freshZero(whole) {
						continue // a copy of an existing object
					}
					// only objects that receive data
					if len(data) > 0 {
						has := false
						for _, d := range append([]fieldKey{k}, data...) {
							s, _ := fieldSets(al, d)
							has = has || len(s) > 0
						}
						if !has {
							continue
						}
					}
					n++
					res.sample("created %s at %s", k.typ, p.insPos(al))
					if bad := pv.unsetPath(b, i, al, k); bad != "" {
						res.add("unset", fname(f), "new "+k.typ, p.insPos(al), "the %s created here reaches %s without being given the document's protection: what it writes stays plain", k.typ, bad)
					}
				}
			}
		}
	}
	res.floor("objects created with their own protection", n, 3)
}

func freshZero(sts []*ssa.Store) bool {
	for _, st := range sts {
		if _, ok := st.Val.(*ssa.Const); !ok {
			return false
		}
	}
	return true
}

// bodyFields: the fields of the object type that its writer writes as stream data.
func (pv *prov) bodyFields(k fieldKey) []fieldKey {
	var out []fieldKey
	for _, w := range pv.e.liveObj {
		if recvName(w) != k.typ {
			continue
		}
		run := pv.e.objs[w]
		for _, b := range run.r.bodies {
			if b.val.v == nil {
				continue
			}
			r := b.val
			switch x := r.v.(type) {
			case *ssa.Field:
				out = append(out, fkey(x.X.Type(), x.Field))
			case *ssa.UnOp:
				if fa, ok := x.X.(*ssa.FieldAddr); ok {
					out = append(out, fkey(fa.X.Type(), fa.Field))
				}
			}
		}
	}
	return out
}

// unsetPath walks from the creation of the object to where it is copied out or the function returns
// without error; a store to the field (here or in a callee that always stores it) stops the path.
func (pv *prov) unsetPath(b *ssa.BasicBlock, idx int, al *ssa.Alloc, k fieldKey) string {
	sets, copies := fieldSets(al, k)
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) string
	walk = func(b *ssa.BasicBlock, from int) string {
		for i := from; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if sets[ins] {
				return ""
			}
			if copies[ins] {
				return pv.p.insPos(ins)
			}
			if r, ok := ins.(*ssa.Return); ok {
				n := len(r.Results) - 1
				if n >= 0 && isErrorType(r.Results[n].Type()) && !isNilConst(retVals(r)[n]) {
					return ""
				}
				return pv.p.insPos(r)
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if r := walk(s, 0); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return walk(b, idx+1)
}

// fieldSets: the instructions that store the field of the object created at al, and those that copy
// the whole object out of its variables.
func fieldSets(al *ssa.Alloc, k fieldKey) (map[ssa.Instruction]bool, map[ssa.Instruction]bool) {
	sets := map[ssa.Instruction]bool{}
	copies := map[ssa.Instruction]bool{}
	// the object may be kept in a variable
	vals := map[ssa.Value]bool{al: true}
	for grown := true; grown; {
		grown = false
		for v := range vals {
			for _, r := range *v.Referrers() {
				switch x := r.(type) {
				case *ssa.Store:
					if x.Val == v {
						if a2, ok := x.Addr.(*ssa.Alloc); ok {
							for _, u := range *a2.Referrers() {
								if ld, ok := u.(*ssa.UnOp); ok && !vals[ld] {
									vals[ld] = true
									grown = true
								}
							}
						}
					}
				case *ssa.UnOp:
					// the whole object copied into a variable
					if x.Op == token.MUL && !isPtr(deref(v.Type())) {
						for _, u := range *x.Referrers() {
							if st, ok := u.(*ssa.Store); ok {
								if a2, ok := st.Addr.(*ssa.Alloc); ok && !vals[a2] {
									vals[a2] = true
									grown = true
								}
							}
						}
					}
				case *ssa.Phi:
					if !vals[x] {
						vals[x] = true
						grown = true
					}
				}
			}
		}
	}
	for v := range vals {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.FieldAddr:
				if fkey(x.X.Type(), x.Field) == k {
					for _, u := range *x.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
							sets[st] = true
						}
					}
				}
			case *ssa.Call:
				if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil {
					for i, a := range x.Call.Args {
						if a == v && i < len(f.Params) && setsAlways(f, f.Params[i], k) {
							sets[x] = true
						}
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && !isPtr(deref(v.Type())) && tname(deref(v.Type())) == k.typ {
					kept := true // only kept in another variable
					for _, u := range *x.Referrers() {
						st, ok := u.(*ssa.Store)
						if ok {
							_, ok = st.Addr.(*ssa.Alloc)
						}
						kept = kept && ok
					}
					if !kept {
						copies[x] = true
					}
				}
			}
		}
	}
	return sets, copies
}

func isPtr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

// protSetup: the document's protection is set exactly when the configuration asks for it, and the
// encryption dictionary and the trailer entry appear under the same condition.
func (pv *prov) protSetup(res *Result, pf *protFlow) {
	p := pv.p
	var flag fieldKey
	guard := func(b *ssa.BasicBlock) (pos map[fieldKey]bool, other []string) {
		pos = map[fieldKey]bool{}
		for _, f := range pv.it.domFacts(b, pf.vc.root(b.Parent())) {
			c := pf.vc.resolve(f.cond)
			if k, ok := loadField(c.v); ok && f.val {
				pos[k] = true
				continue
			}
			if i, ok := c.v.(ssa.Instruction); ok && inCycle(i.Block()) && !inCycle(b) {
				continue // the end of a loop passed before
			}
			other = append(other, fmt.Sprintf("%s=%v", c.v, f.val))
		}
		return
	}
	sets := 0
	for _, st := range p.allStores()[pf.doc] {
		if isNilConst(st.val) {
			continue
		}
		if len(p.staticCallers()[st.fn]) == 0 {
			continue // not part of any public operation
		}
		sets++
		pos, other := guard(st.ins.Block())
		if len(pos) != 1 || len(other) > 0 {
			res.add("setup", fname(st.fn), "protection set", p.insPos(st.ins), "the document's protection is not set under exactly the condition that the configuration asks for it (%v %v)", pos, other)
			continue
		}
		for k := range pos {
			flag = k
		}
		// the branch always sets it
		blk := st.ins.Block()
		if !postDominates(blk, succUnder(pf, blk, flag)) {
			res.add("setup", fname(st.fn), "protection not always set", p.insPos(st.ins), "protection is asked for but a path does not set it")
		}
		// no use of the flag-carrying configuration may precede: the objects made before are the fixed ones
	}
	if sets == 0 {
		res.add("anchor", "-", "protection set", "-", "no place sets the document's protection")
		return
	}
	res.Counts["places that set the document's protection"] = sets
	// encryption dictionary
	enc := 0
	kinds := p.objKinds()
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || call.Call.StaticCallee() != pv.addFn {
					continue
				}
				ts := pv.dynTypes(BV{call.Call.Args[len(call.Call.Args)-1], pv.vc.root(f)}, 0)
				if len(ts) != 1 || !anyAlt(kinds[ts[0]], "encryption") {
					continue
				}
				enc++
				pos, _ := guard(b)
				if !pos[flag] {
					res.add("setup", fname(f), "encryption dictionary", p.insPos(call), "the encryption dictionary is added under a condition other than the one that turns protection on")
				}
			}
		}
	}
	if enc == 0 {
		res.add("setup", "-", "encryption dictionary", "-", "no encryption dictionary is added to the document")
	}
	run := p.fileAnalysis()
	if run.err != "" {
		res.add("anchor", "-", "document writer", "-", "%s", run.err)
		return
	}
	seen := false
	for _, rf := range run.r.refs {
		if rf.path != "Encrypt" {
			continue
		}
		seen = true
		i, ok := rf.src.v.(ssa.Instruction)
		if !ok {
			res.add("setup", "-", "trailer Encrypt", rf.pos, "the number in the trailer's Encrypt entry is fixed")
			continue
		}
		pos, other := guard(i.Block())
		if !pos[flag] || len(pos) > 1 || len(other) > 0 {
			res.add("setup", fname(i.Parent()), "trailer Encrypt", rf.pos, "the trailer's Encrypt entry is not written under exactly the condition that turns protection on (%v %v)", pos, other)
		}
	}
	if !seen {
		res.add("setup", "-", "trailer Encrypt", "-", "the trailer has no Encrypt entry")
	}
}

// inCycle: the block can be entered again after it ran.
func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

// succUnder: the block entered when the flag is found set.
func succUnder(pf *protFlow, blk *ssa.BasicBlock, flag fieldKey) *ssa.BasicBlock {
	for d := blk; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(id.Instrs) == 0 || len(d.Preds) != 1 || d.Preds[0] != id {
			continue
		}
		if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok {
			c, _ := stripNot(iff.Cond)
			if k, ok := loadField(pf.vc.resolve(BV{c, pf.vc.root(blk.Parent())}).v); ok && k == flag {
				return d
			}
		}
	}
	return blk
}

// loadField: the field a value is loaded from.
func loadField(v ssa.Value) (fieldKey, bool) {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return fkey(fa.X.Type(), fa.Field), true
		}
	case *ssa.Field:
		return fkey(x.X.Type(), x.Field), true
	}
	return fieldKey{}, false
}

// cipherForm: the cipher works on a copy as long as its input.
func (p *Prog) cipherForm(res *Result) {
	n := 0
	for _, f := range p.Funcs {
		_, si, ok := p.cipherShape(f)
		if !ok {
			continue
		}
		n++
		src := f.Params[si]
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || fullCallee(&c.Call) != "(*crypto/rc4.Cipher).XORKeyStream" {
					continue
				}
				dst := c.Call.Args[1]
				mk, ok := dst.(*ssa.MakeSlice)
				if !ok || !isLenOf(mk.Len, src) {
					res.add("cipher", fname(f), "destination", p.insPos(c), "the cipher's output is not a new slice as long as its input")
					continue
				}
				if !alwaysUnlessErr(p, c) {
					res.add("cipher", fname(f), "path", p.insPos(c), "a path returns without error and without encrypting")
				}
				for _, r := range returnsOf(f) {
					v := retVals(r)
					if len(v) == 2 && !isNilConst(v[1]) {
						continue
					}
					if v[0] != ssa.Value(mk) {
						res.add("cipher", fname(f), "result", p.insPos(r), "the cipher function returns something other than the encrypted data")
					}
				}
			}
		}
	}
	if n == 0 {
		res.add("anchor", "-", "cipher", "-", "no function that encrypts its argument was found")
	}
}

func isLenOf(v, of ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && fullCallee(&c.Call) == "builtin.len" && c.Call.Args[0] == of
}

func alwaysUnlessErr(p *Prog, ins ssa.Instruction) bool {
	pv := p.provenance()
	return pv.unregisteredPath(ins.Parent().Blocks[0], -1, map[ssa.Instruction]bool{ins: true}) == ""
}

var _ = strings.Join
