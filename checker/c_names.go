package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S08"] = checkS08
}

// opCategory is the resource category in which the name operand of an operator is looked up.
var opCategory = map[string]string{"Do": "XObject", "gs": "ExtGState", "Tf": "Font", "cs": "ColorSpace", "CS": "ColorSpace", "sh": "Shading", "scn": "Pattern", "SCN": "Pattern"}

func checkS08(p *Prog) *Result {
	e := p.emission()
	pv := p.provenance()
	res := newResult("the number inside every resource name that a content element writes is traced to its origin; a key of the same form, numbered from the same origin with the same offset, must be written in the resource dictionary's category for the operator, and the place that makes the number must register it for that dictionary on every path before it can be used",
		"names of imported templates are those the page importer reports", "numbers handed straight to an exported low-level function are the caller's", "pages refer to the one resource dictionary (S02: page Resources)")
	if pv.addFn == nil {
		res.add("anchor", "-", "object list", "-", "the function that appends an object to the document was not found")
		return res
	}
	type keySite struct {
		cat, form string
		srcs      []isrc
		fn, pos   string
		fns       BV
	}
	var keys []keySite
	order := func(m map[string]nameSite) []nameSite {
		var out []nameSite
		for _, n := range m {
			out = append(out, n)
		}
		sort.Slice(out, func(i, j int) bool {
			return out[i].path+out[i].pos+fmt.Sprint(out[i].text) < out[j].path+out[j].pos+fmt.Sprint(out[j].text)
		})
		return out
	}
	origin := func(n nameSite) []isrc {
		var out []isrc
		for _, b := range n.srcs {
			var use *ssa.BasicBlock
			if i, ok := b.v.(ssa.Instruction); ok {
				use = i.Block()
			}
			out = append(out, pv.of(b, use)...)
		}
		return dedupSrc(out)
	}
	for _, f := range e.liveObj {
		for _, n := range order(e.objs[f].r.names) {
			if !n.resource {
				continue
			}
			cat, form, _ := strings.Cut(n.path, "/")
			k := keySite{cat: cat, form: form, fn: fname(f), pos: n.pos}
			if form == "{t}" {
				k.srcs = []isrc{{kind: "imp"}}
			} else {
				k.srcs = origin(n)
			}
			keys = append(keys, k)
			res.sample("key %s %s <- %v", n.pos, n.path, k.srcs)
		}
	}
	// a name form must not be shared by two numbering origins of one category
	uses := 0
	usedObj := map[string]isrc{}
	usedCtr := map[string]bool{}
	for _, f := range e.cacheFns {
		for _, n := range order(e.contents[f].r.names) {
			cat, ok := opCategory[n.path]
			who := recvName(f) + " " + n.path
			if !ok {
				res.add("operator", fname(f), who, n.pos, "a name operand %q is written for operator %s, for which no resource category is known", n.text, n.path)
				continue
			}
			uses++
			var srcs []isrc
			if n.text == "{t}" {
				srcs = []isrc{{kind: "imp"}}
			} else {
				srcs = origin(n)
			}
			if len(srcs) == 0 && !strings.Contains(n.text, "{") {
				res.add("undefined", fname(f), who, n.pos, "the fixed name %q is not defined in the resources", n.text)
				continue
			}
			found := false
			for _, k := range keys {
				found = found || k.cat == cat && k.form == n.text
			}
			if !found {
				res.add("undefined", fname(f), who, n.pos, "content uses names of the form %q with %s, but the resource dictionary writes no %s entry of this form", n.text, n.path, cat)
				continue
			}
			if len(srcs) == 0 {
				res.add("undecided", fname(f), who, n.pos, "no origin was found for the number in the name %q", n.text)
			}
			res.sample("use %s %s %s %s <- %v", n.pos, fname(f), n.path, n.text, srcs)
			for _, s := range srcs {
				if s.kind == "api" {
					continue // the caller of an exported function chooses the number
				}
				if s.kind == "const" {
					var use *ssa.BasicBlock
					for _, b := range n.srcs {
						if i, ok := b.v.(ssa.Instruction); ok {
							use = i.Block()
						}
						if pv.guarded(b, s.off, use) {
							s.kind = ""
						}
					}
					if s.kind == "" {
						continue
					}
				}
				ok, near := false, ""
				for _, k := range keys {
					if k.cat != cat || k.form != n.text {
						continue
					}
					for _, ks := range k.srcs {
						switch {
						case ks.kind != s.kind || strings.HasPrefix(s.kind, "?"):
						case ks.off != s.off:
							near = fmt.Sprintf("numbered from the same origin plus %d instead of %d", ks.off, s.off)
						case strings.HasPrefix(s.kind, "obj:") && ks.pos != s.pos:
							if near == "" {
								near = fmt.Sprintf("registered only for objects added at %s", ks.pos)
							}
						default:
							ok = true
						}
					}
				}
				if !ok {
					if near == "" {
						near = "not numbered from this origin"
					}
					res.add("name", fname(f), who+" "+s.kind, n.pos, "the name %q used with %s can carry the number %s (from %s); the entries of the resource dictionary are %s", n.text, n.path, s, s.pos, near)
					continue
				}
				if strings.HasPrefix(s.kind, "obj:") {
					usedObj[s.pos+s.kind] = s
				}
				if strings.HasPrefix(s.kind, "field:") {
					usedCtr[s.kind] = true
				}
			}
		}
	}
	// every object whose number is used in a name is registered wherever it is added
	var poss []string
	for k := range usedObj {
		poss = append(poss, k)
	}
	sort.Strings(poss)
	regs := pv.registrations()
	for _, k := range poss {
		s := usedObj[k]
		pv.registered(res, s, regs)
	}
	pv.counters(res, usedCtr)
	res.floor("name uses in content", uses, 5)
	res.floor("resource key sites", len(keys), 3)
	res.floor("objects named in content (add sites)", len(usedObj), 2)
	res.floor("numbering counters", len(usedCtr), 1)
	res.addRuns(e.contents, e.cacheFns, "unresolved")
	return res
}

// registration is an append to a list that the resource dictionary writer reads.
type registration struct {
	st  *ssa.Store
	els []BV
	k   fieldKey
}

// registrations lists the appends to the slice fields read by the writer of the resource dictionary.
func (pv *prov) registrations() []registration {
	var out []registration
	fields := map[fieldKey]bool{}
	kinds := pv.p.objKinds()
	for _, w := range pv.e.liveObj {
		if !anyAlt(kinds[recvName(w)], "resources") {
			continue
		}
		for f := range pv.p.reachNoContent(w) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if fa, ok := ins.(*ssa.FieldAddr); ok && tname(deref(fa.X.Type())) == recvName(w) {
						fields[fkey(fa.X.Type(), fa.Field)] = true
					}
				}
			}
		}
	}
	for k := range fields {
		for _, st := range pv.p.allStores()[k] {
			call, ok := st.val.(*ssa.Call)
			if !ok || fullCallee(&call.Call) != "builtin.append" {
				continue
			}
			out = append(out, registration{st.ins.(*ssa.Store), pv.it.varargs(BV{call.Call.Args[1], pv.vc.root(st.fn)}), k})
		}
	}
	return out
}

// registered: after the call that adds the object, every path to a return without error passes a
// registration of that position.
func (pv *prov) registered(res *Result, s isrc, regs []registration) {
	for _, fn := range pv.p.Funcs {
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok || pv.p.insPos(call) != s.pos || call.Call.StaticCallee() != pv.addFn {
					continue
				}
				ts := pv.dynTypes(BV{call.Call.Args[len(call.Call.Args)-1], pv.vc.root(fn)}, 0)
				if len(ts) == 1 && "obj:"+ts[0] != s.kind {
					continue
				}
				isReg := map[ssa.Instruction]bool{}
				for _, r := range regs {
					if r.st.Parent() != fn {
						continue
					}
					for _, el := range r.els {
						if pv.carries(el, call, s, r.st) {
							isReg[r.st] = true
						}
					}
				}
				// a helper that registers its parameter
				if len(isReg) == 0 {
					for _, blk := range fn.Blocks {
						for _, in2 := range blk.Instrs {
							c2, ok := in2.(*ssa.Call)
							if !ok || c2.Call.StaticCallee() == nil {
								continue
							}
							for _, r := range regs {
								if r.st.Parent() != c2.Call.StaticCallee() || !alwaysRunsModulo(pv, r.st) {
									continue
								}
								for _, el := range r.els {
									if pv.carriesArg(el, c2, call, s) {
										isReg[c2] = true
									}
								}
							}
						}
					}
				}
				if bad := pv.unregisteredPath(b, i, isReg); bad != "" {
					res.add("registration", fname(fn), "add "+s.kind, s.pos, "after the %s is added here, a path that ends at %s does not register it in the resource dictionary, but its number is used in content names", strings.TrimPrefix(s.kind, "obj:"), bad)
				}
			}
		}
	}
}

func alwaysRunsModulo(pv *prov, ins ssa.Instruction) bool {
	return pv.unregisteredPath(ins.Parent().Blocks[0], -1, map[ssa.Instruction]bool{ins: true}) == ""
}

// carries: the appended element is the position (or a structure with a field that is).
func (pv *prov) carries(el BV, call *ssa.Call, s isrc, at ssa.Instruction) bool {
	el = pv.vc.resolve(el)
	is := func(b BV) bool {
		if !isInteger(b.v.Type()) {
			return false
		}
		for _, o := range pv.of(b, at.Block()) {
			if o.kind == s.kind && o.pos == s.pos {
				return true
			}
		}
		return false
	}
	if is(el) {
		return true
	}
	ld, ok := el.v.(*ssa.UnOp)
	if !ok {
		return false
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	_, fields := allocStores(al)
	for _, sts := range fields {
		for _, st := range sts {
			if is(BV{st.Val, pv.vc.frameOfStore(el.fr, st)}) {
				return true
			}
		}
	}
	return false
}

func (pv *prov) carriesArg(el BV, c2, call *ssa.Call, s isrc) bool {
	fr := pv.vc.enter(pv.vc.root(c2.Parent()), c2, c2.Call.StaticCallee())
	return pv.carries(BV{el.v, fr}, call, s, c2)
}

// unregisteredPath walks from just after the instruction to the returns; branches on whether the
// resource dictionary exists are taken as true.
func (pv *prov) unregisteredPath(b *ssa.BasicBlock, idx int, isReg map[ssa.Instruction]bool) string {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) string
	walk = func(b *ssa.BasicBlock, from int) string {
		for i := from; i < len(b.Instrs); i++ {
			ins := b.Instrs[i]
			if isReg[ins] {
				return ""
			}
			if r, ok := ins.(*ssa.Return); ok {
				n := len(r.Results) - 1
				if n >= 0 && isErrorType(r.Results[n].Type()) && !isNilConst(retVals(r)[n]) {
					return "" // failing return: the number is not handed on
				}
				return pv.p.insPos(r)
			}
			if iff, ok := ins.(*ssa.If); ok {
				if t, known := pv.resourcesExist(iff.Cond); known {
					s := b.Succs[1]
					if t {
						s = b.Succs[0]
					}
					if !seen[s] {
						seen[s] = true
						return walk(s, 0)
					}
					return ""
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if r := walk(s, 0); r != "" {
					return r
				}
			}
		}
		return ""
	}
	return walk(b, idx+1)
}

// resourcesExist recognises a test that the position of the resource dictionary is set (always true
// once a document is started: it is one of the objects with a fixed number).
func (pv *prov) resourcesExist(cond ssa.Value) (bool, bool) {
	c, neg := stripNot(cond)
	bo, ok := c.(*ssa.BinOp)
	if !ok {
		return false, false
	}
	x, y := bo.X, bo.Y
	k, isC := constInt(y)
	if !isC || k > 0 {
		return false, false
	}
	ld, ok := x.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false, false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false, false
	}
	kinds := pv.p.objKinds()
	n := 0
	for _, st := range pv.p.allStores()[fkey(fa.X.Type(), fa.Field)] {
		for _, s := range pv.of(BV{st.val, pv.vc.root(st.fn)}, st.ins.Block()) {
			if s.kind == "const" {
				continue
			}
			if !strings.HasPrefix(s.kind, "obj:") || !anyAlt(kinds[strings.TrimPrefix(s.kind, "obj:")], "resources") {
				return false, false
			}
			n++
		}
	}
	if n == 0 {
		return false, false
	}
	switch bo.Op {
	case token.NEQ, token.GTR, token.GEQ:
		return !neg, true
	case token.EQL, token.LSS, token.LEQ:
		return neg, true
	}
	return false, false
}

// counters: a name number taken from a counter is registered before the counter advances, and the
// counter advances by one after each registration, so no two entries share a name.
func (pv *prov) counters(res *Result, used map[string]bool) {
	for _, k := range pv.counterFields() {
		label := "field:" + pv.fieldLabel(k)
		if !used[label] {
			continue
		}
		for _, st := range pv.p.allStores()[k] {
			bo, ok := st.val.(*ssa.BinOp)
			if ok && bo.Op == token.ADD && (isLoadOf(bo.X, k) || isLoadOf(bo.Y, k)) {
				c, okc := constInt(bo.Y)
				if !okc {
					c, okc = constInt(bo.X)
				}
				if !okc || c < 1 {
					res.add("counter", fname(st.fn), label, pv.p.insPos(st.ins), "the counter %s does not advance by a positive constant", label)
				}
				continue
			}
			if _, isC := st.val.(*ssa.Const); isC {
				continue // start of a document
			}
			res.add("counter", fname(st.fn), label, pv.p.insPos(st.ins), "the counter %s is set to something other than the next number", label)
		}
		for _, r := range pv.registrations() {
			uses := false
			for _, el := range r.els {
				el = pv.vc.resolve(el)
				ld, ok := el.v.(*ssa.UnOp)
				if !ok {
					continue
				}
				al, ok := ld.X.(*ssa.Alloc)
				if !ok {
					continue
				}
				_, fields := allocStores(al)
				for _, sts := range fields {
					for _, st := range sts {
						if !isInteger(st.Val.Type()) {
							continue
						}
						for _, o := range pv.of(BV{st.Val, pv.vc.root(st.Parent())}, st.Block()) {
							if o.kind == label {
								uses = true
							}
						}
					}
				}
			}
			if !uses {
				continue
			}
			fn := r.st.Parent()
			incs := map[ssa.Instruction]bool{}
			for _, st := range pv.p.allStores()[k] {
				if st.fn != fn {
					continue
				}
				if bo, ok := st.val.(*ssa.BinOp); ok && bo.Op == token.ADD {
					incs[st.ins] = true
				}
			}
			idx := 0
			for i, ins := range r.st.Block().Instrs {
				if ins == ssa.Instruction(r.st) {
					idx = i
				}
			}
			before := false
			for inc := range incs {
				before = before || dominates(inc, r.st)
			}
			if bad := pv.unregisteredPath(r.st.Block(), idx, incs); bad != "" && !before {
				res.add("counter", fname(fn), label+" not advanced", pv.p.insPos(r.st), "after an entry is registered under the number of %s, a path that ends at %s does not advance the counter: the next entry gets the same name", label, bad)
			}
			// the number the content uses is read under the same count
			for inc := range incs {
				for _, st := range pv.readsAfter(fn, k, inc) {
					res.add("counter", fname(fn), label+" read after advance", pv.p.insPos(st), "the number is read after the counter was advanced: it names the next entry")
				}
			}
		}
	}
}

// readsAfter lists stores of the counter's value into another field that can follow the increment.
func (pv *prov) readsAfter(fn *ssa.Function, k fieldKey, inc ssa.Instruction) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || !isLoadOf(st.Val, k) {
				continue
			}
			ld := st.Val.(*ssa.UnOp)
			if reachesIns(inc, ld) && ssa.Instruction(st) != inc {
				out = append(out, st)
			}
		}
	}
	return out
}

func (pv *prov) counterFields() []fieldKey {
	var out []fieldKey
	for k := range pv.p.allStores() {
		if pv.isCounter(k) {
			out = append(out, k)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}
