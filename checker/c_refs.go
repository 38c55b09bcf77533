package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S02"] = checkS02
}

// refKinds: the kinds of object the entry at a path may refer to, by kind of the object holding it.
var refKinds = map[string]string{
	"page/Parent": "page tree", "page/Resources": "resources", "page/Annots/[]": "annotation",
	"page/Contents": "content stream", "page tree/Kids/[]": "page",
	"outline item/Parent": "outline root|outline item", "outline item/Prev": "outline item", "outline item/Next": "outline item",
	"outline item/First": "outline item", "outline item/Last": "outline item", "outline item/Dest/[]": "page",
	"outline root/First": "outline item", "outline root/Last": "outline item",
	"annotation/Dest/[]": "page",
	"catalog/Pages":      "page tree", "catalog/Outlines": "outline root",
	"CID font/FontDescriptor": "font descriptor", "font descriptor/FontFile2": "font program",
	"composite font/DescendantFonts/[]": "CID font", "composite font/ToUnicode": "cmap",
	"image/ColorSpace/[]": "data stream", "image/SMask": "image",
	"graphics state/SMask": "soft mask", "soft mask/G": "form",
	"resources/Font/F{}": "composite font", "resources/XObject/I{}": "image|form", "resources/ExtGState/GS{}": "graphics state",
	"resources/ColorSpace/CS{}": "colour space", "resources/XObject/{t}": "imported form",
	"trailer/Root": "catalog", "trailer/Encrypt": "encryption",
}

var reIdx = regexp.MustCompile(`\[\d+\]`)

// objKinds gives the kinds of object each writer writes.
func (p *Prog) objKinds() map[string][]string {
	e := p.emission()
	out := map[string][]string{}
	for _, f := range e.liveObj {
		set := map[string]bool{}
		for _, s := range e.objs[f].finals {
			o, ok := s.m.ps.(*objParser)
			if !ok {
				continue
			}
			k := kindOf(o)
			if k == "stream" {
				switch {
				case entries(o.keys)["Length1"] != "":
					k = "font program"
				case p.mentions(f, "begincmap"):
					k = "cmap"
				case p.invokes(f, e.cacheIf, e.cacheW):
					k = "content stream"
				default:
					k = "data stream"
				}
			}
			if k != "" && k != "null" {
				set[k] = true
			}
		}
		for k := range set {
			out[recvName(f)] = append(out[recvName(f)], k)
		}
		sort.Strings(out[recvName(f)])
	}
	return out
}

// mentions: a function reachable from f uses a string constant containing s.
func (p *Prog) mentions(f *ssa.Function, s string) bool {
	for g := range p.reachNoContent(f) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if c, ok := constString(*op); ok && strings.Contains(c, s) {
						return true
					}
				}
			}
		}
	}
	return false
}

// reachNoContent: functions reachable by static calls only.
func (p *Prog) reachNoContent(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.owns(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					rec(ci.Common().StaticCallee())
				}
			}
		}
	}
	rec(f)
	return seen
}

func (p *Prog) invokes(f *ssa.Function, iface *types.Named, m string) bool {
	for g := range p.reachNoContent(f) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() && ci.Common().Method.Name() == m && iface != nil && types.Identical(ci.Common().Value.Type(), iface) {
					return true
				}
			}
		}
	}
	return false
}

func alt(s, want string) bool {
	for _, w := range strings.Split(want, "|") {
		if s == w {
			return true
		}
	}
	return false
}

func checkS02(p *Prog) *Result {
	e := p.emission()
	pv := p.provenance()
	res := newResult("integer provenance: the number printed in every reference is traced, over all callers, field stores and loops, back to the position at which an object was added to the document; the kind of that object must be one the referring entry allows and one must have been added to the position exactly once",
		"numbers given by the page importer belong to the objects it delivers", "pages, outlines and resource entries exist in one document (see O05)")
	if pv.addFn == nil {
		res.add("anchor", "-", "object list", "-", "the function that appends an object to the document and returns its position was not found")
		return res
	}
	pv.listIntegrity(res)
	kinds := p.objKinds()
	sites := 0
	srcs := 0
	fixed := pv.fixedPositions(res)
	check := func(fn *ssa.Function, holder []string, rs refSite) {
		path := reIdx.ReplaceAllString(rs.path, "[]")
		want := ""
		for _, h := range holder {
			if w, ok := refKinds[h+"/"+path]; ok {
				want = w
			}
		}
		who := strings.Join(holder, "/") + " " + path
		name := "trailer"
		if fn != nil {
			name = fname(fn)
		}
		sites++
		if want == "" {
			res.add("unknown-entry", name, who, rs.pos, "a reference is written at %s of a %s object: no rule says what it may refer to", path, strings.Join(holder, " or "))
			return
		}
		if rs.src.v == nil {
			// a number written literally
			t := fixed[rs.lit]
			srcs++
			if t == "" {
				res.add("literal", name, who, rs.pos, "object number %d is written literally, but which object gets this number is not fixed", rs.lit)
				return
			}
			if !anyAlt(kinds[t], want) {
				res.add("kind", name, who, rs.pos, "/%s refers to object %d, which is a %s (%s), allowed is %s", path, rs.lit, t, strings.Join(kinds[t], " or "), want)
			} else {
				res.sample("%s: %s -> literal %d = %s", rs.pos, who, rs.lit, t)
			}
			return
		}
		var use *ssa.BasicBlock
		if i, ok := rs.src.v.(ssa.Instruction); ok {
			use = i.Block()
		}
		list := pv.of(rs.src, use)
		var got []string
		for _, s := range list {
			srcs++
			got = append(got, s.String())
			switch {
			case strings.HasPrefix(s.kind, "obj:"), strings.HasPrefix(s.kind, "self:"):
				t := s.kind[strings.Index(s.kind, ":")+1:]
				wantOff := int64(1)
				if strings.HasPrefix(s.kind, "self:") {
					wantOff = 0
				}
				if !anyAlt(kinds[t], want) {
					res.add("kind", name, who+" -> "+t, rs.pos, "the reference at %s can be the number of a %s (%s; from %s), allowed is %s", who, t, strings.Join(kinds[t], " or "), s.pos, want)
				} else if s.off != wantOff {
					res.add("numbering", name, who+" -> "+t, rs.pos, "the reference at %s can be the position of a %s plus %d (from %s): object numbers are positions plus one", who, t, s.off, s.pos)
				}
			case s.kind == "const":
				if pv.guarded(rs.src, s.off, use) {
					continue
				}
				if pv.established(rs.src, use, want, kinds) {
					res.sample("%s: %s is set before it is written whenever it is written", rs.pos, who)
					continue
				}
				if s.off > 0 && anyAlt(kinds[fixed[int(s.off)]], want) {
					continue
				}
				res.add("constant", name, who, rs.pos, "the reference at %s can be the constant %d (from %s): no test excludes this value and it is not the number of an object of kind %s", who, s.off, s.pos, want)
			case s.kind == "imp":
				if !alt("imported form", want) {
					res.add("kind", name, who+" -> imported", rs.pos, "the reference at %s can be a number of the page importer, allowed is %s", who, want)
				}
			case s.kind == "api":
				if want != "" {
					res.sample("%s: %s -> number handed in by the caller of %s", rs.pos, who, s.pos)
				}
			default:
				res.add("undecided", name, who, rs.pos, "where the object number at %s comes from cannot be decided: %s (at %s)", who, s, s.pos)
			}
		}
		if len(list) == 0 {
			res.add("undecided", name, who, rs.pos, "no origin was found for the object number at %s", who)
		}
		res.sample("%s: %s -> %s", rs.pos, who, strings.Join(got, ", "))
	}
	for _, f := range e.liveObj {
		var keys []string
		m := map[string]refSite{}
		for _, rs := range e.objs[f].r.refs {
			k := rs.pos + reIdx.ReplaceAllString(rs.path, "[]") + fmt.Sprintf("%p", rs.src.v)
			if _, ok := m[k]; !ok {
				keys = append(keys, k)
			}
			m[k] = rs
		}
		sort.Strings(keys)
		for _, k := range keys {
			check(f, kinds[recvName(f)], m[k])
		}
	}
	run := p.fileAnalysis()
	if run.err != "" {
		res.add("anchor", "-", "document writer", "-", "%s", run.err)
		return res
	}
	var tr []refSite
	for _, rs := range run.r.refs {
		tr = append(tr, rs)
	}
	sort.Slice(tr, func(i, j int) bool { return tr[i].path+tr[i].pos < tr[j].path+tr[j].pos })
	for _, rs := range tr {
		check(nil, []string{"trailer"}, rs)
	}
	pv.importerNumbers(res)
	res.floor("reference sites", sites, 18)
	res.Counts["origins of object numbers"] = srcs
	res.floor("kinds of referring entry", len(refKinds), 14)
	res.addRuns(e.objs, e.liveObj, "unresolved")
	return res
}

func anyAlt(have []string, want string) bool {
	for _, h := range have {
		if alt(h, want) {
			return true
		}
	}
	return false
}

// guarded: where the number is used, a test has excluded the value (number == bad).
func (pv *prov) guarded(num BV, bad int64, use *ssa.BasicBlock) bool {
	if use == nil {
		return false
	}
	vc := pv.vc
	base, k := vc.affine(num)
	if base.v == nil {
		return false
	}
	bk, _ := vc.condKey(base)
	v := bad - k // value of the base that must be excluded
	for d := use; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(d.Preds) != 1 || d.Preds[0] != id || len(id.Instrs) == 0 {
			continue
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id.Succs[0] == id.Succs[1] {
			continue
		}
		taken := id.Succs[0] == d
		cond, neg := stripNot(iff.Cond)
		if neg {
			taken = !taken
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		lb, lk := vc.affine(BV{bo.X, num.fr})
		rb, rk := vc.affine(BV{bo.Y, num.fr})
		var x, c int64
		op := bo.Op
		switch {
		case lb.v != nil && rb.v == nil && keyOf(vc, lb) == bk:
			x, c = v+lk, rk
		case rb.v != nil && lb.v == nil && keyOf(vc, rb) == bk:
			x, c, op = v+rk, lk, flip(op)
		default:
			continue
		}
		if constant.Compare(constant.MakeInt64(x), op, constant.MakeInt64(c)) != taken {
			return true
		}
	}
	return false
}

func keyOf(vc *valCtx, b BV) string { k, _ := vc.condKey(b); return k }

func flip(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}

// fixedPositions follows the function that empties the list and adds the first objects.
func (pv *prov) fixedPositions(res *Result) map[int]string {
	out := map[int]string{}
	adders := pv.p.reachers(pv.addFn)
	// functions that reset the list
	var resets []*ssa.Function
	for _, st := range pv.p.allStores()[pv.listFld] {
		if pv.emptyList(st.val) {
			resets = append(resets, st.fn)
		}
	}
	if len(resets) == 0 {
		return out
	}
	for _, rf := range resets {
		if adders[rf] {
			res.add("fixed", fname(rf), "reset", "-", "%s both empties the object list and adds objects", fname(rf))
			return out
		}
		callers := pv.p.staticCallers()[rf]
		if len(callers) != 1 {
			res.add("fixed", fname(rf), "reset", "-", "the object list is emptied from %d places, expected is one", len(callers))
			return out
		}
		rc := callers[0]
		host := rc.Parent()
		// calls in the host that may add objects, in dominance order
		var adds []ssa.CallInstruction
		for _, b := range host.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci == rc {
					continue
				}
				for _, f := range pv.p.calleesAt(ci, pv.p.takenFuncs()) {
					if adders[f] {
						adds = append(adds, ci)
						break
					}
				}
			}
		}
		sort.SliceStable(adds, func(i, j int) bool { return dominates(adds[i], adds[j]) })
		var prev ssa.Instruction = rc
		for n, ci := range adds {
			if ci.Common().StaticCallee() != pv.addFn || !dominates(prev, ci) || !alwaysRuns(ci) {
				break
			}
			args := ci.Common().Args
			ts := pv.dynTypes(BV{args[len(args)-1], pv.vc.root(host)}, 0)
			if len(ts) != 1 {
				break
			}
			out[n+1] = ts[0]
			prev = ci
		}
		res.Counts["objects with a fixed number"] = len(out)
	}
	return out
}

func (pv *prov) emptyList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeSlice:
		n, ok := constInt(x.Len)
		return ok && n == 0
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			arr, ok := deref(al.Type()).Underlying().(*types.Array)
			if ok && arr.Len() == 0 {
				return true
			}
		}
		if x.High != nil {
			n, ok := constInt(x.High)
			return ok && n == 0
		}
	}
	return false
}

// listIntegrity: positions never change: the list only grows through the add function, is only
// emptied when a document is started, and no element is replaced.
func (pv *prov) listIntegrity(res *Result) {
	p := pv.p
	n := 0
	for _, st := range p.allStores()[pv.listFld] {
		n++
		if st.fn == pv.addFn || pv.emptyList(st.val) {
			continue
		}
		res.add("list", fname(st.fn), "object list store", p.insPos(st.ins), "the object list is changed outside %s: positions handed out before may no longer be right", fname(pv.addFn))
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if ia, ok := x.Addr.(*ssa.IndexAddr); ok && pv.isList(ia.X.Type()) && !pv.localList(ia.X) {
						n++
						if !pv.sameElement(x, ia) {
							res.add("list", fname(fn), "element store", p.insPos(x), "an element of the object list is replaced: references to the object that was there now name another one")
						}
					}
				case *ssa.Call:
					full := fullCallee(&x.Call)
					if full == "builtin.copy" && len(x.Call.Args) > 0 && pv.isList(x.Call.Args[0].Type()) && !pv.localList(x.Call.Args[0]) {
						res.add("list", fname(fn), "copy", p.insPos(x), "elements of the object list are overwritten")
					}
					if strings.HasPrefix(full, "sort.") || strings.HasPrefix(full, "slices.") {
						for _, a := range x.Call.Args {
							if mi, ok := a.(*ssa.MakeInterface); ok {
								a = mi.X
							}
							if pv.isList(a.Type()) {
								res.add("list", fname(fn), "reorder", p.insPos(x), "the object list is reordered or changed by %s", full)
							}
						}
					}
				}
			}
		}
	}
	res.floor("stores to the object list", n, 1)
}

// localList: the slice is made in the function itself (variadic arguments, copies).
func (pv *prov) localList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Alloc:
		return true
	case *ssa.Slice:
		return pv.localList(x.X)
	}
	return false
}

// sameElement: list[i] = x where x was list[i].
func (pv *prov) sameElement(st *ssa.Store, ia *ssa.IndexAddr) bool {
	v := st.Val
	for {
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
			continue
		}
		if ta, ok := v.(*ssa.TypeAssert); ok {
			v = ta.X
			continue
		}
		break
	}
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	ib, ok := ld.X.(*ssa.IndexAddr)
	vc := pv.vc
	fr := vc.root(st.Parent())
	return ok && keyOf(vc, BV{ib.Index, fr}) == keyOf(vc, BV{ia.Index, fr}) && keyOf(vc, BV{ib.X, fr}) == keyOf(vc, BV{ia.X, fr})
}

// importerNumbers: the importer is told to number its objects from the number the next object gets,
// and no object is added before its objects are.
func (pv *prov) importerNumbers(res *Result) {
	p := pv.p
	adders := p.reachers(pv.addFn)
	n := 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || !strings.HasSuffix(fullCallee(ci.Common()), ".SetNextObjectID") || !strings.Contains(fullCallee(ci.Common()), "gofpdi") {
					continue
				}
				n++
				arg := BV{ci.Common().Args[len(ci.Common().Args)-1], pv.vc.root(fn)}
				ok = true
				for _, s := range pv.of(arg, b) {
					if s.kind != "len" || s.off != 1 {
						res.add("importer", fname(fn), "SetNextObjectID", p.insPos(ins), "the importer numbers its objects from %s instead of the number the next object gets", s)
						ok = false
					}
				}
				if !ok {
					continue
				}
				// from the reading of the length to the import of the objects nothing else is added
				if bad, pos := pv.addedBetween(arg, b, i, adders); bad != "" {
					res.add("importer", fname(fn), "order "+bad, pos, "%s may add an object between the numbering of imported objects and their import", bad)
				}
			}
		}
	}
	res.floor("importer numbering sites", n, 1)
}

// addedBetween walks from the number's origin forward; the first adding call on each path must be
// the one that imports (its arguments come from the importer).
func (pv *prov) addedBetween(arg BV, at *ssa.BasicBlock, idx int, adders map[*ssa.Function]bool) (string, string) {
	startB, startI := at, idx
	if i, ok := arg.v.(ssa.Instruction); ok && i.Block() != nil && i.Parent() == at.Parent() {
		startB = i.Block()
		for k, x := range startB.Instrs {
			if x == i {
				startI = k
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int) (string, string)
	walk = func(b *ssa.BasicBlock, from int) (string, string) {
		for k := from; k < len(b.Instrs); k++ {
			ci, ok := b.Instrs[k].(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, f := range pv.p.calleesAt(ci, pv.p.takenFuncs()) {
				if !adders[f] {
					continue
				}
				for _, a := range ci.Common().Args {
					if pv.it.fromImporter(BV{a, pv.vc.root(b.Parent())}, 0) {
						return "", ""
					}
				}
				return fname(f), pv.p.insPos(b.Instrs[k])
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if n, ps := walk(s, 0); n != "" {
					return n, ps
				}
			}
		}
		return "", ""
	}
	return walk(startB, startI+1)
}

var reParam = regexp.MustCompile(`P\d+/\w+`)

// conds lists the tests that hold in a block, in a form comparable between methods of one object.
func (pv *prov) conds(b *ssa.BasicBlock) map[string]bool {
	out := map[string]bool{}
	fr := pv.vc.root(b.Parent())
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(d.Preds) != 1 || d.Preds[0] != id || len(id.Instrs) == 0 {
			continue
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id.Succs[0] == id.Succs[1] {
			continue
		}
		taken := id.Succs[0] == d
		cond, neg := stripNot(iff.Cond)
		if neg {
			taken = !taken
		}
		out[fmt.Sprintf("%v:%s", taken, reParam.ReplaceAllString(keyOf(pv.vc, BV{cond, fr}), "P"))] = true
	}
	return out
}

// established: the number comes from a field that starts at a constant, but whenever the reference
// is written a function has run before that adds an object of the wanted kind if there is none, under
// conditions that hold here, and then stores its number.
func (pv *prov) established(num BV, use *ssa.BasicBlock, want string, kinds map[string][]string) bool {
	if use == nil {
		return false
	}
	ld, ok := num.v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	k := fkey(fa.X.Type(), fa.Field)
	here := pv.conds(use)
	for _, st := range pv.p.allStores()[k] {
		good := false
		for _, s := range pv.of(BV{st.val, pv.vc.root(st.fn)}, st.ins.Block()) {
			if strings.HasPrefix(s.kind, "obj:") && anyAlt(kinds[strings.TrimPrefix(s.kind, "obj:")], want) {
				good = true
			}
		}
		if !good || !pv.precededBy(use.Parent(), st.fn, 0) {
			continue
		}
		if pv.addsUnder(st.fn, st.ins.Block(), want, kinds, here, k, 0) {
			return true
		}
	}
	return false
}

// addsUnder: fn adds an object of the wanted kind, under conditions that hold here or say that none was
// added yet, before the block is reached (nil: anywhere).
func (pv *prov) addsUnder(fn *ssa.Function, before *ssa.BasicBlock, want string, kinds map[string][]string, here map[string]bool, k fieldKey, depth int) bool {
	if fn.Blocks == nil || depth > 3 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok || before != nil && !reachesBlock(b, before) {
				continue
			}
			cal := ci.Common().StaticCallee()
			if cal == nil {
				continue
			}
			conds := true
			for c := range pv.conds(b) {
				// either the condition under which the reference is written, or "none was added yet"
				if !here[c] && !pv.notYet(c, k) {
					conds = false
				}
			}
			if !conds {
				continue
			}
			if cal == pv.addFn {
				args := ci.Common().Args
				ts := pv.dynTypes(BV{args[len(args)-1], pv.vc.root(fn)}, 0)
				if len(ts) == 1 && anyAlt(kinds[ts[0]], want) {
					return true
				}
				continue
			}
			// a helper method of the same object
			if args := ci.Common().Args; len(args) > 0 && len(fn.Params) > 0 && args[0] == ssa.Value(fn.Params[0]) && pv.p.owns(cal) {
				if pv.addsUnder(cal, nil, want, kinds, here, k, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// notYet: the condition is field == constant or field <= constant for the field itself.
func (pv *prov) notYet(c string, k fieldKey) bool {
	f := fmt.Sprintf("ld(P.%d)", k.idx)
	return c == "true:("+f+"==0:int)" || c == "true:("+f+"<=0:int)" || c == "true:("+f+"<1:int)" || c == "false:("+f+"!=0:int)" || c == "false:("+f+">0:int)"
}

func reachesBlock(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(a)
}

// precededBy: every call of fn happens after a call of pre in the same operation.
func (pv *prov) precededBy(fn, pre *ssa.Function, depth int) bool {
	cs := pv.p.staticCallers()[fn]
	if len(cs) == 0 || depth > 4 {
		return false
	}
	for _, c := range cs {
		ok := false
		for _, b := range c.Parent().Blocks {
			for _, ins := range b.Instrs {
				if ci, o := ins.(ssa.CallInstruction); o && ci.Common().StaticCallee() == pre && dominates(ci, c) {
					ok = true
				}
			}
		}
		if !ok && !pv.precededBy(c.Parent(), pre, depth+1) {
			return false
		}
	}
	return true
}
