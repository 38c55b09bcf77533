package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// isrc is one origin of an integer that numbers an object (or a resource): kind plus offset.
//
//	obj:T   position in the object list of an object of Go type T
//	elem    position in the object list of an unknown element
//	len     number of objects
//	const   constant
//	self:T  the object number handed to T's writer
//	field:F counter field F (S08: numbering counters)
//	imp     number chosen by the page importer
//	api     parameter of an exported function nobody in the library calls
//	?       not understood
type isrc struct {
	kind string
	off  int64
	pos  string
	zero bool // implicit zero value of a field that is never set
}

func (s isrc) String() string { return fmt.Sprintf("%s%+d", s.kind, s.off) }

// prov computes integer origins, field sensitive and over all callers.
type prov struct {
	p       *Prog
	e       *emission
	vc      *valCtx
	it      *Interp
	addFn   *ssa.Function // appends an object to the list, returns its position
	addOff  int64         // offset of the returned number to the position
	listFld fieldKey
	memo    map[string][]isrc
	busy    map[string]bool
	counter map[fieldKey]bool // integer fields used as counters are opaque
	zeroT   map[string]bool   // types whose fields may keep their zero value
}

func (p *Prog) provenance() *prov {
	if p.provMemo != nil {
		return p.provMemo
	}
	e := p.emission()
	pv := &prov{p: p, e: e, memo: map[string][]isrc{}, busy: map[string]bool{}, counter: map[fieldKey]bool{}, zeroT: map[string]bool{}}
	p.provMemo = pv
	vc := *e.vc
	pv.vc = &vc
	pv.it = newInterp(p, pv.vc, newReporter(p, pv.vc, "prov"))
	for _, f := range e.liveObj {
		pv.zeroT[recvName(f)] = true
	}
	pv.findAdd()
	return pv
}

func (pv *prov) isList(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && pv.e.objIface != nil && types.Identical(sl.Elem(), pv.e.objIface)
}

// findAdd finds the function that appends its parameter to the object list field and returns the
// position.
func (pv *prov) findAdd() {
	for _, fn := range pv.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok || !pv.isList(st.Val.Type()) {
					continue
				}
				call, ok := st.Val.(*ssa.Call)
				if !ok || fullCallee(&call.Call) != "builtin.append" {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				pv.listFld = fkey(fa.X.Type(), fa.Field)
				els := pv.it.varargs(BV{call.Call.Args[1], pv.vc.root(fn)})
				if len(els) != 1 {
					continue
				}
				if _, isP := els[0].v.(*ssa.Parameter); !isP {
					continue
				}
				rets := returnsOf(fn)
				if len(rets) != 1 || len(rets[0].Results) != 1 || !isInteger(rets[0].Results[0].Type()) {
					continue
				}
				base, k := pv.vc.affine(BV{rets[0].Results[0], pv.vc.root(fn)})
				lc, ok := base.v.(*ssa.Call)
				if !ok || fullCallee(&lc.Call) != "builtin.len" {
					continue
				}
				arg := lc.Call.Args[0]
				switch {
				case arg == ssa.Value(call):
					k--
				case isLoadOf(arg, pv.listFld):
					if after(lc, arg.(ssa.Instruction), st) {
						k--
					}
				default:
					continue
				}
				pv.addFn, pv.addOff = fn, k
				pv.vc.opaque = fn
			}
		}
	}
}

func isLoadOf(v ssa.Value, k fieldKey) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	return ok && fkey(fa.X.Type(), fa.Field) == k
}

// after: the load happens after the store.
func after(_ ssa.Instruction, ld ssa.Instruction, st *ssa.Store) bool {
	if ld.Block() != st.Block() {
		return st.Block().Dominates(ld.Block())
	}
	for _, ins := range st.Block().Instrs {
		if ins == ld {
			return false
		}
		if ins == ssa.Instruction(st) {
			return true
		}
	}
	return false
}

func (pv *prov) of(b BV, use *ssa.BasicBlock) []isrc {
	return dedupSrc(pv.eval(b, use, 0))
}

func dedupSrc(in []isrc) []isrc {
	seen := map[string]bool{}
	var out []isrc
	for _, s := range in {
		k := s.String()
		if strings.HasPrefix(s.kind, "obj:") {
			k += s.pos
		}
		if s.zero {
			k += "z"
		}
		if !seen[k] {
			seen[k] = true
			out = append(out, s)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String()+out[i].pos < out[j].String()+out[j].pos })
	return out
}

func shift(in []isrc, k int64) []isrc {
	out := make([]isrc, len(in))
	for i, s := range in {
		s.off += k
		out[i] = s
	}
	return out
}

func (pv *prov) unknown(b BV, why string) []isrc {
	pos := ""
	if i, ok := b.v.(ssa.Instruction); ok {
		pos = pv.p.insPos(i)
	}
	return []isrc{{kind: "? (" + why + ")", pos: pos}}
}

func (pv *prov) eval(b BV, use *ssa.BasicBlock, depth int) []isrc {
	if depth > 40 {
		return pv.unknown(b, "too deep")
	}
	vc := pv.vc
	base, k := vc.affine(b)
	if base.v == nil {
		pos := ""
		if i, ok := b.v.(ssa.Instruction); ok {
			pos = pv.p.insPos(i)
		}
		return []isrc{{kind: "const", off: k, pos: pos}}
	}
	// range form: the counter is the phi plus one
	if phi, ok := base.v.(*ssa.Phi); ok {
		if ind, ok := vc.inductionOf(base); ok && ind.bound.v == nil {
			for _, ins := range phi.Block().Instrs {
				if bo, ok := ins.(*ssa.BinOp); ok && bo.X == ssa.Value(phi) {
					if ind, ok := vc.inductionOf(BV{bo, base.fr}); ok && ind.bound.v != nil {
						base.v = bo
						k--
						break
					}
				}
			}
		}
	}
	// keep the block in which the number is computed: it tells which kind of element it is
	if i, ok := b.v.(ssa.Instruction); ok && i.Block() != nil && use == nil {
		use = i.Block()
	}
	if i, ok := base.v.(ssa.Instruction); ok && use != nil && i.Parent() != use.Parent() {
		use = i.Block()
	}
	key := fmt.Sprintf("%p@%p/%p", base.v, base.fr, use)
	if _, isParam := base.v.(*ssa.Parameter); isParam && base.fr != nil && base.fr.args == nil {
		key = fmt.Sprintf("%p", base.v)
	}
	if m, ok := pv.memo[key]; ok {
		return shift(m, k)
	}
	if pv.busy[key] {
		return nil
	}
	pv.busy[key] = true
	out := pv.eval1(base, use, depth)
	delete(pv.busy, key)
	// constants that a branch around the use excludes
	kept := out[:0:0]
	for _, s := range out {
		if s.kind != "const" || !pv.guarded(base, s.off, use) {
			kept = append(kept, s)
		}
	}
	out = kept
	out = dedupSrc(out)
	if depth == 0 {
		pv.memo[key] = out
	}
	return shift(out, k)
}

func (pv *prov) eval1(b BV, use *ssa.BasicBlock, depth int) []isrc {
	vc := pv.vc
	switch x := b.v.(type) {
	case *ssa.Const:
		if n, ok := constInt(x); ok {
			return []isrc{{kind: "const", off: n}}
		}
		return nil
	case *ssa.Call:
		if fullCallee(&x.Call) == "builtin.len" {
			if pv.isList(x.Call.Args[0].Type()) {
				return []isrc{{kind: "len", pos: pv.p.insPos(x)}}
			}
			return pv.unknown(b, "length of "+tname(x.Call.Args[0].Type()))
		}
		return pv.callSrc(b, x, 0, depth)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			return pv.callSrc(BV{x, b.fr}, t, x.Index, depth)
		case *ssa.Next:
			if pv.it.fromImporter(b, 0) {
				return []isrc{{kind: "imp"}}
			}
			if rg, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
				return pv.mapVals(BV{rg.X, b.fr}, depth)
			}
		case *ssa.Lookup:
			if x.Index == 0 {
				return pv.mapVals(BV{t.X, b.fr}, depth)
			}
		}
		return pv.unknown(b, x.String())
	case *ssa.Lookup:
		return pv.mapVals(BV{x.X, b.fr}, depth)
	case *ssa.Phi:
		if ind, ok := vc.inductionOf(b); ok && ind.bound.v != nil {
			if s, o := pv.loopIndex(b, ind, use); o {
				return s
			}
		}
		var out []isrc
		for i, e := range x.Edges {
			if e == ssa.Value(x) {
				continue
			}
			if bo, ok := e.(*ssa.BinOp); ok && (bo.X == ssa.Value(x) || bo.Y == ssa.Value(x)) {
				return pv.unknown(b, "a number advanced in a loop")
			}
			out = append(out, pv.eval(BV{e, b.fr}, x.Block().Preds[i], depth+1)...)
		}
		return out
	case *ssa.BinOp:
		// range form of a counter
		if ind, ok := vc.inductionOf(b); ok && ind.bound.v != nil {
			if s, o := pv.loopIndex(b, ind, use); o {
				return s
			}
		}
		return pv.unknown(b, "computed number "+x.Op.String())
	case *ssa.Parameter:
		return pv.paramSrc(b, x, depth)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if st := pv.p.storedBefore(pv.vc, x); st != nil {
				return pv.eval(BV{st.Val, b.fr}, st.Block(), depth+1)
			}
			return pv.loadAddr(BV{x.X, b.fr}, depth)
		}
	case *ssa.Field:
		return pv.fieldSrc(fkey(x.X.Type(), x.Field), BV{x.X, b.fr}, depth)
	case *ssa.FreeVar:
		// variable captured by a closure: what is stored to it where it is declared
		return pv.loadAddr(b, depth)
	}
	return pv.unknown(b, fmt.Sprintf("%T", b.v))
}

func (pv *prov) callSrc(b BV, call *ssa.Call, idx, depth int) []isrc {
	vc := pv.vc
	f := vc.callees0(call)
	if f == nil {
		if strings.Contains(fullCallee(&call.Call), "gofpdi") {
			return []isrc{{kind: "imp"}}
		}
		return pv.unknown(b, "result of "+fullCallee(&call.Call))
	}
	if f == pv.addFn {
		var out []isrc
		args := call.Call.Args
		for _, t := range pv.dynTypes(BV{args[len(args)-1], b.fr}, 0) {
			out = append(out, isrc{kind: "obj:" + t, off: pv.addOff, pos: pv.p.insPos(call)})
		}
		return out
	}
	fr := b.fr
	var nf *Frame
	if fr != nil && !fr.inChain(f) && fr.depth < 12 {
		nf = vc.enter(fr, call, f)
	} else {
		nf = vc.root(f)
	}
	var out []isrc
	for _, r := range returnsOf(f) {
		if idx < len(r.Results) {
			if failing(r, idx) {
				continue
			}
			out = append(out, pv.eval(BV{retVals(r)[idx], nf}, r.Block(), depth+1)...)
		}
	}
	return out
}

// failing: the return carries a non-nil error made on the spot, its other results are not used.
func failing(r *ssa.Return, idx int) bool {
	n := len(r.Results) - 1
	if n < 0 || idx == n || !isErrorType(r.Results[n].Type()) {
		return false
	}
	return !isNilConst(retVals(r)[n]) && func() bool {
		_, isC := retVals(r)[idx].(*ssa.Const)
		return isC
	}()
}

// dynTypes lists the concrete types an interface value may have.
func (pv *prov) dynTypes(b BV, depth int) []string {
	if depth > 10 {
		return []string{"?"}
	}
	b = pv.vc.resolve(b)
	if !types.IsInterface(b.v.Type()) {
		return []string{strings.TrimPrefix(shortType(b.v.Type()), "*")}
	}
	switch x := b.v.(type) {
	case *ssa.Phi:
		var out []string
		for _, e := range x.Edges {
			out = append(out, pv.dynTypes(BV{e, b.fr}, depth+1)...)
		}
		return out
	case *ssa.Parameter:
		var out []string
		for _, a := range pv.callerArgs(x) {
			out = append(out, pv.dynTypes(a.BV, depth+1)...)
		}
		return out
	case *ssa.Call:
		if f := pv.vc.callees0(x); f != nil {
			var out []string
			for _, r := range returnsOf(f) {
				if len(r.Results) > 0 && !isNilConst(retVals(r)[0]) {
					out = append(out, pv.dynTypes(BV{retVals(r)[0], pv.vc.root(f)}, depth+1)...)
				}
			}
			return out
		}
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if f := pv.vc.callees0(call); f != nil {
				var out []string
				for _, r := range returnsOf(f) {
					if !isNilConst(retVals(r)[x.Index]) {
						out = append(out, pv.dynTypes(BV{retVals(r)[x.Index], pv.vc.root(f)}, depth+1)...)
					}
				}
				return out
			}
		}
	}
	return []string{"?"}
}

func shortType(t types.Type) string {
	return types.TypeString(t, func(*types.Package) string { return "" })
}

// callerArg is a value passed for a parameter and the block that calls.
type callerArg struct {
	BV
	use *ssa.BasicBlock
}

func (pv *prov) callerArgs(x *ssa.Parameter) []callerArg {
	var out []callerArg
	i := paramIndex(x)
	for _, c := range pv.p.staticCallers()[x.Parent()] {
		cc := c.Common()
		j := i
		if cc.IsInvoke() {
			j--
		}
		if j >= 0 && j < len(cc.Args) {
			out = append(out, callerArg{BV{cc.Args[j], pv.vc.root(c.Parent())}, c.Block()})
		}
	}
	return out
}

func (pv *prov) paramSrc(b BV, x *ssa.Parameter, depth int) []isrc {
	fn := x.Parent()
	for _, w := range pv.e.liveObj {
		if w == fn && paramIndex(x) == len(fn.Params)-1 {
			return []isrc{{kind: "self:" + recvName(fn)}}
		}
	}
	var out []isrc
	args := pv.callerArgs(x)
	for _, a := range args {
		out = append(out, pv.eval(a.BV, a.use, depth+1)...)
	}
	if len(args) == 0 {
		return []isrc{{kind: "api", pos: fname(fn)}}
	}
	return out
}

// loadAddr: what may be stored at an address.
func (pv *prov) loadAddr(ad BV, depth int) []isrc {
	if depth > 40 {
		return pv.unknown(ad, "too deep")
	}
	ad = pv.vc.resolve(ad)
	switch a := ad.v.(type) {
	case *ssa.FieldAddr:
		return pv.fieldSrc(fkey(a.X.Type(), a.Field), BV{a.X, ad.fr}, depth)
	case *ssa.Alloc:
		whole, _ := allocStores(a)
		var out []isrc
		for _, st := range whole {
			out = append(out, pv.eval(BV{st.Val, pv.vc.frameOfStore(ad.fr, st)}, st.Block(), depth+1)...)
		}
		if len(whole) == 0 {
			out = append(out, isrc{kind: "const", zero: true})
		}
		return out
	case *ssa.IndexAddr:
		return pv.elemSrc(BV{a.X, ad.fr}, depth)
	case *ssa.UnOp:
		// pointer loaded from somewhere
		return pv.pointee(ad, depth)
	case *ssa.Parameter, *ssa.Phi, *ssa.Call, *ssa.Extract:
		return pv.pointee(ad, depth)
	}
	return pv.unknown(ad, fmt.Sprintf("load through %T", ad.v))
}

func (pv *prov) pointee(b BV, depth int) []isrc {
	if depth > 40 {
		return nil
	}
	key := fmt.Sprintf("ptr%p", b.v)
	if pv.busy[key] {
		return nil
	}
	pv.busy[key] = true
	defer delete(pv.busy, key)
	b = pv.vc.resolve(b)
	switch x := b.v.(type) {
	case *ssa.Const:
		return nil // nil pointer
	case *ssa.FieldAddr, *ssa.Alloc, *ssa.IndexAddr:
		return pv.loadAddr(b, depth+1)
	case *ssa.UnOp:
		if fa, ok := pv.vc.resolve(BV{x.X, b.fr}).v.(*ssa.FieldAddr); ok {
			var out []isrc
			for _, st := range pv.p.allStores()[fkey(fa.X.Type(), fa.Field)] {
				out = append(out, pv.pointee(BV{st.val, pv.vc.root(st.fn)}, depth+1)...)
			}
			return out
		}
	case *ssa.Phi:
		var out []isrc
		for _, e := range x.Edges {
			out = append(out, pv.pointee(BV{e, b.fr}, depth+1)...)
		}
		return out
	case *ssa.Parameter:
		var out []isrc
		args := pv.callerArgs(x)
		for _, a := range args {
			out = append(out, pv.pointee(a.BV, depth+1)...)
		}
		if len(args) == 0 {
			return []isrc{{kind: "api", pos: fname(x.Parent())}}
		}
		return out
	}
	return pv.unknown(b, fmt.Sprintf("pointer %T", b.v))
}

// fieldSrc: everything stored to a field anywhere.
func (pv *prov) fieldSrc(k fieldKey, base BV, depth int) []isrc {
	if pv.isCounter(k) {
		return []isrc{{kind: "field:" + pv.fieldLabel(k)}}
	}
	key := fmt.Sprintf("field %v", k)
	if pv.busy[key] {
		return nil
	}
	pv.busy[key] = true
	defer delete(pv.busy, key)
	var out []isrc
	for _, st := range pv.p.allStores()[k] {
		if _, isC := st.val.(*ssa.Const); isC && pv.overwritten(st, k) {
			continue
		}
		out = append(out, pv.eval(BV{st.val, pv.vc.root(st.fn)}, st.ins.Block(), depth+1)...)
	}
	if pv.maybeZero(k, base) {
		out = append(out, isrc{kind: "const", zero: true})
	}
	return out
}

func (pv *prov) fieldLabel(k fieldKey) string {
	for _, nt := range pv.p.namedTypes() {
		if tname(nt) == k.typ {
			return nt.Obj().Name() + "." + fieldName(nt, k.idx)
		}
	}
	return fmt.Sprintf("%s.%d", k.typ, k.idx)
}

// isCounter: the field is incremented in place somewhere.
func (pv *prov) isCounter(k fieldKey) bool {
	if v, ok := pv.counter[k]; ok {
		return v
	}
	r := false
	for _, st := range pv.p.allStores()[k] {
		bo, ok := st.val.(*ssa.BinOp)
		if ok && bo.Op == token.ADD && (isLoadOf(bo.X, k) || isLoadOf(bo.Y, k)) {
			r = true
		}
	}
	pv.counter[k] = r
	return r
}

// maybeZero: the object the field is read from may be one whose field was never set.
func (pv *prov) maybeZero(k fieldKey, base BV) bool {
	short := k.typ[strings.LastIndex(k.typ, ".")+1:]
	if !pv.zeroT[short] {
		return false
	}
	o := &origins{allocs: map[*ssa.Alloc]bool{}, seen: map[string]bool{}, k: k}
	pv.originsOf(base, o, 0)
	if o.unknown != "" {
		if os.Getenv("DBGZ") != "" {
			fmt.Println("UNKNOWN ORIGIN", k, o.unknown)
		}
		for _, fn := range pv.p.Funcs {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if al, ok := ins.(*ssa.Alloc); ok && tname(deref(al.Type())) == k.typ {
						o.allocs[al] = true
					}
				}
			}
		}
	}
	for al := range o.allocs {
		if !pv.fieldSet(al, k, 0) {
			if os.Getenv("DBGZ") != "" {
				fmt.Println("ZERO", k, pv.p.insPos(al), fname(al.Parent()), al.Comment)
			}
			return true
		}
	}
	return o.zero
}

// origins collects the places that make the objects a pointer or struct value may stand for.
type origins struct {
	k       fieldKey
	allocs  map[*ssa.Alloc]bool
	zero    bool
	unknown string
	seen    map[string]bool
}

func (pv *prov) originsOf(b BV, o *origins, depth int) {
	if depth > 40 || o.unknown != "" {
		o.unknown += " deep"
		return
	}
	b = pv.vc.resolve(b)
	key := fmt.Sprintf("%p", b.v)
	if o.seen[key] {
		return
	}
	o.seen[key] = true
	switch x := b.v.(type) {
	case *ssa.Alloc:
		if _, isPtr := deref(x.Type()).Underlying().(*types.Pointer); isPtr {
			o.unknown = "pointer variable"
			return
		}
		whole, _ := allocStores(x)
		if len(whole) == 0 || pv.fieldSet(x, o.k, 0) {
			o.allocs[x] = true
			return
		}
		for _, st := range whole {
			pv.originsOf(BV{st.Val, pv.vc.frameOfStore(b.fr, st)}, o, depth+1)
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		ad := pv.vc.resolve(BV{x.X, b.fr})
		switch a := ad.v.(type) {
		case *ssa.Alloc:
			if _, isPtr := deref(a.Type()).Underlying().(*types.Pointer); isPtr {
				whole, _ := allocStores(a)
				for _, st := range whole {
					pv.originsOf(BV{st.Val, pv.vc.frameOfStore(ad.fr, st)}, o, depth+1)
				}
				return
			}
			pv.originsOf(ad, o, depth+1)
		case *ssa.FieldAddr:
			pv.fieldOrigins(fkey(a.X.Type(), a.Field), o, depth)
		case *ssa.Parameter, *ssa.Phi, *ssa.Call, *ssa.Extract, *ssa.UnOp, *ssa.TypeAssert:
			pv.originsOf(ad, o, depth+1)
		default:
			o.unknown = fmt.Sprintf("load through %T", ad.v)
		}
	case *ssa.FieldAddr:
		pv.fieldOrigins(fkey(x.X.Type(), x.Field), o, depth)
	case *ssa.Field:
		pv.fieldOrigins(fkey(x.X.Type(), x.Field), o, depth)
	case *ssa.Phi:
		for _, e := range x.Edges {
			pv.originsOf(BV{e, b.fr}, o, depth+1)
		}
	case *ssa.Const:
		if !x.IsNil() && x.Value == nil {
			o.zero = true
		}
	case *ssa.Call:
		pv.resultOrigins(b, x, 0, o, depth)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			pv.resultOrigins(b, t, x.Index, o, depth)
			return
		case *ssa.TypeAssert:
			pv.originsOf(BV{t, b.fr}, o, depth+1)
			return
		case *ssa.Lookup:
			pv.mapOrigins(BV{t.X, b.fr}, o, depth)
			return
		case *ssa.Next:
			if rg, ok := t.Iter.(*ssa.Range); ok {
				pv.mapOrigins(BV{rg.X, b.fr}, o, depth)
				return
			}
		}
		o.unknown = x.String()
	case *ssa.Lookup:
		pv.mapOrigins(BV{x.X, b.fr}, o, depth)
	case *ssa.TypeAssert:
		if types.Identical(x.X.Type(), pv.e.objIface) {
			pv.listOrigins(x.AssertedType, o, depth)
			return
		}
		o.unknown = "type assertion"
	case *ssa.Parameter:
		fn := x.Parent()
		for _, w := range pv.e.liveObj {
			if w == fn && paramIndex(x) == 0 {
				pv.listOrigins(x.Type(), o, depth)
				return
			}
		}
		args := pv.callerArgs(x)
		for _, a := range args {
			pv.originsOf(a.BV, o, depth+1)
		}
		if len(args) == 0 {
			pv.handedOut(x.Type(), o, depth)
		}
	default:
		o.unknown = fmt.Sprintf("%T", b.v)
	}
}

func (pv *prov) resultOrigins(b BV, call *ssa.Call, idx int, o *origins, depth int) {
	f := pv.vc.callees0(call)
	if f == nil {
		o.unknown = "result of " + fullCallee(&call.Call)
		return
	}
	for _, r := range returnsOf(f) {
		vs := retVals(r)
		n := len(vs) - 1
		if n > idx {
			if c, ok := vs[n].(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool && !constant.BoolVal(c.Value) {
				continue // not found
			}
			if isErrorType(vs[n].Type()) && !isNilConst(vs[n]) {
				if ld, ok := vs[idx].(*ssa.UnOp); ok {
					if al, ok := ld.X.(*ssa.Alloc); ok {
						whole, fields := allocStores(al)
						if len(whole) == 0 && len(fields) == 0 {
							continue // zero value next to an error
						}
					}
				}
				if _, ok := vs[idx].(*ssa.Const); ok {
					continue
				}
			}
		}
		fr := pv.vc.root(f)
		if b.fr != nil && !b.fr.inChain(f) && b.fr.depth < 12 {
			fr = pv.vc.enter(b.fr, call, f)
		}
		pv.originsOf(BV{vs[idx], fr}, o, depth+1)
	}
}

// fieldOrigins: objects stored in a field; a field of an exported structure that the library never
// fills holds what callers were handed out.
func (pv *prov) fieldOrigins(k fieldKey, o *origins, depth int) {
	sts := pv.p.allStores()[k]
	for _, st := range sts {
		pv.originsOf(BV{st.val, pv.vc.root(st.fn)}, o, depth+1)
	}
	if len(sts) == 0 {
		for _, nt := range pv.p.namedTypes() {
			if st, ok := nt.Underlying().(*types.Struct); ok && tname(nt) == k.typ {
				if f := st.Field(k.idx); f.Exported() {
					pv.handedOut(f.Type(), o, depth)
				} else {
					o.unknown = "field never set"
				}
			}
		}
	}
}

// handedOut: objects of the type that exported functions return.
func (pv *prov) handedOut(t types.Type, o *origins, depth int) {
	for _, fn := range pv.p.exportedAPI(pv.p.Root) {
		rs := fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			if !types.Identical(deref(rs.At(i).Type()), deref(t)) {
				continue
			}
			for _, r := range returnsOf(fn) {
				pv.originsOf(BV{retVals(r)[i], pv.vc.root(fn)}, o, depth+1)
			}
		}
	}
}

// listOrigins: objects of the type added to the document.
func (pv *prov) listOrigins(t types.Type, o *origins, depth int) {
	for _, c := range pv.p.staticCallers()[pv.addFn] {
		args := c.Common().Args
		pv.ifaceOrigins(BV{args[len(args)-1], pv.vc.root(c.Parent())}, t, o, depth+1)
	}
}

func (pv *prov) ifaceOrigins(b BV, t types.Type, o *origins, depth int) {
	if depth > 40 {
		o.unknown = "deep"
		return
	}
	b = pv.vc.resolve(b)
	if !types.IsInterface(b.v.Type()) {
		if types.Identical(deref(b.v.Type()), deref(t)) {
			pv.originsOf(b, o, depth+1)
		}
		return
	}
	switch x := b.v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			pv.ifaceOrigins(BV{e, b.fr}, t, o, depth+1)
		}
	case *ssa.Parameter:
		for _, a := range pv.callerArgs(x) {
			pv.ifaceOrigins(a.BV, t, o, depth+1)
		}
	case *ssa.Call:
		pv.resultOrigins(b, x, 0, o, depth)
	default:
		o.unknown = fmt.Sprintf("interface %T", b.v)
	}
}

func (pv *prov) mapOrigins(m BV, o *origins, depth int) {
	m = pv.vc.resolve(m)
	ld, ok := m.v.(*ssa.UnOp)
	if !ok {
		o.unknown = "map"
		return
	}
	fa, ok := pv.vc.resolve(BV{ld.X, m.fr}).v.(*ssa.FieldAddr)
	if !ok {
		o.unknown = "map"
		return
	}
	k := fkey(fa.X.Type(), fa.Field)
	for _, fn := range pv.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok && isLoadOf(mu.Map, k) {
					pv.originsOf(BV{mu.Value, pv.vc.root(fn)}, o, depth+1)
				}
			}
		}
	}
}

func (pv *prov) fieldSet(v ssa.Value, k fieldKey, depth int) bool {
	if v.Referrers() == nil || depth > 4 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == v {
				return true
			}
			// kept in a variable or field: its other uses are not followed
			if al, ok := x.Addr.(*ssa.Alloc); ok {
				for _, u := range *al.Referrers() {
					if ld, ok := u.(*ssa.UnOp); ok && pv.fieldSet(ld, k, depth+1) {
						return true
					}
				}
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				// methods called on the field in the same function
				fk := fkey(fa.X.Type(), fa.Field)
				for _, b := range x.Parent().Blocks {
					for _, ins := range b.Instrs {
						if ld, ok := ins.(*ssa.UnOp); ok && isLoadOf(ld, fk) && pv.fieldSet(ld, k, depth+1) {
							return true
						}
					}
				}
			}
		case *ssa.FieldAddr:
			if x.Field == k.idx && x.Referrers() != nil {
				for _, u := range *x.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(x) {
						return true
					}
				}
			}
		case *ssa.UnOp:
			// the whole value copied into another variable that then gets the field
			if x.Op != token.MUL || x.Referrers() == nil {
				continue
			}
			for _, u := range *x.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Val == ssa.Value(x) {
					if al, ok := st.Addr.(*ssa.Alloc); ok && pv.fieldSet(al, k, depth+1) {
						return true
					}
				}
			}
		case ssa.CallInstruction:
			cc := x.Common()
			if f := cc.StaticCallee(); f != nil && f.Blocks != nil {
				for i, a := range cc.Args {
					if a == v && i < len(f.Params) && pv.fieldSet(f.Params[i], k, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// elemSrc: numbers stored as elements of a slice.
func (pv *prov) elemSrc(sl BV, depth int) []isrc {
	if depth > 40 {
		return nil
	}
	key := fmt.Sprintf("elem%p", sl.v)
	if pv.busy[key] {
		return nil
	}
	pv.busy[key] = true
	defer delete(pv.busy, key)
	sl = pv.vc.resolve(sl)
	var out []isrc
	switch x := sl.v.(type) {
	case *ssa.UnOp:
		if fa, ok := pv.vc.resolve(BV{x.X, sl.fr}).v.(*ssa.FieldAddr); ok {
			k := fkey(fa.X.Type(), fa.Field)
			for _, st := range pv.p.allStores()[k] {
				out = append(out, pv.elemSrc(BV{st.val, pv.vc.root(st.fn)}, depth+1)...)
			}
			// element assignments through the field
			for _, fn := range pv.p.Funcs {
				for _, b := range fn.Blocks {
					for _, ins := range b.Instrs {
						if st, ok := ins.(*ssa.Store); ok {
							if ia, ok := st.Addr.(*ssa.IndexAddr); ok && isLoadOf(ia.X, k) {
								out = append(out, pv.eval(BV{st.Val, pv.vc.root(fn)}, st.Block(), depth+1)...)
							}
						}
					}
				}
			}
			return out
		}
	case *ssa.Call:
		if fullCallee(&x.Call) == "builtin.append" {
			out = append(out, pv.elemSrc(BV{x.Call.Args[0], sl.fr}, depth+1)...)
			if els := pv.it.varargs(BV{x.Call.Args[1], sl.fr}); els != nil {
				for _, a := range els {
					out = append(out, pv.eval(a, x.Block(), depth+1)...)
				}
			} else {
				out = append(out, pv.elemSrc(BV{x.Call.Args[1], sl.fr}, depth+1)...)
			}
			return out
		}
	case *ssa.MakeSlice:
		for _, r := range *x.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, u := range *ia.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						out = append(out, pv.eval(BV{st.Val, sl.fr}, st.Block(), depth+1)...)
					}
				}
			}
		}
		return out
	case *ssa.Slice:
		for _, a := range pv.it.elems(sl) {
			out = append(out, pv.eval(a, nil, depth+1)...)
		}
		return out
	case *ssa.Const:
		return nil
	case *ssa.Phi:
		for _, e := range x.Edges {
			out = append(out, pv.elemSrc(BV{e, sl.fr}, depth+1)...)
		}
		return out
	case *ssa.Parameter:
		for _, a := range pv.callerArgs(x) {
			out = append(out, pv.elemSrc(a.BV, depth+1)...)
		}
		return out
	}
	return pv.unknown(sl, fmt.Sprintf("element of %T", sl.v))
}

// mapVals: numbers stored as values of a map (struct values are handled by their fields).
func (pv *prov) mapVals(m BV, depth int) []isrc {
	m = pv.vc.resolve(m)
	var k fieldKey
	if ld, ok := m.v.(*ssa.UnOp); ok {
		if fa, ok := pv.vc.resolve(BV{ld.X, m.fr}).v.(*ssa.FieldAddr); ok {
			k = fkey(fa.X.Type(), fa.Field)
		}
	}
	if k.typ == "" {
		return pv.unknown(m, "map")
	}
	if pv.it.fieldFromImporter(k) {
		return []isrc{{kind: "imp"}}
	}
	var out []isrc
	for _, fn := range pv.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok && isLoadOf(mu.Map, k) {
					out = append(out, pv.eval(BV{mu.Value, pv.vc.root(fn)}, mu.Block(), depth+1)...)
				}
			}
		}
	}
	return out
}

// loopIndex: the counter of a loop over the object list, with the kinds of element for which the
// using block is reached.
func (pv *prov) loopIndex(b BV, ind induction, use *ssa.BasicBlock) ([]isrc, bool) {
	n, d := pv.vc.count(ind.bound, pv.isList, 0)
	if n != "OBJS" || d > 0 {
		return nil, false
	}
	if use == nil || use.Parent() != ind.head.Parent() {
		return []isrc{{kind: "elem"}}, true
	}
	// conditions on the element's kind that hold where the number is used
	for d := use; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(d.Preds) != 1 || d.Preds[0] != id || len(id.Instrs) == 0 {
			continue
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id.Succs[0] == id.Succs[1] {
			continue
		}
		taken := id.Succs[0] == d
		cond, neg := stripNot(iff.Cond)
		if neg {
			taken = !taken
		}
		switch c := cond.(type) {
		case *ssa.BinOp:
			if c.Op != token.EQL && c.Op != token.NEQ || !isString(c.X.Type()) {
				continue
			}
			if (c.Op == token.EQL) != taken {
				continue
			}
			for _, pr := range [][2]ssa.Value{{c.X, c.Y}, {c.Y, c.X}} {
				s, ok := pv.vc.evalConst(BV{pr[1], b.fr}, nil, 0)
				if !ok || s.Kind() != constant.String {
					continue
				}
				call, ok := pr[0].(*ssa.Call)
				if !ok || !call.Call.IsInvoke() || !pv.elementAt(call.Call.Value, b.v) {
					continue
				}
				return pv.typesNamed(call.Call.Method.Name(), constant.StringVal(s)), true
			}
		case *ssa.Extract:
			ta, ok := c.Tuple.(*ssa.TypeAssert)
			if !ok || !taken || c.Index != 1 || !pv.elementAt(ta.X, b.v) {
				continue
			}
			return []isrc{{kind: "obj:" + strings.TrimPrefix(shortType(ta.AssertedType), "*")}}, true
		}
	}
	return []isrc{{kind: "elem"}}, true
}

// elementAt: v is the element of the object list at the index.
func (pv *prov) elementAt(v, idx ssa.Value) bool {
	ld, ok := slotValue(v).(*ssa.UnOp)
	if !ok {
		if ld, ok = v.(*ssa.UnOp); !ok {
			return false
		}
	}
	ia, ok := ld.X.(*ssa.IndexAddr)
	return ok && pv.isList(ia.X.Type()) && ia.Index == idx
}

// typesNamed lists the object types whose kind method returns the string.
func (pv *prov) typesNamed(method, s string) []isrc {
	var out []isrc
	for _, w := range pv.e.liveObj {
		t := w.Signature.Recv().Type()
		sel := pv.p.SSA.MethodSets.MethodSet(t).Lookup(pv.p.Root.Pkg, method)
		if sel == nil {
			continue
		}
		f := pv.p.unwrap(pv.p.SSA.MethodValue(sel))
		if f == nil {
			continue
		}
		for _, r := range returnsOf(f) {
			if c, ok := pv.vc.evalConst(BV{retVals(r)[0], pv.vc.root(f)}, nil, 0); !ok || c.Kind() == constant.String && constant.StringVal(c) == s {
				out = append(out, isrc{kind: "obj:" + recvName(w)})
			}
		}
	}
	if len(out) == 0 {
		out = append(out, isrc{kind: "none"})
	}
	return out
}

// overwritten: the store is made by a helper on its receiver, and every caller of the helper goes on
// to set the field of the same object unconditionally.
func (pv *prov) overwritten(st fieldStore, k fieldKey) bool {
	fa, ok := st.ins.(*ssa.Store).Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	prm, ok := fa.X.(*ssa.Parameter)
	if !ok {
		return false
	}
	i := paramIndex(prm)
	calls := pv.p.staticCallers()[st.fn]
	n := 0
	for _, c := range calls {
		cc := c.Common()
		if cc.IsInvoke() {
			continue
		}
		n++
		fr := pv.vc.root(c.Parent())
		want := keyOf(pv.vc, BV{cc.Args[i], fr})
		found := false
		for _, b := range c.Parent().Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || !dominates(c, ci) || !postDominates(ci.Block(), c.Block()) {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Blocks == nil || g == st.fn {
					continue
				}
				for j, a := range ci.Common().Args {
					if j < len(g.Params) && keyOf(pv.vc, BV{a, fr}) == want && setsAlways(g, g.Params[j], k) {
						found = true
					}
				}
			}
		}
		if !found {
			return false
		}
	}
	return n > 0
}

// setsAlways: g stores the field of the object its parameter points to on every path.
func setsAlways(g *ssa.Function, prm *ssa.Parameter, k fieldKey) bool {
	for _, b := range g.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if ok && fa.X == ssa.Value(prm) && fa.Field == k.idx && alwaysRuns(st) {
				return true
			}
		}
	}
	return false
}

// postDominates: every path from b to a return passes a.
func postDominates(a, b *ssa.BasicBlock) bool {
	if a == b {
		return true
	}
	seen := map[*ssa.BasicBlock]bool{a: true}
	var esc func(x *ssa.BasicBlock) bool
	esc = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if len(x.Succs) == 0 {
			_, isRet := x.Instrs[len(x.Instrs)-1].(*ssa.Return)
			return isRet
		}
		for _, s := range x.Succs {
			if esc(s) {
				return true
			}
		}
		return false
	}
	return !esc(b)
}

// storedBefore finds the store in the same function whose value a field load must see: it dominates
// the load, and nothing between the two may change the field.
func (p *Prog) storedBefore(vc *valCtx, ld *ssa.UnOp) *ssa.Store {
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return nil
	}
	k := fkey(fa.X.Type(), fa.Field)
	fr := vc.root(ld.Parent())
	base := keyOf(vc, BV{fa.X, fr})
	var cand []*ssa.Store
	for _, st := range p.allStores()[k] {
		s, ok := st.ins.(*ssa.Store)
		if !ok || st.fn != ld.Parent() {
			continue
		}
		sa := s.Addr.(*ssa.FieldAddr)
		if dominates(s, ld) && keyOf(vc, BV{sa.X, fr}) == base {
			cand = append(cand, s)
		}
	}
	for _, s := range cand {
		if !p.changedBetween(k, s, ld) {
			return s
		}
	}
	return nil
}

// changedBetween: on a path from a to b (both exclusive) the field may be stored.
func (p *Prog) changedBetween(k fieldKey, a, b ssa.Instruction) bool {
	bad := func(ins ssa.Instruction) bool {
		switch x := ins.(type) {
		case *ssa.Store:
			fa, ok := x.Addr.(*ssa.FieldAddr)
			return ok && fkey(fa.X.Type(), fa.Field) == k
		case ssa.CallInstruction:
			if _, isDefer := ins.(*ssa.Defer); isDefer {
				return false
			}
			for _, f := range p.calleesAt(x, p.takenFuncs()) {
				for g := range p.reach(f) {
					for _, st := range p.allStores()[k] {
						if st.fn == g {
							return true
						}
					}
				}
			}
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(blk *ssa.BasicBlock, from int) bool
	walk = func(blk *ssa.BasicBlock, from int) bool {
		for i := from; i < len(blk.Instrs); i++ {
			ins := blk.Instrs[i]
			if ins == b {
				return false
			}
			if ins == a {
				return false // a new store
			}
			if bad(ins) && reachesIns(ins, b) {
				return true
			}
		}
		for _, s := range blk.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	start := 0
	for i, ins := range a.Block().Instrs {
		if ins == a {
			start = i + 1
		}
	}
	return walk(a.Block(), start)
}

func reachesIns(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, ins := range a.Block().Instrs {
			if ins == a {
				return true
			}
			if ins == b {
				break
			}
		}
	}
	for _, s := range a.Block().Succs {
		if reachesBlock(s, b.Block()) {
			return true
		}
	}
	return false
}
