package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// L05: every character drawn or measured is registered in the subset of the font it is drawn with.
// Backwards from every lookup in a font's table of characters (and from every text kept by an element),
// the text must have been given back by the registering call of the same font, with no change of the
// current font in between; the registering call itself must register each character it gives back.

func init() { checks["L05"] = checkL05 }

type regist struct {
	p       *Prog
	res     *Result
	table   *types.Named // table of characters
	font    *types.Named
	cur     fieldKey // the current font of a document
	owner   fieldKey // the table of a font
	set     *ssa.Function
	query   map[*ssa.Function]bool // table methods whose result tells whether a character is there
	look    map[*ssa.Function]bool // table methods that give what is kept for a character
	regFns  map[*ssa.Function]bool // methods of the font that register
	adders  map[*ssa.Function]bool // of these, those that give text back
	curSet  map[*ssa.Function]bool // functions that may change the current font
	pairs   map[fieldKey]fieldKey  // text field -> font field of elements
	pending []fieldKey
	done    map[string]bool
	lookups int
	texts   int
	sources map[ssa.Instruction]bool
	facts   map[*ssa.Function]*regFacts
	sums    map[*ssa.Function]*regSum
	busy    map[*ssa.Function]bool
}

// fontID says which font a text must be registered with.
type fontID struct {
	kind string // "cur", "field", "val"
	k    fieldKey
	v    ssa.Value // value, or base of the field
	env  *regEnv
}

type regEnv struct {
	call ssa.CallInstruction
	up   *regEnv
}

func checkL05(p *Prog) *Result {
	res := newResult("backward provenance of every text looked up or kept against the registering call, must-register dataflow of the registering call",
		"The font's own lookup of glyphs is correct for the characters it finds (run-time tables).",
		"Functions of the caller that take no arguments may change the current font, others do not.")
	g := &regist{p: p, res: res, query: map[*ssa.Function]bool{}, look: map[*ssa.Function]bool{}, regFns: map[*ssa.Function]bool{},
		adders: map[*ssa.Function]bool{}, pairs: map[fieldKey]fieldKey{}, done: map[string]bool{}, sources: map[ssa.Instruction]bool{},
		facts: map[*ssa.Function]*regFacts{}, sums: map[*ssa.Function]*regSum{}, busy: map[*ssa.Function]bool{}}
	if !g.anchors() {
		res.add("anchor", "-", "anchors", "-", "the table of characters, its methods, the font or the current font were not found")
		return res
	}
	g.lookupSites()
	for len(g.pending) > 0 {
		k := g.pending[0]
		g.pending = g.pending[1:]
		g.elementTexts(k)
	}
	g.registering()
	g.tableKept()
	g.oneFont()
	res.Counts["lookups"] = g.lookups
	res.floor("lookups", g.lookups, 2)
	res.Counts["texts kept by elements"] = g.texts
	res.floor("texts kept by elements", g.texts, 1)
	res.Counts["registering calls texts come from"] = len(g.sources)
	res.floor("registering calls texts come from", len(g.sources), 1)
	return res
}

func (g *regist) anchors() bool {
	p := g.p
	g.table = p.namedType("MapOfCharacterToGlyphIndex")
	g.font = p.namedType("SubsetFontObj")
	if g.table == nil || g.font == nil {
		return false
	}
	var ok bool
	if g.cur, ok = p.fieldNamed("Current", "FontISubset"); !ok {
		return false
	}
	fs := structOf(g.font)
	found := false
	for i := 0; i < fs.NumFields(); i++ {
		if tname(deref(fs.Field(i).Type())) == "MapOfCharacterToGlyphIndex" {
			g.owner, found = fkey(g.font, i), true
		}
	}
	if !found {
		return false
	}
	g.set = p.methodOf(g.table, "Set")
	for _, f := range p.Funcs {
		if recvName(f) != "MapOfCharacterToGlyphIndex" || f == g.set || f.Parent() != nil {
			continue
		}
		s := f.Signature
		if s.Params().Len() != 1 || !isRune(s.Params().At(0).Type()) || s.Results().Len() == 0 {
			continue
		}
		if isBool(s.Results().At(0).Type()) {
			g.query[f] = true
		} else {
			g.look[f] = true
		}
	}
	if g.set == nil || len(g.query) == 0 || len(g.look) == 0 {
		return false
	}
	sets := p.reachers(g.set)
	for _, f := range p.Funcs {
		if recvName(f) == "SubsetFontObj" && f.Parent() == nil && sets[f] {
			g.regFns[f] = true
			if r := f.Signature.Results(); r.Len() > 0 && isString(r.At(0).Type()) {
				g.adders[f] = true
			}
		}
	}
	if len(g.adders) == 0 {
		return false
	}
	var direct []*ssa.Function
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if g.storesCur(ins) {
					direct = append(direct, f)
				}
			}
		}
	}
	if len(direct) == 0 {
		return false
	}
	g.curSet = p.reachers(direct...)
	return true
}

func isRune(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// storesCur: the instruction sets the current font (or a structure it is part of).
func (g *regist) storesCur(ins ssa.Instruction) bool {
	st, ok := ins.(*ssa.Store)
	if !ok {
		return false
	}
	if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fkey(fa.X.Type(), fa.Field) == g.cur {
		return true
	}
	n := tname(st.Val.Type())
	if n == g.cur.typ || n == "GoPdf" {
		if _, local := st.Addr.(*ssa.Alloc); !local {
			return true
		}
	}
	return false
}

// kills: the instruction may make another font current.
func (g *regist) kills(ins ssa.Instruction) bool {
	if g.storesCur(ins) {
		return true
	}
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return false
	}
	if _, isDefer := ins.(*ssa.Defer); isDefer {
		return false
	}
	cc := ci.Common()
	cs := g.p.calleesAt(ci, g.p.takenFuncs())
	for _, f := range cs {
		if g.curSet[f] || g.callsBack(f) {
			return true
		}
	}
	return !cc.IsInvoke() && cc.StaticCallee() == nil && g.plainCallback(cc)
}

func (g *regist) plainCallback(cc *ssa.CallCommon) bool {
	if _, ok := cc.Value.(*ssa.Builtin); ok || cc.IsInvoke() || cc.StaticCallee() != nil {
		return false
	}
	sig, ok := cc.Value.Type().Underlying().(*types.Signature)
	return ok && sig.Params().Len() == 0 && sig.Results().Len() == 0
}

// callsBack: a function of the caller without arguments may run during the call.
func (g *regist) callsBack(f *ssa.Function) bool {
	for h := range g.p.reach(f) {
		for _, b := range h.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && g.plainCallback(ci.Common()) {
					return true
				}
			}
		}
	}
	return false
}

// changed: on a way from a to b (not passing a again) another font may become current.
func (g *regist) changed(a, b ssa.Instruction) bool {
	if a == nil || b == nil || a.Parent() != b.Parent() || a == b {
		return false
	}
	type pt struct {
		blk *ssa.BasicBlock
		bad bool
	}
	seen := map[pt]bool{}
	var walk func(blk *ssa.BasicBlock, from int, bad bool) bool
	walk = func(blk *ssa.BasicBlock, from int, bad bool) bool {
		for i := from; i < len(blk.Instrs); i++ {
			ins := blk.Instrs[i]
			if ins == b {
				return bad
			}
			if ins == a {
				return false
			}
			if g.kills(ins) {
				bad = true
			}
		}
		for _, s := range blk.Succs {
			if !seen[pt{s, bad}] {
				seen[pt{s, bad}] = true
				if walk(s, 0, bad) {
					return true
				}
			}
		}
		return false
	}
	for i, ins := range a.Block().Instrs {
		if ins == a {
			return walk(a.Block(), i+1, false)
		}
	}
	return false
}

// canon says which font a value is.
func (g *regist) canon(v ssa.Value, env *regEnv, depth int) fontID {
	id := fontID{kind: "val", v: v, env: env}
	if depth > 8 {
		return id
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if env != nil {
			if a := argOf(env.call.Common(), paramIndex(x)); a != nil {
				return g.canon(a, env.up, depth+1)
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return id
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			k := fkey(a.X.Type(), a.Field)
			if k == g.cur {
				return fontID{kind: "cur"}
			}
			b, e := g.base(a.X, env)
			return fontID{kind: "field", k: k, v: b, env: e}
		case *ssa.Alloc:
			whole, _ := allocStores(a)
			if len(whole) == 1 {
				return g.canon(whole[0].Val, env, depth+1)
			}
		}
	case *ssa.Field:
		k := fkey(x.X.Type(), x.Field)
		if k == g.cur {
			return fontID{kind: "cur"}
		}
		b, e := g.base(x.X, env)
		return fontID{kind: "field", k: k, v: b, env: e}
	case *ssa.Phi:
		var first *fontID
		for _, e := range x.Edges {
			if e == v {
				continue
			}
			c := g.canon(e, env, depth+1)
			if first == nil {
				first = &c
			} else if *first != c {
				return id
			}
		}
		if first != nil {
			return *first
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || !g.p.owns(f) || f.Blocks == nil || f.Signature.Results().Len() != 1 {
			return id
		}
		var first *fontID
		for _, r := range returnsOf(f) {
			c := g.canon(retVals(r)[0], &regEnv{x, env}, depth+1)
			if first == nil {
				first = &c
			} else if *first != c {
				return id
			}
		}
		if first != nil && first.kind == "cur" {
			return *first
		}
	}
	return id
}

func argOf(cc *ssa.CallCommon, i int) ssa.Value {
	if cc.IsInvoke() {
		if i == 0 {
			return cc.Value
		}
		i--
	}
	if i < 0 || i >= len(cc.Args) {
		return nil
	}
	return cc.Args[i]
}

// base follows parameters to what the caller passed, loads of local pointers and copies of structures.
func (g *regist) base(v ssa.Value, env *regEnv) (ssa.Value, *regEnv) {
	for n := 0; n < 10; n++ {
		switch x := v.(type) {
		case *ssa.Parameter:
			if env == nil {
				return v, nil
			}
			a := argOf(env.call.Common(), paramIndex(x))
			if a == nil {
				return v, env
			}
			v, env = a, env.up
			continue
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if a, ok := x.X.(*ssa.Alloc); ok {
					whole, _ := allocStores(a)
					if _, isPtr := deref2(a.Type()).Underlying().(*types.Pointer); isPtr && len(whole) == 1 {
						v = whole[0].Val
						continue
					}
					return a, env
				}
			}
		}
		return v, env
	}
	return v, env
}

func deref2(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (g *regist) same(a, b fontID) bool {
	if a.kind != b.kind {
		return false
	}
	if a.kind == "cur" {
		return true
	}
	return a.k == b.k && a.v == b.v
}

// ---------------------------------------------------------------- lookups

func (g *regist) lookupSites() {
	for _, fn := range g.p.Funcs {
		if recvName(fn) == g.table.Obj().Name() || g.regFns[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				f := ci.Common().StaticCallee()
				if f == nil || !g.look[f] {
					continue
				}
				g.lookups++
				fid, ok := g.tableOwner(ci.Common().Args[0])
				if !ok {
					g.res.add("lookup", fname(fn), "table of "+fname(fn), g.p.insPos(ins), "it cannot be told which font's table of characters is searched")
					continue
				}
				g.demand(fn, ci.Common().Args[1], fid, ins)
			}
		}
	}
}

func (g *regist) tableOwner(v ssa.Value) (fontID, bool) {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return fontID{}, false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok || fkey(fa.X.Type(), fa.Field) != g.owner {
		return fontID{}, false
	}
	return g.canon(fa.X, nil, 0), true
}

// demand: v (in fn, at ins) must be registered with the font.
func (g *regist) demand(fn *ssa.Function, v ssa.Value, f fontID, at ssa.Instruction) {
	key := fn.String() + "|" + v.Name() + "|" + f.kind + f.k.String() + "|" + g.p.insPos(at)
	if f.v != nil {
		key += f.v.Name()
	}
	if g.done[key] {
		return
	}
	g.done[key] = true
	if ok, why := g.reg(v, f, at, nil, map[ssa.Value]bool{}, 0); !ok {
		g.res.add("registered", fname(fn), "text used by "+fname(fn), g.p.insPos(at), "the text used here is not what the font's registering call gave back: %s", why)
	}
}

func (k fieldKey) String() string { return k.typ + "#" + itoa(k.idx) }

func itoa(n int) string {
	s := ""
	if n == 0 {
		return "0"
	}
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// reg: every character of v has been registered with the font.
func (g *regist) reg(v ssa.Value, f fontID, at ssa.Instruction, env *regEnv, seen map[ssa.Value]bool, depth int) (bool, string) {
	if depth > 40 {
		return false, "its origin is too far away"
	}
	if seen[v] {
		return true, "" // around a loop
	}
	seen[v] = true
	defer delete(seen, v)
	if f.kind == "cur" {
		if d, ok := v.(ssa.Instruction); ok && g.changed(d, at) {
			if _, isConst := v.(*ssa.Const); !isConst {
				return false, "another font may become current between its registration and its use"
			}
		}
	}
	next := func(w ssa.Value) (bool, string) {
		a := at
		if d, ok := v.(ssa.Instruction); ok {
			a = d
		}
		return g.reg(w, f, a, env, seen, depth+1)
	}
	all := func(ws ...ssa.Value) (bool, string) {
		for _, w := range ws {
			if ok, why := next(w); !ok {
				return false, why
			}
		}
		return true, ""
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil || constString2(x) == "" && isString(x.Type()) {
			return true, ""
		}
		return false, "it contains the constant " + x.Value.String()
	case *ssa.Phi:
		for i, e := range x.Edges {
			pred := x.Block().Preds[i]
			if ok, why := g.reg(e, f, pred.Instrs[len(pred.Instrs)-1], env, seen, depth+1); !ok {
				return false, why
			}
		}
		return true, ""
	case *ssa.Convert:
		return next(x.X)
	case *ssa.ChangeType:
		return next(x.X)
	case *ssa.Slice:
		if al, ok := x.X.(*ssa.Alloc); ok {
			return all(arrayElems(al)...)
		}
		return next(x.X)
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) {
			return all(x.X, x.Y)
		}
	case *ssa.Lookup:
		return next(x.X)
	case *ssa.Index:
		return next(x.X)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && x.Index == 2 {
				return g.reg(r.X, f, r, env, seen, depth+1)
			}
		case *ssa.Call:
			return g.regResult(t, x.Index, f, at, env, seen, depth)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return all(x.Call.Args...)
		}
		return g.regResult(x, 0, f, at, env, seen, depth)
	case *ssa.Parameter:
		if env != nil {
			a := argOf(env.call.Common(), paramIndex(x))
			if a == nil {
				return false, "its origin is not known"
			}
			return g.reg(a, f, env.call, env.up, seen, depth+1)
		}
		g.atCallers(x, f)
		return true, ""
	case *ssa.FreeVar:
		return g.regFree(x, f, env, seen, depth)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch a := x.X.(type) {
		case *ssa.IndexAddr:
			return next(a.X)
		case *ssa.FieldAddr:
			if tname(deref2(a.X.Type())) == g.table.Obj().Name() {
				if id, ok := g.tableOwner(a.X); ok && g.same(id, f) {
					return true, "" // what is in the table
				}
			}
			return g.regField(a, f, env)
		case *ssa.Alloc:
			return g.regCell(a, x, f, env, seen, depth)
		case *ssa.FreeVar:
			if b := freeBinding(a); b != nil {
				if al, ok := b.(*ssa.Alloc); ok {
					return g.regCell(al, x, f, env, seen, depth)
				}
			}
		}
	case *ssa.Field:
		k := fkey(x.X.Type(), x.Field)
		b, _ := g.base(x.X, env)
		if f.kind == "field" && f.v == b && f.k.typ == k.typ {
			g.pair(k, f.k)
			return true, ""
		}
	}
	return false, "it comes from " + describe(v)
}

func constString2(c *ssa.Const) string {
	if c.Value == nil {
		return ""
	}
	s, ok := constString(c)
	if !ok {
		return "?"
	}
	return s
}

func describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return "the parameter " + x.Name()
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return "a call of " + f.Name()
		}
		return "a call"
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return describe(c)
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			return "the field " + fieldName(fa.X.Type(), fa.Field)
		}
	}
	return "a value the analysis does not follow"
}

func arrayElems(al *ssa.Alloc) []ssa.Value {
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out
}

func freeBinding(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	i := -1
	for j, w := range fn.FreeVars {
		if w == fv {
			i = j
		}
	}
	if i < 0 || fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn && i < len(mc.Bindings) {
				return mc.Bindings[i]
			}
		}
	}
	return nil
}

func (g *regist) regFree(x *ssa.FreeVar, f fontID, env *regEnv, seen map[ssa.Value]bool, depth int) (bool, string) {
	b := freeBinding(x)
	if b == nil {
		return false, "it is a variable of a function that is not followed"
	}
	return g.reg(b, f, nil, nil, seen, depth+1)
}

// regCell: a local variable whose address is taken.
func (g *regist) regCell(al *ssa.Alloc, ld *ssa.UnOp, f fontID, env *regEnv, seen map[ssa.Value]bool, depth int) (bool, string) {
	if seen[al] {
		return true, ""
	}
	seen[al] = true
	defer delete(seen, al)
	whole, _ := allocStores(al)
	if len(whole) == 0 {
		return false, "its origin is not known"
	}
	for _, r := range *al.Referrers() {
		if c, ok := r.(ssa.CallInstruction); ok {
			if ok, why := g.regThrough(al, c, f, env, seen, depth); !ok {
				return false, why
			}
		}
	}
	for _, st := range whole {
		if f.kind == "cur" && st.Parent() == ld.Parent() && g.changed(st, ld) {
			return false, "another font may become current between its registration and its use"
		}
		if ok, why := g.reg(st.Val, f, st, env, seen, depth+1); !ok {
			return false, why
		}
	}
	return true, ""
}

// regThrough: a call that is given the address of the variable may only put registered text there.
func (g *regist) regThrough(al *ssa.Alloc, c ssa.CallInstruction, f fontID, env *regEnv, seen map[ssa.Value]bool, depth int) (bool, string) {
	callee := c.Common().StaticCallee()
	if callee == nil || !g.p.owns(callee) || callee.Blocks == nil {
		return false, "it is set by a call that is not followed"
	}
	for i, a := range c.Common().Args {
		if a != al {
			continue
		}
		for _, r := range *callee.Params[i].Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == callee.Params[i] {
					if ok, why := g.reg(r.Val, f, r, &regEnv{c, env}, seen, depth+1); !ok {
						return false, why
					}
				}
			case *ssa.UnOp:
			default:
				if _, ok := r.(*ssa.DebugRef); !ok {
					return false, "it is set by a call that is not followed"
				}
			}
		}
	}
	return true, ""
}

// regField: a text kept in a structure together with its font.
func (g *regist) regField(fa *ssa.FieldAddr, f fontID, env *regEnv) (bool, string) {
	k := fkey(fa.X.Type(), fa.Field)
	b, _ := g.base(fa.X, env)
	if f.kind == "field" && f.v == b && f.k.typ == k.typ {
		g.pair(k, f.k)
		return true, ""
	}
	return false, "it comes from the field " + fieldName(fa.X.Type(), fa.Field) + ", which is kept with another font"
}

func (g *regist) pair(text, font fieldKey) {
	if _, ok := g.pairs[text]; !ok {
		g.pairs[text] = font
		g.pending = append(g.pending, text)
	}
}

// keepsText: library functions whose result consists of characters of their first argument.
func keepsText(full string) bool {
	switch full {
	case "strings.Trim", "strings.TrimSpace", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix",
		"strings.TrimFunc", "strings.Split", "strings.SplitN", "strings.SplitAfter", "strings.Fields", "strings.FieldsFunc", "strings.Repeat":
		return true
	}
	return false
}

func (g *regist) regResult(c *ssa.Call, idx int, f fontID, at ssa.Instruction, env *regEnv, seen map[ssa.Value]bool, depth int) (bool, string) {
	if f.kind == "cur" && g.changed(c, at) {
		return false, "another font may become current between its registration and its use"
	}
	callee := c.Call.StaticCallee()
	if callee == nil {
		return false, "it comes from a call that is not known"
	}
	if g.adders[callee] && idx == 0 {
		id := g.canon(c.Call.Args[0], env, 0)
		if g.same(id, f) {
			if d, ok := c.Call.Args[0].(ssa.Instruction); ok && f.kind == "cur" && g.changed(d, c) {
				return false, "another font may become current before it is registered"
			}
			g.sources[c] = true
			return true, ""
		}
		if f.kind == "field" && f.v == nil && g.keptFont(id, f) {
			g.sources[c] = true
			return true, ""
		}
		return false, "it is registered with another font"
	}
	if recvName(callee) == g.table.Obj().Name() && callee.Signature.Params().Len() == 0 {
		if id, ok := g.tableOwner(c.Call.Args[0]); ok && g.same(id, f) {
			return true, "" // what is in the table
		}
	}
	if keepsText(fullCallee(c.Common())) {
		return g.reg(c.Call.Args[0], f, c, env, seen, depth+1)
	}
	if fullCallee(c.Common()) == "strings.Join" {
		for _, a := range c.Call.Args {
			if ok, why := g.reg(a, f, c, env, seen, depth+1); !ok {
				return false, why
			}
		}
		return true, ""
	}
	if !g.p.owns(callee) || callee.Blocks == nil {
		return false, "it comes from " + describe(c)
	}
	for _, r := range returnsOf(callee) {
		vals := retVals(r)
		if idx >= len(vals) {
			return false, "it comes from " + describe(c)
		}
		if ok, why := g.reg(vals[idx], f, r, &regEnv{c, env}, seen, depth+1); !ok {
			return false, why
		}
	}
	return true, ""
}

// atCallers: what a function uses must be registered by those that call it.
func (g *regist) atCallers(x *ssa.Parameter, f fontID) {
	fn := x.Parent()
	key := "param|" + fn.String() + "|" + x.Name() + "|" + f.kind + f.k.String()
	if f.v != nil {
		key += f.v.Name()
	}
	if g.done[key] {
		return
	}
	g.done[key] = true
	exp := fn.Object() != nil && fn.Object().Exported() && fn.Parent() == nil
	if exp && g.documentCall(fn) {
		g.res.add("registered", fname(fn), "parameter "+x.Name(), g.p.pos(fn.Pos()), "the text %s of the caller is used without being registered with the font", x.Name())
		return
	}
	i := paramIndex(x)
	for _, c := range g.p.staticCallers()[fn] {
		if g.regFns[c.Parent()] {
			continue
		}
		a := argOf(c.Common(), i)
		if a == nil {
			continue
		}
		nf := f
		switch f.kind {
		case "val", "field":
			if p, ok := f.v.(*ssa.Parameter); ok && p.Parent() == fn {
				fa := argOf(c.Common(), paramIndex(p))
				if fa == nil {
					continue
				}
				if f.kind == "val" {
					nf = g.canon(fa, nil, 0)
				} else {
					b, _ := g.base(fa, nil)
					nf = fontID{kind: "field", k: f.k, v: b}
				}
			}
		}
		g.demand(c.Parent(), a, nf, c)
	}
	g.asValue(fn, i, f)
}

// asValue: the function is kept as a value; each call of such a value must hand over registered text.
func (g *regist) asValue(fn *ssa.Function, i int, f fontID) {
	taken := g.p.takenFuncs()
	var is []*ssa.Function
	for _, t := range taken {
		if t == fn || t.Synthetic != "" && g.p.unwrap(t) == fn {
			is = append(is, t)
		}
	}
	if len(is) == 0 {
		return
	}
	for _, h := range g.p.Funcs {
		for _, b := range h.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || ci.Common().IsInvoke() || ci.Common().StaticCallee() != nil {
					continue
				}
				hit := false
				for _, t := range g.p.calleesAt(ci, taken) {
					for _, w := range is {
						if t == w || g.p.unwrap(t) == fn {
							hit = true
						}
					}
				}
				if !hit {
					continue
				}
				j := i - (len(fn.Params) - len(ci.Common().Args)) // without the receiver it is bound to
				if f.kind != "cur" || j < 0 || j >= len(ci.Common().Args) {
					g.res.add("registered", fname(h), "call of "+fname(fn)+" as a value", g.p.insPos(ins), "the font of a function used as a value is not known")
					continue
				}
				g.demand(h, ci.Common().Args[j], f, ci)
			}
		}
	}
}

func (g *regist) documentCall(fn *ssa.Function) bool {
	r := recvName(fn)
	if r == "GoPdf" {
		return true
	}
	n := g.p.namedType(r)
	if n == nil {
		return false
	}
	s := structOf(n)
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if pt, ok := s.Field(i).Type().(*types.Pointer); ok && tname(pt.Elem()) == "GoPdf" {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------- elements

// elementTexts: every text put into an element must be registered with the font the element keeps.
func (g *regist) elementTexts(text fieldKey) {
	font := g.pairs[text]
	// the font an element keeps is the current one when it is made
	for _, s := range g.p.allStores()[font] {
		if id := g.canon(s.val, nil, 0); id.kind != "cur" {
			if p, ok := id.v.(*ssa.Parameter); ok && id.kind == "val" && p.Parent() == s.fn && !g.documentCall(s.fn) && s.fn.Object() != nil && s.fn.Object().Exported() && len(g.p.staticCallers()[s.fn]) == 0 {
				continue // an element the caller builds
			}
			g.res.add("element-font", fname(s.fn), "font of "+text.typ, g.p.insPos(s.ins), "the element is given a font that is not the document's current one")
		}
	}
	for _, s := range g.p.allStores()[text] {
		fa := s.ins.(*ssa.Store).Addr.(*ssa.FieldAddr)
		if !g.documentCall(s.fn) && s.fn.Object() != nil && s.fn.Object().Exported() && len(g.p.staticCallers()[s.fn]) == 0 {
			continue // an element the caller builds
		}
		g.texts++
		parts, own := g.parts(s.val, fa, text, map[ssa.Value]bool{})
		f := fontID{kind: "cur"}
		if al, ok := fa.X.(*ssa.Alloc); ok {
			if _, fields := allocStores(al); len(fields[font.idx]) == 1 {
				f = g.canon(fields[font.idx][0].Val, nil, 0)
			}
		} else if !own {
			f = fontID{kind: "field", k: font} // the one the element keeps
		}
		for _, v := range parts {
			g.demand(s.fn, v, f, s.ins)
		}
	}
}

// parts splits a concatenation; own tells that the element's own text is one of them.
func (g *regist) parts(v ssa.Value, fa *ssa.FieldAddr, text fieldKey, seen map[ssa.Value]bool) (out []ssa.Value, own bool) {
	if seen[v] {
		return nil, false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD && isString(x.Type()) {
			a, o1 := g.parts(x.X, fa, text, seen)
			b, o2 := g.parts(x.Y, fa, text, seen)
			return append(a, b...), o1 || o2
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && a.X == fa.X && fkey(a.X.Type(), a.Field) == text {
			return nil, true
		}
	}
	return []ssa.Value{v}, false
}

// keptFont: the font registered with is the one an element made earlier keeps: its own field, or a
// record's field that is only ever set to the font current when the element was made.
func (g *regist) keptFont(id, f fontID) bool {
	if id.kind != "field" {
		return false
	}
	if id.k == f.k {
		return true
	}
	n := 0
	for _, s := range g.p.allStores()[id.k] {
		n++
		if g.canon(s.val, nil, 0).kind != "cur" {
			return false
		}
		if !g.besideElement(s.ins, f.k) {
			return false
		}
	}
	return n > 0
}

// besideElement: an element that keeps the current font is made before the record in the same function,
// with no other font made current in between.
func (g *regist) besideElement(st ssa.Instruction, font fieldKey) bool {
	made := map[*ssa.Function]bool{}
	for _, s := range g.p.allStores()[font] {
		made[s.fn] = true
	}
	for _, b := range st.Parent().Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(*ssa.Call)
			if !ok {
				continue
			}
			f := ci.Call.StaticCallee()
			if f == nil || !dominates(ci, st) || g.changed(ci, st) {
				continue
			}
			for h := range g.p.reach(f) {
				if made[h] {
					return true
				}
			}
		}
	}
	return made[st.Parent()]
}

// ---------------------------------------------------------------- the registering call

// regFacts: for each block end, the characters known to be registered.
type regFacts struct {
	in, out map[*ssa.BasicBlock]map[ssa.Value]bool
}

// regSum: what a call means for the characters it is given and gives back ("p0", "r1").
type regSum struct {
	always  map[string]bool         // registered when the call returns (without an error)
	partial map[string]bool         // always, but not when an error is returned
	when    map[int]map[string]bool // result (bool) true means registered
	whenNot map[int]map[string]bool // result (bool) false means registered
}

func (g *regist) registering() {
	var adders []*ssa.Function
	for f := range g.adders {
		adders = append(adders, f)
	}
	sort.Slice(adders, func(i, j int) bool { return fname(adders[i]) < fname(adders[j]) })
	for _, f := range adders {
		g.givesBack(f)
	}
	g.res.Counts["registering functions"] = len(adders)
	n := 0
	for _, c := range g.p.staticCallers()[g.set] {
		n++
		args := c.Common().Args
		if ok := g.glyphOf(args[1], args[2], nil, nil, 0); !ok {
			g.res.add("glyph", fname(c.Parent()), "glyph registered by "+fname(c.Parent()), g.p.insPos(c), "the glyph registered for a character is not the one the font has for it")
		}
	}
	g.res.Counts["places that register"] = n
	g.res.floor("places that register", n, 1)
}

type emitted struct {
	v  ssa.Value
	at ssa.Instruction
}

// givesBack: each character of the text given back is registered, one for each character of the text taken.
func (g *regist) givesBack(fn *ssa.Function) {
	bad := func(construct string, at ssa.Instruction, format string, a ...any) {
		g.res.add("gives-back", fname(fn), construct, g.p.insPos(at), format, a...)
	}
	var sites []emitted
	fields := map[fieldKey]bool{}
	for _, r := range returnsOf(fn) {
		v := retVals(r)[0]
		if c, ok := v.(*ssa.Const); ok && constString2(c) == "" {
			if len(r.Results) > 1 && isNilConst(retVals(r)[1]) {
				if !g.onlyEmptyInput(fn, r) {
					bad("empty result", r, "nothing is given back although no error is reported")
				}
			}
			continue
		}
		es, ok := g.elements(v, fields, map[ssa.Value]bool{}, 0)
		if !ok {
			bad("result", r, "it cannot be told which characters are given back")
			return
		}
		sites = append(sites, es...)
	}
	if len(sites) == 0 {
		g.res.add("gives-back", fname(fn), "result", g.p.pos(fn.Pos()), "no character is ever given back")
		return
	}
	uniq := map[ssa.Instruction]bool{}
	for _, e := range sites {
		uniq[e.at] = true
		if !g.known(e.v, e.at) {
			bad("character given back", e.at, "a character may be given back that is not registered")
		}
	}
	for k := range fields {
		if !g.emptiedFirst(fn, k) {
			g.res.add("gives-back", fname(fn), "buffer", g.p.pos(fn.Pos()), "the buffer still holds characters of an earlier call")
		}
	}
	// one for one
	var header *ssa.BasicBlock
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Next:
				if r, ok := x.Iter.(*ssa.Range); ok && g.inputText(fn, r.X) {
					header = b
				}
			case *ssa.UnOp:
				if ia, ok := x.X.(*ssa.IndexAddr); ok && g.inputText(fn, ia.X) {
					header = loopHeader(b)
				}
			}
		}
	}
	if header == nil {
		g.res.add("gives-back", fname(fn), "loop", g.p.pos(fn.Pos()), "no loop over the characters of the text was found")
		return
	}
	body := loopBody(header)
	counts := map[*ssa.BasicBlock]map[int]bool{}
	var walk func(b *ssa.BasicBlock, n int)
	worst := map[int]ssa.Instruction{}
	walk = func(b *ssa.BasicBlock, n int) {
		if counts[b] == nil {
			counts[b] = map[int]bool{}
		}
		if counts[b][n] {
			return
		}
		counts[b][n] = true
		for _, ins := range b.Instrs {
			if uniq[ins] {
				n++
			} else if c, ok := ins.(*ssa.Call); ok {
				n += g.emits(c, uniq, 0)
			}
		}
		if n > 2 {
			n = 2
		}
		for _, s := range b.Succs {
			if s == header {
				worst[n] = b.Instrs[len(b.Instrs)-1]
			} else if body[s] {
				walk(s, n)
			}
		}
	}
	for _, s := range header.Succs {
		if body[s] && s != header {
			walk(s, 0)
		}
	}
	if header.Succs != nil && len(header.Succs) == 1 && header.Succs[0] == header {
		worst[len(uniq)] = header.Instrs[0]
	}
	if at := worst[0]; at != nil {
		bad("dropped", at, "a character of the text may be left out of what is given back")
	}
	if at := worst[2]; at != nil {
		bad("repeated", at, "a character of the text may be given back more than once")
	}
	if len(worst) == 0 {
		bad("loop", header.Instrs[0], "the loop over the characters was not understood")
	}
	// the loop is not left early without an error
	for b := range body {
		for _, s := range b.Succs {
			if body[s] || b == header {
				continue
			}
			if !g.leavesWithError(s, map[*ssa.BasicBlock]bool{}) && !g.counted(b, header) {
				bad("left early", b.Instrs[len(b.Instrs)-1], "the loop over the characters may be left early")
			}
		}
	}
}

// counted: the block is where the loop asks whether there is another character.
func (g *regist) counted(b, header *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, _ := stripNot(iff.Cond)
	bo, ok := c.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{bo.X, bo.Y} {
		if l, ok := v.(*ssa.Call); ok {
			if bi, ok := l.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return true
			}
		}
	}
	return false
}

func (g *regist) leavesWithError(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
		vals := retVals(r)
		last := vals[len(vals)-1]
		return isErrorType(last.Type()) && !isNilConst(last)
	}
	for _, s := range b.Succs {
		if !g.leavesWithError(s, seen) {
			return false
		}
	}
	return true
}

// onlyEmptyInput: the return is only reached when the text is empty.
func (g *regist) onlyEmptyInput(fn *ssa.Function, r *ssa.Return) bool {
	for _, pred := range r.Block().Preds {
		iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		c, neg := stripNot(iff.Cond)
		bo, ok := c.(*ssa.BinOp)
		if !ok {
			return false
		}
		want := (pred.Succs[0] == r.Block()) != neg
		txt := func(v ssa.Value) bool {
			if g.inputText(fn, v) {
				return true
			}
			l, ok := v.(*ssa.Call)
			if !ok {
				return false
			}
			bi, ok := l.Call.Value.(*ssa.Builtin)
			return ok && bi.Name() == "len" && g.inputText(fn, l.Call.Args[0])
		}
		zero := func(v ssa.Value) bool {
			c, ok := v.(*ssa.Const)
			if !ok {
				return false
			}
			if s, ok := constString(c); ok {
				return s == ""
			}
			n, ok := constInt(c)
			return ok && n == 0
		}
		if !(txt(bo.X) && zero(bo.Y) || txt(bo.Y) && zero(bo.X)) {
			return false
		}
		if !(bo.Op == token.EQL && want || bo.Op == token.NEQ && !want) {
			return false
		}
	}
	return len(r.Block().Preds) > 0
}

func (g *regist) inputText(fn *ssa.Function, v ssa.Value) bool {
	for n := 0; n < 4; n++ {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.Parameter:
			return isString(x.Type()) && x.Parent() == fn
		}
		break
	}
	return false
}

// emits counts what a helper gives back on behalf of the function (0 when paths differ or none).
func (g *regist) emits(c *ssa.Call, sites map[ssa.Instruction]bool, depth int) int {
	f := c.Call.StaticCallee()
	if f == nil || !g.p.owns(f) || depth > 2 || f.Blocks == nil {
		return 0
	}
	has := false
	for at := range sites {
		if at.Parent() == f {
			has = true
		}
	}
	if !has {
		return 0
	}
	// the least over the returns without an error
	least := 9
	seen := map[*ssa.BasicBlock]map[int]bool{}
	var walk func(b *ssa.BasicBlock, n int)
	walk = func(b *ssa.BasicBlock, n int) {
		if seen[b] == nil {
			seen[b] = map[int]bool{}
		}
		if seen[b][n] {
			return
		}
		seen[b][n] = true
		for _, ins := range b.Instrs {
			if sites[ins] {
				n++
			}
			if r, ok := ins.(*ssa.Return); ok {
				vals := retVals(r)
				if len(vals) > 0 && isErrorType(vals[len(vals)-1].Type()) && !isNilConst(vals[len(vals)-1]) {
					return
				}
				if n < least {
					least = n
				}
			}
		}
		if n < 3 {
			for _, s := range b.Succs {
				walk(s, n)
			}
		}
	}
	walk(f.Blocks[0], 0)
	if least == 9 {
		return 0
	}
	return least
}

// elements lists the characters a text is put together from.
func (g *regist) elements(v ssa.Value, fields map[fieldKey]bool, seen map[ssa.Value]bool, depth int) ([]emitted, bool) {
	if seen[v] {
		return nil, true
	}
	seen[v] = true
	if depth > 30 {
		return nil, false
	}
	join := func(vs ...ssa.Value) ([]emitted, bool) {
		var out []emitted
		for _, w := range vs {
			es, ok := g.elements(w, fields, seen, depth+1)
			if !ok {
				return nil, false
			}
			out = append(out, es...)
		}
		return out, true
	}
	switch x := v.(type) {
	case *ssa.Const:
		return nil, x.Value == nil || constString2(x) == ""
	case *ssa.Convert:
		if isRune(x.X.Type()) || isInteger(x.X.Type()) {
			return []emitted{{x.X, x}}, true
		}
		return join(x.X)
	case *ssa.ChangeType:
		return join(x.X)
	case *ssa.Phi:
		return join(x.Edges...)
	case *ssa.BinOp:
		if x.Op == token.ADD {
			return join(x.X, x.Y)
		}
	case *ssa.Slice:
		if c, ok := x.High.(*ssa.Const); ok {
			if n, ok := constInt(c); ok && n == 0 {
				return nil, true
			}
		}
		return join(x.X)
	case *ssa.MakeSlice:
		return g.storedInto(x), true
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			k := fkey(a.X.Type(), a.Field)
			if fields[k] {
				return nil, true
			}
			fields[k] = true
			var vs []ssa.Value
			for _, s := range g.p.allStores()[k] {
				vs = append(vs, s.val)
			}
			return join(vs...)
		case *ssa.Alloc:
			whole, _ := allocStores(a)
			var vs []ssa.Value
			for _, s := range whole {
				vs = append(vs, s.Val)
			}
			return join(vs...)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			out, ok := join(x.Call.Args[0])
			if !ok {
				return nil, false
			}
			if sl, ok := x.Call.Args[1].(*ssa.Slice); ok {
				if al, ok := sl.X.(*ssa.Alloc); ok {
					for _, e := range arrayElems(al) {
						out = append(out, emitted{e, x})
					}
					return out, true
				}
			}
			more, ok := join(x.Call.Args[1])
			return append(out, more...), ok
		}
		switch full := fullCallee(x.Common()); full {
		case "(*strings.Builder).String", "(*bytes.Buffer).String":
			return g.writtenTo(x.Call.Args[0])
		}
	case *ssa.Extract:
		return nil, false
	}
	return nil, false
}

func (g *regist) storedInto(v ssa.Value) []emitted {
	var out []emitted
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.IndexAddr:
			for _, rr := range *r.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == r {
					out = append(out, emitted{st.Val, st})
				}
			}
		case *ssa.Phi:
			out = append(out, g.storedInto(r)...)
		}
	}
	return out
}

// writtenTo: what is written to a builder.
func (g *regist) writtenTo(b ssa.Value) ([]emitted, bool) {
	al, ok := b.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var out []emitted
	var uses func(v ssa.Value) bool
	uses = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Call:
				switch name := methodName(fullCallee(r.Common())); name {
				case "WriteRune":
					out = append(out, emitted{r.Call.Args[1], r})
				case "WriteString":
					es, ok := g.elements(r.Call.Args[1], map[fieldKey]bool{}, map[ssa.Value]bool{}, 0)
					if !ok {
						return false
					}
					for _, e := range es {
						out = append(out, emitted{e.v, r})
					}
				case "String", "Grow", "Len", "Reset", "Cap":
				default:
					f := r.Call.StaticCallee()
					if f == nil || !g.p.owns(f) || f.Blocks == nil {
						return false
					}
					for i, a := range r.Call.Args {
						if a == v && !uses(f.Params[i]) {
							return false
						}
					}
				}
			case *ssa.DebugRef, *ssa.Store:
			case *ssa.MakeInterface:
				return false
			}
		}
		return true
	}
	return out, uses(al)
}

func (g *regist) emptiedFirst(fn *ssa.Function, k fieldKey) bool {
	var reset ssa.Instruction
	for _, s := range g.p.allStores()[k] {
		if s.fn != fn {
			continue
		}
		switch x := s.val.(type) {
		case *ssa.Slice:
			if c, ok := x.High.(*ssa.Const); ok {
				if n, ok := constInt(c); ok && n == 0 {
					reset = s.ins
				}
			}
		case *ssa.Const:
			reset = s.ins
		case *ssa.MakeSlice:
			reset = s.ins
		}
	}
	if reset == nil {
		return false
	}
	for _, s := range g.p.allStores()[k] {
		if s.fn == fn && s.ins != reset && !dominates(reset, s.ins) {
			return false
		}
	}
	return !inLoop(reset.Block())
}

func loopHeader(b *ssa.BasicBlock) *ssa.BasicBlock {
	// the innermost block that dominates b and is reached again from it
	for d := b; d != nil; d = d.Idom() {
		for _, p := range d.Preds {
			if d.Dominates(p) && (p == b || reachesBlock(b, p)) {
				return d
			}
		}
	}
	return nil
}

func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if body[b] {
			return
		}
		body[b] = true
		for _, p := range b.Preds {
			rec(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			rec(p)
		}
	}
	return body
}

// known: the character is registered at the instruction.
func (g *regist) known(v ssa.Value, at ssa.Instruction) bool {
	fn := at.Parent()
	fs := g.factsOf(fn)
	st := map[ssa.Value]bool{}
	for k := range fs.in[at.Block()] {
		st[k] = true
	}
	for _, ins := range at.Block().Instrs {
		if ins == at {
			break
		}
		g.effect(ins, st)
	}
	if g.has(st, v) {
		return true
	}
	// a parameter: by those that call
	if p, ok := v.(*ssa.Parameter); ok && p.Parent() == fn {
		cs := g.p.staticCallers()[fn]
		if len(cs) == 0 {
			return false
		}
		for _, c := range cs {
			if !g.known(argOf(c.Common(), paramIndex(p)), c) {
				return false
			}
		}
		return true
	}
	return false
}

func (g *regist) has(st map[ssa.Value]bool, v ssa.Value) bool {
	if st[v] {
		return true
	}
	if c, ok := v.(*ssa.Convert); ok {
		return st[c.X]
	}
	return false
}

func (g *regist) factsOf(fn *ssa.Function) *regFacts {
	if f := g.facts[fn]; f != nil {
		return f
	}
	f := &regFacts{map[*ssa.BasicBlock]map[ssa.Value]bool{}, map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	g.facts[fn] = f
	for round := 0; round < 30; round++ {
		changed := false
		for _, b := range fn.Blocks {
			var in map[ssa.Value]bool
			if b.Index == 0 {
				in = map[ssa.Value]bool{}
			}
			edges := make([]map[ssa.Value]bool, len(b.Preds))
			for i, p := range b.Preds {
				if f.out[p] == nil {
					continue // not reached yet
				}
				e := map[ssa.Value]bool{}
				for k := range f.out[p] {
					e[k] = true
				}
				g.branch(p, b, e)
				edges[i] = e
				if in == nil {
					in = map[ssa.Value]bool{}
					for k := range e {
						in[k] = true
					}
				} else {
					for k := range in {
						if !e[k] {
							delete(in, k)
						}
					}
				}
			}
			if in == nil {
				continue
			}
			for _, ins := range b.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				all := true
				for i, e := range edges {
					if e != nil && !g.has(e, ph.Edges[i]) {
						all = false
					}
				}
				if all {
					in[ph] = true
				} else {
					delete(in, ph)
				}
			}
			// values made again in this block are other values
			for _, ins := range b.Instrs {
				if _, isPhi := ins.(*ssa.Phi); isPhi {
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(in, v)
				}
			}
			out := map[ssa.Value]bool{}
			for k := range in {
				out[k] = true
			}
			for _, ins := range b.Instrs {
				g.effect(ins, out)
			}
			if f.out[b] == nil || len(out) != len(f.out[b]) || len(in) != len(f.in[b]) {
				changed = true
			}
			f.in[b], f.out[b] = in, out
		}
		if !changed {
			break
		}
	}
	return f
}

func (g *regist) effect(ins ssa.Instruction, st map[ssa.Value]bool) {
	switch x := ins.(type) {
	case *ssa.Call:
		callee := x.Call.StaticCallee()
		if callee == nil {
			return
		}
		if callee == g.set {
			if ok := g.ownTable(x.Call.Args[0]); ok {
				st[x.Call.Args[1]] = true
			}
			return
		}
		if s := g.sumOf(callee); s != nil {
			for k := range s.always {
				if v := callPart(x, k); v != nil {
					st[v] = true
				}
			}
			// a single result
			if s.always["r0"] && callee.Signature.Results().Len() == 1 {
				st[x] = true
			}
		}
	case *ssa.Extract:
		c, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return
		}
		if callee := c.Call.StaticCallee(); callee != nil && callee != g.set {
			if s := g.sumOf(callee); s != nil && s.always["r"+itoa(x.Index)] {
				st[x] = true
			}
		}
	}
}

func (g *regist) ownTable(v ssa.Value) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return false
	}
	fa, ok := ld.X.(*ssa.FieldAddr)
	return ok && fkey(fa.X.Type(), fa.Field) == g.owner
}

func callPart(c *ssa.Call, part string) ssa.Value {
	n := 0
	for _, r := range part[1:] {
		n = n*10 + int(r-'0')
	}
	if part[0] == 'p' {
		return argOf(c.Common(), n)
	}
	for _, r := range *c.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == n {
			return e
		}
	}
	return nil
}

// branch adds what taking the edge tells.
func (g *regist) branch(p, b *ssa.BasicBlock, st map[ssa.Value]bool) {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return
	}
	taken := p.Succs[0] == b
	g.holds(iff.Cond, taken, st)
}

func (g *regist) holds(cond ssa.Value, want bool, st map[ssa.Value]bool) {
	c, neg := stripNot(cond)
	if neg {
		want = !want
	}
	switch x := c.(type) {
	case *ssa.Phi:
		g.cameBy(x, want, st)
	case *ssa.Call:
		callee := x.Call.StaticCallee()
		if callee == nil {
			return
		}
		if g.query[callee] {
			if want && g.ownTable(x.Call.Args[0]) {
				st[x.Call.Args[1]] = true
			}
			return
		}
		g.fromResult(x, 0, want, st)
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return
		}
		callee := call.Call.StaticCallee()
		if callee == nil {
			return
		}
		if g.look[callee] && isBool(x.Type()) {
			if want && g.ownTable(call.Call.Args[0]) {
				st[call.Call.Args[1]] = true
			}
			return
		}
		g.fromResult(call, x.Index, want, st)
	case *ssa.BinOp:
		// err == nil after a call that registers
		if v, nilWhen, ok := nilTest(c); ok && isErrorType(v.Type()) && nilWhen == want {
			var call *ssa.Call
			if e, ok := v.(*ssa.Extract); ok {
				call, _ = e.Tuple.(*ssa.Call)
			} else {
				call, _ = v.(*ssa.Call)
			}
			if call == nil {
				return
			}
			callee := call.Call.StaticCallee()
			if callee == nil || callee == g.set {
				return
			}
			if s := g.sumOf(callee); s != nil {
				for k := range s.partial {
					if w := callPart(call, k); w != nil {
						st[w] = true
					}
				}
			}
		}
	}
}

// cameBy: the value of a flag tells by which edges it was set; what held on all of them holds.
func (g *regist) cameBy(ph *ssa.Phi, want bool, st map[ssa.Value]bool) {
	fs := g.facts[ph.Parent()]
	if fs == nil || loopHeader(ph.Block()) == ph.Block() {
		return
	}
	var all map[ssa.Value]bool
	for i, e := range ph.Edges {
		if c, ok := e.(*ssa.Const); ok && constBool(c) != want {
			continue
		}
		pred := ph.Block().Preds[i]
		if fs.out[pred] == nil {
			continue
		}
		t := map[ssa.Value]bool{}
		for k := range fs.out[pred] {
			t[k] = true
		}
		g.branch(pred, ph.Block(), t)
		g.holds(e, want, t)
		for _, ins := range ph.Block().Instrs {
			o, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if g.has(t, o.Edges[i]) {
				t[o] = true
			}
		}
		if all == nil {
			all = t
			continue
		}
		for k := range all {
			if !t[k] {
				delete(all, k)
			}
		}
	}
	for k := range all {
		st[k] = true
	}
}

func (g *regist) fromResult(call *ssa.Call, idx int, want bool, st map[ssa.Value]bool) {
	callee := call.Call.StaticCallee()
	s := g.sumOf(callee)
	if s == nil {
		return
	}
	m := s.when[idx]
	if !want {
		m = s.whenNot[idx]
	}
	for k := range m {
		if w := callPart(call, k); w != nil {
			st[w] = true
		}
	}
}

// sumOf: what is known to be registered when a function of the font returns.
func (g *regist) sumOf(fn *ssa.Function) *regSum {
	if s, ok := g.sums[fn]; ok {
		return s
	}
	if g.busy[fn] || !g.p.owns(fn) || fn.Blocks == nil || recvName(fn) != g.font.Obj().Name() {
		return nil
	}
	g.busy[fn] = true
	defer delete(g.busy, fn)
	fs := g.factsOf(fn)
	s := &regSum{map[string]bool{}, map[string]bool{}, map[int]map[string]bool{}, map[int]map[string]bool{}}
	first := true
	firstOK := true
	merge := func(dst map[string]bool, src map[string]bool, first bool) map[string]bool {
		if first || dst == nil {
			out := map[string]bool{}
			for k := range src {
				out[k] = true
			}
			return out
		}
		for k := range dst {
			if !src[k] {
				delete(dst, k)
			}
		}
		return dst
	}
	for _, r := range returnsOf(fn) {
		st := fs.out[r.Block()]
		vals := retVals(r)
		got := func(st map[ssa.Value]bool) map[string]bool {
			out := map[string]bool{}
			for i, p := range fn.Params {
				if isRune(p.Type()) && st[p] {
					out["p"+itoa(i)] = true
				}
			}
			for i, v := range vals {
				if isRune(v.Type()) && g.has(st, v) {
					out["r"+itoa(i)] = true
				}
			}
			return out
		}
		here := got(st)
		s.always = merge(s.always, here, first)
		last := vals
		if len(last) > 0 && isErrorType(last[len(last)-1].Type()) && !isNilConst(last[len(last)-1]) {
			// an error, or what a call gave back as one: nothing to add
			if _, isConst := last[len(last)-1].(*ssa.Const); !isConst {
				first = false
				continue
			}
		}
		s.partial = merge(s.partial, here, firstOK)
		for i, v := range vals {
			if !isBool(v.Type()) {
				continue
			}
			for _, want := range []bool{true, false} {
				if c, ok := v.(*ssa.Const); ok && constBool(c) != want {
					continue // this return does not give it
				}
				t := map[ssa.Value]bool{}
				for k := range st {
					t[k] = true
				}
				g.holds(v, want, t)
				m := s.when
				if !want {
					m = s.whenNot
				}
				m[i] = merge(m[i], got(t), m[i] == nil)
			}
		}
		first, firstOK = false, false
	}
	g.sums[fn] = s
	return s
}

// glyphOf: the glyph is the one the font has for the character (or none, 0).
func (g *regist) glyphOf(ch, gl ssa.Value, che, gle *regEnv, depth int) bool {
	if depth > 12 {
		return false
	}
	same := func(a ssa.Value, ae *regEnv, b ssa.Value, be *regEnv) bool {
		a, ae = g.base(a, ae)
		b, be = g.base(b, be)
		return a == b
	}
	switch x := gl.(type) {
	case *ssa.Const:
		n, ok := constInt(x)
		return ok && n == 0
	case *ssa.Convert:
		return g.glyphOf(ch, x.X, che, gle, depth+1)
	case *ssa.Phi:
		for i, e := range x.Edges {
			c := ch
			if ph, ok := ch.(*ssa.Phi); ok && ph.Block() == x.Block() {
				c = ph.Edges[i]
			}
			if e != gl && !g.glyphOf(c, e, che, gle, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		if gle != nil {
			a := argOf(gle.call.Common(), paramIndex(x))
			return a != nil && g.glyphOf(ch, a, che, gle.up, depth+1)
		}
		fn := x.Parent()
		cs := g.p.staticCallers()[fn]
		if len(cs) == 0 {
			return false
		}
		for _, c := range cs {
			e := &regEnv{c, nil}
			che2 := che
			if che == nil {
				che2 = e
			}
			if !g.glyphOf(ch, x, che2, e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		call, ok := x.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		callee := call.Call.StaticCallee()
		if callee == nil {
			return false
		}
		if recvName(callee) == g.font.Obj().Name() && x.Index == 0 && callee.Signature.Results().Len() == 2 && len(call.Call.Args) == 2 && isRune(call.Call.Args[1].Type()) && !g.regFns[callee] {
			return same(ch, che, call.Call.Args[1], gle)
		}
		if !g.p.owns(callee) || callee.Blocks == nil {
			return false
		}
		for _, r := range returnsOf(callee) {
			vals := retVals(r)
			c2, ce2 := ch, che
			if ce, ok := ch.(*ssa.Extract); ok && ce.Tuple == x.Tuple {
				c2, ce2 = vals[ce.Index], &regEnv{call, gle}
			}
			if !g.glyphOf(c2, vals[x.Index], ce2, &regEnv{call, gle}, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// tableKept: the table of a font is set when the font is made and not replaced.
func (g *regist) tableKept() {
	n := 0
	for _, s := range g.p.allStores()[g.owner] {
		n++
		fa := s.ins.(*ssa.Store).Addr.(*ssa.FieldAddr)
		if !g.fresh(fa.X, map[ssa.Value]bool{}, 0) {
			g.res.add("table-kept", fname(s.fn), "table set by "+fname(s.fn), g.p.insPos(s.ins), "the table of characters of a font in use is replaced: what was registered is lost")
		}
	}
	g.res.Counts["places that set a font's table"] = n
	for _, fn := range g.p.Funcs {
		if recvName(fn) != g.table.Obj().Name() {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						g.res.add("table-kept", fname(fn), bi.Name(), g.p.insPos(ins), "registered characters are removed from the table")
					}
				}
			}
		}
	}
}

func (g *regist) fresh(v ssa.Value, seen map[ssa.Value]bool, depth int) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !g.fresh(e, seen, depth+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return f != nil && (f.Name() == "new" || strings.HasPrefix(f.Name(), "new") && g.p.owns(f))
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			whole, _ := allocStores(al)
			for _, st := range whole {
				if !g.fresh(st.Val, seen, depth+1) {
					return false
				}
			}
			return len(whole) > 0
		}
	case *ssa.Parameter:
		cs := g.p.staticCallers()[x.Parent()]
		if len(cs) == 0 || depth > 4 {
			return false
		}
		for _, c := range cs {
			if !g.fresh(argOf(c.Common(), paramIndex(x)), seen, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// oneFont: the objects written for a font (widths, Unicode map, glyph program) are made for one and the same font.
func (g *regist) oneFont() {
	type use struct {
		v   ssa.Value
		ins ssa.Instruction
		k   fieldKey
	}
	by := map[*ssa.Function][]use{}
	n := 0
	for k, ss := range g.p.allStores() {
		if k.typ == g.cur.typ || tname(deref(g.fieldType(k))) != g.font.Obj().Name() {
			continue
		}
		nt := g.p.namedType(k.typ)
		if nt == nil || g.p.methodOf(nt, "getType") == nil {
			continue // not an object of the file
		}
		for _, s := range ss {
			n++
			var up func(v ssa.Value, at ssa.Instruction, depth int)
			up = func(v ssa.Value, at ssa.Instruction, depth int) {
				b, _ := g.base(v, nil)
				if p, ok := b.(*ssa.Parameter); ok && depth < 6 && recvName(p.Parent()) == k.typ {
					cs := g.p.staticCallers()[p.Parent()]
					for _, c := range cs {
						if a := argOf(c.Common(), paramIndex(p)); a != nil {
							up(a, c, depth+1)
						}
					}
					if len(cs) > 0 {
						return
					}
				}
				by[at.Parent()] = append(by[at.Parent()], use{b, at, k})
			}
			up(s.val, s.ins, 0)
		}
	}
	var fns []*ssa.Function
	for fn := range by {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
	for _, fn := range fns {
		us := by[fn]
		sort.Slice(us, func(i, j int) bool { return us[i].ins.Pos() < us[j].ins.Pos() })
		for _, u := range us[1:] {
			if u.v != us[0].v {
				g.res.add("one-font", fname(fn), "font of "+u.k.typ, g.p.insPos(u.ins), "the objects written for a font are made for different fonts")
			}
		}
	}
	g.res.Counts["objects made for a font"] = n
	g.res.floor("objects made for a font", n, 3)
}

func (g *regist) fieldType(k fieldKey) types.Type {
	nt := g.p.namedType(k.typ)
	if nt == nil {
		return types.Typ[types.Invalid]
	}
	s := structOf(nt)
	if s == nil || k.idx >= s.NumFields() {
		return types.Typ[types.Invalid]
	}
	return s.Field(k.idx).Type()
}
