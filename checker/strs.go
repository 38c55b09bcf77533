package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func dedupM(in []Mach) []Mach {
	if len(in) < 2 {
		return in
	}
	seen := map[string]bool{}
	var out []Mach
	for _, m := range in {
		k := m.Key()
		if !seen[k] {
			seen[k] = true
			out = append(out, m)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key() < out[j].Key() })
	return out
}

func (it *Interp) feedHole(ms []Mach, h Hole) []Mach {
	var out []Mach
	for _, m := range ms {
		out = append(out, m.hole(it.r, h)...)
	}
	return dedupM(out)
}

func (it *Interp) feedLit(ms []Mach, s string) []Mach {
	var out []Mach
	for _, m := range ms {
		out = append(out, m.lit(it.r, s)...)
	}
	return dedupM(out)
}

// format feeds a printf format and its arguments.
func (it *Interp) format(f string, args []BV, ms []Mach) []Mach {
	ai := 0
	i := 0
	var lit strings.Builder
	flush := func() {
		if lit.Len() > 0 {
			ms = it.feedLit(ms, lit.String())
			lit.Reset()
		}
	}
	for i < len(f) {
		if f[i] != '%' {
			lit.WriteByte(f[i])
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		spec := f[i+1 : j]
		verb := f[j]
		i = j + 1
		if verb == '%' {
			lit.WriteByte('%')
			continue
		}
		flush()
		if ai >= len(args) {
			it.r.report("syntax", "format %q has more verbs than arguments", f)
			return nil
		}
		a := args[ai]
		ai++
		ms = it.verb(verb, spec, a, ms)
	}
	flush()
	if ai < len(args) {
		it.r.report("syntax", "format %q has more arguments than verbs", f)
		return nil
	}
	return ms
}

func (it *Interp) sprint(args []BV, ln bool, ms []Mach) []Mach {
	for i, a := range args {
		if i > 0 {
			// Print adds spaces between operands when neither is a string, Println always
			if ln || !isString(it.vc.resolve(a).v.Type()) && !isString(it.vc.resolve(args[i-1]).v.Type()) {
				ms = it.feedLit(ms, " ")
			}
		}
		ms = it.verb('v', "", a, ms)
	}
	if ln {
		ms = it.feedLit(ms, "\n")
	}
	return ms
}

func (it *Interp) verb(verb byte, spec string, a BV, ms []Mach) []Mach {
	rv := it.vc.resolve(a)
	t := rv.v.Type()
	if mi, ok := a.v.(*ssa.MakeInterface); ok {
		t = mi.X.Type()
		a = BV{mi.X, a.fr}
	}
	u := t.Underlying()
	plus := strings.Contains(spec, "+")
	_ = plus
	switch verb {
	case 'd':
		if isInteger(t) {
			return it.feedHole(ms, Hole{Kind: HInt, Src: a})
		}
	case 'f', 'F':
		if isFloat(t) {
			return it.feedHole(ms, Hole{Kind: HNum, Src: a})
		}
		if sl, ok := u.(*types.Slice); ok && isFloat(sl.Elem()) {
			return it.listOf(ms, Hole{Kind: HNum, Src: a})
		}
	case 'e', 'E', 'g', 'G':
		return it.feedHole(ms, Hole{Kind: HExp, Src: a})
	case 'X', 'x':
		if isInteger(t) || isString(t) || isBytes(t) {
			return it.feedHole(ms, Hole{Kind: HHex, Src: a})
		}
	case 'c':
		if isInteger(t) {
			var out []Mach
			for _, m := range ms {
				out = append(out, it.char(a, m)...)
			}
			return dedupM(out)
		}
	case 's', 'v':
		switch {
		case isString(t):
			var out []Mach
			for _, m := range ms {
				out = append(out, it.str(a, m)...)
			}
			return dedupM(out)
		case isBytes(t) && verb == 's':
			var out []Mach
			for _, m := range ms {
				out = append(out, it.bytes(a, m)...)
			}
			return dedupM(out)
		case verb == 'v' && isInteger(t):
			return it.feedHole(ms, Hole{Kind: HInt, Src: a})
		case verb == 'v' && isFloat(t):
			return it.feedHole(ms, Hole{Kind: HExp, Src: a})
		case verb == 'v' && types.Identical(u, types.Typ[types.Bool]):
			return it.feedLit(ms, "true")
		}
		if sl, ok := u.(*types.Slice); ok && isInteger(sl.Elem()) && verb == 'v' {
			return it.listOf(ms, Hole{Kind: HInt, Src: a})
		}
	case 't':
		return it.feedLit(ms, "true")
	}
	if verb == 'd' {
		if sl, ok := u.(*types.Slice); ok && isInteger(sl.Elem()) {
			return it.listOf(ms, Hole{Kind: HInt, Src: a})
		}
	}
	it.r.report("syntax", "verb %%%c is used with a value of type %s", verb, tname(t))
	return nil
}

// listOf: fmt prints slices as [a b c].
func (it *Interp) listOf(ms []Mach, h Hole) []Mach {
	ms = it.feedLit(ms, "[")
	all := append([]Mach(nil), ms...)
	cur := ms
	for n := 0; n < 20; n++ {
		nx := it.feedHole(cur, h)
		nx = it.feedLit(nx, " ")
		before := len(dedupM(all))
		all = dedupM(append(all, nx...))
		if len(all) == before {
			break
		}
		cur = nx
	}
	return it.feedLit(all, "]")
}

// user feeds caller-controlled text of any length through a character homomorphism.
func (it *Interp) user(b BV, images map[byte]string, m Mach) []Mach {
	if images == nil {
		if e := it.enumOf(b); e != nil {
			return it.alts(b, m, e)
		}
	}
	if m.ps.dataMode() {
		return m.hole(it.r, Hole{Kind: HOpaque, Src: b, Body: it.dataInfo(b)})
	}
	if m.mode == '/' && m.txt == "" {
		m.user = true // an empty text gives an empty name, which is a valid name
	}
	all := []Mach{m}
	frontier := []Mach{m}
	for n := 0; n < 60 && len(frontier) > 0; n++ {
		var nx []Mach
		for _, x := range frontier {
			for _, rep := range reps {
				img := string([]byte{rep})
				if images != nil {
					img = images[rep]
				}
				if img == "" {
					continue
				}
				nx = append(nx, x.hole(it.r, Hole{Kind: HUser, Src: b, Img: img, Rep: rep})...)
			}
		}
		nx = dedupM(nx)
		have := map[string]bool{}
		for _, a := range all {
			have[a.Key()] = true
		}
		frontier = nil
		for _, x := range nx {
			if !have[x.Key()] {
				have[x.Key()] = true
				frontier = append(frontier, x)
				all = append(all, x)
			}
		}
	}
	return dedupM(all)
}

func identityHom() map[byte]string {
	h := map[byte]string{}
	for _, r := range reps {
		h[r] = string([]byte{r})
	}
	return h
}

// homOf analyses a string expression as caller text passed through character replacements. ok is
// false when the value is not of that shape.
func (it *Interp) homOf(b BV, depth int) (src BV, h map[byte]string, ok bool) {
	if depth > 30 {
		return b, nil, false
	}
	b = it.vc.resolve(b)
	switch x := b.v.(type) {
	case *ssa.Call:
		full := fullCallee(&x.Call)
		switch full {
		case "strings.Replace", "strings.ReplaceAll":
			o, ok1 := it.constStr(BV{x.Call.Args[1], b.fr})
			n, ok2 := it.constStr(BV{x.Call.Args[2], b.fr})
			if full == "strings.Replace" {
				k, ok := it.vc.evalConst(BV{x.Call.Args[3], b.fr}, nil, 0)
				if !ok {
					return b, nil, false
				}
				if v, _ := constant.Int64Val(k); v >= 0 {
					// only the first occurrences are replaced: the rest pass unchanged
					return it.homOf(BV{x.Call.Args[0], b.fr}, depth+1)
				}
			}
			if !ok1 || !ok2 || len(o) != 1 {
				return it.homOf(BV{x.Call.Args[0], b.fr}, depth+1)
			}
			s, h, ok := it.homOf(BV{x.Call.Args[0], b.fr}, depth+1)
			if !ok {
				return b, nil, false
			}
			nh := map[byte]string{}
			for r, img := range h {
				nh[r] = strings.ReplaceAll(img, o, n)
			}
			return s, nh, true
		case "(*strings.Replacer).Replace":
			s, h, ok := it.homOf(BV{x.Call.Args[1], b.fr}, depth+1)
			if !ok {
				return b, nil, false
			}
			mk := it.replacerArgs(BV{x.Call.Args[0], b.fr})
			if mk == nil {
				return b, nil, false
			}
			rep := strings.NewReplacer(mk...)
			nh := map[byte]string{}
			for r, img := range h {
				nh[r] = rep.Replace(img)
			}
			return s, nh, true
		case "strings.TrimSpace", "strings.Trim", "strings.TrimLeft", "strings.TrimRight", "strings.TrimPrefix", "strings.TrimSuffix", "strings.ToUpper", "strings.ToLower", "strings.ToValidUTF8", "strings.Clone":
			if _, isc := it.vc.evalConst(b, nil, 0); isc {
				return b, nil, false
			}
			return it.homOf(BV{x.Call.Args[0], b.fr}, depth+1)
		}
		if f := it.vc.callees0(x); f != nil && b.fr != nil && !b.fr.inChain(f) {
			rets := returnsOf(f)
			if len(rets) == 1 && len(retVals(rets[0])) >= 1 {
				nf := it.vc.enter(b.fr, x, f)
				return it.homOf(BV{retVals(rets[0])[0], nf}, depth+1)
			}
		}
		return b, nil, false
	case *ssa.Extract:
		return it.homLeaf(b)
	case *ssa.Convert:
		if isString(x.Type()) && (isBytes(x.X.Type()) || isString(x.X.Type())) {
			return it.homOf(BV{x.X, b.fr}, depth+1)
		}
		if isBytes(x.Type()) && isString(x.X.Type()) {
			return it.homOf(BV{x.X, b.fr}, depth+1)
		}
		return b, nil, false
	}
	return it.homLeaf(b)
}

func (it *Interp) homLeaf(b BV) (BV, map[byte]string, bool) {
	return b, identityHom(), false || isUserLeaf(b.v)
}

// isUserLeaf: values whose text is not known: parameters, loads, results of other calls.
func isUserLeaf(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.Extract, *ssa.Lookup, *ssa.FreeVar:
		return true
	case *ssa.UnOp, *ssa.Field:
		return true
	case *ssa.Convert:
		return isUserLeaf(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != x && !isUserLeaf(e) {
				return false
			}
		}
		return true
	}
	return false
}

func (it *Interp) replacerArgs(b BV) []string {
	b = it.vc.resolve(b)
	call, ok := b.v.(*ssa.Call)
	if !ok {
		// package-level replacer
		if ld, ok := b.v.(*ssa.UnOp); ok {
			if g, ok := ld.X.(*ssa.Global); ok {
				for _, st := range it.p.globalStores(g) {
					if c, ok := st.Val.(*ssa.Call); ok {
						return it.replacerArgs(BV{c, it.vc.root(st.Parent())})
					}
				}
			}
		}
		return nil
	}
	if fullCallee(&call.Call) != "strings.NewReplacer" {
		return nil
	}
	var out []string
	for _, a := range it.varargs(BV{call.Call.Args[0], b.fr}) {
		s, ok := it.constStr(a)
		if !ok {
			return nil
		}
		out = append(out, s)
	}
	if len(out)%2 != 0 || len(out) == 0 {
		return nil
	}
	return out
}

// globalStores lists stores to a package variable.
func (p *Prog) globalStores(g *ssa.Global) []*ssa.Store {
	var out []*ssa.Store
	fns := append([]*ssa.Function(nil), p.Funcs...)
	for _, sp := range []*ssa.Package{p.Root, p.Core} {
		if in := sp.Func("init"); in != nil {
			fns = append(fns, in)
		}
	}
	seen := map[*ssa.Store]bool{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == g && !seen[st] {
					seen[st] = true
					out = append(out, st)
				}
			}
		}
	}
	return out
}

// str feeds the text of a string value. The result is the set of automaton states afterwards.
func (it *Interp) str(b BV, m Mach) []Mach {
	if s, ok := it.constStr(b); ok {
		return m.lit(it.r, s)
	}
	if m.ps.dataMode() {
		return m.hole(it.r, Hole{Kind: HOpaque, Src: b, Body: it.dataInfo(b)})
	}
	if m.mode == '/' && m.txt == "" {
		m.user = true // an empty text gives an empty name, which is a valid name
	}
	b0 := b
	b = it.vc.resolve(b)
	key := fmt.Sprintf("%s/%p|%d|%s", it.vc.id(b), it.cur, it.r.prot, m.Key())
	if e := it.strMemo[key]; e != nil {
		if e.busy {
			e.hit = true
		}
		return e.out
	}
	e := &strRes{busy: true}
	it.strMemo[key] = e
	for n := 0; n < 40; n++ {
		e.hit = false
		out := dedupM(append(append([]Mach(nil), e.out...), it.str1(b0, b, m)...))
		grew := len(out) > len(e.out)
		e.out = out
		if !e.hit || !grew {
			break
		}
	}
	e.busy = false
	res := e.out
	delete(it.strMemo, key)
	// what is known on the way here may exclude the empty text
	mk := m.Key()
	for i, r := range res {
		if r.Key() == mk && len(res) > 1 && it.nonEmpty(b) {
			res = append(append([]Mach(nil), res[:i]...), res[i+1:]...)
			break
		}
	}
	return res
}

// nonEmpty: the branch conditions on the way to the current point contradict b == "".
func (it *Interp) nonEmpty(b BV) bool {
	if !isString(b.v.Type()) {
		return false
	}
	bk, _ := it.vc.condKey(b)
	env := func(q BV) (constant.Value, bool) {
		if !isString(q.v.Type()) {
			return nil, false
		}
		if _, ok := q.v.(*ssa.Const); ok {
			return nil, false
		}
		if k, _ := it.vc.condKey(q); k == bk {
			return constant.MakeString(""), true
		}
		return nil, false
	}
	fs := append([]fact(nil), it.curFacts...)
	if it.cur != nil {
		for f := b.fr; f != nil; f = f.up {
			if f.fn == it.cur.Parent() {
				fs = append(fs, it.domFacts(it.cur.Block(), f)...)
				break
			}
		}
	}
	if ins, ok := b.v.(ssa.Instruction); ok && b.fr != nil && ins.Parent() == b.fr.fn {
		fs = append(fs, it.domFacts(ins.Block(), b.fr)...)
	}
	for _, f := range fs {
		if f.cond.v == nil {
			continue
		}
		k, ok := it.vc.evalConst(f.cond, env, 0)
		if !ok || k.Kind() != constant.Bool {
			continue
		}
		want := f.val
		if bo, ok := it.vc.resolve(f.cond).v.(*ssa.BinOp); ok && bo.Op == token.NEQ {
			want = !want
		}
		if constant.BoolVal(k) != want {
			return true
		}
	}
	return false
}

// enumOf: a value of a named string type with declared constants that comes from outside is assumed
// to be one of these constants.
func (it *Interp) enumOf(b BV) []string {
	t := b.v.Type()
	cs := it.p.enumConsts(t)
	if cs == nil {
		r := it.vc.resolve(b)
		cs = it.p.enumConsts(r.v.Type())
	}
	return cs
}

func (it *Interp) alts(b BV, m Mach, ss []string) []Mach {
	var out []Mach
	if !it.nonEmpty(b) {
		out = append(out, m) // the zero value of the option
	}
	for _, s := range ss {
		out = append(out, m.lit(it.r, s)...)
	}
	return dedupM(out)
}

func (it *Interp) str1(orig, b BV, m Mach) []Mach {
	if src, h, ok := it.homOf(orig, 0); ok {
		// replacements over text that itself may be resolvable
		ident := true
		for r, img := range h {
			if img != string([]byte{r}) {
				ident = false
			}
		}
		if !ident {
			return it.user(src, h, m)
		}
	}
	switch x := b.v.(type) {
	case *ssa.BinOp:
		if x.Op == token.ADD {
			var out []Mach
			for _, m1 := range it.str(BV{x.X, b.fr}, m) {
				out = append(out, it.str(BV{x.Y, b.fr}, m1)...)
			}
			return dedupM(out)
		}
	case *ssa.Phi:
		var out []Mach
		for i, e := range x.Edges {
			if way := it.vc.wayIn(x, i, b.fr); !refuted(it.curFacts, way) && !refuted(m.seen, way) {
				out = append(out, it.str(BV{e, b.fr}, it.chosen(m, way, b.fr))...)
			}
		}
		return dedupM(out)
	case *ssa.Convert:
		switch {
		case isString(x.X.Type()):
			return it.str(BV{x.X, b.fr}, m)
		case isBytes(x.X.Type()):
			return it.bytes(BV{x.X, b.fr}, m)
		case isInteger(x.X.Type()):
			return it.char(BV{x.X, b.fr}, m)
		}
		return it.user(b, nil, m)
	case *ssa.Slice:
		if _, ok := it.constStr(BV{x.X, b.fr}); !ok {
			return it.str(BV{x.X, b.fr}, m)
		}
		return it.user(b, nil, m)
	case *ssa.Call:
		return it.strCall(b, x, m)
	case *ssa.Extract:
		switch tu := x.Tuple.(type) {
		case *ssa.Call:
			full := fullCallee(&tu.Call)
			if strings.Contains(full, "phpdave11/gofpdi") {
				return m.hole(it.r, Hole{Kind: HTrusted, Src: b})
			}
			return it.retStr(b.fr, tu, x.Index, m)
		case *ssa.Next:
			if rg, ok := tu.Iter.(*ssa.Range); ok && it.fromImporter(BV{rg.X, b.fr}, 0) {
				return m.hole(it.r, Hole{Kind: HTrusted, Src: b})
			}
		case *ssa.Lookup:
			if it.fromImporter(BV{tu.X, b.fr}, 0) {
				return m.hole(it.r, Hole{Kind: HTrusted, Src: b})
			}
		}
		return it.user(b, nil, m)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return it.load(b, x, m)
		}
	case *ssa.Field:
		return it.fieldAny(b, fkey(x.X.Type(), x.Field), m)
	case *ssa.Parameter:
		return it.param(b, x, m)
	}
	return it.user(b, nil, m)
}

func (it *Interp) param(b BV, x *ssa.Parameter, m Mach) []Mach {
	fn := x.Parent()
	exported := fn.Object() != nil && fn.Object().Exported()
	if exported || fn.Parent() != nil {
		if exported && fn.Signature.Recv() != nil {
			// exported methods of unexported types count as internal
			if nt, ok := deref(fn.Signature.Recv().Type()).(*types.Named); ok && nt.Obj().Exported() {
				return it.user(b, nil, m)
			}
		} else {
			return it.user(b, nil, m)
		}
	}
	i := paramIndex(x)
	calls := it.p.staticCallers()[fn]
	if len(calls) == 0 || i < 0 {
		return it.user(b, nil, m)
	}
	var out []Mach
	for _, c := range calls {
		as := c.Common().Args
		j := i
		if c.Common().IsInvoke() {
			j = i - 1
		}
		if j < 0 || j >= len(as) {
			continue
		}
		out = append(out, it.str(BV{as[j], it.vc.root(c.Parent())}, m)...)
	}
	return dedupM(out)
}

// fieldAny: union over every store to the field anywhere.
func (it *Interp) fieldAny(b BV, k fieldKey, m Mach) []Mach {
	sts := it.p.allStores()[k]
	if it.fieldFromImporter(k) {
		return m.hole(it.r, Hole{Kind: HTrusted, Src: b})
	}
	if len(sts) == 0 {
		return it.user(b, nil, m)
	}
	var out []Mach
	for _, st := range sts {
		if ld, ok := st.val.(*ssa.UnOp); ok && ld.Op == token.MUL {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok && fkey(fa.X.Type(), fa.Field) == k {
				continue // plain copy of the same field
			}
		}
		if accumulates(st.val, k, 0) {
			out = append(out, m) // starts from the zero value
		}
		out = append(out, it.str(BV{st.val, it.vc.root(st.fn)}, m)...)
	}
	return dedupM(out)
}

// accumulates: the stored text extends what the same field held before.
func accumulates(v ssa.Value, k fieldKey, depth int) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == nil || seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL && fkey(fa.X.Type(), fa.Field) == k {
				return true
			}
		case *ssa.Alloc:
			// argument packs
			for _, r := range *x.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, u := range *ia.Referrers() {
						if st, ok := u.(*ssa.Store); ok && rec(st.Val) {
							return true
						}
					}
				}
			}
			return false
		}
		if ins, ok := v.(ssa.Instruction); ok {
			for _, o := range ins.Operands(nil) {
				if *o != nil && rec(*o) {
					return true
				}
			}
		}
		return false
	}
	return rec(v)
}

// valID identifies a value structurally, so two loads of one field are the same data.
func (it *Interp) valID(b BV) string {
	k, _ := it.vc.condKey(b)
	return k
}

func (it *Interp) fieldFromImporter(k fieldKey) bool {
	sts := it.p.allStores()[k]
	if len(sts) == 0 {
		return false
	}
	for _, st := range sts {
		if it.fromImporter(BV{st.val, it.vc.root(st.fn)}, 0) {
			return true
		}
	}
	return false
}

// fromImporter: the value comes out of the third-party page importer.
func (it *Interp) fromImporter(b BV, depth int) bool {
	if depth == 0 || it.impSeen == nil {
		it.impSeen = map[BV]bool{}
		depth = 1
	}
	b = it.vc.resolve(b)
	if depth > 60 || it.impSeen[b] {
		return false
	}
	it.impSeen[b] = true
	rec := func(v ssa.Value) bool { return it.fromImporter(BV{v, b.fr}, depth+1) }
	switch x := b.v.(type) {
	case *ssa.Call:
		if strings.Contains(fullCallee(&x.Call), "phpdave11/gofpdi") {
			return true
		}
		if fullCallee(&x.Call) == "builtin.append" {
			for _, el := range it.varargs(BV{x.Call.Args[1], b.fr}) {
				if it.fromImporter(el, depth+1) {
					return true
				}
			}
			return rec(x.Call.Args[0])
		}
		if f := it.vc.callees0(x); f != nil {
			for _, r := range returnsOf(f) {
				for _, v := range r.Results {
					if it.fromImporter(BV{v, it.vc.root(f)}, depth+4) {
						return true
					}
				}
			}
		}
	case *ssa.Extract:
		return rec(x.Tuple)
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok {
			return rec(rg.X)
		}
	case *ssa.Lookup:
		return rec(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if it.fromImporter(BV{e, b.fr}, depth+3) {
				return true
			}
		}
	case *ssa.Parameter:
		for _, c := range it.p.staticCallers()[x.Parent()] {
			i := paramIndex(x)
			if c.Common().IsInvoke() {
				i--
			}
			if i >= 0 && i < len(c.Common().Args) && it.fromImporter(BV{c.Common().Args[i], it.vc.root(c.Parent())}, depth+3) {
				return true
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Alloc:
				whole, _ := allocStores(a)
				for _, st := range whole {
					if it.fromImporter(BV{st.Val, it.vc.frameOfStore(b.fr, st)}, depth+1) {
						return true
					}
				}
			case *ssa.FieldAddr:
				for _, st := range it.p.allStores()[fkey(a.X.Type(), a.Field)] {
					if it.fromImporter(BV{st.val, it.vc.root(st.fn)}, depth+4) {
						return true
					}
				}
				// maps filled in place
				return it.mapFedByImporter(a, depth)
			case *ssa.IndexAddr:
				if els := it.appended(BV{a.X, b.fr}, 0); len(els) > 0 {
					for _, el := range els {
						if !it.fromImporter(el, depth+2) {
							return false
						}
					}
					return true
				}
				return rec(a.X)
			}
		}
	case *ssa.MakeSlice:
		for _, r := range *x.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) && it.fromImporter(BV{st.Val, b.fr}, depth+1) {
						return true
					}
				}
			}
		}
	case *ssa.MakeMap:
		return it.mapUpdatesFromImporter(x, depth)
	case *ssa.Slice:
		return rec(x.X)
	}
	return false
}

func (it *Interp) mapFedByImporter(fa *ssa.FieldAddr, depth int) bool {
	if _, ok := fa.Type().(*types.Pointer).Elem().Underlying().(*types.Map); !ok {
		return false
	}
	k := fkey(fa.X.Type(), fa.Field)
	for _, fn := range it.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok {
					if ld, ok := mu.Map.(*ssa.UnOp); ok {
						if fa2, ok := ld.X.(*ssa.FieldAddr); ok && fkey(fa2.X.Type(), fa2.Field) == k {
							if it.fromImporter(BV{mu.Key, it.vc.root(fn)}, depth+4) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

func (it *Interp) mapUpdatesFromImporter(mm *ssa.MakeMap, depth int) bool {
	if mm.Referrers() == nil {
		return false
	}
	for _, r := range *mm.Referrers() {
		if mu, ok := r.(*ssa.MapUpdate); ok {
			if it.fromImporter(BV{mu.Key, it.vc.root(mm.Parent())}, depth+4) {
				return true
			}
		}
	}
	return false
}

func (it *Interp) load(b BV, x *ssa.UnOp, m Mach) []Mach {
	ad := it.vc.resolve(BV{x.X, b.fr})
	switch a := ad.v.(type) {
	case *ssa.FieldAddr:
		base := it.vc.resolve(BV{a.X, ad.fr})
		if al, ok := base.v.(*ssa.Alloc); ok && !addrLeaks(al) {
			whole, fields := allocStores(al)
			if len(whole) == 0 && len(fields[a.Field]) > 0 {
				var out []Mach
				for _, st := range fields[a.Field] {
					out = append(out, it.str(BV{st.Val, it.vc.frameOfStore(base.fr, st)}, m)...)
				}
				return dedupM(out)
			}
			if len(whole) > 0 {
				var out []Mach
				for _, st := range fields[a.Field] {
					out = append(out, it.str(BV{st.Val, it.vc.frameOfStore(base.fr, st)}, m)...)
				}
				def := it.defaulted(al, a.Field, fields[a.Field])
				for _, st := range whole {
					for _, o := range it.structField(BV{st.Val, it.vc.frameOfStore(base.fr, st)}, a.Field, fkey(a.X.Type(), a.Field), m) {
						if !def || o.Key() != m.Key() {
							out = append(out, o)
						}
					}
				}
				return dedupM(out)
			}
		}
		return it.fieldAny(b, fkey(a.X.Type(), a.Field), m)
	case *ssa.Alloc:
		whole, _ := allocStores(a)
		if len(whole) == 0 {
			return m.lit(it.r, "")
		}
		var out []Mach
		for _, st := range whole {
			out = append(out, it.str(BV{st.Val, it.vc.frameOfStore(ad.fr, st)}, m)...)
		}
		return dedupM(out)
	case *ssa.IndexAddr:
		if ss := it.elems(BV{a.X, ad.fr}); ss != nil {
			var out []Mach
			for _, s := range ss {
				out = append(out, it.str(s, m)...)
			}
			return dedupM(out)
		}
		if it.fromImporter(BV{a.X, ad.fr}, 0) {
			return m.hole(it.r, Hole{Kind: HTrusted, Src: b})
		}
		if els, ok := it.sliceElems(BV{a.X, ad.fr}, map[ssa.Value]bool{}); ok && len(els) > 0 {
			var out []Mach
			for _, el := range els {
				out = append(out, it.str(el, m)...)
			}
			return dedupM(out)
		}
	case *ssa.Global:
		if sts := it.p.globalStores(a); len(sts) > 0 {
			var out []Mach
			for _, st := range sts {
				out = append(out, it.str(BV{st.Val, it.vc.root(st.Parent())}, m)...)
			}
			return dedupM(out)
		}
	case *ssa.UnOp:
		// pointer stored in a field: follow the addresses stored there
		if ts := it.pointees(BV{a, ad.fr}, 0); len(ts) > 0 {
			var out []Mach
			for _, t := range ts {
				if fa, ok := t.v.(*ssa.FieldAddr); ok {
					if e := it.enumOf(b); e != nil {
						out = append(out, it.alts(b, m, e)...)
					} else {
						out = append(out, it.fieldAny(b, fkey(fa.X.Type(), fa.Field), m)...)
					}
				}
			}
			return dedupM(out)
		}
	}
	return it.user(b, nil, m)
}

// defaulted: the field is given a value where it was found empty.
func (it *Interp) defaulted(al *ssa.Alloc, field int, sts []*ssa.Store) bool {
	for _, st := range sts {
		for _, f := range it.domFacts(st.Block(), it.vc.root(st.Parent())) {
			bo, ok := f.cond.v.(*ssa.BinOp)
			if !ok || !f.val {
				continue
			}
			for _, o := range []ssa.Value{bo.X, bo.Y} {
				if c, ok := o.(*ssa.Call); ok && fullCallee(&c.Call) == "builtin.len" {
					o = c.Call.Args[0]
				}
				ld, ok := o.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				if fa, ok := ld.X.(*ssa.FieldAddr); ok && fa.X == al && fa.Field == field {
					if env, ok := it.vc.evalConst(BV{bo, it.vc.root(st.Parent())}, func(q BV) (constant.Value, bool) {
						if q.v == ssa.Value(ld) {
							return constant.MakeString(""), true
						}
						return nil, false
					}, 0); ok && env.Kind() == constant.Bool {
						return true
					}
				}
			}
		}
	}
	return false
}

func (it *Interp) pointees(b BV, depth int) []BV {
	if depth > 8 {
		return nil
	}
	b = it.vc.resolve(b)
	switch x := b.v.(type) {
	case *ssa.FieldAddr, *ssa.Alloc:
		return []BV{b}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			var out []BV
			for _, st := range it.p.allStores()[fkey(fa.X.Type(), fa.Field)] {
				out = append(out, it.pointees(BV{st.val, it.vc.root(st.fn)}, depth+1)...)
			}
			return out
		}
	}
	return nil
}

// elems lists the values stored into a locally built slice or array.
func (it *Interp) elems(b BV) []BV {
	b = it.vc.resolve(b)
	v := b.v
	if sl, ok := v.(*ssa.Slice); ok {
		v = sl.X
	}
	al, ok := v.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var out []BV
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && ia.Referrers() != nil {
			for _, u := range *ia.Referrers() {
				if st, ok := u.(*ssa.Store); ok && st.Addr == ia {
					out = append(out, BV{st.Val, b.fr})
				}
			}
		}
	}
	return out
}

func (it *Interp) structField(sv BV, field int, k fieldKey, m Mach) []Mach {
	if r, ok := it.vc.fieldOf(it.vc.resolve(sv), field); ok {
		return it.str(r, m)
	}
	return it.fieldAny(sv, k, m)
}

func (it *Interp) retStr(fr *Frame, call *ssa.Call, idx int, m Mach) []Mach {
	b := BV{call, fr}
	fs := it.vc.callees(fr, call)
	if len(fs) == 0 {
		return it.user(b, nil, m)
	}
	var out []Mach
	for _, f := range fs {
		if fr.inChain(f) || fr.depth > 16 {
			return it.user(b, nil, m)
		}
		nf := it.vc.enter(fr, call, f)
		for _, r := range returnsOf(f) {
			if idx >= len(r.Results) {
				continue
			}
			// a return that reports an error does not supply text
			if n := len(r.Results); n > 1 && isErrorType(retVals(r)[n-1].Type()) && idx != n-1 {
				if it.nonNilErr(BV{retVals(r)[n-1], nf}, PS{}, r.Block()) || dominatedByErr(retVals(r)[n-1], r.Block()) {
					continue
				}
			}
			if way := it.vc.wayTo(r.Block(), nil, nf); !refuted(it.curFacts, way) && !refuted(m.seen, way) {
				out = append(out, it.str(BV{retVals(r)[idx], nf}, it.chosen(m, way, nf))...)
			}
		}
	}
	return dedupM(out)
}

// dominatedByErr: block b is only reached when err != nil was true.
func dominatedByErr(err ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(id.Instrs) == 0 {
			continue
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 {
			continue
		}
		bo, ok := iff.Cond.(*ssa.BinOp)
		if !ok || bo.X != err && bo.Y != err {
			continue
		}
		if bo.Op == token.NEQ && id.Succs[0] == d || bo.Op == token.EQL && id.Succs[1] == d {
			if isNilConst(bo.X) || isNilConst(bo.Y) {
				return true
			}
		}
	}
	return false
}

func (it *Interp) strCall(b BV, x *ssa.Call, m Mach) []Mach {
	full := fullCallee(&x.Call)
	as := x.Call.Args
	arg := func(i int) BV { return BV{as[i], b.fr} }
	switch full {
	case "fmt.Sprintf":
		f, ok := it.constStr(arg(0))
		if !ok {
			it.r.report("unresolved", "format string is not a constant")
			return nil
		}
		return it.format(f, it.varargs(arg(1)), []Mach{m})
	case "fmt.Sprint":
		return it.sprint(it.varargs(arg(0)), false, []Mach{m})
	case "fmt.Sprintln":
		return it.sprint(it.varargs(arg(0)), true, []Mach{m})
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		if full != "strconv.Itoa" {
			if k, ok := constInt(as[1]); ok && k == 16 {
				return m.hole(it.r, Hole{Kind: HHex, Src: arg(0)})
			}
		}
		return m.hole(it.r, Hole{Kind: HInt, Src: arg(0)})
	case "strconv.FormatFloat":
		if k, ok := constInt(as[1]); ok && k == 'f' {
			return m.hole(it.r, Hole{Kind: HNum, Src: arg(0)})
		}
		return m.hole(it.r, Hole{Kind: HExp, Src: arg(0)})
	case "encoding/hex.EncodeToString":
		return m.hole(it.r, Hole{Kind: HHex, Src: arg(0)})
	case "net/url.QueryEscape", "net/url.PathEscape", "(time.Time).Format":
		return m.hole(it.r, Hole{Kind: HSafe, Src: b})
	case "strings.TrimSpace", "strings.ToUpper", "strings.ToLower", "strings.Clone", "strings.Trim", "strings.TrimRight", "strings.TrimLeft", "strings.TrimSuffix", "strings.TrimPrefix", "strings.ToValidUTF8":
		return it.str(arg(0), m)
	case "strings.Repeat":
		cur := []Mach{m}
		all := cur
		for n := 0; n < 20; n++ {
			var nx []Mach
			for _, c := range cur {
				nx = append(nx, it.str(arg(0), c)...)
			}
			k := len(all)
			all = dedupM(append(all, nx...))
			if len(all) == k {
				break
			}
			cur = dedupM(nx)
		}
		return all
	case "strings.Join":
		return it.join(arg(0), arg(1), m)
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		return it.bufAt(arg(0), x, m)
	case "strings.Replace", "strings.ReplaceAll", "(*strings.Replacer).Replace":
		if src, h, ok := it.homOf(b, 0); ok {
			return it.user(src, h, m)
		}
		// replacement in text that is itself built: approximate by the text with the old and new forms
		return it.str(arg(len(as)-len(as)), m)
	}
	if strings.Contains(full, "phpdave11/gofpdi") {
		return m.hole(it.r, Hole{Kind: HTrusted, Src: b})
	}
	return it.retStr(b.fr, x, 0, m)
}

// join: strings.Join(elements, sep) for a slice built by append in the same function.
func (it *Interp) join(sl, sep BV, m Mach) []Mach {
	els := it.appended(sl, 0)
	if els == nil {
		els = it.elems(sl)
	}
	if len(els) == 0 {
		return it.user(sl, nil, m)
	}
	all := []Mach{m}
	cur := []Mach{m}
	for n := 0; n < 30; n++ {
		var nx []Mach
		for _, c := range cur {
			starts := []Mach{c}
			if n > 0 {
				starts = it.str(sep, c)
			}
			for _, s := range starts {
				for _, e := range els {
					nx = append(nx, it.str(e, s)...)
				}
			}
		}
		nx = dedupM(nx)
		k := len(all)
		all = dedupM(append(all, nx...))
		if len(all) == k {
			break
		}
		cur = nx
	}
	return all
}

// appended lists the elements appended to a slice variable.
func (it *Interp) appended(b BV, depth int) []BV {
	if depth > 10 {
		return nil
	}
	b = it.vc.resolve(b)
	var out []BV
	switch x := b.v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if c, ok := e.(*ssa.Call); ok && fullCallee(&c.Call) == "builtin.append" {
				out = append(out, it.varargs(BV{c.Call.Args[1], b.fr})...)
				if c.Call.Args[0] != x {
					out = append(out, it.appended(BV{c.Call.Args[0], b.fr}, depth+1)...)
				}
			} else if e != x {
				if _, ok := e.(*ssa.Phi); ok {
					out = append(out, it.appended(BV{e, b.fr}, depth+1)...)
				}
			}
		}
	case *ssa.Call:
		if fullCallee(&x.Call) == "builtin.append" {
			out = append(out, it.varargs(BV{x.Call.Args[1], b.fr})...)
			out = append(out, it.appended(BV{x.Call.Args[0], b.fr}, depth+1)...)
		}
	}
	return out
}

// char feeds a single byte/rune value.
func (it *Interp) char(b BV, m Mach) []Mach {
	if k, ok := it.vc.evalConst(b, nil, 0); ok && k.Kind() == constant.Int {
		n, _ := constant.Int64Val(k)
		if n < 256 {
			return m.lit(it.r, string([]byte{byte(n)}))
		}
		return m.lit(it.r, string(rune(n)))
	}
	if m.ps.dataMode() {
		return m.hole(it.r, Hole{Kind: HOpaque, Src: b})
	}
	rb := it.stripConv(b)
	var conds []fact
	conds = append(conds, it.curFacts...)
	if ins := it.cur; ins != nil {
		conds = append(conds, it.domFacts(ins.Block(), b.fr)...)
	}
	if ins, ok := b.v.(ssa.Instruction); ok && b.fr != nil && ins.Parent() == b.fr.fn {
		conds = append(conds, it.domFacts(ins.Block(), b.fr)...)
	}
	var out []Mach
	for _, rep := range reps {
		env := func(q BV) (constant.Value, bool) {
			q2 := it.stripConv(q)
			if q2.v == rb.v && q2.fr == rb.fr {
				return constant.MakeInt64(int64(rep)), true
			}
			return nil, false
		}
		bad := false
		for _, f := range conds {
			if f.cond.v == nil {
				continue
			}
			if k, ok := it.vc.evalConst(f.cond, env, 0); ok && k.Kind() == constant.Bool {
				want := f.val
				if bo, ok := it.vc.resolve(f.cond).v.(*ssa.BinOp); ok && bo.Op == token.NEQ {
					want = !want
				}
				if constant.BoolVal(k) != want {
					bad = true
				}
			}
		}
		if bad {
			continue
		}
		out = append(out, m.hole(it.r, Hole{Kind: HUser, Src: b, Img: string([]byte{rep}), Rep: rep})...)
	}
	return dedupM(out)
}

func (it *Interp) stripConv(b BV) BV {
	for {
		b = it.vc.resolve(b)
		if cv, ok := b.v.(*ssa.Convert); ok && isInteger(cv.X.Type()) {
			b.v = cv.X
			continue
		}
		return b
	}
}

// domFacts lists branch conditions that hold whenever blk runs. Facts use the == polarity
// convention of branch(): for a != condition val is negated.
func (it *Interp) domFacts(blk *ssa.BasicBlock, fr *Frame) []fact {
	var out []fact
	for d := blk; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(id.Instrs) == 0 || len(d.Preds) != 1 {
			continue
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || d.Preds[0] != id {
			continue
		}
		c, neg := stripNot(iff.Cond)
		v := id.Succs[0] == d
		if id.Succs[0] == id.Succs[1] {
			continue
		}
		if neg {
			v = !v
		}
		if bo, ok := it.vc.resolve(BV{c, fr}).v.(*ssa.BinOp); ok && bo.Op == token.NEQ {
			v = !v
		}
		out = append(out, fact{cond: BV{c, fr}, val: v})
	}
	return out
}

// bytes feeds the contents of a byte slice.
func (it *Interp) bytes(b BV, m Mach) []Mach {
	if m.ps.dataMode() {
		if cv, ok := it.vc.resolve(b).v.(*ssa.Convert); ok && isString(cv.X.Type()) {
			return it.str(BV{cv.X, it.vc.resolve(b).fr}, m)
		}
		var out []Mach
		for _, d := range it.dataAlts(b, 0) {
			d := d
			out = append(out, m.hole(it.r, Hole{Kind: HOpaque, Src: b, Body: &d})...)
		}
		return dedupM(out)
	}
	r := it.vc.resolve(b)
	switch x := r.v.(type) {
	case *ssa.Convert:
		if isString(x.X.Type()) {
			return it.str(BV{x.X, r.fr}, m)
		}
	case *ssa.Call:
		switch fullCallee(&x.Call) {
		case "(*bytes.Buffer).Bytes":
			return it.bufAt(BV{x.Call.Args[0], r.fr}, x, m)
		}
		return it.retBytes(r.fr, x, 0, m)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return it.retBytes(r.fr, c, x.Index, m)
		}
	case *ssa.Slice:
		if els := it.elems(r); els != nil {
			cur := []Mach{m}
			for _, e := range els {
				var nx []Mach
				for _, c := range cur {
					nx = append(nx, it.char(e, c)...)
				}
				cur = dedupM(nx)
			}
			return cur
		}
		return it.bytes(BV{x.X, r.fr}, m)
	}
	return it.user(r, nil, m)
}

func (it *Interp) retBytes(fr *Frame, call *ssa.Call, idx int, m Mach) []Mach {
	return it.user(BV{call, fr}, nil, m)
}

// bufAt evaluates what a locally built buffer holds when instruction at reads it.
func (it *Interp) bufAt(buf BV, at ssa.Instruction, m Mach) []Mach {
	if m.ps.dataMode() {
		return m.hole(it.r, Hole{Kind: HOpaque, Src: buf, Body: it.bufInfo(buf)})
	}
	root := it.writerRoot(buf)
	rb := BV{root.v, root.fr}
	// the context in which the reading instruction runs
	fr := root.fr
	ins := at
	for f := buf.fr; f != nil; f = f.up {
		if f == fr {
			break
		}
		ins = f.site
	}
	if fr == nil || ins == nil || ins.Parent() != fr.fn {
		// made elsewhere (for instance inside a constructor helper): run where it is read
		fr = buf.fr
		ins = at
	}
	if _, ok := root.v.(*ssa.Parameter); ok || fr == nil {
		return it.user(buf, nil, m)
	}
	sc, sp, sf, sfn, scf := it.cur, it.r.pos, it.r.fn, it.r.prot, it.curFacts
	out := it.run(fr, target{rb}, []PS{{m: m}}, ins)
	it.cur, it.r.pos, it.r.fn, it.r.prot, it.curFacts = sc, sp, sf, sfn, scf
	var ms []Mach
	for _, s := range out {
		ms = append(ms, s.m)
	}
	return dedupM(ms)
}

// bufData: the contents of src are copied to the output.
func (it *Interp) bufData(src BV, m Mach) []Mach {
	if m.ps.dataMode() {
		return m.hole(it.r, Hole{Kind: HOpaque, Src: src, Body: it.bufInfo(src)})
	}
	return it.bufAt(src, it.cur, m)
}

// ---- stream data identity ---------------------------------------------------

func (it *Interp) bufInfo(buf BV) *bodyInfo {
	return &bodyInfo{ident: "buf:" + it.rootID(buf)}
}

func (it *Interp) dataInfo(b BV) *bodyInfo {
	ds := it.dataAlts(b, 0)
	if len(ds) == 1 {
		return &ds[0]
	}
	return &bodyInfo{ident: "val:" + it.valID(b)}
}

// dataAlts resolves stream data to what it is: plain buffer or value, or the result of encrypting
// one with a key derived for an object number.
func (it *Interp) dataAlts(b BV, depth int) []bodyInfo {
	r := it.vc.resolve(b)
	if depth > 8 {
		return []bodyInfo{{ident: "val:" + it.valID(r), val: r}}
	}
	switch x := r.v.(type) {
	case *ssa.Call:
		switch fullCallee(&x.Call) {
		case "(*bytes.Buffer).Bytes", "(*bytes.Buffer).String":
			bi := it.bufInfo(BV{x.Call.Args[0], r.fr})
			bi.src = r
			return []bodyInfo{*bi}
		}
		if a := it.dataCall(r.fr, x, 0, depth); a != nil {
			return a
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if a := it.dataCall(r.fr, c, x.Index, depth); a != nil {
				return a
			}
		}
	case *ssa.Convert:
		return it.dataAlts(BV{x.X, r.fr}, depth+1)
	case *ssa.Phi:
		// alternatives chosen by protection
		var out []bodyInfo
		split := false
		for i, e := range x.Edges {
			for _, d := range it.dataAlts(BV{e, r.fr}, depth+1) {
				if d.prot == 0 {
					d.prot = it.edgeProt(x.Block().Preds[i], x.Block(), r.fr)
				}
				if d.enc {
					split = true
				}
				out = append(out, d)
			}
		}
		if split {
			return out
		}
		return []bodyInfo{{ident: "val:" + it.valID(r), val: r}}
	}
	return []bodyInfo{{ident: "val:" + it.valID(r), val: r}}
}

// edgeProt: what is known about protection on the edge from pred to blk.
func (it *Interp) edgeProt(pred, blk *ssa.BasicBlock, fr *Frame) int {
	if iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If); ok {
		if p := it.protOf(iff.Cond, pred.Succs[0] == blk, fr); p != 0 {
			return p
		}
	}
	return it.blockProt(pred, fr)
}

func (it *Interp) protOf(cond ssa.Value, taken bool, fr *Frame) int {
	c, neg := stripNot(cond)
	k, _ := it.vc.condKey(BV{c, fr})
	if !strings.HasPrefix(k, "PROT") {
		return 0
	}
	on := taken != neg
	if strings.HasPrefix(k, "PROT==") {
		on = !on
	}
	if on {
		return 1
	}
	return -1
}

func (it *Interp) blockProt(b *ssa.BasicBlock, fr *Frame) int {
	for d := b; d != nil; d = d.Idom() {
		id := d.Idom()
		if id == nil || len(id.Instrs) == 0 || len(d.Preds) != 1 {
			continue
		}
		if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok {
			if p := it.protOf(iff.Cond, id.Succs[0] == d, fr); p != 0 {
				return p
			}
		}
	}
	return 0
}

// dataCall: an encryption primitive, or a helper that returns data possibly encrypted.
func (it *Interp) dataCall(fr *Frame, call *ssa.Call, idx int, depth int) []bodyInfo {
	f := it.vc.callees0(call)
	if f == nil {
		return nil
	}
	if ki, si, ok := it.p.cipherShape(f); ok && idx == 0 {
		out := it.dataAlts(BV{call.Call.Args[si], fr}, depth+1)
		kb := it.vc.resolve(BV{call.Call.Args[ki], fr})
		for i := range out {
			out[i].enc = true
			out[i].objID = it.keyObjID(kb)
			out[i].prot = 0
		}
		return out
	}
	if fr.inChain(f) {
		return nil
	}
	nf := it.vc.enter(fr, call, f)
	var out []bodyInfo
	encs := false
	for _, r := range returnsOf(f) {
		if idx >= len(r.Results) {
			return nil
		}
		n := len(r.Results)
		if n > 1 && isErrorType(retVals(r)[n-1].Type()) && (isNilConst(retVals(r)[idx]) || dominatedByErr(retVals(r)[n-1], r.Block())) {
			continue
		}
		for _, d := range it.dataAlts(BV{retVals(r)[idx], nf}, depth+1) {
			if d.prot == 0 {
				d.prot = it.blockProt(r.Block(), nf)
			}
			if d.enc {
				encs = true
			}
			out = append(out, d)
		}
	}
	if !encs {
		return nil
	}
	return out
}

// cipherShape recognises the encryption primitive by what it does: it makes an RC4 (or other
// crypto/cipher) stream from one parameter and XORs another parameter into its first result.
func (p *Prog) cipherShape(f *ssa.Function) (keyParam, srcParam int, ok bool) {
	keyParam, srcParam = -1, -1
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			c, isc := ins.(*ssa.Call)
			if !isc {
				continue
			}
			switch fullCallee(&c.Call) {
			case "crypto/rc4.NewCipher":
				if q, ok := c.Call.Args[0].(*ssa.Parameter); ok {
					keyParam = paramIndex(q)
				}
			case "(*crypto/rc4.Cipher).XORKeyStream":
				if q, ok := c.Call.Args[2].(*ssa.Parameter); ok {
					srcParam = paramIndex(q)
				}
			}
		}
	}
	if keyParam < 0 || srcParam < 0 {
		return 0, 0, false
	}
	return keyParam, srcParam, true
}

// keyObjID: the object number a key was derived for (the integer argument of the deriving call).
func (it *Interp) keyObjID(k BV) BV {
	if call, ok := k.v.(*ssa.Call); ok {
		for _, a := range call.Call.Args {
			if isInteger(a.Type()) {
				return it.vc.resolve(BV{a, k.fr})
			}
		}
	}
	return BV{k.v, k.fr}
}

// lengthIdent identifies what an integer measures: len(x), buf.Len(), len(buf.Bytes()).
func (r *reporter) lengthIdent(b BV) string {
	it := r.it
	b = r.vc.resolve(b)
	for {
		if cv, ok := b.v.(*ssa.Convert); ok && isInteger(cv.X.Type()) {
			b = r.vc.resolve(BV{cv.X, b.fr})
			continue
		}
		break
	}
	if call, ok := b.v.(*ssa.Call); ok {
		switch fullCallee(&call.Call) {
		case "builtin.len":
			ds := it.dataAlts(BV{call.Call.Args[0], b.fr}, 0)
			if len(ds) > 0 {
				return ds[0].ident
			}
		case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
			return it.bufInfo(BV{call.Call.Args[0], b.fr}).ident
		}
	}
	return "expr:" + r.vc.id(b)
}

// lengthCall finds the call that measured a buffer in a length expression.
func (r *reporter) lengthCall(b BV) BV {
	b = r.vc.resolve(b)
	for n := 0; n < 5; n++ {
		if cv, ok := b.v.(*ssa.Convert); ok {
			b = r.vc.resolve(BV{cv.X, b.fr})
			continue
		}
		if call, ok := b.v.(*ssa.Call); ok && fullCallee(&call.Call) == "builtin.len" {
			b = r.vc.resolve(BV{call.Call.Args[0], b.fr})
			continue
		}
		break
	}
	return b
}

// sliceElems lists every element of a slice that is built in one function by making, appending and
// joining; ok is false when elements may come from elsewhere.
func (it *Interp) sliceElems(b BV, seen map[ssa.Value]bool) ([]BV, bool) {
	b = it.vc.resolve(b)
	if seen[b.v] {
		return nil, true
	}
	seen[b.v] = true
	switch x := b.v.(type) {
	case *ssa.Const:
		return nil, x.IsNil()
	case *ssa.MakeSlice:
		var out []BV
		for _, r := range *x.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, u := range *ia.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						out = append(out, BV{st.Val, b.fr})
					}
				}
			}
		}
		return out, true
	case *ssa.Slice:
		if els := it.elems(b); els != nil {
			return els, true
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			_, isArr := deref(al.Type()).Underlying().(*types.Array)
			return nil, isArr
		}
		return it.sliceElems(BV{x.X, b.fr}, seen)
	case *ssa.Phi:
		var out []BV
		for _, e := range x.Edges {
			els, ok := it.sliceElems(BV{e, b.fr}, seen)
			if !ok {
				return nil, false
			}
			out = append(out, els...)
		}
		return out, true
	case *ssa.Call:
		if fullCallee(&x.Call) != "builtin.append" {
			return nil, false
		}
		out, ok := it.sliceElems(BV{x.Call.Args[0], b.fr}, seen)
		if !ok {
			return nil, false
		}
		if els := it.varargs(BV{x.Call.Args[1], b.fr}); els != nil {
			return append(out, els...), true
		}
		els, ok := it.sliceElems(BV{x.Call.Args[1], b.fr}, seen)
		return append(out, els...), ok
	}
	return nil, false
}
