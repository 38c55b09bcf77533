package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Dimension analysis: how often a number has been multiplied by the conversion factor of the document.
//
// A forward abstract interpretation with the calls inlined. A number given by the caller has degree 0, one converted
// to points (or a height of the page, a position of the cursor) degree 1. Constants and numbers made from integers
// fit everywhere. Memory is followed per access path: local variables and what the caller hands in with
// strong updates along the flow of control, the objects of the document per type and field.

type dmask uint8

const (
	dNeg dmask = 1 << iota // given back twice
	dUnit
	dPoint
	dMore
)

func (m dmask) single() bool { return m != 0 && m&(m-1) == 0 }

func (m dmask) String() string {
	var out []string
	for i, n := range []string{"units divided again", "units", "points", "points converted again"} {
		if m&(1<<i) != 0 {
			out = append(out, n)
		}
	}
	if out == nil {
		return "either"
	}
	return strings.Join(out, " or ")
}

func (m dmask) each(f func(deg int)) {
	for i := 0; i < 4; i++ {
		if m&(1<<i) != 0 {
			f(i - 1)
		}
	}
}

func degMask(d int) dmask {
	if d < -1 {
		d = -1
	}
	if d > 2 {
		d = 2
	}
	return 1 << (d + 1)
}

func (m dmask) shift(by int) (out dmask) {
	m.each(func(d int) { out |= degMask(d + by) })
	return
}

// dval is an abstract value.
type dval struct {
	m  dmask
	p  map[string]types.Type // addresses it may hold
	f  map[string]*dval      // parts of a structure or tuple
	fn map[string]*dclos
}

type dclos struct {
	fn   *ssa.Function
	bind []*dval
}

var dNone = &dval{}

func dNum(m dmask) *dval {
	if m == 0 {
		return dNone
	}
	return &dval{m: m}
}

func dPtr(a string, t types.Type) *dval { return &dval{p: map[string]types.Type{a: t}} }

func (a *dval) same(b *dval) bool {
	if a == b {
		return true
	}
	if a.m != b.m || len(a.p) != len(b.p) || len(a.f) != len(b.f) || len(a.fn) != len(b.fn) {
		return false
	}
	for k := range a.p {
		if _, ok := b.p[k]; !ok {
			return false
		}
	}
	for k, v := range a.f {
		w, ok := b.f[k]
		if !ok || !v.same(w) {
			return false
		}
	}
	for k := range a.fn {
		if _, ok := b.fn[k]; !ok {
			return false
		}
	}
	return true
}

func (a *dval) join(b *dval) *dval {
	if a == nil || a == dNone {
		if b == nil {
			return dNone
		}
		return b
	}
	if b == nil || b == dNone || a == b || a.same(b) {
		return a
	}
	out := &dval{m: a.m | b.m}
	if a.p != nil || b.p != nil {
		out.p = map[string]types.Type{}
		for k, t := range a.p {
			out.p[k] = t
		}
		for k, t := range b.p {
			out.p[k] = t
		}
	}
	if a.f != nil || b.f != nil {
		out.f = map[string]*dval{}
		for k, v := range a.f {
			out.f[k] = v
		}
		for k, v := range b.f {
			out.f[k] = v.join(out.f[k])
		}
	}
	if a.fn != nil || b.fn != nil {
		out.fn = map[string]*dclos{}
		for k, v := range a.fn {
			out.fn[k] = v
		}
		for k, v := range b.fn {
			out.fn[k] = v
		}
	}
	return out
}

func (a *dval) part(k string) *dval {
	if v, ok := a.f[k]; ok {
		return v
	}
	return dNone
}

// dstate: the memory along the flow of control.
type dstate map[string]*dval

func (s dstate) clone() dstate {
	n := make(dstate, len(s)+8)
	for k, v := range s {
		n[k] = v
	}
	return n
}

type dims struct {
	p        *Prog
	taken    []*ssa.Function
	relevant map[*ssa.Function]bool
	state    map[string]bool // names of types kept per type
	writers  map[*ssa.Function]bool
	single   map[string]bool // types of which a document has one
	points   map[string]bool // fields that are points by definition
	global   map[string]*dval
	from     map[string]map[string]dmask // what each root left in a number of the document
	changed  bool
	final    bool
	masks    map[ssa.Value]dmask
	bad      func(rule string, ins ssa.Instruction, construct, format string, a ...any)
	root     *ssa.Function
	pointArg bool
	stack    map[*ssa.Function]int
	frames   map[string]int
	calls    int
	active   []*dframe1
	limit    int
	gaveUp   string
}

type dframe1 struct {
	fn  *ssa.Function
	id  int
	env map[ssa.Value]*dval
	arg []*dval
	fv  []*dval

	turn  map[*ssa.Phi]int // the counters of the loop being unrolled
	moved bool             // a value changed since the block was begun
}

func (p *Prog) newDims(bad func(rule string, ins ssa.Instruction, construct, format string, a ...any)) *dims {
	d := &dims{p: p, taken: p.takenFuncs(), relevant: map[*ssa.Function]bool{}, state: map[string]bool{}, single: map[string]bool{},
		points: map[string]bool{}, global: map[string]*dval{}, from: map[string]map[string]dmask{}, masks: map[ssa.Value]dmask{},
		bad: bad, stack: map[*ssa.Function]int{}, frames: map[string]int{}, limit: 400000}
	d.findTypes()
	d.findRelevant()
	return d
}

func (d *dims) findTypes() {
	for _, n := range d.p.namedTypes() {
		if _, ok := n.Underlying().(*types.Struct); !ok || n.Obj().Pkg() == nil {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			f := ms.At(i).Obj().(*types.Func)
			recv := f.Type().(*types.Signature).Recv().Type()
			if _, ptr := recv.(*types.Pointer); !ptr {
				continue
			}
			switch strings.ToLower(f.Name()) {
			case "unitstopoints", "pointstounits": // a shape
				delete(d.state, n.Obj().Name())
				i = ms.Len()
				continue
			}
			d.state[n.Obj().Name()] = true
		}
	}
	e := d.p.emission()
	for _, fns := range [][]*ssa.Function{e.cacheFns, e.liveObj} {
		for _, fn := range fns {
			d.state[recvName(fn)] = true
		}
	}
	if n := d.p.namedType("GoPdf"); n != nil {
		d.single["GoPdf"], d.state["GoPdf"] = true, true
	}
}

func (d *dims) isState(t types.Type) (string, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || !d.p.inPkg[n.Obj().Pkg()] {
		return "", false
	}
	nm := n.Obj().Name()
	return nm, d.state[nm]
}

// mentions: the type has numbers in it that may be lengths.
func mentionsFloat(t types.Type, depth int) bool {
	if depth > 5 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsFloat != 0
	case *types.Pointer:
		return mentionsFloat(u.Elem(), depth+1)
	case *types.Slice:
		return mentionsFloat(u.Elem(), depth+1)
	case *types.Array:
		return mentionsFloat(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mentionsFloat(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

func (d *dims) findRelevant() {
	g := d.p.graph()
	for _, fn := range d.p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if mentionsFloat(x.Val.Type(), 0) {
						d.relevant[fn] = true
					}
				case ssa.Value:
					if isFloat(x.Type()) {
						d.relevant[fn] = true
					}
				}
			}
		}
		sg := fn.Signature
		for i := 0; i < sg.Results().Len(); i++ {
			if mentionsFloat(sg.Results().At(i).Type(), 0) {
				d.relevant[fn] = true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for fn, es := range g {
			if d.relevant[fn] {
				continue
			}
			for _, e := range es {
				if d.relevant[e.callee] {
					d.relevant[fn], ch = true, true
				}
			}
		}
	}
}

// ---- memory ----

func globalAddr(a string) bool { return a[0] == 'T' || a[0] == 'G' }

// singleAddr: one place, not a field of many objects or an element.
func (d *dims) singleAddr(a string) bool {
	if strings.Contains(a, "[") && !strings.Contains(a, "[#") && !strings.Contains(a, "[?") {
		return false
	}
	switch a[0] {
	case 'T':
		nm := a[2:]
		if i := strings.IndexAny(nm, ".*["); i >= 0 {
			nm = nm[:i]
		}
		return d.single[nm] && !strings.Contains(a, "*")
	case 'A', 'R':
		return true
	}
	return false
}

func (d *dims) cell(st dstate, a string) (*dval, bool) {
	if v, ok := st[a]; ok {
		return v, true
	}
	if globalAddr(a) {
		v, ok := d.global[a]
		return v, ok
	}
	return nil, false
}

func (d *dims) load(st dstate, a string, t types.Type, depth int) *dval {
	if depth > 6 || len(a) > 160 {
		return dNone
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		out := &dval{f: map[string]*dval{}}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if v := d.load(st, a+"."+u.Field(i).Name(), ft, depth+1); v != dNone {
				out.f[u.Field(i).Name()] = v
			}
		}
		return out
	case *types.Array:
		out := &dval{f: map[string]*dval{}}
		n := int64(0)
		for i := int64(0); i < u.Len() && i < 12; i++ {
			k := fmt.Sprintf("[#%d]", i)
			if v := d.load(st, a+k, u.Elem(), depth+1); v != dNone {
				out.f[k] = v
				n++
			}
		}
		if n < u.Len() {
			out.f["[]"] = d.load(st, a+"[]", u.Elem(), depth+1)
		}
		return out
	}
	if i := strings.LastIndex(a, "["); i >= 0 {
		// an element: which one, or any
		j := i + strings.IndexByte(a[i:], ']')
		pre, key, post := a[:i], a[i:j+1], a[j+1:]
		if key != "[]" {
			if v, ok := d.cell(st, a); ok {
				return v
			}
			if strings.HasPrefix(key, "[?") {
				if v, ok := d.cell(st, pre+"[]"+post); ok {
					return v
				}
				if strings.HasPrefix(key, "[?") && d.anyElem(st, pre, post, key) == nil {
					return d.initial(pre+"[]"+post, t)
				}
			}
		}
		if v := d.anyElem(st, pre, post, ""); v != nil {
			return v
		}
		return d.initial(pre+"[]"+post, t)
	}
	if v, ok := d.cell(st, a); ok {
		if globalAddr(a) && !v.m.single() && v.m != 0 {
			return &dval{p: v.p, f: v.f, fn: v.fn} // reported where it is set
		}
		if globalAddr(a) && v.m == 0 && v.p == nil && v.fn == nil && !isFloat(t) {
			return v.join(d.initial(a, t))
		}
		return v
	}
	return d.initial(a, t)
}

// anyElem joins what is known of all elements.
func (d *dims) anyElem(st dstate, pre, post, not string) *dval {
	var out *dval
	look := func(m map[string]*dval) {
		for _, k := range []string{"[done]"} {
			if v, ok := m[pre+k+post]; ok {
				out = v.join(out)
			}
		}
		had := out != nil
		for k, v := range m {
			if strings.HasPrefix(k, pre+"[") && strings.HasSuffix(k, "]"+post) && k != pre+not+post && k != pre+"[done]"+post {
				mid := k[len(pre) : len(k)-len(post)]
				if strings.Count(mid, "[") != 1 || strings.ContainsAny(mid, ".*") {
					continue
				}
				if mid == "[]" && had {
					continue
				}
				out = v.join(out)
			}
		}
	}
	look(st)
	if globalAddr(pre) {
		if v, ok := d.global[pre+"[]"+post]; ok {
			out = v.join(out)
		}
	}
	return out
}

// initial: what is at a place nothing was stored to.
func (d *dims) initial(a string, t types.Type) *dval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsFloat != 0 && a[0] == 'I' {
			return dNum(dPoint)
		}
		if u.Info()&types.IsFloat != 0 && a[0] == 'R' {
			if d.pointArg {
				return dNum(dPoint)
			}
			return dNum(dUnit)
		}
	case *types.Pointer:
		if nm, ok := d.isState(u.Elem()); ok {
			return dPtr("T:"+nm, u.Elem())
		}
		if a[0] != 'A' && a[0] != 'N' {
			return dPtr(a+"*", u.Elem())
		}
	case *types.Slice:
		if a[0] != 'A' && a[0] != 'N' {
			return dPtr(a+"*", nil)
		}
	case *types.Map:
		if a[0] != 'A' && a[0] != 'N' {
			return dPtr(a+"*", nil)
		}
	case *types.Interface:
		out := &dval{p: map[string]types.Type{}}
		if a[0] == 'R' || a[0] == 'T' {
			if n, ok := types.Unalias(t).(*types.Named); ok && d.p.inPkg[n.Obj().Pkg()] {
				for _, x := range d.p.namedTypes() {
					nm, ok := d.isState(x)
					if ok && types.Implements(types.NewPointer(x), u) {
						out.p["T:"+nm] = x
					}
				}
			}
		}
		if len(out.p) > 0 {
			return out
		}
	}
	return dNone
}

func (d *dims) store(st dstate, a string, v *dval, t types.Type, strong bool, depth int) {
	if depth > 6 || len(a) > 160 || a[0] == 'N' {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			d.store(st, a+"."+n, v.part(n), u.Field(i).Type(), strong, depth+1)
		}
		return
	case *types.Array:
		for k, e := range v.f {
			d.store(st, a+k, e, u.Elem(), strong && k != "[]", depth+1)
		}
		return
	}
	if d.pointField(a) {
		return
	}
	if globalAddr(a) && len(v.p) > 0 {
		v = d.escape(st, a, v, t, depth)
	}
	if strong {
		st[a] = v
		return
	}
	old, ok := st[a]
	if !ok {
		if globalAddr(a) {
			old = d.global[a]
		} else if a[0] == 'R' {
			old = d.initial(a, t)
		}
	}
	st[a] = v.join(old)
	if i := strings.LastIndex(a, "[]"); i >= 0 { // any of the elements
		pre, post := a[:i], a[i+2:]
		for k, w := range st {
			if strings.HasPrefix(k, pre+"[#") && strings.HasSuffix(k, "]"+post) && strings.Count(k[len(pre):len(k)-len(post)], "[") == 1 {
				st[k] = v.join(w)
			}
		}
	}
}

// escape: what a pointer kept by the document points to becomes part of the document.
func (d *dims) escape(st dstate, a string, v *dval, t types.Type, depth int) *dval {
	out := &dval{m: v.m, f: v.f, fn: v.fn, p: map[string]types.Type{}}
	var keys []string
	for k := range v.p {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		pt := v.p[k]
		if k[0] == 'T' {
			out.p[k] = pt
			continue
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			d.store(st, a+"*", d.load(st, k, u.Elem(), depth+1), u.Elem(), d.singleAddr(a), depth+1)
			out.p[a+"*"] = u.Elem()
		case *types.Slice:
			d.store(st, a+"*[]", d.load(st, k+"[]", u.Elem(), depth+1), u.Elem(), false, depth+1)
			out.p[a+"*"] = nil
		default:
			if pt != nil {
				d.store(st, a+"*", d.load(st, k, pt, depth+1), pt, false, depth+1)
				out.p[a+"*"] = pt
			}
		}
	}
	return out
}

func (d *dims) pointField(a string) bool {
	for k := range d.points {
		if strings.HasSuffix(a, k) {
			return true
		}
	}
	return false
}

func sameStates(a, b dstate) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !v.same(w) {
			return false
		}
	}
	return true
}

// merged joins the state of another way to a block; what only one of them changed keeps its first value on the other.
func (d *dims) merged(a, b dstate) dstate {
	elem := func(k string, v *dval, o dstate) *dval { // an element the other way left as it was
		i := strings.Index(k, "[?")
		j := i + strings.IndexByte(k[i:], ']')
		w, ok := d.cell(o, k[:i]+"[]"+k[j+1:])
		if !ok {
			if x := d.anyElem(o, k[:i], k[j+1:], ""); x != nil {
				w = x
			} else if v.m != 0 {
				w = d.initial(k[:i]+"[]"+k[j+1:], types.Typ[types.Float64])
			}
		}
		return v.join(w)
	}

	if a == nil {
		return b.clone()
	}
	out := a.clone()
	for k, v := range b {
		if w, ok := out[k]; ok {
			out[k] = v.join(w)
			continue
		}
		if strings.Contains(k, "[?") {
			out[k] = elem(k, v, a)
			continue
		}
		out[k] = d.other(k, v)
	}
	for k, v := range a {
		if _, ok := b[k]; !ok {
			if strings.Contains(k, "[?") {
				out[k] = elem(k, v, b)
				continue
			}
			out[k] = d.other(k, v)
		}
	}
	return out
}

func (d *dims) other(k string, v *dval) *dval {
	if strings.Contains(k, "[done]") {
		return v
	}
	if globalAddr(k) {
		return v.join(d.global[k])
	}
	if k[0] == 'R' && v.m != 0 && !strings.Contains(k, "[") {
		if d.pointArg {
			return v.join(dNum(dPoint))
		}
		return v.join(dNum(dUnit))
	}
	return v
}

// ---- functions ----

func (d *dims) value(fr *dframe1, v ssa.Value) *dval {
	switch x := v.(type) {
	case *ssa.Const:
		return dNone
	case *ssa.Global:
		return dPtr("G:"+x.Name(), deref(x.Type()))
	case *ssa.Function:
		return &dval{fn: map[string]*dclos{x.String(): {fn: x}}}
	case *ssa.Parameter:
		if i := paramIndex(x); i < len(fr.arg) && fr.arg[i] != nil {
			return fr.arg[i]
		}
		return dNone
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x && i < len(fr.fv) {
				return fr.fv[i]
			}
		}
		return dNone
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	return dNone
}

func (d *dims) run(fn *ssa.Function, args, fv []*dval, id int, st dstate) (*dval, dstate) {
	d.calls++
	if d.calls > d.limit {
		d.gaveUp = "too many calls"
		return dNone, st
	}
	fr := &dframe1{fn: fn, id: id, env: map[ssa.Value]*dval{}, arg: args, fv: fv}
	d.active = append(d.active, fr)
	d.stack[fn]++
	defer func() { d.stack[fn]-- }()
	outOf := map[*ssa.BasicBlock]dstate{}
	visits := map[*ssa.BasicBlock]int{}
	order := rpo(fn)
	dirty := map[*ssa.BasicBlock]bool{fn.Blocks[0]: true}
	var ret *dval
	var end dstate
	for len(dirty) > 0 {
		var b *ssa.BasicBlock
		for _, c := range order {
			if dirty[c] {
				b = c
				break
			}
		}
		if b == nil {
			break
		}
		delete(dirty, b)
		visits[b]++
		if visits[b] > 12 {
			continue
		}
		if l := unrollable(b); l != nil && d.unroll(fr, l, st, outOf) {
			for _, s := range b.Succs {
				if !l.body[s] {
					dirty[s] = true
				}
			}
			continue
		}
		// join the ways in
		var s dstate
		if b == fn.Blocks[0] {
			s = st.clone()
		}
		for _, pr := range b.Preds {
			o, ok := outOf[pr]
			if !ok {
				continue
			}
			if b.Dominates(pr) {
				o = d.turn(fr, b, o)
			}
			s = d.merged(s, d.nilAt(fr, pr, b, o))
		}
		if s == nil {
			continue
		}
		cur := s.clone()
		fr.moved = false
		for _, ins := range b.Instrs {
			d.step(fr, cur, ins, b, outOf)
		}
		if old, ok := outOf[b]; ok && sameStates(old, cur) && !fr.moved {
			continue
		}
		outOf[b] = cur
		for _, s := range b.Succs {
			dirty[s] = true
		}
	}
	for _, b := range order {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			o, reached := outOf[b]
			if !reached {
				continue
			}
			v := dNone
			switch len(r.Results) {
			case 0:
			case 1:
				v = d.value(fr, r.Results[0])
			default:
				v = &dval{f: map[string]*dval{}}
				for i, x := range r.Results {
					v.f[fmt.Sprint(i)] = d.value(fr, x)
				}
			}
			ret = v.join(ret)
			end = d.merged(end, o)
		}
	}
	if end == nil {
		end = st
	}
	d.active = d.active[:len(d.active)-1]
	if ret == nil {
		ret = dNone
	}
	if len(end) > 250 {
		end = d.prune(end, ret)
	}
	return ret, end
}

// prune forgets local memory nothing can reach any more.
func (d *dims) prune(st dstate, ret *dval) dstate {
	byObj := map[string][]string{}
	for k := range st {
		if k[0] == 'A' {
			byObj[objOf(k)] = append(byObj[objOf(k)], k)
		}
	}
	keep := map[string]bool{}
	var mark func(v *dval)
	mark = func(v *dval) {
		for a := range v.p {
			if a[0] != 'A' {
				continue
			}
			o := objOf(a)
			if keep[o] {
				continue
			}
			keep[o] = true
			for _, k := range byObj[o] {
				mark(st[k])
			}
		}
		for _, e := range v.f {
			mark(e)
		}
		for _, c := range v.fn {
			for _, e := range c.bind {
				mark(e)
			}
		}
	}
	mark(ret)
	for k, v := range st {
		if k[0] != 'A' {
			mark(v)
		}
	}
	for _, fr := range d.active {
		for _, v := range fr.env {
			mark(v)
		}
		for _, v := range fr.arg {
			if v != nil {
				mark(v)
			}
		}
		for _, v := range fr.fv {
			mark(v)
		}
	}
	out := dstate{}
	for k, v := range st {
		if k[0] != 'A' || keep[objOf(k)] {
			out[k] = v
		}
	}
	return out
}

func objOf(a string) string {
	if i := strings.IndexAny(a, ".*["); i >= 0 {
		return a[:i]
	}
	return a
}

// turn: at the end of an iteration, the elements changed in it join those done.
func (d *dims) turn(fr *dframe1, head *ssa.BasicBlock, s dstate) dstate {
	var keys []string
	for k := range s {
		if strings.Contains(k, fmt.Sprintf("[?%d.%d.", fr.id, head.Index)) {
			keys = append(keys, k)
		}
	}
	if keys == nil {
		return s
	}
	n := s.clone()
	sort.Strings(keys)
	for _, k := range keys {
		i := strings.Index(k, "[?")
		j := i + strings.IndexByte(k[i:], ']')
		done := k[:i] + "[done]" + k[j+1:]
		n[done] = n[k].join(n[done])
		delete(n, k)
	}
	return n
}

// allIndexes: the counter begins at the first element and goes up by one to a number nothing is taken off.
func allIndexes(phi *ssa.Phi) bool {
	h := phi.Block()
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return true
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	_, first, ok := counterOf(bo.X, h)
	if !ok {
		return true
	}
	if _, less := bo.Y.(*ssa.BinOp); less || first != 0 {
		return false
	}
	return true
}

// counterOf: the value counts the turns of the loop; first is its value in the first turn.
func counterOf(v ssa.Value, h *ssa.BasicBlock) (*ssa.Phi, int64, bool) {
	phi, add := v, int64(0)
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.Block() == h { // range form
		n, isC := constInt(bo.Y)
		if !isC || n != 1 {
			return nil, 0, false
		}
		phi, add = bo.X, 1
	}
	p, ok := phi.(*ssa.Phi)
	if !ok || p.Block() != h {
		return nil, 0, false
	}
	first, found := int64(0), false
	for i, e := range p.Edges {
		if h.Dominates(h.Preds[i]) {
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || bo.X != ssa.Value(p) {
				return nil, 0, false
			}
			if n, isC := constInt(bo.Y); !isC || n != 1 {
				return nil, 0, false
			}
			continue
		}
		n, isC := constInt(e)
		if !isC || found {
			return nil, 0, false
		}
		first, found = int64(n), true
	}
	return p, first + add, found
}

type smallLoop struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	phi   *ssa.Phi
	first int // value of phi in the first turn
	turns int
	order []*ssa.BasicBlock
}

// unrollable: the block heads a loop of few turns, left only from there.
func unrollable(h *ssa.BasicBlock) *smallLoop {
	if len(h.Instrs) == 0 || len(h.Succs) != 2 {
		return nil
	}
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok || bo.Op != token.LSS {
		return nil
	}
	phi, first, ok := counterOf(bo.X, h)
	if !ok {
		return nil
	}
	n, ok := constInt(bo.Y)
	if !ok {
		c, isCall := bo.Y.(*ssa.Call)
		if !isCall {
			return nil
		}
		if b, isB := c.Call.Value.(*ssa.Builtin); !isB || b.Name() != "len" {
			return nil
		}
		sl, isS := c.Call.Args[0].(*ssa.Slice)
		if !isS || sl.Low != nil || sl.High != nil || sl.Max != nil {
			return nil
		}
		arr, isA := deref(sl.X.Type()).Underlying().(*types.Array)
		if !isA {
			return nil
		}
		n = arr.Len()
	}
	turns := int(int64(n) - first)
	if turns < 0 || turns > 12 {
		return nil
	}
	l := &smallLoop{head: h, body: map[*ssa.BasicBlock]bool{h: true}, phi: phi, turns: turns}
	l.first = int(first)
	if bo.X != ssa.Value(phi) {
		l.first--
	}
	var in func(b *ssa.BasicBlock)
	in = func(b *ssa.BasicBlock) {
		if l.body[b] {
			return
		}
		l.body[b] = true
		for _, p := range b.Preds {
			in(p)
		}
	}
	for _, p := range h.Preds {
		if h.Dominates(p) {
			in(p)
		}
	}
	for _, b := range rpo(h.Parent()) {
		if !l.body[b] {
			continue
		}
		if b != h {
			l.order = append(l.order, b)
		}
		for _, s := range b.Succs {
			if !l.body[s] && b != h || s != h && l.body[s] && s.Dominates(b) {
				return nil
			}
		}
	}
	if len(l.body) < 2 || !l.body[h.Succs[0]] || l.body[h.Succs[1]] {
		return nil
	}
	return l
}

// unroll runs a small loop turn by turn.
func (d *dims) unroll(fr *dframe1, l *smallLoop, st dstate, outOf map[*ssa.BasicBlock]dstate) bool {
	var s dstate
	from := map[*ssa.BasicBlock]dstate{}
	for _, pr := range l.head.Preds {
		if l.body[pr] {
			continue
		}
		if o, ok := outOf[pr]; ok {
			from[pr] = o
			s = d.merged(s, d.nilAt(fr, pr, l.head, o))
		}
	}
	if s == nil {
		return true
	}
	if fr.turn == nil {
		fr.turn = map[*ssa.Phi]int{}
	}
	defer delete(fr.turn, l.phi)
	for k := 0; ; k++ {
		fr.turn[l.phi] = l.first + k
		cur := s.clone()
		// the counters change together
		vals := map[*ssa.Phi]*dval{}
		for _, ins := range l.head.Instrs {
			if x, ok := ins.(*ssa.Phi); ok {
				v := dNone
				for i, e := range x.Edges {
					if _, ok := from[l.head.Preds[i]]; ok && !emptyOnEdge(e, l.head.Preds[i], l.head) {
						v = v.join(d.value(fr, e))
					}
				}
				vals[x] = v
			}
		}
		for _, ins := range l.head.Instrs {
			if x, ok := ins.(*ssa.Phi); ok {
				d.set(fr, x, vals[x])
				continue
			}
			d.step(fr, cur, ins, l.head, from)
		}
		outOf[l.head] = cur
		if k == l.turns {
			return true
		}
		outs := map[*ssa.BasicBlock]dstate{l.head: cur}
		for _, b := range l.order {
			var in dstate
			for _, pr := range b.Preds {
				if o, ok := outs[pr]; ok {
					in = d.merged(in, d.nilAt(fr, pr, b, o))
				}
			}
			if in == nil {
				continue
			}
			c := in.clone()
			for _, ins := range b.Instrs {
				d.step(fr, c, ins, b, outs)
			}
			outs[b] = c
		}
		s = nil
		from = map[*ssa.BasicBlock]dstate{}
		for _, pr := range l.head.Preds {
			if !l.body[pr] {
				continue
			}
			if o, ok := outs[pr]; ok {
				from[pr] = o
				s = d.merged(s, d.nilAt(fr, pr, l.head, o))
			}
		}
		if s == nil {
			return true
		}
	}
}

// nilIf: on the way from a to b the value was found to be nil.
func nilIf(a, b *ssa.BasicBlock) ssa.Value {
	if len(a.Instrs) == 0 || len(a.Succs) != 2 || a.Succs[0] == a.Succs[1] {
		return nil
	}
	iff, ok := a.Instrs[len(a.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c, neg := stripNot(iff.Cond)
	bo, ok := c.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return nil
	}
	x, y := bo.X, bo.Y
	if isNilConst(x) {
		x, y = y, x
	}
	if !isNilConst(y) {
		return nil
	}
	if ((bo.Op == token.EQL) != neg) == (a.Succs[0] == b) {
		return x
	}
	return nil
}

// emptyOnEdge: the value is nil whenever b is entered from a.
func emptyOnEdge(v ssa.Value, a, b *ssa.BasicBlock) bool {
	if _, ok := v.Type().Underlying().(*types.Pointer); !ok {
		return false
	}
	for {
		if nilIf(a, b) == v {
			return true
		}
		if len(a.Preds) != 1 {
			return false
		}
		a, b = a.Preds[0], a
	}
}

// nilAt: what was just found to be nil points nowhere.
func (d *dims) nilAt(fr *dframe1, a, b *ssa.BasicBlock, st dstate) dstate {
	ld, ok := nilIf(a, b).(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || ld.Block() != a {
		return st
	}
	after := false
	for _, ins := range a.Instrs {
		switch ins.(type) {
		case *ssa.Store, *ssa.Call, *ssa.MapUpdate:
			if after {
				return st
			}
		}
		after = after || ins == ssa.Instruction(ld)
	}
	to := d.value(fr, ld.X).p
	if len(to) != 1 {
		return st
	}
	for k := range to {
		if k[0] == 'A' || k[0] == 'R' {
			st = st.clone()
			st[k] = &dval{p: map[string]types.Type{}}
		}
	}
	return st
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			rec(b.Succs[i])
		}
		post = append(post, b)
	}
	rec(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func (d *dims) set(fr *dframe1, v ssa.Value, x *dval) {
	if x == nil {
		x = dNone
	}
	if old, ok := fr.env[v]; !ok || !old.same(x) {
		fr.moved = true
	}
	fr.env[v] = x
	if isFloat(v.Type()) {
		d.masks[v] |= x.m
	}
}

func (d *dims) step(fr *dframe1, st dstate, ins ssa.Instruction, b *ssa.BasicBlock, outOf map[*ssa.BasicBlock]dstate) {
	switch x := ins.(type) {
	case *ssa.Phi:
		v := dNone
		for i, e := range x.Edges {
			if _, ok := outOf[b.Preds[i]]; ok {
				if emptyOnEdge(e, b.Preds[i], b) {
					continue
				}
				v = v.join(d.value(fr, e))
			}
		}
		d.set(fr, x, v)
	case *ssa.Alloc:
		t := deref(x.Type())
		if nm, ok := d.isState(t); ok {
			d.set(fr, x, dPtr("T:"+nm, t))
			return
		}
		a := fmt.Sprintf("A%d:%s", fr.id, x.Name())
		for k := range st {
			if strings.HasPrefix(k, a) && (len(k) == len(a) || strings.IndexByte(".*[", k[len(a)]) >= 0) {
				delete(st, k)
			}
		}
		d.set(fr, x, dPtr(a, t))
	case *ssa.MakeSlice:
		d.set(fr, x, dPtr(fmt.Sprintf("A%d:%s", fr.id, x.Name()), nil))
	case *ssa.MakeMap:
		d.set(fr, x, dPtr(fmt.Sprintf("A%d:%s", fr.id, x.Name()), nil))
	case *ssa.FieldAddr:
		st0 := structOf(deref(x.X.Type()))
		v := &dval{p: map[string]types.Type{}}
		for a := range d.value(fr, x.X).p {
			v.p[a+"."+st0.Field(x.Field).Name()] = deref(x.Type())
		}
		d.set(fr, x, v)
	case *ssa.Field:
		d.set(fr, x, d.value(fr, x.X).part(structOf(x.X.Type()).Field(x.Field).Name()))
	case *ssa.IndexAddr:
		k := d.index(fr, x.Index)
		v := &dval{p: map[string]types.Type{}}
		for a := range d.value(fr, x.X).p {
			v.p[a+k] = deref(x.Type())
		}
		d.set(fr, x, v)
	case *ssa.Index:
		a := d.value(fr, x.X)
		k := d.index(fr, x.Index)
		if e, ok := a.f[k]; ok {
			d.set(fr, x, e)
			return
		}
		out := dNone
		for _, e := range a.f {
			out = out.join(e)
		}
		d.set(fr, x, out)
	case *ssa.Lookup:
		out := dNone
		et := x.Type()
		if x.CommaOk {
			et = et.(*types.Tuple).At(0).Type()
		}
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			for a := range d.value(fr, x.X).p {
				out = out.join(d.load(st, a+"[]", et, 0))
			}
		}
		if x.CommaOk {
			out = &dval{f: map[string]*dval{"0": out}}
		}
		d.set(fr, x, out)
	case *ssa.MapUpdate:
		for a := range d.value(fr, x.Map).p {
			d.store(st, a+"[]", d.value(fr, x.Value), x.Value.Type(), false, 0)
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			out := dNone
			for a := range d.value(fr, x.X).p {
				if isFloat(x.Type()) && d.pointField(a) {
					out = out.join(dNum(dPoint))
					continue
				}
				out = out.join(d.load(st, a, x.Type(), 0))
			}
			d.set(fr, x, out)
		case token.SUB:
			d.set(fr, x, dNum(d.value(fr, x.X).m))
		default:
			d.set(fr, x, dNone)
		}
	case *ssa.Store:
		v := d.value(fr, x.Val)
		to := d.value(fr, x.Addr).p
		for a := range to {
			d.store(st, a, v, x.Val.Type(), len(to) == 1 && d.singleAddr(a), 0)
		}
	case *ssa.BinOp:
		d.set(fr, x, d.binop(fr, x))
	case *ssa.Convert:
		if isFloat(x.Type()) && isFloat(x.X.Type()) {
			d.set(fr, x, d.value(fr, x.X))
			return
		}
		d.set(fr, x, dNone)
	case *ssa.ChangeType:
		d.set(fr, x, d.value(fr, x.X))
	case *ssa.ChangeInterface:
		d.set(fr, x, d.value(fr, x.X))
	case *ssa.MakeInterface:
		v := d.value(fr, x.X)
		if sl, ok := x.X.Type().Underlying().(*types.Slice); ok && isFloat(sl.Elem()) && d.writers[d.root] {
			m := dmask(0)
			for a := range v.p {
				m |= d.load(st, a+"[]", sl.Elem(), 0).m
			}
			if m&^dPoint != 0 {
				d.report("written", x, "elements of "+d.name(x.X), "the elements of %s are written in %s", d.name(x.X), m)
			}
		}
		if len(v.f) > 0 && structOf(x.X.Type()) != nil { // a structure by value
			a := fmt.Sprintf("A%d:%s", fr.id, x.Name())
			if nm, ok := d.isState(x.X.Type()); ok {
				a = "T:" + nm
			}
			d.store(st, a, v, x.X.Type(), a[0] == 'A', 0)
			v = dPtr(a, x.X.Type())
		}
		d.set(fr, x, v)
	case *ssa.TypeAssert:
		v := d.asserted(st, d.value(fr, x.X), x.AssertedType)
		if x.CommaOk {
			v = &dval{f: map[string]*dval{"0": v}}
		}
		d.set(fr, x, v)
	case *ssa.Extract:
		d.set(fr, x, d.value(fr, x.Tuple).part(fmt.Sprint(x.Index)))
	case *ssa.Slice:
		v := d.value(fr, x.X)
		d.set(fr, x, &dval{p: v.p, m: v.m})
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		var bind []*dval
		for _, y := range x.Bindings {
			bind = append(bind, d.value(fr, y))
		}
		d.set(fr, x, &dval{fn: map[string]*dclos{fmt.Sprintf("%s@%d", fn, fr.id): {fn, bind}}})
	case *ssa.Next:
		// elements of a map
		out := &dval{f: map[string]*dval{}}
		if rg, ok := x.Iter.(*ssa.Range); ok {
			if m, ok := rg.X.Type().Underlying().(*types.Map); ok {
				v := dNone
				for a := range d.value(fr, rg.X).p {
					v = v.join(d.load(st, a+"[]", m.Elem(), 0))
				}
				out.f["2"] = v
			}
		}
		d.set(fr, x, out)
	case ssa.CallInstruction:
		v := d.call(fr, st, x)
		if val, ok := x.(ssa.Value); ok {
			d.set(fr, val, v)
		}
	}
}

// asserted: the value in an interface, if it is of that type.
func (d *dims) asserted(st dstate, v *dval, t types.Type) *dval {
	if isFloat(t) {
		return dNum(v.m)
	}
	pt, isPtr := t.Underlying().(*types.Pointer)
	if !isPtr {
		if structOf(t) != nil {
			out := dNone
			for a, at := range v.p {
				if at != nil && types.Identical(at, t) {
					out = out.join(d.load(st, a, t, 0))
				}
			}
			return out
		}
		return v
	}
	if nm, ok := d.isState(pt.Elem()); ok {
		return dPtr("T:"+nm, pt.Elem())
	}
	out := &dval{p: map[string]types.Type{}}
	for a, at := range v.p {
		if at == nil || types.Identical(at, pt.Elem()) {
			out.p[a] = pt.Elem()
		}
	}
	return out
}

// index names the element: a constant, the counter of a loop, or any.
func (d *dims) index(fr *dframe1, v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		if n, ok := constInt(c); ok {
			return fmt.Sprintf("[#%d]", n)
		}
	}
	phi, ok := v.(*ssa.Phi)
	if bo, isB := v.(*ssa.BinOp); isB && bo.Op == token.ADD {
		if p2, isP := bo.X.(*ssa.Phi); isP && bo.Block() == p2.Block() { // range form
			phi, ok = p2, true
		}
	}
	if n, in := fr.turn[phi]; ok && in {
		if v == ssa.Value(phi) {
			return fmt.Sprintf("[#%d]", n)
		}
		return fmt.Sprintf("[#%d]", n+1)
	}
	if ok && inLoop(phi.Block()) && allIndexes(phi) {
		return fmt.Sprintf("[?%d.%d.%s]", fr.id, phi.Block().Index, phi.Name())
	}
	return "[]"
}

func (d *dims) binop(fr *dframe1, x *ssa.BinOp) *dval {
	if !isFloat(x.X.Type()) {
		return dNone
	}
	a, b := d.value(fr, x.X).m, d.value(fr, x.Y).m
	switch x.Op {
	case token.ADD, token.SUB, token.LSS, token.GTR, token.LEQ, token.GEQ, token.EQL, token.NEQ:
		if a != 0 && b != 0 && a != b {
			what := "are added"
			switch x.Op {
			case token.SUB:
				what = "are subtracted"
			case token.ADD:
			default:
				what = "are compared"
			}
			d.report("mix", x, "mix "+d.name(x.X)+" "+d.name(x.Y), "%s (%s) and %s (%s) %s", d.name(x.X), a, d.name(x.Y), b, what)
			return dNone
		}
		if x.Op == token.ADD || x.Op == token.SUB {
			return dNum(a | b)
		}
	case token.MUL:
		if a == 0 {
			return dNum(b)
		}
		if b == 0 {
			return dNum(a)
		}
		var m dmask
		a.each(func(i int) { b.each(func(j int) { m |= degMask(i + j) }) })
		return dNum(m)
	case token.QUO:
		if a == 0 {
			return dNone
		}
		if b == 0 {
			return dNum(a)
		}
		var m dmask
		a.each(func(i int) { b.each(func(j int) { m |= degMask(i - j) }) })
		return dNum(m)
	}
	return dNone
}

func (d *dims) report(rule string, ins ssa.Instruction, construct, format string, a ...any) {
	if d.final {
		d.bad(rule, ins, construct, format, a...)
	}
}

// name describes where a number comes from.
func (d *dims) name(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value.String()
	case *ssa.Parameter:
		return x.Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return d.name(x.X)
		}
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.FieldAddr:
		return structOf(deref(x.X.Type())).Field(x.Field).Name()
	case *ssa.Field:
		return structOf(x.X.Type()).Field(x.Field).Name()
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
	case *ssa.Extract:
		return d.name(x.Tuple)
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.BinOp:
		return d.name(x.X) + x.Op.String() + d.name(x.Y)
	}
	return "a value"
}

func (d *dims) frame(up int, ci ssa.CallInstruction, fn *ssa.Function, at int) int {
	k := fmt.Sprintf("%d|%p|%p", up, ci, fn)
	if n, ok := d.frames[k]; ok {
		return n
	}
	n := len(d.frames) + 1
	d.frames[k] = n
	return n
}

// ---- calls ----

// conversion: the call converts between units and points (what it computes is decided by L03).
func (d *dims) conversion(fn *ssa.Function) (by int, ok bool) {
	if fn == nil || fn.Pkg != d.p.Root {
		return 0, false
	}
	switch strings.ToLower(fn.Name()) {
	case "unitstopoints", "unitstopointsvar":
		return 1, true
	case "pointstounits", "pointstounitsvar":
		return -1, true
	}
	return 0, false
}

func (d *dims) converted(m dmask, by int, ins ssa.Instruction, what string) dmask {
	if m == 0 {
		if by > 0 {
			return dPoint
		}
		return dUnit
	}
	out := m.shift(by)
	if by > 0 && out&dMore != 0 {
		d.report("twice", ins, "twice "+what, "%s (%s) is converted to points", what, m)
		return dPoint
	}
	if by < 0 && out&dNeg != 0 {
		d.report("twice", ins, "back "+what, "%s (%s) is converted to units", what, m)
		return dUnit
	}
	return out
}

// convert applies a conversion.
func (d *dims) convert(fr *dframe1, st dstate, ci ssa.CallInstruction, fn *ssa.Function, by int) *dval {
	cc := ci.Common()
	sg := fn.Signature
	d.settingOf(fr, ci, fn)
	if sg.Variadic() { // each variable handed over
		last := cc.Args[len(cc.Args)-1]
		for a := range d.value(fr, last).p {
			var keys []string
			for k := range st {
				if strings.HasPrefix(k, a+"[") {
					keys = append(keys, k)
				}
			}
			sort.Strings(keys)
			for _, k := range keys {
				for x := range st[k].p {
					v := d.load(st, x, types.Typ[types.Float64], 0)
					m := d.converted(v.m, by, ci, d.varName(fr, last, k[len(a):]))
					d.store(st, x, dNum(m), types.Typ[types.Float64], len(st[k].p) == 1 && d.singleAddr(x), 0)
				}
			}
		}
		return dNone
	}
	if sg.Results().Len() != 1 {
		return dNone
	}
	rt := sg.Results().At(0).Type()
	if isFloat(rt) {
		m := dmask(0)
		what := "a value"
		for i, a := range cc.Args {
			if isFloat(a.Type()) {
				m |= d.value(fr, a).m
				what = d.name(cc.Args[i])
			}
		}
		return dNum(d.converted(m, by, ci, what))
	}
	// a shape
	var src *dval
	if len(cc.Args) > 0 {
		src = d.value(fr, cc.Args[0])
	}
	if src == nil {
		return dNone
	}
	what := d.name(cc.Args[0])
	if pt, ok := rt.Underlying().(*types.Pointer); ok {
		to := fmt.Sprintf("A%d:%s", fr.id, ci.(ssa.Value).Name())
		for k := range st {
			if strings.HasPrefix(k, to+".") {
				delete(st, k)
			}
		}
		whole := dNone
		if len(src.p) == 0 {
			whole = src
		}
		for a := range src.p {
			whole = whole.join(d.load(st, a, pt.Elem(), 0))
		}
		d.store(st, to, d.convertAll(whole, pt.Elem(), by, ci, what), pt.Elem(), true, 0)
		return dPtr(to, pt.Elem())
	}
	return d.convertAll(src, rt, by, ci, what)
}

func (d *dims) convertAll(v *dval, t types.Type, by int, ins ssa.Instruction, what string) *dval {
	s := structOf(t)
	if s == nil {
		return v
	}
	out := &dval{f: map[string]*dval{}}
	for k, e := range v.f {
		out.f[k] = e
	}
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if isFloat(s.Field(i).Type()) {
			out.f[n] = dNum(d.converted(v.part(n).m, by, ins, what+"."+n))
		}
	}
	return out
}

// varName names a variable handed over by address.
func (d *dims) varName(fr *dframe1, list ssa.Value, key string) string {
	sl, ok := list.(*ssa.Slice)
	if !ok {
		return "a value"
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return "a value"
	}
	for _, u := range *al.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok || d.index(fr, ia.Index) != key {
			continue
		}
		for _, w := range *ia.Referrers() {
			if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
				return d.name(s.Val)
			}
		}
	}
	return "a value"
}

// settingOf: the conversion uses all of the document's setting, not just its unit.
func (d *dims) settingOf(fr *dframe1, ci ssa.CallInstruction, fn *ssa.Function) {
	for _, a := range ci.Common().Args {
		if !isInteger(a.Type()) {
			continue
		}
		ld, ok := a.(*ssa.UnOp)
		var k fieldKey
		if ok && ld.Op == token.MUL {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok {
				k = fkey(fa.X.Type(), fa.Field)
			}
		}
		if f, ok := a.(*ssa.Field); ok {
			k = fkey(f.X.Type(), f.Field)
		}
		if k.typ == "Config" {
			d.report("setting", ci, "setting "+fn.Name(), "%s is called with the unit of the document alone: a custom conversion factor is left out", fn.Name())
		}
	}
}

func (d *dims) call(fr *dframe1, st dstate, ci ssa.CallInstruction) *dval {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return d.builtin(fr, st, ci, b)
	}
	if _, ok := ci.(*ssa.Go); ok {
		return dNone
	}
	if f := cc.StaticCallee(); f != nil {
		if by, ok := d.conversion(f); ok {
			return d.convert(fr, st, ci, f, by)
		}
		if f.Blocks == nil || !d.p.owns(f) {
			return d.external(fr, st, ci, f)
		}
	}
	args := make([]*dval, 0, len(cc.Args)+1)
	if cc.IsInvoke() {
		args = append(args, d.value(fr, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, d.value(fr, a))
	}
	type target struct {
		fn *ssa.Function
		fv []*dval
	}
	var ts []target
	if f := cc.StaticCallee(); f != nil {
		var fv []*dval
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for _, x := range mc.Bindings {
				fv = append(fv, d.value(fr, x))
			}
		}
		ts = append(ts, target{f, fv})
	} else if cc.IsInvoke() {
		recv := d.value(fr, cc.Value)
		for _, f := range d.p.implsOf(cc) {
			if len(recv.p) > 0 && len(f.Params) > 0 {
				ok := false
				want := f.Params[0].Type()
				if pt, isP := want.Underlying().(*types.Pointer); isP {
					want = pt.Elem()
				}
				for _, t := range recv.p {
					ok = ok || t == nil || types.Identical(t, want)
				}
				if !ok {
					continue
				}
			}
			ts = append(ts, target{f, nil})
		}
	} else {
		for _, c := range d.value(fr, cc.Value).fn {
			ts = append(ts, target{c.fn, c.bind})
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].fn.String() < ts[j].fn.String() })
	}
	rt := types.Type(cc.Signature().Results())
	if cc.Signature().Results().Len() == 1 {
		rt = cc.Signature().Results().At(0).Type()
	}
	var ret *dval
	var end dstate
	for i, t := range ts {
		if t.fn.Blocks == nil || !d.relevant[t.fn] || d.stack[t.fn] > 0 || len(d.active) > 40 {
			ret = d.byType(rt).join(ret)
			end = d.merged(end, st)
			continue
		}
		as := args
		if cc.IsInvoke() { // the receiver as its type
			as = append([]*dval{}, args...)
			pt := t.fn.Params[0].Type()
			if p, ok := pt.Underlying().(*types.Pointer); ok {
				if nm, ok := d.isState(p.Elem()); ok {
					as[0] = dPtr("T:"+nm, p.Elem())
				}
			} else if structOf(pt) != nil {
				as[0] = d.asserted(st, args[0], pt)
			}
		}
		r, e := d.run(t.fn, as, t.fv, d.frame(fr.id, ci, t.fn, i), st.clone())
		ret = r.join(ret)
		end = d.merged(end, e)
	}
	if ret == nil {
		return d.byType(rt)
	}
	for k := range st {
		if _, ok := end[k]; !ok {
			delete(st, k)
		}
	}
	for k, v := range end {
		st[k] = v
	}
	return ret
}

// byType: what is known of a value by its type alone.
func (d *dims) byType(t types.Type) *dval {
	switch u := t.(type) {
	case *types.Tuple:
		out := &dval{f: map[string]*dval{}}
		for i := 0; i < u.Len(); i++ {
			out.f[fmt.Sprint(i)] = d.byType(u.At(i).Type())
		}
		return out
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if nm, ok := d.isState(p.Elem()); ok {
			return dPtr("T:"+nm, p.Elem())
		}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		return d.initial("T:?", t)
	}
	return dNone
}

func (d *dims) external(fr *dframe1, st dstate, ci ssa.CallInstruction, f *ssa.Function) *dval {
	cc := ci.Common()
	name := f.String()
	switch name {
	case "math.Abs", "math.Floor", "math.Ceil", "math.Round", "math.Trunc":
		return dNum(d.value(fr, cc.Args[0]).m)
	case "math.Max", "math.Min", "math.Mod", "math.Hypot":
		a, b := d.value(fr, cc.Args[0]).m, d.value(fr, cc.Args[1]).m
		if a != 0 && b != 0 && a != b {
			d.report("mix", ci, "mix "+d.name(cc.Args[0])+" "+d.name(cc.Args[1]), "%s (%s) and %s (%s) are compared", d.name(cc.Args[0]), a, d.name(cc.Args[1]), b)
			return dNone
		}
		return dNum(a | b)
	}
	if methodName(name) == "GetPageSizes" { // the sizes of pages of another file are in points
		return dPtr("I:pages", nil)
	}
	rt := types.Type(cc.Signature().Results())
	if cc.Signature().Results().Len() == 1 {
		rt = cc.Signature().Results().At(0).Type()
	}
	return d.byType(rt)
}

func (d *dims) builtin(fr *dframe1, st dstate, ci ssa.CallInstruction, b *ssa.Builtin) *dval {
	cc := ci.Common()
	switch b.Name() {
	case "append":
		sl, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return dNone
		}
		v := d.value(fr, cc.Args[0])
		add := dNone
		if len(cc.Args) > 1 {
			for a := range d.value(fr, cc.Args[1]).p {
				add = add.join(d.load(st, a+"[]", sl.Elem(), 0))
			}
		}
		if len(v.p) == 0 { // a new one
			to := fmt.Sprintf("A%d:%s", fr.id, ci.(ssa.Value).Name())
			v = dPtr(to, nil)
		}
		for a := range v.p {
			d.store(st, a+"[]", add, sl.Elem(), false, 0)
		}
		return v
	case "copy":
		sl, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return dNone
		}
		add := dNone
		for a := range d.value(fr, cc.Args[1]).p {
			add = add.join(d.load(st, a+"[]", sl.Elem(), 0))
		}
		for a := range d.value(fr, cc.Args[0]).p {
			d.store(st, a+"[]", add, sl.Elem(), false, 0)
		}
	case "min", "max":
		out := dmask(0)
		for _, a := range cc.Args {
			out |= d.value(fr, a).m
		}
		return dNum(out)
	}
	return dNone
}
