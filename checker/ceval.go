package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Constant propagation through calls, structures, slices, maps and closures. Numbers are monomials: a constant factor
// times powers of named unknowns, so that "2.8346 * u" is known although u is not. A branch whose condition is not
// known is followed both ways.

type cval interface{}

type (
	cNum struct {
		k   float64
		pow string // "c:-1 u:1": sorted, no zero powers
	}
	cBool   bool
	cStr    string
	cNil    struct{}
	cUnk    struct{ why string }
	cStruct []cval
	cPtr    struct {
		obj  *cObj
		path []int
	}
	cSlice struct {
		obj           *cObj
		off, len, cap int
	}
	cIface struct {
		t types.Type
		v cval
	}
	cFn struct {
		fn   *ssa.Function
		bind []cval
	}
	cMapRef struct{ m *cMapObj }
	cTuple  []cval
	cIter   struct {
		m *cMapObj
		n *int
	}
)

type cObj struct{ v cval }

type cMapObj struct {
	keys, vals []cval
	at         map[string]int
}

func cKey(v cval) string { return fmt.Sprintf("%T %v", v, v) }

type ceval struct {
	p        *Prog
	globals  map[*ssa.Global]*cObj
	decide   []bool // decisions for the branches that are not known, in order
	asked    int
	zero     map[string]bool // unknowns taken to be zero on the path
	steps    int
	max      int
	depth    int
	gaveUp   string
	lenient  bool            // stores to addresses that are not known are skipped
	positive map[string]bool // unknowns that are more than zero
	trace    []string        // conditions that were not known, and how they were taken
}

func (p *Prog) newCeval() *ceval {
	return &ceval{p: p, globals: map[*ssa.Global]*cObj{}, zero: map[string]bool{}, max: 200000, positive: map[string]bool{}}
}

func cPow(s string) map[string]int {
	m := map[string]int{}
	for _, f := range strings.Fields(s) {
		var n int
		i := strings.LastIndexByte(f, ':')
		fmt.Sscanf(f[i+1:], "%d", &n)
		m[f[:i]] = n
	}
	return m
}

func cPowStr(m map[string]int) string {
	var out []string
	for k, n := range m {
		if n != 0 {
			out = append(out, fmt.Sprintf("%s:%d", k, n))
		}
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func (x cNum) String() string {
	if x.pow == "" {
		return fmt.Sprintf("%.10g", x.k)
	}
	s := fmt.Sprintf("%.10g", x.k)
	m := cPow(x.pow)
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		switch m[k] {
		case 1:
			s += " * " + k
		case -1:
			s += " / " + k
		default:
			s += fmt.Sprintf(" * %s^%d", k, m[k])
		}
	}
	return s
}

func cSym(name string) cNum { return cNum{1, name + ":1"} }

func (x cNum) mul(y cNum, sign int) cNum {
	m := cPow(x.pow)
	for k, n := range cPow(y.pow) {
		m[k] += sign * n
	}
	k := x.k * y.k
	if sign < 0 {
		k = x.k / y.k
	}
	if k == 0 {
		return cNum{}
	}
	return cNum{k, cPowStr(m)}
}

// run evaluates a call; the decisions say how the unknown branches go.
func (e *ceval) run(fn *ssa.Function, args []cval, decide []bool) cval {
	e.decide, e.asked, e.steps, e.gaveUp, e.zero, e.trace = decide, 0, 0, "", map[string]bool{}, nil
	return e.call(fn, args, nil)
}

// settle runs the initialisation of the package, so that the package variables have their values.
func (e *ceval) settle() {
	init := e.p.Root.Func("init")
	if init == nil {
		return
	}
	max := e.max
	e.max, e.lenient = 20000000, true
	e.run(init, nil, nil)
	e.max, e.lenient, e.gaveUp = max, false, ""
}

// paths evaluates a call once for every way the unknown branches can go.
func (e *ceval) paths(fn *ssa.Function, limit int, args func() []cval, each func(res cval, args []cval)) bool {
	todo := [][]bool{nil}
	for n := 0; len(todo) > 0; n++ {
		if n > limit {
			e.gaveUp = "too many paths"
			return false
		}
		d := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		as := args()
		res := e.run(fn, as, d)
		if e.gaveUp != "" {
			return false
		}
		for i := len(d); i < e.asked; i++ {
			alt := append([]bool(nil), d...)
			for len(alt) < i {
				alt = append(alt, true)
			}
			todo = append(todo, append(alt, false))
		}
		each(res, as)
	}
	return true
}

func (e *ceval) ask(what string) bool {
	i := e.asked
	e.asked++
	v := true
	if i < len(e.decide) {
		v = e.decide[i]
	}
	e.trace = append(e.trace, fmt.Sprintf("%s is %v", what, v))
	return v
}

func (e *ceval) giveUp(why string) cval {
	if e.gaveUp == "" {
		e.gaveUp = why
	}
	return cUnk{why}
}

type cframe struct {
	fn     *ssa.Function
	env    map[ssa.Value]cval
	defers []*ssa.Defer
}

func (e *ceval) call(fn *ssa.Function, args, bind []cval) cval {
	if fn.Blocks == nil || !e.p.owns(fn) && fn.Synthetic == "" {
		return e.external(fn, args)
	}
	if e.depth > 40 {
		return e.giveUp("calls nested too deep")
	}
	e.depth++
	defer func() { e.depth-- }()
	f := &cframe{fn: fn, env: map[ssa.Value]cval{}}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(bind) {
			f.env[fv] = bind[i]
		}
	}
	var prev *ssa.BasicBlock
	b := fn.Blocks[0]
	for {
		var phis []cval
		for _, ins := range b.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				for i, q := range b.Preds {
					if q == prev {
						phis = append(phis, e.get(f, phi.Edges[i]))
						break
					}
				}
			}
		}
		n := 0
		for _, ins := range b.Instrs {
			if e.steps++; e.steps > e.max {
				return e.giveUp("too many steps")
			}
			if e.gaveUp != "" {
				return cUnk{e.gaveUp}
			}
			switch x := ins.(type) {
			case *ssa.Phi:
				f.env[x] = phis[n]
				n++
			case *ssa.If:
				c := e.get(f, x.Cond)
				v, ok := c.(cBool)
				if !ok && e.lenient {
					return cUnk{"branch"}
				}
				if !ok {
					v = cBool(e.assume(f, x.Cond))
				}
				prev = b
				if v {
					b = b.Succs[0]
				} else {
					b = b.Succs[1]
				}
			case *ssa.Jump:
				prev, b = b, b.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					return cTuple(nil)
				case 1:
					return e.get(f, x.Results[0])
				}
				var t cTuple
				for _, r := range x.Results {
					t = append(t, e.get(f, r))
				}
				return t
			case *ssa.Panic:
				return cUnk{"panics"}
			case *ssa.Defer:
				f.defers = append(f.defers, x)
			case *ssa.RunDefers:
				for i := len(f.defers) - 1; i >= 0; i-- {
					e.callSite(f, &f.defers[i].Call, nil)
				}
				f.defers = nil
			case *ssa.Store:
				e.store(e.get(f, x.Addr), e.get(f, x.Val))
			case *ssa.MapUpdate:
				if m, ok := e.get(f, x.Map).(cMapRef); ok {
					e.mapSet(m.m, e.get(f, x.Key), e.get(f, x.Value))
				}
			case *ssa.Go, *ssa.Send, *ssa.DebugRef:
			case ssa.Value:
				f.env[x] = e.value(f, x)
			}
		}
	}
}

// assume takes a branch that is not known, and keeps what it says about an unknown being zero.
func (e *ceval) assume(f *cframe, cond ssa.Value) bool {
	c, neg := stripNot(cond)
	if bo, ok := c.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		x, xo := e.get(f, bo.X).(cNum)
		y, yo := e.get(f, bo.Y).(cNum)
		if xo && yo && (y.k == 0 || x.k == 0) {
			if x.k == 0 {
				x = y
			}
			if m := cPow(x.pow); len(m) == 1 {
				for s, n := range m {
					if n > 0 {
						v := e.ask(s + " == 0")
						if v {
							e.zero[s] = true
						}
						return (v == (bo.Op == token.EQL)) != neg
					}
				}
			}
		}
	}
	return e.ask(cond.String())
}

func (e *ceval) get(f *cframe, v ssa.Value) cval {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return cPtr{obj: e.global(x)}
	case *ssa.Function:
		return cFn{fn: x}
	case *ssa.Builtin:
		return cUnk{"builtin"}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	return cUnk{v.Name()}
}

func (e *ceval) global(g *ssa.Global) *cObj {
	o := e.globals[g]
	if o == nil {
		o = &cObj{v: cUnk{"variable " + g.Name()}}
		if g.Pkg != nil && e.p.inPkg[g.Pkg.Pkg] {
			o.v = e.zeroOf(g.Type().Underlying().(*types.Pointer).Elem(), 0)
		}
		e.globals[g] = o
	}
	return o
}

func (e *ceval) constant(c *ssa.Const) cval {
	if c.Value == nil {
		return e.zeroOf(c.Type(), 0)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return cBool(constant.BoolVal(c.Value))
	case constant.String:
		return cStr(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		k, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return cNum{k: k}
	}
	return cUnk{"constant"}
}

func (e *ceval) zeroOf(t types.Type, depth int) cval {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsNumeric != 0:
			return cNum{}
		case u.Info()&types.IsBoolean != 0:
			return cBool(false)
		case u.Info()&types.IsString != 0:
			return cStr("")
		}
		return cNil{}
	case *types.Struct:
		s := make(cStruct, u.NumFields())
		for i := range s {
			s[i] = e.zeroOf(u.Field(i).Type(), depth+1)
		}
		return s
	case *types.Array:
		if u.Len() > 70000 {
			return cUnk{"large array"}
		}
		s := make(cStruct, u.Len())
		for i := range s {
			s[i] = e.zeroOf(u.Elem(), depth+1)
		}
		return s
	}
	return cNil{}
}

func cAt(v cval, path []int) cval {
	for _, i := range path {
		s, ok := v.(cStruct)
		if !ok || i < 0 || i >= len(s) {
			return cUnk{"part"}
		}
		v = s[i]
	}
	return v
}

func cSet(v cval, path []int, val cval) cval {
	if len(path) == 0 {
		return val
	}
	s, ok := v.(cStruct)
	if !ok || path[0] < 0 || path[0] >= len(s) {
		return cUnk{"part"}
	}
	n := append(cStruct(nil), s...)
	n[path[0]] = cSet(s[path[0]], path[1:], val)
	return n
}

func (e *ceval) store(addr, val cval) {
	if p, ok := addr.(cPtr); ok && p.obj != nil {
		p.obj.v = cSet(p.obj.v, p.path, val)
		return
	}
	if e.lenient {
		return
	}
	e.giveUp("a store whose address is not known")
}

func (e *ceval) load(addr cval) cval {
	if p, ok := addr.(cPtr); ok && p.obj != nil {
		return cAt(p.obj.v, p.path)
	}
	return cUnk{"load"}
}

func (e *ceval) mapSet(m *cMapObj, k, v cval) {
	if m.at == nil {
		m.at = map[string]int{}
	}
	if i, ok := m.at[cKey(k)]; ok {
		m.vals[i] = v
		return
	}
	m.at[cKey(k)] = len(m.keys)
	m.keys, m.vals = append(m.keys, k), append(m.vals, v)
}

func cSimple(v cval) bool {
	switch v.(type) {
	case cNum, cBool, cStr, cNil:
		return true
	}
	return false
}

func (e *ceval) value(f *cframe, v ssa.Value) cval {
	switch x := v.(type) {
	case *ssa.Alloc:
		return cPtr{obj: &cObj{v: e.zeroOf(x.Type().Underlying().(*types.Pointer).Elem(), 0)}}
	case *ssa.FieldAddr:
		if p, ok := e.get(f, x.X).(cPtr); ok {
			return cPtr{p.obj, append(append([]int(nil), p.path...), x.Field)}
		}
	case *ssa.Field:
		return cAt(e.get(f, x.X), []int{x.Field})
	case *ssa.IndexAddr:
		n, ok := e.get(f, x.Index).(cNum)
		if !ok || n.pow != "" {
			return cUnk{"index"}
		}
		switch a := e.get(f, x.X).(type) {
		case cPtr:
			return cPtr{a.obj, append(append([]int(nil), a.path...), int(n.k))}
		case cSlice:
			if int(n.k) < a.len {
				return cPtr{a.obj, []int{a.off + int(n.k)}}
			}
		}
	case *ssa.Index:
		if n, ok := e.get(f, x.Index).(cNum); ok && n.pow == "" {
			if s, ok := e.get(f, x.X).(cStr); ok && int(n.k) < len(s) {
				return cNum{k: float64(s[int(n.k)])}
			}
			return cAt(e.get(f, x.X), []int{int(n.k)})
		}
	case *ssa.UnOp:
		a := e.get(f, x.X)
		switch x.Op {
		case token.MUL:
			return e.load(a)
		case token.NOT:
			if b, ok := a.(cBool); ok {
				return !b
			}
		case token.SUB:
			if n, ok := a.(cNum); ok {
				return cNum{-n.k, n.pow}
			}
		}
	case *ssa.BinOp:
		return e.binop(x, e.get(f, x.X), e.get(f, x.Y))
	case *ssa.Convert:
		a := e.get(f, x.X)
		if n, ok := a.(cNum); ok && isInteger(x.Type()) && n.pow == "" {
			return cNum{k: math.Trunc(n.k)}
		} else if ok && (isFloat(x.Type()) || isInteger(x.Type()) && isInteger(x.X.Type())) {
			return n
		}
	case *ssa.ChangeType:
		return e.get(f, x.X)
	case *ssa.ChangeInterface:
		return e.get(f, x.X)
	case *ssa.MakeInterface:
		return cIface{x.X.Type(), e.get(f, x.X)}
	case *ssa.TypeAssert:
		i, ok := e.get(f, x.X).(cIface)
		if !ok {
			break
		}
		match := types.Identical(i.t, x.AssertedType)
		var res cval = i.v
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			match, res = types.Implements(i.t, it), i
		}
		if x.CommaOk {
			if !match {
				return cTuple{e.zeroOf(x.AssertedType, 0), cBool(false)}
			}
			return cTuple{res, cBool(true)}
		}
		if match {
			return res
		}
	case *ssa.Extract:
		if t, ok := e.get(f, x.Tuple).(cTuple); ok && x.Index < len(t) {
			return t[x.Index]
		}
	case *ssa.MakeClosure:
		c := cFn{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bind = append(c.bind, e.get(f, b))
		}
		return c
	case *ssa.MakeMap:
		return cMapRef{&cMapObj{}}
	case *ssa.MakeSlice:
		if n, ok := e.get(f, x.Len).(cNum); ok && n.pow == "" && n.k < 100000 {
			el := x.Type().Underlying().(*types.Slice).Elem()
			s := make(cStruct, int(n.k))
			for i := range s {
				s[i] = e.zeroOf(el, 0)
			}
			return cSlice{&cObj{v: s}, 0, len(s), len(s)}
		}
	case *ssa.Slice:
		return e.slice(f, x)
	case *ssa.Lookup:
		k := e.get(f, x.Index)
		if n, ok := k.(cNum); ok && n.pow == "" {
			if s, ok := e.get(f, x.X).(cStr); ok && n.k >= 0 && int(n.k) < len(s) {
				return cNum{k: float64(s[int(n.k)])}
			}
		}
		if m, ok := e.get(f, x.X).(cMapRef); ok && cSimple(k) {
			if i, ok := m.m.at[cKey(k)]; ok {
				if x.CommaOk {
					return cTuple{m.m.vals[i], cBool(true)}
				}
				return m.m.vals[i]
			}
			if n, ok := k.(cNum); ok && n.pow != "" {
				break
			}
			z := e.zeroOf(x.X.Type().Underlying().(*types.Map).Elem(), 0)
			if x.CommaOk {
				return cTuple{z, cBool(false)}
			}
			return z
		}
	case *ssa.Range:
		if t, ok := e.get(f, x.X).(cStr); ok {
			m := &cMapObj{}
			for i, r := range string(t) {
				m.keys, m.vals = append(m.keys, cNum{k: float64(i)}), append(m.vals, cNum{k: float64(r)})
			}
			return cIter{m, new(int)}
		}
		if m, ok := e.get(f, x.X).(cMapRef); ok {
			return cIter{m.m, new(int)}
		}
	case *ssa.Next:
		if it, ok := e.get(f, x.Iter).(cIter); ok {
			i := *it.n
			if i >= len(it.m.keys) {
				return cTuple{cBool(false), cUnk{"end"}, cUnk{"end"}}
			}
			*it.n++
			return cTuple{cBool(true), it.m.keys[i], it.m.vals[i]}
		}
	case *ssa.Call:
		return e.callSite(f, &x.Call, x)
	}
	return cUnk{fmt.Sprintf("%T", v)}
}

func (e *ceval) slice(f *cframe, x *ssa.Slice) cval {
	at := func(v ssa.Value, def int) (int, bool) {
		if v == nil {
			return def, true
		}
		n, ok := e.get(f, v).(cNum)
		return int(n.k), ok && n.pow == ""
	}
	switch a := e.get(f, x.X).(type) {
	case cPtr:
		s, ok := cAt(a.obj.v, a.path).(cStruct)
		if !ok || len(a.path) != 0 {
			break
		}
		lo, ok1 := at(x.Low, 0)
		hi, ok2 := at(x.High, len(s))
		if ok1 && ok2 {
			return cSlice{a.obj, lo, hi - lo, len(s) - lo}
		}
	case cSlice:
		lo, ok1 := at(x.Low, 0)
		hi, ok2 := at(x.High, a.len)
		if ok1 && ok2 && lo <= hi && hi <= a.cap {
			return cSlice{a.obj, a.off + lo, hi - lo, a.cap - lo}
		}
	}
	return cUnk{"slice"}
}

func (e *ceval) binop(x *ssa.BinOp, a, b cval) cval {
	if n, ok := a.(cNum); ok {
		m, ok := b.(cNum)
		if !ok {
			return cUnk{"operand"}
		}
		switch x.Op {
		case token.MUL:
			return n.mul(m, 1)
		case token.QUO:
			if m.k == 0 {
				return cUnk{"division by zero"}
			}
			r := n.mul(m, -1)
			if isInteger(x.Type()) {
				if r.pow != "" {
					return cUnk{"integer division"}
				}
				r.k = math.Trunc(r.k)
			}
			return r
		case token.ADD, token.SUB:
			s := 1.0
			if x.Op == token.SUB {
				s = -1
			}
			switch {
			case n.pow == m.pow:
				r := cNum{n.k + s*m.k, n.pow}
				if r.k == 0 {
					r.pow = ""
				}
				return r
			case m.k == 0:
				return n
			case n.k == 0:
				return cNum{s * m.k, m.pow}
			}
			return cUnk{"sum"}
		case token.REM, token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			if n.pow != "" || m.pow != "" {
				return cUnk{"operand"}
			}
			i, j := int64(n.k), int64(m.k)
			switch x.Op {
			case token.REM:
				if j != 0 {
					return cNum{k: float64(i % j)}
				}
			case token.AND:
				return cNum{k: float64(i & j)}
			case token.OR:
				return cNum{k: float64(i | j)}
			case token.XOR:
				return cNum{k: float64(i ^ j)}
			case token.AND_NOT:
				return cNum{k: float64(i &^ j)}
			case token.SHL:
				return cNum{k: float64(i << uint(j&63))}
			case token.SHR:
				return cNum{k: float64(i >> uint(j&63))}
			}
			return cUnk{"operand"}
		}
		return e.compare(x.Op, n, m)
	}
	switch n := a.(type) {
	case cBool:
		if m, ok := b.(cBool); ok {
			switch x.Op {
			case token.EQL:
				return cBool(n == m)
			case token.NEQ:
				return cBool(n != m)
			}
		}
	case cStr:
		if m, ok := b.(cStr); ok {
			switch x.Op {
			case token.EQL:
				return cBool(n == m)
			case token.NEQ:
				return cBool(n != m)
			case token.ADD:
				return n + m
			case token.LSS:
				return cBool(n < m)
			case token.GTR:
				return cBool(n > m)
			}
		}
	default:
		an, bn := isCNil(a), isCNil(b)
		if an >= 0 && bn >= 0 && (an == 1 || bn == 1) {
			switch x.Op {
			case token.EQL:
				return cBool(an == bn)
			case token.NEQ:
				return cBool(an != bn)
			}
		}
		if p, ok := a.(cStruct); ok {
			if q, ok := b.(cStruct); ok && len(p) == len(q) {
				all := true
				for i := range p {
					if !cSimple(p[i]) || !cSimple(q[i]) {
						return cUnk{"comparison"}
					}
					if n, ok := p[i].(cNum); ok && n.pow != "" && p[i] != q[i] {
						return cUnk{"comparison"}
					}
					if n, ok := q[i].(cNum); ok && n.pow != "" && p[i] != q[i] {
						return cUnk{"comparison"}
					}
					all = all && p[i] == q[i]
				}
				if x.Op == token.EQL || x.Op == token.NEQ {
					return cBool(all == (x.Op == token.EQL))
				}
			}
		}
	}
	return cUnk{"operation"}
}

// isCNil: 1 nil, 0 not nil, -1 not known.
func isCNil(v cval) int {
	switch v.(type) {
	case cNil:
		return 1
	case cPtr, cSlice, cIface, cFn, cMapRef:
		return 0
	}
	return -1
}

func (e *ceval) compare(op token.Token, n, m cNum) cval {
	d := cNum{}
	switch {
	case n.pow == m.pow:
		d = cNum{n.k - m.k, n.pow}
	case m.k == 0:
		d = n
	case n.k == 0:
		d = cNum{-m.k, m.pow}
	default:
		return cUnk{"comparison"}
	}
	sign := 0
	if d.k != 0 {
		sign = 1
		if d.k < 0 {
			sign = -1
		}
		for s := range cPow(d.pow) {
			if !e.positive[s] {
				if e.zero[s] {
					sign = 0
					break
				}
				return cUnk{"comparison"}
			}
		}
	}
	switch op {
	case token.EQL:
		return cBool(sign == 0)
	case token.NEQ:
		return cBool(sign != 0)
	case token.LSS:
		return cBool(sign < 0)
	case token.LEQ:
		return cBool(sign <= 0)
	case token.GTR:
		return cBool(sign > 0)
	case token.GEQ:
		return cBool(sign >= 0)
	}
	return cUnk{"comparison"}
}

func (e *ceval) callSite(f *cframe, cc *ssa.CallCommon, site *ssa.Call) cval {
	var args []cval
	for _, a := range cc.Args {
		args = append(args, e.get(f, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return e.builtin(f, b.Name(), cc, args)
	}
	if cc.IsInvoke() {
		i, ok := e.get(f, cc.Value).(cIface)
		if !ok {
			return cUnk{"call of an unknown object"}
		}
		fn := e.p.SSA.LookupMethod(i.t, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			return cUnk{"method"}
		}
		return e.call(fn, append([]cval{i.v}, args...), nil)
	}
	switch fv := e.get(f, cc.Value).(type) {
	case cFn:
		return e.call(fv.fn, args, fv.bind)
	}
	return cUnk{"call of an unknown function"}
}

func (e *ceval) external(fn *ssa.Function, args []cval) cval {
	num := func(i int) (cNum, bool) {
		if i >= len(args) {
			return cNum{}, false
		}
		n, ok := args[i].(cNum)
		return n, ok && n.pow == ""
	}
	var texts []string
	for i, a := range args {
		if t, ok := a.(cStr); ok {
			texts = append(texts, string(t))
		} else if n, ok := num(i); ok && takesRune(fn.String()) && i == 1 {
			texts = append(texts, string(rune(n.k)))
		}
	}
	if len(texts) == len(args) {
		switch v := foldText(fn.String(), texts).(type) {
		case string:
			return cStr(v)
		case bool:
			return cBool(v)
		case int:
			return cNum{k: float64(v)}
		}
	}
	switch fn.String() {
	case "errors.New", "fmt.Errorf":
		return cIface{types.Universe.Lookup("error").Type(), cUnk{"error"}}
	case "strings.IndexRune", "strings.ContainsRune", "strings.IndexByte":
		if n, ok := num(1); ok && len(texts) == 1 {
			i := strings.IndexRune(texts[0], rune(n.k))
			if fn.Name() == "ContainsRune" {
				return cBool(i >= 0)
			}
			return cNum{k: float64(i)}
		}
	case "math.Abs":
		if n, ok := num(0); ok {
			return cNum{k: math.Abs(n.k)}
		}
	case "math.Pow":
		a, ok := num(0)
		b, ok2 := num(1)
		if ok && ok2 {
			return cNum{k: math.Pow(a.k, b.k)}
		}
	}
	return cUnk{"call of " + fn.String()}
}

// takesRune: the second argument is a character.
func takesRune(name string) bool {
	return name == "strings.ContainsRune" || name == "strings.IndexByte" || name == "strings.IndexRune"
}

// foldText is what a pure function of the library gives for known texts.
func foldText(name string, a []string) interface{} {
	switch name {
	case "strings.ContainsRune":
		name = "strings.Contains"
	case "strings.IndexByte", "strings.IndexRune":
		name = "strings.Index"
	}
	switch {
	case len(a) == 1:
		switch name {
		case "strings.ToUpper":
			return strings.ToUpper(a[0])
		case "strings.ToLower":
			return strings.ToLower(a[0])
		case "strings.TrimSpace":
			return strings.TrimSpace(a[0])
		}
	case len(a) == 2:
		switch name {
		case "strings.Contains":
			return strings.Contains(a[0], a[1])
		case "strings.ContainsAny":
			return strings.ContainsAny(a[0], a[1])
		case "strings.HasPrefix":
			return strings.HasPrefix(a[0], a[1])
		case "strings.HasSuffix":
			return strings.HasSuffix(a[0], a[1])
		case "strings.EqualFold":
			return strings.EqualFold(a[0], a[1])
		case "strings.Index":
			return strings.Index(a[0], a[1])
		case "strings.IndexAny":
			return strings.IndexAny(a[0], a[1])
		case "strings.Count":
			return strings.Count(a[0], a[1])
		case "strings.TrimPrefix":
			return strings.TrimPrefix(a[0], a[1])
		case "strings.TrimSuffix":
			return strings.TrimSuffix(a[0], a[1])
		case "strings.Trim":
			return strings.Trim(a[0], a[1])
		case "strings.TrimLeft":
			return strings.TrimLeft(a[0], a[1])
		case "strings.TrimRight":
			return strings.TrimRight(a[0], a[1])
		case "strings.LastIndex":
			return strings.LastIndex(a[0], a[1])
		case "strings.Compare":
			return strings.Compare(a[0], a[1])
		}
	case len(a) == 3:
		switch name {
		case "strings.ReplaceAll":
			return strings.ReplaceAll(a[0], a[1], a[2])
		}
	}
	return nil
}

func (e *ceval) builtin(f *cframe, name string, cc *ssa.CallCommon, args []cval) cval {
	switch name {
	case "len", "cap":
		switch a := args[0].(type) {
		case cSlice:
			if name == "cap" {
				return cNum{k: float64(a.cap)}
			}
			return cNum{k: float64(a.len)}
		case cStr:
			return cNum{k: float64(len(a))}
		case cNil:
			return cNum{}
		case cMapRef:
			return cNum{k: float64(len(a.m.keys))}
		case cStruct:
			return cNum{k: float64(len(a))}
		}
	case "append":
		var out cStruct
		for _, a := range args {
			switch s := a.(type) {
			case cNil:
			case cSlice:
				arr, ok := s.obj.v.(cStruct)
				if !ok || s.off+s.len > len(arr) {
					return cUnk{"append"}
				}
				out = append(out, arr[s.off:s.off+s.len]...)
			default:
				return cUnk{"append"}
			}
		}
		return cSlice{&cObj{v: out}, 0, len(out), len(out)}
	}
	return cUnk{"builtin " + name}
}
