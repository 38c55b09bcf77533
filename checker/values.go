package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// BV is an SSA value seen in a calling context.
type BV struct {
	v  ssa.Value
	fr *Frame
}

// Frame is a calling context: a function with its actual arguments bound.
type Frame struct {
	fn    *ssa.Function
	args  []BV
	free  []BV
	up    *Frame
	site  ssa.Instruction
	depth int
	kids  map[frameKey]*Frame
	id    int
}

type frameKey struct {
	site ssa.Instruction
	fn   *ssa.Function
}

type valCtx struct {
	p      *Prog
	nframe int
	roots  map[*ssa.Function]*Frame
	opaque *ssa.Function // results of this function are not resolved further
}

func newValCtx(p *Prog) *valCtx { return &valCtx{p: p, roots: map[*ssa.Function]*Frame{}} }

// root is the context in which nothing is known about fn's parameters.
func (c *valCtx) root(fn *ssa.Function) *Frame {
	if f := c.roots[fn]; f != nil {
		return f
	}
	c.nframe++
	f := &Frame{fn: fn, kids: map[frameKey]*Frame{}, id: c.nframe}
	c.roots[fn] = f
	// a closure seen on its own still knows where its captured variables live
	if fn.Parent() != nil {
		for _, b := range fn.Parent().Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == fn {
					pr := c.root(fn.Parent())
					f.free = nil
					for _, x := range mc.Bindings {
						f.free = append(f.free, BV{x, pr})
					}
				}
			}
		}
	}
	return f
}

// enter binds a call's arguments to callee's parameters.
func (c *valCtx) enter(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) *Frame {
	k := frameKey{call, callee}
	if f := fr.kids[k]; f != nil {
		return f
	}
	c.nframe++
	f := &Frame{fn: callee, up: fr, site: call, depth: fr.depth + 1, kids: map[frameKey]*Frame{}, id: c.nframe}
	cc := call.Common()
	if cc.IsInvoke() {
		f.args = append(f.args, BV{cc.Value, fr})
	}
	for _, a := range cc.Args {
		f.args = append(f.args, BV{a, fr})
	}
	if mc, ok := c.resolve(BV{cc.Value, fr}).v.(*ssa.MakeClosure); ok && mc.Fn == callee {
		mfr := c.resolve(BV{cc.Value, fr}).fr
		for _, b := range mc.Bindings {
			f.free = append(f.free, BV{b, mfr})
		}
	}
	fr.kids[k] = f
	return f
}

// inChain reports whether fn is already active in the frame chain.
func (fr *Frame) inChain(fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.up {
		if f.fn == fn {
			return true
		}
	}
	return false
}

// callees resolves the analysed functions a call may run (static, closure or interface).
func (c *valCtx) callees(fr *Frame, call ssa.CallInstruction) []*ssa.Function {
	cc := call.Common()
	if cc.IsInvoke() {
		// a receiver of statically visible concrete type narrows the dispatch
		r := c.resolve(BV{cc.Value, fr})
		if _, isIface := r.v.Type().Underlying().(*types.Interface); !isIface {
			if sel := c.p.SSA.MethodSets.MethodSet(r.v.Type()).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				if f := c.p.unwrap(c.p.SSA.MethodValue(sel)); f != nil && f.Blocks != nil && c.p.owns(f) {
					return []*ssa.Function{f}
				}
			}
			return nil
		}
		return c.p.implsOf(cc)
	}
	if f := cc.StaticCallee(); f != nil {
		f = c.p.unwrap(f)
		if f.Blocks != nil && c.p.owns(f) {
			return []*ssa.Function{f}
		}
		return nil
	}
	r := c.resolve(BV{cc.Value, fr})
	switch x := r.v.(type) {
	case *ssa.MakeClosure:
		if f, ok := x.Fn.(*ssa.Function); ok && f.Blocks != nil && c.p.owns(f) {
			return []*ssa.Function{f}
		}
	case *ssa.Function:
		if x.Blocks != nil && c.p.owns(x) {
			return []*ssa.Function{x}
		}
	}
	return nil
}

// allocStores lists the stores into a local variable, or ok=false when its address escapes in a way
// that hides stores (anything except loads, stores, field/index addressing and capture).
func allocStores(a *ssa.Alloc) (whole []*ssa.Store, fields map[int][]*ssa.Store) {
	fields = map[int][]*ssa.Store{}
	var visitAddr func(v ssa.Value, field int, seen map[ssa.Value]bool)
	visitAddr = func(v ssa.Value, field int, seen map[ssa.Value]bool) {
		if seen[v] {
			return
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					if field < 0 {
						whole = append(whole, x)
					} else {
						fields[field] = append(fields[field], x)
					}
				}
			case *ssa.FieldAddr:
				if x.X == v && field < 0 {
					visitAddr(x, x.Field, seen)
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && i < len(fn.FreeVars) {
						visitAddr(fn.FreeVars[i], field, seen)
					}
				}
			}
		}
	}
	visitAddr(a, -1, map[ssa.Value]bool{})
	return
}

// wrapOf recognises constructors of writers that forward to another writer.
func wrapOf(call *ssa.Call) (int, bool) {
	switch fullCallee(&call.Call) {
	case "compress/zlib.NewWriter", "compress/zlib.NewWriterLevel", "bufio.NewWriter", "bufio.NewWriterSize", "compress/flate.NewWriter", "io.MultiWriter":
		return 0, true
	}
	return 0, false
}

// resolve follows a value through parameters, captures, conversions and single-assignment variables
// to where it is made.
func (c *valCtx) resolve(b BV) BV {
	for n := 0; n < 200; n++ {
		switch x := b.v.(type) {
		case *ssa.Parameter:
			if b.fr == nil || b.fr.args == nil {
				return b
			}
			i := paramIndex(x)
			if i < 0 || i >= len(b.fr.args) || x.Parent() != b.fr.fn {
				return b
			}
			b = b.fr.args[i]
			continue
		case *ssa.FreeVar:
			if b.fr == nil {
				return b
			}
			i := freeIndex(x)
			if i < 0 || i >= len(b.fr.free) || x.Parent() != b.fr.fn {
				return b
			}
			b = b.fr.free[i]
			continue
		case *ssa.ChangeType:
			b.v = x.X
			continue
		case *ssa.ChangeInterface:
			b.v = x.X
			continue
		case *ssa.MakeInterface:
			b.v = x.X
			continue
		case *ssa.TypeAssert:
			if !x.CommaOk {
				r := c.resolve(BV{x.X, b.fr})
				if types.Identical(r.v.Type(), x.AssertedType) {
					b = r
					continue
				}
			}
			return b
		case *ssa.Phi:
			var same ssa.Value
			ok := true
			for _, e := range x.Edges {
				if e == x {
					continue
				}
				if same == nil {
					same = e
				} else if same != e {
					ok = false
				}
			}
			if ok && same != nil {
				b.v = same
				continue
			}
			return b
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return b
			}
			ad := c.resolve(BV{x.X, b.fr})
			switch a := ad.v.(type) {
			case *ssa.Alloc:
				whole, fields := allocStores(a)
				if len(whole) == 1 && len(fields) == 0 {
					b = BV{whole[0].Val, c.frameOfStore(ad.fr, whole[0])}
					continue
				}
			case *ssa.FieldAddr:
				base := c.resolve(BV{a.X, ad.fr})
				if al, ok := base.v.(*ssa.Alloc); ok {
					whole, fields := allocStores(al)
					fs := fields[a.Field]
					if len(whole) == 0 && len(fs) == 1 {
						b = BV{fs[0].Val, c.frameOfStore(base.fr, fs[0])}
						continue
					}
					if len(whole) == 1 && len(fs) == 0 {
						// copy of another struct variable
						src := c.resolve(BV{whole[0].Val, c.frameOfStore(base.fr, whole[0])})
						if r, ok := c.fieldOf(src, a.Field); ok {
							b = r
							continue
						}
					}
				}
			}
			return b
		case *ssa.Field:
			src := c.resolve(BV{x.X, b.fr})
			if r, ok := c.fieldOf(src, x.Field); ok {
				b = r
				continue
			}
			return b
		case *ssa.Extract:
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if r, ok := c.callResult(b.fr, call, x.Index); ok {
					b = r
					continue
				}
			}
			return b
		case *ssa.Call:
			if r, ok := c.callResult(b.fr, x, 0); ok {
				b = r
				continue
			}
			return b
		default:
			return b
		}
	}
	return b
}

// fieldOf resolves a field of a struct value that is a load of a local variable.
func (c *valCtx) fieldOf(src BV, field int) (BV, bool) {
	if ld, ok := src.v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		base := c.resolve(BV{ld.X, src.fr})
		if al, ok := base.v.(*ssa.Alloc); ok {
			whole, fields := allocStores(al)
			fs := fields[field]
			if len(whole) == 0 && len(fs) == 1 {
				return BV{fs[0].Val, c.frameOfStore(base.fr, fs[0])}, true
			}
			if len(whole) == 1 && len(fs) == 0 {
				s2 := c.resolve(BV{whole[0].Val, c.frameOfStore(base.fr, whole[0])})
				return c.fieldOf(s2, field)
			}
		}
	}
	return BV{}, false
}

// frameOfStore: a store found in a closure belongs to the closure's own context.
func (c *valCtx) frameOfStore(fr *Frame, st *ssa.Store) *Frame {
	if fr != nil && st.Parent() == fr.fn {
		return fr
	}
	return c.root(st.Parent())
}

// callResult resolves the i-th result of a call to an analysed function that has a single
// (non-error) value for it.
func (c *valCtx) callResult(fr *Frame, call *ssa.Call, i int) (BV, bool) {
	if fr == nil || fr.depth > 20 {
		return BV{}, false
	}
	cs := c.callees0(call)
	if cs == nil || cs == c.opaque || fr.inChain(cs) {
		return BV{}, false
	}
	rets := returnsOf(cs)
	var only ssa.Value
	for _, r := range rets {
		if i >= len(r.Results) {
			return BV{}, false
		}
		v := retVals(r)[i]
		if isNilConst(v) && len(rets) > 1 {
			// failure returns carry nil
			continue
		}
		if only != nil && only != v {
			return BV{}, false
		}
		only = v
	}
	if only == nil {
		return BV{}, false
	}
	switch only.(type) {
	case *ssa.Alloc, *ssa.Parameter, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.MakeClosure, *ssa.ChangeInterface, *ssa.ChangeType:
		return BV{only, c.enter(fr, call, cs)}, true
	case *ssa.UnOp, *ssa.FieldAddr, *ssa.Call, *ssa.Const, *ssa.BinOp, *ssa.Phi:
		if len(cs.Blocks) == 1 {
			return BV{only, c.enter(fr, call, cs)}, true
		}
	}
	return BV{}, false
}

// resolveList resolves a slice to the place that makes it, also through the function that returns it.
func (c *valCtx) resolveList(b BV) BV {
	for n := 0; n < 20; n++ {
		b = c.resolve(b)
		idx := 0
		v := b.v
		if ex, ok := v.(*ssa.Extract); ok {
			idx, v = ex.Index, ex.Tuple
		}
		call, ok := v.(*ssa.Call)
		if !ok || b.fr == nil || b.fr.depth > 20 {
			return b
		}
		cs := c.callees0(call)
		if cs == nil || b.fr.inChain(cs) {
			return b
		}
		var only ssa.Value
		rets := returnsOf(cs)
		for _, r := range rets {
			v := retVals(r)[idx]
			if isNilConst(v) && len(rets) > 1 {
				continue
			}
			if only != nil && only != v {
				return b
			}
			only = v
		}
		if only == nil {
			return b
		}
		b = BV{only, c.enter(b.fr, call, cs)}
	}
	return b
}

func (c *valCtx) callees0(call *ssa.Call) *ssa.Function {
	f := call.Call.StaticCallee()
	if f == nil {
		return nil
	}
	f = c.p.unwrap(f)
	if f.Blocks == nil || !c.p.owns(f) {
		return nil
	}
	return f
}

func returnsOf(fn *ssa.Function) []*ssa.Return {
	var out []*ssa.Return
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if fn.Recover != nil && b == fn.Recover {
				continue
			}
			out = append(out, r)
		}
	}
	return out
}

func paramIndex(p *ssa.Parameter) int {
	for i, q := range p.Parent().Params {
		if q == p {
			return i
		}
	}
	return -1
}

func freeIndex(v *ssa.FreeVar) int {
	for i, q := range v.Parent().FreeVars {
		if q == v {
			return i
		}
	}
	return -1
}

func (c *valCtx) same(a, b BV) bool {
	a, b = c.resolve(a), c.resolve(b)
	return a.v == b.v && (a.fr == b.fr || isGlobalish(a.v))
}

func isGlobalish(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Global, *ssa.Const, *ssa.Function:
		return true
	}
	return false
}

// id gives a canonical identity string for a value in context.
func (c *valCtx) id(b BV) string {
	b = c.resolve(b)
	if k, ok := b.v.(*ssa.Const); ok {
		return k.String()
	}
	fid := 0
	if b.fr != nil && !isGlobalish(b.v) {
		fid = b.fr.id
	}
	return fmt.Sprintf("%s#%d@%p", b.v.Name(), fid, b.v)
}

// isProtection reports whether t is the document protection type (the pointer type compared to nil
// to decide whether to encrypt). Found by shape: pointer to a struct declared in the root package
// that has a method returning []byte from an int (the object key).
func (p *Prog) isProtection(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	nt, ok := pt.Elem().(*types.Named)
	return ok && nt.Obj().Name() == "PDFProtection" && nt.Obj().Pkg() == p.Root.Pkg
}

// condKey gives a structural key for a pure condition, so that the same test evaluated twice is
// recognised. deps are the values whose redefinition invalidates what is known about it.
func (c *valCtx) condKey(b BV) (key string, deps []ssa.Value) {
	seen := 0
	var rec func(b BV) string
	rec = func(b BV) string {
		seen++
		if seen > 200 {
			return "?deep"
		}
		b = c.resolve(b)
		switch x := b.v.(type) {
		case *ssa.Const:
			return x.String()
		case *ssa.Parameter:
			return fmt.Sprintf("P%d/%s", b.fr.id, x.Name())
		case *ssa.Global:
			return "G" + x.Name()
		case *ssa.BinOp:
			if (x.Op == token.EQL || x.Op == token.NEQ) && (c.p.isProtection(x.X.Type()) || c.p.isProtection(x.Y.Type())) && (isNilConst(x.X) || isNilConst(x.Y)) {
				return "PROT" + x.Op.String() + "nil"
			}
			return "(" + rec(BV{x.X, b.fr}) + x.Op.String() + rec(BV{x.Y, b.fr}) + ")"
		case *ssa.UnOp:
			if x.Op == token.MUL {
				switch a := c.resolve(BV{x.X, b.fr}); av := a.v.(type) {
				case *ssa.FieldAddr:
					return "ld(" + rec(BV{av.X, a.fr}) + "." + fmt.Sprint(av.Field) + ")"
				case *ssa.Global:
					return "G" + av.Name()
				case *ssa.UnOp:
					return "ld*(" + rec(BV{av, a.fr}) + ")"
				}
				deps = append(deps, x)
				return c.id(b)
			}
			return x.Op.String() + rec(BV{x.X, b.fr})
		case *ssa.FieldAddr:
			return "&(" + rec(BV{x.X, b.fr}) + "." + fmt.Sprint(x.Field) + ")"
		case *ssa.Field:
			return "f(" + rec(BV{x.X, b.fr}) + "." + fmt.Sprint(x.Field) + ")"
		case *ssa.Convert:
			return "cv" + tname(x.Type()) + "(" + rec(BV{x.X, b.fr}) + ")"
		case *ssa.Call:
			full := fullCallee(&x.Call)
			if full == "builtin.len" || full == "strings.TrimSpace" {
				return full + "(" + rec(BV{x.Call.Args[0], b.fr}) + ")"
			}
			if f := c.callees0(x); f != nil && !isErrorType(x.Type()) && pureFn(c.p, f, 3) {
				s := "call:" + fname(f) + "("
				for _, a := range x.Call.Args {
					s += rec(BV{a, b.fr}) + ","
				}
				return s + ")"
			}
			// a call through a stored accessor function (getRoot()) is stable
			if !x.Call.IsInvoke() && x.Call.StaticCallee() == nil && len(x.Call.Args) == 0 {
				return "dyn:" + rec(BV{x.Call.Value, b.fr}) + "()"
			}
			deps = append(deps, x)
			return c.id(b)
		case *ssa.Alloc:
			return c.id(b)
		}
		deps = append(deps, b.v)
		return c.id(b)
	}
	key = rec(b)
	return
}

// pureFn: fn stores nothing and calls only pure functions (bounded depth).
func pureFn(p *Prog, fn *ssa.Function, depth int) bool {
	if depth < 0 || fn.Blocks == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.Alloc); !ok {
					if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
						if _, ok := fa.X.(*ssa.Alloc); ok {
							continue
						}
					}
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Panic:
				return false
			case *ssa.Call:
				full := fullCallee(&x.Call)
				switch {
				case strings.HasPrefix(full, "builtin."), strings.HasPrefix(full, "strings."), strings.HasPrefix(full, "math."), strings.HasPrefix(full, "unicode"), strings.HasPrefix(full, "(time.Time)"):
					if full == "builtin.append" || full == "builtin.copy" || full == "builtin.delete" {
						return false
					}
					continue
				}
				if x.Call.IsInvoke() {
					return false
				}
				if f := x.Call.StaticCallee(); f != nil {
					if !p.owns(f) || !pureFn(p, p.unwrap(f), depth-1) {
						return false
					}
				} else if len(x.Call.Args) > 0 {
					return false
				}
			}
		}
	}
	return true
}

// evalConst folds a value to a constant where possible. env supplies constants for values.
func (c *valCtx) evalConst(b BV, env func(BV) (constant.Value, bool), depth int) (constant.Value, bool) {
	if depth > 40 {
		return nil, false
	}
	if env != nil {
		if k, ok := env(b); ok {
			return k, true
		}
	}
	b = c.resolve(b)
	if env != nil {
		if k, ok := env(b); ok {
			return k, true
		}
	}
	switch x := b.v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nil, false
		}
		return x.Value, true
	case *ssa.Convert:
		k, ok := c.evalConst(BV{x.X, b.fr}, env, depth+1)
		if !ok {
			return nil, false
		}
		if isString(x.Type()) && k.Kind() == constant.Int {
			n, _ := constant.Int64Val(k)
			return constant.MakeString(string(rune(n))), true
		}
		if isFloat(x.Type()) {
			return constant.ToFloat(k), true
		}
		if isInteger(x.Type()) {
			if k.Kind() == constant.Float {
				f, _ := constant.Float64Val(k)
				return constant.MakeInt64(int64(f)), true
			}
			return k, true
		}
		return k, true
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT, token.SUB:
			if k, ok := c.evalConst(BV{x.X, b.fr}, env, depth+1); ok {
				return constant.UnaryOp(x.Op, k, 0), true
			}
		case token.MUL:
			ad := c.resolve(BV{x.X, b.fr})
			if fa, ok := ad.v.(*ssa.FieldAddr); ok {
				base := c.resolve(BV{fa.X, ad.fr})
				if al, ok := base.v.(*ssa.Alloc); ok && c.zeroField(BV{al, base.fr}, fa.Field, 0) {
					return zeroConst(x.Type())
				}
			}
		}
	case *ssa.BinOp:
		l, ok1 := c.evalConst(BV{x.X, b.fr}, env, depth+1)
		r, ok2 := c.evalConst(BV{x.Y, b.fr}, env, depth+1)
		if ok1 && ok2 {
			return foldBin(x.Op, l, r, x.X.Type())
		}
	case *ssa.Call:
		full := fullCallee(&x.Call)
		var as []constant.Value
		for _, a := range x.Call.Args {
			k, ok := c.evalConst(BV{a, b.fr}, env, depth+1)
			if !ok {
				return nil, false
			}
			as = append(as, k)
		}
		switch full {
		case "builtin.len":
			if as[0].Kind() == constant.String {
				return constant.MakeInt64(int64(len(constant.StringVal(as[0])))), true
			}
		case "strings.TrimSpace":
			return constant.MakeString(strings.TrimSpace(constant.StringVal(as[0]))), true
		case "strings.ContainsRune":
			n, _ := constant.Int64Val(as[1])
			return constant.MakeBool(strings.ContainsRune(constant.StringVal(as[0]), rune(n))), true
		case "strings.IndexByte", "strings.IndexRune":
			n, _ := constant.Int64Val(as[1])
			return constant.MakeInt64(int64(strings.IndexRune(constant.StringVal(as[0]), rune(n)))), true
		case "strings.Contains":
			return constant.MakeBool(strings.Contains(constant.StringVal(as[0]), constant.StringVal(as[1]))), true
		}
		if f := c.callees0(x); f != nil && b.fr != nil && !b.fr.inChain(f) {
			return c.foldCall(c.enter(b.fr, x, f), env, depth+1)
		}
	}
	return nil, false
}

// zeroField: the field of the local struct variable is never set, so it has its zero value.
func (c *valCtx) zeroField(b BV, field, depth int) bool {
	al, ok := b.v.(*ssa.Alloc)
	if !ok || depth > 5 {
		return false
	}
	whole, fields := allocStores(al)
	if len(fields[field]) != 0 || addrLeaks(al) || calleeStores(al, field) {
		return false
	}
	for _, w := range whole {
		fr := c.frameOfStore(b.fr, w)
		v := c.resolve(BV{w.Val, fr})
		switch x := v.v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				continue
			}
		case *ssa.UnOp:
			if x.Op == token.MUL && c.zeroField(c.resolve(BV{x.X, v.fr}), field, depth+1) {
				continue
			}
		}
		return false
	}
	return true
}

// foldCall folds a call to a side-effect-free function whose branch conditions fold.
func (c *valCtx) foldCall(fr *Frame, env func(BV) (constant.Value, bool), depth int) (constant.Value, bool) {
	if len(fr.fn.Blocks) == 0 || !pureFn(c.p, fr.fn, 2) {
		return nil, false
	}
	blk := fr.fn.Blocks[0]
	var prev *ssa.BasicBlock
	phis := map[ssa.Value]constant.Value{}
	e2 := func(b BV) (constant.Value, bool) {
		if b.fr == fr {
			if k, ok := phis[b.v]; ok {
				return k, true
			}
		}
		if env != nil {
			return env(b)
		}
		return nil, false
	}
	for steps := 0; steps < 200; steps++ {
		nphi := map[ssa.Value]constant.Value{}
		for _, ins := range blk.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range blk.Preds {
				if p == prev {
					if k, ok := c.evalConst(BV{phi.Edges[i], fr}, e2, depth+1); ok {
						nphi[phi] = k
					}
				}
			}
		}
		for k, v := range nphi {
			phis[k] = v
		}
		switch t := blk.Instrs[len(blk.Instrs)-1].(type) {
		case *ssa.Return:
			if len(t.Results) == 0 {
				return nil, false
			}
			return c.evalConst(BV{t.Results[0], fr}, e2, depth+1)
		case *ssa.Jump:
			prev, blk = blk, blk.Succs[0]
		case *ssa.If:
			k, ok := c.evalConst(BV{t.Cond, fr}, e2, depth+1)
			if !ok || k.Kind() != constant.Bool {
				return nil, false
			}
			prev = blk
			if constant.BoolVal(k) {
				blk = blk.Succs[0]
			} else {
				blk = blk.Succs[1]
			}
		default:
			return nil, false
		}
	}
	return nil, false
}

func foldBin(op token.Token, l, r constant.Value, t types.Type) (res constant.Value, ok bool) {
	defer func() {
		if recover() != nil {
			res, ok = nil, false
		}
	}()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return constant.MakeBool(constant.Compare(l, op, r)), true
	case token.SHL, token.SHR:
		n, _ := constant.Uint64Val(r)
		return constant.Shift(l, op, uint(n)), true
	case token.QUO:
		if isInteger(t) {
			if constant.Sign(r) == 0 {
				return nil, false
			}
			return constant.BinaryOp(l, token.QUO_ASSIGN, r), true
		}
	}
	return constant.BinaryOp(l, op, r), true
}

func zeroConst(t types.Type) (constant.Value, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.MakeBool(false), true
	case b.Info()&types.IsInteger != 0:
		return constant.MakeInt64(0), true
	case b.Info()&types.IsFloat != 0:
		return constant.MakeFloat64(0), true
	case b.Info()&types.IsString != 0:
		return constant.MakeString(""), true
	}
	return nil, false
}

// addrLeaks: the variable's address is stored, returned or put in an interface (so stores through
// aliases could be missed). Passing it as a call argument/receiver is not counted here.
func addrLeaks(a *ssa.Alloc) bool {
	refs := a.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == a {
				return true
			}
		case *ssa.MakeInterface, *ssa.Return, *ssa.Phi, *ssa.MapUpdate, *ssa.Send:
			return true
		}
	}
	return false
}

// calleeStores: a function that gets the variable's address stores to the given field through it.
func calleeStores(a *ssa.Alloc, field int) bool {
	refs := a.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		call, ok := r.(ssa.CallInstruction)
		if !ok {
			continue
		}
		f := call.Common().StaticCallee()
		if f == nil {
			return true
		}
		for i, arg := range call.Common().Args {
			if arg != a || i >= len(f.Params) {
				continue
			}
			if f.Params[i].Referrers() == nil {
				continue
			}
			for _, u := range *f.Params[i].Referrers() {
				if fa, ok := u.(*ssa.FieldAddr); ok && fa.Field == field && fa.Referrers() != nil {
					for _, w := range *fa.Referrers() {
						if st, ok := w.(*ssa.Store); ok && st.Addr == fa {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// retVals gives the values a return statement returns, looking through the result slots that
// functions with deferred calls use.
func retVals(r *ssa.Return) []ssa.Value {
	out := make([]ssa.Value, len(r.Results))
	for i, v := range r.Results {
		out[i] = slotValue(v)
	}
	return out
}

// slotValue: for a load of a local variable that is assigned right before (same block or a chain of
// single predecessors), the assigned value.
func slotValue(v ssa.Value) ssa.Value {
	ld, ok := v.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL {
		return v
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return v
	}
	captured := false
	for _, r := range *al.Referrers() {
		switch r.(type) {
		case *ssa.Store, *ssa.UnOp:
		default:
			captured = true
		}
	}
	blk := ld.Block()
	from := len(blk.Instrs) - 1
	for i, ins := range blk.Instrs {
		if ins == ld {
			from = i
		}
	}
	for n := 0; n < 50; n++ {
		for i := from; i >= 0; i-- {
			if st, ok := blk.Instrs[i].(*ssa.Store); ok && st.Addr == al {
				return st.Val
			}
			if captured {
				switch blk.Instrs[i].(type) {
				case *ssa.Call, *ssa.RunDefers:
					return v
				}
			}
		}
		if len(blk.Preds) != 1 {
			return v
		}
		blk = blk.Preds[0]
		from = len(blk.Instrs) - 1
	}
	return v
}
