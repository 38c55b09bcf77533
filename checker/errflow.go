package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// errFlow follows every error value from the call that returns it to the returns of the function.
//
// An obligation is a value (or a local variable) that, if it is not nil, must be reported. It is
// discharged where a branch shows it to be nil, where it is compared with one expected error, where it
// is handed to a call that takes errors, stored in a structure, or returned. An obligation that is open
// at a return whose result may be nil is a lost error.
type errFlow struct {
	noReport, isTaken map[*ssa.Function]bool
	p                 *Prog
	res               *Result
	never             map[*ssa.Function]int // 1 computing/assumed, 2 never fails, 3 may fail
	sinks             map[ssa.Value]int     // 1 assumed, 2 accepts everything, 3 may fail
	calls             int                   // calls with an error result
	exc               map[string]int        // discarded errors accepted, by reason
	rets              int
	// onCall, if set, sees every call with the errors open before it
	onCall func(c ssa.CallInstruction, st oblig)
	// stickies: types of writer that remember their first error, with the field that holds it
	stickies map[string]int
}

func newErrFlow(p *Prog, res *Result) *errFlow {
	return &errFlow{p: p, res: res, never: map[*ssa.Function]int{}, sinks: map[ssa.Value]int{}, exc: map[string]int{}, stickies: map[string]int{}}
}

func errIndex(s *types.Signature) int {
	for i := s.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(s.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// errValue: the value that carries the error of a call, nil if nobody looks at it.
func errValue(c ssa.CallInstruction) (v ssa.Value, has bool) {
	i := errIndex(c.Common().Signature())
	if i < 0 {
		return nil, false
	}
	call, ok := c.(*ssa.Call)
	if !ok {
		return nil, true
	}
	if c.Common().Signature().Results().Len() == 1 {
		if used(call) {
			return call, true
		}
		return nil, true
	}
	for _, r := range *call.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == i && used(ex) {
			return ex, true
		}
		if _, ok := r.(*ssa.Return); ok {
			return call, true // return f()
		}
	}
	return nil, true
}

func used(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

// ----- what cannot fail

// neverFails: the function returns a nil error on every path.
func (ef *errFlow) neverFails(fn *ssa.Function) bool {
	switch ef.never[fn] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	ef.never[fn] = 1
	ok := fn.Blocks != nil && ef.p.owns(fn)
	if ok {
		i := errIndex(fn.Signature)
		for _, r := range returnsOf(fn) {
			vs := retVals(r)
			if i >= len(vs) || !ef.nilError(vs[i], map[ssa.Value]bool{}) {
				ok = false
			}
		}
	}
	if ok {
		ef.never[fn] = 2
	} else {
		ef.never[fn] = 3
		// results computed under the assumption are dropped
		for f, v := range ef.never {
			if v == 2 {
				delete(ef.never, f)
			}
		}
	}
	return ok
}

// nilError: the value is nil on every path.
func (ef *errFlow) nilError(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !ef.nilError(e, seen) && !nilOnEdge(e, x.Block().Preds[i], x.Block()) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return ef.cannotFail(c)
		}
	case *ssa.Call:
		return ef.cannotFail(x)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && !addrLeaks(al) {
			whole, _ := allocStores(al)
			for _, st := range whole {
				if !ef.nilError(st.Val, seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// nilOnEdge: the branch from pred to blk is only taken when v is nil.
func nilOnEdge(v ssa.Value, pred, blk *ssa.BasicBlock) bool {
	iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
	if !ok || pred.Succs[0] == pred.Succs[1] {
		return false
	}
	w, nilWhen, ok := nilTest(iff.Cond)
	return ok && w == v && (pred.Succs[0] == blk) == nilWhen
}

// nilTest: cond compares a value with nil; nilWhen is the outcome that shows it nil.
func nilTest(cond ssa.Value) (v ssa.Value, nilWhen bool, ok bool) {
	neg := false
	for {
		if u, isNot := cond.(*ssa.UnOp); isNot && u.Op == token.NOT {
			neg = !neg
			cond = u.X
			continue
		}
		break
	}
	b, isBin := cond.(*ssa.BinOp)
	if !isBin || b.Op != token.EQL && b.Op != token.NEQ {
		return nil, false, false
	}
	x, y := b.X, b.Y
	if isNilConst(x) {
		x, y = y, x
	}
	if !isNilConst(y) {
		return nil, false, false
	}
	return x, (b.Op == token.EQL) != neg, true
}

// cannotFail: this call always returns a nil error.
func (ef *errFlow) cannotFail(c ssa.CallInstruction) bool {
	cc := c.Common()
	full := fullCallee(cc)
	switch {
	case strings.HasPrefix(full, "(*bytes.Buffer).Write") && !strings.HasSuffix(full, "WriteTo"),
		strings.HasPrefix(full, "(*strings.Builder).Write"),
		strings.HasPrefix(full, "(*bytes.Buffer).Truncate"):
		return true
	case strings.HasSuffix(full, "math/rand.Read"), full == "(*math/rand.Rand).Read":
		return true
	case full == "(*bytes.Reader).Seek" || full == "(*strings.Reader).Seek":
		off, ok1 := constInt(cc.Args[1])
		wh, ok2 := constInt(cc.Args[2])
		return ok1 && ok2 && off >= 0 && wh >= 0 && wh <= 2
	case full == "crypto/rc4.NewCipher":
		n, ok := ef.keyLen(cc.Args[0], 0)
		return ok && n >= 1 && n <= 256
	case full == "io.WriteString", strings.HasPrefix(full, "fmt.Fprint"), full == "encoding/binary.Write":
		return ef.sink(cc.Args[0])
	case full == "(*bytes.Buffer).WriteTo", full == "(*bytes.Reader).WriteTo", full == "(*strings.Reader).WriteTo":
		return ef.sink(cc.Args[1])
	case strings.HasPrefix(full, "(*compress/zlib.Writer)."), strings.HasPrefix(full, "(*compress/flate.Writer)."):
		return ef.sink(cc.Args[0])
	case strings.HasPrefix(full, "(*bufio.Writer)."):
		return ef.sink(cc.Args[0])
	case cc.IsInvoke() && cc.Method.Name() == "Write":
		return ef.sink(cc.Value)
	}
	if cc.IsInvoke() {
		if cc.Method.Name() == "Seek" {
			return false
		}
		impls := ef.p.implsOf(cc)
		if len(impls) == 0 || cc.Method.Pkg() == nil || !ef.p.inPkg[cc.Method.Pkg()] {
			return false
		}
		for _, f := range impls {
			if !ef.neverFails(f) {
				return false
			}
		}
		return true
	}
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	if f.Synthetic != "" && f.Blocks != nil {
		if u := ef.p.unwrap(f); u != nil {
			f = u
		} else {
			// promoted method of the standard library
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if in, ok := ins.(*ssa.Call); ok && strings.HasPrefix(fullCallee(&in.Call), "(*bytes.Buffer).Write") {
						return true
					}
				}
			}
		}
	}
	if ef.neverFailsEnv(f, ef.nilFacts(cc, nilEnv{}), 0) {
		return true
	}
	// the only failures a callee forwards may be those of a writer that accepts everything here
	if ef.onlyWriterErrors(f) {
		ok := true
		for i, prm := range f.Params {
			if isWriterType(prm.Type()) && i < len(cc.Args) && !ef.sink(cc.Args[i]) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return ef.neverFails(f)
}

// nilEnv: what is known to be nil on entry of a function: parameters ("0"), and fields of struct
// parameters ("0.3").
type nilEnv map[string]bool

// nilFacts gives the environment a call creates for its callee.
func (ef *errFlow) nilFacts(cc *ssa.CallCommon, env nilEnv) nilEnv {
	out := nilEnv{}
	for i, a := range cc.Args {
		if ef.isNil(a, env) {
			out[fmt.Sprint(i)] = true
		}
		st := structOf(a.Type())
		if _, isPtr := a.Type().Underlying().(*types.Pointer); isPtr || st == nil {
			continue
		}
		ld, ok := a.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			continue
		}
		al, ok := ld.X.(*ssa.Alloc)
		if !ok {
			continue
		}
		for k := 0; k < st.NumFields(); k++ {
			if ef.nilField(al, k, env) {
				out[fmt.Sprintf("%d.%d", i, k)] = true
			}
		}
	}
	return out
}

// nilField: the field of the local structure is nil whenever it is read.
func (ef *errFlow) nilField(al *ssa.Alloc, k int, env nilEnv) bool {
	switch structOf(al.Type()).Field(k).Type().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Map, *types.Slice, *types.Signature:
	default:
		return false
	}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return false
			}
			switch v := x.Val.(type) {
			case *ssa.Const:
			case *ssa.Parameter:
				if !env[fmt.Sprintf("%d.%d", paramIndex(v), k)] {
					return false
				}
			default:
				return false
			}
		case *ssa.FieldAddr:
			if x.Field != k {
				continue
			}
			for _, u := range *x.Referrers() {
				switch y := u.(type) {
				case *ssa.Store:
					if y.Addr != ssa.Value(x) || !ef.isNil(y.Val, env) {
						return false
					}
				case *ssa.UnOp:
				default:
					return false
				}
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func (ef *errFlow) isNil(v ssa.Value, env nilEnv) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.Parameter:
		return env[fmt.Sprint(paramIndex(x))]
	case *ssa.Field:
		if pr, ok := x.X.(*ssa.Parameter); ok {
			return env[fmt.Sprintf("%d.%d", paramIndex(pr), x.Field)]
		}
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				return ef.nilField(al, fa.Field, env)
			}
		}
	}
	return false
}

// neverFailsEnv: the function returns no error when what env lists is nil on entry.
func (ef *errFlow) neverFailsEnv(f *ssa.Function, env nilEnv, depth int) bool {
	if f.Blocks == nil || !ef.p.owns(f) || len(env) == 0 || depth > 5 {
		return false
	}
	reach := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			v, nilWhen, ok := nilTest(iff.Cond)
			if !ok {
				nilWhen = false
			}
			isNil := ok && ef.isNil(v, env)
			if !isNil && ok && isErrorType(v.Type()) && ef.nilErrorEnv(v, env, depth+1) {
				isNil = true
			}
			if isNil {
				if nilWhen {
					rec(b.Succs[0])
				} else {
					rec(b.Succs[1])
				}
				return
			}
		}
		for _, s := range b.Succs {
			rec(s)
		}
	}
	rec(f.Blocks[0])
	i := errIndex(f.Signature)
	for _, r := range returnsOf(f) {
		if !reach[r.Block()] {
			continue
		}
		v := retVals(r)[i]
		if ph, ok := v.(*ssa.Phi); ok {
			for k, e := range ph.Edges {
				if reach[ph.Block().Preds[k]] && !ef.nilErrorEnv(e, env, depth+1) {
					return false
				}
			}
			continue
		}
		if !ef.nilErrorEnv(v, env, depth+1) {
			return false
		}
	}
	return true
}

func (ef *errFlow) nilErrorEnv(v ssa.Value, env nilEnv, depth int) bool {
	if ef.nilError(v, map[ssa.Value]bool{}) {
		return true
	}
	if ex, ok := v.(*ssa.Extract); ok {
		v = ex.Tuple
	}
	if c, ok := v.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil {
			return ef.neverFailsEnv(f, ef.nilFacts(&c.Call, env), depth)
		}
	}
	return false
}

// byDesign lists errors that are answered by a documented substitution and not reported.
var byDesign = map[string]bool{"ErrGlyphNotFound": true}

// onlyByDesign: every error the function can return is one of those.
func (ef *errFlow) onlyByDesign(f *ssa.Function, depth int) bool {
	if f == nil || f.Blocks == nil || !ef.p.owns(f) || depth > 5 {
		return false
	}
	i := errIndex(f.Signature)
	var ok func(v ssa.Value, d int) bool
	ok = func(v ssa.Value, d int) bool {
		if d > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.UnOp:
			g, isG := x.X.(*ssa.Global)
			return isG && byDesign[g.Name()]
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v && !ok(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			return ok(x.Tuple, d)
		case *ssa.Call:
			return ef.onlyByDesign(x.Call.StaticCallee(), depth+1)
		}
		return false
	}
	for _, r := range returnsOf(f) {
		if !ok(retVals(r)[i], 0) {
			return false
		}
	}
	return true
}

// keyLen: the slice has this constant length.
func (ef *errFlow) keyLen(v ssa.Value, depth int) (int64, bool) {
	if depth > 6 {
		return 0, false
	}
	switch x := v.(type) {
	case *ssa.Slice:
		lo, okL := int64(0), true
		if x.Low != nil {
			lo, okL = constInt(x.Low)
		}
		if x.High != nil {
			hi, ok := constInt(x.High)
			return hi - lo, ok && okL
		}
		if a, ok := deref(x.X.Type()).Underlying().(*types.Array); ok {
			return a.Len() - lo, okL
		}
	case *ssa.MakeSlice:
		return constInt(x.Len)
	case *ssa.UnOp:
		if _, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			if st := ef.p.storedBefore(newValCtx(ef.p), x); st != nil {
				return ef.keyLen(st.Val, depth+1)
			}
		}
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil && ef.p.owns(f) {
			n := int64(-1)
			for _, r := range returnsOf(f) {
				m, ok := ef.keyLen(retVals(r)[0], depth+1)
				if !ok || n >= 0 && m != n {
					return 0, false
				}
				n = m
			}
			return n, n >= 0
		}
	}
	return 0, false
}

func isWriterType(t types.Type) bool { return t.String() == "io.Writer" }

// onlyWriterErrors: the errors of the function are exactly those of writing to its writer parameters.
func (ef *errFlow) onlyWriterErrors(f *ssa.Function) bool {
	if f.Blocks == nil || !ef.p.owns(f) {
		return false
	}
	has := false
	for _, prm := range f.Params {
		has = has || isWriterType(prm.Type())
	}
	i := errIndex(f.Signature)
	if !has || i < 0 {
		return false
	}
	var ok func(v ssa.Value, depth int) bool
	ok = func(v ssa.Value, depth int) bool {
		if depth > 6 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const:
			return x.IsNil()
		case *ssa.Phi:
			for _, e := range x.Edges {
				if e != v && !ok(e, depth+1) {
					return false
				}
			}
			return true
		case *ssa.Extract:
			return ok(x.Tuple, depth+1)
		case *ssa.Call:
			cc := &x.Call
			full := fullCallee(cc)
			if full == "io.WriteString" || strings.HasPrefix(full, "fmt.Fprint") {
				_, isP := cc.Args[0].(*ssa.Parameter)
				return isP
			}
			if cc.IsInvoke() && cc.Method.Name() == "Write" {
				_, isP := cc.Value.(*ssa.Parameter)
				return isP
			}
			if g := cc.StaticCallee(); g != nil && g != f && ef.onlyWriterErrors(g) {
				for k, prm := range g.Params {
					if isWriterType(prm.Type()) {
						if _, isP := cc.Args[k].(*ssa.Parameter); !isP {
							return false
						}
					}
				}
				return true
			}
		}
		return false
	}
	for _, r := range returnsOf(f) {
		if vs := retVals(r); i >= len(vs) || !ok(vs[i], 0) {
			return false
		}
	}
	return true
}

// sink: writing to this writer cannot fail unnoticed: it is a memory buffer, a compressor over one, a
// hash, or a writer that remembers its first error and is asked for it at the end.
func (ef *errFlow) sink(v ssa.Value) bool {
	switch ef.sinks[v] {
	case 1, 2:
		return true
	case 3:
		return false
	}
	ef.sinks[v] = 1
	ok := ef.sink1(v)
	if ok {
		ef.sinks[v] = 2
	} else {
		ef.sinks[v] = 3
		for k, s := range ef.sinks {
			if s == 2 {
				delete(ef.sinks, k)
			}
		}
	}
	return ok
}

func (ef *errFlow) sink1(v ssa.Value) bool {
	t := v.Type().String()
	switch strings.TrimPrefix(t, "*") {
	case "bytes.Buffer", "strings.Builder":
		return true
	case "hash.Hash", "hash.Hash32", "hash.Hash64", "crypto/md5.digest":
		return true
	}
	p := ef.p
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return ef.sink(x.X)
	case *ssa.ChangeInterface:
		return ef.sink(x.X)
	case *ssa.ChangeType:
		return ef.sink(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ef.sink(e) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return ef.wrapped(c)
		}
	case *ssa.Call:
		return ef.wrapped(x)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			switch a := x.X.(type) {
			case *ssa.Alloc:
				whole, _ := allocStores(a)
				for _, st := range whole {
					if !ef.sink(st.Val) {
						return false
					}
				}
				return len(whole) > 0
			case *ssa.FreeVar:
				if b := bindingOf(a); b != nil {
					if al, ok := b.(*ssa.Alloc); ok {
						whole, _ := allocStores(al)
						for _, st := range whole {
							if !ef.sink(st.Val) {
								return false
							}
						}
						return len(whole) > 0
					}
				}
			}
		}
	case *ssa.Parameter:
		fn := x.Parent()
		i := paramIndex(x)
		args := ef.argsOf(fn, i)
		if args == nil {
			return false
		}
		for _, a := range args {
			if !ef.sink(a) {
				return false
			}
		}
		return true
	}
	// an analysed type whose Write never fails, or that remembers the failure
	if n, ok := deref(v.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && p.inPkg[n.Obj().Pkg()] {
		if w := p.findMethod(types.NewPointer(n), n.Obj().Pkg(), "Write"); w != nil {
			if u := p.unwrap(w); u != nil {
				w = u
			}
			if w.Blocks != nil && p.owns(w) && ef.neverFails(w) {
				return true
			}
			if _, ok := ef.sticky(n); ok {
				return true
			}
		}
	}
	return false
}

// wrapped: the call gives a writer over another writer.
func (ef *errFlow) wrapped(c *ssa.Call) bool {
	full := fullCallee(&c.Call)
	switch {
	case strings.HasPrefix(full, "compress/zlib.NewWriter"), strings.HasPrefix(full, "compress/flate.NewWriter"),
		strings.HasPrefix(full, "bufio.NewWriter"):
		return ef.sink(c.Call.Args[0])
	case strings.HasPrefix(full, "crypto/md5."), strings.HasPrefix(full, "crypto/sha"):
		return true
	}
	if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil && ef.p.owns(f) {
		for _, r := range returnsOf(f) {
			vs := retVals(r)
			if len(vs) == 0 || !ef.sink(vs[0]) {
				return false
			}
		}
		return true
	}
	return false
}

// argsOf lists what is passed for parameter i of fn; nil if a caller is not known.
func (ef *errFlow) argsOf(fn *ssa.Function, i int) []ssa.Value {
	o := fn.Object()
	if o != nil && o.Exported() && !ef.internalRecv(fn) {
		return nil
	}
	var out []ssa.Value
	found := false
	for _, es := range ef.p.graph() {
		for _, e := range es {
			if e.callee != fn {
				continue
			}
			found = true
			cc := e.site.Common()
			args := cc.Args
			if cc.IsInvoke() {
				args = append([]ssa.Value{cc.Value}, cc.Args...)
			}
			if i >= len(args) {
				return nil
			}
			out = append(out, args[i])
		}
	}
	if !found {
		return []ssa.Value{}
	}
	return out
}

// internalRecv: the function is a method of an unexported type and so only called from the analysed packages.
func (ef *errFlow) internalRecv(fn *ssa.Function) bool {
	if r := fn.Signature.Recv(); r != nil {
		if n, ok := deref(r.Type()).(*types.Named); ok {
			return !n.Obj().Exported()
		}
	}
	return false
}

// sticky recognises a writer type whose Write stores the error of the write below in a field of the
// writer, and gives that field.
func (ef *errFlow) sticky(n *types.Named) (int, bool) {
	name := n.Obj().Name()
	if i, ok := ef.stickies[name]; ok {
		return i, i >= 0
	}
	ef.stickies[name] = -1
	w := ef.p.findMethod(types.NewPointer(n), n.Obj().Pkg(), "Write")
	if w == nil || w.Blocks == nil {
		return -1, false
	}
	for _, b := range w.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(*ssa.Call)
			if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Write" {
				continue
			}
			ev, _ := errValue(c)
			if ev == nil {
				return -1, false
			}
			for _, r := range *ev.Referrers() {
				st, ok := r.(*ssa.Store)
				if !ok || st.Val != ev {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if ok && fa.X == ssa.Value(w.Params[0]) && (st.Block() == c.Block() || stickyGuard(st, ev)) {
					ef.stickies[name] = fa.Field
				}
			}
		}
	}
	if i := ef.stickies[name]; i >= 0 {
		// nothing else may clear it
		for _, s := range ef.p.allStores()[fkey(n, i)] {
			if s.fn != w && !(isNilConst(s.val) && false) {
				ef.stickies[name] = -1
				return -1, false
			}
		}
		return i, true
	}
	return -1, false
}

func stickyGuard(st *ssa.Store, ev ssa.Value) bool {
	for _, f := range edgeFacts(st.Block()) {
		if v, nilWhen, ok := nilTest(f.cond); ok && v == ev && f.val != nilWhen {
			return true
		}
	}
	return false
}

// ----- obligations

type oblig map[ssa.Value]ssa.Instruction // value or local variable -> the call it came from

// definitelyErr: the value is an error that is not nil.
func (ef *errFlow) definitelyErr(v ssa.Value, at *ssa.BasicBlock, depth int) bool {
	if depth > 8 {
		return false
	}
	for _, f := range edgeFacts(at) {
		if w, nilWhen, ok := nilTest(f.cond); ok && w == v && f.val != nilWhen {
			return true
		}
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return !isNilConst(x.X)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return ef.errorVar(g)
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if e == v {
				continue
			}
			if !ef.definitelyErr(e, x.Block().Preds[i], depth+1) && !nonNilOnEdge(e, x.Block().Preds[i], x.Block()) {
				return false
			}
		}
		return true
	case *ssa.Call:
		full := fullCallee(&x.Call)
		switch full {
		case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
			return true
		}
		if strings.HasPrefix(full, "github.com/pkg/errors.W") {
			return ef.definitelyErr(x.Call.Args[0], at, depth+1)
		}
		if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil && ef.p.owns(f) {
			i := errIndex(f.Signature)
			for _, r := range returnsOf(f) {
				vs := retVals(r)
				if i < 0 || i >= len(vs) || !ef.definitelyErr(vs[i], r.Block(), depth+1) {
					return false
				}
			}
			return len(returnsOf(f)) > 0
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := c.Call.StaticCallee(); f != nil && f.Blocks != nil && ef.p.owns(f) {
				for _, r := range returnsOf(f) {
					vs := retVals(r)
					if x.Index >= len(vs) || !ef.definitelyErr(vs[x.Index], r.Block(), depth+1) {
						return false
					}
				}
				return len(returnsOf(f)) > 0
			}
		}
	}
	return false
}

func nonNilOnEdge(v ssa.Value, pred, blk *ssa.BasicBlock) bool {
	iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
	if !ok || pred.Succs[0] == pred.Succs[1] {
		return false
	}
	w, nilWhen, ok := nilTest(iff.Cond)
	return ok && w == v && (pred.Succs[0] == blk) != nilWhen
}

// errorVar: a package variable that always holds an error.
func (ef *errFlow) errorVar(g *ssa.Global) bool {
	if g.Pkg == nil || !ef.p.inPkg[g.Pkg.Pkg] {
		return isErrorType(deref(g.Type())) // io.EOF and the like
	}
	n := 0
	for _, f := range ef.p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					n++
					if !ef.definitelyErr(st.Val, b, 0) {
						return false
					}
				}
			}
		}
	}
	return n > 0
}

// cell: the local variable a value was loaded from.
func cell(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch a := u.X.(type) {
		case *ssa.Alloc:
			if isErrorType(deref(a.Type())) {
				return a
			}
		case *ssa.FreeVar:
			if isErrorType(deref(a.Type())) {
				return a
			}
		}
	}
	return v
}

type errLoss struct {
	rule, construct, msg string
	at                   ssa.Instruction
}

// function analyses one function and gives the errors it loses.
func (ef *errFlow) function(fn *ssa.Function) []errLoss {
	var out []errLoss
	seen := map[string]bool{}
	say := func(rule, construct string, at ssa.Instruction, msg string) {
		if k := rule + "|" + construct; !seen[k] {
			seen[k] = true
			out = append(out, errLoss{rule, construct, msg, at})
		}
	}
	ei := errIndex(fn.Signature)
	in := map[*ssa.BasicBlock]oblig{fn.Blocks[0]: {}}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	visits := map[*ssa.BasicBlock]int{}
	clone := func(o oblig) oblig {
		n := oblig{}
		for k, v := range o {
			n[k] = v
		}
		return n
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		if visits[b]++; visits[b] > 60 {
			say("undecided", "fixpoint", b.Instrs[0], "the error analysis of this function did not settle")
			break
		}
		st := clone(in[b])
		ef.block(fn, b, st, ei, say)
		iff, isIf := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		for si, nx := range b.Succs {
			ns := clone(st)
			if isIf {
				ef.branch(ns, iff.Cond, si == 0, fn, b)
			}
			// renaming at the join
			pi := -1
			for i, pr := range nx.Preds {
				if pr == b && (pi < 0 || b.Succs[0] != b.Succs[1]) {
					pi = i
				}
			}
			type move struct {
				ph  *ssa.Phi
				org ssa.Instruction
			}
			var moves []move
			var stale []*ssa.Phi
			for _, ins := range nx.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if !isErrorType(ph.Type()) || ph.Edges[pi] == ssa.Value(ph) {
					continue
				}
				if _, open := ns[ph]; open {
					stale = append(stale, ph)
				}
				if org, ok := ns[cell(ph.Edges[pi])]; ok {
					moves = append(moves, move{ph, org})
				}
			}
			for _, m := range moves {
				delete(ns, cell(m.ph.Edges[pi]))
			}
			for _, ph := range stale {
				// the variable gets another value while its error was not looked at
				if org, open := ns[ph]; open {
					if !ef.definitelyErr(ph.Edges[pi], b, 0) {
						say("overwritten", callLabelOf(org), org, "the error of "+callLabelOf(org)+" is overwritten in the next round of the loop before it was looked at")
					}
					delete(ns, ph)
				}
			}
			for _, m := range moves {
				ns[m.ph] = m.org
			}
			if in[nx] == nil {
				in[nx] = ns
				work = append(work, nx)
				continue
			}
			ch := false
			for k, v := range ns {
				if _, ok := in[nx][k]; !ok {
					in[nx][k] = v
					ch = true
				}
			}
			if ch {
				work = append(work, nx)
			}
		}
	}
	return out
}

// branch applies what a branch outcome shows about open obligations.
func (ef *errFlow) branch(st oblig, cond ssa.Value, val bool, fn *ssa.Function, b *ssa.BasicBlock) {
	for {
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			val = !val
			cond = u.X
			continue
		}
		break
	}
	if v, nilWhen, ok := nilTest(cond); ok {
		if val == nilWhen {
			delete(st, cell(v))
		} else if org, open := st[cell(v)]; open {
			// this error is there and must be reported: it stands for any other
			for k := range st {
				delete(st, k)
			}
			st[cell(v)] = org
		}
		return
	}
	// comparison with one expected error, or errors.Is: the error is dealt with where it matches
	if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) && isErrorType(bo.X.Type()) {
		if (bo.Op == token.EQL) == val {
			delete(st, cell(bo.X))
			delete(st, cell(bo.Y))
		}
		return
	}
	if bo, ok := cond.(*ssa.BinOp); ok && (bo.Op == token.EQL) == val && (bo.Op == token.EQL || bo.Op == token.NEQ) {
		// comparison of its text
		for _, o := range []ssa.Value{bo.X, bo.Y} {
			if c, ok := o.(*ssa.Call); ok && c.Call.IsInvoke() && c.Call.Method.Name() == "Error" {
				delete(st, cell(c.Call.Value))
			}
		}
		return
	}
	if c, ok := cond.(*ssa.Call); ok {
		if n := fullCallee(&c.Call); (n == "errors.Is" || n == "errors.As") && val {
			delete(st, cell(c.Call.Args[0]))
		}
	}
}

func callLabel(c ssa.CallInstruction) string {
	cc := c.Common()
	if cc.IsInvoke() {
		return shortType(cc.Value.Type()) + "." + cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Parent() != nil {
			return "function literal"
		}
		return fname(f)
	}
	return "function value"
}

func (ef *errFlow) block(fn *ssa.Function, b *ssa.BasicBlock, st oblig, ei int, say func(rule, construct string, at ssa.Instruction, msg string)) {
	p := ef.p
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case ssa.CallInstruction:
			cc := x.Common()
			full := fullCallee(cc)
			if ef.onCall != nil {
				ef.onCall(x, st)
			}
			// errors handed to the call
			wraps := ssa.Instruction(nil)
			for _, a := range cc.Args {
				for _, av := range errorArgs(a) {
					if org, ok := st[cell(av)]; ok {
						if full == "errors.Is" || full == "errors.As" {
							continue
						}
						delete(st, cell(av))
						wraps = org
					}
				}
			}
			ev, has := errValue(x)
			if !has {
				continue
			}
			if wraps != nil && ev != nil {
				st[ev] = wraps
				continue
			}
			ef.calls++
			if _, isGo := x.(*ssa.Go); isGo {
				say("dropped", callLabel(x), ins, "the error of "+callLabel(x)+", started in the background, goes nowhere")
				continue
			}
			if ev == nil {
				if why := ef.mayDrop(x); why != "" {
					ef.exc[why]++
					continue
				}
				if ei < 0 && ef.exportedNoError(fn) {
					ef.exc["the public call has no error result"]++
					continue
				}
				say("dropped", callLabel(x), ins, "the error of "+callLabel(x)+" is not looked at")
				continue
			}
			if c, ok := x.(*ssa.Call); ok && (ef.cannotFail(c) || ef.onlyByDesign(c.Call.StaticCallee(), 0)) {
				continue
			}
			if _, open := st[ev]; open {
				say("overwritten", callLabel(x), ins, "the error of "+callLabel(x)+" is overwritten in the next round of the loop before it was looked at")
			}
			st[ev] = ins
		case *ssa.Store:
			if !isErrorType(x.Val.Type()) {
				continue
			}
			var c ssa.Value
			switch a := x.Addr.(type) {
			case *ssa.Alloc:
				c = a
			case *ssa.FreeVar:
				c = a
			}
			if c != nil {
				if org, ok := st[c]; ok && cell(x.Val) != c {
					if !ef.definitelyErr(x.Val, b, 0) {
						say("overwritten", callLabelOf(org), org, "the error of "+callLabelOf(org)+" is overwritten at "+p.insPos(x)+" before it was looked at")
					}
					delete(st, c)
				}
			}
			if org, ok := st[cell(x.Val)]; ok {
				delete(st, cell(x.Val))
				if c != nil {
					st[c] = org
				}
			}
		case *ssa.Send:
			delete(st, cell(x.X))
		case *ssa.MakeInterface:
			if org, ok := st[cell(x.X)]; ok && isErrorType(x.Type()) {
				delete(st, cell(x.X))
				st[x] = org
			}
		case *ssa.ChangeInterface:
			if org, ok := st[cell(x.X)]; ok {
				if isErrorType(x.Type()) {
					delete(st, cell(x.X))
					st[x] = org
				}
			}
		case *ssa.Return:
			if b == fn.Recover {
				continue
			}
			ef.rets++
			open := map[ssa.Value]ssa.Instruction{}
			for k, v := range st {
				open[k] = v
			}
			var r ssa.Value
			if ei >= 0 {
				r = retVals(x)[ei]
				if len(x.Results) > ei {
					delete(open, cell(x.Results[ei]))
				}
				delete(open, r)
				delete(open, cell(r))
				if tail, ok := r.(*ssa.Extract); ok {
					delete(open, tail.Tuple)
				}
				if ef.definitelyErr(r, b, 0) {
					continue
				}
			}
			var orgs []ssa.Instruction
			for k, o := range open {
				if fv, ok := k.(*ssa.FreeVar); ok {
					_ = fv
					continue // a variable of the function around this one: judged there
				}
				orgs = append(orgs, o)
			}
			sort.Slice(orgs, func(i, j int) bool { return orgs[i].Pos() < orgs[j].Pos() })
			for _, o := range orgs {
				if ei < 0 && ef.exportedNoError(fn) {
					ef.exc["the public call has no error result"]++
					continue
				}
				say("lost", callLabelOf(o), o, "a failure of "+callLabelOf(o)+" here can end in the return at "+p.insPos(x)+" without an error")
			}
		}
	}
}

func callLabelOf(i ssa.Instruction) string {
	if c, ok := i.(ssa.CallInstruction); ok {
		return callLabel(c)
	}
	return "call"
}

// errorArgs: the error values inside an argument (itself, or elements of the variadic slice).
func errorArgs(a ssa.Value) []ssa.Value {
	var out []ssa.Value
	add := func(v ssa.Value) {
		for i := 0; i < 3; i++ {
			switch x := v.(type) {
			case *ssa.MakeInterface:
				v = x.X
				continue
			case *ssa.ChangeInterface:
				v = x.X
				continue
			}
			break
		}
		if isErrorType(v.Type()) {
			out = append(out, v)
		}
	}
	add(a)
	if sl, ok := a.(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, u := range *ia.Referrers() {
						if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
							add(s.Val)
						}
					}
				}
			}
		}
	}
	return out
}

// exportedNoError: a public call (or something only such calls use) that has no way to report.
func (ef *errFlow) exportedNoError(fn *ssa.Function) bool {
	if fn.Parent() != nil || errIndex(fn.Signature) >= 0 {
		return false
	}
	o := fn.Object()
	if o != nil && o.Exported() {
		return true
	}
	// only used by calls that cannot report either
	if ef.noReport == nil {
		ef.noReport = map[*ssa.Function]bool{}
		ef.isTaken = map[*ssa.Function]bool{}
		for _, t := range ef.p.takenFuncs() {
			ef.isTaken[t] = true
		}
	}
	if v, ok := ef.noReport[fn]; ok {
		return v
	}
	ef.noReport[fn] = true // recursion: decided by the other callers
	in := 0
	ok := !ef.isTaken[fn]
	for g, es := range ef.p.graph() {
		for _, e := range es {
			if e.callee == fn && g != fn {
				in++
				ok = ok && ef.exportedNoError(g)
			}
		}
	}
	ef.noReport[fn] = ok && in > 0
	return ef.noReport[fn]
}

// mayDrop: the reason why nobody needs to look at this error, "" if there is none.
func (ef *errFlow) mayDrop(c ssa.CallInstruction) string {
	cc := c.Common()
	full := fullCallee(cc)
	if ef.onlyByDesign(cc.StaticCallee(), 0) {
		return "a missing glyph is replaced by design"
	}
	if ef.cannotFail(c) {
		return "the call cannot fail (memory buffer, hash, or a writer that keeps the error)"
	}
	switch full {
	case "(*os.File).Close":
		if ef.readOnly(cc.Args[0], 0) {
			return "close of a file that was only read"
		}
	case "(*io.PipeWriter).Close", "(*io.PipeWriter).CloseWithError", "(*io.PipeReader).Close", "(*io.PipeReader).CloseWithError":
		return "documented to return nil"
	}
	if cc.IsInvoke() && cc.Method.Name() == "Close" && cc.Value.Type().String() == "io.ReadCloser" {
		return "close of a reader"
	}
	return ""
}

// readOnly: the file was opened for reading.
func (ef *errFlow) readOnly(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return fullCallee(&c.Call) == "os.Open"
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !ef.readOnly(e, depth+1) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			whole, _ := allocStores(al)
			for _, st := range whole {
				if !ef.readOnly(st.Val, depth+1) {
					return false
				}
			}
			return len(whole) > 0
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			if al, ok := bindingOf(fv).(*ssa.Alloc); ok {
				whole, _ := allocStores(al)
				for _, st := range whole {
					if !ef.readOnly(st.Val, depth+1) {
						return false
					}
				}
				return len(whole) > 0
			}
		}
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return ef.readOnly(b, depth+1)
		}
	case *ssa.Parameter:
		args := ef.argsOf(x.Parent(), paramIndex(x))
		for _, a := range args {
			if !ef.readOnly(a, depth+1) {
				return false
			}
		}
		return len(args) > 0
	}
	return false
}

type edgeFact struct {
	cond ssa.Value
	val  bool
}

// edgeFacts lists the branch outcomes that hold whenever the block runs.
func edgeFacts(b *ssa.BasicBlock) []edgeFact {
	var out []edgeFact
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		pr := d.Preds[0]
		iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok || pr.Succs[0] == pr.Succs[1] {
			continue
		}
		out = append(out, edgeFact{iff.Cond, pr.Succs[0] == d})
	}
	return out
}

// findMethod gives a method of a type, nil if it has none.
func (p *Prog) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	if sel := p.SSA.MethodSets.MethodSet(t).Lookup(pkg, name); sel != nil {
		return p.SSA.MethodValue(sel)
	}
	return nil
}
