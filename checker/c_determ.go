package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["O03"] = checkO03 }

func checkO03(p *Prog) *Result {
	res := newResult("order-dependence analysis of every loop over a map; reachability of clock, randomness and environment; dataflow of addresses into formatted text; effects of goroutines",
		"the third-party importer hands over the same objects each time",
		"the Go library's encoders and compressors give the same bytes for the same input")
	d := &determ{p: p, res: res}
	loops, calls, fmts, gos := 0, 0, 0, 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch y := ins.(type) {
				case *ssa.Next:
					rg, ok := y.Iter.(*ssa.Range)
					if !ok || y.IsString {
						continue
					}
					if _, isMap := rg.X.Type().Underlying().(*types.Map); isMap {
						loops++
						d.loop(fn, rg, y)
					}
				case *ssa.Go:
					gos++
					d.goroutine(fn, y)
				case *ssa.Convert:
					if isPointerLike(y.X.Type()) && isUintptr(y.Type()) {
						res.add("address", fname(fn), "address as number", p.insPos(y), "a memory address is turned into a number")
					}
				case *ssa.Select:
					if len(y.States) > 1 {
						res.add("select", fname(fn), "select", p.insPos(y), "which of several ready channels is taken is left to chance")
					}
				}
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				calls++
				full := fullCallee(ci.Common())
				if why := chance(full); why != "" && !strings.HasSuffix(full, ".init") && !d.ownRandom(fn, 0) {
					res.add("chance", fname(fn), full, p.insPos(ins), "%s gives %s: the document is no longer a function of the calls made", full, why)
				}
				if full == "(*sync.Map).Range" {
					d.syncRange(fn, ci)
				}
				if strings.HasPrefix(full, "fmt.") && !strings.HasPrefix(full, "fmt.Errorf") && strings.Contains(full, "rint") {
					fmts++
					d.format(fn, ci, full)
				}
			}
		}
	}
	res.Counts["loops over maps"] = loops
	res.Counts["formatting calls"] = fmts
	res.Counts["goroutines"] = gos
	res.floor("calls examined", calls, 1200)
	return res
}

type determ struct {
	p   *Prog
	res *Result
}

func isPointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func isUintptr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

// chance: functions whose result differs from run to run.
func chance(full string) string {
	switch full {
	case "time.Now", "time.Since", "time.Until":
		return "the time of the run"
	case "os.Getenv", "os.LookupEnv", "os.Environ", "os.Hostname", "os.Getpid", "os.Getppid", "os.Getwd", "os.Getuid", "os.Executable", "os.TempDir", "os.UserHomeDir", "os.Getegid", "os.UserCacheDir", "(time.Time).Local", "time.LoadLocation", "(io/fs.FileInfo).ModTime", "os.ExpandEnv", "syscall.Getenv":
		return "a property of the environment"
	case "runtime.NumGoroutine", "runtime.NumCPU", "runtime.GOMAXPROCS", "runtime.ReadMemStats", "runtime.Caller", "runtime.Stack", "os.CreateTemp", "io/ioutil.TempFile":
		return "a property of the process"
	case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer", "(reflect.Value).MapKeys", "(reflect.Value).MapRange":
		return "an address or an order left to chance"
	}
	if strings.HasPrefix(full, "math/rand") || strings.HasPrefix(full, "crypto/rand.") || strings.HasPrefix(full, "hash/maphash.") {
		return "random values"
	}
	if strings.HasPrefix(full, "(*math/rand") {
		return "random values"
	}
	return ""
}

// ownRandom: the function runs only when the caller supplied no password.
func (d *determ) ownRandom(fn *ssa.Function, depth int) bool {
	cs := d.p.staticCallers()[fn]
	if len(cs) == 0 || depth > 3 || fn.Object() != nil && fn.Object().Exported() {
		return false
	}
	for _, c := range cs {
		if !emptyPassword(c) && !d.ownRandom(c.Parent(), depth+1) {
			return false
		}
	}
	return true
}

// emptyPassword: the call runs only if a byte slice handed in is empty.
func emptyPassword(c ssa.Instruction) bool {
	busy := map[*ssa.BasicBlock]bool{}
	var empty func(b *ssa.BasicBlock) bool
	empty = func(b *ssa.BasicBlock) bool {
		if b == nil || busy[b] {
			return false
		}
		busy[b] = true
		all := len(b.Preds) > 0
		for _, p := range b.Preds {
			if !emptyEdge(p, b) && !empty(p) {
				all = false
			}
		}
		return all || empty(b.Idom())
	}
	return empty(c.Block())
}

func emptyEdge(from, to *ssa.BasicBlock) bool {
	if len(from.Instrs) == 0 {
		return false
	}
	iff, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If)
	if !ok || from.Succs[0] == from.Succs[1] {
		return false
	}
	taken := from.Succs[0] == to
	cond, neg := stripNot(iff.Cond)
	if neg {
		taken = !taken
	}
	bo, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	x, y, op := bo.X, bo.Y, bo.Op
	if _, ok := x.(*ssa.Const); ok {
		x, y, op = y, x, flip(op)
	}
	k, ok := y.(*ssa.Const)
	if !ok {
		return false
	}
	of := x
	isLen := false
	if cl, ok := x.(*ssa.Call); ok {
		if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			of = cl.Call.Args[0]
			isLen = true
		}
	}
	if !isBytes(of.Type()) && !isString(of.Type()) {
		return false
	}
	switch {
	case isLen:
		n := k.Int64()
		return taken && (op == token.EQL && n == 0 || op == token.LSS && n == 1 || op == token.LEQ && n == 0) || !taken && (op == token.NEQ && n == 0 || op == token.GTR && n == 0 || op == token.GEQ && n == 1)
	case k.IsNil() || k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "":
		return taken && op == token.EQL || !taken && op == token.NEQ
	}
	return false
}

// goroutine: what runs beside the caller must not write to the document.
func (d *determ) goroutine(fn *ssa.Function, g *ssa.Go) {
	p, e := d.p, d.p.effects()
	for _, f := range p.calleesAt(g, e.taken) {
		s := e.sum[f]
		if s == nil {
			continue
		}
		for _, k := range sortedWrites(s) {
			_, st := k.ins.(*ssa.Store)
			_, mu := k.ins.(*ssa.MapUpdate)
			if st || mu || s.writes[k] == "appended to" {
				d.res.add("goroutine", fname(fn), niceLoc(f, k.l), p.insPos(k.ins), "a goroutine changes %s: when that happens is left to scheduling", niceLoc(f, k.l))
			}
		}
	}
}

// syncRange: the callback of a sync.Map.
func (d *determ) syncRange(fn *ssa.Function, ci ssa.CallInstruction) {
	e := d.p.effects()
	var f *ssa.Function
	switch y := ci.Common().Args[1].(type) {
	case *ssa.MakeClosure:
		f = e.closureFn(y)
	case *ssa.Function:
		f = y
	}
	if f == nil || e.sum[f] == nil || len(e.sum[f].writes) > 0 {
		d.res.add("maporder", fname(fn), "sync.Map.Range", d.p.insPos(ci), "the entries of a map come in an order left to chance and the callback keeps something of them")
	}
}

// format: addresses in text.
func (d *determ) format(fn *ssa.Function, ci ssa.CallInstruction, full string) {
	cc := ci.Common()
	if len(cc.Args) == 0 {
		return
	}
	sl, ok := cc.Args[len(cc.Args)-1].(*ssa.Slice)
	var args []ssa.Value
	if ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
						args = append(args, st.Val)
					}
				}
			}
		}
	}
	for _, a := range cc.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
			d.res.add("address", fname(fn), full+" %p", d.p.insPos(ci), "an address is printed")
		}
	}
	for _, a := range args {
		mi, ok := a.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		if showsAddress(mi.X.Type(), 0) {
			d.res.add("address", fname(fn), full+" "+tname(mi.X.Type()), d.p.insPos(ci), "a value of type %s is printed: its text contains an address", tname(mi.X.Type()))
		}
	}
}

// showsAddress: the default text of a value has an address in it.
func showsAddress(t types.Type, depth int) bool {
	if depth > 5 {
		return false
	}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		switch ms.At(i).Obj().Name() {
		case "String", "Error", "Format":
			return false
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.Uintptr
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return showsAddress(u.Elem(), depth+1)
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if showsAddress(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Slice:
		return showsAddress(u.Elem(), depth+1)
	case *types.Array:
		return showsAddress(u.Elem(), depth+1)
	case *types.Map:
		return showsAddress(u.Elem(), depth+1) || showsAddress(u.Key(), depth+1)
	}
	return false
}

// ---------------------------------------------------------------- loops over maps

type mapLoop struct {
	d    *determ
	fn   *ssa.Function
	next *ssa.Next
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	key  map[ssa.Value]bool
	val  map[ssa.Value]bool
	m    ssa.Value
}

func (d *determ) natural(nx *ssa.Next) *mapLoop {
	rg, ok := nx.Iter.(*ssa.Range)
	if !ok || nx.IsString {
		return nil
	}
	fn := nx.Parent()
	l := &mapLoop{d: d, fn: fn, next: nx, head: nx.Block(), body: map[*ssa.BasicBlock]bool{}, key: map[ssa.Value]bool{}, val: map[ssa.Value]bool{}, m: rg.X}
	for _, b := range fn.Blocks {
		if b == l.head || l.head.Dominates(b) && reachesBlock(b, l.head) {
			l.body[b] = true
		}
	}
	for _, r := range *nx.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok {
			switch ex.Index {
			case 1:
				l.key[ex] = true
			case 2:
				l.val[ex] = true
			}
		}
	}
	return l
}

func (d *determ) loop(fn *ssa.Function, rg *ssa.Range, nx *ssa.Next) {
	l := d.natural(nx)
	d.res.sample("%s: loop over a map in %s", d.p.insPos(rg), fname(fn))
	l.effects()
	l.exits()
	l.carried()
}

func (l *mapLoop) bad(at ssa.Instruction, construct, format string, a ...interface{}) {
	l.d.res.add("maporder", fname(l.fn), construct, l.d.p.insPos(at), "in a loop over a map: "+format, a...)
}

func (l *mapLoop) in(v ssa.Value) bool {
	i, ok := v.(ssa.Instruction)
	return ok && l.body[i.Block()]
}

// isKey: the key of the round, perhaps converted.
func (l *mapLoop) isKey(v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Convert:
		return l.isKey(y.X)
	case *ssa.ChangeType:
		return l.isKey(y.X)
	case *ssa.MakeInterface:
		return l.isKey(y.X)
	case *ssa.UnOp:
		if al, ok := y.X.(*ssa.Alloc); ok && y.Op == token.MUL {
			whole, fields := allocStores(al)
			if len(whole) == 1 && len(fields) == 0 {
				return l.isKey(whole[0].Val)
			}
		}
	}
	return l.key[v]
}

// depends: the value differs between the rounds of the loop.
func (l *mapLoop) depends(v ssa.Value) bool {
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	return l.in(v) && !l.invariant(v, map[ssa.Value]bool{})
}

func (l *mapLoop) invariant(v ssa.Value, busy map[ssa.Value]bool) bool {
	i, ok := v.(ssa.Instruction)
	if !ok || !l.body[i.Block()] {
		return true
	}
	if busy[v] {
		return true
	}
	busy[v] = true
	switch y := v.(type) {
	case *ssa.Next, *ssa.Alloc:
		return false
	case *ssa.UnOp:
		if y.Op == token.MUL {
			// memory may change from round to round, unless nothing in the loop writes it
			if !l.invariant(y.X, busy) {
				return false
			}
			return !l.written(y.X)
		}
	case *ssa.Phi:
		if y.Block() == l.head {
			return false
		}
		// selected by the round
		for _, e := range y.Edges {
			if e != y.Edges[0] {
				return false
			}
		}
	case *ssa.Call:
		if _, isB := y.Call.Value.(*ssa.Builtin); !isB {
			if asksHolder(&y.Call) {
				break
			}
			f := y.Call.StaticCallee()
			if f == nil || f.Blocks == nil || !l.d.p.owns(f) || l.d.p.effects().sum[f] == nil || len(l.d.p.effects().sum[f].writes) > 0 {
				return false
			}
		}
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && !l.invariant(*op, busy) {
			return false
		}
	}
	return true
}

// written: something in the loop may store to the address's field or variable.
func (l *mapLoop) written(addr ssa.Value) bool {
	k := fieldOfAddr(addr, 0)
	for b := range l.body {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok {
				if st.Addr == addr || k != "" && fieldOfAddr(st.Addr, 0) == k {
					return true
				}
			}
		}
	}
	return false
}

// localOfRound: memory that is made anew in each round.
func (l *mapLoop) localOfRound(addr ssa.Value) bool {
	for {
		switch y := addr.(type) {
		case *ssa.FieldAddr:
			addr = y.X
			continue
		case *ssa.IndexAddr:
			addr = y.X
			continue
		case *ssa.Slice:
			addr = y.X
			continue
		}
		break
	}
	return l.in(addr) && l.freshHere(addr)
}

func (l *mapLoop) freshHere(v ssa.Value) bool {
	switch y := v.(type) {
	case *ssa.Alloc:
		// the variable of the loop itself lives on the stack frame: one per round in effect if nothing reads
		// it before it is stored in the round
		return true
	case *ssa.MakeSlice, *ssa.MakeMap:
		return true
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return l.in(y.Call.Args[0]) && l.freshHere(y.Call.Args[0])
		}
	}
	return false
}

// effects: what a round leaves behind in memory.
func (l *mapLoop) effects() {
	p, e := l.d.p, l.d.p.effects()
	x := e.full[l.fn]
	for _, b := range l.fn.Blocks {
		if !l.body[b] {
			continue
		}
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.Store:
				if l.localOfRound(y.Addr) || isVarOf(y.Addr, l.fn) && !l.readLater(y.Addr) {
					continue
				}
				if ia, ok := y.Addr.(*ssa.IndexAddr); ok && l.isKey(ia.Index) {
					continue
				}
				if !l.depends(y.Val) && !l.depends(addrRoot(y.Addr)) {
					continue // the same in every round
				}
				if l.commutes(y) || l.collects(y) {
					continue
				}
				l.bad(y, "store", "what is stored to %s depends on the order of the entries", addrText(y.Addr))
			case *ssa.MapUpdate:
				if l.localOfRound(y.Map) || l.isKey(y.Key) || !l.depends(y.Value) {
					continue
				}
				l.bad(y, "map update", "an entry is set under a key that several rounds may share; the last one wins")
			case *ssa.Send, *ssa.Go, *ssa.Defer:
				l.bad(ins, "effect", "an effect happens in the order of the entries")
			case *ssa.Call:
				if bi, ok := y.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "copy" && !l.localOfRound(y.Call.Args[0]) {
						l.bad(y, "copy", "data is copied in the order of the entries")
					}
					continue
				}
				if x == nil {
					continue
				}
				if asksHolder(&y.Call) {
					continue
				}
				if w := l.callWrites(x, y); w != "" {
					l.bad(y, "call "+calleeText(y.Common()), "%s", w)
				}
			}
		}
	}
	_ = p
}

func addrRoot(a ssa.Value) ssa.Value {
	switch y := a.(type) {
	case *ssa.FieldAddr:
		return addrRoot(y.X)
	case *ssa.IndexAddr:
		return y
	}
	return a
}

func addrText(a ssa.Value) string {
	if k := fieldOfAddr(a, 0); k != "" {
		return k
	}
	if al, ok := a.(*ssa.Alloc); ok && al.Comment != "" {
		return al.Comment
	}
	return a.Name()
}

func calleeText(cc *ssa.CallCommon) string {
	if f := cc.StaticCallee(); f != nil {
		return fname(f)
	}
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	return "function value"
}

func isVarOf(a ssa.Value, fn *ssa.Function) bool {
	al, ok := a.(*ssa.Alloc)
	return ok && al.Parent() == fn
}

// readLater: a variable is read after the last round, or in a round before it is set. What is read after
// leaving the loop early is looked at with the exits.
func (l *mapLoop) readLater(a ssa.Value) bool {
	al := a.(*ssa.Alloc)
	after := func(b *ssa.BasicBlock) bool {
		for _, s := range l.head.Succs {
			if !l.body[s] && (s == b || reachesBlock(s, b)) {
				return true
			}
		}
		return false
	}
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.Store:
			if y.Addr == ssa.Value(al) {
				continue
			}
		case *ssa.Phi:
			bad := false
			for i, e := range y.Edges {
				if e == ssa.Value(al) && (l.body[y.Block().Preds[i]] || after(y.Block().Preds[i])) {
					bad = true
				}
			}
			if bad {
				return true
			}
			continue
		}
		if !l.body[r.Block()] {
			if after(r.Block()) {
				return true
			}
			continue
		}
		// in the loop: some store of the same round comes first
		first := false
		for _, r2 := range *al.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(al) && l.body[st.Block()] && dominates(st, r) {
				first = true
			}
		}
		if !first {
			return true
		}
	}
	return false
}

// roundVar: a variable that holds something of the current round.
func (l *mapLoop) roundVar(v ssa.Value) bool {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == ssa.Value(al) && l.body[st.Block()] && l.depends(st.Val) {
			return true
		}
	}
	return false
}

// collects: an element is added to a slice that is sorted before it is used.
func (l *mapLoop) collects(st *ssa.Store) bool {
	if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
		return !l.in(ia.X) && l.dead(ia.X) && l.sorted(ia.X)
	}
	al, ok := st.Addr.(*ssa.Alloc)
	if !ok {
		return false
	}
	c, ok := st.Val.(*ssa.Call)
	if !ok {
		return false
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		return false
	}
	ld, ok := c.Call.Args[0].(*ssa.UnOp)
	return ok && ld.X == ssa.Value(al) && l.sorted(al)
}

// dead: the slice is made here and only written to in the loop.
func (l *mapLoop) dead(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.MakeSlice, *ssa.Alloc:
	case *ssa.Slice:
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		if !l.body[r.Block()] {
			continue
		}
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			return false
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); !ok || st.Addr != ssa.Value(ia) {
				return false
			}
		}
	}
	return true
}

// commutes: a variable in memory is counted up.
func (l *mapLoop) commutes(st *ssa.Store) bool {
	bo, ok := st.Val.(*ssa.BinOp)
	if !ok || !isInteger(bo.Type()) {
		return false
	}
	switch bo.Op {
	case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
	default:
		return false
	}
	for i, o := range []ssa.Value{bo.X, bo.Y} {
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, st.Addr) {
			other := []ssa.Value{bo.Y, bo.X}[i]
			return !l.readsAddr(other, st.Addr, 0)
		}
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && (sameAddr(x.X, y.X) || sameLoad(x.X, y.X))
}

func sameLoad(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && sameAddr(x.X, y.X)
}

func (l *mapLoop) readsAddr(v, addr ssa.Value, depth int) bool {
	if depth > 6 {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, addr) {
		return true
	}
	if i, ok := v.(ssa.Instruction); ok && l.body[i.Block()] {
		for _, op := range i.Operands(nil) {
			if *op != nil && l.readsAddr(*op, addr, depth+1) {
				return true
			}
		}
	}
	return false
}

// callWrites: the call writes to memory that outlives the round.
func (l *mapLoop) callWrites(x *fx, c *ssa.Call) string {
	e := x.e
	full := fullCallee(&c.Call)
	keep := func(m *loc) bool {
		if m.ext() {
			return true
		}
		site, _ := e.sites[m.root].(ssa.Instruction)
		return site == nil || site.Parent() == l.fn && !l.body[site.Block()]
	}
	found := ""
	for _, f := range e.p.calleesAt(c, e.taken) {
		s := e.sum[f]
		if s == nil {
			continue
		}
		for _, k := range sortedWrites(s) {
			// writes recorded in the caller's analysis with the callee's instruction
			for w := range x.writes {
				if w.ins == k.ins && keep(w.l) {
					if g := e.p.globalOf(w.l); g != nil && syncType(deref(g.Type())) != "" {
						continue
					}
					found = fmt.Sprintf("%s changes %s, in the order of the entries", fname(f), niceLoc(l.fn, w.l))
				}
			}
		}
	}
	if found != "" {
		return found
	}
	for w, how := range x.writes {
		if w.ins == ssa.Instruction(c) && keep(w.l) {
			return fmt.Sprintf("%s (%s), in the order of the entries", niceLoc(l.fn, w.l), how)
		}
	}
	if len(e.p.calleesAt(c, e.taken)) == 0 {
		switch methodName(full) {
		case "Write", "WriteString", "WriteByte", "WriteRune", "Fprintf", "Fprint", "Fprintln":
			for _, a := range c.Call.Args {
				if l.localOfRound(a) {
					return ""
				}
			}
			return full + " writes in the order of the entries"
		}
	}
	return ""
}

// exits: leaving the loop early with something of the current round.
func (l *mapLoop) exits() {
	for _, b := range l.fn.Blocks {
		if !l.body[b] || b == l.head {
			continue
		}
		for si, s := range b.Succs {
			if l.body[s] {
				continue
			}
			// what is taken out
			outs := l.taken(b, si, s)
			if len(outs) == 0 {
				continue
			}
			if l.uniqueMatch(b) || l.disjoint(b, s) || l.onePerValue(b) {
				continue
			}
			l.bad(b.Instrs[len(b.Instrs)-1], "first match", "the loop ends at the first entry that fits and what it leaves (%s) depends on which that is", outs[0])
		}
		// a return inside the loop body is a block outside the natural loop, so it is covered above
	}
}

// taken: values of the round used after leaving over the edge.
func (l *mapLoop) taken(from *ssa.BasicBlock, si int, to *ssa.BasicBlock) []string {
	var out []string
	note := func(v ssa.Value) {
		if (l.depends(v) || l.roundVar(v)) && !isErrorType(v.Type()) {
			out = append(out, valueText(v))
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if seen[b] || l.body[b] {
			return
		}
		seen[b] = true
		for _, ins := range b.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				for i, p := range b.Preds {
					if p == from || seen[p] {
						note(ph.Edges[i])
					}
				}
				continue
			}
			if r, ok := ins.(*ssa.Return); ok && failsReturn(r) {
				continue
			}
			for _, op := range ins.Operands(nil) {
				if *op != nil {
					note(*op)
				}
			}
		}
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(to)
	return out
}

// failing: the return hands back an error that is not nil.
func failsReturn(r *ssa.Return) bool {
	for _, v := range r.Results {
		if isErrorType(v.Type()) {
			if k, ok := v.(*ssa.Const); ok && k.IsNil() {
				return false
			}
			switch y := v.(type) {
			case *ssa.Call:
				f := fullCallee(&y.Call)
				return f == "errors.New" || f == "fmt.Errorf"
			case *ssa.MakeInterface:
				return true
			case *ssa.UnOp:
				_, g := y.X.(*ssa.Global)
				return g
			}
		}
	}
	return false
}

func valueText(v ssa.Value) string {
	if k, ok := v.(*ssa.UnOp); ok {
		return addrText(k.X)
	}
	return v.Name()
}

// uniqueMatch: the block is reached only if the key equals something fixed.
func (l *mapLoop) uniqueMatch(b *ssa.BasicBlock) bool {
	check := func(iff *ssa.If, taken bool) bool {
		cond, neg := stripNot(iff.Cond)
		if neg {
			taken = !taken
		}
		bo, ok := cond.(*ssa.BinOp)
		if !ok {
			return false
		}
		if !(bo.Op == token.EQL && taken || bo.Op == token.NEQ && !taken) {
			return false
		}
		return l.isKey(bo.X) && !l.depends(bo.Y) || l.isKey(bo.Y) && !l.depends(bo.X)
	}
	if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
		for i, s := range b.Succs {
			if !l.body[s] && check(iff, i == 0) {
				return true
			}
		}
	}
	for d := b; d != nil && l.body[d]; d = d.Idom() {
		id := d.Idom()
		if id == nil || !l.body[id] || len(d.Preds) != 1 {
			continue
		}
		if iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok && id.Succs[0] != id.Succs[1] && check(iff, id.Succs[0] == d) {
			return true
		}
	}
	return false
}

// asksHolder: a value the caller handed in is asked for something (without arguments): its answer is taken to
// be the same whenever it is asked.
func asksHolder(cc *ssa.CallCommon) bool {
	return cc.IsInvoke() && len(cc.Args) == 0 && cc.Signature().Results().Len() == 1 && isString(cc.Signature().Results().At(0).Type())
}

// onePerValue: the loop ends at the entry one field of which equals something fixed, and entries are only
// added to the table where it was searched for that field before.
func (l *mapLoop) onePerValue(b *ssa.BasicBlock) bool {
	return l.oneEntry(l.exitTests(b))
}

// oneEntry: at most one entry of the table passes the tests.
func (l *mapLoop) oneEntry(tests map[string]string) bool {
	eq := false
	for _, v := range tests {
		eq = eq || v == "="
	}
	if !eq {
		return false
	}
	table := ""
	if ld, ok := l.m.(*ssa.UnOp); ok {
		table = fieldOfAddr(ld.X, 0)
	}
	if table == "" {
		return false
	}
	ok, adds := true, 0
	for _, fn := range l.d.p.Funcs {
		for _, bl := range fn.Blocks {
			for _, ins := range bl.Instrs {
				mu, isMu := ins.(*ssa.MapUpdate)
				if !isMu || !types.Identical(mu.Map.Type(), l.m.Type()) {
					continue
				}
				adds++
				if !l.d.addedFirst(mu, mu.Value, table, tests, 0) {
					ok = false
				}
			}
		}
	}
	return ok && adds > 0
}

// addedFirst: the entry put into the table never passes the tests, or the table has been searched with them before.
func (d *determ) addedFirst(at ssa.Instruction, v ssa.Value, table string, tests map[string]string, depth int) bool {
	if neverPasses(v, tests) {
		return true
	}
	if ld, ok := v.(*ssa.UnOp); ok && ld.Op == token.MUL {
		if al, ok := ld.X.(*ssa.Alloc); ok {
			// A parameter that was put into a variable so that its fields can be read.
			if whole, fields := allocStores(al); len(whole) == 1 && len(fields) == 0 {
				v = whole[0].Val
			}
		}
	}
	if pr, ok := v.(*ssa.Parameter); ok && depth < 3 {
		cs := d.p.staticCallers()[at.Parent()]
		if i := paramIndex(pr); len(cs) > 0 {
			all := true
			for _, c := range cs {
				if i >= len(c.Common().Args) || !d.addedFirst(c, c.Common().Args[i], table, tests, depth+1) {
					all = false
				}
			}
			if all {
				return true
			}
		}
	}
	return d.searchedBefore(at, table, tests, 0)
}

// neverPasses: a field of the new entry is fixed to something the tests do not let through.
func neverPasses(v ssa.Value, tests map[string]string) bool {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	whole, fields := allocStores(al)
	if len(whole) > 0 {
		return false
	}
	s := structOf(al.Type())
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		want := tests[s.Field(i).Name()]
		if want != "true" && want != "false" {
			continue
		}
		have := "false"
		for _, st := range fields[i] {
			k, isK := st.Val.(*ssa.Const)
			if !isK || k.Value == nil {
				have = ""
				break
			}
			have = fmt.Sprint(constant.BoolVal(k.Value))
		}
		if len(fields[i]) > 1 {
			have = ""
		}
		if have != "" && have != want {
			return true
		}
	}
	return false
}

// searchedBefore: every way to the instruction goes through a search of the table.
func (d *determ) searchedBefore(at ssa.Instruction, table string, tests map[string]string, depth int) bool {
	fn := at.Parent()
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.Next:
				if dominates(y, at) && d.searches(y, table, tests) {
					return true
				}
			case *ssa.Call:
				g := y.Call.StaticCallee()
				if g == nil || !d.p.owns(g) || !dominates(y, at) {
					continue
				}
				for _, b2 := range g.Blocks {
					for _, i2 := range b2.Instrs {
						if nx, ok := i2.(*ssa.Next); ok && d.searches(nx, table, tests) {
							return true
						}
					}
				}
			}
		}
	}
	cs := d.p.staticCallers()[fn]
	if len(cs) == 0 || depth > 3 {
		return false
	}
	for _, c := range cs {
		if !d.searchedBefore(c, table, tests, depth+1) {
			return false
		}
	}
	return true
}

// searches: the loop looks for an entry of the table, and what it finds passes no more tests than these.
func (d *determ) searches(nx *ssa.Next, table string, tests map[string]string) bool {
	l := d.natural(nx)
	if l == nil {
		return false
	}
	ld, ok := l.m.(*ssa.UnOp)
	if !ok || fieldOfAddr(ld.X, 0) != table {
		return false
	}
	// what makes it stop (or note the entry) must be these tests and nothing else: then, when it found nothing,
	// no entry passes them
	found := false
	for _, b := range l.fn.Blocks {
		if !l.body[b] || b == l.head {
			continue
		}
		for _, s := range b.Succs {
			if l.body[s] && s != l.head {
				continue
			}
			if s == l.head && !l.notes(b) {
				continue
			}
			ts, exact := l.tests2(s, b)
			if s == l.head {
				ts, exact = l.tests2(b, nil)
			}
			if !exact || len(ts) == 0 {
				return false
			}
			for g := range ts {
				if tests[g] == "" {
					return false
				}
			}
			found = true
		}
	}
	return found
}

// notes: a value carried on is set on the way from the block to the next round.
func (l *mapLoop) notes(b *ssa.BasicBlock) bool {
	for _, ins := range l.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, p := range l.head.Preds {
			if p == b && ph.Edges[i] != ssa.Value(ph) {
				return true
			}
		}
	}
	return false
}

// exitTests: what holds of the entry when the loop is left from the block.
func (l *mapLoop) exitTests(b *ssa.BasicBlock) map[string]string {
	for _, s := range b.Succs {
		if !l.body[s] {
			return l.tests(s, b)
		}
	}
	return nil
}

// tests: fields of the entry that have been compared with something fixed on the way to the block
// (when it is reached from the block from, if given).
func (l *mapLoop) tests(b, from *ssa.BasicBlock) map[string]string {
	out, _ := l.tests2(b, from)
	return out
}

func (l *mapLoop) tests2(b, from *ssa.BasicBlock) (map[string]string, bool) {
	out := map[string]string{}
	exact := true
	note := func(id, to *ssa.BasicBlock) {
		if id == l.head {
			return
		}
		iff, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If)
		if !ok || id.Succs[0] == id.Succs[1] {
			return
		}
		cond, neg := stripNot(iff.Cond)
		if f := l.entryField(cond); f != "" {
			out[f] = fmt.Sprint((id.Succs[0] == to) != neg)
		} else if t, f := l.match(id); t == to && f != "" {
			out[f] = "="
		} else {
			exact = false
		}
	}
	if from != nil {
		note(from, b)
		b = from
	}
	for ; b != nil && l.body[b] && b != l.head; b = b.Idom() {
		if len(b.Preds) != 1 {
			exact = false
			continue
		}
		note(b.Preds[0], b)
	}
	return out, exact
}

// match: the block asks whether a field of the entry equals something fixed: where it goes if so.
func (l *mapLoop) match(b *ssa.BasicBlock) (*ssa.BasicBlock, string) {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return nil, ""
	}
	cond, neg := stripNot(iff.Cond)
	bo, ok := cond.(*ssa.BinOp)
	if !ok || bo.Op != token.EQL && bo.Op != token.NEQ {
		return nil, ""
	}
	to := b.Succs[0]
	if (bo.Op == token.EQL) == neg {
		to = b.Succs[1]
	}
	for i, o := range []ssa.Value{bo.X, bo.Y} {
		other := []ssa.Value{bo.Y, bo.X}[i]
		if f := l.entryField(o); f != "" && !l.depends(other) {
			return to, f
		}
	}
	return nil, ""
}

// entryField: the value is a field of the entry of this round.
func (l *mapLoop) entryField(v ssa.Value) string {
	switch y := v.(type) {
	case *ssa.Field:
		if l.isEntry(y.X) {
			return fieldName(y.X.Type(), y.Field)
		}
	case *ssa.UnOp:
		if fa, ok := y.X.(*ssa.FieldAddr); ok && y.Op == token.MUL {
			if al, ok := fa.X.(*ssa.Alloc); ok {
				whole, fields := allocStores(al)
				if len(whole) == 1 && len(fields) == 0 && l.isEntry(whole[0].Val) {
					return fieldName(fa.X.Type(), fa.Field)
				}
			}
			if l.isEntry(fa.X) {
				return fieldName(fa.X.Type(), fa.Field)
			}
		}
	}
	return ""
}

func (l *mapLoop) isEntry(v ssa.Value) bool {
	if l.val[v] {
		return true
	}
	if ex, ok := v.(*ssa.Extract); ok && ex.Index == 0 {
		v = ex.Tuple
	}
	lk, ok := v.(*ssa.Lookup)
	return ok && (lk.X == l.m || sameLoad(lk.X, l.m)) && l.isKey(lk.Index)
}

// carried: values handed from round to round and used afterwards.
func (l *mapLoop) carried() {
	for _, ins := range l.head.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			continue
		}
		usedOut := false
		for _, r := range *ph.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok && !l.body[r.Block()] {
				usedOut = true
			}
		}
		for i, e := range ph.Edges {
			if !l.body[l.head.Preds[i]] {
				continue
			}
			if why := l.accumulates(ph, e, map[ssa.Value]bool{}); why != "" {
				if l.largest(ph, e, l.head.Preds[i]) || l.oneEntry(l.tests(l.head.Preds[i], nil)) {
					continue
				}
				if why == "append" && (!usedOut || l.sorted(ph)) {
					continue
				}
				if why == "append" {
					why = "entries are collected in the order of the map and not sorted before they are used"
				}
				if !usedOut && !l.matters(ph) {
					continue
				}
				l.bad(ph, "carried "+ph.Comment, "%s", why)
			}
		}
	}
}

// matters: the carried value decides something in the loop.
func (l *mapLoop) matters(ph *ssa.Phi) bool {
	for _, r := range *ph.Referrers() {
		switch y := r.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			if y.Referrers() != nil {
				for _, r2 := range *y.Referrers() {
					if r2 != ssa.Instruction(ph) {
						return true
					}
				}
			}
		default:
			return true
		}
	}
	return false
}

// accumulates: how the value for the next round is made from the last; "" when the order is of no matter.
func (l *mapLoop) accumulates(ph *ssa.Phi, v ssa.Value, busy map[ssa.Value]bool) string {
	if v == ssa.Value(ph) || busy[v] {
		return ""
	}
	busy[v] = true
	if !l.depends(v) {
		// set to something fixed: fine if the start value and all settings are only this one or the old value
		return ""
	}
	switch y := v.(type) {
	case *ssa.Phi:
		if y.Block() == l.head {
			return l.accumulates(ph, ph, busy)
		}
		// chosen by a comparison with the old value: the largest or smallest
		if l.extreme(ph, y) {
			return ""
		}
		for i, e := range y.Edges {
			if why := l.accumulates(ph, e, busy); why != "" {
				if l.oneEntry(l.tests(y.Block().Preds[i], nil)) {
					continue
				}
				return why
			}
		}
		return ""
	case *ssa.BinOp:
		switch y.Op {
		case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
			if !isInteger(y.Type()) {
				return "a sum of numbers or texts is built in the order of the entries"
			}
			for i, o := range []ssa.Value{y.X, y.Y} {
				other := []ssa.Value{y.Y, y.X}[i]
				if l.isAcc(ph, o) && !l.from(other, ph, 0) {
					return ""
				}
			}
		}
	case *ssa.Call:
		if b, ok := y.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "append":
				if l.isAcc(ph, y.Call.Args[0]) {
					return "append"
				}
			case "max", "min":
				return ""
			}
		}
		if full := fullCallee(&y.Call); (full == "math.Max" || full == "math.Min") && (l.isAcc(ph, y.Call.Args[0]) || l.isAcc(ph, y.Call.Args[1])) {
			return ""
		}
	}
	return "the value left by the last round depends on the order of the entries"
}

func (l *mapLoop) isAcc(ph *ssa.Phi, v ssa.Value) bool {
	if v == ssa.Value(ph) {
		return true
	}
	if q, ok := v.(*ssa.Phi); ok && q != ph && l.body[q.Block()] && q.Block() != l.head {
		for _, e := range q.Edges {
			if !l.isAcc(ph, e) {
				if why := l.accumulates(ph, e, map[ssa.Value]bool{}); why != "" && why != "append" {
					return false
				}
			}
		}
		return true
	}
	if c, ok := v.(*ssa.Call); ok {
		if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return l.isAcc(ph, c.Call.Args[0])
		}
	}
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		return l.isAcc(ph, b.X) || l.isAcc(ph, b.Y)
	}
	return false
}

func (l *mapLoop) from(v ssa.Value, ph *ssa.Phi, depth int) bool {
	if v == ssa.Value(ph) {
		return true
	}
	i, ok := v.(ssa.Instruction)
	if !ok || !l.body[i.Block()] || depth > 8 {
		return false
	}
	for _, op := range i.Operands(nil) {
		if *op != nil && l.from(*op, ph, depth+1) {
			return true
		}
	}
	return false
}

// extreme: phi(old, x) where x replaces the old value only if it is larger (smaller).
func (l *mapLoop) extreme(ph, y *ssa.Phi) bool {
	var x ssa.Value
	for _, e := range y.Edges {
		if e == ssa.Value(ph) {
			continue
		}
		if x != nil && x != e {
			return false
		}
		x = e
	}
	if x == nil {
		return true
	}
	for i, e := range y.Edges {
		if e == x && !l.largest(ph, x, y.Block().Preds[i]) {
			return false
		}
	}
	return true
}

// largest: x takes the place of the old value only where it was compared with it.
func (l *mapLoop) largest(ph *ssa.Phi, x ssa.Value, pred *ssa.BasicBlock) bool {
	for d := pred; d != nil && l.body[d]; d = d.Idom() {
		iff, isIf := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !isIf {
			continue
		}
		cond, _ := stripNot(iff.Cond)
		if bo, isB := cond.(*ssa.BinOp); isB {
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if sameVal(bo.X, x) && bo.Y == ssa.Value(ph) || sameVal(bo.Y, x) && bo.X == ssa.Value(ph) {
					return true
				}
			}
		}
	}
	return false
}

func sameVal(a, b ssa.Value) bool { return a == b }

// sorted: after the loop the collected slice is sorted before anything else looks at it.
func (l *mapLoop) sorted(start ...ssa.Value) bool {
	return l.d.sortedFirst(start, l.body, 0)
}

func (d *determ) sortedFirst(start []ssa.Value, skip map[*ssa.BasicBlock]bool, depth int) bool {
	if depth > 4 {
		return false
	}
	vs := map[ssa.Value]bool{}
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	var work []ssa.Value
	add := func(v ssa.Value) {
		if !vs[v] {
			vs[v] = true
			work = append(work, v)
		}
	}
	for _, v := range start {
		add(v)
	}
	for len(work) > 0 {
		v := work[0]
		work = work[1:]
		if v.Referrers() == nil {
			continue
		}
		for _, r := range *v.Referrers() {
			if _, ok := r.(*ssa.DebugRef); ok || skip[r.Block()] {
				continue
			}
			if _, ok := v.(*ssa.Alloc); ok {
				// a variable that holds the slice
				switch y := r.(type) {
				case *ssa.Store:
					if y.Addr == v {
						continue
					}
				case *ssa.UnOp:
					add(y)
					continue
				case *ssa.MakeClosure:
					only := y.Referrers() != nil
					for _, r2 := range *y.Referrers() {
						if c, ok := r2.(*ssa.Call); !ok || !isSort(fullCallee(&c.Call)) {
							if _, ok := r2.(*ssa.DebugRef); !ok {
								only = false
							}
						}
					}
					if only {
						continue
					}
				}
				uses = append(uses, r)
				continue
			}
			switch y := r.(type) {
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Phi, *ssa.Convert:
				add(y.(ssa.Value))
				continue
			case *ssa.Slice:
				if y.X == v {
					add(y)
					continue
				}
			case *ssa.Store:
				if al, ok := y.Addr.(*ssa.Alloc); ok && y.Val == v {
					add(al)
					continue
				}
			case *ssa.MakeClosure:
				continue
			case *ssa.Call:
				if sorts1(d.p, y, v, 0) {
					sorts = append(sorts, r)
					continue
				}
				if b, ok := y.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
			}
			uses = append(uses, r)
		}
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if dominates(s, u) {
				ok = true
			}
		}
		if ok {
			continue
		}
		// handed back to callers that sort it
		rt, isRet := u.(*ssa.Return)
		if !isRet {
			return false
		}
		fn := u.Parent()
		cs := d.p.staticCallers()[fn]
		if len(cs) == 0 || fn.Parent() != nil || fn.Object() != nil && fn.Object().Exported() {
			return false
		}
		for i, v := range rt.Results {
			if !vs[v] {
				continue
			}
			for _, c := range cs {
				cv, isCall := c.(*ssa.Call)
				if !isCall {
					return false
				}
				if len(rt.Results) == 1 {
					if !d.sortedFirst([]ssa.Value{cv}, nil, depth+1) {
						return false
					}
					continue
				}
				for _, r := range *cv.Referrers() {
					if ex, ok := r.(*ssa.Extract); ok && ex.Index == i && !d.sortedFirst([]ssa.Value{ex}, nil, depth+1) {
						return false
					}
				}
			}
		}
	}
	return true
}

func isSort(full string) bool {
	if i := strings.Index(full, "["); i >= 0 {
		full = full[:i]
	}
	switch full {
	case "sort.Strings", "sort.Ints", "sort.Float64s", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

// totalOrder: the comparison looks at the elements themselves, so different elements have one order.
func totalOrder(p *Prog, cc *ssa.CallCommon) bool {
	full := fullCallee(cc)
	if i := strings.Index(full, "["); i >= 0 {
		full = full[:i]
	}
	var less *ssa.Function
	switch full {
	case "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		switch y := cc.Args[1].(type) {
		case *ssa.MakeClosure:
			less, _ = y.Fn.(*ssa.Function)
		case *ssa.Function:
			less = y
		}
		if less == nil {
			return false
		}
	case "sort.Sort", "sort.Stable":
		mi, ok := cc.Args[0].(*ssa.MakeInterface)
		if !ok {
			return false
		}
		if n, ok := mi.X.Type().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort" {
			return true
		}
		n, ok := mi.X.Type().(*types.Named)
		if !ok {
			return false
		}
		if less = p.methodOf(n, "Less"); less == nil {
			return false
		}
	default:
		return true
	}
	elem := func(v ssa.Value) bool {
		for i := 0; i < 4; i++ {
			switch y := v.(type) {
			case *ssa.Parameter:
				return true
			case *ssa.UnOp:
				switch a := y.X.(type) {
				case *ssa.IndexAddr:
					return true
				case *ssa.FieldAddr:
					switch b := a.X.(type) {
					case *ssa.IndexAddr, *ssa.UnOp:
						_ = b
						return true
					}
					return false
				}
				return false
			case *ssa.Field:
				v = y.X
			case *ssa.Convert:
				if isInteger(y.Type()) && !isInteger(y.X.Type()) {
					return false
				}
				v = y.X
			default:
				return false
			}
		}
		return false
	}
	for _, b := range less.Blocks {
		for _, ins := range b.Instrs {
			switch y := ins.(type) {
			case *ssa.BinOp:
				if !elem(y.X) || !elem(y.Y) {
					if _, isK := y.Y.(*ssa.Const); !isK {
						return false
					}
				}
			case *ssa.Call:
				switch full := fullCallee(&y.Call); full {
				case "strings.Compare", "bytes.Compare":
				default:
					if !strings.HasPrefix(full, "cmp.Compare") {
						return false
					}
				}
			}
		}
	}
	return true
}

// sorts1: the call sorts the slice.
func sorts1(p *Prog, c *ssa.Call, v ssa.Value, depth int) bool {
	if isSort(fullCallee(&c.Call)) {
		if !totalOrder(p, &c.Call) {
			return false
		}
		return len(c.Call.Args) > 0 && (c.Call.Args[0] == v || bare(c.Call.Args[0]) == bare(v))
	}
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil || !p.owns(f) || depth > 2 {
		return false
	}
	for i, a := range c.Call.Args {
		if a != v || i >= len(f.Params) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c2, ok := ins.(*ssa.Call); ok && alwaysRuns(c2) && sorts1(p, c2, f.Params[i], depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// disjoint: the map is a fixed table whose entries have no value in common, and the loop ends at an entry
// one of whose values equals something fixed: at most one entry fits.
func (l *mapLoop) disjoint(b, to *ssa.BasicBlock) bool {
	// the map
	ld, ok := l.m.(*ssa.UnOp)
	if !ok {
		return false
	}
	g, ok := ld.X.(*ssa.Global)
	if !ok {
		return false
	}
	// the test
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] != to {
		return false
	}
	cond := iff.Cond
	c, ok := cond.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil {
		return false
	}
	if !l.d.membership(c.Call.StaticCallee()) {
		return false
	}
	rows := l.d.p.tableRows(g)
	if len(rows) == 0 {
		return false
	}
	owner := map[int64]int{}
	for i, r := range rows {
		for _, v := range r {
			if o, ok := owner[v]; ok && o != i && fmt.Sprint(rows[o]) != fmt.Sprint(r) {
				l.bad(b.Instrs[len(b.Instrs)-1], fmt.Sprintf("value %#x", v), "two different entries of the table %s contain %#x: which of them is found depends on the order", g.Name(), v)
				return true
			}
			owner[v] = i
		}
	}
	l.d.res.Counts["rows of tables searched in map order"] += len(rows)
	return true
}

// membership: the function is true only if a field of its first parameter equals another parameter.
func (d *determ) membership(f *ssa.Function) bool {
	if f.Blocks == nil || len(f.Params) < 2 || f.Signature.Results().Len() != 1 {
		return false
	}
	isField := func(v ssa.Value) bool {
		switch y := v.(type) {
		case *ssa.UnOp:
			fa, ok := y.X.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			if al, ok := fa.X.(*ssa.Alloc); ok {
				whole, _ := allocStores(al)
				return len(whole) == 1 && whole[0].Val == ssa.Value(f.Params[0])
			}
			return fa.X == ssa.Value(f.Params[0])
		case *ssa.Field:
			return y.X == ssa.Value(f.Params[0])
		}
		return false
	}
	isParam := func(v ssa.Value) bool {
		pm, ok := v.(*ssa.Parameter)
		return ok && pm != f.Params[0]
	}
	eq := func(v ssa.Value) bool {
		bo, ok := v.(*ssa.BinOp)
		return ok && bo.Op == token.EQL && (isField(bo.X) && isParam(bo.Y) || isField(bo.Y) && isParam(bo.X))
	}
	var okTrue func(v ssa.Value, from *ssa.BasicBlock, depth int) bool
	okTrue = func(v ssa.Value, at *ssa.BasicBlock, depth int) bool {
		if depth > 10 {
			return false
		}
		switch y := v.(type) {
		case *ssa.Const:
			if y.Value != nil && !constant.BoolVal(y.Value) {
				return true
			}
			// true: every way here goes through an equality
			if len(at.Preds) == 0 {
				return false
			}
			for _, p := range at.Preds {
				iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
				if ok && eq(iff.Cond) && p.Succs[0] == at {
					continue
				}
				if len(p.Succs) == 1 && okTrue(v, p, depth+1) {
					continue
				}
				return false
			}
			return true
		case *ssa.BinOp:
			return eq(y)
		case *ssa.Phi:
			for i, e := range y.Edges {
				p := y.Block().Preds[i]
				if k, ok := e.(*ssa.Const); ok && k.Value != nil && constant.BoolVal(k.Value) {
					iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
					if ok && eq(iff.Cond) && p.Succs[0] == y.Block() {
						continue
					}
				}
				if !okTrue(e, p, depth+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, r := range returnsOf(f) {
		if !okTrue(r.Results[0], r.Block(), 0) {
			return false
		}
	}
	return true
}

// tableRows: the numbers in the entries of a table that is filled from constant structures only.
func (p *Prog) tableRows(g *ssa.Global) [][]int64 {
	var rows [][]int64
	ok := true
	var structOfGlobal func(h *ssa.Global) []int64
	structOfGlobal = func(h *ssa.Global) []int64 {
		// stores to its fields in the package's set-up, nothing else
		m := map[int]int64{}
		for _, fn := range append(append([]*ssa.Function{}, p.Funcs...), p.Root.Func("init")) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					st, isSt := ins.(*ssa.Store)
					if !isSt {
						continue
					}
					fa, isFa := st.Addr.(*ssa.FieldAddr)
					if st.Addr == ssa.Value(h) {
						// stored as a whole from a local composite
						if u, okU := st.Val.(*ssa.UnOp); okU {
							if al, okA := u.X.(*ssa.Alloc); okA {
								_, fs := allocStores(al)
								for i, ss := range fs {
									k, okK := ss[0].Val.(*ssa.Const)
									if len(ss) != 1 || !okK {
										ok = false
										continue
									}
									m[i] = k.Int64()
								}
								continue
							}
						}
						ok = false
					}
					if !isFa || fa.X != ssa.Value(h) {
						continue
					}
					k, isK := st.Val.(*ssa.Const)
					if !isK || !isInit(fn) {
						ok = false
						continue
					}
					m[fa.Field] = k.Int64()
				}
			}
		}
		var idx []int
		for i := range m {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		var out []int64
		s := structOf(h.Type())
		if s == nil {
			ok = false
			return nil
		}
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, m[i])
		}
		return out
	}
	// where entries are set
	found := false
	for _, fn := range append(append([]*ssa.Function{}, p.Funcs...), p.Root.Func("init")) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				mu, isMu := ins.(*ssa.MapUpdate)
				if !isMu {
					continue
				}
				ld, isLd := mu.Map.(*ssa.UnOp)
				direct := false
				if isLd {
					direct = ld.X == ssa.Value(g)
				} else if mm, isMM := mu.Map.(*ssa.MakeMap); isMM {
					for _, r := range *mm.Referrers() {
						if st, isSt := r.(*ssa.Store); isSt && st.Addr == ssa.Value(g) {
							direct = true
						}
					}
				}
				if !direct {
					continue
				}
				if !isInit(fn) {
					return nil
				}
				found = true
				for _, h := range p.elementGlobals(mu.Value, 0) {
					if h == nil {
						return nil
					}
					rows = append(rows, structOfGlobal(h))
				}
			}
		}
	}
	if !ok || !found {
		return nil
	}
	return rows
}

// elementGlobals: the package variables a value is a copy of; nil in the list: something else.
func (p *Prog) elementGlobals(v ssa.Value, depth int) []*ssa.Global {
	bad := []*ssa.Global{nil}
	if depth > 8 {
		return bad
	}
	switch y := v.(type) {
	case *ssa.UnOp:
		if y.Op != token.MUL {
			return bad
		}
		switch a := y.X.(type) {
		case *ssa.Global:
			if _, ok := deref(a.Type()).Underlying().(*types.Struct); ok {
				return []*ssa.Global{a}
			}
			return p.sliceGlobals(a)
		case *ssa.Alloc:
			whole, fields := allocStores(a)
			if len(fields) > 0 || len(whole) == 0 {
				return bad
			}
			var out []*ssa.Global
			for _, st := range whole {
				out = append(out, p.elementGlobals(st.Val, depth+1)...)
			}
			return out
		case *ssa.IndexAddr:
			return p.elementGlobals(a.X, depth+1)
		}
	case *ssa.Global:
		return p.sliceGlobals(y)
	case *ssa.Extract:
		if nx, ok := y.Tuple.(*ssa.Next); ok && y.Index == 2 {
			if rg, ok := nx.Iter.(*ssa.Range); ok {
				return p.elementGlobals(rg.X, depth+1)
			}
		}
	case *ssa.Index:
		return p.elementGlobals(y.X, depth+1)
	}
	return bad
}

// sliceGlobals: the variables whose values a slice or array variable is made of.
func (p *Prog) sliceGlobals(g *ssa.Global) []*ssa.Global {
	bad := []*ssa.Global{nil}
	var out []*ssa.Global
	elems := func(al ssa.Value) bool {
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			for _, r2 := range *ia.Referrers() {
				if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					hs := p.elementGlobals(st.Val, 1)
					for _, h := range hs {
						if h == nil {
							return false
						}
					}
					out = append(out, hs...)
				}
			}
		}
		return true
	}
	for _, fn := range append(append([]*ssa.Function{}, p.Funcs...), p.Root.Func("init")) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
					sl, ok := st.Val.(*ssa.Slice)
					if !ok || !isInit(fn) || !elems(sl.X) {
						return bad
					}
				}
				if ia, ok := ins.(*ssa.IndexAddr); ok && ia.X == ssa.Value(g) {
					for _, r2 := range *ia.Referrers() {
						if st, ok := r2.(*ssa.Store); ok {
							hs := p.elementGlobals(st.Val, 1)
							out = append(out, hs...)
						}
					}
				}
			}
		}
	}
	if len(out) == 0 {
		return bad
	}
	return out
}
