package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["O09"] = checkO09
}

// lockState is what is known at one point of one function about the locks.
type lockState struct {
	must, may     map[string]byte // held: 'W' or 'R'
	dmust, dmay   map[string]bool // unlocks deferred
	released      map[string]bool // unlocked although not locked here (the caller's lock)
	rmust         map[string]bool // the same, on every path
	sectionBroken bool
}

func newLockState() *lockState {
	return &lockState{map[string]byte{}, map[string]byte{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, false}
}

func (s *lockState) clone() *lockState {
	n := newLockState()
	for k, v := range s.must {
		n.must[k] = v
	}
	for k, v := range s.may {
		n.may[k] = v
	}
	for k := range s.dmust {
		n.dmust[k] = true
	}
	for k := range s.dmay {
		n.dmay[k] = true
	}
	for k := range s.rmust {
		n.rmust[k] = true
	}
	for k := range s.released {
		n.released[k] = true
	}
	return n
}

func (s *lockState) merge(o *lockState) bool {
	ch := false
	for k, v := range s.must {
		if w, ok := o.must[k]; !ok {
			delete(s.must, k)
			ch = true
		} else if w == 'R' && v == 'W' {
			s.must[k] = 'R'
			ch = true
		}
	}
	for k, v := range o.may {
		if w, ok := s.may[k]; !ok || w == 'R' && v == 'W' {
			s.may[k] = v
			ch = true
		}
	}
	for k := range s.dmust {
		if !o.dmust[k] {
			delete(s.dmust, k)
			ch = true
		}
	}
	for k := range o.dmay {
		if !s.dmay[k] {
			s.dmay[k] = true
			ch = true
		}
	}
	for k := range s.rmust {
		if !o.rmust[k] {
			delete(s.rmust, k)
			ch = true
		}
	}
	for k := range o.released {
		if !s.released[k] {
			s.released[k] = true
			ch = true
		}
	}
	return ch
}

// lockSummary is what a function does to the locks of its parameters.
type lockSummary struct {
	requires map[string]byte // locks its caller must hold: key relative to the parameters
	held     map[string]byte // locks held when it returns
	released map[string]byte // locks of the caller it releases
	relMust  map[string]bool // those it releases on every path; nil before the first return
	acquires map[string]bool // struct types whose lock it (or what it calls) may take
	at       map[string]string
}

type lockCheck struct {
	p     *Prog
	res   *Result
	sums  map[*ssa.Function]*lockSummary
	busy  map[*ssa.Function]bool
	lockT map[string]int // struct type -> index of its lock
	binds map[*ssa.FreeVar]string
	sites int
	ops   int
}

func isLockType(t types.Type) bool {
	s := strings.TrimPrefix(t.String(), "*")
	return s == "sync.Mutex" || s == "sync.RWMutex" || s == "sync.Locker"
}

// lockOf: the struct type has a lock of its own.
func (lc *lockCheck) lockOf(t types.Type) (int, bool) {
	t = deref(t)
	if i, ok := lc.lockT[tname(t)]; ok {
		return i, i >= 0
	}
	lc.lockT[tname(t)] = -1
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isLockType(st.Field(i).Type()) {
				lc.lockT[tname(t)] = i
				return i, true
			}
		}
	}
	return -1, false
}

func isTable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Slice:
		return true
	}
	return false
}

// key names the object a value denotes, relative to the parameters of the function.
func (lc *lockCheck) key(v ssa.Value, depth int) string {
	if depth > 12 {
		return fmt.Sprintf("v%p", v)
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if x.Parent().Parent() != nil {
			return fmt.Sprintf("C%p", x) // a parameter of a function literal
		}
		return fmt.Sprintf("P%d", paramIndex(x))
	case *ssa.FreeVar:
		if b := bindingOf(x); b != nil {
			return lc.key(b, depth+1)
		}
		return fmt.Sprintf("F%p", x)
	case *ssa.Global:
		return "G." + x.Name()
	case *ssa.FieldAddr:
		return lc.key(x.X, depth+1) + "." + fmt.Sprint(x.Field)
	case *ssa.Field:
		return lc.key(x.X, depth+1) + "." + fmt.Sprint(x.Field)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			k := lc.key(x.X, depth+1)
			cell := x.X
			if fv, ok := cell.(*ssa.FreeVar); ok {
				cell = bindingOf(fv)
			}
			if al, ok := cell.(*ssa.Alloc); ok {
				if whole, _ := allocStores(al); len(whole) == 1 {
					return lc.key(whole[0].Val, depth+1)
				}
			}
			return "*" + k
		}
	case *ssa.ChangeType:
		return lc.key(x.X, depth+1)
	case *ssa.Alloc:
		if whole, _ := allocStores(x); len(whole) > 0 && !freshZero(whole) {
			if _, isStruct := deref(x.Type()).Underlying().(*types.Struct); isStruct {
				for _, st := range whole {
					if !lc.freshValue(st.Val, 0) {
						return fmt.Sprintf("COPY%p", x)
					}
				}
				return fmt.Sprintf("FRESH%p", x)
			}
			return fmt.Sprintf("v%p", x)
		}
		return fmt.Sprintf("FRESH%p", x)
	}
	return fmt.Sprintf("v%p", v)
}

// bindingOf: the value a variable captured by a function literal stands for, nil if it is not unique.
func bindingOf(fv *ssa.FreeVar) ssa.Value {
	fn := fv.Parent()
	if fn.Parent() == nil {
		return nil
	}
	var v ssa.Value
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != ssa.Value(fn) {
				continue
			}
			for i, f := range fn.FreeVars {
				if f == fv {
					if v != nil {
						return nil
					}
					v = mc.Bindings[i]
				}
			}
		}
	}
	return v
}

// directLiteral: a function literal that is only called or deferred where it is written.
func directLiteral(fn *ssa.Function) bool {
	if fn.Parent() == nil {
		return false
	}
	n := 0
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				v := *op
				if v == ssa.Value(fn) {
					if _, ok := ins.(*ssa.MakeClosure); ok {
						continue
					}
				} else if mc, ok := v.(*ssa.MakeClosure); !ok || mc.Fn != ssa.Value(fn) {
					continue
				}
				switch c := ins.(type) {
				case *ssa.Defer:
					if c.Call.Value != v {
						return false
					}
				case *ssa.Call:
					if c.Call.Value != v {
						return false
					}
				default:
					return false
				}
				n++
			}
		}
	}
	return n > 0
}

// freshValue: a struct value just built here.
func (lc *lockCheck) freshValue(v ssa.Value, depth int) bool {
	if depth > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			return strings.HasPrefix(lc.key(al, 0), "FRESH")
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f == nil || f.Blocks == nil || !lc.p.owns(f) {
			return false
		}
		for _, r := range returnsOf(f) {
			for _, v := range retVals(r) {
				if !lc.freshValue(v, depth+1) {
					return false
				}
			}
		}
		return true
	}
	return false
}

func fresh(key string) bool {
	return strings.HasPrefix(strings.TrimLeft(key, "*"), "FRESH")
}

// lockCall recognises an operation on a lock and gives the lock's key.
func (lc *lockCheck) lockCall(cc *ssa.CallCommon) (op, key string, ok bool) {
	full := fullCallee(cc)
	i := strings.LastIndexByte(full, '.')
	if i < 0 {
		return
	}
	op = full[i+1:]
	switch {
	case strings.HasPrefix(full, "(*sync.Mutex)."), strings.HasPrefix(full, "(*sync.RWMutex)."):
		switch op {
		case "Lock", "Unlock", "RLock", "RUnlock":
			return op, strings.TrimPrefix(lc.key(cc.Args[0], 0), "*"), true
		}
		return op, "", true
	case cc.IsInvoke() && cc.Method.Pkg() != nil && cc.Method.Pkg().Path() == "sync":
		return cc.Method.Name(), strings.TrimPrefix(lc.key(cc.Value, 0), "*"), true
	}
	return "", "", false
}

// substitute rewrites a key of the callee into a key of the caller.
func (lc *lockCheck) substitute(key string, args []ssa.Value, f *ssa.Function) string {
	if f.Parent() != nil {
		return key // in a function literal keys are those of the function around it
	}
	pre := ""
	for strings.HasPrefix(key, "*") {
		pre, key = pre+"*", key[1:]
	}
	if !strings.HasPrefix(key, "P") {
		return pre + key
	}
	end := 1
	for end < len(key) && key[end] >= '0' && key[end] <= '9' {
		end++
	}
	var n int
	fmt.Sscan(key[1:end], &n)
	if n >= len(args) {
		return pre + key
	}
	return pre + lc.key(args[n], 0) + key[end:]
}

func lockBase(key string) string {
	if i := strings.LastIndexByte(key, '.'); i >= 0 {
		return key[:i]
	}
	return key
}

// summary analyses one function.
func (lc *lockCheck) summary(fn *ssa.Function) *lockSummary {
	if s, ok := lc.sums[fn]; ok {
		return s
	}
	s := &lockSummary{map[string]byte{}, map[string]byte{}, map[string]byte{}, nil, map[string]bool{}, map[string]string{}}
	if lc.busy[fn] {
		return s
	}
	lc.busy[fn] = true
	defer delete(lc.busy, fn)
	in := map[*ssa.BasicBlock]*lockState{fn.Blocks[0]: newLockState()}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	// fixpoint without reporting, then one reporting pass
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		st := in[b].clone()
		lc.run(fn, b, st, s, false)
		for _, nx := range b.Succs {
			if in[nx] == nil {
				in[nx] = st.clone()
				work = append(work, nx)
			} else if in[nx].merge(st) {
				work = append(work, nx)
			}
		}
	}
	s.requires, s.held, s.released, s.relMust = map[string]byte{}, nil, map[string]byte{}, nil
	for _, b := range fn.Blocks {
		if in[b] != nil {
			lc.run(fn, b, in[b].clone(), s, true)
		}
	}
	if s.held == nil {
		s.held = map[string]byte{}
	}
	lc.sums[fn] = s
	return s
}

// callersKnown: every call of the function is a static call in the analysed packages, so that its
// callers can be asked to hold the lock.
func (lc *lockCheck) callersKnown(fn *ssa.Function) bool {
	if directLiteral(fn) {
		return true
	}
	o := fn.Object()
	if fn.Parent() != nil || o == nil || o.Exported() || len(lc.p.staticCallers()[fn]) == 0 {
		return false
	}
	for _, t := range lc.p.takenFuncs() {
		if t == fn {
			return false
		}
	}
	return true
}

func (lc *lockCheck) run(fn *ssa.Function, b *ssa.BasicBlock, st *lockState, s *lockSummary, report bool) {
	p := lc.p
	say := func(rule, construct string, ins ssa.Instruction, f string, a ...any) {
		if report {
			lc.res.add(rule, fname(fn), construct, p.insPos(ins), f, a...)
		}
	}
	lock := func(ins ssa.Instruction, key string, mode byte) {
		if _, held := st.may[key]; held {
			say("double", "lock taken twice", ins, "the lock is taken here while a path already holds it: the call never returns")
		}
		if strings.HasPrefix(strings.TrimLeft(lockBase(key), "*"), "COPY") {
			say("copy", "lock of a copy", ins, "the lock belongs to a copy of the table made for this call: it excludes nobody")
		}
		st.must[key], st.may[key] = mode, mode
	}
	unlock := func(ins ssa.Instruction, key string, mode byte) {
		if m, held := st.may[key]; !held {
			st.released[key], st.rmust[key] = true, true
			if report {
				s.released[key] = mode
				if !lc.callersKnown(fn) {
					say("unheld", "unlock", ins, "the lock is released here although no path to this point holds it")
				}
			}
		} else if m != mode {
			say("mode", "unlock mode", ins, "the lock is released in another mode than it was taken")
		}
		delete(st.must, key)
		delete(st.may, key)
	}
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.RunDefers:
			for k := range st.dmay {
				ro := strings.HasSuffix(k, "|R")
				key := strings.TrimSuffix(strings.TrimSuffix(k, "|R"), "|W")
				mode := byte('W')
				if ro {
					mode = 'R'
				}
				if !st.dmust[k] {
					// deferred on some paths only
					if _, held := st.must[key]; held {
						say("undecided", "deferred unlock", ins, "the unlock is deferred on some paths only while the lock is held on all")
					}
				}
				unlock(ins, key, mode)
			}
			st.dmay, st.dmust = map[string]bool{}, map[string]bool{}
		case *ssa.Return:
			if report {
				if s.held == nil {
					s.held = map[string]byte{}
					for k, v := range st.must {
						s.held[k] = v
					}
				} else {
					for k := range s.held {
						if _, ok := st.must[k]; !ok {
							delete(s.held, k)
						}
					}
				}
				rel := map[string]bool{}
				for k := range st.rmust {
					if s.relMust == nil || s.relMust[k] {
						rel[k] = true
					}
				}
				s.relMust = rel
				for k := range st.may {
					if _, must := st.must[k]; !must || !lc.callersKnown(fn) {
						say("unreleased", "return with lock", ins, "a path returns here while the lock is still held: the next call on the table never returns")
					}
				}
			}
		case *ssa.Panic:
		case *ssa.Defer:
			if op, key, ok := lc.lockCall(&x.Call); ok {
				lc.ops++
				switch op {
				case "Unlock":
					st.dmust[key+"|W"], st.dmay[key+"|W"] = true, true
				case "RUnlock":
					st.dmust[key+"|R"], st.dmay[key+"|R"] = true, true
				default:
					say("defer", "deferred "+op, ins, "a deferred %s on a lock", op)
				}
				continue
			}
			if f := x.Call.StaticCallee(); f != nil && f.Blocks != nil && p.owns(f) {
				sum := lc.summary(f)
				for k, mode := range sum.released {
					key := lc.substitute(k, x.Call.Args, f)
					if !sum.relMust[k] {
						say("undecided", "deferred unlock", ins, "%s releases the lock on some paths only", fname(f))
					}
					st.dmust[key+"|"+string(mode)], st.dmay[key+"|"+string(mode)] = true, true
				}
			}
		case *ssa.Call:
			if op, key, ok := lc.lockCall(&x.Call); ok {
				if report {
					lc.ops++
				}
				s.acquires[lc.lockOwner(&x.Call)] = true
				switch op {
				case "Lock":
					lock(ins, key, 'W')
				case "RLock":
					lock(ins, key, 'R')
				case "Unlock":
					unlock(ins, key, 'W')
				case "RUnlock":
					unlock(ins, key, 'R')
				case "RLocker":
				default:
					say("undecided", op, ins, "the result of %s decides whether the lock is held: this rule does not follow it", op)
				}
				continue
			}
			callees := p.calleesAt(x, p.takenFuncs())
			for _, f := range callees {
				sum := lc.summary(f)
				for t := range sum.acquires {
					s.acquires[t] = true
					if x.Call.StaticCallee() != nil && len(sum.held) > 0 {
						continue // a helper that takes the lock for its caller is judged below
					}
					for k := range st.may {
						if lc.typeOfKey(fn, k) == t {
							say("double", "call takes the lock", ins, "%s may take the lock of %s, which is held here: the call never returns", fname(f), t)
						}
					}
				}
				if x.Call.StaticCallee() == nil {
					continue
				}
				for k, mode := range sum.requires {
					key := lc.substitute(k, x.Call.Args, f)
					lc.need(fn, ins, st, s, key, mode, report, "call of "+fname(f)+" "+sum.at[k])
				}
				for k, mode := range sum.released {
					if !sum.relMust[k] {
						say("undecided", "unlock", ins, "%s releases the lock on some paths only", fname(f))
					}
					unlock(ins, lc.substitute(k, x.Call.Args, f), mode)
				}
				for k, mode := range sum.held {
					lock(ins, lc.substitute(k, x.Call.Args, f), mode)
				}
			}
		}
		lc.access(fn, ins, st, s, report)
	}
}

func (lc *lockCheck) lockOwner(cc *ssa.CallCommon) string {
	var v ssa.Value
	if cc.IsInvoke() {
		v = cc.Value
	} else {
		v = cc.Args[0]
	}
	if u, ok := v.(*ssa.UnOp); ok {
		v = u.X
	}
	if fa, ok := v.(*ssa.FieldAddr); ok {
		return tname(deref(fa.X.Type()))
	}
	return "?"
}

func (lc *lockCheck) typeOfKey(fn *ssa.Function, key string) string {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if _, k, ok := lc.lockCall(ci.Common()); ok && k == key {
					return lc.lockOwner(ci.Common())
				}
			}
		}
	}
	return "-"
}

// need: the lock must be held here.
func (lc *lockCheck) need(fn *ssa.Function, ins ssa.Instruction, st *lockState, s *lockSummary, key string, mode byte, report bool, what string) {
	if fresh(lockBase(key)) {
		return
	}
	if m, ok := st.must[key]; ok && (m == 'W' || mode == 'R') {
		return
	}
	if !report {
		return
	}
	if lc.callersKnown(fn) && strings.HasPrefix(strings.TrimLeft(key, "*"), "P") && !st.released[key] {
		if s.requires[key] != 'W' {
			s.requires[key] = mode
			s.at[key] = "(" + lc.p.insPos(ins) + ")"
		}
		return
	}
	if _, ok := st.must[key]; ok {
		lc.res.add("shared", fname(fn), what, lc.p.insPos(ins), "the table is changed here under a lock that is only held for reading")
		return
	}
	lc.res.add("unlocked", fname(fn), what, lc.p.insPos(ins), "the table is touched here (%s) on a path that does not hold its lock", what)
}

// access finds uses of a guarded table.
func (lc *lockCheck) access(fn *ssa.Function, ins ssa.Instruction, st *lockState, s *lockSummary, report bool) {
	field := func(x ssa.Value, t types.Type, idx int) (string, bool) {
		li, ok := lc.lockOf(t)
		if !ok || li == idx {
			return "", false
		}
		ft := structOf(t).Field(idx).Type()
		if !isTable(ft) {
			return "", false
		}
		return lc.key(x, 0) + "." + fmt.Sprint(li), true
	}
	tab := func(v ssa.Value) (string, bool) {
		for i := 0; i < 4; i++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				if x.Op == token.MUL {
					if fa, ok := x.X.(*ssa.FieldAddr); ok {
						return field(fa.X, fa.X.Type(), fa.Field)
					}
					if al, ok := x.X.(*ssa.Alloc); ok {
						if whole, _ := allocStores(al); len(whole) == 1 {
							v = whole[0].Val
							continue
						}
					}
				}
			case *ssa.Field:
				return field(x.X, x.X.Type(), x.Field)
			case *ssa.Slice:
				v = x.X
				continue
			case *ssa.ChangeType:
				v = x.X
				continue
			}
			break
		}
		return "", false
	}
	name := func(v ssa.Value) string { return "table of " + fname(fn) }
	hit := func(v ssa.Value, mode byte) {
		if k, ok := tab(v); ok {
			if report {
				lc.sites++
			}
			lc.need(fn, ins, st, s, k, mode, report, name(v))
		}
	}
	escape := func(v ssa.Value, how string) {
		if k, ok := tab(v); ok && !fresh(lockBase(k)) && report {
			if !strings.HasPrefix(strings.TrimLeft(lockBase(k), "*"), "FRESH") {
				lc.res.add("escape", fname(fn), name(v)+" "+how, lc.p.insPos(ins), "the table itself is %s here: it can be used without its lock", how)
			}
		}
	}
	switch x := ins.(type) {
	case *ssa.Lookup:
		hit(x.X, 'R')
	case *ssa.MapUpdate:
		hit(x.Map, 'W')
		escape(x.Value, "stored in a map")
	case *ssa.Range:
		hit(x.X, 'R')
	case *ssa.Next:
		if rg, ok := x.Iter.(*ssa.Range); ok {
			hit(rg.X, 'R')
		}
	case *ssa.IndexAddr:
		mode := byte('R')
		for _, u := range *x.Referrers() {
			if stt, ok := u.(*ssa.Store); ok && stt.Addr == ssa.Value(x) {
				mode = 'W'
			}
		}
		hit(x.X, mode)
	case *ssa.Store:
		if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
			if k, ok := field(fa.X, fa.X.Type(), fa.Field); ok {
				if report {
					lc.sites++
				}
				lc.need(fn, ins, st, s, k, 'W', report, "replacement of "+name(fa))
			}
		}
		if _, isAl := x.Addr.(*ssa.Alloc); !isAl {
			escape(x.Val, "stored elsewhere")
		}
	case *ssa.Return:
		for _, v := range x.Results {
			escape(v, "returned")
		}
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
			for i, a := range x.Call.Args {
				mode := byte('R')
				if (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") && i == 0 {
					mode = 'W'
				}
				hit(a, mode)
			}
			return
		}
		for _, a := range x.Call.Args {
			if isTable(a.Type()) {
				if k, ok := tab(a); ok {
					_ = k
					hit(a, 'W')
					escape(a, "passed to "+fullCallee(&x.Call))
				}
			}
		}
	case *ssa.MakeClosure:
		for _, v := range x.Bindings {
			escape(v, "captured")
		}
	}
}

func checkO09(p *Prog) *Result {
	res := newResult("forward dataflow of held locks through every function (with summaries for helpers): every read, write, iteration and replacement of a table whose struct carries a lock must be reached with that lock held in the needed mode; no path takes a held lock, releases one it does not hold, or returns holding one",
		"distinct access paths denote distinct tables only if both are parameters, fields or variables (no aliasing between them is assumed)")
	lc := &lockCheck{p: p, res: res, sums: map[*ssa.Function]*lockSummary{}, busy: map[*ssa.Function]bool{}, lockT: map[string]int{}, binds: map[*ssa.FreeVar]string{}}
	for _, f := range p.Funcs {
		lc.summary(f)
	}
	guarded := 0
	for _, nt := range p.namedTypes() {
		if li, ok := lc.lockOf(nt); ok {
			st := structOf(nt)
			for i := 0; i < st.NumFields(); i++ {
				if i != li && isTable(st.Field(i).Type()) {
					guarded++
					res.sample("guarded: %s.%s by %s", nt.Obj().Name(), st.Field(i).Name(), st.Field(li).Name())
				}
			}
		}
	}
	// structures with a lock are not copied once in use
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ld, ok := ins.(*ssa.UnOp)
				if !ok || ld.Op != token.MUL {
					continue
				}
				if _, ok := lc.lockOf(ld.Type()); !ok {
					continue
				}
				if _, isPtrT := ld.Type().Underlying().(*types.Pointer); isPtrT {
					continue
				}
				if k := lc.key(ld.X, 0); !fresh(k) {
					res.add("copy", fname(f), tname(ld.Type()), p.insPos(ins), "a table is copied together with its lock: the copy shares the table but not the lock")
				}
			}
		}
	}
	res.floor("guarded tables", guarded, 3)
	res.floor("accesses to guarded tables", lc.sites, 4)
	res.floor("lock operations", lc.ops, 6)
	return res
}

var _ = sort.Strings
