package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["O07"] = checkO07 }

const poolGet, poolPut = "(*sync.Pool).Get", "(*sync.Pool).Put"

// poolTakers: functions that hand out an object they take from a pool.
func (p *Prog) poolTakers() map[*ssa.Function]bool {
	if p.takersMemo != nil {
		return p.takersMemo
	}
	out := map[*ssa.Function]bool{}
	p.takersMemo = out
	var from func(v ssa.Value, depth int) bool
	from = func(v ssa.Value, depth int) bool {
		if depth > 6 {
			return false
		}
		switch y := v.(type) {
		case *ssa.Call:
			return fullCallee(&y.Call) == poolGet || out[y.Call.StaticCallee()]
		case *ssa.TypeAssert:
			return from(y.X, depth+1)
		case *ssa.Extract:
			ta, ok := y.Tuple.(*ssa.TypeAssert)
			return ok && y.Index == 0 && from(ta.X, depth+1)
		case *ssa.Phi:
			// the object taken, or a new one
			n := 0
			for _, e := range y.Edges {
				if from(e, depth+1) {
					n++
				} else if _, ok := e.(*ssa.Alloc); !ok {
					return false
				}
			}
			return n > 0
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if out[f] || f.Signature.Results().Len() != 1 {
				continue
			}
			n := 0
			for _, r := range returnsOf(f) {
				if from(r.Results[0], 0) {
					n++
				} else {
					n = -1000
				}
			}
			if n > 0 {
				out[f] = true
				changed = true
			}
		}
	}
	return out
}

// poolPutters: functions that give a parameter back to a pool: parameter index, and whether always.
type putter struct {
	param  int
	always bool
}

func (p *Prog) poolPutters() map[*ssa.Function]putter {
	out := map[*ssa.Function]putter{}
	for changed := true; changed; {
		changed = false
		for _, f := range p.Funcs {
			if _, ok := out[f]; ok {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					v := p.releases(ins, out)
					if v == nil {
						continue
					}
					if pm, ok := v.(*ssa.Parameter); ok {
						out[f] = putter{paramIndex(pm), alwaysRuns(ins)}
						changed = true
					}
				}
			}
		}
	}
	return out
}

// releases: the value an instruction gives back to a pool.
func (p *Prog) releases(ins ssa.Instruction, put map[*ssa.Function]putter) ssa.Value {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	cc := ci.Common()
	if fullCallee(cc) == poolPut {
		return bare(cc.Args[1])
	}
	if f := cc.StaticCallee(); f != nil {
		if pt, ok := put[f]; ok && pt.param < len(cc.Args) {
			return bare(cc.Args[pt.param])
		}
	}
	return nil
}

func bare(v ssa.Value) ssa.Value {
	for {
		switch y := v.(type) {
		case *ssa.MakeInterface:
			v = y.X
		case *ssa.ChangeInterface:
			v = y.X
		case *ssa.ChangeType:
			v = y.X
		case *ssa.TypeAssert:
			v = y.X
		default:
			return v
		}
	}
}

type poolCheck struct {
	p    *Prog
	res  *Result
	put  map[*ssa.Function]putter
	take map[*ssa.Function]bool
}

func checkO07(p *Prog) *Result {
	res := newResult("typestate of pooled objects on every path (taken, given back), deferred calls in their order, with reachability of their memory from the effect analysis",
		"the destination of the document keeps nothing it is given to write (the contract of io.Writer)")
	c := &poolCheck{p, res, p.poolPutters(), p.poolTakers()}
	sites, puts := 0, 0
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				cl, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				full := fullCallee(&cl.Call)
				if full == poolGet || c.take[cl.Call.StaticCallee()] {
					sites++
					c.site(fn, cl)
				}
				if full == poolPut {
					puts++
				}
			}
		}
	}
	c.empty()
	c.fields()
	res.floor("functions scanned", len(p.Funcs), 400)
	res.floor("places that take from a pool", sites, 0)
	res.floor("places that give back to a pool", puts, 0)
	res.Counts["functions that take from a pool for their caller"] = len(c.take)
	res.Counts["functions that give back to a pool for their caller"] = len(c.put)
	return res
}

// derived: everything in the function through which the memory of the object can be reached.
func (c *poolCheck) touches(x *fx, root string) func(a avals) bool {
	memo := map[string]bool{}
	var reach func(r string, busy map[string]bool) bool
	var val func(v aval, busy map[string]bool) bool
	reach = func(r string, busy map[string]bool) bool {
		if r == root {
			return true
		}
		if v, ok := memo[r]; ok {
			return v
		}
		if busy[r] || r[0] != 'S' {
			return false
		}
		busy[r] = true
		hit := false
		for _, l := range x.roots[r] {
			for fk := range x.facts[l] {
				if val(fk.v, busy) {
					hit = true
				}
			}
		}
		if hit || len(busy) == 1 {
			memo[r] = hit
		}
		delete(busy, r)
		return hit
	}
	val = func(v aval, busy map[string]bool) bool { return reach(v.l.root, busy) }
	return func(a avals) bool {
		for v := range a {
			if val(v, map[string]bool{}) {
				return true
			}
		}
		return false
	}
}

// held back: state of one object along a path.
type pstate struct {
	st    byte // 'n' not taken, 'h' held, 'r' given back
	defrd string
}

func (c *poolCheck) site(fn *ssa.Function, take *ssa.Call) {
	p, res := c.p, c.res
	e := p.effects()
	x := e.full[fn]
	if x == nil {
		res.add("undecided", fname(fn), "pooled object", p.insPos(take), "no effects were computed for this function")
		return
	}
	root := e.site(take)
	touch := c.touches(x, root)
	vals := func(v ssa.Value) avals {
		if t, ok := x.tup[v]; ok {
			a := avals{}
			for _, m := range t {
				for k := range m {
					a[k] = true
				}
			}
			return a
		}
		return x.get(v)
	}
	// the object itself, not something that refers to it
	isObj := func(v ssa.Value) bool {
		for a := range x.get(v) {
			if a.l.root == root && len(a.l.steps) == 0 {
				return true
			}
		}
		return false
	}
	uses := func(ins ssa.Instruction) bool {
		for _, op := range ins.Operands(nil) {
			if *op != nil && touch(vals(*op)) {
				return true
			}
		}
		return false
	}
	released := false
	type act struct {
		rel    bool
		always bool
		use    bool
	}
	// what a call does with the object
	effect := func(ci ssa.CallInstruction) act {
		if v := p.releases(ci, c.put); v != nil && isObj(v) {
			a := act{rel: true, always: true}
			if f := ci.Common().StaticCallee(); f != nil {
				if pt, ok := c.put[f]; ok {
					a.always = pt.always
				}
			}
			return a
		}
		if mc, ok := ci.Common().Value.(*ssa.MakeClosure); ok {
			if f := e.closureFn(mc); f != nil {
				for i, bd := range mc.Bindings {
					if !touch(vals(bd)) {
						continue
					}
					if i >= len(f.FreeVars) {
						continue
					}
					if r := c.closureReleases(f, f.FreeVars[i]); r != nil {
						return act{rel: true, always: alwaysRuns(r)}
					}
				}
			}
		}
		return act{use: uses(ci)}
	}
	report := func(rule string, at ssa.Instruction, format string, a ...interface{}) {
		what := "object"
		if r := deref(take.Type()); r != nil {
			what = types.TypeString(r, func(*types.Package) string { return "" })
		}
		res.add(rule, fname(fn), what+" from the pool", p.insPos(at), format, a...)
	}
	var leaks []*ssa.Return
	idx := map[*ssa.Defer]int{}
	var dlist []*ssa.Defer
	// forward over the blocks with sets of states
	in := map[*ssa.BasicBlock]map[pstate]bool{}
	start := fn.Blocks[0]
	in[start] = map[pstate]bool{{'n', ""}: true}
	work := []*ssa.BasicBlock{start}
	said := map[string]bool{}
	once := func(key string, f func()) {
		if !said[key] {
			said[key] = true
			f()
		}
	}
	runDefers := func(s pstate, at ssa.Instruction) pstate {
		ds := strings.Split(s.defrd, ",")
		for i := len(ds) - 1; i >= 0; i-- {
			if ds[i] == "" {
				continue
			}
			var n int
			fmt.Sscan(ds[i], &n)
			d := dlist[n]
			a := effect(d)
			switch {
			case a.rel:
				if s.st == 'r' {
					once("twice"+ds[i], func() {
						report("twice", d, "given back a second time when the function returns: two users then share it")
					})
				}
				s.st = 'r'
				released = true
			case a.use:
				if s.st == 'r' {
					once("after"+ds[i], func() {
						report("after", d, "used by a deferred call that runs after it was given back")
					})
				}
			}
		}
		s.defrd = ""
		return s
	}
	rounds := 0
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		rounds++
		if rounds > 5000 {
			report("undecided", take, "the paths of this function are too many")
			return
		}
		cur := map[pstate]bool{}
		for s := range in[b] {
			cur[s] = true
		}
		for _, ins := range b.Instrs {
			nx := map[pstate]bool{}
			for s := range cur {
				switch y := ins.(type) {
				case *ssa.Call:
					if y == take {
						if s.st == 'r' && s.defrd != "" && c.pendingRelease(s.defrd, dlist) {
							once("loop", func() {
								report("twice", y, "given back in the loop and again when the function returns")
							})
						}
						// deferred calls of earlier rounds belong to other objects
						nx[pstate{'h', ""}] = true
						continue
					}
					a := effect(y)
					switch {
					case a.rel:
						released = true
						if s.st == 'r' {
							once("twice"+p.insPos(y), func() {
								report("twice", y, "given back a second time on one path: two users then share it")
							})
						}
						if s.st != 'n' {
							nx[pstate{'r', s.defrd}] = true
							if !a.always {
								nx[s] = true
							}
							continue
						}
					case a.use && s.st == 'r':
						once("after"+p.insPos(y), func() {
							report("after", y, "used after it was given back: another user may have it by now")
						})
					}
					nx[s] = true
				case *ssa.Defer:
					a := effect(y)
					if (a.rel || a.use) && s.st != 'n' {
						if _, ok := idx[y]; !ok {
							idx[y] = len(dlist)
							dlist = append(dlist, y)
						}
						if a.rel {
							released = true
						}
						d := fmt.Sprint(idx[y])
						if !strings.Contains(","+s.defrd+",", ","+d+",") {
							if s.defrd != "" {
								s.defrd += ","
							}
							s.defrd += d
						} else if a.rel {
							once("twiceloop"+d, func() {
								report("twice", y, "given back once for every round of a loop")
							})
						}
						nx[s] = true
						continue
					}
					nx[s] = true
				case *ssa.RunDefers:
					nx[runDefers(s, y)] = true
				case *ssa.Return:
					for _, r := range y.Results {
						if touch(vals(r)) && (s.st == 'r') {
							once("ret"+p.insPos(y), func() {
								report("returned", y, "the function returns it (or its memory) although it gives it back")
							})
						}
					}
					if s.st == 'h' && !c.take[fn] {
						leaks = append(leaks, y)
					}
					nx[s] = true
				case *ssa.Go:
					if a := effect(y); a.rel || a.use {
						once("go"+p.insPos(y), func() {
							report("goroutine", y, "handed to a goroutine: whether that ends before the object is given back is not decided")
						})
					}
					nx[s] = true
				case *ssa.DebugRef, *ssa.Phi, *ssa.If, *ssa.Jump:
					nx[s] = true
				default:
					if s.st == 'r' && usesMemory(ins) && uses(ins) {
						once("after"+p.insPos(ins), func() {
							report("after", ins, "used after it was given back: another user may have it by now")
						})
					}
					nx[s] = true
				}
			}
			cur = nx
		}
		for _, s := range b.Succs {
			ch := false
			for st := range cur {
				if in[s] == nil {
					in[s] = map[pstate]bool{}
				}
				if !in[s][st] {
					in[s][st] = true
					ch = true
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
	// not given back: unless it is handed on
	handedOn := false
	for l := range x.facts {
		if l.ext() && !c.pool(fn, l) {
			for fk := range x.facts[l] {
				if touch(avals{fk.v: true}) {
					handedOn = true
				}
			}
		}
	}
	for _, r := range leaks {
		ret := false
		for _, v := range r.Results {
			if touch(vals(v)) {
				ret = true
			}
		}
		if !ret && !handedOn {
			r := r
			once("leak"+p.insPos(r), func() {
				report("leak", r, "not given back when the function returns here")
			})
		}
	}
	// memory that stays reachable from elsewhere
	if released {
		var ls []*loc
		for l := range x.facts {
			if l.ext() && !c.pool(fn, l) {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].key < ls[j].key })
		for _, l := range ls {
			for fk := range x.facts[l] {
				if touch(avals{fk.v: true}) {
					once("kept"+l.key, func() {
						report("kept", take, "it (or its memory) stays reachable through %s although it is given back", niceLoc(fn, l))
					})
				}
			}
		}
	}
	res.sample("%s: %s takes %s; given back: %v", p.insPos(take), fname(fn), take.Type(), released)
}

// pool: the location is inside a pool.
func (c *poolCheck) pool(fn *ssa.Function, l *loc) bool {
	if g := c.p.globalOf(l); g != nil && syncType(deref(g.Type())) == "Pool" {
		return true
	}
	for i := range l.steps {
		if t := typeAt(fn, &loc{root: l.root, steps: l.steps[:i+1]}); t != nil && syncType(t) == "Pool" {
			return true
		}
	}
	return false
}

// pendingRelease: one of the deferred calls gives the object back.
func (c *poolCheck) pendingRelease(ds string, list []*ssa.Defer) bool {
	for _, d := range strings.Split(ds, ",") {
		var n int
		if _, err := fmt.Sscan(d, &n); err == nil {
			if c.p.releases(list[n], c.put) != nil {
				return true
			}
			if mc, ok := list[n].Call.Value.(*ssa.MakeClosure); ok {
				if f := c.p.effects().closureFn(mc); f != nil {
					for _, fv := range f.FreeVars {
						if c.closureReleases(f, fv) != nil {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// closureReleases: the instruction by which a function literal gives a captured object back.
func (c *poolCheck) closureReleases(f *ssa.Function, fv *ssa.FreeVar) ssa.Instruction {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			v := c.p.releases(ins, c.put)
			if v == nil {
				continue
			}
			if u, ok := v.(*ssa.UnOp); ok {
				v = u.X
			}
			if v == ssa.Value(fv) {
				return ins
			}
		}
	}
	return nil
}

// usesMemory: the instruction reads or writes through a reference.
func usesMemory(ins ssa.Instruction) bool {
	switch y := ins.(type) {
	case *ssa.UnOp:
		// loading a local variable that holds the reference does not touch the object
		_, local := y.X.(*ssa.Alloc)
		_, fv := y.X.(*ssa.FreeVar)
		return !local && !fv
	case *ssa.Store:
		_, local := y.Addr.(*ssa.Alloc)
		return !local
	case *ssa.IndexAddr, *ssa.Index, *ssa.Lookup, *ssa.MapUpdate, *ssa.Range, *ssa.Next, *ssa.Send:
		return true
	}
	return false
}

// empty: an object that comes out of a pool has no content of an earlier use.
func (c *poolCheck) empty() {
	p, res := c.p, c.res
	type pool struct {
		gets, puts []*ssa.CallCommon
		getIns     []ssa.Instruction
		putIns     []ssa.Instruction
	}
	pools := map[string]*pool{}
	at := func(v ssa.Value) *pool {
		k := v.Name()
		if g, ok := v.(*ssa.Global); ok {
			k = g.RelString(nil)
		} else if f := fieldOfAddr(v, 0); f != "" {
			k = f
		}
		if pools[k] == nil {
			pools[k] = &pool{}
		}
		return pools[k]
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				switch fullCallee(cc) {
				case poolGet:
					q := at(cc.Args[0])
					q.gets = append(q.gets, cc)
					q.getIns = append(q.getIns, ins)
				case poolPut:
					q := at(cc.Args[0])
					q.puts = append(q.puts, cc)
					q.putIns = append(q.putIns, ins)
				}
			}
		}
	}
	var names []string
	for k := range pools {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		q := pools[k]
		cleanPut := true
		var bad ssa.Instruction
		for i, cc := range q.puts {
			if !c.resetBeforePut(q.putIns[i], bare(cc.Args[1])) {
				cleanPut = false
				bad = q.putIns[i]
			}
		}
		cleanGet := len(q.gets) > 0
		for _, g := range q.getIns {
			if !c.resetAfterGet(g) {
				cleanGet = false
			}
		}
		if !cleanPut && !cleanGet {
			res.add("dirty", fname(bad.Parent()), "pool "+k, p.insPos(bad), "an object goes back to the pool %s without being emptied, and is not emptied when it is taken: the next user finds the content of the last", k)
		}
	}
	res.floor("pools", len(names), 0)
}

// resetBeforePut: the object is emptied on every way to the instruction and not filled again.
func (c *poolCheck) resetBeforePut(at ssa.Instruction, v ssa.Value) bool {
	fn := at.Parent()
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if ins == at || !dominates(ins, at) || !c.resets(ins, v, 0) {
				continue
			}
			// nothing touches it in between
			ok := true
			for _, r := range *v.Referrers() {
				if r == ins || r == at || !reachesIns(ins, r) || !reachesIns(r, at) {
					continue
				}
				switch r.(type) {
				case *ssa.DebugRef, *ssa.MakeInterface:
					continue
				}
				if cl, isCall := r.(*ssa.Call); isCall && pureMethod(fullCallee(&cl.Call), methodName(fullCallee(&cl.Call))) {
					continue
				}
				if c.resets(r, v, 0) {
					continue
				}
				ok = false
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// resets: the instruction empties the object (a Reset or Truncate(0) call, or a helper that does).
func (c *poolCheck) resets(ins ssa.Instruction, v ssa.Value, depth int) bool {
	ci, ok := ins.(ssa.CallInstruction)
	if !ok {
		if st, ok := ins.(*ssa.Store); ok && st.Addr == v {
			if u, ok := st.Val.(*ssa.UnOp); ok {
				if al, ok := u.X.(*ssa.Alloc); ok {
					whole, fields := allocStores(al)
					return len(whole) == 0 && len(fields) == 0
				}
			}
			_, ok := st.Val.(*ssa.Const)
			return ok
		}
		return false
	}
	if _, isDefer := ins.(*ssa.Defer); isDefer {
		return false
	}
	cc := ci.Common()
	full := fullCallee(cc)
	if len(cc.Args) > 0 && bare(cc.Args[0]) == bare(v) {
		if methodName(full) == "Reset" {
			return true
		}
		if full == "(*bytes.Buffer).Truncate" {
			k, ok := cc.Args[1].(*ssa.Const)
			return ok && k.Int64() == 0
		}
	}
	f := cc.StaticCallee()
	if f == nil || f.Blocks == nil || !c.p.owns(f) || depth > 2 {
		return false
	}
	for i, a := range cc.Args {
		if bare(a) != bare(v) {
			continue
		}
		for _, b := range f.Blocks {
			for _, i2 := range b.Instrs {
				if alwaysRuns(i2) && c.resets(i2, f.Params[i], depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// resetAfterGet: the object is emptied by the function that takes it before anything else happens to it.
func (c *poolCheck) resetAfterGet(get ssa.Instruction) bool {
	v, ok := get.(ssa.Value)
	if !ok {
		return false
	}
	var obj []ssa.Value
	for _, r := range *v.Referrers() {
		if ta, ok := r.(*ssa.TypeAssert); ok {
			obj = append(obj, ta)
		}
	}
	for _, o := range obj {
		var rs ssa.Instruction
		for _, r := range *o.Referrers() {
			if c.resets(r, o, 0) {
				rs = r
			}
		}
		if rs == nil {
			return false
		}
		for _, r := range *o.Referrers() {
			if _, ok := r.(*ssa.DebugRef); ok || r == rs {
				continue
			}
			if !dominates(rs, r) {
				return false
			}
		}
	}
	return len(obj) > 0
}

// fields: an object given back by way of a field of a structure may be given back again by a second call.
func (c *poolCheck) fields() {
	p, res := c.p, c.res
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				v := p.releases(ins, c.put)
				if v == nil {
					continue
				}
				k := fieldOfAddr(v, 0)
				if k == "" {
					continue
				}
				cleared := false
				for _, b2 := range fn.Blocks {
					for _, i2 := range b2.Instrs {
						if st, ok := i2.(*ssa.Store); ok && fieldOfAddr(st.Addr, 0) == k && (reachesIns(ins, st) || dominates(st, ins)) {
							cleared = true
						}
					}
				}
				if !cleared {
					res.add("field", fname(fn), k, p.insPos(ins), "%s is given back to the pool but keeps referring to it: a second call gives it back twice or uses it", k)
				}
			}
		}
	}
}
