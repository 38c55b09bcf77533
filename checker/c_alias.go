package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["O06"] = checkO06
}

// typeAt: the type of what is at a location rooted in a parameter, nil when the path leaves static types.
func typeAt(fn *ssa.Function, l *loc) types.Type {
	if l.root[0] != 'P' {
		return nil
	}
	var i int
	fmt.Sscanf(l.root, "P%d", &i)
	if i >= len(fn.Params) {
		return nil
	}
	t := fn.Params[i].Type()
	backing := false // t is a slice, array or map type and the path stands at its elements' storage
	for _, s := range l.steps {
		switch {
		case s == "*":
			if backing {
				return nil
			}
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				t = u.Elem()
			case *types.Slice, *types.Map:
				backing = true
			default:
				return nil
			}
		case s == "[]" || s == "[k]":
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			case *types.Map:
				if s == "[k]" {
					t = u.Key()
				} else {
					t = u.Elem()
				}
			default:
				return nil
			}
			backing = false
		case s[0] == '.':
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return nil
			}
			found := false
			for j := 0; j < st.NumFields(); j++ {
				if "."+st.Field(j).Name() == s {
					t = st.Field(j).Type()
					found = true
				}
			}
			if !found {
				return nil
			}
		default:
			return nil
		}
	}
	return t
}

// plain: a type whose memory belongs to the caller: slices, maps, and pointers to the structures of the
// analysed packages or to basic values.
func (p *Prog) plainRef(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Basic); ok {
			return true
		}
		if nt, ok := u.Elem().(*types.Named); ok {
			return nt.Obj().Pkg() != nil && p.inPkg[nt.Obj().Pkg()]
		}
	}
	return false
}

func paramOf(fn *ssa.Function, l *loc) *ssa.Parameter {
	if l.root[0] != 'P' {
		return nil
	}
	var i int
	fmt.Sscanf(l.root, "P%d", &i)
	if i >= len(fn.Params) {
		return nil
	}
	return fn.Params[i]
}

// callerData: the location is in memory the caller handed over as data (not the document itself or
// another object with behaviour).
func (p *Prog) callerData(fn *ssa.Function, l *loc) bool {
	pr := paramOf(fn, l)
	if pr == nil || fn.Signature.Recv() != nil && paramIndex(pr) == 0 {
		return false
	}
	return p.dataType(pr.Type(), 0)
}

// dataType: slices, maps, plain structures and pointers to them; not the document, and not structures
// that are objects of the library (those with unexported reference fields).
func (p *Prog) dataType(t types.Type, depth int) bool {
	if depth > 5 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Map:
		return true
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Basic); ok {
			return true
		}
		return p.dataType(u.Elem(), depth+1)
	case *types.Struct:
		nt, ok := t.(*types.Named)
		if ok && (nt.Obj().Pkg() == nil || !p.inPkg[nt.Obj().Pkg()]) {
			return false
		}
		return !p.isObject(t)
	}
	return false
}

// isObject: a document, or an object the document is made of.
func (p *Prog) isObject(t types.Type) bool {
	if n, ok := t.(*types.Named); ok {
		if n.Obj().Name() == "GoPdf" {
			return true
		}
		ms := types.NewMethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj()
			if !m.Exported() && (m.Name() == "write" || m.Name() == "init") {
				return true
			}
		}
	}
	return false
}

func (e *eff) isStep(l *loc) bool { return len(l.steps) > 0 }

// held: the values stored, directly or through new objects, in memory that outlives the call.
func (e *eff) held(s *summary, f func(dst *loc, v aval)) {
	for l, vs := range s.facts {
		if !l.ext() {
			continue
		}
		seen := map[string]bool{}
		var rec func(v aval)
		rec = func(v aval) {
			f(l, v)
			if v.l.ext() || seen[v.l.root] {
				return
			}
			seen[v.l.root] = true
			for m, ws := range s.facts {
				if m.root == v.l.root {
					for w := range ws {
						rec(w)
					}
				}
			}
		}
		for v := range vs {
			rec(v)
		}
	}
}

// documentCalls: the exported methods of the document and of the objects it hands out behind an
// exported interface.
func (p *Prog) documentCalls() []*ssa.Function {
	recv := map[string]bool{"GoPdf": true}
	for _, fn := range p.exportedAPI(p.Root) {
		r := fn.Signature.Recv()
		if r == nil {
			continue
		}
		if n, ok := deref(r.Type()).(*types.Named); !ok || n.Obj().Name() != "GoPdf" {
			continue
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			t := fn.Signature.Results().At(i).Type()
			it, ok := t.Underlying().(*types.Interface)
			n, named := t.(*types.Named)
			if !ok || !named || n.Obj().Pkg() == nil || !p.inPkg[n.Obj().Pkg()] {
				continue
			}
			for _, c := range p.namedTypes() {
				if types.Implements(types.NewPointer(c), it) || types.Implements(c, it) {
					recv[c.Obj().Name()] = true
				}
			}
		}
	}
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Pkg != p.Root || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Recv() == nil {
			continue
		}
		if n, ok := deref(fn.Signature.Recv().Type()).(*types.Named); ok && recv[n.Obj().Name()] {
			out = append(out, fn)
		}
	}
	return out
}

// hiddenPath: the path goes through a reference in an unexported field, which a caller cannot set.
func hiddenPath(fn *ssa.Function, l *loc) bool {
	for i, s := range l.steps {
		if unexportedStep(s) {
			for _, r := range l.steps[i+1:] {
				if r == "*" {
					return true
				}
			}
		}
	}
	return false
}

func unexportedStep(s string) bool { return s[0] == '.' && s[1] >= 'a' && s[1] <= 'z' }

// filledIn: arguments whose purpose is to be written: pointers to numbers, and the buffer of an io.Reader.
func filledIn(fn *ssa.Function, l *loc) bool {
	pr := paramOf(fn, l)
	t := pr.Type()
	if sl, ok := t.Underlying().(*types.Slice); ok {
		t = sl.Elem()
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if _, ok := pt.Elem().Underlying().(*types.Basic); ok {
			return true
		}
	}
	s := fn.Signature
	return fn.Name() == "Read" && s.Params().Len() == 1 && isBytes(s.Params().At(0).Type()) && s.Results().Len() == 2
}

func checkO06(p *Prog) *Result {
	res := newResult("interprocedural effect analysis: no exported call writes memory reachable from a caller's slice or option structure, or stores a reference into it where it outlives the call",
		"library code outside the analysed packages follows the documented contracts (Write does not keep or change its argument, ...)")
	e := p.effects()
	calls, data := 0, 0
	for _, fn := range p.documentCalls() {
		s := e.sum[fn]
		if s == nil {
			continue
		}
		calls++
		for _, pr := range fn.Params {
			if p.dataType(pr.Type(), 0) && hasRefs(pr.Type()) {
				data++
			}
		}
		var ks []wkey
		for k := range s.writes {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool {
			if ks[i].l.key != ks[j].l.key {
				return ks[i].l.key < ks[j].l.key
			}
			return ks[i].ins.Pos() < ks[j].ins.Pos()
		})
		said := map[string]bool{}
		for _, k := range ks {
			if p.callerData(fn, k.l) && !hiddenPath(fn, k.l) && !filledIn(fn, k.l) && !behindInterface(fn, k.l) {
				n := niceLoc(fn, k.l)
				if !said[n] {
					said[n] = true
					res.add("modified", fname(fn), n, p.insPos(k.ins), "the caller's %s is %s here (in %s)", n, s.writes[k], fname(k.ins.Parent()))
				}
			}
		}
		kept := map[string]*loc{}
		e.held(s, func(dst *loc, v aval) {
			if v.k == aAgg || !p.callerData(fn, v.l) || dst.root == v.l.root || hiddenPath(fn, v.l) {
				return
			}
			if n := len(v.l.steps); v.k == aLeaf && n > 0 && unexportedStep(v.l.steps[n-1]) {
				return
			}
			if v.k == aLeaf {
				if t := typeAt(fn, v.l); !p.plainRef(t) || !p.dataType(t, 0) || isBytes(t) {
					return
				}
			}
			n := niceLoc(fn, v.l)
			if v.k == aAddr {
				n = "&" + n
			}
			if o := kept[n]; o == nil || dst.key < o.key {
				kept[n] = dst
			}
		})
		var ns []string
		for n := range kept {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			res.add("kept", fname(fn), n, p.pos(fn.Pos()), "a reference to the caller's %s is kept in %s after the call", n, niceLoc(fn, kept[n]))
		}
	}
	res.floor("exported calls", calls, 100)
	res.floor("parameters holding caller data", data, 20)
	return res
}

// behindInterface: the memory of an object that the caller passed as an interface or a function.
func behindInterface(fn *ssa.Function, l *loc) bool {
	for i, s := range l.steps {
		if s != "*" {
			continue
		}
		t := typeAt(fn, &loc{root: l.root, steps: l.steps[:i]})
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Interface, *types.Signature:
			return true
		case *types.Pointer:
			if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg() != fn.Pkg.Pkg {
				return true
			}
		}
	}
	return false
}

// niceLoc writes a location with the parameter's name.
func niceLoc(fn *ssa.Function, l *loc) string {
	r := l.root
	if pr := paramOf(fn, l); pr != nil {
		r = pr.Name()
	} else if r[0] == 'G' {
		r = r[2:]
	}
	var sb strings.Builder
	sb.WriteString(r)
	for _, s := range l.steps {
		if s == "*" {
			continue
		}
		sb.WriteString(s)
	}
	return sb.String()
}
