package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P02"] = checkP02 }

func (p *Prog) namedType(name string) *types.Named {
	for _, n := range p.namedTypes() {
		if n.Obj().Name() == name {
			return n
		}
	}
	return nil
}

func (p *Prog) methodOf(n *types.Named, name string) *ssa.Function {
	for _, fn := range p.Funcs {
		if fn.Name() == name && fn.Signature.Recv() != nil && fn.Synthetic == "" && types.Identical(deref(fn.Signature.Recv().Type()), n) {
			return fn
		}
	}
	return nil
}

// effectsWithout solves the effects with the given functions taken to do nothing.
func (p *Prog) effectsWithout(cut map[*ssa.Function]bool) *eff {
	e := &eff{p: p, locs: map[string]*loc{}, sites: map[string]ssa.Value{}, ids: map[ssa.Instruction]int{}, sum: map[*ssa.Function]*summary{}, full: map[*ssa.Function]*fx{}, taken: p.takenFuncs(), cut: cut}
	e.solve()
	return e
}

// checkP02: who may write key material, and what object keys are made of.
func checkP02(p *Prog) *Result {
	res := newResult("interprocedural effect analysis of the key derivation and of set-up; read set and dependence of object keys",
		"the hash and cipher of the Go library do not change their inputs")
	pt := p.namedType("PDFProtection")
	if pt == nil {
		res.add("anchor", "-", "PDFProtection", "", "the type PDFProtection was not found")
		return res
	}
	setup, derive := p.methodOf(pt, "SetProtection"), p.methodOf(pt, "Objectkey")
	if setup == nil || derive == nil {
		res.add("anchor", "-", "SetProtection/Objectkey", "", "the set-up or the object key method of PDFProtection was not found")
		return res
	}
	e := p.effects()
	inDerive := p.reach(derive)
	inSetup := map[*ssa.Function]bool{}
	cut := map[*ssa.Function]bool{}
	for f := range p.reach(setup) {
		inSetup[f] = true
		if !inDerive[f] {
			cut[f] = true
		}
	}
	// 1. deriving a key changes nothing that outlives it, and hands out memory of its own
	for _, k := range sortedWrites(e.sum[derive]) {
		res.add("derive-writes", fname(derive), niceLoc(derive, k.l), p.insPos(k.ins), "deriving an object key %s %s (in %s)", passive(e.sum[derive].writes[k]), niceLoc(derive, k.l), fname(k.ins.Parent()))
	}
	e.held(e.sum[derive], func(dst *loc, v aval) {
		res.add("derive-keeps", fname(derive), niceLoc(derive, dst), p.pos(derive.Pos()), "deriving an object key leaves a reference in %s", niceLoc(derive, dst))
	})
	for _, r := range e.sum[derive].returns {
		for v := range r {
			if v.l.ext() {
				res.add("derive-returns", fname(derive), niceLoc(derive, v.l), p.pos(derive.Pos()), "the object key handed out is the memory of %s, which its user may write", niceLoc(derive, v.l))
			}
		}
	}
	// 2. set-up leaves passwords alone
	for _, k := range sortedWrites(e.sum[setup]) {
		if k.l.root == "P0" {
			continue
		}
		res.add("setup-writes", fname(setup), niceLoc(setup, k.l), p.insPos(k.ins), "setting up protection: %s is %s (in %s)", niceLoc(setup, k.l), e.sum[setup].writes[k], fname(k.ins.Parent()))
	}
	pass := 0
	for i, pr := range setup.Params {
		if isBytes(pr.Type()) && i > 0 {
			pass++
		}
	}
	// 3. passwords and the padding constant are written nowhere, key fields nowhere outside set-up
	fields, whole := p.readFields(inDerive, pt)
	pads := map[string]bool{}
	for f := range p.reach(setup, derive) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && p.inPkg[g.Pkg.Pkg] {
						pads["G:"+g.Pkg.Pkg.Name()+"."+g.Name()] = true
					}
				}
			}
		}
	}
	for _, fn := range p.Funcs {
		s := e.sum[fn]
		if s == nil || isInit(fn) {
			continue
		}
		for _, k := range sortedWrites(s) {
			if pads[k.l.root] {
				res.add("padding", fname(k.ins.Parent()), niceLoc(fn, k.l), p.insPos(k.ins), "the constant %s, which keys are made from, is %s here", niceLoc(fn, k.l), s.writes[k])
			}
			for i, st := range k.l.steps {
				if (st == ".UserPass" || st == ".OwnerPass") && i < len(k.l.steps)-1 {
					res.add("password", fname(k.ins.Parent()), niceLoc(fn, k.l), p.insPos(k.ins), "the caller's password %s is %s here", niceLoc(fn, k.l), s.writes[k])
				}
			}
		}
	}
	e2 := p.effectsWithout(cut)
	for _, fn := range p.Funcs {
		s := e2.sum[fn]
		if s == nil || cut[fn] {
			continue
		}
		for _, k := range sortedWrites(s) {
			f := p.protectionPart(fn, k.l, pt)
			if f == "" || !(fields[firstOf(f)] || f == "whole") {
				continue
			}
			res.add("key", fname(k.ins.Parent()), f, p.insPos(k.ins), "%s of the protection, which object keys are made from, is %s outside set-up (reached from %s)", f, s.writes[k], fname(fn))
		}
	}
	// 4. object keys are made of the document key and the object number, and of both
	if whole {
		res.add("reads", fname(derive), "protection", p.pos(derive.Pos()), "the whole protection value is read to derive an object key: the parts it depends on cannot be told")
	}
	for f := range inDerive {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					full := fullCallee(ci.Common())
					if strings.HasPrefix(full, "time.") || strings.HasPrefix(full, "math/rand") || strings.HasPrefix(full, "(*math/rand") || strings.HasPrefix(full, "crypto/rand") || strings.HasPrefix(full, "os.") {
						res.add("reads", fname(f), full, p.insPos(ins), "an object key depends on %s", full)
					}
				}
			}
		}
	}
	keyFields := 0
	for f := range fields {
		if isBytes(fieldType(pt, f)) {
			keyFields++
		}
	}
	if keyFields == 0 {
		res.add("depends", fname(derive), "key", p.pos(derive.Pos()), "no byte slice of the protection is read to derive an object key")
	}
	num := -1
	for i, pr := range derive.Params {
		if i > 0 && isInteger(pr.Type()) {
			num = i
		}
	}
	if num < 0 || !p.flowsToReturn(derive, derive.Params[num], 0) {
		res.add("depends", fname(derive), "number", p.pos(derive.Pos()), "the object key does not depend on the object number")
	}
	if !p.flowsToReturn(derive, derive.Params[0], 0) {
		res.add("depends", fname(derive), "document key", p.pos(derive.Pos()), "the object key does not depend on the document key")
	}
	res.floor("password parameters of set-up", pass, 2)
	res.floor("functions of set-up", len(inSetup), 4)
	res.floor("fields object keys are made from", len(fields), 1)
	res.floor("constants used for keys", len(pads), 1)
	var fs []string
	for f := range fields {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	res.sample("fields read to derive an object key: %s", strings.Join(fs, ", "))
	return res
}

func passive(how string) string {
	if strings.HasPrefix(how, "written by ") {
		return how[len("written by "):] + " writes"
	}
	return map[string]string{"assigned": "assigns", "appended to": "appends to", "copied into": "copies into", "map entry set": "sets an entry of", "entry removed": "removes an entry of"}[how]
}

func firstOf(f string) string {
	if i := strings.IndexAny(f[1:], ".["); i >= 0 {
		return f[:i+1]
	}
	return f
}

func fieldType(n *types.Named, f string) types.Type {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if "."+st.Field(i).Name() == f {
			return st.Field(i).Type()
		}
	}
	return types.Typ[types.Invalid]
}

// readFields: the fields of the structure accessed by the functions; whole is set when it is read as one value.
func (p *Prog) readFields(fns map[*ssa.Function]bool, n *types.Named) (map[string]bool, bool) {
	out := map[string]bool{}
	whole := false
	for f := range fns {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch y := ins.(type) {
				case *ssa.FieldAddr:
					if types.Identical(deref(y.X.Type()), n) {
						out["."+fieldName(y.X.Type(), y.Field)] = true
					}
				case *ssa.Field:
					if types.Identical(y.X.Type(), n) {
						out["."+fieldName(y.X.Type(), y.Field)] = true
					}
				case *ssa.MakeInterface:
					if types.Identical(y.X.Type(), n) || types.Identical(deref(y.X.Type()), n) {
						whole = true
					}
				}
			}
		}
	}
	return out, whole
}

// protectionPart: the part of a protection value a location lies in.
func (p *Prog) protectionPart(fn *ssa.Function, l *loc, pt *types.Named) string {
	pr := paramOf(fn, l)
	var t types.Type
	steps := l.steps
	switch {
	case pr != nil:
		t = pr.Type()
	default:
		return ""
	}
	f := p.pathInside(t, steps, pt)
	return f
}

// pathInside: the rest of an access path from the first value of type n on; "whole" when it ends there.
func (p *Prog) pathInside(t types.Type, steps []string, n *types.Named) string {
	for i := 0; i <= len(steps); i++ {
		if types.Identical(t, n) {
			if i == len(steps) {
				return "whole"
			}
			var sb strings.Builder
			for _, r := range steps[i:] {
				if r != "*" {
					sb.WriteString(r)
				}
			}
			if sb.Len() == 0 {
				return "whole"
			}
			return sb.String()
		}
		if i == len(steps) {
			return ""
		}
		t = stepType(t, steps[i])
		if t == nil {
			return ""
		}
	}
	return ""
}

// stepType follows one access step; storage of a slice or map keeps its type.
func stepType(t types.Type, s string) types.Type {
	switch {
	case s == "?":
		return nil
	case s == "*":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return u.Elem()
		case *types.Slice, *types.Map:
			return t
		}
		return nil
	case s == "[]" || s == "[k]":
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return u.Elem()
		case *types.Array:
			return u.Elem()
		case *types.Map:
			if s == "[k]" {
				return u.Key()
			}
			return u.Elem()
		}
		return nil
	case s[0] == '.':
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for j := 0; j < st.NumFields(); j++ {
			if "."+st.Field(j).Name() == s {
				return st.Field(j).Type()
			}
		}
	}
	return nil
}

// flowsToReturn: whether a parameter's value (or what it refers to) can influence a result of the function.
func (p *Prog) flowsToReturn(fn *ssa.Function, param *ssa.Parameter, depth int) bool {
	if depth > 6 || fn.Blocks == nil {
		return depth > 6
	}
	tainted := map[ssa.Value]bool{param: true}
	base := func(v ssa.Value) ssa.Value {
		for {
			switch y := v.(type) {
			case *ssa.IndexAddr:
				v = y.X
			case *ssa.FieldAddr:
				v = y.X
			case *ssa.Slice:
				v = y.X
			default:
				return v
			}
		}
	}
	changed := true
	mark := func(v ssa.Value) {
		if v != nil && !tainted[v] {
			tainted[v] = true
			changed = true
		}
	}
	for changed {
		changed = false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				hit := false
				for _, op := range ins.Operands(nil) {
					if *op != nil && (tainted[*op] || tainted[base(*op)]) {
						hit = true
					}
				}
				if !hit {
					continue
				}
				switch y := ins.(type) {
				case *ssa.Store:
					if tainted[y.Val] || tainted[base(y.Val)] {
						mark(base(y.Addr))
					}
				case *ssa.Return:
					for _, r := range y.Results {
						if tainted[r] || tainted[base(r)] {
							return true
						}
					}
				case *ssa.If, *ssa.Jump:
				case ssa.CallInstruction:
					cc := y.Common()
					passes := true
					if c := cc.StaticCallee(); c != nil && c.Blocks != nil && p.owns(c) {
						passes = false
						for i, a := range cc.Args {
							if (tainted[a] || tainted[base(a)]) && i < len(c.Params) && p.flowsToReturn(c, c.Params[i], depth+1) {
								passes = true
							}
						}
					}
					if v, ok := ins.(ssa.Value); ok && passes {
						mark(v)
					}
					for i, a := range cc.Args {
						if hasRefs(a.Type()) && p.mayWriteArg(cc, i) {
							mark(base(a))
						}
					}
					if cc.IsInvoke() {
						mark(cc.Value)
					}
				default:
					if v, ok := ins.(ssa.Value); ok {
						mark(v)
					}
				}
			}
		}
	}
	return false
}

// mayWriteArg: the call may write memory its i-th argument refers to.
func (p *Prog) mayWriteArg(cc *ssa.CallCommon, i int) bool {
	c := cc.StaticCallee()
	if c == nil || c.Blocks == nil || !p.owns(c) {
		return true
	}
	s := p.effects().sum[c]
	if s == nil {
		return true
	}
	for k := range s.writes {
		if k.l.root == fmt.Sprintf("P%d", i) {
			return true
		}
	}
	return false
}
