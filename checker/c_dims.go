package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["L01"] = checkL01 }

func checkL01(p *Prog) *Result {
	needHeights = true
	res := newResult("dimension analysis (units or points) by forward abstract interpretation with the calls inlined",
		"numbers made from integers (font and image data) and constants fit in either dimension",
		"font sizes are given in points")
	type said struct {
		rule, fn, construct string
	}
	seen := map[said]bool{}
	d := p.newDims(nil)
	d.bad = func(rule string, ins ssa.Instruction, construct, format string, a ...any) {
		k := said{rule, fname(ins.Parent()), construct}
		if !seen[k] {
			seen[k] = true
			res.add(rule, k.fn, construct, p.insPos(ins), format, a...)
		}
	}
	// sizes of fonts are points
	for _, fn := range p.Funcs {
		if recvName(fn) == "GoPdf" && fn.Name() == "SetFontSize" {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok && isFloat(st.Val.Type()) {
						if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
							d.points["."+structOf(deref(fa.X.Type())).Field(fa.Field).Name()] = true
						}
					}
				}
			}
		}
	}
	res.floor("sizes given in points", len(d.points), 1)
	roots := d.roots()
	for pass := 0; pass < 6; pass++ {
		d.changed = false
		for _, fn := range roots {
			d.runRoot(fn)
		}
		if !d.changed {
			break
		}
	}
	d.final = true
	d.masks = map[ssa.Value]dmask{}
	for _, fn := range roots {
		d.runRoot(fn)
	}
	d.fields(res)
	d.operands(res)
	d.results(res, roots)
	if d.gaveUp != "" {
		res.add("undecided", "-", "analysis", "-", "%s", d.gaveUp)
	}
	res.Counts["roots"] = len(roots)
	res.Counts["numbers of the document"] = len(d.from)
	return res
}

func (d *dims) roots() []*ssa.Function {
	var out []*ssa.Function
	holder := map[string]bool{}
	for _, n := range d.p.namedTypes() {
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if pt, ok := s.Field(i).Type().(*types.Pointer); ok && tname(pt.Elem()) == "GoPdf" {
				holder[n.Obj().Name()] = true
			}
		}
	}
	e := d.p.emission()
	writer := map[*ssa.Function]bool{}
	for _, f := range e.cacheFns {
		writer[f] = true
	}
	for _, f := range e.liveObj {
		writer[f] = true
	}
	d.writers = writer
	for _, fn := range d.p.Funcs {
		if fn.Parent() != nil || fn.Blocks == nil || fn.Synthetic != "" || !d.relevant[fn] {
			continue
		}
		if _, ok := d.conversion(fn); ok {
			continue
		}
		exp := fn.Object() != nil && fn.Object().Exported()
		r := recvName(fn)
		switch {
		case writer[fn], exp && (r == "GoPdf" || holder[r]):
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

func (d *dims) runRoot(fn *ssa.Function) {
	d.root = fn
	d.pointArg = false
	st := dstate{}
	var args []*dval
	for i, par := range fn.Params {
		if i == 0 && fn.Signature.Recv() != nil {
			t := par.Type()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				args = append(args, dPtr("T:"+tname(pt.Elem()), pt.Elem()))
			} else {
				args = append(args, d.load(st, "T:"+tname(t), t, 0))
			}
			continue
		}
		a := "R:" + par.Name()
		args = append(args, d.load(st, a, par.Type(), 0))
	}
	_, end := d.run(fn, args, nil, d.frame(0, nil, fn, 0), st)
	for k, v := range end {
		if k[0] != 'T' {
			continue
		}
		if v.m != 0 {
			if d.from[k] == nil {
				d.from[k] = map[string]dmask{}
			}
			d.from[k][fname(fn)] |= v.m
		}
		old := d.global[k]
		if old == nil {
			old = dNone
		}
		if n := v.join(old); !n.same(old) {
			d.global[k] = n
			d.changed = true
		}
	}
}

// fields: a number of the document is always in the same dimension.
func (d *dims) fields(res *Result) {
	var ks []string
	for k := range d.from {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		by := map[dmask][]string{}
		all := dmask(0)
		for fn, m := range d.from[k] {
			by[m] = append(by[m], fn)
			all |= m
		}
		if all.single() {
			res.sample("%s: %s", strings.TrimPrefix(k, "T:"), all)
			continue
		}
		most, n := dmask(0), 0
		for m, fns := range by {
			sort.Strings(fns)
			if m.single() && (len(fns) > n || len(fns) == n && m == dPoint) {
				most, n = m, len(fns)
			}
		}
		for m, fns := range by {
			if m == most {
				continue
			}
			for _, fn := range fns {
				res.add("field", fn, strings.TrimPrefix(k, "T:"), "-", "%s sets %s to %s, elsewhere it is %s", fn, strings.TrimPrefix(k, "T:"), m, most)
			}
		}
	}
}

// results: what exported calls give back is in units.
func (d *dims) results(res *Result, roots []*ssa.Function) {
	n := 0
	for _, fn := range roots {
		if fn.Object() == nil || !fn.Object().Exported() || recvName(fn) != "GoPdf" {
			continue
		}
		for _, r := range returnsOf(fn) {
			for i, v := range r.Results {
				if !isFloat(v.Type()) {
					continue
				}
				n++
				if m := d.masks[v]; m&^dUnit != 0 {
					res.add("result", fname(fn), "result", d.p.insPos(r), "result %d is given back in %s", i, m)
				}
			}
		}
	}
	res.floor("lengths given back", n, 5)
}

// operands: every length written is in points.
func (d *dims) operands(res *Result) {
	e := d.p.emission()
	n := 0
	judge := func(r *reporter) {
		var ks []string
		for k := range r.coords {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			c := r.coords[k]
			if !isLength(c.what) {
				continue
			}
			n++
			for _, b := range c.srcs {
				m, ok := d.masks[b.v]
				if !ok || m == dPoint || m == 0 {
					continue
				}
				res.add("written", c.fn, c.what, c.pos, "%s is written in %s", c.what, m)
			}
		}
	}
	for _, f := range e.cacheFns {
		judge(e.contents[f].r)
	}
	for _, f := range e.liveObj {
		judge(e.objs[f].r)
	}
	res.floor("lengths written", n, 60)
}

// isLength: the operand is a position or a size on the page.
func isLength(what string) bool {
	for _, op := range []string{" of m", " of l", " of c", " of v", " of y", " of re", " of Td", " of TD", " of w", " of TL", " of Tc"} {
		if strings.HasSuffix(what, op) {
			return true
		}
	}
	switch what {
	case "operand 2 of d", "operand 5 of cm", "y operand of cm", "operand 5 of Tm", "y operand of Tm":
		return true
	}
	return strings.Contains(what, "/Rect") || strings.Contains(what, "/QuadPoints") || strings.Contains(what, "/MediaBox") || strings.Contains(what, "/Dest")
}
