package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["L03"] = checkL03 }

// unitFactors: points per unit, by the name of the constant.
var unitFactors = map[string]float64{
	"Unset": 1, "PT": 1, "MM": 72 / 25.4, "CM": 72 / 2.54, "IN": 72, "PX": 72.0 / 96,
}

type unitCheck struct {
	p   *Prog
	res *Result
	e   *ceval
	cfg *types.Named
	max int
}

func checkL03(p *Prog) *Result {
	res := newResult("conditional constant propagation of every conversion, per unit, over monomials",
		"arithmetic on float64 is taken to be exact up to a relative error of 1e-9",
		"variadic conversions are evaluated for up to four variables, the most the library passes")
	u := &unitCheck{p: p, res: res, e: p.newCeval()}
	u.e.settle()
	u.e.positive["c"] = true
	u.cfg = p.namedType("Config")
	if u.cfg == nil {
		res.add("anchor", "", "Config", "-", "type Config not found")
		return res
	}
	units := u.units()
	u.functions(units)
	u.named(units)
	u.settings()
	res.floor("units", len(units), 6)
	return res
}

type unitConst struct {
	name string
	val  int64
	want float64 // 0: not one the standard names
}

// units: the constants for units; those named for a unit of the definition must be handled as such.
func (u *unitCheck) units() []unitConst {
	var out []unitConst
	seen := map[int64]string{}
	scope := u.p.Root.Pkg.Scope()
	have := map[string]bool{}
	for _, n := range scope.Names() {
		c, ok := scope.Lookup(n).(*types.Const)
		if !ok || !c.Exported() || !strings.HasPrefix(n, "Unit") || !isInteger(c.Type()) {
			continue
		}
		nm := strings.TrimPrefix(strings.TrimPrefix(n, "Unit"), "_")
		v, ok := constInt(ssa.NewConst(c.Val(), types.Typ[types.Int]))
		if !ok {
			continue
		}
		have[nm] = true
		if o, ok := seen[int64(v)]; ok && o != nm {
			u.res.add("units", "", n, u.p.pos(c.Pos()), "the constants of the units %s and %s are the same number", o, nm)
		}
		if o, ok := seen[int64(v)]; ok && o == nm {
			continue
		}
		seen[int64(v)] = nm
		out = append(out, unitConst{n, int64(v), unitFactors[nm]})
	}
	for nm := range unitFactors {
		if !have[nm] {
			u.res.add("units", "", nm, "-", "there is no constant for the unit %s", nm)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].val < out[j].val })
	return out
}

// setting is a state of the configuration a conversion depends on.
type setting struct {
	name     string
	unit     int64
	want     float64
	custom   bool // ConversionForUnit is set (to the unknown c)
	over     int64
	override bool
}

func (s setting) factor() cNum {
	if s.custom {
		return cSym("c")
	}
	return cNum{k: s.want}
}

// functions: every exported conversion, and those in terms of a configuration.
func (u *unitCheck) functions(units []unitConst) {
	kinds := map[string]int{}
	var fns []*ssa.Function
	for _, fn := range u.p.Funcs {
		if fn.Parent() == nil && fn.Pkg == u.p.Root && fn.Synthetic == "" {
			switch strings.ToLower(fn.Name()) {
			case "unitstopoints", "pointstounits", "unitstopointsvar", "pointstounitsvar":
				fns = append(fns, fn)
			}
		}
	}
	for _, fn := range fns {
		kind, ok := u.function(fn, units)
		if !ok {
			if fn.Object() != nil && fn.Object().Exported() {
				u.res.add("signature", fname(fn), "signature", u.p.pos(fn.Pos()), "a conversion with parameters the check does not know: %s", fn.Signature)
			}
			continue
		}
		if fn.Object().Exported() {
			kinds[kind]++
		}
	}
	u.res.Counts["conversions evaluated"] = len(fns)
	u.res.floor("conversions by unit", kinds["unit"], 4)
	u.res.floor("conversions of documents", kinds["document"], 4)
	u.res.floor("conversions of rectangles and boxes", kinds["shape"], 3)
}

// settings of the configuration in which a conversion is evaluated.
func unitSettings(units []unitConst, custom, override bool) []setting {
	var out []setting
	for _, c := range units {
		out = append(out, setting{name: c.name, unit: c.val, want: c.want})
		if custom {
			out = append(out, setting{name: c.name + " with a custom conversion", unit: c.val, want: c.want, custom: true})
		}
		if override {
			for _, o := range units {
				if o.val != 0 {
					out = append(out, setting{name: c.name + " for a shape in " + o.name, unit: c.val, want: o.want, over: o.val, override: true})
				}
			}
		}
	}
	return out
}

// config is a Config value with the unit and the conversion of the setting.
func (u *unitCheck) config(s setting) cval {
	v := u.e.zeroOf(u.cfg, 0)
	return u.withUnit(v, u.cfg, s.unit, s.custom)
}

func (u *unitCheck) withUnit(v cval, t types.Type, unit int64, custom bool) cval {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch {
		case strings.EqualFold(st.Field(i).Name(), "Unit"):
			v = cSet(v, []int{i}, cNum{k: float64(unit)})
		case strings.EqualFold(st.Field(i).Name(), "ConversionForUnit") && custom:
			v = cSet(v, []int{i}, cSym("c"))
		}
	}
	return v
}

// ownUnit: the shape can have a unit of its own.
func ownUnit(t types.Type) bool {
	st := structOf(t)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if in := structOf(st.Field(i).Type()); in != nil {
			for j := 0; j < in.NumFields(); j++ {
				if strings.EqualFold(in.Field(j).Name(), "Unit") {
					return true
				}
			}
		}
	}
	return false
}

// shape makes a rectangle or box with unknowns as its sides.
func (u *unitCheck) shape(t types.Type, s setting) (cval, []int) {
	v := u.e.zeroOf(t, 0)
	st := t.Underlying().(*types.Struct)
	var sides []int
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case isFloat(f.Type()):
			v = cSet(v, []int{i}, cSym("u"+f.Name()))
			sides = append(sides, i)
		case s.override && structOf(f.Type()) != nil:
			sub := u.withUnit(u.e.zeroOf(f.Type(), 0), f.Type(), s.over, false)
			v = cSet(v, []int{i}, sub)
		}
	}
	return v, sides
}

func (u *unitCheck) function(fn *ssa.Function, units []unitConst) (string, bool) {
	name := strings.ToLower(fn.Name())
	toPoints := strings.HasPrefix(name, "unitstopoints")
	variadic := strings.HasSuffix(name, "var")
	sig := fn.Signature
	var recv types.Type
	if sig.Recv() != nil {
		recv = sig.Recv().Type()
		if pt, ok := recv.Underlying().(*types.Pointer); ok {
			recv = pt.Elem()
		}
	}
	n := sig.Params().Len()
	pt := func(i int) types.Type { return sig.Params().At(i).Type() }
	isCfg := func(t types.Type) bool {
		_, ok := t.Underlying().(*types.Interface)
		return ok || types.Identical(t, u.cfg)
	}
	cfgArg := func(t types.Type, s setting) cval {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return cIface{u.cfg, u.config(s)}
		}
		return u.config(s)
	}
	switch {
	case recv == nil && n == 2 && (isInteger(pt(0)) || isCfg(pt(0))) && sig.Variadic() == variadic:
		ss := unitSettings(units, !isInteger(pt(0)), false)
		for _, s := range ss {
			s := s
			first := func() cval {
				if isInteger(pt(0)) {
					return cNum{k: float64(s.unit)}
				}
				return cfgArg(pt(0), s)
			}
			if variadic {
				u.vars(fn, s, toPoints, func() []cval { return []cval{first()} })
			} else {
				u.single(fn, s, toPoints, func() []cval { return []cval{first(), cSym("u")} })
			}
		}
		return "unit", true
	case recv != nil && tname(recv) == "GoPdf" && n == 1 && sig.Variadic() == variadic:
		at := u.configIn(recv)
		if at == nil {
			return "", false
		}
		for _, s := range unitSettings(units, true, false) {
			s := s
			doc := func() cval {
				v := u.e.zeroOf(recv, 0)
				f := recv.Underlying().(*types.Struct).Field(at[0])
				if _, ok := f.Type().Underlying().(*types.Pointer); ok {
					v = cSet(v, at, cPtr{obj: &cObj{v: u.config(s)}})
				} else {
					v = cSet(v, at, u.config(s))
				}
				return cPtr{obj: &cObj{v: v}}
			}
			if variadic {
				u.vars(fn, s, toPoints, func() []cval { return []cval{doc()} })
			} else {
				u.single(fn, s, toPoints, func() []cval { return []cval{doc(), cSym("u")} })
			}
		}
		return "document", true
	case recv != nil && structOf(recv) != nil && n == 1 && !variadic && (isInteger(pt(0)) || isCfg(pt(0))) && sig.Results().Len() == 1:
		_, byPtr := sig.Recv().Type().Underlying().(*types.Pointer)
		for _, s := range unitSettings(units, !isInteger(pt(0)), ownUnit(recv)) {
			s := s
			arg := func() cval {
				if isInteger(pt(0)) {
					return cNum{k: float64(s.unit)}
				}
				return cfgArg(pt(0), s)
			}
			u.shapes(fn, recv, byPtr, s, toPoints, arg)
		}
		if byPtr {
			s := unitSettings(units, false, false)[0]
			arg := func() []cval {
				if isInteger(pt(0)) {
					return []cval{cNil{}, cNum{k: float64(s.unit)}}
				}
				return []cval{cNil{}, cfgArg(pt(0), s)}
			}
			u.each(fn, "no shape", arg, func(r cval, _ []cval) {
				if _, ok := r.(cNil); !ok {
					u.bad(fn, "nil", "without a shape the result is not nil (%s)", show(r))
				}
			})
		}
		return "shape", true
	}
	return "", false
}

// configIn: the field of the document that holds its configuration.
func (u *unitCheck) configIn(t types.Type) []int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if pt, ok := ft.Underlying().(*types.Pointer); ok {
			ft = pt.Elem()
		}
		if types.Identical(ft, u.cfg) {
			return []int{i}
		}
	}
	return nil
}

func (u *unitCheck) bad(fn *ssa.Function, construct, format string, a ...any) {
	u.res.add("factor", fname(fn), construct, u.p.pos(fn.Pos()), format, a...)
}

func (u *unitCheck) each(fn *ssa.Function, what string, args func() []cval, f func(cval, []cval)) {
	u.res.Counts["evaluations"]++
	if !u.e.paths(fn, 64, args, f) {
		u.bad(fn, what, "the conversion cannot be evaluated for %s: %s", what, u.e.gaveUp)
	}
}

// same: the value is the unknown, converted.
func (u *unitCheck) same(v cval, sym string, s setting, toPoints bool) bool {
	n, ok := v.(cNum)
	if !ok {
		return false
	}
	if u.e.zero[sym] {
		return n.k == 0 || strings.Contains(n.pow, sym+":1")
	}
	if s.want == 0 && !s.custom { // a unit of its own: only that both directions agree
		return n.pow == sym+":1" && n.k != 0
	}
	sign := 1
	if !toPoints {
		sign = -1
	}
	w := cSym(sym).mul(s.factor(), sign)
	return n.pow == w.pow && math.Abs(n.k-w.k) <= 1e-9*math.Abs(w.k)
}

func (u *unitCheck) wanted(sym string, s setting, toPoints bool) string {
	sign := 1
	if !toPoints {
		sign = -1
	}
	return cSym(sym).mul(s.factor(), sign).String()
}

func show(v cval) string {
	switch x := v.(type) {
	case cNum:
		return x.String()
	case cUnk:
		return "not known: " + x.why
	}
	return fmt.Sprintf("%v", v)
}

func (u *unitCheck) single(fn *ssa.Function, s setting, toPoints bool, args func() []cval) {
	u.each(fn, s.name, args, func(r cval, _ []cval) {
		if !u.same(r, "u", s, toPoints) {
			u.bad(fn, s.name, "for %s the result is %s, expected is %s%s", s.name, show(r), u.wanted("u", s, toPoints), u.way())
		}
	})
}

func (u *unitCheck) way() string {
	if len(u.e.trace) == 0 {
		return ""
	}
	return " (when " + strings.Join(u.e.trace, ", ") + ")"
}

func (u *unitCheck) vars(fn *ssa.Function, s setting, toPoints bool, args func() []cval) {
	for n := 0; n <= 4; n++ {
		mk := func() []cval {
			arr := make(cStruct, n)
			for i := range arr {
				arr[i] = cPtr{obj: &cObj{v: cSym(fmt.Sprintf("u%d", i))}}
			}
			if n == 0 {
				return append(args(), cNil{})
			}
			return append(args(), cSlice{&cObj{v: arr}, 0, n, n})
		}
		u.each(fn, s.name, mk, func(_ cval, as []cval) {
			sl, ok := as[len(as)-1].(cSlice)
			if !ok {
				return
			}
			for i, pv := range sl.obj.v.(cStruct) {
				sym := fmt.Sprintf("u%d", i)
				if r := u.e.load(pv); !u.same(r, sym, s, toPoints) {
					u.bad(fn, s.name, "for %s variable %d of %d becomes %s, expected is %s%s", s.name, i+1, n, show(r), u.wanted(sym, s, toPoints), u.way())
				}
			}
		})
	}
}

func (u *unitCheck) shapes(fn *ssa.Function, t types.Type, byPtr bool, s setting, toPoints bool, arg func() cval) {
	v, sides := u.shape(t, s)
	st := t.Underlying().(*types.Struct)
	mk := func() []cval {
		if byPtr {
			return []cval{cPtr{obj: &cObj{v: v}}, arg()}
		}
		return []cval{v, arg()}
	}
	u.each(fn, s.name, mk, func(r cval, as []cval) {
		if pr, ok := r.(cPtr); ok {
			if byPtr && pr.obj == as[0].(cPtr).obj {
				u.bad(fn, "same", "the result is the shape that was given")
			}
			r = u.e.load(r)
		}
		for _, i := range sides {
			sym := "u" + st.Field(i).Name()
			if got := cAt(r, []int{i}); !u.same(got, sym, s, toPoints) {
				u.bad(fn, s.name, "for %s %s becomes %s, expected is %s%s", s.name, st.Field(i).Name(), show(got), u.wanted(sym, s, toPoints), u.way())
			}
			if byPtr {
				if now := cAt(u.e.load(as[0]), []int{i}); now != cval(cSym(sym)) {
					u.bad(fn, "changed", "the shape that is converted is changed itself: %s is %s", st.Field(i).Name(), show(now))
				}
			}
		}
	})
}

// named: the named page sizes are in points, in whatever unit the document is.
func (u *unitCheck) named(units []unitConst) {
	rect := u.p.namedType("Rect")
	if rect == nil {
		u.res.add("anchor", "", "Rect", "-", "type Rect not found")
		return
	}
	var conv *ssa.Function
	for _, fn := range u.p.Funcs {
		if fn.Signature.Recv() != nil && recvName(fn) == "Rect" && fn.Name() == "UnitsToPoints" {
			conv = fn
		}
	}
	n := 0
	var names []string
	for nm := range u.p.Root.Members {
		names = append(names, nm)
	}
	sort.Strings(names)
	for _, nm := range names {
		g, ok := u.p.Root.Members[nm].(*ssa.Global)
		if !ok || !strings.HasPrefix(nm, "PageSize") {
			continue
		}
		el := g.Type().Underlying().(*types.Pointer).Elem()
		if pt, ok := el.Underlying().(*types.Pointer); !ok || !types.Identical(pt.Elem(), rect) {
			continue
		}
		n++
		pv := u.e.global(g).v
		v, ok := u.e.load(pv).(cStruct)
		if !ok || conv == nil {
			u.res.add("page size", "", nm, u.p.pos(g.Pos()), "the value of %s cannot be evaluated", nm)
			continue
		}
		st := rect.Underlying().(*types.Struct)
		for _, c := range units {
			c := c
			u.each(conv, nm, func() []cval { return []cval{cPtr{obj: &cObj{v: v}}, cNum{k: float64(c.val)}} }, func(r cval, _ []cval) {
				r = u.e.load(r)
				for i := 0; i < st.NumFields(); i++ {
					if !isFloat(st.Field(i).Type()) {
						continue
					}
					a, ok1 := cAt(r, []int{i}).(cNum)
					b, ok2 := v[i].(cNum)
					if !ok1 || !ok2 || a.pow != "" || b.k <= 0 || math.Abs(a.k-b.k) > 1e-9*b.k {
						u.res.add("page size", "", nm, u.p.pos(g.Pos()), "%s is not a size in points for a document in %s: %s becomes %s", nm, c.name, show(v[i]), show(cAt(r, []int{i})))
					}
				}
			})
		}
	}
	u.res.floor("named page sizes", n, 15)
}

// settings: the unit and the conversion of a document are those the caller configured.
func (u *unitCheck) settings() {
	n := 0
	for k, list := range u.p.allStores() {
		nt := u.p.namedType(k.typ)
		if nt == nil {
			continue
		}
		st, _ := nt.Underlying().(*types.Struct)
		if st == nil || k.idx >= st.NumFields() {
			continue
		}
		f := st.Field(k.idx)
		if types.Identical(nt, u.cfg) && (f.Name() == "Unit" || f.Name() == "ConversionForUnit") {
			for _, s := range list {
				u.res.add("setting", fname(s.fn), f.Name(), u.p.insPos(s.ins), "%s of a configuration is changed", f.Name())
			}
		}
		if types.Identical(f.Type(), u.cfg) && k.typ == "GoPdf" {
			for _, s := range list {
				n++
				if !u.given(s.val) {
					u.res.add("setting", fname(s.fn), "config", u.p.insPos(s.ins), "the configuration that is kept is not the one the caller gave")
				}
			}
		}
	}
	u.res.floor("places that keep the configuration", n, 1)
}

// given: the value is a parameter (or the parameter's copy).
func (u *unitCheck) given(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok {
			whole, _ := allocStores(al)
			for _, s := range whole {
				if !u.given(s.Val) {
					return false
				}
			}
			return len(whole) > 0
		}
		_, ok := x.X.(*ssa.Parameter)
		return ok
	}
	return false
}
