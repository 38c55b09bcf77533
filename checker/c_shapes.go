package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// F07: lines, rectangles, polygons, ovals and curves. Each call is followed to the operators written for it, with the
// conversion of units taken as none (decided by L01 and L03); the operands are polynomials over the numbers given and
// the height of the page, and must be the path the call stands for.

func init() { checks["F07"] = checkF07 }

type shapes struct {
	*place
	paint        string // the style in the options of a rectangle
	height, size string // the keys of the height of a size, and of the size of the current page
}

type point struct{ x, y poly }

func (a point) equal(b point) bool { return near(a.x, b.x) && near(a.y, b.y) }
func (a point) String() string     { return "(" + a.x.String() + "; " + a.y.String() + ")" }

// near: the same but for the digits of a constant that are not printed.
func near(a, b poly) bool {
	for _, k := range a.plus(b, -1) {
		if f, _ := k.Float64(); f > 1e-4 || f < -1e-4 {
			return false
		}
	}
	return true
}

// segment of a path: a line, or a curve with its two control points.
type segment struct {
	to     point
	c1, c2 point
	curve  bool
}

type figure struct {
	from   point
	parts  []segment
	closed bool
}

func (g *figure) String() string {
	out := "from " + g.from.String()
	for _, s := range g.parts {
		if s.curve {
			out += " curve " + s.c1.String() + " " + s.c2.String() + " " + s.to.String()
		} else {
			out += " to " + s.to.String()
		}
	}
	if g.closed {
		out += " closed"
	}
	return out
}

func checkF07(p *Prog) *Result {
	res := newResult("path summaries of the calls that draw shapes, followed to the operators written; the path put together from the operators is compared, as polynomials over the numbers given and the height of the page, with the one the call stands for",
		"Writers accept what is written (O01); units are converted (L01, L03); numbers are printed with two digits; the page height is the current page's (L02).")
	v := &shapes{place: &place{variants: &variants{p: p, res: res, ce: p.newCeval(), adds: map[*ssa.Function]bool{}}}}
	v.ce.settle()
	v.consts = &tables{p: p, ce: v.ce}
	v.findAdders()
	h, ok1 := p.fieldNamed("Rect", "H")
	ps, ok2 := p.fieldNamed("Current", "pageSize")
	if !ok1 || !ok2 {
		v.undecided(nil, "shapes", "there is no field for the height of the page")
		return res
	}
	v.height, v.size = h.String(), ps.String()
	v.prep = func(s *psum) {
		model, fold, inline := s.model, s.rewrite, s.inline
		s.inline = func(g *ssa.Function, cc *ssa.CallCommon) bool {
			return inline(g, cc) || p.owns(g) && g.Signature.Results().Len() == 1 && isPoints(g.Signature.Results().At(0).Type())
		}
		s.model = func(st *pst, f *ssa.Function, args []*nd) *nd {
			n := strings.ToLower(f.Name())
			if p.owns(f) && strings.HasSuffix(n, "unitstopointsvar") {
				return ndAtom("converted")
			}
			if p.owns(f) && strings.HasSuffix(n, "unitstopoints") && len(args) == 2 {
				return args[1]
			}
			return model(st, f, args)
		}
		s.rewrite = func(n *nd) *nd {
			if e := listed(n); e != nil {
				return e
			}
			if v.paint != "" && n.op == "fld" && v.fieldIs(n, "P1", "DrawableRectOptions", "PaintStyle") {
				return ndLit(v.paint)
			}
			return fold(n)
		}
	}
	v.read = func(s *psum, r *pret, from *pst) ([]*pop, string) {
		for _, e := range effsSince(r.st, nil) {
			if e.kind == "store" && inList(e.addr) {
				return nil, "an element of a list is changed after it was put there"
			}
		}
		return v.printedSince(s, r, from, func(ops []*pop) bool {
			for _, o := range ops {
				if n := v.opName(o); n != "gs" {
					return true
				}
			}
			return false
		})
	}
	v.all()
	res.floor("shapes", res.Counts["shapes"], 12)
	return res
}

// listed is the element of a list whose elements are known.
func listed(n *nd) *nd {
	if !strings.HasPrefix(n.op, "ld") && !strings.HasPrefix(n.op, "elem") || len(n.a) != 2 {
		return nil
	}
	list, idx, fld := n.a[0], n.a[1], ""
	if strings.HasPrefix(n.op, "ld") {
		if list.op != "&i" {
			return nil
		}
		list, idx, fld = list.a[0], list.a[1], n.a[1].s
	}
	if list.op != "app" || !idx.isNum() || idx.k < 0 || idx.k+1 >= int64(len(list.a)) {
		return nil
	}
	if b := list.a[0]; b.op != "nil" && b.op != "zero" && !(b.op == "slc" && b.a[1].s == b.a[2].s) &&
		!(strings.HasPrefix(b.op, "mk") && len(b.a) == 1 && b.a[0].isNum() && b.a[0].k == 0) {
		return nil
	}
	e := list.a[1+idx.k]
	if fld == "" {
		return e
	}
	if e.op != "struct" || e.typ == nil {
		return nil
	}
	st, ok := e.typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields() && i < len(e.a); i++ {
		if fkey(e.typ, i).String() == fld {
			return e.a[i]
		}
	}
	return nil
}

// isPoints: a list of points, as a helper may give it.
func isPoints(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	return ok && tname(sl.Elem()) == "Point"
}

func inList(a *nd) bool {
	for a != nil && (a.op == "&f" || a.op == "&i") {
		if a = a.a[0]; a.op == "app" {
			return true
		}
	}
	return false
}

// name gives the height of the current page and the fields of parameters their names.
func (v *shapes) name(n *nd) string {
	if (strings.HasPrefix(n.op, "ld") || n.op == "fld") && len(n.a) == 2 {
		if n.a[1].s == v.height && strings.HasPrefix(n.a[0].op, "ld") && len(n.a[0].a) == 2 && n.a[0].a[1].s == v.size {
			return "height"
		}
		for _, q := range [][2]string{{"DrawableRectOptions", "X"}, {"DrawableRectOptions", "Y"}, {"DrawableRectOptions", "Rect"}, {"Rect", "W"}, {"Rect", "H"}} {
			if v.fieldIs(n, "", q[0], q[1]) && n.op == "fld" {
				return v.name(n.a[0]) + "." + q[1]
			}
		}
	}
	return n.s
}

// figures puts the paths together.
func (v *shapes) figures(ops []*pop) (out []*figure, why string) {
	var cur *figure
	var at point
	for _, o := range ops {
		name := v.opName(o)
		want := map[string]int{"m": 2, "l": 2, "c": 6, "v": 4, "y": 4, "re": 4}[name]
		var ps []poly
		if want > 0 {
			if len(o.args) != want {
				return nil, fmt.Sprintf("the operator %s has %d operands", name, len(o.args))
			}
			for _, a := range o.args {
				q, ok := v.operand(a, v.name)
				if !ok {
					return nil, "an operand of " + name + " is not known"
				}
				ps = append(ps, q)
			}
		}
		if cur == nil && (name == "l" || name == "c" || name == "v" || name == "y") {
			return nil, "a path does not begin with a point"
		}
		pt := func(i int) point { return point{ps[i], ps[i+1]} }
		switch name {
		case "m":
			cur = &figure{from: pt(0)}
			out, at = append(out, cur), pt(0)
		case "l":
			cur.parts, at = append(cur.parts, segment{to: pt(0)}), pt(0)
		case "c":
			cur.parts, at = append(cur.parts, segment{c1: pt(0), c2: pt(2), to: pt(4), curve: true}), pt(4)
		case "v":
			cur.parts, at = append(cur.parts, segment{c1: at, c2: pt(0), to: pt(2), curve: true}), pt(2)
		case "y":
			cur.parts, at = append(cur.parts, segment{c1: pt(0), c2: pt(2), to: pt(2), curve: true}), pt(2)
		case "re":
			a, c := pt(0), point{ps[0].plus(ps[2], 1), ps[1].plus(ps[3], 1)}
			g := &figure{from: a, closed: true}
			for _, q := range []point{{c.x, a.y}, c, {a.x, c.y}} {
				g.parts = append(g.parts, segment{to: q})
			}
			out, cur, at = append(out, g), nil, a
		case "h":
			if cur != nil {
				cur.closed = true
			}
		case "s", "b", "b*", "f", "F", "f*", "W", "W*":
			if cur != nil {
				cur.closed = true
			}
		case "cm":
			return nil, "the matrix is changed"
		}
	}
	for _, g := range out {
		// back to where it began is closed
		if n := len(g.parts); g.closed && n > 1 && !g.parts[n-1].curve && g.parts[n-1].to.equal(g.from) {
			g.parts = g.parts[:n-1]
		}
	}
	return out, ""
}

func (v *shapes) corners(g *figure) []point {
	out := []point{g.from}
	for _, s := range g.parts {
		if s.curve {
			return nil
		}
		out = append(out, s.to)
	}
	return out
}

// around: the same corners in the same order, from any of them on and either way.
func around(a, b []point) bool {
	n := len(b)
	if len(a) != n {
		return false
	}
	for i := range b {
		fwd, back := true, true
		for j := range a {
			fwd = fwd && a[j].equal(b[(i+j)%n])
			back = back && a[j].equal(b[((i-j)%n+n)%n])
		}
		if fwd || back {
			return true
		}
	}
	return false
}

func (v *shapes) all() {
	H := atomPoly("height")
	P := func(n string) poly { return atomPoly(n) }
	up := func(y poly) poly { return H.plus(y, -1) }
	at := func(x, y poly) point { return point{x, up(y)} }
	box := func(x0, y0, x1, y1 poly) []point {
		return []point{at(x0, y0), at(x1, y0), at(x1, y1), at(x0, y1)}
	}
	lower := func(x, y, w, h poly) []point { return box(x, y.plus(h, -1), x.plus(w, 1), y) }
	upper := func(x, y, w, h poly) []point { return box(x, y, x.plus(w, 1), y.plus(h, 1)) }
	polygon := func(want []point) func(*figure) bool {
		return func(g *figure) bool { return g.closed && around(v.corners(g), want) }
	}
	plain := [4]poly{P("P1"), P("P2"), P("P3"), P("P4")}
	opts := [4]poly{P("P1.X"), P("P1.Y"), P("P1.Rect.W"), P("P1.Rect.H")}
	v.shape("Line", nil, func(g *figure) bool {
		return !g.closed && g.from.equal(at(plain[0], plain[1])) && len(g.parts) == 1 && !g.parts[0].curve && g.parts[0].to.equal(at(plain[2], plain[3]))
	})
	v.shape("RectFromLowerLeft", nil, polygon(lower(plain[0], plain[1], plain[2], plain[3])))
	v.shape("RectFromUpperLeft", nil, polygon(upper(plain[0], plain[1], plain[2], plain[3])))
	for _, st := range []string{"D", "F", "DF"} {
		style := map[int]*nd{5: ndLit(st)}
		v.shape("RectFromLowerLeftWithStyle", style, polygon(lower(plain[0], plain[1], plain[2], plain[3])))
		v.shape("RectFromUpperLeftWithStyle", style, polygon(upper(plain[0], plain[1], plain[2], plain[3])))
		v.shape("Curve", map[int]*nd{9: ndLit(st)}, func(g *figure) bool {
			return g.from.equal(at(P("P1"), P("P2"))) && len(g.parts) == 1 && g.parts[0].curve && g.parts[0].c1.equal(at(P("P3"), P("P4"))) &&
				g.parts[0].c2.equal(at(P("P5"), P("P6"))) && g.parts[0].to.equal(at(P("P7"), P("P8"))) && (st != "D" || !g.closed)
		})
	}
	for _, v.paint = range []string{"S", "f", "B"} {
		v.shape("RectFromLowerLeftWithOpts", nil, polygon(lower(opts[0], opts[1], opts[2], opts[3])))
		v.shape("RectFromUpperLeftWithOpts", nil, polygon(upper(opts[0], opts[1], opts[2], opts[3])))
	}
	v.paint = ""
	v.shape("Oval", nil, func(g *figure) bool { return v.ellipse(g, plain[0], up(plain[3]), plain[2], up(plain[1])) })
	// polygons of a few corners
	nt := v.p.namedType("Point")
	if nt == nil || structOf(nt) == nil {
		v.undecided(nil, "polygon", "there is no type of points")
		return
	}
	for n := 1; n <= 5; n++ {
		list := ndAtom("app", ndNil)
		var want []point
		for i := 0; i < n; i++ {
			e := &nd{op: "struct", typ: nt}
			co := map[string]poly{}
			for k := 0; k < structOf(nt).NumFields(); k++ {
				f := structOf(nt).Field(k).Name()
				a := ndAtom(fmt.Sprintf("point%d.%s", i, f))
				a.typ = structOf(nt).Field(k).Type()
				e.a, co[f] = append(e.a, a), atomPoly(a.s)
			}
			e.s = ndAtom("struct", e.a...).s
			list.a, want = append(list.a, e), append(want, at(co["X"], co["Y"]))
		}
		list = ndAtom("app", list.a...)
		for _, st := range []string{"D", "F", "DF"} {
			v.shape("Polygon", map[int]*nd{1: list, 2: ndLit(st)}, polygon(want))
		}
		v.shape("ClipPolygon", map[int]*nd{1: list}, polygon(want))
	}
	zero := ndNum(0)
	v.shape("Rectangle", map[int]*nd{5: ndLit("D"), 6: zero, 7: zero}, polygon(box(plain[0], plain[1], plain[2], plain[3])))
	// the width of a line
	if f := v.method("GoPdf", "SetLineWidth"); f != nil {
		v.res.Counts["shapes"]++
		v.written(f, nil, func(ops []*pop) {
			if len(ops) == 1 && v.opName(ops[0]) == "w" && len(ops[0].args) == 1 {
				if q, ok := v.operand(ops[0].args[0], v.name); ok && q.equal(P("P1")) {
					return
				}
			}
			v.bad(f, "line width", "%q is written, and not the width asked for", showOps(ops))
		})
	}
}

// shape: every way through writes the one path.
func (v *shapes) shape(fn string, params map[int]*nd, fits func(*figure) bool) {
	f := v.method("GoPdf", fn)
	if f == nil {
		return
	}
	for i := range params {
		if i >= len(f.Params) {
			v.undecided(f, fn, "it has not the parameters it had")
			return
		}
	}
	v.res.Counts["shapes"]++
	v.written(f, params, func(ops []*pop) {
		gs, why := v.figures(ops)
		if why != "" {
			v.undecided(f, fn, "%s", why)
			return
		}
		if len(gs) != 1 {
			v.bad(f, fn, "%d paths are written where one belongs", len(gs))
			return
		}
		if !fits(gs[0]) {
			v.bad(f, fn, "the path written is not the one asked for: %s", gs[0])
		}
	})
}

// ellipse: four curves between the middles of the sides of the box, each bent as a quarter of an ellipse is.
func (v *shapes) ellipse(g *figure, x0, y0, x1, y1 poly) bool {
	half := num(big.NewRat(1, 2))
	c := point{x0.plus(x1, 1).times(half), y0.plus(y1, 1).times(half)}
	sides := []point{{c.x, y0}, {x1, c.y}, {c.x, y1}, {x0, c.y}}
	if len(g.parts) != 4 || !g.parts[3].to.equal(g.from) {
		return false
	}
	k := num(big.NewRat(55228, 100000))
	toward := func(a, b point) point { // from a as far as k of the way that leads from the middle to b
		return point{a.x.plus(b.x.plus(c.x, -1).times(k), 1), a.y.plus(b.y.plus(c.y, -1).times(k), 1)}
	}
	var ends []point
	from := g.from
	for _, s := range g.parts {
		if !s.curve || !s.c1.equal(toward(from, s.to)) || !s.c2.equal(toward(s.to, from)) {
			return false
		}
		ends, from = append(ends, from), s.to
	}
	return around(ends, sides)
}
