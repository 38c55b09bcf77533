package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// N05: turning, mirroring and cropping. The operators written for an image and for a rotation are read from the path
// summaries; the matrices are multiplied as polynomials over the fields and over the cosine and sine of the angle, and
// the product must be the turned, mirrored or cropped box, for every value of the fields.

func init() { checks["N05"] = checkN05 }

type place struct {
	*variants
	angles map[string]poly // name of an angle -> degrees
}

// matrix is a PDF matrix [a b c d e f].
type matrix [6]poly

func unitMatrix() matrix {
	one := num(big.NewRat(1, 1))
	return matrix{one, poly{}, poly{}, one, poly{}, poly{}}
}

// after is m applied first, then o.
func (m matrix) after(o matrix) matrix {
	dot := func(a, b, c, d poly) poly { return a.times(b).plus(c.times(d), 1) }
	return matrix{
		dot(m[0], o[0], m[1], o[2]), dot(m[0], o[1], m[1], o[3]),
		dot(m[2], o[0], m[3], o[2]), dot(m[2], o[1], m[3], o[3]),
		dot(m[4], o[0], m[5], o[2]).plus(o[4], 1), dot(m[4], o[1], m[5], o[3]).plus(o[5], 1),
	}
}

func (m matrix) equal(o matrix) bool {
	for i := range m {
		if !m[i].equal(o[i]) {
			return false
		}
	}
	return true
}

func (m matrix) String() string {
	var out []string
	for _, p := range m {
		out = append(out, p.String())
	}
	return "[" + strings.Join(out, ", ") + "]"
}

// box is the matrix that takes the unit square to a box, mirrored or not.
func boxMatrix(x, y, w, h poly, fh, fv bool) matrix {
	a, d, e, f := w, h, x, y
	if fh {
		a, e = poly{}.plus(w, -1), x.plus(w, 1)
	}
	if fv {
		d, f = poly{}.plus(h, -1), y.plus(h, 1)
	}
	return matrix{a, poly{}, poly{}, d, e, f}
}

// turn is the rotation by an angle around a point.
func (v *place) turn(px, py, deg poly) matrix {
	c, s := v.trig(deg, false), v.trig(deg, true)
	return matrix{
		c, s, poly{}.plus(s, -1), c,
		px.plus(c.times(px), -1).plus(s.times(py), 1),
		py.plus(s.times(px), -1).plus(c.times(py), -1),
	}
}

// trig is the cosine or sine of an angle given in degrees; cos(-x) is cos(x), sin(-x) is -sin(x).
func (v *place) trig(deg poly, sine bool) poly {
	if len(deg) == 0 {
		if sine {
			return poly{}
		}
		return num(big.NewRat(1, 1))
	}
	var ms []string
	for m := range deg {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	sign := int64(1)
	if deg[ms[0]].Sign() < 0 {
		deg, sign = poly{}.plus(deg, -1), -1
	}
	if !sine {
		sign = 1
	}
	name := "cos "
	if sine {
		name = "sin "
	}
	return poly{}.plus(atomPoly(name+"("+deg.full()+")"), sign)
}

func (a poly) full() string {
	var out []string
	for m, c := range a {
		out = append(out, c.RatString()+"*"+strings.ReplaceAll(m, "\x00", "*"))
	}
	sort.Strings(out)
	return strings.Join(out, "+")
}

// degrees brings an angle in radians to degrees.
func degrees(rad poly) poly {
	out := poly{}
	for m, c := range rad {
		f, _ := c.Float64()
		d := f * 180 / math.Pi
		r := math.Round(d*1e6) / 1e6
		if math.Abs(d-r) > 1e-9 {
			return nil
		}
		out[m] = new(big.Rat).SetFrac64(int64(math.Round(r*1e6)), 1000000)
	}
	return out
}

// number is the normal form of an operand, with the angles known.
func (v *place) number(n *nd, name func(*nd) string) poly {
	found := map[string]poly{}
	p := toPoly(n, func(x *nd) string {
		call, part := x, ""
		if strings.HasPrefix(x.op, "#") && len(x.a) == 1 {
			call, part = x.a[0], x.op
		}
		var sine bool
		switch {
		case call.op == "call:math.Cos" && part == "":
		case call.op == "call:math.Sin" && part == "", call.op == "call:math.Sincos" && part == "#0":
			sine = true
		case call.op == "call:math.Sincos" && part == "#1":
		default:
			return name(x)
		}
		deg := degrees(toPoly(call.a[0], name))
		if deg == nil {
			return x.s
		}
		t := v.trig(deg, sine)
		found["trig "+x.s] = t
		return "trig " + x.s
	})
	for a, t := range found {
		q := poly{}
		for m, c := range p {
			term := num(c)
			for _, f := range strings.Split(m, "\x00") {
				switch f {
				case "":
				case a:
					term = term.times(t)
				default:
					term = term.times(atomPoly(f))
				}
			}
			q = q.plus(term, 1)
		}
		p = q
	}
	return p
}

func (v *place) operand(t ptok, name func(*nd) string) (poly, bool) {
	if t.val != nil {
		if t.text != "" {
			if t.text == "-" { // the sign printed before the number
				return poly{}.plus(v.number(t.val, name), -1), true
			}
			return nil, false
		}
		return v.number(t.val, name), true
	}
	r, ok := new(big.Rat).SetString(t.text)
	if !ok {
		return nil, false
	}
	return num(r), true
}

// drawn is what is painted or clipped, with the matrix in force.
type drawn struct {
	op  string
	ctm matrix
	arg [4]poly // of a box
	val *nd
}

// follow keeps the matrix while the operators are gone through.
func (v *place) follow(ops []*pop, name func(*nd) string) (out []drawn, end matrix, open int, why string) {
	cur := unitMatrix()
	var saved []matrix
	var rect [4]poly
	have := false
	for _, o := range ops {
		nums := func(n int) ([]poly, bool) {
			if len(o.args) != n {
				return nil, false
			}
			var ps []poly
			for _, a := range o.args {
				p, ok := v.operand(a, name)
				if !ok {
					return nil, false
				}
				ps = append(ps, p)
			}
			return ps, true
		}
		switch o.name {
		case "q":
			saved = append(saved, cur)
		case "Q":
			if len(saved) == 0 {
				open--
				continue
			}
			cur, saved = saved[len(saved)-1], saved[:len(saved)-1]
		case "cm":
			ps, ok := nums(6)
			if !ok {
				return nil, cur, 0, "the operands of a cm operator are not known"
			}
			cur = matrix{ps[0], ps[1], ps[2], ps[3], ps[4], ps[5]}.after(cur)
		case "re":
			ps, ok := nums(4)
			if !ok {
				return nil, cur, 0, "the operands of a re operator are not known"
			}
			copy(rect[:], ps)
			have = true
		case "W", "W*":
			if !have {
				return nil, cur, 0, "something else than a box is clipped to"
			}
			out = append(out, drawn{op: "clip", ctm: cur, arg: rect})
		case "Do":
			out = append(out, drawn{op: "Do", ctm: cur})
		}
	}
	return out, cur, open + len(saved), ""
}

// printedOn gives the operators of a path; a text built up in a loop is the text before the loop.
func (v *place) printedOn(s *psum, r *pret) ([]*pop, string) {
	return v.printedSince(s, r, nil, moves)
}

func (v *place) printedSince(s *psum, r *pret, from *pst, moves func([]*pop) bool) ([]*pop, string) {
	why := ""
	inits := map[string]*nd{}
	for _, lps := range s.loops {
		for _, lp := range lps {
			for ph, a := range lp.atom {
				if isString(ph.Type()) && lp.init[ph].s != a.s {
					if o := inits[a.s]; o != nil && o.s != lp.init[ph].s {
						continue // the way in is told by the path; the texts before are compared below
					}
					inits[a.s] = lp.init[ph]
				}
			}
		}
	}
	// what an iteration adds must not move anything
	for _, it := range s.iters {
		for ph, next := range it.next {
			a := it.loop.atom[ph]
			if a == nil || !isString(ph.Type()) || a.s == it.loop.init[ph].s {
				continue
			}
			if t, ok := addedTo(next, a); ok {
				ops, _ := printed([]*peff{{kind: "call", name: "io.WriteString", args: []*nd{ndAtom("w"), t}}})
				if moves(ops) {
					why = "a loop writes operators that place"
				}
			} else if next.s != a.s {
				why = "a loop builds up its text in a way that is not followed"
			}
		}
		ops, _ := printed(effsSince(it.st, it.loop.eff))
		if moves(ops) {
			why = "a loop writes operators that place"
		}
	}
	var effs []*peff
	var defers []*peff
	since := effsSince(r.st, nil)
	if from != nil {
		since = effsSince(r.st, from.eff)
	}
	for _, e := range since {
		if e.kind == "defer" {
			defers = append(defers, e)
			continue
		}
		c := *e
		c.args = nil
		for _, a := range e.args {
			c.args = append(c.args, textBefore(a, inits, 0))
		}
		effs = append(effs, &c)
	}
	ops, unknown := printed(effs)
	if len(unknown) > 0 {
		why = "something written is not known: " + short(unknown[0])
	}
	for _, o := range ops {
		if o.name == "" && o.nv != nil {
			why = "an operator is not known: " + short(o.nv)
		}
	}
	return ops, why
}

func moves(ops []*pop) bool {
	for _, o := range ops {
		switch o.name {
		case "cm", "q", "Q", "re", "W", "W*", "Do":
			return true
		}
		if o.name == "" && o.nv != nil {
			return true
		}
	}
	return false
}

// addedTo: next is the text a with something behind it.
func addedTo(next, a *nd) (*nd, bool) {
	if next.op != "join" || len(next.a) != 2 {
		return nil, false
	}
	if next.a[0].s == a.s {
		return next.a[1], true
	}
	if t, ok := addedTo(next.a[0], a); ok {
		return ndAtom("join", t, next.a[1]), true
	}
	return nil, false
}

// textBefore puts the text before the loop in the place of the text that the loop builds up.
func textBefore(n *nd, inits map[string]*nd, depth int) *nd {
	if n == nil || depth > 40 {
		return n
	}
	if t := inits[n.s]; t != nil {
		return textBefore(t, inits, depth+1)
	}
	if n.op == "join" && len(n.a) == 2 {
		a, b := textBefore(n.a[0], inits, depth+1), textBefore(n.a[1], inits, depth+1)
		if a != n.a[0] || b != n.a[1] {
			return ndAtom("join", a, b)
		}
	}
	return n
}

// ---------------------------------------------------------------- the check

func checkN05(p *Prog) *Result {
	res := newResult("path summaries of the writers of images and rotations for each combination of flips, crop and mask; the product of the written matrices compared with the turned, mirrored or cropped box as polynomials over the fields and the cosine and sine of the angle",
		"Writers accept what is written (O01); numbers are printed with two and more digits; operators are balanced (S06); lengths are in points and y is flipped once (L01, L02).")
	v := &place{variants: &variants{p: p, res: res, ce: p.newCeval(), adds: map[*ssa.Function]bool{}}}
	v.ce.settle()
	v.consts = &tables{p: p, ce: v.ce}
	v.findAdders()
	v.rotations()
	v.imagesPlaced()
	v.wiring()
	res.floor("rotations", res.Counts["rotations"], 2)
	res.floor("combinations", res.Counts["combinations"], 12)
	res.floor("fields handed on", res.Counts["fields handed on"], 7)
	return res
}

func (v *place) inline(g *ssa.Function) bool {
	return !openLoops(g) && (v.writesText(g) || v.scalar(g) || v.small(g) && len(g.Params) <= 6 && !strings.Contains(g.String(), "/core."))
}

// flag fixes truth values among the fields.
func (v *place) flags(s *psum, typ string, vals map[string]bool, isNil map[string]bool) {
	fold := s.rewrite
	s.rewrite = func(n *nd) *nd {
		for f, b := range vals {
			if v.fieldIs(n, "P0", typ, f) {
				return ndBool(b)
			}
		}
		return fold(n)
	}
	known := s.known
	s.known = func(st *pst, c *nd) (bool, bool) {
		for f, b := range vals {
			if v.fieldIs(c, "P0", typ, f) {
				return b, true
			}
		}
		if c.op == "eq" && len(c.a) == 2 {
			for i, a := range c.a {
				if a.op != "nil" {
					continue
				}
				for f, b := range isNil {
					if v.fieldIs(c.a[1-i], "P0", typ, f) {
						return b, true
					}
				}
			}
		}
		return known(st, c)
	}
}

func (v *place) rotations() {
	const typ = "cacheContentRotate"
	f := v.method(typ, "write")
	if f == nil {
		return
	}
	name := v.fieldsOf("P0", typ)
	for _, reset := range []bool{false, true} {
		v.res.Counts["rotations"]++
		what := "rotation"
		if reset {
			what = "end of a rotation"
		}
		s := v.psum(v.inline)
		v.flags(s, typ, map[string]bool{"isReset": reset}, nil)
		if !s.run(f) {
			v.undecided(f, what, "%s", s.gave)
			continue
		}
		ends := v.fine(s)
		if len(ends) == 0 {
			v.undecided(f, what, "no way through")
		}
		for _, r := range ends {
			ops, why := v.printedOn(s, r)
			var end matrix
			var open int
			if why == "" {
				_, end, open, why = v.follow(ops, name)
			}
			if why != "" {
				v.undecided(f, what, "%s", why)
				continue
			}
			want, n := unitMatrix(), -1
			if !reset {
				want, n = v.turn(atomPoly(".x"), atomPoly(".pageHeight").plus(atomPoly(".y"), -1), atomPoly(".angle")), 1
			}
			if open != n {
				v.bad(f, what, "the graphics state is saved %d times and not %d", open, n)
			}
			if !end.equal(want) && !(v.zeroAngle(r, typ, "angle") && end.equal(unitMatrix())) {
				v.bad(f, what, "the matrix is %s and not the rotation by the angle around the point: %s", end, want)
			}
		}
	}
}

// zeroAngle: the path is the one where the angle is nothing.
func (v *place) zeroAngle(r *pret, typ string, fields ...string) bool {
	for _, g := range factsSince(r.st, nil) {
		if !g.want || g.cond.op != "eq" && g.cond.op != "eq0" {
			continue
		}
		for i, a := range g.cond.a {
			o := ndNum(0)
			if len(g.cond.a) == 2 {
				o = g.cond.a[1-i]
			}
			if z := toPoly(o, func(n *nd) string { return n.s }); len(z) != 0 {
				continue
			}
			want := poly{}
			for _, f := range fields {
				want = want.plus(atomPoly("."+f), 1)
			}
			if got := toPoly(a, v.fieldsOf("P0", typ)); got.equal(want) || got.equal(poly{}.plus(want, -1)) {
				return true
			}
		}
	}
	return false
}

func (v *place) imagesPlaced() {
	const typ = "cacheContentImage"
	f := v.method(typ, "write")
	if f == nil {
		return
	}
	base := v.fieldsOf("P0", typ)
	name := func(n *nd) string {
		if b := base(n); b != n.s {
			return b
		}
		for _, x := range []string{"X", "Y", "Width", "Height"} {
			if v.fieldIs(n, "", "CropOptions", x) {
				return ".crop." + x
			}
		}
		for _, x := range []string{"W", "H"} {
			if v.fieldIs(n, "", "Rect", x) {
				return ".rect." + x
			}
		}
		return n.s
	}
	half := num(big.NewRat(1, 2))
	x, y, page := atomPoly(".x"), atomPoly(".y"), atomPoly(".pageHeight")
	w, h := atomPoly(".rect.W"), atomPoly(".rect.H")
	cx, cy, cw, ch := atomPoly(".crop.X"), atomPoly(".crop.Y"), atomPoly(".crop.Width"), atomPoly(".crop.Height")
	for m := 0; m < 16; m++ {
		fh, fv, crop, mask := m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0
		if crop && mask {
			continue // where a cropped mask is turned around is not said
		}
		v.res.Counts["combinations"]++
		what := fmt.Sprintf("image, flipped %v %v, cropped %v, mask %v", fh, fv, crop, mask)
		s := v.psum(v.inline)
		v.flags(s, typ, map[string]bool{"horizontalFlip": fh, "verticalFlip": fv, "withMask": mask}, map[string]bool{"crop": !crop})
		if !s.run(f) {
			v.undecided(f, what, "%s", s.gave)
			continue
		}
		n := 0
		for _, r := range v.fine(s) {
			ops, why := v.printedOn(s, r)
			var ds []drawn
			if why == "" {
				ds, _, _, why = v.follow(ops, name)
			}
			if why != "" {
				v.undecided(f, what, "%s", why)
				continue
			}
			bw, bh := w, h
			if crop {
				bw, bh = cw, ch
			}
			px, py := x.plus(half.times(bw), 1), page.plus(y, -1).plus(half.times(bh), -1)
			deg := atomPoly(".imageAngle")
			fields := []string{"imageAngle"}
			if mask {
				deg = deg.plus(atomPoly(".maskAngle"), 1)
				fields = append(fields, "maskAngle")
			}
			turn := v.turn(px, py, deg)
			still := v.zeroAngle(r, typ, fields...)
			clips := 0
			for _, d := range ds {
				switch d.op {
				case "clip":
					clips++
					if !crop {
						v.bad(f, what, "an image that is not cropped is clipped")
						continue
					}
					got := boxMatrix(d.arg[0], d.arg[1], d.arg[2], d.arg[3], false, false).after(d.ctm)
					ok := false
					for k := 0; k < 4; k++ {
						want := boxMatrix(x, page.plus(y, -1).plus(ch, -1), cw, ch, k&1 != 0, k&2 != 0)
						ok = ok || got.equal(want.after(turn)) || still && got.equal(want)
					}
					if !ok {
						v.bad(f, what, "what is shown of the image is not the box at its place: %s", got)
					}
				case "Do":
					n++
					left, low := x, page.plus(y, -1).plus(h, -1)
					if crop {
						left, low = x.plus(cx, -1), page.plus(y, -1).plus(cy, 1).plus(h, -1)
					}
					want := boxMatrix(left, low, w, h, fh, fv)
					if !d.ctm.equal(want.after(turn)) && !(still && d.ctm.equal(want)) {
						v.bad(f, what, "the image is placed by %s and not by %s", d.ctm, want.after(turn))
					}
				}
			}
			if crop && clips == 0 {
				v.bad(f, what, "a cropped image is not clipped")
			}
		}
		if n == 0 {
			v.bad(f, what, "no image is drawn")
		}
	}
}

// wiring: what the options say reaches the object that writes the image.
func (v *place) wiring() {
	p := v.p
	const typ = "cacheContentImage"
	k, ok := p.fieldNamed(typ, "horizontalFlip")
	if !ok {
		v.undecided(nil, "options", "there is no field for the flip")
		return
	}
	found := 0
	for _, f := range p.Funcs {
		if f.Blocks == nil || !p.owns(f) || !setsField(f, k) {
			continue
		}
		found++
		s := v.psum(func(g *ssa.Function) bool { return v.scalar(g) })
		if !s.run(f) {
			v.undecided(f, "options", "%s", s.gave)
			continue
		}
		for _, r := range v.fine(s) {
			last := map[string]*nd{}
			for _, e := range effsSince(r.st, nil) {
				if e.kind == "store" && e.addr.op == "&f" {
					last[e.addr.a[1].s] = e.val
				}
			}
			for _, q := range [][2]string{{"imageAngle", "DegreeAngle"}, {"verticalFlip", "VerticalFlip"}, {"horizontalFlip", "HorizontalFlip"}, {"x", "X"}, {"y", "Y"}} {
				fk, ok := p.fieldNamed(typ, q[0])
				if !ok {
					v.undecided(f, q[0], "there is no such field")
					continue
				}
				v.res.Counts["fields handed on"]++
				if got := last[fk.String()]; got == nil || !v.fieldIs(got, "", "ImageOptions", q[1]) {
					v.bad(f, q[0], "%s is not what the options say in %s", q[0], q[1])
				}
			}
			nils := func(field string) (yes, no bool) {
				for _, g := range factsSince(r.st, nil) {
					c, want := g.cond, g.want
					if c.op == "not" {
						c, want = c.a[0], !want
					}
					if c.op != "eq" || len(c.a) != 2 {
						continue
					}
					for i, a := range c.a {
						if a.op == "nil" && v.fieldIs(c.a[1-i], "", "ImageOptions", field) {
							yes, no = yes || want, no || !want
						}
					}
				}
				return
			}
			isNil := func(n *nd) bool { return n == nil || n.op == "nil" || n.op == "zero" }
			v.res.Counts["fields handed on"] += 2
			ck, _ := p.fieldNamed(typ, "crop")
			if _, no := nils("Crop"); no && isNil(last[ck.String()]) {
				v.bad(f, "crop", "the crop of the options is not handed on")
			}
			mk, _ := p.fieldNamed(typ, "maskAngle")
			got := last[mk.String()]
			zero := got == nil || len(toPoly(got, func(n *nd) string { return n.s })) == 0
			if _, no := nils("Mask"); no && zero {
				v.bad(f, "maskAngle", "the angle of the mask is not handed on")
			}
			of, _ := p.fieldNamed("ImageOptions", "Mask")
			if !zero && (len(got.a) != 2 || !strings.Contains(got.a[0].s, of.String()) || !v.fieldIs(got, "", "ImageOptions", "DegreeAngle") && !v.fieldIs(got, "", "MaskOptions", "DegreeAngle")) {
				v.bad(f, "maskAngle", "the angle of the mask is not the one of the options")
			}
		}
	}
	if found == 0 {
		v.undecided(nil, "options", "nothing makes an image of the options")
	}
	// the angle of a rotation is the one asked for
	if f := v.method("GoPdf", "Rotate"); f != nil && len(f.Params) == 4 {
		v.written(f, nil, func(ops []*pop) {
			for _, o := range ops {
				if o.name != "cm" || len(o.args) != 6 || o.args[0].val == nil || len(o.args[0].val.a) == 0 {
					continue
				}
				v.res.Counts["fields handed on"]++
				for i, sine := range []bool{false, true} {
					if g, ok := v.operand(o.args[i], func(n *nd) string { return n.s }); !ok || !g.equal(v.trig(atomPoly("P1"), sine)) {
						v.bad(f, "angle", "the angle is not the one asked for: %s", g)
					}
				}
			}
		})
	}
}
