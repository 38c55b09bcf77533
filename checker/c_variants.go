package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// F06: every member of the closed sets of the interface gets its own handling. The functions that branch on such a set
// are summarised once for every member (or combination of members), with the member in place of the value, and what
// comes out, as text with operands in symbolic form, is compared with what the member stands for.

func init() { checks["F06"] = checkF06 }

type variants struct {
	p    *Prog
	res  *Result
	ce   *ceval
	prep func(s *psum) // what else is known in written
	read func(s *psum, r *pret, from *pst) ([]*pop, string)
	adds map[*ssa.Function]bool // reaches a function that takes something to be written

	consts *tables
}

func checkF06(p *Prog) *Result {
	res := newResult("path summaries specialised to every member of each closed set, printed operators and operands compared in normal form with what the member stands for; constant propagation for functions of texts",
		"Writers accept what is written (their failures are decided by O01); printing gives the operands in the order of the format.")
	v := &variants{p: p, res: res, ce: p.newCeval(), adds: map[*ssa.Function]bool{}}
	v.ce.settle()
	v.consts = &tables{p: p, ce: v.ce}
	v.findAdders()
	v.blendModes()
	v.fontStyles()
	v.sizes()
	v.cells()
	v.floats()
	v.setters()
	v.placeholders()
	v.tables()
	v.images()
	for _, c := range []struct {
		k string
		n int
	}{{"blend modes", 16}, {"font styles", 8}, {"number types", 12}, {"alignments", 12}, {"borders", 16}, {"underlines", 8}, {"ways to go on", 6},
		{"colours", 8}, {"line types", 3}, {"paint styles", 10}, {"placeholder alignments", 3}, {"table alignments", 3}, {"table borders", 16}, {"image kinds", 8}} {
		res.floor(c.k, res.Counts[c.k], c.n)
	}
	return res
}

func (v *variants) bad(f *ssa.Function, what, format string, args ...interface{}) {
	fn, pos := "package", ""
	if f != nil {
		fn, pos = fname(f), v.p.pos(f.Pos())
	}
	v.res.add("variant", fn, what, pos, format, args...)
}

func (v *variants) undecided(f *ssa.Function, what, format string, args ...interface{}) {
	fn, pos := "package", ""
	if f != nil {
		fn, pos = fname(f), v.p.pos(f.Pos())
	}
	v.res.add("undecided", fn, what, pos, format, args...)
}

// constant gives an exported constant of the package.
func (v *variants) constant(name string) int64 {
	c, ok := v.p.Root.Pkg.Scope().Lookup(name).(*types.Const)
	if ok {
		if k, ok := constant.Int64Val(c.Val()); ok {
			return k
		}
	}
	v.undecided(nil, name, "there is no such constant")
	return -1
}

func (v *variants) method(typ, name string) *ssa.Function {
	if n := v.p.namedType(typ); n != nil {
		if f := v.p.methodOf(n, name); f != nil && f.Blocks != nil {
			return f
		}
	}
	v.undecided(nil, typ+"."+name, "there is no such method")
	return nil
}

// ---------------------------------------------------------------- running

// findAdders: functions that take an object to be written into the content, and those that lead to one.
func (v *variants) findAdders() {
	p := v.p
	for _, f := range p.Funcs {
		if f.Blocks == nil || !p.owns(f) {
			continue
		}
		for _, pr := range f.Params {
			if v.isContent(pr.Type()) {
				v.adds[f] = true
			}
		}
	}
	for again := true; again; {
		again = false
		for _, f := range p.Funcs {
			if f.Blocks == nil || !p.owns(f) || v.adds[f] {
				continue
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if ci, ok := ins.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && v.adds[g] && !v.adds[f] {
							v.adds[f], again = true, true
						}
					}
				}
			}
		}
	}
}

// isContent: an interface whose objects write themselves.
func (v *variants) isContent(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if m.Name() == "write" && isWrite(m.Type().(*types.Signature)) {
			return true
		}
	}
	return false
}

// isWrite: the way parts of a content stream are written.
func isWrite(sg *types.Signature) bool {
	return sg.Params().Len() == 2 && strings.HasSuffix(sg.Params().At(0).Type().String(), "io.Writer") && strings.HasSuffix(sg.Params().At(1).Type().String(), "PDFProtection")
}

func (v *variants) takesContent(f *ssa.Function) bool {
	for _, pr := range f.Params {
		if v.isContent(pr.Type()) {
			return true
		}
	}
	return false
}

// small: a function without loops and without calls of the library's own functions.
func (v *variants) small(f *ssa.Function) bool {
	if f.Blocks == nil || len(f.Blocks) > 60 || openLoops(f) {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if ci, ok := ins.(ssa.CallInstruction); ok {
				if g := ci.Common().StaticCallee(); g != nil && v.p.owns(g) && g != f && !v.small2(g) {
					return false
				}
			}
		}
	}
	return true
}

func (v *variants) small2(f *ssa.Function) bool {
	return f.Blocks != nil && len(f.Blocks) <= 20 && !openLoops(f)
}

// scalar: a small function of numbers, texts and truth values.
func (v *variants) scalar(f *ssa.Function) bool {
	for _, pr := range f.Params {
		if _, ok := pr.Type().Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return v.small(f)
}

// alongside: a small function, or a small method of the same kind of thing as f, that f may have been split into.
func (v *variants) alongside(f, g *ssa.Function) bool {
	if v.scalar(g) {
		return true
	}
	if f.Signature.Recv() == nil || g.Signature.Recv() == nil || len(g.Params) > 3 {
		return false
	}
	return types.Identical(deref(f.Signature.Recv().Type()), deref(g.Signature.Recv().Type())) && v.small(g)
}

// psum prepares a summary in which known texts are worked out and writing does not fail.
func (v *variants) psum(inline func(f *ssa.Function) bool) *psum {
	s := v.p.newPsum(func(f *ssa.Function, cc *ssa.CallCommon) bool { return v.p.owns(f) && inline(f) })
	s.max = 300000
	s.known = func(st *pst, c *nd) (bool, bool) {
		if c.op == "eq" && len(c.a) == 2 {
			for i, a := range c.a {
				o := c.a[1-i]
				if a.op != "nil" {
					continue
				}
				if v.fromCall(o) {
					return true, true
				}
				if strings.HasPrefix(o.op, "call:errors.New") || strings.HasPrefix(o.op, "call:fmt.Errorf") || o.op == "ld" && len(o.a) == 1 && strings.HasPrefix(o.a[0].op, "G:") && o.typ != nil && isErrorType(o.typ) {
					return false, true
				}
			}
		}
		return false, false
	}
	s.model = func(st *pst, f *ssa.Function, args []*nd) *nd { return v.fold(f, args) }
	s.unroll = true
	s.rewrite = func(n *nd) *nd {
		if k := v.consts.look(n); k != nil {
			return k
		}
		if !strings.HasPrefix(n.op, "call:") {
			return n
		}
		var a []string
		for _, x := range n.a {
			t, ok := litText(x)
			if !ok && x.isNum() && len(a) == 1 && takesRune(n.op[len("call:"):]) {
				t, ok = string(rune(x.k)), true
			}
			if !ok {
				return n
			}
			a = append(a, t)
		}
		switch r := foldText(n.op[len("call:"):], a).(type) {
		case string:
			return ndLit(r)
		case bool:
			return ndBool(r)
		case int:
			return ndNum(int64(r))
		}
		return n
	}
	return s
}

func litText(x *nd) (string, bool) {
	if x.op != "lit" {
		return "", false
	}
	t, err := strconv.Unquote(x.s)
	return t, err == nil
}

// fromCall: the error of a call that writes, or of one that is not entered.
func (v *variants) fromCall(o *nd) bool {
	if strings.HasPrefix(o.op, "#") && len(o.a) == 1 {
		o = o.a[0]
	} else if o.typ != nil && !isErrorType(o.typ) {
		return false
	}
	if !strings.HasPrefix(o.op, "call:") {
		return false
	}
	n := o.op[len("call:"):]
	return !strings.HasPrefix(n, "errors.") && n != "fmt.Errorf"
}

// fold works out a function of known texts and numbers.
func (v *variants) fold(f *ssa.Function, args []*nd) *nd {
	if f == nil || f.Blocks == nil || !v.p.owns(f) || len(args) == 0 || f.Signature.Results().Len() != 1 {
		return nil
	}
	text := false
	var as []cval
	for _, a := range args {
		if t, ok := litText(a); ok {
			as = append(as, cStr(t))
			text = true
		} else if a.isNum() {
			as = append(as, cNum{k: float64(a.k)})
		} else {
			return nil
		}
	}
	if !text {
		return nil
	}
	r := v.ce.run(f, as, nil)
	if v.ce.gaveUp != "" || v.ce.asked > 0 {
		v.ce.gaveUp = ""
		return nil
	}
	switch r := r.(type) {
	case cStr:
		return ndLit(string(r))
	case cNum:
		if r.pow == "" && r.k == float64(int64(r.k)) && isInteger(f.Signature.Results().At(0).Type()) {
			return ndNum(int64(r.k))
		}
	case cBool:
		return ndBool(bool(r))
	}
	return nil
}

// fine gives the paths that end without an error.
func (v *variants) fine(s *psum) []*pret {
	var out []*pret
	for _, r := range s.rets {
		if r.panic {
			continue
		}
		bad := false
		for i, x := range r.vals {
			if i < r.ins.Parent().Signature.Results().Len() && isErrorType(r.ins.Parent().Signature.Results().At(i).Type()) && !v.fromCall(x) {
				bad = bad || s.isFailure(r.st, x)
			}
		}
		if !bad {
			out = append(out, r)
		}
	}
	return out
}

// ---------------------------------------------------------------- printed operators

type ptok struct {
	text string
	val  *nd // a printed value that is not a known text
}

type pop struct {
	name string
	nv   *nd // the operator when it is not a known text
	args []ptok
}

// printed gives the operators written on a path, in order.
func printed(effs []*peff) (ops []*pop, unknown []*nd) {
	var toks []ptok
	cur, curVal := "", (*nd)(nil)
	end := func() {
		if cur != "" || curVal != nil {
			toks = append(toks, ptok{cur, curVal})
		}
		cur, curVal = "", nil
	}
	text := func(s string) {
		for _, r := range s {
			switch {
			case r == ' ' || r == '\n' || r == '\t' || r == '\r':
				end()
			case strings.ContainsRune("[]<>()", r):
				end()
				toks = append(toks, ptok{string(r), nil})
			default:
				cur += string(r)
			}
		}
	}
	value := func(n *nd) {
		if cur != "" || curVal != nil {
			cur += "?"
			return
		}
		curVal = n
	}
	var term func(n *nd, str bool)
	format := func(f string, args []*nd) {
		for len(f) > 0 {
			i := strings.IndexByte(f, '%')
			if i < 0 {
				text(f)
				return
			}
			text(f[:i])
			f = f[i+1:]
			j := 0
			for j < len(f) && strings.IndexByte("+-# 0123456789.*", f[j]) >= 0 {
				j++
			}
			if j >= len(f) {
				return
			}
			verb := f[j]
			f = f[j+1:]
			if verb == '%' {
				text("%")
				continue
			}
			if len(args) == 0 {
				value(ndAtom("missing"))
				continue
			}
			term(args[0], verb == 's' || verb == 'v')
			args = args[1:]
		}
	}
	term = func(n *nd, str bool) {
		if t, ok := litText(n); ok {
			text(t)
			return
		}
		switch {
		case n.op == "join":
			term(n.a[0], true)
			term(n.a[1], true)
		case n.op == "call:fmt.Sprintf" && len(n.a) > 0:
			if t, ok := litText(n.a[0]); ok {
				format(t, n.a[1:])
				return
			}
			value(n)
		case n.op == "call:fmt.Sprint":
			for _, a := range n.a {
				term(a, true)
			}
		case strings.HasPrefix(n.op, "conv:") && len(n.a) == 1 && n.a[0].op != "+" && (n.op == "conv:string" || n.op == "conv:[]byte"):
			term(n.a[0], true)
		default:
			value(n)
		}
	}
	for _, e := range effs {
		if e.kind != "call" {
			continue
		}
		m := methodName(e.name)
		switch {
		case e.name == "fmt.Fprintf" && len(e.args) >= 2:
			if t, ok := litText(e.args[1]); ok {
				format(t, e.args[2:])
			} else {
				unknown = append(unknown, e.args[1])
			}
		case e.name == "fmt.Fprint" || e.name == "fmt.Fprintln":
			for _, a := range e.args[1:] {
				term(a, true)
			}
			if m == "Fprintln" || strings.HasSuffix(e.name, "ln") {
				text("\n")
			}
		case e.name == "io.WriteString" && len(e.args) == 2:
			term(e.args[1], true)
		case (m == "WriteString" || m == "Write") && len(e.args) == 2 && strings.Contains(e.name, ")."):
			if a := e.args[1]; !strings.HasPrefix(a.op, "call:(*bytes.Buffer)") {
				term(a, true)
			}
		}
	}
	end()
	var args []ptok
	for _, t := range toks {
		isOp := t.val == nil && t.text != "" && (t.text[0] >= 'a' && t.text[0] <= 'z' || t.text[0] >= 'A' && t.text[0] <= 'Z' || t.text[0] == '\'' || t.text[0] == '"')
		isOp = isOp || t.val != nil && t.text == "" && t.val.typ != nil && isString(t.val.typ)
		if isOp {
			ops = append(ops, &pop{t.text, t.val, args})
			args = nil
			continue
		}
		args = append(args, t)
	}
	if len(args) > 0 {
		ops = append(ops, &pop{"", nil, args})
	}
	return ops, unknown
}

func showOps(ops []*pop) string {
	var out []string
	for _, o := range ops {
		n := o.name
		if o.nv != nil {
			n = short(o.nv)
		}
		out = append(out, fmt.Sprintf("%d %s", len(o.args), n))
	}
	t := strings.Join(out, "; ")
	if len(t) > 150 {
		t = t[:150]
	}
	return t
}

// ---------------------------------------------------------------- normal form

// poly maps products of unknowns to their factor.
type poly map[string]*big.Rat

func (a poly) plus(b poly, k int64) poly {
	out := poly{}
	for m, c := range a {
		out[m] = new(big.Rat).Set(c)
	}
	for m, c := range b {
		x := new(big.Rat).Mul(c, new(big.Rat).SetInt64(k))
		if o := out[m]; o != nil {
			x.Add(x, o)
		}
		if x.Sign() == 0 {
			delete(out, m)
		} else {
			out[m] = x
		}
	}
	return out
}

func (a poly) times(b poly) poly {
	out := poly{}
	for m, c := range a {
		for n, d := range b {
			var fs []string
			for _, f := range append(strings.Split(m, "\x00"), strings.Split(n, "\x00")...) {
				if f != "" {
					fs = append(fs, f)
				}
			}
			for i := 0; i < len(fs); i++ {
				for j := 0; j < len(fs); j++ {
					if fs[i] == "1/"+fs[j] {
						hi, lo := i, j
						if hi < lo {
							hi, lo = lo, hi
						}
						fs = append(fs[:hi], fs[hi+1:]...)
						fs = append(fs[:lo], fs[lo+1:]...)
						i = -1
						break
					}
				}
			}
			sort.Strings(fs)
			out = out.plus(poly{strings.Join(fs, "\x00"): new(big.Rat).Mul(c, d)}, 1)
		}
	}
	return out
}

func num(r *big.Rat) poly {
	if r.Sign() == 0 {
		return poly{}
	}
	return poly{"": r}
}

func atomPoly(name string) poly { return poly{name: big.NewRat(1, 1)} }

func (a poly) equal(b poly) bool { return len(a.plus(b, -1)) == 0 }

func (a poly) String() string {
	var out []string
	for m, c := range a {
		n := strings.ReplaceAll(m, "\x00", "*")
		if len(n) > 60 {
			n = n[:60] + "…"
		}
		out = append(out, c.RatString()+"*"+n)
	}
	sort.Strings(out)
	if len(out) == 0 {
		return "0"
	}
	return strings.Join(out, " + ")
}

// split divides into what has the unknown and what has not.
func (a poly) without(name string) poly {
	out := poly{}
	for m, c := range a {
		has := false
		for _, f := range strings.Split(m, "\x00") {
			has = has || f == name
		}
		if !has {
			out[m] = c
		}
	}
	return out
}

// toPoly brings a number into normal form; unknowns are named by name.
func toPoly(n *nd, name func(*nd) string) poly {
	switch {
	case n == nil:
		return atomPoly("?")
	case n.op == "zero":
		return poly{}
	case strings.HasPrefix(n.op, "c:"):
		if r, ok := new(big.Rat).SetString(n.op[2:]); ok {
			return num(r)
		}
	case n.op == "f+":
		return toPoly(n.a[0], name).plus(toPoly(n.a[1], name), 1)
	case n.op == "f-":
		return toPoly(n.a[0], name).plus(toPoly(n.a[1], name), -1)
	case n.op == "-" && len(n.a) == 1:
		return poly{}.plus(toPoly(n.a[0], name), -1)
	case n.op == "f*":
		return toPoly(n.a[0], name).times(toPoly(n.a[1], name))
	case n.op == "f/":
		d := toPoly(n.a[1], name)
		if len(d) == 1 {
			for m, c := range d {
				inv := poly{}
				var fs []string
				for _, f := range strings.Split(m, "\x00") {
					switch {
					case f == "":
					case strings.HasPrefix(f, "1/"):
						fs = append(fs, f[2:])
					default:
						fs = append(fs, "1/"+f)
					}
				}
				sort.Strings(fs)
				inv[strings.Join(fs, "\x00")] = new(big.Rat).Inv(c)
				return toPoly(n.a[0], name).times(inv)
			}
		}
	case n.op == "conv:float64" && len(n.a) == 1:
		x := n.a[0]
		if x.isNum() {
			return num(big.NewRat(x.k, 1))
		}
		if x.op != "+" {
			return toPoly(x, name)
		}
	case n.isNum():
		return num(big.NewRat(n.k, 1))
	}
	return atomPoly(name(n))
}

// fieldsOf names the fields of an object as the source does, and everything else by its term.
func (v *variants) fieldsOf(base string, typ string) func(*nd) string {
	nt := v.p.namedType(typ)
	names := map[string]string{}
	if nt != nil && structOf(nt) != nil {
		for i := 0; i < structOf(nt).NumFields(); i++ {
			names[fkey(nt, i).String()] = structOf(nt).Field(i).Name()
		}
	}
	return func(n *nd) string {
		if (strings.HasPrefix(n.op, "ld") || n.op == "fld") && len(n.a) == 2 && n.a[0].s == base {
			if f := names[n.a[1].s]; f != "" {
				return "." + f
			}
		}
		return n.s
	}
}

func named(n *nd) string { return n.s }

// fieldIs: the term is that field of the parameter.
func (v *variants) fieldIs(n *nd, base, typ, field string) bool {
	k, ok := v.p.fieldNamed(typ, field)
	return ok && (strings.HasPrefix(n.op, "ld") || n.op == "fld") && len(n.a) == 2 && n.a[1].s == k.String() && (base == "" || n.a[0].s == base)
}

// ---------------------------------------------------------------- sets of texts and numbers

func (v *variants) blendModes() {
	nt := v.p.namedType("BlendModeType")
	f := v.p.Root.Func("NewTransparency")
	k, ok := v.p.fieldNamed("Transparency", "BlendModeType")
	if nt == nil || f == nil || !ok || len(f.Params) != 2 {
		v.undecided(nil, "blend modes", "NewTransparency, BlendModeType or its field are not there")
		return
	}
	modes := v.p.enumConsts(nt)
	sort.Strings(modes)
	try := func(in string, want string, fails bool) {
		v.res.Counts["blend modes"]++
		n := 0
		e := v.ce
		done := e.paths(f, 64, func() []cval { return []cval{cSym("alpha"), cStr(in)} }, func(r cval, _ []cval) {
			t, ok := r.(cTuple)
			if !ok || len(t) != 2 {
				v.undecided(f, in, "the result is not known")
				return
			}
			if isCNil(t[1]) == 0 {
				return
			}
			if isCNil(t[1]) < 0 {
				v.undecided(f, in, "it is not known whether the blend mode %q is refused", in)
				return
			}
			n++
			st, ok := t[0].(cStruct)
			if !ok || k.idx >= len(st) {
				v.undecided(f, in, "the result is not known")
				return
			}
			if got, ok := st[k.idx].(cStr); !fails && (!ok || string(got) != want) {
				v.bad(f, in, "the blend mode %q becomes %v", in, st[k.idx])
			}
		})
		if !done {
			v.undecided(f, in, "%s", e.gaveUp)
			e.gaveUp = ""
			return
		}
		if fails && n > 0 {
			v.bad(f, in, "a text that names no blend mode is accepted")
		}
		if !fails && n == 0 {
			v.bad(f, in, "the blend mode %q is refused", in)
		}
	}
	for _, m := range modes {
		try(m, m, false)
	}
	try("", "/Normal", false)
	try("/NoSuchMode", "", true)
	try("Multiply", "", true)
}

func (v *variants) fontStyles() {
	f := v.method("GoPdf", "SetFont")
	if f == nil || len(f.Params) != 4 {
		return
	}
	flags := map[byte]int64{'B': v.constant("Bold"), 'I': v.constant("Italic"), 'U': v.constant("Underline")}
	for _, style := range []string{"", "B", "I", "U", "BI", "IB", "UB", "IU", "BIU", "UIB", "b", "i", "u", "bU", "iB", "R", "ub"} {
		v.res.Counts["font styles"]++
		var want int64
		for i := range style {
			want |= flags[strings.ToUpper(style)[i]]
		}
		s := v.psum(func(g *ssa.Function) bool { return v.small(g) && len(g.Params) <= 2 })
		s.params = map[int]*nd{2: ndLit(style)}
		if !s.run(f) {
			v.undecided(f, style, "%s", s.gave)
			continue
		}
		n := 0
		for _, r := range s.rets {
			if r.panic {
				continue
			}
			for _, e := range effsSince(r.st, nil) {
				if e.kind != "call" || methodName(e.name) != "SetFontWithStyle" || len(e.args) != 4 {
					continue
				}
				n++
				if a := e.args[2]; !a.isNum() {
					v.undecided(f, "style "+style, "what the style %q stands for is not known: %s", style, short(a))
				} else if a.k != want {
					v.bad(f, "style "+style, "the style %q is taken as %d and not as %d", style, a.k, want)
				}
			}
		}
		if n == 0 {
			v.undecided(f, "style "+style, "no font is set")
		}
	}
}

// sizes: every kind of number is taken where any number is.
func (v *variants) sizes() {
	for _, f := range v.p.Funcs {
		if f.Blocks == nil || !v.p.owns(f) || f.Parent() != nil {
			continue
		}
		sg := f.Signature
		if sg.Recv() != nil || sg.Params().Len() != 1 || sg.Results().Len() != 2 || !isFloat(sg.Results().At(0).Type()) || !isErrorType(sg.Results().At(1).Type()) {
			continue
		}
		it, ok := sg.Params().At(0).Type().Underlying().(*types.Interface)
		if !ok || it.NumMethods() != 0 {
			continue
		}
		for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Float32, types.Float64, types.String, types.Bool} {
			t := types.Typ[k]
			number := t.Info()&types.IsNumeric != 0
			if number {
				v.res.Counts["number types"]++
			}
			done := v.ce.paths(f, 200, func() []cval { return []cval{cIface{t, cSym("n")}} }, func(r cval, _ []cval) {
				x, ok := r.(cTuple)
				if !ok || len(x) != 2 {
					v.undecided(f, t.Name(), "the result is not known")
					return
				}
				switch isCNil(x[1]) {
				case 0:
					if number {
						v.bad(f, t.Name(), "a number of type %s is refused", t.Name())
					}
				case 1:
					n, ok := x[0].(cNum)
					if !number {
						v.bad(f, t.Name(), "a %s is taken as a number", t.Name())
					} else if !ok || n.k != 1 || n.pow != "n:1" {
						v.bad(f, t.Name(), "a number of type %s becomes %v", t.Name(), x[0])
					}
				default:
					v.undecided(f, t.Name(), "it is not known whether it is refused")
				}
			})
			if !done {
				v.undecided(f, t.Name(), "%s", v.ce.gaveUp)
				v.ce.gaveUp = ""
			}
		}
	}
}

// ---------------------------------------------------------------- cells

const cellType = "cacheContentText"

// cell summarises the writing of a text with some of its fields known.
func (v *variants) cell(f *ssa.Function, fields map[string]*nd, opts map[string]int64) *psum {
	s := v.psum(func(g *ssa.Function) bool {
		if openLoops(g) {
			return false
		}
		return v.writesText(g) || v.scalar(g) || v.small(g) && !strings.Contains(g.String(), "/core.") && g.Signature.Params().Len() <= 3
	})
	fold := s.rewrite
	s.rewrite = func(n *nd) *nd {
		if strings.HasPrefix(n.op, "ld") || n.op == "fld" {
			for fl, x := range fields {
				if v.fieldIs(n, "P0", cellType, fl) {
					return x
				}
			}
			for fl, x := range opts {
				if v.fieldIs(n, "", "CellOption", fl) {
					return ndNum(x)
				}
			}
		}
		return fold(n)
	}
	if !s.run(f) {
		v.undecided(f, "cell", "%s", s.gave)
		return nil
	}
	return s
}

// writesText: a method that is given the destination.
func (v *variants) writesText(f *ssa.Function) bool {
	for _, pr := range f.Params {
		if strings.HasSuffix(pr.Type().String(), "io.Writer") {
			return true
		}
	}
	return false
}

func (v *variants) cells() {
	f := v.method(cellType, "write")
	if f == nil {
		return
	}
	name := v.fieldsOf("P0", cellType)
	x, y, h := atomPoly(".x"), atomPoly(".y"), atomPoly(".cellHeightPdfUnit")
	w, tw, page := atomPoly(".cellWidthPdfUnit"), atomPoly(".textWidthPdfUnit"), atomPoly(".pageheight")
	half := num(big.NewRat(1, 2))
	cell := ndNum(v.constant("ContentTypeCell"))
	text := ndNum(v.constant("ContentTypeText"))
	plain := map[string]*nd{"contentType": cell, "fontStyle": ndNum(0)}
	L, R, C, T, M, B, J := v.constant("Left"), v.constant("Right"), v.constant("Center"), v.constant("Top"), v.constant("Middle"), v.constant("Bottom"), v.constant("Justify")
	// positions gives where the text begins
	positions := func(s *psum, what string) (poly, poly, bool) {
		if s == nil {
			return nil, nil, false
		}
		var px, py poly
		n := 0
		for _, r := range v.fine(s) {
			ops, _ := printed(effsSince(r.st, nil))
			for _, o := range ops {
				var ax, ay *nd
				switch o.name {
				case "Td", "TD":
					if len(o.args) == 2 {
						ax, ay = o.args[0].val, o.args[1].val
					}
				case "Tm":
					if len(o.args) == 6 {
						ax, ay = o.args[4].val, o.args[5].val
					}
				default:
					continue
				}
				if ax == nil || ay == nil {
					v.undecided(f, what, "the position of the text is not known")
					return nil, nil, false
				}
				qx, qy := toPoly(ax, name), toPoly(ay, name)
				if n > 0 && (!qx.equal(px) || !qy.equal(py)) {
					v.bad(f, what, "the text begins at more than one place: %s %s and %s %s", px, py, qx, qy)
				}
				px, py = qx, qy
				n++
				break
			}
		}
		if n == 0 {
			v.undecided(f, what, "no position of the text is written")
			return nil, nil, false
		}
		return px, py, true
	}
	type al struct {
		name string
		bits int64
	}
	ys := map[string]poly{}
	for _, hz := range []al{{"none", 0}, {"Left", L}, {"Center", C}, {"Right", R}, {"Justify", J}} {
		for _, vt := range []al{{"none", 0}, {"Top", T}, {"Middle", M}, {"Bottom", B}} {
			v.res.Counts["alignments"]++
			what := "Align " + hz.name + "|" + vt.name
			px, py, ok := positions(v.cell(f, plain, map[string]int64{"Align": hz.bits | vt.bits, "Border": 0}), what)
			if !ok {
				continue
			}
			want := x
			switch hz.name {
			case "Right":
				want = x.plus(w, 1).plus(tw, -1)
			case "Center":
				want = x.plus(w.plus(tw, -1).times(half), 1)
			}
			if !px.equal(want) {
				v.bad(f, what, "the text begins at x = %s and not at %s", px, want)
			}
			key := vt.name
			if key == "none" {
				key = "Top"
			}
			if o := ys[key]; o != nil && !o.equal(py) {
				v.bad(f, what, "the text begins at y = %s and with another alignment across at %s", py, o)
			}
			ys[key] = py
		}
	}
	// down the cell: from the upper edge, between, from the lower edge
	if top, mid, bot := ys["Top"], ys["Middle"], ys["Bottom"]; top != nil && mid != nil && bot != nil {
		edge := page.plus(y, -1)
		up, low := edge.plus(top, -1), edge.plus(h, -1).plus(bot, -1)
		swap := poly{}
		asc := false
		for m, c := range up {
			n := m
			if strings.Contains(m, "TypoAscender(") {
				n, asc = strings.ReplaceAll(m, "TypoAscender(", "TypoDescender("), true
			}
			fs := strings.Split(n, "\x00")
			sort.Strings(fs)
			swap[strings.Join(fs, "\x00")] = c
		}
		switch {
		case !up.without(".cellHeightPdfUnit").equal(up) || !up.without(".y").equal(up) || !up.without(".pageheight").equal(up) || !asc:
			v.bad(f, "Align Top", "the text at the top is not one ascender below the upper edge: y = %s", top)
		case !low.equal(swap):
			v.bad(f, "Align Bottom", "the text at the bottom is not one descender above the lower edge: y = %s", bot)
		case !mid.equal(top.plus(bot, 1).times(half)):
			v.bad(f, "Align Middle", "the text in the middle is not halfway between top and bottom: y = %s", mid)
		}
	}
	for _, a := range []int64{0, R | B, C | M} {
		v.res.Counts["alignments"]++
		what := "text, Align " + strconv.FormatInt(a, 10)
		px, py, ok := positions(v.cell(f, map[string]*nd{"contentType": text, "fontStyle": ndNum(0)}, map[string]int64{"Align": a, "Border": 0}), what)
		if ok && (!px.equal(x) || !py.equal(page.plus(y, -1))) {
			v.bad(f, what, "a text that is no cell begins at %s %s and not at the current position", px, py)
		}
	}
	// borders
	edge := page.plus(y, -1)
	type line struct{ x0, y0, x1, y1 poly }
	right, lower := x.plus(w, 1), edge.plus(h, -1)
	sides := []struct {
		name string
		bit  int64
		l    line
	}{{"Left", L, line{x, edge, x, lower}}, {"Top", T, line{x, edge, right, edge}}, {"Right", R, line{right, edge, right, lower}}, {"Bottom", B, line{x, lower, right, lower}}}
	for n := 0; n < 16; n++ {
		v.res.Counts["borders"]++
		var bits int64
		want := map[string]bool{}
		what := "Border"
		for i, sd := range sides {
			if n>>uint(i)&1 == 1 {
				bits |= sd.bit
				want[sd.name] = true
				what += " " + sd.name
			}
		}
		s := v.cell(f, plain, map[string]int64{"Align": 0, "Border": bits})
		if s == nil {
			continue
		}
		for _, r := range v.fine(s) {
			ops, _ := printed(effsSince(r.st, nil))
			got := map[string]int{}
			var px, py poly
			for i, o := range ops {
				var q [2]poly
				if o.name == "m" || o.name == "l" {
					if len(o.args) != 2 || o.args[0].val == nil || o.args[1].val == nil {
						v.undecided(f, what, "the ends of a line are not known")
						continue
					}
					for k := range q {
						q[k] = toPoly(o.args[k].val, name).without(".lineWidth")
					}
				}
				switch o.name {
				case "m":
					px, py = q[0], q[1]
				case "l":
					found := ""
					for _, sd := range sides {
						l := sd.l
						if px.equal(l.x0) && py.equal(l.y0) && q[0].equal(l.x1) && q[1].equal(l.y1) || px.equal(l.x1) && py.equal(l.y1) && q[0].equal(l.x0) && q[1].equal(l.y0) {
							found = sd.name
						}
					}
					if found == "" {
						v.bad(f, what, "a line is drawn from %s %s to %s %s, which is no side of the cell", px, py, q[0], q[1])
					}
					got[found]++
					stroke := false
					for j := i + 1; j < len(ops) && j < i+3; j++ {
						stroke = stroke || ops[j].name == "s" || ops[j].name == "S"
					}
					if !stroke {
						v.bad(f, what, "a line of the border is not drawn")
					}
					px, py = q[0], q[1]
				case "re":
					v.undecided(f, what, "a rectangle is drawn for the border")
				}
			}
			for _, sd := range sides {
				if want[sd.name] && got[sd.name] == 0 {
					v.bad(f, what, "the side %s is not drawn", sd.name)
				}
				if !want[sd.name] && got[sd.name] > 0 {
					v.bad(f, what, "the side %s is drawn although it was not asked for", sd.name)
				}
			}
		}
	}
	// underline
	under := v.constant("Underline")
	for n := int64(0); n < 8; n++ {
		v.res.Counts["underlines"]++
		what := "font style " + strconv.FormatInt(n, 10)
		s := v.cell(f, map[string]*nd{"contentType": cell, "fontStyle": ndNum(n)}, map[string]int64{"Align": 0, "Border": 0})
		if s == nil {
			continue
		}
		for _, r := range v.fine(s) {
			ops, _ := printed(effsSince(r.st, nil))
			drawn := false
			for i, o := range ops {
				drawn = drawn || o.name == "re" && i+1 < len(ops) && (ops[i+1].name == "f" || ops[i+1].name == "F" || ops[i+1].name == "B") || o.name == "l"
			}
			if drawn != (n&under == under) {
				v.bad(f, what, "the text is underlined: %v, with the style %d", drawn, n)
			}
		}
	}
}

// floats: where the next text begins.
func (v *variants) floats() {
	f := v.method("listCacheContent", "appendContentText")
	if f == nil || len(f.Params) != 3 {
		return
	}
	R, B := v.constant("Right"), v.constant("Bottom")
	cell, text := v.constant("ContentTypeCell"), v.constant("ContentTypeText")
	for _, ct := range []int64{cell, text} {
		for _, fl := range []int64{0, R, B, R | B} {
			v.res.Counts["ways to go on"]++
			what := fmt.Sprintf("Float %d, content type %d", fl, ct)
			s := v.psum(func(g *ssa.Function) bool {
				return v.alongside(f, g) || v.small(g) && len(g.Params) > 0 && tname(deref(g.Params[0].Type())) == cellType
			})
			fold := s.rewrite
			s.rewrite = func(n *nd) *nd {
				switch {
				case v.fieldIs(n, "", "CellOption", "Float"):
					return ndNum(fl)
				case v.fieldIs(n, "", cellType, "contentType"):
					return ndNum(ct)
				}
				return fold(n)
			}
			if !s.run(f) {
				v.undecided(f, what, "%s", s.gave)
				continue
			}
			ends := v.fine(s)
			if len(ends) == 0 {
				v.undecided(f, what, "no way through")
			}
			for _, r := range ends {
				if len(r.vals) != 3 {
					v.undecided(f, what, "results")
					continue
				}
				var call *nd
				for _, e := range effsSince(r.st, nil) {
					if e.kind == "call" && methodName(e.name) == "createContent" {
						call = e.val
					}
				}
				if call == nil {
					v.undecided(f, what, "the size of the text is not worked out")
					continue
				}
				name := func(n *nd) string {
					for _, a := range []string{"x", "y"} {
						if v.fieldIs(n, "", cellType, a) {
							return "." + a
						}
					}
					return n.s
				}
				wx, wy := atomPoly(".x"), atomPoly(".y")
				if fl == 0 || fl&R == R || ct == text {
					wx = wx.plus(atomPoly(ndAtom("#0", call).s), 1)
				}
				if fl&B == B {
					wy = wy.plus(atomPoly(ndAtom("#1", call).s), 1)
				}
				if g := toPoly(r.vals[0], name); !g.equal(wx) {
					v.bad(f, what, "the next text begins at x = %s and not at %s", g, wx)
				}
				if g := toPoly(r.vals[1], name); !g.equal(wy) {
					v.bad(f, what, "the next text begins at y = %s and not at %s", g, wy)
				}
			}
		}
	}
}

// ---------------------------------------------------------------- what is added to the content

// written follows an exported function to what it adds to the content, and gives the operators that are written for it.
func (v *variants) written(f *ssa.Function, params map[int]*nd, each func(ops []*pop)) {
	what := "content"
	s := v.psum(func(g *ssa.Function) bool { return v.adds[g] && !v.takesContent(g) || v.small(g) })
	s.params = params
	if v.prep != nil {
		v.prep(s)
	}
	if !s.run(f) {
		v.undecided(f, what, "%s", s.gave)
		return
	}
	n := 0
	for _, r := range v.fine(s) {
		for _, e := range effsSince(r.st, nil) {
			var objs []*nd
			switch e.kind {
			case "call":
				if g := v.calleeOf(e); g != nil && v.takesContent(g) {
					for i, pr := range g.Params {
						if v.isContent(pr.Type()) && i < len(e.args) {
							objs = append(objs, e.args[i])
						}
					}
				}
			case "store":
				if e.val != nil && (e.val.typ != nil && v.writer(e.val.typ) != nil && isStructVal(e.val) || e.val.op == "new" && v.writer(deref(e.val.typ)) != nil) {
					objs = append(objs, e.val)
				}
			}
			for _, o := range objs {
				if o.typ == nil {
					v.undecided(f, what, "the kind of what is added is not known: %s", short(o))
					continue
				}
				w := v.writer(deref(o.typ))
				if w == nil {
					v.undecided(f, what, "what is added has no way to be written: %s", short(o))
					continue
				}
				n++
				s2 := v.psum(func(g *ssa.Function) bool { return v.small(g) || v.writesText(g) })
				s2.params = map[int]*nd{0: o}
				s2.start = r.st
				if v.prep != nil {
					v.prep(s2)
				}
				if !s2.run(w) {
					v.undecided(w, what, "%s", s2.gave)
					continue
				}
				for _, r2 := range v.fine(s2) {
					if v.read != nil {
						if ops, why := v.read(s2, r2, r.st); why != "" {
							v.undecided(w, what, "%s", why)
						} else {
							each(ops)
						}
						continue
					}
					ops, _ := printed(effsSince(r2.st, r.st.eff))
					each(ops)
				}
			}
		}
	}
	if n == 0 {
		v.undecided(f, what, "nothing that could be followed is added to the content")
	}
}

func (v *variants) calleeOf(e *peff) *ssa.Function {
	if ci, ok := e.ins.(ssa.CallInstruction); ok {
		return ci.Common().StaticCallee()
	}
	return nil
}

// writer is the method that writes objects of the type.
func (v *variants) writer(t types.Type) *ssa.Function {
	n, ok := t.(*types.Named)
	if !ok {
		return nil
	}
	f := v.p.methodOf(n, "write")
	if f == nil || f.Blocks == nil || !isWrite(f.Signature) {
		return nil
	}
	return f
}

func (v *variants) setters() {
	// colours
	for _, c := range []struct {
		fn, op  string
		n       int
		divisor int64
	}{
		{"SetStrokeColor", "RG", 3, 255}, {"SetFillColor", "rg", 3, 255}, {"SetTextColor", "rg", 3, 255},
		{"SetStrokeColorCMYK", "K", 4, 100}, {"SetFillColorCMYK", "k", 4, 100}, {"SetTextColorCMYK", "k", 4, 100},
		{"SetGrayStroke", "G", 1, 0}, {"SetGrayFill", "g", 1, 0},
	} {
		f := v.method("GoPdf", c.fn)
		if f == nil {
			continue
		}
		v.res.Counts["colours"]++
		v.written(f, nil, func(ops []*pop) {
			if len(ops) != 1 || v.opName(ops[0]) != c.op || len(ops[0].args) != c.n {
				v.bad(f, c.op, "%s writes %q where the operator %s with %d numbers belongs", c.fn, showOps(ops), c.op, c.n)
				return
			}
			if c.divisor == 0 {
				return
			}
			for i, a := range ops[0].args {
				want := atomPoly("P" + strconv.Itoa(i+1)).times(num(big.NewRat(1, c.divisor)))
				if a.val == nil || !toPoly(a.val, named).equal(want) {
					v.bad(f, c.op, "number %d of the colour is %s and not %s", i+1, short(a.val), want)
				}
			}
		})
	}
	// line types
	if f := v.method("GoPdf", "SetLineType"); f != nil {
		pattern := map[string]string{}
		for _, t := range []string{"dashed", "dotted", "solid", "normal", ""} {
			v.res.Counts["line types"]++
			v.written(f, map[int]*nd{1: ndLit(t)}, func(ops []*pop) {
				txt := ""
				for _, o := range ops {
					for _, a := range o.args {
						if a.val != nil {
							txt += "?"
						}
						txt += a.text + " "
					}
					txt += o.name + " "
				}
				if len(ops) != 1 || ops[0].name != "d" {
					v.bad(f, "line type "+t, "the line type %q writes %q", t, showOps(ops))
				}
				if o, ok := pattern[t]; ok && o != txt {
					v.bad(f, "line type "+t, "the line type %q writes %q or %q", t, o, txt)
				}
				pattern[t] = txt
			})
		}
		solid := strings.HasPrefix(strings.ReplaceAll(pattern[""], " ", ""), "[]")
		if !solid || pattern["solid"] != pattern[""] || pattern["normal"] != pattern[""] {
			v.bad(f, "line type solid", "a line without a named type is not drawn through: %q", pattern[""])
		}
		for i, t := range []string{"dashed", "dotted"} {
			if pattern[t] == pattern[""] || i == 1 && pattern[t] == pattern["dashed"] {
				v.bad(f, "line type "+t, "the line type %q looks like another one: %q", t, pattern[t])
			}
		}
	}
	// paint styles
	for _, fn := range []string{"RectFromLowerLeftWithStyle", "RectFromUpperLeftWithStyle", "Polygon"} {
		f := v.method("GoPdf", fn)
		if f == nil {
			continue
		}
		at := len(f.Params) - 1
		for _, c := range []struct{ style, kind string }{{"", "stroke"}, {"D", "stroke"}, {"F", "fill"}, {"FD", "both"}, {"DF", "both"}} {
			v.res.Counts["paint styles"]++
			v.written(f, map[int]*nd{at: ndLit(c.style)}, func(ops []*pop) { v.painted(f, c.style, c.kind, ops) })
		}
	}
	for _, fn := range []string{"RectFromLowerLeft", "RectFromUpperLeft", "Line", "Oval"} {
		if f := v.method("GoPdf", fn); f != nil {
			v.res.Counts["paint styles"]++
			v.written(f, nil, func(ops []*pop) { v.painted(f, "outline", "stroke", ops) })
		}
	}
}

func (v *variants) opName(o *pop) string {
	if o.nv != nil {
		if t, ok := litText(o.nv); ok {
			return t
		}
		return "?"
	}
	return o.name
}

func (v *variants) painted(f *ssa.Function, style, kind string, ops []*pop) {
	got := ""
	n := 0
	for _, o := range ops {
		k := ""
		switch v.opName(o) {
		case "S", "s":
			k = "stroke"
		case "f", "F", "f*":
			k = "fill"
		case "B", "b", "B*", "b*":
			k = "both"
		case "?":
			v.undecided(f, "style "+style, "the operator is not known: %s", short(o.nv))
			return
		case "n":
			k = "nothing"
		}
		if k != "" {
			got = k
			n++
		}
	}
	if got != kind || n != 1 {
		v.bad(f, "style "+style, "the style %q (%s) is painted as %q (%s)", style, kind, got, showOps(ops))
	}
}

// ---------------------------------------------------------------- placeholders, tables

func (v *variants) placeholders() {
	f := v.method("GoPdf", "FillInPlaceHoldText")
	if f == nil || len(f.Params) != 4 {
		return
	}
	for _, c := range []struct {
		name string
		part *big.Rat
	}{{"Left", nil}, {"Center", big.NewRat(1, 2)}, {"Right", big.NewRat(1, 1)}} {
		v.res.Counts["placeholder alignments"]++
		what := "placeholder " + c.name
		s := v.psum(func(g *ssa.Function) bool {
			return v.small2(g) && g.Signature.Results().Len() <= 1 && len(g.Blocks) <= 6
		})
		s.params = map[int]*nd{3: ndNum(v.constant(c.name))}
		if !s.run(f) {
			v.undecided(f, what, "%s", s.gave)
			continue
		}
		k, _ := v.p.fieldNamed(cellType, "x")
		n := 0
		for _, it := range s.iters {
			if it.loop.id != "" || it.loop.fn != f {
				continue
			}
			n++
			var got *nd
			var width *nd
			for _, e := range effsSince(it.st, it.loop.eff) {
				if e.kind == "store" && e.addr.op == "&f" && e.addr.a[1].s == k.String() {
					got = e.val
				}
				if e.kind == "call" && methodName(e.name) == "createContent" || e.kind == "call" && strings.HasSuffix(e.name, "createContent") {
					width = ndAtom("#2", e.val)
				}
			}
			name := func(x *nd) string {
				switch {
				case v.fieldIs(x, "", cellType, "x"), len(x.a) == 0 && strings.Contains(x.s, "\x01"+k.String()+"@"):
					return ".x"
				case v.fieldIs(x, "", "placeHolderTextInfo", "placeHolderWidth"):
					return ".width"
				case width != nil && x.s == width.s:
					return ".text"
				}
				return x.s
			}
			if c.part == nil {
				if got != nil && !toPoly(got, name).equal(atomPoly(".x")) {
					v.bad(f, what, "the text is moved")
				}
				continue
			}
			want := atomPoly(".x").plus(atomPoly(".width").plus(atomPoly(".text"), -1).times(num(c.part)), 1)
			if got == nil {
				v.bad(f, what, "the text stays where the placeholder begins")
			} else if g := toPoly(got, name); !g.equal(want) {
				v.bad(f, what, "the text begins at %s and not at %s", g, want)
			}
		}
		if n == 0 {
			v.undecided(f, what, "no placeholder is filled in")
		}
	}
}

func (v *variants) tables() {
	L, R, C := v.constant("Left"), v.constant("Right"), v.constant("Center")
	if f := v.method("tableLayout", "drawCell"); f != nil {
		at := -1
		for i, pr := range f.Params {
			if isString(pr.Type()) && (pr.Name() == "align" || at < 0 && i == 6) {
				at = i
			}
		}
		k, ok := v.p.fieldNamed("CellOption", "Align")
		if at < 0 || !ok {
			v.undecided(f, "alignment", "there is no parameter for the alignment")
			return
		}
		for _, c := range []struct {
			name string
			bit  int64
		}{{"left", L}, {"center", C}, {"right", R}} {
			v.res.Counts["table alignments"]++
			s := v.psum(func(g *ssa.Function) bool { return v.alongside(f, g) })
			s.params = map[int]*nd{at: ndLit(c.name)}
			if !s.run(f) {
				v.undecided(f, c.name, "%s", s.gave)
				continue
			}
			n := 0
			for _, r := range v.fine(s) {
				for _, e := range effsSince(r.st, nil) {
					if e.kind != "call" {
						continue
					}
					for _, a := range e.args {
						if a.op != "struct" || a.typ == nil || tname(a.typ) != k.typ || k.idx >= len(a.a) {
							continue
						}
						n++
						al := a.a[k.idx]
						if !al.isNum() {
							v.undecided(f, c.name, "the alignment is not known: %s", short(al))
						} else if g := al.k & (L | R | C); g != c.bit && !(c.bit == L && g == 0) {
							v.bad(f, "align "+c.name, "a column aligned %q is drawn with the alignment %d", c.name, al.k)
						}
					}
				}
			}
			if n == 0 {
				v.undecided(f, c.name, "no cell is drawn with an alignment")
			}
		}
	}
	v.tableBorders()
}

func (v *variants) tableBorders() {
	for _, f := range v.p.Funcs {
		if f.Blocks == nil || !v.p.owns(f) || f.Parent() != nil || f.Signature.Params().Len() != 5 {
			continue
		}
		last := len(f.Params) - 1
		n, ok := f.Params[last].Type().(*types.Named)
		if !ok || n.Obj().Name() != "BorderStyle" {
			continue
		}
		first := last - 4
		x1, y1, x2, y2 := atomPoly("P"+strconv.Itoa(first)), atomPoly("P"+strconv.Itoa(first+1)), atomPoly("P"+strconv.Itoa(first+2)), atomPoly("P"+strconv.Itoa(first+3))
		sides := []struct {
			name string
			l    [4]poly
		}{{"Top", [4]poly{x1, y1, x2, y1}}, {"Bottom", [4]poly{x1, y2, x2, y2}}, {"Left", [4]poly{x1, y1, x1, y2}}, {"Right", [4]poly{x2, y1, x2, y2}}}
		for m := 0; m < 16; m++ {
			v.res.Counts["table borders"]++
			what := "table border"
			want := map[string]bool{}
			for i, sd := range sides {
				if m>>uint(i)&1 == 1 {
					want[sd.name] = true
					what += " " + sd.name
				}
			}
			s := v.psum(func(g *ssa.Function) bool { return v.alongside(f, g) })
			fold := s.rewrite
			s.rewrite = func(n *nd) *nd {
				for _, sd := range sides {
					if v.fieldIs(n, "", "BorderStyle", sd.name) {
						return ndBool(want[sd.name])
					}
				}
				return fold(n)
			}
			s.known = func(old func(*pst, *nd) (bool, bool)) func(*pst, *nd) (bool, bool) {
				return func(st *pst, c *nd) (bool, bool) {
					for _, sd := range sides {
						if v.fieldIs(c, "", "BorderStyle", sd.name) {
							return want[sd.name], true
						}
					}
					return old(st, c)
				}
			}(s.known)
			if !s.run(f) {
				v.undecided(f, what, "%s", s.gave)
				continue
			}
			drawn := 0
			for _, r := range v.fine(s) {
				none := false // a border without a width
				for _, g := range factsSince(r.st, nil) {
					none = none || g.want && (strings.HasPrefix(g.cond.op, "f<") || g.cond.op == "eq") && strings.Contains(g.cond.s, "BorderStyle")
				}
				if none {
					continue
				}
				got := map[string]int{}
				for _, e := range effsSince(r.st, nil) {
					if e.kind != "call" || methodName(e.name) != "Line" || len(e.args) != 5 {
						continue
					}
					drawn++
					var q [4]poly
					for i := range q {
						q[i] = toPoly(e.args[i+1], func(n *nd) string {
							if v.fieldIs(n, "", "BorderStyle", "Width") {
								return ".Width"
							}
							return n.s
						}).without(".Width")
					}
					found := ""
					for _, sd := range sides {
						l := sd.l
						if q[0].equal(l[0]) && q[1].equal(l[1]) && q[2].equal(l[2]) && q[3].equal(l[3]) || q[2].equal(l[0]) && q[3].equal(l[1]) && q[0].equal(l[2]) && q[1].equal(l[3]) {
							found = sd.name
						}
					}
					if found == "" {
						v.bad(f, what, "a line from %s %s to %s %s is no side", q[0], q[1], q[2], q[3])
					}
					got[found]++
				}
				for _, sd := range sides {
					if want[sd.name] != (got[sd.name] > 0) {
						v.bad(f, what, "the side %s: asked for %v, drawn %v", sd.name, want[sd.name], got[sd.name] > 0)
					}
				}
			}
			if drawn == 0 && m != 0 {
				v.undecided(f, what, "no line is drawn")
			}
		}
	}
}

// ---------------------------------------------------------------- kinds of images

// images: each colour model of a JPEG and each colour type of a PNG has its colour space, and transparency is split off
// where the type has it.
func (v *variants) images() {
	p := v.p
	k, ok := p.fieldNamed("imgInfo", "colspace")
	if !ok {
		v.undecided(nil, "images", "imgInfo.colspace is not there")
		return
	}
	models := map[string]string{"YCbCrModel": "DeviceRGB", "GrayModel": "DeviceGray", "CMYKModel": "DeviceCMYK"}
	types_ := map[int64]string{0: "DeviceGray", 2: "DeviceRGB", 3: "Indexed", 4: "DeviceGray", 6: "DeviceRGB"}
	gotM, gotT := map[string]bool{}, map[int64]bool{}
	var at *ssa.Function
	part := func(g *ssa.Function) bool { return v.scalar(g) || v.small(g) && setsField(g, k) }
	called := map[*ssa.Function]bool{}
	setter := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		if f.Blocks == nil || !p.owns(f) {
			continue
		}
		setter[f] = setter[f] || setsField(f, k)
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && g.Blocks != nil && p.owns(g) && setsField(g, k) && part(g) && splitOff(g) {
						called[g] = true
						setter[f] = true
					}
				}
			}
		}
	}
	for _, f := range p.Funcs {
		if !setter[f] || called[f] {
			continue
		}
		at = f
		s := v.psum(func(g *ssa.Function) bool { return part(g) })
		s.ownCalls = true
		if !s.run(f) {
			v.undecided(f, "images", "%s", s.gave)
			continue
		}
		ends := v.fine(s)
		// the value that tells the types of a PNG apart
		vals := map[string]map[int64]bool{}
		for _, r := range ends {
			for a, n := range knownNumbers(r.st) {
				if vals[a] == nil {
					vals[a] = map[int64]bool{}
				}
				vals[a][n] = true
			}
		}
		kind, most := "", 2
		for a, ns := range vals {
			if len(ns) > most || len(ns) == most && kind != "" && a < kind {
				kind, most = a, len(ns)
			}
		}
		for _, r := range ends {
			space, alpha, parms, mask := "", false, (*nd)(nil), false
			for _, e := range effsSince(r.st, nil) {
				if e.kind != "store" || e.addr.op != "&f" {
					continue
				}
				if e.addr.a[1].s == k.String() {
					space = "?"
					if t, ok := litText(e.val); ok {
						space = t
					}
					mask = e.addr.a[0].op == "&f" && strings.Contains(e.addr.a[0].s, "SMask#")
				}
				if fl, ok := p.fieldNamed("imgInfo", "smask"); ok && e.addr.a[1].s == fl.String() {
					alpha = true
				}
				if fl, ok := p.fieldNamed("imgInfo", "decodeParms"); ok && e.addr.a[1].s == fl.String() {
					parms = e.val
				}
			}
			if space == "" {
				continue
			}
			if space == "?" {
				v.undecided(f, "images", "the colour space is not known")
				continue
			}
			if mask { // the mask itself, not an image with one
				v.res.Counts["masks"]++
				if space != "DeviceGray" {
					v.bad(f, "mask", "the mask of an image is embedded as %s", space)
				}
				continue
			}
			model := ""
			for _, g := range factsSince(r.st, nil) {
				if g.want && g.cond.op == "eq" {
					for m := range models {
						if strings.Contains(g.cond.s, "image/color."+m) {
							model = m
						}
					}
				}
			}
			n, isPng := knownNumbers(r.st)[kind]
			switch {
			case model != "":
				v.res.Counts["image kinds"]++
				gotM[model] = true
				if space != models[model] {
					v.bad(f, model, "a JPEG with the colours of %s is embedded as %s", model, space)
				}
			case isPng && kind != "":
				if !gotT[n] {
					v.res.Counts["image kinds"]++
				}
				gotT[n] = true
				what := "colour type " + strconv.FormatInt(n, 10)
				if space != types_[n] {
					v.bad(f, what, "a PNG of colour type %d is embedded as %s", n, space)
				}
				if alpha != (n == 4 || n == 6) {
					v.bad(f, what, "a PNG of colour type %d: transparency split off %v", n, alpha)
				}
				if parms != nil && strings.HasPrefix(parms.op, "call:fmt.Sprintf") && len(parms.a) > 1 {
					if c := argAfter(parms, "/Colors"); c == nil || !c.isNum() {
						v.undecided(f, what, "the number of colours is not known: %s", short(parms))
					} else if want := map[bool]int64{true: 3, false: 1}[space == "DeviceRGB"]; c.k != want {
						v.bad(f, what, "a PNG of colour type %d is said to have %d colours", n, c.k)
					}
				} else if parms == nil {
					v.undecided(f, what, "the parameters for decoding are not set")
				}
			default:
				v.undecided(f, "images", "it is not known for which images the colour space %s is", space)
			}
		}
	}
	for m := range models {
		if !gotM[m] {
			v.bad(at, m, "JPEG images with the colours of %s are not taken", m)
		}
	}
	for n := range types_ {
		if !gotT[n] {
			v.bad(at, "colour type "+strconv.FormatInt(n, 10), "PNG images of colour type %d are not taken", n)
		}
	}
}

// splitOff: a function that does nothing but set the colour space, by what it is told.
func splitOff(f *ssa.Function) bool {
	for _, pr := range f.Params {
		if b, ok := pr.Type().Underlying().(*types.Basic); ok && b.Info()&(types.IsInteger|types.IsString) != 0 {
			return true
		}
	}
	return false
}

// argAfter gives the value printed after a word of the format.
func argAfter(sp *nd, word string) *nd {
	t, ok := litText(sp.a[0])
	i := strings.Index(t, word)
	if !ok || i < 0 {
		return nil
	}
	n := strings.Count(strings.ReplaceAll(t[:i], "%%", ""), "%")
	if n+1 >= len(sp.a) {
		return nil
	}
	return sp.a[n+1]
}

// known: the numbers something read is known to be.
func knownNumbers(st *pst) map[string]int64 {
	out := map[string]int64{}
	for _, g := range factsSince(st, nil) {
		if g.want && g.cond.op == "eq0" {
			x := g.cond.a[0]
			if x.op == "+" && len(x.lin) == 1 {
				for _, a := range x.at {
					c := x.lin[a.s]
					if (c == 1 || c == -1) && strings.HasPrefix(a.op, "elem") {
						out[a.s] = -x.k * c
					}
				}
			} else if strings.HasPrefix(x.op, "elem") {
				out[x.s] = 0
			}
		}
	}
	return out
}

func setsField(f *ssa.Function, k fieldKey) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && fkey(fa.X.Type(), fa.Field) == k {
					return true
				}
			}
		}
	}
	return false
}
