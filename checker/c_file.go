package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["S01"] = checkS01
}

// fileSite is a number written into the file structure.
type fileSite struct {
	src  BV
	lit  string
	ins  ssa.Instruction
	fr   *Frame
	pos  string
	arg  BV       // object number passed to the object writer
	recv BV       // the object
	mk   []string // marks at that point
}

type fileLog struct {
	header, object, count, entry, startx map[string]fileSite
	recs                                 map[string]*ssa.Store
	recFr                                map[string]*Frame
}

func newFileLog() *fileLog {
	m := func() map[string]fileSite { return map[string]fileSite{} }
	return &fileLog{m(), m(), m(), m(), m(), map[string]*ssa.Store{}, map[string]*Frame{}}
}

func (r *reporter) site(m map[string]fileSite, id int, lit string) {
	s := fileSite{lit: lit, ins: r.it.cur, fr: r.it.curFr, pos: r.pos, mk: r.marks}
	if id > 0 {
		s.src = r.srcTab[id-1]
	}
	k := fmt.Sprintf("%s|%d|%s|%p", r.pos, id, lit, r.it.cur)
	if old, ok := m[k]; ok {
		// keep only what holds on every path
		s.mk = intersect(old.mk, s.mk)
	}
	m[k] = s
}

func intersect(a, b []string) []string {
	var out []string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				out = append(out, x)
			}
		}
	}
	return out
}

// fileParser recognises the structure of a complete file.
type fileParser struct {
	ph   byte // h header, o between objects, b before the object body, e before endobj, x count, n first entry, r entries, t trailer, s startxref, z end
	tail string
	obj  *objParser
	srcs string
}

func (f *fileParser) key() string {
	k := fmt.Sprintf("F%c%q", f.ph, f.tail)
	if f.obj != nil {
		k += f.obj.key()
	}
	return k
}
func (f *fileParser) inStream() bool { return f.ph != 't' && f.ph != 's' }
func (f *fileParser) dataMode() bool { return false }

// boundary: nothing of the next element has been written yet.
func (f *fileParser) boundary() bool { return f.ph == 'o' && strings.TrimSpace(f.tail) == "" }

var (
	reFileHead  = regexp.MustCompile(`^%PDF-\d\.\d\r?\n`)
	reComment   = regexp.MustCompile(`^%[^\n]*\n`)
	reObjHead   = regexp.MustCompile(`^(?:(\d+)|\x01(\d+)\x02) 0 obj[ \r\n]`)
	reObjPart   = regexp.MustCompile(`^(\d+|\x01\d+\x02)?( (0( (o(bj?)?)?)?)?)?$`)
	reXrefCount = regexp.MustCompile(`^0 (?:(\d+)|\x01(\d+)\x02) ?\r?\n`)
	reXrefFree  = regexp.MustCompile(`^0000000000 65535 f( \n|\r\n| \r)`)
	reXrefEntry = regexp.MustCompile(`^([0-9]*)(?:\x01(\d+)\x02)?([0-9]*) 00000 n( \n|\r\n| \r)`)
)

func (f *fileParser) body(r *reporter, s string, h *Hole) (Mach, bool) {
	n := *f
	f = &n
	fail := func(format string, a ...any) (Mach, bool) {
		r.report("file", format, a...)
		return Mach{mode: ' ', ps: f}, false
	}
	if h != nil {
		switch h.Kind {
		case HObject:
			if f.ph != 'b' {
				return fail("an object body is written where no object header precedes it")
			}
			if strings.TrimSpace(f.tail) != "" {
				return fail("text %q is written between object header and object body", f.tail)
			}
			f.ph, f.tail = 'e', ""
			return Mach{mode: ' ', ps: f}, true
		case HInt:
			f.tail += fmt.Sprintf("\x01%d\x02", r.srcID(h.Src))
		default:
			return fail("data that is not part of the file structure is written between objects")
		}
	} else {
		f.tail += s
	}
	num := func(m []string, i int) (int, string) {
		if m[i] != "" {
			return 0, m[i]
		}
		id, _ := strconv.Atoi(m[i+1])
		return id, ""
	}
	for {
		switch f.ph {
		case 'h':
			if m := reFileHead.FindString(f.tail); m != "" {
				f.ph, f.tail = 'o', f.tail[len(m):]
				continue
			}
			if len(f.tail) > 9 {
				return fail("the file does not start with a %%PDF header line")
			}
		case 'o':
			f.tail = strings.TrimLeft(f.tail, " \r\n")
			if m := reComment.FindString(f.tail); m != "" {
				f.tail = f.tail[len(m):]
				continue
			}
			if strings.HasPrefix(f.tail, "xref\n") || strings.HasPrefix(f.tail, "xref\r\n") {
				f.ph, f.tail = 'x', strings.TrimLeft(f.tail[4:], "\r\n")
				continue
			}
			if m := reObjHead.FindStringSubmatch(f.tail); m != nil {
				id, lit := num(m, 1)
				r.site(r.file.header, id, lit)
				f.ph, f.tail = 'b', f.tail[len(m[0]):]
				continue
			}
			if f.tail == "" || f.tail[0] == '%' || reObjPart.MatchString(f.tail) || strings.HasPrefix("xref\r", f.tail) {
				break
			}
			return fail("text %q is written where an object header or the xref table must start", clean(f.tail))
		case 'b':
			if strings.TrimSpace(f.tail) != "" {
				return fail("text %q is written between object header and object body", clean(f.tail))
			}
		case 'e':
			t := strings.TrimLeft(f.tail, " \r\n")
			if strings.HasPrefix(t, "endobj") {
				if len(t) > 6 && !isSpace(t[6]) {
					return fail("endobj runs into %q", clean(t[6:]))
				}
				if len(t) > 6 {
					f.ph, f.tail = 'o', t[6:]
					continue
				}
			} else if !strings.HasPrefix("endobj", t) {
				return fail("text %q is written where endobj is expected", clean(t))
			}
		case 'x':
			if m := reXrefCount.FindStringSubmatch(f.tail); m != nil {
				id, lit := num(m, 1)
				r.site(r.file.count, id, lit)
				f.ph, f.tail = 'n', f.tail[len(m[0]):]
				continue
			}
			if len(f.tail) > 40 || strings.Contains(f.tail, "\n") {
				return fail("malformed xref subsection header %q", clean(f.tail))
			}
		case 'n':
			if m := reXrefFree.FindString(f.tail); m != "" {
				f.ph, f.tail = 'r', f.tail[len(m):]
				continue
			}
			if len(f.tail) >= 20 {
				return fail("the first xref entry %q is not the 20 byte entry of the free object 0", clean(f.tail))
			}
		case 'r':
			if strings.HasPrefix(f.tail, "trailer") && len(f.tail) > 7 {
				rest := f.tail[7:]
				f.ph, f.tail = 't', ""
				f.obj = &objParser{}
				ms := Mach{mode: ' ', ps: f}.lit(r, rest)
				if len(ms) == 0 {
					return Mach{mode: ' ', ps: f}, false
				}
				return ms[0], true
			}
			if m := reXrefEntry.FindStringSubmatch(f.tail); m != nil {
				id := 0
				if m[2] != "" {
					id, _ = strconv.Atoi(m[2])
				}
				if id == 0 && len(m[1]) != 10 {
					return fail("xref entry %q does not have a 10 digit offset", clean(m[0]))
				}
				if m[3] != "" && id != 0 {
					return fail("xref entry has digits after its offset")
				}
				r.site(r.file.entry, id, m[1])
				f.tail = f.tail[len(m[0]):]
				continue
			}
			for strings.HasPrefix(f.tail, "00000000000") {
				// padding of unknown length: the width is decided on the source of the number
				f.tail = f.tail[1:]
			}
			if len(f.tail) > 60 || strings.Contains(f.tail, "\n") {
				return fail("xref entry %q does not have the form offset(10) generation(5) n and a two byte line end", clean(f.tail))
			}
		case 'z':
			if !strings.HasPrefix("%%EOF", strings.TrimSpace(f.tail)) && !strings.HasPrefix(strings.TrimSpace(f.tail), "%%EOF") {
				return fail("text %q is written where %%%%EOF is expected", clean(f.tail))
			}
		}
		return Mach{mode: ' ', ps: f}, true
	}
}

var reHole = regexp.MustCompile("\x01\\d+\x02")

func clean(s string) string { return reHole.ReplaceAllString(s, "<n>") }

func (f *fileParser) tok(r *reporter, t tok) (parser, bool) {
	n := *f
	if n.ph == 's' {
		if t.kind != tInt {
			r.report("file", "startxref is followed by %s %s, not by an offset", tokNames[t.kind], t.text)
			return &n, false
		}
		r.site(r.file.startx, t.src, t.text)
		n.ph = 'z'
		return &n, true
	}
	if n.obj.phase == 1 {
		if t.kind == tKw && t.text == "startxref" {
			if !strings.HasPrefix(n.obj.top, "dict") {
				r.report("file", "the trailer is not a dictionary")
				return &n, false
			}
			n.ph = 's'
			return &n, true
		}
		r.report("file", "%s %s follows the trailer dictionary", tokNames[t.kind], t.text)
		return &n, false
	}
	o, ok := n.obj.clone().tok(r, t)
	n.obj = o.(*objParser)
	return &n, ok
}

// fileRun is the analysis of the function that writes a complete document.
type fileRun struct {
	fn     *ssa.Function
	r      *reporter
	it     *Interp
	target BV
	raw    BV
	cwType types.Type
	finals []PS
	err    string
}

// fileRun finds the function that writes the objects one after the other and interprets it.
func (p *Prog) fileAnalysis() *fileRun {
	if p.fileMemo != nil {
		return p.fileMemo
	}
	e := p.emission()
	run := &fileRun{}
	p.fileMemo = run
	if e.objIface == nil {
		run.err = "no object writer interface found"
		return run
	}
	isObj := func(c *ssa.CallCommon) bool {
		return c.IsInvoke() && c.Method.Name() == e.objWrite && types.Identical(c.Value.Type(), e.objIface)
	}
	var inv ssa.CallInstruction
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && isObj(ci.Common()) {
					if inv != nil {
						run.err = "objects are written at more than one place (" + p.insPos(inv) + ", " + p.insPos(ci) + ")"
						return run
					}
					inv = ci
				}
			}
		}
	}
	if inv == nil {
		run.err = "no call of the object writer through its interface was found"
		return run
	}
	// climb until the writer operand is made inside the function
	fn := inv.Parent()
	w := inv.Common().Args[0]
	fr := e.vc.root(fn)
	for n := 0; n < 5; n++ {
		rb := e.vc.resolve(BV{w, fr})
		pr, ok := rb.v.(*ssa.Parameter)
		if !ok {
			run.target = rb
			break
		}
		cs := p.staticCallers()[pr.Parent()]
		if len(cs) != 1 {
			run.err = fmt.Sprintf("the objects are written to parameter %s of %s, which is not a counting writer made around the destination", pr.Name(), fname(pr.Parent()))
			return run
		}
		fn = cs[0].Parent()
		fr = e.vc.root(fn)
		w = cs[0].Common().Args[paramIndex(pr)]
	}
	run.fn = fn
	if run.target.v == nil {
		run.err = "the writer the objects go to could not be resolved"
		return run
	}
	run.cwType = deref(run.target.v.Type())
	if structOf(run.cwType) == nil || p.inPkg[namedPkg(run.cwType)] == false {
		run.err = "the objects are not written through a writer type of this library that counts the bytes"
		return run
	}
	// raw destination: the writer stored in the counting writer
	if al, ok := run.target.v.(*ssa.Alloc); ok {
		_, fields := allocStores(al)
		for _, sts := range fields {
			for _, st := range sts {
				if isIOWriter(st.Val.Type()) {
					run.raw = e.vc.resolve(BV{st.Val, e.vc.frameOfStore(run.target.fr, st)})
				}
			}
		}
	}
	r := newReporter(p, e.vc, "file")
	r.file = newFileLog()
	it := newInterp(p, e.vc, r)
	it.objectCall = isObj
	run.r, run.it = r, it
	it.onIns = run.onIns
	it.onWrite = run.onWrite
	it.onOther = func(fr *Frame, ci ssa.CallInstruction, w BV) {
		if run.raw.v != nil && it.vc.same(it.vc.resolve(w), run.raw) {
			r.report("file", "bytes are written to the destination without being counted")
		}
	}
	run.finals = it.run(fr, target{run.target}, []PS{{m: Mach{mode: ' ', ps: &fileParser{ph: 'h'}}}}, nil)
	r.fn, r.pos = fname(fn), p.pos(fn.Pos())
	ok := 0
	for _, s := range run.finals {
		m, fin := s.m.finish(r)
		if !fin {
			continue
		}
		f := m.ps.(*fileParser)
		if f.ph != 'z' || strings.TrimSpace(f.tail) != "%%EOF" {
			r.report("file", "an error-free path ends before the file is complete (last part: %s)", map[byte]string{'h': "header", 'o': "objects", 'b': "object header", 'e': "object", 'x': "xref", 'n': "xref", 'r': "xref entries", 't': "trailer", 's': "startxref", 'z': "startxref"}[f.ph])
			continue
		}
		ok++
	}
	if ok == 0 && len(r.findings) == 0 {
		r.report("unresolved", "no error-free path writes a complete file")
	}
	return run
}

func namedPkg(t types.Type) *types.Package {
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// onIns tracks reads of the byte counter and the places where such a value is recorded.
func (run *fileRun) onIns(fr *Frame, ins ssa.Instruction, t target, s PS) PS {
	it := run.it
	switch x := ins.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL || !isInteger(x.Type()) {
			return s
		}
		if fa, ok := x.X.(*ssa.FieldAddr); ok && it.isTarget(t, BV{fa.X, fr}) {
			id := it.vc.id(BV{x, fr})
			return s.unmark("hdr:" + id).unmark("xr:" + id).mark("off:" + id)
		}
	case *ssa.Store:
		if !isInteger(x.Val.Type()) {
			return s
		}
		if a, ok := x.Addr.(*ssa.Alloc); ok && !a.Heap {
			return s
		}
		if _, ok := x.Addr.(*ssa.FieldAddr); ok && it.isTarget(t, BV{x.Addr.(*ssa.FieldAddr).X, fr}) {
			it.at(x)
			it.r.report("file", "the byte counter of the writer is changed from outside")
			return s
		}
		v := it.stripConv(BV{x.Val, fr})
		ld, ok := v.v.(*ssa.UnOp)
		if !ok {
			return s
		}
		fa, ok := ld.X.(*ssa.FieldAddr)
		if !ok || !it.isTarget(t, BV{fa.X, v.fr}) {
			return s
		}
		switch x.Addr.(type) {
		case *ssa.IndexAddr, *ssa.FieldAddr:
		default:
			return s
		}
		it.at(x)
		id := it.vc.id(v)
		it.r.file.recs[fmt.Sprintf("%p", x)] = x
		it.r.file.recFr[fmt.Sprintf("%p", x)] = fr
		has := func(k string) bool {
			for _, m := range s.marks {
				if m == k {
					return true
				}
			}
			return false
		}
		switch {
		case has("hdr:" + id):
			if has("last1") {
				it.r.report("file", "two offsets are recorded for one object")
			}
			return s.mark("last1")
		case has("off:" + id):
			for _, m := range s.marks {
				if strings.HasPrefix(m, "pend:") && m != "pend:"+id {
					it.r.report("file", "two offsets are recorded for one object")
				}
			}
			return s.mark("pend:" + id)
		}
		it.r.report("file", "an offset is recorded that is not the position at which an object header starts (bytes were written in between)")
	}
	return s
}

func (run *fileRun) onWrite(fr *Frame, ci ssa.CallInstruction, before PS, out []PS) []PS {
	r := run.r
	pb := before.m.ps.(*fileParser)
	for i, s := range out {
		f := s.m.ps.(*fileParser)
		began := pb.boundary() && !f.boundary()
		has := func(k string) bool {
			for _, m := range s.marks {
				if m == k {
					return true
				}
			}
			return false
		}
		xref := began && (f.ph != 'o' && f.ph != 'b' || strings.HasPrefix(f.tail, "x"))
		pend := ""
		for _, m := range s.marks {
			if strings.HasPrefix(m, "pend:") {
				pend = m[5:]
			}
		}
		run.it.at(ci)
		if began {
			if has("H") && !has("last1") {
				r.report("file", "no offset is recorded for an object that was written")
			}
			for _, m := range append([]string(nil), s.marks...) {
				if strings.HasPrefix(m, "hdr:") || m == "last1" || strings.HasPrefix(m, "pend:") {
					s = s.unmark(m)
				}
			}
			fresh := pend != "" && has("off:"+pend)
			if pend != "" && !fresh {
				r.report("file", "the offset recorded for an object is read before the bytes in front of its header are written")
			}
			if xref && pend != "" {
				r.report("file", "an offset is recorded for which no object is written")
			}
			if !xref {
				s = s.mark("H")
				if pend != "" {
					s = s.mark("last1")
				}
			}
			pre := "hdr:"
			if xref {
				pre = "xr:"
			}
			for _, m := range append([]string(nil), s.marks...) {
				if strings.HasPrefix(m, "off:") {
					s = s.mark(pre + m[4:])
				}
			}
		}
		for _, m := range append([]string(nil), s.marks...) {
			if strings.HasPrefix(m, "off:") {
				s = s.unmark(m)
			}
		}
		if ci != nil && f.ph == 'e' && pb.ph == 'b' {
			cc := ci.Common()
			r.file.object[run.r.p.insPos(ci)] = fileSite{ins: ci, fr: fr, pos: r.p.insPos(ci), arg: BV{cc.Args[1], fr}, recv: BV{cc.Value, fr}}
		}
		out[i] = s
	}
	return dedupPS(out)
}

// ---- symbolic counts ---------------------------------------------------------

// affine splits an integer expression into base + constant.
func (c *valCtx) affine(b BV) (BV, int64) {
	var k int64
	for n := 0; n < 20; n++ {
		b = c.resolve(b)
		switch x := b.v.(type) {
		case *ssa.Convert:
			if isInteger(x.X.Type()) {
				b.v = x.X
				continue
			}
		case *ssa.BinOp:
			if x.Op == token.ADD || x.Op == token.SUB {
				if v, ok := c.evalConst(BV{x.Y, b.fr}, nil, 0); ok && v.Kind() == constant.Int {
					d, _ := constant.Int64Val(v)
					if x.Op == token.SUB {
						d = -d
					}
					k += d
					b.v = x.X
					continue
				}
				if v, ok := c.evalConst(BV{x.X, b.fr}, nil, 0); ok && x.Op == token.ADD && v.Kind() == constant.Int {
					d, _ := constant.Int64Val(v)
					k += d
					b.v = x.Y
					continue
				}
			}
		case *ssa.Const:
			if v, ok := constInt(x); ok {
				return BV{nil, nil}, k + v
			}
		}
		break
	}
	return b, k
}

// induction describes a loop counter: phi with a constant start, advanced by one per iteration.
type induction struct {
	phi   *ssa.Phi
	start int64 // value in the first iteration
	bound BV    // the loop runs while value < bound
	head  *ssa.BasicBlock
	exact bool
}

// inductionOf recognises v as a counter (the phi itself, or phi+1 in the range form).
func (c *valCtx) inductionOf(b BV) (ind induction, ok bool) {
	var phi *ssa.Phi
	var delta int64
	switch x := b.v.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		if p2, o := x.X.(*ssa.Phi); o && x.Op == token.ADD {
			if k, o := constInt(x.Y); o && k == 1 {
				phi, delta = p2, 1
			}
		}
	}
	if phi == nil {
		return
	}
	haveStart, haveStep := false, false
	for i, e := range phi.Edges {
		pred := phi.Block().Preds[i]
		if phi.Block().Dominates(pred) { // back edge
			bo, o := e.(*ssa.BinOp)
			if !o || bo.Op != token.ADD || bo.X != ssa.Value(phi) {
				return
			}
			if k, o := constInt(bo.Y); !o || k != 1 {
				return
			}
			haveStep = true
		} else {
			v, o := c.evalConst(BV{e, b.fr}, nil, 0)
			if !o || v.Kind() != constant.Int {
				return
			}
			ind.start, _ = constant.Int64Val(v)
			haveStart = true
		}
	}
	if !haveStart || !haveStep {
		return
	}
	ind.phi, ind.start, ind.head = phi, ind.start+delta, phi.Block()
	// the loop condition
	iff, o := phi.Block().Instrs[len(phi.Block().Instrs)-1].(*ssa.If)
	if !o {
		return ind, true
	}
	bo, o := iff.Cond.(*ssa.BinOp)
	if !o {
		return ind, true
	}
	isCtr := func(v ssa.Value) bool {
		if delta == 0 {
			return v == ssa.Value(phi)
		}
		y, o := v.(*ssa.BinOp)
		return o && y.X == ssa.Value(phi) && y.Op == token.ADD
	}
	switch {
	case (bo.Op == token.LSS || bo.Op == token.NEQ) && isCtr(bo.X):
		ind.bound, ind.exact = BV{bo.Y, b.fr}, true
	case bo.Op == token.GTR && isCtr(bo.Y):
		ind.bound, ind.exact = BV{bo.X, b.fr}, true
	}
	return ind, true
}

// count gives a canonical form of a number of elements: base name and constant.
func (c *valCtx) count(b BV, isObjList func(types.Type) bool, depth int) (string, int64) {
	base, k := c.affine(b)
	if base.v == nil {
		return "const", k
	}
	if depth > 6 {
		return "?", k
	}
	if call, ok := base.v.(*ssa.Call); ok && fullCallee(&call.Call) == "builtin.len" {
		x := c.resolveList(BV{call.Call.Args[0], base.fr})
		if isObjList(x.v.Type()) {
			return "OBJS", k
		}
		switch y := x.v.(type) {
		case *ssa.MakeSlice:
			n, d := c.count(BV{y.Len, x.fr}, isObjList, depth+1)
			return n, d + k
		case *ssa.Phi:
			// a list that starts empty and is appended to once per iteration
			for i, e := range y.Edges {
				if y.Block().Dominates(y.Block().Preds[i]) {
					continue
				}
				switch z := c.resolve(BV{e, x.fr}).v.(type) {
				case *ssa.MakeSlice:
					if l, ok := constInt(z.Len); !ok || l != 0 {
						return "?", k
					}
				case *ssa.Slice: // make([]T, 0, const)
					if l, ok := constInt(z.High); !ok || l != 0 {
						return "?", k
					}
				case *ssa.Const:
				default:
					return "?", k
				}
			}
			// iterations of the loop
			for _, ins := range y.Block().Instrs {
				if ph, ok := ins.(*ssa.Phi); ok && isInteger(ph.Type()) {
					if ind, ok := c.inductionOf(BV{ph, x.fr}); ok && ind.exact {
						n, d := c.count(ind.bound, isObjList, depth+1)
						st := ind.start
						if rangeForm(ind) {
							st++
						}
						return n, d - st + k
					}
				}
			}
			return "list:" + c.id(x), k
		}
		key, _ := c.condKey(x)
		return "len:" + key, k
	}
	if ind, ok := c.inductionOf(base); ok && ind.exact {
		// the value after the loop
		n, d := c.count(ind.bound, isObjList, depth+1)
		return n, d + k
	}
	if ind, ok := c.inductionOf(base); ok && ind.phi == base.v {
		// a second counter of a counted loop: it is advanced once per iteration
		for _, ins := range ind.head.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok || ph == ind.phi || !isInteger(ph.Type()) {
				continue
			}
			for _, ctr := range append([]ssa.Value{ph}, stepsOf(ph)...) {
				if i2, ok := c.inductionOf(BV{ctr, base.fr}); ok && i2.exact {
					n, d := c.count(i2.bound, isObjList, depth+1)
					// iterations: bound - value of the tested counter at the first test
					return n, d - i2.start + ind.start + k
				}
			}
		}
	}
	key, _ := c.condKey(base)
	return key, k
}

// stepsOf lists the advanced values of a loop counter.
func stepsOf(ph *ssa.Phi) []ssa.Value {
	var out []ssa.Value
	for _, e := range ph.Edges {
		if bo, ok := e.(*ssa.BinOp); ok && bo.Op == token.ADD && bo.X == ssa.Value(ph) {
			out = append(out, bo)
		}
	}
	return out
}

// rangeForm: the counter phi is advanced before it is tested (range loops).
func rangeForm(ind induction) bool {
	iff, ok := ind.head.Instrs[len(ind.head.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	y, ok := bo.X.(*ssa.BinOp)
	return ok && y.X == ssa.Value(ind.phi)
}

// everyIteration: the instruction (lifted to the loop's function) runs in every iteration of the loop.
func everyIteration(ins ssa.Instruction, fr *Frame, head *ssa.BasicBlock, hfr *Frame) bool {
	for fr != nil && fr != hfr {
		ins = fr.site
		fr = fr.up
	}
	if fr == nil || ins == nil || ins.Parent() != head.Parent() {
		return false
	}
	n := 0
	for _, p := range head.Preds {
		if head.Dominates(p) {
			n++
			if !ins.Block().Dominates(p) {
				return false
			}
		}
	}
	return n > 0 && head.Dominates(ins.Block())
}

func checkS01(p *Prog) *Result {
	res := newResult("path-sensitive interpretation of the document writer against the file grammar, with the byte counter as typestate: each recorded offset and startxref must be read with no byte written between the read and the header it locates; loops cover every object; counts are len(objects)+1",
		"the destination's Write returns the number of bytes it accepted", "file offsets stay below 10^10")
	run := p.fileAnalysis()
	if run.err != "" {
		res.add("anchor", "-", "document writer", "-", "%s", run.err)
		return res
	}
	e := p.emission()
	vc := e.vc
	for _, x := range run.r.list("file", "unresolved", "syntax") {
		res.add(x.kind, x.fn, x.msg, x.pos, "%s", x.msg)
	}
	fl := run.r.file
	res.floor("object header sites", len(fl.header), 1)
	res.floor("object body sites", len(fl.object), 1)
	res.floor("offset recording sites", len(fl.recs), 1)
	res.floor("xref entry sites", len(fl.entry), 1)
	res.floor("xref count sites", len(fl.count), 1)
	res.floor("startxref sites", len(fl.startx), 1)
	res.Counts["path classes of the document writer"] = len(run.finals)
	isObjs := func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(sl.Elem(), e.objIface)
	}
	fn := fname(run.fn)
	// object loop
	for _, o := range fl.object {
		rv := vc.resolve(o.recv)
		ld, ok := rv.v.(*ssa.UnOp)
		var ia *ssa.IndexAddr
		if ok {
			ia, _ = ld.X.(*ssa.IndexAddr)
		}
		if ia == nil || !isObjs(ia.X.Type()) {
			res.add("object-loop", fn, "object", o.pos, "the object written is not the element of the object list at the loop's position")
			continue
		}
		idx, d := vc.affine(BV{ia.Index, rv.fr})
		full := BV{ia.Index, rv.fr}
		ind, ok := vc.inductionOf(vc.resolve(full))
		if !ok {
			ind, ok = vc.inductionOf(idx)
		}
		if !ok || !ind.exact {
			res.add("object-loop", fn, "object loop", o.pos, "the objects are not written by a loop over the whole object list")
			continue
		}
		if ind.start != 0 {
			res.add("object-loop", fn, "object loop start", o.pos, "the object loop starts at position %d", ind.start)
		}
		if n, k := vc.count(ind.bound, isObjs, 0); n != "OBJS" || k != 0 {
			res.add("object-loop", fn, "object loop bound", o.pos, "the object loop does not end at the number of objects (%s%+d)", n, k)
		}
		if !everyIteration(o.ins, o.fr, ind.head, rv.fr) {
			res.add("object-loop", fn, "object skipped", o.pos, "an iteration of the object loop can skip writing its object")
		}
		_ = d
		key := func(b BV) string {
			a, k := vc.affine(b)
			if a.v == nil {
				return fmt.Sprint("const", k)
			}
			s, _ := vc.condKey(a)
			return fmt.Sprintf("%s%+d", s, k)
		}
		want := func(off int64) string {
			a, k := vc.affine(full)
			if a.v == nil {
				return fmt.Sprint("const", k+off)
			}
			s, _ := vc.condKey(a)
			return fmt.Sprintf("%s%+d", s, k+off)
		}
		for _, h := range fl.header {
			if h.src.v == nil || key(h.src) != want(1) {
				res.add("object-number", fn, "header number", h.pos, "the object header number is not the position of the object plus one")
			}
			if !everyIteration(h.ins, h.fr, ind.head, rv.fr) {
				res.add("object-loop", fn, "header skipped", h.pos, "an iteration of the object loop can skip the object header")
			}
		}
		if key(o.arg) != want(1) {
			res.add("object-number", fn, "object number argument", o.pos, "the object number passed to the object writer is not the position of the object plus one")
		}
		for k, st := range fl.recs {
			ia2, ok := st.Addr.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if _, isArr := deref(ia2.X.Type()).Underlying().(*types.Array); isArr {
				continue // append: order of the list
			}
			if key(BV{ia2.Index, fl.recFr[k]}) != want(0) {
				res.add("offset-index", fn, "offset index", p.insPos(st), "the offset of an object is recorded at another position than the object's")
			}
		}
	}
	// entries
	for _, s := range fl.entry {
		if s.src.v == nil {
			res.add("xref-entry", fn, "constant entry", s.pos, "an xref entry has a constant offset")
			continue
		}
		v := run.it.stripConv(s.src)
		ld, ok := v.v.(*ssa.UnOp)
		var ia *ssa.IndexAddr
		if ok {
			ia, _ = ld.X.(*ssa.IndexAddr)
		}
		if ia == nil {
			res.add("xref-entry", fn, "entry source", s.pos, "the offset in an xref entry is not an element of the list of recorded offsets")
			continue
		}
		list := vc.resolveList(BV{ia.X, v.fr})
		okList := false
		for k, st := range fl.recs {
			if ia2, ok := st.Addr.(*ssa.IndexAddr); ok {
				l2 := vc.resolveList(BV{ia2.X, fl.recFr[k]})
				if vc.same(l2, list) {
					okList = true
				}
				if _, isArr := deref(ia2.X.Type()).Underlying().(*types.Array); isArr && appendsTo(list.v, ia2.X) {
					okList = true
				}
			}
		}
		if !okList {
			res.add("xref-entry", fn, "entry list", s.pos, "the xref entries are not taken from the list in which the object offsets are recorded")
		}
		idx := vc.resolve(BV{ia.Index, v.fr})
		ind, ok := vc.inductionOf(idx)
		if !ok || !ind.exact || ind.start != 0 {
			res.add("xref-entry", fn, "entry loop", s.pos, "the xref entries are not written by a loop from the first to the last recorded offset")
			continue
		}
		if n, k := vc.count(ind.bound, isObjs, 0); n != "OBJS" || k != 0 {
			res.add("xref-entry", fn, "entry loop bound", s.pos, "the xref entry loop does not end at the number of objects (%s%+d)", n, k)
		}
		if !everyIteration(s.ins, s.fr, ind.head, idx.fr) {
			res.add("xref-entry", fn, "entry skipped", s.pos, "an iteration of the xref loop can skip its entry")
		}
	}
	if len(fl.entry) > 0 {
		ok, why := run.entryWidth(fl)
		if !ok {
			res.add("xref-entry", fn, "entry width", why, "the offset in an xref entry is not padded to 10 digits")
		}
	}
	chkCount := func(what string, b BV, pos string) {
		if b.v == nil {
			res.add("count", fn, what, pos, "%s is a constant", what)
			return
		}
		if n, k := vc.count(b, isObjs, 0); n != "OBJS" || k != 1 {
			res.add("count", fn, what, pos, "%s is not the number of objects plus one (%s%+d)", what, n, k)
		}
	}
	for _, s := range fl.count {
		chkCount("the xref entry count", s.src, s.pos)
	}
	sizes := 0
	for k, b := range run.r.ints {
		if strings.HasPrefix(k, "Size|") {
			sizes++
			chkCount("the trailer Size", b, k[5:])
		}
	}
	res.floor("trailer Size sites", sizes, 1)
	for _, s := range fl.startx {
		v := run.it.stripConv(s.src)
		ok := false
		if s.src.v != nil {
			id := vc.id(v)
			for _, m := range s.mk {
				if m == "xr:"+id {
					ok = true
				}
			}
		}
		if !ok {
			res.add("startxref", fn, "startxref", s.pos, "startxref is not the byte count read immediately before the xref keyword is written")
		}
	}
	run.checkCounter(p, res)
	run.checkRoutes(p, res)
	return res
}

// appendsTo: list is built by appending the varargs array arr.
func appendsTo(list, arr ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				if rec(e) {
					return true
				}
			}
		case *ssa.Call:
			if fullCallee(&x.Call) == "builtin.append" {
				if sl, ok := x.Call.Args[1].(*ssa.Slice); ok && sl.X == arr {
					return true
				}
				return rec(x.Call.Args[0])
			}
		}
		return false
	}
	return rec(list)
}

// entryWidth: the text of the offset has at least 10 digits (zero padded).
func (run *fileRun) entryWidth(fl *fileLog) (bool, string) {
	pos := ""
	for _, s := range fl.entry {
		pos = s.pos
		ci, ok := s.ins.(ssa.CallInstruction)
		if !ok {
			return false, pos
		}
		if !run.padded(ci, s.fr) {
			return false, pos
		}
	}
	return true, pos
}

var rePad10 = regexp.MustCompile(`%010[dsv]|%0?10\.10d|%\.10d`)

// padded: some value or format in the data flow of the emitting call pads to ten digits.
func (run *fileRun) padded(ci ssa.CallInstruction, fr *Frame) bool {
	seen := map[ssa.Value]bool{}
	var val func(b BV, depth int) bool
	val = func(b BV, depth int) bool {
		if b.v == nil || depth > 12 || seen[b.v] {
			return false
		}
		seen[b.v] = true
		if mi, ok := b.v.(*ssa.MakeInterface); ok {
			return val(BV{mi.X, b.fr}, depth)
		}
		// leaving a padding loop
		if padLoop(b.v) {
			return true
		}
		r := run.it.vc.resolve(b)
		if r.v != b.v {
			return val(r, depth+1)
		}
		switch x := b.v.(type) {
		case *ssa.Call:
			full := fullCallee(&x.Call)
			if full == "fmt.Sprintf" {
				if f, ok := run.it.constStr(BV{x.Call.Args[0], b.fr}); ok && rePad10.MatchString(f) {
					return true
				}
				for _, a := range run.it.varargs(BV{x.Call.Args[1], b.fr}) {
					if val(a, depth+1) {
						return true
					}
				}
				return false
			}
			if full == "strings.Repeat" {
				if bo, ok := x.Call.Args[1].(*ssa.BinOp); ok && bo.Op == token.SUB {
					if k, ok := constInt(bo.X); ok && k == 10 {
						return true
					}
				}
			}
			if f := run.it.vc.callees0(x); f != nil && b.fr != nil && !b.fr.inChain(f) {
				nf := run.it.vc.enter(b.fr, x, f)
				any := false
				for _, rt := range returnsOf(f) {
					if len(rt.Results) == 0 || !val(BV{retVals(rt)[0], nf}, depth+1) {
						return false
					}
					any = true
				}
				return any
			}
		case *ssa.BinOp:
			return val(BV{x.X, b.fr}, depth+1) || val(BV{x.Y, b.fr}, depth+1)
		case *ssa.Convert:
			return val(BV{x.X, b.fr}, depth+1)
		case *ssa.Phi:
			for i, e := range x.Edges {
				if !longEnough(x.Block().Preds[i], x.Block(), e) && !val(BV{e, b.fr}, depth+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	cc := ci.Common()
	if _, op := emissionOp(cc, fullCallee(cc)); op == "fprintf" {
		if f, ok := run.it.constStr(BV{cc.Args[1], fr}); ok && rePad10.MatchString(f) {
			return true
		}
		for _, a := range run.it.varargs(BV{cc.Args[2], fr}) {
			if val(a, 0) {
				return true
			}
		}
		return false
	}
	for _, a := range cc.Args {
		if val(BV{a, fr}, 0) {
			return true
		}
	}
	return false
}

// longEnough: the edge from pred to blk is taken only when the string v has at least 10 bytes.
func longEnough(pred, blk *ssa.BasicBlock, v ssa.Value) bool {
	if len(pred.Instrs) == 0 || len(pred.Succs) != 2 {
		return false
	}
	iff, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	call, ok := bo.X.(*ssa.Call)
	if !ok || fullCallee(&call.Call) != "builtin.len" || call.Call.Args[0] != v {
		return false
	}
	k, ok := constInt(bo.Y)
	if !ok {
		return false
	}
	switch {
	case bo.Op == token.LSS && k >= 10, bo.Op == token.LEQ && k >= 9:
		return pred.Succs[1] == blk && pred.Succs[0] != blk
	case bo.Op == token.GEQ && k >= 10, bo.Op == token.GTR && k >= 9:
		return pred.Succs[0] == blk && pred.Succs[1] != blk
	}
	return false
}

// padLoop: v is a string that is extended in a loop which runs while len(v) < 10.
func padLoop(v ssa.Value) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok || !isString(phi.Type()) {
		return false
	}
	iff, ok := phi.Block().Instrs[len(phi.Block().Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	call, ok := bo.X.(*ssa.Call)
	if !ok || fullCallee(&call.Call) != "builtin.len" || call.Call.Args[0] != ssa.Value(phi) {
		return false
	}
	k, ok := constInt(bo.Y)
	if !ok {
		return false
	}
	return bo.Op == token.LSS && k == 10 || bo.Op == token.LEQ && k == 9 || bo.Op == token.NEQ && k == 10
}

// checkCounter: the writer adds what the destination accepted to its counter, once per write.
func (run *fileRun) checkCounter(p *Prog, res *Result) {
	named, ok := run.cwType.(*types.Named)
	if !ok {
		res.add("counter", "-", "type", "-", "the counting writer has no named type")
		return
	}
	w := p.method(p.Root, named.Obj().Name(), "Write")
	if w == nil {
		res.add("counter", "-", "Write", "-", "the counting writer %s has no Write method", named.Obj().Name())
		return
	}
	// which fields are read as offsets
	offs := map[int]bool{}
	for k, st := range run.r.file.recs {
		v := run.it.stripConv(BV{st.Val, run.r.file.recFr[k]})
		if ld, ok := v.v.(*ssa.UnOp); ok {
			if fa, ok := ld.X.(*ssa.FieldAddr); ok {
				offs[fa.Field] = true
			}
		}
	}
	n := 0
	for f := range offs {
		k := fkey(named, f)
		var inWrite []*ssa.Store
		for _, st := range p.allStores()[k] {
			if st.fn == w {
				if s, ok := st.ins.(*ssa.Store); ok {
					inWrite = append(inWrite, s)
				}
				continue
			}
			if c, ok := constInt(st.val); ok && c == 0 {
				continue
			}
			res.add("counter", fname(st.fn), "store", p.insPos(st.ins), "the byte counter is set outside the counting writer's Write")
		}
		for _, b := range w.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(*ssa.Call)
				if !ok || !ci.Call.IsInvoke() || ci.Call.Method.Name() != "Write" {
					if ok && ci.Call.StaticCallee() != nil && fullCallee(&ci.Call) == "io.WriteString" {
						res.add("counter", fname(w), "other write", p.insPos(ins), "the counting writer writes to the destination in a way that is not counted")
					}
					continue
				}
				n++
				if len(ci.Call.Args) != 1 || ci.Call.Args[0] != ssa.Value(w.Params[1]) {
					res.add("counter", fname(w), "data", p.insPos(ins), "the counting writer does not pass on exactly the bytes it is given")
				}
				// one store adds the accepted count on every path after the write
				good := false
				for _, st := range inWrite {
					bo, ok := st.Val.(*ssa.BinOp)
					if !ok || bo.Op != token.ADD {
						continue
					}
					isCur := func(v ssa.Value) bool {
						ld, ok := v.(*ssa.UnOp)
						if !ok || ld.Op != token.MUL {
							return false
						}
						fa, ok := ld.X.(*ssa.FieldAddr)
						return ok && fa.Field == f && fa.X == ssa.Value(w.Params[0])
					}
					isN := func(v ssa.Value) bool {
						if cv, ok := v.(*ssa.Convert); ok {
							v = cv.X
						}
						v = slotValue(v)
						ex, ok := v.(*ssa.Extract)
						return ok && ex.Tuple == ssa.Value(ci) && ex.Index == 0
					}
					if (isCur(bo.X) && isN(bo.Y) || isCur(bo.Y) && isN(bo.X)) && mustPass(ci, st) {
						good = true
					}
				}
				if !good || len(inWrite) != 1 {
					res.add("counter", fname(w), "count", p.insPos(ins), "the counter is not advanced exactly by the number of bytes the destination accepted on every path after a write")
				}
			}
		}
	}
	res.floor("counted destination writes", n, 1)
}

// mustPass: every path from a to a return passes b.
func mustPass(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, ins := range a.Block().Instrs {
			if ins == a {
				return true
			}
			if ins == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(blk *ssa.BasicBlock) bool
	rec = func(blk *ssa.BasicBlock) bool {
		if blk == b.Block() {
			return true
		}
		if seen[blk] {
			return true
		}
		seen[blk] = true
		if len(blk.Succs) == 0 {
			_, isPanic := blk.Instrs[len(blk.Instrs)-1].(*ssa.Panic)
			return isPanic
		}
		for _, s := range blk.Succs {
			if !rec(s) {
				return false
			}
		}
		return true
	}
	if len(a.Block().Succs) == 0 {
		return false
	}
	for _, s := range a.Block().Succs {
		if !rec(s) {
			return false
		}
	}
	return true
}

// checkRoutes: what the output routes do with the destination besides writing the document to it.
func (run *fileRun) checkRoutes(p *Prog, res *Result) {
	vc := run.it.vc
	raw, ok := run.raw.v.(*ssa.Parameter)
	if !ok || raw.Parent() != run.fn {
		res.add("route", fname(run.fn), "destination", p.pos(run.fn.Pos()), "the destination of the document is not the writer handed to %s", fname(run.fn))
		return
	}
	routes := 0
	type item struct {
		fn *ssa.Function
		pi int
	}
	seen := map[item]bool{}
	var up func(fn *ssa.Function, pi int)
	up = func(fn *ssa.Function, pi int) {
		if seen[item{fn, pi}] {
			return
		}
		seen[item{fn, pi}] = true
		for _, c := range p.staticCallers()[fn] {
			if pi >= len(c.Common().Args) {
				continue
			}
			routes++
			cf := c.Parent()
			fr := vc.root(cf)
			root := run.it.writerRoot(BV{c.Common().Args[pi], fr})
			d := vc.resolve(BV{root.v, fr})
			res.sample("route %s: destination %s", fname(cf), fmt.Sprintf("%T", d.v))
			// other writes to the same destination
			for _, b := range cf.Blocks {
				for _, ins := range b.Instrs {
					ci, ok := ins.(ssa.CallInstruction)
					if !ok || ci == c {
						continue
					}
					w, op := emissionOp(ci.Common(), fullCallee(ci.Common()))
					if op == "" || op == "close" || op == "flush" || op == "reset" {
						continue
					}
					wb := BV{ci.Common().Value, fr}
					if w >= 0 {
						wb = BV{ci.Common().Args[w], fr}
					}
					if run.it.writerRoot(wb) == root {
						res.add("route", fname(cf), "extra write", p.insPos(ci), "bytes are written to the destination besides the document")
					}
				}
			}
			switch x := d.v.(type) {
			case *ssa.Parameter:
				up(cf, paramIndex(x))
			case *ssa.FieldAddr:
				if !run.emptied(p, cf, c, x) {
					res.add("route", fname(cf), "buffer not emptied", p.insPos(c), "the document is written to buffer %s, which is not emptied before on every path", fieldName(x.X.Type(), x.Field))
				}
			case *ssa.Alloc:
			case *ssa.Extract, *ssa.Call:
				call, _ := d.v.(*ssa.Call)
				if ex, ok := d.v.(*ssa.Extract); ok {
					call, _ = ex.Tuple.(*ssa.Call)
				}
				if call == nil {
					continue
				}
				if fullCallee(&call.Call) == "os.OpenFile" {
					fl, ok := constInt(call.Call.Args[1])
					if !ok || fl&0x200 == 0 || fl&0x400 != 0 {
						res.add("route", fname(cf), "old content", p.insPos(call), "the output file is opened without truncating what it holds")
					}
				}
			}
		}
	}
	up(run.fn, paramIndex(raw))
	res.floor("output routes", routes, 3)
}

// emptied: the buffer field is reset before the document is written, in the caller or in the writer itself.
func (run *fileRun) emptied(p *Prog, cf *ssa.Function, c ssa.CallInstruction, fa *ssa.FieldAddr) bool {
	k := fkey(fa.X.Type(), fa.Field)
	var resets func(fn *ssa.Function, depth int) []ssa.Instruction
	resets = func(fn *ssa.Function, depth int) (out []ssa.Instruction) {
		if depth > 4 || fn == nil {
			return
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if f2, ok := x.Addr.(*ssa.FieldAddr); ok && fkey(f2.X.Type(), f2.Field) == k {
						out = append(out, ins)
					}
				case ssa.CallInstruction:
					if _, isDefer := ins.(*ssa.Defer); isDefer {
						continue
					}
					full := fullCallee(x.Common())
					if full == "(*bytes.Buffer).Reset" || full == "(*bytes.Buffer).Truncate" {
						if f2, ok := x.Common().Args[0].(*ssa.FieldAddr); ok && fkey(f2.X.Type(), f2.Field) == k {
							out = append(out, ins)
						}
						continue
					}
					if f := x.Common().StaticCallee(); f != nil && p.owns(f) && f != fn {
						for _, r := range resets(f, depth+1) {
							if alwaysRuns(r) {
								out = append(out, ins)
								break
							}
						}
					}
				}
			}
		}
		return
	}
	dom := func(a, b ssa.Instruction) bool { return dominates(a, b) }
	for _, r := range resets(cf, 0) {
		if r != ssa.Instruction(c) && dom(r, c) {
			return true
		}
	}
	// inside the document writer, before the first byte
	first := run.firstWrites()
	rs := resets(run.fn, 0)
	if len(first) == 0 {
		return false
	}
	for _, r := range rs {
		all := true
		for _, w := range first {
			if !dom(r, w) {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// firstWrites: calls of the document writer that can write to the target.
func (run *fileRun) firstWrites() []ssa.Instruction {
	var out []ssa.Instruction
	fr := run.it.vc.root(run.fn)
	for _, b := range run.fn.Blocks {
		for _, ins := range b.Instrs {
			ci, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			for _, a := range ci.Common().Args {
				if isWriterLike(a.Type()) && run.it.isTarget(target{run.target}, BV{a, fr}) {
					out = append(out, ins)
				}
			}
		}
	}
	return out
}

// alwaysRuns: the instruction is executed on every path through its function.
func alwaysRuns(ins ssa.Instruction) bool {
	for _, r := range returnsOf(ins.Parent()) {
		if !dominates(ins, r) {
			return false
		}
	}
	return true
}

// dominates: a is executed before b on every path to b.
func dominates(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, ins := range a.Block().Instrs {
			if ins == a {
				return true
			}
			if ins == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}
