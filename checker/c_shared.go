package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["O05"] = checkO05
	checks["F03"] = checkF03
}

func sortedWrites(s *summary) []wkey {
	var ks []wkey
	for k := range s.writes {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].l.key != ks[j].l.key {
			return ks[i].l.key < ks[j].l.key
		}
		return ks[i].ins.Pos() < ks[j].ins.Pos()
	})
	return ks
}

// globalOf gives the package variable a location is rooted in.
func (p *Prog) globalOf(l *loc) *ssa.Global {
	if l.root[0] != 'G' {
		return nil
	}
	n := l.root[2:]
	for _, sp := range []*ssa.Package{p.Root, p.Core} {
		if strings.HasPrefix(n, sp.Pkg.Name()+".") {
			if g, ok := sp.Members[n[len(sp.Pkg.Name())+1:]].(*ssa.Global); ok {
				return g
			}
		}
	}
	return nil
}

func syncType(t types.Type) string {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		return n.Obj().Name()
	}
	return ""
}

// onceBody: a function literal without captured variables whose only use is (*sync.Once).Do.
func onceBody(fn *ssa.Function) bool {
	if fn.Parent() == nil || len(fn.FreeVars) > 0 {
		return false
	}
	n := 0
	ok := true
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op != ssa.Value(fn) {
					continue
				}
				n++
				ci, is := ins.(ssa.CallInstruction)
				if !is || fullCallee(ci.Common()) != "(*sync.Once).Do" {
					ok = false
				}
			}
		}
	}
	return ok && n > 0
}

// processState: library functions that change state shared by the whole process.
var processState = map[string]bool{
	"os.Setenv": true, "os.Unsetenv": true, "os.Clearenv": true, "os.Chdir": true, "os.Chmod": true, "log.SetOutput": true, "log.SetFlags": true, "log.SetPrefix": true,
	"math/rand.Seed": true, "image.RegisterFormat": true, "runtime.GOMAXPROCS": true, "runtime/debug.SetGCPercent": true, "runtime/debug.SetMaxStack": true, "syscall.Umask": true,
	"compress/zlib.RegisterDecompressor": true, "crypto.RegisterHash": true, "time.LoadLocation": false,
}

func checkO05(p *Prog) *Result {
	res := newResult("interprocedural effect analysis of package variables and of font containers shared by documents",
		"library code outside the analysed packages keeps no state of its own per package (the importer library is created per document)")
	e := p.effects()
	// 1. package variables are written by nothing a document can call
	globals := map[*ssa.Global]bool{}
	for _, sp := range []*ssa.Package{p.Root, p.Core} {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") && g.Name() != "_" {
				globals[g] = true
			}
		}
	}
	roots := p.publicFuncs()
	roots = append(roots, p.takenFuncs()...)
	calls := 0
	said := map[string]bool{}
	for _, fn := range roots {
		s := e.sum[fn]
		if s == nil || isInit(fn) {
			continue
		}
		calls++
		for _, k := range sortedWrites(s) {
			if k.l.root[0] != 'G' || onceBody(k.ins.Parent()) {
				continue
			}
			g := p.globalOf(k.l)
			if g == nil && len(k.l.steps) > 0 && k.l.steps[0] == "*" && (k.l.root == "G:os.Stderr" || k.l.root == "G:os.Stdout" || k.l.root == "G:io.Discard") {
				continue
			}
			if g == nil {
				res.add("global", fname(fn), k.l.key, p.insPos(k.ins), "unknown package variable %s is written", k.l.key)
				continue
			}
			switch st := syncType(deref(g.Type())); {
			case len(k.l.steps) == 0 && (st == "Pool" || st == "Mutex" || st == "RWMutex" || st == "Once" || st == "WaitGroup"):
				continue
			}
			id := niceLoc(fn, k.l) + fname(k.ins.Parent())
			if said[id] {
				continue
			}
			said[id] = true
			res.add("global", fname(k.ins.Parent()), niceLoc(fn, k.l), p.insPos(k.ins), "the package variable %s is %s by %s, which %s reaches: documents share it", niceLoc(fn, k.l), s.writes[k], fname(k.ins.Parent()), fname(fn))
		}
	}
	// 2. memory of a package variable that a document keeps is written through no path of that name
	type pathWrite struct {
		ins ssa.Instruction
		fn  *ssa.Function
	}
	through := map[string]pathWrite{} // "<field>" -> a write through the reference held in that field
	for _, fn := range p.Funcs {
		s := e.sum[fn]
		if s == nil || isInit(fn) {
			continue
		}
		for _, k := range sortedWrites(s) {
			if k.l.root[0] == 'S' {
				continue
			}
			for i, st := range k.l.steps {
				if st == "*" && i > 0 {
					f := lastField(k.l.steps[:i])
					if f == "" {
						continue
					}
					if _, ok := through[f]; !ok {
						through[f] = pathWrite{k.ins, fn}
					}
				}
			}
		}
	}
	kept := 0
	for _, fn := range p.publicFuncs() {
		s := e.sum[fn]
		if s == nil || isInit(fn) {
			continue
		}
		for l, vs := range s.facts {
			if l.root[0] == 'G' {
				continue
			}
			for v := range vs {
				if v.l.root[0] != 'G' || v.k == aAgg {
					continue
				}
				g := p.globalOf(v.l)
				if g == nil || immutable(deref(g.Type())) {
					continue
				}
				kept++
				f := lastField(l.steps)
				if w, ok := through[f]; ok && f != "" {
					res.add("kept-global", fname(fn), niceLoc(fn, v.l), p.insPos(w.ins), "a document keeps the package variable %s in %s, and %s writes through it: documents share it", niceLoc(fn, v.l), f, fname(w.fn))
				}
			}
		}
		for _, r := range s.returns {
			for v := range r {
				if g := p.globalOf(v.l); g != nil && !immutable(deref(g.Type())) && v.k != aAgg && !g.Object().Exported() {
					if v.k == aAddr || hasRefs(deref(g.Type())) {
						res.add("returned-global", fname(fn), niceLoc(fn, v.l), p.pos(fn.Pos()), "the unexported package variable %s is handed to the caller, who may write it", niceLoc(fn, v.l))
					}
				}
			}
		}
	}
	// 3. process-wide state outside the packages, and files with fixed names
	for _, fn := range p.Funcs {
		if isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				full := fullCallee(ci.Common())
				if processState[full] {
					res.add("process", fname(fn), full, p.insPos(ins), "%s changes the state of the whole process", full)
				}
				switch full {
				case "os.Create", "os.OpenFile", "os.WriteFile", "io/ioutil.WriteFile", "os.Remove", "os.Mkdir", "os.MkdirAll":
					if c, ok := ci.Common().Args[0].(*ssa.Const); ok {
						res.add("process", fname(fn), full, p.insPos(ins), "%s is used with the fixed name %s, which all documents share", full, c.Value)
					}
				}
			}
		}
	}
	// 4. font containers
	shared := p.containerRules(res)
	res.floor("package variables", len(globals), 20)
	res.floor("public functions", calls, 300)
	res.Counts["references to package variables kept by documents"] = kept
	res.floor("reference fields of fonts in containers", shared, 1)
	return res
}

func lastField(steps []string) string {
	for i := len(steps) - 1; i >= 0; i-- {
		if steps[i][0] == '.' && steps[i] != ".$0" {
			return steps[i]
		}
	}
	return ""
}

// immutable: error values and functions, whose memory nobody writes.
func immutable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Signature, *types.Basic:
		return true
	}
	return false
}

func isInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

// containerRules: a font taken from a container shares with the container's font only what nothing writes
// after loading. Returns the number of shared reference fields looked at.
func (p *Prog) containerRules(res *Result) int {
	e := p.effects()
	users, _ := p.afterLoading()
	n := 0
	for _, fn := range p.documentCalls() {
		for pi, pr := range fn.Params {
			if pi == 0 {
				continue
			}
			ct, ok := deref(pr.Type()).(*types.Named)
			if !ok || !p.isContainer(ct) {
				continue
			}
			s := e.sum[fn]
			root := fmt.Sprintf("P%d", pi)
			// what the document keeps of the container
			fields := map[string]bool{}
			whole := false
			seen := map[string]bool{}
			var rec func(r string)
			rec = func(r string) {
				if seen[r] {
					return
				}
				seen[r] = true
				for l, vs := range s.facts {
					if l.root != r {
						continue
					}
					for v := range vs {
						if v.l.root == root {
							if f := firstField(l); f != "" {
								fields[f] = true
							}
						} else if v.l.root[0] == 'S' {
							rec(v.l.root)
						}
					}
				}
			}
			for l, vs := range s.facts {
				if l.root[0] == 'S' || l.root == root {
					continue
				}
				for v := range vs {
					if v.l.root == root && v.k != aAgg {
						whole = true
					} else if v.l.root[0] == 'S' {
						rec(v.l.root)
					}
				}
			}
			if whole {
				res.add("container", fname(fn), pr.Name(), p.pos(fn.Pos()), "the document keeps the object of the container itself instead of a copy: documents that use the container share it")
			}
			set := p.containerFields(ct)
			var fs []string
			for f := range fields {
				fs = append(fs, f)
			}
			sort.Strings(fs)
			for _, f := range fs {
				if !set[f] {
					continue
				}
				n++
				w := p.writtenThrough(users, f)
				if w == nil {
					continue
				}
				if p.replacedBeforeUse(fn, f) {
					continue
				}
				res.add("container", fname(fn), f, p.insPos(w), "the font taken from the container shares the memory of %s with every document that uses the container, and %s writes it", f, fname(w.Parent()))
			}
		}
	}
	return n
}

func firstField(l *loc) string {
	for _, s := range l.steps {
		if s[0] == '.' {
			return s
		}
	}
	return ""
}

// isContainer: an exported structure other than the document that holds objects in a map or a sync.Map.
func (p *Prog) isContainer(n *types.Named) bool {
	st, ok := n.Underlying().(*types.Struct)
	if !ok || n.Obj().Pkg() == nil || !p.inPkg[n.Obj().Pkg()] || n.Obj().Name() == "GoPdf" {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		if syncType(deref(t)) == "Map" {
			return true
		}
		if m, ok := t.Underlying().(*types.Map); ok && hasRefs(m.Elem()) {
			return true
		}
	}
	return false
}

// containerFields: the reference fields that are set in the objects put into a container.
func (p *Prog) containerFields(ct *types.Named) map[string]bool {
	e := p.effects()
	out := map[string]bool{}
	for _, fn := range p.Funcs {
		if fn.Signature.Recv() == nil || deref(fn.Signature.Recv().Type()) != types.Type(ct) {
			continue
		}
		s := e.sum[fn]
		if s == nil {
			continue
		}
		seen := map[string]bool{}
		var rec func(r string)
		rec = func(r string) {
			if seen[r] {
				return
			}
			seen[r] = true
			for l, vs := range s.facts {
				if l.root != r || len(vs) == 0 {
					continue
				}
				if f := firstField(l); f != "" {
					out[f] = true
				}
				if len(l.steps) > 0 && l.steps[0][0] == '.' {
					continue
				}
				for v := range vs {
					if v.l.root[0] == 'S' {
						rec(v.l.root)
					}
				}
			}
		}
		for l, vs := range s.facts {
			if l.root == "P0" {
				for v := range vs {
					if v.l.root[0] == 'S' {
						rec(v.l.root)
					}
				}
			}
		}
	}
	return out
}

// fontTypes: the parser of font files, and the structures of the analysed packages that embed it.
func (p *Prog) parserType() *types.Named {
	for _, n := range p.namedTypes() {
		if n.Obj().Name() == "TTFParser" {
			return n
		}
	}
	return nil
}

func (p *Prog) holdsParser(t types.Type, pt *types.Named) bool {
	if types.Identical(t, pt) {
		return true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), pt) {
			return true
		}
	}
	return false
}

// loaders: methods of the parser, and of structures that contain one, that lead to parsing.
func (p *Prog) loaders() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	pt := p.parserType()
	if pt == nil {
		return out
	}
	var parse []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Name() == "ParseFontData" && fn.Signature.Recv() != nil && types.Identical(deref(fn.Signature.Recv().Type()), pt) {
			parse = append(parse, fn)
		}
	}
	up := p.reachers(parse...)
	for fn := range up {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if r := fn.Signature.Recv(); r != nil && p.holdsParser(deref(r.Type()), pt) {
			out[fn] = true
		}
	}
	for _, fn := range parse {
		out[fn] = true
	}
	return out
}

// afterLoading: the functions that can run once a font is loaded, and the effects with loading left out.
func (p *Prog) afterLoading() (map[*ssa.Function]bool, *eff) {
	if p.afterMemo != nil {
		return p.afterMemo, p.afterEff
	}
	cut := p.loaders()
	var starts []*ssa.Function
	for _, fn := range append(p.publicFuncs(), p.takenFuncs()...) {
		if fn.Pkg == p.Root && !cut[fn] && !isInit(fn) {
			starts = append(starts, fn)
		}
	}
	g := p.graph()
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || seen[f] || cut[f] {
			return
		}
		seen[f] = true
		for _, ed := range g[f] {
			rec(ed.callee)
		}
		for _, a := range f.AnonFuncs {
			rec(a)
		}
	}
	for _, f := range starts {
		rec(f)
	}
	e := p.effectsWithout(cut)
	p.afterMemo, p.afterEff = seen, e
	return seen, e
}

// writtenThrough: an instruction, run after loading, that writes memory referred to by the field of a font.
func (p *Prog) writtenThrough(users map[*ssa.Function]bool, field string) ssa.Instruction {
	_, e := p.afterLoading()
	pt := p.parserType()
	for _, fn := range p.Funcs {
		if !users[fn] || e.sum[fn] == nil {
			continue
		}
		for _, k := range sortedWrites(e.sum[fn]) {
			pr := paramOf(fn, k.l)
			if pr == nil || !p.holdsParser(deref(pr.Type()), pt) || types.Identical(deref(pr.Type()), pt) {
				continue
			}
			st := k.l.steps
			if len(st) > 0 && st[0] == "*" {
				st = st[1:]
			}
			if len(st) == 0 || st[0] != field {
				continue
			}
			for _, s := range st[1:] {
				if s == "*" {
					return k.ins
				}
			}
		}
	}
	return nil
}

// replacedBeforeUse: in fn, the field of the copied structure is set anew before the structure is handed on.
func (p *Prog) replacedBeforeUse(fn *ssa.Function, field string) bool {
	pt := p.parserType()
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			al, ok := ins.(*ssa.Alloc)
			if !ok || !p.holdsParser(deref(al.Type()), pt) {
				continue
			}
			var setters, uses []ssa.Instruction
			for _, r := range *al.Referrers() {
				switch y := r.(type) {
				case *ssa.FieldAddr:
					if "."+fieldName(al.Type(), y.Field) == field {
						for _, r2 := range *y.Referrers() {
							if st, ok := r2.(*ssa.Store); ok && st.Addr == ssa.Value(y) {
								setters = append(setters, st)
							}
						}
					}
				case ssa.CallInstruction:
					set := false
					if c := y.Common().StaticCallee(); c != nil {
						for i, a := range y.Common().Args {
							if a == ssa.Value(al) && p.mustSet(c, i, field, 0) {
								set = true
							}
						}
					}
					if set {
						setters = append(setters, y)
					} else {
						uses = append(uses, y)
					}
				case *ssa.MakeInterface:
					uses = append(uses, y)
				case *ssa.Store:
					if y.Val == ssa.Value(al) {
						uses = append(uses, y)
					}
				}
			}
			if len(uses) == 0 {
				continue
			}
			ok = true
			for _, u := range uses {
				dom := false
				for _, s := range setters {
					if dominates(s, u) {
						dom = true
					}
				}
				ok = ok && dom
			}
			return ok
		}
	}
	return false
}

// mustSet: the function sets the field of its parameter, on every way to its end, to something new.
func (p *Prog) mustSet(fn *ssa.Function, param int, field string, depth int) bool {
	if depth > 3 || param >= len(fn.Params) || fn.Blocks == nil {
		return false
	}
	e := p.effects()
	x := e.full[fn]
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fa.X != ssa.Value(fn.Params[param]) || "."+fieldName(fa.X.Type(), fa.Field) != field {
				continue
			}
			fresh := true
			if x != nil {
				for v := range x.get(st.Val) {
					if v.l.ext() {
						fresh = false
					}
				}
			}
			if fresh && alwaysRuns(st) {
				return true
			}
		}
	}
	return false
}

// checkF03: nothing writes parsed font data once a font is loaded.
func checkF03(p *Prog) *Result {
	res := newResult("interprocedural effect analysis with the loading functions left out: no write reaches memory of the font parser",
		"the caller does not change the bytes it supplied as font data while the font is in use")
	pt := p.parserType()
	if pt == nil {
		res.add("anchor", "-", "TTFParser", "", "the type TTFParser was not found")
		return res
	}
	users, e := p.afterLoading()
	st := pt.Underlying().(*types.Struct)
	fields := map[string]bool{}
	for i := 0; i < st.NumFields(); i++ {
		fields[st.Field(i).Name()] = true
	}
	reads, fns := 0, 0
	said := map[string]bool{}
	for _, fn := range p.Funcs {
		if !users[fn] || e.sum[fn] == nil {
			continue
		}
		fns++
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok && types.Identical(deref(fa.X.Type()), pt) {
					reads++
				}
			}
		}
		for _, k := range sortedWrites(e.sum[fn]) {
			f := p.inParser(fn, k.l, pt)
			if f == "" {
				continue
			}
			id := fname(k.ins.Parent()) + f
			if said[id] {
				continue
			}
			said[id] = true
			res.add("written", fname(k.ins.Parent()), f, p.insPos(k.ins), "the parsed font data %s is %s here, reached from %s after the font is loaded", f, e.sum[fn].writes[k], fname(fn))
		}
	}
	res.floor("loading functions", len(p.loaders()), 2)
	res.floor("functions that can run after loading", fns, 300)
	res.floor("accesses to parser fields after loading", reads, 20)
	return res
}

// inParser: the part of the parser a location lies in, "" if it is not in one.
func (p *Prog) inParser(fn *ssa.Function, l *loc, pt *types.Named) string {
	pr := paramOf(fn, l)
	if pr == nil {
		if l.root[0] == 'C' { // captured: walk from the binding's type
			if len(l.steps) < 2 {
				return ""
			}
			var i int
			fmt.Sscanf(l.steps[1], ".$%d", &i)
			if i < len(fn.FreeVars) {
				return p.parserPath(fn.FreeVars[i].Type(), l.steps[2:], pt)
			}
		}
		return ""
	}
	return p.parserPath(pr.Type(), l.steps, pt)
}

// parserPath follows access steps through types; it reports the rest of the path once inside the parser.
func (p *Prog) parserPath(t types.Type, steps []string, pt *types.Named) string {
	for i, s := range steps {
		if types.Identical(t, pt) {
			var sb strings.Builder
			for _, r := range steps[i:] {
				if r != "*" {
					sb.WriteString(r)
				}
			}
			return "TTFParser" + sb.String()
		}
		switch {
		case s == "?":
			return ""
		case s == "*":
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				t = u.Elem()
			case *types.Slice, *types.Map:
			default:
				return "" // behind an interface: seen again in the method that does it
			}
		case s == "[]" || s == "[k]":
			switch u := t.Underlying().(type) {
			case *types.Slice:
				t = u.Elem()
			case *types.Array:
				t = u.Elem()
			case *types.Map:
				if s == "[k]" {
					t = u.Key()
				} else {
					t = u.Elem()
				}
			default:
				return ""
			}
		case s[0] == '.':
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return ""
			}
			found := false
			for j := 0; j < st.NumFields(); j++ {
				if "."+st.Field(j).Name() == s {
					t = st.Field(j).Type()
					found = true
					break
				}
			}
			if !found {
				return ""
			}
		}
	}
	if types.Identical(t, pt) {
		return "TTFParser"
	}
	return ""
}
