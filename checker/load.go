package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded, type-checked and SSA-built program under analysis.
type Prog struct {
	Repo  string
	Fset  *token.FileSet
	Pkgs  []*packages.Package // analysed packages: root, fontmaker/core
	SSA   *ssa.Program
	Root  *ssa.Package
	Core  *ssa.Package
	Funcs []*ssa.Function // every function with a body in the analysed packages (incl. closures), sorted by position
	inPkg map[*types.Package]bool

	// field stores, built lazily
	stores  map[fieldKey][]fieldStore
	callers map[*ssa.Function][]ssa.CallInstruction
	impls   map[string][]*ssa.Function

	emitMemo   *emission
	fileMemo   *fileRun
	provMemo   *prov
	effMemo    *eff
	takersMemo map[*ssa.Function]bool
	afterMemo  map[*ssa.Function]bool
	afterEff   *eff
	graphMemo  map[*ssa.Function][]edge
	takenMemo  []*ssa.Function
	heightMemo *heights
}

type fieldKey struct {
	typ string // named struct type string
	idx int
}

type fieldStore struct {
	val ssa.Value
	fn  *ssa.Function
	ins ssa.Instruction
}

func loadProg(repo string, env ...string) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")}
	cfg.Env = append(cfg.Env, env...)
	pk, err := packages.Load(cfg, ".", "./fontmaker/core")
	if err != nil {
		return nil, err
	}
	if len(pk) != 2 {
		return nil, fmt.Errorf("expected 2 packages, loaded %d", len(pk))
	}
	var msgs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, fmt.Errorf("type-check errors: %s", strings.Join(msgs, "; "))
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{Repo: repo, Fset: prog.Fset, Pkgs: pk, SSA: prog, inPkg: map[*types.Package]bool{}}
	for _, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("a package has no SSA form")
		}
		p.inPkg[s.Pkg] = true
		if strings.HasSuffix(s.Pkg.Path(), "fontmaker/core") {
			p.Core = s
		} else {
			p.Root = s
		}
	}
	if p.Core == nil || p.Root == nil {
		return nil, fmt.Errorf("root or core package missing")
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil || !p.owns(fn) || fn.Synthetic != "" && !strings.HasPrefix(fn.Synthetic, "package init") {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Fset.Position(p.Funcs[i].Pos()), p.Fset.Position(p.Funcs[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return p.Funcs[i].String() < p.Funcs[j].String()
	})
	if len(p.Funcs) < 200 {
		return nil, fmt.Errorf("only %d functions with bodies found", len(p.Funcs))
	}
	return p, nil
}

// owns reports whether fn (or the function enclosing it) belongs to an analysed package.
func (p *Prog) owns(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return p.inPkg[f.Pkg.Pkg]
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return p.inPkg[o.Pkg()]
		}
	}
	return false
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.Fset.Position(ps)
	rel, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// insPos gives the best position for an instruction.
func (p *Prog) insPos(ins ssa.Instruction) string {
	ps := ins.Pos()
	if !ps.IsValid() {
		if v, ok := ins.(*ssa.If); ok {
			ps = v.Cond.Pos()
		}
	}
	if !ps.IsValid() && ins.Block() != nil {
		for _, i := range ins.Block().Instrs {
			if i.Pos().IsValid() {
				ps = i.Pos()
				if i == ins {
					break
				}
			}
		}
	}
	if !ps.IsValid() && ins.Parent() != nil {
		ps = ins.Parent().Pos()
	}
	return p.pos(ps)
}

// fname is a short stable name of a function: (*T).M, F, F$1.
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	s := fn.RelString(nil)
	s = strings.ReplaceAll(s, "github.com/signintech/gopdf/fontmaker/core.", "core.")
	s = strings.ReplaceAll(s, "github.com/signintech/gopdf.", "")
	return s
}

func tname(t types.Type) string {
	s := types.TypeString(t, nil)
	s = strings.ReplaceAll(s, "github.com/signintech/gopdf/fontmaker/core.", "core.")
	s = strings.ReplaceAll(s, "github.com/signintech/gopdf.", "")
	return s
}

// deref strips one pointer.
func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func structOf(t types.Type) *types.Struct {
	s, _ := deref(t).Underlying().(*types.Struct)
	return s
}

// fkey identifies a struct field by its struct type and index.
func fkey(t types.Type, idx int) fieldKey {
	return fieldKey{tname(deref(t)), idx}
}

func fieldName(t types.Type, idx int) string {
	s := structOf(t)
	if s == nil || idx >= s.NumFields() {
		return "?"
	}
	return s.Field(idx).Name()
}

// full returns the full name of a statically known callee ("fmt.Fprintf", "(*bytes.Buffer).Write",
// "(io.Writer).Write" for interface calls), or "".
func fullCallee(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Method.FullName()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o.FullName()
		}
		return f.String()
	}
	return ""
}

func constString(v ssa.Value) (string, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
		return constant.StringVal(c.Value), true
	}
	return "", false
}

func constInt(v ssa.Value) (int64, bool) {
	if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		return constant.Int64Val(c.Value)
	}
	return 0, false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isBytes(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// allStores indexes every store to a struct field in the analysed packages.
func (p *Prog) allStores() map[fieldKey][]fieldStore {
	if p.stores != nil {
		return p.stores
	}
	p.stores = map[fieldKey][]fieldStore{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						k := fkey(fa.X.Type(), fa.Field)
						p.stores[k] = append(p.stores[k], fieldStore{st.Val, fn, st})
					}
				}
			}
		}
	}
	return p.stores
}

// staticCallers indexes static call sites (incl. go/defer) by callee.
func (p *Prog) staticCallers() map[*ssa.Function][]ssa.CallInstruction {
	if p.callers != nil {
		return p.callers
	}
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if f := c.Common().StaticCallee(); f != nil {
					p.callers[f] = append(p.callers[f], c)
				} else if c.Common().IsInvoke() {
					for _, f := range p.implsOf(c.Common()) {
						p.callers[f] = append(p.callers[f], c)
					}
				}
			}
		}
	}
	return p.callers
}

// implsOf lists the methods of analysed types that an interface call may reach.
func (p *Prog) implsOf(c *ssa.CallCommon) []*ssa.Function {
	if !c.IsInvoke() {
		return nil
	}
	iface, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	key := tname(c.Value.Type()) + "." + c.Method.Name()
	if p.impls == nil {
		p.impls = map[string][]*ssa.Function{}
	}
	if r, ok := p.impls[key]; ok {
		return r
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, t := range p.namedTypes() {
		for _, tt := range []types.Type{t, types.NewPointer(t)} {
			if !types.Implements(tt, iface) {
				continue
			}
			sel := p.SSA.MethodSets.MethodSet(tt).Lookup(c.Method.Pkg(), c.Method.Name())
			if sel == nil {
				continue
			}
			f := p.SSA.MethodValue(sel)
			f = p.unwrap(f)
			if f != nil && !seen[f] && f.Blocks != nil {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	p.impls[key] = out
	return out
}

// unwrap maps a synthetic method wrapper to the declared method it calls.
func (p *Prog) unwrap(f *ssa.Function) *ssa.Function {
	for f != nil && f.Synthetic != "" {
		o, ok := f.Object().(*types.Func)
		if !ok {
			return f
		}
		g := p.SSA.FuncValue(o)
		if g == nil || g == f {
			return f
		}
		f = g
	}
	return f
}

// namedTypes lists the named non-interface types declared in the analysed packages.
func (p *Prog) namedTypes() []*types.Named {
	var out []*types.Named
	for _, sp := range []*ssa.Package{p.Root, p.Core} {
		sc := sp.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) {
				continue
			}
			out = append(out, nt)
		}
	}
	return out
}

// method finds a declared method T.m (value or pointer receiver) of the root package.
func (p *Prog) method(sp *ssa.Package, typ, m string) *ssa.Function {
	tn, ok := sp.Pkg.Scope().Lookup(typ).(*types.TypeName)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
		if sel := p.SSA.MethodSets.MethodSet(t).Lookup(sp.Pkg, m); sel != nil {
			return p.unwrap(p.SSA.MethodValue(sel))
		}
	}
	return nil
}

// enumConsts lists the string constants declared with the given named type, or (when none are
// typed) nil.
func (p *Prog) enumConsts(t types.Type) []string {
	nt, ok := t.(*types.Named)
	if !ok || nt.Obj().Pkg() == nil || !p.inPkg[nt.Obj().Pkg()] {
		return nil
	}
	var out []string
	sc := nt.Obj().Pkg().Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if ok && types.Identical(c.Type(), t) && c.Val().Kind() == constant.String {
			out = append(out, constant.StringVal(c.Val()))
		}
	}
	return out
}

// exportedAPI lists exported functions and methods (of exported types) of the package.
func (p *Prog) exportedAPI(sp *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.Funcs {
		if fn.Pkg != sp || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		if r := fn.Signature.Recv(); r != nil {
			if nt, ok := deref(r.Type()).(*types.Named); !ok || !nt.Obj().Exported() {
				continue
			}
		}
		out = append(out, fn)
	}
	return out
}

var _ = ast.Print
