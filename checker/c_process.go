package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["O04"] = checkO04
}

// stopsAllowed lists the public calls that may end the process: they have no error result.
var stopsAllowed = map[string]bool{"(*GoPdf).GetBytesPdf": true, "(*ImageObj).GetRect": true}

// entries lists the functions the outside can call: exported functions and methods, methods that
// implement an interface of another package, and package initialisers.
func (p *Prog) publicFuncs() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if f.Parent() != nil {
			continue
		}
		if strings.HasPrefix(f.Name(), "init") && f.Signature.Recv() == nil {
			out = append(out, f)
			continue
		}
		o := f.Object()
		if o == nil || !o.Exported() {
			continue
		}
		out = append(out, f)
	}
	return out
}

// stopKind classifies an external function that ends the process, panics or prints.
func stopKind(full string) string {
	name := full[strings.LastIndexByte(full, '.')+1:]
	switch {
	case full == "os.Exit", full == "syscall.Exit", full == "syscall.Kill", full == "runtime.Goexit", full == "os.(*Process).Kill":
		return "ends the process"
	case strings.HasPrefix(full, "log.") || strings.HasPrefix(full, "(*log.Logger)."):
		if strings.HasPrefix(name, "Fatal") {
			return "ends the process"
		}
		if strings.HasPrefix(name, "Panic") {
			return "panics"
		}
		if strings.HasPrefix(name, "Print") || name == "Output" || name == "Writer" {
			return "writes to the log"
		}
	case strings.HasPrefix(full, "log/slog."), strings.HasPrefix(full, "(*log/slog.Logger)."):
		return "writes to the log"
	case full == "fmt.Print", full == "fmt.Println", full == "fmt.Printf":
		return "writes to standard output"
	case full == "builtin.print", full == "builtin.println":
		return "writes to standard error"
	case full == "regexp.MustCompile", full == "regexp.MustCompilePOSIX", strings.HasSuffix(full, "template.Must"):
		return "panics"
	case strings.HasPrefix(full, "runtime/debug.PrintStack"):
		return "writes to standard error"
	}
	return ""
}

func checkO04(p *Prog) *Result {
	res := newResult("reachability in the call graph (static, interface and function-value calls) from every exported function to every instruction that ends the process, panics explicitly or prints",
		"the functions of the standard library and of the page importer that are called do not themselves end the process")
	entries := p.publicFuncs()
	type site struct {
		fn     *ssa.Function
		ins    ssa.Instruction
		what   string
		detail string
	}
	var sites []site
	calls := 0
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Panic:
					sites = append(sites, site{f, ins, "panics", "panic"})
				case ssa.CallInstruction:
					calls++
					full := fullCallee(x.Common())
					if k := stopKind(full); k != "" {
						sites = append(sites, site{f, ins, k, full})
					}
				}
				for _, op := range ins.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stdout" {
						sites = append(sites, site{f, ins, "writes to standard output", "os.Stdout"})
					}
					// a stopping function used as a value
					if fv, ok := (*op).(*ssa.Function); ok {
						if ci, isCall := ins.(ssa.CallInstruction); isCall && op == &ci.Common().Value {
							continue
						}
						if k := stopKind(fv.String()); k != "" {
							sites = append(sites, site{f, ins, k, fv.String()})
						}
					}
				}
			}
		}
	}
	isEntry := map[*ssa.Function]bool{}
	for _, f := range entries {
		isEntry[f] = true
	}
	allowedSites := 0
	for _, s := range sites {
		up := p.reachers(s.fn)
		var bad, good []string
		for f := range up {
			root := f
			for root.Parent() != nil {
				root = root.Parent()
			}
			if !isEntry[root] {
				continue
			}
			// an entry that reaches the site only through an allowed one is judged at its own call
			if stopsAllowed[fname(root)] && !hasErrorResult(root.Signature) && s.what == "ends the process" {
				good = append(good, fname(root))
				continue
			}
			bad = append(bad, fname(root))
		}
		sort.Strings(bad)
		sort.Strings(good)
		if len(bad) > 0 {
			res.add("stop", fname(s.fn), s.detail, p.insPos(s.ins), "%s %s; reachable from %s", s.detail, s.what, strings.Join(first(bad, 4), ", "))
			continue
		}
		if len(good) > 0 {
			allowedSites++
			res.sample("%s: %s only reachable from %s", p.insPos(s.ins), s.detail, strings.Join(good, ", "))
		} else {
			res.sample("%s: %s in unreachable %s", p.insPos(s.ins), s.detail, fname(s.fn))
		}
	}
	res.floor("exported functions", len(entries), 250)
	res.floor("call sites examined", calls, 1200)
	res.Counts["sites that stop or print"] = len(sites)
	res.Counts["of these only in documented exceptions"] = allowedSites
	return res
}

func first(s []string, n int) []string {
	if len(s) > n {
		return append(append([]string{}, s[:n]...), fmt.Sprintf("and %d more", len(s)-n))
	}
	return s
}

func hasErrorResult(s *types.Signature) bool {
	for i := 0; i < s.Results().Len(); i++ {
		if isErrorType(s.Results().At(i).Type()) {
			return true
		}
	}
	return false
}
