package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dumpPsum prints the path summary of a function, for work on the checks.
func dumpPsum(p *Prog, name string) {
	for _, fn := range p.Funcs {
		if fname(fn) != name {
			continue
		}
		in := os.Getenv("INLINE")
		s := p.newPsum(func(f *ssa.Function, cc *ssa.CallCommon) bool {
			return p.owns(f) && (in == "all" || strings.Contains(in, f.Name()))
		})
		s.run(fn)
		fmt.Println("==", name, "paths", len(s.rets), "iters", len(s.iters), "gave", s.gave, "steps", s.steps)
		for _, r := range s.rets {
			fmt.Println("RET", r.vals, "\n  IF", showFacts(factsSince(r.st, nil)))
			for _, e := range effsSince(r.st, nil) {
				fmt.Println("   ", e.kind, e.name, e.addr, e.val, e.args)
			}
		}
		for _, it := range s.iters {
			fmt.Println("ITER", it.loop.key(), "next", it.next, "init", it.loop.init, "\n  IF", showFacts(factsSince(it.st, it.loop.facts)))
			for _, e := range effsSince(it.st, it.loop.eff) {
				fmt.Println("   ", e.kind, e.name, e.addr, e.val, e.args)
			}
		}
	}
}
