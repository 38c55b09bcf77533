package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// dumpFlow prints the effects of functions whose name contains $FN.
func dumpFlow(p *Prog) {
	t0 := time.Now()
	e := p.effects()
	fmt.Println("solved in", time.Since(t0))
	pat := os.Getenv("FN")
	tot := 0
	for _, f := range p.Funcs {
		s := e.sum[f]
		if s == nil {
			continue
		}
		tot += s.size
		if pat == "" || !strings.Contains(fname(f), pat) {
			continue
		}
		fmt.Println("==", fname(f), s.size)
		var out []string
		for k, h := range s.writes {
			out = append(out, fmt.Sprintf("  W %s  %s at %s", k.l, h, p.insPos(k.ins)))
		}
		for l, vs := range s.facts {
			for v := range vs {
				out = append(out, fmt.Sprintf("  F %s <- %d %s", l, v.k, v.l))
			}
		}
		for i, r := range s.returns {
			for v := range r {
				out = append(out, fmt.Sprintf("  R%d %d %s", i, v.k, v.l))
			}
		}
		sort.Strings(out)
		for _, o := range out {
			fmt.Println(o)
		}
	}
	fmt.Println("total", tot)
}
