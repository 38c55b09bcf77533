package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Finding is one violation of a property's rule. Rule, Fn and Construct identify it; Pos and Msg explain it.
type Finding struct {
	Rule, Fn, Construct, Pos, Msg string
}

// Key identifies a finding independently of line numbers.
func (f Finding) Key() string { return f.Rule + "|" + f.Fn + "|" + f.Construct }

// Result is what one check found and what it analysed.
type Result struct {
	Findings []Finding
	Counts   map[string]int // measured on this run
	Min      map[string]int // counts that must not fall below what was confirmed by hand
	Samples  []string
	Rule     string
	Assume   []string
}

func newResult(rule string, assume ...string) *Result {
	return &Result{Counts: map[string]int{}, Min: map[string]int{}, Rule: rule, Assume: assume}
}

func (r *Result) add(rule, fn, construct, pos, format string, a ...any) {
	f := Finding{rule, fn, construct, pos, fmt.Sprintf(format, a...)}
	for _, o := range r.Findings {
		if o.Key() == f.Key() {
			return
		}
	}
	r.Findings = append(r.Findings, f)
}

func (r *Result) sample(format string, a ...any) {
	if len(r.Samples) < 25 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

// floor states that count key was measured as n and must be at least min.
func (r *Result) floor(key string, n, min int) {
	r.Counts[key] = n
	if min > 0 {
		r.Min[key] = min
	}
}

var checks = map[string]func(p *Prog) *Result{}

type knownFinding struct {
	prop, key, text string
}

func loadKnown(file string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "KNOWN-FINDING:") {
			continue
		}
		l = strings.TrimSpace(strings.TrimPrefix(l, "KNOWN-FINDING:"))
		var k knownFinding
		if !strings.HasPrefix(l, "property=") {
			continue
		}
		l = strings.TrimPrefix(l, "property=")
		i := strings.Index(l, " ")
		if i < 0 {
			continue
		}
		k.prop, l = l[:i], strings.TrimSpace(l[i:])
		if !strings.HasPrefix(l, "key=\"") {
			continue
		}
		l = l[5:]
		j := strings.Index(l, "\" ")
		if j < 0 {
			continue
		}
		k.key, k.text = l[:j], strings.TrimSpace(l[j+2:])
		out = append(out, k)
	}
	return out
}

func run(prop, repo string, tier string) (res *Result) {
	defer func() {
		if e := recover(); e != nil {
			res = newResult("the analysis itself must complete")
			st := strings.Split(string(debug.Stack()), "\n")
			if len(st) > 24 {
				st = st[:24]
			}
			res.add("analysis-panic", "-", "panic", "-", "the analysis panicked, nothing was decided: %v\n%s", e, strings.Join(st, "\n"))
		}
	}()
	p, err := loadProg(repo)
	if err != nil {
		res = newResult("the source must load and type-check")
		res.add("load", "-", "load", "-", "%v", err)
		return res
	}
	res = checks[prop](p)
	if tier != "thorough" {
		return res
	}
	// the same decision for other targets: 32 bit integers, another operating system
	for _, env := range []string{"GOARCH=386", "GOOS=windows"} {
		other := runFor(prop, repo, env)
		res.Counts["obligations for "+env] = other.total()
		seen := map[string]bool{}
		for _, f := range res.Findings {
			seen[f.Key()+f.Pos] = true
		}
		for _, f := range other.Findings {
			if !seen[f.Key()+f.Pos] {
				seen[f.Key()+f.Pos] = true
				res.Findings = append(res.Findings, f)
			}
		}
	}
	return res
}

func runFor(prop, repo, env string) (res *Result) {
	defer func() {
		if e := recover(); e != nil {
			res = newResult("the analysis itself must complete")
			res.add("analysis-panic", "-", "panic for "+env, "-", "the analysis panicked, nothing was decided: %v", e)
		}
	}()
	p, err := loadProg(repo, env)
	if err != nil {
		res = newResult("the source must load and type-check")
		res.add("load", "-", "load for "+env, "-", "%v", err)
		return res
	}
	return checks[prop](p)
}

func (r *Result) total() int {
	n := 0
	for _, c := range r.Counts {
		n += c
	}
	return n
}

func main() {
	prop, repo, verif, mode, tier := "", "/repo", "/verif", "", os.Getenv("VERIF_TIER")
	for i := 1; i < len(os.Args); i++ {
		switch os.Args[i] {
		case "-property":
			i++
			prop = os.Args[i]
		case "-repo":
			i++
			repo = os.Args[i]
		case "-verif":
			i++
			verif = os.Args[i]
		case "-dump":
			mode = "dump"
		case "-all":
			mode = "all"
		}
	}
	switch mode {
	case "dump":
		p, err := loadProg(repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		if os.Getenv("DUMP") == "psum" {
			dumpPsum(p, os.Getenv("FN"))
			return
		}
		if os.Getenv("DUMP") == "flow" {
			dumpFlow(p)
			return
		}
		if os.Getenv("DUMP") == "refs" {
			dumpRefs(p)
			return
		}
		dumpEmission(p)
		return
	case "all":
		os.Exit(runAll(repo, verif))
	}
	if tier == "" {
		tier = "quick"
	}
	if checks[prop] == nil {
		fmt.Printf("VIOLATION property=%s replay=none\nno check is registered under this id\n", prop)
		os.Exit(1)
	}
	start := time.Now()
	res := run(prop, repo, tier)
	os.Exit(finish(prop, verif, tier, res, start))
}

// runAll runs every check on one loaded program (development aid; no evidence is written).
func runAll(repo, verif string) int {
	p, err := loadProg(repo)
	if err != nil {
		fmt.Println("LOAD", err)
		return 1
	}
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	rc := 0
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	for _, id := range ids {
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Println(id, "PANIC", e, string(debug.Stack()))
					rc = 1
				}
			}()
			t0 := time.Now()
			res := checks[id](p)
			bad, kn := judge(id, known, res)
			fmt.Printf("%s %v known=%d bad=%d %v\n", id, res.Counts, len(kn), len(bad), time.Since(t0).Round(time.Millisecond))
			for _, f := range bad {
				fmt.Printf("   %s %s [%s] %s\n", f.Pos, f.Fn, f.Key(), f.Msg)
				rc = 1
			}
		}()
	}
	return rc
}

func judge(prop string, known []knownFinding, res *Result) (bad []Finding, kn []string) {
	for k, min := range res.Min {
		if res.Counts[k] < min {
			res.add("coverage", "-", k, "-", "only %d instance(s) of %q were found, at least %d were confirmed by hand: the rule no longer covers what it must", res.Counts[k], k, min)
		}
	}
	sort.Slice(res.Findings, func(i, j int) bool {
		a, b := res.Findings[i], res.Findings[j]
		if a.Pos != b.Pos {
			return a.Pos < b.Pos
		}
		return a.Key() < b.Key()
	})
	for _, f := range res.Findings {
		listed := false
		for _, k := range known {
			if k.prop == prop && k.key == f.Key() {
				listed = true
				kn = append(kn, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s %s)", prop, k.text, f.Pos, f.Fn))
			}
		}
		if !listed {
			bad = append(bad, f)
		}
	}
	return
}

func finish(prop, verif, tier string, res *Result, start time.Time) int {
	known := loadKnown(filepath.Join(verif, "known_findings.txt"))
	bad, kn := judge(prop, known, res)
	for _, l := range kn {
		fmt.Println(l)
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	report := filepath.Join(dir, prop+".report.txt")
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\nrule: %s\n\nanalysed:\n", prop, res.Rule)
	var keys []string
	for k := range res.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Fprintf(&sb, "  %-50s %d\n", k, res.Counts[k])
	}
	for _, f := range bad {
		fmt.Fprintf(&sb, "\nVIOLATION %s in %s\n  rule %s, construct %s\n  %s\n", f.Pos, f.Fn, f.Rule, f.Construct, f.Msg)
	}
	for _, l := range kn {
		fmt.Fprintf(&sb, "\n%s\n", l)
	}
	os.WriteFile(report, []byte(sb.String()), 0o644)

	cov := map[string]any{
		"explanation": "Static analysis of the type-checked SSA form of /repo's current working tree (nothing of gopdf is executed). Rule: " + res.Rule,
		"analysed":    res.Counts,
		"samples":     res.Samples,
		"exhaustive":  true,
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": res.Assume,
		"wall_s": time.Since(start).Seconds(), "violations": len(bad),
	}
	if res.Samples == nil {
		delete(cov, "samples")
	}
	if res.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644)

	if len(bad) == 0 {
		fmt.Printf("OK property=%s %v\n", prop, res.Counts)
		return 0
	}
	for i, f := range bad {
		if i == 20 {
			fmt.Printf("... %d more in the report\n", len(bad)-20)
			break
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s %s: [%s] %s\n", prop, report, f.Pos, f.Fn, f.Key(), f.Msg)
	}
	return 1
}
