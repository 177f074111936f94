// Command checker decides the properties of /verif/properties.jsonl for the
// Go source under -repo by static analysis. It never runs the code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// A Finding is one violated obligation.
type Finding struct {
	Key  string // stable: rule + construct, no line numbers
	Pos  string // file:line
	Rule string
	Msg  string
	Path []string // for path rules: the way from source to exit
}

// A Report collects what one check analysed.
type Report struct {
	Prop        string
	Obligations int
	Findings    []Finding
	Counts      map[string]int
	Samples     []string
	Assumptions []string
	Explanation string
	floors      map[string]int
}

func (r *Report) count(k string, n int) { r.Counts[k] += n }

func (r *Report) oblige(sample string) {
	r.Obligations++
	if len(r.Samples) < 400 {
		r.Samples = append(r.Samples, sample)
	}
}

func (r *Report) add(f Finding) {
	for _, g := range r.Findings {
		if g.Key == f.Key && g.Pos == f.Pos {
			return
		}
	}
	r.Findings = append(r.Findings, f)
}

// floor fails the check when fewer than n instances of k were analysed: a
// rule that matches nothing proves nothing.
func (r *Report) floor(k string, n int) {
	if r.Counts[k] < n {
		r.add(Finding{Key: "floor:" + k, Rule: "vacuity", Pos: "-",
			Msg: fmt.Sprintf("only %d instances of %q were found, at least %d were confirmed by hand: the rule no longer covers the code", r.Counts[k], k, n)})
	}
}

type check struct {
	run  func(w *World, r *Report)
	tech string
}

var checks = map[string]check{}

func register(id string, tech string, f func(w *World, r *Report)) {
	checks[id] = check{run: f, tech: tech}
}

func main() {
	prop := flag.String("prop", "", "property id(s), comma separated, or all")
	repo := flag.String("repo", "/repo", "repository root")
	verif := flag.String("verif", "/verif", "verif root (known findings)")
	ev := flag.String("evidence", "", "evidence directory (none: do not write)")
	tier := flag.String("tier", "quick", "tier")
	seed := flag.Int("seed", 1, "seed (recorded; the analysis is deterministic)")
	dump := flag.String("dump", "", "debug: dump something")
	flag.Parse()
	if *tier != "quick" && *tier != "thorough" {
		*tier = "quick"
	}

	start := time.Now()
	w, lerr := Load(*repo)
	loadTime := time.Since(start)
	if *dump != "" {
		debugDump(w, *dump)
		return
	}

	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	exit := 0
	for _, id := range ids {
		c, ok := checks[id]
		if !ok {
			fmt.Printf("unknown property %s\n", id)
			os.Exit(2)
		}
		t0 := time.Now()
		r := &Report{Prop: id, Counts: map[string]int{}}
		if lerr != nil {
			r.add(Finding{Key: "load", Rule: "load", Pos: "-", Msg: "the repository does not load or type-check: " + lerr.Error()})
		} else {
			func() {
				defer func() {
					if e := recover(); e != nil {
						st := string(debug.Stack())
						r.add(Finding{Key: "panic", Rule: "undecided", Pos: "-", Msg: fmt.Sprintf("the analysis did not finish: %v", e), Path: strings.Split(st, "\n")})
					}
				}()
				w.tier = *tier
				c.run(w, r)
			}()
		}
		if report(r, c, *verif, *ev, *tier, *seed, (time.Since(t0) + loadTime).Seconds()) {
			exit = 1
		}
	}
	os.Exit(exit)
}

func report(r *Report, c check, verif, ev, tier string, seed int, wall float64) bool {
	known := knownFindings(verif, r.Prop)
	var bad []Finding
	nknown := 0
	for _, f := range r.Findings {
		if _, ok := known[f.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s at %s: %s\n", r.Prop, f.Key, f.Pos, f.Msg)
			nknown++
			continue
		}
		bad = append(bad, f)
	}
	replay := filepath.Join(ev, r.Prop+".violation.txt")
	if ev == "" {
		replay = "-"
	} else {
		_ = os.MkdirAll(ev, 0o755)
		_ = os.Remove(replay)
	}
	if len(bad) > 0 {
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s (%s)\n", r.Prop, c.tech)
		for i, f := range bad {
			fmt.Fprintf(&sb, "\n%d. [%s] %s\n   %s\n   key: %s\n", i+1, f.Rule, f.Pos, f.Msg, f.Key)
			for _, p := range f.Path {
				fmt.Fprintf(&sb, "      %s\n", p)
			}
		}
		if ev != "" {
			_ = os.WriteFile(replay, []byte(sb.String()), 0o644)
		}
		fmt.Print(sb.String())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, replay)
	}
	cov := map[string]any{
		"explanation": r.Explanation,
		"obligations": r.Obligations,
		"discharged":  r.Obligations - min(r.Obligations, len(r.Findings)),
		"samples":     r.Samples,
		"rule":        c.tech,
	}
	for k, v := range r.Counts {
		cov["n_"+strings.ReplaceAll(k, " ", "_")] = v
	}
	if len(r.Samples) > 60 {
		// spread over the whole list
		step := len(r.Samples) / 60
		var s []string
		for i := 0; i < len(r.Samples); i += step + 1 {
			s = append(s, r.Samples[i])
		}
		cov["samples"] = s
	}
	if r.Samples == nil {
		cov["samples"] = []string{}
	}
	e := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.Assumptions, "wall_s": wall,
		"violations": len(bad),
	}
	if r.Assumptions == nil {
		e["assumptions"] = []string{}
	}
	if ev != "" {
		b, _ := json.MarshalIndent(e, "", " ")
		if err := os.WriteFile(filepath.Join(ev, r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println(err)
		}
	}
	fmt.Printf("%s: %d obligations, %d violations, %d known findings (%.1fs)\n", r.Prop, r.Obligations, len(bad), nknown, wall)
	return len(bad) > 0
}

// knownFindings reads /verif/known-findings.txt: lines
//
//	known: property=<id> key=<key> :: <what fails>
//	fixed: property=<id> <commit> <what failed>      (suppresses nothing)
func knownFindings(verif, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+prop+" key=")
		if !ok {
			continue
		}
		key, what, _ := strings.Cut(rest, " :: ")
		m[strings.TrimSpace(key)] = what
	}
	return m
}

var debugSteps = os.Getenv("VP_DEBUG") != ""
