package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Finding is one violated or undecided obligation, identified by rule and construct (never by line).
type Finding struct {
	Rule, Construct, Pos, Msg string
}

func (f Finding) Key() string { return f.Rule + "|" + f.Construct }

// Result is what a property check reports.
type Result struct {
	Findings []Finding
	Counts   map[string]int
	Samples  []string
	Rules    []string
	Assume   []string
	seen     map[string]bool
}

func NewResult() *Result { return &Result{Counts: map[string]int{}, seen: map[string]bool{}} }

func (r *Result) Count(k string, n int) { r.Counts[k] += n }
func (r *Result) Sample(s string) {
	if len(r.Samples) < 40 {
		r.Samples = append(r.Samples, s)
	}
}
func (r *Result) Rule(s string)       { r.Rules = append(r.Rules, s) }
func (r *Result) Assumption(s string) { r.Assume = append(r.Assume, s) }
func (r *Result) Fail(rule, construct string, pos string, format string, a ...any) {
	f := Finding{rule, construct, pos, fmt.Sprintf(format, a...)}
	k := f.Key()
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.Findings = append(r.Findings, f)
}

// Need fails the check when an instance count is below the number confirmed by hand.
func (r *Result) Need(k string, min int) {
	if partName == "" && r.Counts[k] < min {
		r.Fail("coverage", k, "-", "only %d instances of %q were analysed, at least %d are expected: the rule would pass vacuously", r.Counts[k], k, min)
	}
}

type Check struct {
	ID  string
	Run func(p *Prog, r *Result)
}

var checks = map[string]func(p *Prog, r *Result){}

func main() {
	prop := flag.String("prop", "", "property id, or 'all'")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verif dir")
	verbose := flag.Bool("v", false, "verbose")
	part := flag.String("part", "", "internal: analyse one part of a property and print the result as JSON")
	flag.Parse()
	debugOn = *verbose
	start := time.Now()
	if *prop == "all" {
		p, err := Load(*repo)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(1)
		}
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		bad := 0
		for _, id := range ids {
			t := time.Now()
			r := runCheck(p, id)
			_, viol := split(*verif, id, r)
			st := "ok"
			if len(viol) > 0 {
				st = "VIOLATION"
				bad = 1
			}
			fmt.Printf("%-5s %-10s %6.2fs %v\n", id, st, time.Since(t).Seconds(), countStr(r.Counts))
			for i, f := range viol {
				if i == 6 && !*verbose {
					fmt.Printf("      ... %d more\n", len(viol)-i)
					break
				}
				fmt.Printf("      %s [%s] %s: %s\n", f.Rule, f.Construct, f.Pos, f.Msg)
			}
		}
		os.Exit(bad)
	}
	if checks[*prop] == nil {
		fmt.Printf("unknown property %q\n", *prop)
		fmt.Printf("VIOLATION property=%s replay=-\n", *prop)
		os.Exit(1)
	}
	p, err := Load(*repo)
	var r *Result
	if err != nil {
		r = NewResult()
		r.Fail("load", "repository", *repo, "the tree cannot be loaded and type-checked, so nothing can be decided: %v", err)
	} else {
		partName, repoDir = *part, *repo
		r = runCheck(p, *prop)
	}
	if *part != "" {
		json.NewEncoder(os.Stdout).Encode(r)
		os.Exit(0)
	}
	known, viol := split(*verif, *prop, r)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, k.Key(), k.Msg)
	}
	writeEvidence(*verif, *prop, r, len(viol), time.Since(start))
	if len(viol) == 0 {
		fmt.Printf("OK property=%s %s\n", *prop, countStr(r.Counts))
		os.Exit(0)
	}
	rp := filepath.Join(*verif, "replay", *prop+".txt")
	os.MkdirAll(filepath.Dir(rp), 0o755)
	var sb strings.Builder
	for _, f := range viol {
		line := fmt.Sprintf("rule=%s construct=%s at %s\n    %s\n", f.Rule, f.Construct, f.Pos, f.Msg)
		sb.WriteString(line)
		fmt.Print(line)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, rp)
	os.Exit(1)
}

func runCheck(p *Prog, id string) (r *Result) {
	r = NewResult()
	allDeadline = time.Time{}
	defer func() {
		if e := recover(); e != nil {
			r.Fail("analyzer", "internal", "-", "the analysis did not complete, so the property is undecided: %v\n%s", e, debug.Stack())
		}
	}()
	checks[id](p, r)
	return r
}

// partName is the part analysed by this process; empty: all of them.
var partName, repoDir = "", "/repo"

// parts analyses parts of a property that have nothing to do with each other in parallel processes.
func parts(p *Prog, r *Result, id string, names []string, run func(name string)) {
	if partName != "" {
		run(partName)
		return
	}
	type res struct {
		r   *Result
		err error
	}
	out := make([]res, len(names))
	var wg sync.WaitGroup
	exe, err := os.Executable()
	if err != nil {
		exe = os.Args[0]
	}
	slots := make(chan bool, 8)
	for i, n := range names {
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			slots <- true
			defer func() { <-slots }()
			ctx, cancel := context.WithTimeout(context.Background(), allTime)
			defer cancel()
			c := exec.CommandContext(ctx, exe, "-prop", id, "-repo", repoDir, "-part", n)
			b, err := c.Output()
			if err == nil {
				out[i].r = NewResult()
				err = json.Unmarshal(b, out[i].r)
			}
			out[i].err = err
		}(i, n)
	}
	wg.Wait()
	for i, n := range names {
		o := out[i]
		if o.err != nil {
			r.Fail("analyzer", n, "-", "the analysis did not complete, so the property is undecided: %v", o.err)
			continue
		}
		for k, v := range o.r.Counts {
			r.Count(k, v)
		}
		for _, f := range o.r.Findings {
			r.Fail(f.Rule, f.Construct, f.Pos, "%s", f.Msg)
		}
		for _, s := range o.r.Samples {
			r.Sample(s)
		}
	}
}

func countStr(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		ks[i] = fmt.Sprintf("%s=%d", k, m[k])
	}
	return strings.Join(ks, " ")
}

func split(verif, prop string, r *Result) (known, viol []Finding) {
	set := map[string]bool{}
	b, _ := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 key=<rule|construct> text
		if !strings.HasPrefix(l, "known: property="+prop+" key=") {
			continue
		}
		k := strings.TrimPrefix(l, "known: property="+prop+" key=")
		if i := strings.Index(k, " :: "); i >= 0 {
			k = k[:i]
		}
		set[strings.TrimSpace(k)] = true
	}
	for _, f := range r.Findings {
		if set[f.Key()] {
			known = append(known, f)
		} else {
			viol = append(viol, f)
		}
	}
	return
}

func writeEvidence(verif, prop string, r *Result, nviol int, d time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]any{
		"explanation": "Static analysis of /repo's current source (go/packages + go/ssa, generic bodies analysed once); no repository code is run. Rules applied: " + strings.Join(r.Rules, "; "),
		"counts":      r.Counts,
		"samples":     r.Samples,
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": r.Assume, "wall_s": d.Seconds(), "violations": nviol,
	}
	if r.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0o644)
}

var debugOn bool

func dbg(f string, a ...any) {
	if debugOn {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		rel = ps.Filename
	}
	return fmt.Sprintf("%s:%d", rel, ps.Line)
}
