package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Finding struct {
	Rule   string // rule id, e.g. "close-twice"
	Key    string // stable construct key (no line numbers)
	Pos    string // file:line (function)
	Msg    string
	Detail []string // call stack, path
}

type Result struct {
	w           *World
	prop        string
	findings    map[string]*Finding
	counts      map[string]int
	samples     []string
	rules       []string
	assumptions []string
	floors      []string
	partial     []string
}

func newResult(w *World, prop string) *Result {
	return &Result{w: w, prop: prop, findings: map[string]*Finding{}, counts: map[string]int{}}
}

func (r *Result) report(rule, key, pos, msg string, detail ...string) {
	k := rule + "|" + key
	if _, ok := r.findings[k]; ok {
		return
	}
	r.findings[k] = &Finding{rule, key, pos, msg, detail}
}

func (r *Result) count(what string, n int) { r.counts[what] += n }

func (r *Result) sample(format string, args ...any) {
	if len(r.samples) < 12 {
		r.samples = append(r.samples, fmt.Sprintf(format, args...))
	}
}

// incomplete notes a part of the program that was not explored completely.
func (r *Result) incomplete(what string) { r.partial = append(r.partial, what) }

// rule documents an applied rule.
func (r *Result) rule(text string) { r.rules = append(r.rules, text) }

func (r *Result) assume(text string) { r.assumptions = append(r.assumptions, text) }

// floor requires a minimum number of analysed instances, so that a rule cannot pass vacuously.
func (r *Result) floor(what string, min int) {
	r.floors = append(r.floors, fmt.Sprintf("%s>=%d", what, min))
	if r.counts[what] < min {
		r.report("instances", what, "-", fmt.Sprintf("only %d instances of %q were found, at least %d are needed to decide the property (the code the rule is anchored in is gone or is no longer recognised)", r.counts[what], what, min))
	}
}

// need reports a missing anchor.
func (r *Result) need(ok bool, what string) bool {
	if !ok {
		r.report("anchor", what, "-", "cannot find "+what+": the property cannot be decided")
	}
	return ok
}

type known struct {
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(file string) []known {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var res []known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" || !strings.HasPrefix(line, "{") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(line), &k) == nil && k.Rule != "" {
			res = append(res, k)
		}
	}
	return res
}

// finish prints the result, writes the evidence and returns the exit code.
func (r *Result) finish(verif string, start time.Time, knownFile string) int {
	kn := loadKnown(knownFile)
	var fs []*Finding
	var knownHit []string
	for _, f := range r.findings {
		skip := false
		for _, k := range kn {
			if k.Property == r.prop && k.Rule == f.Rule && k.Key == f.Key {
				knownHit = append(knownHit, k.What)
				skip = true
			}
		}
		if !skip {
			fs = append(fs, f)
		}
	}
	sort.Strings(knownHit)
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k)
	}
	sort.Slice(fs, func(i, j int) bool {
		if fs[i].Rule != fs[j].Rule {
			return fs[i].Rule < fs[j].Rule
		}
		return fs[i].Key < fs[j].Key
	})
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	cov := map[string]any{
		"explanation": "Static analysis of the type-checked SSA form of /repo's current working tree. Rules applied: " + strings.Join(r.rules, " ") + " Counts are measured on this run.",
		"exhaustive":  false,
	}
	for _, p := range r.partial {
		fmt.Printf("INCOMPLETE: property=%s %s\n", r.prop, p)
	}
	if len(r.partial) > 0 {
		cov["incomplete"] = r.partial
	}
	for k, v := range r.counts {
		cov[strings.ReplaceAll(k, " ", "_")] = v
	}
	cov["functions_loaded"] = len(r.w.funcs)
	cov["packages_loaded"] = len(r.w.pkgs)
	cov["floors"] = r.floors
	cov["rules"] = r.rules
	if len(r.samples) > 0 {
		cov["samples"] = r.samples
	}
	var fl []map[string]any
	for _, f := range fs {
		fl = append(fl, map[string]any{"rule": f.Rule, "key": f.Key, "pos": f.Pos, "msg": f.Msg})
	}
	if fl != nil {
		cov["findings"] = fl
	}
	ev := map[string]any{
		"property": r.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": float64(int(time.Since(start).Seconds()*1000)) / 1000,
		"violations": len(fs), "assumptions": r.assumptions,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(fs) == 0 {
		fmt.Printf("OK property=%s: no violation found\n", r.prop)
		return 0
	}
	rep := filepath.Join(verif, "evidence", r.prop+".violations.txt")
	var sb strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&sb, "[%s] %s\n  at %s\n  construct: %s\n", f.Rule, f.Msg, f.Pos, f.Key)
		for _, d := range f.Detail {
			fmt.Fprintf(&sb, "    %s\n", d)
		}
	}
	os.WriteFile(rep, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rep)
	return 1
}
