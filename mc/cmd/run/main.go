// run decides one property against the tree under test.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verifmc/corpus"
)

// Violation as the explorers report it.
type Violation struct {
	Property string `json:"property"`
	Shape    string `json:"shape"`
	Desc     string `json:"declaration"`
	Class    string `json:"class"`
	Input    string `json:"input"`
	Outcome  string `json:"outcome"`
	Detail   string `json:"detail"`
	Hash     string `json:"hash"`
	Repeats  int    `json:"reproduced_of_5"`
}

// Result is the sum over the shards.
type Result struct {
	Evaluations int               `json:"evaluations"`
	Distinct    int               `json:"distinct"`
	States      int               `json:"states"`
	Transitions int               `json:"transitions"`
	Traces      int               `json:"traces"`
	Entries     int               `json:"entries"`
	Bounded     []string          `json:"bounded"`
	Samples     []string          `json:"samples"`
	Known       map[string]int    `json:"known"`
	KnownSample map[string]string `json:"known_sample"`
	Violations  []Violation       `json:"violations"`
	Total       int               `json:"total_violations"`
	Complete    bool              `json:"complete"`
	Extra       map[string]any    `json:"-"`
}

func (r *Result) add(s *Result) {
	r.Evaluations += s.Evaluations
	r.Distinct += s.Distinct
	r.States += s.States
	r.Transitions += s.Transitions
	r.Traces += s.Traces
	r.Entries += s.Entries
	r.Bounded = append(r.Bounded, s.Bounded...)
	r.Samples = append(r.Samples, s.Samples...)
	r.Violations = append(r.Violations, s.Violations...)
	r.Total += s.Total
	r.Complete = r.Complete && s.Complete
	for k, n := range s.Known {
		r.Known[k] += n
	}
	for k, x := range s.KnownSample {
		if _, ok := r.KnownSample[k]; !ok {
			r.KnownSample[k] = x
		}
	}
}

func newResult() *Result {
	return &Result{Known: map[string]int{}, KnownSample: map[string]string{}, Complete: true, Extra: map[string]any{}}
}

var (
	fProp     = flag.String("prop", "", "property")
	fLevel    = flag.Int("level", 0, "depth of the exploration (0: what the tier says)")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fVerif    = flag.String("verif", "/verif", "")
	fRepo     = flag.String("repo", "/repo", "")
	fClassify = flag.String("classify", "", "development: write all disagreements below this directory")
	fOnly     = flag.String("only", "", "explore one type only")
	fReplay   = flag.String("replay", "", "replay a recorded violation")
	fKeep     = flag.Bool("keep", false, "keep the scratch directory")
	fSurvey   = flag.Bool("survey", false, "development: print outcomes")
	fSeconds  = flag.Int("seconds", 0, "")
)

func main() {
	flag.Parse()
	var want string
	if *fReplay != "" {
		b, err := os.ReadFile(*fReplay)
		if err != nil {
			fatal("%v", err)
		}
		var v Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fatal("%v", err)
		}
		*fProp, *fOnly, want = v.Property, v.Shape, v.Hash
	}
	spec, ok := specs[*fProp]
	if !ok {
		fatal("unknown property %q", *fProp)
	}
	start := time.Now()
	res := newResult()
	w := NewWork(*fVerif, *fRepo)
	if !*fKeep {
		defer cleanup()
	} else {
		fmt.Fprintln(os.Stderr, "scratch", w.Dir)
		cleanup = func() {}
	}
	spec.run(w, spec, res)
	if *fClassify != "" {
		return
	}
	if want != "" {
		for _, v := range res.Violations {
			if v.Hash == want {
				fmt.Printf("reproduced: %s %s\n  %s\n  %s\n", v.Shape, v.Class, v.Input, v.Detail)
				os.Exit(1)
			}
		}
		fmt.Println("not reproduced")
		return
	}
	finish(w, spec, res, time.Since(start))
}

func finish(w *Work, spec propSpec, res *Result, wall time.Duration) {
	prop := *fProp
	rdir := filepath.Join(*fVerif, "evidence", "replay")
	must(os.MkdirAll(rdir, 0o755))
	sort.SliceStable(res.Violations, func(i, j int) bool {
		return len(res.Violations[i].Input)+len(res.Violations[i].Shape) < len(res.Violations[j].Input)+len(res.Violations[j].Shape)
	})
	var lines []string
	var files []string
	for i, v := range res.Violations {
		if i >= 10 {
			break
		}
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d-%s.json", prop, i, strings.NewReplacer("/", "_", "-", "_").Replace(v.Hash)))
		b, _ := json.MarshalIndent(struct {
			Violation
			Source string `json:"source,omitempty"`
			Replay string `json:"replay_cmd"`
		}{v, w.sourceOf(v.Shape), "bash /verif/bin/check.sh " + prop + " " + *fTier + " -replay " + f}, "", " ")
		must(os.WriteFile(f, b, 0o644))
		files = append(files, f)
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", prop, f))
	}
	writeEvidence(w, spec, res, wall, files)
	var fs []string
	for f := range res.Known {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases), e.g. %s\n", prop, f, res.Known[f], oneLine(res.KnownSample[f]))
	}
	fmt.Printf("%s %s: %d evaluations over %d types, %d violations, complete=%v, %.1fs\n", prop, *fTier, res.Evaluations, res.Entries, res.Total, res.Complete, wall.Seconds())
	if len(lines) > 0 {
		for i, l := range lines {
			v := res.Violations[i]
			fmt.Println(l)
			fmt.Printf("  %s [%s] %s: %s\n    %s\n", v.Shape, oneLine(v.Desc), v.Class, oneLine(v.Input), oneLine(v.Detail))
		}
		cleanup()
		os.Exit(1)
	}
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", `\n`)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func (w *Work) sourceOf(shape string) string {
	for _, p := range w.Pkgs {
		for _, s := range p.Shapes {
			if s.ID == shape {
				return corpus.Source("q", []corpus.Shape{s})
			}
		}
		for _, t := range p.Types {
			if t.ID == shape && len(p.Shapes) == 0 {
				return "features/" + p.Path + ": " + t.Desc
			}
		}
	}
	return ""
}

func writeEvidence(w *Work, spec propSpec, res *Result, wall time.Duration, violations []string) {
	samples := pick(res.Samples, 5)
	for len(samples) < 3 {
		samples = append(samples, "(no further sample)")
	}
	cov := map[string]any{"samples": samples, "exhaustive": res.Complete}
	switch spec.level {
	case "model_checking":
		cov["states"] = res.States
		cov["transitions"] = res.Transitions
		cov["traces_validated_against_impl"] = res.Traces
	default:
		cov["evaluations"] = res.Evaluations
		cov["distinct_nontrivial"] = res.Distinct
		cov["rule"] = spec.rule
	}
	for k, v := range res.Extra {
		cov[k] = v
	}
	cov["types_explored"] = res.Entries
	if len(res.Bounded) > 0 {
		sort.Strings(res.Bounded)
		cov["cut_by_bounds"] = append([]string{fmt.Sprintf("%d types", len(res.Bounded))}, pick(res.Bounded, 20)...)
	}
	if len(res.Known) > 0 {
		cov["known_finding_cases"] = res.Known
	}
	if len(w.NoCompile)+len(w.GenFailed) > 0 {
		cov["left_out"] = map[string]any{"generator_failed": w.GenFailed, "does_not_compile": w.NoCompile}
	}
	ev := map[string]any{
		"property": *fProp, "tier": *fTier, "seed": 1, "level": spec.level, "coverage": cov,
		"wall_s": wall.Seconds(), "assumptions": spec.assume,
	}
	if len(violations) > 0 {
		ev["violations"] = violations
	}
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(*fVerif, "evidence", *fProp+".json"), b, 0o644))
}

func pick(s []string, n int) []string {
	if len(s) <= n {
		return append([]string{}, s...)
	}
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, s[i*(len(s)-1)/(n-1)])
	}
	return out
}

// runCorpus generates and compiles the declarations and explores them in
// parallel processes.
func runCorpus(w *Work, spec propSpec, res *Result) {
	w.Materialise(corpus.Packages(spec.sets(*fTier)...))
	w.Prepare()
	if len(w.Pkgs) == 0 {
		fatal("nothing of the corpus could be generated and compiled")
	}
	explore(w, w.Link(), res)
	w.notBuilt(res)
}

// relevant: the declarations a property of only some of them is about.
var relevant = map[string]*regexp.Regexp{
	"D03": regexp.MustCompile(`int|float|rune|byte|N_`),
	"D04": regexp.MustCompile(`[tT]ime|UUID|uuid|byte`),
	"D06": regexp.MustCompile(`strict`),
	"D07": regexp.MustCompile(`required|default`),
	"D11": regexp.MustCompile(`inline|^(clash|embed|extuse|rvjson|rnested|rinh|ruser)$`),
	"M03": regexp.MustCompile(`omitempty`),
	"M07": regexp.MustCompile(`Hand|custom`),
}

// notBuilt: of a declaration that is supported but has no code the property
// does not hold.
func (w *Work) notBuilt(res *Result) {
	if *fOnly != "" || *fClassify != "" {
		return
	}
	for _, m := range []map[string]string{w.GenFailed, w.NoCompile} {
		for id, why := range m {
			src := w.sources[id]
			if r := relevant[*fProp]; r != nil && !r.MatchString(id) && !r.MatchString(src) {
				continue
			}
			res.report(w, id, "", "not-built", id, "", "there is no code for it: "+head(why))
		}
	}
}

func explore(w *Work, bin string, res *Result) {
	n := runtime.NumCPU()
	if *fOnly != "" {
		n = 1
	}
	limit := *fSeconds
	if limit == 0 {
		limit = 420
		if *fTier == "thorough" {
			limit = 780
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(w.Dir, fmt.Sprintf("shard%d.json", i))
			prog := filepath.Join(w.Dir, fmt.Sprintf("progress%d", i))
			args := []string{"-prop", *fProp, "-level", fmt.Sprint(specs[*fProp].depth(*fTier)), "-known", filepath.Join(*fVerif, "known"), "-out", out, "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n), "-progress", prog, "-seconds", fmt.Sprint(limit)}
			if *fOnly != "" {
				args = append(args, "-only", *fOnly)
			}
			if *fClassify != "" {
				args = append(args, "-classify", filepath.Join(*fClassify, fmt.Sprintf("%s.%s.%d", *fProp, *fTier, i)))
			}
			cmd := exec.Command(bin, args...)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB")
			text, err := cmd.CombinedOutput()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				at, _ := os.ReadFile(prog)
				if ee, ok := err.(*exec.ExitError); ok && *fClassify == "" && (ee.ExitCode() == 2 || ee.ExitCode() == 4) && len(at) > 0 {
					// generated code brought the process down
					res.Total++
					res.Complete = false
					res.Violations = append(res.Violations, Violation{Property: *fProp, Shape: string(at), Class: "crash", Input: string(at), Outcome: "crash", Detail: head(string(text)), Hash: "crash"})
					return
				}
				fatal("explorer: %v\n%s", err, tail(string(text)))
			}
			b, err := os.ReadFile(out)
			must(err)
			s := newResult()
			must(json.Unmarshal(b, s))
			res.add(s)
		}(i)
	}
	wg.Wait()
	sort.Strings(res.Samples)
}

func head(s string) string {
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}
