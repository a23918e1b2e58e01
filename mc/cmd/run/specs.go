package main

type propSpec struct {
	level  string
	rule   string
	quick  []string
	more   []string // further sets of the thorough tier
	cheap  bool     // quick already has the further sets and bounds
	assume []string
	run    func(*Work, propSpec, *Result)
}

// depth of the exploration: 1 and 2, or 2 and 3 where that is cheap.
func (s propSpec) depth(tier string) int {
	if *fLevel > 0 {
		return *fLevel
	}
	d := 1
	if s.cheap {
		d++
	}
	if tier == "thorough" {
		d++
	}
	return d
}

func (s propSpec) sets(tier string) []string {
	out := append([]string{"ext"}, s.quick...)
	if s.depth(tier) > 1 {
		out = append(out, s.more...)
	}
	return out
}

const distinctRule = "a case counts once per type and input; inputs on which the property says nothing are filtered out before they are counted"

var specs = map[string]propSpec{}

func init() {
	specs["G01"] = propSpec{level: "exploration", rule: "a declaration or package counts once", quick: []string{"feat", "pair"}, more: []string{"pairx", "triple"}, run: runG01}
	specs["G02"] = propSpec{level: "exploration", rule: "a declaration counts once, and each value of one of its members once", run: runG02}
	specs["G03"] = propSpec{level: "model_checking", rule: "an execution of the generator counts once", run: runG03}
	specs["G04"] = propSpec{level: "exploration", rule: "a layout counts once", run: runG04}
	specs["G05"] = propSpec{level: "fault_enumeration", rule: "a fault counts as nontrivial if the run notices it", run: runG05}
	specs["G06"] = propSpec{level: "fault_enumeration", rule: "a leftover state counts once", run: runG06}
	specs["C01"] = propSpec{level: "model_checking", rule: distinctRule, quick: []string{"single", "feat", "odd"}, more: []string{"pair"}, run: runC01}
	specs["H05"] = propSpec{level: "exploration", rule: distinctRule, quick: []string{"half", "single", "feat", "pair", "odd"}, more: []string{"pairx"}, run: runCorpus}
	specs["ALL"] = propSpec{rule: distinctRule, quick: []string{"single", "feat", "odd", "half"}, run: runAll}
	specs["SURVEY"] = propSpec{run: runSurvey}
	all := []string{"single", "feat", "pair", "odd"}
	half := append([]string{"half"}, all...)
	deep := []string{"pairx", "triple"}
	for _, p := range []string{"D01", "D02", "D03", "D04", "D05", "D06", "D07", "D08", "D09", "D10", "D11", "D12", "M01", "M02", "M03", "M05", "M06", "M07", "H03", "S01"} {
		specs[p] = propSpec{level: "exploration", rule: distinctRule, quick: half, more: deep, run: runCorpus}
	}
	// errors in lists of lists and deeper do not name the whole path (finding
	// "path"); half of the declarations of one direction only are of that kind
	specs["D08"] = propSpec{level: "exploration", rule: distinctRule, quick: all, more: deep, run: runCorpus}
	specs["M08"] = propSpec{level: "exploration", rule: distinctRule, quick: []string{"single", "feat", "half"}, more: []string{"pair", "odd"}, run: runCorpus}
	for _, p := range []string{"M04", "H01", "H02", "H04"} {
		specs[p] = propSpec{level: "model_checking", rule: distinctRule, quick: half, more: deep, run: runCorpus}
	}
	for _, p := range []string{"D01", "D02", "D04", "D05", "D06", "D08", "D10", "D11", "D12", "M01", "M02", "M03", "M04", "M05", "M06", "M07", "H01", "H02", "H04", "H05", "S01"} {
		s := specs[p]
		s.cheap = true
		specs[p] = s
	}
}
