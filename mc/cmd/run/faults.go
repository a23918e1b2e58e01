package main

import (
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
)

const (
	faultErr = 1 + iota
	faultTorn
	faultLost
	faultCrash
	faultTornCrash
	faultAfter
)

var faultNames = []string{"", "the call fails", "the device is full after %d bytes", "closing fails and all past byte %d is lost", "end before the call", "end after %d bytes of the call", "end after the call"}

// scene is a small module and a file of it to generate code for.
type scene struct {
	ID   string
	Tree tree
	In   string
	Out  string
	Ext  string // a source of the other package
	Prog string // the program to run instead of the driver: main.go
}

// scenes are modules small enough to break every single step of a run.
func scenes(tier string) []scene {
	var out []scene
	for _, l := range layouts("quick") {
		p := strings.Split(l.ID, "+")
		if p[0] != "sibling" || p[1] != "plain" || p[3] != "none" {
			continue
		}
		switch {
		case p[2] == "onefile":
		case (p[2] == "split" || p[2] == "ignored") && (p[4] == "types" || p[4] == "inline"):
		case tier == "thorough":
		default:
			continue
		}
		out = append(out, scene{l.ID, l.tree(), join(l.User, "usr.go"), join(l.User, "usr_json.go"), join(l.Ext, l.gens()[0]), ""})
	}
	big := "package big\n\n"
	for i := 0; i < 40; i++ {
		big += fmt.Sprintf("//json:optional\ntype T%d struct {\n\tA string `json:\"a\"`\n\tB []int `json:\"b,omitempty\"`\n\tC map[string]int `json:\"c\"`\n}\n\n", i)
	}
	out = append(out, scene{"large", tree{"go.mod": "module m\n", "big/big.go": big}, "big/big.go", "big/big_json.go", "", ""})
	out = append(out, scene{"smallest", tree{"go.mod": "module m\n", "t.go": "package t\n\n//json:optional\ntype T struct {\n\tA int `json:\"a\"`\n}\n"}, "t.go", "t_json.go", "", ""})
	out = append(out, scene{"elsewhere", tree{"go.mod": "module m\n", "t.go": "package t\n\n//json:optional\ntype T struct {\n\tA int `json:\"a\"`\n}\n", "gen/doc.go": "package t\n"}, "t.go", "gen/t_json.go", "", ""})
	return out
}

// runScene puts the tree at root, applies leftovers, runs once.
func (s scene) run(driver, root string, over tree, fault string) (after tree, text, bad string) {
	defer os.RemoveAll(root)
	s.Tree.write(root)
	over.write(root)
	text, bad = s.start(driver, root, "VERIF_MAP=", "VERIF_FAULT="+fault)
	return readTree(root), text, bad
}

// start runs the driver, or the program, which says by its exit status what
// became of it.
func (s scene) start(driver, root string, env ...string) (text, bad string) {
	if s.Prog == "" {
		return generate(driver, root, env, filepath.Join(root, s.In)+":"+filepath.Join(root, s.Out))
	}
	cmd := exec.Command(s.Prog)
	cmd.Dir = root
	cmd.Env = append(os.Environ(), env...)
	b, err := cmd.CombinedOutput()
	if err != nil {
		bad = "ended with " + err.Error() + ": " + tail(string(b))
	}
	return string(b), bad
}

// programScene is the program run where it finds its file.
func (w *Work) programScene() (scene, bool) {
	p := w.mapProgram()
	return scene{ID: "program", Tree: tree{"go.mod": "module m\n", "benchmark/data.go": "package benchmark\n\n//json:optional\ntype T struct {\n\tA int `json:\"a\"`\n}\n\n//json:strict\ntype U struct {\n\tL []T `json:\"l\"`\n}\n"},
		In: "benchmark/data.go", Out: "benchmark/data_json.go", Prog: p}, p != ""
}

func (s scene) outputs() []string {
	return []string{s.Out, join(strings.Trim(filepath.Dir(s.Out), "."), "valyjson_utils.go")}
}

// calls are the system calls of a run: kind and length.
func calls(text string) []string {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "CALLS") {
			return strings.Fields(strings.TrimPrefix(l, "CALLS"))
		}
	}
	return nil
}

func keeps(n int, deep bool) []int {
	if n <= 1 {
		return []int{0}
	}
	if !deep {
		return []int{0, n / 2, n - 1}
	}
	var out []int
	step := n/64 + 1
	for i := 0; i < n; i += step {
		out = append(out, i)
	}
	return append(out, 1, n-1)
}

// pivotal picks the calls to break: all of them, or, when the many small writes of a run are thinned out, all that are
// not writes and of every row of writes the first and last eight and those at powers of two.
func pivotal(cs []string, thin bool) []bool {
	out := make([]bool, len(cs))
	for i := 0; i < len(cs); i++ {
		if !thin || cs[i][0] != 'w' {
			out[i] = true
			continue
		}
		j := i
		for j < len(cs) && cs[j][0] == 'w' {
			j++
		}
		for k := i; k < j; k++ {
			n := k - i
			out[k] = n < 8 || j-k <= 8 || n&(n-1) == 0
		}
		i = j - 1
	}
	return out
}

// faultScripts enumerates the single faults of a run.
func faultScripts(cs []string, thin, deep, crashes bool) []string {
	var out []string
	pick := pivotal(cs, thin)
	for i, c := range cs {
		if !pick[i] {
			continue
		}
		n, _ := strconv.Atoi(c[1:])
		add := func(mode, keep int) { out = append(out, fmt.Sprintf("%d:%d:%d", i, mode, keep)) }
		if crashes {
			switch c[0] {
			case 'w':
				add(faultCrash, 0)
				for _, k := range keeps(n, deep) {
					if k > 0 {
						add(faultTornCrash, k)
					}
				}
				add(faultAfter, 0)
			case 'O', 'm', 'u', 'c':
				add(faultCrash, 0)
				add(faultAfter, 0)
			}
			continue
		}
		add(faultErr, 0)
		switch c[0] {
		case 'w':
			for _, k := range keeps(n, deep) {
				add(faultTorn, k)
			}
		case 'c':
			add(faultLost, 0)
		}
	}
	return out
}

// thin tells whether the writes of a scene are thinned out: quick breaks every write of the smallest scene only.
func thin(s scene) bool { return *fTier != "thorough" && s.ID != "smallest" }

// ends are offsets at which a Go file could be cut without anybody noticing.
func ends(text string, deep bool) []int {
	var out []int
	for i := 0; i < len(text); i++ {
		if strings.HasPrefix(text[i:], "\n}\n") || strings.HasPrefix(text[i:], "\n)\n") {
			out = append(out, i+3)
		}
	}
	if !deep && len(out) > 8 {
		out = append(out[:4:4], out[len(out)-4:]...)
	}
	return out
}

func describe(script string, cs []string) string {
	p := strings.Split(script, ":")
	i, _ := strconv.Atoi(p[0])
	m, _ := strconv.Atoi(p[1])
	k, _ := strconv.Atoi(p[2])
	name := faultNames[m]
	if strings.Contains(name, "%d") {
		name = fmt.Sprintf(name, k)
	}
	return fmt.Sprintf("system call %d (%c): %s", i, cs[i][0], name)
}

// runG05: what is reported as done is done.
func runG05(w *Work, spec propSpec, res *Result) {
	md := w.mapDriver()
	var mu sync.Mutex
	seq := 0
	scratch := func() string {
		mu.Lock()
		defer mu.Unlock()
		seq++
		return filepath.Join(w.Dir, "run", fmt.Sprint(seq))
	}
	stats := map[string]int{}
	judge := func(s scene, what string, ref, got tree, bad string) {
		mu.Lock()
		defer mu.Unlock()
		res.Evaluations++
		if bad != "" {
			res.Distinct++
			stats["reported as failed"]++
		} else {
			stats["reported as done"]++
			for _, o := range s.outputs() {
				if got[o] != ref[o] {
					res.report(w, s.ID, "", "fault", s.ID+": "+what, "done "+filepath.Base(o), "success is reported, and "+o+" is not what it should be ("+fmt.Sprint(len(got[o]))+" of "+fmt.Sprint(len(ref[o]))+" bytes)")
					return
				}
			}
		}
		for p, t := range s.Tree {
			if got[p] != t {
				res.report(w, s.ID, "", "input", s.ID+": "+what, "input "+p, "the source "+p+" was changed")
				return
			}
		}
	}
	all := scenes(*fTier)
	if s, ok := w.programScene(); ok {
		all = append(all, s)
	}
	for _, s := range all {
		if *fOnly != "" && *fOnly != s.ID {
			continue
		}
		s := s
		ref, text, bad := s.run(md, scratch(), nil, "")
		if bad != "" {
			res.report(w, s.ID, "", "refused", s.ID, "refused", bad)
			continue
		}
		if s.Prog != "" {
			// the program does what the driver does
			t := s
			t.Prog = ""
			want, _, bad := t.run(w.Driver, scratch(), nil, "")
			if d := want.differs(ref); bad == "" && d != "" {
				res.report(w, s.ID, "", "program", s.ID, "differs", "the program and the package it stands for: "+d)
			}
		}
		// a source that is missing, or is not well-formed
		src := s.Tree[s.In]
		step := 1
		if *fTier != "thorough" {
			step = len(src)/60 + 1
		}
		var cuts []string
		for n := 0; n < len(src); n += step {
			cuts = append(cuts, src[:n], src[:n]+src[n+1:])
		}
		parallel(len(cuts), func(i int) {
			if _, err := parser.ParseFile(token.NewFileSet(), "", cuts[i], 0); err == nil {
				return
			}
			u := s
			u.Tree = s.Tree.with(s.In, cuts[i])
			_, _, bad := u.run(w.Driver, scratch(), nil, "")
			mu.Lock()
			defer mu.Unlock()
			res.Evaluations++
			res.Distinct++
			stats["malformed sources"]++
			if bad == "" {
				res.report(w, s.ID, "", "malformed", s.ID+": "+fmt.Sprintf("%.80q", tail(cuts[i])), "done", "success is reported for a source that is not well-formed: "+tail(cuts[i]))
			}
		})
		for what, u := range map[string]tree{"missing": s.Tree.with(s.In, ""), "a directory": s.Tree.with(s.In+"/x.txt", "x")} {
			if what == "missing" {
				delete(u, s.In)
			}
			if what == "a directory" {
				delete(u, s.In)
			}
			v := s
			v.Tree = u
			_, _, bad := v.run(w.Driver, scratch(), nil, "")
			res.Evaluations++
			if bad == "" {
				res.report(w, s.ID, "", "missing", s.ID+": the source is "+what, "done", "success is reported though the source is "+what)
			}
		}
		cs := calls(text)
		stats["system calls"] += len(cs)
		scripts := faultScripts(cs, thin(s), *fTier == "thorough", false)
		// and the contents lost past the end of some declaration
		written := false
		for i, c := range cs {
			written = written || c[0] == 'w'
			if c[0] != 'c' || !written {
				continue
			}
			left, _, _ := s.run(md, scratch(), nil, fmt.Sprintf("%d:%d:0", i, faultAfter))
			for _, o := range s.outputs() {
				for _, k := range ends(left[o], *fTier == "thorough") {
					scripts = append(scripts, fmt.Sprintf("%d:%d:%d", i, faultLost, k))
				}
			}
		}
		parallel(len(scripts), func(i int) {
			got, _, bad := s.run(md, scratch(), nil, scripts[i])
			judge(s, describe(scripts[i], cs), ref, got, bad)
		})
		// the places of the outputs are taken or out of reach
		stands := []struct {
			Name string
			Do   func(root, out string)
		}{
			{"a directory in its place", func(root, out string) { must(os.MkdirAll(filepath.Join(root, out), 0o755)) }},
			{"a dangling link in its place", func(root, out string) { must(os.Symlink("/nonexistent/x", filepath.Join(root, out))) }},
			{"a link to itself in its place", func(root, out string) { must(os.Symlink(filepath.Base(out), filepath.Join(root, out))) }},
		}
		for _, o := range s.outputs() {
			for _, st := range stands {
				root := scratch()
				s.Tree.write(root)
				must(os.MkdirAll(filepath.Dir(filepath.Join(root, o)), 0o755))
				st.Do(root, o)
				_, bad := s.start(w.Driver, root)
				os.Remove(filepath.Join(root, o))
				got := readTree(root)
				os.RemoveAll(root)
				if bad == "" {
					got[o] = "" // nothing can have been written
				}
				judge(s, st.Name+": "+o, ref, got, bad)
			}
		}
		res.Samples = append(res.Samples, describe(scripts[0], cs), describe(scripts[len(scripts)/2], cs), describe(scripts[len(scripts)-1], cs))
		res.Entries++
	}
	res.Extra["outcomes"] = stats
}

// runG06: a run depends on nothing but the sources, whatever earlier runs left.
func runG06(w *Work, spec propSpec, res *Result) {
	md := w.mapDriver()
	var mu sync.Mutex
	seq := 0
	scratch := func() string {
		mu.Lock()
		defer mu.Unlock()
		seq++
		return filepath.Join(w.Dir, "run", fmt.Sprint(seq))
	}
	stats := map[string]int{}
	all := scenes(*fTier)
	if s, ok := w.programScene(); ok {
		all = append(all, s)
	}
	for _, s := range all {
		if *fOnly != "" && *fOnly != s.ID {
			continue
		}
		s := s
		ref, text, bad := s.run(md, scratch(), nil, "")
		if bad != "" {
			res.report(w, s.ID, "", "refused", s.ID, "refused", bad)
			continue
		}
		isOut := map[string]bool{}
		outs := s.outputs()
		for _, o := range outs {
			isOut[o] = true
		}
		again := func(what string, over tree) {
			got, _, bad := s.run(w.Driver, scratch(), over, "")
			mu.Lock()
			defer mu.Unlock()
			res.Evaluations++
			res.Distinct++
			if bad != "" {
				res.report(w, s.ID, "", "leftover", s.ID+": "+what, "refused", bad)
				return
			}
			if d := ref.differs(got); d != "" {
				res.report(w, s.ID, "", "leftover", s.ID+": "+what, "differs", d)
			}
		}
		// every state in which a run can have been broken off
		cs := calls(text)
		scripts := faultScripts(cs, thin(s), *fTier == "thorough", true)
		parallel(len(scripts), func(i int) {
			left, _, bad := s.run(md, scratch(), nil, scripts[i])
			what := describe(scripts[i], cs)
			over := tree{}
			mu.Lock()
			stats["crash points"]++
			if bad == "" {
				mu.Unlock()
				return // the end came after everything was done
			}
			for p, t := range s.Tree {
				if left[p] != t {
					res.report(w, s.ID, "", "input", s.ID+": "+what, "input "+p, "the source "+p+" was changed")
				}
			}
			for p, t := range left {
				if _, src := s.Tree[p]; src {
					continue
				}
				if !isOut[p] && p != s.Out {
					stats["other files left"]++
				}
				over[p] = t
			}
			mu.Unlock()
			s2 := s
			got, _, bad2 := s2.run(w.Driver, scratch(), over, "")
			mu.Lock()
			defer mu.Unlock()
			res.Evaluations++
			res.Distinct++
			if bad2 != "" {
				res.report(w, s.ID, "", "recovery", s.ID+": "+what, "refused", "a run after an interrupted one: "+bad2)
				return
			}
			for _, o := range outs {
				if got[o] != ref[o] {
					res.report(w, s.ID, "", "recovery", s.ID+": "+what, "differs", "a run after an interrupted one: "+diff(ref[o], got[o]))
					return
				}
			}
		})
		// what else may be found in the place of the outputs
		var lefts []struct {
			what string
			over tree
		}
		add := func(what string, over tree) {
			lefts = append(lefts, struct {
				what string
				over tree
			}{what, over})
		}
		add("the same outputs", tree{outs[0]: ref[outs[0]], outs[1]: ref[outs[1]]})
		for _, o := range outs {
			t := ref[o]
			step := len(t)/60 + 1
			if *fTier == "thorough" {
				step = len(t)/400 + 1
			}
			for n := 0; n < len(t); n += step {
				add(fmt.Sprintf("%s cut at %d", o, n), tree{o: t[:n]})
			}
			add(o+" longer", tree{o: t + strings.Repeat("// more\n", 4000)})
			add(o+" garbage", tree{o: strings.Repeat("\x00\xff garbage }{", 900)})
			add(o+" longer garbage", tree{o: strings.Repeat("\x00\xff garbage }{", 90000)})
			add(o+" of the same size, empty", tree{o: strings.Repeat("\x00", len(t))})
			add(o+" of the same size, blank", tree{o: strings.Repeat(" ", len(t)-1) + "\n"})
			add(o+" of the same size, of another package", tree{o: ("package other\n\ntype X int\n" + strings.Repeat("// more and more and more\n", len(t)/26+1))[:len(t)]})
			add(o+" of the same size, names exchanged", tree{o: strings.NewReplacer("json", "nosj", "err", "rre", "return", "nruter", "case", "esac").Replace(t)})
			for _, n := range []int{0, 60, len(t) / 3, len(t) / 2, len(t) - 200, len(t) - 2} {
				if n >= 0 && n < len(t) {
					add(fmt.Sprintf("%s changed at %d", o, n), tree{o: t[:n] + string(t[n]^1) + t[n+1:]})
				}
			}
			if i := strings.Index(t, "\n\n"); i > 0 {
				add(o+" beginning alike", tree{o: t[:i] + strings.Repeat("\n\n// something else", 3) + "\n"})
			}
			add(o+" of another package", tree{o: "package other\n\ntype X int\n"})
			add(o+" with conflicting declarations", tree{o: t + "\n\ntype Rec string\n\ntype Str struct{}\n\ntype T struct{}\n"})
		}
		parallel(len(lefts), func(i int) { again(lefts[i].what, lefts[i].over) })
		// what may be found in the place of the outputs of the other package
		if s.Ext != "" {
			e := s
			e.In, e.Out = s.Ext, strings.TrimSuffix(s.Ext, ".go")+"_json.go"
			got, text, bad := e.run(md, scratch(), nil, "")
			if bad != "" {
				res.report(w, s.ID, "", "refused", s.ID+": "+s.Ext, "refused", bad)
				continue
			}
			var others []tree
			var names []string
			for _, o := range e.outputs() {
				step := len(got[o])/30 + 1
				if *fTier == "thorough" {
					step = len(got[o])/400 + 1
				}
				for n := 0; n < len(got[o]); n += step {
					others, names = append(others, tree{o: got[o][:n]}), append(names, fmt.Sprintf("%s cut at %d", o, n))
				}
				others, names = append(others, tree{o: "\x00\xff garbage }{"}), append(names, o+" garbage")
			}
			ecs := calls(text)
			for _, sc := range faultScripts(ecs, true, false, true) {
				left, _, _ := e.run(md, scratch(), nil, sc)
				over := tree{}
				for _, o := range e.outputs() {
					if t, ok := left[o]; ok {
						over[o] = t
					}
				}
				others, names = append(others, over), append(names, "generation of the other package, "+describe(sc, ecs))
			}
			parallel(len(others), func(i int) {
				got, _, bad := s.run(w.Driver, scratch(), others[i], "")
				mu.Lock()
				defer mu.Unlock()
				res.Evaluations++
				res.Distinct++
				stats["other package broken off"]++
				if bad != "" {
					res.report(w, s.ID, "", "leftover", s.ID+": "+names[i], "refused", bad)
					return
				}
				for _, o := range outs {
					if got[o] != ref[o] {
						res.report(w, s.ID, "", "leftover", s.ID+": "+names[i], "differs", diff(ref[o], got[o]))
						return
					}
				}
			})
		}
		res.Entries++
		res.Samples = append(res.Samples, s.ID+": "+describe(scripts[0], cs), s.ID+": "+describe(scripts[len(scripts)-1], cs))
	}
	res.Extra["outcomes"] = stats
}
