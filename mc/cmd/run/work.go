package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"

	"verifmc/corpus"
)

// Work is a scratch directory with the generator built from the tree under
// test and the corpus module.
type Work struct {
	Dir    string
	Verif  string
	Repo   string
	Driver string
	Pkgs   []corpus.Package

	GenFailed map[string]string // package/shape -> why the generator refused
	NoCompile map[string]string // package/shape -> compiler output
	Dropped   map[string]bool   // packages left out

	Assert bool // compile against the methods promised

	known map[string]string // declaration and hash -> finding

	sources map[string]string // package/shape -> its declarations
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	cleanup()
	os.Exit(2)
}

var cleanup = func() {}

func goEnv(extra ...string) []string {
	env := os.Environ()
	env = append(env, "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GO111MODULE=on")
	return append(env, extra...)
}

// NewWork builds the driver.
func NewWork(verif, repo string) *Work {
	dir, err := os.MkdirTemp("", "vjmc")
	if err != nil {
		fatal("%v", err)
	}
	w := &Work{Dir: dir, Verif: verif, Repo: repo, GenFailed: map[string]string{}, NoCompile: map[string]string{}, Dropped: map[string]bool{}, sources: map[string]string{}}
	cleanup = func() { os.RemoveAll(dir) }
	w.Driver = filepath.Join(dir, "driver.bin")
	src := filepath.Join(dir, "driver")
	must(os.MkdirAll(src, 0o755))
	for _, f := range []string{"main.go", "mapctl.go", "go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(verif, "mc", "driver", f))
		must(err)
		if f == "go.mod" {
			b = bytes.ReplaceAll(b, []byte("=> /repo"), []byte("=> "+repo))
		}
		must(os.WriteFile(filepath.Join(src, f), b, 0o644))
	}
	cmd := exec.Command("go", "build", "-o", w.Driver, ".")
	cmd.Dir = src
	cmd.Env = goEnv("GOFLAGS=-mod=readonly")
	if out, err := cmd.CombinedOutput(); err != nil {
		fatal("the generator does not build: %v\n%s", err, out)
	}
	return w
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

// reset forgets the packages but for ext.
func (w *Work) reset() {
	var keep []corpus.Package
	for _, p := range w.Pkgs {
		if p.Set == "ext" {
			keep = append(keep, p)
		}
	}
	w.Pkgs = keep
}

func (w *Work) mod() string { return filepath.Join(w.Dir, "corpus") }

// Materialise writes the sources of the corpus module.
func (w *Work) Materialise(pkgs []corpus.Package) {
	mod := w.mod()
	for _, f := range []string{"mod", "sum"} {
		b, err := os.ReadFile(filepath.Join(w.Verif, "mc", "corpus", "scratch."+f))
		must(err)
		must(os.MkdirAll(mod, 0o755))
		must(os.WriteFile(filepath.Join(mod, "go."+f), b, 0o644))
	}
	hdir := filepath.Join(w.Verif, "mc", "harness", "h")
	ents, err := os.ReadDir(hdir)
	must(err)
	must(os.MkdirAll(filepath.Join(mod, "h"), 0o755))
	for _, e := range ents {
		b, err := os.ReadFile(filepath.Join(hdir, e.Name()))
		must(err)
		must(os.WriteFile(filepath.Join(mod, "h", e.Name()), b, 0o644))
	}
	for _, p := range pkgs {
		w.writePackage(p)
		for _, f := range p.Files {
			w.sources[p.Path] += f
		}
		for _, s := range p.Shapes {
			w.sources[s.ID] = s.Decl
		}
	}
	w.Pkgs = append(w.Pkgs, pkgs...)
}

func (w *Work) writePackage(p corpus.Package) {
	d := filepath.Join(w.mod(), p.Path)
	must(os.MkdirAll(d, 0o755))
	for n, src := range p.Files {
		must(os.WriteFile(filepath.Join(d, n), []byte(src), 0o644))
	}
}

// Generate runs the generator over the packages, in parallel, and puts its
// output beside the sources.  The output is written to another tree first:
// the generator reads the whole module and must not meet files being written.
func (w *Work) Generate(pkgs []corpus.Package) (failed map[string]string) {
	failed = map[string]string{}
	var mu sync.Mutex
	type done struct{ from, to string }
	var copies []done
	parallel(len(pkgs), func(i int) {
		p := pkgs[i]
		out := filepath.Join(w.Dir, "gen", p.Path)
		must(os.MkdirAll(out, 0o755))
		var args []string
		for _, g := range p.Gen {
			o := strings.TrimSuffix(g, ".go") + "_json.go"
			args = append(args, filepath.Join(w.mod(), p.Path, g)+":"+filepath.Join(out, o))
		}
		text, err := exec.Command(w.Driver, args...).CombinedOutput()
		why := ""
		if err != nil {
			why = "the generator ended with " + err.Error() + ": " + tail(string(text))
		}
		for _, l := range strings.Split(string(text), "\n") {
			if strings.HasPrefix(l, "PANIC ") || strings.HasPrefix(l, "ERROR ") {
				why = l
			}
		}
		mu.Lock()
		defer mu.Unlock()
		if why != "" {
			failed[p.Path] = why
			return
		}
		ents, _ := os.ReadDir(out)
		for _, e := range ents {
			if e.IsDir() {
				continue // a package below this one
			}
			copies = append(copies, done{filepath.Join(out, e.Name()), filepath.Join(w.mod(), p.Path, e.Name())})
		}
	})
	for _, c := range copies {
		b, err := os.ReadFile(c.from)
		must(err)
		must(os.WriteFile(c.to, b, 0o644))
	}
	return failed
}

func tail(s string) string {
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			f(i)
		}(i)
	}
	wg.Wait()
}

var hashRe = regexp.MustCompile(`(?m)^# (corpus/\S+)`)

// compile builds the named packages and returns the output for each that
// does not compile.
func (w *Work) compile(paths []string) map[string]string {
	args := []string{"build"}
	for _, p := range paths {
		args = append(args, "./"+p)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = w.mod()
	cmd.Env = goEnv("GOFLAGS=-mod=mod")
	out, err := cmd.CombinedOutput()
	bad := map[string]string{}
	if err == nil {
		return bad
	}
	text := string(out)
	locs := hashRe.FindAllStringSubmatchIndex(text, -1)
	for i, l := range locs {
		end := len(text)
		if i+1 < len(locs) {
			end = locs[i+1][0]
		}
		bad[strings.TrimPrefix(text[l[2]:l[3]], "corpus/")] = text[l[0]:end]
	}
	if len(bad) == 0 {
		// an error before compilation: syntax errors name files
		fileRe := regexp.MustCompile(`(?m)^\S*?((?:[A-Za-z0-9_]+/)+)[A-Za-z0-9_]+\.go:\d+`)
		for _, m := range fileRe.FindAllStringSubmatch(text, -1) {
			bad[strings.Trim(m[1], "/")] = text
		}
	}
	if len(bad) == 0 {
		fatal("go build: %v\n%s", err, text)
	}
	return bad
}

// Prepare generates and compiles the packages.  A package of shapes with a
// failing shape is taken apart; what fails is recorded and left out.
func (w *Work) Prepare() {
	genFail := w.Generate(w.Pkgs)
	var ok []corpus.Package
	var broken []corpus.Package
	for _, p := range w.Pkgs {
		if why, bad := genFail[p.Path]; bad {
			if len(p.Shapes) > 1 {
				broken = append(broken, p)
			} else {
				w.GenFailed[p.Path] = why
				w.remove(p)
			}
			continue
		}
		ok = append(ok, p)
	}
	ok, bad := w.compileAll(ok)
	for _, p := range bad {
		if len(p.Shapes) > 1 {
			delete(w.NoCompile, p.Path)
			broken = append(broken, p)
		}
	}
	// one package per shape for those that failed
	var split []corpus.Package
	for _, p := range broken {
		w.remove(p)
		for _, s := range p.Shapes {
			q := corpus.ShapePackage(p.Set, "x"+strings.ToLower(p.Set)+"_"+s.ID, []corpus.Shape{s})
			split = append(split, q)
			w.writePackage(q)
		}
	}
	if len(split) > 0 {
		f := w.Generate(split)
		var ok2 []corpus.Package
		for _, p := range split {
			if why, bad := f[p.Path]; bad {
				w.GenFailed[p.Shapes[0].ID] = why
				w.remove(p)
			} else {
				ok2 = append(ok2, p)
			}
		}
		ok2, bad2 := w.compileAll(ok2)
		for _, p := range bad2 {
			w.NoCompile[p.Shapes[0].ID] = w.NoCompile[p.Path]
			delete(w.NoCompile, p.Path)
		}
		ok = append(ok, ok2...)
	}
	sort.Slice(ok, func(i, j int) bool { return ok[i].Path < ok[j].Path })
	w.Pkgs = ok
}

func (w *Work) remove(p corpus.Package) {
	ents, _ := os.ReadDir(filepath.Join(w.mod(), p.Path))
	for _, e := range ents {
		if !e.IsDir() {
			os.Remove(filepath.Join(w.mod(), p.Path, e.Name()))
		}
	}
	w.Dropped[p.Path] = true
}

func (w *Work) compileAll(pkgs []corpus.Package) (ok, bad []corpus.Package) {
	ok = pkgs
	for round := 0; round < 6 && len(ok) > 0; round++ {
		// the registration is compiled too, so that a missing method or type shows
		var paths []string
		for _, p := range ok {
			must(os.WriteFile(filepath.Join(w.mod(), p.Path, "reg_verif.go"), []byte(p.Registration()), 0o644))
			if w.Assert {
				must(os.WriteFile(filepath.Join(w.mod(), p.Path, "asserts_verif.go"), []byte(p.Assertions()), 0o644))
			}
			paths = append(paths, p.Path)
		}
		fails := w.compile(paths)
		if len(fails) == 0 {
			return ok, bad
		}
		var keep []corpus.Package
		for _, p := range ok {
			out, failed := fails[p.Path]
			for dep := range fails {
				for _, src := range p.Files {
					if strings.Contains(src, `"corpus/`+dep+`"`) {
						failed = true
						if out == "" {
							out = "imports corpus/" + dep
						}
					}
				}
			}
			if failed {
				w.NoCompile[p.Path] = out
				bad = append(bad, p)
				w.remove(p)
			} else {
				keep = append(keep, p)
			}
		}
		if len(keep) == len(ok) {
			fatal("packages outside the corpus do not compile: %v", fails)
		}
		ok = keep
	}
	return ok, bad
}

// Link builds the explorer binary.
func (w *Work) Link() string {
	var b strings.Builder
	b.WriteString("package main\n\nimport (\n\t\"corpus/h\"\n")
	for _, p := range w.Pkgs {
		fmt.Fprintf(&b, "\t_ \"corpus/%s\"\n", p.Path)
	}
	b.WriteString(")\n\nfunc main() { h.Main() }\n")
	d := filepath.Join(w.mod(), "cmdx")
	must(os.MkdirAll(d, 0o755))
	must(os.WriteFile(filepath.Join(d, "main.go"), []byte(b.String()), 0o644))
	bin := filepath.Join(w.Dir, "explore.bin")
	cmd := exec.Command("go", "build", "-o", bin, "./cmdx")
	cmd.Dir = w.mod()
	cmd.Env = goEnv("GOFLAGS=-mod=mod")
	if out, err := cmd.CombinedOutput(); err != nil {
		fatal("go build: %v\n%s", err, out)
	}
	return bin
}
