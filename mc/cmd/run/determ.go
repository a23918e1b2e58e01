package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verifmc/corpus"
)

const mapsVerif = `package maps

var verifActive bool
var verifN int
var verifUsed [1 << 16]uint32
var verifAt [4]int
var verifOff [4]uint64
var verifAll uint64

// verifOffsets tells where an iteration over a map begins.
func verifOffsets(used uint64) (uint64, uint64) {
	if !verifActive || used < 2 {
		return 0, 0
	}
	i := verifN
	verifN++
	if i < len(verifUsed) {
		verifUsed[i] = uint32(used)
	}
	off := verifAll
	for k := range verifAt {
		if verifAt[k] == i {
			off = verifOff[k]
		}
	}
	return off, 0
}
`

// syscallVerif stands between the generator and the files.
const syscallVerif = `package syscall

var verifOn bool
var verifAt int
var verifMode int
var verifKeep int
var verifN int
var verifFull bool
var verifLog [1 << 18]byte
var verifLen [1 << 18]int32

const (
	verifErr    = 1 // the call fails once
	verifTorn   = 2 // a part is written, then nothing more
	verifLost   = 3 // closing fails and the contents past a point are lost
	verifCrash  = 4 // the process ends before the call
	verifTornCr = 5 // a part is written, then the process ends
	verifAfter  = 6 // the process ends after the call
)

func verifHit(kind byte, n int) bool {
	i := verifN
	verifN++
	if i < len(verifLog) {
		verifLog[i], verifLen[i] = kind, int32(n)
	}
	if i != verifAt {
		return false
	}
	if verifMode == verifCrash {
		verifExit()
	}
	return true
}

func verifExit() { RawSyscall(SYS_EXIT_GROUP, 137, 0, 0) }

func verifDone(hit bool) {
	if hit && verifMode == verifAfter {
		verifExit()
	}
}

func write(fd int, p []byte) (n int, err error) {
	if !verifOn || fd <= 2 {
		return verifWrite0(fd, p)
	}
	if verifFull {
		return -1, ENOSPC
	}
	hit := verifHit('w', len(p))
	if hit {
		switch verifMode {
		case verifErr:
			return -1, EIO
		case verifTorn, verifTornCr:
			if verifKeep > 0 {
				n, err = verifWrite0(fd, p[:verifKeep])
			}
			if verifMode == verifTornCr {
				verifExit()
			}
			verifFull = true
			if n <= 0 {
				return -1, ENOSPC
			}
			return n, err
		}
	}
	n, err = verifWrite0(fd, p)
	verifDone(hit)
	return
}

func Close(fd int) (err error) {
	if !verifOn || fd <= 2 {
		return verifClose0(fd)
	}
	hit := verifHit('c', fd)
	if hit && verifMode == verifLost {
		Ftruncate(fd, int64(verifKeep))
		verifClose0(fd)
		return EIO
	}
	err = verifClose0(fd)
	verifDone(hit)
	if hit && verifMode == verifErr {
		return EIO
	}
	return
}

func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if !verifOn {
		return verifOpenat0(dirfd, path, flags, mode)
	}
	kind := byte('o')
	if flags&(O_CREAT|O_TRUNC|O_WRONLY|O_RDWR) != 0 {
		kind = 'O'
	}
	hit := verifHit(kind, 0)
	if hit && verifMode == verifErr {
		return -1, EACCES
	}
	fd, err = verifOpenat0(dirfd, path, flags, mode)
	verifDone(hit)
	return
}

func read(fd int, p []byte) (n int, err error) {
	if !verifOn || fd <= 2 {
		return verifRead0(fd, p)
	}
	hit := verifHit('r', 0)
	if hit && verifMode == verifErr {
		return -1, EIO
	}
	n, err = verifRead0(fd, p)
	verifDone(hit)
	return
}

func Getdents(fd int, buf []byte) (n int, err error) {
	if !verifOn {
		return verifGetdents0(fd, buf)
	}
	hit := verifHit('d', 0)
	if hit && verifMode == verifErr {
		return -1, EIO
	}
	n, err = verifGetdents0(fd, buf)
	verifDone(hit)
	return
}

func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {
	if !verifOn {
		return verifRenameat0(olddirfd, oldpath, newdirfd, newpath)
	}
	hit := verifHit('m', 0)
	if hit && verifMode == verifErr {
		return EIO
	}
	err = verifRenameat0(olddirfd, oldpath, newdirfd, newpath)
	verifDone(hit)
	return
}

func unlinkat(dirfd int, path string, flags int) (err error) {
	if !verifOn {
		return verifUnlinkat0(dirfd, path, flags)
	}
	hit := verifHit('u', 0)
	if hit && verifMode == verifErr {
		return EACCES
	}
	err = verifUnlinkat0(dirfd, path, flags)
	verifDone(hit)
	return
}
`

// overlay writes the changed runtime and returns what replaces what.
func (w *Work) overlay() map[string]string {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	root := strings.TrimSpace(string(b))
	dir := filepath.Join(w.Dir, "runtime")
	must(os.MkdirAll(dir, 0o755))
	replace := map[string]string{}
	patch := func(file string, pairs ...string) {
		from := filepath.Join(root, "src", file)
		b, err := os.ReadFile(from)
		must(err)
		for i := 0; i < len(pairs); i += 2 {
			if !bytes.Contains(b, []byte(pairs[i])) {
				fatal("the Go runtime is not the expected one: no %q in %s", pairs[i], file)
			}
			b = bytes.ReplaceAll(b, []byte(pairs[i]), []byte(pairs[i+1]))
		}
		to := filepath.Join(dir, strings.ReplaceAll(file, "/", "_"))
		must(os.WriteFile(to, b, 0o644))
		replace[from] = to
	}
	patch("internal/runtime/maps/table.go", "it.entryOffset = rand()", "it.entryOffset, it.dirOffset = verifOffsets(m.used)", "\tit.dirOffset = rand()\n", "")
	patch("internal/runtime/maps/map.go", "uintptr(rand())", "uintptr(1)")
	patch("runtime/alg.go", "uintptr(bootstrapRand())", "uintptr(0x9e3779b97f4a7c15*uint64(i+1)|1)", "= bootstrapRand()", "= 0x9e3779b97f4a7c15*uint64(i+1)|1")
	patch("syscall/zsyscall_linux_amd64.go", "func write(", "func verifWrite0(", "func Close(", "func verifClose0(", "func openat(", "func verifOpenat0(", "func read(", "func verifRead0(",
		"func Getdents(", "func verifGetdents0(", "func Renameat(", "func verifRenameat0(", "func unlinkat(", "func verifUnlinkat0(")
	must(os.WriteFile(filepath.Join(dir, "sverif.go"), []byte(syscallVerif), 0o644))
	replace[filepath.Join(root, "src/syscall/verif_linux_amd64.go")] = filepath.Join(dir, "sverif.go")
	must(os.WriteFile(filepath.Join(dir, "verif.go"), []byte(mapsVerif), 0o644))
	replace[filepath.Join(root, "src/internal/runtime/maps/verif.go")] = filepath.Join(dir, "verif.go")
	return replace
}

// buildOverlay builds the program in dir with the changed runtime.
func (w *Work) buildOverlay(replace map[string]string, dir, name, flags string) string {
	b, err := json.Marshal(map[string]any{"Replace": replace})
	must(err)
	ovf := filepath.Join(w.Dir, "runtime", name+".json")
	must(os.WriteFile(ovf, b, 0o644))
	bin := filepath.Join(w.Dir, name+".bin")
	cmd := exec.Command("go", "build", "-tags", "verifmap", "-overlay", ovf, "-ldflags=-checklinkname=0", "-o", bin, ".")
	cmd.Dir = dir
	cmd.Env = goEnv("GOFLAGS=" + flags)
	if out, err := cmd.CombinedOutput(); err != nil {
		fatal("%s does not build with the changed runtime: %v\n%s", name, err, out)
	}
	return bin
}

// mapDriver builds the driver with a runtime in which the iteration order of
// maps is chosen from outside and nothing else is random.
func (w *Work) mapDriver() string {
	return w.buildOverlay(w.overlay(), filepath.Join(w.Dir, "driver"), "mapdriver", "-mod=readonly")
}

// mapProgram builds the program itself, main.go, in the same way.
func (w *Work) mapProgram() string {
	replace := w.overlay()
	files, err := filepath.Glob(filepath.Join(w.Repo, "*.go"))
	must(err)
	found := false
	for _, f := range files {
		b, err := os.ReadFile(f)
		must(err)
		if strings.HasSuffix(f, "_test.go") || !bytes.Contains(b, []byte("\nfunc main()")) {
			continue
		}
		found = true
		to := filepath.Join(w.Dir, "runtime", "program_"+filepath.Base(f))
		must(os.WriteFile(to, bytes.Replace(b, []byte("\nfunc main()"), []byte("\nfunc verifMain()"), 1), 0o644))
		replace[f] = to
	}
	if !found {
		return ""
	}
	glue := filepath.Join(w.Dir, "runtime", "program_glue.go")
	must(os.WriteFile(glue, []byte("package main\n\nvar begin, end = func() {}, func() {}\n\nfunc main() {\n\tbegin()\n\tdefer end()\n\tverifMain()\n}\n"), 0o644))
	replace[filepath.Join(w.Repo, "zz_verif_glue.go")] = glue
	replace[filepath.Join(w.Repo, "zz_verif_ctl.go")] = filepath.Join(w.Dir, "driver", "mapctl.go")
	return w.buildOverlay(replace, w.Repo, "program", "-mod=readonly")
}

// input is one file to generate code for.
type input struct {
	ID   string
	Root string // of the module
	File string // below Root
}

// inputs writes the trees G03 and others work on.
func (w *Work) inputs() []input {
	var ins []input
	// the feature packages
	w.Materialise(corpus.Packages("ext", "feat"))
	for _, p := range w.Pkgs {
		for _, g := range p.Gen {
			ins = append(ins, input{p.Path + "/" + g, w.mod(), p.Path + "/" + g})
		}
	}
	pairs := corpus.Packages("pair")
	w.Materialise(pairs[:2])
	for _, p := range pairs[:2] {
		ins = append(ins, input{p.Path, w.mod(), p.Path + "/" + p.Gen[0]})
	}
	// types of another package, among decoys
	for _, l := range layouts("quick") {
		p := strings.Split(l.ID, "+")
		dev := 0
		for i, plain := range []string{"sibling", "plain", "onefile", "none"} {
			if p[i] != plain {
				dev++
			}
		}
		if dev == 0 || dev == 1 && p[4] != "types" && p[0] == "sibling" || *fTier == "thorough" && dev == 2 && p[0] == "sibling" && p[1] == "plain" {
			root := filepath.Join(w.Dir, "lay", l.ID)
			l.tree().write(root)
			ins = append(ins, input{l.ID, root, join(l.User, "usr.go")})
		}
	}
	// the sources that come with the repository
	repo := filepath.Join(w.Dir, "repo")
	for _, pat := range []string{"go.mod", "main.go", "benchmark/*.go", "benchmark/go.mod", "test/vjson/*.go", "test/vjson/go.mod", "test/tests/fill/*/*.go", "test/tests/fill/*.go", "test/tests/fill/go.mod", "test/ejson/*.go", "test/race/*.go"} {
		fs, _ := filepath.Glob(filepath.Join(w.Repo, pat))
		for _, f := range fs {
			rel, _ := filepath.Rel(w.Repo, f)
			b, err := os.ReadFile(f)
			must(err)
			tree{rel: string(b)}.write(repo)
			n := filepath.Base(f)
			if strings.HasPrefix(rel, "test/tests/fill/") && strings.HasSuffix(n, ".go") && !strings.Contains(n, "_test") && !strings.Contains(n, ".out.") && !strings.Contains(n, "utils") && bytes.Contains(b, []byte("json:")) || rel == "benchmark/data.go" || rel == "test/vjson/types.go" {
				ins = append(ins, input{"repo/" + rel, repo, rel})
			}
		}
	}
	return ins
}

// produce runs the generator once and gives everything it wrote, or the
// refusal.
func produce(driver, cwd, in, out string, env ...string) (tree, string) {
	must(os.MkdirAll(out, 0o755))
	defer os.RemoveAll(out)
	text, bad := generate(driver, cwd, env, in+":"+filepath.Join(out, "x_json.go"))
	points := ""
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "POINTS") {
			points = strings.TrimPrefix(l, "POINTS")
		}
	}
	t := readTree(out)
	if bad != "" {
		t = tree{"refused": "refused"}
	}
	return t, points
}

func (t tree) equal(u tree) bool { return len(t.changed(u)) == 0 && len(u.changed(t)) == 0 }

func (t tree) differs(u tree) string {
	var ps []string
	for p := range t.changed(u) {
		ps = append(ps, p)
	}
	for p := range u.changed(t) {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	if len(ps) == 0 {
		return ""
	}
	return ps[0] + ": " + diff(t[ps[0]], u[ps[0]])
}

// runG03: the output is a function of the sources.
func runG03(w *Work, spec propSpec, res *Result) {
	md := w.mapDriver()
	ins := w.inputs()
	var mu sync.Mutex
	seq := 0
	scratch := func() string {
		mu.Lock()
		defer mu.Unlock()
		seq++
		return filepath.Join(w.Dir, "out", fmt.Sprint(seq))
	}
	stats := map[string]int{}
	base := make([]tree, len(ins))
	depth := 2
	if *fTier == "thorough" {
		depth = 3
	}
	limit := 400
	if *fTier == "thorough" {
		limit = 1500
	}
	parallel(len(ins), func(i int) {
		in := ins[i]
		if *fOnly != "" && *fOnly != in.ID {
			return
		}
		f := filepath.Join(in.Root, in.File)
		var points string
		base[i], points = produce(md, in.Root, f, scratch(), "VERIF_MAP=")
		n := 0
		run := func(script string, order int) []int {
			got, pts := produce(md, in.Root, f, scratch(), "VERIF_MAP="+script)
			us := ints(pts)
			mu.Lock()
			defer mu.Unlock()
			n++
			res.States++
			res.Traces++
			res.Evaluations++
			res.Transitions += len(us)
			stats["choice points"] += len(us)
			stats[fmt.Sprintf("executions with %d deviations", order)]++
			if d := base[i].differs(got); d != "" {
				res.report(w, in.ID, "", "order", in.ID+" "+script, "differs", d)
			}
			return us
		}
		// repeated without any deviation
		us := run("", 0)
		for r := 1; r < 8; r++ {
			run(fmt.Sprintf("all=%d", r), 0)
		}
		_ = points
		var walk func(script string, from, order int, us []int)
		walk = func(script string, from, order int, us []int) {
			for p := from; p < len(us); p++ {
				alt := us[p]
				if alt > 8 {
					alt = 16
				}
				for o := 1; o < alt; o++ {
					if n >= limit {
						mu.Lock()
						stats["inputs cut at the limit"]++
						mu.Unlock()
						return
					}
					s := strings.TrimPrefix(script+","+fmt.Sprintf("%d=%d", p, o), ",")
					next := run(s, order)
					if order < depth {
						walk(s, p+1, order+1, next)
					}
				}
			}
		}
		walk("", 0, 1, us)
	})
	// the surroundings
	type surrounding struct {
		Name string
		Run  func(in input, f string) tree
	}
	abs := func(env ...string) func(in input, f string) tree {
		return func(in input, f string) tree {
			t, _ := produce(w.Driver, in.Root, f, scratch(), env...)
			return t
		}
	}
	from := func(cwd func(in input, f string) string, name func(in input, f string) string) func(in input, f string) tree {
		return func(in input, f string) tree {
			t, _ := produce(w.Driver, cwd(in, f), name(in, f), scratch())
			return t
		}
	}
	root := func(in input, f string) string { return in.Root }
	dir := func(in input, f string) string { return filepath.Dir(f) }
	links := filepath.Join(w.Dir, "links")
	must(os.MkdirAll(links, 0o755))
	surroundings := []surrounding{
		{"another process", abs()}, {"one processor", abs("GOMAXPROCS=1")}, {"no home", abs("HOME=", "GOPATH=", "GOROOT=", "GOFLAGS=", "PATH=")}, {"time zone", abs("TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8")}, {"other platform", abs("GODEBUG=randautoseed=0")},
		{"relative to the module", from(root, func(in input, f string) string { return in.File })},
		{"relative with a dot", from(root, func(in input, f string) string { return "./" + in.File })},
		{"relative to the directory", from(dir, func(in input, f string) string { return filepath.Base(f) })},
		{"relative with a dot to the directory", from(dir, func(in input, f string) string { return "./" + filepath.Base(f) })},
		{"relative upwards", from(dir, func(in input, f string) string {
			return "../" + filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
		})},
		{"from elsewhere", from(func(input, string) string { return "/" }, func(in input, f string) string { return f })},
		{"unclean", from(root, func(in input, f string) string { return filepath.Dir(f) + "//./" + filepath.Base(f) })},
		{"through a link", from(root, func(in input, f string) string {
			mu.Lock()
			defer mu.Unlock()
			l := filepath.Join(links, strings.ReplaceAll(in.ID, "/", "_"))
			if _, err := os.Lstat(l); err != nil {
				must(os.Symlink(in.Root, l))
			}
			return filepath.Join(l, in.File)
		})},
	}
	parallel(len(ins)*len(surroundings), func(k int) {
		in, s := ins[k/len(surroundings)], surroundings[k%len(surroundings)]
		if *fOnly != "" && *fOnly != in.ID {
			return
		}
		got := s.Run(in, filepath.Join(in.Root, in.File))
		mu.Lock()
		defer mu.Unlock()
		res.States++
		res.Traces++
		res.Transitions++
		stats["executions in other surroundings"]++
		if d := base[k/len(surroundings)].differs(got); d != "" {
			res.report(w, in.ID, "", "surroundings", in.ID+" "+s.Name, "differs", d)
		}
	})
	// earlier runs in the same process: every ordered pair
	var first []int
	for j, in := range ins {
		if !strings.HasPrefix(in.ID, "repo/test/tests/fill") && (*fTier == "thorough" || !strings.HasSuffix(in.ID, "+nested") && !strings.HasSuffix(in.ID, "+chain") && !strings.HasSuffix(in.ID, "+foreign") && !strings.HasSuffix(in.ID, "+solo")) {
			first = append(first, j)
		}
	}
	if *fOnly == "" {
		parallel(len(first), func(x int) {
			a := ins[first[x]]
			for _, j := range first {
				b := ins[j]
				o := scratch()
				must(os.MkdirAll(o+"/a", 0o755))
				must(os.MkdirAll(o+"/b", 0o755))
				text, _ := generate(w.Driver, a.Root, nil, filepath.Join(a.Root, a.File)+":"+o+"/a/x_json.go", filepath.Join(b.Root, b.File)+":"+o+"/b/x_json.go")
				got := readTree(o + "/b")
				if !strings.Contains(text, "OK "+o+"/b/") {
					got = tree{"refused": "refused"}
				}
				os.RemoveAll(o)
				mu.Lock()
				res.States++
				res.Traces++
				res.Transitions += 2
				stats["pairs of runs in one process"]++
				if d := base[j].differs(got); d != "" {
					res.report(w, b.ID, "", "history", a.ID+" before "+b.ID, "differs", d)
				}
				mu.Unlock()
			}
		})
	}
	res.Entries = len(ins)
	res.Extra["explored"] = stats
	for _, in := range ins {
		res.Samples = append(res.Samples, in.ID)
	}
}

func ints(s string) []int {
	var out []int
	for _, f := range strings.Fields(s) {
		n, _ := strconv.Atoi(f)
		out = append(out, n)
	}
	return out
}
