package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verifmc/corpus"
)

// outcome of handing one declaration to the generator.
type outcome struct {
	Kind    string // refused, nocompile, ok
	Msg     string
	Missing []string // methods a directive promises and the output lacks
	Extra   []string // methods a directive excludes
}

// exports locates the compiled form of what generated code may import.
type exports map[string]string

const probe = `package probe

import (
	_ "corpus/ext"
	_ "encoding/base64"
	_ "encoding/json"
	_ "errors"
	_ "fmt"
	_ "math"
	_ "strconv"
	_ "strings"
	_ "sync"
	_ "time"
	_ "bytes"
	_ "unsafe"
	_ "sort"
	_ "reflect"

	_ "github.com/google/uuid"
	_ "github.com/mailru/easyjson/jwriter"
	_ "github.com/pkg/errors"
	_ "github.com/valyala/fastjson"
)
`

// exportData compiles package ext and the libraries.
func (w *Work) exportData() exports {
	w.Materialise(corpus.Packages("ext"))
	w.Prepare()
	if len(w.Pkgs) == 0 {
		return nil // ext itself is not supported any more
	}
	d := filepath.Join(w.mod(), "probe")
	must(os.MkdirAll(d, 0o755))
	must(os.WriteFile(filepath.Join(d, "probe.go"), []byte(probe), 0o644))
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}} {{.Export}}", "./probe")
	cmd.Dir = w.mod()
	cmd.Env = goEnv("GOFLAGS=-mod=mod")
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	ex := exports{}
	for _, l := range strings.Split(string(out), "\n") {
		if f := strings.Fields(l); len(f) == 2 {
			ex[f[0]] = f[1]
		}
	}
	return ex
}

// checker type-checks packages against export data; not for concurrent use.
type checker struct {
	ex   exports
	fset *token.FileSet
	imp  types.Importer
}

func newChecker(ex exports) *checker {
	c := &checker{ex: ex, fset: token.NewFileSet()}
	c.imp = importer.ForCompiler(c.fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := ex[path]
		if !ok {
			return nil, fmt.Errorf("no package %s", path)
		}
		return os.Open(f)
	})
	return c
}

// check type-checks the Go files of dir.
func (c *checker) check(dir string) (*types.Package, error) {
	fset := token.NewFileSet()
	ents, err := os.ReadDir(dir)
	must(err)
	var fs []*ast.File
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	var first error
	conf := types.Config{Importer: c.imp, Error: func(e error) {
		if first == nil {
			first = e
		}
	}}
	p, err := conf.Check("corpus/"+filepath.Base(dir), fset, fs, nil)
	if first != nil {
		return p, first
	}
	return p, err
}

var decMethods = map[string]string{
	"UnmarshalJSON": "func([]byte) error",
	"FillFromJSON":  "func(*github.com/valyala/fastjson.Value) error",
}
var encMethods = map[string]string{
	"MarshalJSON": "func() ([]byte, error)",
	"MarshalTo":   "func(*github.com/mailru/easyjson/jwriter.Writer) error",
	"IsZero":      "func() bool",
	"Reset":       "func()",
}

func sigOf(s *types.Signature) string {
	var b bytes.Buffer
	b.WriteString("func(")
	for i := 0; i < s.Params().Len(); i++ {
		if i > 0 {
			b.WriteString(", ")
		}
		b.WriteString(types.TypeString(s.Params().At(i).Type(), nil))
	}
	b.WriteString(")")
	switch r := s.Results(); r.Len() {
	case 0:
	case 1:
		b.WriteString(" " + types.TypeString(r.At(0).Type(), nil))
	default:
		var p []string
		for i := 0; i < r.Len(); i++ {
			p = append(p, types.TypeString(r.At(i).Type(), nil))
		}
		b.WriteString(" (" + strings.Join(p, ", ") + ")")
	}
	return strings.ReplaceAll(b.String(), "[]uint8", "[]byte")
}

// methods compares the declared methods of each type with what its directive
// promises.
func methods(p *types.Package, ts []corpus.TypeMeta) (missing, extra []string) {
	for _, t := range ts {
		o := p.Scope().Lookup(t.Name)
		if o == nil {
			missing = append(missing, t.Name)
			continue
		}
		n, ok := o.Type().(*types.Named)
		if !ok || t.Custom {
			continue
		}
		have := map[string]string{}
		for i := 0; i < n.NumMethods(); i++ {
			m := n.Method(i)
			have[m.Name()] = sigOf(m.Type().(*types.Signature))
		}
		for _, set := range []struct {
			want map[string]string
			not  bool
		}{{decMethods, t.NoDec}, {encMethods, t.NoEnc}} {
			for m, sig := range set.want {
				switch {
				case set.not && have[m] != "":
					extra = append(extra, t.Name+"."+m)
				case !set.not && have[m] != sig:
					missing = append(missing, t.Name+"."+m+" "+have[m])
				}
			}
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	return
}

// try hands each declaration alone to the generator and type-checks what
// comes out.
func (w *Work) try(shapes []corpus.Shape, ex exports) map[string]outcome {
	root := filepath.Join(w.Dir, "try")
	must(os.MkdirAll(root, 0o755))
	var mu sync.Mutex
	res := map[string]outcome{}
	work := make(chan corpus.Shape)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := newChecker(ex)
			for s := range work {
				d := filepath.Join(root, s.ID)
				o := w.tryOne(d, s, c)
				os.RemoveAll(d)
				mu.Lock()
				res[s.ID] = o
				mu.Unlock()
			}
		}()
	}
	for _, s := range shapes {
		work <- s
	}
	close(work)
	wg.Wait()
	return res
}

func (w *Work) tryOne(d string, s corpus.Shape, c *checker) outcome {
	must(os.MkdirAll(d, 0o755))
	must(os.WriteFile(filepath.Join(d, "go.mod"), []byte("module corpus\n"), 0o644))
	p := corpus.ShapePackage("try", "q", []corpus.Shape{s})
	for n, src := range p.Files {
		must(os.WriteFile(filepath.Join(d, n), []byte(src), 0o644))
	}
	if strings.Contains(p.Files["types.go"], "ext.") {
		for _, e := range corpus.Packages("ext") {
			must(os.MkdirAll(filepath.Join(d, e.Path), 0o755))
			for n, src := range e.Files {
				must(os.WriteFile(filepath.Join(d, e.Path, n), []byte(src), 0o644))
			}
		}
	}
	text, err := exec.Command(w.Driver, filepath.Join(d, "types.go")+":"+filepath.Join(d, "types_json.go")).CombinedOutput()
	if err != nil || !strings.HasPrefix(string(text), "OK ") {
		return outcome{Kind: "refused", Msg: tail(string(text))}
	}
	if _, err := os.Stat(filepath.Join(d, "types_json.go")); err != nil {
		return outcome{Kind: "ok", Missing: []string{"the output file"}}
	}
	pkg, err := c.check(d)
	if err != nil {
		return outcome{Kind: "nocompile", Msg: err.Error()}
	}
	o := outcome{Kind: "ok"}
	o.Missing, o.Extra = methods(pkg, p.Types)
	o.Extra = append(o.Extra, uninvited(filepath.Join(d, "types_json.go"), p.Types)...)
	return o
}

// uninvited lists the types the file has methods for without being asked.
func uninvited(file string, ts []corpus.TypeMeta) (out []string) {
	f, err := parser.ParseFile(token.NewFileSet(), file, nil, 0)
	if err != nil {
		return nil
	}
	asked := map[string]bool{}
	for _, t := range ts {
		asked[t.Name] = !t.Custom
	}
	seen := map[string]bool{}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Recv == nil || len(fn.Recv.List) == 0 {
			continue
		}
		t := fn.Recv.List[0].Type
		if p, ok := t.(*ast.StarExpr); ok {
			t = p.X
		}
		if id, ok := t.(*ast.Ident); ok && !asked[id.Name] && !seen[id.Name] {
			seen[id.Name] = true
			out = append(out, id.Name+"."+fn.Name.Name)
		}
	}
	return
}

// runAll decides the properties of the corpus one after another on a small part
// of it, until one fails (development only).
func runAll(w *Work, spec propSpec, res *Result) {
	w.Materialise(corpus.Packages(spec.sets(*fTier)...))
	w.Prepare()
	if len(w.Pkgs) == 0 {
		fatal("nothing of the corpus could be generated and compiled")
	}
	*fProp = "G01"
	if w.notBuilt(res); res.Total > 0 {
		return
	}
	bin := w.Link()
	for _, p := range []string{"D01", "M02", "D05", "D03", "H01", "H04", "D12", "M05", "D09", "D02", "D04", "D06", "D07", "D08", "D10", "D11", "M01", "M03", "M04", "M06", "M07", "M08", "H02", "H03", "H05"} {
		*fProp = p
		if explore(w, bin, res); res.Total > 0 {
			return
		}
	}
}

// runSurvey prints what becomes of every declaration of the grammar
// (development only).
func runSurvey(w *Work, spec propSpec, res *Result) {
	ex := w.exportData()
	sh := append(append(corpus.Universe(), corpus.Odd()...), corpus.Roles()...)
	r := w.try(sh, ex)
	for _, s := range sh {
		o := r[s.ID]
		fmt.Printf("%s\t%s\t%s\t%s\t%v\t%v\n", s.ID, o.Kind, strings.Join(strings.Fields(s.Decl), " "), strings.ReplaceAll(o.Msg, "\n", " "), o.Missing, o.Extra)
	}
}

// report records a disagreement found by the orchestrator itself.
func (res *Result) report(w *Work, shape, desc, class, input, outcome, detail string) {
	f := fnv.New64a()
	for _, s := range []string{shape, class, input, outcome} {
		f.Write([]byte(s))
		f.Write([]byte{0})
	}
	h := base64.RawURLEncoding.EncodeToString(f.Sum(nil)[:6])
	if *fClassify != "" {
		must(os.MkdirAll(*fClassify, 0o755))
		out, err := os.OpenFile(filepath.Join(*fClassify, fmt.Sprintf("%s.%s.9", *fProp, *fTier)), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		must(err)
		defer out.Close()
		b, _ := json.Marshal([]string{*fProp, shape, desc, h, class, "", input, outcome, detail})
		out.Write(append(b, '\n'))
		return
	}
	if name := w.knownFinding(shape, h); name != "" {
		res.Known[name]++
		res.KnownSample[name] = shape + ": " + class + " " + input + " -> " + outcome
		return
	}
	res.Total++
	if len(res.Violations) < 40 {
		res.Violations = append(res.Violations, Violation{Property: *fProp, Shape: shape, Desc: desc, Class: class, Input: input, Outcome: outcome, Detail: detail, Hash: h, Repeats: 1})
	}
}

func (w *Work) knownFinding(shape, hash string) string {
	if w.known == nil {
		w.known = map[string]string{}
		fs, _ := filepath.Glob(filepath.Join(w.Verif, "known", "*.txt"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			must(err)
			for _, l := range strings.Split(string(b), "\n") {
				if p := strings.SplitN(l, "\t", 2); len(p) == 2 {
					for i := 0; i+8 <= len(p[1]); i += 8 {
						w.known[p[0]+"\t"+p[1][i:i+8]] = strings.TrimSuffix(filepath.Base(f), ".txt")
					}
				}
			}
		}
	}
	return w.known[shape+"\t"+hash]
}

// runG02: no declaration is accepted and then only half carried out.
func runG02(w *Work, spec propSpec, res *Result) {
	ex := w.exportData()
	if ex == nil {
		fatal("package ext cannot be generated; nothing to decide against")
	}
	all := append(corpus.Universe(), corpus.Odd()...)
	halves := func(s corpus.Shape) []corpus.Shape { return []corpus.Shape{corpus.Half(s, "E", "encode"), corpus.Half(s, "D", "decode")} }
	if *fOnly != "" {
		for _, s := range all {
			all = append(all, halves(s)...)
		}
		all = only(all, *fOnly)
	}
	sup := corpus.Supported()
	r := w.try(all, ex)
	if *fOnly == "" {
		// what is refused as a whole, one half at a time
		var rest []corpus.Shape
		for _, s := range all {
			if r[s.ID].Kind != "ok" {
				rest = append(rest, halves(s)...)
			}
		}
		for id, o := range w.try(rest, ex) {
			r[id] = o
		}
		all = append(all, rest...)
	}
	var explored []corpus.Shape
	kinds := map[string]int{}
	for _, s := range all {
		o := r[s.ID]
		res.Evaluations++
		res.Distinct++
		kinds[o.Kind]++
		if o.Kind != "ok" {
			continue
		}
		if len(o.Missing)+len(o.Extra) > 0 {
			res.report(w, s.ID, s.Desc, "methods", s.Decl, strings.Join(append(o.Missing, o.Extra...), " "), fmt.Sprintf("missing: %v, not asked for: %v", o.Missing, o.Extra))
			continue
		}
		explored = append(explored, s)
		if !sup[s.ID] {
			kinds["ok, outside the supported grammar"]++
		}
	}
	res.Extra["declarations"] = kinds
	w.reset()
	w.Materialise(corpus.ShapePackages("silent", explored, 60))
	w.Prepare()
	explore(w, w.Link(), res)
}

func only(all []corpus.Shape, id string) []corpus.Shape {
	for _, s := range all {
		if s.ID == id {
			return []corpus.Shape{s}
		}
	}
	return nil
}

// runG01: what is supported is generated, compiles and has the methods.
func runG01(w *Work, spec propSpec, res *Result) {
	ex := w.exportData()
	if ex == nil {
		res.report(w, "ext", "", "unsupported", "package ext", "unsupported", fmt.Sprint(w.GenFailed, w.NoCompile))
		return
	}
	sup := corpus.Supported()
	var all []corpus.Shape
	for _, s := range append(append(corpus.Universe(), corpus.Odd()...), corpus.Roles()...) {
		if sup[s.ID] && (*fOnly == "" || *fOnly == s.ID) {
			all = append(all, s)
		}
	}
	for _, s := range corpus.Halves() {
		if *fOnly == "" || *fOnly == s.ID {
			all = append(all, s)
		}
	}
	r := w.try(all, ex)
	for _, s := range all {
		o := r[s.ID]
		res.Evaluations++
		res.Distinct++
		if o.Kind != "ok" {
			res.report(w, s.ID, s.Desc, "unsupported", s.Decl, o.Kind, o.Msg)
		} else if len(o.Missing)+len(o.Extra) > 0 {
			res.report(w, s.ID, s.Desc, "methods", s.Decl, strings.Join(append(o.Missing, o.Extra...), " "), fmt.Sprintf("missing: %v, not asked for: %v", o.Missing, o.Extra))
		}
	}
	// whole packages: many declarations in one file, several files, several packages
	var rest []corpus.Package
	for _, p := range corpus.Packages(spec.sets(*fTier)...) {
		if p.Set != "ext" {
			rest = append(rest, p)
		}
	}
	w.Materialise(rest)
	res.Evaluations += len(w.Pkgs)
	res.Distinct += len(w.Pkgs)
	w.Assert = true
	w.Prepare()
	for k, why := range w.GenFailed {
		res.report(w, k, "", "unsupported", k, "refused", why)
	}
	for k, why := range w.NoCompile {
		res.report(w, k, "", "unsupported", k, "nocompile", why)
	}
	for _, p := range w.Pkgs {
		res.Entries += len(p.Types)
		for _, g := range p.Gen {
			if x := uninvited(filepath.Join(w.mod(), p.Path, strings.TrimSuffix(g, ".go")+"_json.go"), p.Types); len(x) > 0 {
				res.report(w, p.Path, "", "methods", g, strings.Join(x, " "), fmt.Sprintf("not asked for: %v", x))
			}
			if d := outputForm(filepath.Join(w.mod(), p.Path, strings.TrimSuffix(g, ".go")+"_json.go"), p.Name); d != "" {
				res.report(w, p.Path, "", "form", g, d, d)
			}
		}
	}
	res.Samples = append(res.Samples, all[0].ID, all[len(all)/2].ID, all[len(all)-1].ID)
}

// outputForm judges the file as a text: formatted, of the package.
func outputForm(file, pkg string) string {
	b, err := os.ReadFile(file)
	if err != nil {
		return "no output file"
	}
	f, err := parser.ParseFile(token.NewFileSet(), file, b, parser.ParseComments)
	if err != nil {
		return "does not parse"
	}
	if f.Name.Name != pkg {
		return "package " + f.Name.Name
	}
	if g, err := format.Source(b); err != nil || !bytes.Equal(g, b) {
		return "not formatted"
	}
	return ""
}
