package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var buildContext = build.Default

// tree is a source tree of a module: path below the module root -> text.
type tree map[string]string

func (t tree) write(root string) {
	for p, s := range t {
		f := filepath.Join(root, p)
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		must(os.WriteFile(f, []byte(s), 0o644))
	}
}

func (t tree) with(p, s string) tree {
	u := tree{}
	for k, v := range t {
		u[k] = v
	}
	u[p] = s
	return u
}

// readTree is the state of a directory tree.
func readTree(root string) tree {
	t := tree{}
	must(filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(root, p)
		t[rel] = string(b)
		return err
	}))
	return t
}

// changed is what u has beyond or otherwise than t.
func (t tree) changed(u tree) tree {
	d := tree{}
	for p, s := range u {
		if o, ok := t[p]; !ok || o != s {
			d[p] = s
		}
	}
	return d
}

// generate runs the generator; bad is empty if it reports success.
func generate(driver, cwd string, env []string, jobs ...string) (out, bad string) {
	cmd := exec.Command(driver, jobs...)
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), env...)
	b, err := cmd.CombinedOutput()
	out = string(b)
	if err != nil {
		return out, "ended with " + err.Error() + ": " + tail(out)
	}
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "PANIC ") || strings.HasPrefix(l, "ERROR ") {
			return out, l
		}
	}
	if !strings.Contains(out, "OK ") {
		return out, "says nothing"
	}
	return out, ""
}

// ---- layouts of a module with types in another package ------------------------

// layout says where the other package is and how it is imported.
type layout struct {
	ID        string
	Module    string
	User, Ext string // directories below the module root; "" is the root
	Import    string // how the import is written; %s is the quoted path
	Qual      string // the qualifier in use
	Form      string // how the other package declares its types
	Decoy     string // what else there is
	Content   string // what the user declares
}

type option struct{ Name, A, B, C string }

var placements = []option{
	{"sibling", "usr", "ext", "m"}, {"child", "usr", "usr/ext", "m"}, {"parent", "ext/usr", "ext", "m"}, {"far", "a/b/usr", "c/d/e/ext", "m"},
	{"userroot", "", "ext", "m"}, {"extroot", "usr", "", "ext"}, {"extrootlong", "usr", "", "example.com/some/ext"}, {"longmodule", "usr", "internal/ext", "example.com/some/m"}, {"versioned", "usr", "pkg/ext", "example.com/m/v2"},
	{"dashed", "usr", "go-ext", "m"}, {"dotted", "usr", "ext.v2", "m"}, {"vdir", "usr", "ext/v2", "m"}, {"otherdir", "usr", "folder", "m"}, {"modulename", "usr", "m", "m"}, {"modulenest", "usr", "m/ext", "m"},
	{"doubled", "usr", "ext/ext", "m"}, {"cmd", "cmd/tool", "internal/ext", "m"}, {"prefix", "usr", "ext", "t"}, {"longprefix", "usr", "ext", "tim"}, {"almostuser", "usr", "tusr", "m/usr"},
}

var importForms = []option{
	{"plain", "import %s", "ext", ""}, {"grouped", "import (\n\t\"strings\"\n\n\t%s\n)\n\nvar _ = strings.ToLower", "ext", ""}, {"named", "import ext %s", "ext", ""}, {"alias", "import al %s", "al", ""},
	{"twice", "import al %[1]s\nimport ext %[1]s\n\nvar _ al.Str", "ext", ""}, {"blank", "import _ %[1]s\nimport ext %[1]s", "ext", ""}, {"stdalias", "import time %s", "time", ""}, {"uuidalias", "import uuid %s", "uuid", ""}, {"split", "import \"strings\"\nimport ext %s\n\nvar _ = strings.ToLower", "ext", ""},
	{"dot", "import . %s", "", ""},
}

const extTypes = `//json:optional
type Rec struct {
	X string ^json:"x"^
	Y int    ^json:"y,omitempty"^
}

//json:optional
type Str string

//json:optional
type Int int

//json:optional
type Strs []string

//json:optional
type Dict map[string]int

//json:optional
type Recs []Rec

//json:optional
type Mixin struct {
	M string ^json:"m"^
	N *int   ^json:"n,omitempty"^
}

//json:optional
type Outer struct {
	Mixin ^json:",inline"^
	S     Str  ^json:"s"^
	T     Rec  ^json:"t"^
	P     Str  ^json:"p,required"^
	U     *int ^json:"u,omitempty"^
}

//json:optional
type Ṽame string

//json:optional
type Élan struct {
	N Ṽame ^json:"n"^
	O int   ^json:"o2,omitempty"^
}

//json:optional
type Solo struct {
	Solo int ^json:"solo,omitempty"^
}
`

const userTypes = `//json:optional
type User struct {
	A Q.Str            ^json:"a"^
	B *Q.Str           ^json:"b,omitempty"^
	C Q.Int            ^json:"c,omitempty"^
	D Q.Rec            ^json:"d"^
	E *Q.Rec           ^json:"e,omitempty"^
	F []Q.Rec          ^json:"f,omitempty"^
	G []*Q.Rec         ^json:"g"^
	H map[string]Q.Rec ^json:"h,omitempty"^
	I Q.Strs           ^json:"i"^
	J Q.Dict           ^json:"j"^
	K []Q.Str          ^json:"k"^
	L Q.Recs           ^json:"l,omitempty"^
	M map[string]Q.Int ^json:"m"^
	Z int              ^json:"z"^
}

//json:strict
type Recs []Q.Rec

//json:optional
type RecMap map[string]Q.Rec

//json:optional
type Word Q.Str

//json:optional
type Words []Q.Str
`

const inlineTypes = `
//json:strict
type Inlines struct {
	Q.Mixin ^json:",inline"^
	O       int ^json:"o"^
}
`

const nestedTypes = `
//json:strict
type Nests struct {
	A       int ^json:"a"^
	Q.Outer ^json:",inline"^
	B       Q.Str ^json:"b,omitempty"^
}
`

const foreignTypes = `
//json:optional
type Foreign struct {
	Q.Élan ^json:",inline"^
	O      int ^json:"o"^
}

//json:optional
type Foreign2 struct {
	A Q.Élan             ^json:"a"^
	B []Q.Ṽame           ^json:"b"^
	C map[string]*Q.Ṽame ^json:"c,omitempty"^
	D *Q.Ṽame            ^json:"d"^
}
`

// hintedTypes inlines a struct whose members are of a third package, of which
// the generator is told by the caller.
const hintedTypes = `
//json:strict
type Hinted struct {
	A        int ^json:"a"^
	Q.Mixed3 ^json:",inline"^
	Z        Q.Str ^json:"z"^
}
`

const mixedTypes = `
//json:optional
type Mixed3 struct {
	W third.Word            ^json:"w"^
	D third.Deep            ^json:"d"^
	P *third.Deep           ^json:"p,omitempty"^
	L []third.Deep          ^json:"l"^
	M map[string]third.Word ^json:"m"^
}
`

const soloTypes = `
//json:optional
type Single struct {
	Q.Solo ^json:",inline"^
}

//json:optional
type Holder struct {
	A Single ^json:"a"^
	B Q.Solo ^json:"b,omitempty"^
}
`

const chainTypes = `
//json:optional
type Chain struct {
	A Q.Far              ^json:"a"^
	B *Q.Far             ^json:"b,omitempty"^
	C []Q.Far            ^json:"c"^
	D Q.Farther          ^json:"d"^
	E *Q.Farther         ^json:"e,omitempty"^
	F map[string]Q.Far   ^json:"f"^
	G []*Q.Farther       ^json:"g"^
	Z int                ^json:"z"^
}

//json:optional
type FarWord Q.Far
`

const stdTypes = `
//json:optional
type Std struct {
	A time.Time  ^json:"a"^
	B *time.Time ^json:"b,omitempty"^
	C Q.Str      ^json:"c"^
	Z int        ^json:"z"^
}
`

// farTypes are types of the other package which rest on a third one.
const farTypes = `
//json:optional
type Far third.Word

//json:optional
type Farther third.Deep
`

const thirdTypes = `package third

//json:optional
type Word string

//json:optional
type Deep struct {
	W Word ^json:"w"^
	N int  ^json:"n,omitempty"^
}
`

var contents = []struct{ Name, Text string }{{"types", userTypes}, {"inline", inlineTypes}, {"nested", nestedTypes}, {"chain", chainTypes}, {"std", stdTypes}, {"foreign", foreignTypes}, {"solo", soloTypes}, {"hinted", hintedTypes}}

// decoyTypes bear the same names and mean something else.
const decoyTypes = `//json:optional
type Rec string

type Str struct {
	X string ^json:"x2"^
}

//json:optional
type Int []string

type Strs int

type Dict struct{}

type Recs map[string]string

type Mixin struct {
	M string ^json:"mm"^
	N *int   ^json:"nn"^
}

type Outer struct {
	S Rec ^json:"ss"^
}

type Far int

type Farther []string

type Ṽame []string

type Élan struct {
	N int ^json:"nnn"^
}

type Solo string
`

func goText(s string) string { return strings.ReplaceAll(s, "^", "`") }

// extForms: the files of the other package.
var extForms = []struct {
	Name  string
	Files func() tree
	Gen   []string
}{
	{"onefile", func() tree { return tree{"types.go": goText("package ext\n\n" + extTypes)} }, []string{"types.go"}},
	{"split", func() tree {
		t := tree{}
		for i, d := range strings.SplitAfter(extTypes, "\n\n") {
			t[fmt.Sprintf("f%d.go", i)] = goText("package ext\n\n" + d)
		}
		return t
	}, []string{"f0.go", "f1.go", "f2.go", "f3.go", "f4.go", "f5.go", "f6.go", "f8.go", "f10.go"}},
	{"grouped", func() tree {
		return tree{"types.go": goText("package ext\n\ntype (\n" + strings.ReplaceAll(extTypes, "\ntype ", "\n") + ")\n")}
	}, []string{"types.go"}},
	{"functions", func() tree {
		return tree{"types.go": goText("package ext\n\n" + extTypes + "\nfunc f() {\n\ttype Rec string\n\tvar r Rec\n\t_ = r\n}\n"), "a.go": "package ext\n\nfunc g() {\n\ttype Str struct{}\n\tvar s Str\n\t_ = s\n}\n"}
	}, []string{"types.go"}},
	{"tested", func() tree {
		return tree{"types.go": goText("package ext\n\n" + extTypes), "a_test.go": goText("package ext_test\n\n" + decoyTypes), "z_test.go": goText("package ext_test\n\nvar _ Rec\n")}
	}, []string{"types.go"}},
	{"ignored", func() tree {
		return tree{"types.go": goText("package ext\n\n" + extTypes), "agen.go": goText("//go:build ignore\n\npackage main\n\n" + decoyTypes + "\nfunc main() {}\n"), "zgen.go": goText("//go:build ignore\n\npackage main\n\n" + decoyTypes)}
	}, []string{"types.go"}},
	{"platform", func() tree {
		return tree{"types.go": goText("package ext\n\n" + extTypes), "atypes_windows.go": goText("package ext\n\n" + decoyTypes), "zypes_plan9.go": goText("package ext\n\n" + decoyTypes)}
	}, []string{"types.go"}},
	{"constrained", func() tree {
		return tree{"types.go": goText("//go:build !special\n\npackage ext\n\n" + extTypes), "atypes.go": goText("//go:build special\n\npackage ext\n\n" + decoyTypes), "zypes.go": goText("//go:build special\n\npackage ext\n\n" + decoyTypes)}
	}, []string{"types.go"}},
	{"crlf", func() tree {
		return tree{"types.go": strings.ReplaceAll(goText("package ext\n\n"+extTypes), "\n", "\r\n")}
	}, []string{"types.go"}},
	{"bom", func() tree { return tree{"types.go": "\ufeff" + goText("package ext\n\n"+extTypes)} }, []string{"types.go"}},
	{"noise", func() tree {
		return tree{"types.go": goText("// Package ext is documented.\n//\n//json:optional\npackage ext // ext\n\n" + extTypes), "noise.go": goText(noiseText)}
	}, []string{"types.go"}},
	{"innertest", func() tree {
		return tree{"types.go": goText("package ext\n\n" + extTypes), "a_test.go": goText("package ext\n\ntype Tested struct {\n\tRec Rec ^json:\"rec\"^\n}\n\nfunc h() {\n\ttype Rec string\n\ttype Mixin struct{ Q int }\n}\n")}
	}, []string{"types.go"}},
}

// noiseText is Go that has nothing to do with the types.
const noiseText = `//go:build !never

package ext

import (
	"fmt"
	str "strings"
)

const (
	One = 1 << iota
	Two
)

var Rec2, Str2 = 1, "Rec"

type Pair[K comparable, V any] struct {
	Key K ^json:"key"^
	Val V
}

func (p *Pair[K, V]) String() string { return fmt.Sprint(p.Key, p.Val) }

type Iface interface {
	~string | ~int
}

type Func func(Rec *int, Str ...string) (Int error)

type Chan <-chan struct{ Rec Func }

type Same = Pair[string, int]

func Map[T any, U any](in []T, f func(T) U) (out []U) {
	type Rec struct{ v T }
	const Mixin = 5
loop:
	for i := range in {
		switch {
		case i > Mixin:
			break loop
		default:
			out = append(out, f(Rec{in[i]}.v))
		}
	}
	return out
}

var _ = str.ToUpper

func init() {}
`

// goMod is how the module file is written.
func goMod(format string) func(layout) tree {
	return func(l layout) tree { return tree{"go.mod": strings.ReplaceAll(format, "M", l.Module)} }
}

// decoys: other packages of the same name, the module being at the root.
var decoys = []struct {
	Name  string
	Files func(l layout) tree
}{
	{"none", func(layout) tree { return nil }},
	{"before", func(layout) tree { return tree{"aaa/ext/types.go": goText("package ext\n\n" + decoyTypes)} }},
	{"after", func(layout) tree { return tree{"zzz/ext/types.go": goText("package ext\n\n" + decoyTypes)} }},
	{"otherdir", func(layout) tree { return tree{"bbb/types.go": goText("package ext\n\n" + decoyTypes)} }},
	{"vendored", func(l layout) tree {
		return tree{"vendor/" + l.importPath() + "/types.go": goText("package ext\n\n" + decoyTypes)}
	}},
	{"testdata", func(layout) tree {
		return tree{"testdata/ext/types.go": goText("package ext\n\n" + decoyTypes), "testdata/broken.go": "package\n"}
	}},
	{"nested", func(layout) tree {
		return tree{"other/go.mod": "module other\n", "other/ext/types.go": goText("package ext\n\n" + decoyTypes)}
	}},
	{"stdlike", func(layout) tree {
		return tree{"time/time.go": "package time\n\n//json:optional\ntype Time string\n", "strings/strings.go": "package strings\n\ntype Str int\n"}
	}},
	{"hidden", func(layout) tree {
		return tree{".hid/ext/types.go": goText("package ext\n\n" + decoyTypes), "_skip/ext/types.go": goText("package ext\n\n" + decoyTypes), ".git/x.go": "no go\n", "a/.types.go": "package\n", "a/_types.go": "package a\n"}
	}},
	{"gonamed", func(layout) tree {
		return tree{"aaa.go/ext/types.go": goText("package ext\n\n" + decoyTypes), "zzz.go/x.txt": "\n", "a.go.txt": "x\n", ".go/x": "y"}
	}},
	{"several", func(layout) tree {
		return tree{"several/a.go": goText("package ext\n\n" + decoyTypes), "several/b.go": goText("package other\n\n" + decoyTypes), "several/c_test.go": "package ext_test\n", "several/d.go": "package main\n"}
	}},
	{"modcomment", goMod("// a module\n// of ours\n\nmodule M // here\n\ngo 1.20\n")},
	{"modquoted", goMod("go 1.22.1\n\nmodule \"M\"\n")},
	{"modblock", goMod("module (\n\tM\n)\n\ngo 1.21\n")},
	{"modrest", goMod("// Deprecated: no.\nmodule M\n\ngo 1.23.0\n\ntoolchain go1.24.1\n\ngodebug default=go1.21\n\ntool example.com/tool\n\nignore ./node_modules\n\nrequire (\n\texample.com/ext v1.2.3 // indirect\n\texample.com/m v0.0.0-20200101000000-abcdefabcdef\n)\n\nreplace example.com/ext => ../ext\n\nexclude example.com/x v1.0.0\n\nretract v1.0.1\n\nwhatever comes later\n")},
	{"modcrlf", goMod("module M\r\n\r\ngo 1.20\r\n")},
	{"workspace", func(layout) tree {
		return tree{"go.work": "go 1.22\n\nuse (\n\t.\n\t./other\n)\n", "other/go.mod": "module example.com/other\n", "other/ext/types.go": goText("package ext\n\n" + decoyTypes)}
	}},
	{"own", func(l layout) tree { return tree{join(l.User, "local.go"): "package usr\n\ntype Rec2 string\n"} }},
}

func join(dir, f string) string {
	if dir == "" {
		return f
	}
	return dir + "/" + f
}

func (l layout) importPath() string {
	if l.Ext == "" {
		return l.Module
	}
	return l.Module + "/" + l.Ext
}

func (l layout) tree() tree {
	t := tree{"go.mod": "module " + l.Module + "\n"}
	for _, f := range extForms {
		if f.Name == l.Form {
			for n, s := range f.Files() {
				t[join(l.Ext, n)] = s
			}
		}
	}
	for _, d := range decoys {
		if d.Name == l.Decoy {
			for n, s := range d.Files(l) {
				t[n] = s
			}
		}
	}
	q := l.Qual + "."
	if l.Qual == "" {
		q = ""
	}
	head := "package usr\n\n"
	if l.Content == "std" {
		head += "import \"time\"\n\n"
	}
	head += fmt.Sprintf(l.Import, strconv.Quote(l.importPath())) + "\n\n"
	own := userTypes
	if l.Qual == "" {
		own = strings.ReplaceAll(own, "type Recs ", "type OwnRecs ")
	}
	for _, c := range contents {
		if c.Name == l.Content && c.Name != "types" {
			own = c.Text
		}
	}
	if l.Content == "chain" {
		t[join(l.Ext, "far.go")] = goText("package ext\n\nimport " + strconv.Quote(l.Module+"/third") + "\n" + farTypes)
		t["third/third.go"] = goText(thirdTypes)
	}
	if l.Content == "hinted" {
		t[join(l.Ext, "mixed.go")] = goText("package ext\n\nimport " + strconv.Quote(l.Module+"/third") + "\n" + mixedTypes)
		t["third/third.go"] = goText(thirdTypes)
	}
	t[join(l.User, "usr.go")] = goText(head + strings.ReplaceAll(own, "Q.", q))
	return t
}

func (l layout) gens() []string {
	for _, f := range extForms {
		if f.Name == l.Form {
			return f.Gen
		}
	}
	return nil
}

func layouts(tier string) []layout {
	var out []layout
	add := func(n int, p, i option, form, decoy string) {
		l := layout{ID: p.Name + "+" + i.Name + "+" + form + "+" + decoy, Module: p.C, User: p.A, Ext: p.B, Import: i.A, Qual: i.B, Form: form, Decoy: decoy}
		if strings.HasPrefix(i.A, "import %s") && !strings.HasSuffix(l.importPath(), "/ext") && l.importPath() != "ext" {
			l.Import, l.Qual = "import %s", "ext" // the name of the package is not that of the directory
		}
		for _, c := range contents {
			// quick: two deviations, one for the further contents; thorough: one more
			most := 2
			if c.Name == "nested" || c.Name == "chain" || c.Name == "foreign" || c.Name == "solo" || c.Name == "hinted" {
				most = 1
			}
			if tier == "thorough" {
				most++
			}
			if n > most {
				continue
			}
			if c.Name == "std" && i.Name == "stdalias" {
				continue // two packages of one name
			}
			if form == "split" && (c.Name == "nested" || c.Name == "foreign") {
				continue // types in other files are reached by their methods instead
			}
			k := l
			k.ID, k.Content = l.ID+"+"+c.Name, c.Name
			out = append(out, k)
		}
	}
	for pi, p := range placements {
		for ii, i := range importForms {
			for fi, f := range extForms {
				for di, d := range decoys {
					n := 0 // deviations from the plainest layout
					for _, x := range []int{pi, ii, fi, di} {
						if x > 0 {
							n++
						}
					}
					add(n, p, i, f.Name, d.Name)
				}
			}
		}
	}
	return out
}

// norm renders the declarations of generated code with the qualifier of the
// other package made uniform.
func norm(src, qual string) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", src, 0)
	if err != nil {
		return "", err
	}
	var ds []ast.Decl
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ds = append(ds, d)
	}
	f.Decls, f.Imports = ds, nil
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == qual && ast.IsExported(s.Sel.Name) {
				x.Name = "ext"
			}
		}
		return true
	})
	var b strings.Builder
	err = format.Node(&b, token.NewFileSet(), f)
	return b.String(), err
}

// moduleChecker type-checks a module from its sources, the libraries from
// export data.
type moduleChecker struct {
	*checker
	root, module string
	fset         *token.FileSet
	done         map[string]*types.Package
	why          map[string]error
}

func (m *moduleChecker) Import(path string) (*types.Package, error) {
	if path != m.module && !strings.HasPrefix(path, m.module+"/") {
		return m.imp.Import(path)
	}
	return m.checkPath(path)
}

func (m *moduleChecker) checkPath(path string) (*types.Package, error) {
	if p, ok := m.done[path]; ok {
		return p, m.why[path]
	}
	dir := filepath.Join(m.root, strings.TrimPrefix(strings.TrimPrefix(path, m.module), "/"))
	fs, err := sourceFiles(m.fset, dir)
	if err != nil {
		return nil, err
	}
	var first error
	conf := types.Config{Importer: m, Error: func(e error) {
		if first == nil {
			first = e
		}
	}}
	p, err := conf.Check(path, m.fset, fs, nil)
	if first != nil {
		err = first
	}
	m.done[path], m.why[path] = p, err
	return p, err
}

// sourceFiles parses what the go command would compile in the directory.
func sourceFiles(fset *token.FileSet, dir string) ([]*ast.File, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	var fs []*ast.File
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		if ok, err := buildContext.MatchFile(dir, n); err != nil || !ok {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	return fs, nil
}

// outcomeOf generates the code of one layout and tells what became of it.
func (w *Work) outcomeOf(l layout, ex exports, root string) (kind, msg, text string) {
	defer os.RemoveAll(root)
	l.tree().write(root)
	var jobs []string
	for _, g := range l.gens() {
		f := filepath.Join(root, l.Ext, g)
		jobs = append(jobs, f+":"+strings.TrimSuffix(f, ".go")+"_json.go")
	}
	if l.Content == "chain" {
		for _, f := range []string{filepath.Join(root, "third", "third"), filepath.Join(root, l.Ext, "far")} {
			jobs = append(jobs, f+".go:"+f+"_json.go")
		}
	}
	hint := ""
	if l.Content == "hinted" {
		for _, f := range []string{filepath.Join(root, "third", "third"), filepath.Join(root, l.Ext, "mixed")} {
			jobs = append(jobs, f+".go:"+f+"_json.go")
		}
		hint = ":third=" + l.Module + "/third,base=example.com/base"
	}
	if _, bad := generate(w.Driver, root, nil, jobs...); bad != "" {
		return "ext refused", bad, ""
	}
	before := readTree(root)
	in := filepath.Join(root, l.User, "usr.go")
	out := filepath.Join(root, l.User, "usr_json.go")
	if _, bad := generate(w.Driver, root, nil, in+":"+out+hint); bad != "" {
		return "refused", bad, ""
	}
	var odd []string
	for p := range before.changed(readTree(root)) {
		if p != join(l.User, "usr_json.go") && p != join(l.User, "valyjson_utils.go") {
			odd = append(odd, p)
		}
	}
	if len(odd) > 0 {
		return "odd", strings.Join(odd, " "), ""
	}
	m := &moduleChecker{checker: newChecker(ex), root: root, module: l.Module, fset: token.NewFileSet(), done: map[string]*types.Package{}, why: map[string]error{}}
	path := l.Module
	if l.User != "" {
		path += "/" + l.User
	}
	if _, err := m.checkPath(path); err != nil {
		return "nocompile", err.Error(), ""
	}
	b, err := os.ReadFile(out)
	must(err)
	t, err := norm(string(b), l.Qual)
	if err != nil {
		return "nocompile", err.Error(), ""
	}
	return "ok", "", t
}

// runG04: types of another package mean the same wherever that package is
// and however it is imported.
func runG04(w *Work, spec propSpec, res *Result) {
	ex := w.exportData()
	if ex == nil {
		fatal("package ext cannot be generated; nothing to decide against")
	}
	ls := layouts(*fTier)
	kinds, msgs, texts := make([]string, len(ls)), make([]string, len(ls)), make([]string, len(ls))
	parallel(len(ls), func(i int) {
		if *fOnly != "" && *fOnly != ls[i].ID && i >= len(contents) {
			return
		}
		kinds[i], msgs[i], texts[i] = w.outcomeOf(ls[i], ex, filepath.Join(w.Dir, "layout", fmt.Sprint(i)))
	})
	count := map[string]int{}
	reference := map[string]string{}
	for i := len(contents) - 1; i >= 0; i-- {
		reference[ls[i].Content] = texts[i]
	}
	for i, l := range ls {
		if kinds[i] == "" {
			continue
		}
		res.Evaluations++
		res.Distinct++
		ref := reference[l.Content]
		if l.Qual == "" {
			ref = strings.NewReplacer("ext.", "", "Recs", "OwnRecs").Replace(ref)
		}
		if kinds[i] == "ok" && texts[i] != ref {
			kinds[i], msgs[i] = "differs", diff(ref, texts[i])
		}
		count[kinds[i]]++
		if *fSurvey {
			fmt.Printf("%s\t%s\t%s\n", l.ID, kinds[i], oneLine(msgs[i]))
			continue
		}
		switch k := kinds[i]; {
		case k == "ok":
		case k == "differs" || k == "odd":
			res.report(w, l.ID, "", "layout", l.ID, k, msgs[i])
		case l.Qual != "": // dot imports are refused
			res.report(w, l.ID, "", "layout-unsupported", l.ID, k, msgs[i])
		}
		res.Samples = append(res.Samples, l.ID)
	}
	res.Entries = len(ls)
	res.Extra["layouts"] = count
}

// diff is the first line in which two texts differ.
func diff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q string
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return fmt.Sprintf("line %d: %q, not %q", i+1, strings.TrimSpace(q), strings.TrimSpace(p))
		}
	}
	return ""
}
