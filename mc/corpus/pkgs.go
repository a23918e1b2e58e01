package corpus

import (
	"embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

//go:embed features supported.txt halves.txt hand.tmpl
var files embed.FS

// TypeMeta is what a declaration in a corpus source says about a type.
type TypeMeta struct {
	Pkg, Name    string
	Strict       bool
	Transit      bool
	UUID         bool
	U8           bool
	Custom       bool
	NoDec, NoEnc bool
	Main         bool
	Group, Desc  string
	ID           string
}

// Package is one package of the scratch module "corpus".
type Package struct {
	Path   string            // directory and import path below the module
	Name   string            // package clause
	Files  map[string]string // name -> source
	Gen    []string          // the files handed to the generator
	Set    string            // single, feat, pair, ...
	Shapes []Shape           // for sets made of shapes
	Types  []TypeMeta
}

// Supported is the table of single-declaration shapes the generator
// supports.
func Supported() map[string]bool { return List("supported.txt") }

// List reads a list of words.
func List(file string) map[string]bool {
	b, _ := files.ReadFile(file)
	out := map[string]bool{}
	for _, l := range strings.Fields(string(b)) {
		out[l] = true
	}
	return out
}

func shapePackages(set string, shapes []Shape, per int) []Package {
	var out []Package
	for i := 0; i < len(shapes); i += per {
		j := i + per
		if j > len(shapes) {
			j = len(shapes)
		}
		out = append(out, ShapePackage(set, fmt.Sprintf("%s%03d", set, i/per), shapes[i:j]))
	}
	return out
}

// ShapePackages renders shapes into packages of a few each.
func ShapePackages(set string, shapes []Shape, per int) []Package {
	return shapePackages(set, shapes, per)
}

// ShapePackage renders shapes into one package.
func ShapePackage(set, name string, shapes []Shape) Package {
	p := Package{Path: name, Name: name, Set: set, Shapes: shapes,
		Files: map[string]string{"types.go": Source(name, shapes)}, Gen: []string{"types.go"}}
	for _, h := range NeedHelpers(p.Files["types.go"]) {
		if h == "Hand" {
			p.Files["hand.go"] = HandSource(name, h)
		}
	}
	main := map[string]Shape{}
	for _, s := range shapes {
		main[s.ID] = s
	}
	p.Types = ParseTypes(name, p.Files, p.Gen)
	for i := range p.Types {
		t := &p.Types[i]
		if s, ok := main[t.Name]; ok {
			t.ID, t.Main, t.Group, t.Desc = s.ID, true, s.Group, s.Desc
		} else {
			t.ID, t.Main = "helper."+t.Name, false
		}
	}
	return p
}

// Packages of the given sets.
func Packages(sets ...string) []Package {
	var out []Package
	for _, set := range sets {
		switch set {
		case "ext":
			out = append(out, extPackage())
		case "single":
			ok := Supported()
			var sh []Shape
			for _, s := range Universe() {
				if ok[s.ID] {
					sh = append(sh, s)
				}
			}
			out = append(out, shapePackages("single", sh, 40)...)
		case "odd":
			ok := Supported()
			var sh []Shape
			for _, s := range Odd() {
				if ok[s.ID] {
					sh = append(sh, s)
				}
			}
			out = append(out, shapePackages("odd", sh, 30)...)
		case "half":
			out = append(out, shapePackages("half", Halves(), 40)...)
		case "pair":
			out = append(out, shapePackages("pair", Pairs(pairKinds), 40)...)
		case "pairx":
			out = append(out, shapePackages("pairx", PairsX(), 40)...)
		case "triple":
			out = append(out, shapePackages("triple", Triples(), 40)...)
		case "feat":
			out = append(out, features()...)
		default:
			panic(set)
		}
	}
	return out
}

func extPackage() Package {
	p := Package{Path: "ext", Name: "ext", Set: "ext", Files: map[string]string{"ext.go": ExtSource, "hand.go": HandSource("ext", "EHand")}, Gen: []string{"ext.go"}}
	p.Types = ParseTypes("ext", p.Files, p.Gen)
	for i := range p.Types {
		p.Types[i].ID = "ext." + p.Types[i].Name
		p.Types[i].Main = false
	}
	return p
}

func features() []Package {
	dirs := map[string]map[string]string{}
	fs.WalkDir(files, "features", func(f string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, _ := files.ReadFile(f)
		dir := strings.TrimPrefix(path.Dir(f), "features/")
		if dirs[dir] == nil {
			dirs[dir] = map[string]string{}
		}
		dirs[dir][strings.TrimSuffix(path.Base(f), ".txt")] = string(b)
		return nil
	})
	var names []string
	for d := range dirs {
		names = append(names, d)
	}
	sort.Strings(names)
	var out []Package
	for _, d := range names {
		p := Package{Path: d, Set: "feat", Files: dirs[d]}
		for f := range dirs[d] {
			if !strings.HasPrefix(f, "hand") {
				p.Gen = append(p.Gen, f)
			}
		}
		sort.Strings(p.Gen)
		p.Types = ParseTypes(d, p.Files, p.Gen)
		p.Name = pkgName(p.Files[p.Gen[0]])
		for i := range p.Types {
			p.Types[i].ID = d + "." + p.Types[i].Name
			p.Types[i].Main = true
			p.Types[i].Group = "feature"
		}
		out = append(out, p)
	}
	return out
}

func pkgName(src string) string {
	f, err := parser.ParseFile(token.NewFileSet(), "", src, parser.PackageClauseOnly)
	if err != nil {
		panic(err)
	}
	return f.Name.Name
}

var u8Re = regexp.MustCompile(`\]\**uint8`)

func directives(doc *ast.CommentGroup) []string {
	if doc == nil {
		return nil
	}
	var out []string
	for _, c := range doc.List {
		l := strings.TrimLeft(c.Text, "/ \t")
		if !strings.HasPrefix(l, "json:") {
			continue
		}
		for _, d := range strings.Split(l[len("json:"):], ",") {
			if d = strings.ToLower(strings.TrimSpace(d)); d != "" {
				out = append(out, d)
			}
		}
	}
	return out
}

// ParseTypes reads the declarations which carry a json: directive, and those
// that take it from a list of them.
func ParseTypes(pkg string, files map[string]string, gen []string) []TypeMeta {
	var out []TypeMeta
	fset := token.NewFileSet()
	for _, name := range gen {
		src := files[name]
		f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
		if err != nil {
			panic(fmt.Sprintf("%s/%s: %v", pkg, name, err))
		}
		specs := map[string]*ast.TypeSpec{}
		dirs := map[string][]string{}
		var order []string
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.TYPE {
				continue
			}
			for _, s := range g.Specs {
				ts := s.(*ast.TypeSpec)
				dd := directives(g.Doc)
				if len(dd) == 0 {
					dd = directives(ts.Doc)
				}
				specs[ts.Name.Name], dirs[ts.Name.Name] = ts, dd
				order = append(order, ts.Name.Name)
			}
		}
		var hand func(string)
		hand = func(n string) {
			if a, ok := specs[n].Type.(*ast.ArrayType); ok && len(dirs[n]) > 0 {
				if id, ok := a.Elt.(*ast.Ident); ok && specs[id.Name] != nil && len(dirs[id.Name]) == 0 {
					dirs[id.Name] = dirs[n]
					hand(id.Name)
				}
			}
		}
		for _, n := range order {
			hand(n)
		}
		for _, n := range order {
			dd := dirs[n]
			if len(dd) == 0 {
				continue
			}
			has := func(s string) bool {
				for _, d := range dd {
					if d == s {
						return true
					}
				}
				return false
			}
			ts := specs[n]
			text := src[fset.Position(ts.Pos()).Offset:fset.Position(ts.End()).Offset]
			m := TypeMeta{Pkg: pkg, Name: n, Strict: has("strict"), Custom: has("custom"), NoDec: has("encode") || has("custom"), NoEnc: has("decode") || has("custom"), U8: u8Re.MatchString(text), Desc: strings.Join(strings.Fields(text), " ")}
			switch t := ts.Type.(type) {
			case *ast.Ident:
				m.Transit = true
				// the parent does the work and its rules apply
				for id := t; ; {
					p, ok := specs[id.Name]
					if !ok {
						break
					}
					m.Strict = false
					for _, d := range dirs[id.Name] {
						m.Strict = m.Strict || d == "strict"
					}
					if id, ok = p.Type.(*ast.Ident); !ok {
						break
					}
				}
			case *ast.SelectorExpr:
				m.Transit = true
				m.UUID = t.Sel.Name == "UUID"
			case *ast.StructType:
				m.Transit = has("transit")
			}
			if m.Custom {
				m.NoDec, m.NoEnc = false, false // written by hand
			}
			out = append(out, m)
		}
	}
	return out
}

// Registration renders the file that registers the types of p.
func (p Package) Registration() string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport \"corpus/h\"\n\nfunc init() {\n", p.Name)
	for _, t := range p.Types {
		fmt.Fprintf(&b, "\th.Register(new(%s), h.Meta{ID: %q, Group: %q, Desc: %q, Strict: %v, Main: %v, Transit: %v, UUID: %v, U8: %v, Custom: %v, NoDec: %v, NoEnc: %v})\n",
			t.Name, t.ID, t.Group, t.Desc, t.Strict, t.Main, t.Transit, t.UUID, t.U8, t.Custom, t.NoDec, t.NoEnc)
	}
	b.WriteString("}\n")
	return b.String()
}

// Assertions renders a file that compiles only if every type has the methods
// its directive promises.
func (p Package) Assertions() string {
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"github.com/mailru/easyjson/jwriter\"\n\t\"github.com/valyala/fastjson\"\n)\n\nvar _ jwriter.Writer\nvar _ fastjson.Value\n\n", p.Name)
	for _, t := range p.Types {
		if t.Custom {
			continue
		}
		if !t.NoDec {
			fmt.Fprintf(&b, "var _ interface {\n\tUnmarshalJSON([]byte) error\n\tFillFromJSON(*fastjson.Value) error\n} = (*%s)(nil)\n", t.Name)
		}
		if !t.NoEnc {
			fmt.Fprintf(&b, "var _ interface {\n\tMarshalJSON() ([]byte, error)\n\tMarshalTo(*jwriter.Writer) error\n\tIsZero() bool\n\tReset()\n} = (*%s)(nil)\n", t.Name)
		}
	}
	return b.String()
}

// ---- structs of several fields ---------------------------------------------

type kind struct{ Name, Type, Opt string }

// pairKinds are the field kinds of which all ordered pairs are declared.
var pairKinds = []kind{
	{"str", "string", ""}, {"stro", "string", ",omitempty"}, {"pstr", "*string", ""}, {"pinto", "*int", ",omitempty"},
	{"int", "int", ""}, {"boolo", "bool", ",omitempty"}, {"time", "time.Time", ""}, {"psubo", "*Sub", ",omitempty"}, {"sub", "Sub", ""},
	{"lstro", "[]string", ",omitempty"}, {"lstr", "[]string", ""}, {"mapo", "map[string]int", ",omitempty"}, {"map", "map[string]int", ""},
	{"lsub", "[]Sub", ""}, {"lpsub", "[]*Sub", ""}, {"dlisto", "DSlice", ",omitempty"}, {"uuido", "uuid.UUID", ",omitempty"},
	{"bytes", "[]byte", ""}, {"dstro", "DString", ",omitempty"}, {"flto", "float64", ",omitempty"},
}

// moreKinds join the pairs explored by the thorough tier.
var moreKinds = []kind{
	{"dmap", "DMap", ""}, {"darro", "DArr", ",omitempty"}, {"arr", "[2]int", ""}, {"ptimeo", "*time.Time", ",omitempty"}, {"pdstr", "*DString", ""},
	{"lpsubo", "[]*Sub", ",omitempty"}, {"msubo", "map[string]Sub", ",omitempty"}, {"reqi", "int", ",required"}, {"reqp", "*Sub", ",required"}, {"reql", "[]string", ",required"},
	{"xstro", "ext.EStr", ",omitempty"}, {"xsub", "ext.ESub", ""}, {"i8o", "int8", ",omitempty"}, {"u64", "uint64", ""}, {"llo", "[][]int", ",omitempty"}, {"mk", "map[Key]string", ""},
	{"byteso", "[]byte", ",omitempty"}, {"timeo", "time.Time", ",omitempty"}, {"puuid", "*uuid.UUID", ""}, {"mp", "map[string]*int", ",omitempty"},
}

func structShape(set string, ks ...kind) Shape {
	id := set
	body := ""
	desc := ""
	for i, k := range ks {
		id += "_" + k.Name
		n := string(rune('A' + i))
		body += fmt.Sprintf("\t%s %s `json:\"%s%s\"`\n", n, k.Type, strings.ToLower(n), k.Opt)
		desc += "; " + k.Type + k.Opt
	}
	dir := "optional"
	if len(id)%2 == 1 {
		dir = "strict"
	}
	return Shape{ID: id, Group: set, Desc: strings.TrimPrefix(desc, "; "), Strict: dir == "strict", Decl: fmt.Sprintf("//json:%s\ntype %s struct {\n%s}", dir, id, body)}
}

// Pairs declares a struct for every ordered pair of kinds.
func Pairs(ks []kind) []Shape {
	var out []Shape
	for _, a := range ks {
		for _, b := range ks {
			out = append(out, structShape("P", a, b))
		}
	}
	return out
}

// PairsX are the pairs that involve one of the further kinds.
func PairsX() []Shape {
	var out []Shape
	all := append(append([]kind{}, pairKinds...), moreKinds...)
	for i, a := range all {
		for j, b := range all {
			if i >= len(pairKinds) || j >= len(pairKinds) {
				out = append(out, structShape("X", a, b))
			}
		}
	}
	return out
}

// Triples declares a struct for every ordered triple of nine kinds.
func Triples() []Shape {
	var ks []kind
	for _, n := range []string{"str", "stro", "pinto", "time", "psubo", "lstro", "mapo", "sub", "uuido"} {
		for _, k := range pairKinds {
			if k.Name == n {
				ks = append(ks, k)
			}
		}
	}
	var out []Shape
	for _, a := range ks {
		for _, b := range ks {
			for _, c := range ks {
				out = append(out, structShape("T", a, b, c))
			}
		}
	}
	return out
}

var _ = strconv.Itoa
