// Package corpus enumerates the bounded space of type declarations (the
// "programs") on which the generator is explored.
package corpus

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// Shape is one declaration (or small group of declarations) under test.
type Shape struct {
	ID     string   // identifier, also the name of the main type
	Decl   string   // Go source declaring the main type, without helpers
	Group  string   // family of the grammar the shape belongs to
	Strict bool     // declared with the strict directive
	Desc   string   // human readable: the field type and its modifiers
	Extra  []string // further types of Decl to register
}

// Helpers are the named types the shapes may refer to.
var Helpers = map[string]string{
	"DBool":    "//json:optional\ntype DBool bool",
	"DInt":     "//json:optional\ntype DInt int",
	"DInt8":    "//json:optional\ntype DInt8 int8",
	"DInt64":   "//json:optional\ntype DInt64 int64",
	"DUint16":  "//json:optional\ntype DUint16 uint16",
	"DUint":    "//json:optional\ntype DUint uint",
	"DFloat32": "//json:optional\ntype DFloat32 float32",
	"DFloat64": "//json:optional\ntype DFloat64 float64",
	"DString":  "//json:optional\ntype DString string",
	"DDString": "//json:optional\ntype DDString DString",
	"DTime":    "//json:optional\ntype DTime time.Time",
	"DUUID":    "//json:optional\ntype DUUID uuid.UUID",
	"DBytes":   "//json:optional\ntype DBytes []byte",
	"DBytes3":  "//json:optional\ntype DBytes3 [3]byte",
	"DSlice":   "//json:optional\ntype DSlice []string",
	"DSliceI":  "//json:optional\ntype DSliceI []int32",
	"DSliceS":  "//json:optional\ntype DSliceS []Sub",
	"DArr":     "//json:optional\ntype DArr [2]int",
	"DMap":     "//json:optional\ntype DMap map[string]int",
	"DMapS":    "//json:optional\ntype DMapS map[string]Sub",
	"DRefInt":  "type DRefInt *int",
	"DRefStr":  "type DRefStr *string",
	"DSub":     "//json:optional\ntype DSub Sub",
	"Key":      "type Key string",
	"Sub":      "//json:optional\ntype Sub struct {\n\tA string `json:\"a\"`\n\tB int `json:\"b,omitempty\"`\n}",
	"Hand":     "//json:custom\ntype Hand struct {\n\tN int `json:\"n\"`\n}",
	"Deep":     "//json:optional\ntype Deep struct {\n\tS Sub `json:\"s\"`\n\tP *Sub `json:\"p,omitempty\"`\n\tL []Sub `json:\"l,omitempty\"`\n}",
}

var identRe = regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`)

// NeedHelpers returns the names of the helpers used by src, transitively.
func NeedHelpers(src string) []string {
	seen := map[string]bool{}
	var walk func(string)
	walk = func(s string) {
		for _, id := range identRe.FindAllString(s, -1) {
			if d, ok := Helpers[id]; ok && !seen[id] {
				seen[id] = true
				walk(d)
			}
		}
	}
	walk(src)
	var out []string
	for k := range seen {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Source renders one Go file declaring the shapes and the helpers they need.
func Source(pkg string, shapes []Shape) string {
	var body strings.Builder
	for _, s := range shapes {
		body.WriteString(s.Decl)
		body.WriteString("\n\n")
	}
	for _, h := range NeedHelpers(body.String()) {
		body.WriteString(Helpers[h])
		body.WriteString("\n\n")
	}
	src := body.String()
	var imp strings.Builder
	if strings.Contains(src, "time.") {
		imp.WriteString("\t\"time\"\n")
	}
	if strings.Contains(src, "uuid.") {
		imp.WriteString("\t\"github.com/google/uuid\"\n")
	}
	if strings.Contains(src, "json.") {
		imp.WriteString("\t\"encoding/json\"\n")
	}
	if strings.Contains(src, "ext.") {
		imp.WriteString("\t\"corpus/ext\"\n")
	}
	out := "package " + pkg + "\n\n"
	if imp.Len() > 0 {
		out += "import (\n" + imp.String() + ")\n\n"
	}
	return out + src
}

var Scalars = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "string", "byte", "rune"}

var Named = []string{"DBool", "DInt", "DInt8", "DInt64", "DUint16", "DUint", "DFloat32", "DFloat64", "DString", "DDString", "DTime", "DUUID", "DBytes", "DBytes3", "DSlice", "DSliceI", "DSliceS", "DArr", "DMap", "DMapS", "DRefInt", "DRefStr", "DSub", "Sub", "Deep"}

var Other = []string{"time.Time", "uuid.UUID", "[]byte", "[4]byte", "ext.EStr", "ext.EInt", "ext.ESub", "ext.ESlice", "ext.EMap", "Hand", "ext.EHand"}

var Containers = []struct{ Name, Fmt string }{
	{"v", "%s"}, {"p", "*%s"}, {"s", "[]%s"}, {"sp", "[]*%s"}, {"a", "[2]%s"}, {"ap", "[2]*%s"},
	{"m", "map[string]%s"}, {"mp", "map[string]*%s"}, {"mk", "map[Key]%s"}, {"ss", "[][]%s"}, {"ps", "*[]%s"}, {"pm", "*map[string]%s"}, {"pp", "**%s"},
	{"ms", "map[string][]%s"}, {"sm", "[]map[string]%s"}, {"sa", "[][2]%s"}, {"sss", "[][][]%s"},
}

var Modifiers = []struct{ Name, Tag string }{
	{"", ""}, {"oe", ",omitempty"}, {"rq", ",required"},
}

func mangle(s string) string {
	return strings.NewReplacer("time.Time", "Time", "uuid.UUID", "UUID", "[]byte", "bytes", "[4]byte", "bytes4", "ext.", "X", ".", "_").Replace(s)
}

func fieldShape(group, typ, cont, contFmt, mod, tag, extraTag string) Shape {
	ft := fmt.Sprintf(contFmt, typ)
	id := fmt.Sprintf("S_%s_%s", mangle(typ), cont)
	if mod != "" {
		id += "_" + mod
	}
	full := "json:\"f" + tag + "\"" + extraTag
	return Shape{
		ID: id, Group: group,
		Decl: fmt.Sprintf("//json:optional\ntype %s struct {\n\tF %s `%s`\n}", id, ft, full),
		Desc: ft + " `" + full + "`",
	}
}

var defaults = map[string]string{
	"bool": "true", "int": "-7", "int8": "-8", "int16": "16", "int32": "32", "int64": "64", "uint": "7", "uint8": "8", "uint16": "16", "uint32": "32", "uint64": "64",
	"float32": "1.5", "float64": "-2.5", "string": "def", "byte": "b", "rune": "r",
	"DBool": "true", "DInt": "5", "DInt8": "-5", "DInt64": "50", "DUint16": "6", "DUint": "60", "DFloat32": "0.5", "DFloat64": "0.25", "DString": "dd", "DDString": "ddd", "DRefInt": "9", "DRefStr": "rs",
}

// Nested are deeper compositions, and Inner what they are made of.
var Nested = []struct{ Name, Fmt string }{
	{"ssss", "[][][][]%s"}, {"mss", "map[string][][]%s"}, {"mm", "map[string]map[string]%s"}, {"mmm", "map[string]map[string]map[string]%s"}, {"sms", "[]map[string][]%s"}, {"ssm", "[][]map[string]%s"},
	{"msm", "map[string][]map[string]%s"}, {"mms", "map[string]map[string][]%s"}, {"aa", "[2][2]%s"}, {"as", "[2][]%s"}, {"am", "[2]map[string]%s"}, {"ma", "map[string][2]%s"}, {"ssp", "[][]*%s"}, {"msp", "map[string][]*%s"},
	{"smp", "[]map[string]*%s"}, {"mmp", "map[string]map[string]*%s"}, {"sap", "[][2]*%s"}, {"mkp", "map[Key]*%s"}, {"mks", "map[Key][]%s"}, {"mkm", "map[Key]map[Key]%s"}, {"mmk", "map[string]map[Key]%s"}, {"smk", "[]map[Key]%s"},
	{"psp", "*[]*%s"}, {"pmp", "*map[string]*%s"}, {"pss", "*[][]%s"}, {"pms", "*map[string][]%s"}, {"pa", "*[2]%s"}, {"pps", "**[]%s"}, {"ppm", "**map[string]%s"}, {"sps", "[]*[]%s"}, {"spm", "[]*map[string]%s"}, {"mps", "map[string]*[]%s"}, {"sssp", "[][][]*%s"}, {"spp", "[]**%s"},
}

var Inner = []string{"int", "int8", "bool", "string", "time.Time", "uuid.UUID", "[]byte", "Sub", "DInt", "DString", "DSlice", "DMap", "ext.ESub", "ext.EStr", "Hand"}

// Universe is the full grammar of single-field shapes, supported or not.
func Universe() []Shape {
	var out []Shape
	all := append(append(append([]string{}, Scalars...), Named...), Other...)
	for _, t := range all {
		for _, c := range Containers {
			for _, m := range Modifiers {
				out = append(out, fieldShape("field", t, c.Name, c.Fmt, m.Name, m.Tag, ""))
			}
		}
		if d, ok := defaults[t]; ok {
			for _, c := range []struct{ Name, Fmt string }{{"v", "%s"}, {"p", "*%s"}} {
				out = append(out, fieldShape("default", t, c.Name, c.Fmt, "df", "", ` default:"`+d+`"`))
				out = append(out, fieldShape("default", t, c.Name, c.Fmt, "dfoe", ",omitempty", ` default:"`+d+`"`))
			}
		}
	}
	for _, t := range Inner {
		for _, c := range Nested {
			for _, m := range Modifiers[:2] {
				out = append(out, fieldShape("field", t, c.Name, c.Fmt, m.Name, m.Tag, ""))
			}
			id := fmt.Sprintf("N_%s_%s", mangle(t), c.Name)
			out = append(out, Shape{ID: id, Group: "named", Decl: fmt.Sprintf("//json:optional\ntype %s %s", id, fmt.Sprintf(c.Fmt, t)), Desc: fmt.Sprintf(c.Fmt, t)})
		}
	}
	// named collection types
	for _, t := range all {
		for _, c := range []struct{ Name, Fmt string }{
			{"s", "[]%s"}, {"sp", "[]*%s"}, {"a", "[2]%s"}, {"m", "map[string]%s"}, {"mp", "map[string]*%s"}, {"mk", "map[Key]%s"}, {"id", "%s"}, {"ref", "*%s"}, {"ss", "[][]%s"}, {"ms", "map[string][]%s"},
		} {
			id := fmt.Sprintf("N_%s_%s", mangle(t), c.Name)
			out = append(out, Shape{ID: id, Group: "named", Decl: fmt.Sprintf("//json:optional\ntype %s %s", id, fmt.Sprintf(c.Fmt, t)), Desc: fmt.Sprintf(c.Fmt, t)})
		}
	}
	return out
}

// Half is the declaration with one of the two directions only.
func Half(s Shape, prefix, dir string) Shape {
	h := s
	h.ID = prefix + "_" + s.ID
	h.Desc = dir + " only: " + s.Desc
	h.Decl = strings.Replace(strings.Replace(s.Decl, "type "+s.ID+" ", "type "+h.ID+" ", 1), "//json:optional\n", "//json:"+dir+"\n", 1)
	return h
}

// Halves are the declarations of the universe that are not supported as a
// whole but in one direction.
func Halves() []Shape {
	ok := List("halves.txt")
	var out []Shape
	for _, s := range Universe() {
		for _, h := range []Shape{Half(s, "E", "encode"), Half(s, "D", "decode")} {
			if ok[h.ID] {
				out = append(out, h)
			}
		}
	}
	return out
}
