package corpus

import "fmt"

// oddTypes are types the generator does not claim to handle.
var oddTypes = []struct{ Name, Type string }{
	{"any", "any"}, {"iface", "interface{}"}, {"ifacem", "interface{ M() }"}, {"err", "error"}, {"fn", "func()"}, {"ch", "chan int"},
	{"c64", "complex64"}, {"c128", "complex128"}, {"uptr", "uintptr"},
	{"anon", "struct {\n\t\tX int `json:\"x\"`\n\t}"}, {"anone", "struct{}"}, {"mapi", "map[int]string"}, {"mapu", "map[uint64]string"}, {"mapb", "map[bool]string"}, {"mapt", "map[time.Time]string"},
	{"mapdi", "map[DInt]string"}, {"dur", "time.Duration"}, {"month", "time.Month"}, {"jnum", "json.Number"}, {"jraw", "json.RawMessage"},
	{"ppp", "***int"}, {"arr0", "[0]int"}, {"arr1", "[1]string"}, {"arrc", "[N4]int"}, {"arre", "[2 + 1]int"}, {"arrx", "[0x2]int"}, {"bytesc", "[N4]byte"}, {"paren", "(string)"}, {"parens", "[](string)"},
	{"undef", "Undefined"}, {"extun", "ext.Undefined"}, {"gen", "Gen[int]"}, {"alias", "Alias"}, {"aliassub", "AliasSub"}, {"untag", "Untagged"}, {"untagi", "UntaggedInt"}, {"untagl", "UntaggedList"}, {"punt", "*Untagged"}, {"lunt", "[]Untagged"}, {"munt", "map[string]Untagged"},
	{"timeptr", "*time.Time"}, {"sb", "[][]byte"}, {"mb", "map[string][]byte"}, {"pb", "*[]byte"}, {"u8s", "[]uint8"}, {"u8a", "[4]uint8"}, {"runes", "[]rune"}, {"i8a", "[4]int8"},
	{"mm", "map[string]map[string]int"}, {"mms", "map[string]map[string][]int"}, {"ma", "map[string][2]int"}, {"as", "[2][]int"}, {"aa", "[2][2]int"}, {"am", "[2]map[string]int"}, {"pa", "*[2]int"}, {"ppm", "**map[string]int"}, {"psl", "*[]string"}, {"lps", "[]*[]string"}, {"lpm", "[]*map[string]int"}, {"lpp", "[]**int"},
	{"msub", "map[string]*Sub"}, {"mksub", "map[Key]*Sub"}, {"lls", "[][]Sub"}, {"llps", "[][]*Sub"}, {"mls", "map[string][]Sub"}, {"mlps", "map[string][]*Sub"}, {"lms", "[]map[string]Sub"}, {"lmps", "[]map[string]*Sub"}, {"las", "[][2]Sub"}, {"als", "[2][]Sub"},
}

func init() {
	Helpers["N4"] = "const N4 = 4"
	Helpers["Gen"] = "type Gen[T any] struct {\n\tV T `json:\"v\"`\n}"
	Helpers["Alias"] = "type Alias = string"
	Helpers["AliasSub"] = "type AliasSub = Sub"
	Helpers["Untagged"] = "type Untagged struct {\n\tA string `json:\"a\"`\n}"
	Helpers["UntaggedInt"] = "type UntaggedInt int"
	Helpers["UntaggedList"] = "type UntaggedList []string"
}

// Odd are declarations outside the regular grammar: unusual types, unusual
// tags and unusual ways to declare.
func Odd() []Shape {
	var out []Shape
	for _, t := range oddTypes {
		for _, m := range Modifiers {
			s := fieldShape("odd", t.Type, "v", "%s", m.Name, m.Tag, "")
			s.ID = "O_" + t.Name
			if m.Name != "" {
				s.ID += "_" + m.Name
			}
			s.Decl = fmt.Sprintf("//json:optional\ntype %s struct {\n\tA int `json:\"a\"`\n\tF %s `json:\"f%s\"`\n\tZ string `json:\"z\"`\n}", s.ID, t.Type, m.Tag)
			out = append(out, s)
		}
		id := "ON_" + t.Name
		out = append(out, Shape{ID: id, Group: "odd", Desc: t.Type, Decl: fmt.Sprintf("//json:optional\ntype %s %s", id, t.Type)})
	}
	return append(out, OddDecls...)
}

// OddDecls are whole declarations; %s is the name of the type.
var OddDecls = func() []Shape {
	var out []Shape
	for _, d := range []struct{ Name, Body string }{
		{"notag", "struct {\n\tF string\n}"},
		{"notag2", "struct {\n\tA int `json:\"a\"`\n\tF string\n}"},
		{"othertag", "struct {\n\tF string `yaml:\"f\"`\n}"},
		{"emptyname", "struct {\n\tF string `json:\",omitempty\"`\n}"},
		{"emptytag", "struct {\n\tF string `json:\"\"`\n}"},
		{"two", "struct {\n\tF, G string `json:\"f\"`\n}"},
		{"dup", "struct {\n\tF string `json:\"f\"`\n\tG int `json:\"f\"`\n}"},
		{"strtag", "struct {\n\tF int `json:\"f,string\"`\n}"},
		{"unknowntag", "struct {\n\tF int `json:\"f,unknown\"`\n}"},
		{"both", "struct {\n\tF int `json:\"f,omitempty,required\"`\n}"},
		{"both2", "struct {\n\tF int `json:\"f,required,omitempty\"`\n}"},
		{"reqdef", "struct {\n\tF int `json:\"f,required\" default:\"3\"`\n}"},
		{"baddef", "struct {\n\tF int `json:\"f\" default:\"abc\"`\n}"},
		{"baddefb", "struct {\n\tF bool `json:\"f\" default:\"maybe\"`\n}"},
		{"baddefo", "struct {\n\tF int8 `json:\"f\" default:\"300\"`\n}"},
		{"deflist", "struct {\n\tF []string `json:\"f\" default:\"a,b\"`\n}"},
		{"defmap", "struct {\n\tF map[string]int `json:\"f\" default:\"a\"`\n}"},
		{"deftime", "struct {\n\tF time.Time `json:\"f\" default:\"2020-01-02T03:04:05Z\"`\n}"},
		{"defuuid", "struct {\n\tF uuid.UUID `json:\"f\" default:\"6ba7b810-9dad-11d1-80b4-00c04fd430c8\"`\n}"},
		{"defsub", "struct {\n\tF Sub `json:\"f\" default:\"x\"`\n}"},
		{"defquote", "struct {\n\tF string `json:\"f\" default:\"a\\\"b\"`\n}"},
		{"badlayout", "struct {\n\tF int `json:\"f\" layout:\"2006\"`\n}"},
		{"inlnamed", "struct {\n\tF Sub `json:\",inline\"`\n}"},
		{"inlptr", "struct {\n\t*Sub `json:\",inline\"`\n}"},
		{"inlint", "struct {\n\tDInt `json:\",inline\"`\n}"},
		{"inlmap", "struct {\n\tDMap `json:\",inline\"`\n}"},
		{"inltime", "struct {\n\ttime.Time `json:\",inline\"`\n}"},
		{"inl", "struct {\n\tSub `json:\",inline\"`\n\tC int `json:\"c\"`\n}"},
		{"inldup", "struct {\n\tSub `json:\",inline\"`\n\tC int `json:\"a\"`\n}"},
		{"inldeep", "struct {\n\tDeep `json:\",inline\"`\n\tC int `json:\"c\"`\n}"},
		{"inlext", "struct {\n\text.ESub `json:\",inline\"`\n\tC int `json:\"c\"`\n}"},
		{"emb", "struct {\n\tSub\n\tC int `json:\"c\"`\n}"},
		{"embp", "struct {\n\t*Sub\n\tC int `json:\"c\"`\n}"},
		{"embn", "struct {\n\tSub `json:\"sub\"`\n\tC int `json:\"c\"`\n}"},
		{"embnp", "struct {\n\t*Sub `json:\"sub\"`\n\tC int `json:\"c\"`\n}"},
		{"embext", "struct {\n\text.ESub `json:\"sub\"`\n\tC int `json:\"c\"`\n}"},
		{"embextp", "struct {\n\t*ext.ESub `json:\"sub\"`\n\tC int `json:\"c\"`\n}"},
		{"embdint", "struct {\n\tDInt `json:\"d\"`\n}"},
		{"embtime", "struct {\n\ttime.Time `json:\"t\"`\n}"},
		{"blank", "struct {\n\t_ string `json:\"f\"`\n}"},
		{"empty", "struct{}"},
		{"skip", "struct {\n\tF string `json:\"-\"`\n}"},
		{"skipc", "struct {\n\tF string `json:\"-,\"`\n}"},
		{"space", "struct {\n\tF string `json:\"f g\"`\n}"},
		{"quote", "struct {\n\tF string `json:\"f\\\"g\"`\n}"},
		{"backsl", "struct {\n\tF string `json:\"f\\\\g\"`\n}"},
		{"uni", "struct {\n\tF string `json:\"имя\"`\n}"},
		{"dash", "struct {\n\tF string `json:\"f-g\"`\n}"},
		{"dollar", "struct {\n\tF string `json:\"$f\"`\n}"},
		{"dot", "struct {\n\tF string `json:\"f.g\"`\n}"},
		{"kw", "struct {\n\tType string `json:\"type\"`\n\tErr error `json:\"-\"`\n}"},
		{"vars", "struct {\n\tV string `json:\"v\"`\n\tS int `json:\"s\"`\n\tErr bool `json:\"err\"`\n\tO string `json:\"o\"`\n\tKey string `json:\"key\"`\n\tW int `json:\"w\"`\n\tResult int `json:\"result\"`\n}"},
		{"dquote", "struct {\n\tF string \"json:\\\"f\\\"\"\n}"},
	} {
		id := "OD_" + d.Name
		out = append(out, Shape{ID: id, Group: "odd", Desc: d.Body, Decl: "//json:optional\ntype " + id + " " + d.Body})
	}
	for _, d := range []struct{ Name, Src string }{
		{"strict", "//json:strict\ntype %s struct {\n\tF string `json:\"f\"`\n}"},
		{"unknown", "//json:whatever\ntype %s struct {\n\tF string `json:\"f\"`\n}"},
		{"upper", "//JSON:optional\ntype %s struct {\n\tF string `json:\"f\"`\n}"},
		{"upperd", "//json:STRICT\ntype %s struct {\n\tF string `json:\"f\"`\n}"},
		{"space", "// json:strict\ntype %s struct {\n\tF string `json:\"f\"`\n}"},
		{"multi", "// %s is a type.\n// json: strict, encode\n// More.\ntype %s struct {\n\tF string `json:\"f\"`\n}"},
		{"block", "/* json:strict */\ntype %s struct {\n\tF string `json:\"f\"`\n}"},
		{"group", "//json:strict\ntype (\n\t%s struct {\n\t\tF string `json:\"f\"`\n\t}\n)"},
		{"grouped", "type (\n\t//json:strict\n\t%s struct {\n\t\tF string `json:\"f\"`\n\t}\n)"},
		{"none", "type %s struct {\n\tF string `json:\"f\"`\n}"},
		{"alias", "//json:optional\ntype %s = Sub"},
		{"generic", "//json:optional\ntype %s[T any] struct {\n\tF T `json:\"f\"`\n}"},
		{"encode", "//json:encode\ntype %s struct {\n\tF string `json:\"f\"`\n}"},
		{"decode", "//json:decode\ntype %s struct {\n\tF string `json:\"f\"`\n}"},
		{"encdec", "//json:encode,decode\ntype %s struct {\n\tF string `json:\"f\"`\n}"},
		{"transit", "//json:transit\ntype %s struct {\n\tSub\n}"},
		{"transit2", "//json:transit\ntype %s struct {\n\tSub\n\tDeep\n}"},
		{"transitt", "//json:transit\ntype %s struct {\n\tF string `json:\"f\"`\n}"},
		{"transite", "//json:transit\ntype %s struct{}"},
		{"local", "func fn() {\n\t//json:optional\n\ttype %s struct {\n\t\tF string `json:\"f\"`\n\t}\n}"},
	} {
		id := "OX_" + d.Name
		src := d.Src
		for i := 0; i < len(src)-1; i++ {
			if src[i:i+2] == "%s" {
				src = src[:i] + id + src[i+2:]
			}
		}
		out = append(out, Shape{ID: id, Group: "odd", Desc: d.Name, Decl: src})
	}
	return out
}()
