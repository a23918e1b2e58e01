package corpus

import (
	"fmt"
	"strings"
)

// Roles are the declarations that ask for a part of the methods, in every
// form a type can have, and the types that take their directive from a list:
// what is generated for which type.
func Roles() []Shape {
	var out []Shape
	dirs := []struct{ id, text string }{
		{"opt", "//json:optional\n"},
		{"strict", "//json:strict\n"},
		{"enc", "//json:encode\n"},
		{"dec", "//json:decode\n"},
		{"senc", "//json:strict,encode\n"},
		{"encs", "//json:encode\n//json:strict\n"},
		{"sdec", "//json:strict\n//json:decode\n"},
		{"decs", "//json:decode,strict\n"},
		{"other", "//json:whatever\n"},
	}
	kinds := []struct{ id, text string }{
		{"struct", "struct {\n\tF string `json:\"f\"`\n}"},
		{"empty", "struct{}"},
		{"slice", "[]string"},
		{"arr", "[2]int"},
		{"map", "map[string]int"},
		{"str", "string"},
		{"u64", "uint64"},
		{"bool", "bool"},
		{"f32", "float32"},
		{"bytes", "[]byte"},
		{"bytes3", "[3]byte"},
		{"time", "time.Time"},
		{"uuid", "uuid.UUID"},
		{"ext", "ext.ESub"},
	}
	add := func(id, decl string) {
		out = append(out, Shape{ID: id, Group: "roles", Desc: strings.Join(strings.Fields(decl), " "), Decl: decl})
	}
	for _, d := range dirs {
		for _, k := range kinds {
			id := "RO_" + d.id + "_" + k.id
			// the type alone, with one of the same form that is not asked for
			add(id, fmt.Sprintf("%stype %s %s\n\ntype Not %s", d.text, id, k.text, k.text))
			// a type derived from it
			add(id+"_d", fmt.Sprintf("%stype %s_d Base\n\n%stype Base %s", d.text, id, d.text, k.text))
			for _, c := range []struct{ id, text string }{{"l", "[]%s"}, {"a", "[2]%s"}} {
				// a list of elements without a directive, and a list of such lists
				elem := "type Elem " + k.text + "\n\n"
				list := func(n, of string) string {
					return fmt.Sprintf("%stype %s %s\n\n", d.text, n, fmt.Sprintf(c.text, of))
				}
				n := id + "_" + c.id
				add(n, list(n, "Elem")+elem+"type Not "+k.text)
				add(n+"r", elem+list(n+"r", "Elem")+"type Not "+k.text)
				mid := "type Mid []Elem\n\n"
				add(n+"2", list(n+"2", "Mid")+mid+elem)
				add(n+"r2", elem+mid+list(n+"r2", "Mid"))
			}
			// two lists, the element once, and a struct that holds them
			add(id+"_w", fmt.Sprintf("%stype %s_w struct {\n\tL Rows `json:\"l\"`\n\tM Lines `json:\"m\"`\n\tE Elem `json:\"e\"`\n}\n\n%stype Rows []Elem\n\n%stype Lines [2]Elem\n\ntype Elem %s", d.text, id, d.text, d.text, k.text))
		}
	}
	return out
}
