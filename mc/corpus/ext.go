package corpus

import "strings"

// ExtSource is the package other shapes import types from.
const ExtSource = "package ext\n\n" +
	"type (\n" +
	"\t//json:optional\n\tEStr string\n" +
	"\t//json:optional\n\tEInt int\n" +
	"\t//json:optional\n\tESub struct {\n\t\tX string `json:\"x\"`\n\t\tY int `json:\"y,omitempty\"`\n\t}\n" +
	"\t//json:optional\n\tESlice []string\n" +
	"\t//json:optional\n\tEMap map[string]int\n" +
	"\t//json:custom\n\tEHand struct {\n\t\tN int `json:\"n\"`\n\t}\n" +
	")\n"

// HandSource renders methods written by hand for the type typ of package pkg.
func HandSource(pkg, typ string) string {
	b, err := files.ReadFile("hand.tmpl")
	if err != nil {
		panic(err)
	}
	return strings.NewReplacer("PKG", pkg, "HAND", typ).Replace(string(b))
}
