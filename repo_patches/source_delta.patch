From 1617d362f6894484db542aa57a4103edc02d212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 01/20] fix: report a failure to write the generated file

Print ignored the error of the final formatting step, which rewrites the
output: a full disk left a truncated file and a zero exit status.
---
 generator/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/parser.go b/generator/parser.go
index 878e64a..0be2822 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -116,7 +116,12 @@ func (g *Gen) Print(name string) {
 	if err != nil {
 		panic(err)
 	}
-	defer fmtGOFile(name)
+	// it is executed after the file is closed
+	defer func() {
+		if err := fmtGOFile(name); err != nil {
+			panic(err)
+		}
+	}()
 	defer f.Close()
 	_, err = fmt.Fprint(f, "// Code generated [github.com/iv-menshenin/valyjson]; DO NOT EDIT.\n")
 	if err != nil {
-- 
2.43.0


From 1d88eafcc2247853afa320873434d9ad1c5f94bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 02/20] fix: write null for a nil pointer to a time, a uuid or
 an array

A nil *uuid.UUID or a nil pointer to an array attribute made the generated
MarshalTo panic, a nil *time.Time was written as the year 1.
---
 generator/codegen/field/fields.go     |  4 ++--
 generator/codegen/field/marshalers.go | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 411573e..4644a45 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -165,7 +165,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			return block.Render(putCommaFirstIf)
 		}
 		if tt.Sel.Name == "UUID" {
-			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty")
+			block := uuidMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar)
 			return block.Render(putCommaFirstIf)
 		}
 		return marshalTransit(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", f.isStar).Render(putCommaFirstIf)
@@ -192,7 +192,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 			dec := GetDecorExpr(tt.Elt)
 			valType := helpers.DenotedType(tt.Elt)
 			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
-			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil)
+			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil, f.isStar)
 		}
 		return block.Render(putCommaFirstIf)
 
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 1ef5143..f0bfcb4 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -78,11 +78,14 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 		if layout == "" {
 			layout = time.RFC3339
 		}
-		var zeroDate = time.Time{}.Format(layout)
+		var zeroDate = `"` + time.Time{}.Format(layout) + `"`
+		if isStar {
+			zeroDate = "null"
+		}
 		w.IfZero = []ast.Stmt{
 			asthlp.CallStmt(asthlp.Call(
 				RawStringFn,
-				asthlp.StringConstant(fmt.Sprintf(`"%s":"%s"`, jsonName, zeroDate)).Expr(),
+				asthlp.StringConstant(fmt.Sprintf(`"%s":%s`, jsonName, zeroDate)).Expr(),
 			)),
 			SetCommaVar,
 		}
@@ -97,7 +100,7 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 //			result.Write(buf)
 //			result.WriteRune('"')
 //		}
-func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
+func uuidMarshal(src ast.Expr, jsonName string, omitempty, isStar bool) WriteBlock {
 	var bufVar = asthlp.NewIdent("buf")
 	var w = WriteBlock{
 		Block: []ast.Stmt{
@@ -130,6 +133,9 @@ func uuidMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
 			),
 		},
 	}
+	if isStar {
+		w.NotZero = asthlp.NotNil(src)
+	}
 	if !omitempty {
 		w.IfZero = []ast.Stmt{
 			asthlp.CallStmt(asthlp.Call(
@@ -454,7 +460,7 @@ func mapMarshal(src ast.Expr, jsonName string, omitempty, isStringKey bool, ve V
 	return w
 }
 
-func arrayMarshal(src ast.Expr, jsonName string, omitempty bool, ve ValueExtractor, isSlice bool) WriteBlock {
+func arrayMarshal(src ast.Expr, jsonName string, omitempty bool, ve ValueExtractor, isSlice, isStar bool) WriteBlock {
 	const (
 		key = "_k"
 		val = "_v"
@@ -475,7 +481,7 @@ func arrayMarshal(src ast.Expr, jsonName string, omitempty bool, ve ValueExtract
 	)
 	var notNil = asthlp.NotNil(src)
 	var wComma = asthlp.Var(asthlp.VariableType(WantCommaVar.Name, asthlp.Bool))
-	if !isSlice {
+	if !isSlice && !isStar {
 		notNil = nil
 		wComma = asthlp.Assign(asthlp.MakeVarNames(WantCommaVar.Name), asthlp.Assignment, asthlp.False)
 	}
-- 
2.43.0


From 1e5679f0227e5fb6720b825eb45330acebeae737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 03/20] fix: do not lose errors of times, uuids and maps in a
 list

The code generated for such elements declares its own err in the loop body,
so after the break the outer err was nil: a malformed element was accepted
and the rest of the list dropped.
---
 generator/codegen/field/fields.go |  2 ++
 generator/codegen/field/fill.go   | 45 +++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 4644a45..48b83ab 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -35,6 +35,8 @@ type (
 		filled bool
 		// level counts code hierarchy
 		level int
+		// owner is the json name of the attribute whose element this is
+		owner string
 	}
 )
 
diff --git a/generator/codegen/field/fill.go b/generator/codegen/field/fill.go
index 35d7662..c8ffea8 100644
--- a/generator/codegen/field/fill.go
+++ b/generator/codegen/field/fill.go
@@ -238,6 +238,7 @@ func (f *Field) TypedValue(dst *ast.Ident, v string, elemPathExpr ast.Expr) []as
 			expr:  t.Elt,
 			tags:  tags.Parse(fmt.Sprintf(`json:"%s"`, f.tags.JsonName())),
 			level: f.level + 1,
+			owner: f.tags.JsonName(),
 		}
 		intF.prepareRef()
 		if t.Len == nil {
@@ -522,6 +523,27 @@ func (f *Field) breakErr(elemPathChain ast.Expr) []ast.Stmt {
 		// no error checking for string
 		return nil
 	}
+	if f.shadowsErr() {
+		// the loop body has its own err, a break would lose it
+		var parsingErr ast.Expr = asthlp.Call(
+			asthlp.InlineFunc(asthlp.NewIdent(names.ParsingError)),
+			asthlp.Call(asthlp.StrconvItoaFn, elemPathChain),
+			ast.NewIdent(names.VarNameError),
+		)
+		if f.owner != "" {
+			parsingErr = asthlp.Call(
+				asthlp.InlineFunc(asthlp.NewIdent(names.ParsingError)),
+				asthlp.StringConstant(f.owner).Expr(),
+				parsingErr,
+			)
+		}
+		return []ast.Stmt{
+			asthlp.If(
+				asthlp.NotNil(ast.NewIdent(names.VarNameError)),
+				asthlp.Return(parsingErr),
+			),
+		}
+	}
 	return []ast.Stmt{
 		asthlp.If(
 			asthlp.NotNil(ast.NewIdent(names.VarNameError)),
@@ -535,6 +557,29 @@ func (f *Field) breakErr(elemPathChain ast.Expr) []ast.Stmt {
 	}
 }
 
+// shadowsErr tells whether the code that extracts a value of this type declares its own err variable.
+func (f *Field) shadowsErr() bool {
+	var refx = f.refx
+	for {
+		star, ok := refx.(*ast.StarExpr)
+		if !ok {
+			break
+		}
+		refx = star.X
+	}
+	switch t := refx.(type) {
+
+	case *ast.SelectorExpr:
+		return t.Sel.Name == "Time" || t.Sel.Name == "UUID"
+
+	case *ast.MapType:
+		return true
+
+	default:
+		return false
+	}
+}
+
 func (f *Field) fillRefField(rhs, dst ast.Expr) []ast.Stmt {
 	switch t := f.expr.(type) {
 
-- 
2.43.0


From 36ee86c443a8e9a0949fa6dbe6bf269a214e1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 04/20] fix: write a time with the layout constant named in the
 tag

---
 generator/codegen/field/extractors.go | 18 +++++++++++++-----
 generator/codegen/field/marshalers.go | 10 +++++++++-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/generator/codegen/field/extractors.go b/generator/codegen/field/extractors.go
index 0bfdb51..8b19403 100644
--- a/generator/codegen/field/extractors.go
+++ b/generator/codegen/field/extractors.go
@@ -318,11 +318,8 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 		extrStmt = timeExtractionUnify(dst, srcString)
 	} else {
 		var layoutExpr ast.Expr
-		if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
-			layoutExpr = &ast.SelectorExpr{
-				X:   ast.NewIdent(l[0]),
-				Sel: ast.NewIdent(l[1]),
-			}
+		if layoutConst := timeLayoutConst(layout); layoutConst != nil {
+			layoutExpr = layoutConst
 		} else {
 			layoutExpr = &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf(`"%s"`, strings.Replace(layout, "\"", "\\\"", -1))}
 		}
@@ -369,6 +366,17 @@ func timeExtraction(dst *ast.Ident, v, jsonName, layout string) []ast.Stmt {
 	)
 }
 
+// timeLayoutConst returns the expression for a layout given as the name of a constant, like `time.RFC3339`
+func timeLayoutConst(layout string) ast.Expr {
+	if l := strings.Split(layout, "."); len(l) == 2 && l[0] == "time" {
+		return &ast.SelectorExpr{
+			X:   ast.NewIdent(l[0]),
+			Sel: ast.NewIdent(l[1]),
+		}
+	}
+	return nil
+}
+
 // valDateBegin, err := parseDateTime(string(b))
 func timeExtractionUnify(dst *ast.Ident, v ast.Expr) []ast.Stmt {
 	return []ast.Stmt{
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index f0bfcb4..6611f7b 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -54,7 +54,10 @@ func (w WriteBlock) Render(putComma ast.Stmt) []ast.Stmt {
 //	}
 func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool) WriteBlock {
 	var layoutExpr = names.TimeDefaultLayout
-	if layout != "" {
+	var layoutConst = timeLayoutConst(layout)
+	if layoutConst != nil {
+		layoutExpr = layoutConst
+	} else if layout != "" {
 		layoutExpr = asthlp.StringConstant(layout).Expr()
 	}
 	var notZero = asthlp.Not(asthlp.Call(asthlp.InlineFunc(asthlp.Selector(src, names.MethodNameZero))))
@@ -75,6 +78,11 @@ func timeMarshal(src ast.Expr, jsonName, layout string, omitempty, isStar bool)
 		},
 	}
 	if !omitempty {
+		if layoutConst != nil && !isStar {
+			// the value of the constant is not known here, so the zero time is formatted as any other
+			w.IfZero = w.Block
+			return w
+		}
 		if layout == "" {
 			layout = time.RFC3339
 		}
-- 
2.43.0


From 8cba66f0d49d9c0972ce98f2470c9d4733d1ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 05/20] fix: leave a field excluded by the tag json:"-" out of
 the encoded object

---
 generator/codegen/struct.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/generator/codegen/struct.go b/generator/codegen/struct.go
index 67fedc8..86caf27 100644
--- a/generator/codegen/struct.go
+++ b/generator/codegen/struct.go
@@ -130,6 +130,9 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 		if fieldSpec.Tag != nil {
 			fieldTags = tags.Parse(fieldSpec.Tag.Value)
 		}
+		if fieldTags.JsonName() == "-" {
+			continue
+		}
 		visitFunc.AppendStmt(
 			//		if bytes.Equal(key, []byte{'f', 'i', 'l', 't', 'e', 'r'}) {
 			//			. . .
@@ -182,7 +185,7 @@ func (s *Struct) ValidatorFunc() ast.Decl {
 		asthlp.If(asthlp.NotEqual(asthlp.NewIdent(names.VarNameError), asthlp.Nil), asthlp.Return(asthlp.NewIdent(names.VarNameError))),
 	)
 
-	if len(s.spec.Fields.List) > 0 {
+	if len(exportedToJson(s.spec)) > 0 {
 		// var checkFields [1]int
 		fn.AppendStmt(
 			asthlp.Var(asthlp.VariableType(checkFieldsVarName, asthlp.ArrayType(asthlp.Int, asthlp.IntegerConstant(len(s.spec.Fields.List)).Expr()))),
@@ -220,7 +223,8 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		Params(asthlp.Field(names.VarNameWriter, nil, asthlp.Star(asthlp.SimpleSelector("jwriter", "Writer")))).
 		Results(asthlp.Field("", nil, asthlp.ErrorType))
 
-	if len(s.spec.Fields.List) == 0 {
+	var fields = exportedToJson(s.spec)
+	if len(fields) == 0 {
 		return fn.AppendStmt(
 			asthlp.CallStmt(asthlp.Call(field.RawStringFn, asthlp.StringConstant("{}").Expr())),
 			asthlp.Return(asthlp.Nil),
@@ -249,7 +253,7 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 		)),
 	)
 
-	for _, fld := range s.spec.Fields.List {
+	for _, fld := range fields {
 		fn.AppendStmt(jsonFieldStmts(fld)...)
 	}
 
@@ -259,6 +263,18 @@ func (s *Struct) MarshalToFunc() ast.Decl {
 	return fn.Decl()
 }
 
+// exportedToJson returns the fields that are not excluded by the tag `json:"-"`
+func exportedToJson(spec *ast.StructType) []*ast.Field {
+	var result []*ast.Field
+	for _, fld := range spec.Fields.List {
+		if fld.Tag != nil && tags.Parse(fld.Tag.Value).JsonName() == "-" {
+			continue
+		}
+		result = append(result, fld)
+	}
+	return result
+}
+
 func jsonFieldStmts(fld *ast.Field) []ast.Stmt {
 	factory := field.New(fld)
 	if len(fld.Names) == 0 {
-- 
2.43.0


From b79a9eec0e0482da473ba7b79bd0a08779d9f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 06/20] fix: keep commas in the default and layout tags, read
 tags written as interpreted strings

---
 generator/codegen/tags/tags.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/generator/codegen/tags/tags.go b/generator/codegen/tags/tags.go
index 4005038..d96809e 100644
--- a/generator/codegen/tags/tags.go
+++ b/generator/codegen/tags/tags.go
@@ -2,6 +2,7 @@ package tags
 
 import (
 	"reflect"
+	"strconv"
 	"strings"
 )
 
@@ -72,8 +73,9 @@ func (t Tags) Layout() string {
 func Parse(tag string) Tags {
 	var result = make(map[string][]string)
 	result["json"] = strings.Split(StructTag(tag).Get("json"), ",")
-	result["layout"] = strings.Split(StructTag(tag).Get("layout"), ",")
-	result["default"] = strings.Split(StructTag(tag).Get("default"), ",")
+	// the comma separates nothing here, it is a part of the value
+	result["layout"] = []string{StructTag(tag).Get("layout")}
+	result["default"] = []string{StructTag(tag).Get("default")}
 	return result
 }
 
@@ -81,10 +83,11 @@ func StructTag(tag string) reflect.StructTag {
 	if len(tag) < 2 {
 		return ""
 	}
-	if tag[0] == '`' && tag[len(tag)-1] == '`' {
-		return reflect.StructTag(tag[1 : len(tag)-1])
+	value, err := strconv.Unquote(tag)
+	if err != nil {
+		return ""
 	}
-	return ""
+	return reflect.StructTag(value)
 }
 
 type StructTags []string
-- 
2.43.0


From 7784e7d27e3acf21a84a61f974b5f497a5a45f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 07/20] fix: quote the default value of a string as a Go string

---
 generator/codegen/helpers/asthelpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/codegen/helpers/asthelpers.go b/generator/codegen/helpers/asthelpers.go
index 3c0daae..114be7d 100644
--- a/generator/codegen/helpers/asthelpers.go
+++ b/generator/codegen/helpers/asthelpers.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"strconv"
 	"strings"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -47,7 +48,7 @@ func BasicLiteralFromType(t ast.Expr, val string) ast.Expr {
 		case "string":
 			return &ast.BasicLit{
 				Kind:  token.STRING,
-				Value: "\"" + strings.Replace(val, "\"", "\\\"", -1) + "\"",
+				Value: strconv.Quote(val),
 			}
 
 		case "byte", "rune":
-- 
2.43.0


From 5fceda9a5a2940364b80d71a8b22952968e56b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 08/20] fix: refuse fields without a json name and fields
 sharing one

---
 generator/analyse.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/generator/analyse.go b/generator/analyse.go
index 15c33ae..1f0be15 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -167,6 +167,9 @@ func (v *visitor) processDecl(decl taggedDecl, result []renderer) []renderer {
 		stct := &ast.StructType{
 			Fields: &ast.FieldList{List: v.collectFields(typed.Fields.List)}, // uninline
 		}
+		if !tags.StructTags(decl.tags).Custom() {
+			checkFieldNames(stct.Fields.List)
+		}
 		put(codegen.NewStruct(decl.spec.Name.Name, decl.tags, stct))
 
 	case *ast.MapType:
@@ -252,6 +255,28 @@ func (v *visitor) collectFields(src []*ast.Field) []*ast.Field {
 	return flds
 }
 
+// checkFieldNames refuses the fields for which no JSON name is declared, or a name that another field has:
+// neither could they be decoded nor encoded.
+func checkFieldNames(fields []*ast.Field) {
+	var used = make(map[string]struct{}, len(fields))
+	for _, fld := range fields {
+		for _, ident := range fld.Names {
+			tag := tags.Parse(fld.Tag.Value)
+			name := tag.JsonName()
+			if name == "-" || tag.JsonAppendix() == "inline" {
+				continue
+			}
+			if name == "" {
+				panic(fmt.Errorf("all fields should have json names, but %q haven't", ident.Name))
+			}
+			if _, ok := used[name]; ok {
+				panic(fmt.Errorf("the json name of %q is already in use: %q", ident.Name, name))
+			}
+			used[name] = struct{}{}
+		}
+	}
+}
+
 func (v *visitor) resolveExternal(sel *ast.SelectorExpr) *ast.Object {
 	packages, ok := v.g.packages[sel.X.(*ast.Ident).String()]
 	if ok {
-- 
2.43.0


From 31586fc299454706f3b020e0b00d22f53e9050f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:19 +0000
Subject: [PATCH 09/20] fix: keep the cause of a nested encoding error when the
 member name holds a percent sign

---
 generator/codegen/field/fields.go     | 10 ++++++++--
 generator/codegen/field/marshalers.go |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/generator/codegen/field/fields.go b/generator/codegen/field/fields.go
index 48b83ab..fbfd611 100644
--- a/generator/codegen/field/fields.go
+++ b/generator/codegen/field/fields.go
@@ -3,6 +3,7 @@ package field
 import (
 	"fmt"
 	"go/ast"
+	"strings"
 	"unicode"
 
 	asthlp "github.com/iv-menshenin/go-ast"
@@ -182,7 +183,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 		}
 		dec := GetDecorExpr(tt.Value)
 		valType := helpers.DenotedType(tt.Value)
-		errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
+		errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+formatSafe(f.tags.JsonName())+`" attribute %q: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
 		block := mapMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", isString, GetValueExtractor(valType, errExpr, dec))
 		return block.Render(putCommaFirstIf)
 
@@ -193,7 +194,7 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 		} else {
 			dec := GetDecorExpr(tt.Elt)
 			valType := helpers.DenotedType(tt.Elt)
-			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+f.tags.JsonName()+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
+			errExpr := asthlp.Call(asthlp.FmtErrorfFn, asthlp.StringConstant(`can't marshal "`+formatSafe(f.tags.JsonName())+`" item at position %d: %w`).Expr(), asthlp.NewIdent("_k"), asthlp.NewIdent("err"))
 			block = arrayMarshal(src, f.tags.JsonName(), f.tags.JsonAppendix() == "omitempty", GetValueExtractor(valType, errExpr, dec), tt.Len == nil, f.isStar)
 		}
 		return block.Render(putCommaFirstIf)
@@ -204,6 +205,11 @@ func (f *Field) MarshalStatements(src ast.Expr, name string) []ast.Stmt {
 	}
 }
 
+// formatSafe escapes the name for use within a format string.
+func formatSafe(name string) string {
+	return strings.ReplaceAll(name, "%", "%%")
+}
+
 type ValueExtractor func(src ast.Expr) []ast.Stmt
 type DecorSrc func(e ast.Expr) ast.Expr
 
diff --git a/generator/codegen/field/marshalers.go b/generator/codegen/field/marshalers.go
index 6611f7b..1fbfe7b 100644
--- a/generator/codegen/field/marshalers.go
+++ b/generator/codegen/field/marshalers.go
@@ -374,7 +374,7 @@ func structMarshal(src ast.Expr, jsonName string, omitempty bool) WriteBlock {
 				asthlp.Return(
 					asthlp.Call(
 						asthlp.FmtErrorfFn,
-						asthlp.StringConstant(`can't marshal "`+jsonName+`" attribute: %w`).Expr(),
+						asthlp.StringConstant(`can't marshal "`+formatSafe(jsonName)+`" attribute: %w`).Expr(),
 						asthlp.NewIdent(names.VarNameError),
 					),
 				),
-- 
2.43.0


From f78413c54639417eb95b8ffb91a072ae0e844eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 10/20] fix: look for the types of the root package of the
 module

---
 generator/discoverer/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/discoverer/parser.go b/generator/discoverer/parser.go
index 7a54e99..0e7a5f2 100644
--- a/generator/discoverer/parser.go
+++ b/generator/discoverer/parser.go
@@ -43,6 +43,9 @@ func (d *Discoverer) GetPackagePath(packageName string, hints ...string) (string
 }
 
 func (d *Discoverer) PackagePathFromPath(packagePath string) string {
+	if packagePath == d.module {
+		return d.modPath
+	}
 	if strings.HasPrefix(packagePath, d.module+"/") {
 		packagePath = packagePath[len(d.module)+1:]
 	}
-- 
2.43.0


From 5d584332a058fe607c9aa7a3e5e4ff112d170283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:13 +0000
Subject: [PATCH 11/20] fix: take types of another package from the files it is
 built from

Files excluded by build constraints and tests may declare other types of the same name;
which of them was found depended on the iteration over a map.
---
 generator/parser.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/generator/parser.go b/generator/parser.go
index 0be2822..e0e054f 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -3,10 +3,12 @@ package generator
 import (
 	"fmt"
 	"go/ast"
+	"go/build"
 	"go/format"
 	"go/parser"
 	"go/printer"
 	"go/token"
+	"io/fs"
 	"os"
 	"path"
 	"strings"
@@ -144,10 +146,7 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	if err != nil {
 		return nil
 	}
-	for name, pack := range parsed {
-		if strings.HasSuffix(name, "_test") {
-			continue
-		}
+	for _, pack := range parsed {
 		for _, file := range pack.Files {
 			for _, decl := range file.Decls {
 				genDecl, ok := decl.(*ast.GenDecl)
@@ -192,9 +191,16 @@ func parseGo(file string) (ast.Node, error) {
 	return parser.ParseFile(f, file, nil, parser.ParseComments|parser.AllErrors)
 }
 
+// parsePackage parses the files the package is built from.
 func parsePackage(path string) (map[string]*ast.Package, error) {
 	f := token.NewFileSet()
-	return parser.ParseDir(f, path, nil, parser.ParseComments|parser.AllErrors)
+	return parser.ParseDir(f, path, func(info fs.FileInfo) bool {
+		if strings.HasSuffix(info.Name(), "_test.go") {
+			return false
+		}
+		match, err := build.Default.MatchFile(path, info.Name())
+		return match || err != nil
+	}, parser.ParseComments|parser.AllErrors)
 }
 
 func New(file string) *Gen {
-- 
2.43.0


From a4fbdad778a4befe34660785f9b1c606745f0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 12/20] fix: inline the struct of the package that is imported,
 not of any package with that name

---
 generator/analyse.go |  2 +-
 generator/parser.go  | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/generator/analyse.go b/generator/analyse.go
index 1f0be15..35d4a06 100644
--- a/generator/analyse.go
+++ b/generator/analyse.go
@@ -335,7 +335,7 @@ func (v *visitor) exploreInlinedSelector(inlined *ast.SelectorExpr) (fields []*a
 	if !ok {
 		panic(fmt.Errorf("can't inline struct %q; can't recognize %+v expression", inlined.Sel.Name, inlined.X))
 	}
-	pkg, err := v.g.discovery.GetPackage(packIdent.Name, inlined.Sel.Name)
+	pkg, err := v.g.importedPackage(packIdent.Name, inlined.Sel.Name)
 	if err != nil {
 		panic(fmt.Errorf("can't inline struct %q; can't parse '%s' package: %+v", inlined.Sel.Name, packIdent.Name, err))
 	}
diff --git a/generator/parser.go b/generator/parser.go
index e0e054f..f7a1c62 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -168,6 +168,20 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	return nil
 }
 
+// importedPackage parses the package which is imported under the name.
+func (g *Gen) importedPackage(name, objName string) (ast.Node, error) {
+	for _, p := range g.packages[name] {
+		parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
+		if err != nil {
+			return nil, err
+		}
+		for _, pkg := range parsed {
+			return pkg, nil
+		}
+	}
+	return g.discovery.GetPackage(name, objName)
+}
+
 func fmtGOFile(fileName string) (err error) {
 	var fileSet = token.NewFileSet()
 	f, err := parser.ParseFile(fileSet, fileName, nil, parser.ParseComments)
-- 
2.43.0


From 990b898cf750f118e0e26b1294bb1d2db76dd0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 13/20] fix: recognise imported packages whose name is not that
 of their directory

---
 generator/parser.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/generator/parser.go b/generator/parser.go
index f7a1c62..49e6c30 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -52,9 +52,7 @@ func (g *Gen) Parse() (err error) {
 			continue
 		}
 		if name == "" {
-			// FIXME @menshenin the name of package must be read from the package itself
-			split := strings.Split(pkgPath, "/")
-			name = split[len(split)-1]
+			name = g.packageName(pkgPath)
 		}
 		g.packages[name] = append(
 			g.packages[name],
@@ -67,6 +65,16 @@ func (g *Gen) Parse() (err error) {
 	return
 }
 
+// packageName reads the name of the package from the package itself.
+func (g *Gen) packageName(pkgPath string) string {
+	if parsed, err := parsePackage(g.discovery.PackagePathFromPath(pkgPath)); err == nil && len(parsed) == 1 {
+		for name := range parsed {
+			return name
+		}
+	}
+	return path.Base(pkgPath)
+}
+
 func (g *Gen) FixImports(internals ...string) {
 	explorer.RegisterPackage("jwriter", explorer.Package{
 		Path: "github.com/mailru/easyjson/jwriter",
-- 
2.43.0


From 723396f6eee937a61365c9a1ff416e0528f948f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 14/20] fix: a file without a package clause does not prevent
 the generation

---
 generator/discoverer/projstruct.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/discoverer/projstruct.go b/generator/discoverer/projstruct.go
index b2901a1..558e79d 100644
--- a/generator/discoverer/projstruct.go
+++ b/generator/discoverer/projstruct.go
@@ -2,6 +2,7 @@ package discoverer
 
 import (
 	"go/parser"
+	"go/scanner"
 	"go/token"
 	"io"
 	"os"
@@ -87,6 +88,10 @@ func (d *Discoverer) discoverPackages(dir string) error {
 
 func (d *Discoverer) discoverPackage(goFilePath string) error {
 	f, err := parser.ParseFile(token.NewFileSet(), goFilePath, nil, parser.PackageClauseOnly)
+	if _, ok := err.(scanner.ErrorList); ok {
+		// there is no package clause, such as in a file that was not written to the end
+		return nil
+	}
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From cff43625b24280f0107a6d951c60362c9f7e29e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 15/20] fix: find go.mod above the working directory when the
 file is named by a relative path

---
 generator/discoverer/projstruct.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/generator/discoverer/projstruct.go b/generator/discoverer/projstruct.go
index 558e79d..1e4ab11 100644
--- a/generator/discoverer/projstruct.go
+++ b/generator/discoverer/projstruct.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 	"path"
+	"path/filepath"
 
 	"golang.org/x/mod/modfile"
 )
@@ -24,7 +25,12 @@ func New(dir string) *Discoverer {
 	var d = Discoverer{
 		packages: make(map[string][]string),
 	}
-	err := d.discoveryModFile(dir)
+	// go.mod may be in any of the parent directories, which a relative path does not name
+	absDir, err := filepath.Abs(dir)
+	if err != nil {
+		panic(err)
+	}
+	err = d.discoveryModFile(filepath.ToSlash(absDir))
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 1e0df60716ea1c57fe5def3474210507d21c670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 16/20] fix: report that closing the utils file failed

---
 generator/static/static.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator/static/static.go b/generator/static/static.go
index 3cadd45..2095c3e 100644
--- a/generator/static/static.go
+++ b/generator/static/static.go
@@ -68,12 +68,17 @@ func (t *TPL) Execute(ctx Context) error {
 	return t.tpl.Execute(&t.str, ctx)
 }
 
-func (t *TPL) Print(name string) error {
+func (t *TPL) Print(name string) (err error) {
 	f, err := os.Create(name)
 	if err != nil {
 		return err
 	}
-	defer f.Close()
+	// what was written may be lost up to here
+	defer func() {
+		if e := f.Close(); e != nil && err == nil {
+			err = e
+		}
+	}()
 	_, err = f.WriteString(t.str.String())
 	return err
 }
-- 
2.43.0


From 94dceddcb33c513d689fcd35ec46f67e5cd59c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:24 +0000
Subject: [PATCH 17/20] fix: report what of another package can not be read
 instead of ignoring it

---
 generator/parser.go | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/generator/parser.go b/generator/parser.go
index 49e6c30..33caad6 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -1,6 +1,7 @@
 package generator
 
 import (
+	"errors"
 	"fmt"
 	"go/ast"
 	"go/build"
@@ -52,7 +53,9 @@ func (g *Gen) Parse() (err error) {
 			continue
 		}
 		if name == "" {
-			name = g.packageName(pkgPath)
+			if name, err = g.packageName(pkgPath); err != nil {
+				return err
+			}
 		}
 		g.packages[name] = append(
 			g.packages[name],
@@ -66,13 +69,14 @@ func (g *Gen) Parse() (err error) {
 }
 
 // packageName reads the name of the package from the package itself.
-func (g *Gen) packageName(pkgPath string) string {
-	if parsed, err := parsePackage(g.discovery.PackagePathFromPath(pkgPath)); err == nil && len(parsed) == 1 {
+func (g *Gen) packageName(pkgPath string) (string, error) {
+	parsed, err := parsePackage(g.discovery.PackagePathFromPath(pkgPath))
+	if len(parsed) == 1 {
 		for name := range parsed {
-			return name
+			return name, nil
 		}
 	}
-	return path.Base(pkgPath)
+	return path.Base(pkgPath), err
 }
 
 func (g *Gen) FixImports(internals ...string) {
@@ -151,9 +155,6 @@ func (g *Gen) Print(name string) {
 
 func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
-	if err != nil {
-		return nil
-	}
 	for _, pack := range parsed {
 		for _, file := range pack.Files {
 			for _, decl := range file.Decls {
@@ -173,6 +174,10 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 			}
 		}
 	}
+	if err != nil {
+		// the type may be declared in what is not read
+		panic(fmt.Errorf("can't find type %q: %w", objName, err))
+	}
 	return nil
 }
 
@@ -180,12 +185,12 @@ func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 func (g *Gen) importedPackage(name, objName string) (ast.Node, error) {
 	for _, p := range g.packages[name] {
 		parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
-		if err != nil {
-			return nil, err
-		}
 		for _, pkg := range parsed {
 			return pkg, nil
 		}
+		if err != nil {
+			return nil, err
+		}
 	}
 	return g.discovery.GetPackage(name, objName)
 }
@@ -213,16 +218,28 @@ func parseGo(file string) (ast.Node, error) {
 	return parser.ParseFile(f, file, nil, parser.ParseComments|parser.AllErrors)
 }
 
-// parsePackage parses the files the package is built from.
+// parsePackage parses the files the package is built from. A package that is not in the module has none.
+// What can be parsed is returned along with the error for what can not.
 func parsePackage(path string) (map[string]*ast.Package, error) {
+	var matchErr error
 	f := token.NewFileSet()
-	return parser.ParseDir(f, path, func(info fs.FileInfo) bool {
+	parsed, err := parser.ParseDir(f, path, func(info fs.FileInfo) bool {
 		if strings.HasSuffix(info.Name(), "_test.go") {
 			return false
 		}
 		match, err := build.Default.MatchFile(path, info.Name())
-		return match || err != nil
+		if err != nil {
+			matchErr = err
+		}
+		return match
 	}, parser.ParseComments|parser.AllErrors)
+	if errors.Is(err, fs.ErrNotExist) {
+		return nil, nil
+	}
+	if err == nil {
+		err = matchErr
+	}
+	return parsed, err
 }
 
 func New(file string) *Gen {
-- 
2.43.0


From 6de1cf70ccd9cedcc55b741f60c4dfe41ee83cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 18/20] fix: report that closing the generated file failed

---
 generator/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/parser.go b/generator/parser.go
index 33caad6..8062173 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -136,7 +136,12 @@ func (g *Gen) Print(name string) {
 			panic(err)
 		}
 	}()
-	defer f.Close()
+	defer func() {
+		// what was written may be lost up to here
+		if err := f.Close(); err != nil {
+			panic(err)
+		}
+	}()
 	_, err = fmt.Fprint(f, "// Code generated [github.com/iv-menshenin/valyjson]; DO NOT EDIT.\n")
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 0c4c8f2ab0efffaa65e4ef8a6634e057bab363d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 19/20] fix: inline the struct even if a file of its package
 was not written to the end

---
 generator/parser.go | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/generator/parser.go b/generator/parser.go
index 8062173..c12baaf 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -161,28 +161,35 @@ func (g *Gen) Print(name string) {
 func (g *Gen) ExploreType(p explorer.Package, objName string) *ast.TypeSpec {
 	parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
 	for _, pack := range parsed {
-		for _, file := range pack.Files {
-			for _, decl := range file.Decls {
-				genDecl, ok := decl.(*ast.GenDecl)
+		if t := findType(pack, objName); t != nil {
+			return t
+		}
+	}
+	if err != nil {
+		// the type may be declared in what is not read
+		panic(fmt.Errorf("can't find type %q: %w", objName, err))
+	}
+	return nil
+}
+
+func findType(pack *ast.Package, objName string) *ast.TypeSpec {
+	for _, file := range pack.Files {
+		for _, decl := range file.Decls {
+			genDecl, ok := decl.(*ast.GenDecl)
+			if !ok {
+				continue
+			}
+			for _, spec := range genDecl.Specs {
+				t, ok := spec.(*ast.TypeSpec)
 				if !ok {
 					continue
 				}
-				for _, spec := range genDecl.Specs {
-					t, ok := spec.(*ast.TypeSpec)
-					if !ok {
-						continue
-					}
-					if t.Name.Name == objName {
-						return t
-					}
+				if t.Name.Name == objName {
+					return t
 				}
 			}
 		}
 	}
-	if err != nil {
-		// the type may be declared in what is not read
-		panic(fmt.Errorf("can't find type %q: %w", objName, err))
-	}
 	return nil
 }
 
@@ -191,7 +198,10 @@ func (g *Gen) importedPackage(name, objName string) (ast.Node, error) {
 	for _, p := range g.packages[name] {
 		parsed, err := parsePackage(g.discovery.PackagePathFromPath(p.Path))
 		for _, pkg := range parsed {
-			return pkg, nil
+			// there may be files of another package, such as one that was not written to the end
+			if findType(pkg, objName) != nil {
+				return pkg, nil
+			}
 		}
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 0bdef619b080f9c3fe9b082e9f66f59196436b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:07 +0000
Subject: [PATCH 20/20] fix: time and uuid were imported from where an earlier
 run in the process found them

---
 generator/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generator/parser.go b/generator/parser.go
index c12baaf..1e848a4 100644
--- a/generator/parser.go
+++ b/generator/parser.go
@@ -88,6 +88,15 @@ func (g *Gen) FixImports(internals ...string) {
 		Path: "encoding/base64",
 		Kind: explorer.PkgKindSystem,
 	})
+	// these names may have been taken by what was generated before
+	explorer.RegisterPackage("time", explorer.Package{
+		Path: "time",
+		Kind: explorer.PkgKindSystem,
+	})
+	explorer.RegisterPackage("uuid", explorer.Package{
+		Path: "github.com/google/uuid",
+		Kind: explorer.PkgKindExternal,
+	})
 
 	// discovery used imports and build their declaration
 	for name, pkg := range g.packages {
-- 
2.43.0

