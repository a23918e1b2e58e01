package h

import (
	"reflect"
	"strings"
	"time"
)

// Meta is what reflection cannot tell about a registered type.
type Meta struct {
	ID      string
	Group   string
	Desc    string
	Strict  bool
	Main    bool // explored as a root, not only as a component
	Transit bool // declared as another defined type
	UUID    bool // declared as uuid.UUID
	U8      bool // uses lists spelled []uint8, which are lists of numbers
	Custom  bool // methods are written by hand
	NoDec   bool // no decoder is generated
	NoEnc   bool // no encoder is generated
}

// Entry is a registered type under test.
type Entry struct {
	Meta
	T reflect.Type
}

var (
	Entries []Entry
	strict  = map[reflect.Type]bool{}
	tagged  = map[reflect.Type]bool{}
	transit = map[reflect.Type]bool{}
	uuidT   = map[reflect.Type]bool{}
	custom  = map[reflect.Type]bool{}
	All     []Entry // components too
)

// Register adds a type; p is a pointer to a zero value.
func Register(p any, m Meta) {
	t := reflect.TypeOf(p).Elem()
	strict[t] = m.Strict
	tagged[t] = true
	transit[t] = m.Transit
	uuidT[t] = m.UUID
	custom[t] = m.Custom
	All = append(All, Entry{Meta: m, T: t})
	if m.Main {
		Entries = append(Entries, Entry{Meta: m, T: t})
	}
}

// FieldInfo describes a struct field as its tags declare it.
type FieldInfo struct {
	Index    []int // path from the declared struct
	Name     string
	JSON     string
	OmitE    bool
	Required bool
	Default  string
	HasDef   bool
	Layout   string
	Type     reflect.Type
	Skip     bool // json:"-"
}

var fieldCache = map[reflect.Type][]FieldInfo{}

// FieldsOf lists the members of a struct with inlined structs expanded.
func FieldsOf(t reflect.Type) []FieldInfo {
	if f, ok := fieldCache[t]; ok {
		return f
	}
	var out []FieldInfo
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		parts := strings.Split(sf.Tag.Get("json"), ",")
		fi := FieldInfo{Index: []int{i}, Name: sf.Name, JSON: parts[0], Type: sf.Type, Layout: sf.Tag.Get("layout")}
		inline := false
		for _, p := range parts[1:] {
			switch p {
			case "omitempty":
				fi.OmitE = true
			case "required":
				fi.Required = true
			case "inline":
				inline = true
			}
		}
		fi.Default, fi.HasDef = sf.Tag.Lookup("default")
		if fi.Default == "" {
			fi.HasDef = false
		}
		if fi.JSON == "-" {
			fi.Skip = true
		}
		if _, has := sf.Tag.Lookup("json"); !has && sf.Anonymous {
			inline = true // the parent of a transit type
		}
		if inline && sf.Type.Kind() == reflect.Struct {
			for _, sub := range FieldsOf(sf.Type) {
				sub.Index = append([]int{i}, sub.Index...)
				out = append(out, sub)
			}
			continue
		}
		out = append(out, fi)
	}
	fieldCache[t] = out
	return out
}

var (
	timeT  = reflect.TypeOf(time.Time{})
	byteT  = reflect.TypeOf(byte(0))
	errorT = reflect.TypeOf((*error)(nil)).Elem()
)

func isTime(t reflect.Type) bool { return t.Kind() == reflect.Struct && t.ConvertibleTo(timeT) }

func isUUID(t reflect.Type) bool {
	if t.Kind() != reflect.Array || t.Len() != 16 || t.Elem() != byteT {
		return false
	}
	return t.PkgPath() == "github.com/google/uuid" || uuidT[t] || strings.Contains(t.Name(), "UUID")
}

func isBytes(t reflect.Type) bool {
	return (t.Kind() == reflect.Slice || t.Kind() == reflect.Array) && t.Elem() == byteT && !isUUID(t)
}

// nullable: a JSON null counts as "no value" for such a position.
func nullable(t reflect.Type) bool {
	if t.Name() != "" {
		return false
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Array:
		return true
	}
	return false
}
