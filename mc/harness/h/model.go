package h

import (
	"encoding/base64"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// Model is the reference semantics.  With no quirk enabled it is what the
// documentation promises; each quirk is one recorded deviation of the
// unchanged code (see known_findings.json) and is switched on only to tell a
// recorded deviation from a new one.
type Model struct {
	Q   map[string]bool
	Hit map[string]bool
	U8  bool // []uint8 spelled as a list of numbers, not as base64 text

	// Two points on which the documentation leaves a choice, for named
	// collection types only: a null is an error (default), is ignored or
	// empties the value, and a named map is replaced (default) or extended.
	NamedNull  int
	NamedMerge bool
}

// Variants of the model that differ in what is left open.
func (m *Model) Variants() []*Model {
	var out []*Model
	for i := 0; i < 6; i++ {
		c := *m
		c.NamedNull, c.NamedMerge = i/2, i&1 == 1
		out = append(out, &c)
	}
	return out
}

// null handles a null given for a named collection type; false: it is an
// error like any other value of the wrong kind.
func (m *Model) null(v reflect.Value) bool {
	t := v.Type()
	if t.Name() == "" || isUUID(t) || m.NamedNull == 0 {
		return false
	}
	switch t.Kind() {
	case reflect.Slice, reflect.Map, reflect.Array:
		if m.NamedNull == 2 {
			v.Set(reflect.Zero(t))
		}
		return true
	}
	return false
}

func (m *Model) q(id string) bool {
	if m.Q[id] {
		if m.Hit == nil {
			m.Hit = map[string]bool{}
		}
		m.Hit[id] = true
		return true
	}
	return false
}

// DErr is a decoding failure with the location of the offending element.
type DErr struct {
	Path []string
	Why  string
}

func fail(why string) *DErr { return &DErr{Why: why} }

func (e *DErr) at(p string) *DErr {
	e.Path = append([]string{p}, e.Path...)
	return e
}

func (e *DErr) String() string {
	if e == nil {
		return "<ok>"
	}
	return strings.Join(e.Path, ".") + ": " + e.Why
}

// Decode applies document n to v, a value of a registered type.
func (m *Model) Decode(n *Node, v reflect.Value) *DErr {
	return m.decode(n, v, "")
}

func intLit(s string) (*big.Int, bool) {
	for i := 0; i < len(s); i++ {
		if (s[i] < '0' || s[i] > '9') && !(i == 0 && s[i] == '-') {
			return nil, false
		}
	}
	z, ok := new(big.Int).SetString(s, 10)
	return z, ok
}

var knownLayouts = []string{time.RFC3339Nano, time.RFC3339, "2006-01-02 15:04:05Z07:00", "02.01.2006 15:04:05Z07:00"}

var layoutConst = map[string]string{
	"time.RFC3339": time.RFC3339, "time.RFC3339Nano": time.RFC3339Nano, "time.RFC1123": time.RFC1123, "time.RFC1123Z": time.RFC1123Z,
	"time.RFC822": time.RFC822, "time.RFC822Z": time.RFC822Z, "time.RFC850": time.RFC850, "time.ANSIC": time.ANSIC, "time.UnixDate": time.UnixDate, "time.Kitchen": time.Kitchen,
	"time.DateOnly": time.DateOnly, "time.DateTime": time.DateTime,
}

func (m *Model) decode(n *Node, v reflect.Value, layout string) *DErr {
	t := v.Type()
	if transit[t] {
		if t.Kind() == reflect.Struct && !isTime(t) && t.NumField() == 1 && t.Field(0).Anonymous && t.Field(0).Tag == "" {
			return m.decode(n, fld(v, 0), layout) // the parent does it all
		}
		// such a type decodes into a new value of its underlying type
		w := reflect.New(t).Elem()
		if e := m.decode1(n, w, layout); e != nil {
			return e
		}
		v.Set(w)
		return nil
	}
	return m.decode1(n, v, layout)
}

func (m *Model) decode1(n *Node, v reflect.Value, layout string) *DErr {
	t := v.Type()
	switch {
	case isTime(t):
		if n.K != Str {
			return fail("not a string")
		}
		if layout != "" {
			l := layout
			if c, ok := layoutConst[l]; ok {
				l = c
			}
			tm, err := time.Parse(l, n.S)
			if err != nil {
				return fail("bad time")
			}
			v.Set(reflect.ValueOf(tm).Convert(t))
			return nil
		}
		for _, l := range knownLayouts {
			if tm, err := time.Parse(l, n.S); err == nil {
				v.Set(reflect.ValueOf(tm).Convert(t))
				return nil
			}
		}
		return fail("bad time")

	case isUUID(t):
		if n.K != Str {
			return fail("not a string")
		}
		u, ok := parseUUID(n.S)
		if !ok {
			return fail("bad uuid")
		}
		for i := 0; i < 16; i++ {
			v.Index(i).SetUint(uint64(u[i]))
		}
		return nil

	case isBytes(t) && !m.U8:
		if n.K == Null && m.null(v) {
			return nil
		}
		if n.K != Str {
			return fail("not a string")
		}
		b, err := base64.StdEncoding.DecodeString(n.S)
		if err != nil {
			return fail("bad base64")
		}
		if t.Kind() == reflect.Slice {
			s := reflect.MakeSlice(t, len(b), len(b))
			reflect.Copy(s, reflect.ValueOf(b))
			v.Set(s)
			return nil
		}
		if len(b) != t.Len() {
			return fail("incomplete data")
		}
		reflect.Copy(v, reflect.ValueOf(b))
		return nil
	}
	switch t.Kind() {
	case reflect.Bool:
		if n.K != Bool {
			return fail("not a bool")
		}
		v.SetBool(n.B)
	case reflect.String:
		if n.K != Str {
			return fail("not a string")
		}
		v.SetString(n.S)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if n.K != Num {
			return fail("not a number")
		}
		z, ok := intLit(n.S)
		if !ok {
			return fail("not an integer")
		}
		if !z.IsInt64() {
			return fail("out of range")
		}
		if v.OverflowInt(z.Int64()) {
			if !(m.q("int-wrap")) {
				return fail("out of range")
			}
		}
		v.Set(reflect.ValueOf(z.Int64()).Convert(t))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if n.K != Num {
			return fail("not a number")
		}
		z, ok := intLit(n.S)
		if !ok || strings.HasPrefix(n.S, "-") {
			return fail("not an unsigned integer")
		}
		if !z.IsUint64() {
			return fail("out of range")
		}
		if v.OverflowUint(z.Uint64()) {
			if !m.q("int-wrap") {
				return fail("out of range")
			}
		}
		v.Set(reflect.ValueOf(z.Uint64()).Convert(t))
	case reflect.Float32, reflect.Float64:
		if n.K != Num {
			return fail("not a number")
		}
		f, _ := strconv.ParseFloat(n.S, 64)
		if math.IsInf(f, 0) {
			// documented by the repository's own tests: overflow of a
			// float64 yields infinity
			if t.Kind() == reflect.Float32 {
				return fail("out of range")
			}
		} else if t.Kind() == reflect.Float32 && math.Abs(f) > math.MaxFloat32 {
			if !m.q("int-wrap") {
				return fail("out of range")
			}
		}
		if t.Kind() == reflect.Float32 {
			v.Set(reflect.ValueOf(float32(f)).Convert(t))
		} else {
			v.SetFloat(f)
		}
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		if e := m.decode(n, p.Elem(), layout); e != nil {
			return e
		}
		v.Set(p.Convert(t))
	case reflect.Slice:
		if n.K == Null && m.null(v) {
			return nil
		}
		if n.K != Arr {
			return fail("not an array")
		}
		s := reflect.MakeSlice(t, len(n.Elem), len(n.Elem))
		for i, e := range n.Elem {
			if er := m.decodeElem(e, s.Index(i)); er != nil {
				return er.at(strconv.Itoa(i))
			}
		}
		v.Set(s)
	case reflect.Array:
		if n.K == Null && m.null(v) {
			return nil
		}
		if n.K != Arr {
			return fail("not an array")
		}
		if len(n.Elem) != t.Len() {
			return fail("array len mismatch")
		}
		a := reflect.New(t).Elem()
		for i, e := range n.Elem {
			if er := m.decodeElem(e, a.Index(i)); er != nil {
				return er.at(strconv.Itoa(i))
			}
		}
		v.Set(a)
	case reflect.Map:
		if n.K == Null && m.null(v) {
			return nil
		}
		if n.K != Obj {
			return fail("not an object")
		}
		mv := reflect.MakeMap(t)
		if (t.Name() == "" || m.NamedMerge) && !v.IsNil() {
			mv = v // members are added to a map already there
		}
		for i, e := range n.Elem {
			ev := reflect.New(t.Elem()).Elem()
			if er := m.decodeElem(e, ev); er != nil {
				return er.at(n.Key[i])
			}
			mv.SetMapIndex(reflect.ValueOf(n.Key[i]).Convert(t.Key()), ev)
		}
		v.Set(mv)
	case reflect.Struct:
		if e := m.decodeStruct(n, v); e != nil {
			return e
		}
		if custom[t] && handFails(v) {
			return fail("refused by a decoder written by hand")
		}
	default:
		panic("model: unsupported kind " + t.String())
	}
	return nil
}

// decodeElem decodes an element of a slice, array or map.
func (m *Model) decodeElem(n *Node, v reflect.Value) *DErr {
	if n.K == Null && nullable(v.Type()) {
		v.Set(reflect.Zero(v.Type()))
		return nil
	}
	return m.decode(n, v, "")
}

func (m *Model) decodeStruct(n *Node, v reflect.Value) *DErr {
	t := v.Type()
	if n.K != Obj {
		return fail("not an object")
	}
	fields := FieldsOf(t)
	known := map[string]int{}
	for _, f := range fields {
		if !f.Skip {
			known[f.JSON] = 0
		}
	}
	for _, k := range n.Key {
		c, ok := known[k]
		if !ok {
			if strict[t] {
				return fail("unexpected field")
			}
			continue
		}
		known[k] = c + 1
		if c+1 > 1 {
			return fail("the field appears in the object twice").at(k)
		}
	}
	for _, f := range fields {
		if f.Skip {
			continue
		}
		fv := fldAt(v, f.Index)
		c := n.Get(f.JSON)
		null := c != nil && c.K == Null && nullable(f.Type)
		switch {
		case c != nil && !null:
			if e := m.decode(c, fv, f.Layout); e != nil {
				return e.at(f.JSON)
			}
		case f.HasDef:
			if null && f.Type.Kind() == reflect.Ptr {
				continue // an explicit null is not replaced by the default
			}
			setDefault(fv, f.Default)
		case f.Required:
			return fail(missing).at(f.JSON)
		}
	}
	return nil
}

func setDefault(v reflect.Value, d string) {
	t := v.Type()
	switch t.Kind() {
	case reflect.Ptr:
		p := reflect.New(t.Elem())
		setDefault(p.Elem(), d)
		v.Set(p.Convert(t))
	case reflect.Bool:
		v.SetBool(d == "true")
	case reflect.String:
		v.SetString(d)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x, err := strconv.ParseInt(d, 0, 64)
		if err != nil {
			panic("bad default " + d)
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x, err := strconv.ParseUint(d, 0, 64)
		if err != nil {
			panic("bad default " + d)
		}
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		x, err := strconv.ParseFloat(d, 64)
		if err != nil {
			panic("bad default " + d)
		}
		v.SetFloat(x)
	default:
		panic("default for " + t.String())
	}
}

func parseUUID(s string) (u [16]byte, ok bool) {
	switch {
	case len(s) == 36+9 && strings.EqualFold(s[:9], "urn:uuid:"):
		s = s[9:]
	case len(s) == 36+2 && s[0] == '{' && s[37] == '}':
		s = s[1:37]
	case len(s) == 32:
		s = s[:8] + "-" + s[8:12] + "-" + s[12:16] + "-" + s[16:20] + "-" + s[20:]
	}
	if len(s) != 36 || s[8] != '-' || s[13] != '-' || s[18] != '-' || s[23] != '-' {
		return u, false
	}
	h := strings.ReplaceAll(s, "-", "")
	if len(h) != 32 {
		return u, false
	}
	for i := 0; i < 16; i++ {
		x, err := strconv.ParseUint(h[2*i:2*i+2], 16, 8)
		if err != nil || h[2*i] == '+' || h[2*i] == '-' {
			return u, false
		}
		u[i] = byte(x)
	}
	return u, true
}

// handFails: the types with methods written by hand refuse one value.
func handFails(v reflect.Value) bool {
	return v.NumField() > 0 && fld(v, 0).Kind() == reflect.Int && fld(v, 0).Int() == 13
}

const missing = "required element is missing"
