package h

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"

	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/google/uuid"
)

func init() { Explorers["S01"] = exploreS01 }

var uuidType = reflect.TypeOf(uuid.UUID{})

// twin makes of a declaration the same one without methods, as encoding/json
// sees it; ok is false where a declaration uses what only valyjson knows (time
// layouts, byte arrays) or what reflection cannot build (recursion).
type twin struct {
	done   map[reflect.Type]reflect.Type
	open   map[reflect.Type]bool
	names  map[string]bool
	hasDef bool
}

func (w *twin) of(t reflect.Type) (out reflect.Type, ok bool) {
	if p, ok := w.done[t]; ok {
		return p, true
	}
	if w.open[t] {
		return nil, false
	}
	w.open[t] = true
	defer func() {
		delete(w.open, t)
		if ok {
			w.done[t] = out
		}
	}()
	switch {
	case custom[t]:
		return t, true
	case isTime(t):
		return timeT, true
	case isUUID(t):
		return uuidType, true
	}
	switch t.Kind() {
	case reflect.Bool:
		return reflect.TypeOf(false), true
	case reflect.String:
		return reflect.TypeOf(""), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return basic[t.Kind()], true
	case reflect.Ptr:
		e, ok := w.of(t.Elem())
		if !ok {
			return nil, false
		}
		return reflect.PtrTo(e), true
	case reflect.Slice:
		e, ok := w.of(t.Elem())
		if !ok {
			return nil, false
		}
		return reflect.SliceOf(e), true
	case reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			return nil, false
		}
		e, ok := w.of(t.Elem())
		if !ok {
			return nil, false
		}
		return reflect.ArrayOf(t.Len(), e), true
	case reflect.Map:
		e, ok := w.of(t.Elem())
		if !ok || t.Key().Kind() != reflect.String {
			return nil, false
		}
		return reflect.MapOf(reflect.TypeOf(""), e), true
	case reflect.Struct:
		var fs []reflect.StructField
		here := map[string]bool{}
		for i, f := range FieldsOf(t) {
			if f.Layout != "" || f.JSON == "" && !f.Skip || strings.ContainsAny(f.JSON, "\\\"'`,") {
				return nil, false
			}
			if f.Skip {
				continue
			}
			for k := range here {
				if strings.EqualFold(k, f.JSON) {
					return nil, false
				}
			}
			here[f.JSON], w.names[f.JSON] = true, true
			w.hasDef = w.hasDef || f.HasDef
			e, ok := w.of(f.Type)
			if !ok {
				return nil, false
			}
			tag := f.JSON
			if f.OmitE {
				tag += ",omitempty"
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: e, Tag: reflect.StructTag(fmt.Sprintf("json:%q", tag))})
		}
		return reflect.StructOf(fs), true
	}
	return nil, false
}

var basic = map[reflect.Kind]reflect.Type{}

func init() {
	for _, v := range []any{int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0)} {
		basic[reflect.TypeOf(v).Kind()] = reflect.TypeOf(v)
	}
}

// put copies a value into its twin.
func (w *twin) put(dst, v reflect.Value) {
	if dst.Type() == v.Type() {
		dst.Set(v)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
			w.put(dst.Elem(), v.Elem())
		}
	case reflect.Slice:
		if !v.IsNil() {
			dst.Set(reflect.MakeSlice(dst.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				w.put(dst.Index(i), v.Index(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.put(dst.Index(i), v.Index(i))
		}
	case reflect.Map:
		if !v.IsNil() {
			dst.Set(reflect.MakeMap(dst.Type()))
			for it := v.MapRange(); it.Next(); {
				e := reflect.New(dst.Type().Elem()).Elem()
				w.put(e, it.Value())
				dst.SetMapIndex(reflect.ValueOf(it.Key().String()), e)
			}
		}
	case reflect.Struct:
		if isTime(v.Type()) {
			dst.Set(v.Convert(timeT))
			return
		}
		k := 0
		for _, f := range FieldsOf(v.Type()) {
			if !f.Skip {
				w.put(dst.Field(k), fldAt(v, f.Index))
				k++
			}
		}
	default:
		dst.Set(v.Convert(dst.Type()))
	}
}

// S01: where encoding/json knows the declaration, it means the same by it.
func exploreS01(c *Ctx) {
	w := &twin{done: map[reflect.Type]reflect.Type{}, open: map[reflect.Type]bool{}, names: map[string]bool{}}
	if c.E.U8 {
		return
	}
	pt, ok := w.of(c.E.T)
	if !ok {
		return
	}
	show := func(v reflect.Value) string {
		t := reflect.New(pt).Elem()
		w.put(t, v)
		return Canon(t, true)
	}
	if c.encodable() {
		for _, v := range c.vals() {
			v := v
			c.Case("write "+Canon(v, false), func() *Event { return c.stdReads(w, pt, v, show) })
			if c.decodable() {
				c.Case("read "+Canon(v, false), func() *Event { return c.stdWrites(w, pt, v, show) })
			}
		}
	}
	if !c.decodable() {
		return
	}
	for _, n := range c.docs() {
		n := n
		if !w.exact(n) {
			continue
		}
		c.Case(n.Text(), func() *Event {
			p := c.New()
			err := Unmarshal(p, []byte(n.Text()))
			if isPanic(err) {
				return &Event{Class: "panic", Input: n.Text(), Outcome: "panic", Detail: err.Error()}
			}
			if err != nil {
				return nil
			}
			q := reflect.New(pt)
			if e := json.Unmarshal([]byte(n.Text()), q.Interface()); e != nil {
				var pe *time.ParseError
				if errors.As(e, &pe) || infinite(n) {
					return nil // documented: further forms of times, overflow of a float64
				}
				return &Event{Class: "std-refuses", Input: n.Text(), Outcome: show(p.Elem()), Why: c.whyNot(n), Detail: "accepted; encoding/json says " + e.Error()}
			}
			if w.hasDef {
				return nil // a default is valyjson's own
			}
			if g, s := show(p.Elem()), Canon(q.Elem(), true); g != s {
				return &Event{Class: "std-value", Input: n.Text(), Outcome: g, Detail: "encoding/json reads " + s}
			}
			return nil
		})
	}
}

func infinite(n *Node) bool {
	if n.K == Num {
		f, _ := strconv.ParseFloat(n.S, 64)
		return math.IsInf(f, 0)
	}
	for _, e := range n.Elem {
		if infinite(e) {
			return true
		}
	}
	return false
}

func (c *Ctx) whyNot(n *Node) string {
	if e := c.M.Decode(n, reflect.New(c.E.T).Elem()); e != nil {
		return e.Why
	}
	return ""
}

// exact: encoding/json also takes names that differ in letter case and repeated
// ones, and replaces what is not UTF-8.
func (w *twin) exact(n *Node) bool {
	if !utf8.ValidString(n.Text()) {
		return false
	}
	for _, k := range n.Key {
		if !w.names[k] {
			for d := range w.names {
				if strings.EqualFold(k, d) {
					return false
				}
			}
		}
	}
	for _, e := range n.Elem {
		if !w.exact(e) {
			return false
		}
	}
	return true
}

// represented: the text denotes the value, by every reading of the declaration.
func (c *Ctx) represented(text []byte, v reflect.Value) bool {
	n, err := parseTree(string(text))
	if err != nil {
		return false
	}
	for _, m := range c.M.Variants() {
		x := reflect.New(c.E.T).Elem()
		if m.Decode(n, x) != nil || Canon(x, true) != Canon(v, true) {
			return false
		}
	}
	return true
}

func (c *Ctx) stdReads(w *twin, pt reflect.Type, v reflect.Value, show func(reflect.Value) string) *Event {
	in := "write " + Canon(v, false)
	b, err := Marshal(c.holder(v))
	if err != nil || !json.Valid(b) {
		return nil // M01, M07
	}
	q := reflect.New(pt)
	w.put(q.Elem(), v)
	if _, e := json.Marshal(q.Interface()); e != nil {
		return nil
	}
	if strings.Contains(in, `\x`) || strings.Contains(in, "&nil") {
		return nil // what is not UTF-8, or a pointer to what is written as null
	}
	q = reflect.New(pt)
	if e := json.Unmarshal(b, q.Interface()); e != nil {
		return &Event{Class: "std-refuses", Input: in, Outcome: outText(b, v), Detail: "encoding/json does not read " + string(b) + ": " + e.Error()}
	}
	if s := Canon(q.Elem(), true); s != show(v) {
		return &Event{Class: "std-value", Input: in, Outcome: s, Detail: "encoding/json reads " + string(b) + " as " + s}
	}
	return nil
}

func (c *Ctx) stdWrites(w *twin, pt reflect.Type, v reflect.Value, show func(reflect.Value) string) *Event {
	in := "read " + Canon(v, false)
	q := reflect.New(pt)
	w.put(q.Elem(), v)
	b, err := json.Marshal(q.Interface())
	if err != nil || !c.represented(b, v) {
		return nil
	}
	p := c.New()
	if err := Unmarshal(p, b); err != nil {
		return &Event{Class: "std-rejected", Input: in, Outcome: errPath(err), Detail: "encoding/json writes " + string(b) + ", refused: " + err.Error()}
	}
	if g := Canon(p.Elem(), true); g != Canon(v, true) {
		return &Event{Class: "std-differs", Input: in, Outcome: g, Detail: "encoding/json writes " + string(b) + ", read as " + g}
	}
	return nil
}
