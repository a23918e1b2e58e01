package h

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/mailru/easyjson/jwriter"
)

func init() {
	Explorers["M01"] = exploreM01
	Explorers["M02"] = exploreM02
	Explorers["M03"] = exploreM03
	Explorers["M05"] = exploreM05
	Explorers["M06"] = exploreM06
	Explorers["M07"] = exploreM07
}

// outText normalises produced text: the members of a map come in any order,
// so when a value holds a map with several members only the multiset of bytes
// identifies the outcome.
func outText(b []byte, v reflect.Value) string {
	if !bigMap(v) {
		return string(b)
	}
	c := append([]byte{}, b...)
	sort.Slice(c, func(i, j int) bool { return c[i] < c[j] })
	return string(c)
}

func bigMap(v reflect.Value) bool {
	if isTime(v.Type()) {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && bigMap(v.Elem())
	case reflect.Map:
		if v.Len() > 1 {
			return true
		}
		for it := v.MapRange(); it.Next(); {
			if bigMap(it.Value()) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if bigMap(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if bigMap(fld(v, i)) {
				return true
			}
		}
	}
	return false
}

// holder puts a copy of v where its methods can be called.
func (c *Ctx) holder(v reflect.Value) reflect.Value {
	p := reflect.New(c.E.T)
	p.Elem().Set(clone(v))
	return p
}

// encode judges the text produced for v.
func (c *Ctx) encode(v reflect.Value, valid, match bool) *Event {
	in := Canon(v, false)
	times := 1
	if bigMap(v) {
		times = 4
	}
	for i := 0; i < times; i++ {
		b, err := Marshal(c.holder(v))
		if isPanic(err) {
			return &Event{Class: "enc-panic", Input: in, Outcome: "panic", Detail: err.Error()}
		}
		if hand := holdsFailing(v); hand {
			if err == nil {
				return &Event{Class: "enc-noerror", Input: in, Outcome: outText(b, v), Detail: "the error of a nested encoder is lost: " + string(b)}
			}
			return nil
		}
		if err != nil {
			return &Event{Class: "enc-error", Input: in, Outcome: "error", Detail: err.Error()}
		}
		if valid && !json.Valid(b) {
			return &Event{Class: "enc-invalid", Input: in, Outcome: outText(b, v), Detail: "not JSON: " + string(b)}
		}
		if match {
			if ok, why := c.M.MatchEncoding(string(b), v); !ok {
				return &Event{Class: "enc-text", Input: in, Outcome: outText(b, v), Detail: why + ": " + string(b), Why: why}
			}
		}
	}
	return nil
}

// holdsFailing: v holds, where it is written, a value whose hand-written
// encoder fails.
func holdsFailing(v reflect.Value) bool {
	t := v.Type()
	if isTime(t) {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && holdsFailing(v.Elem())
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if holdsFailing(it.Value()) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if holdsFailing(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		if custom[t] {
			return handFails(v)
		}
		for i := 0; i < v.NumField(); i++ {
			if holdsFailing(fld(v, i)) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) vals() []reflect.Value {
	d := 3
	if c.Thorough {
		d = 4
	}
	some := 2000
	if c.Deep {
		d, some = 5, 10000
	}
	out := c.M.Vals(c.E.T, 2)
	for k := 3; k <= d && len(out) < some; k++ {
		out = c.M.Vals(c.E.T, k)
	}
	return append(out, c.M.products(c.E.T, c.Thorough)...)
}

// products: for a struct every combination of a few values per field, as far
// as their number stays below a bound.
func (m *Model) products(t reflect.Type, deep bool) []reflect.Value {
	if t.Kind() != reflect.Struct || isTime(t) || t.NumField() < 2 {
		return nil
	}
	bound := 3000
	if deep {
		bound = 40000
	}
	for _, per := range []int{5, 4, 3, 2} {
		total := 1
		var vals [][]reflect.Value
		for i := 0; i < t.NumField(); i++ {
			v := m.Vals(t.Field(i).Type, 1)
			// the zero value, and the others spread over the domain
			var pick []reflect.Value
			if len(v) <= per {
				pick = v
			} else {
				for k := 0; k < per; k++ {
					pick = append(pick, v[k*(len(v)-1)/(per-1)])
				}
			}
			vals = append(vals, pick)
			if total <= bound {
				total *= len(pick)
			}
		}
		if total > bound {
			continue
		}
		var out []reflect.Value
		for s := 0; s < total; s++ {
			v := reflect.New(t).Elem()
			x := s
			for i := range vals {
				fld(v, i).Set(vals[i][x%len(vals[i])])
				x /= len(vals[i])
			}
			out = append(out, v)
		}
		return out
	}
	return nil
}

// M01: what is produced is JSON.
func exploreM01(c *Ctx) {
	if !c.encodable() {
		return
	}
	for _, v := range c.vals() {
		c.Case(Canon(v, false), func() *Event { return c.encode(v, true, false) })
	}
	// numbers JSON has no word for: an error, or JSON all the same
	for _, v := range c.M.plant(c.E.T, 4, odd) {
		in := "odd " + Canon(v, false)
		c.Case(in, func() *Event {
			b, err := Marshal(c.holder(v))
			switch {
			case isPanic(err):
				return &Event{Class: "enc-panic", Input: in, Outcome: "panic", Detail: err.Error()}
			case err == nil && !json.Valid(b):
				return &Event{Class: "enc-odd", Input: in, Outcome: outText(b, v), Detail: "not JSON: " + string(b)}
			}
			return nil
		})
	}
	for _, v := range c.M.plant(c.E.T, 4, textVals) {
		c.Case(Canon(v, false), func() *Event { return c.encode(v, true, false) })
	}
}

// M02: the text has the declared members with the right names and values.
func exploreM02(c *Ctx) {
	if !c.encodable() {
		return
	}
	for _, v := range c.vals() {
		c.Case(Canon(v, false), func() *Event { return c.encode(v, true, true) })
	}
	if c.Thorough {
		for _, v := range c.M.plant(c.E.T, 4, textVals) {
			c.Case(Canon(v, false), func() *Event { return c.encode(v, true, true) })
		}
	}
}

// M03: omitempty and nil.
func exploreM03(c *Ctx) {
	if !c.encodable() {
		return
	}
	for _, v := range c.vals() {
		if !holdsUnset(v) {
			continue
		}
		c.Case(Canon(v, false), func() *Event { return c.encode(v, true, true) })
	}
}

func holdsUnset(v reflect.Value) bool {
	if v.IsZero() || (v.Kind() == reflect.Slice || v.Kind() == reflect.Map) && v.Len() == 0 {
		return true
	}
	if isTime(v.Type()) {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr:
		return holdsUnset(v.Elem())
	case reflect.Map:
		for it := v.MapRange(); it.Next(); {
			if holdsUnset(it.Value()) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if holdsUnset(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if holdsUnset(fld(v, i)) {
				return true
			}
		}
	}
	return false
}

// M05: decoding what was encoded gives the value back.
func exploreM05(c *Ctx) {
	if !c.encodable() || !c.decodable() {
		return
	}
	for _, v := range c.vals() {
		c.Case(Canon(v, false), func() *Event { return c.roundTrip(v) })
	}
}

func (c *Ctx) roundTrip(v reflect.Value) *Event {
	in := Canon(v, false)
	b, err := Marshal(c.holder(v))
	if isPanic(err) {
		return &Event{Class: "enc-panic", Input: in, Outcome: "panic", Detail: err.Error()}
	}
	if err != nil {
		if holdsFailing(v) {
			return nil
		}
		return &Event{Class: "enc-error", Input: in, Outcome: "error", Detail: err.Error()}
	}
	n, perr := parseTree(string(b))
	if perr != nil {
		return &Event{Class: "enc-invalid", Input: in, Outcome: outText(b, v), Detail: "not JSON: " + string(b)}
	}
	p := c.New()
	derr := Unmarshal(p, b)
	if isPanic(derr) {
		return &Event{Class: "rt-panic", Input: in, Outcome: "panic", Detail: string(b) + ": " + derr.Error()}
	}
	// a value the rules of the declaration do not let through (a required
	// member that is nil, invalid UTF-8, a lossy layout) is not compared
	faithful := false
	var want string
	for _, m := range c.M.Variants() {
		w := reflect.New(c.E.T).Elem()
		if m.Decode(n, w) == nil && Canon(w, true) == Canon(v, true) {
			faithful = true
			want = Canon(w, true)
		}
	}
	if !faithful {
		return c.encode(v, true, true) // lossy by nature, unless the text is wrong
	}
	if derr != nil {
		return &Event{Class: "rt-rejected", Input: in, Outcome: errPath(derr), Detail: string(b) + " is refused: " + derr.Error()}
	}
	if g := Canon(p.Elem(), true); g != want {
		return &Event{Class: "rt-value", Input: in, Outcome: g, Detail: string(b) + " gives " + g}
	}
	return nil
}

// M06: the methods fit the standard package: a value inside what the standard
// encoder and decoder handle is written and read as by the methods.
func exploreM06(c *Ctx) {
	if c.encodable() {
		vals := c.M.Vals(c.E.T, 2)
		for _, v := range vals {
			c.Case("marshal "+Canon(v, false), func() *Event { return c.stdMarshal(v) })
		}
	}
	if c.decodable() {
		for _, n := range c.M.Docs(c.E.T, "", 2) {
			c.Case("unmarshal "+n.Text(), func() *Event { return c.stdUnmarshal(n) })
		}
	}
}

func (c *Ctx) stdMarshal(v reflect.Value) (ev *Event) {
	in := "marshal " + Canon(v, false)
	defer func() {
		if r := recover(); r != nil {
			ev = &Event{Class: "std-panic", Input: in, Outcome: "panic", Detail: fmt.Sprint(r)}
		}
	}()
	if bigMap(v) {
		return nil // two runs may order the members differently
	}
	p := c.holder(v)
	b, err := Marshal(p)
	if isPanic(err) {
		return &Event{Class: "std-panic", Input: in, Outcome: "panic", Detail: err.Error()}
	}
	type box struct {
		A int `json:"a"`
		V any `json:"v"`
		Z int `json:"z"`
	}
	s, serr := json.Marshal([]any{box{1, p.Interface(), 2}, reflect.Zero(reflect.PtrTo(c.E.T)).Interface()})
	if err != nil {
		if serr == nil {
			return &Event{Class: "std-marshal", Input: in, Outcome: "noerror", Detail: "the error is lost"}
		}
		return nil
	}
	var buf bytes.Buffer
	if e := json.Compact(&buf, []byte(`[{"a":1,"v":`+string(b)+`,"z":2},null]`)); e != nil {
		return &Event{Class: "enc-invalid", Input: in, Outcome: outText(b, v), Detail: "not JSON: " + string(b)}
	}
	if serr != nil {
		return &Event{Class: "std-marshal", Input: in, Outcome: "error", Detail: serr.Error()}
	}
	var x, y any
	json.Unmarshal(buf.Bytes(), &x)
	json.Unmarshal(s, &y)
	if !reflect.DeepEqual(x, y) {
		return &Event{Class: "std-marshal", Input: in, Outcome: string(s), Detail: "standard encoder: " + string(s) + ", methods: " + buf.String()}
	}
	return nil
}

func (c *Ctx) stdUnmarshal(n *Node) (ev *Event) {
	text := n.Text()
	in := "unmarshal " + text
	defer func() {
		if r := recover(); r != nil {
			ev = &Event{Class: "std-panic", Input: in, Outcome: "panic", Detail: fmt.Sprint(r)}
		}
	}()
	if n.K == Null {
		return nil // the standard decoder has its own rule for null
	}
	lt := reflect.SliceOf(c.E.T)
	l := reflect.New(lt)
	err := json.Unmarshal([]byte("[ "+text+" ,\n"+text+"]"), l.Interface())
	mp := reflect.New(reflect.MapOf(reflect.TypeOf(""), reflect.PtrTo(c.E.T)))
	merr := json.Unmarshal([]byte(`{"k": `+text+`}`), mp.Interface())
	p := c.New()
	derr := Unmarshal(p, []byte(text))
	if isPanic(derr) {
		return &Event{Class: "std-panic", Input: in, Outcome: "panic", Detail: derr.Error()}
	}
	if (derr == nil) != (err == nil) || (derr == nil) != (merr == nil) {
		return &Event{Class: "std-unmarshal", Input: in, Outcome: fmt.Sprint(err == nil, merr == nil, derr == nil), Detail: fmt.Sprintf("in a list: %v, in a map: %v, alone: %v", err, merr, derr)}
	}
	if derr != nil {
		return nil
	}
	want := Canon(p.Elem(), false)
	for i := 0; i < 2; i++ {
		if g := Canon(l.Elem().Index(i), false); g != want {
			return &Event{Class: "std-unmarshal", Input: in, Outcome: g, Detail: "in a list: " + g + ", alone: " + want}
		}
	}
	if g := Canon(mp.Elem().MapIndex(reflect.ValueOf("k")).Elem(), false); g != want {
		return &Event{Class: "std-unmarshal", Input: in, Outcome: g, Detail: "in a map: " + g + ", alone: " + want}
	}
	return nil
}

// isUnlucky: the error tells its cause, to people and to programs.
func isUnlucky(err error) bool {
	var u interface{ Unlucky() }
	return strings.Contains(err.Error(), "unlucky number") && errors.As(err, &u)
}

// M07: a failing nested encoder or decoder fails the whole.
func exploreM07(c *Ctx) {
	if !mentions(c.E.T, func(t reflect.Type) bool { return custom[t] }) {
		return
	}
	if c.encodable() {
		for _, v := range append(c.vals(), c.M.handVals(c.E.T, 3)...) {
			if !holdsFailing(v) {
				continue
			}
			c.Case(Canon(v, false), func() *Event {
				if ev := c.encode(v, true, true); ev != nil {
					return ev
				}
				var w jwriter.Writer
				err := marshalTo(c.holder(v), &w)
				if err == nil {
					return &Event{Class: "enc-noerror", Input: Canon(v, false), Outcome: "MarshalTo", Detail: "the error of a nested encoder is lost"}
				}
				if !isUnlucky(err) {
					return &Event{Class: "enc-cause", Input: Canon(v, false), Outcome: "MarshalTo", Detail: "the cause is not told: " + err.Error()}
				}
				return nil
			})
		}
	}
	if c.decodable() {
		docs := c.M.leaves(c.E.T, "", func(t reflect.Type, _ string) []*Node {
			if custom[t] {
				return []*Node{nObj("n", nNum("13")), nObj("n", nNum("12"))}
			}
			return nil
		}, 5)
		for _, n := range docs {
			c.Case(n.Text(), func() *Event {
				if ev := c.decode(nil, n.Text(), n, true); ev != nil {
					return ev
				}
				p := c.New()
				if err := Unmarshal(p, []byte(n.Text())); err != nil && !isUnlucky(err) {
					return &Event{Class: "dec-cause", Input: n.Text(), Outcome: "cause", Detail: "the cause is not told: " + err.Error()}
				}
				return nil
			})
		}
	}
}

// handVals puts the refused value into every place of a value, one at a time
// and among good ones.
func (m *Model) handVals(t reflect.Type, depth int) []reflect.Value {
	return m.plant(t, depth, func(t reflect.Type) []reflect.Value {
		if !custom[t] {
			return nil
		}
		var out []reflect.Value
		for _, x := range []int64{13, 12} {
			v := reflect.New(t).Elem()
			fld(v, 0).SetInt(x)
			out = append(out, v)
		}
		return out
	})
}

// plant puts the values leaf gives for a type into every place of that type,
// one place at a time.
func (m *Model) plant(t reflect.Type, depth int, leaf func(reflect.Type) []reflect.Value) []reflect.Value {
	if r := leaf(t); r != nil {
		return r
	}
	if depth <= 0 || isTime(t) || isUUID(t) || isBytes(t) && !m.U8 {
		return nil
	}
	var out []reflect.Value
	switch t.Kind() {
	case reflect.Ptr:
		for _, e := range m.plant(t.Elem(), depth, leaf) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			v := reflect.New(t).Elem()
			v.Set(p.Convert(t))
			out = append(out, v)
		}
	case reflect.Slice, reflect.Array:
		es := m.plant(t.Elem(), depth-1, leaf)
		for i, e := range es {
			for pos := 0; pos < 3; pos++ {
				v := reflect.New(t).Elem()
				n := 3
				if t.Kind() == reflect.Slice {
					v.Set(reflect.MakeSlice(t, 3, 3))
				} else {
					n = t.Len()
				}
				for j := 0; j < n; j++ {
					v.Index(j).Set(es[(i+1)%len(es)])
				}
				if pos < n {
					v.Index(pos).Set(e)
				}
				out = append(out, v)
			}
		}
	case reflect.Map:
		for _, e := range m.plant(t.Elem(), depth-1, leaf) {
			v := reflect.MakeMap(t)
			v.SetMapIndex(reflect.ValueOf("k").Convert(t.Key()), e)
			out = append(out, v)
		}
		if r := leaf(t.Key()); r != nil && t.Key().Kind() == reflect.String {
			for _, k := range r {
				v := reflect.MakeMap(t)
				v.SetMapIndex(k, reflect.Zero(t.Elem()))
				out = append(out, v)
			}
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			for _, e := range m.plant(t.Field(i).Type, depth-1, leaf) {
				v := reflect.New(t).Elem()
				fld(v, i).Set(e)
				out = append(out, v)
			}
		}
	}
	return out
}

// texts are one and two character strings: every byte, and characters from
// the places where encodings change.
var texts = func() []string {
	var out []string
	for b := 0; b < 256; b++ {
		out = append(out, string([]byte{byte(b)}))
	}
	for _, r := range []rune{0x80, 0x7ff, 0x800, 0x2027, 0x2028, 0x2029, 0x202a, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff} {
		out = append(out, string(r), "a"+string(r)+"b")
	}
	return append(out, "\xed\xa0\x80", "\xc3", "\xe2\x80", "\xf0\x9f\x98", "ok\xffok\"", "</script>", "\\u0041", "\r\n\t\b\f", strings.Repeat("long ", 400))
}()

func textVals(t reflect.Type) []reflect.Value {
	if t.Kind() != reflect.String {
		return nil
	}
	var out []reflect.Value
	for _, s := range texts {
		v := reflect.New(t).Elem()
		v.SetString(s)
		out = append(out, v)
	}
	return out
}

func odd(t reflect.Type) []reflect.Value {
	if k := t.Kind(); k != reflect.Float32 && k != reflect.Float64 {
		return nil
	}
	var out []reflect.Value
	for _, x := range []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)} {
		v := reflect.New(t).Elem()
		v.SetFloat(x)
		out = append(out, v)
	}
	return out
}

func marshalTo(p reflect.Value, w *jwriter.Writer) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = PanicErr{r}
		}
	}()
	return p.Interface().(writerTo).MarshalTo(w)
}

// reset judges Reset on v.
func (c *Ctx) reset(v reflect.Value) *Event {
	in := Canon(v, false)
	p := c.holder(v)
	if err := Reset(p); err != nil {
		return &Event{Class: "reset-panic", Input: in, Outcome: "panic", Detail: err.Error()}
	}
	if g := Canon(p.Elem(), true); g != Canon(c.New().Elem(), true) {
		return &Event{Class: "reset", Input: in, Outcome: g, Detail: "after Reset " + g}
	}
	return nil
}
