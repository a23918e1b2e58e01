package h

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/mailru/easyjson/jwriter"
)

func init() {
	Explorers["H01"] = exploreH01
	Explorers["H02"] = exploreH02
	Explorers["H03"] = exploreH03
	Explorers["H04"] = exploreH04
	Explorers["M04"] = exploreM04
}

// op is a step of a history of one value.
type op struct {
	name string
	doc  *Node // nil: Reset
	fn   func(p reflect.Value) error
}

func (o op) apply(p reflect.Value) error {
	if o.fn != nil {
		return o.fn(p)
	}
	return Unmarshal(p, []byte(o.doc.Text()))
}

// Key is the whole state of a value: what can be seen, and what the spare
// capacity of its slices still holds.
func Key(v reflect.Value) string {
	var b strings.Builder
	key(&b, v)
	return b.String()
}

func key(b *strings.Builder, v reflect.Value) {
	if isTime(v.Type()) {
		canon(b, v, false)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		key(b, v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil[]")
			return
		}
		b.WriteByte('[')
		full := v.Slice3(0, v.Cap(), v.Cap())
		for i := 0; i < full.Len(); i++ {
			if i == v.Len() {
				b.WriteByte('|')
			}
			if v.Type().Elem().Kind() == reflect.Uint8 && i >= v.Len() {
				break // bytes are always overwritten as a whole
			}
			key(b, full.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			key(b, v.Index(i))
			b.WriteByte(' ')
		}
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil{}")
			return
		}
		var l []string
		for it := v.MapRange(); it.Next(); {
			var e strings.Builder
			key(&e, it.Value())
			l = append(l, it.Key().String()+":"+e.String())
		}
		sort.Strings(l)
		b.WriteString("{" + strings.Join(l, " ") + "}")
	case reflect.Struct:
		b.WriteByte('(')
		for i := 0; i < v.NumField(); i++ {
			key(b, fld(v, i))
			b.WriteByte(';')
		}
		b.WriteByte(')')
	default:
		canon(b, v, false)
	}
}

// partial lists small, well typed documents which leave much out.
func (m *Model) partial(t reflect.Type, layout string, depth int) []*Node {
	if depth <= 0 || isTime(t) || isUUID(t) || isBytes(t) && !m.U8 {
		return m.good(t, layout)[:1]
	}
	switch t.Kind() {
	case reflect.Ptr:
		return m.partial(t.Elem(), layout, depth)
	case reflect.Slice:
		out := []*Node{nArr()}
		p := m.partial(t.Elem(), "", depth-1)
		out = append(out, nArr(p[0]))
		if len(p) > 1 {
			out = append(out, nArr(p[1], p[0]))
		}
		return append(out, nArr(p[0], p[len(p)-1], p[0]))
	case reflect.Array:
		p := m.partial(t.Elem(), "", depth-1)
		a := nArr()
		for i := 0; i < t.Len(); i++ {
			a.Elem = append(a.Elem, p[i%len(p)])
		}
		return []*Node{a}
	case reflect.Map:
		out := []*Node{nObj()}
		p := m.partial(t.Elem(), "", depth-1)
		out = append(out, nObj("k1", p[0]))
		return append(out, nObj("k3", p[len(p)-1]))
	case reflect.Struct:
		out := []*Node{nObj()}
		n := 0
		for _, f := range FieldsOf(t) {
			if f.Skip {
				continue
			}
			p := m.partial(f.Type, f.Layout, depth-1)
			for i, e := range p {
				if i < 3 && n < 14 {
					out = append(out, nObj(f.JSON, e))
					n++
				}
			}
		}
		return out
	}
	return m.good(t, layout)[:1]
}

// histDocs are the documents histories are made of.
func (m *Model) histDocs(t reflect.Type, layout string) []*Node {
	g := m.good(t, layout)
	out := append([]*Node{}, g...)
	out = append(out, m.partial(t, layout, 4)...)
	// nulls: in every nullable member or element
	switch t.Kind() {
	case reflect.Struct:
		if isTime(t) {
			break
		}
		all := nObj()
		for _, f := range FieldsOf(t) {
			if !f.Skip && nullable(f.Type) {
				all.Key, all.Elem = append(all.Key, f.JSON), append(all.Elem, nNull())
			}
		}
		if len(all.Key) > 0 {
			out = append(out, all)
		}
		// the last member fails after the others were read
		if n := len(g[1].Key); n > 0 {
			c := cloneObj(g[1])
			c.Elem[n-1] = nObj("x", nArr(nNum("1")))
			out = append(out, c)
		}
	case reflect.Slice, reflect.Map:
		if len(g[0].Elem) > 0 {
			c := cloneObj(g[0])
			c.Elem[len(c.Elem)-1] = nObj("x", nArr(nNum("1")))
			out = append(out, c)
			if nullable(t.Elem()) {
				d := cloneObj(g[0])
				d.Elem[0] = nNull()
				out = append(out, d)
			}
		}
	}
	out = append(out, nNull(), nStr("wrong"))
	return dedup(out)
}

type state struct {
	path []int
	key  string
}

// explore visits all states reached by sequences of ops up to a depth and
// calls edge for every transition; each state is rebuilt from a new value by
// running its path on the real code.
func (c *Ctx) explore(ops []op, depth int, node func(path string, mk func() reflect.Value), edge func(path string, pre reflect.Value, mk func() reflect.Value, o op)) {
	build := func(path []int) reflect.Value {
		p := c.New()
		for _, i := range path {
			ops[i].apply(p)
		}
		return p
	}
	name := func(path []int) string {
		var s []string
		for _, i := range path {
			s = append(s, ops[i].name)
		}
		return strings.Join(s, " ; ")
	}
	seen := map[string]bool{}
	first := state{key: Key(c.New().Elem())}
	seen[first.key] = true
	frontier := []state{first}
	for d := 0; len(frontier) > 0; d++ {
		var next []state
		for _, s := range frontier {
			c.R.States++
			mk := func() reflect.Value { return build(s.path) }
			// the path leads to the state again
			pre := mk()
			c.R.Traces++
			if k := Key(pre.Elem()); k != s.key {
				c.report(&Event{Class: "unrepeatable", Input: name(s.path), Outcome: k, Detail: "the same history led to " + s.key + " before"}, nil)
			}
			if node != nil {
				node(name(s.path), mk)
			}
			if d >= depth {
				continue
			}
			for i, o := range ops {
				c.R.Transitions++
				if edge != nil {
					edge(name(s.path), pre, mk, o)
				}
				p := mk()
				o.apply(p)
				k := Key(p.Elem())
				if !seen[k] {
					seen[k] = true
					next = append(next, state{path: append(append([]int{}, s.path...), i), key: k})
				}
			}
		}
		frontier = next
	}
}

func (c *Ctx) ops(withReset bool) []op {
	var out []op
	for _, d := range c.M.histDocs(c.E.T, "") {
		out = append(out, op{name: d.Text(), doc: d})
	}
	if withReset && !c.E.NoEnc {
		out = append(out, op{name: "Reset", fn: func(p reflect.Value) error { return Reset(p) }})
	}
	return out
}

func (c *Ctx) histDepth() int {
	n := len(c.M.histDocs(c.E.T, ""))
	switch {
	case n > 24:
		if c.Deep {
			return 3
		}
		if c.Thorough {
			return 2
		}
		return 1
	case c.Deep:
		return 4
	case c.Thorough:
		return 3
	}
	return 2
}

// H01: decoding into a value that holds something already.
func exploreH01(c *Ctx) {
	if !c.decodable() {
		return
	}
	c.explore(c.ops(true), c.histDepth(), nil, func(path string, pre reflect.Value, mk func() reflect.Value, o op) {
		if o.doc == nil {
			return
		}
		in := Canon(pre.Elem(), false) + " then " + o.name
		c.Case(in, func() *Event {
			p := mk()
			before := clone(p.Elem())
			err := o.apply(p)
			if isPanic(err) {
				return &Event{Class: "panic", Input: in, Outcome: "panic", Detail: path + ": " + err.Error()}
			}
			var first *Event
			for _, v := range c.M.Variants() {
				w := clone(before)
				we := v.Decode(o.doc, w)
				ev := compare(in, w, we, p.Elem(), err, false, "")
				if ev == nil {
					return nil
				}
				if first == nil {
					ev.Class = "hist-" + ev.Class
					ev.Detail = "after " + path + ": " + ev.Detail
					first = ev
				}
			}
			return first
		})
	})
}

// H02: a value that was reset is as good as new.
func exploreH02(c *Ctx) {
	if !c.encodable() {
		return
	}
	for _, v := range c.vals() {
		c.Case("reset "+Canon(v, false), func() *Event { return c.reset(v) })
	}
	if !c.decodable() {
		return
	}
	ops := c.ops(true)
	zero := Canon(c.New().Elem(), true)
	c.explore(ops, c.histDepth(), func(path string, mk func() reflect.Value) {
		c.Case("history "+path+" ; Reset", func() *Event {
			p := mk()
			in := "reset " + Canon(p.Elem(), false)
			if err := Reset(p); err != nil {
				return &Event{Class: "reset-panic", Input: in, Outcome: "panic", Detail: err.Error()}
			}
			if g := Canon(p.Elem(), true); g != zero {
				return &Event{Class: "reset", Input: in, Outcome: g, Detail: "after " + path + " ; Reset the value is " + g}
			}
			return nil
		})
		for _, o := range ops {
			if o.doc == nil {
				continue
			}
			c.Case("history "+path+" ; Reset ; "+o.name, func() *Event {
				p := mk()
				in := "reset " + Canon(p.Elem(), false) + " then " + o.name
				if Reset(p) != nil || Canon(p.Elem(), true) != zero {
					return nil // reported above
				}
				q := c.New()
				e1, e2 := o.apply(p), o.apply(q)
				if isPanic(e1) {
					return &Event{Class: "panic", Input: in, Outcome: "panic", Detail: e1.Error()}
				}
				if (e1 == nil) != (e2 == nil) {
					return &Event{Class: "reset-verdict", Input: in, Outcome: fmt.Sprint(e1 == nil), Detail: fmt.Sprintf("after %s ; Reset: %v, on a new value: %v", path, e1, e2)}
				}
				if e1 != nil {
					return nil
				}
				if g, w := Canon(p.Elem(), true), Canon(q.Elem(), true); g != w {
					return &Event{Class: "reset-value", Input: in, Outcome: g, Detail: "after " + path + " ; Reset gives " + g + ", on a new value " + w}
				}
				return nil
			})
		}
	}, nil)
}

// scramble overwrites everything reachable from v, including spare capacity.
func scramble(v reflect.Value) {
	if isTime(v.Type()) {
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Slice:
		full := v.Slice3(0, v.Cap(), v.Cap())
		for i := 0; i < full.Len(); i++ {
			scramble(full.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := reflect.New(v.Type().Elem()).Elem()
			e.Set(v.MapIndex(k))
			scramble(e)
			v.SetMapIndex(k, reflect.Value{})
		}
		if !v.IsNil() {
			v.SetMapIndex(reflect.ValueOf("scrambled").Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(fld(v, i))
		}
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.String:
		v.SetString("scrambled")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(^v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(^v.Uint() & (1<<(v.Type().Bits()-1) | 0x55))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(v.Float() + 99)
	}
}

// H03: a decoded value belongs to its owner alone.
func exploreH03(c *Ctx) {
	if !c.decodable() {
		return
	}
	docs := append(c.M.histDocs(c.E.T, ""), c.M.Docs(c.E.T, "", 2)...)
	var okDocs []*Node
	for _, d := range dedup(docs) {
		if len(okDocs) >= 40 && !c.Thorough {
			break
		}
		if Unmarshal(c.New(), []byte(d.Text())) == nil {
			okDocs = append(okDocs, d)
		}
	}
	others := c.M.histDocs(c.E.T, "")
	for _, d := range okDocs {
		text := d.Text()
		c.Case(text+" and its buffer", func() *Event {
			buf := []byte(text)
			p := c.New()
			if Unmarshal(p, buf) != nil {
				return nil
			}
			want := Key(p.Elem())
			if string(buf) != text {
				return &Event{Class: "iso-input", Input: text, Outcome: string(buf), Detail: "the decoder changed its input"}
			}
			for i := range buf {
				buf[i] = '#'
			}
			if g := Key(p.Elem()); g != want {
				return &Event{Class: "iso-buffer", Input: text, Outcome: g, Detail: "the value follows the buffer it was read from: " + g}
			}
			return nil
		})
		c.Case(text+" and other documents", func() *Event {
			p := c.New()
			if Unmarshal(p, []byte(text)) != nil {
				return nil
			}
			want := Key(p.Elem())
			var held []reflect.Value
			for _, o := range others {
				q := c.New()
				Unmarshal(q, []byte(o.Text()))
				if g := Key(p.Elem()); g != want {
					return &Event{Class: "iso-later", Input: text + " then " + o.Text() + " into another value", Outcome: g, Detail: "the value changed to " + g}
				}
				held = append(held, q)
			}
			Unmarshal(c.New(), []byte("{\"broken\": [\"zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz"))
			if g := Key(p.Elem()); g != want {
				return &Event{Class: "iso-later", Input: text + " then broken text into another value", Outcome: g, Detail: "the value changed to " + g}
			}
			for i, q := range held {
				scramble(q.Elem())
				if g := Key(p.Elem()); g != want {
					return &Event{Class: "iso-shared", Input: text + " shares with " + others[i].Text(), Outcome: g, Detail: "a change of one value changed another to " + g}
				}
			}
			// a failed decode before must not matter
			for _, o := range others {
				q := c.New()
				if Unmarshal(q, []byte(o.Text())) == nil {
					continue
				}
				r := c.New()
				err := Unmarshal(r, []byte(text))
				if err != nil || Key(r.Elem()) != want {
					return &Event{Class: "iso-earlier", Input: o.Text() + " then " + text + " into another value", Outcome: Canon(r.Elem(), false), Detail: fmt.Sprint(err)}
				}
			}
			return nil
		})
		if c.encodable() {
			c.Case(text+" and its encoding", func() *Event {
				p := c.New()
				if Unmarshal(p, []byte(text)) != nil {
					return nil
				}
				want := Key(p.Elem())
				b, err := Marshal(p)
				if err != nil {
					return nil
				}
				keep := string(b)
				for _, o := range okDocs {
					q := c.New()
					if Unmarshal(q, []byte(o.Text())) == nil {
						Marshal(q)
						if string(b) != keep {
							return &Event{Class: "iso-output", Input: text + " encoded, then " + o.Text(), Outcome: outText(b, p.Elem()), Detail: "a later encoding overwrote " + keep}
						}
					}
				}
				for i := range b {
					b[i] = '#'
				}
				if g := Key(p.Elem()); g != want {
					return &Event{Class: "iso-encoded", Input: text, Outcome: g, Detail: "the value shares memory with its encoding"}
				}
				return nil
			})
		}
	}
}

// H04: IsZero tells whether there is anything in the value.
func exploreH04(c *Ctx) {
	if !c.encodable() {
		return
	}
	judge := func(p reflect.Value, how string) *Event {
		in := Canon(p.Elem(), false)
		before := Key(p.Elem())
		z, err := IsZero(p)
		if err != nil {
			return &Event{Class: "zero-panic", Input: in, Outcome: "panic", Detail: err.Error()}
		}
		if Key(p.Elem()) != before {
			return &Event{Class: "zero-changed", Input: in, Outcome: Canon(p.Elem(), false), Detail: "IsZero changed the value"}
		}
		if zeroOpen(p.Elem()) {
			return nil
		}
		if w := c.M.IsZero(p.Elem()); z != w {
			return &Event{Class: "zero", Input: in, Outcome: fmt.Sprint(z), Detail: how}
		}
		return nil
	}
	for _, v := range c.vals() {
		c.Case(Canon(v, false), func() *Event { return judge(c.holder(v), "") })
	}
	if c.decodable() {
		c.explore(c.ops(true), c.histDepth(), func(path string, mk func() reflect.Value) {
			c.Case("after "+path, func() *Event { return judge(mk(), "after "+path) })
		}, nil)
	}
}

// zeroOpen: whether the value counts as empty is not settled: a pointer to a
// nil pointer, a named array of zeros, an empty list of a defined list type.
func zeroOpen(v reflect.Value) bool {
	t := v.Type()
	if isTime(t) || isUUID(t) {
		return false
	}
	switch v.Kind() {
	case reflect.Ptr:
		return !v.IsNil() && v.Elem().Kind() == reflect.Ptr && v.Elem().IsNil()
	case reflect.Slice, reflect.Map:
		return transit[t] && !v.IsNil() && v.Len() == 0
	case reflect.Array:
		if t.Name() != "" && v.IsZero() {
			return true
		}
		for i := 0; i < v.Len(); i++ {
			if zeroOpen(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if zeroOpen(fld(v, i)) {
				return true
			}
		}
	}
	return false
}

// M04: encoding looks only: it changes nothing, gives the same text again, and
// MarshalTo adds exactly that text to what the writer holds.
func exploreM04(c *Ctx) {
	if !c.encodable() {
		return
	}
	// (a type without members may be written as {} in any case)
	if !memberless(c.E.T) {
		c.nilValue()
	}
	for _, v := range c.vals() {
		c.Case(Canon(v, false), func() *Event { return c.pure(c.holder(v)) })
	}
	if c.decodable() {
		c.explore(c.ops(true), c.histDepth(), func(path string, mk func() reflect.Value) {
			c.Case("after "+path, func() *Event { return c.pure(mk()) })
		}, nil)
	}
}

func (c *Ctx) pure(p reflect.Value) *Event {
	in := Canon(p.Elem(), false)
	before := Key(p.Elem())
	b, err := Marshal(p)
	if isPanic(err) {
		return &Event{Class: "enc-panic", Input: in, Outcome: "panic", Detail: err.Error()}
	}
	if Key(p.Elem()) != before {
		return &Event{Class: "pure-changed", Input: in, Outcome: Canon(p.Elem(), false), Detail: "encoding changed the value"}
	}
	big := bigMap(p.Elem())
	same := func(x, y []byte) bool {
		if big {
			return outText(x, p.Elem()) == outText(y, p.Elem())
		}
		return bytes.Equal(x, y)
	}
	b2, err2 := Marshal(p)
	if (err == nil) != (err2 == nil) || err == nil && !same(b, b2) {
		return &Event{Class: "pure-again", Input: in, Outcome: outText(b2, p.Elem()), Detail: fmt.Sprintf("first %s (%v), then %s (%v)", b, err, b2, err2)}
	}
	for _, pre := range []string{"", "[1,", strings.Repeat("x", 200)} {
		var w jwriter.Writer
		w.RawString(pre)
		err3 := marshalTo(p, &w)
		if isPanic(err3) {
			return &Event{Class: "enc-panic", Input: in, Outcome: "panic", Detail: err3.Error()}
		}
		if (err == nil) != (err3 == nil) {
			return &Event{Class: "pure-to", Input: in, Outcome: "verdict", Detail: fmt.Sprintf("MarshalJSON: %v, MarshalTo: %v", err, err3)}
		}
		if err != nil {
			continue
		}
		t, werr := w.BuildBytes()
		if werr != nil || len(t) < len(pre) || string(t[:len(pre)]) != pre || !same(t[len(pre):], b) {
			return &Event{Class: "pure-to", Input: in, Outcome: outText(t, p.Elem()), Detail: fmt.Sprintf("MarshalJSON gives %s, MarshalTo after %q leaves %s", b, pre, t)}
		}
	}
	if Key(p.Elem()) != before {
		return &Event{Class: "pure-changed", Input: in, Outcome: Canon(p.Elem(), false), Detail: "encoding changed the value"}
	}
	return nil
}

func (c *Ctx) nilValue() {
	c.Case("nil", func() *Event {
		b, err := Marshal(reflect.Zero(reflect.PtrTo(c.E.T)))
		if err != nil || string(b) != "null" {
			return &Event{Class: "pure-nil", Input: "nil", Outcome: string(b), Detail: fmt.Sprintf("a nil %s gives %q, %v", c.E.ID, b, err)}
		}
		var w jwriter.Writer
		w.RawString("[1,")
		err = marshalTo(reflect.Zero(reflect.PtrTo(c.E.T)), &w)
		if b, _ := w.BuildBytes(); err != nil || string(b) != "[1,null" {
			return &Event{Class: "pure-nil", Input: "nil MarshalTo", Outcome: string(b), Detail: fmt.Sprintf("a nil %s gives %q, %v", c.E.ID, b, err)}
		}
		return nil
	})
}

func memberless(t reflect.Type) bool {
	if t.Kind() != reflect.Struct || isTime(t) {
		return false
	}
	for _, f := range FieldsOf(t) {
		if !f.Skip {
			return false
		}
	}
	return true
}
