package h

import (
	"math"
	"reflect"
	"sort"
	"time"
)

func sortStrings(s []string) { sort.Strings(s) }

// ---- documents ------------------------------------------------------------

// generic is the alphabet of JSON values tried in every position.
func generic() []*Node {
	return []*Node{
		nNull(), nBool(true), nBool(false), nNum("0"), nNum("1"), nNum("-1"), nNum("1.5"),
		nStr(""), nStr("a"), nArr(), nArr(nNull()), nArr(nNum("1")), nObj(), nObj("k", nNum("1")), nObj("k", nNull()),
	}
}

func intBounds(t reflect.Type) []*Node {
	switch t.Kind() {
	case reflect.Int8:
		return nums("127", "128", "-128", "-129", "255", "256", "32768")
	case reflect.Int16:
		return nums("32767", "32768", "-32768", "-32769", "65535", "65536")
	case reflect.Int32:
		return nums("2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296")
	case reflect.Int64, reflect.Int:
		return nums("9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551616")
	case reflect.Uint8:
		return nums("255", "256", "65536")
	case reflect.Uint16:
		return nums("65535", "65536")
	case reflect.Uint32:
		return nums("4294967295", "4294967296")
	case reflect.Uint64, reflect.Uint:
		return nums("18446744073709551615", "18446744073709551616", "9223372036854775808")
	}
	return nil
}

func nums(s ...string) []*Node {
	var out []*Node
	for _, x := range s {
		out = append(out, nNum(x))
	}
	return out
}

func strs(s ...string) []*Node {
	var out []*Node
	for _, x := range s {
		out = append(out, nStr(x))
	}
	return out
}

func rawStr(dec, raw string) *Node { return &Node{K: Str, S: dec, Raw: raw} }

var keyAlphabet = []string{"k", "", "a.b", "\"q\\", "é\n", "f"}

// special is the alphabet of values interesting for one type, well typed or
// nearly so.
func (m *Model) special(t reflect.Type, layout string) []*Node {
	switch {
	case isTime(t):
		s := strs("2021-03-04T05:06:07Z", "2021-03-04T05:06:07.123456789+03:30", "2021-03-04 05:06:07Z", "04.03.2021 05:06:07+01:00", "2021-03-04", "2021-13-04T05:06:07Z", "0001-01-01T00:00:00Z", "x")
		if layout != "" {
			l := layout
			if c, ok := layoutConst[l]; ok {
				l = c
			}
			tm := time.Date(2022, 11, 5, 6, 7, 8, 0, time.UTC)
			s = append(s, nStr(tm.Format(l)), nStr(tm.Format(l)+" "))
		}
		return s
	case isUUID(t):
		return strs("f47ac10b-58cc-4372-8567-0e02b2c3d479", "F47AC10B-58CC-4372-8567-0E02B2C3D479", "f47ac10b58cc437285670e02b2c3d479", "{f47ac10b-58cc-4372-8567-0e02b2c3d479}", "urn:uuid:f47ac10b-58cc-4372-8567-0e02b2c3d479",
			"00000000-0000-0000-0000-000000000000", "f47ac10b-58cc-4372-8567-0e02b2c3d47", "g47ac10b-58cc-4372-8567-0e02b2c3d479")
	case isBytes(t) && !m.U8:
		return strs("", "AA==", "AQID", "AQIDBA==", "AQIDBAUG", "AQID/+8=", "AQ", "A", "AQI=AQ==", "!!!!", "AQIDBAUGBwgJCgsMDQ4PEBESExQVFhcYGRobHB0eHyA=")
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return append(intBounds(t), nums("2", "1e2", "-0", "100000000000000000000000")...)
	case reflect.Float32:
		return nums("0.1", "-2.25", "1e3", "1.5E-5", "3.4028234663852886e38", "3.5e38", "-3.5e38", "1e400", "16777217", "-0.0")
	case reflect.Float64:
		return nums("0.1", "-2.25", "1e3", "1.5E-5", "1.7976931348623157e308", "3.5e38", "123456789012345678", "0.30000000000000004", "1e400")
	case reflect.String:
		return []*Node{nStr("abc"), nStr("\"\\/\b\f\n\r\t\x01"), nStr("é世😀"), rawStr("A/é😀", `"\u0041\/\u00e9\ud83d\ude00"`), nStr("2021-03-04T05:06:07Z"), nStr("null")}
	}
	return nil
}

// good returns two different well typed documents for t (simplest first).
func (m *Model) good(t reflect.Type, layout string) []*Node {
	return m.good1(t, layout, map[reflect.Type]int{})
}

// good1 stops at the second occurrence of a struct inside itself.
func (m *Model) good1(t reflect.Type, layout string, on map[reflect.Type]int) []*Node {
	switch {
	case isTime(t):
		if layout != "" {
			l := layout
			if c, ok := layoutConst[l]; ok {
				l = c
			}
			return strs(time.Date(2022, 11, 5, 6, 7, 8, 0, time.UTC).Format(l), time.Date(1999, 1, 2, 3, 4, 5, 0, time.UTC).Format(l))
		}
		return strs("2021-03-04T05:06:07Z", "1999-12-31T23:59:59.5+02:00")
	case isUUID(t):
		return strs("f47ac10b-58cc-4372-8567-0e02b2c3d479", "00000000-0000-4000-8000-000000000001")
	case isBytes(t) && !m.U8:
		if t.Kind() == reflect.Array {
			n := t.Len()
			a, b := make([]byte, n), make([]byte, n)
			for i := range a {
				a[i] = byte(i + 1)
				b[i] = byte(200 + i)
			}
			return []*Node{nStr(b64(a)), nStr(b64(b))}
		}
		return strs("AQID", "//8=")
	}
	switch t.Kind() {
	case reflect.Bool:
		return []*Node{nBool(true), nBool(false)}
	case reflect.String:
		return strs("s1", "t\"2")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return nums("11", "-12")
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return nums("21", "22")
	case reflect.Float32, reflect.Float64:
		return nums("1.25", "-3")
	case reflect.Ptr:
		if on[t.Elem()] > 0 {
			return []*Node{nNull(), nNull()}
		}
		return m.good1(t.Elem(), layout, on)
	case reflect.Slice:
		if inner(t, on) {
			return []*Node{nArr(), nArr()}
		}
		g := m.good1(t.Elem(), "", on)
		return []*Node{nArr(g[0], g[1]), nArr(g[1])}
	case reflect.Array:
		g := m.good1(t.Elem(), "", on)
		a, b := nArr(), nArr()
		for i := 0; i < t.Len(); i++ {
			a.Elem = append(a.Elem, g[i%2])
			b.Elem = append(b.Elem, g[(i+1)%2])
		}
		return []*Node{a, b}
	case reflect.Map:
		if inner(t, on) {
			return []*Node{nObj(), nObj()}
		}
		g := m.good1(t.Elem(), "", on)
		return []*Node{nObj("k1", g[0], "k\"2", g[1]), nObj("k1", g[1])}
	case reflect.Struct:
		on[t]++
		defer func() { on[t]-- }()
		a, b := nObj(), nObj()
		for _, f := range FieldsOf(t) {
			if f.Skip {
				continue
			}
			g := m.good1(f.Type, f.Layout, on)
			a.Key, a.Elem = append(a.Key, f.JSON), append(a.Elem, g[0])
			b.Key, b.Elem = append(b.Key, f.JSON), append(b.Elem, g[1])
		}
		return []*Node{a, b}
	}
	panic("good: " + t.String())
}

// inner: the elements of t are, or point to, a struct being built.
func inner(t reflect.Type, on map[reflect.Type]int) bool {
	e := t.Elem()
	for e.Kind() == reflect.Ptr || (e.Kind() == reflect.Slice || e.Kind() == reflect.Map) && e.Name() == "" {
		e = e.Elem()
	}
	return on[e] > 0
}

// Docs enumerates the documents tried for a value of type t: the generic
// alphabet, the special values of the type, and for containers every
// document whose components deviate in one place from well typed ones.
func (m *Model) Docs(t reflect.Type, layout string, depth int) []*Node {
	out := generic()
	out = append(out, m.special(t, layout)...)
	out = append(out, m.good(t, layout)...)
	if isTime(t) || isUUID(t) || (isBytes(t) && !m.U8) || depth <= 0 {
		return dedup(out)
	}
	switch t.Kind() {
	case reflect.Ptr:
		out = append(out, m.Docs(t.Elem(), layout, depth)...)
	case reflect.Slice:
		g := m.good(t.Elem(), "")
		for _, e := range m.Docs(t.Elem(), "", depth-1) {
			out = append(out, nArr(e), nArr(g[0], e), nArr(e, g[1]))
		}
		out = append(out, nArr(g[0], g[1], g[0], g[1]))
	case reflect.Array:
		g := m.good(t.Elem(), "")
		for _, e := range m.Docs(t.Elem(), "", depth-1) {
			for i := 0; i < t.Len(); i++ {
				a := nArr()
				for j := 0; j < t.Len(); j++ {
					if j == i {
						a.Elem = append(a.Elem, e)
					} else {
						a.Elem = append(a.Elem, g[j%2])
					}
				}
				out = append(out, a)
			}
		}
		long := nArr()
		for j := 0; j <= t.Len(); j++ {
			long.Elem = append(long.Elem, g[0])
		}
		out = append(out, long, nArr(g[0]))
	case reflect.Map:
		g := m.good(t.Elem(), "")
		for _, e := range m.Docs(t.Elem(), "", depth-1) {
			out = append(out, nObj("k", e), nObj("k", e, "z", g[0]), nObj("a", g[0], "k", e))
		}
		for _, k := range keyAlphabet {
			out = append(out, nObj(k, g[0]))
		}
		out = append(out, nObj("k", g[0], "k", g[1]))
	case reflect.Struct:
		out = append(out, m.structDocs(t, depth)...)
	}
	return dedup(out)
}

func cloneObj(n *Node) *Node {
	c := *n
	c.Key = append([]string{}, n.Key...)
	c.Elem = append([]*Node{}, n.Elem...)
	if n.KRaw != nil {
		c.KRaw = append([]string{}, n.KRaw...)
	}
	return &c
}

func (m *Model) structDocs(t reflect.Type, depth int) []*Node {
	var out []*Node
	g := m.good(t, "")
	base := g[0]
	for i, k := range base.Key {
		f := fieldByJSON(t, k)
		for _, e := range m.Docs(f.Type, f.Layout, depth-1) {
			c := cloneObj(base)
			c.Elem[i] = e
			out = append(out, c)
		}
		c := cloneObj(base) // member missing
		c.Key = append(c.Key[:i], c.Key[i+1:]...)
		c.Elem = append(c.Elem[:i], c.Elem[i+1:]...)
		out = append(out, c)
		c = cloneObj(base) // member twice, adjacent and at the end
		c.Key, c.Elem = append(c.Key, k), append(c.Elem, g[1].Elem[i])
		out = append(out, c)
		c = cloneObj(base)
		c.Key, c.Elem = append([]string{k}, c.Key...), append([]*Node{g[1].Elem[i]}, c.Elem...)
		out = append(out, c)
		c = cloneObj(base) // member three times
		c.Key, c.Elem = append(c.Key, k, k), append(c.Elem, base.Elem[i], base.Elem[i])
		out = append(out, c)
		c = nObj(k, base.Elem[i]) // alone
		out = append(out, c)
	}
	// members the type does not declare
	for _, u := range unknownKeys(t) {
		c := cloneObj(base)
		c.Key, c.Elem = append(c.Key, u), append(c.Elem, nNum("1"))
		out = append(out, c)
		c = cloneObj(base)
		c.Key, c.Elem = append([]string{u}, c.Key...), append([]*Node{nObj("x", nArr(nNull()))}, c.Elem...)
		out = append(out, c)
		c = cloneObj(base)
		c.Key, c.Elem = append(c.Key, u, u), append(c.Elem, nNum("1"), nNum("1"))
		out = append(out, c)
	}
	return out
}

func fieldByJSON(t reflect.Type, k string) FieldInfo {
	for _, f := range FieldsOf(t) {
		if f.JSON == k {
			return f
		}
	}
	panic("no field " + k)
}

// unknownKeys are names close to, but different from, the declared ones.
func unknownKeys(t reflect.Type) []string {
	known := map[string]bool{}
	var out []string
	for _, f := range FieldsOf(t) {
		known[f.JSON] = true
	}
	add := func(s string) {
		if !known[s] {
			known[s] = true
			out = append(out, s)
		}
	}
	for i, f := range FieldsOf(t) {
		if i > 2 || f.Skip {
			continue
		}
		add(f.Name)
		if f.JSON != "" {
			add(f.JSON + "2")
			add(f.JSON[:len(f.JSON)-1])
			add(upper(f.JSON))
		}
	}
	add("zzz")
	return out
}

func upper(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' {
			b[i] -= 32
		}
	}
	return string(b)
}

func dedup(in []*Node) []*Node {
	seen := map[string]bool{}
	var out []*Node
	for _, n := range in {
		t := n.Text()
		if !seen[t] {
			seen[t] = true
			out = append(out, n)
		}
	}
	return out
}

// ---- values ---------------------------------------------------------------

// Vals enumerates values of t (the zero value first).
func (m *Model) Vals(t reflect.Type, depth int) []reflect.Value {
	var out []reflect.Value
	add := func(x any) {
		v := reflect.New(t).Elem()
		v.Set(reflect.ValueOf(x).Convert(t))
		out = append(out, v)
	}
	zero := reflect.New(t).Elem()
	switch {
	case isTime(t):
		out = append(out, zero)
		add(time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC))
		add(time.Date(1999, 12, 31, 23, 59, 59, 123456789, time.FixedZone("", 12600)))
		return out
	case isUUID(t):
		out = append(out, zero)
		v := reflect.New(t).Elem()
		for i := 0; i < 16; i++ {
			v.Index(i).SetUint(uint64(0xf0 + i))
		}
		w := reflect.New(t).Elem()
		w.Index(15).SetUint(1)
		return append(out, v, w)
	case isBytes(t) && !m.U8:
		out = append(out, zero)
		if t.Kind() == reflect.Array {
			v := reflect.New(t).Elem()
			v.Index(t.Len() - 1).SetUint(255)
			w := reflect.New(t).Elem()
			w.Index(0).SetUint(7)
			return append(out, v, w)
		}
		add([]byte{})
		add([]byte{0})
		add([]byte{1, 2, 3, 255, 254, 62, 63})
		return out
	}
	switch t.Kind() {
	case reflect.Bool:
		add(false)
		add(true)
	case reflect.String:
		for _, s := range []string{"", "a", "q\"\\/\n\x01\x7f", "é<>&\u2028世😀", "bad\xff", "null"} {
			v := reflect.New(t).Elem()
			v.SetString(s)
			out = append(out, v)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		max := int64(1)<<(t.Bits()-1) - 1
		for _, x := range []int64{0, 1, -1, max, -max - 1} {
			v := reflect.New(t).Elem()
			v.SetInt(x)
			out = append(out, v)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		for _, x := range []uint64{0, 1, math.MaxUint64 >> (64 - t.Bits())} {
			v := reflect.New(t).Elem()
			v.SetUint(x)
			out = append(out, v)
		}
	case reflect.Float32:
		for _, x := range []float32{0, 1.5, -2.25, 0.1, math.MaxFloat32, math.SmallestNonzeroFloat32, -1e-7} {
			v := reflect.New(t).Elem()
			v.SetFloat(float64(x))
			out = append(out, v)
		}
	case reflect.Float64:
		for _, x := range []float64{0, 1.5, -2.25, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, -1e-7, 123456789012345680} {
			v := reflect.New(t).Elem()
			v.SetFloat(x)
			out = append(out, v)
		}
	case reflect.Ptr:
		out = append(out, zero)
		for _, e := range m.Vals(t.Elem(), depth) {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			v := reflect.New(t).Elem()
			v.Set(p.Convert(t))
			out = append(out, v)
		}
	case reflect.Slice:
		out = append(out, zero, reflect.MakeSlice(t, 0, 0))
		es := m.Vals(t.Elem(), depth-1)
		for i, e := range es {
			s := reflect.MakeSlice(t, 1, 1)
			s.Index(0).Set(e)
			out = append(out, s)
			s = reflect.MakeSlice(t, 3, 4)
			s.Index(0).Set(e)
			s.Index(1).Set(es[(i+1)%len(es)])
			s.Index(2).Set(es[0])
			out = append(out, s)
		}
	case reflect.Array:
		out = append(out, zero)
		for _, e := range m.Vals(t.Elem(), depth-1) {
			for i := 0; i < t.Len(); i++ {
				a := reflect.New(t).Elem()
				a.Index(i).Set(e)
				out = append(out, a)
			}
			a := reflect.New(t).Elem()
			for i := 0; i < t.Len(); i++ {
				a.Index(i).Set(e)
			}
			out = append(out, a)
		}
	case reflect.Map:
		out = append(out, zero, reflect.MakeMap(t))
		es := m.Vals(t.Elem(), depth-1)
		mk := func(kv ...any) reflect.Value {
			mv := reflect.MakeMap(t)
			for i := 0; i < len(kv); i += 2 {
				mv.SetMapIndex(reflect.ValueOf(kv[i]).Convert(t.Key()), kv[i+1].(reflect.Value))
			}
			return mv
		}
		for i, e := range es {
			out = append(out, mk("k", e), mk("k", e, "z", es[(i+1)%len(es)]))
		}
		for _, k := range keyAlphabet {
			out = append(out, mk(k, es[len(es)-1]))
		}
	case reflect.Struct:
		out = append(out, zero)
		n := t.NumField()
		if depth < 0 {
			return out
		}
		per := make([][]reflect.Value, n)
		for i := 0; i < n; i++ {
			per[i] = m.Vals(t.Field(i).Type, depth-1)
		}
		if n <= 1 {
			for i := 0; i < n; i++ {
				for _, e := range per[i] {
					v := reflect.New(t).Elem()
					fld(v, i).Set(e)
					out = append(out, v)
				}
			}
			break
		}
		// every field alone; every pair of fields; all fields
		for i := 0; i < n; i++ {
			for _, e := range per[i] {
				v := reflect.New(t).Elem()
				fld(v, i).Set(e)
				out = append(out, v)
			}
			for j := i + 1; j < n && n <= 6; j++ {
				for _, e := range few(per[i]) {
					for _, e2 := range few(per[j]) {
						v := reflect.New(t).Elem()
						fld(v, i).Set(e)
						fld(v, j).Set(e2)
						out = append(out, v)
					}
				}
			}
		}
		v := reflect.New(t).Elem()
		for i := 0; i < n; i++ {
			fld(v, i).Set(per[i][len(per[i])-1])
		}
		out = append(out, v)
		for i := 0; i < n; i++ { // all but one
			w := reflect.New(t).Elem()
			w.Set(v)
			fld(w, i).Set(per[i][0])
			out = append(out, w)
		}
	default:
		panic("vals: " + t.String())
	}
	return out
}

func few(v []reflect.Value) []reflect.Value {
	if len(v) <= 3 {
		return v
	}
	return []reflect.Value{v[0], v[1], v[2], v[len(v)-1]}
}
