package h

import (
	"fmt"
	"reflect"
	"strings"
	"time"
)

func init() { Explorers["M08"] = exploreM08 }

// sized builds a full value of t in which everything that has a length at
// nesting level at (counted from outside) has n elements, and one elsewhere.
// seq numbers the elements, so that no two are alike.
func (m *Model) sized(t reflect.Type, level, at, n int, seq *int, on map[reflect.Type]int) reflect.Value {
	v := reflect.New(t).Elem()
	*seq++
	i := *seq
	size := 1
	if level == at {
		size = n
	}
	switch {
	case isTime(t):
		v.Set(reflect.ValueOf(time.Date(2021, 3, 4, i/3600%24, i/60%60, i%60, 0, time.UTC)).Convert(t))
		return v
	case isUUID(t):
		v.Index(0).SetUint(0xf0)
		v.Index(14).SetUint(uint64(i >> 8 & 255))
		v.Index(15).SetUint(uint64(i & 255))
		return v
	case isBytes(t) && !m.U8:
		if t.Kind() == reflect.Slice {
			v.Set(reflect.MakeSlice(t, size, size))
		}
		for k := 0; k < v.Len(); k++ {
			v.Index(k).SetUint(uint64((i+k)%251 + 1))
		}
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(true)
	case reflect.String:
		s := fmt.Sprintf("s%d", i)
		if level == at {
			// all of the text matters, also where it has to be escaped
			s = strings.Repeat("abc\"\\\nй😀", n/8+1)
			s = string([]rune(s)[:n])
		}
		v.SetString(s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(i%127 + 1))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(i%127 + 1))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(i%1000) + 0.5)
	case reflect.Ptr:
		if on[t] > 0 {
			return v
		}
		on[t]++
		p := reflect.New(t.Elem())
		p.Elem().Set(m.sized(t.Elem(), level, at, n, seq, on))
		v.Set(p.Convert(t))
		on[t]--
	case reflect.Slice:
		if on[t] > 0 {
			return v
		}
		on[t]++
		v.Set(reflect.MakeSlice(t, size, size))
		for k := 0; k < size; k++ {
			v.Index(k).Set(m.sized(t.Elem(), level+1, at, n, seq, on))
		}
		on[t]--
	case reflect.Array:
		for k := 0; k < t.Len(); k++ {
			v.Index(k).Set(m.sized(t.Elem(), level+1, at, n, seq, on))
		}
	case reflect.Map:
		if on[t] > 0 {
			return v
		}
		on[t]++
		v.Set(reflect.MakeMapWithSize(t, size))
		for k := 0; k < size; k++ {
			v.SetMapIndex(reflect.ValueOf(fmt.Sprintf("k%d", k)).Convert(t.Key()), m.sized(t.Elem(), level+1, at, n, seq, on))
		}
		on[t]--
	case reflect.Struct:
		for k := 0; k < t.NumField(); k++ {
			fld(v, k).Set(m.sized(t.Field(k).Type, level, at, n, seq, on))
		}
	default:
		panic("sized: " + t.String())
	}
	return v
}

// growable: something at nesting level at has a length.
func (m *Model) growable(t reflect.Type, level, at int, on map[reflect.Type]bool) bool {
	if isTime(t) || isUUID(t) || on[t] || level > at {
		return false
	}
	on[t] = true
	defer delete(on, t)
	if isBytes(t) && !m.U8 {
		return t.Kind() == reflect.Slice && level == at
	}
	switch t.Kind() {
	case reflect.String:
		return level == at
	case reflect.Ptr:
		return m.growable(t.Elem(), level, at, on)
	case reflect.Slice, reflect.Map:
		return level == at || m.growable(t.Elem(), level+1, at, on)
	case reflect.Array:
		return m.growable(t.Elem(), level+1, at, on)
	case reflect.Struct:
		for k := 0; k < t.NumField(); k++ {
			if m.growable(t.Field(k).Type, level, at, on) {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) sizes() []int {
	var out []int
	dense, max := 9, 256
	if c.Thorough {
		dense, max = 33, 4096
	}
	for i := 0; i <= dense; i++ {
		out = append(out, i)
	}
	for k := 16; k <= max; k *= 2 {
		for _, n := range []int{k - 1, k, k + 1} {
			if n > dense {
				out = append(out, n)
			}
		}
	}
	return append(out, 1000)
}

// M08: the length of lists, maps and texts makes no difference.
func exploreM08(c *Ctx) {
	if !c.encodable() || !c.decodable() {
		return
	}
	for at := 0; at < 4; at++ {
		if !c.M.growable(c.E.T, 0, at, map[reflect.Type]bool{}) {
			continue
		}
		for _, n := range c.sizes() {
			if at > 1 && n > 300 {
				continue
			}
			name := fmt.Sprintf("%d elements at level %d", n, at)
			c.Case(name, func() *Event {
				seq := 0
				v := c.M.sized(c.E.T, 0, at, n, &seq, map[reflect.Type]int{})
				ev := c.encode(v, true, true)
				if ev == nil {
					ev = c.roundTrip(v)
				}
				if ev == nil {
					ev = c.after(v, at, n)
				}
				if ev != nil {
					ev.Input = name
					if len(ev.Outcome) > 300 {
						ev.Outcome = fmt.Sprintf("%s... (%d bytes)", ev.Outcome[:300], len(ev.Outcome))
					}
					if len(ev.Detail) > 1000 {
						ev.Detail = ev.Detail[:1000] + "..."
					}
				}
				return ev
			})
		}
	}
}

// after: the same, decoded over a value of another size that was reset.
func (c *Ctx) after(v reflect.Value, at, n int) *Event {
	b, err := Marshal(c.holder(v))
	if err != nil {
		return nil
	}
	fresh := c.New()
	if Unmarshal(fresh, b) != nil {
		return nil
	}
	empty := Canon(c.New().Elem(), true)
	clear := func(size int) (reflect.Value, *Event) {
		seq := 5
		p := c.holder(c.M.sized(c.E.T, 0, at, size, &seq, map[reflect.Type]int{}))
		if err := Reset(p); err != nil {
			return p, &Event{Class: "reset-panic", Outcome: "panic", Detail: err.Error()}
		}
		return p, nil
	}
	sizes := []int{n / 2, n + 1}
	if n == 3 && at < 2 {
		// far above every limit of the generated code
		sizes = append(sizes, 10000, 10001)
	}
	for _, was := range sizes {
		p, ev := clear(was)
		if ev != nil {
			return ev
		}
		zero := Canon(p.Elem(), true) == empty
		if !zero {
			if q, ev := clear(1); ev == nil && Canon(q.Elem(), true) == empty {
				return &Event{Class: "size-reset", Outcome: "not empty", Detail: fmt.Sprintf("Reset of a value of %d elements leaves %d bytes of contents, of one element nothing", was, len(Canon(p.Elem(), true)))}
			}
		}
		if err := Unmarshal(p, b); err != nil {
			return &Event{Class: "size-rejected", Outcome: errPath(err), Detail: err.Error()}
		}
		// a value that is not empty after Reset is a matter of H02
		if g, w := Canon(p.Elem(), true), Canon(fresh.Elem(), true); zero && g != w {
			return &Event{Class: "size-value", Outcome: g, Detail: fmt.Sprintf("after %d elements and Reset: wants %s", was, w)}
		}
	}
	return nil
}
