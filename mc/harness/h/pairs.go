package h

import "reflect"

// sketch is a small alphabet for a component of type t: two good values, an
// empty one, null, one of the wrong kind and one with a failure deep inside.
func (m *Model) sketch(t reflect.Type, layout string) []*Node {
	g := m.good(t, layout)
	out := []*Node{g[0], g[1], nNull()}
	e := t
	for e.Kind() == reflect.Ptr {
		e = e.Elem()
	}
	wrong := nObj("a", nNum("1"))
	switch {
	case isTime(e), isUUID(e):
		out = append(out, nStr(""))
	case isBytes(e) && !m.U8:
		out = append(out, nStr(""), nStr("AQ"))
	default:
		switch e.Kind() {
		case reflect.Bool:
			out = append(out, nStr("true"))
		case reflect.String:
			out = append(out, nStr(""), rawStr("é", `"\u00e9"`))
			wrong = nNum("7")
		case reflect.Slice, reflect.Array:
			out = append(out, nArr())
		case reflect.Map, reflect.Struct:
			out = append(out, nObj(), nObj("k1", nArr(nNull())))
			wrong = nArr(nNum("1"))
		default:
			out = append(out, nNum("0"), nNum("-1"), nNum("300"))
		}
	}
	out = append(out, wrong)
	if n := nodesOf(g[0]); n > 2 {
		out = append(out, replaceNode(g[0], n-1, wrong))
	}
	return dedup(out)
}

func nodesOf(n *Node) int {
	k := 0
	has(n, func(*Node) bool { k++; return false })
	return k
}

// pairs are the documents that deviate in two components of one container at
// the same time, the container being at any depth.
func (m *Model) pairs(t reflect.Type, layout string, depth, bound int) []*Node {
	if depth == 0 || isTime(t) || isUUID(t) || isBytes(t) && !m.U8 {
		return nil
	}
	var out []*Node
	switch t.Kind() {
	case reflect.Ptr:
		return m.pairs(t.Elem(), layout, depth, bound)
	case reflect.Slice:
		s := m.sketch(t.Elem(), "")
		for _, x := range s {
			for _, y := range s {
				out = append(out, nArr(x, y), nArr(x, s[0], y))
			}
		}
		for _, p := range m.pairs(t.Elem(), "", depth-1, bound/2) {
			out = append(out, nArr(s[1], p))
		}
	case reflect.Array:
		s := m.sketch(t.Elem(), "")
		for i := 0; i < t.Len() && i < 4; i++ {
			for j := i + 1; j < t.Len() && j < 4; j++ {
				for _, x := range s {
					for _, y := range s {
						a := nArr()
						for k := 0; k < t.Len(); k++ {
							a.Elem = append(a.Elem, s[k%2])
						}
						a.Elem[i], a.Elem[j] = x, y
						out = append(out, a)
					}
				}
			}
		}
	case reflect.Map:
		s := m.sketch(t.Elem(), "")
		for _, x := range s {
			for _, y := range s {
				out = append(out, nObj("k", x, "z", y))
			}
		}
		for _, p := range m.pairs(t.Elem(), "", depth-1, bound/2) {
			out = append(out, nObj("k", p, "z", s[1]))
		}
	case reflect.Struct:
		g := m.good(t, "")
		base := g[1]
		n := len(base.Key)
		var alt [][]*Node
		for _, k := range base.Key {
			f := fieldByJSON(t, k)
			alt = append(alt, append([]*Node{nil}, m.sketch(f.Type, f.Layout)...))
		}
		// neighbours first, then those further apart
		for d := 1; d < n && len(out) < bound; d++ {
			for i := 0; i+d < n; i++ {
				j := i + d
				for _, x := range alt[i] {
					for _, y := range alt[j] {
						c := nObj()
						for k := range base.Key {
							e := base.Elem[k]
							if k == i {
								e = x
							} else if k == j {
								e = y
							}
							if e != nil {
								c.Key, c.Elem = append(c.Key, base.Key[k]), append(c.Elem, e)
							}
						}
						out = append(out, c)
					}
				}
			}
		}
		for i, k := range base.Key {
			f := fieldByJSON(t, k)
			for _, p := range m.pairs(f.Type, f.Layout, depth-1, bound/(n+1)) {
				c := cloneObj(base)
				c.Elem[i] = p
				out = append(out, c)
			}
		}
	}
	out = dedup(out)
	if len(out) > bound {
		out = out[:bound]
	}
	return out
}
