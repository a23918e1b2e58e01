package h

import (
	"reflect"
	"strings"
)

func init() { Explorers["H05"] = exploreH05 }

// holding is the memory of a list or map, and how it is reached.
type holding struct {
	path string
	ptr  uintptr
	cap  int
	n    int
}

// holdings lists the memory held by v.
func holdings(v reflect.Value, path string, out *[]holding) {
	switch v.Kind() {
	case reflect.Struct:
		if isTime(v.Type()) || transit[v.Type()] {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			holdings(fld(v, i), path+"."+v.Type().Field(i).Name, out)
		}
	case reflect.Slice:
		// A list of a type of its own has methods of its own; []byte is a
		// text for the format.
		if v.Type().Name() == "" && v.Type().Elem().Kind() != reflect.Uint8 && v.Cap() > 0 {
			*out = append(*out, holding{path, v.Pointer(), v.Cap(), v.Len()})
		}
	case reflect.Map:
		if v.Type().Name() == "" && !v.IsNil() {
			*out = append(*out, holding{path, v.Pointer(), -1, v.Len()})
		}
	}
}

// H05: the memory of a value that is reset serves the next document.
func exploreH05(c *Ctx) {
	if !c.decodable() || !c.encodable() || c.E.T.Kind() != reflect.Struct || c.E.Transit {
		return
	}
	docs := c.M.histDocs(c.E.T, "")
	for _, d1 := range docs {
		for _, d2 := range docs {
			t1, t2 := d1.Text(), d2.Text()
			c.Case(t1+" then "+t2, func() *Event {
				p := c.New()
				if Unmarshal(p, []byte(t1)) != nil {
					return nil
				}
				var a, b []holding
				holdings(p.Elem(), "", &a)
				if Reset(p) != nil || Unmarshal(p, []byte(t2)) != nil {
					return nil
				}
				holdings(p.Elem(), "", &b)
				at := map[string]holding{}
				for _, h := range a {
					at[h.path] = h
				}
				var lost []string
				for _, h := range b {
					was, ok := at[h.path]
					if ok && h.n > 0 && (was.cap < 0 || h.n <= was.cap) && h.ptr != was.ptr {
						lost = append(lost, h.path)
					}
				}
				if len(lost) == 0 {
					return nil
				}
				return &Event{Class: "fresh", Input: t1 + " then " + t2, Outcome: "memory was held and not used: " + strings.Join(lost, " ")}
			})
		}
	}
}
