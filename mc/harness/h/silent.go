package h

import (
	"encoding/json"
	"errors"
	"reflect"
	"strings"
	"time"
)

func init() { Explorers["G02"] = exploreSilent }

// exploreSilent judges declarations of any kind, supported or not: what the
// generator accepted must not lose the value of a member without a word.
func exploreSilent(c *Ctx) {
	if c.E.T.Kind() != reflect.Struct || isTime(c.E.T) {
		for _, e := range someVals(c.E.T, 3) {
			c.Case(show(e), func() *Event { return c.carries(e, func(v reflect.Value) reflect.Value { return v }) })
		}
		return
	}
	for i := 0; i < c.E.T.NumField(); i++ {
		sf := c.E.T.Field(i)
		if strings.Split(sf.Tag.Get("json"), ",")[0] == "-" { // excluded on purpose
			continue
		}
		for _, e := range someVals(sf.Type, 3) {
			v := reflect.New(c.E.T).Elem()
			fld(v, i).Set(e)
			c.Case(sf.Name+" "+show(e), func() *Event {
				return c.carries(v, func(v reflect.Value) reflect.Value { return fld(v, i) })
			})
		}
	}
}

func show(v reflect.Value) (s string) {
	defer func() {
		if recover() != nil {
			s = v.Type().String()
		}
	}()
	return Canon(v, false)
}

func (c *Ctx) carries(v reflect.Value, at func(reflect.Value) reflect.Value) *Event {
	in := show(v)
	p := reflect.New(c.E.T)
	p.Elem().Set(v)
	var b []byte
	if c.encodable() {
		var err error
		if b, err = Marshal(p); err != nil {
			return nil // refused, not lost
		}
		if z, err := Marshal(reflect.New(c.E.T)); err == nil && string(z) == string(b) {
			return &Event{Class: "silent-encode", Input: in, Outcome: string(b), Detail: "the text does not show the value: " + string(b)}
		}
	}
	if !c.decodable() {
		return nil
	}
	if !c.encodable() {
		// the text encoding/json has for it, or any text if it has none
		texts := [][]byte{}
		if b, err := json.Marshal(v.Interface()); err == nil {
			texts = append(texts, b)
		} else if c.E.T.Kind() == reflect.Struct {
			for i := 0; i < c.E.T.NumField(); i++ {
				if sf := c.E.T.Field(i); !fld(v, i).IsZero() {
					for _, x := range []string{`1`, `"x"`, `true`, `[1]`, `["x"]`} {
						texts = append(texts, []byte(`{"`+strings.Split(sf.Tag.Get("json"), ",")[0]+`":`+x+`}`))
					}
				}
			}
		}
		for _, b := range texts {
			q := reflect.New(c.E.T)
			if err := Unmarshal(q, b); err == nil && at(q.Elem()).IsZero() {
				return &Event{Class: "silent-decode", Input: in, Outcome: string(b), Detail: "decoding " + string(b) + " leaves nothing"}
			}
		}
		return nil
	}
	q := reflect.New(c.E.T)
	if err := Unmarshal(q, b); err != nil && !errors.As(err, new(PanicErr)) {
		return nil
	}
	if at(q.Elem()).IsZero() {
		return &Event{Class: "silent-decode", Input: in, Outcome: string(b), Detail: "decoding " + string(b) + " leaves nothing"}
	}
	return nil
}

// someVals are a few values of any type whatsoever which are not empty.
func someVals(t reflect.Type, depth int) []reflect.Value {
	one := func(x any) []reflect.Value {
		v := reflect.New(t).Elem()
		v.Set(reflect.ValueOf(x).Convert(t))
		return []reflect.Value{v}
	}
	if isTime(t) {
		return one(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC))
	}
	if depth == 0 {
		return nil
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		return one(true)
	case reflect.String:
		return append(one("x"), one("{\"y\":1}")...)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64:
		return append(one(1), one(65)...)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(1 + 2i)
		return []reflect.Value{v}
	case reflect.Ptr:
		var out []reflect.Value
		es := someVals(t.Elem(), depth)
		switch t.Elem().Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface:
			// a pointer to nothing is nothing
		default:
			es = append(es, reflect.Zero(t.Elem()))
		}
		for _, e := range es {
			p := reflect.New(t.Elem())
			p.Elem().Set(e)
			out = append(out, p.Convert(t))
		}
		return out
	case reflect.Slice:
		var out []reflect.Value
		for _, e := range someVals(t.Elem(), depth-1) {
			s := reflect.MakeSlice(t, 2, 2)
			s.Index(0).Set(e)
			s.Index(1).Set(e)
			out = append(out, s)
		}
		return out
	case reflect.Array:
		var out []reflect.Value
		for _, e := range someVals(t.Elem(), depth-1) {
			if t.Len() > 0 {
				a := reflect.New(t).Elem()
				a.Index(t.Len() - 1).Set(e)
				out = append(out, a)
			}
		}
		return out
	case reflect.Map:
		var out []reflect.Value
		for _, k := range someVals(t.Key(), 1) {
			for _, e := range someVals(t.Elem(), depth-1) {
				m := reflect.MakeMap(t)
				m.SetMapIndex(k, e)
				out = append(out, m)
			}
		}
		return out
	case reflect.Struct:
		var out []reflect.Value
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Tag.Get("json") == "-" {
				continue
			}
			for _, e := range someVals(t.Field(i).Type, depth-1) {
				s := reflect.New(t).Elem()
				fld(s, i).Set(e)
				out = append(out, s)
			}
		}
		return out
	case reflect.Interface:
		if t.NumMethod() == 0 {
			for _, x := range []any{"x", 1} {
				e := reflect.New(t).Elem()
				e.Set(reflect.ValueOf(x))
				v = e
			}
			return []reflect.Value{v}
		}
		if t == errorT {
			v.Set(reflect.ValueOf(errors.New("x")))
			return []reflect.Value{v}
		}
	case reflect.Chan:
		return []reflect.Value{reflect.MakeChan(t, 1)}
	case reflect.Func:
		return []reflect.Value{reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return nil })}
	}
	return nil
}
