package h

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/valyala/fastjson"
)

func init() { Explorers["D12"] = exploreD12 }

type filler interface {
	FillFromJSON(*fastjson.Value) error
}

func fill(p reflect.Value, v *fastjson.Value) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = PanicErr{r}
		}
	}()
	return p.Interface().(filler).FillFromJSON(v)
}

func outcome(p reflect.Value, err error) string {
	if isPanic(err) {
		return "panic"
	}
	if err != nil {
		return "error at " + errPath(err)
	}
	return Canon(p.Elem(), false)
}

// D12: a value is filled from a document parsed elsewhere as it is decoded
// from the text, and leaves that document alone.
func exploreD12(c *Ctx) {
	if !c.decodable() {
		return
	}
	if _, ok := c.New().Interface().(filler); !ok {
		return
	}
	for _, d := range c.docs() {
		text := d.Text()
		c.Case(text, func() *Event { return c.parsed(text) })
	}
}

// said is what a parsed document says.
func said(v *fastjson.Value) string {
	var b strings.Builder
	say(&b, v)
	return b.String()
}

func say(b *strings.Builder, v *fastjson.Value) {
	switch v.Type() {
	case fastjson.TypeObject:
		b.WriteByte('{')
		v.GetObject().Visit(func(k []byte, e *fastjson.Value) {
			fmt.Fprintf(b, "%q:", k)
			say(b, e)
			b.WriteByte(',')
		})
		b.WriteByte('}')
	case fastjson.TypeArray:
		b.WriteByte('[')
		for _, e := range v.GetArray() {
			say(b, e)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case fastjson.TypeString:
		fmt.Fprintf(b, "%q", v.GetStringBytes())
	default:
		b.Write(v.MarshalTo(nil))
	}
}

func (c *Ctx) parsed(text string) *Event {
	var own fastjson.Parser
	doc, err := own.Parse(text)
	if err != nil {
		return nil
	}
	ref := c.New()
	rerr := Unmarshal(ref, []byte(text))
	if isPanic(rerr) {
		return nil // D01
	}
	want := outcome(ref, rerr)
	var third fastjson.Parser
	same, err := third.Parse(text)
	if err != nil {
		return nil
	}
	was := said(same)
	bad := func(class, got, how string) *Event {
		return &Event{Class: class, Input: text, Outcome: got, Detail: how + " gives " + got + ", UnmarshalJSON gives " + want}
	}
	p := c.New()
	ferr := fill(p, doc)
	if g := outcome(p, ferr); g != want {
		return bad("fill", g, "FillFromJSON")
	}
	if s := said(doc); s != was {
		return &Event{Class: "fill-source", Input: text, Outcome: s, Detail: "the parsed document says afterwards " + s}
	}
	// the same document serves again, also as a part of another
	q := c.New()
	if g := outcome(q, fill(q, doc)); g != want {
		return bad("fill-again", g, "FillFromJSON the second time")
	}
	var other fastjson.Parser
	whole, err := other.Parse(`{"a":1,"w":[0,` + text + `],"z":{}}`)
	if err == nil {
		r := c.New()
		if g := outcome(r, fill(r, whole.Get("w", "1"))); g != want {
			return bad("fill-part", g, "FillFromJSON of a part of a document")
		}
		if rerr == nil {
			// the value outlives the parser's memory, and its own is not shared
			scramble(q.Elem())
			for i := 0; i < 3; i++ {
				_, _ = own.Parse(fmt.Sprintf(`{"zzzzzz":["zzzzzzzzzzzz",%d]}`, i) + "                              " + "                                  ")
				_, _ = other.Parse(`["yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy",{"yy":"yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy"}]`)
			}
			for _, x := range []reflect.Value{p, r} {
				if g := outcome(x, nil); g != want {
					return bad("fill-shared", g, "after the parser was used again the value")
				}
			}
		}
	}
	return nil
}
