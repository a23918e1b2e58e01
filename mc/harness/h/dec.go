package h

import (
	"fmt"
	"reflect"
	"strings"
)

func init() {
	Explorers["D01"] = exploreD01
	Explorers["D02"] = exploreD02
	Explorers["D03"] = exploreD03
	Explorers["D04"] = exploreD04
	Explorers["D05"] = exploreD05
	Explorers["D06"] = exploreD06
	Explorers["D07"] = exploreD07
	Explorers["D08"] = exploreD08
	Explorers["D09"] = exploreD09
	Explorers["D10"] = exploreD10
	Explorers["D11"] = exploreD11
}

// errPath extracts from an error the location of the element it is about;
// nothing else of the text is judged.
func errPath(err error) string {
	s := err.Error()
	const pre = "error parsing '"
	i := strings.Index(s, pre)
	if i < 0 {
		return ""
	}
	s = s[i+len(pre):]
	if j := strings.Index(s, "'"); j >= 0 {
		// a member name may contain the quote itself
		if k := strings.Index(s, "': "); k >= 0 {
			j = k
		}
		s = s[:j]
	}
	s = strings.TrimSuffix(s, ".(root)")
	if s == "(root)" {
		s = ""
	}
	return s
}

// from is a start state: nil is a new value, otherwise the document is
// decoded first by the code under test.
func (c *Ctx) start(from *Node) (reflect.Value, bool) {
	p := c.New()
	if from == nil {
		return p, true
	}
	return p, Unmarshal(p, []byte(from.Text())) == nil
}

type verdict struct {
	ok    bool // the reference accepts
	err   error
	panic bool
}

// decode runs text through the generated decoder and the reference decoder
// and reports where they differ.
func (c *Ctx) decode(from *Node, text string, n *Node, judgePath bool) *Event {
	p, ok := c.start(from)
	if !ok {
		return nil
	}
	input := text
	if from != nil {
		input = from.Text() + " then " + text
	}
	pre := p.Elem()
	starts := clone(pre)
	err := Unmarshal(p, []byte(text))
	if isPanic(err) {
		return &Event{Class: "panic", Input: input, Outcome: "panic", Detail: err.Error(), Why: "panic"}
	}
	var first *Event
	for _, v := range c.M.Variants() {
		w := clone(starts)
		we := v.Decode(n, w)
		ev := compare(input, w, we, p.Elem(), err, judgePath, c.pathWhy)
		if ev == nil {
			return nil
		}
		if first == nil {
			first = ev
		}
	}
	return first
}

// compare judges one decoding; pathWhy restricts the judgement of the error's
// location to one kind of failure.
func compare(input string, want reflect.Value, we *DErr, got reflect.Value, ge error, judgePath bool, pathWhy string) *Event {
	switch {
	case we == nil && ge != nil:
		return &Event{Class: "rejected", Input: input, Outcome: errPath(ge), Detail: "wants " + Canon(want, false) + ", fails with " + ge.Error()}
	case we != nil && ge == nil:
		return &Event{Class: "accepted", Input: input, Outcome: Canon(got, false), Why: we.Why, Detail: "wants an error: " + we.String()}
	case we == nil:
		if w, g := Canon(want, false), Canon(got, false); w != g {
			return &Event{Class: "value", Input: input, Outcome: g, Detail: "wants " + w}
		}
	default:
		if judgePath && len(we.Path) > 0 && (pathWhy == "" || we.Why == pathWhy) {
			if g, w := errPath(ge), strings.Join(we.Path, "."); g != w {
				return &Event{Class: "path", Input: input, Outcome: g, Why: we.Why, Detail: "wants the error at " + w + ", says " + ge.Error()}
			}
		}
	}
	return nil
}

// has reports whether the document contains a node for which f holds.
func has(n *Node, f func(*Node) bool) bool {
	if f(n) {
		return true
	}
	for _, e := range n.Elem {
		if has(e, f) {
			return true
		}
	}
	return false
}

// mentions reports whether t or one of its components satisfies f.
func mentions(t reflect.Type, f func(reflect.Type) bool) bool {
	return mentions1(t, f, map[reflect.Type]bool{})
}

func mentions1(t reflect.Type, f func(reflect.Type) bool, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if f(t) {
		return true
	}
	if isTime(t) || isUUID(t) {
		return false
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return mentions1(t.Elem(), f, seen)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if mentions1(t.Field(i).Type, f, seen) {
				return true
			}
		}
	}
	return false
}

// depth of the documents enumerated for the entry.
func (c *Ctx) depth() int {
	if c.Deep {
		return 5
	}
	if c.Thorough {
		return 4
	}
	return 3
}

// docs enumerates documents to the greatest depth that keeps their number
// within bounds.
func (c *Ctx) docs() []*Node {
	bound := 20000
	if c.Thorough {
		bound = 120000
	}
	if c.Deep {
		bound = 600000
	}
	out := c.M.Docs(c.E.T, "", 2)
	for d := 3; d <= c.depth() && len(out) < bound/12; d++ {
		out = c.M.Docs(c.E.T, "", d)
	}
	if len(out) > bound {
		c.R.Bounded = append(c.R.Bounded, fmt.Sprintf("%s: the first %d of %d documents", c.E.ID, bound, len(out)))
		out = out[:bound]
	}
	two, deep := 2000, 2
	if c.Thorough {
		two, deep = 8000, 3
	}
	if c.Deep {
		two, deep = 60000, 5
	}
	return dedup(append(out, c.M.pairs(c.E.T, "", deep, two)...))
}

// starts are the states a decoder is run from: a new value, and values filled
// by an earlier document.
func (c *Ctx) starts() []*Node {
	out := []*Node{nil}
	g := c.M.good(c.E.T, "")
	out = append(out, g[0])
	if c.Thorough {
		out = append(out, g[1])
	}
	return out
}

func (c *Ctx) runDocs(docs []*Node, starts []*Node, judgePath bool, keep func(n *Node, we *DErr) bool) {
	for _, n := range docs {
		if keep != nil {
			if !keep(n, c.M.Decode(n, reflect.New(c.E.T).Elem())) {
				continue
			}
		}
		text := n.Text()
		for i, s := range starts {
			in := text
			if i > 0 {
				in = s.Text() + " then " + text
			}
			c.Case(in, func() *Event { return c.decode(s, text, n, judgePath) })
		}
	}
}

// D01: a document decodes to the value the declaration says.
func exploreD01(c *Ctx) {
	if !c.decodable() {
		return
	}
	c.runDocs(c.docs(), []*Node{nil}, false, nil)
}

// D02: a value of the wrong kind is an error, never a panic or a guess.
func exploreD02(c *Ctx) {
	if !c.decodable() {
		return
	}
	docs := append(c.docs(), c.M.kinds(c.E.T)...)
	c.runDocs(docs, c.starts(), false, func(n *Node, we *DErr) bool {
		return we != nil && strings.HasPrefix(we.Why, "not a")
	})
}

// kinds replaces one node of a well typed document, at any depth, by a value
// of every kind.
func (m *Model) kinds(t reflect.Type) []*Node {
	var out []*Node
	for _, g := range m.good(t, "") {
		nodes := 0
		var count func(*Node)
		count = func(n *Node) {
			nodes++
			for _, e := range n.Elem {
				count(e)
			}
		}
		count(g)
		for i := 0; i < nodes && i < 120; i++ {
			for _, r := range append(generic(), nNum("12345678901234567890123"), nStr("12"), nStr("true"), nArr(nArr()), nObj("", nArr())) {
				out = append(out, replaceNode(g, i, r))
			}
		}
	}
	return dedup(out)
}

func replaceNode(n *Node, i int, r *Node) *Node {
	k := i
	var walk func(*Node) *Node
	walk = func(n *Node) *Node {
		if k == 0 {
			k--
			return r
		}
		k--
		if len(n.Elem) == 0 {
			return n
		}
		c := cloneObj(n)
		for j, e := range n.Elem {
			c.Elem[j] = walk(e)
		}
		return c
	}
	return walk(n)
}

// D05: null.
func exploreD05(c *Ctx) {
	if !c.decodable() {
		return
	}
	docs := append(c.docs(), c.M.nulls(c.E.T)...)
	c.runDocs(docs, c.starts(), false, func(n *Node, we *DErr) bool {
		return has(n, func(x *Node) bool { return x.K == Null })
	})
}

// nulls replaces every one and every two nodes of a document by null.
func (m *Model) nulls(t reflect.Type) []*Node {
	var out []*Node
	for _, g := range m.good(t, "") {
		size := func(n *Node) int {
			k := 0
			has(n, func(*Node) bool { k++; return false })
			return k
		}
		n := size(g)
		if n > 60 {
			n = 60
		}
		for i := 0; i < n; i++ {
			a := replaceNode(g, i, nNull())
			out = append(out, a)
			for j := i + 1; j < size(a) && j < 60; j++ {
				out = append(out, replaceNode(a, j, nNull()))
			}
		}
	}
	return dedup(out)
}

// D06: unknown and repeated members.
func exploreD06(c *Ctx) {
	if !c.decodable() {
		return
	}
	declared := map[string]bool{}
	mentions(c.E.T, func(t reflect.Type) bool {
		if t.Kind() == reflect.Struct && !isTime(t) {
			for _, f := range FieldsOf(t) {
				if !f.Skip {
					declared[f.JSON] = true
				}
			}
		}
		return false
	})
	docs := append(c.docs(), c.M.members(c.E.T)...)
	c.runDocs(docs, c.starts(), false, func(n *Node, we *DErr) bool {
		return has(n, func(x *Node) bool {
			seen := map[string]bool{}
			for _, k := range x.Key {
				if seen[k] || !declared[k] {
					return true
				}
				seen[k] = true
			}
			return false
		})
	})
}

// members inserts into every object of a well typed document an undeclared or
// repeated member, at every position.
func (m *Model) members(t reflect.Type) []*Node {
	var out []*Node
	g := m.good(t, "")[0]
	keys := unknownAll(t)
	nodes := 0
	has(g, func(*Node) bool { nodes++; return false })
	for i := 0; i < nodes && i < 80; i++ {
		var at *Node
		k := i
		has(g, func(x *Node) bool {
			k--
			if k < 0 {
				at = x
				return true
			}
			return false
		})
		if at == nil || at.K != Obj {
			continue
		}
		for _, key := range append(append([]string{}, keys...), at.Key...) {
			for pos := 0; pos <= len(at.Key); pos++ {
				if pos > 2 && pos < len(at.Key)-1 {
					continue
				}
				for _, val := range []*Node{nNum("1"), nNull(), nObj("a", nNum("1"))} {
					c := cloneObj(at)
					c.Key = append(append(append([]string{}, at.Key[:pos]...), key), at.Key[pos:]...)
					c.Elem = append(append(append([]*Node{}, at.Elem[:pos]...), val), at.Elem[pos:]...)
					out = append(out, replaceNode(g, i, c))
				}
			}
		}
	}
	return dedup(out)
}

func unknownAll(t reflect.Type) []string {
	set := map[string]bool{}
	var out []string
	add := func(s string) {
		if !set[s] {
			set[s] = true
			out = append(out, s)
		}
	}
	mentions(t, func(t reflect.Type) bool {
		if t.Kind() == reflect.Struct && !isTime(t) {
			for _, k := range unknownKeys(t) {
				if len(out) < 16 {
					add(k)
				}
			}
		}
		return false
	})
	add("zzz")
	add("")
	add("-")
	add("\"\\")
	return out
}

// D07: required members and defaults.
func exploreD07(c *Ctx) {
	if !c.decodable() {
		return
	}
	if !mentions(c.E.T, func(t reflect.Type) bool {
		if t.Kind() != reflect.Struct || isTime(t) {
			return false
		}
		for _, f := range FieldsOf(t) {
			if f.Required || f.HasDef {
				return true
			}
		}
		return false
	}) {
		return
	}
	c.pathWhy = missing
	docs := append(c.docs(), c.M.presence(c.E.T, c.Thorough)...)
	c.runDocs(docs, c.starts(), true, nil)
}

// presence enumerates, for every object of a well typed document, each
// combination of its members being there, being null and missing.
func (m *Model) presence(t reflect.Type, deep bool) []*Node {
	var out []*Node
	limit := 6
	if deep {
		limit = 8
	}
	for _, g := range m.good(t, "") {
		nodes := 0
		has(g, func(*Node) bool { nodes++; return false })
		for i := 0; i < nodes && i < 60; i++ {
			var at *Node
			k := i
			has(g, func(x *Node) bool {
				k--
				if k < 0 {
					at = x
					return true
				}
				return false
			})
			if at == nil || at.K != Obj || len(at.Key) == 0 {
				continue
			}
			for lo := 0; lo < len(at.Key); lo += limit {
				hi := lo + limit
				if hi > len(at.Key) {
					hi = len(at.Key)
				}
				total := 1
				for j := lo; j < hi; j++ {
					total *= 3
				}
				for s := 0; s < total; s++ {
					o := nObj()
					x := s
					for j := range at.Key {
						st := 0
						if j >= lo && j < hi {
							st = x % 3
							x /= 3
						}
						switch st {
						case 0:
							o.Key, o.Elem = append(o.Key, at.Key[j]), append(o.Elem, at.Elem[j])
						case 1:
							o.Key, o.Elem = append(o.Key, at.Key[j]), append(o.Elem, nNull())
						}
					}
					out = append(out, replaceNode(g, i, o))
				}
			}
		}
	}
	return dedup(out)
}

// D08: a failure names the element it is about.
func exploreD08(c *Ctx) {
	if !c.decodable() {
		return
	}
	docs := append(c.docs(), c.M.kinds(c.E.T)...)
	c.runDocs(docs, []*Node{nil}, true, func(n *Node, we *DErr) bool { return we != nil && len(we.Path) > 0 })
}

// D11: inlined structs are part of the struct that holds them.
func exploreD11(c *Ctx) {
	if !mentions(c.E.T, func(t reflect.Type) bool {
		if t.Kind() != reflect.Struct || isTime(t) {
			return false
		}
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).Anonymous {
				return true
			}
		}
		return false
	}) {
		return
	}
	if c.decodable() {
		docs := append(c.docs(), c.M.members(c.E.T)...)
		docs = append(docs, c.M.presence(c.E.T, c.Thorough)...)
		c.pathWhy = missing
		c.runDocs(dedup(docs), c.starts(), true, nil)
	}
	if c.encodable() {
		for _, v := range c.vals() {
			c.Case(Canon(v, false), func() *Event { return c.encode(v, true, true) })
			c.Case("reset "+Canon(v, false), func() *Event { return c.reset(v) })
		}
	}
}
