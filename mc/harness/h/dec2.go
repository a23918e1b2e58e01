package h

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"reflect"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/valyala/fastjson"
)

func numKind(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		return true
	}
	return false
}

// numbers at and around the limits of every width, in every spelling.
var numbers = func() []*Node {
	set := map[string]bool{}
	var out []*Node
	add := func(s string) {
		if !set[s] {
			set[s] = true
			out = append(out, nNum(s))
		}
	}
	for _, s := range []string{"0", "1", "2", "-1", "-2", "9", "10", "99", "100", "127", "128", "129", "-127", "-128", "-129", "254", "255", "256", "257", "-255", "-256", "32767", "32768", "-32768", "-32769", "65535", "65536", "-65536",
		"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "-4294967296",
		"9007199254740991", "9007199254740992", "9007199254740993", "9223372036854775806", "9223372036854775807", "9223372036854775808", "-9223372036854775807", "-9223372036854775808", "-9223372036854775809",
		"18446744073709551614", "18446744073709551615", "18446744073709551616", "-18446744073709551615", "99999999999999999999", "100000000000000000000", "1000000000000000000000000000000",
		"-0", "0.0", "-0.0", "0.5", "-0.5", "1.0", "1.5", "2.50", "1e0", "1e1", "1E2", "1e+2", "1e-2", "-1e2", "0e0", "1.5e3", "12e-1", "0.1", "0.2", "0.3", "0.30000000000000004", "3.4028234663852886e38", "3.5e38", "-3.5e38", "1e39",
		"1.7976931348623157e308", "1e308", "1e309", "-1e309", "5e-324", "1e-400", "1e400", "16777216", "16777217", "0.000001", "1e-7", "123456789.125"} {
		add(s)
	}
	return out
}()

// leaves lists the documents equal to good with the leaf reached through the
// type replaced: f maps a position's type to the values to put there.
func (m *Model) leaves(t reflect.Type, layout string, f func(t reflect.Type, layout string) []*Node, depth int) []*Node {
	if r := f(t, layout); r != nil {
		return r
	}
	if depth <= 0 || isTime(t) || isUUID(t) || isBytes(t) && !m.U8 {
		return nil
	}
	var out []*Node
	switch t.Kind() {
	case reflect.Ptr:
		return m.leaves(t.Elem(), layout, f, depth)
	case reflect.Slice, reflect.Array:
		g := m.good(t.Elem(), "")
		n := 2
		if t.Kind() == reflect.Array {
			n = t.Len()
		}
		for _, e := range m.leaves(t.Elem(), "", f, depth-1) {
			a := nArr()
			for i := 0; i < n; i++ {
				a.Elem = append(a.Elem, g[i%2])
			}
			if n > 0 {
				a.Elem[n-1] = e
			}
			out = append(out, a)
			if n > 1 {
				b := nArr(append([]*Node{}, a.Elem...)...)
				b.Elem[n-1] = g[0]
				b.Elem[0] = e
				out = append(out, b)
			}
		}
	case reflect.Map:
		g := m.good(t.Elem(), "")
		for _, e := range m.leaves(t.Elem(), "", f, depth-1) {
			out = append(out, nObj("k", e, "l", g[0]))
		}
	case reflect.Struct:
		base := m.good(t, "")[0]
		for i, k := range base.Key {
			fi := fieldByJSON(t, k)
			for _, e := range m.leaves(fi.Type, fi.Layout, f, depth-1) {
				c := cloneObj(base)
				c.Elem[i] = e
				out = append(out, c)
			}
		}
	}
	return out
}

// D03: numbers keep their value or are refused.
func exploreD03(c *Ctx) {
	if !c.decodable() || !mentions(c.E.T, numKind) {
		return
	}
	docs := c.M.leaves(c.E.T, "", func(t reflect.Type, _ string) []*Node {
		if numKind(t) {
			return numbers
		}
		return nil
	}, 5)
	docs = append(docs, c.M.Docs(c.E.T, "", 2)...)
	c.runDocs(dedup(docs), []*Node{nil}, false, nil)
	if c.Thorough {
		c.sweep()
	}
}

// sweep decodes every integer of a range that covers the 8 and 16 bit types,
// in the first position that holds a number of such a type.
func (c *Ctx) sweep() {
	small := false
	docs := c.M.leaves(c.E.T, "", func(t reflect.Type, _ string) []*Node {
		switch t.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Uint8, reflect.Uint16:
			small = true
			return []*Node{{K: Num, S: "@@"}}
		}
		return nil
	}, 5)
	if !small {
		return
	}
	n := docs[0]
	text := n.Text()
	var hole *Node
	has(n, func(x *Node) bool {
		if x.S == "@@" {
			hole = x
			return true
		}
		return false
	})
	const lo, hi, step = -70000, 140000, 2000
	for a := lo; a < hi; a += step {
		in := fmt.Sprintf("%s for @@ in [%d,%d)", text, a, a+step)
		run := func() *Event {
			f := fnv.New64a()
			bad, first := 0, ""
			for x := a; x < a+step; x++ {
				c.R.Evaluations++
				hole.S = strconv.Itoa(x)
				ev := c.decode(nil, n.Text(), n, false)
				if ev != nil {
					bad++
					fmt.Fprintf(f, "%s %s %s\n", ev.Class, ev.Input, ev.Outcome)
					if first == "" {
						first = ev.Class + " " + ev.Input + " " + ev.Detail
					}
				}
			}
			hole.S = "@@"
			if bad == 0 {
				return nil
			}
			return &Event{Class: "sweep", Input: in, Outcome: fmt.Sprintf("%d %x", bad, f.Sum64()), Why: "out of range", Detail: fmt.Sprintf("%d integers, the first: %s", bad, first)}
		}
		c.Case(in, run)
	}
}

// D04: times, identifiers and binary data in text.
func exploreD04(c *Ctx) {
	textual := func(t reflect.Type) bool { return isTime(t) || isUUID(t) || isBytes(t) && !c.M.U8 }
	if !c.decodable() || !mentions(c.E.T, textual) {
		return
	}
	docs := c.M.leaves(c.E.T, "", func(t reflect.Type, layout string) []*Node {
		switch {
		case isTime(t):
			return times(layout)
		case isUUID(t):
			return uuids()
		case isBytes(t) && !c.M.U8:
			return base64s(c.Thorough)
		}
		return nil
	}, 5)
	if !c.Thorough && len(docs) > 30000 {
		c.R.Bounded = append(c.R.Bounded, fmt.Sprintf("%s: first 30000 of %d documents", c.E.ID, len(docs)))
		docs = docs[:30000]
	}
	docs = append(docs, c.M.Docs(c.E.T, "", 2)...)
	c.runDocs(dedup(docs), []*Node{nil}, false, nil)
}

func times(layout string) []*Node {
	var out []*Node
	stamps := []time.Time{
		time.Date(2021, 3, 4, 5, 6, 7, 0, time.UTC), time.Date(2024, 2, 29, 23, 59, 59, 999999999, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(9999, 12, 31, 0, 0, 0, 1000000, time.UTC),
		time.Date(1969, 12, 31, 23, 0, 0, 500, time.FixedZone("", -5*3600-1800)), time.Date(2000, 1, 1, 12, 0, 0, 120000000, time.FixedZone("", 14*3600)),
	}
	layouts := []string{time.RFC3339, time.RFC3339Nano, "2006-01-02 15:04:05Z07:00", "02.01.2006 15:04:05Z07:00", "2006-01-02T15:04:05.000Z07:00", "2006-01-02", "2006-01-02T15:04:05", "2006-01-02 15:04:05", time.RFC1123Z, time.RFC1123, time.Kitchen, "15:04:05", "02/01/2006 15:04", "20060102", "2006-01-02T15:04Z07:00", "2006-01-02t15:04:05z07:00", "2006-01-02T15:04:05-0700"}
	if layout != "" {
		l := layout
		if x, ok := layoutConst[l]; ok {
			l = x
		}
		layouts = append(layouts, l, l+" ", " "+l)
	}
	for _, s := range stamps {
		for _, l := range layouts {
			out = append(out, nStr(s.Format(l)))
		}
	}
	base := "2021-03-04T05:06:07Z"
	for i := range base { // every single character replaced or dropped
		out = append(out, nStr(base[:i]+base[i+1:]))
		for _, r := range []string{"0", "9", "x", " ", "-", "é"} {
			out = append(out, nStr(base[:i]+r+base[i+1:]))
		}
	}
	out = append(out, strs("", "null", "0", "now", "2021-03-04T05:06:07+24:00", "2021-03-04T05:06:07+00:00", "2021-03-04T24:00:00Z", "2021-02-30T00:00:00Z", "2021-03-04T05:06:60Z", "2021-03-04T05:06:07.1234567891Z", "2021-03-04T05:06:07,5Z", "+2021-03-04T05:06:07Z", "10000-01-01T00:00:00Z")...)
	return dedup(out)
}

func uuids() []*Node {
	base := "f47ac10b-58cc-4372-8567-0e02b2c3d479"
	forms := []string{base, strings.ToUpper(base), "{" + base + "}", "urn:uuid:" + base, "URN:UUID:" + base, strings.ReplaceAll(base, "-", ""), base + " ", " " + base, base[1:], base + "0", "{" + base, base + "}", "", "0", "urn:uuid", strings.ReplaceAll(base, "-", "_"), strings.ReplaceAll(base, "-", "")[1:], "00000000-0000-0000-0000-000000000000", "ffffffff-ffff-ffff-ffff-ffffffffffff"}
	var out []*Node
	for _, f := range forms {
		out = append(out, nStr(f))
	}
	for i := range base {
		for _, r := range []string{"g", "-", "0", " ", "F"} {
			out = append(out, nStr(base[:i]+r+base[i+1:]))
		}
	}
	return dedup(out)
}

// base64s are all strings up to a length over an alphabet with valid,
// invalid and padding characters.
func base64s(deep bool) []*Node {
	alpha := "Ag/=- "
	max := 4
	if deep {
		alpha = "Ag/+=-\n"
		max = 5
	}
	var out []*Node
	var rec func(s string)
	rec = func(s string) {
		out = append(out, nStr(s))
		if len(s) < max {
			for _, r := range alpha {
				rec(s + string(r))
			}
		}
	}
	rec("")
	for n := 0; n <= 33; n++ {
		b := bytes.Repeat([]byte{0xfb, 0xef, 1}, 12)[:n]
		out = append(out, nStr(base64.StdEncoding.EncodeToString(b)), nStr(base64.URLEncoding.EncodeToString(b)), nStr(base64.RawStdEncoding.EncodeToString(b)))
	}
	return dedup(out)
}

// ---- text -----------------------------------------------------------------

// parseTree reads a document with the standard decoder, keeping order and
// repeated members.
func parseTree(text string) (*Node, error) {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	n, err := readTree(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("text after the document")
	}
	return n, nil
}

func readTree(d *json.Decoder) (*Node, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return nNull(), nil
	case bool:
		return nBool(x), nil
	case json.Number:
		return nNum(string(x)), nil
	case string:
		return nStr(x), nil
	case json.Delim:
		n := &Node{K: Arr}
		if x == '{' {
			n.K = Obj
		}
		for d.More() {
			if n.K == Obj {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				n.Key = append(n.Key, k.(string))
			}
			e, err := readTree(d)
			if err != nil {
				return nil, err
			}
			n.Elem = append(n.Elem, e)
		}
		_, err := d.Token()
		return n, err
	}
	return nil, fmt.Errorf("token %v", t)
}

// text runs arbitrary text: what is not JSON must be refused and leave the
// receiver alone, what is JSON is decoded as by the reference.
func (c *Ctx) text(from *Node, text string) *Event {
	// texts on which the parser library and the standard one disagree are
	// not judged: the generated code has no say in them
	n, stdErr := parseTree(text)
	if stdErr == nil && !json.Valid([]byte(text)) {
		return nil
	}
	_, vErr := fastjson.Parse(text)
	if (stdErr == nil) != (vErr == nil) {
		return nil
	}
	if stdErr == nil && !utf8.ValidString(text) {
		// no text at all; what becomes of the odd bytes is nowhere said
		if err := Unmarshal(c.New(), []byte(text)); isPanic(err) {
			return &Event{Class: "panic", Input: text, Outcome: "panic", Detail: err.Error(), Why: "panic"}
		}
		return nil
	}
	if stdErr == nil {
		return c.decode(nil, text, n, false)
	}
	p, ok := c.start(from)
	if !ok {
		return nil
	}
	in := text
	if from != nil {
		in = from.Text() + " then " + text
	}
	before := Canon(p.Elem(), false)
	err := Unmarshal(p, []byte(text))
	switch {
	case isPanic(err):
		return &Event{Class: "panic", Input: in, Outcome: "panic", Detail: err.Error(), Why: "panic"}
	case err == nil:
		return &Event{Class: "accepted", Input: in, Outcome: Canon(p.Elem(), false), Why: "not JSON", Detail: "the text is not JSON"}
	}
	if after := Canon(p.Elem(), false); after != before {
		return &Event{Class: "touched", Input: in, Outcome: after, Why: "not JSON", Detail: "a text that is not JSON changed the receiver from " + before}
	}
	return nil
}

// D09: malformed and truncated text.
func exploreD09(c *Ctx) {
	if !c.decodable() {
		return
	}
	good := c.M.good(c.E.T, "")
	var texts []string
	limit := 700
	for gi, g := range good {
		t := g.Text()
		if gi > 0 && !c.Thorough {
			break
		}
		for i := 0; i < len(t) && i < limit*2; i++ {
			texts = append(texts, t[:i])
		}
		n := len(t)
		if n > limit {
			c.R.Bounded = append(c.R.Bounded, fmt.Sprintf("%s: edits in the first %d of %d bytes", c.E.ID, limit, n))
			n = limit
		}
		edits := []string{"", "}", "]", ",", "\"", "\x00", "0"}
		if c.Thorough {
			edits = append(edits, "{", "[", ":", "\\", "n", "-", ".", "\x01", "\xff", " ")
		}
		for i := 0; i < n; i++ {
			for _, r := range edits {
				texts = append(texts, t[:i]+r+t[i+1:])
				if r != "" {
					texts = append(texts, t[:i]+r+t[i:])
				}
			}
		}
		for _, s := range []string{",", "}", "]", "x", "\x00", "null", t, "//", "\ufeff"} {
			texts = append(texts, t+s, s+t)
		}
	}
	texts = append(texts, "", " ", "\n", "nul", "tru", "{", "[", "\"", "{]", "[}", "{\"", "{\"a", "{\"a\"", "{\"a\":", "{\"a\":1", "{a:1}", "{'a':1}", "[1,]", "{\"a\":1,}", "//", "NaN", "+1", "01", ".5", "5.", "1e", "--1", "\"\\x\"", "\"\\u12\"", "\"\x01\"", strings.Repeat("[", 400), strings.Repeat("{\"a\":", 400), "\xef\xbb\xbf{}")
	from := []*Node{good[0]}
	if c.Thorough {
		from = []*Node{good[0], nil, good[1]}
	}
	for _, t := range texts {
		for _, from := range from {
			in := t
			if from != nil && !json.Valid([]byte(t)) {
				in = from.Text() + " then " + t
			}
			c.Case(in, func() *Event { return c.text(from, t) })
		}
	}
}

// ---- spelling ---------------------------------------------------------------

// D10: neither white space, member order nor the spelling of strings matters.
func exploreD10(c *Ctx) {
	if !c.decodable() {
		return
	}
	for _, g := range c.M.good(c.E.T, "") {
		for _, n := range c.M.spellings(g, c.Thorough) {
			for i, text := range n.texts {
				if i > 0 || true {
					node := n.node
					c.Case(text, func() *Event { return c.decode(nil, text, node, false) })
				}
			}
		}
	}
}

type spelled struct {
	node  *Node
	texts []string
}

func (m *Model) spellings(g *Node, deep bool) []spelled {
	var out []spelled
	ws := []string{" ", "\n", "\t", "\r\n ", "  \t\n\r"}
	add := func(n *Node) { out = append(out, spelled{n, []string{n.Text()}}) }
	s := spelled{node: g, texts: []string{g.Text()}}
	for _, w := range ws {
		s.texts = append(s.texts, g.TextWS(w))
	}
	// white space at one place only
	full := g.Text()
	toks := tokenEnds(full)
	for _, at := range toks {
		if len(toks) > 150 && at > 400 {
			break
		}
		for _, w := range []string{" ", "\n\t"} {
			s.texts = append(s.texts, full[:at]+w+full[at:])
		}
	}
	out = append(out, s)
	// member orders of every object
	nodes := 0
	has(g, func(*Node) bool { nodes++; return false })
	for i := 0; i < nodes && i < 100; i++ {
		var at *Node
		k := i
		has(g, func(x *Node) bool {
			k--
			if k < 0 {
				at = x
				return true
			}
			return false
		})
		if at == nil {
			break
		}
		if at.K == Obj {
			for _, p := range orders(len(at.Key), deep) {
				o := nObj()
				for _, j := range p {
					o.Key, o.Elem = append(o.Key, at.Key[j]), append(o.Elem, at.Elem[j])
				}
				add(replaceNode(g, i, o))
			}
			// spellings of the member names
			for j, key := range at.Key {
				for _, e := range escapes(key) {
					o := cloneObj(at)
					o.KRaw = make([]string, len(at.Key))
					o.KRaw[j] = e
					add(replaceNode(g, i, o))
				}
			}
		}
		if at.K == Str {
			for _, e := range escapes(at.S) {
				add(replaceNode(g, i, rawStr(at.S, e)))
			}
		}
	}
	return out
}

func tokenEnds(s string) []int {
	out := []int{0}
	in := false
	for i := 0; i < len(s); i++ {
		switch {
		case in && s[i] == '\\':
			i++
		case s[i] == '"':
			in = !in
			if in {
				out = append(out, i)
			} else {
				out = append(out, i+1)
			}
		case !in && strings.IndexByte("{}[],:", s[i]) >= 0:
			out = append(out, i, i+1)
		}
	}
	uniq := out[:0]
	last := -1
	for _, x := range out {
		if x > last {
			uniq = append(uniq, x)
			last = x
		}
	}
	return uniq
}

// escapes respells a string: every character escaped, the first one, the last.
func escapes(s string) []string {
	rs := []rune(s)
	if len(rs) == 0 || strings.ContainsRune(s, 0xfffd) {
		return nil
	}
	esc := func(f func(i int) bool) string {
		var b strings.Builder
		b.WriteByte('"')
		for i, r := range rs {
			switch {
			case f(i) && r > 0xffff:
				r -= 0x10000
				fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			case f(i):
				fmt.Fprintf(&b, `\u%04x`, r)
			default:
				q := quote(string(r))
				b.WriteString(q[1 : len(q)-1])
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	out := []string{esc(func(int) bool { return true }), esc(func(i int) bool { return i == 0 })}
	if len(rs) > 1 {
		out = append(out, esc(func(i int) bool { return i == len(rs)-1 }))
	}
	if strings.Contains(s, "/") {
		out = append(out, strings.ReplaceAll(quote(s), "/", `\/`))
	}
	return out
}

// orders are all permutations of up to 4 (5) members; for more members the
// reversal, all rotations and all exchanges of two.
func orders(n int, deep bool) [][]int {
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	limit := 4
	if deep {
		limit = 5
	}
	var out [][]int
	if n <= limit {
		var rec func(k int)
		rec = func(k int) {
			if k == n {
				out = append(out, append([]int{}, id...))
				return
			}
			for i := k; i < n; i++ {
				id[k], id[i] = id[i], id[k]
				rec(k + 1)
				id[k], id[i] = id[i], id[k]
			}
		}
		rec(0)
		return out
	}
	rev := make([]int, n)
	for i := range rev {
		rev[i] = n - 1 - i
	}
	out = append(out, rev)
	for r := 1; r < n; r++ {
		out = append(out, append(append([]int{}, id[r:]...), id[:r]...))
	}
	for i := 0; i < n && n <= 24; i++ {
		for j := i + 1; j < n; j++ {
			p := append([]int{}, id...)
			p[i], p[j] = p[j], p[i]
			out = append(out, p)
		}
	}
	return out
}
