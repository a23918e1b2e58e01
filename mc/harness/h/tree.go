// Package h is the exploration harness that is compiled together with the
// code generated by the generator under test.
package h

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Kind of a JSON node.
type Kind int

const (
	Null Kind = iota
	Bool
	Num
	Str
	Arr
	Obj
)

// Node is a JSON document; objects keep order and repeated members.
type Node struct {
	K    Kind
	B    bool
	S    string // Str: decoded text; Num: literal
	Raw  string // Str: alternative spelling to render instead of the default one
	Elem []*Node
	Key  []string
	KRaw []string // alternative spelling of keys ("" = default)
	Tag  string   // description used in samples
}

func nNull() *Node          { return &Node{K: Null} }
func nBool(b bool) *Node    { return &Node{K: Bool, B: b} }
func nNum(s string) *Node   { return &Node{K: Num, S: s} }
func nStr(s string) *Node   { return &Node{K: Str, S: s} }
func nArr(e ...*Node) *Node { return &Node{K: Arr, Elem: e} }
func nObj(kv ...any) *Node {
	n := &Node{K: Obj}
	for i := 0; i+1 < len(kv); i += 2 {
		n.Key = append(n.Key, kv[i].(string))
		n.Elem = append(n.Elem, kv[i+1].(*Node))
	}
	return n
}

func quote(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); {
		r, w := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && w == 1:
			b.WriteByte(s[i])
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteByte(byte(r))
		case r < 0x20:
			fmt.Fprintf(&b, "\\u%04x", r)
		default:
			b.WriteString(s[i : i+w])
		}
		i += w
	}
	b.WriteByte('"')
	return b.String()
}

// Text renders the node.
func (n *Node) Text() string {
	var b strings.Builder
	n.render(&b, "")
	return b.String()
}

// TextWS renders the node with ws inserted between all tokens.
func (n *Node) TextWS(ws string) string {
	var b strings.Builder
	b.WriteString(ws)
	n.render(&b, ws)
	b.WriteString(ws)
	return b.String()
}

func (n *Node) render(b *strings.Builder, ws string) {
	switch n.K {
	case Null:
		b.WriteString("null")
	case Bool:
		b.WriteString(strconv.FormatBool(n.B))
	case Num:
		b.WriteString(n.S)
	case Str:
		if n.Raw != "" {
			b.WriteString(n.Raw)
		} else {
			b.WriteString(quote(n.S))
		}
	case Arr:
		b.WriteString("[" + ws)
		for i, e := range n.Elem {
			if i > 0 {
				b.WriteString("," + ws)
			}
			e.render(b, ws)
			b.WriteString(ws)
		}
		b.WriteString("]")
	case Obj:
		b.WriteString("{" + ws)
		for i, e := range n.Elem {
			if i > 0 {
				b.WriteString("," + ws)
			}
			if n.KRaw != nil && n.KRaw[i] != "" {
				b.WriteString(n.KRaw[i])
			} else {
				b.WriteString(quote(n.Key[i]))
			}
			b.WriteString(ws + ":" + ws)
			e.render(b, ws)
			b.WriteString(ws)
		}
		b.WriteString("}")
	}
}

// Get returns the first member with the given name.
func (n *Node) Get(key string) *Node {
	for i, k := range n.Key {
		if k == key {
			return n.Elem[i]
		}
	}
	return nil
}

// ---- lenient lexer for produced text -------------------------------------

// Tok is a lexical token of produced JSON text.
type Tok struct {
	T string // one of { } [ ] , : "s" (string) "n" (number) "w" (word)
	S string
}

// Lex splits text into tokens; it fails only on bytes that start no token.
func Lex(text string) ([]Tok, error) {
	var out []Tok
	for i := 0; i < len(text); {
		c := text[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.IndexByte("{}[],:", c) >= 0:
			out = append(out, Tok{T: string(c)})
			i++
		case c == '"':
			j := i + 1
			for j < len(text) && text[j] != '"' {
				if text[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(text) {
				return out, fmt.Errorf("unterminated string at %d", i)
			}
			var s string
			if err := json.Unmarshal([]byte(text[i:j+1]), &s); err != nil {
				return out, fmt.Errorf("bad string %s: %v", text[i:j+1], err)
			}
			out = append(out, Tok{T: "s", S: s})
			i = j + 1
		case c == '-' || c >= '0' && c <= '9':
			j := i + 1
			for j < len(text) && strings.IndexByte("0123456789+-.eE", text[j]) >= 0 {
				j++
			}
			if !json.Valid([]byte(text[i:j])) {
				return out, fmt.Errorf("bad number %s", text[i:j])
			}
			out = append(out, Tok{T: "n", S: text[i:j]})
			i = j
		case c >= 'a' && c <= 'z':
			j := i + 1
			for j < len(text) && text[j] >= 'a' && text[j] <= 'z' {
				j++
			}
			w := text[i:j]
			if w != "null" && w != "true" && w != "false" {
				return out, fmt.Errorf("bad word %s", w)
			}
			out = append(out, Tok{T: "w", S: w})
			i = j
		default:
			return out, fmt.Errorf("unexpected byte %q at %d", c, i)
		}
	}
	return out, nil
}
