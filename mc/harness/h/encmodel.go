package h

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"time"
)

// IsZero is the reference emptiness predicate.
func (m *Model) IsZero(v reflect.Value) bool {
	t := v.Type()
	switch {
	case isTime(t):
		return v.Convert(timeT).Interface().(time.Time).IsZero()
	}
	switch t.Kind() {
	case reflect.Struct:
		for _, f := range FieldsOf(t) {
			if !m.fieldZero(fldAt(v, f.Index)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !m.fieldZero(v.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	}
	return v.IsZero()
}

// fieldZero: is the component unset.
func (m *Model) fieldZero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.IsNil()
	case reflect.Array:
		if !isUUID(v.Type()) {
			return false
		}
	case reflect.Struct:
		return m.IsZero(v)
	case reflect.Ptr:
		// a chain of pointers that ends in nil holds nothing
		if !v.IsNil() && v.Type().Elem().Kind() == reflect.Ptr {
			return v.Elem().IsNil()
		}
	}
	return v.IsZero()
}

type matcher struct {
	m    *Model
	toks []Tok
	pos  int
	why  string
}

func (k *matcher) bad(format string, a ...any) bool {
	if k.why == "" {
		k.why = fmt.Sprintf("token %d: ", k.pos) + fmt.Sprintf(format, a...)
	}
	return false
}

func (k *matcher) peek() Tok {
	if k.pos < len(k.toks) {
		return k.toks[k.pos]
	}
	return Tok{T: "end"}
}

func (k *matcher) tok(t string) bool {
	if k.peek().T != t {
		return k.bad("want %q got %v", t, k.peek())
	}
	k.pos++
	return true
}

func (k *matcher) word(w string) bool {
	if p := k.peek(); p.T != "w" || p.S != w {
		return k.bad("want %s got %v", w, p)
	}
	k.pos++
	return true
}

func (k *matcher) str(s string) bool {
	if p := k.peek(); p.T != "s" || p.S != s {
		return k.bad("want string %q got %v", s, p)
	}
	k.pos++
	return true
}

// MatchEncoding compares produced text with what the reference encoder
// allows for v (members in declaration order, map members in any order).
func (m *Model) MatchEncoding(text string, v reflect.Value) (bool, string) {
	toks, err := Lex(text)
	if err != nil {
		return false, err.Error()
	}
	k := &matcher{m: m, toks: toks}
	if !k.value(v, "") {
		return false, k.why
	}
	if k.pos != len(toks) {
		return false, fmt.Sprintf("%d trailing tokens", len(toks)-k.pos)
	}
	return true, ""
}

func validUTF8(s string) string { return string([]rune(s)) }

func (k *matcher) value(v reflect.Value, layout string) bool {
	t := v.Type()
	switch {
	case isTime(t):
		tm := v.Convert(timeT).Interface().(time.Time)
		l := time.RFC3339Nano
		if layout != "" {
			l = layout
			if c, ok := layoutConst[l]; ok {
				l = c
			}
		}
		return k.str(tm.Format(l))
	case isUUID(t):
		b := make([]byte, 16)
		for i := range b {
			b[i] = byte(v.Index(i).Uint())
		}
		h := hex.EncodeToString(b)
		return k.str(h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:])
	case isBytes(t) && !k.m.U8:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return k.word("null")
		}
		b := make([]byte, v.Len())
		for i := range b {
			b[i] = byte(v.Index(i).Uint())
		}
		return k.str(base64.StdEncoding.EncodeToString(b))
	}
	switch t.Kind() {
	case reflect.Bool:
		return k.word(strconv.FormatBool(v.Bool()))
	case reflect.String:
		return k.str(validUTF8(v.String()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return k.num(new(big.Float).SetPrec(200).SetInt64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return k.num(new(big.Float).SetPrec(200).SetUint64(v.Uint()))
	case reflect.Float32, reflect.Float64:
		p := k.peek()
		if p.T != "n" {
			return k.bad("want a number got %v", p)
		}
		bits := 64
		if t.Kind() == reflect.Float32 {
			bits = 32
		}
		f, err := strconv.ParseFloat(p.S, bits)
		if err != nil || f != v.Float() || math.Signbit(f) != math.Signbit(v.Float()) && f != 0 {
			return k.bad("want %v got %s", v.Float(), p.S)
		}
		k.pos++
		return true
	case reflect.Ptr:
		if v.IsNil() {
			return k.word("null")
		}
		return k.value(v.Elem(), layout)
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() {
			return k.word("null")
		}
		if !k.tok("[") {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if i > 0 && !k.tok(",") {
				return false
			}
			if !k.inner(v.Index(i)) {
				return false
			}
		}
		return k.tok("]")
	case reflect.Map:
		if v.IsNil() {
			return k.word("null")
		}
		if !k.tok("{") {
			return false
		}
		left := map[string]reflect.Value{}
		for it := v.MapRange(); it.Next(); {
			left[validUTF8(it.Key().String())] = it.Value()
		}
		for n := 0; len(left) > 0; n++ {
			if n > 0 && !k.tok(",") {
				return false
			}
			p := k.peek()
			ev, ok := left[p.S]
			if p.T != "s" || !ok {
				return k.bad("unexpected map member %v", p)
			}
			k.pos++
			delete(left, p.S)
			if !k.tok(":") {
				return false
			}
			if ev.Type().Name() == "" && !k.inner(ev) || ev.Type().Name() != "" && !k.value(ev, "") {
				return false
			}
		}
		return k.tok("}")
	case reflect.Struct:
		if !k.tok("{") {
			return false
		}
		if !k.members(v) {
			return false
		}
		return k.tok("}")
	}
	panic("model: unsupported kind " + t.String())
}

// inner is an element of a list or a map: a nil list there is written as null
// or as [].
func (k *matcher) inner(e reflect.Value) bool {
	if e.Kind() == reflect.Slice && e.IsNil() && k.peek().T == "[" {
		k.pos++
		return k.tok("]")
	}
	return k.value(e, "")
}

func (k *matcher) members(v reflect.Value) bool {
	want := false
	for _, f := range FieldsOf(v.Type()) {
		if f.Skip {
			continue
		}
		fv := fldAt(v, f.Index)
		zero := k.m.fieldZero(fv)
		open := f.OmitE && (fv.Kind() == reflect.Slice || fv.Kind() == reflect.Map) && fv.Type().Name() != "" && fv.Len() == 0 && !fv.IsNil()
		open = open || f.OmitE && fv.Kind() == reflect.Array && fv.IsZero() && (isUUID(fv.Type()) || isBytes(fv.Type()))
		if f.OmitE && zero && !open {
			continue
		}
		if open && !k.ahead(want, f.JSON) {
			// omitempty and an array of zero bytes or an empty value of a
			// defined collection type: left out or written
			continue
		}
		if want && !k.tok(",") {
			return false
		}
		want = true
		if !k.str(f.JSON) || !k.tok(":") {
			return false
		}
		if !k.value(fv, f.Layout) {
			k.why = "member " + strconv.Quote(f.JSON) + ": " + k.why
			return false
		}
	}
	return true
}

// ahead: the next member has this name.
func (k *matcher) ahead(comma bool, name string) bool {
	i := k.pos
	if comma && i < len(k.toks) && k.toks[i].T == "," {
		i++
	}
	return i < len(k.toks) && k.toks[i].T == "s" && k.toks[i].S == name
}

func (k *matcher) num(want *big.Float) bool {
	p := k.peek()
	if p.T != "n" {
		return k.bad("want a number got %v", p)
	}
	f, _, err := big.ParseFloat(p.S, 10, 200, big.ToNearestEven)
	if err != nil || f.Cmp(want) != 0 {
		return k.bad("want %s got %s", want.Text('f', 0), p.S)
	}
	k.pos++
	return true
}

// Canon renders a value canonically.  loose: nil and empty collections are
// the same (capacity is never observed).
func Canon(v reflect.Value, loose bool) string {
	var b strings.Builder
	canon(&b, v, loose)
	return b.String()
}

func canon(b *strings.Builder, v reflect.Value, loose bool) {
	t := v.Type()
	if isTime(t) {
		tm := v.Convert(timeT).Interface().(time.Time)
		_, off := tm.Zone()
		fmt.Fprintf(b, "T(%s %d)", tm.UTC().Format(time.RFC3339Nano), off)
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.String:
		b.WriteString(strconv.Quote(v.String()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		// 15 digits: the last bit of a float64 is up to the JSON parser the
		// generated code calls
		f := v.Float()
		if f == 0 {
			f = 0
		}
		b.WriteString(strconv.FormatFloat(f, 'g', 15, 64))
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		canon(b, v.Elem(), loose)
	case reflect.Slice, reflect.Array:
		if t.Kind() == reflect.Slice && v.IsNil() && !loose {
			b.WriteString("nil[]")
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			canon(b, v.Index(i), loose)
		}
		b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() && !loose {
			b.WriteString("nil{}")
			return
		}
		var keys []string
		vals := map[string]reflect.Value{}
		for it := v.MapRange(); it.Next(); {
			s := it.Key().String()
			keys = append(keys, s)
			vals[s] = it.Value()
		}
		sortStrings(keys)
		b.WriteByte('{')
		for i, s := range keys {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(strconv.Quote(s))
			b.WriteByte(':')
			canon(b, vals[s], loose)
		}
		b.WriteByte('}')
	case reflect.Struct:
		b.WriteByte('(')
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(t.Field(i).Name)
			b.WriteByte('=')
			canon(b, fld(v, i), loose)
		}
		b.WriteByte(')')
	default:
		panic("canon: " + t.String())
	}
}
