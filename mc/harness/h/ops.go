package h

import (
	"encoding/base64"
	"errors"
	"fmt"
	"reflect"

	"github.com/mailru/easyjson/jwriter"
)

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

type unmarshaler interface{ UnmarshalJSON([]byte) error }
type marshaler interface{ MarshalJSON() ([]byte, error) }
type writerTo interface {
	MarshalTo(*jwriter.Writer) error
}
type zeroer interface{ IsZero() bool }
type resetter interface{ Reset() }

// PanicErr is a panic caught in generated code.
type PanicErr struct{ V any }

func (p PanicErr) Error() string { return fmt.Sprintf("panic: %v", p.V) }

func isPanic(err error) bool {
	var p PanicErr
	return errors.As(err, &p)
}

// Unmarshal runs the generated decoder on p (pointer to a registered type).
func Unmarshal(p reflect.Value, data []byte) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = PanicErr{r}
		}
	}()
	return p.Interface().(unmarshaler).UnmarshalJSON(data)
}

// Marshal runs the generated encoder.
func Marshal(p reflect.Value) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = PanicErr{r}
		}
	}()
	return p.Interface().(marshaler).MarshalJSON()
}

// IsZero runs the generated emptiness predicate.
func IsZero(p reflect.Value) (z bool, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = PanicErr{r}
		}
	}()
	return p.Interface().(zeroer).IsZero(), nil
}

// Reset runs the generated reset.
func Reset(p reflect.Value) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = PanicErr{r}
		}
	}()
	p.Interface().(resetter).Reset()
	return nil
}

// clone makes a deep copy sharing nothing with v.
func clone(v reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	cloneInto(out, v)
	return out
}

func cloneInto(dst, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || isTimeLoc(v.Type()) {
			dst.Set(v)
			return
		}
		p := reflect.New(v.Type().Elem())
		cloneInto(p.Elem(), v.Elem())
		dst.Set(p.Convert(v.Type()))
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			cloneInto(s.Index(i), v.Index(i))
		}
		dst.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			cloneInto(dst.Index(i), v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		mv := reflect.MakeMap(v.Type())
		for it := v.MapRange(); it.Next(); {
			e := reflect.New(v.Type().Elem()).Elem()
			cloneInto(e, it.Value())
			k := reflect.New(v.Type().Key()).Elem()
			k.SetString(string(append([]byte{}, it.Key().String()...)))
			mv.SetMapIndex(k, e)
		}
		dst.Set(mv)
	case reflect.Struct:
		if isTime(v.Type()) {
			dst.Set(v)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			cloneInto(fld(dst, i), fld(v, i))
		}
	case reflect.String:
		dst.SetString(string(append([]byte{}, v.String()...)))
	default:
		dst.Set(v)
	}
}

func isTimeLoc(t reflect.Type) bool { return t.String() == "*time.Location" }
