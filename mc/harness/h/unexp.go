package h

import (
	"reflect"
	"unsafe"
)

// fld is the field of a struct, also one that is not exported: generated code
// is part of the package and handles those as well.
func fld(v reflect.Value, i int) reflect.Value {
	f := v.Field(i)
	if f.CanInterface() {
		return f
	}
	if !v.CanAddr() {
		t := reflect.New(v.Type()).Elem()
		t.Set(v)
		f = t.Field(i)
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func fldAt(v reflect.Value, index []int) reflect.Value {
	for _, i := range index {
		v = fld(v, i)
	}
	return v
}
