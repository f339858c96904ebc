package main

import (
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"
)

// dump renders everything readable of a value: exported fields, elements, and
// the results of the accessors of bundles. Texts are quoted byte by byte. Empty
// and absent lists are the same. It does without package fmt, whose pools would
// order accesses for the race detector.
func dump(x interface{}) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(x), 0)
	return b.String()
}

func dumpValue(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 12 {
		b.WriteString("...")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Type() == reflect.TypeOf(time.Time{}) && v.CanInterface() {
		if t, ok := v.Interface().(time.Time); ok {
			b.WriteString(t.UTC().Format(time.RFC3339Nano))
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		// The entries of a bundle are behind an accessor.
		if v.Kind() == reflect.Ptr && v.CanInterface() {
			if m := v.MethodByName("Get"); m.IsValid() && m.Type().NumIn() == 0 && m.Type().NumOut() == 1 {
				dumpValue(b, m.Call(nil)[0], depth+1)
				return
			}
		}
		dumpValue(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			f := v.Field(i)
			if isEmpty(f) {
				continue
			}
			b.WriteString(t.Field(i).Name)
			b.WriteString(":")
			dumpValue(b, f, depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			dumpValue(b, v.Index(i), depth+1)
		}
		b.WriteString("]")
	case reflect.Map:
		var keys []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			var kb strings.Builder
			dumpValue(&kb, k, depth+1)
			s := kb.String()
			keys = append(keys, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(keys)
		b.WriteString("map[")
		for _, k := range keys {
			b.WriteString(k + ":")
			dumpValue(b, m[k], depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.String:
		b.WriteString(strconv.QuoteToASCII(v.String()))
	case reflect.Func, reflect.Chan:
		b.WriteString(v.Kind().String())
	case reflect.Bool:
		b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	default:
		b.WriteString(v.Kind().String())
	}
}

func isEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Ptr, reflect.Interface:
		return v.IsNil()
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int64, reflect.Uint64, reflect.Uint32:
		return v.IsZero()
	}
	return false
}
