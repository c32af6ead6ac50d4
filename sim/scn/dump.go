package scn

import (
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"
)

// dump renders a value following pointers, for equality of snapshots.
func dump(v any) string {
	var b strings.Builder
	dumpV(&b, reflect.ValueOf(v))
	return b.String()
}

func dumpV(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case time.Time:
			b.WriteString(x.Round(0).UTC().Format(time.RFC3339Nano))
			return
		case big.Rat:
			b.WriteString(x.String())
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			fmt.Fprintf(b, "(%s)", v.Elem().Type())
		} else {
			b.WriteByte('&')
		}
		dumpV(b, v.Elem())
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.Name == "XMLName" {
				continue
			}
			fmt.Fprintf(b, "%s:", f.Name)
			dumpV(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dumpV(b, v.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	default:
		fmt.Fprintf(b, "%v", v)
	}
}
