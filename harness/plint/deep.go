package plint

import (
	"fmt"
	"reflect"
	"strings"
)

// deep prints everything reachable from v, except absent list elements.
func deep(v any) string {
	var b strings.Builder
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface, reflect.Pointer:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			rec(v.Elem())
		case reflect.Struct:
			b.WriteString(v.Type().Name() + "{")
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).IsZero() {
					continue
				}
				if s := v.Type().Field(i); !s.IsExported() {
					continue
				} else {
					b.WriteString(" " + s.Name + ":")
				}
				rec(v.Field(i))
			}
			b.WriteString("}")
		case reflect.Slice:
			b.WriteString("[")
			for i := 0; i < v.Len(); i++ {
				e := v.Index(i)
				if (e.Kind() == reflect.Interface || e.Kind() == reflect.Pointer) && e.IsNil() {
					continue
				}
				b.WriteString("\n")
				rec(e)
			}
			b.WriteString("]")
		default:
			fmt.Fprintf(&b, "%v", v.Interface())
		}
	}
	rec(reflect.ValueOf(v))
	return b.String()
}
