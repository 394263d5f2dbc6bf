package main

import (
	"crypto/elliptic"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"time"
)

// dumper writes a value as lines "path = value", following pointers. It reads what a user of the library can see:
// exported fields, the elements of slices and, if spare is set, those between length and capacity.
type dumper struct {
	lines []string
	spare bool
	seen  map[uintptr]bool
}

func dump(v any, spare bool) []string {
	d := &dumper{spare: spare, seen: map[uintptr]bool{}}
	d.walk("", reflect.ValueOf(v))
	return d.lines
}

func dumpString(v any) string { return strings.Join(dump(v, false), "\n") }

// firstDiff describes where two dumps differ.
func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return "gone: " + a[i]
		}
		if a[i] != b[i] {
			return fmt.Sprintf("before:%s after:%s", a[i], b[i])
		}
	}
	if len(b) > len(a) {
		return "new: " + b[len(a)]
	}
	return ""
}

func (d *dumper) put(path, f string, a ...any) {
	d.lines = append(d.lines, path+" = "+fmt.Sprintf(f, a...))
}

var (
	curveType  = reflect.TypeOf((*elliptic.Curve)(nil)).Elem()
	bigType    = reflect.TypeOf((*big.Int)(nil))
	timeType   = reflect.TypeOf(time.Time{})
	paramsType = reflect.TypeOf((*elliptic.CurveParams)(nil))
)

func (d *dumper) walk(path string, v reflect.Value) {
	if !v.IsValid() {
		d.put(path, "nil")
		return
	}
	switch {
	case v.Type() == bigType:
		if v.IsNil() {
			d.put(path, "nil")
		} else {
			d.put(path, "%x", v.Interface().(*big.Int))
		}
		return
	case v.Type() == timeType:
		tm := v.Interface().(time.Time)
		d.put(path, "%s %v", tm.Format(time.RFC3339Nano), tm.Location())
		return
	case v.Type() != paramsType && v.Kind() != reflect.Interface && v.Type().Implements(curveType) && v.CanInterface():
		d.put(path, "curve %T", v.Interface())
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			d.put(path, "nil")
			return
		}
		d.walk(path+"("+v.Elem().Type().String()+")", v.Elem())
	case reflect.Pointer:
		if v.IsNil() {
			d.put(path, "nil")
			return
		}
		if d.seen[v.Pointer()] && v.Elem().Kind() == reflect.Struct {
			d.put(path, "seen")
			return
		}
		d.seen[v.Pointer()] = true
		d.walk(path, v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				d.walk(path+"."+v.Type().Field(i).Name, v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		n := v.Len()
		if v.Kind() == reflect.Slice {
			if v.IsNil() {
				d.put(path, "nil slice")
				return
			}
			if d.spare {
				v = v.Slice(0, v.Cap())
			}
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			d.put(path, "len %d %s", n, hx(b))
			return
		}
		d.put(path, "len %d", n)
		for i := 0; i < v.Len(); i++ {
			p := fmt.Sprintf("%s[%d]", path, i)
			if i >= n {
				p += "(beyond the length)"
			}
			d.walk(p, v.Index(i))
		}
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k)
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		d.put(path, "map of %d", len(ks))
		for _, k := range ks {
			d.walk(path+"["+k+"]", m[k])
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
	case reflect.String:
		d.put(path, "%q", v.String())
	default:
		d.put(path, "%v", v)
	}
}

// roomy gives every slice that can be reached through exported fields some capacity beyond its length, so that an append
// to it would write into the caller's array. v is a pointer.
func roomy(v any) {
	seen := map[uintptr]bool{}
	var walk func(v reflect.Value)
	grown := func(v reflect.Value) reflect.Value {
		n := v.Len()
		more := 5
		if v.Type().Elem().Kind() == reflect.Uint8 {
			more = 150
		}
		s := reflect.MakeSlice(v.Type(), n, n+more)
		reflect.Copy(s, v)
		if v.Type().Elem().Kind() == reflect.Uint8 {
			x := s.Slice(n, n+more)
			for i := 0; i < more; i++ {
				x.Index(i).SetUint(0xa5)
			}
		}
		return s
	}
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() || v.Type() == bigType || seen[v.Pointer()] || (v.Type().Implements(curveType) && v.Type() != paramsType) {
				return
			}
			seen[v.Pointer()] = true
			walk(v.Elem())
		case reflect.Interface:
			if v.IsNil() {
				return
			}
			if e := v.Elem(); e.Kind() == reflect.Slice {
				if v.CanSet() && !e.IsNil() {
					v.Set(grown(e))
				}
			} else {
				walk(e)
			}
		case reflect.Struct:
			if v.Type() == timeType {
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i))
				}
			}
		case reflect.Slice:
			if v.IsNil() {
				return
			}
			if v.CanSet() {
				v.Set(grown(v))
			}
			if v.Type().Elem().Kind() != reflect.Uint8 {
				for i := 0; i < v.Len(); i++ {
					walk(v.Index(i))
				}
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(v))
}
