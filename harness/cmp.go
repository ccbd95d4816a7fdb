package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

// cmpOpt says which documented differences are tolerated
type cmpOpt struct {
	canonB bool // strings of b may hold invalid UTF-8 where a has U+FFFD
}

type visit struct {
	a, b uintptr
	t    reflect.Type
}

type cmper struct {
	o    cmpOpt
	seen map[visit]bool
	path []string // innermost first
}

func (c *cmper) at(d string, p func() string) string {
	if d != "" {
		c.path = append(c.path, p())
	}
	return d
}

// same returns "" or the place of the first difference; bit exact for floats,
// nil and empty slices and maps are different
func same(a, b reflect.Value, o cmpOpt) string {
	c := cmper{o: o, seen: map[visit]bool{}}
	d := c.cmp(a, b)
	if d == "" {
		return ""
	}
	var p strings.Builder
	for i := len(c.path) - 1; i >= 0 && p.Len() < 300; i-- {
		p.WriteString(c.path[i])
	}
	return p.String() + ": " + d
}

func sameI(a, b interface{}, o cmpOpt) string {
	return same(reflect.ValueOf(a), reflect.ValueOf(b), o)
}

func (c *cmper) cmp(a, b reflect.Value) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() != b.IsValid() {
			return fmt.Sprintf("%s versus %s", show(a), show(b))
		}
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("type %s (%s) versus %s (%s)", a.Type(), show(a), b.Type(), show(b))
	}
	diff := func() string { return fmt.Sprintf("%s versus %s", show(a), show(b)) }
	switch a.Kind() {
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return diff()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return diff()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return diff()
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return diff()
		}
	case reflect.Complex64, reflect.Complex128:
		if a.Complex() != b.Complex() {
			return diff()
		}
	case reflect.String:
		x, y := a.String(), b.String()
		if x != y && !(c.o.canonB && x == toValid(y)) {
			return diff()
		}
	case reflect.Slice:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return diff()
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < a.Len(); i++ {
				if a.Index(i).Uint() != b.Index(i).Uint() {
					return diff()
				}
			}
			return ""
		}
		v := visit{a.Pointer(), b.Pointer(), a.Type()}
		if a.Len() > 0 && c.seen[v] {
			return ""
		}
		c.seen[v] = true
		fallthrough
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if d := c.cmp(a.Index(i), b.Index(i)); d != "" {
				return c.at(d, func() string { return fmt.Sprintf("[%d]", i) })
			}
		}
	case reflect.Map:
		if a.IsNil() != b.IsNil() {
			return diff()
		}
		v := visit{a.Pointer(), b.Pointer(), a.Type()}
		if c.seen[v] {
			return ""
		}
		c.seen[v] = true
		if c.o.canonB && a.Type().Key().Kind() == reflect.String {
			m := map[string]reflect.Value{}
			collide := false
			for _, k := range b.MapKeys() {
				s := toValid(k.String())
				if _, ok := m[s]; ok {
					collide = true
				}
				m[s] = b.MapIndex(k)
			}
			if collide {
				return ""
			}
			if len(m) != a.Len() {
				return diff()
			}
			for _, k := range a.MapKeys() {
				y, ok := m[toValid(k.String())]
				if !ok {
					return fmt.Sprintf("[%q]: missing", k)
				}
				if d := c.cmp(a.MapIndex(k), y); d != "" {
					return c.at(d, func() string { return fmt.Sprintf("[%q]", k) })
				}
			}
			return ""
		}
		if a.Len() != b.Len() {
			return diff()
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() {
				return fmt.Sprintf("[%v]: missing", k)
			}
			if d := c.cmp(a.MapIndex(k), y); d != "" {
				return c.at(d, func() string { return fmt.Sprintf("[%v]", k) })
			}
		}
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return diff()
			}
			return ""
		}
		v := visit{a.Pointer(), b.Pointer(), a.Type()}
		if c.seen[v] {
			return ""
		}
		c.seen[v] = true
		return c.at(c.cmp(a.Elem(), b.Elem()), func() string { return "*" })
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return diff()
			}
			return ""
		}
		return c.cmp(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := c.cmp(a.Field(i), b.Field(i)); d != "" {
				return c.at(d, func() string { return "." + a.Type().Field(i).Name })
			}
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if a.IsNil() != b.IsNil() {
			return diff()
		}
	}
	return ""
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface, reflect.Func, reflect.Chan:
		if v.IsNil() {
			return v.Type().String() + "(nil)"
		}
	}
	if v.Kind() == reflect.String {
		return clip(fmt.Sprintf("%q", v.String()), 300)
	}
	if v.Kind() == reflect.Float64 || v.Kind() == reflect.Float32 {
		return fmt.Sprintf("%v (bits %x)", v.Float(), math.Float64bits(v.Float()))
	}
	return clip(fmt.Sprintf("%+v", v), 300)
}
