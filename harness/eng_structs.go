package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// stdPanics: promoted hooks of nil embedded pointers panic in every library
func orPanic(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			panicked = true
		}
	}()
	f()
	return
}

func gsRoot(r *Rand) reflect.Type {
	t := gsTypes[r.Intn(len(gsTypes))]
	switch r.Intn(8) {
	case 0:
		return reflect.PtrTo(t)
	case 1:
		return reflect.SliceOf(t)
	case 2:
		return reflect.MapOf(tOf(""), t)
	case 3:
		return reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `json:"f,omitempty"`}, {Name: "G", Type: reflect.PtrTo(t)}})
	case 4:
		return reflect.ArrayOf(2, t)
	}
	return t
}

// hookByPtr: somewhere in t a hook is promoted
func hookByPtr(t reflect.Type) bool {
	return strings.Contains(fmt.Sprint(reachable(t)), "GHook")
}

func reachable(t reflect.Type) []string {
	seen := map[reflect.Type]bool{}
	var names []string
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		names = append(names, t.Name())
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type)
			}
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
			walk(t.Elem())
		}
	}
	walk(t)
	return names
}

func embeds(t reflect.Type) (unexported bool, n int) {
	for t.Kind() != reflect.Struct {
		t = t.Elem()
	}
	for i := 0; i < t.NumField(); i++ {
		if f := t.Field(i); f.Anonymous {
			n++
			unexported = unexported || f.PkgPath != ""
		}
	}
	return
}

func engStructs(c *C) {
	r := c.R
	t := gsRoot(r)
	un, n := embeds(t)
	c.FeatIf(un, "unexported embedded")
	c.FeatIf(n > 1, "several embedded")
	dc, ec := rot.D(), rot.E()
	for i := 0; i < 3; i++ {
		// encode
		v := reflect.New(t)
		g := VG{R: r, Deep: true, OneEntry: true, noBF: true}
		if !r.P(10) {
			g.fill(v.Elem())
		}
		var root interface{} = v.Elem().Interface()
		if r.Bool() {
			root = v.Interface()
		}
		html := r.P(80)
		rt := encRoutes[r.Intn(len(encRoutes))]
		if !rt.both {
			html = true
		}
		desc := func() string { return typeStr(t) + " " + clip(fmt.Sprintf("%+v", v.Elem()), 900) }
		var a []byte
		var aErr error
		if !orPanic(func() { a, aErr = stdEncode(root, html) }) {
			c.Note("struct encode of %s", desc())
			b, bErr := rt.f(ec, root, html)
			judgeEnc(c, rt.name, desc, true, a, aErr, b, bErr)
			c.Seen(mix(hash64(a), hashStr(t.String())), len(a) > 2)
		}
		// decode
		text := typedText(r, t, false)
		seed := uint64(0)
		if r.P(60) {
			seed = r.U64() | 1
		}
		pre := func(v reflect.Value) {
			if seed != 0 {
				g := VG{R: newRand(seed), Deep: true, Prepop: true}
				g.fill(v)
			}
		}
		std, jz := reflect.New(t), reflect.New(t)
		pre(std.Elem())
		pre(jz.Elem())
		var stdE error
		dis := r.P(25)
		if orPanic(func() { stdE = stdDecode(text, std.Interface(), false, dis) }) {
			c.Feat("promoted hook of a nil pointer")
			continue
		}
		c.NoteB("struct decode into "+typeStr(t)+" of ", text)
		var jzE error
		name := "Unmarshal"
		run := func() {
			if dis {
				name = "Unmarshal (no unknown fields)"
				jzE = gsDis().Unmarshal(text, jz.Interface())
				c.Feat("unknown fields refused")
			} else {
				dr := typedRoutes[r.Intn(len(typedRoutes))]
				name = dr.name
				jzE = dr.f(dc, append([]byte(nil), text...), r.Fork(), jz.Interface())
			}
		}
		if stdE != nil && hookByPtr(t) {
			// encoding/json may see an error first; jzon the hook of a nil
			// embedded pointer, which panics in both
			if orPanic(run) {
				continue
			}
		} else {
			run()
		}
		if stdE != nil && strings.Contains(stdE.Error(), "unexported struct") {
			c.Feat("nil embedded pointer to unexported struct")
		}
		judgeTyped(c, name, t, text, stdE, jzE, std, jz)
		c.Seen(mix(hash64(text), hashStr(t.String())), len(text) > 2)
		c.Sample("%s into %s: error %v", q(text), typeStr(t), stdE != nil)
	}
}

var gsDisCfg *jzon.DecoderConfig
var gsDisN int

func gsDis() *jzon.DecoderConfig {
	if gsDisCfg == nil || gsDisN > 40 {
		gsDisCfg, gsDisN = jzon.NewDecoderConfig(&jzon.DecoderOption{DisallowUnknownFields: true}), 0
	}
	gsDisN++
	return gsDisCfg
}

// ---- many fields ----

// manyName makes names which are close to each other
func manyName(r *Rand) string {
	base := r.Str([]string{"a", "ab", "abc", "abcd", "A", "Key", "key_", "name", "k", "s", "ks", "sk", "value", "x", "é", "éa", "ß", "ϐ", "β", "Σ", "ς", "field-", "f.", "<b>", "~", "[", "`{", "Å", "K", "ſ", "1", "_"})
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		base += r.Str([]string{"a", "b", "A", "k", "K", "s", "S", "1", "2", "_", "é", "É", "-", "x", "z", "ſ", "\u212a", "[", "{", "@", "`"})
	}
	if r.P(5) {
		base += strings.Repeat(r.Str([]string{"a", "k", "é", "S"}), r.Range(10, 80))
	}
	return base
}

func manyTagOK(s string) bool { return validTag(s) }

func mangle(r *Rand, s string) string {
	rs := []rune(s)
	switch r.Intn(8) {
	case 0, 1, 2:
		return caseVariant(r, s)
	case 3:
		if len(rs) > 1 {
			return string(rs[:len(rs)-1])
		}
	case 4:
		return s + r.Str([]string{"a", "x", "K", " ", "\x00", "é"})
	case 5: // same length
		rs[r.Intn(len(rs))] = []rune("abkKsSzZ1@[`{é\u212aſ")[r.Intn(16)]
		return string(rs)
	case 6: // bytes which differ by 0x20 only but are no letters
		b := []byte(s)
		b[r.Intn(len(b))] ^= 0x20
		return string(b)
	case 7:
		return r.Str([]string{"", "a", "K", "unknown"})
	}
	return s
}

func engFieldsMany(c *C) {
	r := c.R
	n := []int{1, 1, 2, 3, 5, 9, 10, 11, 12, 16, 30, 60, 130}[r.Intn(13)]
	var fs []reflect.StructField
	var names []string
	for i := 0; i < n; i++ {
		nm := manyName(r)
		if !manyTagOK(nm) {
			nm = fmt.Sprintf("n%d", i)
		}
		names = append(names, nm)
		opt := ""
		if r.P(10) {
			opt = ",omitempty"
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: tOf(0), Tag: reflect.StructTag(`json:"` + nm + opt + `"`)})
	}
	t := reflect.StructOf(fs)
	dc, ec := rot.D(), rot.E()
	for k := 0; k < 6; k++ {
		var b []byte
		b = append(b, '{')
		m := r.Range(1, 8)
		for i := 0; i < m; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			nm := names[r.Intn(len(names))]
			if r.P(60) {
				nm = mangle(r, nm)
			}
			x := XG{R: r}
			x.keyLit(nm)
			b = append(b, x.b...)
			b = append(b, fmt.Sprintf(":%d", r.Range(1, 9999))...)
		}
		b = append(b, '}')
		dis := r.P(25)
		std, jz := reflect.New(t), reflect.New(t)
		stdE := stdDecode(b, std.Interface(), false, dis)
		c.NoteB("many fields: "+typeStr(t)+" of ", b)
		var jzE error
		if dis {
			jzE = gsDis().Unmarshal(b, jz.Interface())
		} else if r.Bool() {
			jzE = dc.Unmarshal(b, jz.Interface())
		} else {
			jzE = dc.UnmarshalFromReader(genReader(r, b), jz.Interface())
		}
		if (stdE == nil) != (jzE == nil) {
			c.Failf("names %q: input %s: encoding/json %v, jzon %v", names, q(b), stdE, jzE)
		}
		if stdE == nil {
			if d := same(std, jz, cmpOpt{}); d != "" {
				c.Failf("names %q: input %s: differs at %s", names, q(b), d)
			}
			c.Feat("fields assigned")
		} else {
			c.Feat("unknown refused")
		}
		c.Seen(mix(hash64(b), hashStr(strings.Join(names, ","))), true)
		if k == 0 {
			x, e1 := json.Marshal(jz.Interface())
			y, e2 := ec.Marshal(jz.Interface())
			if e1 != nil || e2 != nil || string(x) != string(y) {
				c.Failf("names %q: encoding gives %s %v, want %s %v", names, q(y), e2, q(x), e1)
			}
		}
	}
	c.FeatIf(n > 10, "many fields")
	c.FeatIf(n == 1, "one field")
}

func init() {
	reg("structs", engStructs, "both accept", "both refuse", "unexported embedded", "several embedded", "nil embedded pointer to unexported struct", "unknown fields refused")
	reg("fields-many", engFieldsMany, "fields assigned", "unknown refused", "many fields", "one field")
	prop(&Prop{ID: "C20", Level: "exploration",
		Rule:        "each case is a struct type (420 generated source types with embedded structs and pointers, unexported fields, conflicts, recursion and odd tags; run-time types with up to 130 close names) with values encoded, and texts decoded into fresh and populated destinations, compared byte by byte and bit by bit with encoding/json; a case is a distinct (type, document)",
		Assumptions: []string{"encoding/json of go1.23 outside the stated exceptions"},
		Variants:    plain(Run{"structs", 160000, 4000000}, Run{"fields-many", 60000, 1500000}, Run{"typed", 60000, 1000000}, Run{"encode", 60000, 1000000}),
	})
}
