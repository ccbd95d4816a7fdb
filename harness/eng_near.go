package main

import (
	"encoding/json"
	"reflect"
	"strconv"
	"strings"
	"sync"
)

// The near engine decodes one scalar, in every place a scalar can stand in,
// from a text which is at most a few bytes away from one which fits: the
// hostile neighbourhood of quotes, literals and numbers.

var nearBase = []reflect.Type{
	tOf(false), tOf(int(0)), tOf(int8(0)), tOf(int16(0)), tOf(int32(0)), tOf(int64(0)),
	tOf(uint(0)), tOf(uint8(0)), tOf(uint16(0)), tOf(uint32(0)), tOf(uint64(0)), tOf(uintptr(0)),
	tOf(float32(0)), tOf(float64(0)), tOf(""), tOf(json.Number("")),
	tOf(NInt(0)), tOf(NInt8(0)), tOf(NUint16(0)), tOf(NFloat(0)), tOf(NFloat32(0)), tOf(NStr("")), tOf(NBool(false)),
}

var nearOther = []reflect.Type{
	efaceType, tOf([]byte(nil)), tOf(json.RawMessage(nil)), tOf([]int(nil)), tOf([2]int{}), tOf(map[string]int(nil)), tOf(struct{}{}), tOf(struct{ A int }{}),
	tOf(TStr("")), tOf(TInt(0)), tOf(JInt(0)), tOf(struct{ A, B int }{}), tOf(EInner{}),
}

var nearCache sync.Map

type nearKey struct {
	t     reflect.Type
	place int
}

const (
	nearRoot = iota
	nearOne
	nearOneQ
	nearSmall
	nearSmallQ
	nearLarge
	nearLargeQ
	nearElem
	nearArr
	nearMapVal
	nearMapKey
	nearPlaces
)

func nearType(t reflect.Type, place int) reflect.Type {
	k := nearKey{t, place}
	if x, ok := nearCache.Load(k); ok {
		return x.(reflect.Type)
	}
	st := func(n int, tag string) reflect.Type {
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: "A" + strconv.Itoa(i), Type: tOf(uint16(0))}
			if i == n/2 {
				f = reflect.StructField{Name: "F", Type: t, Tag: reflect.StructTag(tag)}
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	}
	x := t
	switch place {
	case nearOne:
		x = st(1, "")
	case nearOneQ:
		x = st(1, `json:",string"`)
	case nearSmall:
		x = st(4, "")
	case nearSmallQ:
		x = st(4, `json:",string"`)
	case nearLarge:
		x = st(14, "")
	case nearLargeQ:
		x = st(14, `json:",string"`)
	case nearElem:
		x = reflect.SliceOf(t)
	case nearArr:
		x = reflect.ArrayOf(2, t)
	case nearMapVal:
		x = reflect.MapOf(tOf(""), t)
	case nearMapKey:
		x = reflect.MapOf(t, tOf(false))
	}
	nearCache.Store(k, x)
	return x
}

// nearFrag gives the text of the scalar
func nearFrag(r *Rand, t reflect.Type, quoted bool) []byte {
	for t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	var s string
	k := t.Kind()
	if r.P(12) {
		k = []reflect.Kind{reflect.Bool, reflect.Int, reflect.Float64, reflect.String}[r.Intn(4)]
	}
	switch k {
	case reflect.Bool:
		s = r.Str([]string{"true", "false"})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		s = r.Str([]string{"0", "1", "7", "12", "-1", "-12", "100", "0", "127", "128", "255", "256", "65535", "-32769", "4294967296"})
	case reflect.Float32, reflect.Float64:
		s = r.Str([]string{"0", "1", "1.5", "-2", "1e2", "-0", "2E+1", "0.25", "1e-1", "3e40", "1e400"})
	case reflect.String:
		s = r.Str([]string{`""`, `"a"`, `"null"`, `"1"`, `"é"`, `"\n"`, `"\u0041"`, `"\""`})
		if t == numberType {
			s = r.Str([]string{"0", "1", "1.5", "-2", "1e2", `"1"`, `""`, `"x"`})
		}
	case reflect.Interface:
		s = r.Str([]string{"1", `"a"`, "true", "[]", "{}", "[1]", `{"a":1}`})
	case reflect.Slice, reflect.Array:
		s = r.Str([]string{"[]", "[1]", `"YQ=="`, `""`, "[1,2]", "[ ]"})
	case reflect.Map, reflect.Struct:
		s = r.Str([]string{"{}", `{"A":1}`, `{"a":1,"b":2}`, "{ }"})
	}
	if r.P(10) {
		s = "null"
	}
	if quoted && r.P(35) {
		// the mistake is inside of the quotes
		b := nearEdit(r, []byte(s), r.Range(1, 2))
		if r.P(15) && len(b) > 0 {
			b = append(append(append([]byte(nil), b[:len(b)-1]...), '\\'), b[len(b)-1])
		}
		return []byte(quote(string(b)))
	}
	if quoted && r.P(88) || r.P(4) {
		if r.P(80) && !strings.ContainsAny(s, `"\`) {
			s = `"` + s + `"`
		} else {
			s = quote(s)
		}
	}
	return nearEdit(r, []byte(s), []int{0, 0, 0, 0, 1, 1, 1, 1, 2, 3}[r.Intn(10)])
}

const nearAlpha = "\"\"\"nultrefas\\011-+.eE ,:{}[]\t\n\x00/u"

// nearEdit makes n edits
func nearEdit(r *Rand, b []byte, n int) []byte {
	for ; n > 0; n-- {
		a := nearAlpha[r.Intn(len(nearAlpha))]
		if len(b) == 0 {
			b = append(b, a)
			continue
		}
		// the ends matter most
		i := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			i = 0
		case 1:
			i = len(b) - 1
		}
		switch r.Intn(5) {
		case 0: // delete
			b = append(b[:i:i], b[i+1:]...)
		case 1: // insert before
			b = append(append(append([]byte(nil), b[:i]...), a), b[i:]...)
		case 2: // insert behind
			b = append(append(append([]byte(nil), b[:i+1]...), a), b[i+1:]...)
		case 3: // replace
			b = append([]byte(nil), b...)
			b[i] = a
		default: // duplicate
			b = append(append(append([]byte(nil), b[:i]...), b[i]), b[i:]...)
		}
	}
	return b
}

func engNear(c *C) {
	r := c.R
	cfg := rot.D()
	for n := 0; n < 6; n++ {
		place := r.Intn(nearPlaces)
		quoted := place == nearOneQ || place == nearSmallQ || place == nearLargeQ
		var t reflect.Type
		if place == nearMapKey {
			for t = nearBase[r.Intn(len(nearBase))]; t.Kind() == reflect.Bool || t.Kind() == reflect.Float32 || t.Kind() == reflect.Float64; {
				t = nearBase[r.Intn(len(nearBase))]
			}
			if r.P(10) {
				t = []reflect.Type{tOf(TStr("")), tOf(TInt(0))}[r.Intn(2)]
			}
			quoted = true
		} else {
			t = nearBase[r.Intn(len(nearBase))]
			if r.P(15) {
				t = nearOther[r.Intn(len(nearOther))]
			}
			for quoted && isHook(t) { // excepted
				t = nearOther[r.Intn(len(nearOther))]
			}
			for r.P(20) {
				t = reflect.PtrTo(t)
				c.Feat("pointer")
			}
		}
		dt := nearType(t, place)
		f := nearFrag(r, t, quoted)
		var pre, post string
		switch place {
		case nearOne, nearOneQ:
			pre, post = `{"F":`, `}`
			if r.P(15) {
				post = `,"f":` + string(nearFrag(r, t, quoted)) + `}`
			}
		case nearSmall, nearSmallQ, nearLarge, nearLargeQ:
			pre, post = r.Str([]string{`{"F":`, `{"A0":1,"F":`, `{"x":[{}],"f":`, `{ "F" : `}), r.Str([]string{`}`, `,"A3":3}`, ` , "A1" : 2 }`, `,"zz":"q"}`})
		case nearElem, nearArr:
			pre, post = "[", "]"
			if r.P(30) {
				post = "," + string(nearFrag(r, t, quoted)) + "]"
			}
		case nearMapVal:
			pre, post = `{"k":`, `}`
		case nearMapKey:
			pre, post = `{`, `:true}`
			if r.P(30) {
				post = `:true,` + string(nearFrag(r, t, quoted)) + `:false}`
			}
		}
		if r.P(6) {
			post = string(nearEdit(r, []byte(post), 1))
		}
		if r.P(6) {
			pre = string(nearEdit(r, []byte(pre), 1))
		}
		text := []byte(pre + string(f) + post)
		if r.P(6) {
			text = text[:r.Intn(len(text)+1)]
		}
		c.NoteB("near miss into "+typeStr(dt)+" of ", text)
		seed := uint64(0)
		if r.P(50) {
			seed = r.U64() | 1
		}
		std, jz := reflect.New(dt), reflect.New(dt)
		prefill(std.Elem(), seed)
		prefill(jz.Elem(), seed)
		stdW, jzW := collectWitnesses(std), collectWitnesses(jz)
		stdE := json.Unmarshal(text, std.Interface())
		rt := typedRoutes[0]
		if r.P(40) {
			rt = typedRoutes[r.Intn(len(typedRoutes))]
		}
		in := append([]byte(nil), text...)
		jzE := rt.f(cfg, in, r.Fork(), jz.Interface())
		judgeTyped(c, rt.name, dt, text, stdE, jzE, std, jz)
		judgeWitnesses(c, rt.name, dt, text, stdE, stdW, jzW)
		c.FeatIf(quoted && stdE == nil, "quoted accepted")
		c.FeatIf(quoted && stdE != nil && json.Valid(text), "quoted refused, well-formed")
		c.FeatIf(quoted && !json.Valid(text), "quoted malformed")
		c.FeatIf(place == nearMapKey && stdE == nil, "map key accepted")
		c.FeatIf(strings.Contains(string(f), `"null"`) && quoted && stdE == nil, "quoted null accepted")
		c.Seen(mix(hash64(text), hashStr(dt.String())), true)
	}
}

func init() {
	reg("near", engNear, "quoted accepted", "quoted refused, well-formed", "quoted malformed", "map key accepted", "quoted null accepted", "pointer", "witnesses of earlier contents compared", "both accept", "both refuse")
}
