package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// Containers and strings of many sizes, around the sizes where buffers and
// backing arrays grow: judged like the small ones.

var largeElems = []reflect.Type{tOf(0), tOf(int8(0)), tOf(uint16(0)), tOf(false), tOf(""), tOf((*int)(nil)), tOf((*string)(nil)), tOf(EInner{}), tOf(&EInner{}), tOf([]int{}), tOf(map[string]int{}), tOf([3]byte{}),
	tOf([2]string{}), tOf(1.5), tOf(float32(0)), tOf(struct{}{}), tOf(struct{ P *int }{}), tOf(TStr("")), tOf(JInt(0)), tOf(json.Number("")), tOf([]byte{}), tOf(TPtrShape{}), tOf(struct {
		A int8
		B *string
		C uint16
	}{}), tOf([][]string{}), efaceType, tOf(NByte(0)), tOf([1]*int{}), tOf(RawInt{}), tOf(uintptr(0))}

type RawInt struct {
	R json.RawMessage
	I interface{}
}

var largeSizes = []int{4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 400, 511, 512, 513, 514, 700, 1000, 1023, 1024, 1025, 1026, 1279, 1280, 1281, 1282, 1599, 1600, 1601, 1602, 2000, 2001, 2047, 2048, 2049, 2501, 3126, 4097}

func largeSize(r *Rand) int {
	if r.P(30) {
		return r.Range(3, 1400)
	}
	return largeSizes[r.Intn(len(largeSizes))]
}

// largeValue makes an addressable value with a container of n elements
func largeValue(r *Rand, rt bool) (reflect.Value, string) {
	n := largeSize(r)
	if r.P(70) && n > 300 {
		n = largeSize(r)
	}
	e := largeElems[r.Intn(len(largeElems))]
	if rt && (e == efaceType || e == tOf(RawInt{}) || e == tOf(TStr("")) || e == tOf(json.Number(""))) {
		e = tOf(0)
	}
	g := VG{R: r, OneEntry: true, noBF: true, RT: rt}
	elem := func(i int) reflect.Value {
		v := reflect.New(e).Elem()
		// most elements tell their index
		switch {
		case e.Kind() == reflect.Int && !isHook(e) && r.P(80):
			v.SetInt(int64(i*7 + 1))
		case e.Kind() == reflect.Uint16:
			v.SetUint(uint64(i + 1))
		case e == tOf("") && r.P(60):
			v.SetString(fmt.Sprint("s", i))
		case e == tOf((*string)(nil)) && r.P(70):
			s := fmt.Sprint("p", i)
			v.Set(reflect.ValueOf(&s))
		case e == tOf(struct{ P *int }{}) && r.P(70):
			x := i
			v.Field(0).Set(reflect.ValueOf(&x))
		default:
			g.depth = 2 // keeps the elements small
			g.fill(v)
			g.depth = 0
		}
		return v
	}
	switch k := r.Intn(14); {
	case k < 6: // slice
		t := reflect.SliceOf(e)
		p := reflect.New(t).Elem()
		p.Set(reflect.MakeSlice(t, n, n))
		for i := 0; i < n; i++ {
			p.Index(i).Set(elem(i))
		}
		return p, fmt.Sprintf("slice of %d", n)
	case k == 6: // array
		if n > 600 {
			n %= 600
		}
		p := reflect.New(reflect.ArrayOf(n, e)).Elem()
		for i := 0; i < n; i++ {
			p.Index(i).Set(elem(i))
		}
		return p, fmt.Sprintf("array of %d", n)
	case k < 10: // map
		kt := []reflect.Type{tOf(""), tOf(0), tOf(uint16(0)), tOf(NStr("")), tOf(TStruct{}), tOf(int64(0)), tOf(TAny{})}[r.Intn(7)]
		t := reflect.MapOf(kt, e)
		p := reflect.New(t).Elem()
		p.Set(reflect.MakeMap(t))
		for i := 0; i < n; i++ {
			kv := reflect.New(kt).Elem()
			switch kt.Kind() {
			case reflect.String:
				kv.SetString(fmt.Sprint("key", i))
			case reflect.Int, reflect.Int64:
				kv.SetInt(int64(i * 1000003))
			case reflect.Uint16:
				kv.SetUint(uint64(i * 5 & 0xffff))
			default:
				if kt == tOf(TAny{}) {
					kv.Field(0).SetString(fmt.Sprint("<", i))
				} else {
					kv.Field(0).SetInt(int64(i))
				}
			}
			p.SetMapIndex(kv, elem(i))
		}
		return p, fmt.Sprintf("map of %d", n)
	case k < 12: // strings and bytes of any length
		l := []int{62, 63, 64, 65, 126, 127, 128, 129, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 8191, 16385, 65537}[r.Intn(23)] + r.Intn(3)
		var b []byte
		for len(b) < l {
			switch r.Intn(30) {
			case 0:
				b = append(b, "\n\"\\"[r.Intn(3)])
			case 1:
				b = append(b, r.Str([]string{"é", "中", "😀", "\u2028", "<", "\x01"})...)
			default:
				b = append(b, plainChars[r.Intn(len(plainChars))])
			}
		}
		t := []reflect.Type{tOf(""), tOf([]byte{}), tOf(NStr("")), tOf(map[string]string{}), tOf(struct{ A, B string }{}), tOf([]string{}), tOf(TAny{})}[r.Intn(7)]
		p := reflect.New(t).Elem()
		switch t {
		case tOf([]byte{}):
			p.SetBytes(b)
		case tOf(map[string]string{}):
			p.Set(reflect.ValueOf(map[string]string{string(b): string(b[:len(b)/2])}))
		case tOf([]string{}):
			p.Set(reflect.ValueOf([]string{"x", string(b), string(b[:len(b)/3]), ""}))
		case tOf(TAny{}):
			p.Field(0).SetString(strings.ToValidUTF8(string(b), "?"))
		case tOf(struct{ A, B string }{}):
			p.Field(0).SetString(string(b))
			p.Field(1).SetString(string(b[len(b)/2:]))
		default:
			p.SetString(string(b))
		}
		if d := jsonStd(p.Interface()); !json.Valid(d) {
			panic(harnessErr("large string"))
		}
		return p, fmt.Sprintf("string of %d bytes", l)
	case k == 12: // nested slices
		t := reflect.SliceOf(reflect.SliceOf(e))
		m := r.Range(1, 40)
		p := reflect.New(t).Elem()
		p.Set(reflect.MakeSlice(t, m, m))
		for j := 0; j < m; j++ {
			l := r.Intn(70)
			s := reflect.MakeSlice(t.Elem(), l, l)
			for i := 0; i < l; i++ {
				s.Index(i).Set(elem(i))
			}
			p.Index(j).Set(s)
		}
		return p, "nested slices"
	default: // untyped
		a := make([]interface{}, n)
		o := map[string]interface{}{}
		for i := range a {
			switch r.Intn(6) {
			case 0:
				a[i] = []interface{}{float64(i)}
			case 1:
				a[i] = map[string]interface{}{"i": float64(i)}
			case 2:
				a[i] = fmt.Sprint("u", i)
			case 3:
				a[i] = nil
			default:
				a[i] = float64(i) / 8
			}
			o[fmt.Sprint("m", i)] = a[i]
		}
		p := reflect.New(efaceType).Elem()
		if r.Bool() {
			p.Set(reflect.ValueOf(a))
		} else {
			p.Set(reflect.ValueOf(map[string]interface{}{"o": o, "a": a[:n/2]}))
		}
		return p, "untyped"
	}
}

func jsonStd(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessErr("json.Marshal: %v", err))
	}
	return b
}

func engLargeDec(c *C) {
	r := c.R
	v, what := largeValue(r, false)
	t := v.Type()
	c.Note("large decode: %s %s", what, typeStr(t))
	text := jsonStd(v.Addr().Interface())
	switch r.Intn(10) {
	case 0: // white space everywhere
		var b bytes.Buffer
		json.Indent(&b, text, "\r", " \t"[r.Intn(2):])
		text = b.Bytes()
	case 1:
		text = text[:r.Intn(len(text))]
	case 2:
		text = mutate1(r, append([]byte(nil), text...), interesting)
	case 3: // escape every plain character of the strings
		n := refDoc(text)
		if n != nil && n.K == KStr {
			text = []byte(escapeAll(r, n.S))
		}
	}
	if r.P(20) {
		text = append(append(append([]byte(nil), `{"W":`...), text...), '}')
		t = reflect.StructOf([]reflect.StructField{{Name: "X", Type: tOf(0)}, {Name: "W", Type: t}})
		if r.P(30) { // ignored
			t = tOf(struct{ X, Y int }{})
			what += " ignored"
		}
	}
	std, jz := reflect.New(t), reflect.New(t)
	seed := uint64(0)
	if r.P(20) {
		seed = r.U64() | 1
	}
	prefill(std.Elem(), seed)
	prefill(jz.Elem(), seed)
	stdE := json.Unmarshal(text, std.Interface())
	rt := typedRoutes[r.Intn(len(typedRoutes))]
	in := append([]byte(nil), text...)
	jzE := rt.f(rot.D(), in, r.Fork(), jz.Interface())
	judgeTyped(c, rt.name+" of "+what, t, text, stdE, jzE, std, jz)
	if !bytes.Equal(in, text) {
		c.Failf("%s changed its input", rt.name)
	}
	c.Feat("large " + strings.Fields(what)[0])
	c.Seen(mix(hash64(text), hashStr(t.String())), true)
}

func escapeAll(r *Rand, s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, x := range s {
		switch {
		case x < 0x10000 && r.P(70):
			fmt.Fprintf(&b, "\\u%04x", x)
		case x == '"' || x == '\\':
			b.WriteByte('\\')
			b.WriteRune(x)
		case x < ' ':
			fmt.Fprintf(&b, "\\u%04X", x)
		default:
			b.WriteRune(x)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func engLargeEnc(c *C) {
	r := c.R
	v, what := largeValue(r, false)
	c.Note("large encode: %s %s", what, typeStr(v.Type()))
	root, how := rootOf(r, v, false)
	rt := encRoutes[r.Intn(len(encRoutes))]
	html := !rt.both || r.Bool()
	a, aErr := stdEncode(root, html)
	b, bErr := rt.f(rot.E(), root, html)
	desc := func() string { return how + " " + what + " of " + typeStr(v.Type()) }
	judgeEnc(c, rt.name, desc, false, a, aErr, b, bErr)
	c.Feat("large " + strings.Fields(what)[0])
	c.Seen(mix(hash64(a), hashStr(v.Type().String()+how)), true)
}

func engLargeRound(c *C) {
	r := c.R
	v, what := largeValue(r, true)
	t := v.Type()
	c.Note("large round trip: %s %s", what, typeStr(t))
	en := rtEncs[r.Intn(len(rtEncs))]
	text, err := en.f(rot.E(), v.Addr().Interface())
	if err != nil {
		c.Failf("%s of %s %s: %v", en.name, what, typeStr(t), err)
	}
	want := reflect.New(t)
	if err := json.Unmarshal(jsonStd(v.Addr().Interface()), want.Interface()); err != nil {
		panic(harnessErr("large round trip %s %s: %v", what, typeStr(t), err))
	}
	back := reflect.New(t)
	dr := typedRoutes[r.Intn(len(typedRoutes))]
	if err := dr.f(rot.D(), text, r.Fork(), back.Interface()); err != nil {
		c.Failf("%s refuses the text of %s: %v\n %s %s\n text %s", dr.name, en.name, err, what, typeStr(t), q(text))
	}
	if d := same(want, back, cmpOpt{}); d != "" {
		c.Failf("%s then %s of %s %s: expected versus got differ at %s", en.name, dr.name, what, typeStr(t), d)
	}
	c.Feat("large " + strings.Fields(what)[0])
	c.Seen(mix(hash64(text), hashStr(t.String())), true)
}

// several large documents in one stream, through one decoder
func engLargeStream(c *C) {
	r := c.R
	n := r.Range(2, 5)
	var all []byte
	var want []interface{}
	var ends []int64
	for i := 0; i < n; i++ {
		v, _ := largeValue(r, true)
		b := jsonStd(v.Addr().Interface())
		if len(b) > 20000 {
			b = []byte(`"short"`)
		}
		var w interface{}
		if err := json.Unmarshal(b, &w); err != nil {
			panic(harnessErr("%v", err))
		}
		all = append(all, b...)
		want, ends = append(want, w), append(ends, int64(len(all)))
		all = append(all, strings.Repeat(" ", r.Range(1, 3))...)
	}
	d := jzon.NewDecoder(genReader(r, all))
	defer d.Release()
	for i := range want {
		var got interface{}
		var raw json.RawMessage
		c.Note("large stream value %d of %d", i, n)
		if r.Bool() {
			if err := d.Decode(&got); err != nil {
				c.Failf("value %d of a stream: %v", i, err)
			}
		} else {
			if err := d.Decode(&raw); err != nil {
				c.Failf("raw value %d of a stream: %v", i, err)
			}
			if err := json.Unmarshal(raw, &got); err != nil {
				c.Failf("raw value %d of a stream is %s", i, q(raw))
			}
		}
		if s := sameI(want[i], got, cmpOpt{}); s != "" {
			c.Failf("value %d of a stream differs at %s", i, s)
		}
		if o := d.InputOffset(); o != ends[i] {
			c.Failf("offset %d after value %d, expected %d", o, i, ends[i])
		}
	}
	c.Feat("large stream")
	c.SeenB(all, true)
}

func init() {
	reg("large-dec", engLargeDec, "large slice", "large array", "large map", "large string", "large untyped")
	reg("large-enc", engLargeEnc, "large slice", "large array", "large map", "large string", "large untyped")
	reg("large-round", engLargeRound, "large slice", "large array", "large map", "large string", "large untyped")
	reg("large-stream", engLargeStream, "large stream")
}
