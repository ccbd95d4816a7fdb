package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// Every count: documents which have exactly n of something - elements,
// members, levels, blanks, digits, escapes, bytes of a name, values in a
// stream, fields of a struct - for every n up to countMax. What a growing
// buffer, a stack word or a batch does at one single count shows here.

const countMax = 1100

func countScalar(r *Rand, i int) string {
	switch r.Intn(6) {
	case 0:
		return strconv.Quote("s" + strconv.Itoa(i))
	case 1:
		return r.Str([]string{"true", "false", "null"})
	case 2:
		return r.Str([]string{"{}", "[]", `"\u0041\n"`, "-1.5e3", "[1]", `{"q":[]}`})
	default:
		return strconv.Itoa(i)
	}
}

var countKinds = []string{"scalars", "mixed", "members", "mixed members", "arrays deep", "objects deep", "mixed deep", "blanks", "digits", "fraction", "exponent zeros", "escapes", "name", "unknown members", "matrix", "skipped deep", "duplicates"}

// countDoc gives a document with n of something and a type it fits
func countDoc(r *Rand, kind string, n int) (string, reflect.Type) {
	var b strings.Builder
	ws := ""
	if r.P(15) {
		ws = r.Str([]string{" ", "\n", "\t ", "\r\n"})
	}
	list := func(open, cls string, n int, f func(i int)) {
		b.WriteString(open)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString("," + ws)
			}
			f(i)
		}
		b.WriteString(ws + cls)
	}
	switch kind {
	case "scalars":
		t := []reflect.Type{tOf([]int(nil)), tOf([]int16(nil)), tOf([]interface{}(nil)), tOf([]string(nil)), tOf([]float32(nil)), tOf([]*int(nil)), tOf([]bool(nil)), tOf([]json.Number(nil))}[r.Intn(8)]
		list("[", "]", n, func(i int) {
			switch t.Elem().Kind() {
			case reflect.String:
				if t.Elem() != numberType {
					b.WriteString(`"` + strconv.Itoa(i) + `"`)
					return
				}
			case reflect.Bool:
				b.WriteString(strconv.FormatBool(i%3 == 0))
				return
			}
			b.WriteString(strconv.Itoa(i))
		})
		if r.P(15) && n > 0 {
			t = reflect.ArrayOf(r.Range(max(0, n-2), n+2), t.Elem())
		}
		return b.String(), t
	case "mixed":
		list("[", "]", n, func(i int) { b.WriteString(countScalar(r, i)) })
		return b.String(), []reflect.Type{efaceType, tOf([]interface{}(nil)), tOf([]json.RawMessage(nil)), tOf([]int(nil))}[r.Intn(4)]
	case "members", "mixed members":
		t := []reflect.Type{tOf(map[string]int(nil)), tOf(map[int]int(nil)), tOf(map[NStr]interface{}(nil)), efaceType, tOf(map[string]json.RawMessage(nil)), tOf(map[TStr]*int(nil)), tOf(map[uint16]uint64(nil))}[r.Intn(7)]
		list("{", "}", n, func(i int) {
			k := strconv.Itoa(i)
			if t == tOf(map[string]int(nil)) || t == efaceType {
				k = r.Str([]string{"k", "", "\\u006b", "K."}) + k
			}
			b.WriteString(`"` + k + `":` + ws)
			if kind == "members" {
				b.WriteString(strconv.Itoa(i))
			} else {
				b.WriteString(countScalar(r, i))
			}
		})
		return b.String(), t
	case "arrays deep":
		return strings.Repeat("["+ws, n) + r.Str([]string{"", "1", "{}"}) + strings.Repeat(ws+"]", n), efaceType
	case "objects deep":
		return strings.Repeat(`{"a":`+ws, n) + r.Str([]string{"1", "null", "[]"}) + strings.Repeat(ws+"}", n), []reflect.Type{efaceType, tOf(RList{})}[r.Intn(2)]
	case "mixed deep", "skipped deep":
		var cl []byte
		for i := 0; i < n; i++ {
			if r.Bool() {
				if r.P(20) {
					b.WriteString("[1,")
				} else {
					b.WriteString("[")
				}
				cl = append(cl, ']')
			} else {
				if r.P(20) {
					b.WriteString(`{"b":[],"a":`)
				} else {
					b.WriteString(`{"a":`)
				}
				cl = append(cl, '}')
			}
		}
		b.WriteString("1")
		for i := len(cl) - 1; i >= 0; i-- {
			b.WriteByte(cl[i])
			if r.P(10) && i > 0 {
				if cl[i-1] == ']' {
					b.WriteString(",2")
				} else {
					b.WriteString(`,"z":3`)
				}
			}
		}
		if kind == "skipped deep" {
			return `{"u":` + b.String() + `,"A":5}`, []reflect.Type{tOf(struct{ A int }{}), tOf(struct{ A, B int }{}), tOf(struct{}{}), tOf(struct{ A, B, C, D, E, F, G, H, I, J, K int }{})}[r.Intn(4)]
		}
		return b.String(), efaceType
	case "blanks":
		w := strings.Repeat(r.Str([]string{" ", "\n", "\t", "\r"}), n)
		return r.Str([]string{w + "1", "1" + w, "[" + w + "]", "[1" + w + ",2]", "[1," + w + "2]", `{"a"` + w + `:1}`, `{"a":` + w + `1}`, `{` + w + `"a":1}`, `{"a":1` + w + `}`, `{"a":1,` + w + `"b":2}`, "{" + w + "}"}), []reflect.Type{efaceType, tOf([]int(nil)), tOf(struct{ A, B int }{}), tOf(map[string]int(nil)), tOf(0)}[r.Intn(5)]
	case "digits":
		s := string(digits(r, max(1, n)))
		if s[0] == '0' {
			s = "1" + s[1:]
		}
		return r.Str([]string{"", "-"}) + s, []reflect.Type{tOf(float64(0)), tOf(int64(0)), tOf(json.Number("")), efaceType, tOf(uint8(0))}[r.Intn(5)]
	case "fraction":
		return r.Str([]string{"", "-"}) + "0." + string(digits(r, max(1, n))), []reflect.Type{tOf(float64(0)), tOf(float32(0)), tOf(json.Number("")), efaceType}[r.Intn(4)]
	case "exponent zeros":
		return "1" + r.Str([]string{"e", "E+", "e-", ".5e"}) + strings.Repeat("0", n) + r.Str([]string{"1", "20", "0", "300"}), []reflect.Type{tOf(float64(0)), tOf(float32(0)), tOf(json.Number("")), efaceType}[r.Intn(4)]
	case "escapes":
		return `"` + strings.Repeat(r.Str([]string{`\n`, `\u0041`, `\ud83d\ude00`, `\\`, `\ud800`, `é`, `a\/`}), n) + `"`, []reflect.Type{tOf(""), efaceType, tOf(json.RawMessage(nil)), tOf(TStr(""))}[r.Intn(4)]
	case "name":
		k := strings.Repeat(r.Str([]string{"a", "é", "\\u0061", "K"}), n)
		name := k
		if strings.HasPrefix(k, "\\") {
			name = strings.Repeat("a", n)
		}
		fs := []reflect.StructField{{Name: "X", Type: tOf(0)}}
		for i := 0; i < []int{0, 2, 12}[r.Intn(3)]; i++ {
			fs = append(fs, reflect.StructField{Name: "Y" + strconv.Itoa(i), Type: tOf(0)})
		}
		if n > 0 {
			fs[0].Tag = reflect.StructTag(`json:"` + name + `"`)
		}
		switch r.Intn(4) {
		case 0:
			k = strings.ToUpper(k)
			if strings.HasPrefix(k, "\\") {
				k = strings.ToLower(k)
			}
		case 1:
			k += "b"
		}
		return `{"` + k + `":7,"Y1":3}`, []reflect.Type{reflect.StructOf(fs), efaceType, tOf(map[string]int(nil))}[r.Intn(3)]
	case "unknown members":
		b.WriteString("{")
		for i := 0; i < n; i++ {
			b.WriteString(`"u` + strconv.Itoa(i) + `":` + countScalar(r, i) + "," + ws)
		}
		b.WriteString(`"A":1}`)
		return b.String(), []reflect.Type{tOf(struct{ A int }{}), tOf(struct{ A, B int }{}), tOf(struct{ A, B, C, D, E, F, G, H, I, J, K int }{})}[r.Intn(3)]
	case "matrix":
		m := n % 40
		list("[", "]", n/40, func(i int) {
			b.WriteString("[" + strings.TrimSuffix(strings.Repeat(strconv.Itoa(i)+",", m), ",") + "]")
		})
		return b.String(), []reflect.Type{tOf([][]int(nil)), efaceType, tOf([][]interface{}(nil)), tOf([][3]int16(nil))}[r.Intn(4)]
	case "duplicates":
		list("{", "}", n, func(i int) { b.WriteString(`"A":` + strconv.Itoa(i)) })
		return b.String(), []reflect.Type{tOf(struct{ A int }{}), tOf(map[string]int(nil)), efaceType, tOf(struct{ A, B interface{} }{})}[r.Intn(4)]
	}
	panic(harnessErr("kind %q", kind))
}

func engCountsDec(c *C) {
	r := c.R
	n := c.Idx % (countMax + 1)
	cfg := rot.D()
	for k := 0; k < 3; k++ {
		kind := countKinds[r.Intn(len(countKinds))]
		if k == 0 { // every kind with every count
			kind = countKinds[(c.Idx/(countMax+1))%len(countKinds)]
		}
		doc, t := countDoc(r, kind, n)
		text := []byte(doc)
		c.Feat("count of " + kind)
		if r.P(8) {
			text = mutate1(r, text, interesting)
		}
		c.NoteB(fmt.Sprintf("%d %s into %s: ", n, kind, typeStr(t)), text)
		// the declared type and the untyped destination
		for _, t := range []reflect.Type{t, efaceType} {
			std, jz := reflect.New(t), reflect.New(t)
			stdE := json.Unmarshal(text, std.Interface())
			rt := typedRoutes[0]
			if r.P(50) {
				rt = typedRoutes[r.Intn(len(typedRoutes))]
			}
			jzE := rt.f(cfg, append([]byte(nil), text...), r.Fork(), jz.Interface())
			judgeTyped(c, fmt.Sprintf("%s of %d %s", rt.name, n, kind), t, text, stdE, jzE, std, jz)
		}
		// as ignored content
		want := json.Valid(text)
		if got := jzon.Valid(text); got != want {
			c.Failf("Valid says %v of %d %s: %s", got, n, kind, q(text))
		}
		pad := append(append([]byte(nil), text...), ' ', 'x')
		it := jzon.NewIterator()
		what := "Skip"
		if r.Bool() {
			it.ResetBytes(pad)
		} else {
			it.Reset(genReader(r, pad))
			what += " through a reader"
		}
		var raw []byte
		var err error
		if r.Bool() {
			err = it.Skip()
		} else {
			what = strings.Replace(what, "Skip", "SkipRaw", 1)
			raw, err = it.SkipRaw()
		}
		if want {
			if err != nil {
				c.Failf("%s of %d %s: %v\n input %s", what, n, kind, err, q(text))
			}
			if raw != nil && !bytes.Equal(raw, bytes.TrimSpace(text)) {
				c.Failf("%s of %d %s gives %s\n input %s", what, n, kind, q(raw), q(text))
			}
			if ty, err := it.NextValueType(); err != nil || it.Buffer()[0] != 'x' {
				c.Failf("%s of %d %s does not stop behind the value: %v %v\n input %s", what, n, kind, ty, err, q(text))
			}
		}
		it.Release()
		c.FeatIf(want, "valid count")
		c.Seen(mix(hash64(text), hashStr(t.String())), true)
	}
}

// engCountsEnc writes values which have n of something
func engCountsEnc(c *C) {
	r := c.R
	n := c.Idx % (countMax + 1)
	for k := 0; k < 3; k++ {
		var v interface{}
		kind := ""
		switch r.Intn(9) {
		case 0, 1:
			doc, t := countDoc(r, "scalars", n)
			p := reflect.New(t)
			if err := json.Unmarshal([]byte(doc), p.Interface()); err != nil {
				panic(harnessErr("%v", err))
			}
			v, kind = p.Elem().Interface(), "elements"
		case 2:
			kind = r.Str([]string{"members", "mixed members", "mixed", "mixed deep", "arrays deep", "objects deep"})
			doc, _ := countDoc(r, kind, n)
			if doc == "" { // nothing around nothing
				doc = "null"
			}
			if err := json.Unmarshal([]byte(doc), &v); err != nil {
				panic(harnessErr("%v", err))
			}
		case 3:
			v, kind = strings.Repeat(r.Str([]string{"a", "<", "\n", "é", "\u2028", "\x00", "\xff", `"`, "😀"}), n), "characters"
		case 4:
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.U64())
			}
			v, kind = b, "bytes"
		case 5:
			kind = "fields"
			var fs []reflect.StructField
			m := n % 130
			for i := 0; i < m; i++ {
				f := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: []reflect.Type{tOf(0), tOf(""), tOf((*int)(nil)), tOf(false), tOf([]int(nil))}[r.Intn(5)]}
				if r.P(30) {
					f.Tag = reflect.StructTag(`json:"` + r.Str([]string{",omitempty", "x" + strconv.Itoa(i), "-", ",string"}) + `"`)
				}
				fs = append(fs, f)
			}
			p := reflect.New(reflect.StructOf(fs)).Elem()
			g := VG{R: r.Fork()}
			g.noBF = true
			g.fill(p)
			v = p.Interface()
		case 6: // pointers
			kind = "pointers"
			x := interface{}(5)
			for i := 0; i < n; i++ {
				y := x
				x = &y
			}
			v = x
		case 7:
			kind = "linked"
			var l *RListX
			for i := 0; i < n; i++ {
				l = &RListX{i, l}
			}
			v = l
		default:
			kind = "map entries"
			m := map[int]string{}
			for i := 0; i < n; i++ {
				m[i*7-100] = strconv.Itoa(i)
			}
			v = m
		}
		c.Note("%d %s encoded: %T", n, kind, v)
		c.Feat("count of " + kind)
		want, stdE := json.Marshal(v)
		var got []byte
		var err error
		what := ""
		switch r.Intn(3) {
		case 0:
			what = "Marshal"
			got, err = jzon.Marshal(v)
		case 1:
			what = "Encoder"
			var w bytes.Buffer
			e := jzon.NewEncoder(&w)
			err = e.Encode(v)
			e.Release()
			got = w.Bytes()
			if err == nil {
				if len(got) == 0 || got[len(got)-1] != '\n' {
					c.Failf("Encoder of %d %s does not end the line: %s", n, kind, q(got))
				}
				got = got[:len(got)-1]
			}
		default:
			what = "Streamer"
			var w bytes.Buffer
			s := jzon.NewStreamer()
			s.Reset(&w)
			err = s.Value(v).Flush()
			s.Release()
			got = w.Bytes()
		}
		if (err == nil) != (stdE == nil) {
			c.Failf("%s of %d %s: error %v, encoding/json %v", what, n, kind, err, stdE)
		}
		if err == nil && !bytes.Equal(want, got) {
			// the order of map entries is free
			var a, b interface{}
			if json.Unmarshal(want, &a) != nil || json.Unmarshal(got, &b) != nil || len(got) != len(want) || sameI(a, b, cmpOpt{}) != "" || !strings.ContainsAny(kind, "m") {
				c.Failf("%s of %d %s differs\n expected %s\n got      %s", what, n, kind, q(want), q(got))
			}
		}
		c.SeenB(got, true)
	}
}

type RListX struct {
	V int
	N *RListX `json:",omitempty"`
}

// engCountsStream reads a stream of n values
func engCountsStream(c *C) {
	r := c.R
	n := c.Idx % (countMax + 1)
	var all []byte
	var vals []string
	var ends []int
	for i := 0; i < n; i++ {
		s := countScalar(r, i)
		vals = append(vals, s)
		all = append(all, s...)
		ends = append(ends, len(all))
		all = append(all, r.Str([]string{" ", "\n", "  ", "\r\n"})...)
	}
	c.Note("stream of %d values, %d bytes", n, len(all))
	var rd = genReader(r, all)
	d := jzon.NewDecoder(rd)
	for i := 0; i < n; i++ {
		if r.P(10) && !d.More() {
			c.Failf("no more after %d of %d values", i, n)
		}
		var raw json.RawMessage
		var v interface{}
		if r.Bool() {
			if err := d.Decode(&raw); err != nil || string(raw) != vals[i] {
				c.Failf("value %d of %d is %s, %v instead of %s", i, n, q(raw), err, vals[i])
			}
		} else {
			var w interface{}
			json.Unmarshal([]byte(vals[i]), &w)
			if err := d.Decode(&v); err != nil {
				c.Failf("value %d of %d: %v", i, n, err)
			}
			if s := sameI(w, v, cmpOpt{}); s != "" {
				c.Failf("value %d of %d differs at %s", i, n, s)
			}
		}
		if o := d.InputOffset(); o != int64(ends[i]) {
			c.Failf("offset %d behind value %d of %d, expected %d", o, i, n, ends[i])
		}
	}
	if d.More() {
		c.Failf("more after all of %d values", n)
	}
	var v interface{}
	if err := d.Decode(&v); err == nil || err.Error() != "EOF" {
		c.Failf("%v at the end of %d values", err, n)
	}
	d.Release()
	c.Feat("stream of values")
	c.SeenB(all, n > 0)

	// and a streamer writing n values, flushed now and then
	var w bytes.Buffer
	s := jzon.NewStreamer()
	s.Reset(&w)
	s.ArrayStart()
	for i := range vals {
		s.RawString(vals[i])
		if r.P(5) {
			if err := s.Flush(); err != nil {
				c.Failf("flush: %v", err)
			}
		}
	}
	if err := s.ArrayEnd().Flush(); err != nil {
		c.Failf("flush: %v", err)
	}
	s.Release()
	if want := "[" + strings.Join(vals, ",") + "]"; w.String() != want {
		c.Failf("streamer of %d values writes\n %s\n expected\n %s", n, q(w.Bytes()), q([]byte(want)))
	}
}

func init() {
	var must []string
	for _, k := range countKinds {
		must = append(must, "count of "+k)
	}
	reg("counts-dec", engCountsDec, append(must, "valid count", "both accept", "both refuse")...)
	reg("counts-enc", engCountsEnc, "count of elements", "count of fields", "count of bytes", "count of characters", "count of pointers", "count of linked", "count of map entries")
	reg("counts-stream", engCountsStream, "stream of values")
}
