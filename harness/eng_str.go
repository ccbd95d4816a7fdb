package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"
)

// ---- decoding strings ----

type echoText struct{ S string }

func (e *echoText) UnmarshalText(b []byte) error { e.S = string(b); return nil }

type echoKey string

func (e *echoKey) UnmarshalText(b []byte) error { *e = echoKey("<" + string(b) + ">"); return nil }

// strRd reads the literal lit (with quotes) in some place and returns its
// characters
type strRd struct {
	name string
	f    func(r *Rand, lit []byte) (string, error)
}

func openAny(r *Rand, b []byte) *jzon.Iterator {
	it, _ := anyIter(r)
	if r.Bool() {
		it.ResetBytes(b)
	} else {
		it.Reset(genReader(r, b))
	}
	return it
}

func cat(parts ...interface{}) []byte {
	var b []byte
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			b = append(b, x...)
		case []byte:
			b = append(b, x...)
		}
	}
	return b
}

func decAny(r *Rand, b []byte, dst interface{}) error {
	return typedRoutes[r.Intn(len(typedRoutes))].f(jzon.DefaultDecoderConfig, b, r.Fork(), dst)
}

var strRds = []strRd{
	{"ReadString", func(r *Rand, lit []byte) (string, error) {
		it := openAny(r, cat(" ", lit, ","))
		defer it.Release()
		s, err := it.ReadString()
		if err == nil {
			err = expectRest(it, ',')
		}
		return s, err
	}},
	{"ReadStringAsSlice", func(r *Rand, lit []byte) (string, error) {
		it := openAny(r, cat(lit, " ]"))
		defer it.Release()
		b, err := it.ReadStringAsSlice()
		s := string(b)
		if err == nil {
			err = expectRest(it, ']')
		}
		return s, err
	}},
	{"ReadStringAndAppend", func(r *Rand, lit []byte) (string, error) {
		it := openAny(r, cat("\n", lit, "}"))
		defer it.Release()
		pre := make([]byte, 3, 3+r.Intn(200))
		copy(pre, "pre")
		b, err := it.ReadStringAndAppend(pre)
		if err != nil {
			return "", err
		}
		if !bytes.HasPrefix(b, []byte("pre")) {
			return "", fmt.Errorf("prefix lost: %q", b)
		}
		return string(b[3:]), expectRest(it, '}')
	}},
	{"Read", func(r *Rand, lit []byte) (string, error) {
		it := openAny(r, cat(lit, ":"))
		defer it.Release()
		v, err := it.Read()
		s, _ := v.(string)
		if err == nil {
			err = expectRest(it, ':')
		}
		return s, err
	}},
	{"string", func(r *Rand, lit []byte) (s string, err error) { err = decAny(r, lit, &s); return }},
	{"named string", func(r *Rand, lit []byte) (string, error) {
		var s NStr
		err := decAny(r, cat(" ", lit, "\n"), &s)
		return string(s), err
	}},
	{"interface", func(r *Rand, lit []byte) (string, error) {
		var v interface{}
		err := decAny(r, lit, &v)
		s, _ := v.(string)
		return s, err
	}},
	{"[]string", func(r *Rand, lit []byte) (string, error) {
		var v []string
		err := decAny(r, cat(`["x",`, lit, `,"y"]`), &v)
		if err != nil || len(v) != 3 || v[0] != "x" || v[2] != "y" {
			return "", orErr(err, "slice %q", v)
		}
		return v[1], nil
	}},
	{"*string field", func(r *Rand, lit []byte) (string, error) {
		var v struct{ A, F *string }
		err := decAny(r, cat(`{"F":`, lit, `,"A":"a"}`), &v)
		if err != nil || v.F == nil || v.A == nil || *v.A != "a" {
			return "", orErr(err, "fields %v", v)
		}
		return *v.F, nil
	}},
	{"map key", func(r *Rand, lit []byte) (string, error) {
		var v map[string]int
		err := decAny(r, cat(`{`, lit, `:5}`), &v)
		for k, n := range v {
			if n == 5 {
				return k, err
			}
		}
		return "", orErr(err, "map %v", v)
	}},
	{"named map key", func(r *Rand, lit []byte) (string, error) {
		var v map[NStr]interface{}
		err := decAny(r, cat(`{ `, lit, ` :[] }`), &v)
		for k := range v {
			return string(k), err
		}
		return "", orErr(err, "map %v", v)
	}},
	{"untyped key", func(r *Rand, lit []byte) (string, error) {
		var v interface{}
		err := decAny(r, cat(`[{`, lit, `:{}}]`), &v)
		if err != nil {
			return "", err
		}
		for k := range v.([]interface{})[0].(map[string]interface{}) {
			return k, err
		}
		return "", fmt.Errorf("%v", v)
	}},
	{"ReadObjectBegin", func(r *Rand, lit []byte) (string, error) {
		it := openAny(r, cat(`{`, lit, `:1}`))
		defer it.Release()
		more, f, err := it.ReadObjectBegin()
		if err != nil || !more {
			return "", orErr(err, "no member")
		}
		return f, expectRest(it, '1')
	}},
	{"ReadObjectMore", func(r *Rand, lit []byte) (string, error) {
		it := openAny(r, cat(`{"":1,`, lit, `: 1}`))
		defer it.Release()
		if _, _, err := it.ReadObjectBegin(); err != nil {
			return "", err
		}
		if err := it.Skip(); err != nil {
			return "", err
		}
		more, f, err := it.ReadObjectMore()
		if err != nil || !more {
			return "", orErr(err, "no member")
		}
		return f, expectRest(it, '1')
	}},
	{"ReadObjectCB", func(r *Rand, lit []byte) (s string, err error) {
		it := openAny(r, cat(`{`, lit, `:1}`))
		defer it.Release()
		err = it.ReadObjectCB(func(it *jzon.Iterator, f string) error { s = f; return it.Skip() })
		return
	}},
	{"UnmarshalText", func(r *Rand, lit []byte) (string, error) {
		var v []echoText
		err := decAny(r, cat(`[`, lit, `]`), &v)
		if err != nil {
			return "", err
		}
		return v[0].S, nil
	}},
	{"UnmarshalText key", func(r *Rand, lit []byte) (string, error) {
		var v map[echoKey]int
		err := decAny(r, cat(`{`, lit, `:5}`), &v)
		for k := range v {
			return string(k[1 : len(k)-1]), err
		}
		return "", orErr(err, "map %v", v)
	}},
	{"string option", func(r *Rand, lit []byte) (string, error) {
		var v struct {
			S string `json:",string"`
		}
		in, _ := json.Marshal(string(lit)) // not for invalid UTF-8
		err := decAny(r, cat(`{"S":`, in, `}`), &v)
		return v.S, err
	}},
	{"base64 source", func(r *Rand, lit []byte) (string, error) {
		var v []byte
		err := decAny(r, lit, &v)
		if err != nil {
			return "", err
		}
		return base64.StdEncoding.EncodeToString(v), nil
	}},
	{"struct member name", func(r *Rand, lit []byte) (string, error) {
		s, end, ok := refString(lit, 0)
		if !ok || end != len(lit) {
			// any text: it must be refused
			var x struct{ ABC int }
			return "", decAny(r, cat(`{`, lit, `:1}`), &x)
		}
		if !validTag(string(s)) {
			var x struct{ ABC int }
			if err := decAny(r, cat(`{`, lit, `:1}`), &x); err != nil {
				return "", err
			}
			return string(s), nil
		}
		fs := []reflect.StructField{{Name: "F", Type: tOf(0), Tag: reflect.StructTag(`json:` + fmt.Sprintf("%q", string(s)))}}
		if r.Bool() {
			fs = append(fs, reflect.StructField{Name: "Other_name", Type: tOf(0)})
		}
		v := reflect.New(reflect.StructOf(fs))
		cfg := rot.D()
		if err := cfg.Unmarshal(cat(`{`, lit, `:7}`), v.Interface()); err != nil {
			return "", err
		}
		if v.Elem().Field(0).Int() != 7 {
			return "", fmt.Errorf("member %s does not reach the field tagged %q", lit, s)
		}
		return string(s), nil
	}},
}

func validTag(s string) bool {
	if s == "" || s == "-" || strings.ContainsAny(s, ",") || len(s) > 60 || !utf8.ValidString(s) {
		return false
	}
	for _, c := range s {
		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return true
}

func orErr(err error, f string, a ...interface{}) error {
	if err != nil {
		return err
	}
	return fmt.Errorf("WRONG: "+f, a...)
}

// expectRest: the next byte behind white space
func expectRest(it *jzon.Iterator, c byte) error {
	if _, err := it.NextValueType(); err != nil {
		return fmt.Errorf("WRONG: rest lost: %v", err)
	}
	if b := it.Buffer(); len(b) == 0 || b[0] != c {
		return fmt.Errorf("WRONG: position: %q, expected %q", b, c)
	}
	return nil
}

func judgeStr(c *C, lit []byte, all bool) {
	r := c.R
	lit = bytes.Trim(lit, " \t\r\n")
	if len(lit) == 0 || lit[0] != '"' {
		return
	}
	c.NoteB("string literal ", lit)
	raw, end, ok := refString(lit, 0)
	ok = ok && end == len(lit)
	want := string(raw)
	// cross check of the reference
	var std string
	if e := json.Unmarshal(lit, &std); (e == nil) != ok || ok && std != toValid(want) {
		panic(harnessErr("oracles disagree on %q", lit))
	}
	n := 4
	if all {
		n = len(strRds)
	}
	for k := 0; k < n; k++ {
		rd := strRds[r.Intn(len(strRds))]
		if all {
			rd = strRds[k]
		}
		wok, w := ok, want
		switch rd.name {
		case "string option":
			if !utf8.Valid(lit) || !ok && string(lit) == "null" {
				continue
			}
		case "base64 source":
			if ok {
				d, e := base64.StdEncoding.DecodeString(want)
				if wok = e == nil; wok {
					w = base64.StdEncoding.EncodeToString(d)
				}
			}
		}
		if !ok && end >= 0 && (bytes.ContainsAny(lit, ",:]}") || len(lit) == 0 || lit[0] != '"' || bytes.Count(lit, []byte{'"'}) > 1) {
			// could be something else than one string in this place
			if rd.name != "string" && rd.name != "named string" {
				continue
			}
		}
		got, err := rd.f(r, lit)
		if err != nil && strings.HasPrefix(err.Error(), "WRONG") && ok {
			c.Failf("%s of %s: %v", rd.name, q(lit), err)
		}
		if (err == nil) != wok {
			c.Failf("%s of %s: %q, error %v; expected success %v", rd.name, q(lit), got, err, wok)
		}
		if wok && got != w {
			c.Failf("%s of %s gives %q, expected %q", rd.name, q(lit), clip(got, 300), clip(w, 300))
		}
		if wok {
			c.Feat("string accepted")
			c.Feat("string via " + rd.name)
		} else {
			c.Feat("string refused")
		}
		c.Seen(mix(hash64(lit), hashStr(rd.name)), len(lit) > 2)
	}
}

func engStr(c *C) {
	r := c.R
	for k := 0; k < 4; k++ {
		var lit []byte
		switch r.Intn(8) {
		case 0, 1, 2:
			lit = genStringLit(r, r.P(30))
		case 3, 4:
			lit = genStringLike(r)
		case 5: // one atom at a chosen offset from a window boundary
			n := []int{0, 50, 55, 58, 60, 61, 62, 63, 64, 120, 126, 127, 500, 505, 508, 510, 511, 512, 1020}[r.Intn(19)] + r.Intn(6)
			lit = append([]byte{'"'}, bytes.Repeat([]byte("x"), n)...)
			if r.P(80) {
				lit = append(lit, r.Str(strAtoms)...)
			} else {
				lit = append(lit, r.Str(badStrAtoms)...)
			}
			lit = append(lit, digits(r, r.Intn(5))...)
			lit = append(lit, '"')
		case 6: // surrogates and escapes in sequence
			lit = []byte{'"'}
			for n := r.Range(1, 6); n > 0; n-- {
				switch r.Intn(4) {
				case 0:
					lit = append(lit, fmt.Sprintf(`\u%04x`, 0xd800+r.Intn(0x800))...)
				case 1:
					lit = append(lit, fmt.Sprintf(`\ud%03X\ud%03x`, 0x800+r.Intn(0x400), 0xc00+r.Intn(0x400))...)
				case 2:
					lit = append(lit, fmt.Sprintf(`\u%04X`, r.Intn(0x10000))...)
				default:
					lit = append(lit, r.Str(strAtoms)...)
				}
			}
			lit = append(lit, '"')
		case 7: // base64
			b := make([]byte, r.Intn(60))
			for i := range b {
				b[i] = byte(r.U64())
			}
			s := base64.StdEncoding.EncodeToString(b)
			if r.P(50) {
				s = strings.ReplaceAll(s, "/", `\/`)
			}
			if r.P(30) {
				s = strings.ReplaceAll(s, "=", `\u003d`)
			}
			lit = cat(`"`, s, `"`)
		}
		judgeStr(c, lit, c.Idx%4 == 0)
		c.Sample("string literal %s", q(lit))
	}
}

// engStrEx: every \uXXXX, every byte at every position of an escape
func engStrEx(c *C) {
	base := c.Idx * 256
	switch {
	case base < 0x10000:
		for u := base; u < base+256; u++ {
			judgeStr(c, []byte(fmt.Sprintf(`"\u%04x"`, u)), false)
			judgeStr(c, []byte(fmt.Sprintf(`"a\u%04Xz"`, u)), false)
			if u >= 0xd800 && u < 0xe000 {
				judgeStr(c, []byte(fmt.Sprintf(`"\u%04x\udc12"`, u)), false)
				judgeStr(c, []byte(fmt.Sprintf(`"\ud83d\u%04x"`, u)), false)
				judgeStr(c, []byte(fmt.Sprintf(`"\u%04x\u0041\n"`, u)), false)
			}
			if u < 0xd800 || u >= 0xe000 {
				s := string(rune(u))
				if u >= 0x20 && u != '"' && u != '\\' {
					judgeStr(c, cat(`"`, s, `"`), false)
				}
			}
		}
		c.Feat("all \\u escapes")
	case c.Idx == 256:
		for b := 0; b < 256; b++ {
			judgeStr(c, []byte{'"', byte(b), '"'}, true)
			judgeStr(c, []byte{'"', '\\', byte(b), '"'}, true)
			judgeStr(c, []byte{'"', '\\', byte(b)}, false)
			for p := 0; p < 4; p++ {
				l := []byte(`"\u0000"`)
				l[3+p] = byte(b)
				judgeStr(c, l, true)
				l = []byte(`"\ud83d\ude00"`)
				l[9+p] = byte(b)
				judgeStr(c, l, false)
			}
			l := []byte(`"\ud83d\ude00"`)
			l[8] = byte(b)
			judgeStr(c, l, false)
			l[8], l[7] = 'u', byte(b)
			judgeStr(c, l, false)
		}
		c.Feat("all bytes in all places")
	case c.Idx == 257: // every truncation
		for _, s := range []string{`"a\u00e9\n\ud83d\ude00é😀z"`, `"\\\"\/\b\f\r\t"`} {
			for i := 0; i < len(s); i++ {
				judgeStr(c, []byte(s[:i]), true)
			}
		}
	}
}

// ---- encoding strings ----

type textOut struct{ S string }

func (t textOut) MarshalText() ([]byte, error) { return []byte(t.S), nil }

type strWr struct {
	name string
	std  func(s string) interface{} // a value encoding/json writes in the same way
	wr   func(st *jzon.Streamer, s string)
}

type htmlFields struct {
	A string `json:"<a>"`
	B string `json:"b&,omitempty"`
	C string `json:">c,string"`
}

var strWrs = []strWr{
	{"String", func(s string) interface{} { return s }, func(st *jzon.Streamer, s string) { st.String(s) }},
	{"Field", func(s string) interface{} { return map[string]int{s: 1} }, func(st *jzon.Streamer, s string) { st.ObjectStart().Field(s).Int(1).ObjectEnd() }},
	{"Value string", func(s string) interface{} { return s }, func(st *jzon.Streamer, s string) { st.Value(s) }},
	{"Value named", func(s string) interface{} { return NStr(s) }, func(st *jzon.Streamer, s string) { st.Value(NStr(s)) }},
	{"pointer", func(s string) interface{} { return &s }, func(st *jzon.Streamer, s string) { st.Value(&s) }},
	{"map", func(s string) interface{} { return map[string]string{s: s} }, func(st *jzon.Streamer, s string) { st.Value(map[string]string{s: s}) }},
	{"named map", func(s string) interface{} { return map[NStr]interface{}{NStr(s): s} }, func(st *jzon.Streamer, s string) { st.Value(map[NStr]interface{}{NStr(s): s}) }},
	{"slice", func(s string) interface{} { return []string{s, s} }, func(st *jzon.Streamer, s string) { st.Value([]string{s, s}) }},
	{"interface", func(s string) interface{} { return []interface{}{s, map[string]interface{}{s: s}} }, func(st *jzon.Streamer, s string) { st.Value([]interface{}{s, map[string]interface{}{s: s}}) }},
	{"struct", func(s string) interface{} { return htmlFields{s, s, s} }, func(st *jzon.Streamer, s string) { st.Value(htmlFields{s, s, s}) }},
	{"text", func(s string) interface{} { return textOut{s} }, func(st *jzon.Streamer, s string) { st.Value(textOut{s}) }},
	{"text pointer", func(s string) interface{} { return &textOut{s} }, func(st *jzon.Streamer, s string) { st.Value(&textOut{s}) }},
	{"text key", func(s string) interface{} { return map[textOut]textOut{{s}: {s}} }, func(st *jzon.Streamer, s string) { st.Value(map[textOut]textOut{{s}: {s}}) }},
	{"text in interface", func(s string) interface{} { return []interface{}{textOut{s}} }, func(st *jzon.Streamer, s string) { st.Value([]interface{}{textOut{s}}) }},
	{"pointer receiver text", func(s string) interface{} { return &PT{s} }, func(st *jzon.Streamer, s string) { st.Value(&PT{s}) }},
	{"array", func(s string) interface{} { return [1]string{s} }, func(st *jzon.Streamer, s string) { st.Value([1]string{s}) }},
	{"embedded", func(s string) interface{} { return struct{ htmlFields }{htmlFields{s, s, s}} }, func(st *jzon.Streamer, s string) { st.Value(struct{ htmlFields }{htmlFields{s, s, s}}) }},
}

var noEsc = jzon.NewEncoderConfig(&jzon.EncoderOption{})
var doEsc = jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true})

// judgeSafe inspects output bytes without any oracle
func judgeSafe(c *C, what string, out []byte, html bool) {
	for i := 0; i < len(out); i++ {
		b := out[i]
		if b < 0x20 && b != '\n' || b < 0x20 && i != len(out)-1 {
			c.Failf("%s: raw control character in %s", what, q(out))
		}
		if html && (b == '<' || b == '>' || b == '&') {
			c.Failf("%s: raw %q in %s with HTML escaping on", what, b, q(out))
		}
	}
	if bytes.Contains(out, []byte("\u2028")) || bytes.Contains(out, []byte("\u2029")) {
		c.Failf("%s: raw line separator in %s", what, q(out))
	}
	if !html && (bytes.Contains(out, []byte(`\u003c`)) || bytes.Contains(out, []byte(`\u003e`)) || bytes.Contains(out, []byte(`\u0026`))) {
		c.Failf("%s: HTML escape in %s with HTML escaping off", what, q(out))
	}
	if !utf8.Valid(out) {
		c.Failf("%s: invalid UTF-8 in %s", what, q(out))
	}
}

func judgeStrOut(c *C, s string, w strWr) {
	r := c.R
	c.Note("write string %q with %s", clip(s, 2000), w.name)
	if strings.ContainsAny(s, "\b\f") && (w.name == "struct" || w.name == "embedded") {
		s = strings.NewReplacer("\b", "", "\f", "").Replace(s)
	}
	html := r.Bool()
	want, err := stdEncode(w.std(s), html)
	if err != nil {
		panic(harnessErr("%v", err))
	}
	var buf bytes.Buffer
	var how string
	var got []byte
	switch k := r.Intn(5); k {
	case 0, 1: // set on the streamer, against or with the configuration
		cfg := []*jzon.EncoderConfig{noEsc, doEsc, jzon.DefaultEncoderConfig}[r.Intn(3)]
		st := cfg.NewStreamer()
		st.Reset(&buf)
		if k == 0 {
			st.Reset(&buf)
			st.EscapeHTML(html)
		} else {
			st.EscapeHTML(html)
			st.Reset(&buf)
		}
		w.wr(st, s)
		err = st.Flush()
		st.Release()
		got, how = buf.Bytes(), "Streamer.EscapeHTML"
	case 2: // from the configuration
		cfg := noEsc
		if html {
			cfg = []*jzon.EncoderConfig{doEsc, jzon.DefaultEncoderConfig}[r.Intn(2)]
		}
		st := cfg.NewStreamer()
		st.Reset(&buf)
		w.wr(st, s)
		err = st.Flush()
		st.Release()
		got, how = buf.Bytes(), "configuration streamer"
	case 3:
		cfg := noEsc
		if html {
			cfg = []*jzon.EncoderConfig{doEsc, jzon.DefaultEncoderConfig}[r.Intn(2)]
		}
		got, err = cfg.Marshal(w.std(s))
		how = "configuration Marshal"
	case 4:
		cfg := []*jzon.EncoderConfig{noEsc, doEsc, jzon.DefaultEncoderConfig}[r.Intn(3)]
		e := cfg.NewEncoder(&buf)
		e.SetEscapeHTML(html)
		for n := r.Intn(2); n >= 0; n-- {
			buf.Reset()
			err = e.Encode(w.std(s))
		}
		e.Release()
		got, how = bytes.TrimSuffix(buf.Bytes(), []byte("\n")), "Encoder.SetEscapeHTML"
	}
	if err != nil {
		c.Failf("%s via %s of %q: %v", w.name, how, clip(s, 200), err)
	}
	if !bytes.Equal(normEsc(want), normEsc(got)) {
		c.Failf("%s via %s of %q, HTML %v: %s, expected %s", w.name, how, clip(s, 200), html, q(got), q(want))
	}
	if !strings.Contains(s, `u003`) && !strings.Contains(s, `u0026`) {
		judgeSafe(c, w.name+" via "+how, got, html)
	}
	if w.name == "String" {
		var back string
		if err := jzon.Unmarshal(got, &back); err != nil || back != toValid(s) {
			c.Failf("%q does not read back: %q, %v", got, back, err)
		}
		if err := json.Unmarshal(got, &back); err != nil || back != toValid(s) {
			c.Failf("encoding/json does not read %q back: %q, %v", got, back, err)
		}
	}
	c.FeatIf(html, "html on")
	c.FeatIf(!html, "html off")
	c.Seen(mix(hashStr(s), hashStr(w.name+how)), len(s) > 0)
}

func engStrOut(c *C) {
	r := c.R
	if c.Idx < 272 {
		// every rune of a block of 256 (beyond the BMP: samples)
		for u := c.Idx * 256; u < c.Idx*256+256; u++ {
			x := rune(u)
			if u >= 0x10000 {
				x = rune(0x10000 + r.Intn(0x100000))
			}
			s := string(x)
			judgeStrOut(c, s, strWrs[0])
			judgeStrOut(c, "a"+s+"b"+s, strWrs[r.Intn(len(strWrs))])
		}
		if c.Idx == 0 {
			for b := 0; b < 256; b++ {
				judgeStrOut(c, string([]byte{byte(b)}), strWrs[0])
				judgeStrOut(c, string([]byte{0xe2, 0x80, byte(b)}), strWrs[0])
				judgeStrOut(c, string([]byte{'a', byte(b), 0x80, 'c'}), strWrs[0])
				judgeStrOut(c, string([]byte{0xf0, byte(b), 0x80, 0x80, 'c'}), strWrs[0])
			}
		}
		c.Feat("all runes")
		return
	}
	for k := 0; k < 5; k++ {
		s := genGoString(r, r.P(40))
		if r.P(10) {
			s = strings.Repeat("x", r.Range(50, 70)) + s
		}
		judgeStrOut(c, s, strWrs[r.Intn(len(strWrs))])
		c.Sample("write %q", clip(s, 100))
	}
}

func init() {
	reg("str", engStr, "string accepted", "string refused", "string via base64 source", "string via struct member name", "string via map key", "string via UnmarshalText key")
	reg("str-ex", engStrEx, "all \\u escapes", "all bytes in all places")
	reg("str-out", engStrOut, "all runes", "html on", "html off")
}
