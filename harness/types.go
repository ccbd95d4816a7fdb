package main

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// ---- hand written types used by several engines ----

type NInt int
type NInt8 int8
type NUint16 uint16
type NFloat float64
type NFloat32 float32
type NStr string
type NBool bool
type NByte uint8
type NBytes []byte
type NByteSlice []NByte
type NSlice []NInt
type NMap map[NStr]NInt
type NIface interface{}
type NPtr *int
type NArr [2]NStr
type NRaw json.RawMessage // a plain []byte type without methods

// recursive types
type RList struct {
	V    int    `json:"v"`
	Next *RList `json:"next,omitempty"`
}
type RTree struct {
	Name string           `json:"name"`
	Kids []RTree          `json:"kids"`
	M    map[string]RTree `json:"m,omitempty"`
	P    **RTree          `json:"p"`
}
type RA struct {
	B *RB   `json:"b"`
	L []*RB `json:"l"`
	X int
}
type RB struct {
	A *RA           `json:"a"`
	M map[string]RA `json:"m"`
	Y string
}
type RSlice []RSlice
type RMap map[string]RMap

// embedding
type EInner struct {
	A int
	B string `json:"bee"`
	C *bool  `json:"c,omitempty"`
}
type EPtr struct {
	P int
	Q []string
}
type einner2 struct {
	D float64 `json:"d"`
	E int     `json:"e,string"`
}
type EOuter struct {
	EInner
	*EPtr
	einner2
	A string // hides EInner.A
	Z int
}
type EDeep struct {
	EOuter
	X struct {
		EInner
		Y int
	}
	W map[string]EInner
}

// ---- text hooks ----

// TStr has string kind, value receiver marshaler
type TStr string

func (t TStr) MarshalText() ([]byte, error) { return []byte("t:" + string(t)), nil }
func (t *TStr) UnmarshalText(b []byte) error {
	s := string(b)
	if strings.HasPrefix(s, "!") {
		return errors.New("TStr refuses " + s)
	}
	*t = TStr(strings.TrimPrefix(s, "t:"))
	return nil
}

// TStruct is comparable and used as a map key
type TStruct struct{ A, B int }

func (t TStruct) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d/%d", t.A, t.B)), nil }
func (t *TStruct) UnmarshalText(b []byte) error {
	p := strings.Split(string(b), "/")
	if len(p) != 2 {
		return errors.New("TStruct wants a/b")
	}
	var err error
	if t.A, err = strconv.Atoi(p[0]); err != nil {
		return err
	}
	t.B, err = strconv.Atoi(p[1])
	return err
}

// TAny has any text, also an empty one
type TAny struct{ S string }

func (t TAny) MarshalText() ([]byte, error) {
	if t.S == "!" {
		return nil, errors.New("TAny refuses")
	}
	return []byte(t.S), nil
}
func (t *TAny) UnmarshalText(b []byte) error {
	if string(b) == "!" {
		return errors.New("TAny refuses")
	}
	t.S = toValid(string(b)) // invalid UTF-8 is kept by jzon
	return nil
}

// TInt has integer kind with text hooks
type TInt int

func (t TInt) MarshalText() ([]byte, error) { return []byte("<" + strconv.Itoa(int(t)) + ">"), nil }
func (t *TInt) UnmarshalText(b []byte) error {
	s := strings.Trim(string(b), "<>")
	n, err := strconv.Atoi(s)
	*t = TInt(n)
	return err
}

// TPtrShape is stored directly in an interface word
type TPtrShape struct{ p *int }

func (t TPtrShape) MarshalText() ([]byte, error) {
	if t.p == nil {
		return []byte("nil"), nil
	}
	return []byte("p" + strconv.Itoa(*t.p)), nil
}
func (t *TPtrShape) UnmarshalText(b []byte) error {
	if string(b) == "nil" {
		t.p = nil
		return nil
	}
	n, err := strconv.Atoi(strings.TrimPrefix(string(b), "p"))
	t.p = &n
	return err
}

// ---- json hooks ----

// JInt: value receiver marshaler
type JInt int

func (j JInt) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`{"j":%d}`, int(j))), nil }
func (j *JInt) UnmarshalJSON(b []byte) error {
	if string(b) == "null" {
		return nil
	}
	var x struct{ J int }
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*j = JInt(x.J)
	return nil
}

// JRec records what it was given
type JRec struct {
	Got string
	N   int
}

func (j JRec) MarshalJSON() ([]byte, error) { return json.Marshal(j.Got) }
func (j *JRec) UnmarshalJSON(b []byte) error {
	j.N++
	j.Got = string(b)
	if j.Got == `"fail"` {
		return errors.New("JRec refuses")
	}
	return nil
}

// JPtrShape is stored directly in an interface word
type JPtrShape struct{ p *int }

func (j JPtrShape) MarshalJSON() ([]byte, error) {
	if j.p == nil {
		return []byte(`"no"`), nil
	}
	return []byte(strconv.Itoa(*j.p)), nil
}
func (j *JPtrShape) UnmarshalJSON(b []byte) error {
	if string(b) == `"no"` {
		j.p = nil
		return nil
	}
	n, err := strconv.Atoi(string(b))
	j.p = &n
	return err
}

// JMap: map kind with hook
type JMap map[string]int

func (j JMap) MarshalJSON() ([]byte, error) {
	return []byte(`["map",` + strconv.Itoa(len(j)) + `]`), nil
}
func (j *JMap) UnmarshalJSON(b []byte) error {
	*j = JMap{string(b): len(b)}
	return nil
}

// JSlice: slice kind with hook
type JSlice []int

func (j JSlice) MarshalJSON() ([]byte, error) {
	return []byte(`{"n":` + strconv.Itoa(len(j)) + `}`), nil
}
func (j *JSlice) UnmarshalJSON(b []byte) error {
	*j = JSlice{len(b)}
	return nil
}

// JT has both hooks: the JSON one wins for values, the text one for keys
type JT struct{ V int }

func (j JT) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(j.V)), nil }
func (j *JT) UnmarshalJSON(b []byte) error {
	n, err := strconv.Atoi(string(b))
	j.V = n
	return err
}
func (j JT) MarshalText() ([]byte, error) { return []byte("k" + strconv.Itoa(j.V)), nil }
func (j *JT) UnmarshalText(b []byte) error {
	n, err := strconv.Atoi(strings.TrimPrefix(string(b), "k"))
	j.V = n
	return err
}

// PJ and PT: pointer receivers only
type PJ struct{ V int }

func (j *PJ) MarshalJSON() ([]byte, error) { return []byte(`[` + strconv.Itoa(j.V) + `]`), nil }
func (j *PJ) UnmarshalJSON(b []byte) error {
	n, err := strconv.Atoi(strings.Trim(string(b), "[] "))
	j.V = n
	return err
}

type PT struct{ V string }

func (t *PT) MarshalText() ([]byte, error) { return []byte("pt&" + t.V), nil }
func (t *PT) UnmarshalText(b []byte) error {
	t.V = strings.TrimPrefix(string(b), "pt&")
	return nil
}

// PByte: slices of it are not base64
type PByte uint8

func (p *PByte) MarshalJSON() ([]byte, error) {
	return []byte(`"b` + strconv.Itoa(int(*p)) + `"`), nil
}

// VByte: value receiver; slices of it are not base64
type VByte uint8

func (p VByte) MarshalText() ([]byte, error) { return []byte("v" + strconv.Itoa(int(p))), nil }
func (p *VByte) UnmarshalText(b []byte) error {
	n, err := strconv.Atoi(strings.TrimPrefix(string(b), "v"))
	*p = VByte(n)
	return err
}

// interfaces with methods
type MarshalerX interface {
	json.Marshaler
	Extra()
}

func (j JInt) Extra() {}

type Shaper interface{ Shape() int }
type ShapeA struct{ A int }

func (s *ShapeA) Shape() int { return s.A }

type ShapeB map[string]int

func (s ShapeB) Shape() int { return len(s) }

// typeSpec says how to make values and texts of a type with hooks
type typeSpec struct {
	fill func(v reflect.Value, r *Rand)
	text func(r *Rand) string
}

func intP(r *Rand) *int {
	if r.P(25) {
		return nil
	}
	n := r.Intn(100)
	return &n
}

var specs = map[reflect.Type]typeSpec{
	tOf(TStr("")):  {func(v reflect.Value, r *Rand) { v.SetString(genGoString(r, false)) }, func(r *Rand) string { return quote(r.Str([]string{"t:abc", "abc", "", "!no", "é", "t:"})) }},
	tOf(TStruct{}): {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(TStruct{r.Intn(9), r.Intn(9)})) }, func(r *Rand) string { return r.Str([]string{`"1/2"`, `"3/4"`, `"0/0"`, `"x"`, `"5\/6"`, `"1/2"`}) }},
	tOf(TAny{}): {func(v reflect.Value, r *Rand) {
		v.Field(0).SetString(r.Str([]string{"", "", "a", "A", "<&>", "\"", "\\", "\n\x01", "\u2028", "key", "1", "null"}))
	}, func(r *Rand) string {
		return r.Str([]string{`""`, `"a"`, `"\u0041"`, `"\\"`, `"!"`, `"<&>"`, `"null"`, `"\ud83d\ude00"`, `"\n"`, `"12"`})
	}},
	tOf(TInt(0)):     {func(v reflect.Value, r *Rand) { v.SetInt(int64(r.Intn(50))) }, func(r *Rand) string { return r.Str([]string{`"<5>"`, `"7"`, `"<x>"`, `5`, `"\u003c6>"`}) }},
	tOf(TPtrShape{}): {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(TPtrShape{intP(r)})) }, func(r *Rand) string { return r.Str([]string{`"p5"`, `"nil"`, `"px"`, `"7"`}) }},
	tOf(JInt(0)):     {func(v reflect.Value, r *Rand) { v.SetInt(int64(r.Intn(50))) }, func(r *Rand) string { return r.Str([]string{`{"j":5}`, `{ "J" : 6 }`, `{}`, `5`, `{"j":"x"}`}) }},
	tOf(JRec{}): {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(JRec{Got: genGoString(r, false)})) }, func(r *Rand) string {
		return r.Str([]string{`"x"`, `[1, 2]`, `{"a": null}`, `"fail"`, `12.50`, ` true`, `"\u00e9"`})
	}},
	tOf(JPtrShape{}): {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(JPtrShape{intP(r)})) }, func(r *Rand) string { return r.Str([]string{`5`, `"no"`, `x`, `17`}) }},
	tOf(JMap{}):      {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf([]JMap{nil, {}, {"a": 1}}[r.Intn(3)])) }, func(r *Rand) string { return r.Str([]string{`5`, `{"a": 1}`, `[]`}) }},
	tOf(JSlice{}):    {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf([]JSlice{nil, {}, {1, 2}}[r.Intn(3)])) }, func(r *Rand) string { return r.Str([]string{`5`, `[1, 2]`, `"abc"`}) }},
	tOf(JT{}):        {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(JT{r.Intn(20)})) }, func(r *Rand) string { return r.Str([]string{`5`, `"x"`, `12`}) }},
	tOf(PJ{}):        {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(PJ{r.Intn(3)})) }, func(r *Rand) string { return r.Str([]string{`5`, `[5]`, `[ 7]`, `"x"`}) }},
	tOf(PT{}):        {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(PT{genGoString(r, false)})) }, func(r *Rand) string { return r.Str([]string{`"a"`, `"pt&b"`, `""`, `5`}) }},
	tOf(PByte(0)):    {func(v reflect.Value, r *Rand) { v.SetUint(uint64(r.Intn(256))) }, func(r *Rand) string { return r.Str([]string{`5`, `255`, `256`, `"b5"`}) }},
	tOf(VByte(0)):    {func(v reflect.Value, r *Rand) { v.SetUint(uint64(r.Intn(256))) }, func(r *Rand) string { return r.Str([]string{`"v5"`, `"v255"`, `5`, `"x"`}) }},
	tOf(json.Number("")): {func(v reflect.Value, r *Rand) {
		if r.P(15) {
			v.SetString("")
		} else {
			v.SetString(string(genNumberLit(r, false)))
		}
	}, func(r *Rand) string {
		if r.P(30) {
			return `"` + string(genNumberLit(r, false)) + `"`
		}
		if r.P(10) {
			return r.Str([]string{`""`, `"x"`, `"1x"`, `" 1"`, `"-"`})
		}
		return string(genNumberLit(r, false))
	}},
	tOf(json.RawMessage{}): {func(v reflect.Value, r *Rand) {
		if r.P(15) {
			v.SetBytes(nil)
			return
		}
		v.SetBytes([]byte(r.Str([]string{"1", "null", `"s"`, "[1,2]", `{"a":{"b":[]}}`, "true", `"\u00e9"`, "-1.5e3"})))
	}, func(r *Rand) string {
		g := TG{R: r, MaxDepth: 3, Budget: 8, WS: 20}
		g.value(0)
		return string(g.b)
	}},
}

func tOf(v interface{}) reflect.Type { return reflect.TypeOf(v) }

var (
	efaceType  = reflect.TypeOf((*interface{})(nil)).Elem()
	shaperType = reflect.TypeOf((*Shaper)(nil)).Elem()
	jmType     = reflect.TypeOf((*json.Marshaler)(nil)).Elem()
	tmType     = reflect.TypeOf((*encoding.TextMarshaler)(nil)).Elem()
	rawType    = tOf(json.RawMessage{})
	numberType = tOf(json.Number(""))
)

func quote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

// genGoString returns a Go string for encoding
func genGoString(r *Rand, bad bool) string {
	var b []byte
	n := strLen(r)
	mode := r.Intn(3)
	for len(b) < n {
		switch {
		case mode == 0 || r.P(60):
			b = append(b, plainChars[r.Intn(len(plainChars))])
		case bad && r.P(20):
			b = append(b, r.Str(badUTF8Atoms)...)
		case r.P(50):
			b = append(b, r.Str([]string{"<", ">", "&", "\"", "\\", "/", "\u2028", "\u2029", "\x00", "\x01", "\b", "\f", "\n", "\r", "\t", "\x1f", "\x7f", "é", "中", "😀", "\ufffd", "\u2027", "\u202a", "\u0080", "\uffff", "\U0010ffff", "'", "\x0b", "\x0e"})...)
		default:
			b = append(b, byte(r.Intn(128)))
		}
	}
	return string(b)
}
