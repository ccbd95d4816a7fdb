package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// hlog records every call of a user hook
var hlog []string

// hfail holds the number of calls made up to each failing one
var hfail []int

// hookInside runs inside hooks while jzon is at work
var hookInside func(b []byte)

var errHookFail = errors.New("hook says no: \u00e9<>")

func hcall(name string, recv string, b []byte) {
	s := name + "(" + recv + ")"
	if b != nil {
		s += " <- " + string(b)
	}
	hlog = append(hlog, s)
	if hookInside != nil {
		hookInside(b)
	}
}

func failing(b []byte) error {
	if bytes.Contains(b, []byte("fail!")) {
		hfail = append(hfail, len(hlog))
		return errHookFail
	}
	return nil
}

// LJ: JSON hooks; value receiver marshaler
type LJ struct {
	V string
	N int
}

func (l LJ) MarshalJSON() ([]byte, error) {
	hcall("LJ.MarshalJSON", l.V, nil)
	if err := failing([]byte(l.V)); err != nil {
		return nil, err
	}
	return json.Marshal([]string{l.V})
}
func (l *LJ) UnmarshalJSON(b []byte) error {
	if l == nil {
		hcall("LJ.UnmarshalJSON", "nil", b)
		return nil
	}
	hcall("LJ.UnmarshalJSON", l.V+strconv.Itoa(l.N), b)
	l.V, l.N = string(b), l.N+1
	return failing(b)
}

// LT: text hooks
type LT struct {
	V string
	N int
}

func (l LT) MarshalText() ([]byte, error) {
	hcall("LT.MarshalText", l.V, nil)
	return []byte("<" + l.V + ">"), failing([]byte(l.V))
}
func (l *LT) UnmarshalText(b []byte) error {
	if l == nil {
		hcall("LT.UnmarshalText", "nil", b)
		return nil
	}
	hcall("LT.UnmarshalText", l.V+strconv.Itoa(l.N), b)
	l.V, l.N = string(b), l.N+1
	return failing(b)
}

// LP: pointer receivers for everything
type LP struct{ V string }

func (l *LP) MarshalJSON() ([]byte, error) {
	if l == nil {
		hcall("LP.MarshalJSON", "nil", nil)
		return []byte(`"nil LP"`), nil
	}
	hcall("LP.MarshalJSON", l.V, nil)
	return json.Marshal(map[string]string{"p": l.V})
}
func (l *LP) UnmarshalJSON(b []byte) error {
	hcall("LP.UnmarshalJSON", l.V, b)
	l.V = string(b)
	return failing(b)
}

// LQ: pointer receivers, text
type LQ struct{ V string }

func (l *LQ) MarshalText() ([]byte, error) {
	if l == nil {
		hcall("LQ.MarshalText", "nil", nil)
		return []byte("nil LQ"), nil
	}
	hcall("LQ.MarshalText", l.V, nil)
	return []byte("q&" + l.V), nil
}
func (l *LQ) UnmarshalText(b []byte) error {
	hcall("LQ.UnmarshalText", l.V, b)
	l.V = string(b)
	return failing(b)
}

// LB: both; the JSON ones win for values
type LB struct{ V string }

func (l LB) MarshalJSON() ([]byte, error) {
	hcall("LB.MarshalJSON", l.V, nil)
	return json.Marshal(l.V)
}
func (l LB) MarshalText() ([]byte, error) {
	hcall("LB.MarshalText", l.V, nil)
	return []byte("k" + l.V), nil
}
func (l *LB) UnmarshalJSON(b []byte) error {
	hcall("LB.UnmarshalJSON", l.V, b)
	l.V = string(b)
	return nil
}
func (l *LB) UnmarshalText(b []byte) error {
	hcall("LB.UnmarshalText", l.V, b)
	l.V = string(b)
	return nil
}

// LX: JSON one way, text the other
type LX struct{ V string }

func (l LX) MarshalText() ([]byte, error) {
	hcall("LX.MarshalText", l.V, nil)
	return []byte(l.V), nil
}
func (l *LX) UnmarshalJSON(b []byte) error {
	hcall("LX.UnmarshalJSON", l.V, b)
	l.V = string(b)
	return nil
}

// LY: the other way round, different receivers
type LY struct{ V string }

func (l *LY) MarshalJSON() ([]byte, error) {
	hcall("LY.MarshalJSON", l.V, nil)
	return json.Marshal(l.V)
}
func (l *LY) UnmarshalText(b []byte) error {
	hcall("LY.UnmarshalText", l.V, b)
	l.V = string(b)
	return nil
}

// kinds other than struct
type LI int

func (l LI) MarshalJSON() ([]byte, error) {
	hcall("LI.MarshalJSON", strconv.Itoa(int(l)), nil)
	return []byte("-" + strconv.Itoa(int(l)+1)), nil
}
func (l *LI) UnmarshalJSON(b []byte) error {
	hcall("LI.UnmarshalJSON", strconv.Itoa(int(*l)), b)
	*l++
	return nil
}

type LS []string

func (l LS) MarshalJSON() ([]byte, error) {
	hcall("LS.MarshalJSON", fmt.Sprint(l == nil, l), nil)
	return json.Marshal(len(l))
}
func (l *LS) UnmarshalJSON(b []byte) error {
	hcall("LS.UnmarshalJSON", fmt.Sprint(*l), b)
	*l = append(LS(nil), append(*l, string(b))...)
	return nil
}

type LM map[string]string

func (l LM) MarshalText() ([]byte, error) {
	hcall("LM.MarshalText", fmt.Sprint(l == nil, l), nil)
	return []byte("map" + strconv.Itoa(len(l))), nil
}
func (l *LM) UnmarshalText(b []byte) error {
	hcall("LM.UnmarshalText", fmt.Sprint(*l), b)
	*l = LM{"t": string(b)}
	return nil
}

// LV: value receiver unmarshaler (the map is shared)
type LV map[string]string

func (l LV) UnmarshalJSON(b []byte) error {
	hcall("LV.UnmarshalJSON", fmt.Sprint(l == nil), b)
	if l != nil {
		l["got"] = string(b)
	}
	return nil
}

// LF: function and channel kinds with hooks
type LF func()

func (l LF) MarshalText() ([]byte, error) {
	hcall("LF.MarshalText", fmt.Sprint(l == nil), nil)
	return []byte("func"), nil
}
func (l *LF) UnmarshalText(b []byte) error {
	hcall("LF.UnmarshalText", fmt.Sprint(*l == nil), b)
	return nil
}

type LC chan int

func (l LC) MarshalJSON() ([]byte, error) {
	hcall("LC.MarshalJSON", fmt.Sprint(l == nil), nil)
	return []byte("[]"), nil
}
func (l *LC) UnmarshalJSON(b []byte) error {
	hcall("LC.UnmarshalJSON", fmt.Sprint(*l == nil), b)
	return nil
}

// LD is stored directly in an interface word
type LD struct{ p *int }

func (l LD) s() string {
	if l.p == nil {
		return "nil"
	}
	return strconv.Itoa(*l.p)
}
func (l LD) MarshalText() ([]byte, error) {
	hcall("LD.MarshalText", l.s(), nil)
	if l.s() == "7" {
		return nil, failing([]byte("fail!"))
	}
	return []byte("d" + l.s()), nil
}
func (l *LD) UnmarshalText(b []byte) error {
	hcall("LD.UnmarshalText", l.s(), b)
	n := len(b)
	l.p = &n
	return nil
}

// LE likewise with JSON hooks
type LE [1]*int

func (l LE) MarshalJSON() ([]byte, error) {
	hcall("LE.MarshalJSON", LD{l[0]}.s(), nil)
	if l[0] != nil && *l[0] == 9 {
		return nil, failing([]byte("fail!"))
	}
	return []byte(`{"e":"` + LD{l[0]}.s() + `"}`), nil
}
func (l *LE) UnmarshalJSON(b []byte) error {
	hcall("LE.UnmarshalJSON", LD{l[0]}.s(), b)
	n := len(b)
	l[0] = &n
	return nil
}

// LK: string kind as map key; on encoding the string itself is the key
type LK string

func (l LK) MarshalText() ([]byte, error) {
	hcall("LK.MarshalText", string(l), nil)
	return []byte("K" + string(l)), nil
}
func (l *LK) UnmarshalText(b []byte) error {
	hcall("LK.UnmarshalText", string(*l), b)
	*l = LK("k" + string(b))
	return failing(b)
}

// LKS: struct as map key
type LKS struct{ A string }

func (l LKS) MarshalText() ([]byte, error) {
	hcall("LKS.MarshalText", l.A, nil)
	return []byte("S&" + l.A), failing([]byte(l.A))
}
func (l *LKS) UnmarshalText(b []byte) error {
	hcall("LKS.UnmarshalText", l.A, b)
	l.A = string(b)
	return failing(b)
}

// LKI: integer kind as map key
type LKI int

func (l LKI) MarshalText() ([]byte, error) {
	hcall("LKI.MarshalText", strconv.Itoa(int(l)), nil)
	return []byte("i" + strconv.Itoa(int(l))), nil
}
func (l *LKI) UnmarshalText(b []byte) error {
	hcall("LKI.UnmarshalText", strconv.Itoa(int(*l)), b)
	*l = LKI(len(b))
	return nil
}

// promoted hooks
type LEmbed struct {
	LJ
	X int
}
type LEmbedT struct {
	LT
	X int
}
type LEmbedP struct {
	*LJ
	X int
}
type LIfaces struct {
	J json.Marshaler
	T encoding.TextMarshaler
	E interface{}
	X TextX
	O json.Marshaler `json:",omitempty"`
	M map[encoding.TextMarshaler]int
}
type TextX interface {
	encoding.TextMarshaler
	X()
}

func (LT) X()  {}
func (*LQ) X() {}

type LOmit struct {
	A LJ  `json:",omitempty"`
	B *LJ `json:",omitempty"`
	C LS  `json:",omitempty"`
	D LM  `json:",omitempty"`
	E LI  `json:",omitempty"`
	F LD  `json:",omitempty"`
	G LE  `json:",omitempty"`
	H LF  `json:",omitempty"`
	I LC  `json:",omitempty"`
	J LV  `json:",omitempty"`
	K LB  `json:",omitempty"`
	L *LT `json:",omitempty"`
	M LK  `json:",omitempty"`
}

// LUn: destinations behind interfaces
type LUn struct {
	J json.Unmarshaler
	T encoding.TextUnmarshaler
	E interface{}
	F interface{}
}

var lTypes = []reflect.Type{tOf(LJ{}), tOf(LJ{}), tOf(LT{}), tOf(LT{}), tOf(LB{}), tOf(LX{}), tOf(LI(0)), tOf(LS{}), tOf(LM{}), tOf(LV{}), tOf(LF(nil)), tOf(LC(nil)), tOf(LD{}), tOf(LE{}), tOf(LK("")), tOf(LEmbed{}), tOf(LEmbedT{}), tOf(LKS{}), tOf(LKI(0))}
var lPRTypes = []reflect.Type{tOf(LP{}), tOf(LQ{}), tOf(LY{})}
var lKeys = []reflect.Type{tOf(LK("")), tOf(LKS{}), tOf(LKI(0)), tOf(""), tOf(0)}
var lStrs = []string{"", "a", "b", "<&>", "é", "long value 0123456789", "\u2028\n"}

func lStr(r *Rand) string {
	if r.P(2) {
		return "fail!"
	}
	return r.Str(lStrs)
}

// lText gives a text for a hook type: JSON hooks take everything, text hooks
// want strings
func lText(text bool) func(r *Rand) string {
	return func(r *Rand) string {
		if text || r.P(30) {
			if r.P(2) {
				return r.Str([]string{"5", "{}", "[]", "true"})
			}
			if r.P(2) {
				return `"fail!"`
			}
			return string(genStringLit(r, false))
		}
		g := TG{R: r, MaxDepth: 3, Budget: 6, WS: 30}
		g.value(0)
		return string(g.b)
	}
}

func setV(v reflect.Value, r *Rand) { v.Field(0).SetString(lStr(r)) }

func init() {
	j, t := lText(false), lText(true)
	for typ, s := range map[reflect.Type]typeSpec{
		tOf(LJ{}): {setV, j}, tOf(LT{}): {setV, t}, tOf(LB{}): {setV, j}, tOf(LX{}): {setV, j},
		tOf(LP{}): {setV, j}, tOf(LQ{}): {setV, t}, tOf(LY{}): {setV, t}, tOf(LKS{}): {setV, t},
		tOf(LI(0)):     {func(v reflect.Value, r *Rand) { v.SetInt(int64(r.Intn(3))) }, j},
		tOf(LKI(0)):    {func(v reflect.Value, r *Rand) { v.SetInt(int64(r.Intn(3))) }, t},
		tOf(LK("")):    {func(v reflect.Value, r *Rand) { v.SetString(lStr(r)) }, t},
		tOf(LS{}):      {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf([]LS{nil, {}, {"a"}}[r.Intn(3)])) }, j},
		tOf(LM{}):      {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf([]LM{nil, {}, {"a": "b"}}[r.Intn(3)])) }, t},
		tOf(LV{}):      {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf([]LV{nil, {}, {"a": "b"}}[r.Intn(3)])) }, j},
		tOf(LF(nil)):   {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf([]LF{nil, func() {}}[r.Intn(2)])) }, t},
		tOf(LC(nil)):   {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf([]LC{nil, make(LC)}[r.Intn(2)])) }, j},
		tOf(LD{}):      {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LD{intP(r)})) }, t},
		tOf(LE{}):      {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LE{intP(r)})) }, j},
		tOf(LEmbed{}):  {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LEmbed{LJ{V: lStr(r)}, r.Intn(4)})) }, j},
		tOf(LEmbedT{}): {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LEmbedT{LT{V: lStr(r)}, r.Intn(4)})) }, t},
		tOf(LEmbedP{}): {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LEmbedP{&LJ{V: lStr(r)}, r.Intn(4)})) }, j},
		tOf(LIfaces{}): {func(v reflect.Value, r *Rand) {
			x := LIfaces{}
			one := func() interface{} {
				return []interface{}{LJ{V: lStr(r)}, &LJ{V: lStr(r)}, &LP{V: lStr(r)}, (*LP)(nil), LI(3), LS(nil), LE{}, LE{intP(r)}, LB{V: lStr(r)}, LC(nil)}[r.Intn(10)]
			}
			txt := func() interface{} {
				return []interface{}{LT{V: lStr(r)}, &LT{V: lStr(r)}, &LQ{V: lStr(r)}, (*LQ)(nil), LD{}, LD{intP(r)}, LM(nil), LK("x"), LKI(4), LX{V: lStr(r)}, LB{V: lStr(r)}}[r.Intn(11)]
			}
			if r.P(80) {
				x.J = one().(json.Marshaler)
			}
			if r.P(80) {
				x.T = txt().(encoding.TextMarshaler)
			}
			if r.P(40) {
				x.E = one()
			} else if r.P(60) {
				x.E = txt()
			}
			if r.P(80) {
				x.X = []TextX{LT{V: lStr(r)}, &LT{V: lStr(r)}, &LQ{V: lStr(r)}, (*LQ)(nil)}[r.Intn(4)]
			}
			if r.P(60) {
				x.O = one().(json.Marshaler)
			}
			if r.P(50) {
				x.M = map[encoding.TextMarshaler]int{}
				for n := r.Intn(2); n >= 0; n-- {
					x.M[[]encoding.TextMarshaler{LT{V: lStr(r)}, &LT{V: "x"}, &LQ{V: lStr(r)}, LD{}, LK("k"), LKI(n)}[r.Intn(6)]] = n
					n--
				}
			}
			v.Set(reflect.ValueOf(x))
		}, j},
		tOf(LUn{}): {func(v reflect.Value, r *Rand) {
			x := LUn{J: &LJ{V: "j"}, T: &LT{V: "t"}}
			if r.Bool() {
				x.J = &LP{V: "p"}
			}
			if r.Bool() {
				x.T = &LQ{V: "q"}
			}
			e := func() interface{} {
				lj := &LJ{V: "lj"}
				return []interface{}{&LJ{V: "e"}, &lj, &LT{V: "f"}, LJ{V: "no"}, LS{"x"}, nil, new(LI), &LV{"a": "b"}, &LUn{J: &LJ{V: "deep"}}}[r.Intn(9)]
			}
			x.E, x.F = e(), e()
			v.Set(reflect.ValueOf(x))
		}, func(r *Rand) string {
			var b bytes.Buffer
			b.WriteByte('{')
			n := 0
			for _, k := range []string{"J", "T", "E", "F"} {
				if r.P(75) {
					if n > 0 {
						b.WriteByte(',')
					}
					n++
					x := j(r)
					if k == "T" {
						x = t(r)
					}
					if r.P(10) {
						x = "null"
					}
					b.WriteString(`"` + k + `": ` + x)
				}
			}
			b.WriteByte('}')
			return b.String()
		}},
	} {
		specs[typ] = s
	}
}

// lType builds a type around logging hooks
func lType(r *Rand, pr, key bool, d int) reflect.Type {
	leaf := func() reflect.Type {
		if pr && r.P(25) {
			return lPRTypes[r.Intn(len(lPRTypes))]
		}
		if r.P(12) {
			return []reflect.Type{tOf(0), tOf(""), tOf([]byte{}), efaceType}[r.Intn(4)]
		}
		return lTypes[r.Intn(len(lTypes))]
	}
	if d <= 0 {
		return leaf()
	}
	switch r.Intn(10) {
	case 0, 1:
		return leaf()
	case 2:
		return reflect.SliceOf(lType(r, pr, key, d-1))
	case 3:
		return reflect.ArrayOf(r.Range(1, 3), lType(r, pr, key, d-1))
	case 4:
		k := lKeys[r.Intn(len(lKeys))]
		if key && r.P(20) {
			k = []reflect.Type{tOf(LB{}), tOf(LD{})}[r.Intn(2)]
		}
		return reflect.MapOf(k, lType(r, false, key, d-1))
	case 5, 6:
		return reflect.PtrTo(lType(r, pr, key, d-1))
	}
	var fs []reflect.StructField
	n := r.Range(1, 4)
	if r.P(10) {
		n = 12
	}
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: lType(r, pr, key, d-1)}
		if r.P(25) {
			f.Tag = `json:",omitempty"`
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func takeLog() []string {
	l := hlog
	hlog = nil
	hfail = nil
	return l
}

func showLog(l []string) string { return clip(strings.Join(l, "\n   "), 1500) }

// insideUse uses the library inside hooks
func insideUse(r *Rand) func(b []byte) {
	return func(b []byte) {
		if r.P(50) {
			return
		}
		saved := hlog
		hook := hookInside
		hookInside = nil
		switch r.Intn(5) {
		case 0:
			var x interface{}
			jzon.Unmarshal([]byte(`{"in":["side",1,{"x":null}]}`), &x)
		case 1:
			out, err := jzon.Marshal(map[string]interface{}{"in": []interface{}{"<side>", 1, LJ{V: "x"}}})
			if err != nil || string(out) != `{"in":["\u003cside\u003e",1,["x"]]}` {
				panic(failure{fmt.Sprintf("Marshal inside a hook gives %q %v", out, err)})
			}
		case 2:
			var x struct{ A []LJ }
			err := jzon.UnmarshalFromReader(genReader(r, []byte(`{"a":[1,[2,3],{"x":"`+strings.Repeat("y", r.Intn(300))+`"}]}`)), &x)
			if err != nil || len(x.A) != 3 || x.A[1].V != "[2,3]" {
				panic(failure{fmt.Sprintf("Unmarshal inside a hook gives %v %v", x, err)})
			}
		case 3:
			it := jzon.NewIterator()
			it.Reset(genReader(r, []byte(`[1,"zzzzzzzzzzzzzzzz\n",{}]`)))
			it.SkipRaw()
			it.Release()
		case 4:
			d := jzon.NewDecoder(genReader(r, []byte(`1 "two" [3]`)))
			d.UseNumber()
			var x interface{}
			for d.Decode(&x) == nil {
			}
			d.Release()
		}
		hookInside = hook
		hlog = saved
	}
}

func isPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

var lDecRoots = []reflect.Type{tOf(LUn{}), tOf(LUn{}), tOf(LOmit{}), tOf([]LUn{}), tOf(LEmbedP{})}

func engHooksDec(c *C) {
	r := c.R
	t := lType(r, r.Bool(), false, r.Range(1, 3))
	if r.P(15) {
		t = lDecRoots[r.Intn(len(lDecRoots))]
	}
	cfg := rot.D()
	for i := 0; i < 3; i++ {
		text := textFor(r, t, []int{0, 0, 3, 8}[r.Intn(4)], false)
		if r.P(10) {
			text = padText(r, text)
		}
		if refDoc(text) == nil {
			continue
		}
		seed := uint64(0)
		if r.P(40) || strings.Contains(t.String(), "LUn") || strings.Contains(t.String(), "LEmbedP") {
			seed = r.U64() | 1
		}
		std, jz := reflect.New(t), reflect.New(t)
		prefill(std.Elem(), seed)
		prefill(jz.Elem(), seed)
		hlog = nil
		stdE := json.Unmarshal(text, std.Interface())
		want := takeLog()
		rt := typedRoutes[r.Intn(len(typedRoutes))]
		c.NoteB("hooks: "+rt.name+" into "+typeStr(t)+" of ", text)
		inside := r.P(40)
		if inside {
			hookInside = insideUse(r.Fork())
		}
		jzE := rt.f(cfg, append([]byte(nil), text...), r.Fork(), jz.Interface())
		hookInside = nil
		failed := hfail
		got := takeLog()
		ctx := func() string {
			return fmt.Sprintf("%s into %s\n input %s\n expected calls\n   %s\n calls\n   %s", rt.name, typeStr(t), q(text), showLog(want), showLog(got))
		}
		lax := stdE == nil && jzE != nil && laxText(text)
		// encoding/json decodes the value of a map entry before its key, this
		// library in document order (see hooks-order)
		keyed := strings.Contains(t.String(), "map[main.L")
		if keyed {
			sort.Strings(want)
			sort.Strings(got)
		}
		if !lax {
			judgeTyped(c, rt.name, t, text, stdE, jzE, std, jz)
			// the elements which a second member meets in a slice
			n := refDoc(text)
			dup := n == nil || dupKeys(n) && anySlice(t, 0, map[reflect.Type]bool{})
			if jzE == nil {
				if !dup && (len(want) != len(got) || !isPrefix(got, want)) {
					c.Failf("hook calls differ: %s", ctx())
				}
				c.FeatIf(len(got) > 0, "decode hooks called")
				c.FeatIf(inside && len(got) > 0, "library used inside hooks")
			} else if !keyed && !dup {
				// encoding/json goes on after the first error
				if !isPrefix(got, want) {
					c.Failf("hook calls before an error differ: %s", ctx())
				}
				if len(failed) > 0 {
					if failed[0] != len(got) {
						c.Failf("hooks are called after call %d has failed: %s", failed[0], ctx())
					}
					c.Feat("decode hook failed")
					if !strings.Contains(jzE.Error(), errHookFail.Error()) {
						c.Failf("the error of the hook is not reported (%v): %s", jzE, ctx())
					}
					if rt.name == "Iterator.ReadVal" && jzE != errHookFail || rt.name == "Decoder" && jzE != errHookFail {
						c.Failf("the error of the hook is changed to %v: %s", jzE, ctx())
					}
				}
			}
		}
		c.Seen(mix(hash64(text), hashStr(t.String())), len(want) > 0)
		c.Sample("%s into %s: %s", q(text), typeStr(t), showLog(want))
	}
}

var lEncRoots = []reflect.Type{tOf(LIfaces{}), tOf(LIfaces{}), tOf([]LIfaces{}), tOf(LOmit{}), tOf(LOmit{}), tOf(LEmbedP{}), tOf(map[LD]int{}), tOf(map[encoding.TextMarshaler]LJ{}), tOf(map[LB]LB{}), tOf(map[*LT]int{}), tOf(map[*LQ]int{})}

func engHooksEnc(c *C) {
	r := c.R
	pr := r.Bool()
	t := lType(r, pr, true, r.Range(1, 3))
	if r.P(25) {
		t = lEncRoots[r.Intn(len(lEncRoots))]
		pr = false
	}
	cfg := rot.E()
	for i := 0; i < 3; i++ {
		g := VG{R: r, OneEntry: r.P(70)}
		v := reflect.New(t).Elem()
		if !r.P(5) || t == tOf(LEmbedP{}) {
			g.fill(v)
		}
		switch t {
		case tOf(map[encoding.TextMarshaler]LJ{}):
			m := map[encoding.TextMarshaler]LJ{}
			m[[]encoding.TextMarshaler{LT{V: lStr(r)}, LK("z"), LKI(2), &LQ{V: "q"}, (*LQ)(nil), LD{}, LD{intP(r)}}[r.Intn(7)]] = LJ{V: lStr(r)}
			v.Set(reflect.ValueOf(m))
		case tOf(map[*LQ]int{}):
			v.Set(reflect.ValueOf(map[*LQ]int{[]*LQ{nil, {V: "k"}}[r.Intn(2)]: 1}))
		case tOf(map[*LT]int{}):
			v.Set(reflect.ValueOf(map[*LT]int{[]*LT{nil, {V: "k"}}[r.Intn(2)]: 1}))
		}
		exact := g.OneEntry
		root, how := rootOf(r, v, pr)
		html := r.P(70)
		rt := encRoutes[r.Intn(4)]
		if !rt.both {
			html = true
		}
		c.Note("hooks: encode with %s a %s of type %s: %s", rt.name, how, typeStr(t), clip(fmt.Sprintf("%+v", v), 1500))
		hlog = nil
		a, aErr := stdEncode(root, html)
		want := takeLog()
		inside := r.P(40)
		if inside {
			hookInside = insideUse(r.Fork())
		}
		b, bErr := rt.f(cfg, root, html)
		hookInside = nil
		failed := hfail
		got := takeLog()
		desc := func() string {
			return how + " of " + typeStr(t) + " " + clip(fmt.Sprintf("%+v", v), 600) + "\n expected calls\n   " + showLog(want) + "\n calls\n   " + showLog(got)
		}
		judgeEnc(c, rt.name, desc, exact, a, aErr, b, bErr)
		if len(failed) > 0 {
			if failed[0] != len(got) {
				c.Failf("hooks are called after call %d has failed: %s", failed[0], desc())
			}
			c.Feat("encode hook failed")
			if bErr == nil || !strings.Contains(bErr.Error(), errHookFail.Error()) {
				c.Failf("the error of the hook is not reported (%v): %s", bErr, desc())
			}
		}
		if bErr == nil {
			if !exact {
				sort.Strings(want)
				sort.Strings(got)
			}
			if len(want) != len(got) || !isPrefix(got, want) {
				// encoding/json calls the key hook before the value hooks of a
				// map; so does this library
				c.Failf("hook calls differ: %s", desc())
			}
			c.FeatIf(len(got) > 0, "encode hooks called")
			c.FeatIf(inside && len(got) > 0, "library used inside hooks")
		} else if exact {
			if !isPrefix(got, want) {
				c.Failf("hook calls before an error differ: %s", desc())
			}
		}
		c.Seen(mix(hash64(a), hashStr(t.String()+how)), len(want) > 0)
	}
}

// ---- hooks which write and read exact texts ----

// rawOut writes what it holds
type rawOut struct{ b []byte }

func (o rawOut) MarshalJSON() ([]byte, error) { return o.b, nil }

// engHooksVerbatim: output of hooks in place
func engHooksVerbatim(c *C) {
	r := c.R
	g := TG{R: r, MaxDepth: 3, Budget: 8, WS: 25, BadUTF8: r.P(10)}
	g.value(0)
	raw := g.b
	txt := genGoString(r, true)
	v := rawOut{raw}
	x := textOut{txt}
	html := r.Bool()
	qs := strText(txt, html)
	type S struct {
		A rawOut
		B *rawOut
		C textOut
		D *textOut
		E interface{}
		M map[string]rawOut
		L []rawOut
		P [1]*textOut
	}
	val := S{v, &v, x, &x, v, map[string]rawOut{"k": v}, []rawOut{v, v}, [1]*textOut{&x}}
	var want bytes.Buffer
	fmt.Fprintf(&want, `{"A":%s,"B":%s,"C":%s,"D":%s,"E":%s,"M":{"k":%s},"L":[%s,%s],"P":[%s]}`, raw, raw, qs, qs, raw, raw, raw, raw, qs)
	var w bytes.Buffer
	s := jzon.NewStreamer()
	s.Reset(&w)
	s.EscapeHTML(html)
	var root interface{} = val
	if r.Bool() {
		root = &val
	}
	err := s.Value(root).Flush()
	s.Release()
	if err != nil || !bytes.Equal(normEsc(w.Bytes()), normEsc(want.Bytes())) {
		c.Failf("hook output %s / %q: got %s %v, want %s", q(raw), txt, q(w.Bytes()), err, q(want.Bytes()))
	}
	c.Feat("verbatim")
	c.SeenB(want.Bytes(), true)
	// and reading: the unmarshaler sees exactly these bytes
	var back struct {
		A, B keepJ
		E    *keepJ
		M    map[string]keepJ
		L    []keepJ
		C, D keepT
		P    []keepT
	}
	rd := append([]byte(nil), w.Bytes()...)
	var derr error
	if r.Bool() {
		derr = jzon.UnmarshalFromReader(genReader(r, rd), &back)
	} else {
		derr = jzon.Unmarshal(rd, &back)
	}
	if derr != nil {
		c.Failf("reading %s back: %v", q(rd), derr)
	}
	isNull := string(raw) == "null"
	for i, k := range [][]byte{back.A.B, back.B.B, back.M["k"].B, back.L[0].B, back.L[1].B} {
		if !bytes.Equal(k, raw) {
			c.Failf("unmarshaler %d was given %s instead of %s", i, q(k), q(raw))
		}
	}
	if isNull != (back.E == nil) || !isNull && !bytes.Equal(back.E.B, raw) {
		c.Failf("pointer unmarshaler got %+v instead of %s", back.E, q(raw))
	}
	for i, k := range []string{back.C.S, back.D.S, back.P[0].S} {
		if k != toValid(txt) {
			c.Failf("text unmarshaler %d was given %q instead of %q", i, k, txt)
		}
	}
	_ = io.EOF
}

// engHooksOrder: calls in document order, the expectation comes from the
// reference reader
func engHooksOrder(c *C) {
	r := c.R
	var want []string
	var b bytes.Buffer
	ws := func() {
		if r.P(20) {
			b.WriteString(r.Str([]string{" ", "\n", "\t\t", "  \r"}))
		}
	}
	raw := func() string {
		g := TG{R: r, MaxDepth: 2, Budget: 5, WS: 30}
		g.value(0)
		return strings.Trim(string(g.b), " \t\r\n")
	}
	elem := func() {
		x := raw()
		want = append(want, "LJ.UnmarshalJSON(0) <- "+x)
		b.WriteString(x)
	}
	b.WriteByte('{')
	n := r.Range(1, 5)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(',')
		}
		ws()
		k := strconv.Itoa(i) + r.Str(lStrs)
		want = append(want, "LKS.UnmarshalText() <- "+k)
		kb, _ := json.Marshal(k)
		b.Write(kb)
		ws()
		b.WriteByte(':')
		ws()
		b.WriteString(`{"a":`)
		ws()
		elem()
		ws()
		b.WriteString(`,"l":[`)
		for j := r.Intn(4); j > 0; j-- {
			elem()
			ws()
			if j > 1 {
				b.WriteByte(',')
				ws()
			}
		}
		b.WriteString(`],"z":`)
		x := lit(r)
		want = append(want, "LT.UnmarshalText(0) <- "+x.s)
		b.Write(x.lit)
		b.WriteString(`}`)
		ws()
	}
	b.WriteByte('}')
	type val struct {
		A LJ
		L []LJ
		Z LT
	}
	dst := map[LKS]*val{}
	hlog = nil
	rt := typedRoutes[r.Intn(len(typedRoutes))]
	c.NoteB("hook order: "+rt.name+" of ", b.Bytes())
	if r.P(30) {
		hookInside = insideUse(r.Fork())
	}
	err := rt.f(jzon.DefaultDecoderConfig, b.Bytes(), r.Fork(), &dst)
	hookInside = nil
	got := takeLog()
	if err != nil || len(got) != len(want) || !isPrefix(got, want) {
		c.Failf("%s of %s: error %v\n expected calls\n   %s\n calls\n   %s", rt.name, q(b.Bytes()), err, showLog(want), showLog(got))
	}
	if len(dst) != n {
		c.Failf("%s of %s gives %d entries", rt.name, q(b.Bytes()), len(dst))
	}
	c.Feat("document order")
	c.SeenB(b.Bytes(), true)
}

type litS struct {
	lit []byte
	s   string
}

func lit(r *Rand) litS {
	for {
		b := genStringLit(r, false)
		if n := refDoc(b); n != nil && n.K == KStr && !strings.Contains(n.S, "fail!") {
			return litS{b, n.S}
		}
	}
}

func init() {
	reg("hooks-order", engHooksOrder, "document order")
	reg("hooks-dec", engHooksDec, "decode hooks called", "library used inside hooks", "decode hook failed", "both accept", "both refuse")
	reg("hooks-enc", engHooksEnc, "encode hooks called", "library used inside hooks", "encode hook failed", "both accept", "both refuse")
	reg("hooks-verbatim", engHooksVerbatim, "verbatim")
	prop(&Prop{ID: "C19", Level: "exploration",
		Rule:        "each case is a generated type around logging hook types (JSON and text, value and pointer receivers, all kinds, map keys, embedded, behind pointers and interfaces), an initial content and a text or value; the recorded log of hook calls (which hook, receiver content, exact bytes, order) and the result are compared with those of encoding/json, hooks using the library themselves in part of the runs; a case is non-trivial when a hook was called",
		Assumptions: []string{"encoding/json of go1.23 calls hooks as specified; after its first error only a prefix of its calls is expected, because it goes on"},
		Variants:    plain(Run{"hooks-dec", 240000, 4000000}, Run{"hooks-enc", 240000, 4000000}, Run{"hooks-verbatim", 40000, 1000000}, Run{"hooks-order", 40000, 1000000}),
	})
}
