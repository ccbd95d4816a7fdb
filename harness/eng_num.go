package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"reflect"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// ---- reading integers ----

type intRd struct {
	bits   int
	signed bool
	read   func(it *jzon.Iterator) (*big.Int, error)
	typ    reflect.Type
	name   string
}

func bi(v int64) *big.Int  { return big.NewInt(v) }
func bu(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

var intRds = []intRd{
	{8, true, func(it *jzon.Iterator) (*big.Int, error) { v, e := it.ReadInt8(); return bi(int64(v)), e }, tOf(int8(0)), "Int8"},
	{16, true, func(it *jzon.Iterator) (*big.Int, error) { v, e := it.ReadInt16(); return bi(int64(v)), e }, tOf(int16(0)), "Int16"},
	{32, true, func(it *jzon.Iterator) (*big.Int, error) { v, e := it.ReadInt32(); return bi(int64(v)), e }, tOf(int32(0)), "Int32"},
	{64, true, func(it *jzon.Iterator) (*big.Int, error) { v, e := it.ReadInt64(); return bi(v), e }, tOf(int64(0)), "Int64"},
	{strconv.IntSize, true, func(it *jzon.Iterator) (*big.Int, error) { v, e := it.ReadInt(); return bi(int64(v)), e }, tOf(int(0)), "Int"},
	{8, false, func(it *jzon.Iterator) (*big.Int, error) { v, e := it.ReadUint8(); return bu(uint64(v)), e }, tOf(uint8(0)), "Uint8"},
	{16, false, func(it *jzon.Iterator) (*big.Int, error) { v, e := it.ReadUint16(); return bu(uint64(v)), e }, tOf(uint16(0)), "Uint16"},
	{32, false, func(it *jzon.Iterator) (*big.Int, error) { v, e := it.ReadUint32(); return bu(uint64(v)), e }, tOf(uint32(0)), "Uint32"},
	{64, false, func(it *jzon.Iterator) (*big.Int, error) { v, e := it.ReadUint64(); return bu(v), e }, tOf(uint64(0)), "Uint64"},
	{strconv.IntSize, false, func(it *jzon.Iterator) (*big.Int, error) { v, e := it.ReadUint(); return bu(uint64(v)), e }, tOf(uint(0)), "Uint"},
	{strconv.IntSize, false, nil, tOf(uintptr(0)), "Uintptr"},
	{strconv.IntSize, true, nil, tOf(NInt(0)), "NInt"},
	{8, true, nil, tOf(NInt8(0)), "NInt8"},
	{16, false, nil, tOf(NUint16(0)), "NUint16"},
}

// wantInt is the value an integer literal must give in the given width
func wantInt(lit string, bits int, signed bool) (*big.Int, bool) {
	for i := 0; i < len(lit); i++ {
		if !(isDig(lit[i]) || i == 0 && lit[i] == '-') {
			return nil, false
		}
	}
	v, ok := new(big.Int).SetString(lit, 10)
	if !ok {
		return nil, false
	}
	lo, hi := new(big.Int), new(big.Int)
	if signed {
		hi.Lsh(big.NewInt(1), uint(bits-1))
		lo.Neg(hi)
	} else {
		hi.Lsh(big.NewInt(1), uint(bits))
		if lit[0] == '-' {
			return nil, false // as encoding/json, even for -0
		}
	}
	if v.Cmp(lo) < 0 || v.Cmp(hi) >= 0 {
		return nil, false
	}
	return v, true
}

func bigOf(v reflect.Value) *big.Int {
	if v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64 {
		return bi(v.Int())
	}
	return bu(v.Uint())
}

// contexts in which a typed number is decoded
var numCtxs = []struct {
	name string
	mk   func(t reflect.Type) reflect.Type
	text func(lit string) string
	get  func(v reflect.Value) reflect.Value
	key  bool
}{
	{"root", func(t reflect.Type) reflect.Type { return t }, func(l string) string { return l }, func(v reflect.Value) reflect.Value { return v }, false},
	{"root ws", func(t reflect.Type) reflect.Type { return t }, func(l string) string { return "\n " + l + " \t" }, func(v reflect.Value) reflect.Value { return v }, false},
	{"slice", reflect.SliceOf, func(l string) string { return "[" + l + "]" }, func(v reflect.Value) reflect.Value { return v.Index(0) }, false},
	{"slice 2", reflect.SliceOf, func(l string) string { return "[1, " + l + " ,2]" }, func(v reflect.Value) reflect.Value { return v.Index(1) }, false},
	{"array", func(t reflect.Type) reflect.Type { return reflect.ArrayOf(2, t) }, func(l string) string { return "[" + l + ",1]" }, func(v reflect.Value) reflect.Value { return v.Index(0) }, false},
	{"map value", func(t reflect.Type) reflect.Type { return reflect.MapOf(tOf(""), t) }, func(l string) string { return `{"a":` + l + `}` }, func(v reflect.Value) reflect.Value { return v.MapIndex(reflect.ValueOf("a")) }, false},
	{"pointer", func(t reflect.Type) reflect.Type { return reflect.PtrTo(reflect.PtrTo(t)) }, func(l string) string { return l }, func(v reflect.Value) reflect.Value { return v.Elem().Elem() }, false},
	{"field", func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "F", Type: t}})
	}, func(l string) string { return `{"F":` + l + `}` }, func(v reflect.Value) reflect.Value { return v.Field(0) }, false},
	{"quoted field", func(t reflect.Type) reflect.Type {
		return reflect.StructOf([]reflect.StructField{{Name: "G", Type: tOf(0)}, {Name: "F", Type: t, Tag: `json:"f,string"`}})
	}, func(l string) string { return `{"f":"` + l + `","G":1}` }, func(v reflect.Value) reflect.Value { return v.Field(1) }, true},
	{"map key", func(t reflect.Type) reflect.Type { return reflect.MapOf(t, tOf(0)) }, func(l string) string { return `{"` + l + `":1}` }, func(v reflect.Value) reflect.Value { return v.MapKeys()[0] }, true},
}

func isPlainNum(s string) bool { return refNumber([]byte(s), 0) == len(s) && s != "" }

func judgeInt(c *C, lit string) {
	r := c.R
	if lit == "" || strings.ContainsAny(lit, " \t\r\n,[]{}:\"\\ntf") {
		return
	}
	c.Note("integer literal %q", clip(lit, 200))
	it, _ := anyIter(c.R)
	defer it.Release()
	valid := isPlainNum(lit)
	for _, rd := range intRds {
		want, ok := wantInt(lit, rd.bits, rd.signed)
		ok = ok && valid
		if rd.read != nil {
			term := []string{"", " ", ",", "]", "}", "\n", "\t", ", 5"}[r.Intn(8)]
			text := []byte([]string{"", " ", "\n\t  "}[r.Intn(3)] + lit + term)
			n := refPrefix(text, 0)
			wv, wok := want, ok
			if n == nil {
				wok = false
			} else if n.Num != lit { // e.g. 012 is 0 followed by 12
				wv, wok = wantInt(n.Num, rd.bits, rd.signed)
			}
			s := openSrc(it, text, r, r.Bool())
			got, err := rd.read(it)
			if (err == nil) != wok {
				c.Failf("Read%s of %q: %v, %v; expected success %v", rd.name, text, got, err, wok)
			}
			if wok {
				if got.Cmp(wv) != 0 {
					c.Failf("Read%s of %q gives %v", rd.name, text, got)
				}
				if p := s.pos(it); p != n.End {
					c.Failf("Read%s of %q ends at %d", rd.name, text, p)
				}
				c.Feat("integer accepted")
			} else {
				c.Feat("integer refused")
			}
			c.Seen(mix(hash64(text), hashStr(rd.name)), true)
		}
		cx := numCtxs[r.Intn(len(numCtxs))]
		if cx.key && bytes.ContainsAny([]byte(lit), "\"\\\x00\x1f\n\t") {
			continue
		}
		t := cx.mk(rd.typ)
		dst := reflect.New(t)
		text := []byte(cx.text(lit))
		wok := ok && refDoc(text) != nil
		var err error
		rt := typedRoutes[r.Intn(len(typedRoutes))]
		err = rt.f(jzon.DefaultDecoderConfig, text, r.Fork(), dst.Interface())
		if (err == nil) != wok {
			if lit == "" && cx.name == "map key" || cx.key && lit == "null" || refDoc(text) != nil && !cx.key && refDoc(text).K == KNull {
				continue
			}
			c.Failf("%s of %s as %s (%s): error %v, expected success %v, value %s", rt.name, q(text), t, cx.name, err, wok, show(dst.Elem()))
		}
		if wok {
			if got := bigOf(cx.get(dst.Elem())); got.Cmp(want) != 0 {
				c.Failf("%s of %s as %s (%s) gives %v", rt.name, q(text), t, cx.name, got)
			}
		}
		c.Feat("context " + cx.name)
		c.Seen(mix(hash64(text), hashStr(rd.name+cx.name)), true)
	}
}

// engNumInt: literals at and around every boundary
func engNumInt(c *C) {
	r := c.R
	for k := 0; k < 4; k++ {
		var lit string
		switch r.Intn(10) {
		case 0:
			lit = r.Str(boundInts)
		case 1, 2: // around a power of two or ten, any width
			v := new(big.Int)
			if r.Bool() {
				v.Lsh(big.NewInt(1), uint(r.Intn(70)))
			} else {
				v.Exp(big.NewInt(10), big.NewInt(int64(r.Intn(23))), nil)
			}
			v.Add(v, big.NewInt(int64(r.Intn(9)-4)))
			if r.Bool() {
				v.Neg(v)
			}
			lit = v.String()
		case 3: // multiples of the limits: a wrap-around would look small
			v := new(big.Int).Lsh(big.NewInt(1), uint([]int{8, 16, 32, 64}[r.Intn(4)]))
			v.Mul(v, big.NewInt(int64(r.Range(1, 40))))
			v.Add(v, big.NewInt(int64(r.Intn(300))))
			if r.P(30) {
				v.Neg(v)
			}
			lit = v.String()
		case 4: // digits times ten of a limit
			v := new(big.Int).Lsh(big.NewInt(1), uint([]int{7, 8, 15, 16, 31, 32, 63, 64}[r.Intn(8)]))
			v.Div(v, big.NewInt(10))
			v.Add(v, big.NewInt(int64(r.Intn(5)-2)))
			v.Mul(v, big.NewInt(10))
			v.Add(v, big.NewInt(int64(r.Intn(10))))
			if r.P(40) {
				v.Neg(v)
			}
			lit = v.String()
		case 5:
			lit = string(genNumberLit(r, true))
		case 6:
			lit = string(genNumberLike(r))
		case 7: // any number of digits
			lit = string(append([]byte{byte('1' + r.Intn(9))}, digits(r, r.Intn(30))...))
			if r.P(40) {
				lit = "-" + lit
			}
		case 8: // an integer with something behind
			lit = strconv.Itoa(r.Intn(300)-50) + r.Str([]string{".0", ".5", "e0", "E1", "e+0", ".", "e", "-", "+", ".0e0", "0x", "a", "_0", "1.0"})
		case 9:
			lit = r.Str([]string{"-", "+", "+1", "--1", "-a", "00", "01", "-01", "-00", "0", "-0", ".5", "", "1 2", "0.0", "0e0", "-0.0", "0b1", "0x10", "1_000", "Infinity", "NaN", "1e", "1e+", "-."})
		}
		judgeInt(c, lit)
		c.Sample("integer literal %q", clip(lit, 60))
	}
}

// engNumIntEx: all values of the small widths and their neighbourhood
func engNumIntEx(c *C) {
	const step = 64
	it, _ := anyIter(c.R)
	defer it.Release()
	for v := -70000 + c.Idx*step; v < -70000+c.Idx*step+step && v <= 70000; v++ {
		lit := strconv.Itoa(v)
		text := []byte(lit)
		for _, rd := range intRds[:10] {
			want, ok := wantInt(lit, rd.bits, rd.signed)
			it.ResetBytes(text)
			got, err := rd.read(it)
			if (err == nil) != ok || ok && got.Cmp(want) != 0 {
				c.Failf("Read%s of %s: %v, %v", rd.name, lit, got, err)
			}
		}
		c.SeenB(text, true)
	}
	c.Feat("exhaustive integers")
}

// ---- reading floats ----

type fctx struct{ f64, f32 interface{} }

func judgeFloat(c *C, lit string) {
	r := c.R
	if lit == "" || strings.ContainsAny(lit, " \t\r\n,[]{}:\"\\ntf") {
		return
	}
	c.Note("float literal %q", clip(lit, 200))
	valid := isPlainNum(lit)
	w64, e64 := strconv.ParseFloat(lit, 64)
	w32, e32 := strconv.ParseFloat(lit, 32)
	it := floatIter(c.R)
	defer it.Release()
	term := []string{"", " ", ",", "]", "}", "\n", "\t", ", 5"}[r.Intn(8)]
	text := []byte([]string{"", " ", "\n\t  "}[r.Intn(3)] + lit + term)
	n := refPrefix(text, 0)
	if n != nil && n.K != KNum {
		return
	}
	x64, xe64, x32, xe32 := w64, e64, w32, e32
	if n != nil && n.Num != lit {
		x64, xe64 = strconv.ParseFloat(n.Num, 64)
		x32, xe32 = strconv.ParseFloat(n.Num, 32)
	}
	judge := func(what string, ok bool, want, got float64, err error, bits int, s *src) {
		if (err == nil) != ok {
			c.Failf("%s of %s: %v, %v; expected success %v", what, q(text), got, err, ok)
		}
		if !ok {
			c.Feat("float refused")
			return
		}
		if math.Float64bits(want) != math.Float64bits(got) {
			c.Failf("%s of %s gives %v (bits %x), expected %v (bits %x)", what, q(text), got, math.Float64bits(got), want, math.Float64bits(want))
		}
		if s != nil {
			if p := s.pos(it); p != n.End {
				c.Failf("%s of %s ends at %d, expected %d", what, q(text), p, n.End)
			}
		}
		c.Feat("float accepted")
	}
	s := openSrc(it, text, r, r.Bool())
	g64, err := it.ReadFloat64()
	judge("ReadFloat64", n != nil && xe64 == nil, x64, g64, err, 64, s)
	s = openSrc(it, text, r, r.Bool())
	g32, err := it.ReadFloat32()
	judge("ReadFloat32", n != nil && xe32 == nil, x32, float64(g32), err, 32, s)
	s = openSrc(it, text, r, r.Bool())
	num, err := it.ReadNumber()
	if (err == nil) != (n != nil) || n != nil && string(num) != n.Num {
		c.Failf("ReadNumber of %s: %q, %v", q(text), num, err)
	}
	if n != nil && s.pos(it) != n.End {
		c.Failf("ReadNumber of %s ends at %d", q(text), s.pos(it))
	}
	s = openSrc(it, text, r, r.Bool())
	v, err := it.Read()
	if f, ok := v.(float64); err == nil && !ok {
		c.Failf("Read of %s: %v", q(text), v)
	} else {
		judge("Read", n != nil && xe64 == nil, x64, f, err, 64, s)
	}
	for _, t := range []reflect.Type{tOf(float64(0)), tOf(float32(0)), tOf(NFloat(0)), tOf(NFloat32(0))} {
		cx := numCtxs[r.Intn(len(numCtxs)-1)] // floats are no map keys
		if cx.key && bytes.ContainsAny([]byte(lit), "\"\\\x00\x1f\n\t") {
			continue
		}
		text = []byte(cx.text(lit))
		ok, w := valid && e64 == nil, w64
		if t.Bits() == 32 {
			ok, w = valid && e32 == nil, w32
		}
		if d := refDoc(text); d == nil {
			ok = false
		} else if cx.key && lit == "null" {
			continue
		}
		dst := reflect.New(cx.mk(t))
		rt := typedRoutes[r.Intn(len(typedRoutes))]
		err := rt.f(jzon.DefaultDecoderConfig, text, r.Fork(), dst.Interface())
		got := 0.0
		if err == nil && ok {
			got = cx.get(dst.Elem()).Float()
		}
		judge(rt.name+" as "+t.String()+" ("+cx.name+")", ok, w, got, err, t.Bits(), nil)
		c.Seen(mix(hash64(text), hashStr(t.String())), true)
	}
}

func engNumFloat(c *C) {
	r := c.R
	for k := 0; k < 6; k++ {
		var lit string
		switch r.Intn(12) {
		case 0: // exact halves between neighbours: rounding decides
			f := math.Abs(r.F64())
			b := new(big.Float).SetPrec(2000).SetFloat64(f)
			g := new(big.Float).SetPrec(2000).SetFloat64(math.Nextafter(f, math.Inf(1)))
			if g.IsInf() {
				continue
			}
			b.Add(b, g)
			b.Quo(b, big.NewFloat(2))
			lit = b.Text('e', 40+r.Intn(760))
			if e := math.Abs(math.Log10(f)); e > 60 && r.P(80) {
				lit = b.Text('e', 40)
			}
		case 1: // halves of float32
			f := r.F32()
			if f < 0 {
				f = -f
			}
			x := (float64(f) + float64(math.Nextafter32(f, math.MaxFloat32))) / 2
			lit = strconv.FormatFloat(x, 'e', -1, 64)
			if r.P(50) {
				lit = new(big.Float).SetFloat64(x).Text('e', 60)
			}
			if r.P(30) {
				lit = strconv.FormatFloat(math.Nextafter(x, math.Inf(1-2*r.Intn(2))), 'e', -1, 64)
			}
		case 2: // overflow and underflow
			lit = strconv.Itoa(r.Range(1, 99)) + "." + strconv.Itoa(r.Intn(1000)) + "e" + strconv.Itoa(r.Intn(700)-350)
		case 3:
			lit = r.Str([]string{"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1.797693134862315807e308", "3.4028234663852886e38", "3.4028235e38", "3.4028236e38", "3.40282356e38", "3.40282357e38", "3.4028235677973366e38", "3.4028235677973365e38", "4.9e-324", "2.4e-324", "2.5e-324", "1e-400", "1e400", "-1e400", "1e-45", "7e-46", "7.1e-46", "1.4e-45", "0e400", "0.0e-400", "-0", "-0.0", "-0e5", "0e-5", "1e+400", "2.2250738585072011e-308", "2.2250738585072012e-308", "9007199254740993", "9007199254740992.5", "16777217", "16777217.0", "100000000000000016777215", "100000000000000016777216", "1e10000000000", "1e-10000000000", "1e00000000001", "123456789012345678901234567890e-30"})
		case 4, 5: // the fast path: short decimals
			lit = strconv.Itoa(r.Intn(100000)) + "." + fmt.Sprintf("%0*d", r.Range(1, 10), r.Intn(100000))
			if r.Bool() {
				lit = "-" + lit
			}
		case 6: // integers as floats
			lit = string(append([]byte{byte('1' + r.Intn(9))}, digits(r, r.Intn(45))...))
			if r.P(30) {
				lit = "-" + lit
			}
		case 7:
			lit = string(genNumberLike(r))
		case 8:
			lit = "0." + string(bytes.Repeat([]byte("0"), r.Intn(40))) + string(digits(r, r.Range(1, 30)))
			if r.P(40) {
				lit += "e" + strconv.Itoa(r.Intn(80)-40)
			}
		case 9: // long ones cross the buffers
			lit = strconv.Itoa(r.Range(1, 9)) + string(digits(r, r.Range(1, 600))) + r.Str([]string{"", ".0", "e-300", "." + string(digits(r, r.Range(1, 200)))})
		case 10:
			lit = r.Str([]string{"-", "+1", ".5", "1.", "1.e5", "1e", "1e+", "1e-", "01.5", "-01", "00", "0.", "-.5", "1.5.5", "1e5e5", "1e5.5", "1.5e", "Inf", "NaN", "0x1p3", "1_0.5", "--1", "1e++5", "- 1", "1 .5", "1. 5", "1e 5", "-e5", "0e", "0E+", "-0.e"})
		default:
			lit = string(genNumberLit(r, true))
		}
		judgeFloat(c, lit)
		c.Sample("float literal %q", clip(lit, 60))
	}
}

// engNumFloatEx: all short literals over the bytes of numbers
func engNumFloatEx(c *C) {
	al := [][]byte{[]byte("0"), []byte("1"), []byte("9"), []byte("-"), []byte("+"), []byte("."), []byte("e"), []byte("E")}
	n := exCount(len(al), 6)
	per := uint64(2048)
	if c.Thorough() {
		n = exCount(len(al), 7)
	}
	it := floatIter(c.R)
	defer it.Release()
	for k := uint64(c.Idx) * per; k < uint64(c.Idx+1)*per && k < n; k++ {
		b, ok := exText(al, k)
		if !ok {
			break
		}
		want := isPlainNum(string(b))
		w, e := strconv.ParseFloat(string(b), 64)
		w32, e32 := strconv.ParseFloat(string(b), 32)
		var f float64
		if err := jzon.Unmarshal(b, &f); (err == nil) != (want && e == nil) || err == nil && math.Float64bits(f) != math.Float64bits(w) {
			c.Failf("Unmarshal(%q) as float64: %v, %v", b, f, err)
		}
		var f32 float32
		if err := jzon.Unmarshal(b, &f32); (err == nil) != (want && e32 == nil) || err == nil && math.Float32bits(f32) != math.Float32bits(float32(w32)) {
			c.Failf("Unmarshal(%q) as float32: %v, %v", b, f32, err)
		}
		var v interface{}
		if err := jzon.Unmarshal(b, &v); (err == nil) != (want && e == nil) || err == nil && math.Float64bits(v.(float64)) != math.Float64bits(w) {
			c.Failf("Unmarshal(%q) as interface: %v, %v", b, v, err)
		}
		var num json.Number
		if err := jzon.Unmarshal(b, &num); (err == nil) != want || err == nil && string(num) != string(b) {
			c.Failf("Unmarshal(%q) as Number: %v, %v", b, num, err)
		}
		if got := jzon.Valid(b); got != want {
			c.Failf("Valid(%q) = %v", b, got)
		}
		iv, iok := wantInt(string(b), 64, true)
		iok = iok && want
		var i int64
		if err := jzon.Unmarshal(b, &i); (err == nil) != iok || iok && i != iv.Int64() {
			c.Failf("Unmarshal(%q) as int64: %v, %v", b, i, err)
		}
		uv, uok := wantInt(string(b), 8, false)
		uok = uok && want
		var u uint8
		if err := jzon.Unmarshal(b, &u); (err == nil) != uok || uok && uint64(u) != uv.Uint64() {
			c.Failf("Unmarshal(%q) as uint8: %v, %v", b, u, err)
		}
		it.Reset(&chunkReader{data: b, sizes: []int{1}})
		g, err := it.ReadFloat64()
		if err == nil {
			err = readEnd(it)
		}
		if (err == nil) != (want && e == nil) || err == nil && math.Float64bits(g) != math.Float64bits(w) {
			c.Failf("ReadFloat64(%q) in single bytes: %v, %v", b, g, err)
		}
		c.SeenB(b, true)
	}
	c.Feat("exhaustive literals")
}

// ---- writing numbers ----

type numWr struct {
	name string
	std  func(u uint64) string // expected text
	wr   func(s *jzon.Streamer, u uint64)
	val  func(u uint64) interface{}
}

var numWrs = []numWr{
	{"Int8", func(u uint64) string { return strconv.FormatInt(int64(int8(u)), 10) }, func(s *jzon.Streamer, u uint64) { s.Int8(int8(u)) }, func(u uint64) interface{} { return int8(u) }},
	{"Uint8", func(u uint64) string { return strconv.FormatUint(uint64(uint8(u)), 10) }, func(s *jzon.Streamer, u uint64) { s.Uint8(uint8(u)) }, func(u uint64) interface{} { return uint8(u) }},
	{"Int16", func(u uint64) string { return strconv.FormatInt(int64(int16(u)), 10) }, func(s *jzon.Streamer, u uint64) { s.Int16(int16(u)) }, func(u uint64) interface{} { return int16(u) }},
	{"Uint16", func(u uint64) string { return strconv.FormatUint(uint64(uint16(u)), 10) }, func(s *jzon.Streamer, u uint64) { s.Uint16(uint16(u)) }, func(u uint64) interface{} { return uint16(u) }},
	{"Int32", func(u uint64) string { return strconv.FormatInt(int64(int32(u)), 10) }, func(s *jzon.Streamer, u uint64) { s.Int32(int32(u)) }, func(u uint64) interface{} { return int32(u) }},
	{"Uint32", func(u uint64) string { return strconv.FormatUint(uint64(uint32(u)), 10) }, func(s *jzon.Streamer, u uint64) { s.Uint32(uint32(u)) }, func(u uint64) interface{} { return uint32(u) }},
	{"Int64", func(u uint64) string { return strconv.FormatInt(int64(u), 10) }, func(s *jzon.Streamer, u uint64) { s.Int64(int64(u)) }, func(u uint64) interface{} { return int64(u) }},
	{"Uint64", func(u uint64) string { return strconv.FormatUint(u, 10) }, func(s *jzon.Streamer, u uint64) { s.Uint64(u) }, func(u uint64) interface{} { return u }},
	{"Int", func(u uint64) string { return strconv.FormatInt(int64(int(u)), 10) }, func(s *jzon.Streamer, u uint64) { s.Int(int(u)) }, func(u uint64) interface{} { return int(u) }},
	{"Uint", func(u uint64) string { return strconv.FormatUint(uint64(uint(u)), 10) }, func(s *jzon.Streamer, u uint64) { s.Uint(uint(u)) }, func(u uint64) interface{} { return uint(u) }},
	{"Uintptr", func(u uint64) string { return strconv.FormatUint(uint64(uintptr(u)), 10) }, nil, func(u uint64) interface{} { return uintptr(u) }},
	{"NInt", func(u uint64) string { return strconv.FormatInt(int64(NInt(u)), 10) }, nil, func(u uint64) interface{} { return NInt(u) }},
}

var numBuf bytes.Buffer

func judgeWrite(c *C, s *jzon.Streamer, w numWr, u uint64, all bool) {
	want := w.std(u)
	if w.wr != nil {
		numBuf.Reset()
		s.Reset(&numBuf)
		w.wr(s, u)
		if err := s.Flush(); err != nil || numBuf.String() != want {
			c.Failf("Streamer.%s(%s) writes %q, %v", w.name, want, numBuf.String(), err)
		}
	}
	if !all {
		return
	}
	v := w.val(u)
	b, err := anyEnc(c.R).Marshal(v)
	if err != nil || string(b) != want {
		c.Failf("Marshal(%T %s) = %q, %v", v, want, b, err)
	}
	rv := reflect.ValueOf(v)
	m := reflect.MakeMap(reflect.MapOf(rv.Type(), tOf(0)))
	m.SetMapIndex(rv, reflect.ValueOf(1))
	b, err = anyEnc(c.R).Marshal(m.Interface())
	if err != nil || string(b) != `{"`+want+`":1}` {
		c.Failf("Marshal of a map with key %T %s = %q, %v", v, want, b, err)
	}
	st := reflect.New(numCtxs[8].mk(rv.Type())).Elem()
	st.Field(1).Set(rv)
	b, err = jzon.Marshal(st.Interface())
	if err != nil || string(b) != `{"G":0,"f":"`+want+`"}` {
		c.Failf("Marshal with string option of %T %s = %q, %v", v, want, b, err)
	}
	sl := reflect.MakeSlice(reflect.SliceOf(rv.Type()), 2, 2)
	if rv.Kind() != reflect.Uint8 {
		sl.Index(1).Set(rv)
		b, err = anyEnc(c.R).Marshal(sl.Interface())
		if err != nil || string(b) != "[0,"+want+"]" {
			c.Failf("Marshal of a slice with %T %s = %q, %v", v, want, b, err)
		}
	}
}

func engNumWrite(c *C) {
	r := c.R
	s := anyEnc(c.R).NewStreamer()
	defer s.Release()
	// exhaustive for 8 and 16 bits
	if c.Idx < 1024 {
		for u := uint64(c.Idx) * 64; u < uint64(c.Idx)*64+64; u++ {
			for _, w := range numWrs[:10] {
				judgeWrite(c, s, w, u, false)
				judgeWrite(c, s, w, -u, false)
			}
			c.Seen(u, true)
		}
		c.Feat("exhaustive 16 bit writes")
	}
	for k := 0; k < 12; k++ {
		u := uint64(genInt(r, 64))
		if r.Bool() {
			u = genUint(r, 64)
		}
		if r.P(30) { // groups of digits with zeros inside
			u = uint64(r.Intn(1000))
			for n := r.Intn(6); n > 0; n-- {
				u = u*1000 + uint64([]int{0, 1, 9, 10, 99, 100, 999, r.Intn(1000)}[r.Intn(8)])
			}
		}
		c.Note("write integer %d", u)
		for _, w := range numWrs {
			judgeWrite(c, s, w, u, r.P(25))
		}
		c.Seen(u, true)
	}
	for k := 0; k < 20; k++ {
		f := r.F64()
		want, err := json.Marshal(f)
		if err != nil {
			continue
		}
		c.Note("write float %v", f)
		numBuf.Reset()
		s.Reset(&numBuf)
		s.Float64(f)
		if err := s.Flush(); err != nil || numBuf.String() != string(want) {
			c.Failf("Streamer.Float64(%x) writes %q, %v; expected %q", math.Float64bits(f), numBuf.String(), err, want)
		}
		if b, err := anyEnc(c.R).Marshal(f); err != nil || !bytes.Equal(b, want) {
			c.Failf("Marshal(float64 bits %x) = %q, %v; expected %q", math.Float64bits(f), b, err, want)
		}
		var back float64
		if err := jzon.Unmarshal(want, &back); err != nil || math.Float64bits(back) != math.Float64bits(f) {
			c.Failf("%q does not read back: %v, %v", want, back, err)
		}
		g := r.F32()
		want, _ = json.Marshal(g)
		numBuf.Reset()
		s.Reset(&numBuf)
		s.Float32(g)
		if err := s.Flush(); err != nil || numBuf.String() != string(want) {
			c.Failf("Streamer.Float32(%x) writes %q, %v; expected %q", math.Float32bits(g), numBuf.String(), err, want)
		}
		for _, v := range []interface{}{g, NFloat32(g), &g, []float32{g}, NFloat(f), map[string]float64{"a": f}, struct {
			F float64 `json:",string"`
			G float32 `json:",omitempty"`
			H *float32
		}{f, g, &g}} {
			a, _ := json.Marshal(v)
			b, err := jzon.Marshal(v)
			if err != nil || !bytes.Equal(a, b) {
				c.Failf("Marshal(%T %v) = %q, %v; expected %q", v, v, b, err, a)
			}
		}
		c.Seen(math.Float64bits(f), true)
		c.Feat("floats written")
	}
	// refused ones
	bad := []float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Float64frombits(0x7ff8000000000001), math.Float64frombits(0xfff0000000000001)}[r.Intn(5)]
	for _, v := range []interface{}{bad, float32(bad), []float64{1, bad}, map[string]float32{"x": float32(bad)}, struct{ F float64 }{bad}, struct {
		F float64 `json:",string"`
	}{bad}, &bad, [2]float32{0, float32(bad)}, struct {
		F interface{} `json:",omitempty"`
	}{bad}} {
		if b, err := jzon.Marshal(v); err == nil {
			c.Failf("Marshal(%T with %v) = %q", v, bad, b)
		}
	}
	s.Reset(io.Discard)
	if s.Float64(bad); s.Error == nil {
		c.Failf("Streamer.Float64(%v) is not refused", bad)
	}
	s.Reset(io.Discard)
	if s.Float32(float32(bad)); s.Error == nil {
		c.Failf("Streamer.Float32(%v) is not refused", bad)
	}
	c.Feat("non finite refused")
}

func init() {
	reg("num-int", engNumInt, "integer accepted", "integer refused", "context map key", "context quoted field", "context slice", "context root")
	reg("num-int-ex", engNumIntEx, "exhaustive integers")
	reg("num-float", engNumFloat, "float accepted", "float refused")
	reg("num-float-ex", engNumFloatEx, "exhaustive literals")
	reg("num-write", engNumWrite, "exhaustive 16 bit writes", "floats written", "non finite refused")
}
