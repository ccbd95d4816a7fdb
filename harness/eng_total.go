package main

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

// ---- C15 ----

// noCrash runs f and reports a panic of the library
func noCrash(c *C, what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(failure); ok {
				panic(r)
			}
			if _, ok := r.(inconclusive); ok {
				panic(r)
			}
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			c.Failf("%s panics: %v\n%s", what, r, clip(st, 2500))
		}
	}()
	f()
}

// shapes of chains and loops of empty interfaces

// ring builds tail interfaces leading into a loop of n (n 0: a chain which
// ends at a nil interface) and returns the first and the last
func ring(r *Rand, tail, n int) (first interface{}, last *interface{}) {
	total := tail + n
	if total == 0 {
		total, tail = 1, 1
	}
	cells := make([]interface{}, total)
	link := func(i, j int) {
		switch r.Intn(6) {
		case 0:
			p := &cells[j]
			cells[i] = &p // **interface{}
		case 1:
			p := (*NIface)(unsafe.Pointer(&cells[j]))
			cells[i] = p
		case 2:
			p := &cells[j]
			pp := &p
			cells[i] = &pp
		default:
			cells[i] = &cells[j]
		}
	}
	for i := 0; i+1 < total; i++ {
		link(i, i+1)
	}
	if n > 0 {
		link(total-1, tail)
	}
	return &cells[0], &cells[total-1]
}

type ringBox struct {
	A int
	I interface{}
	J interface{}
	B string
}

func engTotalLoop(c *C) {
	r := c.R
	dc := rot.D()
	tail, n := r.Intn(12), r.Intn(12)
	if r.P(10) {
		tail = r.Intn(600)
	}
	if r.P(10) {
		n = r.Intn(400)
	}
	if r.P(25) {
		n = 0
	}
	text := []byte(r.Str([]string{`1`, ` "x" `, `[1,2]`, `{"a":1}`, `null`, `true`, `[`, `{`, ``, `nul`, ` `, `[{"a":[]}]`, `1.5e3`, `"abc`}))
	c.Note("interface chain %d, loop %d, text %s", tail, n, q(text))
	first, last := ring(r, tail, n)
	box := r.P(35)
	var err error
	noCrash(c, fmt.Sprintf("a chain of %d interfaces into a loop of %d", tail, n), func() {
		rt := typedRoutes[r.Intn(len(typedRoutes))]
		if box {
			f2, l2 := ring(r, r.Intn(5), r.Intn(5))
			bx := &ringBox{I: first, J: f2}
			t := append(append([]byte(`{"A": 1, "I":`), text...), `,"B":"b"}`...)
			if r.Bool() {
				t = append(append(append(append([]byte(`{"J":`), text...), `, "I":`...), text...), '}')
			}
			_ = l2
			err = rt.f(dc, t, r.Fork(), bx)
			c.Feat("chain in a struct")
			return
		}
		err = rt.f(dc, text, r.Fork(), first)
		if n > 0 && err == nil && string(text) != "null" {
			c.Failf("%s succeeds decoding %s into a loop of %d interfaces", rt.name, text, n)
		}
		c.FeatIf(n > 0 && err != nil, "loop refused")
		if n == 0 && !box {
			var want interface{}
			se := json.Unmarshal(text, &want)
			if (se == nil) != (err == nil) {
				c.Failf("%s of %s into a chain of %d interfaces: %v, encoding/json into an interface: %v", rt.name, q(text), tail, err, se)
			}
			if err == nil && string(text) != "null" {
				if d := same(reflect.ValueOf(&want), reflect.ValueOf(last), cmpOpt{}); d != "" {
					c.Failf("%s of %s into a chain of %d interfaces does not arrive at its end: %s", rt.name, q(text), tail, d)
				}
				c.Feat("chain followed")
			}
		}
	})
	c.Seen(mix(mix(uint64(tail), uint64(n)), mix(hash64(text), r.U64())), true)
	// one iterator, one destination, again and again
	if r.P(30) {
		it := dc.NewIterator()
		var x interface{}
		p := &x
		for i := 0; i < 3; i++ {
			it.ResetBytes([]byte(`[1]`))
			if i == 2 {
				it.Reset(genReader(r, []byte(`[1]`)))
			}
			if e := it.ReadVal(p); e != nil {
				c.Failf("reading into the same interface again: %v", e)
			}
		}
		it.Release()
		c.Feat("same destination again")
	}
}

// ---- destinations ----

type wFace interface{ WFace() }
type wImpl struct{ A int }

func (w *wImpl) WFace() {}

type wVal struct{ A int }

func (w wVal) WFace() {}

type wNum int

func (w wNum) WFace() {}

type wEmb struct{ X int }
type wemb struct{ Y int }
type wEmbed struct {
	*wEmb
	*wemb
	Z int
}
type wDeep struct {
	*wEmbed
	F  wFace
	E  interface{}
	C  chan int
	G  func()
	K  complex128
	U  unsafe.Pointer
	M  map[complex64]int
	N  map[wFace]int
	O  map[[2]int]string
	P  map[float64]int
	Q  map[bool]int
	R  map[interface{}]int
	S  map[struct{}]int
	T  map[string]chan int
	V  []func()
	W  [2]chan int
	X  *chan int
	Z  struct{}
	AA [0]*wDeep
	AB []struct{}
	AC map[string]struct{}
	AD [3]struct{}
	AE *struct{}
	AF [2][0]int
	AG *wDeep
	AH []wDeep
	AI map[string]wDeep
	AJ json.Marshaler
	AK json.Unmarshaler
	AL encoding.TextUnmarshaler
	AM encoding.TextMarshaler
	AN error
	AO fmt.Stringer
	AP io.Reader
	AQ **wFace
	AR []wFace
	AS map[string]wFace
	AT *[]*interface{}
	AU time.Time
	AV *time.Duration
	AW reflect.Value
	AX bytes.Buffer
	AY *json.RawMessage
	AZ []json.Number
}

type wZeroLast struct {
	A int
	Z struct{}
}

func wDests(r *Rand) (interface{}, string) {
	var nilFace wFace
	var nilImpl *wImpl
	var nilNum *wNum
	_ = nilNum
	switch r.Intn(50) {
	case 0:
		return nil, "nil"
	case 1:
		return (*int)(nil), "nil *int"
	case 2:
		return (*wDeep)(nil), "nil *wDeep"
	case 3:
		return 5, "int"
	case 4:
		return "s", "string"
	case 5:
		return wDeep{}, "struct"
	case 6:
		return map[string]int{}, "map"
	case 7:
		return []int{1}, "slice"
	case 8:
		return func() {}, "func"
	case 9:
		return make(chan int), "chan"
	case 10:
		return new(chan int), "*chan"
	case 11:
		return new(func()), "*func"
	case 12:
		return new(complex128), "*complex128"
	case 13:
		return new(unsafe.Pointer), "*unsafe.Pointer"
	case 14:
		return &nilFace, "*wFace nil"
	case 15:
		f := wFace(nilImpl)
		return &f, "*wFace with nil *wImpl"
	case 16:
		f := wFace(&wImpl{})
		return &f, "*wFace with *wImpl"
	case 17:
		f := wFace(wVal{})
		return &f, "*wFace with wVal"
	case 18:
		f := wFace(wNum(3))
		return &f, "*wFace with wNum"
	case 19:
		f := wFace(&wVal{})
		return &f, "*wFace with *wVal"
	case 20:
		return &wEmbed{}, "embedded nil pointers"
	case 21:
		return &wEmbed{wEmb: &wEmb{}}, "embedded nil pointer"
	case 22:
		return &wEmbed{wemb: &wemb{}}, "embedded pointer"
	case 23:
		return &wDeep{E: (*int)(nil), F: nilImpl}, "wDeep nils"
	case 24:
		return &wDeep{E: &wDeep{}, F: wVal{}}, "wDeep"
	case 25:
		var e interface{} = (*int)(nil)
		return &e, "*interface{} with nil *int"
	case 26:
		var e interface{} = (*wDeep)(nil)
		return &e, "*interface{} with nil *wDeep"
	case 27:
		var e interface{} = (**int)(nil)
		return &e, "*interface{} with nil **int"
	case 28:
		var p *int
		var e interface{} = &p
		return &e, "*interface{} with **int"
	case 29:
		var e interface{} = make(chan int)
		return &e, "*interface{} with chan"
	case 30:
		var e interface{} = new(chan int)
		return &e, "*interface{} with *chan"
	case 31:
		return new(map[complex64]int), "*map[complex64]"
	case 32:
		return new(map[wFace]int), "*map[wFace]"
	case 33:
		return new([2]int), "*[2]int"
	case 34:
		return new([0]int), "*[0]int"
	case 35:
		return new([]struct{}), "*[]struct{}"
	case 36:
		return new(map[string]struct{}), "*map[string]struct{}"
	case 37:
		return new(struct{}), "*struct{}"
	case 38:
		return &[]wZeroLast{{}, {}}, "*[]wZeroLast"
	case 39:
		var p *****int
		return &p, "******int"
	case 40:
		return new(json.Unmarshaler), "*json.Unmarshaler nil"
	case 41:
		u := json.Unmarshaler((*JRec)(nil))
		return &u, "*json.Unmarshaler with nil *JRec"
	case 42:
		u := json.Unmarshaler(&JRec{})
		return &u, "*json.Unmarshaler with *JRec"
	case 43:
		u := encoding.TextUnmarshaler(new(TStr))
		return &u, "*encoding.TextUnmarshaler with *TStr"
	case 44:
		return (*JRec)(nil), "nil *JRec"
	case 45:
		return (*TStr)(nil), "nil *TStr"
	case 46:
		return new(map[interface{}]int), "*map[interface{}]int"
	case 47:
		return new(reflect.Value), "*reflect.Value"
	case 48:
		m := map[string]*wFace{"a": &nilFace}
		return &m, "*map[string]*wFace"
	default:
		return new(wDeep), "*wDeep"
	}
}

var wDeepNames = func() []string {
	var l []string
	t := tOf(wDeep{})
	for i := 0; i < t.NumField(); i++ {
		l = append(l, t.Field(i).Name)
	}
	return append(l, "X", "Y", "Z", "A")
}()

func wText(r *Rand, d int) string {
	switch r.Intn(14) {
	case 0:
		return "null"
	case 1:
		return r.Str([]string{"1", "-0", "1.5", "1e400", "99999999999999999999"})
	case 2:
		return r.Str([]string{`""`, `"a"`, `"\u0000"`, `"\ud800"`})
	case 3:
		return "true"
	case 4:
		return "[]"
	case 5:
		return "{}"
	case 6, 7:
		if d <= 0 {
			return "[null]"
		}
		var l []string
		for i := r.Intn(4); i > 0; i-- {
			l = append(l, wText(r, d-1))
		}
		return "[" + strings.Join(l, ",") + "]"
	case 8:
		return string(genText(r))
	default:
		if d <= 0 {
			return "{}"
		}
		var l []string
		for i := r.Intn(5); i > 0; i-- {
			l = append(l, quote(r.Str(wDeepNames))+":"+wText(r, d-1))
		}
		return "{" + strings.Join(l, ", ") + "}"
	}
}

func engTotalDst(c *C) {
	r := c.R
	dc := rot.D()
	for i := 0; i < 6; i++ {
		dst, what := wDests(r)
		text := []byte(wText(r, 3))
		if r.P(15) {
			text = mutate(r, text)
		}
		if r.P(10) {
			text = text[:r.Intn(len(text)+1)]
		}
		rt := typedRoutes[r.Intn(len(typedRoutes))]
		c.Note("decode into %s of %s", what, q(text))
		var err error
		noCrash(c, rt.name+" into "+what+" of "+q(text), func() { err = rt.f(dc, text, r.Fork(), dst) })
		if err == nil {
			if refDoc(text) == nil {
				c.Failf("%s into %s accepts %s", rt.name, what, q(text))
			}
			v := reflect.ValueOf(dst)
			if v.Kind() != reflect.Ptr || v.IsNil() {
				c.Failf("%s into %s reports no error for %s", rt.name, what, q(text))
			}
			c.Feat("decoded into a strange destination")
		} else {
			_ = err.Error()
			c.Feat("strange destination refused")
		}
		c.Seen(mix(hash64(text), hashStr(what+rt.name)), true)
		c.Sample("%s of %s into %s: %v", rt.name, q(text), what, err)
	}
	if r.P(20) {
		probe(c, r, dc, rot.E(), "strange destinations")
	}
}

// ---- values ----

type wMarsh struct{ p *int }

func (w *wMarsh) MarshalJSON() ([]byte, error) {
	if w == nil {
		return []byte(`"nil receiver"`), nil
	}
	return []byte("7"), nil
}

type wRet struct {
	b   []byte
	err error
}

func (w wRet) MarshalJSON() ([]byte, error) { return w.b, w.err }

type wTRet struct {
	b   []byte
	err error
}

func (w wTRet) MarshalText() ([]byte, error) { return w.b, w.err }

func wValue(r *Rand, d int) interface{} {
	switch r.Intn(44) {
	case 0:
		return nil
	case 1:
		return (*int)(nil)
	case 2:
		return (*wDeep)(nil)
	case 3:
		return wDeep{}
	case 4:
		return &wDeep{}
	case 5:
		return make(chan int)
	case 6:
		return func() {}
	case 7:
		return complex(1, 2)
	case 8:
		return unsafe.Pointer(nil)
	case 9:
		return nan()
	case 10:
		return map[string]interface{}(nil)
	case 11:
		return []interface{}(nil)
	case 12:
		return wEmbed{}
	case 13:
		return &wEmbed{wEmb: &wEmb{}}
	case 14:
		return (*wMarsh)(nil)
	case 15:
		return &wMarsh{}
	case 16:
		return wMarsh{}
	case 17:
		return []*wMarsh{nil, {}}
	case 18:
		return map[string]*wMarsh{"a": nil}
	case 19:
		return wRet{}
	case 20:
		return wRet{err: errUser}
	case 21:
		return []wTRet{{}}
	case 22:
		return wTRet{err: errUser}
	case 23:
		return map[wFace]int{}
	case 24:
		return map[complex64]int{}
	case 25:
		return map[complex64]int{1: 1}
	case 26:
		return map[float64]int{1: 1}
	case 27:
		return struct{}{}
	case 28:
		return [0]int{}
	case 29:
		return [3]struct{}{}
	case 30:
		return (*JInt)(nil)
	case 31:
		return (*TStr)(nil)
	case 32:
		return []*TStr{nil}
	case 33:
		return map[string]*JInt{"a": nil}
	case 34:
		return json.Number("")
	case 35:
		return json.RawMessage(nil)
	case 36:
		return (*json.RawMessage)(nil)
	case 37:
		return json.Marshaler(nil)
	case 38:
		return struct {
			M json.Marshaler
			T encoding.TextMarshaler
			E error
			F wFace
			P *json.Marshaler
		}{}
	case 39:
		if d > 0 {
			return []interface{}{wValue(r, d-1), wValue(r, d-1)}
		}
		return errors.New("x")
	case 40:
		if d > 0 {
			return map[string]interface{}{"a": wValue(r, d-1)}
		}
		return time.Time{}
	case 41:
		if d > 0 {
			v := wValue(r, d-1)
			return &v
		}
		return time.Second
	case 42:
		if d > 0 {
			return struct {
				A interface{} `json:",omitempty"`
				B interface{}
			}{wValue(r, d-1), wValue(r, d-1)}
		}
		return uintptr(5)
	default:
		return struct {
			P **int         `json:",omitempty"`
			C chan int      `json:"-"`
			I [1]*int       `json:",omitempty"`
			M map[int]*wEmb `json:",omitempty"`
		}{}
	}
}

func engTotalVal(c *C) {
	r := c.R
	ec := rot.E()
	for i := 0; i < 6; i++ {
		v := wValue(r, 3)
		what := clip(fmt.Sprintf("%T", v), 200)
		rt := encRoutes[r.Intn(len(encRoutes))]
		c.Note("encode %s", what)
		var a, b []byte
		var aErr, bErr error
		if orPanic(func() { a, aErr = stdEncode(v, true) }) {
			c.Feat("encoding/json panics")
			continue
		}
		noCrash(c, rt.name+" of "+what, func() { b, bErr = rt.f(ec, v, true) })
		if bErr == nil && aErr == nil {
			if x, ok1 := canonDoc(normEsc(a)); ok1 {
				if y, ok2 := canonDoc(normEsc(b)); !ok2 || !bytes.Equal(x, y) {
					c.Failf("%s of %s writes %s, encoding/json %s", rt.name, what, q(b), q(a))
				}
			}
			c.Feat("strange value encoded")
		} else if bErr != nil {
			_ = bErr.Error()
			if aErr == nil && !wUnsupported(reflect.TypeOf(v), v) {
				c.Failf("%s of %s (%+v) fails with %v, encoding/json writes %s", rt.name, what, v, bErr, q(a))
			}
			c.Feat("strange value refused")
		} else if !wUnchecked(v, 5) {
			c.Failf("%s of %s (%+v) writes %s, encoding/json fails with %v", rt.name, what, v, q(b), aErr)
		}
		c.Seen(mix(hashStr(what), r.U64()), true)
	}
	if r.P(20) {
		probe(c, r, rot.D(), ec, "strange values")
	}
}

// wUnsupported: a type of which encoding/json writes some values although it
// has unsupported parts; jzon may refuse these
func wUnsupported(t reflect.Type, v interface{}) bool {
	s := fmt.Sprintf("%T", v)
	if strings.Contains(s, "chan") || strings.Contains(s, "func") || strings.Contains(s, "wDeep") || strings.Contains(s, "interface") || strings.Contains(s, "complex") || strings.Contains(s, "map[main.wFace]") || strings.Contains(s, "map[float64]") {
		return true
	}
	return false
}

// wUnchecked: what a marshaler returns is not validated
func wUnchecked(v interface{}, d int) bool {
	s := fmt.Sprintf("%T", v)
	return strings.Contains(s, "wRet") || strings.Contains(s, "interface") || strings.Contains(s, "RawMessage") || strings.Contains(s, "Number")
}

// ---- calls in any order ----

func iterCall(r *Rand, it *jzon.Iterator, d int) error {
	var err error
	switch r.Intn(33) {
	case 0:
		_, err = it.ReadArrayBegin()
	case 1:
		_, err = it.ReadArrayMore()
	case 2:
		_, _, err = it.ReadObjectBegin()
	case 3:
		_, _, err = it.ReadObjectMore()
	case 4:
		if d > 3 {
			return nil
		}
		n := 0
		err = it.ReadArrayCB(func(it *jzon.Iterator) error {
			if n++; n > 50 {
				return errUser
			}
			return iterCall(r, it, d+1)
		})
	case 5:
		if d > 3 {
			return nil
		}
		n := 0
		err = it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
			if n++; n > 50 {
				return errUser
			}
			return iterCall(r, it, d+1)
		})
	case 6:
		_, err = it.ReadBool()
	case 7:
		_, err = it.ReadFloat32()
	case 8:
		_, err = it.ReadFloat64()
	case 9:
		_, err = it.ReadInt()
	case 10:
		_, err = it.ReadUint()
	case 11:
		_, err = it.ReadInt8()
	case 12:
		_, err = it.ReadInt16()
	case 13:
		_, err = it.ReadInt32()
	case 14:
		_, err = it.ReadInt64()
	case 15:
		_, err = it.ReadUint8()
	case 16:
		_, err = it.ReadUint16()
	case 17:
		_, err = it.ReadUint32()
	case 18:
		_, err = it.ReadUint64()
	case 19:
		err = it.ReadNull()
	case 20:
		_, err = it.ReadNumber()
	case 21:
		_, err = it.SkipRaw()
	case 22:
		_, err = it.AppendRaw([]byte("x"))
	case 23:
		_, err = it.ReadRaw()
	case 24:
		_, err = it.Read()
	case 25:
		err = it.Skip()
	case 26:
		switch r.Intn(4) {
		case 0:
			err = it.SkipArray()
		case 1:
			err = it.SkipNumber()
		case 2:
			err = it.SkipObject()
		default:
			err = it.SkipString()
		}
	case 27:
		_, err = it.ReadStringAsSlice()
	case 28:
		_, err = it.ReadStringAndAppend(nil)
	case 29:
		_, err = it.ReadString()
	case 30:
		dst, _ := wDests(r)
		err = it.ReadVal(dst)
	case 31:
		_, err = it.NextValueType()
	case 32:
		it.Buffer()
		err = it.WrapError(io.EOF)
		_ = err.Error()
		err = nil
	}
	if err != nil {
		_ = err.Error()
		_ = it.WrapError(err).Error()
	}
	return err
}

func engTotalIter(c *C) {
	r := c.R
	text := walkText(r)
	if r.P(20) {
		text = []byte(wText(r, 4))
	}
	if r.P(15) {
		n := r.Intn(60)
		text = make([]byte, n)
		for i := range text {
			text[i] = interesting[r.Intn(len(interesting))]
		}
	}
	it := rot.D().NewIterator()
	defer it.Release()
	var rd *chunkReader
	if r.Bool() {
		it.ResetBytes(text)
	} else {
		rd = genReader(r, text)
		if r.P(30) {
			rd.err = ioFault(r)
		}
		it.Reset(rd)
	}
	c.NoteB("iterator calls in any order over ", text)
	errs := 0
	noCrash(c, "an iterator used in any order over "+q(text), func() {
		for k := r.Range(1, 40); k > 0; k-- {
			if iterCall(r, it, 0) != nil {
				errs++
			}
			if r.P(2) {
				it.ResetBytes(text)
			}
			if len(it.Buffer()) > len(text)+1 {
				c.Failf("Buffer holds %d bytes of a text of %d", len(it.Buffer()), len(text))
			}
		}
	})
	c.FeatIf(errs > 0, "calls after errors")
	c.Seen(mix(hash64(text), r.U64()), len(text) > 1)
	if r.P(10) {
		probe(c, r, rot.D(), rot.E(), "iterator calls in any order")
	}
}

func engTotalStreamer(c *C) {
	r := c.R
	s := rot.E().NewStreamer()
	var w io.Writer
	switch r.Intn(4) {
	case 0:
		w = &bytes.Buffer{}
	case 1:
		w = &faultWriter{plan: []wfault{{accept: r.Intn(20)}, {accept: 1 << 20}, {accept: 1, err: ioFault(r)}}}
	case 2:
		w = io.Discard
	}
	if w != nil {
		s.Reset(w)
	}
	c.Note("streamer calls in any order, case %d", c.Idx)
	noCrash(c, "a streamer used in any order", func() {
		for k := r.Range(1, 60); k > 0; k-- {
			switch r.Intn(26) {
			case 0, 1:
				s.ArrayStart()
			case 2, 3:
				s.ArrayEnd()
			case 4, 5:
				s.ObjectStart()
			case 6, 7:
				s.ObjectEnd()
			case 8, 9:
				s.Field(genGoString(r, true))
			case 10:
				s.RawField([]byte(`"a"`))
			case 11:
				s.RawField(nil)
			case 12:
				s.Raw(nil)
			case 13:
				s.RawString("")
			case 14:
				s.Null().True().False().Bool(r.Bool())
			case 15:
				s.Int8(int8(r.U64())).Int16(int16(r.U64())).Int32(int32(r.U64())).Int64(int64(r.U64())).Int(int(r.U64()))
			case 16:
				s.Uint8(uint8(r.U64())).Uint16(uint16(r.U64())).Uint32(uint32(r.U64())).Uint64(r.U64()).Uint(uint(r.U64()))
			case 17:
				s.Float32(r.F32()).Float64(r.F64())
			case 18:
				s.String(genGoString(r, true))
			case 19:
				v := wValue(r, 2)
				if orPanic(func() { json.Marshal(v) }) {
					continue
				}
				s.Value(v)
			case 20:
				s.Flush()
			case 21:
				s.EscapeHTML(r.Bool())
			case 22:
				if r.P(20) {
					s.Reset(w)
				}
			case 23:
				if r.P(20) {
					s.Error = nil
				}
			case 24:
				if r.P(10) {
					s.Float64(nan())
				}
			case 25:
				s.Context = k
			}
		}
		s.Flush()
	})
	s.Release()
	c.Seen(r.U64(), true)
	c.Feat("streamer in any order")
	if r.P(10) {
		probe(c, r, rot.D(), rot.E(), "streamer calls in any order")
	}
}

// ---- readers and writers ----

type slowReader struct {
	data  []byte
	zeros int
	left  int
	end   error
}

func (s *slowReader) Read(p []byte) (int, error) {
	if s.left > 0 {
		s.left--
		return 0, nil
	}
	s.left = s.zeros
	if len(s.data) == 0 {
		return 0, s.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = s.data[0]
	s.data = s.data[1:]
	// the rest of the window is scratch space
	for i := 1; i < len(p); i++ {
		p[i] = '"'
	}
	return 1, nil
}

func engTotalIO(c *C) {
	r := c.R
	dc, ec := rot.D(), rot.E()
	text := walkText(r)
	if len(text) > 3000 {
		text = text[:3000]
	}
	var want interface{}
	se := json.Unmarshal(text, &want)
	noCrash(c, "strange readers and writers", func() {
		// empty reads and scratch use of the window
		var got interface{}
		rd := &slowReader{data: text, zeros: r.Intn(30), end: io.EOF}
		c.NoteB("slow reader over ", text)
		err := dc.UnmarshalFromReader(rd, &got)
		if (se == nil) != (err == nil) {
			c.Failf("through a reader which scribbles behind its data and makes empty reads: %v, encoding/json %v\n input %s", err, se, q(text))
		}
		c.Feat("scratch space used")
		// nil readers and writers
		d := dc.NewDecoder(nil)
		var x interface{}
		if err := d.Decode(&x); err == nil {
			c.Failf("decodes from a nil reader")
		}
		d.More()
		d.InputOffset()
		if b := d.Buffered(); b != nil {
			io.ReadAll(b)
		}
		d.Release()
		if err := dc.UnmarshalFromReader(nil, &x); err == nil {
			c.Failf("unmarshals from a nil reader")
		}
		e := ec.NewEncoder(nil)
		if err := e.Encode(1); err == nil {
			c.Failf("encodes to a nil writer without an error")
		}
		e.SetEscapeHTML(true)
		e.Release()
		it := dc.NewIterator()
		it.Reset(nil)
		if _, err := it.Read(); err == nil {
			c.Failf("reads from a nil reader")
		}
		it.ResetBytes(nil)
		if err := it.Skip(); err == nil {
			c.Failf("skips nothing without an error")
		}
		it.Release()
		// released twice is not allowed; a decoder in every state may be released
		d = dc.NewDecoder(genReader(r, text))
		for i := r.Intn(4); i > 0; i-- {
			if r.Bool() {
				d.More()
			}
			d.Decode(&x)
		}
		d.Release()
		c.Feat("nil reader and writer")
	})
	c.Seen(hash64(text), len(text) > 1)
	if r.P(20) {
		probe(c, r, dc, ec, "strange readers and writers")
	}
}

// ---- time ----

func cpuNow() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(1, &ru) // RUSAGE_THREAD
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

type timeNode struct {
	A interface{}     `json:"a"`
	N *timeNode       `json:"n"`
	L []timeNode      `json:"l"`
	R json.RawMessage `json:"r"`
	S string          `json:"s"`
	M map[string]int  `json:"m"`
}

// timeDoc makes a document of about n bytes which hits one weak spot
func timeDoc(r *Rand, n int) (string, []byte) {
	rep := func(s string) string { return strings.Repeat(s, n/len(s)+1) }
	switch k := r.Intn(26); k {
	case 0:
		return "long string", []byte(`"` + rep("a") + `"`)
	case 1:
		return "escapes", []byte(`"` + rep(`\u00e9`) + `"`)
	case 2:
		return "surrogates", []byte(`"` + rep(`\ud83d\ude00`) + `"`)
	case 3:
		return "lone surrogates", []byte(`"` + rep(`\ud83d`) + `"`)
	case 4:
		return "backslashes", []byte(`"` + rep(`\\`) + `"`)
	case 5:
		return "unterminated string", []byte(`"` + rep(`\n`))
	case 6:
		return "long number", []byte(rep("1"))
	case 7:
		return "long fraction", []byte("0." + rep("0") + "1")
	case 8:
		return "long exponent", []byte("1e" + rep("9"))
	case 9:
		return "zeros exponent", []byte("1e" + rep("0") + "1")
	case 10:
		return "spaces", []byte(rep(" \t\r\n") + "1" + rep(" "))
	case 11:
		return "nested arrays", []byte(rep("[") + rep("]"))
	case 12:
		return "open arrays", []byte(rep("["))
	case 13:
		return "nested objects", []byte(strings.Repeat(`{"n":`, n/6) + "null" + strings.Repeat("}", n/6))
	case 14:
		return "open objects", []byte(rep(`{"a":`))
	case 15:
		return "many small", []byte("[" + rep("1,") + "1]")
	case 16:
		return "many objects", []byte("[" + rep(`{"a":1,"s":"x"},`) + "{}]")
	case 17:
		return "many members", []byte("{" + func() string {
			var b strings.Builder
			for i := 0; b.Len() < n; i++ {
				fmt.Fprintf(&b, `"k%d":%d,`, i, i)
			}
			return b.String()
		}() + `"z":0}`)
	case 18:
		return "same member", []byte("{" + rep(`"s":"x",`) + `"z":0}`)
	case 19:
		return "unknown members", []byte("{" + rep(`"unknown":{"x":[1]},`) + `"z":0}`)
	case 20:
		return "long key", []byte(`{"` + rep("k") + `":1}`)
	case 21:
		return "escaped key", []byte(`{"` + rep(`\u006b`) + `":1}`)
	case 22:
		return "many strings", []byte("[" + rep(`"abc\n",`) + `""]`)
	case 23:
		return "raw member", []byte(`{"r":[` + rep(`{"a":"b"},`) + `1]}`)
	case 24:
		return "pairs of brackets", []byte("[" + rep("[],{},") + "1]")
	default:
		return "mixed depth", []byte(rep(`[{"a":`))
	}
}

func engTotalTime(c *C) {
	r := c.R
	n := []int{60000, 120000, 200000, 1200000}[r.Intn(4)]
	name, doc := timeDoc(r, n)
	c.FeatIf(n > 1000000, "timed, a megabyte")
	dc, ec := rot.D(), rot.E()
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	limit := func(what string, f func()) {
		c.Note("time: %s of %s (%d bytes)", what, name, len(doc))
		t := cpuNow()
		noCrash(c, what+" of "+name, f)
		d := cpuNow() - t
		// linear work takes some milliseconds
		if d > 8*time.Second {
			c.Failf("%s of %d bytes (%s) took %v of processor time", what, len(doc), name, d)
		}
		c.Tick()
	}
	sizes := [][]int{nil, {1}, {7}, {511}, {512}, {513}, {4096}}[r.Intn(7)]
	reader := func() io.Reader { return &chunkReader{data: doc, sizes: sizes} }
	switch r.Intn(9) {
	case 0:
		limit("Valid", func() { jzon.Valid(doc) })
	case 1:
		limit("Unmarshal into interface{}", func() {
			var x interface{}
			if dc.Unmarshal(doc, &x) == nil {
				limit("Marshal", func() { ec.Marshal(x) })
			}
		})
	case 2:
		limit("reader into interface{}", func() { var x interface{}; dc.UnmarshalFromReader(reader(), &x) })
	case 3:
		limit("reader into RawMessage", func() { var x json.RawMessage; dc.UnmarshalFromReader(reader(), &x) })
	case 4:
		if strings.Contains(name, "objects") && strings.Contains(name, "nest") {
			doc = doc[:0]
		}
		limit("Unmarshal into a struct", func() { var x timeNode; dc.Unmarshal(doc, &x) })
	case 5:
		limit("reader into a struct", func() { var x struct{ Q int }; dc.UnmarshalFromReader(reader(), &x) })
	case 6:
		limit("skip through a reader", func() {
			it := dc.NewIterator()
			it.Reset(reader())
			it.Skip()
			it.Release()
		})
	case 7:
		limit("SkipRaw through a reader", func() {
			it := dc.NewIterator()
			it.Reset(reader())
			it.SkipRaw()
			it.Release()
		})
	case 8:
		limit("decoder over a stream", func() {
			d := dc.NewDecoder(reader())
			for i := 0; i < 100000; i++ {
				var x interface{}
				if d.Decode(&x) != nil {
					break
				}
			}
			d.Release()
		})
	}
	c.Feat("timed")
	c.Seen(mix(hashStr(name), r.U64()), true)
}

// ---- depth ----

type deepT struct {
	X int `json:"x"`
}

func engTotalDeep(c *C) {
	r := c.R
	depth := r.Range(1000, 30000)
	if c.Idx%16 == 0 {
		depth = r.Range(100000, 400000)
	}
	open, shut := make([]byte, 0, depth*6), make([]byte, 0, depth)
	for i := 0; i < depth; i++ {
		switch r.Intn(3) {
		case 0:
			open = append(open, '[')
			shut = append(shut, ']')
		case 1:
			open = append(open, `{"a":`...)
			shut = append(shut, '}')
		case 2:
			open = append(open, `[1,`...)
			shut = append(shut, ']')
		}
	}
	for i, j := 0, len(shut)-1; i < j; i, j = i+1, j-1 {
		shut[i], shut[j] = shut[j], shut[i]
	}
	doc := append(append(append([]byte{}, open...), '0'), shut...)
	bad := r.P(30)
	if bad {
		switch r.Intn(3) {
		case 0:
			doc = doc[:len(doc)-1-r.Intn(depth)]
		case 1:
			i := len(open) + 1 + r.Intn(depth)
			if doc[i] == ']' {
				doc[i] = '}'
			} else {
				doc[i] = ']'
			}
		case 2:
			doc = append(doc, ']')
		}
	}
	dc := rot.D()
	c.Note("nesting of %d", depth)
	check := func(what string, err error) {
		if (err == nil) == bad {
			c.Failf("%s of %d levels (damaged %v): %v", what, depth, bad, err)
		}
	}
	noCrash(c, fmt.Sprintf("nesting of %d", depth), func() {
		rd := func() io.Reader { return &chunkReader{data: doc, sizes: []int{r.Range(1, 3000), r.Range(1, 600)}} }
		if ok := jzon.Valid(doc); ok == bad {
			c.Failf("Valid of %d levels (damaged %v): %v", depth, bad, ok)
		}
		c.Tick()
		switch r.Intn(6) {
		case 0:
			var x interface{}
			check("Unmarshal into interface{}", dc.Unmarshal(doc, &x))
			if !bad {
				b, err := rot.E().Marshal(x)
				if err != nil || !bytes.Equal(b, doc) {
					c.Failf("%d levels encode differently (error %v)", depth, err)
				}
				c.Feat("deep value encoded")
			}
		case 1:
			var x interface{}
			check("reader into interface{}", dc.UnmarshalFromReader(rd(), &x))
		case 2:
			var x json.RawMessage
			check("RawMessage", dc.UnmarshalFromReader(rd(), &x))
		case 3:
			var x deepT
			t := append(append([]byte(`{"unknown":`), doc...), `,"x":5}`...)
			check("ignored member", dc.UnmarshalFromReader(&chunkReader{data: t, sizes: []int{1000}}, &x))
			if !bad && x.X != 5 {
				c.Failf("the member behind %d ignored levels is lost", depth)
			}
		case 4:
			it := dc.NewIterator()
			it.Reset(rd())
			err := it.Skip()
			if err == nil {
				err = readEnd(it)
			}
			check("Skip", err)
			it.Release()
		case 5:
			var x [0]int
			t := append(append([]byte(`[1,`), doc...), ']')
			check("extra elements", dc.Unmarshal(t, &x))
		}
	})
	c.Feat("deep documents")
	c.FeatIf(bad, "damaged deep documents")
	c.Seen(mix(hash64(doc), r.U64()), true)
	if r.P(30) {
		probe(c, r, dc, rot.E(), "deep documents")
	}
}

func init() {
	reg("total-loop", engTotalLoop, "loop refused", "chain followed", "chain in a struct", "same destination again")
	reg("total-dst", engTotalDst, "decoded into a strange destination", "strange destination refused")
	reg("total-val", engTotalVal, "strange value encoded", "strange value refused")
	reg("total-iter", engTotalIter, "calls after errors")
	reg("total-streamer", engTotalStreamer, "streamer in any order")
	reg("total-io", engTotalIO, "scratch space used", "nil reader and writer")
	reg("total-time", engTotalTime, "timed")
	reg("total-deep", engTotalDeep, "deep documents", "damaged deep documents")
	prop(&Prop{ID: "C15", Level: "exploration",
		Rule:        "each case makes calls which a careless or hostile caller could make: unusable and strange destinations and values, chains and loops of interfaces of every shape, texts of all kinds, iterator and streamer calls in any order, readers which make empty reads and scribble, nil readers and writers, documents of 60 to 200 kB built to provoke superlinear work, nesting up to 400000 levels; watched for panics, crashes, processor time, wrong acceptance and for damage to later calls; a case is a distinct (call, input)",
		Assumptions: []string{"linear work on these sizes takes far less than 8 s of processor time", "hooks which panic, readers which break io.Reader's contract and values which contain themselves are outside"},
		Variants:    plain(Run{"total-loop", 200000, 4000000}, Run{"total-dst", 250000, 5000000}, Run{"total-val", 200000, 3000000}, Run{"total-iter", 500000, 10000000}, Run{"total-streamer", 200000, 4000000}, Run{"total-io", 30000, 500000}, Run{"total-time", 2400, 40000}, Run{"total-deep", 600, 12000}, Run{"typed", 60000, 1500000}, Run{"untyped", 10000, 300000}, Run{"trunc", 4000, 100000}),
	})
}
