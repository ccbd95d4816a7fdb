package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

// ---- deep copies and scribbling ----

// writable gives access to unexported fields of addressable values
func writable(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// addressed copies a value into addressable memory
func addressed(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

// deepClone returns an addressable copy which shares nothing with v
func deepClone(v reflect.Value, seen map[visit]reflect.Value) reflect.Value {
	t := v.Type()
	out := reflect.New(t).Elem()
	v = writable(v)
	switch t.Kind() {
	case reflect.String:
		out.SetString(strings.Clone(v.String()))
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		n := reflect.MakeSlice(t, v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepClone(v.Index(i), seen))
		}
		out.Set(n)
	case reflect.Array:
		if !v.CanAddr() {
			v = addressed(v)
		}
		for i := 0; i < v.Len(); i++ {
			writable(out.Index(i)).Set(deepClone(writable(v.Index(i)), seen))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		m := reflect.MakeMapWithSize(t, v.Len())
		for _, k := range v.MapKeys() {
			ck := k
			if k.Kind() == reflect.String { // keys may compare by pointer
				ck = deepClone(k, seen)
			}
			m.SetMapIndex(ck, deepClone(v.MapIndex(k), seen))
		}
		out.Set(m)
	case reflect.Ptr:
		if v.IsNil() {
			return out
		}
		key := visit{v.Pointer(), 0, t}
		if p, ok := seen[key]; ok {
			out.Set(p)
			return out
		}
		p := reflect.New(t.Elem())
		out.Set(p.Convert(t))
		seen[key] = out
		p.Elem().Set(deepClone(v.Elem(), seen))
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(deepClone(v.Elem(), seen))
		}
	case reflect.Struct:
		if !v.CanAddr() {
			v = addressed(v)
		}
		for i := 0; i < t.NumField(); i++ {
			writable(out.Field(i)).Set(deepClone(writable(v.Field(i)), seen))
		}
	default:
		out.Set(v)
	}
	return out
}

func clone(v reflect.Value) reflect.Value { return deepClone(v, map[visit]reflect.Value{}) }

// scribble writes junk into the memory a value owns: the spare capacity of
// its slices, and, with all, every element, entry and pointee
func scribble(v reflect.Value, all bool, depth int) {
	if depth > 40 {
		return
	}
	v = writable(v)
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		full := v.Slice3(0, v.Cap(), v.Cap())
		from := v.Len()
		if all {
			for i := 0; i < v.Len(); i++ {
				scribble(v.Index(i), all, depth+1)
			}
			from = 0
		} else {
			for i := 0; i < v.Len(); i++ {
				scribble(v.Index(i), all, depth+1)
			}
		}
		for i := from; i < full.Len(); i++ {
			if v.Type().Elem().Kind() == reflect.Uint8 {
				full.Index(i).SetUint(0xAA)
			} else {
				full.Index(i).Set(reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), all, depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := addressed(v.MapIndex(k))
			scribble(e, all, depth+1)
			if all {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem(), all, depth+1)
			if all {
				v.Elem().Set(reflect.Zero(v.Type().Elem()))
			}
		}
	case reflect.Interface:
		if !v.IsNil() {
			e := v.Elem()
			switch e.Kind() {
			case reflect.Struct, reflect.Array:
				e = addressed(e)
			}
			scribble(e, all, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i), all, depth+1)
		}
	}
}

// ---- retained results ----

// retained is something which no later event may change
type retained struct {
	what string
	now  reflect.Value // pointer or slice owned by the test
	then reflect.Value
	err  error
	errT string
	dead bool
}

type isoCase struct {
	c     *C
	r     *Rand
	kept  []*retained
	input []isoInput
}

type isoInput struct {
	what string
	mem  []byte // whole memory with canaries
	copy []byte
	done bool
}

func (k *isoCase) keep(what string, v reflect.Value) {
	k.kept = append(k.kept, &retained{what: what, now: v, then: clone(v)})
}

func (k *isoCase) keepErr(what string, err error) {
	if err == nil {
		return
	}
	k.kept = append(k.kept, &retained{what: what, err: err, errT: strings.Clone(err.Error())})
	k.c.Feat("error retained")
}

// newInput copies text into memory which is scribbled over later
func (k *isoCase) newInput(what string, text []byte) []byte {
	pre, post := k.r.Intn(3)*8, k.r.Intn(4)*16
	mem := make([]byte, pre+len(text)+post)
	for i := range mem {
		mem[i] = 0xC5
	}
	copy(mem[pre:], text)
	k.input = append(k.input, isoInput{what: what, mem: mem, copy: append([]byte(nil), mem...)})
	if k.r.Bool() {
		return mem[pre : pre+len(text) : pre+len(text)]
	}
	return mem[pre : pre+len(text)]
}

func (k *isoCase) checkInputs(when string) {
	for i := range k.input {
		in := &k.input[i]
		if !bytes.Equal(in.mem, in.copy) {
			k.c.Failf("%s: the input of %s (or memory next to it) was changed\n before %s\n after  %s", when, in.what, q(in.copy), q(in.mem))
		}
	}
}

func (k *isoCase) check(when string) {
	for _, x := range k.kept {
		if x.dead {
			continue
		}
		if x.err != nil {
			if t := x.err.Error(); t != x.errT {
				k.c.Failf("%s: the text of the error of %s changed from %s to %s", when, x.what, q([]byte(x.errT)), q([]byte(t)))
			}
			continue
		}
		if d := same(x.then, x.now, cmpOpt{}); d != "" {
			k.c.Failf("%s: the result of %s changed at %s", when, x.what, d)
		}
	}
}

// scribbleInputs overwrites all inputs
func (k *isoCase) scribbleInputs() {
	for i := range k.input {
		in := &k.input[i]
		for j := range in.mem {
			in.mem[j] = "x\"5}]\\"[(j+i)%6]
		}
		copy(in.copy, in.mem)
	}
	k.c.Feat("inputs overwritten")
}

// hook outputs which must not be touched
type bufJ struct{ b []byte }

func (b bufJ) MarshalJSON() ([]byte, error) { return b.b, nil }

type bufT struct{ b []byte }

func (b bufT) MarshalText() ([]byte, error) { return b.b, nil }

// keepJ retains a copy of what it was given
type keepJ struct{ B []byte }

func (k *keepJ) UnmarshalJSON(b []byte) error { k.B = append([]byte(nil), b...); return nil }

type keepT struct{ S string }

func (k *keepT) UnmarshalText(b []byte) error { k.S = string(b); return nil }

type isoDst struct {
	S    string
	B    []byte
	R    json.RawMessage
	N    json.Number
	I    interface{}
	M    map[string]string
	MM   map[string]json.RawMessage
	L    []string
	LL   [][]byte
	LR   []json.RawMessage
	J    keepJ
	T    keepT
	MT   map[TStr]string
	P    *string
	Q    string `json:",string"`
	A    [2]string
	MI   map[string]interface{}
	Sub  []isoSub
	SubM map[string]isoSub
}
type isoSub struct {
	S string
	R json.RawMessage
	I interface{}
}

var isoTypes = []reflect.Type{tOf(isoDst{}), tOf(isoDst{}), tOf([]isoSub{}), tOf(""), tOf([]byte{}), rawType, numberType, tOf([]string{}), tOf(map[string]string{}), tOf([]json.RawMessage{}), efaceType, efaceType, tOf([]interface{}{}), tOf(map[string]interface{}{}), tOf(map[TStr]json.Number{}), tOf([][]byte{}), tOf([3]json.RawMessage{}), tOf(keepT{}), tOf(isoSub{}), tOf([]*string{}), tOf(map[string][]string{})}

func (k *isoCase) text(t reflect.Type) []byte {
	r := k.r
	b := textFor(r, t, r.Intn(2), r.P(5))
	if r.P(25) {
		b = padText(r, b)
	}
	if r.P(15) {
		b = mutate(r, b)
	}
	return b
}

func (k *isoCase) opDecode() {
	r := k.r
	t := isoTypes[r.Intn(len(isoTypes))]
	if r.P(20) {
		t = genTyped(r)
	}
	text := k.text(t)
	cfg := rot.D()
	dst := reflect.New(t)
	var err error
	what := ""
	switch r.Intn(8) {
	case 0, 1:
		what = "Unmarshal"
		err = cfg.Unmarshal(k.newInput(what, text), dst.Interface())
	case 2:
		what = "UnmarshalFromString"
		in := k.newInput(what, text)
		err = cfg.UnmarshalFromString(unsafe.String(unsafe.SliceData(in), len(in)), dst.Interface())
	case 3:
		what = "UnmarshalFromReader"
		err = cfg.UnmarshalFromReader(genReader(r, k.newInput(what, text)), dst.Interface())
	case 4:
		what = "UnmarshalFromReader of a bytes.Buffer"
		err = cfg.UnmarshalFromReader(bytes.NewBuffer(k.newInput(what, text)), dst.Interface())
	case 5:
		what = "Decoder"
		d := cfg.NewDecoder(genReader(r, k.newInput(what, text)))
		err = d.Decode(dst.Interface())
		if r.Bool() {
			var more interface{}
			k.keepErr("the second Decode", d.Decode(&more))
		}
		d.Release()
	case 6:
		what = "Iterator.ReadVal"
		it := cfg.NewIterator()
		it.ResetBytes(k.newInput(what, text))
		err = it.ReadVal(dst.Interface())
		if err != nil {
			k.keepErr("WrapError", it.WrapError(err))
		}
		if r.Bool() {
			it.Release()
		} else { // used again instead
			it.ResetBytes([]byte(`{"zzzzzzzz":"yyyyyyyyyy\n","b":[1,2,3]}`))
			it.Read()
			it.Release()
		}
	case 7:
		what = "Iterator.ReadVal (reader)"
		it := cfg.NewIterator()
		it.Reset(genReader(r, k.newInput(what, text)))
		err = it.ReadVal(dst.Interface())
		it.Release()
	}
	what += " into " + typeStr(t) + " of " + q(text)
	if err != nil {
		k.keepErr(what, err)
		return
	}
	k.keep(what, dst.Elem())
	k.c.Feat("decoded value retained")
}

// opWalk collects everything an iterator hands out for keeps
func (k *isoCase) opWalk() {
	r := k.r
	g := TG{R: r, MaxDepth: 4, Budget: 20, WS: 20}
	g.value(0)
	text := g.b
	if r.P(25) {
		text = padText(r, text)
	}
	it := jzon.NewIterator()
	in := k.newInput("a walk", text)
	if r.Bool() {
		it.ResetBytes(in)
	} else {
		it.Reset(genReader(r, in))
	}
	var strs []string
	var raws [][]byte
	var vals []interface{}
	var walk func(it *jzon.Iterator) error
	walk = func(it *jzon.Iterator) error {
		vt, err := it.NextValueType()
		if err != nil {
			return err
		}
		if r.P(12) {
			b, err := it.ReadRaw()
			raws = append(raws, b)
			return err
		}
		if r.P(12) {
			b, err := it.AppendRaw(make([]byte, 0, r.Intn(40)))
			raws = append(raws, b)
			return err
		}
		if r.P(12) {
			v, err := it.Read()
			vals = append(vals, v)
			return err
		}
		switch vt {
		case jzon.StringValue:
			switch r.Intn(4) {
			case 0:
				b, err := it.ReadStringAndAppend(make([]byte, 0, r.Intn(20)))
				raws = append(raws, b)
				return err
			case 1:
				b, err := it.ReadStringAndAppend(nil)
				raws = append(raws, b)
				return err
			case 2:
				var s string
				err := it.ReadVal(&s)
				strs = append(strs, s)
				return err
			}
			s, err := it.ReadString()
			strs = append(strs, s)
			return err
		case jzon.NumberValue:
			if r.Bool() {
				n, err := it.ReadNumber()
				strs = append(strs, string(n))
				return err
			}
			return it.Skip()
		case jzon.ArrayValue:
			if r.Bool() {
				return it.ReadArrayCB(walk)
			}
			more, err := it.ReadArrayBegin()
			for ; more; more, err = it.ReadArrayMore() {
				if err := walk(it); err != nil {
					return err
				}
			}
			return err
		case jzon.ObjectValue:
			if r.Bool() {
				return it.ReadObjectCB(func(it *jzon.Iterator, f string) error {
					strs = append(strs, f)
					return walk(it)
				})
			}
			more, f, err := it.ReadObjectBegin()
			for ; more; more, f, err = it.ReadObjectMore() {
				strs = append(strs, f)
				if err := walk(it); err != nil {
					return err
				}
			}
			return err
		}
		return it.Skip()
	}
	err := walk(it)
	it.Release()
	if err != nil && !numRange(refDoc(text)) {
		k.c.Failf("walk of %s fails: %v", q(text), err)
	}
	what := "a walk of " + q(text)
	k.keep(what+" (strings)", reflect.ValueOf(&strs).Elem())
	k.keep(what+" (raws)", reflect.ValueOf(&raws).Elem())
	k.keep(what+" (values)", reflect.ValueOf(&vals).Elem())
	k.c.Feat("walk retained")
}

func (k *isoCase) opEncode() {
	r := k.r
	cfg := rot.E()
	var v reflect.Value
	hook := r.P(40)
	if hook {
		b := make([]byte, 40)
		for i := range b {
			b[i] = 0xC5
		}
		n := copy(b, `["h"]`)
		t := make([]byte, 40)
		copy(t, `<a&b>`)
		in := isoInput{what: "the marshal hook", mem: b, copy: append([]byte(nil), b...)}
		in2 := isoInput{what: "the text hook", mem: t, copy: append([]byte(nil), t...)}
		k.input = append(k.input, in, in2)
		x := []interface{}{bufJ{b[:n]}, bufT{t[:5]}, json.RawMessage(b[:n]), b[:n], map[string]interface{}{"x": bufJ{b[:n]}, "y": &bufT{t[:5]}}, struct{ R json.RawMessage }{b[:n]}}
		v = reflect.ValueOf(&x[r.Intn(len(x))]).Elem()
	} else {
		t, pr := genEncType(r)
		v = reflect.New(t).Elem()
		g := VG{R: r}
		g.fill(v)
		if pr {
			v = v.Addr()
		}
	}
	before := clone(v)
	var out []byte
	var err error
	what := ""
	switch r.Intn(4) {
	case 0, 1, 2:
		what = "Marshal"
		out, err = cfg.Marshal(v.Interface())
	case 3:
		what = "Encoder"
		var w bytes.Buffer
		e := cfg.NewEncoder(&w)
		err = e.Encode(v.Interface())
		e.Release()
		out = w.Bytes()
	}
	if d := same(before, v, cmpOpt{}); d != "" {
		k.c.Failf("%s changed the encoded value at %s", what, d)
	}
	what += fmt.Sprintf(" of a %s", typeStr(v.Type()))
	if err != nil {
		k.keepErr(what, err)
		return
	}
	k.keep(what, reflect.ValueOf(&out).Elem())
	if !hook {
		k.keep("the encoded value of "+what, v)
	}
	k.c.Feat("output retained")
}

// opOld: slices of an earlier result stay as they are when the destination
// is used again
func (k *isoCase) opOld() {
	type dst struct {
		A []int
		B []string
		C []byte
		D [][]byte
		E []EInner
		F []interface{}
	}
	var d dst
	r := k.r
	if jzon.Unmarshal(textFor(r, tOf(d), 0, false), &d) != nil {
		return
	}
	old := d
	k.keep("an earlier decode into the same struct", reflect.ValueOf(&old).Elem())
	jzon.Unmarshal(textFor(r, tOf(d), 1, false), &d)
	k.c.Feat("destination used again")
}

// churn uses the pools
func (k *isoCase) churn() {
	r := k.r
	for i := r.Range(1, 3); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			var x interface{}
			jzon.UnmarshalFromReader(genReader(r, genValid(r, false)), &x)
		case 1:
			jzon.Marshal(map[string]interface{}{"churn": []string{"zzzzzzzzzzzzzzzzzzzzzz", "<>&\u2028"}, "n": 1.5})
		case 2:
			var x isoDst
			jzon.Unmarshal(textFor(r, tOf(x), 0, false), &x)
		case 3:
			it := jzon.NewIterator()
			it.Reset(genReader(r, []byte(`["`+strings.Repeat("\\u00e9z", r.Intn(200))+`",{"k":`+strings.Repeat(" ", r.Intn(600))+`1}]`)))
			if r.Bool() {
				it.Read()
			} else {
				it.SkipRaw()
			}
			it.Release()
		case 4:
			s := jzon.NewStreamer()
			s.ArrayStart().String(strings.Repeat("q\"", r.Intn(300))).Value([]int{1, 2, 3}).ArrayEnd()
			s.Release()
		case 5:
			jzon.Valid(genText(r))
		}
	}
}

func engAlias(c *C) {
	k := &isoCase{c: c, r: c.R}
	r := c.R
	n := r.Range(2, 5)
	for i := 0; i < n; i++ {
		switch r.Intn(10) {
		case 0, 1, 2, 3, 4:
			k.opDecode()
		case 5, 6:
			k.opWalk()
		case 7, 8:
			k.opEncode()
		case 9:
			k.opOld()
		}
		c.Seen(c.R.U64(), true)
		if r.P(50) {
			k.churn()
		}
		if r.P(60) {
			k.checkInputs("after later calls")
			k.scribbleInputs()
		}
		if r.P(50) {
			k.check("after later calls and overwriting the inputs")
		}
		if r.P(30) {
			for _, x := range k.kept {
				if !x.dead && x.err == nil && !strings.HasPrefix(x.what, "the encoded value") {
					scribble(x.now, false, 0)
				}
			}
			k.c.Feat("spare capacity overwritten")
			k.check("after writing behind the end of all slices")
		}
	}
	k.checkInputs("at the end")
	k.scribbleInputs()
	k.churn()
	k.check("at the end")
	// change results one after the other
	for i, x := range k.kept {
		if x.err != nil || strings.HasPrefix(x.what, "the encoded value") || strings.HasPrefix(x.what, "an earlier") {
			continue
		}
		x.dead = true
		scribble(x.now, true, 0)
		k.c.Feat("result overwritten")
		k.check(fmt.Sprintf("after changing result %d (%s)", i, clip(x.what, 200)))
	}
}

// ---- leftover state ----

type panicJ struct{ A int }

func (panicJ) MarshalJSON() ([]byte, error) { panic(errUser) }
func (*panicJ) UnmarshalJSON([]byte) error  { panic(errUser) }

type panicT struct{ A int }

func (panicT) MarshalText() ([]byte, error) { panic(errUser) }
func (*panicT) UnmarshalText([]byte) error  { panic(errUser) }

type freshT struct {
	A int             `json:"a"`
	B string          `json:"<b>"`
	I interface{}     `json:"i"`
	R json.RawMessage `json:"r,omitempty"`
	S *freshT         `json:"s,omitempty"`
	M map[string]int  `json:"m,omitempty"`
}

func noPanic(f func()) {
	defer func() {
		if r := recover(); r != nil && r != interface{}(errUser) {
			panic(r)
		}
	}()
	f()
}

var badReader = errors.New("broken reader")

// pollute leaves as much state behind as a user can
func pollute(r *Rand, dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) string {
	k := r.Intn(20)
	switch k {
	case 0:
		d := dc.NewDecoder(genReader(r, []byte(`{"i":1,"zz":2} [1,2`)))
		d.UseNumber()
		d.DisallowUnknownFields()
		var x freshT
		d.Decode(&x)
		if r.Bool() {
			var y interface{}
			d.Decode(&y)
		}
		d.Release()
		return "decoder with options"
	case 1:
		it := dc.NewIterator()
		it.Context = "left over"
		it.Reset(genReader(r, []byte(`[[[{"a":`)))
		it.Context = "left over again"
		it.ReadArrayBegin()
		it.ReadArrayBegin()
		it.Release()
		return "iterator in the middle"
	case 2:
		it := dc.NewIterator()
		it.ResetBytes([]byte(`   {"a":1,"b":[1,2,{"c":"\u00`))
		it.Context = r
		it.Read()
		it.Release()
		return "iterator after an error"
	case 3:
		it := dc.NewIterator()
		it.Reset(&chunkReader{data: []byte(`{"key":[1,2,3,"some`), sizes: []int{5}, err: badReader})
		if r.Bool() {
			it.SkipRaw()
		} else {
			var x freshT
			it.ReadVal(&x)
		}
		it.Release()
		return "iterator after a reader error while capturing"
	case 4:
		s := ec.NewStreamer()
		s.EscapeHTML(r.Bool())
		s.Context = "left over"
		s.ObjectStart().Field("a").ArrayStart().Int(5)
		s.Release()
		return "streamer in the middle"
	case 5:
		s := ec.NewStreamer()
		s.Reset(io.Discard)
		s.EscapeHTML(r.Bool())
		s.Context = 5
		s.ArrayStart().Value(make(chan int))
		s.Release()
		return "streamer after an error"
	case 6:
		e := ec.NewEncoder(&faultWriter{plan: []wfault{{accept: 2, err: errInjected}}})
		e.SetEscapeHTML(false)
		e.Encode(map[string]string{"<a>": "&"})
		e.Release()
		return "encoder after a writer error"
	case 7:
		noPanic(func() { ec.Marshal([]interface{}{1, "<x>", panicJ{}}) })
		return "Marshal with a panicking hook"
	case 8:
		noPanic(func() { ec.Marshal(map[string]interface{}{"a": []interface{}{panicT{}}}) })
		return "Marshal with a panicking text hook"
	case 9:
		noPanic(func() { var x []panicJ; dc.Unmarshal([]byte(`[1,2]`), &x) })
		return "Unmarshal with a panicking hook"
	case 10:
		noPanic(func() { var x map[string]panicT; dc.UnmarshalFromReader(genReader(r, []byte(`{"a":"b"}`)), &x) })
		return "reader with a panicking text hook"
	case 11:
		var a, b interface{}
		a, b = &b, &a
		dc.Unmarshal([]byte(`1`), a)
		return "interface loop"
	case 12:
		d := dc.NewDecoder(&chunkReader{data: []byte(`1 2`), err: badReader})
		d.DisallowUnknownFields()
		var x int
		d.Decode(&x)
		d.Decode(&x)
		d.Decode(&x)
		d.Release()
		return "decoder after a reader error"
	case 13:
		e := ec.NewEncoder(io.Discard)
		e.SetEscapeHTML(false)
		e.Encode(make(chan int))
		e.Release()
		return "encoder after an error"
	case 14:
		var x freshT
		dc.UnmarshalFromReader(genReader(r, []byte(`{"i":{"a":"`+strings.Repeat(`\u00e9x`, r.Intn(400)))), &x)
		return "truncated string"
	case 15:
		var x interface{}
		dc.Unmarshal([]byte(strings.Repeat("[", r.Intn(300))+strings.Repeat(`{"a":`, r.Intn(300))), &x)
		return "truncated nesting"
	case 16:
		dc.NewIterator().Skip()
		it := dc.NewIterator()
		it.Valid([]byte(strings.Repeat("[{\"a\":", r.Intn(100))))
		it.Release()
		return "truncated skip"
	case 17:
		noPanic(func() {
			e := ec.NewEncoder(&panicWriter{})
			defer e.Release()
			e.SetEscapeHTML(false)
			e.Encode("<>")
		})
		return "panicking writer"
	case 18:
		noPanic(func() {
			d := dc.NewDecoder(panicReader{})
			defer d.Release()
			d.UseNumber()
			var x interface{}
			d.Decode(&x)
		})
		return "panicking reader"
	default:
		it := dc.NewIterator()
		noPanic(func() {
			it.Reset(genReader(r, []byte(`{"a":[1,2,3],"b":"c"}`)))
			it.Context = 7
			it.ReadObjectCB(func(it *jzon.Iterator, f string) error { panic(errUser) })
		})
		it.Release()
		return "panicking callback"
	}
}

type panicWriter struct{}

func (*panicWriter) Write(p []byte) (int, error) { panic(errUser) }

type panicReader struct{}

func (panicReader) Read(p []byte) (int, error) { panic(errUser) }

// probe uses new objects as if nothing had happened before
func probe(c *C, r *Rand, dc *jzon.DecoderConfig, ec *jzon.EncoderConfig, after string) {
	bad := func(f string, a ...interface{}) {
		c.Failf("after %s: %s", after, fmt.Sprintf(f, a...))
	}
	doc := []byte(`{"a":5,"<b>":"<&>\u00e9","i":[1,{"x":2.5,"s":"é\n"}],"zz":{"deep":[1,2,[3]]},"r": [1, 2] ,"s":{"a":7,"unknown":true,"i":1e2},"m":{"k":1}}`)
	stdWant := func() freshT {
		var w freshT
		if err := json.Unmarshal(doc, &w); err != nil {
			panic(harnessErr("%v", err))
		}
		return w
	}
	cmpT := func(what string, got freshT, err error) {
		if err != nil {
			bad("%s fails: %v", what, err)
		}
		if d := sameI(stdWant(), got, cmpOpt{}); d != "" {
			bad("%s differs from encoding/json at %s", what, d)
		}
	}
	val := map[string]interface{}{"<a>": "<&>\u2028"}
	wantDoc, _ := json.Marshal(val)
	switch r.Intn(14) {
	case 0:
		it := dc.NewIterator()
		if it.Context != nil {
			bad("a new iterator has the context %v", it.Context)
		}
		if len(it.Buffer()) != 0 {
			bad("a new iterator has %q in its buffer", it.Buffer())
		}
		if v, err := it.Read(); err == nil {
			bad("a new iterator reads %v", v)
		}
		it.Reset(genReader(r, doc))
		if it.Context != nil {
			bad("an iterator has the context %v after reset", it.Context)
		}
		var x freshT
		err := it.ReadVal(&x)
		cmpT("ReadVal from a reader", x, err)
		it.Release()
	case 1:
		it := dc.NewIterator()
		it.ResetBytes(doc)
		var x freshT
		err := it.ReadVal(&x)
		cmpT("ReadVal", x, err)
		if it.Context != nil {
			bad("context %v", it.Context)
		}
		it.Release()
	case 2:
		d := dc.NewDecoder(genReader(r, append(append([]byte(" "), doc...), ' ')))
		if d.InputOffset() != 0 {
			bad("offset of a new decoder is %d", d.InputOffset())
		}
		if b, _ := io.ReadAll(d.Buffered()); len(b) != 0 {
			bad("a new decoder has %q buffered", b)
		}
		var x freshT
		err := d.Decode(&x)
		cmpT("Decode", x, err)
		if d.InputOffset() != int64(len(doc)+1) {
			bad("offset %d after %d bytes", d.InputOffset(), len(doc)+1)
		}
		if err := d.Decode(&x); err != io.EOF {
			bad("end of input gives %v", err)
		}
		d.Release()
	case 3:
		s := ec.NewStreamer()
		if s.Error != nil || s.Context != nil {
			bad("a new streamer has error %v, context %v", s.Error, s.Context)
		}
		if err := s.Flush(); err != jzon.ErrNoAttachedWriter {
			bad("a new streamer flushes with %v", err)
		}
		var w bytes.Buffer
		s.Reset(&w)
		if err := s.Value(val).Flush(); err != nil || !bytes.Equal(w.Bytes(), wantDoc) {
			bad("streamer gives %q %v, want %q", w.Bytes(), err, wantDoc)
		}
		s.Release()
	case 4:
		s := ec.NewStreamer()
		var w bytes.Buffer
		s.Reset(&w)
		if err := s.ArrayStart().String("<>").Int(1).ArrayEnd().Flush(); err != nil || w.String() != "[\"\\u003c\\u003e\",1]" {
			bad("streamer gives %q %v", w.Bytes(), err)
		}
		s.Release()
	case 5, 6:
		b, err := ec.Marshal(val)
		if err != nil || !bytes.Equal(b, wantDoc) {
			bad("Marshal gives %q %v, want %q", b, err, wantDoc)
		}
	case 7:
		var w bytes.Buffer
		e := ec.NewEncoder(&w)
		err := e.Encode(val)
		if err != nil || w.String() != string(wantDoc)+"\n" {
			bad("Encode gives %q %v, want %q", w.Bytes(), err, wantDoc)
		}
		e.Release()
	case 8:
		var x freshT
		err := dc.Unmarshal(doc, &x)
		cmpT("Unmarshal", x, err)
	case 9:
		var x freshT
		err := dc.UnmarshalFromReader(genReader(r, doc), &x)
		cmpT("UnmarshalFromReader", x, err)
	case 10:
		var x freshT
		err := dc.UnmarshalFromString(string(doc), &x)
		cmpT("UnmarshalFromString", x, err)
	case 11:
		it := dc.NewIterator()
		if !it.Valid(doc) || it.Valid(doc[:len(doc)-1]) || it.Valid(nil) {
			bad("Valid is wrong")
		}
		it.Reset(genReader(r, doc))
		raw, err := it.ReadRaw()
		if err != nil || !bytes.Equal(raw, doc) {
			bad("ReadRaw gives %s %v", q(raw), err)
		}
		it.Release()
	case 12: // errors say where they are, for this input only
		var x []int
		err := dc.Unmarshal([]byte(`[1,2,tru]`), &x)
		if err == nil || !strings.Contains(err.Error(), `[1,2,tru]`) {
			bad("error location is wrong: %v", err)
		}
	case 13:
		var x interface{}
		err := dc.Unmarshal([]byte(`{"a":[1,2.5]}`), &x)
		if d := sameI(map[string]interface{}{"a": []interface{}{1.0, 2.5}}, x, cmpOpt{}); err != nil || d != "" {
			bad("untyped decode: %v %s", err, d)
		}
	}
}

func engFresh(c *C) {
	r := c.R
	dc, ec := jzon.DefaultDecoderConfig, jzon.DefaultEncoderConfig
	var trail []string
	for i := r.Range(1, 6); i > 0; i-- {
		pd, pe := dc, ec
		if r.P(40) { // another configuration
			pd = jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true, DisallowUnknownFields: true, CaseSensitive: true, Tag: "other", OnlyTaggedField: true})
			pe = jzon.NewEncoderConfig(&jzon.EncoderOption{Tag: "other", OnlyTaggedField: true})
			c.Feat("other configuration")
		}
		what := pollute(r, pd, pe)
		trail = append(trail, what)
		c.Feat("left: " + what)
		c.Note("left behind: %s", strings.Join(trail, "; "))
		for j := r.Intn(3); j > 0; j-- {
			probe(c, r, dc, ec, strings.Join(trail, "; "))
			c.Feat("probes")
		}
	}
	probe(c, r, dc, ec, strings.Join(trail, "; "))
	c.Seen(hashStr(strings.Join(trail, ";")), true)
	c.Sample("%s", strings.Join(trail, "; "))
}

// ---- order of first use ----

type OA struct {
	N int   `json:"n"`
	B *OB   `json:"b,omitempty"`
	L []OB  `json:"l,omitempty"`
	P **OA  `json:"p,omitempty"`
	Q int   `json:"q,string"`
	X OD    `json:"x"`
	Y *OD   `json:"y,omitempty"`
	Z []*OE `json:"z,omitempty"`
}
type OB struct {
	M map[string]OA `json:"m,omitempty"`
	A [1]*OA        `json:"a"`
	I interface{}   `json:"i,omitempty"`
	D []OD          `json:"d,omitempty"`
}
type OD struct{ V *int }
type OE struct {
	OD
	*OF
	J JPtrShape
	T TPtrShape
}
type OF struct{ W int }

var orderBase = []reflect.Type{tOf(OA{}), tOf(OB{}), tOf(OD{}), tOf(OE{}), tOf(OF{}), tOf(RTree{}), tOf(RA{}), tOf(RB{}), tOf(RList{}), tOf(RMap{}), tOf(RSlice{}), tOf(0), tOf(""), tOf(NInt(0)), tOf(NStr("")), tOf(uint8(0)), tOf(NByte(0)), tOf(VByte(0)), tOf(PByte(0)), tOf(PJ{}), tOf(PT{}), tOf(JInt(0)), tOf(JPtrShape{}), tOf(TPtrShape{}), tOf(TStr("")), tOf(TStruct{}), tOf(JMap{}), tOf(JSlice{}), tOf(JT{}), tOf(EOuter{}), tOf(EDeep{}), tOf(struct{}{}), tOf([0]int{}), tOf(json.Number("")), tOf(json.RawMessage{}), efaceType, tOf([1]*int{}), tOf(struct{ P *int }{}), tOf(map[string]int{}), tOf([]byte{}), tOf(freshT{})}

// related wraps a type
func related(r *Rand, t reflect.Type, depth int) reflect.Type {
	switch r.Intn(9) {
	case 0:
		return t
	case 1:
		t = reflect.PtrTo(t)
	case 2:
		t = reflect.SliceOf(t)
	case 3:
		t = reflect.ArrayOf(r.Range(0, 2), t)
	case 4:
		t = reflect.MapOf(tOf(""), t)
	case 5:
		t = reflect.StructOf([]reflect.StructField{{Name: "F", Type: t}})
	case 6:
		t = reflect.StructOf([]reflect.StructField{{Name: "F", Type: t, Tag: `json:",omitempty"`}, {Name: "G", Type: reflect.PtrTo(t)}})
	case 7:
		t = reflect.SliceOf(reflect.PtrTo(t))
	case 8:
		t = reflect.ArrayOf(1, t)
	}
	if depth > 0 && r.Bool() {
		return related(r, t, depth-1)
	}
	return t
}

func prIn(t reflect.Type) bool {
	s := t.String()
	return strings.Contains(s, "main.P") && (strings.Contains(s, "PJ") || strings.Contains(s, "PT") || strings.Contains(s, "PByte"))
}

// engOrder: what is encoded and decoded does not depend on which related
// types were used before on the configuration
func engOrder(c *C) {
	r := c.R
	dc, ec := jzon.NewDecoderConfig(nil), jzon.NewEncoderConfig(nil)
	base := []reflect.Type{orderBase[r.Intn(len(orderBase))], orderBase[r.Intn(len(orderBase))]}
	if r.P(30) {
		base = append(base, genTyped(r))
	}
	var trail []string
	for i := r.Range(3, 8); i > 0; i-- {
		t := related(r, base[r.Intn(len(base))], 1)
		trail = append(trail, typeStr(t))
		if r.Bool() {
			v := reflect.New(t).Elem()
			g := VG{R: r, OneEntry: r.P(70)}
			if !r.P(15) {
				g.fill(v)
			}
			var root interface{} = v.Interface()
			how := "value"
			if prIn(t) || r.P(30) {
				root = v.Addr().Interface()
				how = "pointer"
				if prIn(t) && strings.Contains(t.String(), "map[") {
					continue // unaddressable pointer receivers
				}
			}
			c.Note("order of types, encode %s: %s", how, strings.Join(trail, " | "))
			a, aErr := stdEncode(root, true)
			b, bErr := ec.Marshal(root)
			judgeEnc(c, "Marshal of a "+how+" after "+clip(strings.Join(trail, " | "), 1500), func() string { return clip(fmt.Sprintf("%+v", v), 500) }, g.OneEntry, a, aErr, b, bErr)
			c.Feat("encode in order")
		} else {
			text := textFor(r, t, 0, false)
			c.Note("order of types, decode: %s: %s", strings.Join(trail, " | "), q(text))
			std, jz := reflect.New(t), reflect.New(t)
			stdE := json.Unmarshal(text, std.Interface())
			jzE := dc.Unmarshal(text, jz.Interface())
			judgeTyped(c, "Unmarshal after "+clip(strings.Join(trail, " | "), 1500), t, text, stdE, jzE, std, jz)
			c.Feat("decode in order")
		}
		c.Seen(hashStr(strings.Join(trail, "|")), true)
	}
	c.Sample("%s", strings.Join(trail, " | "))
}

func init() {
	reg("alias", engAlias, "decoded value retained", "walk retained", "output retained", "error retained", "inputs overwritten", "spare capacity overwritten", "result overwritten", "destination used again")
	reg("fresh", engFresh, "probes", "other configuration", "left: panicking callback", "left: panicking writer", "left: Marshal with a panicking hook", "left: decoder with options", "left: streamer after an error", "left: interface loop")
	reg("order", engOrder, "encode in order", "decode in order")
	prop(&Prop{ID: "C12", Level: "exploration",
		Rule:        "each case retains the results of several calls (decoded values, iterator results, outputs, errors), overwrites inputs, spare capacity and other results and keeps using the pools, and compares every result with a deep copy taken when it was produced (alias); or leaves options, contexts, errors, partial documents and panics behind and probes new objects (fresh); or uses families of related types in random order on a new configuration against encoding/json (order); or decodes and encodes texts of every size up to 8192 and around the larger allocation classes while retaining the results (sizes); a case is a distinct history",
		Assumptions: []string{"the spare capacity of a returned slice belongs to the result", "encoding/json of go1.23 outside the exceptions stated in C03 and C07"},
		Variants:    plain(Run{"alias", 160000, 3000000}, Run{"fresh", 150000, 2500000}, Run{"order", 90000, 1500000}, Run{"live", 25000, 500000}, Run{"sizes", 1053, 20000}),
	})
}
