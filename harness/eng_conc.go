package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

// ---- C13 ----

// yield points injected into readers, writers, hooks and custom coders; no
// synchronisation of its own, so that the race detector sees the library's
func yields(n int) {
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}

type yInt int

type yIntDec struct{ n int }

func (d yIntDec) Decode(p unsafe.Pointer, it *jzon.Iterator, o *jzon.DecOpts) error {
	yields(d.n)
	i, err := it.ReadInt()
	*(*yInt)(p) = yInt(i + 1000)
	return err
}

type yIntEnc struct{ n int }

func (e yIntEnc) IsEmpty(p unsafe.Pointer) bool { return p == nil || *(*yInt)(p) == 0 }
func (e yIntEnc) Encode(p unsafe.Pointer, s *jzon.Streamer, o *jzon.EncOpts) {
	yields(e.n)
	if s.Error != nil {
		return
	}
	if p == nil { // a nil *yInt
		s.Null()
		return
	}
	s.Int(int(*(*yInt)(p)) - 1000)
}

// yNest uses the library inside its hooks
type yNest struct {
	M map[string]interface{}
	B []byte
}

func (y yNest) MarshalJSON() ([]byte, error) {
	yields(1)
	b, err := jzon.Marshal(len(y.M))
	if err != nil {
		return nil, err
	}
	yields(1)
	return []byte(fmt.Sprintf(`{"n":%s,"b":%q}`, b, fmt.Sprintf("%x", y.B))), nil
}

func (y *yNest) UnmarshalJSON(b []byte) error {
	yields(1)
	y.B = append([]byte(nil), b...)
	y.M = nil
	if err := jzon.Unmarshal(b, &y.M); err != nil {
		y.M = nil
	}
	yields(1)
	return nil
}

type yText string

func (y yText) MarshalText() ([]byte, error) { yields(1); return []byte("y" + string(y)), nil }
func (y *yText) UnmarshalText(b []byte) error {
	s := string(b)
	yields(2)
	if s != string(b) {
		return errors.New("the bytes given to the hook changed while it ran")
	}
	*y = yText(s)
	return nil
}

type yWide struct {
	A, B, C, D, E, F, G, H, I, J, K, L int `json:",omitempty"`
	Name                               string
	Y                                  yInt
	N                                  yNest
	T                                  yText
	S                                  []yWide          `json:"s,omitempty"`
	M                                  map[yText]*yWide `json:"m,omitempty"`
	P                                  *yWide           `json:"p,omitempty"`
	X                                  interface{}      `json:"x,omitempty"`
	Q                                  int64            `json:"q,string"`
	Raw                                json.RawMessage  `json:"raw,omitempty"`
	By                                 []byte           `json:"by,omitempty"`
	Num                                json.Number      `json:"num,omitempty"`
	F3                                 float32          `json:"f3"`
	F6                                 float64          `json:"f6"`
	U                                  map[uint8]bool   `json:"u,omitempty"`
	Ar                                 [2]*yText        `json:"ar"`
}

type ySmall struct {
	Key string `json:"key"`
	Val yInt   `json:"val"`
	Nx  *ySmall
}
type yOne struct {
	Only []yOne `json:"only,omitempty"`
}

var yTypes = []reflect.Type{tOf(yWide{}), tOf(yWide{}), tOf(ySmall{}), tOf(yOne{}), tOf(yNest{}), tOf(yText("")), tOf(yInt(0)), tOf(map[yText]ySmall{}), tOf([]yInt{}), efaceType, tOf(map[string]interface{}{})}

func init() {
	specs[tOf(yNest{})] = typeSpec{text: func(r *Rand) string {
		return r.Str([]string{`{"a":1}`, `[1,2]`, `null`, `{"k":"<é>"}`, `{"a":{"b":[1,{}]}}`, `3`})
	}, fill: func(v reflect.Value, r *Rand) {
		v.Set(reflect.ValueOf(yNest{M: map[string]interface{}{"a": 1.0}, B: []byte(r.Str([]string{"", "abc", "\x00\xff"}))}))
	}}
	specs[tOf(yText(""))] = typeSpec{text: func(r *Rand) string {
		return r.Str([]string{`""`, `"a"`, `"\u00e9\n"`, `"long text 0123456789"`, `"<&>"`})
	}, fill: func(v reflect.Value, r *Rand) {
		v.SetString(r.Str([]string{"", "a", "b", "é", "<>"}))
	}}
}

type task struct {
	name string
	run  func(dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) taskOut
}

type taskOut struct {
	vals  []reflect.Value
	bytes []byte
	err   error
	panic string
}

func (t *task) safe(dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) (o taskOut) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4000)
			o.panic = fmt.Sprintf("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
		}
	}()
	return t.run(dc, ec)
}

func (a taskOut) diff(b taskOut) string {
	if a.panic != b.panic {
		return "panic: " + a.panic + " versus " + b.panic
	}
	if (a.err == nil) != (b.err == nil) {
		return fmt.Sprintf("error %v versus %v", a.err, b.err)
	}
	if a.err != nil {
		return ""
	}
	if !bytes.Equal(a.bytes, b.bytes) {
		return q(a.bytes) + " versus " + q(b.bytes)
	}
	if len(a.vals) != len(b.vals) {
		return fmt.Sprintf("%d values versus %d", len(a.vals), len(b.vals))
	}
	for i := range a.vals {
		if d := same(a.vals[i], b.vals[i], cmpOpt{}); d != "" {
			return d
		}
	}
	return ""
}

func yReader(r *Rand, b []byte) *chunkReader {
	rd := genReader(r, b)
	n := r.Intn(3)
	rd.onRead = func() { yields(n) }
	return rd
}

type yWriter struct {
	bytes.Buffer
	n int
}

func (w *yWriter) Write(p []byte) (int, error) {
	yields(w.n)
	return w.Buffer.Write(p)
}

func concType(r *Rand, fam []reflect.Type) reflect.Type { return fam[r.Intn(len(fam))] }

// genTask makes an operation; shared inputs and values are only read
func genTask(r *Rand, fam []reflect.Type) task {
	t := concType(r, fam)
	seed := r.U64()
	switch k := r.Intn(16); {
	case k < 5: // decode
		text := typedText(r, t, false)
		rt := typedRoutes[r.Intn(len(typedRoutes))]
		return task{rt.name + " into " + typeStr(t) + " of " + q(text), func(dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) taskOut {
			v := reflect.New(t)
			err := rt.f(dc, text, newRand(seed), v.Interface())
			return taskOut{vals: []reflect.Value{v}, err: err}
		}}
	case k < 7: // reader with yields
		text := typedText(r, t, false)
		rt := readerRoutes[r.Intn(len(readerRoutes))]
		return task{rt.name + " (reader) into " + typeStr(t) + " of " + q(text), func(dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) taskOut {
			v := reflect.New(t)
			rr := newRand(seed)
			err := rt.f(dc, yReader(rr, text), rr, v.Interface())
			return taskOut{vals: []reflect.Value{v}, err: err}
		}}
	case k < 11: // encode one shared value
		v := reflect.New(t)
		g := VG{R: r, Deep: true, OneEntry: true}
		g.fill(v.Elem())
		root := v.Interface()
		if r.Bool() {
			root = v.Elem().Interface()
		}
		html := r.Bool()
		rt := encRoutes[r.Intn(len(encRoutes))]
		return task{rt.name + " of " + typeStr(t), func(dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) taskOut {
			b, err := rt.f(ec, root, html)
			return taskOut{bytes: b, err: err}
		}}
	case k < 12: // a decoder with options over a stream
		var s []byte
		n := r.Range(2, 5)
		for i := 0; i < n; i++ {
			s = append(append(s, textFor(r, t, 1, false)...), ' ')
		}
		num, dis := r.Bool(), r.Bool()
		return task{"Decoder stream of " + typeStr(t), func(dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) (o taskOut) {
			d := dc.NewDecoder(yReader(newRand(seed), s))
			defer d.Release()
			if num {
				d.UseNumber()
			}
			if dis {
				d.DisallowUnknownFields()
			}
			for i := 0; i < n; i++ {
				v := reflect.New(t)
				if o.err = d.Decode(v.Interface()); o.err != nil {
					return
				}
				o.vals = append(o.vals, v)
			}
			return
		}}
	case k < 13: // an encoder with options
		v := reflect.New(t)
		g := VG{R: r, Deep: true, OneEntry: true}
		g.fill(v.Elem())
		html := r.Bool()
		return task{"Encoder of " + typeStr(t), func(dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) (o taskOut) {
			w := &yWriter{n: 1}
			e := ec.NewEncoder(w)
			defer e.Release()
			e.SetEscapeHTML(html)
			for i := 0; i < 3; i++ {
				if o.err = e.Encode(v.Interface()); o.err != nil {
					return
				}
			}
			o.bytes = w.Bytes()
			return
		}}
	case k < 14: // iterator
		text := walkText(r)
		return task{"Iterator over " + q(text), func(dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) (o taskOut) {
			it := dc.NewIterator()
			defer it.Release()
			rr := newRand(seed)
			for i := 0; i < 3; i++ {
				if rr.Bool() {
					it.ResetBytes(text)
				} else {
					it.Reset(yReader(rr, text))
				}
				switch rr.Intn(4) {
				case 0:
					var x interface{}
					if x, o.err = it.Read(); o.err == nil {
						o.vals = append(o.vals, reflect.ValueOf(&x))
					}
				case 1:
					var b []byte
					if b, o.err = it.SkipRaw(); o.err == nil {
						o.bytes = append(o.bytes, b...)
					}
				case 2:
					o.err = it.Skip()
				case 3:
					var b []byte
					if b, o.err = it.ReadRaw(); o.err == nil {
						o.bytes = append(o.bytes, b...)
					}
				}
				if o.err != nil {
					return
				}
			}
			return
		}}
	case k < 15: // streamer
		str := genGoString(r, true)
		f := r.F64()
		return task{"Streamer", func(dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) (o taskOut) {
			s := ec.NewStreamer()
			defer s.Release()
			w := &yWriter{n: 1}
			s.Reset(w)
			s.EscapeHTML(seed&1 == 0)
			s.ObjectStart().Field(str).String(str).Field("f").Float64(f)
			o.err = s.Flush()
			s.Field("a").ArrayStart().Int64(int64(seed)).Null().True()
			yields(2)
			s.ArrayEnd().ObjectEnd()
			if o.err == nil {
				o.err = s.Flush()
			}
			o.bytes = w.Bytes()
			return
		}}
	default: // package level
		text := genText(r)
		return task{"Valid and Unmarshal of " + q(text), func(dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) (o taskOut) {
			var x interface{}
			ok := jzon.Valid(text)
			err := jzon.Unmarshal(text, &x)
			b, e := jzon.Marshal(ok)
			o.bytes, o.err = b, e
			if err == nil {
				o.vals = []reflect.Value{reflect.ValueOf(&x)}
			} else {
				o.bytes = append(o.bytes, '!')
			}
			return
		}}
	}
}

// genFamily picks types which are related to each other, so that their
// coders share parts
func genFamily(r *Rand) []reflect.Type {
	var base []reflect.Type
	switch r.Intn(6) {
	case 0, 1:
		base = yTypes
	case 2:
		i := r.Intn(len(gsTypes) - 4)
		base = gsTypes[i : i+4]
	case 3:
		base = []reflect.Type{genTyped(r), genTyped(r)}
	default:
		base = []reflect.Type{orderBase[r.Intn(len(orderBase))], orderBase[r.Intn(len(orderBase))], yTypes[r.Intn(len(yTypes))]}
	}
	var fam []reflect.Type
	for _, t := range base {
		if strings.Contains(fmt.Sprint(reachable(t)), "GHook") {
			continue
		}
		fam = append(fam, t)
	}
	if len(fam) == 0 {
		fam = []reflect.Type{tOf(yWide{})}
	}
	n := len(fam)
	for i := r.Intn(4); i > 0; i-- {
		fam = append(fam, related(r, fam[r.Intn(n)], 1))
	}
	return fam
}

func concCfgs(r *Rand) func() (*jzon.DecoderConfig, *jzon.EncoderConfig) {
	if r.P(15) {
		return func() (*jzon.DecoderConfig, *jzon.EncoderConfig) {
			return jzon.NewDecoderConfig(nil), jzon.NewEncoderConfig(nil)
		}
	}
	do := jzon.DecoderOption{CaseSensitive: r.P(30), UseNumber: r.P(30), DisallowUnknownFields: r.P(20), OnlyTaggedField: r.P(20)}
	eo := jzon.EncoderOption{EscapeHTML: r.Bool(), OnlyTaggedField: r.P(20)}
	if r.P(60) {
		do.ValDecoders = map[reflect.Type]jzon.ValDecoder{tOf(yInt(0)): yIntDec{r.Intn(2)}}
		eo.ValEncoders = map[reflect.Type]jzon.ValEncoder{tOf(yInt(0)): yIntEnc{r.Intn(2)}}
	}
	return func() (*jzon.DecoderConfig, *jzon.EncoderConfig) {
		return jzon.NewDecoderConfig(&do), jzon.NewEncoderConfig(&eo)
	}
}

type concEvent struct {
	t    time.Time
	g, i int
	end  bool
}

func engConc(c *C) {
	r := c.R
	fam := genFamily(r)
	mk := concCfgs(r)
	var tasks []task
	for i := r.Range(3, 9); i > 0; i-- {
		tasks = append(tasks, genTask(r, fam))
	}
	var names []string
	for i := range tasks {
		names = append(names, tasks[i].name)
	}
	c.Note("concurrent tasks: %s", strings.Join(names, " || "))
	want := make([]taskOut, len(tasks))
	sdc, sec := mk()
	for i := range tasks {
		want[i] = tasks[i].safe(sdc, sec)
		if want[i].panic != "" {
			c.Failf("alone, %s: %s", tasks[i].name, want[i].panic)
		}
	}
	g := r.Range(2, 8)
	type plan struct {
		ids    []int
		out    []taskOut
		ev     []concEvent
		yields []int
	}
	plans := make([]plan, g)
	alike := r.P(50) // every goroutine starts with the same cold types
	first := r.Intn(len(tasks))
	for k := range plans {
		p := &plans[k]
		n := r.Range(2, 6)
		for j := 0; j < n; j++ {
			id := r.Intn(len(tasks))
			if j == 0 && alike {
				id = first
			}
			p.ids = append(p.ids, id)
			p.yields = append(p.yields, r.Intn(3))
		}
		p.out = make([]taskOut, n)
		p.ev = make([]concEvent, 0, 2*n)
	}
	dc, ec := mk()
	var ready, done sync.WaitGroup
	start := make(chan struct{})
	for k := range plans {
		ready.Add(1)
		done.Add(1)
		go func(k int, p *plan) {
			defer done.Done()
			ready.Done()
			<-start
			for j, id := range p.ids {
				yields(p.yields[j])
				p.ev = append(p.ev, concEvent{time.Now(), k, id, false})
				p.out[j] = tasks[id].safe(dc, ec)
				p.ev = append(p.ev, concEvent{time.Now(), k, id, true})
			}
		}(k, &plans[k])
	}
	ready.Wait()
	close(start)
	done.Wait()
	var evs []concEvent
	for k := range plans {
		p := &plans[k]
		for j, id := range p.ids {
			if d := want[id].diff(p.out[j]); d != "" {
				c.Failf("with %d goroutines on one configuration %s gives a different result than alone (alone versus concurrent): %s", g, tasks[id].name, d)
			}
		}
		evs = append(evs, p.ev...)
	}
	// what was observed: the order of starts and ends
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t.Before(evs[j].t) })
	h := uint64(g)
	open, overlap := map[int]int{}, false
	for _, e := range evs {
		h = mix(h, uint64(e.g*64+e.i*2))
		if e.end {
			delete(open, e.g)
		} else {
			for og, oi := range open {
				if og != e.g && oi == e.i {
					c.Feat("same operation at once")
				}
				overlap = true
			}
			open[e.g] = e.i
		}
	}
	c.FeatIf(overlap, "operations overlapped")
	c.FeatIf(alike, "cold start on one type")
	for i := range want {
		c.FeatIf(want[i].err == nil, "task succeeds")
		c.FeatIf(want[i].err != nil, "task fails")
	}
	c.Seen(mix(h, hashStr(strings.Join(names, ";"))), overlap)
	c.Sample("%d goroutines, %d operations on a cold configuration: %s", g, len(evs)/2, clip(strings.Join(names, " || "), 250))
}

// ---- many live objects at once, one goroutine ----

type liveObj struct {
	name string
	step func() string // "" or what is wrong
	end  func()
	left int
}

func liveDecoder(r *Rand, dc *jzon.DecoderConfig) *liveObj {
	t := genTyped(r)
	n := r.Range(1, 5)
	var s []byte
	var texts [][]byte
	for i := 0; i < n; i++ {
		x := textFor(r, t, 1, false)
		texts = append(texts, x)
		s = append(append(s, x...), "\n "...)
	}
	cut := r.P(20)
	if cut {
		s = s[:r.Intn(len(s)+1)]
	}
	d := dc.NewDecoder(genReader(r, s))
	num, dis := r.P(30), r.P(20)
	std := json.NewDecoder(bytes.NewReader(s))
	if num {
		d.UseNumber()
		std.UseNumber()
	}
	if dis {
		d.DisallowUnknownFields()
		std.DisallowUnknownFields()
	}
	var bad error
	o := &liveObj{name: "Decoder of " + typeStr(t) + " over " + q(s), left: n + 1}
	i := 0
	o.step = func() string {
		a, b := reflect.New(t), reflect.New(t)
		e := d.Decode(b.Interface())
		if bad != nil {
			if e == nil {
				return fmt.Sprintf("decodes after the error %v", bad)
			}
			return ""
		}
		var text []byte
		if i < len(texts) {
			text = texts[i]
		}
		i++
		se := std.Decode(a.Interface())
		if e != nil {
			bad = e
		}
		if (se == nil) != (e == nil) {
			if laxText(text) {
				bad = io.EOF
				return ""
			}
			return fmt.Sprintf("encoding/json error %v, jzon error %v", se, e)
		}
		if se == nil && !dupSlice(t, text) {
			if df := same(a, b, cmpOpt{}); df != "" {
				return "differs at " + df
			}
		}
		return ""
	}
	o.end = d.Release
	return o
}

func dupSlice(t reflect.Type, text []byte) bool {
	n := refDoc(text)
	return n == nil || (anySlice(t, 6, map[reflect.Type]bool{}) && dupKeys(n))
}

func liveEncoder(r *Rand, ec *jzon.EncoderConfig) *liveObj {
	var w bytes.Buffer
	e := ec.NewEncoder(&w)
	html := r.Bool()
	e.SetEscapeHTML(html)
	o := &liveObj{name: "Encoder", left: r.Range(1, 6)}
	bad := false
	o.step = func() string {
		t := genTyped(r)
		if prIn(t) {
			t = tOf(EOuter{})
		}
		v := reflect.New(t)
		g := VG{R: r, OneEntry: true, noBF: true}
		g.fill(v.Elem())
		var x = v.Interface()
		if r.P(8) {
			x = make(chan int)
		}
		a, aErr := stdEncode(x, html)
		n := w.Len()
		bErr := e.Encode(x)
		if bad {
			if bErr == nil {
				return "encodes after an error"
			}
			return ""
		}
		if (aErr == nil) != (bErr == nil) {
			return fmt.Sprintf("encoding/json error %v, jzon error %v for %s", aErr, bErr, typeStr(t))
		}
		if bErr != nil {
			bad = true
			if w.Len() != n {
				return "writes something with an error"
			}
			return ""
		}
		got := w.Bytes()[n:]
		if len(got) == 0 || !bytes.Equal(normEsc(got[:len(got)-1]), normEsc(a)) {
			return fmt.Sprintf("writes %s instead of %s", q(got), q(a))
		}
		return ""
	}
	o.end = e.Release
	return o
}

func liveIterator(r *Rand, dc *jzon.DecoderConfig) *liveObj {
	n := r.Range(1, 6)
	b := []byte("[")
	var vals [][]byte
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		v := genValid(r, false)
		if numRange(refDoc(v)) {
			v = []byte(`"x"`)
		}
		vals = append(vals, v)
		b = append(b, v...)
	}
	b = append(b, ']')
	it := dc.NewIterator()
	if r.Bool() {
		it.ResetBytes(b)
	} else {
		it.Reset(genReader(r, b))
	}
	it.Context = &b
	o := &liveObj{name: "Iterator over " + q(b), left: n + 1}
	i := 0
	o.step = func() string {
		if it.Context != &b {
			return fmt.Sprintf("context became %v", it.Context)
		}
		if i == n {
			more, err := it.ReadArrayMore()
			if more || err != nil {
				return fmt.Sprintf("end of the array: %v %v", more, err)
			}
			return ""
		}
		var more bool
		var err error
		if i == 0 {
			more, err = it.ReadArrayBegin()
		} else {
			more, err = it.ReadArrayMore()
		}
		if !more || err != nil {
			return fmt.Sprintf("element %d: %v %v", i, more, err)
		}
		v := vals[i]
		i++
		switch r.Intn(4) {
		case 0:
			raw, err := it.ReadRaw()
			if err != nil || !bytes.Equal(bytes.TrimSpace(raw), bytes.TrimSpace(v)) {
				return fmt.Sprintf("ReadRaw %s %v instead of %s", q(raw), err, q(v))
			}
		case 1:
			x, err := it.Read()
			var y interface{}
			if e := json.Unmarshal(v, &y); e != nil {
				panic(harnessErr("live iterator: %v", e))
			}
			if err != nil {
				return fmt.Sprintf("Read error %v for %s", err, q(v))
			}
			if d := same(reflect.ValueOf(&y), reflect.ValueOf(&x), cmpOpt{}); d != "" {
				return "Read differs at " + d + " for " + q(v)
			}
		case 2:
			if err := it.Skip(); err != nil {
				return fmt.Sprintf("Skip error %v for %s", err, q(v))
			}
		case 3:
			var y, x interface{}
			json.Unmarshal(v, &y)
			if err := it.ReadVal(&x); err != nil {
				return fmt.Sprintf("ReadVal error %v for %s", err, q(v))
			}
			if d := same(reflect.ValueOf(&y), reflect.ValueOf(&x), cmpOpt{}); d != "" {
				return "ReadVal differs at " + d + " for " + q(v)
			}
		}
		return ""
	}
	o.end = it.Release
	return o
}

func liveStreamer(r *Rand, ec *jzon.EncoderConfig) *liveObj {
	var w bytes.Buffer
	s := ec.NewStreamer()
	s.Reset(&w)
	s.EscapeHTML(true)
	s.Context = &w
	s.ArrayStart()
	want := []byte("[")
	n := 0
	o := &liveObj{name: "Streamer", left: r.Range(1, 7)}
	o.step = func() string {
		if s.Context != &w {
			return fmt.Sprintf("context became %v", s.Context)
		}
		if n > 0 {
			want = append(want, ',')
		}
		n++
		switch r.Intn(4) {
		case 0:
			x := genGoString(r, false)
			s.String(x)
			want = append(want, strText(x, true)...)
		case 1:
			x := int64(r.U64())
			s.Int64(x)
			want = append(want, fmt.Sprint(x)...)
		case 2:
			x := map[string]interface{}{"k": genGoString(r, false)}
			s.Value(x)
			b, _ := json.Marshal(x)
			want = append(want, b...)
		case 3:
			s.ObjectStart().Field("<f>").RawString("[ 1 ]").ObjectEnd()
			want = append(want, `{"\u003cf\u003e":[ 1 ]}`...)
		}
		if s.Error != nil {
			return fmt.Sprintf("error %v", s.Error)
		}
		if r.P(30) {
			if err := s.Flush(); err != nil {
				return fmt.Sprintf("Flush: %v", err)
			}
			if !bytes.Equal(normEsc(w.Bytes()), normEsc(want)) {
				return fmt.Sprintf("wrote %s instead of %s", q(w.Bytes()), q(want))
			}
		}
		return ""
	}
	o.end = func() { s.Release() }
	return o
}

// engLive: objects in use at the same time do not influence each other, and
// no pooled object is handed out twice
func engLive(c *C) {
	r := c.R
	dc, ec := rot.D(), rot.E()
	var live []*liveObj
	var trail []string
	log := func(s string) {
		if len(trail) < 60 {
			trail = append(trail, clip(s, 160))
		}
	}
	steps := r.Range(10, 40)
	for k := 0; k < steps; k++ {
		c.Note("live objects: %s", strings.Join(trail, "; "))
		switch {
		case len(live) < 2 || (len(live) < 7 && r.P(30)):
			var o *liveObj
			switch r.Intn(4) {
			case 0:
				o = liveDecoder(r, dc)
			case 1:
				o = liveEncoder(r, ec)
			case 2:
				o = liveIterator(r, dc)
			default:
				o = liveStreamer(r, ec)
			}
			live = append(live, o)
			log("new " + o.name)
		case r.P(12):
			what := pollute(r, dc, ec)
			log("(" + what + ")")
			c.Feat("left: " + what)
		case r.P(10):
			// exclusive ownership
			its := map[*jzon.Iterator]bool{}
			sts := map[*jzon.Streamer]bool{}
			for i := 0; i < 6; i++ {
				it, s := dc.NewIterator(), ec.NewStreamer()
				if its[it] {
					c.Failf("NewIterator returns an iterator which is in use\n history %s", strings.Join(trail, "; "))
				}
				if sts[s] {
					c.Failf("NewStreamer returns a streamer which is in use\n history %s", strings.Join(trail, "; "))
				}
				its[it], sts[s] = true, true
			}
			for it := range its {
				it.Release()
			}
			for s := range sts {
				s.Release()
			}
			c.Feat("ownership probes")
		default:
			i := r.Intn(len(live))
			o := live[i]
			log("step " + o.name[:7])
			if bad := o.step(); bad != "" {
				c.Failf("%s, with %d other objects in use: %s\n history %s", o.name, len(live)-1, bad, strings.Join(trail, "; "))
			}
			c.Seen(hashStr(fmt.Sprint(c.Idx, k)), len(live) > 1)
			if o.left--; o.left == 0 || r.P(5) {
				o.end()
				live = append(live[:i], live[i+1:]...)
			}
		}
	}
	for _, o := range live {
		if bad := o.step(); bad != "" && o.left > 0 {
			c.Failf("%s, at the end: %s\n history %s", o.name, bad, strings.Join(trail, "; "))
		}
		o.end()
	}
	c.FeatIf(len(live) > 3, "several live at the end")
	c.Sample("%s", strings.Join(trail, "; "))
}

func init() {
	reg("conc", engConc, "operations overlapped", "same operation at once", "cold start on one type", "task succeeds", "task fails")
	reg("live", engLive, "ownership probes", "several live at the end")
	prop(&Prop{ID: "C13", Level: "exploration",
		Rule:        "each case runs 2 to 8 goroutines with random yield points in readers, writers, hooks and custom coders over operations on related types on one cold configuration, sharing read-only inputs and values, under the race detector and without it; every result is compared with the same operation alone; or interleaves up to seven live decoders, encoders, iterators and streamers and probes the pools for exclusive ownership; a case is non-trivial when operations overlapped, and distinct by its operations and observed order of starts and ends",
		Assumptions: []string{"the race detector sees races between accesses which the run executes and which no synchronisation of the harness orders"},
		Variants: []Variant{
			{Name: "race", Flags: []string{"-race"}, Env: []string{"GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOMAXPROCS=4"}, Workers: 6, Runs: []Run{{"conc", 9000, 400000}}, Markers: []string{"WARNING: DATA RACE"}},
			{Name: "plain", Env: []string{"GOMAXPROCS=4"}, Runs: []Run{{"conc", 30000, 1000000}, {"live", 20000, 600000}}},
		},
	})
}
