package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	"github.com/zerosnake0/jzon"
)

// Memory in use: what a stream, a writer or a series of calls retains, and
// what one call allocates.

func heapNow() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func allocNow() int64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.TotalAlloc)
}

// memSource makes up a stream of pieces as it is read
type memSource struct {
	r     *Rand
	head  string
	unit  [][]byte
	sep   string
	tail  string
	total int // bytes of units
	made  int
	count int
	state int
	cur   []byte
	sizes []int
	i     int
	marks []int // sizes of made at which the heap is measured
	heap  []int64
	fill  bool // every read fills the slice given
	mid   bool // every read ends in the middle of a value
	fresh bool // nothing of the current piece has been read, and it is a value
}

func (g *memSource) Read(p []byte) (int, error) {
	if g.mid {
		n := 0
		for n < len(p) {
			if err := g.load(); err != nil {
				if n > 0 {
					return n, nil
				}
				return 0, err
			}
			take, stop := len(g.cur), false
			if g.fresh && take > 1 {
				take, stop = take/2, true
			}
			k := copy(p[n:], g.cur[:take])
			g.cur = g.cur[k:]
			n += k
			if k == take {
				g.fresh = false
				if stop {
					return n, nil
				}
			}
		}
		return n, nil
	}
	if !g.fill {
		return g.read(p)
	}
	n := 0
	for n < len(p) {
		k, err := g.read(p[n:])
		n += k
		if err != nil {
			if n > 0 {
				return n, nil
			}
			return 0, err
		}
	}
	return n, nil
}

func (g *memSource) load() error {
	for len(g.cur) == 0 {
		switch g.state {
		case 0:
			g.cur, g.state = []byte(g.head), 1
		case 1:
			if len(g.heap) < len(g.marks) && g.made >= g.marks[len(g.heap)] {
				g.heap = append(g.heap, heapNow())
			}
			if g.made >= g.total {
				g.cur, g.state = []byte(g.tail), 3
				break
			}
			g.cur = g.unit[g.r.Intn(len(g.unit))]
			if i := bytes.IndexByte(g.cur, '@'); i >= 0 { // something new each time
				g.count++
				g.cur = bytes.ReplaceAll(g.cur, []byte("@@@@@@@@"), []byte(fmt.Sprintf("%08d", g.count%100000000)))
			}
			g.made += len(g.cur) + len(g.sep)
			g.state = 2
			g.fresh = true
		case 2:
			g.state = 1
			if g.made < g.total {
				g.cur = []byte(g.sep)
			}
		default:
			return io.EOF
		}
	}
	return nil
}

func (g *memSource) read(p []byte) (int, error) {
	if err := g.load(); err != nil {
		return 0, err
	}
	n := len(g.cur)
	if len(g.sizes) > 0 {
		if s := g.sizes[g.i%len(g.sizes)]; s < n {
			n = s
		}
		g.i++
	}
	n = copy(p, g.cur[:n])
	g.cur = g.cur[n:]
	return n, nil
}

type memItem struct {
	A int               `json:"a"`
	S string            `json:"s"`
	L []int             `json:"l"`
	M map[string]string `json:"m"`
	I interface{}       `json:"i"`
	R json.RawMessage   `json:"r"`
	N *memItem          `json:"n"`
	T TStr              `json:"t"`
	J JRec              `json:"j"`
}

// memUnit is one value of at most about 2000 bytes
func memUnit(r *Rand) []byte {
	switch r.Intn(14) {
	case 9:
		return []byte(`{"k@@@@@@@@":1,"s":"v@@@@@@@@"}`)
	case 10:
		return []byte(`{"S@@@@@@@@\u00e9":{"K\n@@@@@@@@":null}}`)
	case 11:
		return []byte(`"str@@@@@@@@"`)
	case 12:
		return []byte(`1@@@@@@@@`)
	case 13:
		return []byte(`["x\t@@@@@@@@",-0.5@@@@@@@@]`)
	case 0:
		return []byte("12345")
	case 1:
		return genStringLit(r, false)
	case 2:
		return []byte(`"` + strings.Repeat("x", r.Intn(1500)) + `"`)
	case 3:
		return []byte(`"` + strings.Repeat(`\u00e9`, r.Intn(200)) + `"`)
	case 4:
		return []byte(`{"a":1,"s":"abc","l":[1,2,3],"m":{"k":"v"},"i":[null,{"x":1.5}],"r":{"raw":[1, 2]},"n":{"s":"\n"},"t":"tt","j":[1]}`)
	case 5:
		return []byte(`{"a":1,"unknown":` + string(nest(r, r.Intn(50))) + `,"s":"é\u00e9"}`)
	case 6:
		return []byte("-1.5e3")
	case 7:
		return []byte(`{"` + strings.Repeat("k", r.Intn(300)) + `\n":true,"r":"` + strings.Repeat("r", r.Intn(900)) + `"}`)
	default:
		for {
			if b := genValid(r, false); len(b) < 2000 && len(b) > 3 && numRange(refDoc(b)) == false {
				return b
			}
		}
	}
}

func memPollute(r *Rand, it *jzon.Iterator, c *C) {
	var err error
	switch r.Intn(5) {
	case 0:
		it.Reset(&chunkReader{data: []byte(`[1,{"a":"` + strings.Repeat("z", 3000)), sizes: []int{50}})
		_, err = it.SkipRaw()
	case 1:
		it.Reset(&chunkReader{data: []byte(`["` + strings.Repeat("z", 3000) + "\x01"), sizes: []int{700}})
		_, err = it.ReadRaw()
	case 2:
		it.Reset(&chunkReader{data: []byte(`{"r":[1,2,"`), err: errInjected})
		err = it.ReadVal(new(memItem))
	case 3:
		it.Reset(&chunkReader{data: []byte(`[[[[[["`)})
		_, err = it.Read()
	default:
		return
	}
	if err == nil {
		panic(harnessErr("no error"))
	}
	c.Feat("after a failed call")
}

// engMemStream: what a long stream leaves in memory while it is read
func engMemStream(c *C) {
	r := c.R
	g := &memSource{r: r.Fork(), total: 6 << 20}
	for i := 0; i < 6; i++ {
		g.unit = append(g.unit, memUnit(r))
	}
	c.FeatIf(bytes.Contains(bytes.Join(g.unit, nil), []byte("@")), "ever new names and strings")
	small := r.P(40) // many tiny values
	if small {
		g.unit = [][]byte{[]byte("1"), []byte("22"), []byte(`{"@@@@@@@@":0}`), []byte(`"@@@@@@@@"`), []byte(`""`), []byte("[]"), []byte("{}"), []byte("null")}
		g.total = 3 << 20
	}
	switch r.Intn(7) {
	case 3:
		g.fill = true
		c.Feat("reads which fill the window")
	case 4, 5:
		g.mid = true
		c.Feat("reads which end in the middle of a value")
	case 0:
		g.sizes = []int{r.Range(100, 600)}
	case 1:
		g.sizes = []int{512, 1}
	case 2:
		g.sizes = []int{r.Range(1, 20), r.Range(500, 3000)}
	}
	g.marks = []int{g.total / 10, g.total / 2, g.total * 19 / 20}
	cfg := rot.D()
	it := cfg.NewIterator()
	memPollute(r, it, c)
	var err error
	name := ""
	count := 0
	only := -1
	if r.P(40) {
		only = r.Intn(9)
		c.Feat("all values read in the same way")
	}
	elem := func(it *jzon.Iterator) error {
		count++
		k := r.Intn(9)
		if only >= 0 {
			k = only
		}
		switch k {
		case 0:
			return it.Skip()
		case 1:
			_, err := it.Read()
			return err
		case 2:
			_, err := it.SkipRaw()
			return err
		case 3:
			_, err := it.ReadRaw()
			return err
		case 4:
			_, err := it.AppendRaw(nil)
			return err
		case 5:
			var x interface{}
			return it.ReadVal(&x)
		case 6:
			var x json.RawMessage
			return it.ReadVal(&x)
		case 7:
			return walkAny(it, r, 0)
		default:
			vt, err := it.NextValueType()
			if err == nil && vt == jzon.ObjectValue && r.Bool() {
				return it.ReadVal(new(map[string]json.RawMessage))
			}
			if err == nil && vt == jzon.ObjectValue {
				return it.ReadVal(new(struct {
					R json.RawMessage
					S string
				}))
			}
			return it.Skip()
		}
	}
	mode := r.Intn(8)
	switch mode {
	case 0, 1: // values
		name = "Decoder"
		g.sep = r.Str([]string{" ", "\n", "  \r\n"})
		d := cfg.NewDecoder(g)
		if r.Bool() {
			d.UseNumber()
		}
		raws := []int{0, 25, 100}[r.Intn(3)]
		for err == nil {
			switch {
			case r.P(raws):
				err = d.Decode(new(json.RawMessage))
			default:
				err = d.Decode(new(interface{}))
			}
			count++
			if r.P(5) {
				d.More()
				d.Buffered()
			}
		}
		if err == io.EOF {
			err = nil
		}
		defer d.Release()
	case 2, 3:
		name = "ReadArrayCB"
		g.head, g.sep, g.tail = "[", ", ", "]"
		it.Reset(g)
		err = it.ReadArrayCB(elem)
	case 4:
		name = "ReadArrayBegin, More"
		g.head, g.sep, g.tail = "[", ",", " ]"
		it.Reset(g)
		var more bool
		for more, err = it.ReadArrayBegin(); err == nil && more; more, err = it.ReadArrayMore() {
			if err = elem(it); err != nil {
				break
			}
		}
	case 5:
		name = "Skip of one long value"
		g.head, g.sep, g.tail = `{"a":[`, ",", "]}"
		it.Reset(g)
		err = it.Skip()
	case 6:
		name = "ignored member"
		g.head, g.sep, g.tail = `{"x":[`, ",", `],"a":3}`
		it.Reset(g)
		var x struct{ A int }
		err = it.ReadVal(&x)
		if err == nil && x.A != 3 {
			c.Failf("a is %d", x.A)
		}
	default:
		name = "object members"
		g.head, g.sep, g.tail = `{"f":0,"g":`, `, "member":`, "}"
		it.Reset(g)
		err = it.ReadObjectCB(func(it *jzon.Iterator, f string) error { return elem(it) })
	}
	c.Note("%s over units %q", name, g.unit)
	if err != nil {
		c.Failf("%s fails on a valid stream after %d bytes: %v", name, g.made, err)
	}
	if len(g.heap) != len(g.marks) {
		panic(harnessErr("%s: heap measured %d times", name, len(g.heap)))
	}
	if d := g.heap[2] - g.heap[0]; d > 128<<10 {
		c.Failf("%s: while %d bytes (%d values) of the stream were read, %d bytes of memory were retained (%v)", name, g.marks[2]-g.marks[0], count, d, g.heap)
	}
	it.Release()
	c.Feat("stream: " + name)
	c.Seen(mix(hashStr(name), r.U64()), true)
}

// markWriter measures the heap while it is written to
type markWriter struct {
	made  int
	marks []int
	heap  []int64
	short bool
	n     int
}

func (w *markWriter) Write(p []byte) (int, error) {
	w.n++
	if len(w.heap) < len(w.marks) && w.made >= w.marks[len(w.heap)] {
		w.heap = append(w.heap, heapNow())
	}
	w.made += len(p)
	return len(p), nil
}

// engMemWrite: what was written and flushed is not retained
func engMemWrite(c *C) {
	r := c.R
	total := 4 << 20
	w := &markWriter{marks: []int{total / 4, total * 19 / 20}}
	enc := anyEnc(r)
	vals := []interface{}{1, "abc", strings.Repeat("y", r.Intn(2000)), []int{1, 2, 3}, map[string]interface{}{"k": nil}, &memItem{A: 1, S: "x", T: "t", R: json.RawMessage(`[1]`)}, JInt(5), TStr("t"), 1.5, json.Number("12"), nil}
	name := ""
	switch r.Intn(3) {
	case 0:
		name = "Encoder"
		e := enc.NewEncoder(w)
		for w.made < total {
			if err := e.Encode(vals[r.Intn(len(vals))]); err != nil {
				c.Failf("Encode: %v", err)
			}
		}
		e.Release()
	case 1:
		name = "Streamer"
		s := enc.NewStreamer()
		s.Reset(w)
		s.ArrayStart()
		for w.made < total {
			for i := r.Intn(20); i > 0; i-- {
				switch r.Intn(4) {
				case 0:
					s.ObjectStart().Field("f").Value(vals[r.Intn(len(vals))]).ObjectEnd()
				case 1:
					s.String("str")
				default:
					s.Value(vals[r.Intn(len(vals))])
				}
			}
			if err := s.Flush(); err != nil {
				c.Failf("Flush: %v", err)
			}
		}
		s.ArrayEnd().Flush()
		s.Release()
	default:
		name = "Marshal"
		for w.made < total {
			b, err := enc.Marshal(vals[r.Intn(len(vals))])
			if err != nil {
				c.Failf("Marshal: %v", err)
			}
			w.Write(b)
		}
	}
	c.Note("writing with %s", name)
	if len(w.heap) != len(w.marks) {
		panic(harnessErr("%s: heap measured %d times", name, len(w.heap)))
	}
	if d := w.heap[1] - w.heap[0]; d > 128<<10 {
		c.Failf("%s: while %d bytes were written, %d bytes of memory were retained", name, w.marks[1]-w.marks[0], d)
	}
	c.Feat("write: " + name)
	c.Seen(mix(hashStr(name), r.U64()), true)
}

var memShared = jzon.NewDecoderConfig(nil)
var memSharedEnc = jzon.NewEncoderConfig(nil)

// engMemRepeat: repeating calls does not accumulate memory or goroutines
func engMemRepeat(c *C) {
	r := c.R
	full := []byte(`{"a":1,"s":"abc","l":[1,2,3],"m":{"k":"v"},"i":[null,{"x":1.5}],"r":{"raw":[1, 2]},"n":{"s":"\n"},"t":"tt","j":[1]}`)
	cnt, width := 0, 8
	if r.Bool() {
		width = r.Range(9, 70)
	}
	fresh := func(s string) []byte {
		cnt++
		return []byte(strings.ReplaceAll(s, "@", fmt.Sprintf("%0*d", width, cnt)))
	}
	wide := reflect.TypeOf(memWide{})
	type op struct {
		name string
		n    int
		f    func()
	}
	ops := []op{
		{"Unmarshal", 6000, func() { memShared.Unmarshal(full, new(memItem)) }},
		{"Unmarshal of something malformed", 6000, func() { memShared.Unmarshal(full[:r.Intn(len(full))], new(memItem)) }},
		{"UnmarshalFromReader", 4000, func() { memShared.UnmarshalFromReader(&chunkReader{data: full, sizes: []int{7}}, new(memItem)) }},
		{"reader faults", 4000, func() {
			memShared.UnmarshalFromReader(&chunkReader{data: full[:r.Intn(len(full))], err: errInjected}, new(memItem))
		}},
		{"Decoder, released", 4000, func() {
			d := memShared.NewDecoder(bytes.NewReader(full))
			d.Decode(new(memItem))
			d.Release()
		}},
		{"Decoder, dropped", 4000, func() { memShared.NewDecoder(bytes.NewReader(full)).Decode(new(memItem)) }},
		{"Iterator, dropped", 4000, func() {
			it := memShared.NewIterator()
			it.ResetBytes(full)
			it.SkipRaw()
		}},
		{"Marshal", 6000, func() { memSharedEnc.Marshal(&memItem{A: 1, S: "x", N: &memItem{}}) }},
		{"Marshal fails", 6000, func() { memSharedEnc.Marshal(map[string]interface{}{"a": func() {}}) }},
		{"Encoder, released", 4000, func() {
			e := memSharedEnc.NewEncoder(io.Discard)
			e.Encode(&memItem{})
			e.Release()
		}},
		{"Encoder, dropped", 4000, func() { memSharedEnc.NewEncoder(io.Discard).Encode(&memItem{}) }},
		{"panicking hook", 4000, func() {
			defer func() { recover() }()
			memSharedEnc.Marshal([]interface{}{1, panicM{}})
		}},
		{"configurations", 1500, func() {
			cfg := jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: r.Bool()})
			cfg.Unmarshal(full, new(memItem))
			ec := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: r.Bool()})
			ec.Marshal(memItem{})
		}},
		{"pointers to pointers", 4000, func() { var x interface{} = new(*memItem); memShared.Unmarshal(full, &x) }},
		{"new values in interfaces", 4000, func() {
			memSharedEnc.Marshal([]interface{}{&memItem{}, memItem{}, []memItem{{}}, map[string]memItem{}})
		}},
		{"ever new members", 6000, func() { memShared.Unmarshal(fresh(`{"Unknown@":1,"A":2,"m":{"k@":"v@"}}`), new(memItem)) }},
		{"ever new members, case folded", 6000, func() { memShared.Unmarshal(fresh(`{"UNKNOWN@":{"n@":[]}}`), new(struct{ Unknown, X, Y int })) }},
		{"ever new members, many fields", 6000, func() {
			memShared.Unmarshal(fresh(`{"@":1,"f0":2,"F1":3,"x@":4,"K@\u0130":"@"}`), reflect.New(wide).Interface())
		}},
		{"ever new members, refused", 6000, func() {
			memSharedStrict.Unmarshal(fresh(`{"f0":2,"x@":4}`), reflect.New(wide).Interface())
		}},
		{"ever new member, refused", 6000, func() { memSharedStrict.Unmarshal(fresh(`{"x@":4}`), new(memItem)) }},
		{"ever new number literals", 6000, func() { memSharedStrict.Unmarshal(fresh(`[1@,{"a":0.@}]`), new(interface{})) }},
		{"ever new quoted numbers", 6000, func() {
			memShared.Unmarshal(fresh(`{"a":"@","b":"1.@","c":"\"@\""}`), new(struct {
				A int     `json:",string"`
				B float64 `json:",string"`
				C string  `json:",string"`
			}))
		}},
		{"ever new keys written", 6000, func() {
			memSharedEnc.Marshal(map[TStr]int{TStr(fresh("k@")): 1})
			memSharedEnc.Marshal(map[int]json.Number{cnt: json.Number(fresh("1@"))})
		}},
		{"ever new tokens", 6000, func() {
			it := memShared.NewIterator()
			it.ResetBytes(fresh(`{"a@":["@",0.@,1]}`))
			it.ReadObjectBegin()
			it.ReadArrayBegin()
			it.ReadString()
			it.ReadArrayMore()
			it.ReadNumber()
			it.ReadArrayMore()
			it.ReadInt()
			it.Release()
		}},
		{"ever new fields streamed", 6000, func() {
			s := memSharedEnc.NewStreamer()
			s.Reset(io.Discard)
			s.ObjectStart().Field(string(fresh("f@\n"))).String(string(fresh("<@>"))).ObjectEnd().Flush()
			s.Release()
		}},
		{"ever new member, one field", 6000, func() { memShared.Unmarshal(fresh(`{"UNKNOWN@":"\u00e9@"}`), new(struct{ Unknown string })) }},
		{"ever new keys", 6000, func() { memShared.Unmarshal(fresh(`{"@":1,"1@":2}`), new(map[int64]int)) }},
		{"ever new keys of a text type", 6000, func() { memShared.Unmarshal(fresh(`{"@":1,"x@":2}`), new(map[TStr]int)) }},
		{"ever new strings", 6000, func() { memShared.Unmarshal(fresh(`["@","\n@",{"@":"@"}]`), new(interface{})) }},
		{"ever new errors", 6000, func() { memShared.Unmarshal(fresh(`["@","\n@",{"@":"@"]`), new(interface{})) }},
		{"ever new overflows", 6000, func() { memShared.Unmarshal(fresh(`[1@123456789]`), new([]int64)) }},
		{"ever new numbers", 6000, func() { memShared.Unmarshal(fresh(`[1@,0.@,1e-@1]`), new([]float64)) }},
		{"ever new texts", 6000, func() {
			memSharedEnc.Marshal(map[string]interface{}{string(fresh("k@")): string(fresh("<@>\n")), "f": float64(cnt) / 7})
		}},
		{"Valid", 6000, func() { jzon.Valid(full) }},
	}
	o := ops[r.Intn(len(ops))]
	n := o.n
	c.Note("repeating %s", o.name)
	run := func(n int) {
		for i := 0; i < n; i++ {
			o.f()
		}
	}
	run(n / 4)
	g0 := runtime.NumGoroutine()
	h0 := heapNow()
	run(n)
	h1 := heapNow()
	run(n)
	h2 := heapNow()
	g1 := runtime.NumGoroutine()
	if g1 > g0 {
		c.Failf("%s: %d goroutines before, %d afterwards", o.name, g0, g1)
	}
	// something kept for every call would be at least 8 bytes
	lim := int64(n)*8 - int64(n)
	if d1, d2 := h1-h0, h2-h1; d1 > lim && d2 > lim {
		c.Failf("%s: %d calls retain %d bytes of memory, %d more calls %d", o.name, n, d1, n, d2)
	}
	c.Feat("repeat: " + o.name)
	c.Seen(mix(hashStr(o.name), r.U64()), true)
}

type memWide struct {
	F0, F1, F2, F3, F4, F5, F6, F7, F8, F9, F10, F11, F12 int
}

var memSharedStrict = jzon.NewDecoderConfig(&jzon.DecoderOption{DisallowUnknownFields: true, UseNumber: true})

type panicM struct{}

func (panicM) MarshalJSON() ([]byte, error) { panic("hook") }

// engMemAlloc: what one call allocates grows like its input
func engMemAlloc(c *C) {
	r := c.R
	seed := r.U64()
	n := r.Range(20000, 60000)
	mk := func(n int) (string, []byte) { return timeDoc(newRand(seed), n) }
	name, d1 := mk(n)
	_, d4 := mk(4 * n)
	if len(d4) < 3*len(d1) {
		panic(harnessErr("sizes %d %d", len(d1), len(d4)))
	}
	dc, ec := memShared, memSharedEnc
	sizes := [][]int{nil, {7}, {511}, {512}, {513}, {4096}}[r.Intn(6)]
	rd := func(b []byte) io.Reader { return &chunkReader{data: b, sizes: sizes} }
	var f func(b []byte)
	what := ""
	deep := strings.Contains(name, "nest") || strings.Contains(name, "open") || name == "mixed depth"
	switch r.Intn(11) {
	case 0:
		what, f = "Valid", func(b []byte) { jzon.Valid(b) }
	case 1:
		what, f = "Unmarshal into interface{}", func(b []byte) { var x interface{}; dc.Unmarshal(b, &x) }
	case 2:
		what, f = "reader into interface{}", func(b []byte) { var x interface{}; dc.UnmarshalFromReader(rd(b), &x) }
	case 3:
		what, f = "reader into RawMessage", func(b []byte) { var x json.RawMessage; dc.UnmarshalFromReader(rd(b), &x) }
	case 4:
		what, f = "Unmarshal into a struct", func(b []byte) { var x timeNode; dc.Unmarshal(b, &x) }
	case 5:
		what, f = "reader into a struct", func(b []byte) { var x timeNode; dc.UnmarshalFromReader(rd(b), &x) }
	case 6:
		what, f = "SkipRaw of a reader", func(b []byte) {
			it := dc.NewIterator()
			it.Reset(rd(b))
			it.SkipRaw()
			it.Release()
		}
	case 7:
		what, f = "walking a reader", func(b []byte) {
			it := dc.NewIterator()
			it.Reset(rd(b))
			walkAny(it, newRand(1), 0)
			it.Release()
		}
	case 8:
		what, f = "decoder over a stream", func(b []byte) {
			d := dc.NewDecoder(rd(b))
			for d.Decode(new(interface{})) == nil {
			}
			d.Release()
		}
	case 9:
		what, f = "slices", func(b []byte) {
			dc.Unmarshal(b, new([]int))
			dc.Unmarshal(b, new([]string))
			dc.Unmarshal(b, new([]memItem))
			dc.Unmarshal(b, new(map[string]interface{}))
		}
	default:
		what, f = "Marshal", func(b []byte) {
			var x interface{}
			if dc.Unmarshal(b, &x) == nil {
				ec.Marshal(x)
				s := ec.NewStreamer()
				s.Value(x)
				s.Release()
			}
		}
	}
	if deep && len(d4) > 60000 && strings.Contains(what, "walking") {
		c.Feat("skipped")
		return
	}
	c.Note("allocation: %s of %s, %d and %d bytes", what, name, len(d1), len(d4))
	f(d1)
	runtime.GC()
	runtime.GC()
	a := allocNow()
	f(d1)
	b := allocNow()
	runtime.GC()
	runtime.GC()
	e := allocNow()
	f(d4)
	g := allocNow()
	m1, m4 := b-a, g-e
	// proportional would be four times, growing by doubling up to twice that;
	// with the square of the size it is sixteen times
	if m4 > 9*m1+(1<<20) {
		c.Failf("%s of %s: %d bytes of input allocate %d, %d bytes allocate %d", what, name, len(d1), m1, len(d4), m4)
	}
	if m4 > int64(len(d4))*2000+(1<<20) {
		c.Failf("%s of %s: %d bytes of input allocate %d", what, name, len(d4), m4)
	}
	c.Feat("allocation: " + what)
	c.Seen(mix(hashStr(name+what), r.U64()), true)
}

func init() {
	reg("mem-stream", engMemStream, "stream: Decoder", "stream: ReadArrayCB", "stream: ReadArrayBegin, More", "stream: Skip of one long value", "stream: ignored member", "stream: object members", "after a failed call", "ever new names and strings", "reads which end in the middle of a value", "all values read in the same way")
	reg("mem-write", engMemWrite, "write: Encoder", "write: Streamer", "write: Marshal")
	reg("mem-repeat", engMemRepeat, "repeat: configurations", "repeat: panicking hook", "repeat: Unmarshal")
	reg("mem-alloc", engMemAlloc, "allocation: Valid", "allocation: SkipRaw of a reader", "allocation: Marshal", "allocation: reader into a struct")
	prop(&Prop{ID: "C22", Level: "exploration",
		Rule:        "each case reads a stream of 3-6 MB made up on the fly (decoder, callbacks, begin/more, skipping, ignored members, raw captures; the iterator has failed before in most cases), writes 4 MB, repeats one call some thousand times, or runs one call on a document and on one four times as long; live heap after forced collections, allocated bytes and goroutines are measured; a case is a distinct workload",
		Assumptions: []string{"runtime.MemStats of go1.23 after two forced collections is the live memory"},
		Variants:    plain(Run{"mem-stream", 400, 12000}, Run{"mem-write", 160, 3000}, Run{"mem-repeat", 640, 8000}, Run{"mem-alloc", 1200, 30000}),
	})
}

var _ = fmt.Sprint
