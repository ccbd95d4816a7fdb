package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/zerosnake0/jzon"
)

// ---- C14 ----

var (
	memOn                          bool   // hooks stress the memory manager
	memState                       uint64 // cheap generator of their choices
	memGCs                         int64
	memCalls, memPeriod, memBudget int // a few collections per operation, spread
	memGrow                        int64
	memJunk                        [64]interface{}
)

//go:noinline
func growStack(n int) int {
	var pad [256]byte
	for i := range pad {
		pad[i] = byte(n + i)
	}
	if n <= 0 {
		return int(pad[7])
	}
	return growStack(n-1) + int(pad[n%256])
}

// stress collects garbage, moves the stack or reuses freed memory
func stress() {
	if !memOn {
		return
	}
	memState = memState*6364136223846793005 + 1442695040888963407
	k := int(memState >> 33)
	memCalls++
	if memBudget > 0 && memCalls%memPeriod == 0 {
		memBudget--
		memGCs++
		runtime.GC()
		if k%3 == 0 {
			garbage(k / 8)
		}
		return
	}
	switch k % 5 {
	case 2:
		memGrow++
		growStack(k / 8 % 400)
	case 3, 4:
		garbage(k / 8)
	}
}

type junkP struct {
	a, b *junkP
	s    string
	m    map[string]int
}

// garbage takes memory of many size classes, full of a pattern
func garbage(k int) {
	for i := 0; i < 24; i++ {
		n := (k>>uint(i%7) + i*37) % 700
		b := make([]byte, n)
		for j := range b {
			b[j] = 0xA5
		}
		memJunk[(k+i)%64] = b
		p := &junkP{s: "junk\xa5\xa5\xa5", m: map[string]int{"junk": -1515870811}}
		p.a = p
		memJunk[(k+i*5)%64] = p
		w := make([]uintptr, n/16)
		for j := range w {
			w[j] = 0xA5A5A5A5
		}
		memJunk[(k+i*3)%64] = w
	}
}

type gcJ struct {
	S string
	P *string
}

func (g gcJ) MarshalJSON() ([]byte, error) {
	stress()
	b := []byte(`{"s":` + quote(g.S))
	stress()
	if g.P != nil {
		b = append(b, `,"p":`+quote(*g.P)...)
	}
	b = append(b, '}')
	stress()
	return b, nil
}

func (g *gcJ) UnmarshalJSON(b []byte) error {
	s := string(b)
	stress()
	if s != string(b) {
		return errors.New("input of the hook changed")
	}
	g.S = s
	p := new(string)
	*p = s
	g.P = p
	stress()
	return nil
}

type gcT string

func (g gcT) MarshalText() ([]byte, error) { stress(); return []byte("g" + string(g)), nil }
func (g *gcT) UnmarshalText(b []byte) error {
	s := string(b)
	stress()
	if s != string(b) {
		return errors.New("input of the hook changed")
	}
	*g = gcT(s)
	stress()
	return nil
}

// pointer shaped
type gcP struct{ p *string }

func (g gcP) MarshalText() ([]byte, error) {
	stress()
	if g.p == nil {
		return []byte("none"), nil
	}
	return []byte(*g.p), nil
}
func (g *gcP) UnmarshalText(b []byte) error {
	s := string(b)
	stress()
	g.p = &s
	stress()
	return nil
}

type gcM map[string]*string

func (g gcM) MarshalJSON() ([]byte, error) {
	stress()
	return []byte(fmt.Sprint(len(g))), nil
}
func (g *gcM) UnmarshalJSON(b []byte) error {
	stress()
	s := string(b)
	*g = gcM{"v": &s}
	stress()
	return nil
}

type gcR struct { // pointer receiver
	N int64
	S []string
}

func (g *gcR) MarshalJSON() ([]byte, error) {
	stress()
	return json.Marshal(g.S)
}
func (g *gcR) UnmarshalJSON(b []byte) error {
	stress()
	g.S = append(g.S, string(b))
	g.N++
	stress()
	return nil
}

var gcHooks = []reflect.Type{tOf(gcJ{}), tOf(gcJ{}), tOf(gcT("")), tOf(gcP{}), tOf(gcM{}), tOf(gcR{}), tOf(&gcJ{}), tOf(new(gcT))}

type gcAll struct {
	A  gcJ
	B  *gcJ
	C  []gcJ
	D  map[string]gcJ
	E  map[gcT]*gcT
	F  [3]gcP
	G  interface{}
	H  **gcR
	I  []interface{}
	J  map[string]interface{}
	K  []*gcP
	L  [1]*gcJ
	M  map[gcT][]gcM
	N  []struct{ X, Y *gcT }
	O  []string
	P  []byte
	Q  json.RawMessage
	R  json.Number
	S  *string
	T  map[int]map[int]*gcT
	U  []gcAll          `json:"u,omitempty"`
	V  *gcAll           `json:"v,omitempty"`
	W  map[string]gcAll `json:"w,omitempty"`
	X  [2][]gcT
	Y  struct{ Z *gcP }
	Z  []map[string]string
	Z1 []bool
	Z2 []float32
	Z3 [5]uint8
}

func init() {
	lits := []string{`"a"`, `"\u00e9 <x>"`, `1`, `[1,"b",{}]`, `{"k":[null]}`, `"` + strings.Repeat("long ", 30) + `"`, `true`}
	strs := []string{`""`, `"a"`, `"b\n"`, `"\u00e9"`, `"` + strings.Repeat("text ", 20) + `"`}
	vals := []string{"", "a", "b", "é", strings.Repeat("v", 90), "<&>"}
	lit := func(r *Rand) string { return r.Str(lits) }
	str := func(r *Rand) string { return r.Str(strs) }
	sp := func(r *Rand) *string {
		if r.P(20) {
			return nil
		}
		s := strings.Clone(r.Str(vals))
		return &s
	}
	specs[tOf(gcJ{})] = typeSpec{text: lit, fill: func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(gcJ{strings.Clone(r.Str(vals)), sp(r)})) }}
	specs[tOf(gcT(""))] = typeSpec{text: str, fill: func(v reflect.Value, r *Rand) { v.SetString(strings.Clone(r.Str(vals))) }}
	specs[tOf(gcP{})] = typeSpec{text: str, fill: func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(gcP{sp(r)})) }}
	specs[tOf(gcM{})] = typeSpec{text: lit, fill: func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(gcM{"a": sp(r), r.Str(vals): sp(r)})) }}
	specs[tOf(gcR{})] = typeSpec{text: lit, fill: func(v reflect.Value, r *Rand) {
		v.Set(reflect.ValueOf(gcR{int64(r.Intn(9)), []string{strings.Clone(r.Str(vals))}}))
	}}
}

func memType(r *Rand) reflect.Type {
	if r.P(15) {
		return tOf(gcAll{})
	}
	if r.P(10) {
		return related(r, gcHooks[r.Intn(len(gcHooks))], 2)
	}
	old := hookTypes
	defer func() { hookTypes = old }()
	hookTypes = gcHooks
	g := YG{R: r, Hooks: true, Iface: r.P(50), Raw: r.P(50), Quoted: r.P(30), Embed: r.P(40), IfaceM: r.P(35)}
	if r.P(60) {
		return g.strct(r.Range(1, 3))
	}
	return g.typ(r.Range(1, 3))
}

type memKept struct {
	got, want reflect.Value
	what      string
}

var memRing [24]memKept
var memRingN int

// keepMem retains a result; an older one is compared again after several
// collections
func keepMem(c *C, k memKept) {
	i := memRingN % len(memRing)
	memRingN++
	if o := memRing[i]; o.what != "" {
		if d := same(o.want, o.got, cmpOpt{}); d != "" {
			c.Failf("a result changed while it was only kept: at %s\n of %s", d, o.what)
		}
		c.Feat("kept result compared again")
	}
	memRing[i] = k
}

func withStress(seed uint64, f func()) {
	memOn, memState = true, seed
	memCalls, memPeriod, memBudget = 0, 1+int(seed>>7%9), 3
	defer func() { memOn = false }()
	f()
}

func engGCDec(c *C) {
	r := c.R
	t := memType(r)
	dc := rot.D()
	for i := 0; i < 2; i++ {
		text := typedText(r, t, false)
		seed := uint64(0)
		if r.P(40) {
			seed = r.U64() | 1
		}
		// the destination is the middle element: its neighbours stay
		at := reflect.ArrayOf(3, t)
		arr := reflect.New(at)
		for _, k := range []int{0, 2} {
			prefill(arr.Elem().Index(k), r.U64()|1)
		}
		guard := [2]reflect.Value{clone(arr.Elem().Index(0)), clone(arr.Elem().Index(2))}
		want := reflect.New(t)
		prefill(want.Elem(), seed)
		prefill(arr.Elem().Index(1), seed)
		stdE := stdDecode(text, want.Interface(), false, false)
		c.NoteB("decode with collections into "+typeStr(t)+" of ", text)
		rt := typedRoutes[r.Intn(len(typedRoutes))]
		in := append([]byte(nil), text...)
		fr := r.Fork()
		got := arr.Elem().Index(1).Addr()
		var jzE error
		g0 := memGCs
		withStress(r.U64(), func() {
			if r.P(40) {
				rr := readerRoutes[r.Intn(len(readerRoutes))]
				rd := genReader(fr, in)
				rd.onRead = stress
				jzE = rr.f(dc, rd, fr, got.Interface())
			} else {
				jzE = rt.f(dc, in, fr, got.Interface())
			}
		})
		c.FeatIf(memGCs > g0, "collected while decoding")
		garbage(int(r.U64() >> 40))
		judgeTyped(c, rt.name, t, text, stdE, jzE, want, got)
		for k, gi := range []int{0, 2} {
			if d := same(guard[k], arr.Elem().Index(gi), cmpOpt{}); d != "" {
				c.Failf("decoding into the middle element of %s changed a neighbour at %s\n input %s", typeStr(at), d, q(text))
			}
		}
		if stdE == nil && jzE == nil && !laxText(text) && !dupSlice(t, text) {
			keepMem(c, memKept{got, clone(got), typeStr(t) + " from " + q(text)})
		}
		c.Seen(mix(hash64(text), hashStr(t.String())), memGCs > g0)
		c.Sample("%s into %s with %d collections", q(text), typeStr(t), memGCs-g0)
	}
}

func engGCEnc(c *C) {
	r := c.R
	t := memType(r)
	ec := rot.E()
	for i := 0; i < 2; i++ {
		v := reflect.New(t)
		g := VG{R: r, OneEntry: r.P(70), noBF: true}
		g.fill(v.Elem())
		var root = v.Interface()
		if r.Bool() && !strings.Contains(t.String(), "gcR") && t.Kind() != reflect.Interface {
			root = v.Elem().Interface()
		}
		if strings.Contains(t.String(), "gcR") && strings.Contains(t.String(), "map[") {
			continue // pointer receivers of unaddressable values
		}
		rt := encRoutes[r.Intn(len(encRoutes))]
		a, aErr := stdEncode(root, true)
		before := clone(v.Elem())
		c.Note("encode with collections of %s", typeStr(t))
		var b []byte
		var bErr error
		g0 := memGCs
		withStress(r.U64(), func() { b, bErr = rt.f(ec, root, true) })
		c.FeatIf(memGCs > g0, "collected while encoding")
		garbage(int(r.U64() >> 40))
		judgeEnc(c, rt.name, func() string { return clip(fmt.Sprintf("%s %+v", typeStr(t), v.Elem()), 900) }, g.OneEntry && t != tOf(gcAll{}), a, aErr, b, bErr)
		if d := same(before, v.Elem(), cmpOpt{}); d != "" {
			c.Failf("encoding changed the value at %s\n type %s", d, typeStr(t))
		}
		c.Seen(mix(hash64(a), hashStr(t.String())), memGCs > g0)
	}
}

// ---- values on the stack ----

type stackT struct {
	Pre [4]int64
	S   string
	J   gcJ
	P   *gcT
	I   interface{}
	L   []gcP
	M   map[gcT]gcJ
	A   [3]gcT
	N   int8
	Sub struct {
		X, Y int32
		Z    *gcJ
	}
	Post [4]int64
}

const stackDoc = `{"S":"text","J":[1,2],"P":"pp","I":{"a":[1,"x"]},"L":["a","b","c","d","e"],"M":{"k":{"x":1}},"A":["q","w","e"],"N":-3,"Sub":{"X":7,"Y":8,"Z":"zz"}}`

//go:noinline
func stackDecode(dc *jzon.DecoderConfig, depth int, rd *chunkReader) (string, error) {
	if depth > 0 {
		var pad [64]byte
		pad[depth%64] = 1
		s, err := stackDecode(dc, depth-1, rd)
		_ = pad
		return s, err
	}
	var x stackT
	x.Pre[1], x.Post[2] = 111, 222
	var err error
	if rd != nil {
		err = dc.UnmarshalFromReader(rd, &x)
	} else {
		err = dc.Unmarshal([]byte(stackDoc), &x)
	}
	stress()
	if x.Pre[1] != 111 || x.Post[2] != 222 {
		return "guards destroyed", err
	}
	b, _ := json.Marshal(&x)
	return string(b), err
}

//go:noinline
func stackSmall(dc *jzon.DecoderConfig, ec *jzon.EncoderConfig) (string, error) {
	var (
		a int
		b string
		d []gcT
		e [2]gcJ
		f interface{}
		g map[string]int
		h *int
		k bool
		l float64
	)
	out := ""
	for _, s := range []struct {
		t string
		p interface{}
	}{{`12`, &a}, {`"str"`, &b}, {`["x","y","z"]`, &d}, {`[1,2]`, &e}, {`{"a":{"b":[1]}}`, &f}, {`{"a":1}`, &g}, {`5`, &h}, {`true`, &k}, {`2.5`, &l}} {
		if err := dc.Unmarshal([]byte(s.t), s.p); err != nil {
			return out, err
		}
		stress()
	}
	for _, p := range []interface{}{a, &a, b, &b, d, &d, e, &e, f, &f, g, &g, h, &h, k, &k, l, &l, gcP{&b}, [1]*gcP{{&b}}, struct{ P *string }{&b}, struct{ J gcJ }{gcJ{b, &b}}} {
		x, err := ec.Marshal(p)
		if err != nil {
			return out, err
		}
		y, err := json.Marshal(p)
		if err != nil {
			return out, err
		}
		if string(x) != string(y) {
			return fmt.Sprintf("%T encodes as %s instead of %s", p, x, y), nil
		}
		out += string(x)
		stress()
	}
	return "", nil
}

func engGCStack(c *C) {
	r := c.R
	dc, ec := rot.D(), rot.E()
	var want string
	{
		var x stackT
		x.Pre[1], x.Post[2] = 111, 222
		if err := json.Unmarshal([]byte(stackDoc), &x); err != nil {
			panic(harnessErr("%v", err))
		}
		b, _ := json.Marshal(&x)
		want = string(b)
	}
	seed := r.U64()
	depth := r.Intn(40)
	var rd *chunkReader
	if r.Bool() {
		rd = genReader(r, []byte(stackDoc))
		rd.onRead = stress
	}
	c.Note("stack allocated values, depth %d", depth)
	type res struct {
		s, small string
		e1, e2   error
		p        interface{}
	}
	ch := make(chan res, 1)
	go func() { // a small new stack
		var o res
		defer func() {
			o.p = recover()
			ch <- o
		}()
		withStress(seed, func() {
			o.s, o.e1 = stackDecode(dc, depth, rd)
			o.small, o.e2 = stackSmall(dc, ec)
		})
	}()
	o := <-ch
	if o.p != nil {
		c.Failf("panic %v", o.p)
	}
	if o.e1 != nil || o.s != want {
		c.Failf("decoding into a local variable: error %v\n got  %s\n want %s", o.e1, clip(o.s, 900), clip(want, 900))
	}
	if o.e2 != nil || o.small != "" {
		c.Failf("local variables: error %v %s", o.e2, o.small)
	}
	c.Feat("stacks")
	c.Seen(mix(seed, uint64(depth)), true)
}

// engGCBg: the collector runs all the time next to decoding and encoding
func engGCBg(c *C) {
	r := c.R
	stop, gone := make(chan struct{}), make(chan int)
	go func() {
		n := 0
		for {
			select {
			case <-stop:
				gone <- n
				return
			default:
				runtime.GC()
				n++
			}
		}
	}()
	end := func() {
		close(stop)
		n := <-gone
		c.st.Feats["collections next to decoding"] += int64(n)
	}
	defer end()
	for i := 0; i < 12; i++ {
		if r.P(70) {
			engGCDecBg(c)
		} else {
			engGCEnc(c)
		}
	}
}

func engGCDecBg(c *C) {
	r := c.R
	t := memType(r)
	dc := rot.D()
	text := typedText(r, t, false)
	seed := uint64(0)
	if r.P(40) {
		seed = r.U64() | 1
	}
	want, got := reflect.New(t), reflect.New(t)
	prefill(want.Elem(), seed)
	prefill(got.Elem(), seed)
	stdE := stdDecode(text, want.Interface(), false, false)
	c.NoteB("decode next to the collector into "+typeStr(t)+" of ", text)
	rt := typedRoutes[r.Intn(len(typedRoutes))]
	jzE := rt.f(dc, append([]byte(nil), text...), r.Fork(), got.Interface())
	judgeTyped(c, rt.name, t, text, stdE, jzE, want, got)
	if stdE == nil && jzE == nil && !laxText(text) && !dupSlice(t, text) {
		keepMem(c, memKept{got, clone(got), typeStr(t) + " from " + q(text)})
	}
	c.Seen(mix(hash64(text), hashStr(t.String())), len(text) > 2)
}

// what the run-time checks print
var fatalMarks = []string{"fatal error: checkptr", "ERROR: AddressSanitizer", "found bad pointer", "unexpected fault address", "checkmark", "sweep increased allocation"}

func init() {
	reg("gc-dec", engGCDec, "collected while decoding", "kept result compared again")
	reg("gc-enc", engGCEnc, "collected while encoding")
	reg("gc-stack", engGCStack, "stacks")
	reg("gc-bg", engGCBg, "collections next to decoding", "kept result compared again")
	prop(&Prop{ID: "C14", Level: "exploration",
		Rule:        "each case decodes or encodes generated types whose hooks, readers and neighbours collect garbage, move the stack and reuse freed memory in the middle of the operation, with freed memory overwritten (clobberfree), with the collector running all the time and verified by a second mark (gccheckmark), with pointer arithmetic checked (checkptr) and under the address sanitizer; results are compared with encoding/json at once and again after later collections, and the elements next to the destination with copies; a case is a distinct (type, text or document) during which a collection happened",
		Assumptions: []string{"the sanitizers report what they are documented to report on the executions made"},
		Variants: []Variant{
			{Name: "clobber", Env: []string{"GODEBUG=clobberfree=1", "GOGC=20"}, Runs: []Run{{"gc-dec", 4000, 400000}, {"gc-enc", 3000, 300000}, {"gc-stack", 300, 30000}, {"alias", 6000, 200000}, {"large-dec", 1600, 60000}, {"large-enc", 800, 30000}, {"sizes", 250, 5000}}, Markers: fatalMarks},
			{Name: "checkmark", Env: []string{"GODEBUG=gccheckmark=1,clobberfree=1"}, Runs: []Run{{"gc-bg", 700, 40000}}, Markers: fatalMarks},
			{Name: "checkptr", Flags: []string{"-gcflags=github.com/zerosnake0/jzon=-d=checkptr"}, Runs: []Run{{"typed", 30000, 800000}, {"encode", 30000, 800000}, {"encode-fixed", 6000, 100000}, {"gc-dec", 500, 60000}, {"gc-stack", 60, 5000}, {"walk", 6000, 100000}, {"structs", 4000, 100000}, {"streamer", 20000, 300000}, {"large-dec", 800, 30000}, {"large-enc", 800, 30000}}, Markers: fatalMarks},
			{Name: "asan", Flags: []string{"-asan"}, Env: []string{"ASAN_OPTIONS=detect_leaks=0:exitcode=67"}, Runs: []Run{{"typed", 16000, 400000}, {"encode", 16000, 400000}, {"encode-fixed", 3000, 60000}, {"str", 6000, 100000}, {"chunks", 6000, 100000}, {"gc-dec", 300, 30000}, {"walk", 3000, 60000}, {"num-write", 3000, 60000}, {"streamer", 10000, 200000}, {"large-dec", 400, 20000}, {"large-enc", 400, 20000}}, Markers: fatalMarks},
		},
	})
}
