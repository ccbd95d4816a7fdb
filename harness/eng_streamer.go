package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

// smodel is an independent writer which follows the calls made on a streamer
type smodel struct {
	out   []byte
	poped bool // a value has been written at this level
	html  bool
	err   error
	feats map[string]int
}

func (m *smodel) did(f string) {
	if m.err == nil {
		m.feats[f]++
	}
}

func (m *smodel) sep() {
	if m.poped {
		m.out = append(m.out, ',')
	}
	m.poped = true
}

func (m *smodel) val(t string) {
	if m.err == nil {
		m.sep()
		m.out = append(m.out, t...)
	}
}

func (m *smodel) open(b byte) {
	if m.err == nil {
		m.sep()
		m.out = append(m.out, b)
		m.poped = false
	}
}

func (m *smodel) close(b byte) {
	if m.err == nil {
		m.out = append(m.out, b)
		m.poped = true
	}
}

func (m *smodel) key(raw string) {
	if m.err == nil {
		m.sep()
		m.out = append(append(m.out, raw...), ':')
		m.poped = false
	}
}

func (m *smodel) fail(err error) {
	if m.err == nil {
		m.err = err
	}
}

// strText is the text of a string as encoding/json writes it, with the
// spelling of backspace and form feed left to normEsc
func strText(s string, html bool) string {
	b, err := stdEncode(s, html)
	if err != nil {
		panic(harnessErr("%v", err))
	}
	return string(b)
}

// custom encoder types: running them executes a closure on the streamer
type progF struct{ f func(s *jzon.Streamer) } // pointer shaped
type progW struct {
	pad int
	f   func(s *jzon.Streamer)
}

type progFEnc struct{}

func (progFEnc) IsEmpty(p unsafe.Pointer) bool { return (*progF)(p).f == nil }
func (progFEnc) Encode(p unsafe.Pointer, s *jzon.Streamer, o *jzon.EncOpts) {
	if p == nil { // of a nil pointer
		s.Null()
	} else if f := (*progF)(p).f; f != nil {
		f(s)
	} else {
		s.Null()
	}
}

type progWEnc struct{}

func (progWEnc) IsEmpty(p unsafe.Pointer) bool { return (*progW)(p).pad == 0 }
func (progWEnc) Encode(p unsafe.Pointer, s *jzon.Streamer, o *jzon.EncOpts) {
	if p == nil {
		s.Null()
	} else if f := (*progW)(p).f; f != nil {
		f(s)
	} else {
		s.Null()
	}
}

type progStruct struct {
	A int    `json:"a"`
	W progW  `json:"<w>"`
	F progF  `json:"f,omitempty"`
	P *progW `json:"p"`
	O progW  `json:"o,omitempty"`
	Z string
}

type progBad struct{ c chan int }

var progCfg = jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true, ValEncoders: map[reflect.Type]jzon.ValEncoder{tOf(progF{}): progFEnc{}, tOf(progW{}): progWEnc{}}})
var progCfgNo = jzon.NewEncoderConfig(&jzon.EncoderOption{ValEncoders: map[reflect.Type]jzon.ValEncoder{tOf(progF{}): progFEnc{}, tOf(progW{}): progWEnc{}}})

var errUser = errors.New("user-set-error-99aa")

// prog makes calls on the streamer and on the model
type prog struct {
	c      *C
	r      *Rand
	s      *jzon.Streamer
	m      *smodel
	w      *bytes.Buffer
	budget int
	errPct int // chance of an error operation in per mille
	flush  int
}

func (p *prog) maybeFlush(s *jzon.Streamer) {
	if p.w == nil || !p.r.P(p.flush) {
		return
	}
	p.doFlush(s)
}

func (p *prog) doFlush(s *jzon.Streamer) {
	err := s.Flush()
	if p.m.err != nil {
		if err != p.m.err {
			p.c.Failf("Flush after the error %v returns %v", p.m.err, err)
		}
		return
	}
	if err != nil {
		p.c.Failf("Flush: %v (streamer error %v); model %s", err, s.Error, q(p.m.out))
	}
	p.compare("after a flush")
	p.m.feats["flush"]++
}

func (p *prog) compare(when string) {
	a, b := p.m.out, p.w.Bytes()
	if !bytes.Equal(a, b) && !bytes.Equal(normEsc(a), normEsc(b)) {
		p.c.Failf("%s the writer holds\n %s, expected\n %s", when, q(b), q(a))
	}
}

// chain checks that a call returns its receiver
func (p *prog) chain(s, t *jzon.Streamer) {
	if s != t {
		p.c.Failf("a call returned another streamer")
	}
}

func (p *prog) value(s *jzon.Streamer, d int) {
	r, m := p.r, p.m
	p.budget--
	if s.Error != m.err {
		p.c.Failf("streamer error %v, expected %v; model %s", s.Error, m.err, q(m.out))
	}
	p.maybeFlush(s)
	if p.errPct > 0 && r.Intn(1000) < p.errPct {
		p.fault(s)
		return
	}
	k := r.Intn(26)
	if d > 6 || p.budget <= 0 {
		k = r.Intn(18)
	}
	num := func(x string) { m.val(x); m.did("number") }
	switch k {
	case 0:
		p.chain(s, s.Null())
		m.val("null")
	case 1:
		b := r.Bool()
		p.chain(s, s.Bool(b))
		m.val(strconv.FormatBool(b))
	case 2:
		p.chain(s, s.True())
		m.val("true")
	case 3:
		p.chain(s, s.False())
		m.val("false")
	case 4:
		switch r.Intn(5) {
		case 0:
			x := int8(genInt(r, 8))
			p.chain(s, s.Int8(x))
			num(strconv.Itoa(int(x)))
		case 1:
			x := int16(genInt(r, 16))
			p.chain(s, s.Int16(x))
			num(strconv.Itoa(int(x)))
		case 2:
			x := int32(genInt(r, 32))
			p.chain(s, s.Int32(x))
			num(strconv.Itoa(int(x)))
		case 3:
			x := genInt(r, 64)
			p.chain(s, s.Int64(x))
			num(strconv.FormatInt(x, 10))
		case 4:
			x := int(genInt(r, 64))
			p.chain(s, s.Int(x))
			num(strconv.Itoa(x))
		}
	case 5:
		switch r.Intn(5) {
		case 0:
			x := uint8(genUint(r, 8))
			p.chain(s, s.Uint8(x))
			num(strconv.Itoa(int(x)))
		case 1:
			x := uint16(genUint(r, 16))
			p.chain(s, s.Uint16(x))
			num(strconv.Itoa(int(x)))
		case 2:
			x := uint32(genUint(r, 32))
			p.chain(s, s.Uint32(x))
			num(strconv.FormatUint(uint64(x), 10))
		case 3:
			x := genUint(r, 64)
			p.chain(s, s.Uint64(x))
			num(strconv.FormatUint(x, 10))
		case 4:
			x := uint(genUint(r, 64))
			p.chain(s, s.Uint(x))
			num(strconv.FormatUint(uint64(x), 10))
		}
	case 6:
		if r.Bool() {
			x := r.F64()
			p.chain(s, s.Float64(x))
			b, _ := stdEncode(x, true)
			num(string(b))
		} else {
			x := r.F32()
			p.chain(s, s.Float32(x))
			b, _ := stdEncode(x, true)
			num(string(b))
		}
	case 7, 8, 9:
		x := genGoString(r, r.P(20))
		if r.P(4) {
			x = strings.Repeat(x+"<é", r.Range(20, 400))
		}
		p.chain(s, s.String(x))
		m.val(strText(x, m.html))
		m.did("string")
	case 10, 11:
		x := r.Str([]string{"1", "null", `{"raw":[1, 2]}`, `"<raw>"`, " [ ] ", "1.50", "true"})
		if r.P(5) {
			x = "[" + strings.Repeat(" ", r.Range(100, 2000)) + "]"
		}
		if r.Bool() {
			p.chain(s, s.Raw([]byte(x)))
		} else {
			p.chain(s, s.RawString(x))
		}
		m.val(x)
		m.did("raw")
	case 12, 13, 14:
		var v interface{}
		g := VG{R: r, OneEntry: true, BadUTF8: r.P(10), noBF: true}
		switch r.Intn(5) {
		case 0:
			v = g.tree(0)
		case 1:
			v = &EInner{A: r.Intn(9), B: genGoString(r, false)}
		case 2:
			t := []reflect.Type{tOf(RList{}), tOf(EOuter{}), tOf(OmitAll{}), tOf(QuotedAll{}), tOf(map[int]string{}), tOf(TStr("")), tOf(JInt(0)), tOf(JPtrShape{}), tOf([]byte{}), tOf([2]*EInner{}), tOf(map[TStruct]JRec{})}[r.Intn(11)]
			x := reflect.New(t).Elem()
			g.fill(x)
			v = x.Interface()
		case 3:
			v = nil
		case 4:
			v = []interface{}{1, "<a>", nil, map[string]interface{}{"<k>": true}}
		}
		p.chain(s, s.Value(v))
		b, err := stdEncode(v, m.html)
		if err != nil {
			panic(harnessErr("%v of %T", err, v))
		}
		m.val(string(b))
		m.did("Go value")
	case 15, 16, 17:
		p.custom(s, d)
	case 18, 19, 20, 21:
		p.chain(s, s.ArrayStart())
		m.open('[')
		for n := r.Intn(5); n > 0; n-- {
			p.value(s, d+1)
		}
		p.maybeFlush(s)
		p.chain(s, s.ArrayEnd())
		m.close(']')
		m.did("array")
	default:
		p.chain(s, s.ObjectStart())
		m.open('{')
		for n := r.Intn(5); n > 0; n-- {
			p.maybeFlush(s)
			x := genGoString(r, r.P(10))
			if r.P(60) {
				x = r.Str(simpleKeys)
			}
			if r.P(70) {
				p.chain(s, s.Field(x))
				m.key(strText(x, m.html))
			} else {
				raw := r.Str([]string{`"raw"`, `"<"`, `"\u0041"`, `""`})
				p.chain(s, s.RawField([]byte(raw)))
				m.key(raw)
			}
			p.value(s, d+1)
		}
		p.chain(s, s.ObjectEnd())
		m.close('}')
		m.did("object")
	}
	if r.P(2) {
		m.html = r.Bool()
		s.EscapeHTML(m.html)
		m.did("html switched")
	}
}

// sub returns a closure which writes exactly one value
func (p *prog) sub(d int, ran *int) func(s *jzon.Streamer) {
	return func(s *jzon.Streamer) {
		*ran++
		if s.Error != nil {
			p.c.Failf("a custom encoder is called after the error %v", s.Error)
		}
		p.value(s, d+1)
	}
}

// custom writes a value with custom encoders in it
func (p *prog) custom(s *jzon.Streamer, d int) {
	r, m := p.r, p.m
	ran := 0
	pre := m.err
	want := 0
	fail := func() bool { return m.err != nil && pre == nil }
	switch r.Intn(9) {
	case 0:
		want = 1
		s.Value(progF{p.sub(d, &ran)})
	case 1:
		want = 1
		s.Value(progW{1, p.sub(d, &ran)})
	case 2:
		want = 1
		s.Value(&progW{1, p.sub(d, &ran)})
	case 3:
		want = 1
		s.Value(&progF{p.sub(d, &ran)})
	case 4:
		want = r.Intn(3)
		x := []progW{}
		for i := 0; i < want; i++ {
			x = append(x, progW{1, p.sub(d, &ran)})
		}
		m.open('[')
		s.Value(x)
		m.close(']')
	case 5:
		want = 1
		m.open('{')
		m.key(`"k"`)
		s.Value(map[string]progF{"k": {p.sub(d, &ran)}})
		m.close('}')
	case 6:
		want = 1
		m.open('[')
		s.Value([]interface{}{progW{1, p.sub(d, &ran)}})
		m.close(']')
	case 7:
		want = 1
		m.open('[')
		s.Value([1]progF{{p.sub(d, &ran)}})
		m.close(']')
	case 8:
		x := progStruct{A: 5, Z: "<z>"}
		html := m.html
		lt := func(html bool, t string) string { return strText(t, html) }
		_ = html
		// members are encoded in order; the HTML setting may be switched by
		// a custom encoder, names of members are escaped when written
		step := 0
		enter := func(key string, f func(s *jzon.Streamer)) func(s *jzon.Streamer) {
			return func(s *jzon.Streamer) { step++; m.key(lt(m.html, key)); f(s) }
		}
		want = 1
		x.W = progW{1, enter("<w>", p.sub(d, &ran))}
		if r.Bool() {
			x.F = progF{enter("f", p.sub(d, &ran))}
			want++
		}
		hasP := r.Bool()
		if hasP {
			x.P = &progW{1, enter("p", p.sub(d, &ran))}
			want++
		}
		if r.Bool() {
			x.O = progW{1, nil}
		}
		m.open('{')
		m.key(`"a"`)
		m.val("5")
		x2 := x
		// after P: what follows is written by the last encoder to run
		tail := func() {
			if x.O.pad != 0 {
				m.key(`"o"`)
				m.val("null")
			}
			m.key(`"Z"`)
			m.val(lt(m.html, "<z>"))
		}
		if !hasP {
			// "p":null comes after f or w
			last := &x2.W.f
			if x.F.f != nil {
				last = &x2.F.f
			}
			g := *last
			*last = func(s *jzon.Streamer) {
				g(s)
				m.key(`"p"`)
				m.val("null")
				tail()
			}
		} else {
			g := x.P.f
			x2.P.f = func(s *jzon.Streamer) { g(s); tail() }
		}
		if pre == nil {
			s.Value(x2)
		} else {
			s.Value(x2)
			want = 0
		}
		m.close('}')
	}
	if pre != nil {
		want = 0
	}
	if !fail() && ran != want {
		p.c.Failf("custom encoder ran %d times instead of %d", ran, want)
	}
	m.did("custom encoder")
}

// fault makes one call which fails
func (p *prog) fault(s *jzon.Streamer) {
	r, m := p.r, p.m
	pre := s.Error
	var want error
	switch r.Intn(8) {
	case 0:
		s.Float64(math.Inf(1 - 2*r.Intn(2)))
		want = jzon.ErrFloatIsInfinity
	case 1:
		s.Float32(float32(math.NaN()))
		want = jzon.ErrFloatIsNan
	case 2:
		s.Value(make(chan int))
	case 3:
		s.Value(failJ{})
	case 4:
		s.Value([]interface{}{1, failT{}, 2})
	case 5:
		if s.Error == nil {
			s.Error = errUser
		}
		want = errUser
	case 6:
		s.Value(map[string]float64{"a": math.NaN()})
		want = jzon.ErrFloatIsNan
	case 7:
		s.Value(struct {
			A int
			P *progBad2
		}{1, &progBad2{}})
	}
	if s.Error == nil {
		p.c.Failf("a failing write set no error")
	}
	if pre != nil && s.Error != pre {
		p.c.Failf("the first error %v was replaced by %v", pre, s.Error)
	}
	if pre == nil && want != nil && s.Error != want {
		p.c.Failf("error %v, expected %v", s.Error, want)
	}
	m.fail(s.Error)
	m.feats["error"]++
}

type progBad2 struct{ F func() }

func engStreamer(c *C) {
	r := c.R
	cfg := progCfg
	html := true
	if r.Bool() {
		cfg, html = progCfgNo, false
	}
	s := cfg.NewStreamer()
	defer func() { s.Release() }()
	for doc := r.Range(1, 4); doc > 0; doc-- {
		var w bytes.Buffer
		m := &smodel{html: html, feats: map[string]int{}}
		p := &prog{c: c, r: r, s: s, m: m, w: &w, budget: r.Range(1, 40)}
		if r.P(70) {
			p.flush = r.Intn(40)
		}
		if r.P(25) {
			p.errPct = r.Range(5, 100)
		}
		if r.P(10) {
			// no writer
			if r.Bool() {
				s.Reset(nil)
			} else {
				s.Release()
				s = cfg.NewStreamer()
				m.html = cfg == progCfg
			}
			s.EscapeHTML(m.html)
			p.w = nil
			p.value(s, 0)
			err := s.Flush()
			if m.err == nil && err != jzon.ErrNoAttachedWriter || m.err != nil && err != m.err {
				c.Failf("Flush without a writer returns %v (error %v)", err, m.err)
			}
			html = m.html
			c.Feat("no writer")
			continue
		}
		s.Reset(&w)
		if r.P(30) {
			m.html = r.Bool()
			s.EscapeHTML(m.html)
		}
		if s.Error != nil {
			c.Failf("a reset streamer has the error %v", s.Error)
		}
		c.Note("streamer program, case %d document %d", c.Idx, doc)
		p.value(s, 0)
		if r.P(15) {
			// abandoned in the middle: the next document starts afresh
			s.ArrayStart().Int(1)
			html = m.html
			c.Feat("abandoned document")
			continue
		}
		calls := w.Len()
		p.doFlush(s)
		if m.err != nil {
			// writes are ignored from now on
			s.Int(1).String("x").ArrayStart().Value(5).Field("a").RawField([]byte(`"b"`)).ArrayEnd().ObjectStart().ObjectEnd().Null().Bool(true).Raw([]byte("1")).RawString("2").Float32(1).Uint8(1).Int8(3)
			if e := s.Flush(); e != m.err || s.Error != m.err || w.Len() != calls {
				c.Failf("after the error %v: Flush returns %v, Error is %v, %d more bytes written", m.err, e, s.Error, w.Len()-calls)
			}
			if !bytes.HasPrefix(normEsc(m.out), normEsc(w.Bytes())) {
				c.Failf("the writer holds %s, which is not a beginning of %s", q(w.Bytes()), q(m.out))
			}
			c.Feat("document with an error")
		} else {
			if refDoc(w.Bytes()) == nil {
				c.Failf("the document is not valid JSON: %s", q(w.Bytes()))
			}
			c.Feat("document complete")
			// flushing again adds nothing
			p.doFlush(s)
			c.Sample("%s", q(w.Bytes()))
		}
		for f, n := range m.feats {
			c.st.Feats[f] += int64(n)
		}
		html = m.html
		c.SeenB(m.out, len(m.out) > 4)
	}
	_ = fmt.Sprint
}

func init() {
	reg("streamer", engStreamer, "document complete", "document with an error", "no writer", "abandoned document", "custom encoder", "html switched", "flush", "raw", "string", "number", "Go value")
	prop(&Prop{ID: "C11", Level: "exploration",
		Rule:        "each case makes one or more documents on a pooled streamer with a random well-nested program of calls (all scalar writers, arrays, objects, fields, raw text, Go values, custom encoders which themselves make calls, flushes, HTML switches, failing calls, resets in mid document, no writer); an independent model writes the same document and the writer's content, the streamer's error and Flush's answers are compared after every flush and at the end; non-trivial when the document is longer than 4 bytes",
		Assumptions: []string{"number and string texts as encoding/json and strconv write them"},
		Variants:    plain(Run{"streamer", 300000, 8000000}, Run{"write-fault", 40000, 600000}, Run{"num-write", 5000, 100000}, Run{"str-out", 10000, 200000}, Run{"counts-stream", 2202, 60000}),
	})
}
