package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"
)

// What an error says: its cause, and for one-shot decoding the place.

const near = " (near "

// eRoute is a way to decode which reports plain causes or wrapped ones
type eRoute struct {
	name    string
	wrapped bool // the error is a *DecodeError
	decoder bool
	reader  bool
	whole   bool // looks behind the value
	f       func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error
}

// withIter lends an iterator, sometimes a used one
func withIter(cfg *jzon.DecoderConfig, r *Rand, f func(it *jzon.Iterator) error) error {
	it := cfg.NewIterator()
	defer it.Release()
	if r.P(20) {
		var v interface{}
		it.Unmarshal([]byte(`{"a":[1,"x`), &v)
	}
	return f(it)
}

func bufs(b []byte) []byte { return append(make([]byte, 0, len(b)), b...) }

// errors must stay what they were: those of one execution, with their texts
// and the inputs (overwritten afterwards)
type keptErr struct {
	err  error
	text string
	rt   string
	b    []byte
}

var (
	eInputs [][]byte
	eKept   []keptErr
)

func eInput(b []byte) []byte {
	x := bufs(b)
	eInputs = append(eInputs, x)
	return x
}

func (rt *eRoute) run(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
	err := rt.f(cfg, b, r, dst)
	if err != nil {
		eKept = append(eKept, keptErr{err, strings.Clone(err.Error()), rt.name, b})
	}
	return err
}

func eKeep(f func(c *C)) func(c *C) {
	return func(c *C) {
		eInputs, eKept = eInputs[:0], eKept[:0]
		f(c)
		eDone(c)
	}
}

var (
	eJunkText = []byte(`{"` + strings.Repeat("Z", 90) + `\n\u005a` + strings.Repeat("Z", 200) + `":["` + strings.Repeat("\u005a", 150) + `",` + strings.Repeat("9", 300) + `]}`)
	eJunkBig  = []byte(`["` + strings.Repeat("Z", 1500) + `"]`)
)

// eDone overwrites the inputs, uses the pools, and looks at the errors again
func eDone(c *C) {
	if len(eKept) == 0 {
		return
	}
	for _, b := range eInputs {
		for i := range b {
			b[i] = 'Z'
		}
	}
	for _, cfg := range []*jzon.DecoderConfig{eNumCfgs[0], eStrict.D()} {
		var its []*jzon.Iterator
		for i := 0; i < 3; i++ {
			it := cfg.NewIterator()
			its = append(its, it)
			it.ResetBytes(bufs(eJunkText))
			it.Read()
			it.Reset(&chunkReader{data: bufs(eJunkText), sizes: []int{77}})
			it.Read()
			it.Reset(&chunkReader{data: bufs(eJunkBig), sizes: []int{4000}})
			it.Skip()
			it.ResetBytes(bufs(eJunkText))
			it.ReadVal(new(memItem))
		}
		for _, it := range its {
			it.Release()
		}
	}
	for _, k := range eKept {
		if s := k.err.Error(); s != k.text {
			c.Failf("%s of %s: the error was %q, later it is %q", k.rt, q(k.b), k.text, s)
		}
	}
	c.Feat("errors looked at again later")
}

var eRoutes = []eRoute{
	{"Unmarshal", true, false, false, true, func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return cfg.Unmarshal(eInput(b), dst)
	}},
	{"UnmarshalFromString", true, false, false, true, func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return cfg.UnmarshalFromString(string(b), dst)
	}},
	{"UnmarshalFromReader", true, false, true, true, func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return cfg.UnmarshalFromReader(genReader(r, b), dst)
	}},
	{"Iterator.Unmarshal", false, false, false, true, func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return withIter(cfg, r, func(it *jzon.Iterator) error { return it.Unmarshal(eInput(b), dst) })
	}},
	{"Iterator.UnmarshalFromReader", false, false, true, true, func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return withIter(cfg, r, func(it *jzon.Iterator) error { return it.UnmarshalFromReader(genReader(r, b), dst) })
	}},
	{"Iterator.ReadVal", false, false, false, false, func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return withIter(cfg, r, func(it *jzon.Iterator) error { it.ResetBytes(eInput(b)); return it.ReadVal(dst) })
	}},
	{"Iterator.ReadVal of a reader", false, false, true, false, func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return withIter(cfg, r, func(it *jzon.Iterator) error { it.Reset(genReader(r, b)); return it.ReadVal(dst) })
	}},
	{"Decoder", false, true, true, false, func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		d := cfg.NewDecoder(genReader(r, b))
		defer d.Release()
		if r.P(20) {
			d.More()
		}
		err := d.Decode(dst)
		if err != nil && d.Decode(dst) != err {
			return fmt.Errorf("another error the second time (first %v)", err)
		}
		return err
	}},
	{"WrapError", true, false, false, true, func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return withIter(cfg, r, func(it *jzon.Iterator) error {
			err := it.Unmarshal(eInput(b), dst)
			if err == nil {
				return nil
			}
			w := it.WrapError(err)
			if it.WrapError(w) != w {
				return fmt.Errorf("wrapping the error a second time gives another one (%v)", w)
			}
			if p := err.Error(); !strings.HasPrefix(w.Error(), p+near) {
				return fmt.Errorf("%v wrapped is %v", p, w)
			}
			return w
		})
	}},
}

// token level routes over an untyped document
var eTokens = []eRoute{
	{name: "Iterator.Read", f: func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return eTok(cfg, b, r, func(it *jzon.Iterator) error { _, err := it.Read(); return err })
	}},
	{name: "Iterator.Skip", f: func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return eTok(cfg, b, r, func(it *jzon.Iterator) error { return it.Skip() })
	}},
	{name: "Iterator.SkipRaw", f: func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return eTok(cfg, b, r, func(it *jzon.Iterator) error { _, err := it.SkipRaw(); return err })
	}},
	{name: "Iterator.AppendRaw", f: func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return eTok(cfg, b, r, func(it *jzon.Iterator) error { _, err := it.AppendRaw([]byte("x")); return err })
	}},
	{name: "Iterator callbacks", f: func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return eTok(cfg, b, r, func(it *jzon.Iterator) error { return walkAny(it, r, 0) })
	}},
}

func eTok(cfg *jzon.DecoderConfig, b []byte, r *Rand, f func(it *jzon.Iterator) error) error {
	return withIter(cfg, r, func(it *jzon.Iterator) error {
		if r.Bool() {
			it.ResetBytes(eInput(b))
		} else {
			it.Reset(genReader(r, b))
		}
		return f(it)
	})
}

// walkAny reads one value with the token level calls
func walkAny(it *jzon.Iterator, r *Rand, d int) error {
	vt, err := it.NextValueType()
	if err != nil {
		return err
	}
	if r.P(10) {
		return it.Skip()
	}
	switch vt {
	case jzon.StringValue:
		switch r.Intn(4) {
		case 0:
			_, err = it.ReadString()
		case 1:
			_, err = it.ReadStringAsSlice()
		case 2:
			_, err = it.ReadStringAndAppend(nil)
		default:
			err = it.SkipString()
		}
	case jzon.NumberValue:
		switch r.Intn(2) {
		case 0:
			_, err = it.ReadNumber()
		default:
			err = it.SkipNumber()
		}
	case jzon.NullValue:
		err = it.ReadNull()
	case jzon.BoolValue:
		_, err = it.ReadBool()
	case jzon.ArrayValue:
		if r.Bool() {
			return it.ReadArrayCB(func(it *jzon.Iterator) error { return walkAny(it, r, d+1) })
		}
		more, err := it.ReadArrayBegin()
		for ; err == nil && more; more, err = it.ReadArrayMore() {
			if err = walkAny(it, r, d+1); err != nil {
				return err
			}
		}
		return err
	case jzon.ObjectValue:
		if r.Bool() {
			return it.ReadObjectCB(func(it *jzon.Iterator, f string) error { return walkAny(it, r, d+1) })
		}
		more, _, err := it.ReadObjectBegin()
		for ; err == nil && more; more, _, err = it.ReadObjectMore() {
			if err = walkAny(it, r, d+1); err != nil {
				return err
			}
		}
		return err
	default:
		return it.Skip()
	}
	return err
}

// causeText is the text of an error without the place
func (rt *eRoute) causeText(err error) string {
	s := err.Error()
	if rt.wrapped {
		if i := strings.Index(s, near); i >= 0 {
			s = s[:i]
		}
	}
	return s
}

// is tells whether err reports the cause want
func (rt *eRoute) is(err, want error) bool {
	if err == nil {
		return false
	}
	if rt.wrapped {
		_, ok := err.(*jzon.DecodeError)
		return ok && strings.HasPrefix(err.Error(), want.Error()+near)
	}
	return err == want
}

// place judges the quoted fragment: a part of the text which touches [lo,hi]
func (rt *eRoute) place(c *C, text []byte, err error, cause string, lo, hi int) {
	if !rt.wrapped {
		return
	}
	s := err.Error()
	de, ok := err.(*jzon.DecodeError)
	if !ok || de == nil {
		c.Failf("%s: the error of %s is a %T", rt.name, q(text), err)
	}
	if !strings.HasPrefix(s, cause+near) || !strings.HasSuffix(s, ")") {
		c.Failf("%s: the error of %s is %q, without a place", rt.name, q(text), s)
	}
	frag := []byte(s[len(cause)+len(near) : len(s)-1])
	if len(frag) > 40 {
		c.Failf("%s: the error of %s quotes %d bytes", rt.name, q(text), len(frag))
	}
	if len(frag) == 0 {
		if !rt.reader && len(text) > 0 {
			c.Failf("%s: the error %q of %s quotes nothing", rt.name, s, q(text))
		}
		return
	}
	for at := 0; ; {
		i := bytes.Index(text[at:], frag)
		if i < 0 {
			break
		}
		at += i
		if at <= hi && at+len(frag) >= lo {
			c.Feat("place found")
			return
		}
		at++
	}
	c.Failf("%s: the error %q does not quote the text around %d..%d of %s", rt.name, s, lo, hi, q(text))
}

type textClass uint8

const (
	tcOK textClass = iota
	tcCut
	tcTrail
	tcBad
	tcSkip
)

// classOf tells what is wrong with a text: at is the first byte which cannot
// continue a JSON text, lo the start of the token it is in
func classOf(b []byte) (cl textClass, at, lo int) {
	var raw json.RawMessage
	d := json.NewDecoder(bytes.NewReader(b))
	err := d.Decode(&raw)
	switch e := err.(type) {
	case nil:
		end := skipWS(b, int(d.InputOffset()))
		if end == len(b) {
			return tcOK, end, end
		}
		return tcTrail, end, end
	case *json.SyntaxError:
		if strings.Contains(e.Error(), "max depth") {
			return tcSkip, 0, 0
		}
		// where: json.Unmarshal's checker counts from the start of the text
		var v interface{}
		se, ok := json.Unmarshal(b, &v).(*json.SyntaxError)
		if !ok || se.Offset < 1 {
			return tcSkip, 0, 0
		}
		at = int(se.Offset) - 1
		return tcBad, at, tokenStart(b, at)
	}
	if err == io.EOF || err == io.ErrUnexpectedEOF {
		return tcCut, len(b), tokenStart(b, len(b))
	}
	return tcSkip, 0, 0
}

// tokenStart is where the token with byte at (or which at follows) begins
func tokenStart(b []byte, at int) int {
	for i := 0; i < at; {
		j := i
		switch c := b[i]; {
		case c == '"':
			for j++; j < len(b) && b[j] != '"'; j++ {
				if b[j] == '\\' {
					j++
				}
				if j >= at {
					return i
				}
			}
			j++
		case bytes.IndexByte([]byte(" \t\r\n,:[]{}"), c) >= 0:
			j++
		default:
			for j < len(b) && bytes.IndexByte([]byte(" \t\r\n,:[]{}\""), b[j]) < 0 {
				j++
			}
		}
		if j >= at {
			return i
		}
		i = j
	}
	return at
}

// names: the text of an error names the byte
func names(cause string, b byte) bool {
	return strings.Contains(cause, fmt.Sprintf("%q", b)) || strings.Contains(cause, fmt.Sprintf("%x found", b))
}

var eNumCfgs = []*jzon.DecoderConfig{
	jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true}),
	jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true, DisallowUnknownFields: true, CaseSensitive: true}),
	jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true, Tag: "jsom", OnlyTaggedField: true}),
}

// eSentinels are the causes which must not be reported for anything else
var eSentinels = []error{io.EOF, io.ErrUnexpectedEOF, jzon.ErrDataRemained, jzon.ErrPointerReceiver, jzon.ErrNilPointerReceiver,
	jzon.ErrEmptyIFace, jzon.ErrNilEmbeddedPointer, jzon.ErrEfaceLooping, jzon.ErrNoAttachedWriter, jzon.ErrFloatIsInfinity, jzon.ErrFloatIsNan}

// only: err reports none of the named causes, or want
func (rt *eRoute) only(c *C, what string, text []byte, err, want error) {
	for _, s := range eSentinels {
		if s != want && rt.is(err, s) {
			c.Failf("%s of %s: the cause of the error (%s) is reported as %v", rt.name, q(text), what, err)
		}
	}
}

// engErrText: untyped texts, cut, followed by more, malformed
func engErrText(c *C) {
	r := c.R
	text := genText(r)
	cl, at, lo := classOf(text)
	if cl == tcOK {
		switch r.Intn(4) {
		case 0, 1:
			text = text[:r.Intn(len(text)+1)]
		case 2:
			text = append(append(bufs(text), genText(r)...), ' ')
		default:
			text = mutate(r, text)
		}
		cl, at, lo = classOf(text)
	}
	if r.P(25) {
		text = padText(r, text)
		cl, at, lo = classOf(text)
	}
	if cl == tcSkip {
		c.Feat("skipped")
		return
	}
	c.NoteB("errors of ", text)
	dsts := 1
	first := byte(0)
	if i := skipWS(text, 0); i < len(text) {
		first = text[i]
	}
	for k := 0; k < 5; k++ {
		rt := &eRoutes[r.Intn(len(eRoutes))]
		if r.P(30) {
			rt = &eTokens[r.Intn(len(eTokens))]
		}
		var dst interface{}
		switch d := r.Intn(8); {
		case d == 0:
			dst = new(json.RawMessage)
		case d == 1 && first == '[':
			dst = new([]interface{})
		case d == 2 && first == '[':
			dst = new([]json.RawMessage)
		case d == 3 && first == '{':
			dst = new(map[string]interface{})
		case d == 4 && first == '{':
			dst = new(map[string]*json.RawMessage)
		case d == 5 && first == '{':
			dst = new(struct{ A, B interface{} })
		case d == 6 && first == '{':
			dst = new(struct{ X json.RawMessage })
		case d == 7 && first == '[':
			dst = new([2]interface{})
		default:
			dst = new(interface{})
		}
		dsts++
		cfg := eNumCfgs[0]
		if r.P(40) { // not those which refuse unknown members
			cfg = eNumCfgs[r.Intn(2)*2]
		}
		err := rt.run(cfg, text, r.Fork(), dst)
		c.Seen(mix(hash64(text), hashStr(rt.name)), len(text) > 1)
		switch cl {
		case tcOK:
			if err != nil {
				c.Failf("%s into %T of %s, which is valid: %v", rt.name, dst, q(text), err)
			}
			c.Feat("valid")
		case tcTrail:
			if !rt.whole {
				if err != nil {
					c.Failf("%s into %T of %s, which has a valid value in front: %v", rt.name, dst, q(text), err)
				}
				c.Feat("value in front")
				break
			}
			if !rt.is(err, jzon.ErrDataRemained) {
				c.Failf("%s into %T of %s: further data is reported as %v", rt.name, dst, q(text), err)
			}
			rt.place(c, text, err, jzon.ErrDataRemained.Error(), at-1, at+1)
			c.Feat("further data reported")
		case tcCut:
			want := io.EOF
			if rt.decoder && skipWS(text, 0) != len(text) {
				want = io.ErrUnexpectedEOF
				c.Feat("unexpected end reported by a decoder")
			}
			if !rt.is(err, want) {
				c.Failf("%s into %T of %s, which is cut off: %v instead of %v", rt.name, dst, q(text), err, want)
			}
			rt.place(c, text, err, want.Error(), lo-1, at)
			c.Feat("end reported")
		case tcBad:
			if err == nil {
				c.Failf("%s into %T accepts %s", rt.name, dst, q(text))
			}
			rt.only(c, "malformed text", text, err, nil)
			cause := rt.causeText(err)
			if !names(cause, text[at]) {
				c.Failf("%s into %T of %s: byte %q at %d is wrong, but the error is %v", rt.name, dst, q(text), text[at], at, err)
			}
			rt.place(c, text, err, cause, lo-1, at+1)
			c.Feat("malformed byte named")
		}
	}
}

// nodes lists the values of a document, with the texts in front of them
func nodes(n *Node, out []*Node) []*Node {
	out = append(out, n)
	for _, e := range n.Elems {
		out = nodes(e, out)
	}
	return out
}

func splice(b []byte, from, to int, s []byte) []byte {
	return append(append(append(make([]byte, 0, len(b)+len(s)), b[:from]...), s...), b[to:]...)
}

var eBig = []string{"128", "-129", "256", "32768", "-32769", "65536", "2147483648", "-2147483649", "4294967296", "9223372036854775808", "-9223372036854775809", "18446744073709551616",
	"99999999999999999999", "-99999999999999999999", "18446744073709551620", "184467440737095516150", "1844674407370955161500", "300", "-1000", "25600000000", "340282366920938463463374607431768211456"}

var eStrict = &cfgPool{decOp: &jzon.DecoderOption{DisallowUnknownFields: true}}

// engErrTyped: one fault in a document which fits its type
func engErrTyped(c *C) {
	r := c.R
	t := chunkType(r)
	for i := 0; i < 10; i++ {
		if k := t.Kind(); k == reflect.Struct || k == reflect.Map || k == reflect.Slice || k == reflect.Ptr {
			break
		}
		t = chunkType(r)
	}
	mode := r.Intn(5)
	pool := &rot
	if mode == 3 {
		pool = eStrict
	}
	cfg := pool.D()
	var text []byte
	var n *Node
	for i := 0; ; i++ {
		if i > 8 {
			c.Feat("skipped")
			return
		}
		text = textFor(r, t, r.Intn(2), false)
		if r.P(10) {
			text = padText(r, text)
		}
		if laxText(text) || len(text) > 3000 {
			continue
		}
		dst := reflect.New(t)
		if cfg.Unmarshal(text, dst.Interface()) != nil {
			continue
		}
		std := json.NewDecoder(bytes.NewReader(text))
		if mode == 3 {
			std.DisallowUnknownFields()
		}
		if std.Decode(reflect.New(t).Interface()) != nil {
			continue
		}
		if n = refDoc(text); n != nil {
			break
		}
	}
	rt := &eRoutes[r.Intn(len(eRoutes))]
	run := func(b []byte) error {
		c.NoteB(rt.name+" into "+typeStr(t)+" of ", b)
		err := rt.run(cfg, b, r.Fork(), reflect.New(t).Interface())
		c.Seen(mix(mix(hash64(b), hashStr(rt.name)), hashStr(t.String())), true)
		return err
	}
	all := nodes(n, nil)
	for k := 0; k < 4; k++ {
		rt = &eRoutes[r.Intn(len(eRoutes))]
		switch mode {
		case 0: // cut
			at := r.Intn(n.End)
			if n.K == KNum && at > n.Start && refNumber(text[n.Start:at], 0) == at-n.Start {
				continue
			}
			b := text[:at:at]
			err := run(b)
			want := io.EOF
			if rt.decoder && skipWS(b, 0) != len(b) {
				want = io.ErrUnexpectedEOF
			}
			if !rt.is(err, want) {
				c.Failf("%s into %s of %s, which is cut off: %v instead of %v", rt.name, typeStr(t), q(b), err, want)
			}
			rt.place(c, b, err, want.Error(), tokenStart(b, at)-1, at)
			c.Feat("typed: end reported")
		case 1: // more
			b := bufs(text)
			if n.K == KNum || r.Bool() {
				b = append(b, ' ')
			}
			b = append(b, r.Str([]string{"x", "1", `"`, ",", "]", "}", "\x00", "null", "{}", "[", ":", "\xff", "-", "\v"})...)
			b = append(b, r.Str([]string{"", " ", "yy"})...)
			err := run(b)
			if !rt.whole {
				if err != nil {
					c.Failf("%s into %s of %s: %v", rt.name, typeStr(t), q(b), err)
				}
				continue
			}
			if !rt.is(err, jzon.ErrDataRemained) {
				c.Failf("%s into %s of %s: further data is reported as %v", rt.name, typeStr(t), q(b), err)
			}
			at := skipWS(b, n.End)
			rt.place(c, b, err, jzon.ErrDataRemained.Error(), at-1, at+1)
			c.Feat("typed: further data reported")
		case 2, 4: // a value which does not fit
			m := all[r.Intn(len(all))]
			if mode == 2 {
				for i := 0; i < 6 && m.K != KNum; i++ {
					m = all[r.Intn(len(all))]
				}
				if m.K != KNum {
					continue
				}
			}
			lit := []byte(eBig[r.Intn(len(eBig))])
			if mode == 4 {
				lit = []byte(r.Str([]string{`"s"`, `true`, `{}`, `[]`, `{"a":1}`, `[1]`, `-5`, `1.5`, `1e3`, `false`, `""`, `"=="`, `300`}))
			}
			b := splice(text, m.Start, m.End, lit)
			dst := reflect.New(t)
			stdE := json.Unmarshal(b, dst.Interface())
			te, ok := stdE.(*json.UnmarshalTypeError)
			if !ok {
				c.Feat("typed: still fits")
				continue
			}
			err := run(b)
			if err == nil {
				c.Failf("%s into %s accepts %s (%v)", rt.name, typeStr(t), q(b), te)
			}
			over := false
			if k := te.Type.Kind(); te.Value == "number "+string(lit) && (k >= reflect.Int && k <= reflect.Uintptr) && wholeLit(lit) &&
				!(k >= reflect.Uint && lit[0] == '-') {
				over = true
			}
			rt.only(c, te.Error(), b, err, jzon.ErrEmptyIFace)
			cause := rt.causeText(err)
			if strings.HasPrefix(cause, "json: ") { // a hook which uses encoding/json
				continue
			}
			_, isOver := err.(jzon.IntOverflowError)
			if rt.wrapped {
				isOver = strings.HasPrefix(cause, "overflow")
			}
			if over != isOver && !(isOver && te.Type.Kind() == reflect.Interface) {
				c.Failf("%s into %s of %s (%v): overflow expected %v, the error is %T %v", rt.name, typeStr(t), q(b), te, over, err, err)
			}
			if over {
				rt.place(c, b, err, cause, m.Start-1, m.Start+len(lit))
				c.Feat("typed: overflow reported")
			} else {
				rt.place(c, b, err, cause, 0, len(b))
				c.Feat("typed: misfit reported")
			}
		case 3: // a member nobody knows
			var objs []*Node
			for _, m := range all {
				if m.K == KObj {
					objs = append(objs, m)
				}
			}
			if len(objs) == 0 {
				continue
			}
			m := objs[r.Intn(len(objs))]
			name := r.Str([]string{"no such member", "zzz", "", "x\\ny", "a\\u0000", "\\u00e9", "Ünknown", "no (near it", "\\\"q", "long name of a member which no type has at all, and which is longer than the places quoted"})
			mem := `"` + name + `":` + r.Str([]string{"1", "null", "[]", `{"a":"b"}`, `"x"`})
			var b []byte
			if len(m.Elems) == 0 {
				b = splice(text, m.Start+1, m.End-1, []byte(mem))
			} else if r.Bool() {
				b = splice(text, m.Start+1, m.Start+1, []byte(mem+","))
			} else {
				b = splice(text, m.End-1, m.End-1, []byte(","+mem))
			}
			std := json.NewDecoder(bytes.NewReader(b))
			std.DisallowUnknownFields()
			stdE := std.Decode(reflect.New(t).Interface())
			if stdE == nil {
				c.Feat("typed: still fits")
				continue
			}
			const p = "json: unknown field "
			if !strings.HasPrefix(stdE.Error(), p) {
				continue
			}
			want := "unknown field " + stdE.Error()[len(p):]
			var plain string
			json.Unmarshal([]byte(`"`+name+`"`), &plain)
			if stdE.Error() != fmt.Sprintf("%s%q", p, plain) {
				continue // the member is the key of a map
			}
			err := run(b)
			if err == nil {
				c.Failf("%s into %s accepts %s (%v)", rt.name, typeStr(t), q(b), stdE)
			}
			if strings.HasPrefix(err.Error(), "expecting '}' but got '\"'") && noFields(t, 0) {
				c.Feat("typed: struct without fields")
				continue
			}
			if rt.wrapped {
				if _, ok := err.(*jzon.DecodeError); !ok || !strings.HasPrefix(err.Error(), want+near) {
					c.Failf("%s into %s of %s: %s, but the error is %T %v", rt.name, typeStr(t), q(b), want, err, err)
				}
				rt.place(c, b, err, want, m.Start, m.Start+len(mem)+(m.End-m.Start))
			} else if ue, ok := err.(jzon.UnknownFieldError); !ok || ue.Error() != want {
				c.Failf("%s into %s of %s: %s, but the error is %T %v", rt.name, typeStr(t), q(b), want, err, err)
			}
			c.Feat("typed: unknown member named")
		}
	}
}

// noFields: the type contains a struct without members
func noFields(t reflect.Type, d int) bool {
	if d > 12 {
		return true
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return noFields(t.Elem(), d+1)
	case reflect.Interface:
		return t.NumMethod() > 0
	case reflect.Struct:
		names := map[string]int{} // equal names hide each other
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if noFields(f.Type, d+1) {
				return true
			}
			tag := f.Tag.Get("json")
			if tag == "-" || f.PkgPath != "" && !f.Anonymous {
				continue
			}
			name := strings.Split(tag, ",")[0]
			if name == "" {
				name = f.Name
			}
			names[name]++
		}
		for _, n := range names {
			if n == 1 {
				return false
			}
		}
		return true
	}
	return false
}

func wholeLit(b []byte) bool { return bytes.IndexAny(b, ".eE") < 0 }

type eHidden struct{ H int }
type eOuter struct {
	*eHidden
	N int
}

// eDest is a destination which cannot be decoded into, and why
func eDest(r *Rand) (dst interface{}, text string, want error, what string) {
	face := new(wFace)
	any := r.Str([]string{"1", `"x"`, "{}", "[]", "true", `{"a":[1]}`, "1.5"})
	switch r.Intn(9) {
	case 0:
		return nil, any, jzon.ErrNilPointerReceiver, "nil"
	case 1:
		t := genTyped(r)
		return reflect.Zero(reflect.PtrTo(t)).Interface(), any, jzon.ErrNilPointerReceiver, "nil *" + typeStr(t)
	case 2:
		t := genTyped(r)
		v := reflect.New(t).Elem()
		if k := t.Kind(); k == reflect.Ptr || k == reflect.Interface || k == reflect.Map || k == reflect.Slice {
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: tOf(0)}})
			v = reflect.New(t).Elem()
		}
		return v.Interface(), any, jzon.ErrPointerReceiver, typeStr(t)
	case 3:
		return []interface{}{1, "s", wDeep{}, map[string]int{}, []int{1}, true, 1.5, [1]int{}, make(chan int), func() {}}[r.Intn(10)], any, jzon.ErrPointerReceiver, "no pointer"
	case 4:
		return face, any, jzon.ErrEmptyIFace, "*wFace"
	case 5:
		return &struct{ F wFace }{}, `{"F":` + any + `}`, jzon.ErrEmptyIFace, "struct{wFace}"
	case 6:
		return new([]wFace), `[null,` + any + `]`, jzon.ErrEmptyIFace, "[]wFace"
	case 7:
		var f wFace = (*wImpl)(nil)
		return &f, any, jzon.ErrNilPointerReceiver, "wFace with nil pointer"
	default:
		return &eOuter{}, `{"N":1, "H":` + any + `}`, jzon.ErrNilEmbeddedPointer, "nil embedded pointer"
	}
}

// engErrDest: unusable destinations and values
func engErrDest(c *C) {
	r := c.R
	cfg := rot.D()
	for k := 0; k < 3; k++ {
		rt := &eRoutes[r.Intn(len(eRoutes))]
		dst, text, want, what := eDest(r)
		c.Note("%s into %s (%s)", rt.name, what, text)
		noCrash(c, "decoding", func() {
			err := rt.run(cfg, []byte(text), r.Fork(), dst)
			if want == jzon.ErrPointerReceiver && rt.is(err, jzon.ErrNilPointerReceiver) && what != "no pointer" {
				want = jzon.ErrNilPointerReceiver // a struct or array which only holds a nil pointer
			}
			if !rt.is(err, want) {
				c.Failf("%s of %s into %s: %v, but the error is %v", rt.name, text, what, want, err)
			}
			rt.place(c, []byte(text), err, want.Error(), 0, len(text))
		})
		c.Feat("decode: " + want.Error())
		c.Seen(mix(hashStr(what+rt.name), hashStr(text)), true)
	}
	// loops
	{
		rt := &eRoutes[r.Intn(len(eRoutes))]
		first, _ := ring(r, r.Intn(5), r.Range(1, 6))
		text := r.Str([]string{"1", `"x"`, "{}", "[1]"})
		c.Note("%s into a loop", rt.name)
		err := rt.run(cfg, []byte(text), r.Fork(), first)
		if !rt.is(err, jzon.ErrEfaceLooping) {
			c.Failf("%s of %s into a loop of interfaces: %v", rt.name, text, err)
		}
		c.Feat("decode: loop")
	}
	// unsupported types, at any place
	{
		rt := &eRoutes[r.Intn(len(eRoutes))]
		leaf := []reflect.Type{tOf(make(chan int)), tOf(func() {}), tOf(complex64(0)), tOf(complex128(0)), tOf(map[complex64]int{}), tOf(map[float64]string{}), tOf(map[bool]int{})}[r.Intn(7)]
		txt := r.Str([]string{"1", `{"1":1}`, `"x"`, "[]", "true"})
		t := leaf
		for d := r.Intn(4); d > 0; d-- {
			switch r.Intn(5) {
			case 0:
				t, txt = reflect.SliceOf(t), "["+txt+"]"
			case 1:
				t, txt = reflect.ArrayOf(1, t), "["+txt+"]"
			case 2:
				t, txt = reflect.MapOf(tOf(""), t), `{"k":`+txt+`}`
			case 3:
				t = reflect.PtrTo(t)
			default:
				fs := []reflect.StructField{{Name: "A", Type: t}}
				for i := r.Intn(3); i > 0; i-- {
					fs = append(fs, reflect.StructField{Name: fmt.Sprintf("B%d", i), Type: tOf(0)})
				}
				t, txt = reflect.StructOf(fs), `{"A":`+txt+`}`
			}
		}
		c.Note("%s into %s (%s)", rt.name, typeStr(t), txt)
		err := rt.run(cfg, []byte(txt), r.Fork(), reflect.New(t).Interface())
		if err == nil {
			c.Failf("%s of %s into %s succeeds", rt.name, txt, typeStr(t))
		}
		_, ok := err.(jzon.TypeNotSupportedError)
		if rt.wrapped {
			_, ok = err.(*jzon.DecodeError)
			ok = ok && strings.Contains(err.Error(), "is not supported"+near)
		}
		if !ok || !strings.Contains(err.Error(), leafName(leaf)) {
			c.Failf("%s of %s into %s: the error is %T %v", rt.name, txt, typeStr(t), err, err)
		}
		c.Feat("decode: type not supported")
	}
}

func leafName(t reflect.Type) string { return t.String() }

// engErrEnc: values which cannot be written
func engErrEnc(c *C) {
	r := c.R
	var leaf reflect.Value
	var want error
	unsup := ""
	f := math.NaN()
	want = jzon.ErrFloatIsNan
	if r.Bool() {
		f = math.Inf(r.Intn(2)*2 - 1)
		want = jzon.ErrFloatIsInfinity
	}
	switch r.Intn(6) {
	case 0, 1:
		leaf = reflect.ValueOf(f)
	case 2, 3:
		leaf = reflect.ValueOf(float32(f))
	case 4:
		leaf = reflect.New(tOf(NFloat(0))).Elem()
		leaf.SetFloat(f)
	default:
		leaf = []reflect.Value{reflect.ValueOf(make(chan int)), reflect.ValueOf(func() {}), reflect.ValueOf(complex64(1)), reflect.ValueOf(complex(1, 2)), reflect.ValueOf(map[complex64]int{1: 1}), reflect.ValueOf(map[bool]int{true: 1})}[r.Intn(6)]
		want = nil
		unsup = leaf.Type().String()
	}
	v := leaf
	path := leaf.Type().String()
	for d := r.Intn(5); d > 0; d-- {
		t := v.Type()
		switch r.Intn(7) {
		case 0:
			n := r.Range(1, 3)
			s := reflect.MakeSlice(reflect.SliceOf(t), n, n)
			s.Index(n - 1).Set(v)
			if n > 1 && unsup == "" && d == 1 {
				s.Index(0).Set(v)
			} else {
				for i := 0; i < n; i++ {
					s.Index(i).Set(v)
				}
			}
			v = s
		case 1:
			a := reflect.New(reflect.ArrayOf(1, t)).Elem()
			a.Index(0).Set(v)
			v = a
		case 2:
			m := reflect.MakeMap(reflect.MapOf(tOf(""), t))
			m.SetMapIndex(reflect.ValueOf("k"), v)
			v = m
		case 3:
			p := reflect.New(t)
			p.Elem().Set(v)
			v = p
		case 4, 5:
			tag := r.Str([]string{"", `json:"x"`, `json:",omitempty"`, `json:",string"`})
			if unsup != "" {
				tag = ""
			}
			fs := []reflect.StructField{{Name: "A", Type: t, Tag: reflect.StructTag(tag)}, {Name: "B", Type: tOf(0)}}
			if r.Bool() {
				fs[0], fs[1] = fs[1], fs[0]
			}
			s := reflect.New(reflect.StructOf(fs)).Elem()
			s.FieldByName("A").Set(v)
			v = s
		default:
			e := reflect.New(tOf((*interface{})(nil)).Elem()).Elem()
			e.Set(v)
			v = e
		}
		path = v.Type().String()
	}
	val := v.Interface()
	c.Note("encoding %s", clip(path, 300))
	if _, err := json.Marshal(val); err == nil {
		c.Feat("skipped")
		return
	}
	var err error
	enc := anyEnc(r)
	if enc == anyEncs[2] || enc == anyEncs[3] { // write nothing of untagged fields
		enc = anyEncs[0]
	}
	name := ""
	switch r.Intn(3) {
	case 0:
		name = "Marshal"
		_, err = enc.Marshal(val)
	case 1:
		name = "Encoder"
		var w bytes.Buffer
		e := enc.NewEncoder(&w)
		err = e.Encode(val)
		if e2 := e.Encode(1); e2 != err {
			c.Failf("the encoder reports %v first, then %v", err, e2)
		}
		e.Release()
	default:
		name = "Streamer"
		s := enc.NewStreamer()
		var w bytes.Buffer
		s.Reset(&w)
		s.ArrayStart().Int(1)
		s.Value(val)
		s.String("x").ArrayEnd()
		err = s.Error
		if e2 := s.Flush(); e2 != err {
			c.Failf("the streamer's error is %v, that of Flush %v", err, e2)
		}
		s.Release()
	}
	if unsup == "" {
		if err != want {
			c.Failf("%s of %s: %v, but the error is %T %v", name, path, want, err, err)
		}
		c.Feat("encode: " + want.Error())
	} else {
		var te jzon.TypeNotSupportedError
		if !errors.As(err, &te) || !strings.Contains(te.Error(), unsup) {
			c.Failf("%s of %s: the error is %T %v", name, path, err, err)
		}
		c.Feat("encode: type not supported")
	}
	c.Seen(mix(hashStr(path+name), uint64(len(unsup))), true)
	// a streamer without a writer
	s := enc.NewStreamer()
	s.Reset(nil)
	s.Int(5)
	if err := s.Flush(); err != jzon.ErrNoAttachedWriter {
		c.Failf("Flush without a writer: %v", err)
	}
	s.Float64(f).Int(1)
	fw := jzon.ErrFloatIsNan
	if math.IsInf(f, 0) {
		fw = jzon.ErrFloatIsInfinity
	}
	if s.Error != fw || s.Flush() != fw {
		c.Failf("Float64(%v): %v", f, s.Error)
	}
	s.Reset(nil)
	if s.Error != nil {
		c.Failf("the error is left after Reset")
	}
	s.Float32(float32(f))
	if s.Error != fw {
		c.Failf("Float32(%v): %v", f, s.Error)
	}
	s.Reset(nil)
	s.Release()
}

func init() {
	reg("err-text", eKeep(engErrText), "errors looked at again later", "valid", "value in front", "further data reported", "end reported", "unexpected end reported by a decoder", "malformed byte named", "place found")
	reg("err-typed", eKeep(engErrTyped), "errors looked at again later", "typed: end reported", "typed: further data reported", "typed: overflow reported", "typed: misfit reported", "typed: unknown member named")
	reg("err-dest", eKeep(engErrDest), "errors looked at again later", "decode: loop", "decode: type not supported", "decode: "+jzon.ErrNilEmbeddedPointer.Error(), "decode: "+jzon.ErrEmptyIFace.Error())
	reg("err-enc", engErrEnc, "encode: type not supported", "encode: "+jzon.ErrFloatIsNan.Error(), "encode: "+jzon.ErrFloatIsInfinity.Error())
	prop(&Prop{ID: "C21", Level: "exploration",
		Rule:        "each case gives one fault a call must report: a text cut off, followed by more data or malformed (judged by encoding/json's scanner: the first byte which cannot continue), one value of a fitting document replaced (too large integer, another kind, a member nobody knows), an unusable destination, a value which cannot be written; the error's identity or type, the byte or name it gives and the quoted place are compared on several of 14 routes; a case is a distinct (text, route, type)",
		Assumptions: []string{"encoding/json of go1.23 knows which byte cannot continue a JSON text"},
		Variants:    plain(Run{"err-text", 150000, 6000000}, Run{"err-typed", 100000, 4000000}, Run{"err-dest", 30000, 500000}, Run{"err-enc", 40000, 800000}),
	})
}
