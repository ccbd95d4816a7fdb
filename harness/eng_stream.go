package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"
)

// ---- C04: partitions ----

// warm passes some documents through an iterator
func warm(r *Rand, it *jzon.Iterator) {
	for k := r.Intn(3); k > 0; k-- {
		t := walkText(r)
		switch r.Intn(5) {
		case 0:
			it.Reset(genReader(r, t))
			it.SkipRaw()
		case 1:
			it.ResetBytes(t)
			it.Read()
		case 2:
			it.Reset(genReader(r, []byte(`{"a":"`+strings.Repeat("x", r.Intn(900))+`\u0041"}`)))
			var m map[string]string
			it.ReadVal(&m)
		case 3:
			it.Reset(genReader(r, t))
			it.ReadString()
		case 4:
			it.Reset(genReader(r, t))
			it.Skip()
		}
	}
}

// readerRoutes decode one document through a reader; the iterator ones have a
// history
var readerRoutes = []struct {
	name string
	f    func(cfg *jzon.DecoderConfig, rd io.Reader, r *Rand, dst interface{}) error
}{
	{"UnmarshalFromReader", func(cfg *jzon.DecoderConfig, rd io.Reader, r *Rand, dst interface{}) error {
		return cfg.UnmarshalFromReader(rd, dst)
	}},
	{"Decoder", func(cfg *jzon.DecoderConfig, rd io.Reader, r *Rand, dst interface{}) error {
		d := cfg.NewDecoder(rd)
		defer d.Release()
		if err := d.Decode(dst); err != nil {
			return err
		}
		var w interface{}
		if e := d.Decode(&w); e != io.EOF {
			return fmt.Errorf("data remains (%v)", e)
		}
		return nil
	}},
	{"Iterator.ReadVal", func(cfg *jzon.DecoderConfig, rd io.Reader, r *Rand, dst interface{}) error {
		it := cfg.NewIterator()
		defer it.Release()
		warm(r, it)
		it.Reset(rd)
		if err := it.ReadVal(dst); err != nil {
			return err
		}
		return readEnd(it)
	}},
	{"Iterator.UnmarshalFromReader", func(cfg *jzon.DecoderConfig, rd io.Reader, r *Rand, dst interface{}) error {
		it := cfg.NewIterator()
		defer it.Release()
		warm(r, it)
		return it.UnmarshalFromReader(rd, dst)
	}},
}

var chunkDests = []reflect.Type{efaceType, tOf(map[string]interface{}{}), tOf([]interface{}{}), tOf(map[string]json.RawMessage{}), tOf([]json.RawMessage{}), tOf(json.RawMessage{}), tOf(""), tOf(0), tOf(0.0), tOf(json.Number("")), tOf([]byte{}), tOf(false), tOf(JRec{}), tOf(TStr("")), tOf(map[TStr]JRec{}), tOf(struct{}{}), tOf([2]string{}), tOf([0]int{}), tOf(map[int8]int8{}), tOf([]float32{}), tOf(float32(0)), tOf(uint8(0)), tOf(int8(0)), tOf(uint64(0)), tOf([]string{}), tOf(map[string]string{}), tOf(struct{ A string }{}), tOf([]bool{}), tOf((*int)(nil))}

func chunkType(r *Rand) reflect.Type {
	if r.P(45) {
		return chunkDests[r.Intn(len(chunkDests))]
	}
	return genTyped(r)
}

func engChunks(c *C) {
	r := c.R
	t := chunkType(r)
	cfg := rot.D()
	for k := 0; k < 2; k++ {
		var text []byte
		if t == efaceType || r.P(15) {
			text = genText(r)
		} else {
			text = typedText(r, t, r.P(8))
		}
		seed := uint64(0)
		if r.P(30) {
			seed = r.U64() | 1
		}
		base := reflect.New(t)
		prefill(base.Elem(), seed)
		c.NoteB("chunks into "+typeStr(t)+" of ", text)
		e0 := cfg.Unmarshal(text, base.Interface())
		rds := []*chunkReader{{data: text, sizes: []int{1}}, genReader(r, text), genReader(r, text), genReader(r, text)}
		if len(text) > 1 && len(text) < 60 && r.P(25) { // every cut
			for i := 1; i < len(text); i++ {
				rds = append(rds, &chunkReader{data: text, sizes: []int{i, 1 << 20}, eofWith: r.Bool()})
			}
			c.Feat("every cut")
		}
		for _, rd := range rds {
			rt := readerRoutes[r.Intn(len(readerRoutes))]
			got := reflect.New(t)
			prefill(got.Elem(), seed)
			e1 := rt.f(cfg, rd, r.Fork(), got.Interface())
			if (e0 == nil) != (e1 == nil) {
				c.Failf("%s into %s: from the byte slice error %v, through %v error %v\n input %s", rt.name, typeStr(t), e0, rd, e1, q(text))
			}
			if e0 == nil {
				if d := same(base, got, cmpOpt{}); d != "" {
					c.Failf("%s into %s: byte slice versus %v differ at %s\n input %s", rt.name, typeStr(t), rd, d, q(text))
				}
				c.Feat("both accept")
			} else {
				c.Feat("both refuse")
			}
			c.Seen(mix(mix(hash64(text), hashStr(t.String())), hashStr(fmt.Sprint(rd.sizes, rd.eofWith, rt.name))), rd.reads > 1)
			c.FeatIf(rd.reads > 10, "more than 10 reads")
			c.FeatIf(rd.eofWith && rd.pos > 0, "error with data")
			c.FeatIf(rd.zeros > 0, "empty reads")
		}
		c.Sample("%s into %s through %d partitions, error %v", q(text), typeStr(t), len(rds), e0 != nil)
	}
}

// chunks-big: documents much larger than the window
func engChunksBig(c *C) {
	b := bigText(c.R)
	if c.R.P(15) {
		b = mutate(c.R, b)
	}
	var v0 interface{}
	e0 := jzon.Unmarshal(b, &v0)
	ok0 := jzon.Valid(b)
	for j := 0; j < 3; j++ {
		rd := genReader(c.R, b)
		if j == 0 {
			rd.sizes = []int{c.R.Range(500, 530)}
		}
		c.NoteB(fmt.Sprintf("big through %v: ", rd), b)
		it := jzon.NewIterator()
		warm(c.R, it)
		it.Reset(rd)
		n := refPrefix(b, 0)
		switch c.R.Intn(4) {
		case 0:
			raw, err := it.SkipRaw()
			if (err == nil) != (n != nil) {
				c.Failf("SkipRaw over %v: error %v, complete value: %v; input %s", rd, err, n != nil, q(b))
			}
			if err == nil && !bytes.Equal(raw, b[n.Start:n.End]) {
				c.Failf("SkipRaw over %v returns other bytes (%d instead of %d) of %s", rd, len(raw), n.End-n.Start, q(b))
			}
			c.Feat("big raw")
		case 1:
			err := it.Skip()
			if (err == nil) != (n != nil) {
				c.Failf("Skip over %v: error %v, complete value: %v; input %s", rd, err, n != nil, q(b))
			}
			if err == nil {
				s := src{b, rd}
				if p := s.pos(it); p != n.End {
					c.Failf("Skip over %v ends at %d instead of %d; input %s", rd, p, n.End, q(b))
				}
			}
			c.Feat("big skip")
		default:
			var v interface{}
			err := it.UnmarshalFromReader(rd, &v)
			if (err == nil) != (e0 == nil) {
				c.Failf("from the slice error %v, through %v error %v; input %s", e0, rd, err, q(b))
			}
			if err == nil {
				if d := sameI(v0, v, cmpOpt{}); d != "" {
					c.Failf("slice versus %v: %s; input %s", rd, d, q(b))
				}
			}
			c.Feat("big value")
		}
		it.Release()
		c.Seen(mix(hash64(b), uint64(j)), true)
		c.Tick()
	}
	_ = ok0
}

// ---- C06: the stream decoder ----

type streamItem struct {
	t     reflect.Type
	start int
	end   int
}

// genStream writes a stream of values for the given types
func genStream(r *Rand) (b []byte, types []reflect.Type) {
	n := r.Intn(6)
	if r.P(10) {
		n = r.Range(20, 150)
	}
	for i := 0; i < n; i++ {
		var t reflect.Type
		var v []byte
		switch {
		case r.P(40) || n > 10:
			t, v = efaceType, bytes.TrimSpace(genValid(r, r.P(5)))
			if r.P(30) {
				t = rawType
			}
		case r.P(40):
			t = chunkDests[r.Intn(len(chunkDests))]
			v = textFor(r, t, 0, false)
		default:
			t = genTyped(r)
			v = textFor(r, t, 0, false)
		}
		types = append(types, t)
		sep := []string{" ", "\n", "\r\n", "", "", "\t ", strings.Repeat(" ", r.Intn(600))}[r.Intn(7)]
		if sep == "" && len(b) > 0 && len(v) > 0 {
			// two scalars may not touch
			l, f := b[len(b)-1], v[0]
			if !(l == ']' || l == '}' || l == '"') && !(f == '[' || f == '{' || f == '"') {
				sep = " "
			}
		}
		b = append(append(b, sep...), v...)
	}
	switch r.Intn(8) {
	case 0:
		b = append(b, " \n\t"[:r.Intn(4)]...)
	case 1:
		b = append(b, r.Str([]string{"]", "}", " ]", ",", ":", "x", " @", `"abc`, "[1", "{\"a\"", "nul", "-", "1.", "tru e", "\x00", "[1,]", " {", "1e", `"\u00`})...)
	case 2:
		b = mutateTok(r, b)
	case 3:
		b = b[:r.Intn(len(b)+1)]
	}
	return
}

func engStream(c *C) {
	r := c.R
	b, types := genStream(r)
	c.NoteB("stream: ", b)
	cfg := rot.D()
	rd := genReader(r, b)
	var in io.Reader = rd
	direct := false
	switch {
	case r.P(6):
		in, direct = bytes.NewBuffer(append([]byte(nil), b...)), true
	case r.P(6):
		rd.sizes = nil
	}
	var d *jzon.Decoder
	if r.P(20) {
		d = jzon.NewDecoder(in)
		for _, t := range types {
			if t.Name() == "" && t != efaceType { // keep generated types out of the default cache
				d.Release()
				d = cfg.NewDecoder(in)
				break
			}
		}
	} else {
		d = cfg.NewDecoder(in)
	}
	defer d.Release()
	s := json.NewDecoder(bytes.NewReader(b))
	un, dis := false, false
	pos := 0      // end of the last delivered value by the reference
	more := false // more-data was asked since
	checkPos := func(when string) {
		off := int(d.InputOffset())
		hi := pos
		if more {
			hi = skipWS(b, pos)
		}
		if off < pos || off > hi {
			c.Failf("%s: input offset %d, expected %d..%d in stream %s", when, off, pos, hi, q(b))
		}
		buf, err := io.ReadAll(d.Buffered())
		if err != nil {
			c.Failf("Buffered: %v", err)
		}
		rest := append([]byte(nil), buf...)
		if !direct {
			rest = append(rest, b[rd.pos:]...)
		}
		if !bytes.Equal(rest, b[off:]) {
			c.Failf("%s: buffered data and the rest of the reader are %s, expected %s; stream %s", when, q(rest), q(b[off:]), q(b))
		}
		c.Feat("position checked")
	}
	checkPos("at the beginning")
	decoded := 0
	for step := 0; step < 400; step++ {
		switch k := r.Intn(20); {
		case k < 4:
			a, e := s.More(), d.More()
			if a != e {
				c.Failf("More = %v, expected %v at %d of stream %s", e, a, pos, q(b))
			}
			more = true
			checkPos("after More")
			c.Feat("more asked")
			continue
		case k == 4:
			checkPos("again")
			continue
		case k == 5 && r.P(20):
			d.UseNumber()
			s.UseNumber()
			un = true
			c.Feat("UseNumber in mid stream")
			continue
		case k == 6 && r.P(20):
			d.DisallowUnknownFields()
			s.DisallowUnknownFields()
			dis = true
			c.Feat("DisallowUnknownFields in mid stream")
			continue
		}
		t := efaceType
		if decoded < len(types) && !r.P(4) {
			t = types[decoded]
		}
		want, got := reflect.New(t), reflect.New(t)
		seed := uint64(0)
		if r.P(20) && t != efaceType {
			seed = r.U64() | 1
			prefill(want.Elem(), seed)
			prefill(got.Elem(), seed)
		}
		n := refPrefix(b, pos)
		stdE := s.Decode(want.Interface())
		if len(b) > 9000 && nodeDepth(b) > 9000 {
			return
		}
		jzE := d.Decode(got.Interface())
		what := fmt.Sprintf("Decode #%d (number mode %v, strict %v)", decoded, un, dis)
		if (stdE == nil) != (jzE == nil) {
			if stdE == nil && laxText(b[n.Start:n.End]) {
				return
			}
			c.Failf("%s into %s: encoding/json error %v, jzon error %v; at %d of stream %s", what, typeStr(t), stdE, jzE, pos, q(b))
		}
		if (stdE == io.EOF) != (jzE == io.EOF) {
			c.Failf("%s into %s: encoding/json error %v, jzon error %v; at %d of stream %s", what, typeStr(t), stdE, jzE, pos, q(b))
		}
		if jzE != nil {
			if jzE == io.EOF {
				c.Feat("end of stream")
				if skipWS(b, pos) != len(b) {
					panic(harnessErr("EOF at %d of %q", pos, b))
				}
			} else {
				c.Feat("error in stream")
			}
			// nothing is delivered any more
			for i := 0; i < 3; i++ {
				probe := interface{}("untouched")
				if e := d.Decode(&probe); e == nil || probe != interface{}("untouched") {
					c.Failf("after the error %v a Decode gives %v, error %v; stream %s", jzE, probe, e, q(b))
				}
				if jzE == io.EOF {
					if e := d.Decode(&probe); e != io.EOF {
						c.Failf("after the end Decode gives %v; stream %s", e, q(b))
					}
				}
				if d.More() {
					c.Failf("More after the error %v; stream %s", jzE, q(b))
				}
			}
			break
		}
		if n == nil {
			panic(harnessErr("reference reader refuses at %d of %q", pos, b))
		}
		if dd := same(want, got, cmpOpt{canonB: !utf8.Valid(b)}); dd != "" {
			if !(dupKeys(n) && anySlice(t, 0, map[reflect.Type]bool{})) {
				c.Failf("%s into %s differs (encoding/json versus jzon) at %s; at %d of stream %s", what, typeStr(t), dd, pos, q(b))
			}
		}
		decoded++
		pos, more = n.End, false
		checkPos("after " + what)
		c.Feat("value delivered")
		c.FeatIf(un && t == efaceType, "delivered in number mode")
	}
	c.FeatIf(decoded >= 20, "20 values in a stream")
	c.FeatIf(direct, "bytes.Buffer")
	c.Seen(mix(hash64(b), hashStr(fmt.Sprint(rd.sizes, rd.eofWith))), decoded > 0)
	c.Sample("%s: %d values delivered", q(b), decoded)
}

// ---- C05: faults ----

// engTrunc cuts valid documents at every byte
func engTrunc(c *C) {
	r := c.R
	t := chunkType(r)
	cfg := rot.D()
	var text []byte
	for i := 0; ; i++ {
		if t == efaceType {
			text = genValid(r, false)
		} else {
			text = textFor(r, t, r.Intn(2), false)
		}
		if len(text) < 300 || i > 5 {
			break
		}
	}
	if laxText(text) {
		c.Feat("skipped")
		return
	}
	full := reflect.New(t)
	if cfg.Unmarshal(text, full.Interface()) != nil {
		c.Feat("skipped")
		return
	}
	n := refDoc(text)
	if n == nil {
		c.Failf("accepted %s", q(text))
	}
	atomNum := n.K == KNum
	far := numRange(n) // ignored content may hold any number
	step := 1
	if len(text) > 300 {
		step = len(text) / 200
	}
	for k := 0; k < n.End; k += step {
		cut := text[:k:k]
		if atomNum && k > n.Start && refNumber(text[n.Start:k], 0) == k-n.Start {
			continue // a shorter number
		}
		c.NoteB(fmt.Sprintf("cut at %d into %s: ", k, typeStr(t)), text)
		// truncation
		dst := reflect.New(t)
		rt := typedRoutes[r.Intn(len(typedRoutes))]
		if err := rt.f(cfg, cut, r.Fork(), dst.Interface()); err == nil {
			c.Failf("%s into %s accepts %s, which is cut off", rt.name, typeStr(t), q(cut))
		}
		c.Feat("truncation reported")
		// reader fault
		rd := genReader(r, cut)
		fault := ioFault(r)
		rd.err = fault
		if r.P(40) { // the reader recovers
			rd.rest = append([]byte(nil), text[k:]...)
			c.Feat("fault of a reader which recovers")
		}
		dst = reflect.New(t)
		var err error
		name := ""
		how := r.Intn(4)
		if how == 3 && far {
			how = 0
		}
		switch how {
		case 0:
			name = "UnmarshalFromReader"
			err = cfg.UnmarshalFromReader(rd, dst.Interface())
			if err == nil || !strings.Contains(err.Error(), fault.Error()) {
				c.Failf("%s into %s: the reader failed after %d bytes of %s, but the error is %v", name, typeStr(t), k, q(text), err)
			}
			c.Feat("fault reported one-shot")
		case 1:
			name = "Decoder"
			d := cfg.NewDecoder(rd)
			err = d.Decode(dst.Interface())
			if err != fault {
				c.Failf("%s into %s: the reader (%v) failed after %d bytes of %s, but the error is %v", name, typeStr(t), rd, k, q(text), err)
			}
			for i := 0; i < 2; i++ {
				probe := interface{}("untouched")
				if e := d.Decode(&probe); e == nil || probe != interface{}("untouched") || d.More() {
					c.Failf("after the fault Decode gives %v, error %v", probe, e)
				}
			}
			d.Release()
			c.Feat("fault reported by decoder")
		case 2:
			name = "Iterator.ReadVal"
			it := cfg.NewIterator()
			warm(r, it)
			it.Reset(rd)
			err = it.ReadVal(dst.Interface())
			it.Release()
			if err != fault {
				c.Failf("%s into %s: the reader (%v) failed after %d bytes of %s, but the error is %v", name, typeStr(t), rd, k, q(text), err)
			}
			c.Feat("fault reported by iterator")
		case 3:
			name = "walk"
			it := cfg.NewIterator()
			warm(r, it)
			it.Reset(rd)
			w := newWalker(it, &src{text: cut, rd: rd}, r.U64())
			_, err = w.value()
			it.Release()
			if err != fault {
				c.Failf("walking: the reader (%v) failed after %d bytes of %s, but the error is %v; log %q", rd, k, q(text), err, w.log)
			}
			c.Feat("fault reported to walk")
		}
		c.Seen(mix(mix(hash64(text), hashStr(t.String()+name)), uint64(k)), true)
	}
	// a fault behind the value, when it is not known whether more follows
	for _, extra := range []string{"", r.Str([]string{" ", "\n\t ", strings.Repeat(" ", 505+r.Intn(20))})} {
		s := append(append([]byte(nil), text[:n.End]...), extra...)
		rd := genReader(r, s)
		fault := ioFault(r)
		rd.err = fault
		c.NoteB("one-shot, fault behind the value: ", s)
		dst := reflect.New(t)
		var err error
		if r.Bool() {
			it := cfg.NewIterator()
			warm(r, it)
			err = it.UnmarshalFromReader(rd, dst.Interface())
			it.Release()
			if err != fault {
				c.Failf("Iterator.UnmarshalFromReader into %s: the reader (%v) failed behind %s, but the error is %v", typeStr(t), rd, q(s), err)
			}
		} else if err = cfg.UnmarshalFromReader(rd, dst.Interface()); err == nil || !strings.Contains(err.Error(), fault.Error()) {
			c.Failf("UnmarshalFromReader into %s: the reader (%v) failed behind %s, but the error is %v", typeStr(t), rd, q(s), err)
		}
		c.Feat("fault behind the value reported")
	}
	// completely delivered values survive a later fault
	if atomNum {
		return
	}
	for _, extra := range []string{"", " ", " \n[1,2", "\"abc", "  12"} {
		s := append(append([]byte(nil), text[:n.End]...), extra...)
		rd := genReader(r, s)
		fault := ioFault(r)
		rd.err = fault
		c.NoteB("fault behind the value: ", s)
		d := cfg.NewDecoder(rd)
		dst := reflect.New(t)
		if err := d.Decode(dst.Interface()); err != nil {
			c.Failf("Decode into %s: the value was delivered completely before the reader (%v) failed, but the error is %v; input %s", typeStr(t), rd, err, q(s))
		}
		if dd := same(full, dst, cmpOpt{}); dd != "" {
			c.Failf("Decode into %s before a fault differs at %s; input %s", typeStr(t), dd, q(s))
		}
		var w interface{} = "untouched"
		if err := d.Decode(&w); err != fault || w != interface{}("untouched") {
			c.Failf("the next Decode gives %v and error %v instead of the reader's error; input %s", w, err, q(s))
		}
		d.Release()
		c.Feat("complete before the fault")
	}
}

// engStreamFault injects a fault anywhere into a stream of values
func engStreamFault(c *C) {
	r := c.R
	b, _ := genStream(r)
	if len(b) == 0 || len(b) > 2000 {
		b = []byte(`[1] {"a":"b"} "x" true null`)
	}
	k := r.Intn(len(b) + 1)
	rd := genReader(r, b[:k:k])
	fault := ioFault(r)
	rd.err = fault
	if r.P(40) {
		rd.rest = append([]byte(nil), b[k:]...)
		c.Feat("fault of a reader which recovers")
	}
	c.NoteB(fmt.Sprintf("fault at %d through %v in stream ", k, rd), b)
	// number mode: no number is out of range
	d := numCfg.NewDecoder(rd)
	defer d.Release()
	pos, i := 0, 0
	for ; i < 1000; i++ {
		n := refPrefix(b[:k], pos)
		var v interface{}
		err := d.Decode(&v)
		if n == nil || n.K == KNum && n.End == k {
			// incomplete or malformed
			if err == nil {
				c.Failf("value %d: delivered %v out of %s", i, v, q(b[pos:k]))
			}
			// malformed before the fault? then another error is right
			if err != fault && couldContinue(b[pos:k]) {
				c.Failf("value %d: error %v instead of the reader's error; undelivered data %s", i, err, q(b[pos:k]))
			}
			c.FeatIf(err == fault, "fault reported")
			c.FeatIf(err != fault, "malformed before the fault")
			for j := 0; j < 2; j++ {
				w := interface{}("untouched")
				if e := d.Decode(&w); e == nil || w != interface{}("untouched") {
					c.Failf("after the error %v Decode gives %v, %v", err, w, e)
				}
			}
			break
		}
		w, _ := refIface(n, true)
		if err != nil {
			c.Failf("value %d is complete in %s (fault at the end) but the error is %v", i, q(b[pos:k]), err)
		}
		if dd := sameI(w, v, cmpOpt{}); dd != "" {
			c.Failf("value %d differs at %s in %s", i, dd, q(b[pos:k]))
		}
		pos = n.End
		c.Feat("delivered before the fault")
	}
	c.Seen(mix(hash64(b), uint64(k)), true)
	c.Sample("fault after %d bytes of %s: %d values delivered", k, q(b), i)
}

// couldContinue: some continuation of the text is a stream beginning with a
// complete value, so that the text itself is not malformed
func couldContinue(b []byte) bool {
	// encoding/json reports io.ErrUnexpectedEOF or io.EOF for those
	var v json.RawMessage
	err := json.NewDecoder(bytes.NewReader(b)).Decode(&v)
	return err == io.ErrUnexpectedEOF || err == io.EOF || err == nil
}

// engWriteFault enumerates writer faults
func engWriteFault(c *C) {
	r := c.R
	// pieces written with flushes between them
	vals := make([]interface{}, r.Range(1, 4))
	for i := range vals {
		g := VG{R: r, OneEntry: true}
		vals[i] = g.tree(0)
	}
	if r.P(20) {
		vals[0] = strings.Repeat("long ", r.Range(100, 2000))
	}
	custom := ioFault(r)
	fault := func(n int) wfault {
		f := wfault{accept: r.Intn(n + 2), err: nil}
		switch r.Intn(4) {
		case 0:
			f.accept = 0
		case 1:
			f.accept = -1
		case 2:
			f.accept = n
		}
		f.err = custom
		return f
	}
	switch r.Intn(3) {
	case 0: // streamer with faults at any flush
		var full bytes.Buffer
		ref := jzon.NewStreamer()
		ref.Reset(&full)
		ref.ArrayStart()
		for _, v := range vals {
			ref.Value(v)
		}
		ref.ArrayEnd()
		if ref.Flush() != nil {
			c.Failf("fault free flush failed")
		}
		ref.Release()
		w := &faultWriter{}
		for i := r.Range(1, 5); i > 0; i-- {
			if r.P(30) {
				w.plan = append(w.plan, wfault{accept: -1})
			} else {
				w.plan = append(w.plan, fault(r.Intn(20)))
			}
		}
		c.Note("streamer with writer plan %v and values %v", w.plan, clip(fmt.Sprint(vals), 500))
		s := jzon.NewStreamer()
		defer s.Release()
		s.Reset(w)
		flush := func() {
			i := w.calls
			err := s.Flush()
			if w.calls == i {
				return // nothing written: free
			}
			for j := i; j < w.calls && j < len(w.plan); j++ {
				if w.plan[j].err != nil && err != w.plan[j].err {
					c.Failf("the writer failed with %v but Flush returned %v", w.plan[j].err, err)
				}
				if w.plan[j].err != nil {
					c.Feat("flush fault reported")
				}
			}
			if i >= len(w.plan) && err != nil {
				c.Failf("Flush returned %v though the writer did not fail", err)
			}
		}
		s.ArrayStart()
		for _, v := range vals {
			if r.P(60) {
				flush()
			}
			s.Value(v)
		}
		s.ArrayEnd()
		for i := 0; i < 20; i++ {
			flush()
			if w.calls > len(w.plan)+1 {
				break
			}
		}
		if !bytes.Equal(w.got.Bytes(), full.Bytes()) {
			c.Failf("with writer faults %v the writer got %s, expected %s", w.plan, q(w.got.Bytes()), q(full.Bytes()))
		}
		c.Feat("stream complete after faults")
		c.Seen(mix(hash64(full.Bytes()), hashStr(fmt.Sprint(w.plan))), true)
	case 1: // encoder with a fault at each write
		var full bytes.Buffer
		ref := jzon.NewEncoder(&full)
		for _, v := range vals {
			if err := ref.Encode(v); err != nil {
				c.Failf("fault free encode failed: %v", err)
			}
		}
		ref.Release()
		for at := 0; at < 2*len(vals); at++ {
			f := fault(r.Range(0, 30))
			w := &faultWriter{}
			for i := 0; i < at; i++ {
				w.plan = append(w.plan, wfault{accept: -1})
			}
			w.plan = append(w.plan, f)
			c.Note("encoder with fault %v at write %d and values %v", f, at, clip(fmt.Sprint(vals), 500))
			e := jzon.NewEncoder(w)
			failed := false
			for i, v := range vals {
				calls := w.calls
				err := e.Encode(v)
				switch {
				case failed:
					if err == nil {
						c.Failf("Encode %d after a failure succeeds", i)
					}
					if w.calls != calls {
						c.Failf("Encode %d after a failure writes %s", i, q(w.got.Bytes()))
					}
					c.Feat("encoder sticky")
				case w.calls > at:
					if err != f.err {
						c.Failf("the writer failed with %v but Encode returned %v", f.err, err)
					}
					failed = true
					c.Feat("encode fault reported")
				default:
					if err != nil {
						c.Failf("Encode returned %v without a fault", err)
					}
				}
			}
			e.Release()
			if !bytes.HasPrefix(full.Bytes(), w.got.Bytes()) {
				c.Failf("the writer got %s, not a beginning of %s", q(w.got.Bytes()), q(full.Bytes()))
			}
			if !failed && !bytes.Equal(full.Bytes(), w.got.Bytes()) {
				c.Failf("the writer got %s, expected %s", q(w.got.Bytes()), q(full.Bytes()))
			}
			c.Seen(mix(mix(hash64(full.Bytes()), uint64(at)), uint64(f.accept)), true)
		}
	case 2: // values which cannot be encoded
		var w faultWriter
		e := jzon.NewEncoder(&w)
		defer e.Release()
		good := r.Intn(3)
		for i := 0; i < good; i++ {
			e.Encode(vals[0])
		}
		before := w.got.String()
		bad := []interface{}{make(chan int), func() {}, map[string]interface{}{"a": 1, "b": make(chan int)}, []interface{}{1, 2, failJ{}}, failT{}, []float64{1, nan()}}[r.Intn(6)]
		err := e.Encode(bad)
		if err == nil {
			c.Failf("Encode of %T succeeds", bad)
		}
		if w.got.String() != before {
			c.Failf("a failed Encode of %T wrote %s", bad, q([]byte(w.got.String()[len(before):])))
		}
		calls := w.calls
		for i := 0; i < 2; i++ {
			if e2 := e.Encode(1); e2 == nil || w.calls != calls {
				c.Failf("Encode after a failure: error %v, %d further writes", e2, w.calls-calls)
			}
		}
		c.Feat("encoder sticky after value error")
		c.Seen(hashStr(fmt.Sprintf("%T%d", bad, good)), true)
	}
}

var errHook = errors.New("hook-failure-51c2")

type failJ struct{}

func (failJ) MarshalJSON() ([]byte, error) { return nil, errHook }

type failT struct{}

func (failT) MarshalText() ([]byte, error) { return nil, errHook }

func init() {
	reg("chunks", engChunks, "both accept", "both refuse", "more than 10 reads", "error with data", "empty reads", "every cut")
	reg("chunks-big", engChunksBig, "big raw", "big skip", "big value")
	reg("stream", engStream, "position checked", "end of stream", "error in stream", "value delivered", "20 values in a stream", "delivered in number mode", "DisallowUnknownFields in mid stream", "more asked")
	reg("trunc", engTrunc, "truncation reported", "fault reported one-shot", "fault reported by decoder", "fault reported by iterator", "fault reported to walk", "complete before the fault", "fault behind the value reported")
	reg("stream-fault", engStreamFault, "fault reported", "malformed before the fault", "delivered before the fault")
	reg("write-fault", engWriteFault, "flush fault reported", "stream complete after faults", "encode fault reported", "encoder sticky", "encoder sticky after value error")
	prop(&Prop{ID: "C04", Level: "exploration",
		Rule:        "each case decodes a text from a byte slice and through several partitions of it into reads (single bytes, every single cut, sizes around the window, empty reads, end of input with the last data) with one-shot, decoder and iterator entry points on fresh and used iterators, and compares success and values; the same plan of token-level calls is run over a slice and over readers and their logs and positions compared; a case is a distinct (text, destination, partition)",
		Assumptions: []string{"decoding from a byte slice is right (C01, C02, C03, C16)"},
		Variants:    plain(Run{"chunks", 60000, 1500000}, Run{"walk-chunks", 30000, 600000}, Run{"chunks-big", 2000, 40000}, Run{"num-int", 15000, 300000}, Run{"num-float", 10000, 300000}, Run{"str", 15000, 300000}, Run{"skip", 15000, 300000}, Run{"large-stream", 2000, 40000}, Run{"counts-dec", 4404, 200000}),
	})
	prop(&Prop{ID: "C05", Level: "fault_enumeration",
		Rule:        "each case is a document accepted by its destination, cut off and with a reader fault injected at every byte position (delivered alone or with the last data) through one-shot, decoder, iterator and token-level calls; or a stream with a fault at one position; or a sequence of values written with faults and short writes at every write call; a case is a distinct (document, destination, position, entry point) or (document, fault plan)",
		Assumptions: []string{"readers and writers follow the io contracts"},
		Variants:    plain(Run{"trunc", 80000, 1500000}, Run{"stream-fault", 150000, 3000000}, Run{"write-fault", 200000, 4000000}, Run{"skip-fault", 8000, 200000}),
	})
	prop(&Prop{ID: "C06", Level: "exploration",
		Rule:        "each case is a stream of generated values (glued, separated by white space, followed by junk, damaged or cut off) read with a random sequence of Decode, More, InputOffset, Buffered, UseNumber and DisallowUnknownFields calls through an adversarial reader, compared call by call with encoding/json's decoder and with a position model of the stream; non-trivial when at least one value was delivered",
		Assumptions: []string{"encoding/json's decoder of go1.23 outside the stated exceptions"},
		Variants:    plain(Run{"stream", 150000, 3000000}, Run{"stream-fault", 10000, 200000}, Run{"large-stream", 3000, 60000}, Run{"long-stream", 2, 16}, Run{"counts-stream", 4404, 100000}),
	})
}

func nan() float64 { z := 0.0; return z / z }
