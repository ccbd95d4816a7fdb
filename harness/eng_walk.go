package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"

	"github.com/zerosnake0/jzon"
)

// walker reads a document with a random mixture of iterator calls chosen by a
// plan (its own PRNG) and rebuilds what it was told. skipped stands for values
// consumed without looking at them.
type skippedT struct{}

var skipped = skippedT{}

type walker struct {
	it    *jzon.Iterator
	plan  *Rand
	log   []string // results in order
	spans []int    // position after every consumed value
	pos   func() int
	calls int
	feats map[string]int
	depth int
	cbErr error // injected from a callback
	cbRet bool  // it was returned
}

type arrT []interface{} // an array walked element by element

type objT struct {
	keys []string
	vals []interface{}
}

// walkErr is an error a callback may return
func (c *C) walkErr() error {
	if c.R.P(40) {
		return io.EOF
	}
	if c.R.P(20) {
		return jzon.ErrEfaceLooping
	}
	return ioFaults[c.R.Intn(len(ioFaults))]
}

var errWalkStop = errors.New("stop from callback")

func (w *walker) did(f string) {
	w.calls++
	w.feats[f]++
}

func (w *walker) done(v interface{}, err error) (interface{}, error) {
	if err != nil {
		w.log = append(w.log, "error")
		return nil, err
	}
	w.log = append(w.log, fmt.Sprintf("%T %v", v, v))
	w.spans = append(w.spans, w.pos())
	return v, nil
}

// value reads one value
func (w *walker) value() (interface{}, error) {
	w.depth++
	defer func() { w.depth-- }()
	it := w.it
	if w.plan.P(15) {
		// ask twice: nothing but white space is consumed
		if _, err := it.NextValueType(); err != nil {
			return w.done(nil, err)
		}
	}
	vt, err := it.NextValueType()
	if err != nil {
		return w.done(nil, err)
	}
	w.log = append(w.log, fmt.Sprintf("type %d", vt))
	k := w.plan.Intn(100)
	// operations for any kind
	switch {
	case k < 6 && w.depth > 1 || k < 2:
		w.did("Skip")
		return w.done(skipped, it.Skip())
	case k < 10 && w.depth > 1 || k < 3:
		w.did("Read")
		v, err := it.Read()
		return w.done(v, err)
	case k < 13:
		w.did("ReadVal(interface)")
		var v interface{}
		err := it.ReadVal(&v)
		return w.done(v, err)
	case k < 16:
		w.did("SkipRaw")
		b, err := it.SkipRaw()
		return w.done(json.RawMessage(append([]byte(nil), b...)), err)
	case k < 18:
		w.did("ReadRaw")
		b, err := it.ReadRaw()
		return w.done(json.RawMessage(b), err)
	case k < 20:
		w.did("AppendRaw")
		b, err := it.AppendRaw([]byte("0123456789"))
		if err != nil {
			return w.done(nil, err)
		}
		return w.done(json.RawMessage(b[10:]), err)
	}
	switch vt {
	case jzon.StringValue:
		switch w.plan.Intn(6) {
		case 0:
			w.did("SkipString")
			return w.done(skipped, it.SkipString())
		case 1:
			w.did("ReadStringAsSlice")
			b, err := it.ReadStringAsSlice()
			return w.done(string(b), err)
		case 2:
			w.did("ReadStringAndAppend")
			b, err := it.ReadStringAndAppend([]byte("xy"))
			if err != nil {
				return w.done(nil, err)
			}
			if string(b[:2]) != "xy" {
				return w.done("prefix lost: "+string(b), nil)
			}
			return w.done(string(b[2:]), err)
		case 3:
			w.did("ReadVal(string)")
			var s string
			err := it.ReadVal(&s)
			return w.done(s, err)
		default:
			w.did("ReadString")
			s, err := it.ReadString()
			return w.done(s, err)
		}
	case jzon.NumberValue:
		switch w.plan.Intn(6) {
		case 0:
			w.did("SkipNumber")
			return w.done(skipped, it.SkipNumber())
		case 1, 2:
			w.did("ReadFloat64")
			f, err := it.ReadFloat64()
			return w.done(f, err)
		case 3:
			w.did("ReadVal(float64)")
			var f float64
			err := it.ReadVal(&f)
			return w.done(f, err)
		default:
			w.did("ReadNumber")
			n, err := it.ReadNumber()
			return w.done(n, err)
		}
	case jzon.BoolValue:
		if w.plan.Bool() {
			w.did("ReadBool")
			b, err := it.ReadBool()
			return w.done(b, err)
		}
		w.did("ReadVal(bool)")
		var b bool
		err := it.ReadVal(&b)
		return w.done(b, err)
	case jzon.NullValue:
		w.did("ReadNull")
		return w.done(nil, it.ReadNull())
	case jzon.ArrayValue:
		out := arrT{}
		switch w.plan.Intn(9) {
		case 0:
			w.did("SkipArray")
			return w.done(skipped, it.SkipArray())
		case 8:
			w.did("ReadVal([]interface)")
			v := []interface{}{"old"}
			err := it.ReadVal(&v)
			return w.done(v, err)
		case 1, 2, 3:
			w.did("ReadArrayCB")
			err := it.ReadArrayCB(func(in *jzon.Iterator) error {
				if in != it {
					return fmt.Errorf("another iterator")
				}
				if w.cbErr != nil && w.plan.P(20) {
					w.cbRet = true
					return w.cbErr
				}
				v, err := w.value()
				out = append(out, v)
				return err
			})
			if err != nil {
				return w.done(nil, err)
			}
		default:
			w.did("ReadArrayBegin")
			more, err := it.ReadArrayBegin()
			for ; err == nil && more; more, err = it.ReadArrayMore() {
				v, err := w.value()
				if err != nil {
					return nil, err
				}
				out = append(out, v)
			}
			if err != nil {
				return w.done(nil, err)
			}
		}
		w.spans = append(w.spans, w.pos())
		return out, nil
	case jzon.ObjectValue:
		o := &objT{}
		switch w.plan.Intn(9) {
		case 0:
			w.did("SkipObject")
			return w.done(skipped, it.SkipObject())
		case 8:
			w.did("ReadVal(map)")
			var v map[string]interface{}
			err := it.ReadVal(&v)
			return w.done(v, err)
		case 1, 2, 3:
			w.did("ReadObjectCB")
			err := it.ReadObjectCB(func(in *jzon.Iterator, field string) error {
				if in != it {
					return fmt.Errorf("another iterator")
				}
				if w.cbErr != nil && w.plan.P(20) {
					w.cbRet = true
					return w.cbErr
				}
				w.log = append(w.log, "field "+field)
				o.keys = append(o.keys, field)
				v, err := w.value()
				o.vals = append(o.vals, v)
				return err
			})
			if err != nil {
				return w.done(nil, err)
			}
		default:
			w.did("ReadObjectBegin")
			more, field, err := it.ReadObjectBegin()
			for ; err == nil && more; more, field, err = it.ReadObjectMore() {
				w.log = append(w.log, "field "+field)
				o.keys = append(o.keys, field)
				v, err := w.value()
				if err != nil {
					return nil, err
				}
				o.vals = append(o.vals, v)
			}
			if err != nil {
				return w.done(nil, err)
			}
		}
		w.spans = append(w.spans, w.pos())
		return o, nil
	}
	// not the beginning of any value: every reader must refuse
	w.did("invalid")
	for i := 0; i < 1; i++ {
		switch w.plan.Intn(6) {
		case 0:
			_, err = it.Read()
		case 1:
			err = it.Skip()
		case 2:
			_, err = it.ReadString()
		case 3:
			_, err = it.ReadFloat64()
		case 4:
			_, err = it.ReadArrayBegin()
		default:
			_, err = it.ReadBool()
		}
	}
	if err == nil {
		return w.done("accepted an invalid beginning", nil)
	}
	return w.done(nil, err)
}

// cmpWalk compares what was rebuilt with the reference tree and checks the
// positions; spans are produced in post order, as the reference walk does
func cmpWalk(text []byte, n *Node, v interface{}, num bool, spans *[]int) string {
	take := func(leaf bool) string {
		if len(*spans) == 0 {
			return "positions exhausted"
		}
		p := (*spans)[0]
		*spans = (*spans)[1:]
		if p != n.End {
			return fmt.Sprintf("position %d after the value at [%d,%d)", p, n.Start, n.End)
		}
		return ""
	}
	switch x := v.(type) {
	case skippedT:
		return take(true)
	case json.RawMessage:
		if string(x) != string(text[n.Start:n.End]) {
			return fmt.Sprintf("raw %q, expected %q", x, text[n.Start:n.End])
		}
		return take(true)
	case *objT:
		if n.K != KObj || len(x.keys) != len(n.Keys) || len(x.vals) != len(n.Keys) {
			return fmt.Sprintf("object with %d members, expected %s with %d", len(x.keys), n.K, len(n.Keys))
		}
		for i := range x.keys {
			if x.keys[i] != n.Keys[i] {
				return fmt.Sprintf("member %d is %q, expected %q", i, x.keys[i], n.Keys[i])
			}
			if d := cmpWalk(text, n.Elems[i], x.vals[i], num, spans); d != "" {
				return d
			}
		}
		return take(false)
	case arrT:
		if n.K != KArr || len(x) != len(n.Elems) {
			return fmt.Sprintf("array with %d elements, expected %s with %d", len(x), n.K, len(n.Elems))
		}
		for i := range x {
			if d := cmpWalk(text, n.Elems[i], x[i], num, spans); d != "" {
				return d
			}
		}
		return take(false)
	case []interface{}, map[string]interface{}:
		w, ok := refIface(n, num)
		if !ok {
			return "a number out of range was accepted"
		}
		if d := sameI(w, v, cmpOpt{}); d != "" {
			return d
		}
		return take(true)
	case json.Number:
		if n.K != KNum || string(x) != n.Num {
			return fmt.Sprintf("number %q, expected %q", x, n.Num)
		}
		return take(true)
	default:
		w, ok := refIface(n, false)
		if !ok {
			return "a number out of range was accepted"
		}
		if d := sameI(w, v, cmpOpt{}); d != "" {
			return d
		}
		return take(true)
	}
}

// numRange tells whether some number of the tree is out of float64 range
func numRange(n *Node) bool {
	if n.K == KNum {
		_, err := strconv.ParseFloat(n.Num, 64)
		return err != nil
	}
	for _, e := range n.Elems {
		if numRange(e) {
			return true
		}
	}
	return false
}

func newWalker(it *jzon.Iterator, s *src, planSeed uint64) *walker {
	return &walker{it: it, plan: newRand(planSeed), pos: func() int { return s.pos(it) }, feats: map[string]int{}}
}

func walkText(r *Rand) []byte {
	switch r.Intn(10) {
	case 0, 1:
		return mutateTok(r, genValid(r, true))
	case 2:
		return mutate(r, genValid(r, true))
	case 3:
		return genDeep(r, 100)
	case 4:
		return padText(r, genValid(r, true))
	case 5:
		return genText(r)
	}
	return genValid(r, true)
}

// walk: token level reading against the reference reader
func engWalk(c *C) {
	for k := 0; k < 12; k++ {
		b := walkText(c.R)
		n := refPrefix(b, 0)
		it, num := anyIter(c.R)
		via := c.R.Bool()
		s := openSrc(it, b, c.R, via)
		w := newWalker(it, s, c.R.U64())
		cb := c.R.P(10)
		if cb {
			w.cbErr = errWalkStop
			if c.R.Bool() {
				w.cbErr = c.walkErr()
			}
		}
		c.NoteB(fmt.Sprintf("walk reader=%v: ", via), b)
		v, err := w.value()
		c.SeenB(b, w.calls > 1)
		for f, x := range w.feats {
			c.st.Feats["call "+f] += int64(x)
		}
		if err == nil {
			if n == nil {
				c.Failf("walking %s succeeds (%v) but no complete value starts there; log %q", q(b), v, w.log)
			}
			spans := w.spans
			if d := cmpWalk(b, n, v, num, &spans); d != "" {
				c.Failf("walking %s: %s; log %q", q(b), d, w.log)
			}
			if len(spans) != 0 {
				c.Failf("walking %s: more values than expected; log %q", q(b), w.log)
			}
			c.Feat("walk complete")
			c.FeatIf(num, "number mode")
			c.FeatIf(via, "via reader")
			c.Sample("%s calls=%v", q(b), w.feats)
		} else {
			if w.cbRet {
				if err != w.cbErr {
					c.Failf("the callback's error came back changed: %v", err)
				}
				c.Feat("callback error returned")
			} else if n != nil && !numRange(n) {
				c.Failf("walking %s fails: %v; log %q", q(b), err, w.log)
			} else {
				c.Feat("walk error")
			}
		}
		it.Release()
	}
}

// walk-chunks: the same plan over a byte slice and over adversarial readers
func engWalkChunks(c *C) {
	for k := 0; k < 6; k++ {
		b := walkText(c.R)
		plan := c.R.U64()
		run := func(rd *chunkReader) (*walker, interface{}, error) {
			it := jzon.NewIterator()
			defer it.Release()
			s := &src{text: b, rd: rd}
			if rd == nil {
				it.ResetBytes(b)
			} else {
				if c.R.P(30) { // used before
					it.Reset(&chunkReader{data: []byte(`{"junk":[1,2,"` + string(digits(c.R, c.R.Intn(700))) + `"]} tail`)})
					it.SkipRaw()
				}
				it.Reset(rd)
			}
			w := newWalker(it, s, plan)
			v, err := w.value()
			return w, v, err
		}
		c.NoteB("walk-chunks: ", b)
		w0, v0, e0 := run(nil)
		for j := 0; j < 4; j++ {
			rd := genReader(c.R, b)
			if j == 0 {
				rd.sizes = []int{1}
			}
			w1, v1, e1 := run(rd)
			if (e0 == nil) != (e1 == nil) {
				c.Failf("%s: from bytes error %v, from %v error %v", q(b), e0, rd, e1)
			}
			if !reflect.DeepEqual(w0.log, w1.log) {
				c.Failf("%s: from bytes %q, from %v %q", q(b), w0.log, rd, w1.log)
			}
			if !reflect.DeepEqual(w0.spans, w1.spans) {
				c.Failf("%s: positions from bytes %v, from %v %v", q(b), w0.spans, rd, w1.spans)
			}
			if e0 == nil {
				if d := sameI(stripWalk(v0), stripWalk(v1), cmpOpt{}); d != "" {
					c.Failf("%s: %s with %v", q(b), d, rd)
				}
			}
			c.Seen(mix(hash64(b), hashStr(fmt.Sprint(rd.sizes, rd.eofWith))), rd.reads > 1)
			c.FeatIf(rd.reads > 10, "more than 10 reads")
			c.FeatIf(rd.eofWith, "error with data")
			c.FeatIf(rd.zeros > 0, "empty reads")
		}
		c.FeatIf(e0 != nil, "walk error")
		c.FeatIf(e0 == nil, "walk complete")
	}
}

func stripWalk(v interface{}) interface{} {
	switch x := v.(type) {
	case *objT:
		var out []interface{}
		for i := range x.keys {
			if i < len(x.vals) {
				out = append(out, x.keys[i], stripWalk(x.vals[i]))
			}
		}
		return out
	case arrT:
		out := make([]interface{}, 0, len(x))
		for _, e := range x {
			out = append(out, stripWalk(e))
		}
		return out
	case json.RawMessage:
		return string(x)
	}
	return v
}

// strict: every typed read accepts exactly its own kind
type strictOp struct {
	name string
	ok   func(n *Node) bool
	f    func(it *jzon.Iterator) error
}

func kindIs(k Kind) func(*Node) bool { return func(n *Node) bool { return n.K == k } }

func isInt(n *Node, bits int, signed bool) bool {
	if n.K != KNum {
		return false
	}
	for i, ch := range n.Num {
		if !(ch >= '0' && ch <= '9' || i == 0 && ch == '-' && signed) {
			return false
		}
	}
	var err error
	if signed {
		_, err = strconv.ParseInt(n.Num, 10, bits)
	} else {
		_, err = strconv.ParseUint(n.Num, 10, bits)
	}
	return err == nil
}

func isFloat(n *Node, bits int) bool {
	if n.K != KNum {
		return false
	}
	_, err := strconv.ParseFloat(n.Num, bits)
	return err == nil
}

var strictOps = []strictOp{
	{"ReadString", kindIs(KStr), func(it *jzon.Iterator) error { _, err := it.ReadString(); return err }},
	{"ReadStringAsSlice", kindIs(KStr), func(it *jzon.Iterator) error { _, err := it.ReadStringAsSlice(); return err }},
	{"ReadStringAndAppend", kindIs(KStr), func(it *jzon.Iterator) error { _, err := it.ReadStringAndAppend(nil); return err }},
	{"ReadBool", kindIs(KBool), func(it *jzon.Iterator) error { _, err := it.ReadBool(); return err }},
	{"ReadNull", kindIs(KNull), func(it *jzon.Iterator) error { return it.ReadNull() }},
	{"ReadNumber", kindIs(KNum), func(it *jzon.Iterator) error { _, err := it.ReadNumber(); return err }},
	{"ReadFloat32", func(n *Node) bool { return isFloat(n, 32) }, func(it *jzon.Iterator) error { _, err := it.ReadFloat32(); return err }},
	{"ReadFloat64", func(n *Node) bool { return isFloat(n, 64) }, func(it *jzon.Iterator) error { _, err := it.ReadFloat64(); return err }},
	{"ReadInt", func(n *Node) bool { return isInt(n, strconv.IntSize, true) }, func(it *jzon.Iterator) error { _, err := it.ReadInt(); return err }},
	{"ReadInt8", func(n *Node) bool { return isInt(n, 8, true) }, func(it *jzon.Iterator) error { _, err := it.ReadInt8(); return err }},
	{"ReadInt16", func(n *Node) bool { return isInt(n, 16, true) }, func(it *jzon.Iterator) error { _, err := it.ReadInt16(); return err }},
	{"ReadInt32", func(n *Node) bool { return isInt(n, 32, true) }, func(it *jzon.Iterator) error { _, err := it.ReadInt32(); return err }},
	{"ReadInt64", func(n *Node) bool { return isInt(n, 64, true) }, func(it *jzon.Iterator) error { _, err := it.ReadInt64(); return err }},
	{"ReadUint", func(n *Node) bool { return isInt(n, strconv.IntSize, false) }, func(it *jzon.Iterator) error { _, err := it.ReadUint(); return err }},
	{"ReadUint8", func(n *Node) bool { return isInt(n, 8, false) }, func(it *jzon.Iterator) error { _, err := it.ReadUint8(); return err }},
	{"ReadUint16", func(n *Node) bool { return isInt(n, 16, false) }, func(it *jzon.Iterator) error { _, err := it.ReadUint16(); return err }},
	{"ReadUint32", func(n *Node) bool { return isInt(n, 32, false) }, func(it *jzon.Iterator) error { _, err := it.ReadUint32(); return err }},
	{"ReadUint64", func(n *Node) bool { return isInt(n, 64, false) }, func(it *jzon.Iterator) error { _, err := it.ReadUint64(); return err }},
	{"ReadArrayBegin", kindIs(KArr), func(it *jzon.Iterator) error {
		more, err := it.ReadArrayBegin()
		for ; err == nil && more; more, err = it.ReadArrayMore() {
			if err = it.Skip(); err != nil {
				return err
			}
		}
		return err
	}},
	{"ReadArrayCB", kindIs(KArr), func(it *jzon.Iterator) error {
		return it.ReadArrayCB(func(it *jzon.Iterator) error { return it.Skip() })
	}},
	{"ReadObjectBegin", kindIs(KObj), func(it *jzon.Iterator) error {
		more, _, err := it.ReadObjectBegin()
		for ; err == nil && more; more, _, err = it.ReadObjectMore() {
			if err = it.Skip(); err != nil {
				return err
			}
		}
		return err
	}},
	{"ReadObjectCB", kindIs(KObj), func(it *jzon.Iterator) error {
		return it.ReadObjectCB(func(it *jzon.Iterator, _ string) error { return it.Skip() })
	}},
	{"SkipString", kindIs(KStr), func(it *jzon.Iterator) error { return it.SkipString() }},
	{"SkipNumber", kindIs(KNum), func(it *jzon.Iterator) error { return it.SkipNumber() }},
	{"SkipArray", kindIs(KArr), func(it *jzon.Iterator) error { return it.SkipArray() }},
	{"SkipObject", kindIs(KObj), func(it *jzon.Iterator) error { return it.SkipObject() }},
}

func wantType(c byte) jzon.ValueType {
	switch {
	case isWS(c):
		return jzon.WhiteSpaceValue
	case c == '"':
		return jzon.StringValue
	case c == '-' || isDig(c):
		return jzon.NumberValue
	case c == '{':
		return jzon.ObjectValue
	case c == '[':
		return jzon.ArrayValue
	case c == 't' || c == 'f':
		return jzon.BoolValue
	case c == 'n':
		return jzon.NullValue
	}
	return jzon.InvalidValue
}

func engStrict(c *C) {
	it, _ := anyIter(c.R)
	defer it.Release()
	// every byte
	if c.Idx%16 == 0 {
		for ch := 0; ch < 256; ch++ {
			t := []byte{byte(ch), ' '}
			if isWS(byte(ch)) {
				continue
			}
			t = append([]byte(" \n"), t...)
			s := openSrc(it, t, c.R, c.R.Bool())
			vt, err := it.NextValueType()
			if err != nil || vt != wantType(byte(ch)) {
				c.Failf("NextValueType of byte %#x is %v, %v", ch, vt, err)
			}
			if p := s.pos(it); p != 2 {
				c.Failf("NextValueType of %q is at position %d", t, p)
			}
		}
		c.Feat("all 256 first bytes")
	}
	for k := 0; k < 8; k++ {
		var b []byte
		switch c.R.Intn(6) {
		case 0, 1:
			b = []byte(c.R.Str(boundInts))
		case 2:
			b = genNumberLike(c.R)
		case 3:
			b = genText(c.R)
		case 4:
			b = []byte(c.R.Str([]string{"null", "true", "false", `""`, "[]", "{}", "nul", "truE", "fals", "nulll", "[null]", `{"a":null}`, "[1,]", `{"a":1,}`, "[,1]", "{,}", `{"a"}`, `{"a":}`, `{"a" 1}`, "[1 2]", `{"a":1 "b":2}`, `{1:2}`, `{null:1}`, "[1", `{"a":1`}))
		default:
			b = genValid(c.R, false)
		}
		if c.R.P(50) {
			b = append(b, " ,]}:\n"[c.R.Intn(6)])
		}
		n := refPrefix(b, 0)
		for _, op := range strictOps {
			s := openSrc(it, b, c.R, c.R.Bool())
			c.NoteB(op.name+": ", b)
			err := op.f(it)
			// integers see only the integer part: a literal which is not an
			// integer must be refused
			want := n != nil && op.ok(n)
			if (err == nil) != want {
				c.Failf("%s on %s: error %v, expected success %v", op.name, q(b), err, want)
			}
			if want {
				if p := s.pos(it); p != n.End {
					c.Failf("%s on %s ends at %d, expected %d", op.name, q(b), p, n.End)
				}
				c.Feat("strict accept")
			} else {
				c.Feat("strict reject")
			}
		}
		c.SeenB(b, true)
	}
	// no value at all
	for _, op := range strictOps {
		for _, t := range []string{"", " ", "\n\t "} {
			openSrc(it, []byte(t), c.R, c.R.Bool())
			if err := op.f(it); err != io.EOF {
				c.Failf("%s on %q: %v", op.name, t, err)
			}
		}
	}
}

func init() {
	reg("walk", engWalk, "walk complete", "walk error", "callback error returned", "via reader", "call ReadObjectCB", "call ReadArrayBegin", "call ReadStringAndAppend", "number mode")
	reg("walk-chunks", engWalkChunks, "walk complete", "walk error", "more than 10 reads", "error with data", "empty reads")
	reg("strict", engStrict, "strict accept", "strict reject", "all 256 first bytes")
}
