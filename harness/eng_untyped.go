package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"
)

var numCfg = jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: true})

// refIface converts a reference tree to what an untyped destination holds
func refIface(n *Node, useNumber bool) (interface{}, bool) {
	switch n.K {
	case KNull:
		return nil, true
	case KBool:
		return n.B, true
	case KNum:
		if useNumber {
			return json.Number(n.Num), true
		}
		f, err := strconv.ParseFloat(n.Num, 64)
		return f, err == nil && !math.IsInf(f, 0)
	case KStr:
		return n.S, true
	case KArr:
		a := make([]interface{}, 0, len(n.Elems))
		ok := true
		for _, e := range n.Elems {
			x, o := refIface(e, useNumber)
			ok = ok && o
			a = append(a, x)
		}
		return a, ok
	default:
		m := make(map[string]interface{}, len(n.Elems))
		ok := true
		for i, e := range n.Elems {
			x, o := refIface(e, useNumber)
			ok = ok && o
			m[n.Keys[i]] = x
		}
		return m, ok
	}
}

func nodeDepth(b []byte) int {
	d, m := 0, 0
	in := false
	for i := 0; i < len(b); i++ {
		c := b[i]
		if in {
			if c == '\\' {
				i++
			} else if c == '"' {
				in = false
			}
			continue
		}
		switch c {
		case '"':
			in = true
		case '[', '{':
			d++
			if d > m {
				m = d
			}
		case ']', '}':
			d--
		}
	}
	return m
}

type want struct {
	ok  bool
	val interface{}
}

// wantUntyped is the oracle: encoding/json wherever it applies, else the
// reference reader (invalid UTF-8, nesting over 10000); where both apply they
// must agree with each other
func wantUntyped(b []byte, useNumber bool) want {
	n := refDoc(b)
	var w want
	if n != nil {
		w.val, w.ok = refIface(n, useNumber)
	}
	if len(b) > 9000 && nodeDepth(b) > 9990 {
		return w
	}
	var v interface{}
	var err error
	if useNumber {
		if json.Valid(b) {
			d := json.NewDecoder(bytes.NewReader(b))
			d.UseNumber()
			err = d.Decode(&v)
		} else {
			err = io.ErrUnexpectedEOF
		}
	} else {
		err = json.Unmarshal(b, &v)
	}
	if (err == nil) != w.ok {
		panic(harnessErr("the two oracles disagree on acceptance of %q: %v", b, err))
	}
	if w.ok && utf8.Valid(b) {
		if d := sameI(v, w.val, cmpOpt{}); d != "" {
			panic(harnessErr("the two oracles disagree on %q: %s", b, d))
		}
	}
	return w
}

func readEnd(it *jzon.Iterator) error {
	if _, err := it.NextValueType(); err != io.EOF {
		return fmt.Errorf("data remains (%v)", err)
	}
	return nil
}

type route struct {
	name string
	f    func(b []byte, r *Rand, useNumber bool) (interface{}, error)
}

func cfgFor(useNumber bool) *jzon.DecoderConfig {
	if useNumber {
		return numCfg
	}
	return jzon.DefaultDecoderConfig
}

var untypedRoutes = []route{
	{"Unmarshal", func(b []byte, r *Rand, un bool) (v interface{}, err error) {
		if un {
			err = numCfg.Unmarshal(b, &v)
		} else {
			err = jzon.Unmarshal(b, &v)
		}
		return
	}},
	{"UnmarshalFromString", func(b []byte, r *Rand, un bool) (v interface{}, err error) {
		if un {
			err = numCfg.UnmarshalFromString(string(b), &v)
		} else {
			err = jzon.UnmarshalFromString(string(b), &v)
		}
		return
	}},
	{"UnmarshalFromReader", func(b []byte, r *Rand, un bool) (v interface{}, err error) {
		var rd io.Reader = genReader(r, b)
		switch r.Intn(6) {
		case 0:
			rd = bytes.NewReader(b)
		case 1:
			rd = strings.NewReader(string(b))
		case 2:
			rd = bufio.NewReaderSize(rd, 16)
		case 3:
			rd = bytes.NewBuffer(append([]byte(nil), b...))
		}
		if un {
			err = numCfg.UnmarshalFromReader(rd, &v)
		} else {
			err = jzon.UnmarshalFromReader(rd, &v)
		}
		return
	}},
	{"Decoder", func(b []byte, r *Rand, un bool) (v interface{}, err error) {
		var d *jzon.Decoder
		if un && r.Bool() {
			d = numCfg.NewDecoder(genReader(r, b))
		} else {
			d = jzon.NewDecoder(genReader(r, b))
			if un {
				d.UseNumber()
			}
		}
		defer d.Release()
		if err = d.Decode(&v); err != nil {
			return
		}
		var w interface{}
		if e := d.Decode(&w); e != io.EOF {
			err = fmt.Errorf("data remains (%v)", e)
		}
		return
	}},
	{"Iterator.Read", func(b []byte, r *Rand, un bool) (v interface{}, err error) {
		it := cfgFor(un).NewIterator()
		defer it.Release()
		if r.Bool() {
			it.ResetBytes(b)
		} else {
			it.Reset(genReader(r, b))
		}
		if v, err = it.Read(); err != nil {
			return
		}
		err = readEnd(it)
		return
	}},
	{"Iterator.ReadVal", func(b []byte, r *Rand, un bool) (v interface{}, err error) {
		it := cfgFor(un).NewIterator()
		defer it.Release()
		if r.Bool() {
			it.ResetBytes(b)
		} else {
			it.Reset(genReader(r, b))
		}
		if err = it.ReadVal(&v); err != nil {
			return
		}
		err = readEnd(it)
		return
	}},
	{"Iterator.Unmarshal", func(b []byte, r *Rand, un bool) (v interface{}, err error) {
		it := cfgFor(un).NewIterator()
		defer it.Release()
		if r.Bool() {
			err = it.Unmarshal(b, &v)
		} else {
			err = it.UnmarshalFromReader(genReader(r, b), &v)
		}
		return
	}},
	{"prefilled interface", func(b []byte, r *Rand, un bool) (v interface{}, err error) {
		v = []interface{}{1, "x", map[string]interface{}{"old": 1}, map[string]interface{}{"a": 1, "old": true}, []interface{}{1, 2, 3}, 2.5, struct{}{}, nil}[r.Intn(8)]
		err = cfgFor(un).Unmarshal(b, &v)
		return
	}},
	{"typed nil in interface", func(b []byte, r *Rand, un bool) (v interface{}, err error) {
		v = (*int)(nil)
		err = cfgFor(un).Unmarshal(b, &v)
		return
	}},
	{"pointer to interface in interface", func(b []byte, r *Rand, un bool) (v interface{}, err error) {
		var in interface{}
		v = &in
		if err = cfgFor(un).Unmarshal(b, &v); err != nil {
			return nil, err
		}
		if v == nil {
			return nil, nil // null
		}
		if v != interface{}(&in) {
			return nil, fmt.Errorf("the pointer was replaced by %v", v)
		}
		return in, nil
	}},
}

func judgeUntyped(c *C, what string, b []byte, w want, v interface{}, err error) {
	if (err == nil) != w.ok {
		if w.ok {
			c.Failf("%s rejects a document encoding/json accepts: %v\n input %s", what, err, q(b))
		}
		c.Failf("%s accepts a text encoding/json rejects: %s gives %s", what, q(b), show(reflect.ValueOf(v)))
	}
	if w.ok {
		if d := sameI(w.val, v, cmpOpt{}); d != "" {
			c.Failf("%s differs (expected versus got) at %s\n input %s", what, d, q(b))
		}
	}
}

func untypedFeats(c *C, b []byte, ok bool) {
	if ok {
		c.Feat("accepted")
	} else {
		c.Feat("rejected")
	}
	c.FeatIf(len(b) > 64, "input>64")
	c.FeatIf(len(b) > 512, "input>512")
	c.FeatIf(bytes.IndexByte(b, '\\') >= 0, "escapes")
	c.FeatIf(!utf8.Valid(b), "invalid-utf8")
	d := nodeDepth(b)
	c.FeatIf(d >= 64, "depth>=64")
	c.FeatIf(d >= 128, "depth>=128")
}

// untyped: every route on generated texts
func engUntyped(c *C) {
	for k := 0; k < 20; k++ {
		b := genText(c.R)
		un := c.R.P(30)
		orig := string(b)
		w := wantUntyped(b, un)
		untypedFeats(c, b, w.ok)
		all := c.R.P(30)
		for i, rt := range untypedRoutes {
			if !all && i > 0 && !c.R.P(25) {
				continue
			}
			c.NoteB(rt.name+": ", b)
			v, err := rt.f(b, c.R, un)
			if string(b) != orig {
				c.Failf("%s modified its input %s to %s", rt.name, q([]byte(orig)), q(b))
			}
			judgeUntyped(c, rt.name, b, w, v, err)
			c.Feat("route " + rt.name)
		}
		c.SeenB(b, len(b) > 1)
		c.Sample("%s accepted=%v number-mode=%v", q(b), w.ok, un)
	}
}

type untypedPos struct {
	pre, post string
	f         func(b []byte, un bool) (interface{}, error)
}

type ufield struct{ F interface{} }
type ufieldTag struct {
	X int         `json:"x"`
	F interface{} `json:"f"`
	Y string      `json:"y"`
}
type umany struct {
	A, B, C, D, E, G, H, I, J, K, L int
	F                               interface{}
}

var untypedPositions = []untypedPos{
	{`{"F":`, `}`, func(b []byte, un bool) (interface{}, error) {
		var d ufield
		err := cfgFor(un).Unmarshal(b, &d)
		return d.F, err
	}},
	{`{"x":1,"f":`, `,"y":"s"}`, func(b []byte, un bool) (interface{}, error) {
		d := ufieldTag{F: 7}
		err := cfgFor(un).Unmarshal(b, &d)
		if err == nil && (d.X != 1 || d.Y != "s") {
			return nil, fmt.Errorf("neighbours: %+v", d)
		}
		return d.F, err
	}},
	{`{"A":1,"F":`, `,"L":5}`, func(b []byte, un bool) (interface{}, error) {
		d := umany{}
		err := cfgFor(un).Unmarshal(b, &d)
		if err == nil && (d.A != 1 || d.L != 5) {
			return nil, fmt.Errorf("neighbours: %+v", d)
		}
		return d.F, err
	}},
	{`{"k":`, `}`, func(b []byte, un bool) (interface{}, error) {
		d := map[string]interface{}{"k": "old", "o": "keep"}
		err := cfgFor(un).Unmarshal(b, &d)
		if err == nil && (len(d) != 2 || d["o"] != "keep") {
			return nil, fmt.Errorf("other entries: %v", d)
		}
		return d["k"], err
	}},
	{`{"5":`, `}`, func(b []byte, un bool) (interface{}, error) {
		var d map[int8]interface{}
		err := cfgFor(un).Unmarshal(b, &d)
		return d[5], err
	}},
	{`[`, `]`, func(b []byte, un bool) (interface{}, error) {
		var d []interface{}
		err := cfgFor(un).Unmarshal(b, &d)
		if err == nil && len(d) != 1 {
			return nil, fmt.Errorf("length %d", len(d))
		}
		if err != nil {
			return nil, err
		}
		return d[0], err
	}},
	{`[null,`, `]`, func(b []byte, un bool) (interface{}, error) {
		d := [3]interface{}{1, 2, 3}
		err := cfgFor(un).Unmarshal(b, &d)
		if err == nil && (d[0] != nil || d[2] != nil) {
			return nil, fmt.Errorf("neighbours %v", d)
		}
		return d[1], err
	}},
	{`{"a":[[`, `]]}`, func(b []byte, un bool) (interface{}, error) {
		var d map[string][][]*interface{}
		err := cfgFor(un).Unmarshal(b, &d)
		if err != nil {
			return nil, err
		}
		if len(d["a"]) != 1 || len(d["a"][0]) != 1 || d["a"][0][0] == nil {
			return nil, nil
		}
		return *d["a"][0][0], err
	}},
}

// untyped-pos: the interface at every position
func engUntypedPos(c *C) {
	for k := 0; k < 20; k++ {
		t := genText(c.R)
		un := c.R.P(30)
		p := untypedPositions[c.R.Intn(len(untypedPositions))]
		b := append(append([]byte(p.pre), t...), p.post...)
		// the inner text decides the value; texts like `1,2` make more
		// elements and are judged only for syntax
		n := refPrefix(t, 0)
		single := n != nil && skipWS(t, n.End) == len(t)
		c.NoteB(p.pre+" ", b)
		v, err := p.f(b, un)
		c.SeenB(b, true)
		if !single {
			if err == nil && refDoc(b) == nil {
				c.Failf("accepts %s", q(b))
			}
			c.Feat("inner text not one value")
			continue
		}
		var w want
		w.val, w.ok = refIface(n, un)
		untypedFeats(c, b, w.ok)
		judgeUntyped(c, "position "+p.pre+"_"+p.post, b, w, v, err)
		c.Feat("position " + p.pre)
	}
}

// exhaustive enumeration of short token strings
var exTokens = [][]byte{[]byte("["), []byte("]"), []byte("{"), []byte("}"), []byte(","), []byte(":"), []byte(`"a"`), []byte("1"), []byte("true"), []byte(" "), []byte("null")}
var exBytes = [][]byte{[]byte("\""), []byte("\\"), []byte("u"), []byte("0"), []byte("1"), []byte("-"), []byte("+"), []byte("."), []byte("e"), []byte("E"), []byte("["), []byte("]"), []byte(","), []byte("\n"), []byte("\x00"), []byte("\x1f"), []byte("a"), []byte("n"), []byte("d8"), []byte("\x7f"), []byte("\xff")}

// exText enumerates: block idx covers a contiguous range of strings
func exText(list [][]byte, n uint64) ([]byte, bool) {
	// bijective base-k numeration
	k := uint64(len(list))
	var rev [][]byte
	for n > 0 {
		n--
		rev = append(rev, list[n%k])
		n /= k
	}
	var b []byte
	for i := len(rev) - 1; i >= 0; i-- {
		b = append(b, rev[i]...)
	}
	return b, true
}

func exCount(k, l int) uint64 {
	var t, p uint64 = 0, 1
	for i := 0; i <= l; i++ {
		t += p
		p *= uint64(k)
	}
	return t
}

const exBlock = 2000

// exRange yields the texts of block idx over both alphabets; the quick tier
// enumerates tokens up to length 5 and bytes up to length 4, the thorough tier
// one more each
func exRange(c *C, f func(b []byte)) {
	lt, lb := 5, 4
	if c.Thorough() {
		lt, lb = 6, 5
	}
	nt, nb := exCount(len(exTokens), lt), exCount(len(exBytes), lb)
	for i := uint64(c.Idx) * exBlock; i < uint64(c.Idx+1)*exBlock; i++ {
		if i < nt {
			b, _ := exText(exTokens, i)
			f(b)
		} else if i < nt+nb {
			b, _ := exText(exBytes, i-nt)
			f(b)
		} else {
			c.Feat("exhaustive-end")
			return
		}
	}
}

func engUntypedEx(c *C) {
	it := jzon.NewIterator()
	defer it.Release()
	exRange(c, func(b []byte) {
		w := wantUntyped(b, false)
		c.NoteB("exhaustive: ", b)
		c.SeenB(b, true)
		var v interface{}
		err := it.Unmarshal(b, &v)
		judgeUntyped(c, "Iterator.Unmarshal", b, w, v, err)
		if w.ok {
			c.Feat("accepted")
			rd := &chunkReader{data: b, sizes: []int{1}}
			v = nil
			err = it.UnmarshalFromReader(rd, &v)
			judgeUntyped(c, "Iterator.UnmarshalFromReader by one byte", b, w, v, err)
		} else {
			c.Feat("rejected")
			rd := &chunkReader{data: b, sizes: []int{1}}
			v = nil
			err = it.UnmarshalFromReader(rd, &v)
			judgeUntyped(c, "Iterator.UnmarshalFromReader by one byte", b, w, v, err)
		}
	})
}

// large documents: wide, long strings, very deep
func bigText(r *Rand) []byte {
	switch r.Intn(8) {
	case 0:
		return nest(r, r.Range(1000, 12000))
	case 1:
		return []byte(strings.Repeat("[", 20000) + strings.Repeat("]", 20000))
	case 2:
		var b []byte
		b = append(b, '[')
		n := r.Range(100, 5000)
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, genNumberLit(r, false)...)
		}
		return append(b, ']')
	case 3:
		var b []byte
		b = append(b, '{')
		n := r.Range(100, 3000)
		for i := 0; i < n; i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = append(b, fmt.Sprintf(`"k%d":`, r.Intn(n))...)
			b = append(b, genStringLit(r, false)...)
		}
		return append(b, '}')
	case 4:
		var b []byte
		b = append(b, '"')
		n := r.Range(1000, 100000)
		for len(b) < n {
			if r.P(90) {
				b = append(b, plainChars[r.Intn(len(plainChars))])
			} else {
				b = append(b, r.Str(strAtoms)...)
			}
		}
		return append(b, '"')
	case 5:
		b := []byte(strings.Repeat(" \n\t\r", r.Range(100, 4000)))
		return append(b, genValid(r, false)...)
	case 6:
		d := r.Range(1000, 5000)
		return []byte(strings.Repeat(`{"a":[`, d) + strings.Repeat("]}", d-1) + "}" + "]")
	default:
		g := TG{R: r, MaxDepth: 30, Budget: 3000, WS: 20}
		g.value(0)
		return g.b
	}
}

func engUntypedBig(c *C) {
	b := bigText(c.R)
	if c.R.P(15) {
		b = mutate(c.R, b)
	}
	w := wantUntyped(b, false)
	untypedFeats(c, b, w.ok)
	c.FeatIf(len(b) > 4096, "input>4096")
	c.FeatIf(len(b) > 9000 && nodeDepth(b) > 10000, "depth>10000")
	for _, rt := range untypedRoutes {
		if !c.R.P(35) {
			continue
		}
		c.NoteB(rt.name+": ", b)
		v, err := rt.f(b, c.R, false)
		judgeUntyped(c, rt.name, b, w, v, err)
		c.Tick()
	}
	c.SeenB(b, true)
}

func init() {
	reg("untyped", engUntyped, "accepted", "rejected", "escapes", "invalid-utf8", "depth>=64", "depth>=128", "input>512")
	reg("untyped-pos", engUntypedPos, "accepted", "rejected", "position [null,")
	reg("untyped-exhaustive", engUntypedEx, "accepted", "rejected")
	reg("untyped-big", engUntypedBig, "accepted", "rejected", "input>4096", "depth>10000")
}
