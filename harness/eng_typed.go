package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"
)

// A configuration copies its cache for every new type, so generated types use
// configurations which are replaced now and then.
type cfgPool struct {
	dec   *jzon.DecoderConfig
	enc   *jzon.EncoderConfig
	nd    int
	ne    int
	decOp *jzon.DecoderOption
	encOp *jzon.EncoderOption
}

var rot cfgPool

func (p *cfgPool) D() *jzon.DecoderConfig {
	if p.dec == nil || p.nd >= 40 {
		p.dec, p.nd = jzon.NewDecoderConfig(p.decOp), 0
	}
	p.nd++
	return p.dec
}

func (p *cfgPool) E() *jzon.EncoderConfig {
	if p.enc == nil || p.ne >= 40 {
		p.enc, p.ne = jzon.NewEncoderConfig(p.encOp), 0
	}
	p.ne++
	return p.enc
}

// anyDecs are configurations with all combinations of the options (index bit 0
// is number mode); what tokens are read must not depend on them
var anyDecs = func() (out []*jzon.DecoderConfig) {
	for i := 0; i < 16; i++ {
		tag := ""
		if i&8 != 0 {
			tag = "jsom"
		}
		out = append(out, jzon.NewDecoderConfig(&jzon.DecoderOption{UseNumber: i&1 != 0, DisallowUnknownFields: i&2 != 0, CaseSensitive: i&4 != 0, Tag: tag, OnlyTaggedField: i&8 != 0}))
	}
	return
}()

var anyEncs = func() (out []*jzon.EncoderConfig) {
	for i := 0; i < 4; i++ {
		tag := ""
		if i&2 != 0 {
			tag = "jsom"
		}
		out = append(out, jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: i&1 != 0, Tag: tag, OnlyTaggedField: i&2 != 0}))
	}
	return
}()

// anyIter gives an iterator of some configuration and tells whether its
// number mode is on
func anyIter(r *Rand) (*jzon.Iterator, bool) {
	if r.P(40) {
		return jzon.NewIterator(), false
	}
	i := r.Intn(len(anyDecs))
	return anyDecs[i].NewIterator(), i&1 != 0
}

// floatIter is an iterator with number mode off
func floatIter(r *Rand) *jzon.Iterator {
	if r.P(40) {
		return jzon.NewIterator()
	}
	return anyDecs[r.Intn(len(anyDecs))&^1].NewIterator()
}

func anyEnc(r *Rand) *jzon.EncoderConfig {
	if r.P(40) {
		return jzon.DefaultEncoderConfig
	}
	return anyEncs[r.Intn(len(anyEncs))]
}

// laxText: the text holds a string which only Go's number parser takes for a
// number (such strings in numeric positions are outside the property)
func laxText(b []byte) bool {
	n := refDoc(b)
	if n == nil {
		return false
	}
	return laxNode(b, n)
}

func laxStr(s string, raw []byte) bool {
	if len(s) > 2 && s[0] == '"' && s[len(s)-1] == '"' && refDoc([]byte(s)) == nil {
		return true // a string quoted twice, which only Go's unquoting takes
	}
	if len(s) > 2 && s[0] == '"' && s[len(s)-1] == '"' { // a number quoted twice
		s = s[1 : len(s)-1]
	}
	_, e1 := strconv.ParseFloat(s, 64)
	_, e2 := strconv.ParseInt(s, 10, 64)
	_, e3 := strconv.ParseUint(s, 10, 64)
	num := func(e error) bool { // a number, maybe out of range
		ne, ok := e.(*strconv.NumError)
		return e == nil || ok && ne.Err == strconv.ErrRange
	}
	if !num(e1) && !num(e2) && !num(e3) && !(s != "" && (s[0] == '-' || s[0] >= '0' && s[0] <= '9')) {
		return false
	}
	return refNumber([]byte(s), 0) != len(s) || bytes.IndexByte(raw, '\\') >= 0
}

func laxNode(b []byte, n *Node) bool {
	switch n.K {
	case KStr:
		return laxStr(n.S, b[n.Start:n.End])
	case KArr:
		for _, e := range n.Elems {
			if laxNode(b, e) {
				return true
			}
		}
	case KObj:
		for i, e := range n.Elems {
			if laxNode(b, e) {
				return true
			}
			// the raw key is not kept: any escape counts
			if laxStr(n.Keys[i], b[n.Start:e.Start]) {
				return true
			}
		}
	}
	return false
}

// dupKeys: some object has two members which may go to the same field
func dupKeys(n *Node) bool {
	switch n.K {
	case KArr:
		for _, e := range n.Elems {
			if dupKeys(e) {
				return true
			}
		}
	case KObj:
		seen := map[string]bool{}
		for i, e := range n.Elems {
			f := foldName(n.Keys[i])
			if seen[f] || dupKeys(e) {
				return true
			}
			seen[f] = true
		}
	}
	return false
}

// typedRoute decodes text into the pointer dst
type typedRoute struct {
	name string
	f    func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error
}

var typedRoutes = []typedRoute{
	{"Unmarshal", func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error { return cfg.Unmarshal(b, dst) }},
	{"UnmarshalFromString", func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return cfg.UnmarshalFromString(string(b), dst)
	}},
	{"UnmarshalFromReader", func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		return cfg.UnmarshalFromReader(genReader(r, b), dst)
	}},
	{"Decoder", func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		d := cfg.NewDecoder(genReader(r, b))
		defer d.Release()
		if err := d.Decode(dst); err != nil {
			return err
		}
		var w interface{}
		if e := d.Decode(&w); e != io.EOF {
			return fmt.Errorf("data remains (%v)", e)
		}
		return nil
	}},
	{"Iterator.ReadVal", func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		it := cfg.NewIterator()
		defer it.Release()
		if r.Bool() {
			it.ResetBytes(b)
		} else {
			it.Reset(genReader(r, b))
		}
		if err := it.ReadVal(dst); err != nil {
			return err
		}
		return readEnd(it)
	}},
	{"Iterator.Unmarshal", func(cfg *jzon.DecoderConfig, b []byte, r *Rand, dst interface{}) error {
		it := cfg.NewIterator()
		defer it.Release()
		if r.Bool() {
			return it.Unmarshal(b, dst)
		}
		return it.UnmarshalFromReader(genReader(r, b), dst)
	}},
}

// genTyped picks a destination type
func genTyped(r *Rand) reflect.Type {
	if r.P(12) {
		return fixedTypes[r.Intn(len(fixedTypes))]
	}
	if r.P(6) {
		return hookTypes[r.Intn(len(hookTypes))]
	}
	if r.P(4) {
		return prTypes[r.Intn(len(prTypes))]
	}
	g := YG{R: r, Hooks: r.P(50), PR: r.P(30), Iface: r.P(50), Raw: r.P(50), Quoted: r.P(50), Embed: r.P(40), IfaceM: r.P(35)}
	d := r.Range(1, 3)
	if r.P(60) {
		return g.strct(d)
	}
	return g.typ(d)
}

func typedText(r *Rand, t reflect.Type, bad bool) []byte {
	var b []byte
	switch k := r.Intn(20); {
	case k < 6:
		b = textFor(r, t, 0, bad)
	case k < 15:
		b = textFor(r, t, r.Range(1, 8), bad)
	case k < 17:
		b = mutate(r, textFor(r, t, 3, bad))
	case k < 19:
		b = mutateTok(r, textFor(r, t, 3, bad))
	default:
		b = genText(r)
	}
	if r.P(12) {
		b = padText(r, b)
	}
	return b
}

// prefill gives equal contents for equal seeds
func prefill(v reflect.Value, seed uint64) {
	if seed == 0 {
		return
	}
	g := VG{R: newRand(seed), Prepop: true}
	g.fill(v)
}

// witnesses collects the maps and pointers which a destination holds before
// it is decoded into: what the caller sees through them afterwards is a part
// of the result
func witnesses(v reflect.Value, out []reflect.Value, d int) []reflect.Value {
	if d > 12 || len(out) > 60 {
		return out
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			out = append(out, v)
			out = witnesses(v.Elem(), out, d+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			out = witnesses(v.Elem(), out, d+1)
		}
	case reflect.Map:
		if !v.IsNil() {
			out = append(out, v)
			if v.Len() == 1 {
				it := v.MapRange()
				it.Next()
				out = witnesses(it.Value(), out, d+1)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out = witnesses(v.Field(i), out, d+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 8; i++ {
			out = witnesses(v.Index(i), out, d+1)
		}
	}
	return out
}

// holdMaps copies the map headers out of the destination
func holdMaps(w []reflect.Value) []reflect.Value {
	out := make([]reflect.Value, len(w))
	for i, v := range w {
		h := reflect.New(v.Type()).Elem()
		if v.CanInterface() {
			h.Set(v)
		} else {
			h.Set(reflect.NewAt(v.Type(), v.Addr().UnsafePointer()).Elem())
		}
		out[i] = h
	}
	return out
}

func collectWitnesses(root reflect.Value) []reflect.Value {
	var w []reflect.Value
	for _, v := range witnesses(root.Elem(), nil, 0) {
		if v.CanInterface() || v.CanAddr() {
			w = append(w, v)
		}
	}
	return holdMaps(w)
}

func judgeWitnesses(c *C, what string, t reflect.Type, text []byte, stdE error, a, b []reflect.Value) {
	if len(a) != len(b) {
		panic(harnessErr("%d witnesses versus %d of %s", len(a), len(b), typeStr(t)))
	}
	if stdE != nil || len(a) == 0 {
		return
	}
	for i := range a {
		if d := same(a[i], b[i], cmpOpt{canonB: !utf8.Valid(text)}); d != "" {
			if n := refDoc(text); n != nil && (dupKeys(n) && anySlice(t, 0, map[reflect.Type]bool{}) || laxText(text)) {
				c.Feat("duplicate member with slice skipped")
				return
			}
			c.Failf("%s into %s: what a %s held by the caller shows differs (encoding/json versus jzon) at %s\n input %s", what, typeStr(t), a[i].Type(), d, q(text))
		}
	}
	c.Feat("witnesses of earlier contents compared")
}

type twin struct {
	std, jz   reflect.Value // pointers
	stdE, jzE error
}

func stdDecode(b []byte, dst interface{}, useNumber, disallow bool) error {
	if !useNumber && !disallow {
		return json.Unmarshal(b, dst)
	}
	d := json.NewDecoder(bytes.NewReader(b))
	if useNumber {
		d.UseNumber()
	}
	if disallow {
		d.DisallowUnknownFields()
	}
	if err := d.Decode(dst); err != nil {
		return err
	}
	var w json.RawMessage
	if err := d.Decode(&w); err != io.EOF {
		return fmt.Errorf("more data")
	}
	return nil
}

// judgeTyped compares a decode with the expectation; a is what encoding/json
// made, b what jzon made (pointers)
func judgeTyped(c *C, what string, t reflect.Type, text []byte, stdE, jzE error, a, b reflect.Value) {
	if (stdE == nil) != (jzE == nil) {
		if stdE == nil && laxText(text) {
			c.Feat("lax number string skipped")
			return
		}
		c.Failf("%s into %s: encoding/json error: %v, jzon error: %v\n input %s\n encoding/json value %s\n jzon value %s", what, typeStr(t), stdE, jzE, q(text), show(a.Elem()), show(b.Elem()))
	}
	if stdE != nil {
		c.Feat("both refuse")
		return
	}
	c.Feat("both accept")
	if d := same(a, b, cmpOpt{canonB: !utf8.Valid(text)}); d != "" {
		if n := refDoc(text); n != nil && dupKeys(n) && anySlice(t, 0, map[reflect.Type]bool{}) {
			c.Feat("duplicate member with slice skipped")
			return
		}
		c.Failf("%s into %s differs (encoding/json versus jzon) at %s\n input %s", what, typeStr(t), d, q(text))
	}
}

func typeStr(t reflect.Type) string { return clip(t.String(), 700) }

// anySlice: decoding a member twice may legally differ
func anySlice(t reflect.Type, d int, seen map[reflect.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.Kind() {
	case reflect.Slice:
		return true
	case reflect.Ptr, reflect.Array, reflect.Map:
		return anySlice(t.Elem(), d+1, seen)
	case reflect.Interface:
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if anySlice(t.Field(i).Type, d+1, seen) {
				return true
			}
		}
	}
	return false
}

func typedFeats(c *C, t reflect.Type) {
	switch t.Kind() {
	case reflect.Struct:
		n := t.NumField()
		switch {
		case n == 0:
			c.Feat("struct 0")
		case n == 1:
			c.Feat("struct 1")
		case n <= 10:
			c.Feat("struct small")
		default:
			c.Feat("struct large")
		}
		if strings.Contains(t.String(), ",string") {
			c.Feat("string option")
		}
	default:
		c.Feat("root " + t.Kind().String())
	}
}

func engTyped(c *C) {
	r := c.R
	t := genTyped(r)
	typedFeats(c, t)
	cfg := rot.D()
	for i := 0; i < 4; i++ {
		bad := r.P(8)
		text := typedText(r, t, bad)
		c.NoteB("typed decode into "+typeStr(t)+" of ", text)
		seed := uint64(0)
		if r.P(50) {
			seed = r.U64() | 1
			c.Feat("populated destination")
		}
		std, jz := reflect.New(t), reflect.New(t)
		prefill(std.Elem(), seed)
		prefill(jz.Elem(), seed)
		stdW, jzW := collectWitnesses(std), collectWitnesses(jz)
		stdE := stdDecode(text, std.Interface(), false, false)
		rt := typedRoutes[0]
		if r.P(50) {
			rt = typedRoutes[r.Intn(len(typedRoutes))]
		}
		// root shapes
		dst := jz.Interface()
		switch r.Intn(12) {
		case 0: // pointer to the pointer
			p := reflect.New(jz.Type())
			p.Elem().Set(jz)
			if stdE == nil && string(bytes.TrimSpace(text)) != "null" {
				dst = p.Interface()
			}
		case 1: // pointer in an interface
			var x interface{} = jz.Interface()
			if string(bytes.TrimSpace(text)) != "null" {
				dst = &x
			}
		}
		in := append([]byte(nil), text...)
		jzE := rt.f(cfg, in, r.Fork(), dst)
		judgeTyped(c, rt.name, t, text, stdE, jzE, std, jz)
		judgeWitnesses(c, rt.name, t, text, stdE, stdW, jzW)
		if !bytes.Equal(in, text) {
			c.Failf("%s changed its input", rt.name)
		}
		c.Seen(mix(hash64(text), hashStr(t.String())), len(text) > 1)
		c.Sample("%s into %s: error %v", q(text), typeStr(t), stdE != nil)
	}
}

// ---- sequences into the same destination ----

// engTypedSeq decodes several texts one after the other into the same
// destination: what an earlier decode left is the initial content of the next
func engTypedSeq(c *C) {
	r := c.R
	t := genTyped(r)
	if hasSlice(t, 0) || anySlice(t, 0, map[reflect.Type]bool{}) {
		// slices are never reused
		t = []reflect.Type{tOf(RList{}), tOf(EInner{}), tOf(NMap{}), tOf(map[string]*EInner{}), tOf([3]*EInner{}), tOf(map[string]map[string]int{}), tOf(struct {
			P **EInner
			M map[int]EInner
			A [2]map[string]*RList
		}{}), tOf(map[TStruct]TInt{}), tOf([2][2]int{})}[r.Intn(9)]
	}
	cfg := rot.D()
	std, jz := reflect.New(t), reflect.New(t)
	for i := 0; i < 4; i++ {
		text := textFor(r, t, r.Intn(3), false)
		if laxText(text) {
			continue
		}
		c.NoteB("sequence step into "+typeStr(t)+" of ", text)
		stdW, jzW := collectWitnesses(std), collectWitnesses(jz)
		stdE := json.Unmarshal(text, std.Interface())
		jzE := cfg.Unmarshal(text, jz.Interface())
		judgeTyped(c, fmt.Sprintf("step %d of a sequence", i), t, text, stdE, jzE, std, jz)
		judgeWitnesses(c, fmt.Sprintf("step %d of a sequence", i), t, text, stdE, stdW, jzW)
		c.Seen(mix(mix(hash64(text), hashStr(t.String())), uint64(i)), len(text) > 1)
		if stdE != nil {
			return // contents are not specified any more
		}
	}
	c.Feat("sequence completed")
}

func init() {
	reg("typed", engTyped, "witnesses of earlier contents compared", "both accept", "both refuse", "populated destination", "struct 1", "struct small", "struct large", "string option", "root map", "root slice", "root array", "root ptr")
	reg("typed-seq", engTypedSeq, "sequence completed")
}
