package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"

	"github.com/zerosnake0/jzon"
)

// rtType generates types whose values survive encoding
func rtType(r *Rand) reflect.Type {
	if r.P(10) {
		return fixedTypes[r.Intn(len(fixedTypes))]
	}
	g := YG{R: r, Quoted: r.P(40), Embed: r.P(30), NoNum: true, Iface: r.P(40)}
	if r.P(60) {
		return g.strct(r.Range(1, 3))
	}
	return g.typ(r.Range(1, 4))
}

type rtEnc struct {
	name string
	f    func(cfg *jzon.EncoderConfig, v interface{}) ([]byte, error)
}

var rtEncs = []rtEnc{
	{"Marshal", func(cfg *jzon.EncoderConfig, v interface{}) ([]byte, error) { return cfg.Marshal(v) }},
	{"Encoder", func(cfg *jzon.EncoderConfig, v interface{}) ([]byte, error) {
		var w bytes.Buffer
		e := cfg.NewEncoder(&w)
		defer e.Release()
		e.SetEscapeHTML(false)
		err := e.Encode(v)
		return w.Bytes(), err
	}},
	{"Streamer", func(cfg *jzon.EncoderConfig, v interface{}) ([]byte, error) {
		var w bytes.Buffer
		s := cfg.NewStreamer()
		defer s.Release()
		s.Reset(&w)
		err := s.Value(v).Flush()
		return w.Bytes(), err
	}},
}

func engRound(c *C) {
	r := c.R
	t := rtType(r)
	ec, dc := rot.E(), rot.D()
	for i := 0; i < 3; i++ {
		g := VG{R: r, RT: true, noBF: true}
		if r.P(20) {
			g.noBF = false
		}
		v := reflect.New(t)
		g.fill(v.Elem())
		var root interface{} = v.Elem().Interface()
		if r.Bool() {
			root = v.Interface()
		}
		c.Note("round trip of %s %s", typeStr(t), clip(fmt.Sprintf("%+v", v.Elem()), 1500))
		desc := func() string { return typeStr(t) + " " + clip(fmt.Sprintf("%+v", v.Elem()), 600) }
		en := rtEncs[r.Intn(len(rtEncs))]
		jt, err := en.f(ec, root)
		if err != nil {
			c.Failf("%s fails: %v\n value %s", en.name, err, desc())
		}
		st, err := json.Marshal(root)
		if err != nil {
			panic(harnessErr("json.Marshal of %s: %v", desc(), err))
		}
		// what is expected back: what encoding/json makes of its own text;
		// the same as the value itself except for unexported, ambiguous,
		// ignored and omitted parts
		want := reflect.New(t)
		if err := json.Unmarshal(st, want.Interface()); err != nil {
			panic(harnessErr("json round trip of %s (%s): %v", desc(), st, err))
		}
		lossless := same(v, want, cmpOpt{}) == ""
		if lossless {
			c.Feat("value equal to the original")
		}
		dr := typedRoutes[r.Intn(len(typedRoutes))]
		back := reflect.New(t)
		if err := dr.f(dc, jt, r.Fork(), back.Interface()); err != nil {
			c.Failf("%s refuses the text of %s: %v\n text %s\n value %s", dr.name, en.name, err, q(jt), desc())
		}
		if d := same(want, back, cmpOpt{}); d != "" {
			c.Failf("%s then %s: expected versus got differ at %s\n text %s\n value %s", en.name, dr.name, d, q(jt), desc())
		}
		// across libraries
		x := reflect.New(t)
		if err := json.Unmarshal(jt, x.Interface()); err != nil {
			c.Failf("encoding/json refuses the text of %s: %v\n text %s\n value %s", en.name, err, q(jt), desc())
		}
		if d := same(want, x, cmpOpt{}); d != "" {
			c.Failf("encoding/json reads the text of %s differently: %s\n text %s\n value %s", en.name, d, q(jt), desc())
		}
		y := reflect.New(t)
		if err := dr.f(dc, st, r.Fork(), y.Interface()); err != nil {
			c.Failf("%s refuses the text of encoding/json: %v\n text %s", dr.name, err, q(st))
		}
		if d := same(want, y, cmpOpt{}); d != "" {
			c.Failf("%s reads the text of encoding/json differently: %s\n text %s\n value %s", dr.name, d, q(st), desc())
		}
		// encoding the decoded value again: the same document
		again, err := en.f(ec, back.Interface())
		if err != nil {
			c.Failf("encoding the decoded value again: %v\n value %s", err, desc())
		}
		if !bytes.Equal(again, jt) {
			// a pointer to null comes back as nil, and may be omitted then
			st2, err := stdEncode(want.Interface(), en.name != "Encoder")
			if err != nil {
				panic(harnessErr("json.Marshal of %s: %v", desc(), err))
			}
			a, ok1 := canonDoc(normEsc(st2))
			b, ok2 := canonDoc(normEsc(again))
			if !ok1 || !ok2 || !bytes.Equal(a, b) {
				c.Failf("encoding, decoding and encoding again changes\n %s to\n %s\n expected\n %s\n value %s", q(jt), q(again), q(st2), desc())
			}
			c.Feat("same up to map order")
		} else {
			c.Feat("same text again")
		}
		// the original is not touched by encoding, nor the result by encoding it
		if d := same(want, back, cmpOpt{}); d != "" {
			c.Failf("encoding changed the value it was given at %s", d)
		}
		c.Seen(mix(hash64(st), hashStr(t.String())), len(st) > 4)
		c.Sample("%s -> %s", typeStr(t), q(jt))
	}
}

// round-untyped: trees
func engRoundTree(c *C) {
	r := c.R
	for i := 0; i < 5; i++ {
		g := VG{R: r, RT: true}
		var v interface{} = g.tree(0)
		if r.P(10) {
			a := []interface{}{}
			for j := r.Range(10, 200); j > 0; j-- {
				a = append(a, g.tree(2))
			}
			v = a
		}
		c.Note("round trip of %s", clip(fmt.Sprintf("%#v", v), 1500))
		en := rtEncs[r.Intn(len(rtEncs))]
		b, err := en.f(jzon.DefaultEncoderConfig, v)
		if err != nil {
			c.Failf("%s: %v of %#v", en.name, err, v)
		}
		rt := untypedRoutes[r.Intn(8)]
		w, err := rt.f(b, r, false)
		if err != nil {
			c.Failf("%s refuses %s: %v", rt.name, q(b), err)
		}
		if d := sameI(v, w, cmpOpt{}); d != "" {
			c.Failf("tree differs at %s: text %s", d, q(b))
		}
		var x interface{}
		if err := json.Unmarshal(b, &x); err != nil {
			c.Failf("encoding/json refuses %s: %v", q(b), err)
		}
		if d := sameI(v, x, cmpOpt{}); d != "" {
			c.Failf("encoding/json reads %s differently: %s", q(b), d)
		}
		c.SeenB(b, len(b) > 4)
		c.Feat("tree")
	}
}

func init() {
	reg("round", engRound, "value equal to the original", "same up to map order")
	reg("round-tree", engRoundTree, "tree")
	prop(&Prop{ID: "C08", Level: "exploration",
		Rule:        "each case is a generated type and value (or untyped tree) encoded by jzon and by encoding/json; both texts are decoded by both libraries into fresh destinations, the results compared bit by bit with each other and the decoded value encoded again; a case is a distinct (type, document)",
		Assumptions: []string{"what a value decodes back to is what encoding/json makes of its own output (equal to the original except for ignored, ambiguous and omitted parts)"},
		Variants:    plain(Run{"round", 150000, 4000000}, Run{"round-tree", 60000, 1500000}, Run{"large-round", 4000, 120000}),
	})
}
