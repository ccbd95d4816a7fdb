package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"

	"github.com/zerosnake0/jzon"
)

// src is an input of an iterator whose position can be observed from outside
type src struct {
	text []byte
	rd   *chunkReader
}

func openSrc(it *jzon.Iterator, text []byte, r *Rand, viaReader bool) *src {
	s := &src{text: text}
	if viaReader {
		s.rd = genReader(r, text)
		it.Reset(s.rd)
	} else {
		it.ResetBytes(text)
	}
	return s
}

// pos is the number of bytes consumed
func (s *src) pos(it *jzon.Iterator) int {
	if s.rd != nil {
		return s.rd.pos - len(it.Buffer())
	}
	return len(s.text) - len(it.Buffer())
}

// rest is what has not been consumed
func (s *src) rest(it *jzon.Iterator) []byte {
	b := append([]byte(nil), it.Buffer()...)
	if s.rd != nil {
		b = append(b, s.text[s.rd.pos:]...)
	}
	return b
}

func judgeValid(c *C, b []byte) bool {
	want := refDoc(b) != nil
	if nodeDepth(b) < 9990 && json.Valid(b) != want {
		panic(harnessErr("oracles disagree on validity of %q", b))
	}
	c.NoteB("Valid: ", b)
	if got := jzon.Valid(b); got != want {
		c.Failf("Valid(%s) = %v, expected %v", q(b), got, want)
	}
	return want
}

type skipOp struct {
	name string
	kind Kind
	any  bool
	raw  bool
	f    func(it *jzon.Iterator) ([]byte, error)
}

var skipOps = []skipOp{
	{"Skip", 0, true, false, func(it *jzon.Iterator) ([]byte, error) { return nil, it.Skip() }},
	{"SkipString", KStr, false, false, func(it *jzon.Iterator) ([]byte, error) { return nil, it.SkipString() }},
	{"SkipNumber", KNum, false, false, func(it *jzon.Iterator) ([]byte, error) { return nil, it.SkipNumber() }},
	{"SkipArray", KArr, false, false, func(it *jzon.Iterator) ([]byte, error) { return nil, it.SkipArray() }},
	{"SkipObject", KObj, false, false, func(it *jzon.Iterator) ([]byte, error) { return nil, it.SkipObject() }},
	{"SkipRaw", 0, true, true, func(it *jzon.Iterator) ([]byte, error) { return it.SkipRaw() }},
	{"ReadRaw", 0, true, true, func(it *jzon.Iterator) ([]byte, error) { return it.ReadRaw() }},
	{"AppendRaw", 0, true, true, func(it *jzon.Iterator) ([]byte, error) {
		b, err := it.AppendRaw([]byte("pre"))
		if err != nil {
			return nil, err
		}
		if !bytes.HasPrefix(b, []byte("pre")) {
			return nil, fmt.Errorf("prefix lost: %q", b)
		}
		return b[3:], nil
	}},
	{"ReadVal(*RawMessage)", 0, true, true, func(it *jzon.Iterator) ([]byte, error) {
		m := json.RawMessage("old contents")
		err := it.ReadVal(&m)
		return m, err
	}},
}

// skipAt applies op at the current position and judges result and position
func skipAt(c *C, it *jzon.Iterator, s *src, op skipOp) bool {
	at := s.pos(it)
	n := refPrefix(s.text, at)
	raw, err := op.f(it)
	want := n != nil && (op.any || n.K == op.kind)
	if (err == nil) != want {
		c.Failf("%s at offset %d of %s: error %v, expected success %v", op.name, at, q(s.text), err, want)
	}
	if !want {
		c.Feat("skip rejected")
		return false
	}
	c.Feat(op.name + " " + n.K.String())
	if p := s.pos(it); p != n.End {
		c.Failf("%s at offset %d of %s ends at %d, the value ends at %d", op.name, at, q(s.text), p, n.End)
	}
	if r := s.rest(it); !bytes.Equal(r, s.text[n.End:]) {
		c.Failf("%s at offset %d of %s leaves %s, expected %s", op.name, at, q(s.text), q(r), q(s.text[n.End:]))
	}
	if op.raw && !bytes.Equal(raw, s.text[n.Start:n.End]) {
		c.Failf("%s at offset %d of %s gives %s, expected %s", op.name, at, q(s.text), q(raw), q(s.text[n.Start:n.End]))
	}
	return true
}

// valueTexts concatenates a few values so that every start position matters
func valueTexts(r *Rand) []byte {
	var b []byte
	for n := r.Range(1, 4); n > 0; n-- {
		switch r.Intn(8) {
		case 0:
			b = append(b, genNumberLit(r, true)...)
		case 1:
			b = append(b, genStringLit(r, true)...)
		case 2:
			b = append(b, genDeep(r, 140)...)
		case 3:
			b = append(b, genText(r)...)
		case 4:
			b = append(b, genNumberLike(r)...)
		case 5:
			b = append(b, genStringLike(r)...)
		default:
			b = append(b, genValid(r, true)...)
		}
		if r.P(60) {
			b = append(b, " \n\t\r"[r.Intn(4)])
		} else if r.P(30) {
			b = append(b, ",]}:x"[r.Intn(5)])
		}
	}
	if r.P(20) {
		b = padText(r, b)
	}
	return b
}

func engSkip(c *C) {
	for k := 0; k < 12; k++ {
		b := valueTexts(c.R)
		orig := string(b)
		via := c.R.Bool()
		it, _ := anyIter(c.R)
		s := openSrc(it, b, c.R, via)
		c.FeatIf(via, "via reader")
		c.NoteB(fmt.Sprintf("skip reader=%v %v: ", via, s.rd), b)
		steps := 0
		for {
			op := skipOps[c.R.Intn(len(skipOps))]
			if c.R.P(50) {
				op = skipOps[[]int{0, 5, 6}[c.R.Intn(3)]]
			} else if c.R.P(60) { // the matching restricted one
				if n := refPrefix(b, s.pos(it)); n != nil {
					for _, o := range skipOps {
						if !o.any && o.kind == n.K {
							op = o
						}
					}
				}
			}
			if !skipAt(c, it, s, op) {
				break
			}
			steps++
		}
		it.Release()
		if string(b) != orig {
			c.Failf("skipping modified the input %s", q([]byte(orig)))
		}
		c.FeatIf(steps > 1, "several values skipped in a row")
		c.SeenB(b, len(b) > 1)
		c.Sample("%s: %d values skipped, reader=%v", q(b), steps, via)
	}
}

func engValid(c *C) {
	it, _ := anyIter(c.R)
	defer it.Release()
	for k := 0; k < 40; k++ {
		b := genText(c.R)
		ok := judgeValid(c, b)
		if it.Valid(b) != ok {
			c.Failf("Iterator.Valid(%s) = %v", q(b), !ok)
		}
		untypedFeats(c, b, ok)
		c.SeenB(b, len(b) > 1)
		if c.R.P(2) {
			b = bigText(c.R)
			if c.R.P(30) {
				b = mutate(c.R, b)
			}
			judgeValid(c, b)
			c.SeenB(b, true)
		}
	}
}

func engValidEx(c *C) {
	exRange(c, func(b []byte) {
		if judgeValid(c, b) {
			c.Feat("accepted")
		} else {
			c.Feat("rejected")
		}
		c.SeenB(b, true)
		it, _ := anyIter(c.R)
		s := &src{text: b, rd: &chunkReader{data: b, sizes: []int{1}}}
		it.Reset(s.rd)
		for skipAt(c, it, s, skipOps[c.R.Intn(len(skipOps))]) {
		}
		it.Release()
	})
}

type skipMember struct {
	A int `json:"a"`
}
type skipMember2 struct {
	A int    `json:"a"`
	B string `json:"b"`
}
type skipMember12 struct {
	A                                  int `json:"a"`
	F1, F2, F3, F4, F5, F6, F7, F8, F9 int
	G1, G2                             bool
}
type rawHolder struct {
	A int             `json:"a"`
	R json.RawMessage `json:"r"`
	Z int             `json:"z"`
}
type rawEcho struct {
	got []byte
}

func (e *rawEcho) UnmarshalJSON(b []byte) error {
	e.got = append([]byte(nil), b...)
	return nil
}

type ignoredCtx struct {
	name      string
	pre, post string
	// f returns the raw bytes captured for the inner text, or nil
	f func(decode func(dst interface{}) error) (raw []byte, err error)
}

var ignoredCtxs = []ignoredCtx{
	{"unknown member, one field", `{"zz":`, `,"a":7}`, func(d func(interface{}) error) ([]byte, error) {
		var x skipMember
		err := d(&x)
		if err == nil && x.A != 7 {
			err = fmt.Errorf("a lost: %+v", x)
		}
		return nil, err
	}},
	{"unknown member, two fields", `{"a":7,"zz":`, `,"b":"s"}`, func(d func(interface{}) error) ([]byte, error) {
		var x skipMember2
		err := d(&x)
		if err == nil && (x.A != 7 || x.B != "s") {
			err = fmt.Errorf("fields lost: %+v", x)
		}
		return nil, err
	}},
	{"unknown member, many fields", `{"zz":`, `,"a":7}`, func(d func(interface{}) error) ([]byte, error) {
		var x skipMember12
		err := d(&x)
		if err == nil && x.A != 7 {
			err = fmt.Errorf("a lost: %+v", x)
		}
		return nil, err
	}},
	{"struct without fields", `{"zz":`, `}`, func(d func(interface{}) error) ([]byte, error) {
		var x struct{}
		return nil, d(&x)
	}},
	{"extra array element", `[1,2,`, `]`, func(d func(interface{}) error) ([]byte, error) {
		var x [2]int
		err := d(&x)
		if err == nil && x != [2]int{1, 2} {
			err = fmt.Errorf("array %v", x)
		}
		return nil, err
	}},
	{"empty array type", `[`, `]`, func(d func(interface{}) error) ([]byte, error) {
		var x [0]int
		return nil, d(&x)
	}},
	{"raw field", `{"a":1,"r":`, `,"z":2}`, func(d func(interface{}) error) ([]byte, error) {
		var x rawHolder
		err := d(&x)
		if err == nil && (x.A != 1 || x.Z != 2) {
			err = fmt.Errorf("fields lost: %+v", x)
		}
		return x.R, err
	}},
	{"raw element", `[`, `,"t"]`, func(d func(interface{}) error) ([]byte, error) {
		var x []json.RawMessage
		err := d(&x)
		if err != nil {
			return nil, err
		}
		if len(x) != 2 || string(x[1]) != `"t"` {
			return nil, fmt.Errorf("elements %q", x)
		}
		return x[0], err
	}},
	{"raw map value", `{"k":`, `}`, func(d func(interface{}) error) ([]byte, error) {
		var x map[string]json.RawMessage
		err := d(&x)
		return x["k"], err
	}},
	{"unmarshaler", `[[`, `]]`, func(d func(interface{}) error) ([]byte, error) {
		var x [][]rawEcho
		err := d(&x)
		if err != nil {
			return nil, err
		}
		if len(x) != 1 || len(x[0]) != 1 {
			return nil, fmt.Errorf("elements %v", x)
		}
		return x[0][0].got, err
	}},
}

// ignored: content that is skipped or captured by typed decoding is held to
// the grammar and captured exactly
func engIgnored(c *C) {
	for k := 0; k < 15; k++ {
		t := genText(c.R)
		if c.R.P(30) {
			t = valueTexts(c.R)
		}
		ctx := ignoredCtxs[c.R.Intn(len(ignoredCtxs))]
		b := append(append([]byte(ctx.pre), t...), ctx.post...)
		n := refPrefix(t, 0)
		single := n != nil && skipWS(t, n.End) == len(t)
		via := c.R.Bool()
		c.NoteB(fmt.Sprintf("%s reader=%v: ", ctx.name, via), b)
		raw, err := ctx.f(func(dst interface{}) error {
			if !via {
				return jzon.Unmarshal(b, dst)
			}
			return jzon.UnmarshalFromReader(genReader(c.R, b), dst)
		})
		c.SeenB(b, true)
		if single {
			if err != nil {
				c.Failf("%s: rejects %s: %v", ctx.name, q(b), err)
			}
			if raw != nil && !bytes.Equal(raw, t[n.Start:n.End]) {
				c.Failf("%s: captured %s, expected %s", ctx.name, q(raw), q(t[n.Start:n.End]))
			}
			c.Feat(ctx.name)
			c.FeatIf(via, "via reader")
		} else if err == nil && refDoc(b) == nil {
			c.Failf("%s: accepts %s", ctx.name, q(b))
		} else {
			c.Feat("ignored content rejected or split")
		}
	}
}

// skip-kinds: a reader error in the middle of a skipped value is reported
func engSkipEOF(c *C) {
	b := genValid(c.R, false)
	if c.R.P(30) {
		b = genDeep(c.R, 80)
	}
	n := refDoc(b)
	for k := 0; k < 12; k++ {
		cut := c.R.Intn(len(b) + 1)
		t := b[:cut]
		m := refPrefix(t, 0)
		for _, op := range skipOps {
			if !op.any && op.kind != n.K {
				continue
			}
			it, _ := anyIter(c.R)
			rd := genReader(c.R, t)
			fault := ioFault(c.R)
			rd.err = fault
			it.Reset(rd)
			c.NoteB(fmt.Sprintf("%s cut at %d: ", op.name, cut), t)
			_, err := op.f(it)
			switch {
			case m == nil || (m.K == KNum && m.End == len(t)):
				if err != fault {
					// a malformed prefix is impossible here: t is a prefix of a document
					c.Failf("%s on %s followed by an I/O error returns %v", op.name, q(t), err)
				}
				c.Feat("fault reported")
			case err != nil:
				c.Failf("%s on %s, complete before the I/O error, returns %v", op.name, q(t), err)
			default:
				c.Feat("complete before the fault")
			}
			it.Release()
		}
		c.SeenB(t, cut > 0)
	}
}

var _ = io.EOF
var _ = reflect.TypeOf

func init() {
	reg("skip", engSkip, "skip rejected", "via reader", "several values skipped in a row", "SkipRaw object", "SkipNumber number")
	reg("valid", engValid, "accepted", "rejected", "depth>=64")
	reg("valid-exhaustive", engValidEx, "accepted", "rejected")
	reg("ignored", engIgnored, "unmarshaler", "raw field", "extra array element", "ignored content rejected or split")
	reg("skip-fault", engSkipEOF, "fault reported", "complete before the fault")
}
