package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"

	"github.com/zerosnake0/jzon"
)

// normEsc spells the escapes of backspace and form feed in one way
func normEsc(b []byte) []byte {
	if bytes.IndexByte(b, '\\') < 0 {
		return b
	}
	out := make([]byte, 0, len(b)+16)
	for i := 0; i < len(b); i++ {
		if b[i] != '\\' || i+1 >= len(b) {
			out = append(out, b[i])
			continue
		}
		switch b[i+1] {
		case 'b':
			out = append(out, `\u0008`...)
		case 'f':
			out = append(out, `\u000c`...)
		default:
			out = append(out, b[i], b[i+1])
		}
		i++
	}
	return out
}

// canonDoc sorts the members of all objects; raw spelling of scalars and keys
// is kept
func canonDoc(b []byte) ([]byte, bool) {
	n := refDoc(b)
	if n == nil {
		return nil, false
	}
	return canonNode(nil, b, n), true
}

func canonNode(out, b []byte, n *Node) []byte {
	switch n.K {
	case KArr:
		out = append(out, '[')
		for i, e := range n.Elems {
			if i > 0 {
				out = append(out, ',')
			}
			out = canonNode(out, b, e)
		}
		return append(out, ']')
	case KObj:
		ms := make([]string, len(n.Elems))
		p := n.Start + 1
		for i, e := range n.Elems {
			k := b[p:e.Start] // `,"key":` with everything between
			ms[i] = string(canonNode(append([]byte(nil), bytes.Trim(k, ", \t\r\n")...), b, e))
			p = e.End
		}
		sort.Strings(ms)
		out = append(out, '{')
		for i, m := range ms {
			if i > 0 {
				out = append(out, ',')
			}
			out = append(out, m...)
		}
		return append(out, '}')
	}
	return append(out, b[n.Start:n.End]...)
}

type encRoute struct {
	name string
	f    func(cfg *jzon.EncoderConfig, v interface{}, html bool) ([]byte, error)
	both bool // can switch HTML escaping off
}

var encRoutes = []encRoute{
	{"Marshal", func(cfg *jzon.EncoderConfig, v interface{}, html bool) ([]byte, error) { return cfg.Marshal(v) }, false},
	{"Encoder", func(cfg *jzon.EncoderConfig, v interface{}, html bool) ([]byte, error) {
		var w bytes.Buffer
		e := cfg.NewEncoder(&w)
		defer e.Release()
		e.SetEscapeHTML(html)
		if err := e.Encode(v); err != nil {
			return nil, err
		}
		b := w.Bytes()
		if len(b) == 0 || b[len(b)-1] != '\n' {
			return nil, fmt.Errorf("no newline behind %q", b)
		}
		return b[:len(b)-1], nil
	}, true},
	{"Encoder second value", func(cfg *jzon.EncoderConfig, v interface{}, html bool) ([]byte, error) {
		var w bytes.Buffer
		e := cfg.NewEncoder(&w)
		defer e.Release()
		e.SetEscapeHTML(html)
		if err := e.Encode([]interface{}{1, "<>", map[string]int{"a": 1}}); err != nil {
			return nil, err
		}
		n := w.Len()
		if err := e.Encode(v); err != nil {
			return nil, err
		}
		b := w.Bytes()[n:]
		if len(b) == 0 || b[len(b)-1] != '\n' {
			return nil, fmt.Errorf("no newline behind %q", b)
		}
		return b[:len(b)-1], nil
	}, true},
	{"Streamer", func(cfg *jzon.EncoderConfig, v interface{}, html bool) ([]byte, error) {
		var w bytes.Buffer
		s := cfg.NewStreamer()
		defer s.Release()
		s.Reset(&w)
		s.EscapeHTML(html)
		s.Value(v)
		if err := s.Flush(); err != nil {
			return nil, err
		}
		return w.Bytes(), nil
	}, true},
	{"Streamer in array", func(cfg *jzon.EncoderConfig, v interface{}, html bool) ([]byte, error) {
		var w bytes.Buffer
		s := cfg.NewStreamer()
		defer s.Release()
		s.Reset(&w)
		s.EscapeHTML(html)
		s.ArrayStart().Value(v).Value(v).ArrayEnd()
		if err := s.Flush(); err != nil {
			return nil, err
		}
		b := w.Bytes()
		if len(b) < 3 || b[0] != '[' || b[len(b)-1] != ']' {
			return nil, fmt.Errorf("array wrong: %q", b)
		}
		n := refDoc(b)
		if n == nil || len(n.Elems) != 2 {
			return nil, fmt.Errorf("array wrong: %q", b)
		}
		// order of map entries may differ between the two
		return b[n.Elems[0].Start:n.Elems[0].End], nil
	}, true},
}

func stdEncode(v interface{}, html bool) ([]byte, error) {
	var w bytes.Buffer
	e := json.NewEncoder(&w)
	e.SetEscapeHTML(html)
	if err := e.Encode(v); err != nil {
		return nil, err
	}
	b := w.Bytes()
	return b[:len(b)-1], nil
}

// judgeEnc compares two outputs; exact is false when maps with several
// entries are involved
func judgeEnc(c *C, what string, desc func() string, exact bool, a []byte, aErr error, b []byte, bErr error) {
	if (aErr == nil) != (bErr == nil) {
		c.Failf("%s: encoding/json error: %v, jzon error: %v\n encoding/json %s\n jzon %s\n value %s", what, aErr, bErr, q(a), q(b), desc())
	}
	if aErr != nil {
		c.Feat("both refuse")
		return
	}
	c.Feat("both accept")
	a, b = normEsc(a), normEsc(b)
	if bytes.Equal(a, b) {
		return
	}
	if refDoc(b) == nil {
		c.Failf("%s writes invalid JSON %s\n expected %s\n value %s", what, q(b), q(a), desc())
	}
	if !exact && len(a) == len(b) {
		x, ok1 := canonDoc(a)
		y, ok2 := canonDoc(b)
		if ok1 && ok2 && bytes.Equal(x, y) {
			c.Feat("equal up to map order")
			return
		}
	}
	c.Failf("%s differs\n expected %s\n got      %s\n value %s", what, q(a), q(b), desc())
}

// special values which the generator does not reach
type ptrKeyMap map[*TStruct]int

type encIfaces struct {
	A MarshalerX
	B json.Marshaler
	C Shaper
	D interface{ MarshalText() ([]byte, error) }
	E MarshalerX     `json:",omitempty"`
	F json.Marshaler `json:",omitempty"`
}

type OmitAll struct {
	A bool            `json:",omitempty"`
	B int8            `json:",omitempty"`
	C uint64          `json:",omitempty"`
	D float32         `json:",omitempty"`
	E string          `json:",omitempty"`
	F []int           `json:",omitempty"`
	G map[string]int  `json:",omitempty"`
	H *int            `json:",omitempty"`
	I interface{}     `json:",omitempty"`
	J [0]int          `json:",omitempty"`
	K [2]int          `json:",omitempty"`
	L struct{}        `json:",omitempty"`
	M EInner          `json:",omitempty"`
	N json.Number     `json:",omitempty"`
	O json.RawMessage `json:",omitempty"`
	P []byte          `json:",omitempty"`
	Q JMap            `json:",omitempty"`
	R JSlice          `json:",omitempty"`
	S JInt            `json:",omitempty"`
	T TStr            `json:",omitempty"`
	U *PJ             `json:",omitempty"`
	V JPtrShape       `json:",omitempty"`
	W Shaper          `json:",omitempty"`
	X NFloat          `json:",omitempty"`
	Y map[string]int  `json:"y,omitempty"`
	Z *[]int          `json:",omitempty"`
}

type QuotedAll struct {
	A bool            `json:",string"`
	B int             `json:",string"`
	C uint8           `json:",string,omitempty"`
	D float64         `json:",string"`
	E string          `json:",string"`
	F *int            `json:",string"`
	G *string         `json:",string"`
	H []int           `json:",string"`
	I interface{}     `json:",string"`
	J json.Number     `json:",string"`
	K NStr            `json:",string"`
	L **int           `json:",string"`
	M float32         `json:",omitempty,string"`
	N map[int]int     `json:",string"`
	O NBool           `json:",string"`
	P uintptr         `json:",string"`
	Q int64           `json:"<q>,string"`
	R struct{ A int } `json:",string"`
	S *bool           `json:",string"`
	T *float32        `json:",string"`
}

var encTypes = []reflect.Type{tOf(OmitAll{}), tOf(QuotedAll{}), tOf(encIfaces{}), tOf(ptrKeyMap{}), tOf([]Shaper{}), tOf([]json.Marshaler{}), tOf(map[string]Shaper{}), tOf([]interface{}{}), tOf(map[string]interface{}{}),
	tOf([1]*int{}), tOf([1]map[string]int{}), tOf(struct{ P *int }{}), tOf(struct{ A [1]struct{ B *EInner } }{}), tOf([1][1]*RTree{}), tOf(map[string][1]*int{}), tOf([]struct{ P *int }{}), tOf(map[int]struct{ M map[string]int }{}),
	tOf((***int)(nil)), tOf([]*[]*[]int{}), tOf(map[TStr]TStr{}), tOf(map[JT]JT{}), tOf(map[TInt]string{}), tOf(map[NStr]*TStr{}), tOf([]*TStr{}), tOf([]*JInt{}), tOf([]*JPtrShape{}), tOf([2]TPtrShape{}), tOf([1]TPtrShape{}), tOf([1]JPtrShape{}), tOf(struct{ J JPtrShape }{}), tOf(struct {
		J JPtrShape `json:",omitempty"`
	}{})}

const supportedOdd = 8 // the first ones are supported after all

var unsupported = []interface{}{struct{ c chan int }{}, struct {
	C chan int `json:"-"`
}{}, struct{ p *int }{}, struct{ p *int }{new(int)}, &struct{ p *int }{}, []struct{ p *int }{{}}, struct{ A struct{ m map[string]int } }{}, (*struct{ p *int })(nil), make(chan int), (chan int)(nil), func() {}, complex(1, 2), complex64(1), map[bool]int{}, map[float64]int{}, map[float64]int{1: 1}, map[[2]int]int{}, map[interface{}]int{}, map[struct{ A int }]int{}, []chan int{nil}, []chan int{}, []func(){},
	struct{ C chan int }{}, struct {
		F func() `json:",omitempty"`
	}{}, &struct{ F func() }{}, (*chan int)(nil), (*func())(nil), map[string]chan int{}, map[string]chan int{"a": nil}, map[string]chan int(nil), []complex128(nil), [0]chan int{}, [1]func(){}, struct{ P *chan int }{}, []interface{}{make(chan int)}, map[string]interface{}{"a": func() {}}, map[*int]int{}}

func genEncType(r *Rand) (t reflect.Type, pr bool) {
	if r.P(15) {
		return encTypes[r.Intn(len(encTypes))], false
	}
	if r.P(8) {
		return fixedTypes[r.Intn(len(fixedTypes))], false
	}
	if r.P(8) {
		return hookTypes[r.Intn(len(hookTypes))], false
	}
	pr = r.P(25)
	g := YG{R: r, Hooks: r.P(50), PR: pr, Iface: r.P(50), Raw: r.P(50), Quoted: r.P(50), Embed: r.P(40), BothKeys: true, IfaceM: r.P(35)}
	if r.P(60) {
		return g.strct(r.Range(1, 3)), pr
	}
	return g.typ(r.Range(1, 3)), pr
}

// rootOf wraps a value for encoding
func rootOf(r *Rand, v reflect.Value, pr bool) (interface{}, string) {
	k := r.Intn(14)
	if pr && k > 2 {
		k = 1
	}
	switch k {
	case 0:
		p := reflect.New(v.Addr().Type())
		p.Elem().Set(v.Addr())
		return p.Interface(), "pointer to pointer"
	case 1, 2:
		return v.Addr().Interface(), "pointer"
	case 3:
		return []interface{}{v.Interface(), v.Addr().Interface()}, "in []interface{}"
	case 4:
		return map[string]interface{}{"<k>": v.Interface()}, "in map[string]interface{}"
	case 5:
		return struct {
			A interface{} `json:"a"`
			B interface{} `json:",omitempty"`
		}{v.Interface(), nil}, "in an interface field"
	case 6:
		var x interface{} = v.Interface()
		return &x, "pointer to interface"
	}
	return v.Interface(), "value"
}

func engEncode(c *C) {
	r := c.R
	t, pr := genEncType(r)
	cfg := rot.E()
	for i := 0; i < 4; i++ {
		g := VG{R: r, OneEntry: r.P(60), BadUTF8: r.P(20), NonFin: r.P(15)}
		v := reflect.New(t).Elem()
		if !r.P(4) {
			g.fill(v)
		}
		root, how := rootOf(r, v, pr)
		html := r.P(70)
		rt := encRoutes[r.Intn(len(encRoutes))]
		if !rt.both {
			html = true
		}
		c.Note("encode with %s a %s of type %s: %s", rt.name, how, typeStr(t), clip(fmt.Sprintf("%+v", v), 1500))
		a, aErr := stdEncode(root, html)
		b, bErr := rt.f(cfg, root, html)
		desc := func() string { return how + " of " + typeStr(t) + " " + clip(fmt.Sprintf("%+v", v), 600) }
		judgeEnc(c, rt.name, desc, g.OneEntry, a, aErr, b, bErr)
		c.Seen(mix(hash64(a), hashStr(t.String()+how)), len(a) > 1)
		c.FeatIf(pr, "pointer receiver")
		c.FeatIf(!html, "html off")
		c.Sample("%s %s of %s: %s", rt.name, how, typeStr(t), q(a))
	}
}

func engEncodeFixed(c *C) {
	r := c.R
	if c.Idx%4 == 0 {
		i := r.Intn(len(unsupported))
		v := unsupported[i]
		c.Note("encode unsupported #%d %T", i, v)
		a, aErr := json.Marshal(v)
		b, bErr := jzon.Marshal(v)
		desc := func() string { return fmt.Sprintf("%T", v) }
		if aErr != nil || bErr == nil || i < supportedOdd {
			judgeEnc(c, "Marshal", desc, true, a, aErr, b, bErr)
		} else {
			c.Feat("empty value of an unsupported type refused")
		}
		c.Seen(uint64(i), true)
		c.Feat("unsupported types")
		return
	}
	t := encTypes[r.Intn(len(encTypes))]
	v := reflect.New(t).Elem()
	g := VG{R: r, OneEntry: true, noBF: true}
	switch t {
	case tOf(ptrKeyMap{}):
		m := ptrKeyMap{}
		if r.Bool() {
			m[&TStruct{1, 2}] = 3
		} else if r.Bool() {
			m[nil] = 4
		}
		v.Set(reflect.ValueOf(m))
	case tOf(OmitAll{}), tOf(QuotedAll{}), tOf(encIfaces{}):
		// each field on its own
		for i := 0; i < t.NumField(); i++ {
			if r.P(25) {
				g.fill(v.Field(i))
			}
			if r.P(10) {
				switch v.Field(i).Kind() {
				case reflect.Slice:
					v.Field(i).Set(reflect.MakeSlice(v.Field(i).Type(), 0, 0))
				case reflect.Map:
					v.Field(i).Set(reflect.MakeMap(v.Field(i).Type()))
				case reflect.Ptr:
					v.Field(i).Set(reflect.New(v.Field(i).Type().Elem()))
				}
				if v.Field(i).Type() == rawType {
					v.Field(i).Set(reflect.Zero(rawType))
				}
			}
		}
	default:
		g.fill(v)
	}
	root, how := rootOf(r, v, false)
	c.Note("encode %s of %s %+v", how, typeStr(t), v)
	a, aErr := json.Marshal(root)
	b, bErr := jzon.Marshal(root)
	desc := func() string { return fmt.Sprintf("%s of %s %+v", how, typeStr(t), v) }
	judgeEnc(c, "Marshal", desc, true, a, aErr, b, bErr)
	c.Seen(mix(hash64(a), hashStr(t.String()+how)), len(a) > 1)
}

func init() {
	reg("encode", engEncode, "both accept", "both refuse", "pointer receiver", "html off", "equal up to map order")
	reg("encode-fixed", engEncodeFixed, "both accept", "both refuse", "unsupported types")
}
