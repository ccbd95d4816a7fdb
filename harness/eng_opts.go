package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unsafe"

	"github.com/zerosnake0/jzon"
)

// ---- visible names of a struct, by the rules of Go embedding ----

type visKey struct {
	t    reflect.Type
	tag  string
	only bool
}

var visCache = map[visKey]map[string]bool{}

func visNames(t reflect.Type, tag string, only bool) map[string]bool {
	k := visKey{t, tag, only}
	if m, ok := visCache[k]; ok {
		return m
	}
	if len(visCache) > 3000 {
		visCache = map[visKey]map[string]bool{}
	}
	m := visNames1(t, tag, only)
	visCache[k] = m
	return m
}

func visNames1(t reflect.Type, tag string, only bool) map[string]bool {
	type ent struct{ depth, tagged, plain int }
	all := map[string]*ent{}
	visited := map[reflect.Type]bool{}
	level := map[reflect.Type]int{t: 1}
	for depth := 0; len(level) > 0; depth++ {
		next := map[reflect.Type]int{}
		for st, mult := range level {
			if visited[st] {
				continue
			}
			for i := 0; i < st.NumField(); i++ {
				f := st.Field(i)
				et := f.Type
				if et.Name() == "" && et.Kind() == reflect.Ptr {
					et = et.Elem()
				}
				if f.PkgPath != "" && !(f.Anonymous && et.Kind() == reflect.Struct) {
					continue
				}
				v, ok := f.Tag.Lookup(tag)
				if v == "-" {
					continue
				}
				if !ok && only && !f.Anonymous {
					continue
				}
				name := strings.Split(v, ",")[0]
				if !tagValid(name) {
					name = ""
				}
				if name == "" && f.Anonymous && et.Kind() == reflect.Struct {
					next[et]++ // as encoding/json counts
					continue
				}
				tagged := name != ""
				if !tagged {
					name = f.Name
				}
				e := all[name]
				if e == nil {
					e = &ent{depth: depth}
					all[name] = e
				}
				if e.depth == depth {
					if tagged {
						e.tagged += mult
					} else {
						e.plain += mult
					}
				}
			}
		}
		for st := range level {
			visited[st] = true
		}
		level = next
	}
	out := map[string]bool{}
	for n, e := range all {
		if e.tagged == 1 || e.tagged == 0 && e.plain == 1 {
			out[n] = true
		}
	}
	return out
}

func tagValid(s string) bool {
	for _, c := range s {
		if !strings.ContainsRune("!#$%&()*+-./:;<=>?@[]^_{|}~ ", c) && !unicode.IsLetter(c) && !unicode.IsDigit(c) {
			return false
		}
	}
	return s != ""
}

// ---- types with custom decoders and encoders ----

type CInt int
type CStr string
type CStruct struct {
	Raw string
	N   int
}
type CSlice []int
type CMap map[string]int
type CPS struct{ P *int }
type CCplx complex128
type CArr [1]*int
type CHook struct{ V int }

func (h CHook) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"own%d"`, h.V)), nil }
func (h *CHook) UnmarshalJSON(b []byte) error {
	h.V = -len(b)
	return nil
}

// CTgt is used through pointers only; the custom coders are for *CTgt
type CTgt struct{ V int }
type ctgtBox struct{ p *CTgt }

var errCustom = errors.New("custom coder refuses")

var customLog []string

func setCustom(name string, p unsafe.Pointer, raw []byte) error {
	customLog = append(customLog, name+" "+string(raw))
	if bytes.HasPrefix(raw, []byte(`"fail`)) || string(raw) == "666" {
		return errCustom
	}
	h := int(hash64(raw) & 0xffff)
	switch name {
	case "int", "CInt":
		*(*int)(p) = h
	case "string", "CStr":
		*(*string)(p) = "got " + string(raw)
	case "CStruct":
		s := (*CStruct)(p)
		s.Raw, s.N = string(raw), s.N+1
	case "CSlice":
		*(*[]int)(p) = []int{h, len(raw)}
	case "CMap":
		*(*map[string]int)(p) = map[string]int{string(raw): h}
	case "CPS", "CArr":
		*(**int)(p) = &h
	case "CCplx":
		*(*complex128)(p) = complex(float64(h), float64(len(raw)))
	case "CHook":
		(*CHook)(p).V = h
	case "CTgt":
		if string(raw) == "null" {
			*(**CTgt)(p) = &CTgt{-1}
		} else {
			*(**CTgt)(p) = &CTgt{h}
		}
	default:
		panic(harnessErr("no setter for %s", name))
	}
	return nil
}

// what encoding/json sees instead
type sInt int
type sStr string
type sNatI int
type sNatS string
type sStruct CStruct
type sSlice []int
type sMap map[string]int
type sPS struct{ P *int }
type sCplx complex128
type sArr [1]*int
type sHook struct{ V int }

func (x *sInt) UnmarshalJSON(b []byte) error  { return setCustom("CInt", unsafe.Pointer(x), b) }
func (x *sStr) UnmarshalJSON(b []byte) error  { return setCustom("CStr", unsafe.Pointer(x), b) }
func (x *sNatI) UnmarshalJSON(b []byte) error { return setCustom("int", unsafe.Pointer(x), b) }
func (x *sNatS) UnmarshalJSON(b []byte) error { return setCustom("string", unsafe.Pointer(x), b) }
func (x *sStruct) UnmarshalJSON(b []byte) error {
	return setCustom("CStruct", unsafe.Pointer(x), b)
}
func (x *sSlice) UnmarshalJSON(b []byte) error  { return setCustom("CSlice", unsafe.Pointer(x), b) }
func (x *sMap) UnmarshalJSON(b []byte) error    { return setCustom("CMap", unsafe.Pointer(x), b) }
func (x *sPS) UnmarshalJSON(b []byte) error     { return setCustom("CPS", unsafe.Pointer(x), b) }
func (x *sCplx) UnmarshalJSON(b []byte) error   { return setCustom("CCplx", unsafe.Pointer(x), b) }
func (x *sArr) UnmarshalJSON(b []byte) error    { return setCustom("CArr", unsafe.Pointer(x), b) }
func (x *sHook) UnmarshalJSON(b []byte) error   { return setCustom("CHook", unsafe.Pointer(x), b) }
func (x *ctgtBox) UnmarshalJSON(b []byte) error { return setCustom("CTgt", unsafe.Pointer(x), b) }

type customT struct {
	name   string
	typ    reflect.Type // the type it is registered for
	std    reflect.Type // what encoding/json decodes instead
	render func(p unsafe.Pointer) interface{}
	empty  func(p unsafe.Pointer) bool
	native bool
}

// cRaw is written verbatim
type cRaw string

// cErr makes the encoder fail
type cErr struct{}

func (cErr) MarshalJSON() ([]byte, error) { return nil, errCustom }

func rendInt(n int) interface{} {
	switch {
	case n == 666:
		return cErr{}
	case n%4 == 0:
		return cRaw(fmt.Sprintf(`[ "<raw>" ,%d ]`, n))
	case n%4 == 1:
		return fmt.Sprintf("<int %d&>", n)
	}
	return n
}

func rendPtr(p *int) interface{} {
	if p == nil {
		return "nil inside"
	}
	return []interface{}{"<p>", *p}
}

var customs = []customT{
	{"CInt", tOf(CInt(0)), tOf(sInt(0)), func(p unsafe.Pointer) interface{} { return rendInt(*(*int)(p)) }, func(p unsafe.Pointer) bool { return *(*int)(p)%3 == 0 }, false},
	{"CStr", tOf(CStr("")), tOf(sStr("")), func(p unsafe.Pointer) interface{} { return "<" + *(*string)(p) + ">" }, func(p unsafe.Pointer) bool { return len(*(*string)(p))%3 == 1 }, false},
	{"CStruct", tOf(CStruct{}), tOf(sStruct{}), func(p unsafe.Pointer) interface{} {
		s := (*CStruct)(p)
		return []interface{}{s.N, s.Raw}
	}, func(p unsafe.Pointer) bool { return (*CStruct)(p).N == 2 }, false},
	{"CSlice", tOf(CSlice{}), tOf(sSlice{}), func(p unsafe.Pointer) interface{} { return len(*(*[]int)(p)) }, func(p unsafe.Pointer) bool { return len(*(*[]int)(p)) == 1 }, false},
	{"CMap", tOf(CMap{}), tOf(sMap{}), func(p unsafe.Pointer) interface{} {
		return map[string]interface{}{"n&": len(*(*map[string]int)(p))}
	}, func(p unsafe.Pointer) bool { return len(*(*map[string]int)(p)) == 1 }, false},
	{"CPS", tOf(CPS{}), tOf(sPS{}), func(p unsafe.Pointer) interface{} { return rendPtr(*(**int)(p)) }, func(p unsafe.Pointer) bool { return *(**int)(p) != nil && **(**int)(p)%2 == 0 }, false},
	{"CCplx", tOf(CCplx(0)), tOf(sCplx(0)), func(p unsafe.Pointer) interface{} { return real(*(*complex128)(p)) }, func(p unsafe.Pointer) bool { return real(*(*complex128)(p)) == 1 }, false},
	{"CArr", tOf(CArr{}), tOf(sArr{}), func(p unsafe.Pointer) interface{} { return rendPtr(*(**int)(p)) }, func(p unsafe.Pointer) bool { return *(**int)(p) != nil && **(**int)(p)%2 == 1 }, false},
	{"CHook", tOf(CHook{}), tOf(sHook{}), func(p unsafe.Pointer) interface{} { return rendInt(*(*int)(p)) }, func(p unsafe.Pointer) bool { return *(*int)(p) == 5 }, false},
	{"CTgt", tOf((*CTgt)(nil)), tOf(ctgtBox{}), func(p unsafe.Pointer) interface{} {
		t := *(**CTgt)(p)
		if t == nil {
			return "<nil target>"
		}
		return cRaw(strconv.Itoa(t.V) + " ")
	}, func(p unsafe.Pointer) bool { return *(**CTgt)(p) != nil && (*(**CTgt)(p)).V%2 == 0 }, false},
	{"int", tOf(0), tOf(sNatI(0)), func(p unsafe.Pointer) interface{} { return rendInt(*(*int)(p)) }, func(p unsafe.Pointer) bool { return *(*int)(p)%3 == 1 }, true},
	{"string", tOf(""), tOf(sNatS("")), func(p unsafe.Pointer) interface{} { return []interface{}{"<s>", *(*string)(p)} }, func(p unsafe.Pointer) bool { return len(*(*string)(p)) == 1 }, true},
}

const (
	cNatI  = 10
	cNatS  = 11
	cCplx  = 6
	cSlice = 3
)

func init() {
	text := func(r *Rand) string {
		if r.P(4) {
			return r.Str([]string{`"fail"`, "666"})
		}
		g := TG{R: r, MaxDepth: 2, Budget: 5, WS: 20}
		g.value(0)
		return string(g.b)
	}
	for i := range customs {
		ct := customs[i]
		if ct.native {
			continue
		}
		fill := func(v reflect.Value, r *Rand) {
			p := unsafe.Pointer(v.Addr().Pointer())
			n := r.Intn(7)
			if r.P(1) {
				n = 666
			}
			switch ct.name {
			case "CInt", "CHook":
				*(*int)(p) = n
			case "CStr":
				*(*string)(p) = r.Str([]string{"", "a", "<b>", "&", "long text"})
			case "CStruct":
				*(*CStruct)(p) = CStruct{r.Str([]string{"", "<x>"}), n % 4}
			case "CSlice":
				*(*[]int)(p) = [][]int{nil, {}, {1}, {1, 2}}[n%4]
			case "CMap":
				*(*map[string]int)(p) = []map[string]int{nil, {}, {"a": 1}, {"b": 2}}[n%4]
			case "CPS", "CArr":
				*(**int)(p) = nil
				if n > 1 {
					*(**int)(p) = &n
				}
			case "CCplx":
				*(*complex128)(p) = complex(float64(n), 1)
			case "CTgt":
				*(**CTgt)(p) = nil
				if n > 1 {
					*(**CTgt)(p) = &CTgt{n}
				}
			}
		}
		specs[ct.typ] = typeSpec{fill, text}
		specs[ct.std] = typeSpec{fill, text}
	}
}

// ---- option sets ----

type optSet struct {
	tag     string
	only    bool
	cs      bool
	num     bool
	dis     bool
	html    bool
	mask    uint
	defopts bool // no option struct at all
}

func (o optSet) String() string {
	var n []string
	for i, ct := range customs {
		if o.mask>>uint(i)&1 != 0 {
			n = append(n, ct.name)
		}
	}
	return fmt.Sprintf("{tag %q only %v case %v number %v strict %v html %v custom %s}", o.tag, o.only, o.cs, o.num, o.dis, o.html, strings.Join(n, ","))
}

func (o optSet) natives() bool { return o.mask>>cNatI != 0 }

func (o optSet) tagName() string {
	if o.tag == "" {
		return "json"
	}
	return o.tag
}

func genOpts(r *Rand) optSet {
	if r.P(8) {
		return optSet{html: true, defopts: true}
	}
	o := optSet{only: r.P(35), cs: r.P(40), num: r.P(30), dis: r.P(35), html: r.P(40)}
	switch {
	case r.P(45):
		o.tag = "jsom"
	case r.P(10):
		o.tag = "json"
	}
	if r.P(65) {
		o.mask = uint(r.U64()) & (1<<uint(len(customs)) - 1)
		if !r.P(20) {
			o.mask &^= 1 << cNatI
		}
		if !r.P(20) {
			o.mask &^= 1 << cNatS
		}
	}
	return o
}

type customDec struct {
	name string
	used *int
}

func (d *customDec) Decode(p unsafe.Pointer, it *jzon.Iterator, opts *jzon.DecOpts) error {
	*d.used++
	if *d.used%2 == 0 {
		if _, err := it.NextValueType(); err != nil {
			return err
		}
	}
	raw, err := it.AppendRaw(nil)
	if err != nil {
		return err
	}
	return setCustom(d.name, p, raw)
}

type customEnc struct {
	ct   *customT
	used *int
}

func (e *customEnc) IsEmpty(p unsafe.Pointer) bool { return e.ct.empty(p) }

func writeCustom(s *jzon.Streamer, x interface{}) {
	switch x := x.(type) {
	case cRaw:
		s.RawString(string(x))
	case cErr:
		s.Error = errCustom
	case string:
		s.String(x)
	case int:
		s.Int(x)
	case float64:
		s.Float64(x)
	case []interface{}:
		s.ArrayStart()
		for _, e := range x {
			writeCustom(s, e)
		}
		s.ArrayEnd()
	case map[string]interface{}:
		s.ObjectStart()
		for k, e := range x {
			s.Field(k)
			writeCustom(s, e)
		}
		s.ObjectEnd()
	default:
		panic(harnessErr("cannot write %T", x))
	}
}

func (e *customEnc) Encode(p unsafe.Pointer, s *jzon.Streamer, opts *jzon.EncOpts) {
	*e.used++
	if p == nil {
		s.Null()
		return
	}
	writeCustom(s, e.ct.render(p))
}

var optUsed int

func newOptDec(r *Rand, o optSet) *jzon.DecoderConfig {
	if o.defopts {
		return jzon.NewDecoderConfig(nil)
	}
	op := &jzon.DecoderOption{Tag: o.tag, OnlyTaggedField: o.only, CaseSensitive: o.cs, UseNumber: o.num, DisallowUnknownFields: o.dis}
	for i := range customs {
		if o.mask>>uint(i)&1 != 0 {
			if op.ValDecoders == nil {
				op.ValDecoders = map[reflect.Type]jzon.ValDecoder{}
			}
			op.ValDecoders[customs[i].typ] = &customDec{customs[i].name, &optUsed}
		}
	}
	cfg := jzon.NewDecoderConfig(op)
	// the configuration is frozen
	op.OnlyTaggedField, op.CaseSensitive, op.UseNumber, op.DisallowUnknownFields = !o.only, !o.cs, !o.num, !o.dis
	op.Tag = "scribble"
	for i := range customs {
		if op.ValDecoders != nil {
			op.ValDecoders[customs[i].typ] = badCustom{}
		}
	}
	return cfg
}

func newOptEnc(r *Rand, o optSet) *jzon.EncoderConfig {
	if o.defopts {
		return jzon.NewEncoderConfig(nil)
	}
	op := &jzon.EncoderOption{Tag: o.tag, OnlyTaggedField: o.only, EscapeHTML: o.html}
	for i := range customs {
		if o.mask>>uint(i)&1 != 0 {
			if op.ValEncoders == nil {
				op.ValEncoders = map[reflect.Type]jzon.ValEncoder{}
			}
			op.ValEncoders[customs[i].typ] = &customEnc{&customs[i], &optUsed}
		}
	}
	cfg := jzon.NewEncoderConfig(op)
	op.OnlyTaggedField, op.EscapeHTML = !o.only, !o.html
	op.Tag = "scribble"
	for i := range customs {
		if op.ValEncoders != nil {
			op.ValEncoders[customs[i].typ] = badCustom{}
		}
	}
	return cfg
}

// badCustom is registered after the configuration was made
type badCustom struct{}

func (badCustom) IsEmpty(unsafe.Pointer) bool { return true }
func (badCustom) Encode(p unsafe.Pointer, s *jzon.Streamer, opts *jzon.EncOpts) {
	s.Error = errors.New("a coder which was added later is used")
}
func (badCustom) Decode(p unsafe.Pointer, it *jzon.Iterator, opts *jzon.DecOpts) error {
	return errors.New("a coder which was added later is used")
}

type liveOpt struct {
	o   optSet
	dec *jzon.DecoderConfig
	enc *jzon.EncoderConfig
	n   int
}

var liveOpts [6]*liveOpt

func pickOpt(r *Rand) *liveOpt {
	i := r.Intn(len(liveOpts))
	l := liveOpts[i]
	if l == nil || l.n > 30 {
		o := genOpts(r)
		l = &liveOpt{o: o, dec: newOptDec(r, o), enc: newOptEnc(r, o)}
		liveOpts[i] = l
	}
	l.n++
	return l
}

// ---- twins ----

// retag gives the tag which encoding/json must see for the same meaning
func retag(f reflect.StructField, o optSet) reflect.StructTag {
	v, ok := f.Tag.Lookup(o.tagName())
	if !ok {
		if o.only && !f.Anonymous {
			return `json:"-"`
		}
		return ""
	}
	return reflect.StructTag("json:" + strconv.Quote(v))
}

func (o optSet) custom(t reflect.Type) *customT {
	for i := range customs {
		if o.mask>>uint(i)&1 == 0 {
			continue
		}
		if customs[i].typ == t {
			return &customs[i]
		}
		// a coder of a native type is used for all types of the kind
		if i == cNatI && t.Kind() == reflect.Int && !isHook(t) || i == cNatS && t.Kind() == reflect.String && !isHook(t) && t != numberType {
			return &customs[i]
		}
	}
	return nil
}

// optTwin maps a type to what encoding/json handles; enc: custom types become
// interfaces
func optTwin(t reflect.Type, o optSet, enc bool) reflect.Type {
	if ct := o.custom(t); ct != nil {
		if enc {
			return efaceType
		}
		return ct.std
	}
	if isHook(t) || t.Name() != "" {
		return t
	}
	switch t.Kind() {
	case reflect.Ptr:
		return reflect.PtrTo(optTwin(t.Elem(), o, enc))
	case reflect.Slice:
		return reflect.SliceOf(optTwin(t.Elem(), o, enc))
	case reflect.Array:
		return reflect.ArrayOf(t.Len(), optTwin(t.Elem(), o, enc))
	case reflect.Map:
		return reflect.MapOf(t.Key(), optTwin(t.Elem(), o, enc))
	case reflect.Struct:
		fs := make([]reflect.StructField, t.NumField())
		for i := range fs {
			f := t.Field(i)
			fs[i] = reflect.StructField{Name: f.Name, PkgPath: f.PkgPath, Type: optTwin(f.Type, o, enc), Tag: retag(f, o), Anonymous: f.Anonymous}
		}
		return reflect.StructOf(fs)
	}
	return t
}

func mentions(t reflect.Type, x reflect.Type) bool {
	found := false
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		if seen[t] || found {
			return
		}
		seen[t] = true
		if t == x {
			found = true
			return
		}
		switch t.Kind() {
		case reflect.Struct:
			for i := 0; i < t.NumField(); i++ {
				walk(t.Field(i).Type)
			}
		case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
			walk(t.Elem())
		}
	}
	walk(t)
	return found
}

// stringOpt: some field has the string option
func stringOpt(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f := t.Field(i); strings.Contains(string(f.Tag), ",string") || stringOpt(f.Type) {
				return true
			}
		}
	case reflect.Ptr, reflect.Slice, reflect.Array, reflect.Map:
		return stringOpt(t.Elem())
	}
	return false
}

func genOptType(r *Rand, o optSet, enc bool) reflect.Type {
	g := YG{R: r, Hooks: r.P(40), Iface: r.P(50), Raw: r.P(40), NoFixed: true, Alt: true}
	if o.mask>>cNatI&1 == 0 && o.mask>>cNatS&1 == 0 {
		g.Quoted = r.P(40)
	}
	for i, ct := range customs {
		if o.mask>>uint(i)&1 != 0 {
			g.Extra = append(g.Extra, ct.typ)
			if r.P(30) {
				g.Extra = append(g.Extra, reflect.PtrTo(ct.typ))
			}
		}
	}
	if r.P(65) {
		return g.strct(r.Range(1, 3))
	}
	return g.typ(r.Range(1, 3))
}

// wrapType builds a type around another in the same way for the same k
func wrapType(t reflect.Type, k int) reflect.Type {
	switch k {
	case 0:
		return reflect.PtrTo(t)
	case 1:
		return reflect.SliceOf(t)
	case 2:
		return reflect.MapOf(tOf(""), t)
	case 3:
		return reflect.ArrayOf(2, t)
	}
	return t
}

// staticPair returns the type for jzon and the one for encoding/json
func staticPair(r *Rand, o optSet) (j, s reflect.Type) {
	i := r.Intn(len(gsTypes))
	if r.P(40) { // the types with few members
		i = gsSmall + r.Intn(len(gsTypes)-gsSmall)
	}
	j, s = gsTypes[i], gsTypes[i]
	if o.tag == "jsom" {
		j = gsAlt[i]
	}
	if o.only {
		s = gsOnly[i]
	}
	k := r.Intn(9)
	return wrapType(j, k), wrapType(s, k)
}

// ---- decoding ----

func optText(r *Rand, t reflect.Type, o optSet) (forJ, forS []byte) {
	noise := 0
	if r.P(60) {
		noise = r.Range(1, 6)
	}
	g := XG{R: r, Noise: noise, Tag: o.tag, Case: o.cs, Only: o.only}
	if r.P(40) {
		g.WS = 25
	}
	g.val(t, false)
	g.ws()
	forJ, forS = g.b, g.b
	for i, m := range g.marks {
		mark := []byte(fmt.Sprintf("\"\x00%d\x00\"", i))
		forJ = bytes.Replace(forJ, mark, []byte(m), 1)
		forS = bytes.Replace(forS, mark, []byte(`"no such member ~"`), 1)
	}
	if !o.cs {
		switch r.Intn(12) {
		case 0:
			forJ = mutate(r, forJ)
		case 1:
			forJ = mutateTok(r, forJ)
		}
		forS = forJ
	}
	return
}

func optDecode(c *C, r *Rand, l *liveOpt, j, s reflect.Type, static bool) {
	o := l.o
	if static && (o.cs && hookByPtr(j) || o.natives()) {
		return
	}
	forJ, forS := optText(r, j, o)
	if laxText(forJ) {
		return
	}
	seed := uint64(0)
	if r.P(50) {
		seed = r.U64() | 1
	}
	pre := func(v reflect.Value) {
		if seed != 0 {
			g := VG{R: newRand(seed), Deep: static, Prepop: true, Trees: true, noBF: true}
			g.fill(v)
		}
	}
	std, jz := reflect.New(s), reflect.New(j)
	pre(std.Elem())
	pre(jz.Elem())
	num, dis := o.num, o.dis
	route := r.Intn(8)
	if route == 1 { // changed at run time for one decoder
		num, dis = num || r.Bool(), dis || r.Bool()
	}
	customLog = nil
	var stdE error
	if orPanic(func() { stdE = stdDecode(forS, std.Interface(), num, dis) }) {
		return
	}
	want := customLog
	customLog = nil
	c.NoteB(fmt.Sprintf("options %v: decode into %s of ", o, typeStr(j)), forJ)
	var jzE error
	name := "Unmarshal"
	run := func() {
		in := append([]byte(nil), forJ...)
		dst := jz.Interface()
		if r.P(10) && string(bytes.TrimSpace(forJ)) != "null" {
			var x interface{} = dst
			dst = &x
		}
		switch route {
		case 0:
			jzE = l.dec.Unmarshal(in, dst)
		case 1:
			name = "Decoder changed at run time"
			d := l.dec.NewDecoder(genReader(r, in))
			defer d.Release()
			if num != o.num {
				d.UseNumber()
			}
			if dis != o.dis {
				d.DisallowUnknownFields()
			}
			if jzE = d.Decode(dst); jzE == nil {
				var w json.RawMessage
				if e := d.Decode(&w); e != io.EOF {
					jzE = fmt.Errorf("more data (%v)", e)
				}
			}
		default:
			rt := typedRoutes[r.Intn(len(typedRoutes))]
			name = rt.name
			jzE = rt.f(l.dec, in, r.Fork(), dst)
		}
	}
	if stdE != nil && hookByPtr(j) {
		if orPanic(run) {
			return
		}
	} else {
		run()
	}
	name = fmt.Sprintf("%s with options %v (document for encoding/json %s)", name, o, q(forS))
	judgeTyped(c, name, j, forS, stdE, jzE, std, reflect.NewAt(s, unsafe.Pointer(jz.Pointer())))
	if stdE == nil {
		if strings.Join(want, "\n") != strings.Join(customLog, "\n") {
			c.Failf("%s into %s: custom decoders were called with %q, want %q\n input %s", name, typeStr(j), customLog, want, q(forJ))
		}
		c.FeatIf(len(want) > 0, "custom decoder called")
		c.FeatIf(o.tag == "jsom", "alternative tag")
		c.FeatIf(o.only, "only tagged fields")
		c.FeatIf(o.cs && !bytes.Equal(forJ, forS), "case variant ignored")
		c.FeatIf(num, "number mode")
		c.FeatIf(dis, "strict")
		c.FeatIf(static, "embedded")
	} else {
		if stdE == errCustom {
			c.Feat("custom decoder error")
			// other errors do not stop encoding/json before
			n := len(customLog)
			if n > 0 && n == len(want) && customLog[n-1] == want[n-1] && !strings.Contains(jzE.Error(), errCustom.Error()) {
				c.Failf("%s: the error of the custom decoder is not reported but %v\n input %s", name, jzE, q(forJ))
			}
		}
		c.FeatIf(strings.Contains(stdE.Error(), "unknown field"), "unknown member refused")
	}
	c.Seen(mix(mix(hash64(forJ), hashStr(j.String())), hashStr(o.String())), len(forJ) > 2)
	c.Sample("%v: %s into %s: error %v", o, q(forJ), typeStr(j), stdE != nil)
}

// typeOK: encoding/json can handle the custom types of t which have no coder
func (o optSet) typeOK(t reflect.Type) bool {
	if o.natives() && stringOpt(t) {
		return false
	}
	for i, ct := range customs {
		if o.mask>>uint(i)&1 != 0 {
			continue
		}
		bad := i == cCplx || i == cSlice || o.natives() && !ct.native
		if k := ct.typ.Kind(); k == reflect.Struct || k == reflect.Ptr {
			bad = bad || o.only || o.cs
		}
		if bad && mentions(t, ct.typ) {
			return false
		}
	}
	return true
}

func engOptDec(c *C) {
	r := c.R
	if r.P(45) {
		for i := 0; i < 3; i++ {
			l := pickOpt(r)
			j, s := staticPair(r, l.o)
			optDecode(c, r, l, j, s, true)
			optDecode(c, r, l, j, s, true)
			if r.P(30) { // the package functions are not affected
				d := &liveOpt{o: optSet{html: true, defopts: true}, dec: jzon.DefaultDecoderConfig}
				optDecode(c, r, d, j, j, true)
				c.Feat("default in between")
			}
		}
		return
	}
	l := pickOpt(r)
	j := genOptType(r, l.o, false)
	for i := 0; i < 4; i++ {
		optDecode(c, r, l, j, optTwin(j, l.o, false), false)
		if r.P(60) { // the same type with another configuration
			l2 := pickOpt(r)
			if l2.o.typeOK(j) {
				optDecode(c, r, l2, j, optTwin(j, l2.o, false), false)
				c.Feat("same type, several configurations")
			}
		}
	}
}

// ---- encoding ----

type optConv struct {
	o     optSet
	raws  []string
	calls int
}

func (cv *optConv) rend(x interface{}) interface{} {
	switch x := x.(type) {
	case cRaw:
		cv.raws = append(cv.raws, string(x))
		return fmt.Sprintf("@RAW%d@", len(cv.raws)-1)
	case []interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = cv.rend(x[i])
		}
		return out
	}
	return x
}

// conv copies src into dst, whose type is the twin
func (cv *optConv) conv(dst, src reflect.Value) {
	t := src.Type()
	if ct := cv.o.custom(t); ct != nil {
		p := reflect.New(t)
		p.Elem().Set(src)
		cv.calls++
		dst.Set(reflect.ValueOf(cv.rend(ct.render(unsafe.Pointer(p.Pointer())))))
		return
	}
	if isHook(t) {
		dst.Set(src)
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if !src.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
			cv.conv(dst.Elem(), src.Elem())
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
		fallthrough
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			cv.conv(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeMap(dst.Type()))
		for _, k := range src.MapKeys() {
			e := reflect.New(dst.Type().Elem()).Elem()
			cv.conv(e, src.MapIndex(k))
			dst.SetMapIndex(k, e)
		}
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		e := reflect.New(optTwin(src.Elem().Type(), cv.o, true)).Elem()
		cv.conv(e, src.Elem())
		dst.Set(e)
	case reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			f := t.Field(i)
			if ct := cv.o.custom(f.Type); ct != nil {
				tag := f.Tag.Get(cv.o.tagName())
				omit := false
				for _, x := range strings.Split(tag, ",")[1:] {
					omit = omit || x == "omitempty"
				}
				if omit {
					p := reflect.New(f.Type)
					p.Elem().Set(src.Field(i))
					if ct.empty(unsafe.Pointer(p.Pointer())) {
						continue
					}
				}
			}
			cv.conv(dst.Field(i), src.Field(i))
		}
	default:
		dst.Set(src)
	}
}

func optWrap(k int, v reflect.Value) (interface{}, string) {
	switch k {
	case 0:
		p := reflect.New(v.Addr().Type())
		p.Elem().Set(v.Addr())
		return p.Interface(), "pointer to pointer"
	case 1, 2:
		return v.Addr().Interface(), "pointer"
	case 3:
		return []interface{}{v.Interface(), v.Addr().Interface()}, "in []interface{}"
	case 4:
		return map[string]interface{}{"<k>": v.Interface()}, "in map[string]interface{}"
	case 5:
		x := v.Interface()
		return &x, "pointer to interface"
	case 6:
		return [1]interface{}{v.Interface()}, "in [1]interface{}"
	}
	return v.Interface(), "value"
}

func optEncode(c *C, r *Rand, l *liveOpt, j, s reflect.Type, static bool) {
	o := l.o
	if static && o.natives() {
		return
	}
	v := reflect.New(j)
	g := VG{R: r, OneEntry: r.P(70), Deep: static, noBF: true, Trees: true}
	if !r.P(8) {
		g.fill(v.Elem())
	}
	cv := optConv{o: o}
	var sv reflect.Value
	if static {
		sv = reflect.NewAt(s, unsafe.Pointer(v.Pointer()))
	} else {
		sv = reflect.New(s)
		cv.conv(sv.Elem(), v.Elem())
	}
	k := r.Intn(12)
	root, how := optWrap(k, v.Elem())
	var sroot interface{}
	if static {
		sroot, _ = optWrap(k, sv.Elem())
	} else {
		sroot, _ = optWrap(k, sv.Elem())
	}
	html, override := o.html, false
	route := r.Intn(5)
	if route >= 2 && r.P(50) {
		html, override = r.Bool(), true
	}
	var a []byte
	var aErr error
	if orPanic(func() { a, aErr = stdEncode(sroot, html) }) {
		return
	}
	for i, x := range cv.raws {
		a = bytes.Replace(a, []byte(fmt.Sprintf(`"@RAW%d@"`, i)), []byte(x), -1)
	}
	desc := func() string {
		return fmt.Sprintf("%s of %s %s, options %v, html %v (overridden %v)", how, typeStr(j), clip(fmt.Sprintf("%+v", v.Elem()), 600), o, html, override)
	}
	c.Note("options: encode %s", desc())
	var b []byte
	var bErr error
	name := "Marshal"
	switch route {
	case 0, 1:
		b, bErr = l.enc.Marshal(root)
	case 2, 3:
		name = "Encoder"
		var w bytes.Buffer
		e := l.enc.NewEncoder(&w)
		if override {
			e.SetEscapeHTML(html)
		}
		n := 0
		if r.Bool() {
			e.Encode("first")
			n = w.Len()
		}
		if bErr = e.Encode(root); bErr == nil {
			b = bytes.TrimSuffix(w.Bytes()[n:], []byte("\n"))
		}
		e.Release()
	default:
		name = "Streamer"
		var w bytes.Buffer
		st := l.enc.NewStreamer()
		st.Reset(&w)
		if override {
			st.EscapeHTML(html)
		}
		st.Value(root)
		if bErr = st.Flush(); bErr == nil {
			b = w.Bytes()
		}
		st.Release()
	}
	if len(cv.raws) > 0 && aErr == nil && bErr == nil && !bytes.Equal(normEsc(a), normEsc(b)) {
		// verbatim output may hold spaces, which the reader of the oracle takes
		c.Feat("verbatim output")
	}
	judgeEnc(c, name, desc, g.OneEntry, a, aErr, b, bErr)
	if aErr == nil {
		c.FeatIf(cv.calls > 0, "custom encoder called")
		c.FeatIf(len(cv.raws) > 0, "verbatim")
		c.FeatIf(o.tag == "jsom", "alternative tag")
		c.FeatIf(o.only, "only tagged fields")
		c.FeatIf(override && html != o.html, "html overridden")
		c.FeatIf(!o.html, "no html escaping by option")
		c.FeatIf(static, "embedded")
	} else if errors.Is(aErr, errCustom) {
		c.Feat("custom encoder error")
		if !errors.Is(bErr, errCustom) {
			c.Failf("%s: the error of the custom encoder is not reported but %v\n value %s", name, bErr, desc())
		}
	}
	c.Seen(mix(mix(hash64(a), hashStr(j.String()+how)), hashStr(o.String())), len(a) > 2)
	c.Sample("%v: %s", desc(), q(a))
}

func engOptEnc(c *C) {
	r := c.R
	if r.P(40) {
		for i := 0; i < 3; i++ {
			l := pickOpt(r)
			j, s := staticPair(r, l.o)
			optEncode(c, r, l, j, s, true)
			if r.P(30) {
				d := &liveOpt{o: optSet{html: true, defopts: true}, enc: jzon.DefaultEncoderConfig}
				optEncode(c, r, d, j, j, true)
				c.Feat("default in between")
			}
		}
		return
	}
	l := pickOpt(r)
	j := genOptType(r, l.o, true)
	for i := 0; i < 4; i++ {
		optEncode(c, r, l, j, optTwin(j, l.o, true), false)
		if r.P(60) {
			l2 := pickOpt(r)
			if l2.o.typeOK(j) {
				optEncode(c, r, l2, j, optTwin(j, l2.o, true), false)
				c.Feat("same type, several configurations")
			}
		}
	}
}

func init() {
	reg("opt-dec", engOptDec, "both accept", "both refuse", "custom decoder called", "custom decoder error", "alternative tag", "only tagged fields", "case variant ignored", "number mode", "strict", "unknown member refused", "embedded", "default in between", "same type, several configurations")
	reg("opt-enc", engOptEnc, "both accept", "both refuse", "custom encoder called", "custom encoder error", "alternative tag", "only tagged fields", "html overridden", "no html escaping by option", "embedded", "default in between", "same type, several configurations", "verbatim")
	prop(&Prop{ID: "C17", Level: "exploration",
		Rule:        "each case decodes a document into a type (run-time built or one of 420 source structs) with one of several live configurations with random options, and compares destination, acceptance, custom decoder calls and errors with encoding/json decoding into the twin type in which the options are spelled out (tags, dropped fields, unmarshalers in place of custom decoders, members renamed where case must match); the same types are used by several configurations and the package functions in turn; a case is a distinct (options, type, document)",
		Assumptions: []string{"encoding/json of go1.23 outside the stated exceptions", "embedded fields count as tagged, a coder of a native type is used for all types of its kind without hooks"},
		Variants:    plain(Run{"opt-dec", 120000, 4000000}),
	})
	prop(&Prop{ID: "C18", Level: "exploration",
		Rule:        "each case encodes a value with one of several live configurations with random options and compares the bytes, or the error, with encoding/json encoding the twin value in which the options are spelled out (tags, dropped fields, what the custom encoder writes in its place, HTML escaping of the object in use); a case is a distinct (options, type, document)",
		Assumptions: []string{"encoding/json of go1.23 outside the stated exceptions", "embedded fields count as tagged, a coder of a native type is used for all types of its kind without hooks"},
		Variants:    plain(Run{"opt-enc", 120000, 4000000}),
	})
}
