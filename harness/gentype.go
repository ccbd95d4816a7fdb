package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode"
)

// YG generates Go types at run time
type YG struct {
	R      *Rand
	Hooks  bool // types with marshal hooks (value receivers)
	PR     bool // types with pointer receiver hooks, only in addressable places
	Iface  bool
	Raw    bool
	Quoted bool
	Embed  bool
	NoNum  bool // no json.Number
	// key types with both hooks (encoding/json decodes them with the JSON hook)
	BothKeys bool
	// Extra types are used now and then, and no named composite types
	Extra   []reflect.Type
	NoFixed bool
	// Alt: tags named alt besides those named json
	Alt bool
	// IfaceM: interface types with methods
	IfaceM bool
}

var ifaceMTypes = []reflect.Type{shaperType, jmType, tmType, tOf((*MarshalerX)(nil)).Elem(), tOf((*TextX)(nil)).Elem(), tOf((*fmt.Stringer)(nil)).Elem()}

// values of the interface types
var ifaceMDyn = []reflect.Type{tOf(&ShapeA{}), tOf(ShapeB{}), tOf(JInt(0)), tOf(new(JInt)), tOf(TStr("")), tOf(new(TStr)), tOf(JPtrShape{}), tOf(TPtrShape{}), tOf(&JPtrShape{}), tOf(&TPtrShape{}), tOf(JMap{}), tOf(JSlice{}), tOf(JT{}), tOf(&PJ{}), tOf(&PT{}), tOf(TAny{}), tOf(TXVal{}), tOf(&TXVal{}), tOf(TXStr("")), tOf(new(TXStr)), tOf(&StrA{}), tOf(StrA{}), tOf(StrP{})}

// TXVal and TXStr implement TextX
type TXVal struct{ P *int }

func (t TXVal) MarshalText() ([]byte, error) { return []byte(fmt.Sprint("tx", t.P != nil)), nil }
func (TXVal) X()                             {}

type TXStr string

func (t TXStr) MarshalText() ([]byte, error) { return []byte("<" + t + ">"), nil }
func (TXStr) X()                             {}

// StrA and StrP only implement fmt.Stringer
type StrA struct{ A, B string }

func (s StrA) String() string { return s.A }

type StrP struct{ P *int }

func (s StrP) String() string { return "" }

var scalarTypes = []reflect.Type{tOf(false), tOf(int(0)), tOf(int8(0)), tOf(int16(0)), tOf(int32(0)), tOf(int64(0)), tOf(uint(0)), tOf(uint8(0)), tOf(uint16(0)), tOf(uint32(0)), tOf(uint64(0)),
	tOf(float32(0)), tOf(float64(0)), tOf(""), tOf(""), tOf(NInt(0)), tOf(NInt8(0)), tOf(NUint16(0)), tOf(NFloat(0)), tOf(NFloat32(0)), tOf(NStr("")), tOf(NBool(false)), tOf(uintptr(0))}
var bytesTypes = []reflect.Type{tOf([]byte{}), tOf(NBytes{}), tOf(NByteSlice{}), tOf(NRaw{}), tOf([4]byte{}), tOf([]NByte{})}
var fixedTypes = []reflect.Type{tOf(RList{}), tOf(RTree{}), tOf(RA{}), tOf(RSlice{}), tOf(RMap{}), tOf(EInner{}), tOf(EDeep{}), tOf(EOuter{}), tOf(NSlice{}), tOf(NMap{}), tOf(NArr{}), tOf(struct{}{}), tOf(NPtr(nil)), tOf([0]int{}), tOf(&RList{}), tOf(map[string]*RTree{})}
var hookTypes = []reflect.Type{tOf(TStr("")), tOf(TStruct{}), tOf(TInt(0)), tOf(TAny{}), tOf(TPtrShape{}), tOf(JInt(0)), tOf(JRec{}), tOf(JPtrShape{}), tOf(JMap{}), tOf(JSlice{}), tOf(JT{}), tOf(VByte(0)), tOf([]VByte{})}
var prTypes = []reflect.Type{tOf(PJ{}), tOf(PT{}), tOf([]PByte{}), tOf(PByte(0))}
var keyTypes = []reflect.Type{tOf(""), tOf(""), tOf(""), tOf(NStr("")), tOf(int(0)), tOf(int8(0)), tOf(int16(0)), tOf(int32(0)), tOf(int64(0)), tOf(uint(0)), tOf(uint8(0)), tOf(uint16(0)), tOf(uint32(0)), tOf(uint64(0)), tOf(NInt(0)), tOf(uintptr(0))}
var hookKeyTypes = []reflect.Type{tOf(TStr("")), tOf(TStruct{}), tOf(TInt(0)), tOf(TAny{})}

func (g *YG) pick(l []reflect.Type) reflect.Type { return l[g.R.Intn(len(l))] }

func (g *YG) typ(d int) reflect.Type {
	if len(g.Extra) > 0 && g.R.P(35) {
		return g.pick(g.Extra)
	}
	k := g.R.Intn(100)
	if d <= 0 {
		k = g.R.Intn(52)
	}
	switch {
	case k < 34:
		return g.pick(scalarTypes)
	case k < 38:
		return g.pick(bytesTypes)
	case k < 42:
		if g.IfaceM && g.R.Bool() {
			return g.pick(ifaceMTypes)
		}
		if g.Iface {
			return efaceType
		}
	case k < 44:
		if !g.NoNum {
			return numberType
		}
	case k < 46:
		if g.Raw {
			return rawType
		}
	case k < 52:
		if g.Hooks && g.R.P(70) {
			return g.pick(hookTypes)
		}
		if g.PR {
			return g.pick(prTypes)
		}
	case k < 58:
		if g.NoFixed {
			return g.pick(scalarTypes)
		}
		return g.pick(fixedTypes)
	case k < 67:
		return reflect.SliceOf(g.typ(d - 1))
	case k < 72:
		return reflect.ArrayOf(g.R.Intn(4), g.typ(d-1))
	case k < 81:
		key := g.pick(keyTypes)
		if g.Hooks && g.R.P(25) {
			key = g.pick(hookKeyTypes)
			if g.BothKeys && g.R.P(25) {
				key = []reflect.Type{tOf(JT{}), tOf(TPtrShape{})}[g.R.Intn(2)]
			}
		}
		pr := g.PR
		g.PR = false
		e := g.typ(d - 1)
		g.PR = pr
		return reflect.MapOf(key, e)
	case k < 88:
		return reflect.PtrTo(g.typ(d - 1))
	default:
		return g.strct(d)
	}
	return g.pick(scalarTypes)
}

// identifiers that differ in case, are prefixes of each other, or fold with
// non ASCII letters
var fieldNames = []string{"A", "B", "C", "Aa", "AA", "AAa", "Ab", "Abc", "ABC", "K", "S", "Ks", "Key", "Name", "NameX", "Nam", "Long_field_name_1", "Long_field_name_2", "X1", "X2", "X3", "Y", "Z", "É", "Éa", "ÅB", "Q1", "Q2", "Q3", "Q4", "W", "Wk", "Ws", "Zz_1", "Zoo9", "A_z", "ZZ", "Az", "Za0", "M_y"}
var tagNames = []string{"a", "b", "c", "A", "aA", "key", "k", "s", "x y", "é", "ß", "with.dot", "with-dash", "0", "9lives", "a/b", "$%-/", "K", "ſ", "<html>", "&amp", "long_tag_name_number_one", "AbC", "abc", "ABC", "z_a", "Z1", "x[", "y{z", "a@", "^~"}
var badTags = []string{"a\"b", "a\\b", "q,", ",", "a b\x01", "`"}

func (g *YG) tag() reflect.StructTag {
	r := g.R
	if r.P(35) {
		return ""
	}
	name := ""
	if r.P(65) {
		name = r.Str(tagNames)
	}
	if r.P(5) {
		name = "-"
	}
	opt := ""
	if r.P(35) {
		opt += ",omitempty"
	}
	if g.Quoted && r.P(25) {
		opt += ",string"
	}
	if r.P(4) {
		opt += r.Str([]string{",", ",unknown", ", string", ",omitempty ", ",STRING"})
	}
	pre := ""
	if r.P(10) {
		pre = `xml:"other" `
	}
	t := reflect.StructTag(pre + `json:` + strconv.Quote(name+opt))
	if g.Alt {
		alt := "jsom:" + strconv.Quote(g.R.Str([]string{name + opt, r.Str(tagNames) + opt, opt, "-", r.Str(tagNames)}))
		switch r.Intn(4) {
		case 0:
			return reflect.StructTag(alt)
		case 1:
			return t + " " + reflect.StructTag(alt)
		case 2:
			return reflect.StructTag(alt) + " " + t
		}
	}
	return t
}

func (g *YG) strct(d int) reflect.Type {
	r := g.R
	n := 0
	switch r.Intn(6) {
	case 0:
		n = 1
	case 1, 2:
		n = r.Range(2, 4)
	case 3:
		n = r.Range(5, 10)
	case 4:
		n = r.Range(10, 14)
	case 5:
		n = r.Range(1, 3)
	}
	perm := r.perm(len(fieldNames))
	var fs []reflect.StructField
	for i := 0; i < n && i < len(perm); i++ {
		dd := d - 1
		if n > 5 {
			dd = 0
		}
		t := g.typ(dd)
		f := reflect.StructField{Name: fieldNames[perm[i]], Type: t, Tag: g.tag()}
		if g.Embed && r.P(8) {
			e := []reflect.Type{tOf(EInner{}), tOf(EPtr{}), tOf(&EPtr{}), tOf(EOuter{})}[r.Intn(4)]
			nm := e.Name()
			if e.Kind() == reflect.Ptr {
				nm = e.Elem().Name()
			}
			dup := false
			for _, o := range fs {
				dup = dup || o.Name == nm
			}
			if !dup {
				f = reflect.StructField{Name: nm, Type: e, Anonymous: true}
				if r.P(20) {
					f.Tag = `json:"emb"`
				}
			}
		}
		// the string option of hook types is not specified
		if strings.Contains(string(f.Tag), "string") && (isHook(f.Type) || f.Type.Kind() == reflect.Ptr && isHook(f.Type.Elem())) {
			f.Tag = ""
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs)
}

func (r *Rand) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func isHook(t reflect.Type) bool {
	if t == numberType {
		return false
	}
	_, ok := specs[t]
	return ok
}

// VG fills values
type VG struct {
	R *Rand
	// Prepop: destination for decoding: no populated slices, interfaces may
	// hold pointers
	Prepop   bool
	OneEntry bool // at most one entry per map
	BadUTF8  bool
	NonFin   bool // NaN and infinities now and then
	// Deep: unexported fields are filled as well
	Deep bool
	// RT: only values which survive a round trip
	RT    bool
	Trees bool // interfaces hold untyped trees only
	noBF  bool
	depth int
}

func (g *VG) fill(v reflect.Value) {
	r := g.R
	t := v.Type()
	if s, ok := specs[t]; ok {
		s.fill(v, r)
		return
	}
	g.depth++
	defer func() { g.depth-- }()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(genInt(r, t.Bits()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(genUint(r, t.Bits()))
	case reflect.Float32:
		v.SetFloat(float64(r.F32()))
		if g.NonFin && r.P(3) {
			v.SetFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)])
		}
	case reflect.Float64:
		v.SetFloat(r.F64())
		if g.NonFin && r.P(3) {
			v.SetFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)])
		}
		if r.P(10) {
			v.SetFloat(0)
		}
	case reflect.String:
		if r.P(15) {
			v.SetString("")
		} else {
			s := genGoString(r, g.BadUTF8)
			if g.noBF {
				s = strings.NewReplacer("\b", "", "\f", "").Replace(s)
			}
			v.SetString(s)
		}
	case reflect.Slice:
		if r.P(20) || g.depth > 6 {
			v.Set(reflect.Zero(t))
			return
		}
		n := r.Intn(4)
		if r.P(4) && g.depth < 3 {
			n = r.Range(5, 40)
		}
		if t.Elem().Kind() == reflect.Uint8 {
			n = r.Intn(10)
			if r.P(10) {
				n = r.Range(40, 200)
			}
		}
		s := reflect.MakeSlice(t, n, n)
		if g.Prepop {
			// encoding/json decodes into the elements which are there, jzon
			// into new ones: the same for zero elements
			v.Set(s)
			return
		}
		for i := 0; i < n; i++ {
			g.fill(s.Index(i))
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i))
		}
	case reflect.Map:
		if r.P(20) || g.depth > 6 {
			v.Set(reflect.Zero(t))
			return
		}
		m := reflect.MakeMap(t)
		n := r.Intn(4)
		if r.P(4) && g.depth < 3 {
			n = r.Range(5, 30)
		}
		if g.OneEntry && n > 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			k := reflect.New(t.Key()).Elem()
			if k.Kind() == reflect.String && r.P(60) {
				k.SetString(r.Str(simpleKeys))
			} else if k.Kind() >= reflect.Int && k.Kind() <= reflect.Uintptr && r.P(60) && !isHook(t.Key()) {
				if k.Kind() < reflect.Uint {
					k.SetInt(int64(r.Intn(5)))
				} else {
					k.SetUint(uint64(r.Intn(5)))
				}
			} else {
				g.fill(k)
			}
			e := reflect.New(t.Elem()).Elem()
			g.fill(e)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Ptr:
		if r.P(30) || g.depth > 6 {
			v.Set(reflect.Zero(t))
			return
		}
		p := reflect.New(t.Elem())
		g.fill(p.Elem())
		v.Set(p.Convert(t))
	case reflect.Interface:
		g.iface(v)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			if g.Deep {
				f = writable(f)
			}
			if f.CanSet() {
				if t.Field(i).Anonymous || r.P(85) {
					// the spelling of backspace and form feed is free, and
					// escaped once more by the string option
					old := g.noBF
					g.noBF = old || strings.Contains(string(t.Field(i).Tag), ",string")
					g.fill(f)
					g.noBF = old
				}
			} else if t.Field(i).Anonymous && f.Kind() == reflect.Struct {
				// promoted fields of an unexported embedded struct are settable
				for j := 0; j < f.NumField(); j++ {
					if f.Field(j).CanSet() {
						g.fill(f.Field(j))
					}
				}
			}
		}
	}
}

var ifaceDyn = []reflect.Type{tOf(int(0)), tOf(uint8(0)), tOf(""), tOf(false), tOf(1.5), tOf(float32(0)), tOf(EInner{}), tOf(&EInner{}), tOf([]int{}), tOf(map[string]int{}), tOf([2]string{}), tOf([]byte{}), tOf(TStr("")), tOf(JInt(0)), tOf(JPtrShape{}), tOf(TPtrShape{}), tOf((*int)(nil)), tOf(struct{ P *int }{}), tOf([1]*int{}), tOf(map[int]string{}), tOf(NStr("")), tOf(int64(0)), tOf(json.Number("")), tOf(JMap{}), tOf((**int)(nil)), tOf(&RTree{}), tOf(struct{ M map[string]int }{}), tOf(struct{}{}), tOf([1]map[string]int{})}

func (g *VG) iface(v reflect.Value) {
	r := g.R
	t := v.Type()
	if t.NumMethod() > 0 {
		v.Set(reflect.Zero(t))
		if r.P(25) || g.depth > 6 {
			return
		}
		for try := 0; try < 200; try++ {
			dt := ifaceMDyn[r.Intn(len(ifaceMDyn))]
			if !dt.Implements(t) {
				continue
			}
			x := reflect.New(dt).Elem()
			if dt.Kind() == reflect.Ptr { // nil pointers panic in both libraries
				x.Set(reflect.New(dt.Elem()))
				g.fill(x.Elem())
			} else {
				g.fill(x)
			}
			v.Set(x)
			break
		}
		return
	}
	if g.RT || g.Trees {
		v.Set(reflect.Zero(t))
		if x := g.tree(0); x != nil {
			v.Set(reflect.ValueOf(x))
		}
		return
	}
	k := r.Intn(10)
	if g.depth > 6 {
		k = 0
	}
	switch {
	case k < 2:
		v.Set(reflect.Zero(t))
	case k < 5:
		if x := g.tree(0); x != nil {
			v.Set(reflect.ValueOf(x))
		}
	default:
		dt := ifaceDyn[r.Intn(len(ifaceDyn))]
		if g.Prepop {
			dt = []reflect.Type{tOf((*int)(nil)), tOf(&EInner{}), tOf((**int)(nil)), tOf(""), tOf(5), tOf((*string)(nil)), tOf(&map[string]int{}), tOf((*interface{})(nil)), tOf(&RList{}), tOf(map[string]interface{}{}), tOf(&[2]int{}), tOf((**EInner)(nil)), tOf((***int)(nil)), tOf((****string)(nil)), tOf((**interface{})(nil)), tOf((*[]int)(nil)), tOf((**map[string]int)(nil)), tOf((*JInt)(nil)), tOf((**TInt)(nil))}[r.Intn(19)]
		}
		x := reflect.New(dt).Elem()
		g.fill(x)
		v.Set(x)
	}
}

// tree returns an untyped tree as decoding gives it
func (g *VG) tree(d int) interface{} {
	r := g.R
	k := r.Intn(8)
	if d > 3 {
		k = r.Intn(5)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Bool()
	case 2:
		return r.F64()
	case 3, 4:
		return genGoString(r, g.BadUTF8)
	case 5:
		a := make([]interface{}, r.Intn(4))
		for i := range a {
			a[i] = g.tree(d + 1)
		}
		return a
	default:
		m := map[string]interface{}{}
		n := r.Intn(4)
		if g.OneEntry && n > 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			k := r.Str(simpleKeys)
			if r.P(30) {
				k = genGoString(r, g.BadUTF8)
			}
			m[k] = g.tree(d + 1)
		}
		return m
	}
}

func genInt(r *Rand, bits int) int64 {
	switch r.Intn(5) {
	case 0:
		return int64(r.Intn(3)) - 1
	case 1:
		return int64(r.U64()) >> (64 - uint(bits))
	case 2:
		m := int64(1)<<uint(bits-1) - 1
		return []int64{m, -m - 1, m - int64(r.Intn(3)), -m - 1 + int64(r.Intn(3))}[r.Intn(4)]
	case 3: // around powers of ten
		p := int64(1)
		for n := r.Intn(19); n > 0; n-- {
			p *= 10
		}
		p += int64(r.Intn(3)) - 1
		if r.Bool() {
			p = -p
		}
		return p << (64 - uint(bits)) >> (64 - uint(bits))
	}
	v := int64(r.U64()) >> uint(r.Intn(64))
	return v << (64 - uint(bits)) >> (64 - uint(bits))
}

func genUint(r *Rand, bits int) uint64 {
	sh := 64 - uint(bits)
	switch r.Intn(4) {
	case 0:
		return uint64(r.Intn(3))
	case 1:
		return (math.MaxUint64 - uint64(r.Intn(3))) << sh >> sh
	case 2:
		p := uint64(1)
		for n := r.Intn(20); n > 0; n-- {
			p *= 10
		}
		p += uint64(r.Intn(3)) - 1
		return p << sh >> sh
	}
	return r.U64() >> uint(r.Intn(64)) << sh >> sh
}

// ---- texts for a type ----

// XG writes texts directed by a destination type, with noise
type XG struct {
	R       *Rand
	WS      int
	Noise   int // percent of wrong kinds, nulls, unknown members
	BadUTF8 bool
	Tag     string // name of the struct tag
	// Case: names must match exactly; members whose name is no field get a
	// marker, so that two texts can be made
	Case  bool
	Only  bool
	marks []string
	b     []byte
	depth int
}

func (g *XG) ws() {
	if g.WS > 0 && g.R.P(g.WS) {
		g.b = append(g.b, []string{" ", "\n", "\t", "  ", " \r\n", "      "}[g.R.Intn(6)]...)
	}
}

// hasSlice: decoding twice into the same place differs by design
func hasSlice(t reflect.Type, depth int) bool {
	if depth > 5 {
		return true
	}
	if t == rawType || isHook(t) {
		return t == tOf(JRec{}) // counts its calls
	}
	switch t.Kind() {
	case reflect.Slice:
		return t.Elem().Kind() != reflect.Uint8
	case reflect.Ptr, reflect.Array:
		return hasSlice(t.Elem(), depth+1)
	case reflect.Interface:
		return true
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasSlice(t.Field(i).Type, depth+1) {
				return true
			}
		}
	}
	return false
}

type cand struct {
	name   string
	typ    reflect.Type
	quoted bool
}

func (g *XG) tagName() string {
	if g.Tag == "" {
		return "json"
	}
	return g.Tag
}

func (g *XG) cands(t reflect.Type, depth int) []cand {
	var out []cand
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := f.Tag.Get(g.tagName())
		parts := strings.Split(tag, ",")
		q := false
		for _, o := range parts[1:] {
			q = q || o == "string"
		}
		if f.Anonymous && parts[0] == "" && depth < 4 {
			et := f.Type
			if et.Kind() == reflect.Ptr {
				et = et.Elem()
			}
			if et.Kind() == reflect.Struct && !isHook(et) {
				out = append(out, g.cands(et, depth+1)...)
				out = append(out, cand{f.Name, tOf(0), false})
				continue
			}
		}
		n := parts[0]
		if n == "" || n == "-" && tag == "-" {
			n = f.Name
		}
		out = append(out, cand{n, f.Type, q})
		if n != f.Name && g.R.P(10) {
			out = append(out, cand{f.Name, f.Type, q})
		}
	}
	return out
}

func foldName(s string) string {
	return strings.Map(func(r rune) rune {
		m := r
		for x := unicode.SimpleFold(r); x != r; x = unicode.SimpleFold(x) {
			if x < m {
				m = x
			}
		}
		return m
	}, s)
}

// variant returns a name which differs in case
func caseVariant(r *Rand, s string) string {
	switch r.Intn(7) {
	case 5, 6: // not always a letter: [ and {, @ and `, - and \r, a and !
		b := []byte(s)
		if len(b) > 0 {
			if i := r.Intn(len(b)); b[i] < 0x80 {
				b[i] ^= []byte{0x20, 0x20, 0x40, 0x01}[r.Intn(4)]
			}
		}
		return string(b)
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return strings.Map(func(c rune) rune {
			if r.Bool() {
				return unicode.SimpleFold(c)
			}
			return c
		}, s)
	case 3:
		return strings.NewReplacer("k", "\u212a", "K", "\u212a", "s", "\u017f", "S", "\u017f").Replace(s)
	}
	return strings.Title(s)
}

func (g *XG) keyLit(s string) {
	if g.R.P(12) { // spelled with escapes
		g.b = append(g.b, '"')
		for _, c := range s {
			if g.R.P(50) && c < 0x10000 {
				g.b = append(g.b, fmt.Sprintf(`\u%04x`, c)...)
			} else {
				q, _ := json.Marshal(string(c))
				g.b = append(g.b, q[1:len(q)-1]...)
			}
		}
		g.b = append(g.b, '"')
		return
	}
	g.b = append(g.b, quote(s)...)
}

func (g *XG) other() {
	if g.Case { // no names which might match
		g.b = append(g.b, g.R.Str([]string{"true", "12", `"x"`, "[]", "{}", "[1,null]"})...)
		return
	}
	t := TG{R: g.R, MaxDepth: 2, Budget: 6, WS: g.WS, BadUTF8: g.BadUTF8, Huge: true}
	t.value(0)
	g.b = append(g.b, t.b...)
}

func (g *XG) intLit(bits int, signed bool) string {
	r := g.R
	if g.Noise > 0 && r.P(8) {
		return r.Str(boundInts)
	}
	if g.Noise > 0 && r.P(4) {
		return string(genNumberLit(r, false))
	}
	if g.Noise > 0 && r.P(1) {
		return string(genNumberLike(r))
	}
	if signed {
		return strconv.FormatInt(genInt(r, bits), 10)
	}
	return strconv.FormatUint(genUint(r, bits), 10)
}

func (g *XG) val(t reflect.Type, quoted bool) {
	r := g.R
	g.depth++
	defer func() { g.depth-- }()
	if r.P(g.Noise) {
		switch r.Intn(3) {
		case 0, 1:
			g.b = append(g.b, "null"...)
			return
		default:
			g.other()
			return
		}
	}
	if s, ok := specs[t]; ok && !(t == numberType && quoted) {
		g.b = append(g.b, s.text(r)...)
		return
	}
	emit := func(s string) {
		if quoted && !r.P(g.Noise) {
			if g.Noise > 0 && r.P(5) {
				s = r.Str([]string{"null", "", " " + s, s + " ", "tru", "nul", s + "x", `"` + s + `"`, "true", "1"})
			}
			s = quote(s)
		}
		g.b = append(g.b, s...)
	}
	switch t.Kind() {
	case reflect.Bool:
		emit(r.Str([]string{"true", "false"}))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		emit(g.intLit(t.Bits(), true))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		emit(g.intLit(t.Bits(), false))
	case reflect.Float32:
		if g.Noise > 0 && r.P(30) {
			emit(string(genNumberLit(r, true)))
		} else {
			emit(strconv.FormatFloat(float64(r.F32()), 'g', -1, 32))
		}
	case reflect.Float64:
		emit(string(genNumberLit(r, g.Noise > 0)))
	case reflect.String:
		if t == numberType {
			emit(string(genNumberLit(r, false)))
			return
		}
		l := string(genStringLit(r, g.BadUTF8))
		emit(l)
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 && t.Kind() == reflect.Slice && !isHook(t.Elem()) && !r.P(g.Noise) {
			n := r.Intn(12)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.U64())
			}
			s, _ := json.Marshal(b)
			if g.Noise > 0 && r.P(8) {
				s = []byte(r.Str([]string{`"YQ"`, `"YQ=="`, `"Y Q="`, `"YQ==\n"`, `"Y\u0051=="`, `"\/\/\/\/"`, `"----"`, `"YWJj\nYWJj"`, `"YWJj\r\nYWJj"`, `"="`, `"YWJjZ"`, `"é"`}))
			}
			g.b = append(g.b, s...)
			return
		}
		g.b = append(g.b, '[')
		g.ws()
		n := r.Intn(4)
		if t.Kind() == reflect.Array {
			n = t.Len()
			if r.P(30) {
				n = r.Intn(t.Len() + 3)
			}
		} else if r.P(5) && g.depth < 3 {
			n = r.Range(5, 40)
		}
		if g.depth > 7 {
			n = 0
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				g.b = append(g.b, ',')
				g.ws()
			}
			g.val(t.Elem(), false)
			g.ws()
		}
		g.b = append(g.b, ']')
	case reflect.Map:
		g.b = append(g.b, '{')
		g.ws()
		n := r.Intn(4)
		if r.P(5) && g.depth < 3 {
			n = r.Range(5, 30)
		}
		if g.depth > 7 {
			n = 0
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				g.b = append(g.b, ',')
				g.ws()
			}
			g.mapKey(t.Key())
			g.ws()
			g.b = append(g.b, ':')
			g.ws()
			g.val(t.Elem(), false)
			g.ws()
		}
		g.b = append(g.b, '}')
	case reflect.Ptr:
		if r.P(10) || g.depth > 7 {
			g.b = append(g.b, "null"...)
			return
		}
		g.val(t.Elem(), quoted && t.Name() == "")
	case reflect.Interface:
		g.other()
	case reflect.Struct:
		g.strct(t)
	default:
		g.other()
	}
}

func (g *XG) mapKey(t reflect.Type) {
	r := g.R
	if s, ok := specs[t]; ok {
		x := s.text(r)
		if t == tOf(JT{}) {
			x = r.Str([]string{`"k5"`, `"7"`, `"x"`, `"k\u0036"`})
		}
		if !strings.HasPrefix(x, `"`) {
			x = quote(x)
		}
		g.b = append(g.b, x...)
		return
	}
	switch t.Kind() {
	case reflect.String:
		if r.P(60) {
			g.b = append(g.b, quote(r.Str(simpleKeys))...)
		} else {
			g.b = append(g.b, genStringLit(r, g.BadUTF8)...)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		g.b = append(g.b, quote(g.intLit(t.Bits(), true))...)
	default:
		g.b = append(g.b, quote(g.intLit(t.Bits(), false))...)
	}
}

func (g *XG) strct(t reflect.Type) {
	r := g.R
	g.b = append(g.b, '{')
	g.ws()
	cs := g.cands(t, 0)
	used := map[string]bool{}
	n := len(cs)
	if g.depth > 7 {
		n = 0
	}
	first := true
	sep := func() {
		if !first {
			g.b = append(g.b, ',')
			g.ws()
		}
		first = false
	}
	order := r.perm(n)
	reps := 1
	if r.P(20) {
		reps = 2
	}
	for rep := 0; rep < reps; rep++ {
		for _, i := range order {
			c := cs[i]
			if r.P(20) {
				continue
			}
			name := c.name
			if r.P(20) || g.Case && r.P(30) {
				name = caseVariant(r, name)
			}
			if g.Case {
				// values go where they are meant to
				if name != c.name && visNames(t, g.tagName(), g.Only)[name] {
					name = c.name
				}
				n := 0
				for _, o := range cs {
					if o.name == name {
						n++
					}
				}
				if n > 1 {
					continue
				}
			}
			f := foldName(c.name)
			if used[f] {
				sl := false
				for _, o := range cs {
					if foldName(o.name) == f && hasSlice(o.typ, 0) {
						sl = true
					}
				}
				if sl {
					continue
				}
			}
			used[f] = true
			sep()
			g.memberKey(t, name)
			g.ws()
			g.b = append(g.b, ':')
			g.ws()
			g.val(c.typ, c.quoted)
			g.ws()
		}
	}
	if g.Noise > 0 && r.P(20) {
		k := r.Str([]string{"unknown", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "", "zz", "Unknown_member_with_a_long_name", "é\u0301", "\u212a\u212a"})
		if !used[foldName(k)] {
			sep()
			g.memberKey(t, k)
			g.b = append(g.b, ':')
			g.other()
		}
	}
	g.b = append(g.b, '}')
}

func (g *XG) memberKey(t reflect.Type, name string) {
	if g.Case && !visNames(t, g.tagName(), g.Only)[name] {
		b := g.b
		g.b = nil
		g.keyLit(name)
		g.marks = append(g.marks, string(g.b))
		g.b = append(b, fmt.Sprintf("\"\x00%d\x00\"", len(g.marks)-1)...)
		return
	}
	g.keyLit(name)
}

func textFor(r *Rand, t reflect.Type, noise int, bad bool) []byte {
	g := XG{R: r, Noise: noise, BadUTF8: bad}
	if r.P(40) {
		g.WS = 25
	}
	if r.P(20) {
		g.ws()
	}
	g.val(t, false)
	g.ws()
	return g.b
}
