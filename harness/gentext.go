package main

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

// TG generates JSON texts
type TG struct {
	R        *Rand
	WS       int // percent chance of white space between tokens
	MaxDepth int
	Budget   int  // remaining nodes
	BadUTF8  bool // may contain invalid UTF-8 in strings
	Huge     bool // may contain numbers out of the float64 range
	b        []byte
}

func (g *TG) ws() {
	if g.WS > 0 && g.R.P(g.WS) {
		n := 1
		if g.R.P(20) {
			n = g.R.Range(1, 6)
		}
		if g.R.P(2) {
			n = g.R.Range(1, 600)
		}
		for i := 0; i < n; i++ {
			g.b = append(g.b, " \t\r\n"[g.R.Intn(4)])
		}
	}
}

var simpleKeys = []string{"a", "b", "c", "A", "B", "key", "Key", "", "x1", "é", "K", "name"}

func (g *TG) key() {
	if g.R.P(60) {
		g.b = strconv.AppendQuote(g.b, g.R.Str(simpleKeys))
		return
	}
	g.b = append(g.b, genStringLit(g.R, g.BadUTF8)...)
}

func (g *TG) value(depth int) {
	g.Budget--
	k := g.R.Intn(100)
	if depth >= g.MaxDepth || g.Budget <= 0 {
		k = g.R.Intn(60)
	}
	switch {
	case k < 8:
		g.b = append(g.b, "null"...)
	case k < 14:
		g.b = append(g.b, "true"...)
	case k < 20:
		g.b = append(g.b, "false"...)
	case k < 40:
		g.b = append(g.b, genNumberLit(g.R, g.Huge)...)
	case k < 60:
		g.b = append(g.b, genStringLit(g.R, g.BadUTF8)...)
	case k < 80:
		g.b = append(g.b, '[')
		g.ws()
		n := g.size()
		for i := 0; i < n; i++ {
			if i > 0 {
				g.b = append(g.b, ',')
				g.ws()
			}
			g.value(depth + 1)
			g.ws()
		}
		g.b = append(g.b, ']')
	default:
		g.b = append(g.b, '{')
		g.ws()
		n := g.size()
		for i := 0; i < n; i++ {
			if i > 0 {
				g.b = append(g.b, ',')
				g.ws()
			}
			g.key()
			g.ws()
			g.b = append(g.b, ':')
			g.ws()
			g.value(depth + 1)
			g.ws()
		}
		g.b = append(g.b, '}')
	}
}

func (g *TG) size() int {
	switch g.R.Intn(10) {
	case 0, 1:
		return 0
	case 2, 3:
		return 1
	case 9:
		return g.R.Range(3, 20)
	}
	return g.R.Range(1, 4)
}

// genValid returns one valid document
func genValid(r *Rand, badUTF8 bool) []byte {
	g := TG{R: r, MaxDepth: r.Range(1, 6), Budget: 60, BadUTF8: badUTF8}
	if r.P(50) {
		g.WS = r.Range(5, 60)
	}
	if r.P(5) {
		g.Budget = 600
		g.MaxDepth = 10
	}
	if r.P(30) {
		g.ws()
	}
	g.value(0)
	g.ws()
	return g.b
}

// genDeep returns a deeply nested document with mixed containers
func genDeep(r *Rand, maxDepth int) []byte {
	var d int
	switch r.Intn(5) {
	case 0:
		d = r.Range(60, 68)
	case 1:
		d = r.Range(124, 132)
	case 2:
		d = r.Range(188, 196)
	case 3:
		d = r.Range(1, 300)
	default:
		d = r.Range(1, maxDepth)
	}
	return nest(r, d)
}

func nest(r *Rand, d int) []byte {
	var open, cl []byte
	mode := r.Intn(4) // 0: arrays, 1: objects, 2,3: mixed
	pre := r.P(40)
	post := r.P(40)
	var closers [][]byte
	for i := 0; i < d; i++ {
		arr := mode == 0 || (mode >= 2 && r.Bool())
		if arr {
			open = append(open, '[')
			if pre && r.P(30) {
				open = append(open, r.Str([]string{"1,", "[],", "{},", `"x",`, "null,", `[{"a":[]}],`})...)
			}
			c := "]"
			if post && r.P(30) {
				c = r.Str([]string{",2]", ",[]]", ",{}]", " ]", ",[[],{}]]"})
			}
			closers = append(closers, []byte(c))
		} else {
			open = append(open, '{')
			if pre && r.P(30) {
				open = append(open, r.Str([]string{`"p":1,`, `"p":[],`, `"p":{},`, `"q":"s",`})...)
			}
			open = append(open, `"k":`...)
			c := "}"
			if post && r.P(30) {
				c = r.Str([]string{`,"z":2}`, `,"z":[]}`, `,"z":{}}`, " }", `,"z":[{},[]]}`})
			}
			closers = append(closers, []byte(c))
		}
	}
	open = append(open, r.Str([]string{"1", "null", `"s"`, "[]", "{}", "true", "-0.5e1"})...)
	for i := len(closers) - 1; i >= 0; i-- {
		cl = append(cl, closers[i]...)
	}
	return append(open, cl...)
}

func digits(r *Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return b
}

var boundInts = []string{"0", "-0", "1", "-1", "9", "10", "99", "100", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536",
	"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967299", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551615", "18446744073709551616", "18446744073709551619", "18446744073709551620", "99999999999999999999", "9007199254740991", "9007199254740992", "9007199254740993", "12345678901234567890123",
	"6553", "6554", "65530", "429496729", "429496730", "4294967290", "1844674407370955161", "1844674407370955162", "18446744073709551610", "1000000000", "10000000000", "100000000000000000000"}

// genNumberLit returns a grammatical number literal
func genNumberLit(r *Rand, huge bool) []byte {
	var b []byte
	switch r.Intn(12) {
	case 0, 1, 2:
		b = strconv.AppendInt(b, int64(r.Intn(2000)-1000), 10)
		return b
	case 3:
		return append(b, r.Str(boundInts)...)
	case 4:
		return strconv.AppendInt(b, int64(r.U64())>>uint(r.Intn(64)), 10)
	case 5:
		return strconv.AppendFloat(b, r.F64(), 'g', -1, 64)
	case 6:
		return strconv.AppendFloat(b, r.F64(), 'e', r.Range(0, 25), 64)
	case 7:
		f := float64(int64(r.U64())) / float64(uint64(1)<<uint(r.Intn(63)))
		return strconv.AppendFloat(b, f, 'f', r.Range(0, 30), 64)
	}
	if r.P(30) {
		b = append(b, '-')
	}
	if r.P(25) {
		b = append(b, '0')
	} else {
		b = append(b, byte('1'+r.Intn(9)))
		n := r.Intn(8)
		if r.P(10) {
			n = r.Range(10, 40)
		}
		b = append(b, digits(r, n)...)
	}
	if r.P(50) {
		b = append(b, '.')
		n := r.Range(1, 6)
		if r.P(15) {
			n = r.Range(10, 40)
		}
		if r.P(2) {
			n = r.Range(60, 70)
		}
		if r.P(1) {
			n = r.Range(500, 520)
		}
		b = append(b, digits(r, n)...)
	}
	if r.P(40) {
		b = append(b, "eE"[r.Intn(2)])
		if r.P(50) {
			b = append(b, "+-"[r.Intn(2)])
		}
		if r.P(10) {
			b = append(b, "00"[:r.Range(1, 2)]...)
		}
		e := r.Intn(30)
		if r.P(10) {
			e = r.Intn(300)
		}
		if huge && r.P(15) {
			e = r.Range(290, 420)
		}
		b = strconv.AppendInt(b, int64(e), 10)
	}
	return b
}

// genNumberLike returns a literal that is often malformed
func genNumberLike(r *Rand) []byte {
	if r.P(40) {
		b := genNumberLit(r, true)
		for n := r.Range(1, 2); n > 0; n-- {
			b = mutate1(r, b, numBytes)
		}
		return b
	}
	n := r.Range(1, 7)
	b := make([]byte, n)
	for i := range b {
		b[i] = numBytes[r.Intn(len(numBytes))]
	}
	return b
}

var numBytes = []byte("0012345678999--+..eE")

var strAtoms = []string{"a", "b", "Z", "0", " ", "/", "<", ">", "&", "'", "\u00e9", "ß", "中", "\u2028", "\u2029", "\ufffd", "😀", "\U0010ffff", "\u0080", "\u07ff", "\u0800", "\uffff", "K", "ſ", "\x7f",
	`\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`, `\u0041`, `\u00e9`, `\u00E9`, `\u4e2d`, `\u0000`, `\u001f`, `\u007f`, `\u0080`, `\u07ff`, `\u0800`, `\uffff`, `\uFFFD`, `\u2028`, `\u003c`, `\u0022`, `\u005c`, `\ud83d\ude00`, `\uD83D\uDE00`, `\udbff\udfff`, `\ud800\udc00`,
	`\ud83d`, `\ude00`, `\ud83d\ud83d`, `\ud83dx`, `\ud83d\n`, `\ud83d\u0041`, `\ude00\ud83d`, `\ud83d\"`, `\udfff`, `\ud800`, `\udbff`, `\udc00`, `\ud83d\ud83d\ude00`, `\ud800\u00e9`, `\ue000`, `\ud7ff`}

var badUTF8Atoms = []string{"\xff", "\x80", "\xc0\x80", "\xe4\xb8", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc3", "\xf4\x90\x80\x80", "\xbf\xbf", "\xe2\x80"}

const plainChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-.,:;[]{}"

func strLen(r *Rand) int {
	switch r.Intn(20) {
	case 0:
		return r.Range(58, 70)
	case 1:
		if r.P(30) {
			return r.Range(505, 520)
		}
		return r.Range(120, 132)
	case 2:
		return r.Range(8, 40)
	case 3:
		return 0
	}
	return r.Range(0, 10)
}

// genStringLit returns a grammatical string literal with quotes
func genStringLit(r *Rand, bad bool) []byte {
	b := []byte{'"'}
	n := strLen(r)
	mode := r.Intn(4)
	for len(b)-1 < n {
		switch {
		case mode == 0 || r.P(60):
			b = append(b, plainChars[r.Intn(len(plainChars))])
		case bad && r.P(15):
			b = append(b, r.Str(badUTF8Atoms)...)
		default:
			b = append(b, r.Str(strAtoms)...)
		}
	}
	return append(b, '"')
}

var badStrAtoms = []string{`\`, `\x`, `\a`, `\u`, `\u1`, `\u12`, `\u123`, `\u12g4`, `\u 123`, `\uD83D\u`, `\uD83D\u12`, `\ud83d\`, `\ud83d\x`, `\U0041`, `\'`, "\x00", "\x1f", "\n", "\t", `"`, `\0`, `\v`, `\ud83d\udzzz`, `\u-123`, `\u+123`, "\x01", `\ude0`, `\uG000`, `\u000G`, `\"`, "\r", "\x08", `\u00/0`, "\\u00:0", "\\u00@0", "\\u00`0"}

// genStringLike is often malformed
func genStringLike(r *Rand) []byte {
	b := genStringLit(r, true)
	for n := r.Range(1, 2); n > 0; n-- {
		pos := r.Range(0, len(b))
		a := r.Str(badStrAtoms)
		b = append(b[:pos:pos], append([]byte(a), b[pos:]...)...)
	}
	return b
}

var interesting = []byte("\"\\{}[],:0123456789-+.eEtrufalsn \t\r\n\x00\x1f\x7f\x80\xffux/bN'")

func mutate1(r *Rand, b []byte, pool []byte) []byte {
	if len(b) == 0 {
		return []byte{pool[r.Intn(len(pool))]}
	}
	pos := r.Intn(len(b))
	out := append([]byte(nil), b...)
	switch r.Intn(7) {
	case 0: // delete
		out = append(out[:pos], out[pos+1:]...)
	case 1: // replace
		out[pos] = pool[r.Intn(len(pool))]
	case 2: // insert
		out = append(out[:pos], append([]byte{pool[r.Intn(len(pool))]}, b[pos:]...)...)
	case 3: // duplicate a short run
		n := r.Range(1, 4)
		if pos+n > len(b) {
			n = len(b) - pos
		}
		out = append(out[:pos+n], b[pos:]...)
	case 4: // truncate
		out = out[:pos]
	case 5: // swap
		if pos+1 < len(out) {
			out[pos], out[pos+1] = out[pos+1], out[pos]
		}
	case 6: // random byte
		out[pos] = byte(r.U64())
	}
	return out
}

func mutate(r *Rand, b []byte) []byte {
	n := 1
	if r.P(30) {
		n = r.Range(2, 4)
	}
	for ; n > 0; n-- {
		b = mutate1(r, b, interesting)
	}
	return b
}

// structural mutation: damage separators and brackets
func mutateTok(r *Rand, b []byte) []byte {
	var pos []int
	for i, c := range b {
		if strings.IndexByte("{}[],:\"", c) >= 0 {
			pos = append(pos, i)
		}
	}
	if len(pos) == 0 {
		return mutate(r, b)
	}
	p := pos[r.Intn(len(pos))]
	out := append([]byte(nil), b...)
	switch r.Intn(5) {
	case 0:
		out[p] = "{}[],:\""[r.Intn(7)]
	case 1:
		out = append(out[:p], out[p+1:]...)
	case 2:
		out = append(out[:p], append([]byte{"{}[],:\" 1n"[r.Intn(10)]}, b[p:]...)...)
	case 3:
		out = append(out[:p+1], append([]byte{b[p]}, b[p+1:]...)...)
	case 4:
		out = append(out[:p+1], append([]byte(r.Str([]string{"null", " ", "1", "\"k\":", ",", "true", "\v", "\u00a0", "\ufeff", "//", "/**/", "\x00"})), b[p+1:]...)...)
	}
	return out
}

// genText returns any text: mostly valid or nearly valid
func genText(r *Rand) []byte {
	k := r.Intn(100)
	switch {
	case k < 35:
		return genValid(r, r.P(15))
	case k < 42:
		return padText(r, genValid(r, false))
	case k < 47:
		return genDeep(r, 300)
	case k < 60:
		return mutate(r, genValid(r, r.P(15)))
	case k < 72:
		return mutateTok(r, genValid(r, false))
	case k < 78:
		return wrapTok(r, genNumberLike(r))
	case k < 86:
		return wrapTok(r, genStringLike(r))
	case k < 90:
		return mutateTok(r, genDeep(r, 140))
	case k < 94:
		b := genValid(r, false)
		return b[:r.Intn(len(b)+1)]
	case k < 97:
		b := append(genValid(r, false), r.Str([]string{"", " ", ",", "1", "null", "\x00", "]", "}", "\"", "x", "\n\n", "/", "\ufeff"})...)
		if r.P(20) {
			b = append([]byte(r.Str([]string{"\ufeff", "\x00", "\v", " ", "\u00a0", ","})), b...)
		}
		return b
	default:
		n := r.Range(0, 12)
		b := make([]byte, n)
		for i := range b {
			b[i] = interesting[r.Intn(len(interesting))]
		}
		return b
	}
}

// padText moves the document so that its tokens meet the boundaries of the
// internal windows (64 and 512 bytes)
func padText(r *Rand, b []byte) []byte {
	var n int
	switch r.Intn(3) {
	case 0:
		n = r.Range(0, 70)
	case 1:
		n = r.Range(440, 520)
	case 2:
		n = 64*r.Range(1, 9) - r.Intn(8)
	}
	pad := make([]byte, n, n+len(b))
	for i := range pad {
		pad[i] = ' '
	}
	return append(pad, b...)
}

// wrapTok places a token in some context
func wrapTok(r *Rand, t []byte) []byte {
	s := string(t)
	switch r.Intn(9) {
	case 0:
		s = "[" + s + "]"
	case 1:
		s = `{"a":` + s + "}"
	case 2:
		s = "[1," + s + ",2]"
	case 3:
		s = `{"a":1,"b":` + s + `,"c":3}`
	case 4:
		s = "{" + s + ":1}"
	case 5:
		s = " " + s + " "
	case 6:
		s = `[[{"x":` + s + `}]]`
	case 7:
		s = `{"a":1,` + s + `:[]}`
	}
	return []byte(s)
}

// std replaces every invalid byte with U+FFFD
func toValid(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	return string([]rune(s))
}
