package main

import "unicode/utf8"

// An independent reference reader for RFC 8259 written from the RFC, with
// byte extents. Strings keep invalid UTF-8 as it is; lone surrogates give
// U+FFFD.

type Kind uint8

const (
	KNull Kind = iota
	KBool
	KNum
	KStr
	KArr
	KObj
)

func (k Kind) String() string {
	return [...]string{"null", "bool", "number", "string", "array", "object"}[k]
}

type Node struct {
	K          Kind
	Start, End int // extent of the value in the text
	B          bool
	Num        string
	S          string
	Keys       []string // decoded
	Elems      []*Node
}

type refp struct {
	b []byte
	i int
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

func (p *refp) ws() {
	for p.i < len(p.b) && isWS(p.b[p.i]) {
		p.i++
	}
}

func isDig(c byte) bool { return c >= '0' && c <= '9' }

// refNumber returns the end of the number literal starting at i, or -1
func refNumber(b []byte, i int) int {
	if i < len(b) && b[i] == '-' {
		i++
	}
	if i >= len(b) || !isDig(b[i]) {
		return -1
	}
	if b[i] == '0' {
		i++
	} else {
		for i < len(b) && isDig(b[i]) {
			i++
		}
	}
	if i < len(b) && b[i] == '.' {
		i++
		if i >= len(b) || !isDig(b[i]) {
			return -1
		}
		for i < len(b) && isDig(b[i]) {
			i++
		}
	}
	if i < len(b) && (b[i] == 'e' || b[i] == 'E') {
		i++
		if i < len(b) && (b[i] == '+' || b[i] == '-') {
			i++
		}
		if i >= len(b) || !isDig(b[i]) {
			return -1
		}
		for i < len(b) && isDig(b[i]) {
			i++
		}
	}
	return i
}

func hex4(b []byte, i int) (rune, bool) {
	if i+4 > len(b) {
		return 0, false
	}
	var r rune
	for _, c := range b[i : i+4] {
		switch {
		case isDig(c):
			r = r<<4 | rune(c-'0')
		case c >= 'a' && c <= 'f':
			r = r<<4 | rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			r = r<<4 | rune(c-'A'+10)
		default:
			return 0, false
		}
	}
	return r, true
}

// refString reads the literal whose opening quote is at i
func refString(b []byte, i int) (s []byte, end int, ok bool) {
	i++
	for i < len(b) {
		c := b[i]
		switch {
		case c == '"':
			return s, i + 1, true
		case c < 0x20:
			return nil, 0, false
		case c != '\\':
			s = append(s, c)
			i++
		default:
			i++
			if i >= len(b) {
				return nil, 0, false
			}
			switch b[i] {
			case '"', '\\', '/':
				s = append(s, b[i])
			case 'b':
				s = append(s, 8)
			case 'f':
				s = append(s, 12)
			case 'n':
				s = append(s, 10)
			case 'r':
				s = append(s, 13)
			case 't':
				s = append(s, 9)
			case 'u':
				r, ok := hex4(b, i+1)
				if !ok {
					return nil, 0, false
				}
				i += 4
				if r >= 0xd800 && r < 0xe000 {
					if r < 0xdc00 && i+2 < len(b) && b[i+1] == '\\' && b[i+2] == 'u' {
						if r2, ok := hex4(b, i+3); ok && r2 >= 0xdc00 && r2 < 0xe000 {
							s = utf8.AppendRune(s, 0x10000+(r-0xd800)<<10+(r2-0xdc00))
							i += 6
							break
						}
					}
					r = 0xfffd
				}
				s = utf8.AppendRune(s, r)
			default:
				return nil, 0, false
			}
			i++
		}
	}
	return nil, 0, false
}

// value parses iteratively one value at p.i (no leading white space)
func (p *refp) value() *Node {
	type frame struct{ n *Node }
	var stack []*Node
	for {
		// read a value
		if p.i >= len(p.b) {
			return nil
		}
		n := &Node{Start: p.i}
		done := true
		switch c := p.b[p.i]; {
		case c == 'n':
			if !p.lit("null") {
				return nil
			}
			n.K = KNull
		case c == 't':
			if !p.lit("true") {
				return nil
			}
			n.K, n.B = KBool, true
		case c == 'f':
			if !p.lit("false") {
				return nil
			}
			n.K = KBool
		case c == '"':
			s, e, ok := refString(p.b, p.i)
			if !ok {
				return nil
			}
			n.K, n.S = KStr, string(s)
			p.i = e
		case c == '-' || isDig(c):
			e := refNumber(p.b, p.i)
			if e < 0 {
				return nil
			}
			n.K, n.Num = KNum, string(p.b[p.i:e])
			p.i = e
		case c == '[':
			n.K = KArr
			p.i++
			p.ws()
			if p.i < len(p.b) && p.b[p.i] == ']' {
				p.i++
			} else {
				done = false
			}
		case c == '{':
			n.K = KObj
			p.i++
			p.ws()
			if p.i < len(p.b) && p.b[p.i] == '}' {
				p.i++
			} else {
				if !p.key(n) {
					return nil
				}
				done = false
			}
		default:
			return nil
		}
		if !done {
			stack = append(stack, n)
			continue
		}
		// close as many containers as possible
		for {
			n.End = p.i
			if len(stack) == 0 {
				return n
			}
			top := stack[len(stack)-1]
			top.Elems = append(top.Elems, n)
			p.ws()
			if p.i >= len(p.b) {
				return nil
			}
			c := p.b[p.i]
			p.i++
			if c == ',' {
				p.ws()
				if top.K == KObj && !p.key(top) {
					return nil
				}
				break
			}
			if (top.K == KArr && c == ']') || (top.K == KObj && c == '}') {
				stack = stack[:len(stack)-1]
				n = top
				continue
			}
			return nil
		}
	}
}

func (p *refp) key(n *Node) bool {
	if p.i >= len(p.b) || p.b[p.i] != '"' {
		return false
	}
	s, e, ok := refString(p.b, p.i)
	if !ok {
		return false
	}
	p.i = e
	p.ws()
	if p.i >= len(p.b) || p.b[p.i] != ':' {
		return false
	}
	p.i++
	p.ws()
	n.Keys = append(n.Keys, string(s))
	return true
}

func (p *refp) lit(s string) bool {
	if len(p.b)-p.i < len(s) || string(p.b[p.i:p.i+len(s)]) != s {
		return false
	}
	p.i += len(s)
	return true
}

// refPrefix parses one value starting at pos after optional white space
func refPrefix(b []byte, pos int) *Node {
	p := refp{b: b, i: pos}
	p.ws()
	return p.value()
}

// refDoc parses the whole text as one document
func refDoc(b []byte) *Node {
	p := refp{b: b}
	p.ws()
	n := p.value()
	if n == nil {
		return nil
	}
	p.ws()
	if p.i != len(b) {
		return nil
	}
	return n
}

func skipWS(b []byte, i int) int {
	for i < len(b) && isWS(b[i]) {
		i++
	}
	return i
}
