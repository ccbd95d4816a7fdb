package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"strings"

	"github.com/zerosnake0/jzon"
)

// Results of every size: buffers of the library are exactly full at some sizes
// (those of the allocator's classes, in particular), results are split at some
// (64 and 512 byte buffers of a reader). Every size up to 8192 and those around
// the larger classes are decoded and encoded, the results are retained while
// texts of the same size pass through the same pools.

var sizeBounds = func() (out []int) {
	add := func(n int) {
		for d := -3; d <= 3; d++ {
			out = append(out, n+d)
		}
	}
	for _, n := range []int{8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768, 40960, 49152, 57344, 65536, 73728, 81920, 98304, 106496, 131072, 139264, 163840, 172032, 196608, 212992, 262144} {
		add(n)
	}
	return
}()

const sizesPerCase = 8

type sizeEnc struct{ s string }

func (e sizeEnc) MarshalJSON() ([]byte, error) { return []byte(`"` + e.s + `"`), nil }

type sizeText struct{ s string }

func (e sizeText) MarshalText() ([]byte, error) { return []byte(e.s), nil }

type sizeStruct struct {
	A int
	B string `json:"b,omitempty"`
	C json.RawMessage
	D interface{} `json:"d"`
}

type keptB struct {
	what string
	now  []byte
	was  []byte
}

type keptS struct {
	what string
	now  string
	was  string
}

// sizeStr is a string of n bytes
func sizeStr(r *Rand, n int) string {
	if n <= 0 {
		return ""
	}
	b := bytes.Repeat([]byte{byte('a' + r.Intn(26))}, n)
	switch r.Intn(5) {
	case 0:
		b[r.Intn(n)] = '\n'
	case 1:
		b[n-1] = '"'
	case 2:
		b[0] = '\\'
	case 3:
		if i := r.Intn(n); i+3 <= n {
			copy(b[i:], "\u20ac")
		}
	}
	return string(b)
}

func engSizes(c *C) {
	r := c.R
	for k := 0; k < sizesPerCase; k++ {
		i := c.Idx*sizesPerCase + k
		n := i
		if i > 8192 {
			i -= 8193
			if i < len(sizeBounds) {
				n = sizeBounds[i]
			} else {
				n = r.Intn(300000)
			}
		}
		if r.Intn(400) == 0 { // start with empty pools
			runtime.GC()
			runtime.GC()
			c.Feat("pools emptied")
		}
		sizeCase(c, n)
		c.Seen(mix(uint64(n), r.U64()), n > 0)
		c.FeatIf(n > 512, "size>512")
		c.FeatIf(n > 8192, "size>8192")
	}
}

func sizeCase(c *C, n int) {
	r := c.R
	var kb []keptB
	var ks []keptS
	keepB := func(what string, b []byte) {
		kb = append(kb, keptB{what, b, append([]byte(nil), b...)})
	}
	keepS := func(what, s string) {
		ks = append(ks, keptS{what, s, strings.Clone(s)})
	}
	check := func() {
		for _, k := range kb {
			if !bytes.Equal(k.now, k.was) {
				c.Failf("size %d: the result of %s changed after later calls: %s became %s", n, k.what, q(k.was), q(k.now))
			}
		}
		for _, k := range ks {
			if k.now != k.was {
				c.Failf("size %d: the result of %s changed after later calls: %s became %s", n, k.what, q([]byte(k.was)), q([]byte(k.now)))
			}
		}
	}
	rounds, kept := 2, 3
	if n > 20000 {
		rounds = 1
		kept = 2
	}
	for round := 0; round < rounds; round++ {
		// encoding
		for f := 0; f < kept; f++ {
			var v interface{}
			switch r.Intn(9) {
			case 0:
				v = sizeStr(r, n-2)
			case 1:
				v = []byte(sizeStr(r, (n-2)/4*3))
			case 2:
				v = json.RawMessage(`"` + strings.Repeat("r", n) + `"`)
			case 3:
				v = []string{sizeStr(r, n/2), sizeStr(r, n-n/2-6)}
			case 4:
				v = map[string]interface{}{sizeStr(r, n/2): sizeStr(r, n/2)}
			case 5:
				v = sizeEnc{strings.Repeat("m", n)}
			case 6:
				v = sizeText{sizeStr(r, n-2)}
			case 7:
				v = sizeStruct{n, sizeStr(r, n/3), json.RawMessage(`"` + strings.Repeat("r", n/3) + `"`), sizeStr(r, n/3)}
			case 8:
				v = make([]int, n/2+1)
			}
			want, err := json.Marshal(v)
			if err != nil {
				panic(harnessErr(err.Error()))
			}
			c.Note("size %d: encoding a %T", n, v)
			var got []byte
			what := fmt.Sprintf("encoding a %T", v)
			switch r.Intn(6) {
			case 0:
				var w bytes.Buffer
				e := jzon.NewEncoder(&w)
				err = e.Encode(v)
				e.Release()
				got = bytes.TrimSuffix(w.Bytes(), []byte{'\n'})
			case 1:
				var w bytes.Buffer
				s := jzon.NewStreamer()
				s.Reset(&w)
				err = s.Value(v).Flush()
				s.Release()
				got = w.Bytes()
			default:
				got, err = jzon.Marshal(v)
				what = fmt.Sprintf("Marshal of a %T", v)
			}
			if err != nil || !bytes.Equal(got, want) {
				c.Failf("%s of size %d gives %s, %v; expected %s", what, n, q(got), err, q(want))
			}
			keepB(what, got)
			c.Feat("size encoded")
		}
		// decoding
		s := sizeStr(r, n)
		lit, err := json.Marshal(s)
		if err != nil {
			panic(harnessErr(err.Error()))
		}
		if r.Bool() { // escapes in the text which the encoder does not write
			lit = bytes.Replace(lit, []byte("a"), []byte(`\u0061`), 1)
			lit = bytes.Replace(lit, []byte("b"), []byte(`\u0062`), r.Intn(3))
		}
		for f := 0; f < kept; f++ {
			fail := func(what string, err error, got interface{}) {
				c.Failf("%s of a string of %d bytes: %v, got %s; expected %s", what, n, err, q([]byte(fmt.Sprint(got))), q([]byte(s)))
			}
			c.Note("size %d: decoding", n)
			switch r.Intn(10) {
			case 0, 1:
				it := openAny(r, lit)
				x, err := it.ReadString()
				it.Release()
				if err != nil || x != s {
					fail("ReadString", err, x)
				}
				keepS("ReadString", x)
			case 2:
				it := openAny(r, lit)
				x, err := it.ReadStringAndAppend(nil)
				it.Release()
				if err != nil || string(x) != s {
					fail("ReadStringAndAppend", err, x)
				}
				keepB("ReadStringAndAppend", x)
			case 3:
				it := openAny(r, lit)
				x, err := it.ReadRaw()
				it.Release()
				if err != nil || !bytes.Equal(x, lit) {
					fail("ReadRaw", err, x)
				}
				keepB("ReadRaw", x)
			case 4:
				var x string
				if err := decAny(r, lit, &x); err != nil || x != s {
					fail("decoding into a string", err, x)
				}
				keepS("decoding into a string", x)
			case 5:
				var x struct {
					A []json.RawMessage
				}
				t := cat(`{"A":[`, lit, `,`, lit, `]}`)
				if err := decAny(r, t, &x); err != nil || len(x.A) != 2 || !bytes.Equal(x.A[0], lit) || !bytes.Equal(x.A[1], lit) {
					fail("decoding into raw messages", err, x)
				}
				keepB("decoding into a raw message", x.A[0])
				keepB("decoding into a raw message", x.A[1])
			case 6:
				var x interface{}
				t := cat(`{`, lit, `:[`, lit, `]}`)
				if err := decAny(r, t, &x); err != nil || !reflect.DeepEqual(x, map[string]interface{}{s: []interface{}{s}}) {
					fail("decoding into an interface", err, x)
				}
				for key, e := range x.(map[string]interface{}) {
					keepS("decoding a key", key)
					keepS("decoding into an interface", e.([]interface{})[0].(string))
				}
			case 7:
				raw := []byte(s)
				b64, _ := json.Marshal(raw)
				var x []byte
				if err := decAny(r, b64, &x); err != nil || string(x) != s {
					fail("decoding into a byte slice", err, x)
				}
				keepB("decoding into a byte slice", x)
			case 8:
				d := append([]byte("1"), bytes.Repeat([]byte{'0'}, n)...)
				var x json.Number
				if err := decAny(r, d, &x); err != nil || string(x) != string(d) {
					fail("decoding into a json.Number", err, x)
				}
				keepS("decoding into a json.Number", string(x))
			case 9:
				var x map[string]string
				t := cat(`{"x":"y",`, lit, `:`, lit, `}`)
				if err := decAny(r, t, &x); err != nil || x[s] != s {
					fail("decoding into a map", err, x)
				}
				for key, e := range x {
					keepS("decoding a map key", key)
					keepS("decoding a map value", e)
				}
			}
			c.Feat("size decoded")
		}
		check()
	}
}

func init() {
	reg("sizes", engSizes, "size encoded", "size decoded", "pools emptied", "size>512", "size>8192")
}
