package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/zerosnake0/jzon"
)

// Streams longer than the integers of a 32-bit platform can count, and the
// 32-bit build of everything else (C23).

// longSource is a stream of background bytes with pieces at given places
type longSource struct {
	c      *C
	fillB  []byte // background, repeated
	places []int64
	pieces []string
	i      int
	pos    int64
	total  int64
	max    int // bytes per read
	reads  int
}

func (g *longSource) Read(p []byte) (int, error) {
	g.reads++
	if g.reads&0xffff == 0 {
		g.c.Tick()
	}
	if g.pos >= g.total {
		return 0, io.EOF
	}
	if len(p) > g.max {
		p = p[:g.max]
	}
	if int64(len(p)) > g.total-g.pos {
		p = p[:g.total-g.pos]
	}
	// the background has a period of one byte
	n := 0
	for n < len(p) {
		n += copy(p[n:], g.fillB)
	}
	end := g.pos + int64(len(p))
	for j := g.i; j < len(g.places) && g.places[j] < end; j++ {
		at, s := g.places[j], g.pieces[j]
		off := at - g.pos
		if off < 0 {
			s = s[-off:]
			off = 0
		}
		copy(p[off:], s)
	}
	for g.i < len(g.places) && g.places[g.i]+int64(len(g.pieces[g.i])) <= end {
		g.i++
	}
	g.pos = end
	return len(p), nil
}

func engLong(c *C) {
	r := c.R
	total := int64(1)<<31 + int64(r.Range(1<<20, 1<<26))
	if c.Thorough() && r.P(50) {
		total = int64(1)<<32 + int64(r.Range(1<<20, 1<<26))
	}
	g := &longSource{c: c, fillB: bytes.Repeat([]byte{" \n\t"[r.Intn(3)]}, 1<<16), total: total, max: 1 << 30}
	if r.P(30) {
		g.max = r.Range(200, 4000)
	}
	kind := r.Intn(3)
	put := func(at int64, s string) {
		g.places = append(g.places, at)
		g.pieces = append(g.pieces, s)
	}
	// values in a white desert, more of them around the limits
	var at int64
	for at < total-1000 {
		put(at, fmt.Sprintf(`[%d,"x"]`, at))
		step := int64(r.Range(1<<18, 1<<26))
		for _, lim := range []int64{1 << 30, 1 << 31, 3 << 30, 1 << 32} {
			if at < lim && at+step > lim-5000 && at < lim+5000 {
				step = int64(r.Range(40, 3000))
				if at < lim-8000 {
					step = lim - 5000 - at
				}
				break
			}
		}
		at += step
	}
	switch kind {
	case 1: // all but the last in one array
		c.Feat("one long value skipped")
		n := len(g.places)
		for i := range g.pieces[:n-1] {
			switch i {
			case 0:
				g.pieces[i] = "[0 "
			case n - 2:
				g.pieces[i] = ",1] "
			default:
				g.pieces[i] = fmt.Sprintf(",[%d]", g.places[i])
			}
		}
	case 2:
		c.Feat("one long member ignored")
		n := len(g.places)
		for i := range g.pieces[:n-1] {
			switch i {
			case 0:
				g.pieces[i] = `{"zz":0`
			case n - 2:
				g.pieces[i] = `,"B":7} `
			default:
				g.pieces[i] = fmt.Sprintf(`,"z":[%d]`, g.places[i])
			}
		}
	default:
		c.Feat("many values")
	}
	c.SeenB([]byte(fmt.Sprint(total, kind, len(g.places), g.max)), true)
	cfg := jzon.DefaultDecoderConfig
	if kind == 1 {
		it := cfg.NewIterator()
		it.Reset(g)
		if err := it.Skip(); err != nil {
			c.Failf("skipping an array of %d bytes: %v", total, err)
		}
		v, err := it.Read()
		last := g.places[len(g.places)-1]
		if want := fmt.Sprintf("[%v x]", float64(last)); err != nil || fmt.Sprint(v) != want {
			c.Failf("after an array of %d bytes: %v %v, want %v", last, v, err, want)
		}
		if _, err := it.NextValueType(); err != io.EOF {
			c.Failf("end of the stream: %v", err)
		}
		it.Release()
		return
	}
	d := cfg.NewDecoder(g)
	defer d.Release()
	first := 0
	if kind == 2 {
		var x struct{ A, B int }
		if err := d.Decode(&x); err != nil || x.B != 7 {
			c.Failf("object of %d bytes: %v %+v", total, err, x)
		}
		first = len(g.places) - 2
		want := g.places[first] + int64(len(g.pieces[first])) - 1
		if o := d.InputOffset(); o != want {
			c.Failf("offset after an object of %d bytes: %d", want, o)
		}
		first++
	}
	for i := first; i < len(g.places); i++ {
		if i&0xff == 0 {
			c.Tick()
		}
		if r.P(50) && !d.More() {
			c.Failf("no more values before value %d at %d: offset %d", i, g.places[i], d.InputOffset())
		}
		var v []interface{}
		if err := d.Decode(&v); err != nil {
			c.Failf("value %d at %d of %d: %v", i, g.places[i], total, err)
		}
		if len(v) != 2 || v[0] != float64(g.places[i]) || v[1] != "x" {
			c.Failf("value %d at %d of %d: %v", i, g.places[i], total, v)
		}
		end := g.places[i] + int64(len(g.pieces[i]))
		if o := d.InputOffset(); o != end {
			c.Failf("offset %d after the value which ends at %d", o, end)
		}
		c.FeatIf(end > 1<<31, "offset beyond 31 bits")
	}
	var v interface{}
	if err := d.Decode(&v); err != io.EOF {
		c.Failf("end of the stream: %v %v", v, err)
	}
	if o := d.InputOffset(); o != total {
		c.Failf("offset %d at the end of %d bytes", o, total)
	}
}

var b386 = []string{"GOARCH=386", "CGO_ENABLED=0"}

func init() {
	reg("long-stream", engLong, "many values", "offset beyond 31 bits")
	prop(&Prop{ID: "C23", Level: "exploration",
		Rule:        "the monitors of the other properties, built for GOARCH=386, judge executions of the 32-bit code against their oracles built for the same platform and against references with fixed-size integers; long-stream reads streams of more than 2^31 bytes; a case is what it is in these engines",
		Assumptions: []string{"the 386 build stands for the 32-bit platforms of Go", "encoding/json, strconv and math/big of go1.23 on 386"},
		Variants: []Variant{
			{Name: "386", Build: b386, Runs: []Run{
				{"num-int", 60000, 1500000}, {"num-int-ex", 500, 2200}, {"num-float", 20000, 500000}, {"num-write", 20000, 400000},
				{"typed", 100000, 3000000}, {"typed-seq", 20000, 500000}, {"encode", 60000, 2000000}, {"encode-fixed", 20000, 300000},
				{"round", 30000, 800000}, {"structs", 30000, 800000}, {"fields-many", 10000, 300000},
				{"opt-dec", 20000, 600000}, {"opt-enc", 30000, 600000}, {"hooks-dec", 30000, 800000}, {"hooks-enc", 40000, 800000}, {"hooks-verbatim", 10000, 200000},
				{"untyped", 6000, 200000}, {"untyped-big", 400, 6000}, {"skip", 10000, 200000}, {"valid", 3000, 100000}, {"str", 15000, 300000}, {"str-out", 15000, 300000},
				{"chunks", 10000, 200000}, {"chunks-big", 500, 6000}, {"walk", 15000, 300000}, {"walk-chunks", 8000, 100000}, {"strict", 4000, 60000},
				{"stream", 20000, 500000}, {"stream-fault", 15000, 300000}, {"trunc", 5000, 100000}, {"write-fault", 30000, 400000}, {"streamer", 60000, 1000000},
				{"alias", 20000, 400000}, {"fresh", 20000, 300000}, {"sizes", 150, 2000}, {"large-dec", 1500, 30000}, {"large-enc", 1500, 30000},
				{"err-text", 20000, 400000}, {"err-typed", 15000, 400000}, {"err-dest", 10000, 100000}, {"err-enc", 10000, 100000},
				{"total-loop", 20000, 400000}, {"total-dst", 40000, 600000}, {"total-val", 30000, 400000}, {"total-iter", 60000, 1000000}, {"total-deep", 80, 1000},
				{"long-stream", 8, 60},
			}},
			{Name: "386-clobber", Build: b386, Env: []string{"GODEBUG=clobberfree=1", "GOGC=20"}, Runs: []Run{{"gc-dec", 1000, 60000}, {"gc-enc", 800, 60000}, {"gc-stack", 100, 5000}, {"large-dec", 400, 10000}, {"large-enc", 300, 8000}}, Markers: fatalMarks},
			{Name: "386-checkptr", Build: b386, Flags: []string{"-gcflags=github.com/zerosnake0/jzon=-d=checkptr"}, Runs: []Run{{"typed", 8000, 200000}, {"encode", 8000, 200000}, {"structs", 2000, 50000}, {"gc-dec", 150, 8000}, {"streamer", 6000, 100000}}, Markers: fatalMarks},
		},
	})
	// every variant of C24 sees all the parts which depend on the runtime
	rel := func(f int, more ...Run) []Run {
		runs := []Run{
			{"typed", 60000, 2000000}, {"typed-seq", 15000, 300000}, {"encode", 60000, 2000000}, {"encode-fixed", 10000, 200000},
			{"round", 20000, 500000}, {"structs", 20000, 500000}, {"fields-many", 4000, 150000}, {"opt-dec", 12000, 300000}, {"opt-enc", 16000, 300000},
			{"hooks-dec", 25000, 500000}, {"hooks-enc", 25000, 500000}, {"hooks-order", 5000, 100000},
			{"untyped", 4000, 100000}, {"skip", 5000, 100000}, {"str", 8000, 150000}, {"str-out", 8000, 150000}, {"num-int", 5000, 100000}, {"num-float", 5000, 100000}, {"num-write", 5000, 100000},
			{"chunks", 6000, 100000}, {"chunks-big", 300, 4000}, {"walk", 8000, 150000}, {"walk-chunks", 4000, 60000}, {"stream", 10000, 300000}, {"stream-fault", 8000, 100000}, {"trunc", 3000, 60000}, {"skip-fault", 1500, 30000}, {"write-fault", 15000, 200000}, {"streamer", 30000, 500000},
			{"alias", 12000, 200000}, {"fresh", 12000, 200000}, {"live", 5000, 100000}, {"large-dec", 1200, 20000}, {"large-enc", 1200, 20000}, {"large-stream", 400, 6000},
			{"total-dst", 20000, 300000}, {"total-val", 20000, 300000}, {"total-iter", 30000, 500000}, {"total-loop", 10000, 200000},
		}
		for i := range runs {
			runs[i].Quick = runs[i].Quick * f / 100
			runs[i].Thorough = runs[i].Thorough * f / 100
		}
		return append(runs, more...)
	}
	clob := []string{"GODEBUG=clobberfree=1", "GOGC=20"}
	gc := []Run{{"gc-dec", 700, 40000}, {"gc-enc", 500, 40000}, {"gc-stack", 60, 3000}, {"large-enc", 200, 5000}}
	prop(&Prop{ID: "C24", Level: "exploration",
		Rule:        "the monitors of the other properties, built with other Go releases, without optimisations and with the library's debug tag, judge executions against their oracles built the same way; a case is what it is in these engines",
		Assumptions: []string{"encoding/json (v1) of each release", "Go releases are those installed here: 1.23, 1.24, 1.26 and 1.27"},
		Variants: []Variant{
			{Name: "go1.24", Go: "go1.24", Runs: rel(50)},
			{Name: "go1.26", Go: "go1.26", Runs: rel(100)},
			{Name: "go1.26-clobber", Go: "go1.26", Env: clob, Runs: gc, Markers: fatalMarks},
			{Name: "go1.27", Go: "go1.27", Build: []string{"GOEXPERIMENT=nojsonv2"}, Runs: rel(70)},
			{Name: "go1.27-checkptr", Go: "go1.27", Build: []string{"GOEXPERIMENT=nojsonv2"}, Flags: []string{"-gcflags=github.com/zerosnake0/jzon=-d=checkptr"}, Runs: []Run{{"typed", 8000, 200000}, {"encode", 8000, 200000}, {"structs", 2000, 50000}, {"gc-dec", 150, 8000}, {"streamer", 6000, 100000}}, Markers: fatalMarks},
			{Name: "noopt", Flags: []string{"-gcflags=github.com/zerosnake0/jzon=-N -l"}, Runs: rel(60, gc...)},
			{Name: "debug", Flags: []string{"-tags=debug"}, Runs: rel(60)},
		},
	})
}
