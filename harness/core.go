package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
)

// Engine drives the real library with generated executions and judges what it
// observes. One case is identified by (engine, index) and is a pure function
// of VERIF_SEED, the engine name and the index.
type Engine struct {
	Name string
	Run  func(c *C)
	// features which must have been observed, otherwise the run is
	// inconclusive
	Must []string
}

var engines = map[string]*Engine{}

func reg(name string, run func(c *C), must ...string) {
	engines[name] = &Engine{Name: name, Run: run, Must: must}
}

// Violation is one refuted execution
type Violation struct {
	Property string `json:"property"`
	Variant  string `json:"variant"`
	Engine   string `json:"engine"`
	Index    int    `json:"index"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	What     string `json:"what"`
	Context  string `json:"context,omitempty"`
}

type failure struct{ msg string }

// inconclusive: the harness itself is wrong
type inconclusive struct{ msg string }

func harnessErr(f string, a ...interface{}) inconclusive { return inconclusive{fmt.Sprintf(f, a...)} }

type stats struct {
	Evals    int64            `json:"evals"`
	Feats    map[string]int64 `json:"feats"`
	Samples  []string         `json:"samples"`
	Cases    map[string]int64 `json:"cases"`
	Viols    []Violation      `json:"viols"`
	distinct map[uint64]struct{}
}

// C is the context of one case
type C struct {
	R     *Rand
	Idx   int
	Tier  string
	Seed  uint64
	eng   *Engine
	st    *stats
	crumb []byte
	note  string
}

func (c *C) Thorough() bool { return c.Tier == "thorough" }

// Failf reports a violation and ends the case
func (c *C) Failf(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

// Feat counts an observed feature
func (c *C) Feat(name string) { c.st.Feats[name]++ }

func (c *C) FeatIf(ok bool, name string) {
	if ok {
		c.st.Feats[name]++
	}
}

const maxDistinct = 3 << 20

// Seen counts one judged execution; key identifies it, and nontrivial says
// whether it exercised the property
func (c *C) Seen(key uint64, nontrivial bool) {
	c.st.Evals++
	if nontrivial && len(c.st.distinct) < maxDistinct {
		c.st.distinct[mix(key, hashStr(c.eng.Name))] = struct{}{}
	}
}

func (c *C) SeenB(b []byte, nontrivial bool) { c.Seen(hash64(b), nontrivial) }

// Sample keeps a few written out cases
func (c *C) Sample(f string, a ...interface{}) {
	if len(c.st.Samples) < 6 && c.Idx%17 == c.eng.sampleMod() {
		s := fmt.Sprintf(f, a...)
		c.st.Samples = append(c.st.Samples, c.eng.Name+": "+clip(s, 400))
	}
}

func (e *Engine) sampleMod() int { return int(hashStr(e.Name) % 17) }

const crumbSize = 1 << 16

// Note leaves a breadcrumb which survives a crash of the process
func (c *C) Note(f string, a ...interface{}) {
	c.note = fmt.Sprintf(f, a...)
	if c.crumb != nil {
		n := copy(c.crumb[64:], c.note)
		binary.LittleEndian.PutUint32(c.crumb[24:], uint32(n))
	}
}

// NoteB is a cheap version for inputs
func (c *C) NoteB(what string, b []byte) {
	c.note = ""
	if c.crumb != nil {
		n := copy(c.crumb[64:], what)
		n += copy(c.crumb[64+n:], b)
		binary.LittleEndian.PutUint32(c.crumb[24:], uint32(n))
	}
}

func (c *C) crumbNote() string {
	if c.crumb == nil {
		return c.note
	}
	n := binary.LittleEndian.Uint32(c.crumb[24:])
	return string(c.crumb[64 : 64+n])
}

func (c *C) begin(engIdx, idx int) {
	if c.crumb != nil {
		binary.LittleEndian.PutUint64(c.crumb[0:], binary.LittleEndian.Uint64(c.crumb[0:])+1)
		binary.LittleEndian.PutUint32(c.crumb[8:], uint32(engIdx))
		binary.LittleEndian.PutUint64(c.crumb[16:], uint64(idx))
		binary.LittleEndian.PutUint32(c.crumb[24:], 0)
	}
}

// Tick tells the watchdog that a long case makes progress
func (c *C) Tick() {
	if c.crumb != nil {
		binary.LittleEndian.PutUint64(c.crumb[0:], binary.LittleEndian.Uint64(c.crumb[0:])+1)
	}
}

type crumbInfo struct {
	tick   uint64
	eng    int
	idx    int
	note   string
	usable bool
}

func readCrumb(path string) crumbInfo {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < crumbSize {
		return crumbInfo{}
	}
	n := int(binary.LittleEndian.Uint32(b[24:]))
	if n > crumbSize-64 {
		n = 0
	}
	return crumbInfo{
		tick: binary.LittleEndian.Uint64(b), eng: int(binary.LittleEndian.Uint32(b[8:])),
		idx: int(binary.LittleEndian.Uint64(b[16:])), note: string(b[64 : 64+n]), usable: true,
	}
}

func mapCrumb(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	if f.Truncate(crumbSize) != nil {
		return nil
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, crumbSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return b
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n*2/3] + fmt.Sprintf(" ...(%d bytes)... ", len(s)) + s[len(s)-n/4:]
}

func q(b []byte) string { return clip(fmt.Sprintf("%q", b), 600) }

// runCase executes one case; the verdict is nil or a violation
func runCase(p *Prop, v *Variant, e *Engine, engIdx, idx int, seed uint64, tier string, st *stats, crumb []byte) (viol *Violation) {
	c := &C{Idx: idx, Tier: tier, Seed: seed, eng: e, st: st, crumb: crumb}
	c.R = newRand(mix(mix(seed, hashStr(e.Name)), uint64(idx)))
	c.begin(engIdx, idx)
	mk := func(what string) *Violation {
		return &Violation{Property: p.ID, Variant: v.Name, Engine: e.Name, Index: idx, Seed: seed, Tier: tier, What: what, Context: clip(c.crumbNote(), 4000)}
	}
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				viol = mk(f.msg)
				return
			}
			if f, ok := r.(inconclusive); ok {
				fmt.Fprintf(os.Stderr, "%s case %d: %s\n", e.Name, idx, f.msg)
				os.Exit(3)
			}
			stack := string(debug.Stack())
			if i := strings.Index(stack, "panic("); i >= 0 {
				stack = stack[i:]
			}
			viol = mk(fmt.Sprintf("panic: %v\n%s", r, clip(stack, 3000)))
		}
	}()
	e.Run(c)
	return nil
}

// worker runs shard k of n of every engine of the variant
func worker(p *Prop, v *Variant, seed uint64, tier string, k, n int, base string, startEng, startIdx int) {
	debug.SetMaxStack(512 << 20)
	if len(v.Flags) == 0 {
		// runaway allocation ends the process here instead of the machine
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 4600 << 20, Max: 4600 << 20})
	}
	st := &stats{Feats: map[string]int64{}, Cases: map[string]int64{}, distinct: map[uint64]struct{}{}}
	crumb := mapCrumb(base + ".crumb")
	for ei, r := range v.Runs {
		e := engines[r.Engine]
		if e == nil {
			fmt.Fprintln(os.Stderr, "unknown engine", r.Engine)
			os.Exit(3)
		}
		count := r.Quick
		if tier == "thorough" {
			count = r.Thorough
		}
		if ei < startEng {
			continue
		}
		i0 := k
		if ei == startEng && startIdx > 0 {
			i0 = startIdx
		}
		t0 := time.Now()
		for i := i0; i < count; i += n {
			if viol := runCase(p, v, e, ei, i, seed, tier, st, crumb); viol != nil {
				st.Viols = append(st.Viols, *viol)
				if len(st.Viols) >= 3 {
					finish(st, base)
					return
				}
				break // next engine
			}
			st.Cases[e.Name]++
		}
		st.Feats["_ms_"+e.Name] += time.Since(t0).Milliseconds()
	}
	finish(st, base)
}

func finish(st *stats, base string) {
	hs := make([]uint64, 0, len(st.distinct))
	for h := range st.distinct {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	b := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(b[8*i:], h)
	}
	if err := os.WriteFile(base+".hashes", b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	j, _ := json.Marshal(st)
	if err := os.WriteFile(base+".stats.tmp", j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	os.Rename(base+".stats.tmp", base+".stats")
}
