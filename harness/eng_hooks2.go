package main

import (
	"encoding/json"
	"fmt"
	"reflect"
)

// Hook types of the other kinds; written by hand from a table: value and
// pointer receivers, JSON and text hooks, sizes of zero included.

type LZ [0]int

func (l LZ) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(l)
	hcall("LZ.MarshalJSON", s, nil)
	return json.Marshal(s)
}
func (l *LZ) UnmarshalJSON(b []byte) error {
	hcall("LZ.UnmarshalJSON", fmt.Sprint(*l), b)

	return failing(b)
}

type LZP [0]int

func (l *LZP) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(*l)
	hcall("LZP.MarshalJSON", s, nil)
	return json.Marshal(s)
}
func (l *LZP) UnmarshalJSON(b []byte) error {
	hcall("LZP.UnmarshalJSON", fmt.Sprint(*l), b)

	return failing(b)
}

type LW [0]*int

func (l LW) MarshalText() ([]byte, error) {
	s := fmt.Sprint(l)
	hcall("LW.MarshalText", s, nil)
	return []byte("<" + s), failing([]byte(s))
}
func (l *LW) UnmarshalText(b []byte) error {
	hcall("LW.UnmarshalText", fmt.Sprint(*l), b)

	return failing(b)
}

type LN struct{}

func (l LN) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(l)
	hcall("LN.MarshalJSON", s, nil)
	return json.Marshal(s)
}
func (l *LN) UnmarshalJSON(b []byte) error {
	hcall("LN.UnmarshalJSON", fmt.Sprint(*l), b)

	return failing(b)
}

type LNT struct{}

func (l LNT) MarshalText() ([]byte, error) {
	s := fmt.Sprint(l)
	hcall("LNT.MarshalText", s, nil)
	return []byte("<" + s), failing([]byte(s))
}
func (l *LNT) UnmarshalText(b []byte) error {
	hcall("LNT.UnmarshalText", fmt.Sprint(*l), b)

	return failing(b)
}

type LBo bool

func (l LBo) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(l)
	hcall("LBo.MarshalJSON", s, nil)
	return json.Marshal(s)
}
func (l *LBo) UnmarshalJSON(b []byte) error {
	hcall("LBo.UnmarshalJSON", fmt.Sprint(*l), b)
	*l = len(b)%2 == 0
	return failing(b)
}

type LBoP bool

func (l *LBoP) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(*l)
	hcall("LBoP.MarshalJSON", s, nil)
	return json.Marshal(s)
}
func (l *LBoP) UnmarshalJSON(b []byte) error {
	hcall("LBoP.UnmarshalJSON", fmt.Sprint(*l), b)
	*l = len(b)%2 == 0
	return failing(b)
}

type LFl float64

func (l LFl) MarshalText() ([]byte, error) {
	s := fmt.Sprint(l)
	hcall("LFl.MarshalText", s, nil)
	return []byte("<" + s), failing([]byte(s))
}
func (l *LFl) UnmarshalText(b []byte) error {
	hcall("LFl.UnmarshalText", fmt.Sprint(*l), b)
	*l = LFl(len(b)) / 2
	return failing(b)
}

type LFlP float64

func (l *LFlP) MarshalText() ([]byte, error) {
	s := fmt.Sprint(*l)
	hcall("LFlP.MarshalText", s, nil)
	return []byte("<" + s), failing([]byte(s))
}
func (l *LFlP) UnmarshalText(b []byte) error {
	hcall("LFlP.UnmarshalText", fmt.Sprint(*l), b)
	*l = LFlP(len(b)) / 2
	return failing(b)
}

type LA2 [2]int8

func (l LA2) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(l)
	hcall("LA2.MarshalJSON", s, nil)
	return json.Marshal(s)
}
func (l *LA2) UnmarshalJSON(b []byte) error {
	hcall("LA2.UnmarshalJSON", fmt.Sprint(*l), b)
	l[1] += int8(len(b))
	return failing(b)
}

type LA2P [2]int8

func (l *LA2P) MarshalText() ([]byte, error) {
	s := fmt.Sprint(*l)
	hcall("LA2P.MarshalText", s, nil)
	return []byte("<" + s), failing([]byte(s))
}
func (l *LA2P) UnmarshalText(b []byte) error {
	hcall("LA2P.UnmarshalText", fmt.Sprint(*l), b)
	l[0] += int8(len(b))
	return failing(b)
}

type LU uint16

func (l LU) MarshalText() ([]byte, error) {
	s := fmt.Sprint(l)
	hcall("LU.MarshalText", s, nil)
	return []byte("<" + s), failing([]byte(s))
}
func (l *LU) UnmarshalText(b []byte) error {
	hcall("LU.UnmarshalText", fmt.Sprint(*l), b)
	*l += LU(len(b))
	return failing(b)
}

type LSP []int

func (l *LSP) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(*l)
	hcall("LSP.MarshalJSON", s, nil)
	return json.Marshal(s)
}
func (l *LSP) UnmarshalJSON(b []byte) error {
	hcall("LSP.UnmarshalJSON", fmt.Sprint(*l), b)
	*l = append(LSP{}, append(*l, len(b))...)
	return failing(b)
}

type LMP map[string]int

func (l *LMP) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(*l)
	hcall("LMP.MarshalJSON", s, nil)
	return json.Marshal(s)
}
func (l *LMP) UnmarshalJSON(b []byte) error {
	hcall("LMP.UnmarshalJSON", fmt.Sprint(*l), b)
	*l = LMP{string(b): 1}
	return failing(b)
}

type LDP struct{ p *int }

func (l *LDP) MarshalJSON() ([]byte, error) {
	s := LD(*l).s()
	hcall("LDP.MarshalJSON", s, nil)
	return json.Marshal(s)
}
func (l *LDP) UnmarshalJSON(b []byte) error {
	hcall("LDP.UnmarshalJSON", LD(*l).s(), b)
	n := len(b)
	l.p = &n
	return failing(b)
}

type LIP int

func (l *LIP) MarshalText() ([]byte, error) {
	s := fmt.Sprint(*l)
	hcall("LIP.MarshalText", s, nil)
	return []byte("<" + s), failing([]byte(s))
}
func (l *LIP) UnmarshalText(b []byte) error {
	hcall("LIP.UnmarshalText", fmt.Sprint(*l), b)
	*l -= LIP(len(b))
	return failing(b)
}

type LStP string

func (l *LStP) MarshalText() ([]byte, error) {
	s := fmt.Sprint(*l)
	hcall("LStP.MarshalText", s, nil)
	return []byte("<" + s), failing([]byte(s))
}
func (l *LStP) UnmarshalText(b []byte) error {
	hcall("LStP.UnmarshalText", fmt.Sprint(*l), b)
	*l = LStP(b)
	return failing(b)
}

// omitted when empty
type LOmit2 struct {
	F0 LZ   `json:",omitempty"`
	P0 *LZ  `json:",omitempty"`
	F1 LW   `json:",omitempty"`
	P1 *LW  `json:",omitempty"`
	F2 LN   `json:",omitempty"`
	P2 *LN  `json:",omitempty"`
	F3 LNT  `json:",omitempty"`
	P3 *LNT `json:",omitempty"`
	F4 LBo  `json:",omitempty"`
	P4 *LBo `json:",omitempty"`
	F5 LFl  `json:",omitempty"`
	P5 *LFl `json:",omitempty"`
	F6 LA2  `json:",omitempty"`
	P6 *LA2 `json:",omitempty"`
	F7 LU   `json:",omitempty"`
	P7 *LU  `json:",omitempty"`
}

type LOmitP struct {
	F0 LZP   `json:",omitempty"`
	P0 *LZP  `json:",omitempty"`
	F1 LBoP  `json:",omitempty"`
	P1 *LBoP `json:",omitempty"`
	F2 LFlP  `json:",omitempty"`
	P2 *LFlP `json:",omitempty"`
	F3 LA2P  `json:",omitempty"`
	P3 *LA2P `json:",omitempty"`
	F4 LSP   `json:",omitempty"`
	P4 *LSP  `json:",omitempty"`
	F5 LMP   `json:",omitempty"`
	P5 *LMP  `json:",omitempty"`
	F6 LDP   `json:",omitempty"`
	P6 *LDP  `json:",omitempty"`
	F7 LIP   `json:",omitempty"`
	P7 *LIP  `json:",omitempty"`
	F8 LStP  `json:",omitempty"`
	P8 *LStP `json:",omitempty"`
}

// one pointer-shaped member
type LOnePtr struct {
	A *LIP `json:",omitempty"`
}

func init() {
	j, t := lText(false), lText(true)
	for typ, s := range map[reflect.Type]typeSpec{
		tOf(*new(LZ)):   {func(v reflect.Value, r *Rand) {}, j},
		tOf(*new(LZP)):  {func(v reflect.Value, r *Rand) {}, j},
		tOf(*new(LW)):   {func(v reflect.Value, r *Rand) {}, t},
		tOf(*new(LN)):   {func(v reflect.Value, r *Rand) {}, j},
		tOf(*new(LNT)):  {func(v reflect.Value, r *Rand) {}, t},
		tOf(*new(LBo)):  {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LBo(r.Bool()))) }, j},
		tOf(*new(LBoP)): {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LBoP(r.Bool()))) }, j},
		tOf(*new(LFl)):  {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LFl(r.Intn(3)) / 2)) }, t},
		tOf(*new(LFlP)): {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LFlP(r.Intn(3)) / 2)) }, t},
		tOf(*new(LA2)):  {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LA2{int8(r.Intn(2)), int8(r.Intn(2))})) }, j},
		tOf(*new(LA2P)): {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LA2P{int8(r.Intn(2)), int8(r.Intn(2))})) }, t},
		tOf(*new(LU)):   {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LU(r.Intn(3)))) }, t},
		tOf(*new(LSP)):  {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf([]LSP{nil, {}, {1, 2}}[r.Intn(3)])) }, j},
		tOf(*new(LMP)):  {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf([]LMP{nil, {}, {"a": 1}}[r.Intn(3)])) }, j},
		tOf(*new(LDP)):  {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LDP{intP(r)})) }, j},
		tOf(*new(LIP)):  {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LIP(r.Intn(3)))) }, t},
		tOf(*new(LStP)): {func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf(LStP(lStr(r)))) }, t},
	} {
		specs[typ] = s
	}
	lTypes = append(lTypes, tOf(*new(LZ)), tOf(*new(LW)), tOf(*new(LN)), tOf(*new(LNT)), tOf(*new(LBo)), tOf(*new(LFl)), tOf(*new(LA2)), tOf(*new(LU)))
	lPRTypes = append(lPRTypes, tOf(*new(LZP)), tOf(*new(LBoP)), tOf(*new(LFlP)), tOf(*new(LA2P)), tOf(*new(LSP)), tOf(*new(LMP)), tOf(*new(LDP)), tOf(*new(LIP)), tOf(*new(LStP)), tOf(LOmitP{}), tOf(LOmitP{}))
	lKeys = append(lKeys, tOf(LU(0)), tOf(LFl(0)), tOf(LNT{}))
	lDecRoots = append(lDecRoots, tOf(LOmit2{}), tOf(LOmitP{}), tOf(LOnePtr{}))
	lEncRoots = append(lEncRoots, tOf(LOmit2{}), tOf(LOmit2{}), tOf(LOnePtr{}), tOf(LOnePtr{}))
}

// slices read from texts
type LST []int

func (l LST) MarshalText() ([]byte, error) {
	s := fmt.Sprint([]int(l))
	hcall("LST.MarshalText", s, nil)
	return []byte("<" + s), failing([]byte(s))
}
func (l *LST) UnmarshalText(b []byte) error {
	hcall("LST.UnmarshalText", fmt.Sprint([]int(*l), *l == nil), b)
	*l = append(LST{}, append(*l, len(b))...)
	return failing(b)
}

type LBT []byte

func (l *LBT) MarshalText() ([]byte, error) {
	s := fmt.Sprint([]byte(*l))
	hcall("LBT.MarshalText", s, nil)
	return []byte("<" + s), failing([]byte(s))
}
func (l *LBT) UnmarshalText(b []byte) error {
	hcall("LBT.UnmarshalText", fmt.Sprint([]byte(*l), *l == nil), b)
	*l = append(LBT{}, b...)
	return failing(b)
}

type LOmit3 struct {
	F0 LST  `json:",omitempty"`
	P0 *LST `json:",omitempty"`
	F1 LBT
	P1 *LBT `json:",omitempty"`
}

func init() {
	t := lText(true)
	specs[tOf(LST{})] = typeSpec{func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf([]LST{nil, {}, {1, 2}}[r.Intn(3)])) }, t}
	specs[tOf(LBT{})] = typeSpec{func(v reflect.Value, r *Rand) { v.Set(reflect.ValueOf([]LBT{nil, {}, {1, 2}}[r.Intn(3)])) }, t}
	lTypes = append(lTypes, tOf(LST{}))
	lPRTypes = append(lPRTypes, tOf(LBT{}), tOf(LOmit3{}))
	lDecRoots = append(lDecRoots, tOf(LOmit3{}))
}
